//@need planar Empty as HasEnvelope::envelope
// What a wrapped geometry answers: the answer of the geometry inside.
pub open spec fn geom_dimension(g: Geometry) -> u8 {
    match g {
        Geometry::Empty(_) => 0, Geometry::Point(_) => 0, Geometry::MultiPoint(_) => 0,
        Geometry::LineString(_) => 1, Geometry::MultiLineString(_) => 1, Geometry::Polygon(_) => 2, Geometry::MultiPolygon(_) => 2,
    }
}
pub open spec fn geom_type(g: Geometry) -> Seq<char> {
    match g {
        Geometry::Empty(_) => "Empty"@, Geometry::Point(_) => "Point"@, Geometry::MultiPoint(_) => "MultiPoint"@,
        Geometry::LineString(_) => "LineString"@, Geometry::MultiLineString(_) => "MultiLineString"@,
        Geometry::Polygon(_) => "Polygon"@, Geometry::MultiPolygon(_) => "MultiPolygon"@,
    }
}
pub open spec fn geom_env(g: Geometry) -> Envelope {
    match g {
        Geometry::Empty(x) => x.env(), Geometry::Point(x) => x.env(), Geometry::MultiPoint(x) => x.env(),
        Geometry::LineString(x) => x.env(), Geometry::MultiLineString(x) => x.env(), Geometry::Polygon(x) => x.env(), Geometry::MultiPolygon(x) => x.env(),
    }
}
// Simplicity of the concrete types, as functions of the value (what they are is C12, C13, C17, C18).
pub uninterp spec fn ls_simple(x: LineString) -> bool;
pub uninterp spec fn mls_simple(x: MultiLineString) -> bool;
pub uninterp spec fn pg_simple(x: Polygon) -> bool;
pub uninterp spec fn mpg_simple(x: MultiPolygon) -> bool;
pub open spec fn geom_simple(g: Geometry) -> bool {
    match g {
        Geometry::Empty(_) => true, Geometry::Point(x) => pos_finite(x.0), Geometry::MultiPoint(x) => mp_valid(x.points@),
        Geometry::LineString(x) => ls_simple(x), Geometry::MultiLineString(x) => mls_simple(x), Geometry::Polygon(x) => pg_simple(x), Geometry::MultiPolygon(x) => mpg_simple(x),
    }
}
pub open spec fn is_geom_boundary(r: Geometry, g: Geometry) -> bool {
    match g {
        Geometry::Empty(_) => r == geom_empty(), Geometry::Point(_) => r == geom_empty(), Geometry::MultiPoint(_) => r == geom_empty(),
        Geometry::LineString(x) => is_ls_boundary(r, x.positions@), Geometry::MultiLineString(x) => is_mls_boundary(r, x.line_strings@),
        Geometry::Polygon(x) => is_pg_boundary(r, x), Geometry::MultiPolygon(x) => is_mpg_boundary(r, x),
    }
}
