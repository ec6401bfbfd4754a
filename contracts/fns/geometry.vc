@@fn planar Geometry as From<Empty<C>>::from
@@extra
impl FromSpecImpl<Empty> for Geometry {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: Empty) -> Geometry { Geometry::Empty(Empty { phantom: PhantomData }) }
}
@@fn planar Geometry as From<Point<C>>::from
@@extra
impl FromSpecImpl<Point> for Geometry {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: Point) -> Geometry { Geometry::Point(x) }
}
@@fn planar Geometry as From<LineString<C>>::from
@@extra
impl FromSpecImpl<LineString> for Geometry {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: LineString) -> Geometry { Geometry::LineString(x) }
}
@@fn planar Geometry as From<Polygon<C>>::from
@@extra
impl FromSpecImpl<Polygon> for Geometry {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: Polygon) -> Geometry { Geometry::Polygon(x) }
}
@@fn planar Geometry as From<MultiPoint<C>>::from
@@extra
impl FromSpecImpl<MultiPoint> for Geometry {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: MultiPoint) -> Geometry { Geometry::MultiPoint(x) }
}
@@fn planar Geometry as From<MultiLineString<C>>::from
@@extra
impl FromSpecImpl<MultiLineString> for Geometry {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: MultiLineString) -> Geometry { Geometry::MultiLineString(x) }
}
@@fn planar Geometry as From<MultiPolygon<C>>::from
@@extra
impl FromSpecImpl<MultiPolygon> for Geometry {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(x: MultiPolygon) -> Geometry { Geometry::MultiPolygon(x) }
}
@@fn planar Geometry::empty
    ensures ret == geom_empty(),
@@fn planar Empty::new
    ensures ret == (Empty { phantom: PhantomData }),
@@fn planar Empty as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { Envelope::Empty }
@@fn planar Empty::dimension
    ensures ret == 0,
@@fn planar Empty::geometry_type
    ensures ret@ == "Empty"@,
@@fn planar Empty::is_empty
    ensures ret,
@@fn planar Empty::is_simple
    ensures ret,
@@fn planar Empty::validate
    ensures ret is Ok,
@@fn planar Empty::boundary
    ensures ret == geom_empty(),
@@fn planar Geometry::as_point
    ensures ret == (match self { Geometry::Point(x) => Some(x), _ => None::<Point> }),
@@fn planar Geometry::as_linestring
    ensures ret == (match self { Geometry::LineString(x) => Some(x), _ => None::<LineString> }),
@@fn planar Geometry::as_polygon
    ensures ret == (match self { Geometry::Polygon(x) => Some(x), _ => None::<Polygon> }),
@@fn planar Geometry::as_multipoint
    ensures ret == (match self { Geometry::MultiPoint(x) => Some(x), _ => None::<MultiPoint> }),
@@fn planar Geometry::as_multilinestring
    ensures ret == (match self { Geometry::MultiLineString(x) => Some(x), _ => None::<MultiLineString> }),
@@fn planar Geometry::as_multipolygon
    ensures ret == (match self { Geometry::MultiPolygon(x) => Some(x), _ => None::<MultiPolygon> }),
@@fn planar Geometry::as_empty
    ensures ret is Some <==> geom_is_empty(self),
@@fn planar Geometry::is_empty
    ensures ret == geom_is_empty(*self),
@@fn planar Geometry::dimension
    ensures ret == geom_dimension(*self),
@@fn planar Geometry::geometry_type
    ensures ret@ == geom_type(*self),
@@fn planar Geometry::envelope
    ensures ret == geom_env(*self),
@@fn planar Geometry::is_simple
    ensures ret == geom_simple(*self),
@@fn planar Geometry::boundary
    ensures is_geom_boundary(ret, *self),
