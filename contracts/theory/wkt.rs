use vstd::utf8::encode_utf8;
// What the WKT parser (an external crate) hands over, and the geometry it stands for.
// The types mirror the public types of the wkt crate; f64 is the coordinate type.
pub struct wkt_types_Coord { pub x: C, pub y: C, pub z: Option<C>, pub m: Option<C> }
pub struct wkt_types_Point(pub Option<wkt_types_Coord>);
pub struct wkt_types_LineString(pub Vec<wkt_types_Coord>);
pub struct wkt_types_Polygon(pub Vec<wkt_types_LineString>);
pub struct wkt_types_MultiPoint(pub Vec<wkt_types_Point>);
pub struct wkt_types_MultiLineString(pub Vec<wkt_types_LineString>);
pub struct wkt_types_MultiPolygon(pub Vec<wkt_types_Polygon>);
pub struct wkt_types_GeometryCollection(pub Vec<wkt_Geometry>);
pub enum wkt_Geometry {
    Point(wkt_types_Point),
    LineString(wkt_types_LineString),
    Polygon(wkt_types_Polygon),
    MultiPoint(wkt_types_MultiPoint),
    MultiLineString(wkt_types_MultiLineString),
    MultiPolygon(wkt_types_MultiPolygon),
    GeometryCollection(wkt_types_GeometryCollection),
}
pub struct wkt_Wkt { pub items: Vec<wkt_Geometry> }
pub open spec fn wkt_ws(b: u8) -> bool { b == 32 || b == 9 || b == 10 || b == 13 }
pub open spec fn low(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
/// "geometrycollection"
pub open spec fn wkt_gc() -> Seq<u8> { seq![103u8, 101, 111, 109, 101, 116, 114, 121, 99, 111, 108, 108, 101, 99, 116, 105, 111, 110] }
/// After k blanks the text reads GEOMETRYCOLLECTION, in whatever case.
pub open spec fn wkt_gc_at(b: Seq<u8>, k: int) -> bool {
    0 <= k && k + 18 <= b.len() && (forall|i: int| 0 <= i < k ==> wkt_ws(#[trigger] b[i])) && (forall|i: int| 0 <= i < 18 ==> low(#[trigger] b[k + i]) == wkt_gc()[i])
}
pub open spec fn wkt_gc_text(s: Seq<char>) -> bool { exists|k: int| wkt_gc_at(encode_utf8(s), k) }
pub assume_specification [<[u8]>::eq_ignore_ascii_case] (a: &[u8], b: &[u8]) -> (r: bool)
    ensures r == (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> low(#[trigger] a@[i]) == low(b@[i]));
/// The external parser: some function of the text.
pub uninterp spec fn wkt_parse(s: Seq<char>) -> Option<Seq<wkt_Geometry>>;
impl wkt_Wkt {
    #[verifier::external_body]
    // It calls itself once per nested collection, so it may not be given one.
    pub fn from_str(s: &str) -> (r: Result<wkt_Wkt, &'static str>)
        requires !wkt_gc_text(s@)
        ensures r is Ok <==> wkt_parse(s@) is Some, r is Ok ==> r->Ok_0.items@ == wkt_parse(s@)->Some_0
    { unimplemented!() }
}
/// The first error, or all values.
pub fn vcollect_ok<T, E>(v: Vec<Result<T, E>>) -> (r: Result<Vec<T>, E>)
    ensures r is Ok <==> (forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]) is Ok),
        r is Ok ==> r->Ok_0@.len() == v@.len() && (forall|i: int| 0 <= i < v@.len() ==> v@[i] == Ok::<T, E>(#[trigger] r->Ok_0@[i]))
{
    let mut out: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), out@.len() == i, forall|k: int| 0 <= k < i ==> v@[k] == Ok::<T, E>(#[trigger] out@[k])
        decreases v@.len() - i
    {
        match vtake(&v, i) {
            Ok(x) => { out.push(x); }
            Err(e) => { proof { assert(v@[i as int] is Err); } return Err(e); }
        }
        i += 1;
    }
    proof { assert forall|k: int| 0 <= k < v@.len() implies (#[trigger] v@[k]) is Ok by { assert(v@[k] == Ok::<T, E>(out@[k])); } }
    Ok(out)
}

pub open spec fn w_pos(c: wkt_types_Coord) -> Position { Position { x: c.x, y: c.y } }
pub open spec fn w_line(l: LineString, w: wkt_types_LineString) -> bool {
    l.positions@.len() == w.0@.len() && (forall|i: int| 0 <= i < w.0@.len() ==> #[trigger] l.positions@[i] == w_pos(w.0@[i])) && l._envelope == seq_env(l.positions@)
}
pub open spec fn w_lines(l: Seq<LineString>, w: Seq<wkt_types_LineString>) -> bool {
    l.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> w_line(#[trigger] l[i], w[i])
}
/// The first ring is the exterior, the others are the holes, in order.
pub open spec fn w_poly(p: Polygon, w: wkt_types_Polygon) -> bool {
    w.0@.len() > 0 && w_line(p.exterior, w.0@[0]) && w_lines(p.interiors@, w.0@.subrange(1, w.0@.len() as int)) && p._envelope == p.exterior.env()
}
/// Points that are not EMPTY, in order.
pub open spec fn w_points(w: Seq<wkt_types_Point>) -> Seq<Point> decreases w.len() {
    if w.len() == 0 { seq![] } else if w.last().0 is Some { w_points(w.drop_last()).push(Point(w_pos(w.last().0->Some_0))) } else { w_points(w.drop_last()) }
}
/// Polygons that are not EMPTY, in order.
pub open spec fn w_kept(w: Seq<wkt_types_Polygon>) -> Seq<wkt_types_Polygon> decreases w.len() {
    if w.len() == 0 { seq![] } else if w.last().0@.len() > 0 { w_kept(w.drop_last()).push(w.last()) } else { w_kept(w.drop_last()) }
}
pub open spec fn w_polys(p: Seq<Polygon>, w: Seq<wkt_types_Polygon>) -> bool {
    p.len() == w.len() && forall|i: int| 0 <= i < w.len() ==> w_poly(#[trigger] p[i], w[i])
}
pub open spec fn w_geom(g: Geometry, w: wkt_Geometry) -> bool {
    match w {
        wkt_Geometry::Point(p) => if p.0 is Some { g == Geometry::Point(Point(w_pos(p.0->Some_0))) } else { g == geom_empty() },
        wkt_Geometry::LineString(l) => g is LineString && w_line(g->LineString_0, l),
        wkt_Geometry::Polygon(p) => if p.0@.len() > 0 { g is Polygon && w_poly(g->Polygon_0, p) } else { g == geom_empty() },
        wkt_Geometry::MultiPoint(m) => g is MultiPoint && g->MultiPoint_0.points@ == w_points(m.0@) && g->MultiPoint_0._envelope == seq_env(g->MultiPoint_0.points@),
        wkt_Geometry::MultiLineString(m) => g is MultiLineString && w_lines(g->MultiLineString_0.line_strings@, m.0@) && g->MultiLineString_0._envelope == seq_env(g->MultiLineString_0.line_strings@),
        wkt_Geometry::MultiPolygon(m) => g is MultiPolygon && w_polys(g->MultiPolygon_0.polygons@, w_kept(m.0@)) && g->MultiPolygon_0._envelope == seq_env(g->MultiPolygon_0.polygons@),
        wkt_Geometry::GeometryCollection(_) => false,
    }
}
