//@need planar Point as HasEnvelope::envelope
//@need planar MultiPoint as HasEnvelope::envelope
// Points and point sets.
pub open spec fn into_pos<P: Into<Position>>(p: P) -> Position { IntoSpec::<Position>::into_spec(p) }
pub open spec fn points_into<P: Into<Position>>(v: Seq<P>) -> Seq<Point> { Seq::new(v.len(), |i: int| Point(into_pos(v[i]))) }
pub open spec fn hkey(p: Position) -> (NotNan, NotNan) { (NotNan { c: p.x }, NotNan { c: p.y }) }
pub open spec fn hpos(h: (NotNan, NotNan)) -> Position { Position { x: h.0.c, y: h.1.c } }
pub open spec fn hpos_fin(h: (NotNan, NotNan)) -> bool { pos_finite(hpos(h)) }
/// IEEE equality of positions: equal values, -0 equal to 0, NaN equal to nothing.
pub open spec fn pos_same(a: Position, b: Position) -> bool { e_eq(a.vx(), b.vx()) && e_eq(a.vy(), b.vy()) }
/// Every point finite, no two equal.
pub open spec fn mp_valid(s: Seq<Point>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> pos_finite((#[trigger] s[i]).0)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> !pos_same((#[trigger] s[i]).0, (#[trigger] s[j]).0)
}
pub open spec fn pos_lt(a: Position, b: Position) -> bool { e_lt(a.vx(), b.vx()) || (a.vx() == b.vx() && e_lt(a.vy(), b.vy())) }
#[verifier::opaque]
pub open spec fn has_pos(s: Seq<Point>, p: Position) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0 == p }
/// Each distinct finite position of `s` exactly once, ascending.
pub open spec fn is_simplified(m: MultiPoint, s: Seq<Point>) -> bool {
    &&& m.points@.len() > 0
    &&& forall|i: int| 0 <= i < m.points@.len() ==> pos_finite((#[trigger] m.points@[i]).0) && has_pos(s, m.points@[i].0)
    &&& forall|j: int| 0 <= j < s.len() && pos_finite((#[trigger] s[j]).0) ==> has_pos(m.points@, s[j].0)
    &&& forall|i: int, j: int| 0 <= i < j < m.points@.len() ==> pos_lt((#[trigger] m.points@[i]).0, (#[trigger] m.points@[j]).0)
    &&& mp_valid(m.points@)
    &&& m._envelope == seq_env(m.points@)
}
pub open spec fn geom_empty() -> Geometry { Geometry::Empty(Empty { phantom: PhantomData }) }
