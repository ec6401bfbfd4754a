// Euclidean quantities over the reals; every statement is conditional on exact_arith().
pub open spec fn rx(p: Position) -> real { p.vx()->Fin_0 }
pub open spec fn ry(p: Position) -> real { p.vy()->Fin_0 }
pub open spec fn all_finite(s: Seq<Position>) -> bool { forall|i: int| 0 <= i < s.len() ==> pos_finite(#[trigger] s[i]) }
pub open spec fn r_cross(a: Position, b: Position) -> real { rx(a) * ry(b) - ry(a) * rx(b) }
pub open spec fn r_dot(a: Position, b: Position) -> real { rx(a) * rx(b) + ry(a) * ry(b) }
pub open spec fn norm2(a: Position, b: Position) -> real { (rx(b) - rx(a)) * (rx(b) - rx(a)) + (ry(b) - ry(a)) * (ry(b) - ry(a)) }
pub open spec fn is_norm(e: Ext, a: Position, b: Position) -> bool { e is Fin && e->Fin_0 >= 0real && e->Fin_0 * e->Fin_0 == norm2(a, b) }
/// Euclidean distance: the non-negative root of norm2.
pub open spec fn dist(a: Position, b: Position) -> real { choose|r: real| #[trigger] is_root(r, norm2(a, b)) }
pub open spec fn is_root(r: real, n: real) -> bool { r >= 0real && r * r == n }
pub proof fn lemma_norm2_nonneg(a: Position, b: Position) ensures norm2(a, b) >= 0real
{ let u = rx(b) - rx(a); let v = ry(b) - ry(a); assert(u * u >= 0real) by (nonlinear_arith); assert(v * v >= 0real) by (nonlinear_arith); }
proof fn lemma_root_unique(r: real, q: real)
    requires r >= 0real, q >= 0real, r * r == q * q ensures r == q
{ assert(r == q) by (nonlinear_arith) requires r >= 0real, q >= 0real, r * r == q * q; }
pub broadcast proof fn lemma_dist(e: Ext, a: Position, b: Position)
    requires #[trigger] is_norm(e, a, b) ensures e == Ext::Fin(dist(a, b))
{ let r = e->Fin_0; assert(is_root(r, norm2(a, b))); lemma_root_unique(r, dist(a, b)); }
pub open spec fn rsum(s: Seq<Ext>) -> real
    decreases s.len()
{ if s.len() == 0 { 0real } else { rsum(s.drop_last()) + s.last()->Fin_0 } }
pub proof fn lemma_sum_fin(s: Seq<Ext>)
    requires exact_arith(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Fin
    ensures sum_fold(s) == Ext::Fin(rsum(s))
    decreases s.len()
{ broadcast use group_arith; if s.len() > 0 { lemma_sum_fin(s.drop_last()); assert(s.last() is Fin); assert(sum_fold(s) == c_add(sum_fold(s.drop_last()), s.last())); } }
pub open spec fn dists(s: Seq<Position>) -> Seq<Ext> { Seq::new((if s.len() == 0 { 0 } else { s.len() - 1 }) as nat, |i: int| Ext::Fin(dist(s[i], s[i + 1]))) }
pub open spec fn is_length(e: Ext, s: Seq<Position>) -> bool { e == Ext::Fin(rsum(dists(s))) }
pub open spec fn mls_dists(s: Seq<LineString>) -> Seq<Ext> { Seq::new(s.len(), |i: int| Ext::Fin(rsum(dists(s[i].positions@)))) }
pub open spec fn is_mls_length(e: Ext, s: Seq<LineString>) -> bool { e == Ext::Fin(rsum(mls_dists(s))) }
pub open spec fn r_area2(t: Triangle) -> real { (rx(t.1) - rx(t.0)) * (ry(t.2) - ry(t.0)) - (rx(t.2) - rx(t.0)) * (ry(t.1) - ry(t.0)) }
pub open spec fn tri_finite(t: Triangle) -> bool { pos_finite(t.0) && pos_finite(t.1) && pos_finite(t.2) }
pub open spec fn mls_finite(s: Seq<LineString>) -> bool { forall|i: int| 0 <= i < s.len() ==> all_finite((#[trigger] s[i]).positions@) }
