// The on-line convex hull of a simple chain (Melkman), clockwise, first vertex repeated.
// ---- algebra --------------------------------------------------------------------
pub mod hullm {
use super::realm::*;
use vstd::prelude::*;
pub proof fn lemma_p2(a: real, b: real, c: real, d: real) ensures (a - b) * (c - d) == a * c - a * d - b * c + b * d
{ assert((a - b) * (c - d) == a * c - a * d - b * c + b * d) by (nonlinear_arith); }
pub proof fn lemma_m4(a: real, b: real, c: real, d: real) ensures (a * b) * (c * d) == (a * c) * (d * b), (a * b) * (c * d) == (a * d) * (b * c)
{
    assert((a * b) * (c * d) == (a * c) * (d * b)) by (nonlinear_arith);
    assert((a * b) * (c * d) == (a * d) * (b * c)) by (nonlinear_arith);
}
pub proof fn lemma_gp4(x0: real, x1: real, y0: real, y1: real, z0: real, z1: real, w0: real, w1: real)
    ensures (x0 * y1 - x1 * y0) * (z0 * w1 - z1 * w0) + (x0 * z1 - x1 * z0) * (w0 * y1 - w1 * y0) + (x0 * w1 - x1 * w0) * (y0 * z1 - y1 * z0) == 0real
{
    lemma_p2(x0 * y1, x1 * y0, z0 * w1, z1 * w0);
    lemma_p2(x0 * z1, x1 * z0, w0 * y1, w1 * y0);
    lemma_p2(x0 * w1, x1 * w0, y0 * z1, y1 * z0);
    lemma_m4(x0, y1, z0, w1); lemma_m4(x0, y1, z1, w0); lemma_m4(x1, y0, z0, w1); lemma_m4(x1, y0, z1, w0); lemma_m4(x0, z1, w1, y0); lemma_m4(x1, z0, w0, y1);
}
/// Sign of a product.
pub proof fn lemma_pr(a: real, b: real)
    ensures a <= 0real && b <= 0real ==> a * b >= 0real, a >= 0real && b >= 0real ==> a * b >= 0real, a <= 0real && b >= 0real ==> a * b <= 0real, a >= 0real && b <= 0real ==> a * b <= 0real,
        a < 0real && b < 0real ==> a * b > 0real, a > 0real && b > 0real ==> a * b > 0real, a < 0real && b > 0real ==> a * b < 0real, a > 0real && b < 0real ==> a * b < 0real,
        a == 0real || b == 0real ==> a * b == 0real
{
    if a <= 0real && b <= 0real { assert(a * b >= 0real) by (nonlinear_arith) requires a <= 0real, b <= 0real; }
    if a >= 0real && b >= 0real { assert(a * b >= 0real) by (nonlinear_arith) requires a >= 0real, b >= 0real; }
    if a <= 0real && b >= 0real { assert(a * b <= 0real) by (nonlinear_arith) requires a <= 0real, b >= 0real; }
    if a >= 0real && b <= 0real { assert(a * b <= 0real) by (nonlinear_arith) requires a >= 0real, b <= 0real; }
    if a < 0real && b < 0real { assert(a * b > 0real) by (nonlinear_arith) requires a < 0real, b < 0real; }
    if a > 0real && b > 0real { assert(a * b > 0real) by (nonlinear_arith) requires a > 0real, b > 0real; }
    if a < 0real && b > 0real { assert(a * b < 0real) by (nonlinear_arith) requires a < 0real, b > 0real; }
    if a > 0real && b < 0real { assert(a * b < 0real) by (nonlinear_arith) requires a > 0real, b < 0real; }
    if a == 0real || b == 0real { assert(a * b == 0real) by (nonlinear_arith) requires a == 0real || b == 0real; }
}
pub proof fn lemma_turn(k: real, e0: real, e1: real, x0: real, x1: real) ensures k * (e0 * x1 - e1 * x0) == e0 * (k * x1) - e1 * (k * x0)
{ lemma_sub_mul(k, e0 * x1, e1 * x0); lemma_mul_swap(k, e0, x1); lemma_mul_swap(k, e1, x0); }
pub proof fn lemma_bary1(al: real, be: real, ga: real, a0: real, a1: real, b0: real, b1: real, c0: real, c1: real, e0: real, e1: real)
    requires al * a0 + be * b0 + ga * c0 == 0real, al * a1 + be * b1 + ga * c1 == 0real
    ensures al * (e0 * a1 - e1 * a0) + be * (e0 * b1 - e1 * b0) + ga * (e0 * c1 - e1 * c0) == 0real
{
    lemma_turn(al, e0, e1, a0, a1); lemma_turn(be, e0, e1, b0, b1); lemma_turn(ga, e0, e1, c0, c1);
    lemma_mul_dist(e0, al * a1, be * b1); lemma_mul_dist(e0, al * a1 + be * b1, ga * c1);
    lemma_mul_dist(e1, al * a0, be * b0); lemma_mul_dist(e1, al * a0 + be * b0, ga * c0);
    lemma_pr(e0, 0real); lemma_pr(e1, 0real);
}
pub proof fn lemma_bary2(al: real, be: real, ga: real, x: real, u: real, v: real, w: real)
    ensures al * (x + u) + be * (x + v) + ga * (x + w) == (al + be + ga) * x + (al * u + be * v + ga * w)
{
    lemma_mul_dist(al, x, u); lemma_mul_dist(be, x, v); lemma_mul_dist(ga, x, w);
    lemma_mul_dist(x, al, be); lemma_mul_dist(x, al + be, ga);
}
pub proof fn lemma_vec0h(a: real, b: real, c: real, x: real, y: real, z: real)
    ensures (b * z - y * c) * a + (c * x - z * a) * b + (a * y - x * b) * c == 0real
{
    lemma_sub_mul(a, b * z, y * c); lemma_sub_mul(b, c * x, z * a); lemma_sub_mul(c, a * y, x * b);
    lemma_m3(b, z, a); lemma_m3(y, c, a); lemma_m3(c, x, b); lemma_m3(z, a, b); lemma_m3(a, y, c); lemma_m3(x, b, c);
}
pub proof fn lemma_vec0(a0: real, a1: real, b0: real, b1: real, c0: real, c1: real)
    ensures (b0 * c1 - b1 * c0) * a0 + (c0 * a1 - c1 * a0) * b0 + (a0 * b1 - a1 * b0) * c0 == 0real, (b0 * c1 - b1 * c0) * a1 + (c0 * a1 - c1 * a0) * b1 + (a0 * b1 - a1 * b0) * c1 == 0real
{
    lemma_vec0h(a0, b0, c0, a1, b1, c1);
    lemma_sub_mul(a1, b0 * c1, b1 * c0); lemma_sub_mul(b1, c0 * a1, c1 * a0); lemma_sub_mul(c1, a0 * b1, a1 * b0);
    lemma_m3(b0, c1, a1); lemma_m3(b1, c0, a1); lemma_m3(c0, a1, b1); lemma_m3(c1, a0, b1); lemma_m3(a0, b1, c1); lemma_m3(a1, b0, c1);
}
/// A cross product does not change when one vector is added to the other.
pub proof fn lemma_shift(u0: real, u1: real, e0: real, e1: real) ensures u0 * (e1 + u1) - u1 * (e0 + u0) == u0 * e1 - u1 * e0
{ lemma_mul_dist(u0, e1, u1); lemma_mul_dist(u1, e0, u0); lemma_mul_comm(u0, u1); }
pub proof fn lemma_neg_mul(a: real, b: real) ensures (-a) * b == -(a * b), a * (-b) == -(a * b)
{ assert((-a) * b == -(a * b) && a * (-b) == -(a * b)) by (nonlinear_arith); }
pub proof fn lemma_less_one(l: real, e: real) ensures (l - 1real) * e == l * e - e { assert((l - 1real) * e == l * e - e) by (nonlinear_arith); }
pub proof fn lemma_div_at(n: real, k: real) requires k != 0real ensures (n / k) * k == n, k * (n / k) == n
{ assert((n / k) * k == n && k * (n / k) == n) by (nonlinear_arith) requires k != 0real; }
}
pub use hullm::*;
// ---- orientation identities ----------------------------------------------------
proof fn lemma_gp(o: P2, a: P2, b: P2, c: P2, d: P2)
    ensures orient(o, a, b) * orient(o, c, d) + orient(o, a, c) * orient(o, d, b) + orient(o, a, d) * orient(o, b, c) == 0real
{ lemma_gp4(a.0 - o.0, a.1 - o.1, b.0 - o.0, b.1 - o.1, c.0 - o.0, c.1 - o.1, d.0 - o.0, d.1 - o.1); }
proof fn lemma_orient_sum(a: P2, b: P2, p: P2) ensures orient(a, b, p) == b.0 * p.1 - b.0 * a.1 - a.0 * p.1 - (p.0 * b.1 - a.0 * b.1 - p.0 * a.1)
{
    lemma_p2(b.0, a.0, p.1, a.1); lemma_p2(b.1, a.1, p.0, a.0);
    lemma_mul_comm(b.1, p.0); lemma_mul_comm(b.1, a.0); lemma_mul_comm(a.1, p.0); lemma_mul_comm(a.1, a.0);
}
proof fn lemma_cyc(a: P2, b: P2, c: P2)
    ensures orient(b, c, a) == orient(a, b, c), orient(c, a, b) == orient(a, b, c), orient(b, a, c) == -orient(a, b, c), orient(a, c, b) == -orient(a, b, c), orient(c, b, a) == -orient(a, b, c),
        orient(a, a, b) == 0real, orient(a, b, a) == 0real, orient(a, b, b) == 0real
{
    lemma_orient_sum(a, b, c); lemma_orient_sum(b, c, a); lemma_orient_sum(c, a, b); lemma_orient_sum(b, a, c); lemma_orient_sum(a, c, b); lemma_orient_sum(c, b, a);
    lemma_orient_sum(a, a, b); lemma_orient_sum(a, b, a); lemma_orient_sum(a, b, b);
}
proof fn lemma_area(a: P2, b: P2, c: P2, p: P2) ensures orient(a, b, c) == orient(a, b, p) + orient(b, c, p) + orient(c, a, p)
{ lemma_orient_sum(a, b, c); lemma_orient_sum(a, b, p); lemma_orient_sum(b, c, p); lemma_orient_sum(c, a, p); }
proof fn lemma_aff(x: P2, y: P2, p: P2, z: P2) ensures orient(x, y, z) == orient(x, y, p) + (y.0 - x.0) * (z.1 - p.1) - (y.1 - x.1) * (z.0 - p.0)
{
    let e0 = y.0 - x.0; let e1 = y.1 - x.1;
    lemma_mul_dist(e0, p.1 - x.1, z.1 - p.1); lemma_mul_dist(e1, p.0 - x.0, z.0 - p.0);
    assert((p.1 - x.1) + (z.1 - p.1) == z.1 - x.1 && (p.0 - x.0) + (z.0 - p.0) == z.0 - x.0);
}
/// Side functions are affine: their value at p from those at the corners of a triangle.
proof fn lemma_bary(a: P2, b: P2, c: P2, p: P2, x: P2, y: P2)
    ensures orient(a, b, c) * orient(x, y, p) == orient(b, c, p) * orient(x, y, a) + orient(c, a, p) * orient(x, y, b) + orient(a, b, p) * orient(x, y, c)
{
    let al = orient(b, c, p); let be = orient(c, a, p); let ga = orient(a, b, p);
    lemma_cyc(b, c, p); lemma_cyc(c, a, p); lemma_cyc(a, b, p);
    lemma_area(a, b, c, p);
    lemma_vec0(a.0 - p.0, a.1 - p.1, b.0 - p.0, b.1 - p.1, c.0 - p.0, c.1 - p.1);
    lemma_bary1(al, be, ga, a.0 - p.0, a.1 - p.1, b.0 - p.0, b.1 - p.1, c.0 - p.0, c.1 - p.1, y.0 - x.0, y.1 - x.1);
    lemma_aff(x, y, p, a); lemma_aff(x, y, p, b); lemma_aff(x, y, p, c);
    let u = (y.0 - x.0) * (a.1 - p.1) - (y.1 - x.1) * (a.0 - p.0);
    let v = (y.0 - x.0) * (b.1 - p.1) - (y.1 - x.1) * (b.0 - p.0);
    let w = (y.0 - x.0) * (c.1 - p.1) - (y.1 - x.1) * (c.0 - p.0);
    lemma_bary2(al, be, ga, orient(x, y, p), u, v, w);
}
/// ... and along a segment.
proof fn lemma_aff_on(a: P2, b: P2, p: P2, q: P2, z: P2) -> (t: real)
    requires on2(p, q, z)
    ensures 0real <= t <= 1real, orient(a, b, z) == orient(a, b, p) + t * (orient(a, b, q) - orient(a, b, p)), z.0 == p.0 + t * (q.0 - p.0), z.1 == p.1 + t * (q.1 - p.1)
{
    reveal(onr);
    let t = choose|t: real| #[trigger] on_t(p.0, p.1, q.0, q.1, z.0, z.1, t);
    lemma_aff(a, b, p, z); lemma_aff(a, b, p, q);
    let e0 = b.0 - a.0; let e1 = b.1 - a.1; let f0 = q.0 - p.0; let f1 = q.1 - p.1;
    lemma_turn(t, e0, e1, f0, f1);
    t
}
proof fn lemma_mix_sign(x: real, y: real, t: real)
    requires 0real <= t <= 1real
    ensures x <= 0real && y <= 0real ==> x + t * (y - x) <= 0real, x < 0real && y < 0real ==> x + t * (y - x) < 0real, x >= 0real && y >= 0real ==> x + t * (y - x) >= 0real,
        x <= 0real && x + t * (y - x) > 0real ==> y > 0real, x < 0real && x + t * (y - x) == 0real ==> y >= 0real && (t == 1real || y > 0real)
{
    assert(x + t * (y - x) == (1real - t) * x + t * y) by (nonlinear_arith);
    lemma_pr(1real - t, x); lemma_pr(t, y);
}
/// A segment whose ends are on one side of a line meets no segment of the line.
proof fn lemma_one_side_apart(p: P2, q: P2, a: P2, b: P2)
    requires orient(a, b, p) < 0real, orient(a, b, q) < 0real ensures apart2(p, q, a, b), apart2(p, q, b, a)
{
    reveal(apart2);
    assert forall|z: P2| !#[trigger] meet2(p, q, a, b, z) by {
        if meet2(p, q, a, b, z) { let t = lemma_aff_on(a, b, p, q, z); lemma_mix_sign(orient(a, b, p), orient(a, b, q), t); lemma_on_at(a, b, z); }
    }
    assert forall|z: P2| !#[trigger] meet2(p, q, b, a, z) by { if meet2(p, q, b, a, z) { lemma_flip2_on(b, a, z); assert(meet2(p, q, a, b, z)); } }
}
proof fn lemma_cut(a: P2, b: P2, q: P2, w: P2) -> (c: P2)
    requires orient(a, b, q) <= 0real, orient(a, b, w) > 0real ensures on2(q, w, c), orient(a, b, c) == 0real
{
    let g0 = orient(a, b, q); let g1 = orient(a, b, w);
    let d = g1 - g0;
    let t = (-g0) / d;
    assert(t * d == -g0) by (nonlinear_arith) requires t == (-g0) / d, d > 0real;
    assert(0real <= t <= 1real) by (nonlinear_arith) requires t * d == -g0, d > 0real, g0 <= 0real, d >= -g0;
    let c = (q.0 + t * (w.0 - q.0), q.1 + t * (w.1 - q.1));
    reveal(onr);
    assert(on_t(q.0, q.1, w.0, w.1, c.0, c.1, t));
    let u = lemma_aff_on(a, b, q, w, c);
    lemma_aff(a, b, q, c); lemma_aff(a, b, q, w);
    let e0 = b.0 - a.0; let e1 = b.1 - a.1; let f0 = w.0 - q.0; let f1 = w.1 - q.1;
    lemma_turn(t, e0, e1, f0, f1);
    c
}
/// A point of the line ab inside the two neighbouring edges of a convex ring is on ab.
proof fn lemma_edge_pt(x: P2, a: P2, b: P2, y: P2, c: P2)
    requires orient(a, b, c) == 0real, orient(x, a, b) < 0real, orient(a, b, y) < 0real, orient(x, a, c) <= 0real, orient(b, y, c) <= 0real
    ensures on2(a, b, c)
{
    let u0 = a.0 - x.0; let u1 = a.1 - x.1; let e0 = b.0 - a.0; let e1 = b.1 - a.1; let f0 = c.0 - a.0; let f1 = c.1 - a.1;
    let k = orient(x, a, b); let n = orient(x, a, c);
    lemma_shift(u0, u1, e0, e1); lemma_shift(u0, u1, f0, f1);
    assert(b.1 - x.1 == e1 + u1 && b.0 - x.0 == e0 + u0 && c.1 - x.1 == f1 + u1 && c.0 - x.0 == f0 + u0);
    assert(k == u0 * e1 - u1 * e0 && n == u0 * f1 - u1 * f0);
    lemma_vec0(u0, u1, e0, e1, f0, f1);
    let o = e0 * f1 - e1 * f0;
    assert(o == 0real);
    lemma_mul_comm(f0, u1); lemma_mul_comm(f1, u0);
    lemma_pr(o, u0); lemma_pr(o, u1); lemma_neg_mul(n, e0); lemma_neg_mul(n, e1);
    assert(k * f0 == n * e0 && k * f1 == n * e1);
    let l = n / k;
    lemma_div_at(n, k);
    assert(l >= 0real) by { lemma_pr(l, k); }
    lemma_div_vec(l, k, n, f0, e0); lemma_div_vec(l, k, n, f1, e1);
    let h = orient(a, b, y); let m = orient(b, y, c);
    let v0 = y.0 - b.0; let v1 = y.1 - b.1;
    let j = l - 1real;
    lemma_less_one(l, e0); lemma_less_one(l, e1);
    assert(c.0 - b.0 == j * e0 && c.1 - b.1 == j * e1);
    lemma_shift(e0, e1, v0, v1);
    assert(y.1 - a.1 == v1 + e1 && y.0 - a.0 == v0 + e0);
    assert(h == e0 * v1 - e1 * v0);
    assert(m == v0 * (j * e1) - v1 * (j * e0));
    lemma_turn(j, v0, v1, e0, e1); lemma_mul_comm(v0, e1); lemma_mul_comm(v1, e0);
    assert(m == j * (-h));
    lemma_pr(j, -h);
    reveal(onr);
    assert(on_t(a.0, a.1, b.0, b.1, c.0, c.1, l));
}
proof fn lemma_div_vec(l: real, k: real, n: real, f: real, e: real) requires l * k == n, k != 0real, k * f == n * e ensures f == l * e
{
    assert(k * (f - l * e) == 0real) by (nonlinear_arith) requires l * k == n, k * f == n * e;
    lemma_zero(k, f - l * e);
}
proof fn lemma_unique_on(a: P2, b: P2, p: P2, q: P2, z: P2, c: P2)
    requires on2(p, q, z), on2(p, q, c), orient(a, b, z) == 0real, orient(a, b, c) == 0real, orient(a, b, p) != orient(a, b, q) ensures z == c
{
    let t = lemma_aff_on(a, b, p, q, z); let u = lemma_aff_on(a, b, p, q, c);
    let d = orient(a, b, q) - orient(a, b, p);
    lemma_cancel(t, u, d);
}
/// The two halves of a segment.
proof fn lemma_halves(q: P2, w: P2, p: P2, z: P2)
    requires on2(q, w, p), on2(q, w, z) ensures on2(q, p, z) || on2(p, w, z)
{
    reveal(onr);
    let tp = choose|t: real| #[trigger] on_t(q.0, q.1, w.0, w.1, p.0, p.1, t);
    let tz = choose|t: real| #[trigger] on_t(q.0, q.1, w.0, w.1, z.0, z.1, t);
    assert(0real * (w.0 - q.0) == 0real && 0real * (w.1 - q.1) == 0real && 1real * (w.0 - q.0) == w.0 - q.0 && 1real * (w.1 - q.1) == w.1 - q.1) by (nonlinear_arith);
    if tz <= tp {
        let s = lemma_unmix(0real, tp, tz);
        lemma_mix(q.0, w.0, q.0, p.0, 0real, tp, s, tz); lemma_mix(q.1, w.1, q.1, p.1, 0real, tp, s, tz);
        assert(on_t(q.0, q.1, p.0, p.1, z.0, z.1, s));
    } else {
        let s = lemma_unmix(tp, 1real, tz);
        lemma_mix(q.0, w.0, p.0, w.0, tp, 1real, s, tz); lemma_mix(q.1, w.1, p.1, w.1, tp, 1real, s, tz);
        assert(on_t(p.0, p.1, w.0, w.1, z.0, z.1, s));
    }
}
pub open spec fn side_at(r: Seq<P2>, i: int, p: P2, na: real) -> bool { straddle(p.1, r[i], r[i + 1]) ==> (if na > 0real { xat(r[i], r[i + 1], p.1) < p.0 } else { xat(r[i], r[i + 1], p.1) > p.0 }) }
/// No crossings seen from beyond a line that has the whole ring on the other side.
proof fn lemma_half_plane(r: Seq<P2>, p: P2, na: real, nb: real)
    requires closed2(r), forall|i: int| 0 <= i < r.len() ==> na * ((#[trigger] r[i]).0 - p.0) + nb * (r[i].1 - p.1) < 0real
    ensures !inside2(r, p)
{
    let n = r.len() - 1;
    if na == 0real {
        if nb > 0real {
            assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).1 <= p.1 by { lemma_pr(na, r[i].0 - p.0); lemma_pr(nb, r[i].1 - p.1); }
        } else {
            assert forall|i: int| 0 <= i < r.len() implies p.1 < (#[trigger] r[i]).1 by { lemma_pr(na, r[i].0 - p.0); lemma_pr(nb, r[i].1 - p.1); }
        }
        lemma_rim_level(r, p);
    } else {
        assert forall|i: int| 0 <= i < n implies #[trigger] side_at(r, i, p, na) by {
            if straddle(p.1, r[i], r[i + 1]) {
                let a = r[i]; let b = r[i + 1];
                let x = xat(a, b, p.1);
                lemma_at_on(a, b, p.1);
                reveal(onr);
                let t = choose|t: real| #[trigger] on_t(a.0, a.1, b.0, b.1, x, p.1, t);
                assert(na * (r[i + 1].0 - p.0) + nb * (r[i + 1].1 - p.1) < 0real);
                lemma_na(na, nb, a.0 - p.0, a.1 - p.1, b.0 - p.0, b.1 - p.1, t, x - p.0);
                lemma_pr(na, x - p.0);
            }
        }
        assert forall|i: int| 0 <= i < n implies cr(p, #[trigger] r[i], r[i + 1]) == (na < 0real && straddle(p.1, r[i], r[i + 1])) by { assert(side_at(r, i, p, na)); lemma_cr(p, r[i], r[i + 1]); }
        reveal(inside2);
        if na > 0real { lemma_none(r, p, n); } else { lemma_all_straddle(r, p, n); }
    }
}
proof fn lemma_na(na: real, nb: real, a0: real, a1: real, b0: real, b1: real, t: real, x: real)
    requires 0real <= t <= 1real, na * a0 + nb * a1 < 0real, na * b0 + nb * b1 < 0real, x == a0 + t * (b0 - a0), 0real == a1 + t * (b1 - a1) ensures na * x < 0real
{
    let u = na * a0 + nb * a1; let v = na * b0 + nb * b1;
    lemma_mul_dist(na, a0, t * (b0 - a0)); lemma_mul_dist(nb, a1, t * (b1 - a1));
    lemma_mul_swap(na, t, b0 - a0); lemma_mul_swap(nb, t, b1 - a1);
    lemma_sub_mul(na, b0, a0); lemma_sub_mul(nb, b1, a1);
    lemma_mul_dist(t, na * (b0 - a0), nb * (b1 - a1));
    lemma_pr(nb, 0real);
    lemma_mix_sign(u, v, t);
}
/// A point a little way towards w, before anything of r is met.
proof fn lemma_free_near(r: Seq<P2>, p: P2, w: P2, n: int) -> (v: P2)
    requires 0 <= n < r.len(), p != w, forall|i: int| 0 <= i < n ==> !on2(#[trigger] r[i], r[i + 1], p)
    ensures on2(p, w, v), v != p, clear(r, p, v, n)
    decreases n
{
    reveal(clear); reveal(apart2);
    lemma_ends2(p, w);
    if n == 0 { w } else {
        let u = lemma_free_near(r, p, w, n - 1);
        let a = r[n - 1]; let b = r[n];
        if apart2(p, u, a, b) { u } else {
            let h = choose|z: P2| #[trigger] meet2(p, u, a, b, z);
            let m = lemma_near(p, u, a, b, h);
            let v = lemma_midpoint(p, m);
            lemma_ends2(p, u); lemma_ends2(p, m); lemma_ends2(p, w);
            lemma_sub_on(p, u, p, m, v);
            lemma_sub_on(p, w, p, u, v);
            assert forall|i: int| 0 <= i < n implies apart2(p, v, #[trigger] r[i], r[i + 1]) by {
                assert forall|z: P2| !#[trigger] meet2(p, v, r[i], r[i + 1], z) by {
                    if meet2(p, v, r[i], r[i + 1], z) {
                        lemma_sub_on(p, m, p, v, z);
                        lemma_sub_on(p, u, p, m, z);
                        if i == n - 1 { assert(meet2(p, m, a, b, z)); assert(z == m); lemma_antisym(p, v, m); } else { assert(meet2(p, u, r[i], r[i + 1], z)); }
                    }
                }
            }
            v
        }
    }
}
// ---- convex rings ----------------------------------------------------------------
pub open spec fn tri(d: Seq<P2>, i: int, j: int, k: int) -> bool { orient(d[i], d[j], d[k]) < 0real }
/// Closed, and every three vertices turn right in the order of the ring: strictly convex, once around, clockwise.
#[verifier::opaque]
pub open spec fn cvx(d: Seq<P2>) -> bool {
    d.len() >= 4 && d[0] == d[d.len() - 1] && forall|i: int, j: int, k: int| 0 <= i < j < k < d.len() && !(i == 0 && k == d.len() - 1) ==> #[trigger] tri(d, i, j, k)
}
pub open spec fn g(d: Seq<P2>, i: int, z: P2) -> real { orient(d[i], d[i + 1], z) }
/// On or to the right of every edge.
pub open spec fn hull_covers(d: Seq<P2>, z: P2) -> bool { forall|i: int| 0 <= i < d.len() - 1 ==> #[trigger] g(d, i, z) <= 0real }
proof fn lemma_tri(d: Seq<P2>, i: int, j: int, k: int)
    requires cvx(d), 0 <= i < j < k < d.len(), !(i == 0 && k == d.len() - 1) ensures orient(d[i], d[j], d[k]) < 0real, orient(d[j], d[k], d[i]) < 0real, orient(d[k], d[i], d[j]) < 0real
{ reveal(cvx); assert(tri(d, i, j, k)); lemma_cyc(d[i], d[j], d[k]); }
proof fn lemma_shape(d: Seq<P2>) requires cvx(d) ensures d.len() >= 4, d[0] == d[d.len() - 1] { reveal(cvx); }
proof fn lemma_vertex_in(d: Seq<P2>, i: int, j: int)
    requires cvx(d), 0 <= i < d.len() - 1, 0 <= j < d.len() ensures g(d, i, d[j]) <= 0real
{
    lemma_shape(d);
    let m = d.len() - 1;
    lemma_cyc(d[i], d[i + 1], d[j]);
    lemma_cyc(d[i], d[i + 1], d[0]);
    if j == i || j == i + 1 || (i == 0 && j == m) || (i == m - 1 && j == 0) {}
    else if j < i { if !(j == 0 && i + 1 == m) { lemma_tri(d, j, i, i + 1); } }
    else { if !(i == 0 && j == m) { lemma_tri(d, i, i + 1, j); } }
}
/// Corner between the two edges at the first vertex.
proof fn lemma_hull_corner(d: Seq<P2>) requires cvx(d) ensures orient(d[d.len() - 2], d[0], d[1]) < 0real
{ lemma_shape(d); let m = d.len() - 1; lemma_tri(d, 0, 1, m - 1); }
// ---- skipping a position -----------------------------------------------------------
pub open spec fn idx_ok(s: Seq<P2>, d: Seq<P2>, ix: Seq<int>, t: int) -> bool {
    &&& ix.len() == d.len() && ix[0] == ix[ix.len() - 1] && ix[0] <= t
    &&& forall|i: int| 0 <= i < d.len() ==> 1 <= #[trigger] ix[i] && d[i] == s[ix[i]]
    &&& forall|i: int| 0 < i < d.len() - 1 ==> #[trigger] ix[i] < ix[0]
}
pub open spec fn all_in(s: Seq<P2>, d: Seq<P2>, t: int) -> bool { forall|w: int| 1 <= w <= t ==> hull_covers(d, #[trigger] s[w]) }
/// Since the last hull vertex the chain stays strictly inside the edges that do not end there.
pub open spec fn later_in(s: Seq<P2>, d: Seq<P2>, v: int, t: int) -> bool { forall|w: int, i: int| v <= w <= t && 1 <= i < d.len() - 2 ==> #[trigger] g(d, i, s[w]) < 0real }
#[verifier::opaque]
pub open spec fn hull_at(s: Seq<P2>, d: Seq<P2>, ix: Seq<int>, t: int) -> bool { cvx(d) && idx_ok(s, d, ix, t) && all_in(s, d, t) && later_in(s, d, ix[0], t) }
/// Where the segment from q (inside) to p leaves the first n half planes.
proof fn lemma_exit(d: Seq<P2>, q: P2, p: P2, n: int) -> (c: P2)
    requires hull_covers(d, q), 0 <= n < d.len()
    ensures on2(q, p, c), forall|i: int| 0 <= i < n ==> #[trigger] g(d, i, c) <= 0real, c == p || exists|i: int| 0 <= i < n && #[trigger] g(d, i, c) == 0real && g(d, i, p) > 0real
    decreases n
{
    lemma_ends2(q, p);
    if n == 0 { p } else {
        let w = lemma_exit(d, q, p, n - 1);
        let k = n - 1;
        if g(d, k, w) <= 0real {
            if w != p {
                let i = choose|i: int| 0 <= i < n - 1 && #[trigger] g(d, i, w) == 0real && g(d, i, p) > 0real;
                assert(0 <= i < n && g(d, i, w) == 0real && g(d, i, p) > 0real);
            }
            w
        } else {
            assert(g(d, k, q) <= 0real);
            let c = lemma_cut(d[k], d[k + 1], q, w);
            lemma_ends2(q, p);
            lemma_sub_on(q, p, q, w, c);
            let t = lemma_aff_on(d[k], d[k + 1], q, p, w);
            lemma_mix_sign(g(d, k, q), g(d, k, p), t);
            assert(g(d, k, c) == 0real && g(d, k, p) > 0real);
            assert forall|i: int| 0 <= i < n implies #[trigger] g(d, i, c) <= 0real by {
                if i < k { let u = lemma_aff_on(d[i], d[i + 1], q, w, c); assert(g(d, i, q) <= 0real && g(d, i, w) <= 0real); lemma_mix_sign(g(d, i, q), g(d, i, w), u); }
            }
            c
        }
    }
}
/// The stretch of the chain between two hull neighbours, closed by the hull edge.
pub open spec fn pocket(s: Seq<P2>, lo: int, hi: int) -> Seq<P2> { s.subrange(lo, hi + 1).push(s[lo]) }
proof fn lemma_pocket_at(s: Seq<P2>, lo: int, hi: int)
    requires 0 <= lo < hi < s.len()
    ensures pocket(s, lo, hi).len() == hi - lo + 2, closed2(pocket(s, lo, hi)), pocket(s, lo, hi)[hi - lo + 1] == s[lo], forall|j: int| 0 <= j <= hi - lo ==> #[trigger] pocket(s, lo, hi)[j] == s[lo + j]
{}
proof fn lemma_chain_free(s: Seq<P2>, lo: int, hi: int, w: int)
    requires simple_ring(s), 1 <= lo < hi < w < s.len() - 1 ensures clear(pocket(s, lo, hi), s[w], s[w + 1], hi - lo)
{
    reveal(clear); reveal(apart2); reveal(edges_ok);
    lemma_pocket_at(s, lo, hi);
    let r = pocket(s, lo, hi);
    assert forall|i: int| 0 <= i < hi - lo implies apart2(s[w], s[w + 1], #[trigger] r[i], r[i + 1]) by {
        assert(r[i] == s[lo + i] && r[i + 1] == s[lo + (i + 1)]);
        assert(edges_ok(s, lo + i, w));
        assert forall|z: P2| !#[trigger] meet2(s[w], s[w + 1], r[i], r[i + 1], z) by {
            if meet2(s[w], s[w + 1], r[i], r[i + 1], z) { assert(meet2(s[lo + i], s[lo + i + 1], s[w], s[w + 1], z)); }
        }
    }
}
/// The ends of the hull edge are the ends of the stretch.
pub open spec fn gate(s: Seq<P2>, d: Seq<P2>, i: int, lo: int, hi: int) -> bool { (d[i] == s[lo] && d[i + 1] == s[hi]) || (d[i] == s[hi] && d[i + 1] == s[lo]) }
proof fn lemma_outside_walk(s: Seq<P2>, d: Seq<P2>, ix: Seq<int>, t: int, i: int, lo: int, hi: int, w: int)
    requires simple_ring(s), cvx(d), idx_ok(s, d, ix, t), all_in(s, d, t), later_in(s, d, ix[0], t), t < s.len() - 1, 1 <= i < d.len() - 2, gate(s, d, i, lo, hi), 1 <= lo < hi < ix[0], ix[0] <= w <= t
    ensures !inside2(pocket(s, lo, hi), s[w])
    decreases w
{
    hide(orient); hide(simple_ring); hide(on2);
    let r = pocket(s, lo, hi);
    let v = ix[0];
    lemma_pocket_at(s, lo, hi);
    if w == v {
        lemma_shape(d);
        let m = d.len() - 1;
        let a = d[m - 1]; let o = d[0]; let b = d[1];
        assert(s[v] == o && d[m] == o);
        let na = -((o.1 - a.1) + (b.1 - o.1));
        let nb = (o.0 - a.0) + (b.0 - o.0);
        assert forall|j: int| 0 <= j < r.len() implies na * ((#[trigger] r[j]).0 - o.0) + nb * (r[j].1 - o.1) < 0real by {
            let k = if j <= hi - lo { lo + j } else { lo };
            assert(r[j] == s[k]);
            let z = s[k];
            assert(hull_covers(d, z));
            assert(g(d, 0, z) <= 0real && g(d, m - 1, z) <= 0real);
            lemma_aff(o, b, o, z); lemma_aff(a, o, o, z);
            lemma_cyc(o, b, z); lemma_cyc(a, o, z);
            lemma_na2(na, nb, o, a, b, z);
            if g(d, 0, z) == 0real && g(d, m - 1, z) == 0real {
                lemma_hull_corner(d);
                lemma_two_lines(a, o, b, z);
                lemma_distinct(s, k, v);
            }
        }
        lemma_half_plane(r, s[v], na, nb);
    } else {
        lemma_outside_walk(s, d, ix, t, i, lo, hi, w - 1);
        lemma_chain_free(s, lo, hi, w - 1);
        reveal(clear);
        assert(g(d, i, s[w - 1]) < 0real && g(d, i, s[w]) < 0real);
        lemma_one_side_apart(s[w - 1], s[w], d[i], d[i + 1]);
        assert forall|j: int| 0 <= j < r.len() - 1 implies apart2(s[w - 1], s[w], #[trigger] r[j], r[j + 1]) by {
            if j == hi - lo { assert(r[j] == s[lo + j] && r[j + 1] == s[lo]); } else { assert(0 <= j < hi - lo); }
        }
        lemma_same_side(r, s[w - 1], s[w]);
    }
}
proof fn lemma_na2(na: real, nb: real, o: P2, a: P2, b: P2, z: P2)
    requires na == -((o.1 - a.1) + (b.1 - o.1)), nb == (o.0 - a.0) + (b.0 - o.0)
    ensures na * (z.0 - o.0) + nb * (z.1 - o.1) == orient(o, b, z) + orient(a, o, z)
{
    lemma_aff(o, b, o, z); lemma_aff(a, o, o, z); lemma_cyc(o, b, z); lemma_cyc(a, o, z);
    let x = z.0 - o.0; let y = z.1 - o.1;
lemma_neg_mul((o.1 - a.1) + (b.1 - o.1), x); lemma_mul_dist(x, o.1 - a.1, b.1 - o.1); lemma_mul_dist(y, o.0 - a.0, b.0 - o.0);
}
proof fn lemma_two_lines(a: P2, o: P2, b: P2, z: P2)
    requires orient(a, o, b) < 0real, orient(o, b, z) == 0real, orient(a, o, z) == 0real ensures z == o
{
    let u0 = o.0 - a.0; let u1 = o.1 - a.1; let e0 = b.0 - o.0; let e1 = b.1 - o.1; let f0 = z.0 - o.0; let f1 = z.1 - o.1;
    lemma_aff(a, o, o, z); lemma_aff(a, o, o, b); lemma_aff(o, b, o, z); lemma_cyc(a, o, b); lemma_cyc(o, b, z);
    lemma_vec0(u0, u1, e0, e1, f0, f1);
    let k = u0 * e1 - u1 * e0;
    lemma_mul_comm(f0, u1); lemma_mul_comm(f1, u0);
    lemma_pr(e0 * f1 - e1 * f0, u0); lemma_pr(e0 * f1 - e1 * f0, u1);
    lemma_pr(f0 * u1 - f1 * u0, e0); lemma_pr(f0 * u1 - f1 * u0, e1);
    lemma_zero(k, f0); lemma_zero(k, f1);
}
proof fn lemma_behind(a: P2, b: P2, w: P2, z: P2)
    requires orient(a, b, z) <= 0real, orient(a, b, w) > 0real
    ensures (-(b.1 - a.1)) * (z.0 - w.0) + (b.0 - a.0) * (z.1 - w.1) < 0real
{ lemma_aff(a, b, w, z); lemma_neg_mul(b.1 - a.1, z.0 - w.0); }
/// The chain cannot leave through a hull edge that is not at the last hull vertex.
proof fn lemma_no_exit(s: Seq<P2>, d: Seq<P2>, ix: Seq<int>, t: int, i: int, c: P2)
    requires simple_ring(s), cvx(d), idx_ok(s, d, ix, t), all_in(s, d, t), later_in(s, d, ix[0], t), t < s.len() - 1, 1 <= i < d.len() - 2,
        on2(s[t], s[t + 1], c), g(d, i, c) == 0real, on2(d[i], d[i + 1], c)
    ensures false
{
    hide(orient); hide(simple_ring); hide(on2);
    lemma_shape(d);
    let a = d[i]; let b = d[i + 1];
    let ia = ix[i]; let ib = ix[i + 1];
    assert(ia < ix[0] && ib < ix[0] && 1 <= ia && 1 <= ib);
    lemma_tri(d, i - 1, i, i + 1);
    lemma_cyc(d[i], d[i + 1], d[i - 1]);
    if ia == ib { assert(a == b); lemma_cyc(a, d[i - 1], a); assert(false); }
    let lo = if ia < ib { ia } else { ib };
    let hi = if ia < ib { ib } else { ia };
    assert(gate(s, d, i, lo, hi));
    let r = pocket(s, lo, hi);
    let k = hi - lo;
    lemma_pocket_at(s, lo, hi);
    assert(r[k] == s[lo + k] && r[k + 1] == s[lo] && r[0] == s[lo + 0]);
    let q = s[t]; let p = s[t + 1];
    lemma_chain_free(s, lo, hi, t);
    assert(g(d, i, q) < 0real);
    lemma_outside_walk(s, d, ix, t, i, lo, hi, t);
    reveal(clear); reveal(apart2);
    // c is no end of the hull edge
    lemma_ends2(r[0], r[1]); lemma_ends2(r[k - 1], r[k]);
    assert(apart2(q, p, r[0], r[0int + 1]) && apart2(q, p, r[k - 1], r[k - 1 + 1]));
    if c == s[lo] { assert(meet2(q, p, r[0], r[0int + 1], c)); }
    if c == s[hi] { assert(meet2(q, p, r[k - 1], r[k - 1 + 1], c)); }
    assert(c != a && c != b && c != q);
    let tc = lemma_aff_on(a, b, q, p, c);
    lemma_mix_sign(g(d, i, q), g(d, i, p), tc);
    // a point beyond the edge
    let w = if c != p { p } else {
        let far = (p.0 + (p.0 - q.0), p.1 + (p.1 - q.1));
        lemma_ends2(q, p);
        assert forall|j: int| 0 <= j < k implies !on2(#[trigger] r[j], r[j + 1], p) by { if on2(r[j], r[j + 1], p) { assert(apart2(q, p, r[j], r[j + 1])); assert(meet2(q, p, r[j], r[j + 1], p)); } }
        lemma_free_near(r, p, far, k)
    };
    if c == p { lemma_past(a, b, q, p, w); } else { lemma_ends2(q, p); lemma_one_end(p); }
    assert(on2(q, w, c) && on2(q, w, p) && g(d, i, w) > 0real && c != w);
    lemma_ends2(q, w);
    assert forall|j: int| 0 <= j < r.len() - 1 && j != k implies apart2(q, w, #[trigger] r[j], r[j + 1]) by {
        assert(apart2(q, p, r[j], r[j + 1]));
        if c == p { assert(apart2(p, w, r[j], r[j + 1])); }
        assert forall|z: P2| !#[trigger] meet2(q, w, r[j], r[j + 1], z) by {
            if meet2(q, w, r[j], r[j + 1], z) {
                lemma_halves(q, w, p, z);
                if on2(q, p, z) { assert(meet2(q, p, r[j], r[j + 1], z)); }
                else if c == p { assert(meet2(p, w, r[j], r[j + 1], z)); }
                else { assert(meet2(q, p, r[j], r[j + 1], z)); }
            }
        }
    }
    assert(clear_but(r, q, w, k, r.len() - 1)) by { reveal(clear_but); }
    assert(on2(r[k], r[k + 1], c)) by { lemma_flip2_on(a, b, c); }
    assert forall|z: P2| #[trigger] meet2(q, w, r[k], r[k + 1], z) implies z == c by {
        lemma_on_at(r[k], r[k + 1], z);
        lemma_cyc(r[k], r[k + 1], z);
        lemma_unique_on(a, b, q, w, z, c);
    }
    assert(meet2(q, w, r[k], r[k + 1], c));
    assert(cross2(q, w, r[k], r[k + 1], c)) by { reveal(cross2); }
    lemma_other_side(r, q, w, k, c);
    // yet neither end is inside
    let na = -(b.1 - a.1); let nb = b.0 - a.0;
    assert forall|j: int| 0 <= j < r.len() implies na * ((#[trigger] r[j]).0 - w.0) + nb * (r[j].1 - w.1) < 0real by {
        let kk = if j <= hi - lo { lo + j } else { lo };
        assert(r[j] == s[kk]);
        assert(hull_covers(d, s[kk]));
        assert(g(d, i, s[kk]) <= 0real);
        lemma_behind(a, b, w, s[kk]);
    }
    lemma_half_plane(r, w, na, nb);
}
proof fn lemma_one_end(p: P2) ensures on2(p, p, p) { lemma_ends2(p, p); }
proof fn lemma_past(a: P2, b: P2, q: P2, p: P2, w: P2)
    requires orient(a, b, q) < 0real, orient(a, b, p) == 0real, w != p, on2(p, (p.0 + (p.0 - q.0), p.1 + (p.1 - q.1)), w)
    ensures on2(q, w, p), orient(a, b, w) > 0real
{
    let far = (p.0 + (p.0 - q.0), p.1 + (p.1 - q.1));
    let s = lemma_aff_on(a, b, p, far, w);
    let f0 = p.0 - q.0; let f1 = p.1 - q.1;
    if s == 0real { lemma_pr(s, far.0 - p.0); lemma_pr(s, far.1 - p.1); assert(w == p); }
    lemma_aff(a, b, q, p); lemma_aff(a, b, p, far);
    assert(orient(a, b, far) == -orient(a, b, q));
    lemma_pr(s, orient(a, b, far) - orient(a, b, p));
    let e = 1real + s;
    let l = 1real / e;
    assert(l * e == 1real && 0real <= l <= 1real) by (nonlinear_arith) requires l == 1real / e, e >= 1real;
    lemma_mul_dist(f0, 1real, s); lemma_mul_dist(f1, 1real, s); lemma_mul01(1real, f0); lemma_mul01(1real, f1);
    assert(w.0 - q.0 == e * f0 && w.1 - q.1 == e * f1);
    lemma_back(l, e, f0); lemma_back(l, e, f1);
    reveal(onr);
    assert(on_t(q.0, q.1, w.0, w.1, p.0, p.1, l));
}
proof fn lemma_back(l: real, e: real, f: real) requires l * e == 1real ensures l * (e * f) == f
{ assert(l * (e * f) == (l * e) * f) by (nonlinear_arith); assert(1real * f == f) by (nonlinear_arith); }
/// A position inside the corner at the last hull vertex is inside the hull.
proof fn lemma_skip(s: Seq<P2>, d: Seq<P2>, ix: Seq<int>, t: int)
    requires simple_ring(s), hull_at(s, d, ix, t), t < s.len() - 1, g(d, 0, s[t + 1]) <= 0real, g(d, d.len() - 2, s[t + 1]) <= 0real
    ensures hull_at(s, d, ix, t + 1)
{
    hide(orient); hide(simple_ring); hide(on2);
    reveal(hull_at);
    lemma_shape(d);
    let m = d.len() - 1;
    let q = s[t]; let p = s[t + 1];
    assert(hull_covers(d, q)) by { assert(1 <= ix[0] <= t); }
    assert forall|i: int| 1 <= i < m - 1 implies #[trigger] g(d, i, p) < 0real by {
        if g(d, i, p) >= 0real {
            let c = lemma_exit(d, q, p, m);
            let j = if c == p { i } else { choose|i: int| 0 <= i < m && #[trigger] g(d, i, c) == 0real && g(d, i, p) > 0real };
            assert(g(d, j, c) <= 0real);
            assert(g(d, j, c) == 0real);
            assert(1 <= j < m - 1);
            assert(g(d, j - 1, c) <= 0real && g(d, j + 1, c) <= 0real);
            lemma_tri(d, j - 1, j, j + 1);
            lemma_tri(d, j, j + 1, j + 2);
            lemma_edge_pt(d[j - 1], d[j], d[j + 1], d[j + 2], c);
            lemma_no_exit(s, d, ix, t, j, c);
        }
    }
    assert(hull_covers(d, p)) by { assert forall|i: int| 0 <= i < m implies #[trigger] g(d, i, p) <= 0real by { if 1 <= i < m - 1 {} } }
    assert forall|w: int| 1 <= w <= t + 1 implies hull_covers(d, #[trigger] s[w]) by { if w <= t {} }
    assert forall|w: int, i: int| ix[0] <= w <= t + 1 && 1 <= i < d.len() - 2 implies #[trigger] g(d, i, s[w]) < 0real by { if w <= t {} }
}
// ---- adding a position ---------------------------------------------------------------
/// p sees an edge next to the last hull vertex.
pub open spec fn seen(d: Seq<P2>, p: P2) -> bool { g(d, 0, p) > 0real || g(d, d.len() - 2, p) > 0real }
/// Edges before f and from k on given up for p.
pub open spec fn grown(d: Seq<P2>, f: int, k: int, p: P2) -> Seq<P2> { seq![p] + d.subrange(f, k + 1) + seq![p] }
pub open spec fn grown_ix(ix: Seq<int>, f: int, k: int, t: int) -> Seq<int> { seq![t] + ix.subrange(f, k + 1) + seq![t] }
proof fn lemma_apex_nv(d: Seq<P2>, c: int, p: P2)
    requires cvx(d), 1 <= c <= d.len() - 3, g(d, c - 1, p) < 0real, g(d, c, p) >= 0real ensures orient(d[0], d[c], p) < 0real
{
    lemma_shape(d);
    let v = d[0]; let b = d[c - 1]; let o = d[c]; let e = d[c + 1];
    lemma_gp(o, v, p, b, e);
    lemma_tri(d, c - 1, c, c + 1);
    lemma_cyc(v, o, p); lemma_cyc(b, o, e); lemma_cyc(v, b, o); lemma_cyc(v, o, e); lemma_cyc(b, o, p); lemma_cyc(o, v, b);
    if c > 1 { lemma_tri(d, 0, c - 1, c); }
    lemma_tri(d, 0, c, c + 1);
    lemma_pr(orient(o, v, b), orient(o, e, p)); lemma_pr(orient(o, v, e), orient(o, p, b));
    lemma_pr(orient(o, v, p), orient(o, b, e));
}
proof fn lemma_apex_vn(d: Seq<P2>, c: int, p: P2)
    requires cvx(d), 2 <= c <= d.len() - 2, g(d, c - 1, p) >= 0real, g(d, c, p) < 0real ensures orient(d[0], d[c], p) > 0real
{
    lemma_shape(d);
    let v = d[0]; let b = d[c - 1]; let o = d[c]; let e = d[c + 1];
    lemma_gp(o, v, p, b, e);
    lemma_tri(d, c - 1, c, c + 1);
    lemma_cyc(v, o, p); lemma_cyc(b, o, e); lemma_cyc(v, b, o); lemma_cyc(v, o, e); lemma_cyc(b, o, p); lemma_cyc(o, v, b); lemma_cyc(o, v, e);
    lemma_tri(d, 0, c - 1, c);
    if c + 1 < d.len() - 1 { lemma_tri(d, 0, c, c + 1); }
    lemma_pr(orient(o, v, b), orient(o, e, p)); lemma_pr(orient(o, v, e), orient(o, p, b));
    lemma_pr(orient(o, v, p), orient(o, b, e));
}
/// Between two diagonals from the first vertex there is nothing to see of its edges.
proof fn lemma_cone(d: Seq<P2>, c: int, e: int, p: P2)
    requires cvx(d), 1 <= c < e <= d.len() - 2, orient(d[0], d[c], p) < 0real, orient(d[0], d[e], p) > 0real ensures !seen(d, p)
{
    lemma_shape(d);
    let m = d.len() - 1;
    let v = d[0]; let x = d[1]; let y = d[m - 1];
    lemma_tri(d, 0, c, e);
    lemma_cyc(v, d[c], p); lemma_cyc(v, d[e], p); lemma_cyc(v, d[c], d[e]);
    // first edge
    lemma_gp(v, x, p, d[c], d[e]);
    if c > 1 { lemma_tri(d, 0, 1, c); } else { lemma_cyc(v, x, x); }
    lemma_tri(d, 0, 1, e);
    lemma_pr(orient(v, x, p), orient(v, d[c], d[e])); lemma_pr(orient(v, x, d[c]), orient(v, d[e], p)); lemma_pr(orient(v, x, d[e]), orient(v, p, d[c]));
    // last edge
    lemma_gp(v, y, p, d[c], d[e]);
    lemma_tri(d, 0, c, m - 1);
    lemma_cyc(v, d[c], y); lemma_cyc(v, d[e], y);
    if e < m - 1 { lemma_tri(d, 0, e, m - 1); } else { lemma_cyc(v, y, y); }
    lemma_pr(orient(v, y, p), orient(v, d[c], d[e])); lemma_pr(orient(v, y, d[c]), orient(v, d[e], p)); lemma_pr(orient(v, y, d[e]), orient(v, p, d[c]));
    lemma_cyc(v, y, p);
}
proof fn lemma_next_n(d: Seq<P2>, p: P2, i: int, k: int) -> (e: int)
    requires 0 <= i < k < d.len() - 1, g(d, i, p) >= 0real, g(d, k, p) < 0real ensures i < e <= k, g(d, e - 1, p) >= 0real, g(d, e, p) < 0real
    decreases k - i
{ if g(d, i + 1, p) < 0real { i + 1 } else { lemma_next_n(d, p, i + 1, k) } }
/// The edges p does not see are consecutive.
proof fn lemma_run(d: Seq<P2>, p: P2, f: int, k: int, i: int)
    requires cvx(d), seen(d, p), 0 <= f <= i < k < d.len(), g(d, f, p) < 0real, g(d, k - 1, p) < 0real ensures g(d, i, p) < 0real
    decreases i
{
    if i > f {
        lemma_run(d, p, f, k, i - 1);
        if g(d, i, p) >= 0real {
            let e = lemma_next_n(d, p, i, k - 1);
            lemma_apex_nv(d, i, p); lemma_apex_vn(d, e, p);
            lemma_cone(d, i, e, p);
        }
    }
}
pub open spec fn unseen(d: Seq<P2>, p: P2, f: int, k: int) -> bool { forall|i: int| f <= i < k ==> #[trigger] g(d, i, p) < 0real }
proof fn lemma_turn_at(d: Seq<P2>, p: P2, i: int, l: int, j: int) -> (e: int)
    requires 0 <= i < l < j < d.len(), orient(d[i], d[l], p) < 0real, orient(d[i], d[j], p) >= 0real ensures l <= e < j, orient(d[i], d[e], p) < 0real, orient(d[i], d[e + 1], p) >= 0real
    decreases j - l
{ if orient(d[i], d[l + 1], p) >= 0real { l } else { lemma_turn_at(d, p, i, l + 1, j) } }
proof fn lemma_chord(d: Seq<P2>, p: P2, f: int, k: int, i: int, j: int)
    requires cvx(d), seen(d, p), 0 <= f < k < d.len(), unseen(d, p, f, k), f <= i < j <= k ensures orient(d[i], d[j], p) < 0real
{
    lemma_shape(d);
    assert(g(d, i, p) < 0real);
    if j > i + 1 && orient(d[i], d[j], p) >= 0real {
        let l = lemma_turn_at(d, p, i, i + 1, j);
        assert(g(d, l, p) < 0real);
        let m = d.len() - 1;
        let a = d[i]; let b = d[l]; let c = d[l + 1];
        if i == 0 && l + 1 == m { assert(g(d, 0, p) < 0real && g(d, m - 1, p) < 0real); }
        lemma_tri(d, i, l, l + 1);
        lemma_cyc(a, c, p);
        lemma_bary(a, b, c, p, d[0], d[1]);
        lemma_vertex_in(d, 0, i); lemma_vertex_in(d, 0, l); lemma_vertex_in(d, 0, l + 1);
        lemma_pr(orient(b, c, p), g(d, 0, a)); lemma_pr(orient(c, a, p), g(d, 0, b)); lemma_pr(orient(a, b, p), g(d, 0, c));
        lemma_pr(orient(a, b, c), g(d, 0, p));
        lemma_bary(a, b, c, p, d[m - 1], d[m]);
        lemma_vertex_in(d, m - 1, i); lemma_vertex_in(d, m - 1, l); lemma_vertex_in(d, m - 1, l + 1);
        lemma_pr(orient(b, c, p), g(d, m - 1, a)); lemma_pr(orient(c, a, p), g(d, m - 1, b)); lemma_pr(orient(a, b, p), g(d, m - 1, c));
        lemma_pr(orient(a, b, c), g(d, m - 1, p));
    }
}
proof fn lemma_grown_at(d: Seq<P2>, f: int, k: int, p: P2)
    requires 0 <= f < k < d.len()
    ensures grown(d, f, k, p).len() == k - f + 3, grown(d, f, k, p)[0] == p, grown(d, f, k, p)[k - f + 2] == p, forall|x: int| 1 <= x <= k - f + 1 ==> #[trigger] grown(d, f, k, p)[x] == d[f + x - 1]
{}
proof fn lemma_grown_cvx(d: Seq<P2>, p: P2, f: int, k: int)
    requires cvx(d), seen(d, p), 0 <= f < k < d.len(), unseen(d, p, f, k) ensures cvx(grown(d, f, k, p))
{
    lemma_shape(d);
    lemma_grown_at(d, f, k, p);
    let e = grown(d, f, k, p);
    let m = d.len() - 1; let n = e.len() - 1;
    assert(g(d, f, p) < 0real && g(d, k - 1, p) < 0real);
    assert(!(f == 0 && k == m));
    assert forall|i: int, j: int, l: int| 0 <= i < j < l < e.len() && !(i == 0 && l == n) implies #[trigger] tri(e, i, j, l) by {
        if i == 0 { lemma_chord(d, p, f, k, f + j - 1, f + l - 1); lemma_cyc(e[j], e[l], p); }
        else if l == n { lemma_chord(d, p, f, k, f + i - 1, f + j - 1); }
        else { lemma_tri(d, f + i - 1, f + j - 1, f + l - 1); }
    }
    reveal(cvx);
}
proof fn lemma_tangent(b: P2, c: P2, e: P2, p: P2, w: P2)
    requires orient(b, c, e) < 0real, orient(b, c, w) <= 0real, orient(c, e, w) <= 0real
    ensures orient(b, c, p) < 0real && orient(c, e, p) >= 0real ==> orient(c, p, w) <= 0real, orient(b, c, p) >= 0real && orient(c, e, p) < 0real ==> orient(p, c, w) <= 0real
{
    lemma_gp(c, p, w, b, e);
    lemma_cyc(b, c, e); lemma_cyc(b, c, p); lemma_cyc(c, e, p); lemma_cyc(b, c, w); lemma_cyc(c, p, w);
    lemma_pr(orient(c, p, w), orient(c, b, e)); lemma_pr(orient(c, p, b), orient(c, e, w)); lemma_pr(orient(c, p, e), orient(c, w, b));
}
/// The corner at vertex k, with the edge before and the edge after it.
proof fn lemma_grown_covers(d: Seq<P2>, p: P2, f: int, k: int, w: P2)
    requires cvx(d), seen(d, p), 0 <= f < k < d.len(), unseen(d, p, f, k), f > 0 ==> g(d, f - 1, p) >= 0real, k < d.len() - 1 ==> g(d, k, p) >= 0real, hull_covers(d, w)
    ensures hull_covers(grown(d, f, k, p), w)
{
    hide(orient); hide(simple_ring); hide(on2);
    lemma_shape(d);
    lemma_grown_at(d, f, k, p);
    lemma_hull_corner(d);
    let e = grown(d, f, k, p);
    let m = d.len() - 1; let n = e.len() - 1;
    assert(g(d, f, p) < 0real && g(d, k - 1, p) < 0real);
    assert(g(d, f, w) <= 0real && g(d, k - 1, w) <= 0real && g(d, 0, w) <= 0real && g(d, m - 1, w) <= 0real);
    assert(orient(d[k], p, w) <= 0real) by {
        if k < m { lemma_tri(d, k - 1, k, k + 1); assert(g(d, k, w) <= 0real); lemma_tangent(d[k - 1], d[k], d[k + 1], p, w); }
        else { lemma_tangent(d[m - 1], d[0], d[1], p, w); }
    }
    assert(orient(p, d[f], w) <= 0real) by {
        if f > 0 { lemma_tri(d, f - 1, f, f + 1); assert(g(d, f - 1, w) <= 0real); lemma_tangent(d[f - 1], d[f], d[f + 1], p, w); }
        else { lemma_tangent(d[m - 1], d[0], d[1], p, w); }
    }
    assert forall|x: int| 0 <= x < n implies #[trigger] g(e, x, w) <= 0real by {
        if x == 0 { assert(e[1] == d[f + 1 - 1]); }
        else if x == n - 1 { assert(e[x] == d[f + x - 1]); }
        else { assert(e[x] == d[f + x - 1] && e[x + 1] == d[f + (x + 1) - 1]); assert(g(d, f + x - 1, w) <= 0real); }
    }
}
proof fn lemma_push(s: Seq<P2>, d: Seq<P2>, ix: Seq<int>, t: int, f: int, k: int)
    requires simple_ring(s), hull_at(s, d, ix, t), t < s.len() - 1, seen(d, s[t + 1]), 0 <= f < k < d.len(), g(d, f, s[t + 1]) < 0real, g(d, k - 1, s[t + 1]) < 0real,
        f > 0 ==> g(d, f - 1, s[t + 1]) >= 0real, k < d.len() - 1 ==> g(d, k, s[t + 1]) >= 0real
    ensures hull_at(s, grown(d, f, k, s[t + 1]), grown_ix(ix, f, k, t + 1), t + 1)
{
    hide(orient); hide(simple_ring); hide(on2);
    reveal(hull_at);
    lemma_shape(d);
    let p = s[t + 1];
    let e = grown(d, f, k, p);
    let jx = grown_ix(ix, f, k, t + 1);
    let n = e.len() - 1;
    lemma_grown_at(d, f, k, p);
    assert forall|i: int| f <= i < k implies #[trigger] g(d, i, p) < 0real by { lemma_run(d, p, f, k, i); }
    lemma_grown_cvx(d, p, f, k);
    assert forall|x: int| 1 <= x <= n - 1 implies #[trigger] jx[x] == ix[f + x - 1] by {}
    assert forall|i: int| 0 <= i < e.len() implies 1 <= #[trigger] jx[i] && e[i] == s[jx[i]] by { if 1 <= i <= n - 1 { assert(1 <= ix[f + i - 1]); } }
    assert forall|i: int| 0 < i < e.len() - 1 implies #[trigger] jx[i] < jx[0] by { let o = f + i - 1; assert(ix[o] <= ix[0]) by { if 0 < o < d.len() - 1 {} } }
    assert forall|x: int| 1 <= x < n - 1 implies #[trigger] g(e, x, p) < 0real by { assert(e[x] == d[f + x - 1] && e[x + 1] == d[f + (x + 1) - 1]); assert(g(d, f + x - 1, p) < 0real); }
    assert forall|w: int| 1 <= w <= t + 1 implies hull_covers(e, #[trigger] s[w]) by {
        if w <= t { lemma_grown_covers(d, p, f, k, s[w]); }
        else {
            assert forall|x: int| 0 <= x < n implies #[trigger] g(e, x, p) <= 0real by { lemma_cyc(e[x], p, p); lemma_cyc(p, e[x + 1], p); if 1 <= x < n - 1 {} }
        }
    }
}
pub open spec fn gsum(d: Seq<P2>, p: P2, n: int) -> real decreases n { if n <= 0 { 0real } else { gsum(d, p, n - 1) + g(d, n - 1, p) } }
proof fn lemma_gsum(d: Seq<P2>, p: P2, n: int)
    requires 0 <= n < d.len() ensures gsum(d, p, n) + orient(d[n], d[0], p) == gsum(d, d[0], n)
    decreases n
{
    if n == 0 { lemma_cyc(d[0], d[0], p); } else {
        lemma_gsum(d, p, n - 1);
        lemma_area(d[n - 1], d[n], d[0], p);
        lemma_cyc(d[n - 1], d[0], p);
    }
}
proof fn lemma_gsum_sign(d: Seq<P2>, p: P2, n: int)
    requires 0 <= n < d.len()
    ensures (forall|i: int| 0 <= i < n ==> #[trigger] g(d, i, p) >= 0real) ==> gsum(d, p, n) >= 0real,
        (forall|i: int| 0 <= i < n ==> #[trigger] g(d, i, p) <= 0real) ==> gsum(d, p, n) <= 0real && (n >= 2 && g(d, 1, p) < 0real ==> gsum(d, p, n) < 0real)
    decreases n
{
    if n > 0 {
        lemma_gsum_sign(d, p, n - 1);
        if forall|i: int| 0 <= i < n ==> #[trigger] g(d, i, p) >= 0real { assert(g(d, n - 1, p) >= 0real); }
        if forall|i: int| 0 <= i < n ==> #[trigger] g(d, i, p) <= 0real { assert(g(d, n - 1, p) <= 0real); }
    }
}
/// No point sees every edge.
proof fn lemma_some_unseen(d: Seq<P2>, p: P2)
    requires cvx(d), forall|i: int| 0 <= i < d.len() - 1 ==> #[trigger] g(d, i, p) >= 0real ensures false
{
    lemma_shape(d);
    let m = d.len() - 1;
    lemma_gsum(d, p, m); lemma_cyc(d[m], d[0], p); lemma_cyc(d[0], d[0], p);
    lemma_gsum_sign(d, p, m); lemma_gsum_sign(d, d[0], m);
    assert forall|i: int| 0 <= i < m implies #[trigger] g(d, i, d[0]) <= 0real by { lemma_vertex_in(d, i, 0); }
    lemma_tri(d, 0, 1, 2);
}
// ---- the first triangle -----------------------------------------------------------------
pub open spec fn line_to(s: Seq<P2>, j: int) -> bool { forall|w: int| 1 <= w <= j ==> on2(s[1], s[j], #[trigger] s[w]) }
proof fn lemma_param(a: P2, b: P2, c: P2) -> (l: real)
    requires orient(a, b, c) == 0real, a != b ensures c.0 == a.0 + l * (b.0 - a.0), c.1 == a.1 + l * (b.1 - a.1)
{
    let e0 = b.0 - a.0; let e1 = b.1 - a.1; let f0 = c.0 - a.0; let f1 = c.1 - a.1;
    if e0 != 0real {
        let l = f0 / e0;
        assert(l * e0 == f0) by (nonlinear_arith) requires l == f0 / e0, e0 != 0real;
        assert(e0 * f1 == f0 * e1) by (nonlinear_arith) requires e0 * f1 - e1 * f0 == 0real;
        lemma_div_vec(l, e0, f0, f1, e1);
        l
    } else {
        let l = f1 / e1;
        assert(l * e1 == f1) by (nonlinear_arith) requires l == f1 / e1, e1 != 0real;
        assert(e1 * f0 == f1 * e0) by (nonlinear_arith) requires e0 * f1 - e1 * f0 == 0real;
        lemma_div_vec(l, e1, f1, f0, e0);
        l
    }
}
proof fn lemma_on_par(a: P2, b: P2, x: P2, y: P2, z: P2, al: real, be: real, ga: real)
    requires x.0 == a.0 + al * (b.0 - a.0), x.1 == a.1 + al * (b.1 - a.1), y.0 == a.0 + be * (b.0 - a.0), y.1 == a.1 + be * (b.1 - a.1), z.0 == a.0 + ga * (b.0 - a.0), z.1 == a.1 + ga * (b.1 - a.1),
        rmin(al, be) <= ga <= rmax(al, be)
    ensures on2(x, y, z)
{
    reveal(onr);
    let t = lemma_unmix(al, be, ga);
    lemma_mix(a.0, b.0, x.0, y.0, al, be, t, ga); lemma_mix(a.1, b.1, x.1, y.1, al, be, t, ga);
    assert(on_t(x.0, x.1, y.0, y.1, z.0, z.1, t));
}
/// Going straight on, a simple chain does not turn back.
proof fn lemma_straight(s: Seq<P2>, j: int)
    requires simple_ring(s), 2 <= j < s.len() - 1, line_to(s, j), orient(s[1], s[j], s[j + 1]) == 0real ensures line_to(s, j + 1)
{
    let a = s[1]; let b = s[j]; let c = s[j + 1]; let e = s[j - 1];
    if a == b { lemma_distinct(s, 1, j); }
    assert(s[j - 1] != s[j - 1 + 1]);
    assert(on2(a, b, e));
    let l = lemma_param(a, b, c);
    lemma_on_at(a, b, e);
    let u = lemma_aff_on(a, b, a, b, e);
    assert(0real * (b.0 - a.0) == 0real && 0real * (b.1 - a.1) == 0real && 1real * (b.0 - a.0) == b.0 - a.0 && 1real * (b.1 - a.1) == b.1 - a.1) by (nonlinear_arith);
    assert(edges_ok(s, j - 1, j));
    lemma_ends2(e, b); lemma_ends2(b, c);
    reveal(edges_ok);
    if l < 1real {
        if u < 1real {
            if l <= u { lemma_on_par(a, b, b, c, e, 1real, l, u); assert(meet2(s[j - 1], s[j - 1 + 1], s[j], s[j + 1], e)); }
            else { lemma_on_par(a, b, e, b, c, u, 1real, l); assert(meet2(s[j - 1], s[j - 1 + 1], s[j], s[j + 1], c)); assert(c == b); assert(s[j] != s[j + 1]); }
        }
        assert(u == 1real && e == b);
    }
    lemma_on_par(a, b, a, c, b, 0real, l, 1real);
    lemma_ends2(a, c);
    assert forall|w: int| 1 <= w <= j + 1 implies on2(s[1], s[j + 1], #[trigger] s[w]) by { if w <= j { lemma_sub_on(a, c, a, b, s[w]); } }
}
proof fn lemma_not_flat(s: Seq<P2>) requires simple_ring(s), line_to(s, s.len() - 1) ensures false
{
    let n = s.len() - 1;
    assert(on2(s[1], s[n], s[2]));
    lemma_flip2_on(s[1], s[0], s[2]);
    lemma_ends2(s[1], s[2]);
    assert(edges_ok(s, 0, 1));
    reveal(edges_ok);
    assert(meet2(s[0], s[0int + 1], s[1], s[1int + 1], s[2]));
    assert(s[1] != s[1int + 1]);
}
proof fn lemma_start(s: Seq<P2>, j: int, x: int, y: int)
    requires simple_ring(s), 2 <= j < s.len() - 1, line_to(s, j), (x == 1 && y == j) || (x == j && y == 1), orient(s[x], s[y], s[j + 1]) < 0real
    ensures hull_at(s, seq![s[j + 1], s[x], s[y], s[j + 1]], seq![j + 1, x, y, j + 1], j + 1)
{
    let a = s[x]; let b = s[y]; let c = s[j + 1];
    let d = seq![c, a, b, c];
    let ix = seq![j + 1, x, y, j + 1];
    reveal(hull_at); reveal(cvx);
    lemma_cyc(a, b, c);
    assert(cvx(d)) by {
        assert forall|i: int, j: int, k: int| 0 <= i < j < k < d.len() && !(i == 0 && k == d.len() - 1) implies #[trigger] tri(d, i, j, k) by { assert((i == 0 && j == 1 && k == 2) || (i == 1 && j == 2 && k == 3)); }
    }
    assert forall|w: int| 1 <= w <= j + 1 implies hull_covers(d, #[trigger] s[w]) by {
        let z = s[w];
        lemma_cyc(c, a, c); lemma_cyc(b, c, c);
        if w <= j {
            if x == j { lemma_flip2_on(s[1], s[j], z); }
            assert(on2(a, b, z));
            let t = lemma_aff_on(c, a, a, b, z); lemma_cyc(c, a, a); lemma_mix_sign(orient(c, a, a), orient(c, a, b), t);
            let u = lemma_aff_on(b, c, a, b, z); lemma_cyc(b, c, b); lemma_mix_sign(orient(b, c, a), orient(b, c, b), u);
            lemma_on_at(a, b, z);
            lemma_cyc(c, a, b);
        }
        assert(orient(c, a, z) <= 0real && orient(a, b, z) <= 0real && orient(b, c, z) <= 0real);
        assert forall|i: int| 0 <= i < d.len() - 1 implies #[trigger] g(d, i, z) <= 0real by { assert(i == 0 || i == 1 || i == 2); }
    }
    assert forall|w: int, i: int| ix[0] <= w <= j + 1 && 1 <= i < d.len() - 2 implies #[trigger] g(d, i, s[w]) < 0real by { assert(i == 1 && w == j + 1); }
}
// ---- the result -----------------------------------------------------------------------------
/// Closed, every three vertices in the order of the ring turn left (strictly convex, counter-clockwise, once around);
/// its vertices are vertices of s and every vertex of s is on or to the left of each edge.
#[verifier::opaque]
pub open spec fn is_hull(h: Seq<P2>, s: Seq<P2>) -> bool {
    &&& h.len() >= 4 && h[0] == h[h.len() - 1]
    &&& forall|i: int, j: int, k: int| 0 <= i < j < k < h.len() - 1 ==> #[trigger] turns_left(h, i, j, k)
    &&& forall|i: int| 0 <= i < h.len() ==> s.contains(#[trigger] h[i])
    &&& forall|i: int, w: int| 0 <= i < h.len() - 1 && 0 <= w < s.len() ==> #[trigger] g(h, i, s[w]) >= 0real
}
pub open spec fn turns_left(h: Seq<P2>, i: int, j: int, k: int) -> bool { orient(h[i], h[j], h[k]) > 0real }
proof fn lemma_result(s: Seq<P2>, d: Seq<P2>, ix: Seq<int>, h: Seq<P2>)
    requires simple_ring(s), hull_at(s, d, ix, s.len() - 1), h =~= d.reverse() ensures is_hull(h, s)
{
    reveal(hull_at); reveal(is_hull);
    lemma_shape(d);
    let m = d.len() - 1;
    assert forall|i: int, j: int, k: int| 0 <= i < j < k < h.len() - 1 implies #[trigger] turns_left(h, i, j, k) by { lemma_tri(d, m - k, m - j, m - i); lemma_cyc(h[i], h[j], h[k]); }
    assert forall|i: int| 0 <= i < h.len() implies s.contains(#[trigger] h[i]) by { let o = m - i; assert(ix[o] <= ix[0]) by { if 0 < o < d.len() - 1 {} } assert(h[i] == s[ix[o]]); }
    assert forall|i: int, w: int| 0 <= i < h.len() - 1 && 0 <= w < s.len() implies #[trigger] g(h, i, s[w]) >= 0real by {
        let v = if w == 0 { s.len() - 1 } else { w };
        assert(s[v] == s[w]);
        assert(hull_covers(d, s[v]));
        assert(g(d, m - 1 - i, s[v]) <= 0real);
        lemma_cyc(d[m - 1 - i], d[m - i], s[v]);
    }
}
proof fn lemma_hull_shape(s: Seq<P2>, d: Seq<P2>, ix: Seq<int>, t: int)
    requires hull_at(s, d, ix, t) ensures cvx(d), d.len() >= 4, d[0] == d[d.len() - 1], ix.len() == d.len()
{ reveal(hull_at); lemma_shape(d); }
proof fn lemma_ring_len(s: Seq<P2>) requires simple_ring(s) ensures s.len() >= 4 {}
