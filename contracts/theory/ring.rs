// Closed chains of points of the real plane and what they enclose (even-odd rule).
pub type P2 = (real, real);
pub open spec fn on2(a: P2, b: P2, z: P2) -> bool { onr(a.0, a.1, b.0, b.1, z.0, z.1) }
pub open spec fn meet2(p: P2, q: P2, a: P2, b: P2, z: P2) -> bool { on2(p, q, z) && on2(a, b, z) }
#[verifier::opaque]
pub open spec fn apart2(p: P2, q: P2, a: P2, b: P2) -> bool { forall|z: P2| !#[trigger] meet2(p, q, a, b, z) }
pub open spec fn orient(a: P2, b: P2, p: P2) -> real { (b.0 - a.0) * (p.1 - a.1) - (b.1 - a.1) * (p.0 - a.0) }
pub open spec fn straddle(y: real, a: P2, b: P2) -> bool { (a.1 <= y && y < b.1) || (b.1 <= y && y < a.1) }
/// The ray from p to the right meets the segment (which is open at its upper end).
pub open spec fn cr(p: P2, a: P2, b: P2) -> bool { straddle(p.1, a, b) && (if a.1 < b.1 { orient(a, b, p) > 0real } else { orient(a, b, p) < 0real }) }
pub open spec fn b2n1(b: bool) -> nat { if b { 1 } else { 0 } }
/// Number of edges among the first n that the ray from p meets.
pub open spec fn crn(r: Seq<P2>, p: P2, n: int) -> nat decreases n { if n <= 0 { 0 } else { crn(r, p, n - 1) + b2n1(cr(p, r[n - 1], r[n])) } }
pub open spec fn odd(n: nat) -> bool { n % 2 == 1 }
/// Even-odd rule.
#[verifier::opaque]
pub open spec fn inside2(r: Seq<P2>, p: P2) -> bool { odd(crn(r, p, r.len() - 1)) }
// ---- one edge ---------------------------------------------------------------
/// x of the line through a and b at height y.
pub open spec fn xat(a: P2, b: P2, y: real) -> real { a.0 + (y - a.1) * ((b.0 - a.0) / (b.1 - a.1)) }
pub open spec fn slope(a: P2, b: P2) -> real { (b.0 - a.0) / (b.1 - a.1) }
proof fn lemma_slope(a: P2, b: P2) requires a.1 != b.1 ensures slope(a, b) * (b.1 - a.1) == b.0 - a.0, (b.1 - a.1) * slope(a, b) == b.0 - a.0
{ let u = b.0 - a.0; let v = b.1 - a.1; assert((u / v) * v == u) by (nonlinear_arith) requires v != 0real; lemma_mul_comm(u / v, v); }
/// Heights move x along the slope.
proof fn lemma_xat(a: P2, b: P2, y1: real, y2: real)
    requires a.1 != b.1
    ensures xat(a, b, y2) - xat(a, b, y1) == (y2 - y1) * slope(a, b), xat(a, b, a.1) == a.0, xat(a, b, b.1) == b.0
{
    lemma_slope(a, b);
    let m = slope(a, b);
    lemma_sub_mul(m, y2 - a.1, y1 - a.1);
    lemma_mul01(0real, m);
    assert((y2 - a.1) - (y1 - a.1) == y2 - y1);
    assert((a.1 - a.1) * m == 0real);
}
proof fn lemma_orient_x(a: P2, b: P2, p: P2)
    requires a.1 != b.1
    ensures orient(a, b, p) == (b.1 - a.1) * (xat(a, b, p.1) - p.0)
{
    lemma_slope(a, b);
    let m = slope(a, b);
    let v = b.1 - a.1;
    lemma_mul_swap(v, p.1 - a.1, m);
    lemma_mul_comm(p.1 - a.1, b.0 - a.0);
    lemma_sub_mul(v, xat(a, b, p.1) - a.0, p.0 - a.0);
    assert((xat(a, b, p.1) - a.0) - (p.0 - a.0) == xat(a, b, p.1) - p.0);
}
proof fn lemma_sign(v: real, d: real) ensures v > 0real ==> (v * d > 0real <==> d > 0real) && (v * d < 0real <==> d < 0real), v < 0real ==> (v * d > 0real <==> d < 0real) && (v * d < 0real <==> d > 0real)
{
    assert(v > 0real ==> (v * d > 0real <==> d > 0real) && (v * d < 0real <==> d < 0real)) by (nonlinear_arith);
    assert(v < 0real ==> (v * d > 0real <==> d < 0real) && (v * d < 0real <==> d > 0real)) by (nonlinear_arith);
}
proof fn lemma_cr(p: P2, a: P2, b: P2) ensures cr(p, a, b) <==> straddle(p.1, a, b) && p.0 < xat(a, b, p.1)
{ if straddle(p.1, a, b) { lemma_orient_x(a, b, p); lemma_sign(b.1 - a.1, xat(a, b, p.1) - p.0); } }
/// The point of the segment at a height.
proof fn lemma_at_on(a: P2, b: P2, y: real)
    requires a.1 != b.1, rmin(a.1, b.1) <= y <= rmax(a.1, b.1)
    ensures on2(a, b, (xat(a, b, y), y))
{
    reveal(onr);
    let v = b.1 - a.1;
    let t = (y - a.1) / v;
    lemma_ratio(y - a.1, v);
    lemma_slope(a, b);
    let m = slope(a, b);
    assert(t * v == y - a.1);
    lemma_mul_swap(t, v, m);
    assert(t * (b.0 - a.0) == (y - a.1) * m);
    assert(on_t(a.0, a.1, b.0, b.1, xat(a, b, y), y, t));
}
proof fn lemma_on_at(a: P2, b: P2, z: P2)
    requires on2(a, b, z)
    ensures rmin(a.1, b.1) <= z.1 <= rmax(a.1, b.1), rmin(a.0, b.0) <= z.0 <= rmax(a.0, b.0), a.1 != b.1 ==> z.0 == xat(a, b, z.1), orient(a, b, z) == 0real
{
    reveal(onr);
    let t = choose|t: real| #[trigger] on_t(a.0, a.1, b.0, b.1, z.0, z.1, t);
    lemma_on_in(a.0, a.1, b.0, b.1, z.0, z.1, t);
    if a.1 != b.1 {
        lemma_slope(a, b);
        let m = slope(a, b);
        let v = b.1 - a.1;
        lemma_mul_swap(t, v, m);
    }
}
proof fn lemma_ends2(a: P2, b: P2) ensures on2(a, b, a), on2(a, b, b)
{
    reveal(onr);
    lemma_mul01(0real, b.0 - a.0); lemma_mul01(0real, b.1 - a.1); lemma_mul01(1real, b.0 - a.0); lemma_mul01(1real, b.1 - a.1);
    assert(on_t(a.0, a.1, b.0, b.1, a.0, a.1, 0real));
    assert(on_t(a.0, a.1, b.0, b.1, b.0, b.1, 1real));
}
proof fn lemma_flip2(a: P2, b: P2, z: P2) ensures on2(a, b, z) == on2(b, a, z), cr(z, a, b) == cr(z, b, a)
{
    if on2(a, b, z) { lemma_flip2_on(a, b, z); }
    if on2(b, a, z) { lemma_flip2_on(b, a, z); }
    lemma_cr(z, a, b); lemma_cr(z, b, a);
    if straddle(z.1, a, b) {
        lemma_xat(a, b, a.1, z.1); lemma_xat(b, a, a.1, z.1);
        let u = b.0 - a.0; let v = b.1 - a.1;
        lemma_slope(a, b); lemma_slope(b, a);
        lemma_sub_mul(v, slope(a, b), slope(b, a));
        lemma_sub_mul(slope(b, a), 0real, v); lemma_mul01(0real, slope(b, a)); lemma_mul_comm(v, slope(b, a));
        assert(a.1 - b.1 == 0real - v);
        lemma_zero(v, slope(a, b) - slope(b, a));
    }
}
proof fn lemma_flip2_on(a: P2, b: P2, z: P2) requires on2(a, b, z) ensures on2(b, a, z)
{
    reveal(onr);
    let t = choose|t: real| #[trigger] on_t(a.0, a.1, b.0, b.1, z.0, z.1, t);
    let s = 1real - t;
    lemma_sub_mul(b.0 - a.0, 1real, t); lemma_sub_mul(b.1 - a.1, 1real, t); lemma_mul01(1real, b.0 - a.0); lemma_mul01(1real, b.1 - a.1);
    lemma_sub_mul(s, 0real, b.0 - a.0); lemma_sub_mul(s, 0real, b.1 - a.1); lemma_mul01(0real, s);
    lemma_mul_comm(s, 0real);
    assert(a.0 - b.0 == 0real - (b.0 - a.0) && a.1 - b.1 == 0real - (b.1 - a.1));
    assert(on_t(b.0, b.1, a.0, a.1, z.0, z.1, s));
}
/// Distance, along x, from the line pq to the line ab.
pub open spec fn gap(p: P2, q: P2, a: P2, b: P2, y: real) -> real { xat(a, b, y) - xat(p, q, y) }
pub open spec fn in_y(y: real, a: P2, b: P2) -> bool { rmin(a.1, b.1) <= y <= rmax(a.1, b.1) }
/// Root of an affine function.
proof fn lemma_zero_at(d1: real, d2: real, y1: real, y2: real, k: real) -> (y0: real)
    requires d2 - d1 == (y2 - y1) * k, (d1 <= 0real && d2 >= 0real) || (d1 >= 0real && d2 <= 0real)
    ensures d1 + (y0 - y1) * k == 0real, rmin(y1, y2) <= y0 <= rmax(y1, y2)
{
    lemma_mul01(0real, k);
    if d1 == 0real { y1 } else if d2 == 0real { y2 } else {
        let w = d1 - d2;
        let t = d1 / w;
        lemma_ratio(d1, w);
        let y0 = y1 + t * (y2 - y1);
        lemma_between(t, y2 - y1);
        lemma_mul_swap(t, y2 - y1, k);
        lemma_sub_mul(t, d2, d1); lemma_sub_mul(t, d1, d2);
        assert((y0 - y1) * k == t * (d2 - d1));
        assert(t * (d2 - d1) == 0real - t * w);
        y0
    }
}
/// Segments that do not meet stay on one side of each other.
proof fn lemma_side_const(p: P2, q: P2, a: P2, b: P2, y1: real, y2: real)
    requires p.1 != q.1, a.1 != b.1, apart2(p, q, a, b), in_y(y1, p, q), in_y(y1, a, b), in_y(y2, p, q), in_y(y2, a, b)
    ensures gap(p, q, a, b, y1) != 0real, (gap(p, q, a, b, y1) > 0real) == (gap(p, q, a, b, y2) > 0real)
{
    reveal(apart2);
    let k = slope(a, b) - slope(p, q);
    let d1 = gap(p, q, a, b, y1);
    let d2 = gap(p, q, a, b, y2);
    lemma_xat(a, b, y1, y2); lemma_xat(p, q, y1, y2);
    lemma_sub_mul(y2 - y1, slope(a, b), slope(p, q));
    if (d1 <= 0real && d2 >= 0real) || (d1 >= 0real && d2 <= 0real) {
        let y0 = lemma_zero_at(d1, d2, y1, y2, k);
        lemma_xat(a, b, y1, y0); lemma_xat(p, q, y1, y0);
        lemma_sub_mul(y0 - y1, slope(a, b), slope(p, q));
        lemma_at_on(a, b, y0); lemma_at_on(p, q, y0);
        assert(meet2(p, q, a, b, (xat(a, b, y0), y0)));
    }
}
/// v lies in the strip to the right of the segment from p up to q.
pub open spec fn strip(p: P2, q: P2, v: P2) -> bool { p.1 < v.1 && v.1 <= q.1 && v.0 > xat(p, q, v.1) }
/// Same for segments in either direction.
pub open spec fn strip2(p: P2, q: P2, v: P2) -> bool { if p.1 < q.1 { strip(p, q, v) } else if q.1 < p.1 { strip(q, p, v) } else { false } }
/// What one edge contributes to the difference of the counts of p and q.
pub open spec fn change(p: P2, q: P2, a: P2, b: P2) -> bool { odd(b2n1(cr(p, a, b)) + b2n1(cr(q, a, b)) + b2n1(strip2(p, q, a)) + b2n1(strip2(p, q, b))) }
proof fn lemma_level_edge(p: P2, a: P2, b: P2)
    requires a.1 == b.1, rmin(a.0, b.0) <= p.0 <= rmax(a.0, b.0), p.1 == a.1 ensures on2(a, b, p)
{
    lemma_mul_comm(b.1 - a.1, p.0 - a.0); lemma_mul_comm(b.0 - a.0, p.1 - a.1);
    lemma_mul01(0real, p.0 - a.0); lemma_mul01(0real, b.0 - a.0);
    lemma_in_on(a.0, a.1, b.0, b.1, p.0, p.1);
}
proof fn lemma_apart_sym(p: P2, q: P2, a: P2, b: P2) requires apart2(p, q, a, b) ensures apart2(q, p, a, b), apart2(a, b, p, q), apart2(p, q, b, a)
{
    reveal(apart2);
    assert forall|z: P2| !#[trigger] meet2(q, p, a, b, z) by { lemma_flip2(p, q, z); assert(!meet2(p, q, a, b, z)); }
    assert forall|z: P2| !#[trigger] meet2(p, q, b, a, z) by { lemma_flip2(a, b, z); assert(!meet2(p, q, a, b, z)); }
    assert forall|z: P2| !#[trigger] meet2(a, b, p, q, z) by { assert(!meet2(p, q, a, b, z)); }
}
proof fn lemma_no_change_up(p: P2, q: P2, a: P2, b: P2)
    requires p.1 < q.1, apart2(p, q, a, b) ensures !change(p, q, a, b)
{
    lemma_cr(p, a, b); lemma_cr(q, a, b);
    lemma_xat(p, q, p.1, q.1);
    if a.1 != b.1 {
        lemma_xat(a, b, a.1, b.1);
        let y1 = rmax(rmin(a.1, b.1), p.1);
        if in_y(y1, a, b) && in_y(y1, p, q) {
            if in_y(p.1, a, b) { lemma_side_const(p, q, a, b, y1, p.1); }
            if in_y(q.1, a, b) { lemma_side_const(p, q, a, b, y1, q.1); }
            if in_y(a.1, p, q) { lemma_side_const(p, q, a, b, y1, a.1); }
            if in_y(b.1, p, q) { lemma_side_const(p, q, a, b, y1, b.1); }
        }
    } else if p.1 < a.1 && a.1 <= q.1 {
        let x = xat(p, q, a.1);
        lemma_at_on(p, q, a.1);
        if rmin(a.0, b.0) <= x <= rmax(a.0, b.0) {
            lemma_level_edge((x, a.1), a, b);
            reveal(apart2);
            assert(meet2(p, q, a, b, (x, a.1)));
        }
    }
}
/// An edge that does not meet pq contributes nothing.
proof fn lemma_no_change(p: P2, q: P2, a: P2, b: P2)
    requires apart2(p, q, a, b) ensures !change(p, q, a, b)
{
    if p.1 < q.1 { lemma_no_change_up(p, q, a, b); }
    else if q.1 < p.1 { lemma_apart_sym(p, q, a, b); lemma_no_change_up(q, p, a, b); }
    else {
        lemma_cr(p, a, b); lemma_cr(q, a, b);
        if straddle(p.1, a, b) {
            let x = xat(a, b, p.1);
            lemma_at_on(a, b, p.1);
            if rmin(p.0, q.0) <= x <= rmax(p.0, q.0) {
                lemma_level_edge((x, p.1), p, q);
                reveal(apart2);
                assert(meet2(p, q, a, b, (x, p.1)));
            }
        }
    }
}
/// Two segments that meet in one point which is an end of neither.
pub open spec fn cross2(p: P2, q: P2, a: P2, b: P2, c: P2) -> bool {
    c != p && c != q && c != a && c != b && meet2(p, q, a, b, c) && forall|z: P2| #[trigger] meet2(p, q, a, b, z) ==> z == c
}
/// The two sides of a common point.
proof fn lemma_side_change(p: P2, q: P2, a: P2, b: P2, c: P2, y1: real, y2: real)
    requires p.1 != q.1, a.1 != b.1, cross2(p, q, a, b, c), in_y(y1, p, q), in_y(y1, a, b), in_y(y2, p, q), in_y(y2, a, b), y1 != c.1, y2 != c.1
    ensures gap(p, q, a, b, y1) != 0real, gap(p, q, a, b, y2) != 0real, ((gap(p, q, a, b, y1) > 0real) == (gap(p, q, a, b, y2) > 0real)) == ((y1 < c.1) == (y2 < c.1))
{
    lemma_on_at(p, q, c); lemma_on_at(a, b, c);
    let k = slope(a, b) - slope(p, q);
    lemma_xat(a, b, c.1, y1); lemma_xat(p, q, c.1, y1); lemma_sub_mul(y1 - c.1, slope(a, b), slope(p, q));
    lemma_xat(a, b, c.1, y2); lemma_xat(p, q, c.1, y2); lemma_sub_mul(y2 - c.1, slope(a, b), slope(p, q));
    assert(gap(p, q, a, b, y1) == (y1 - c.1) * k);
    assert(gap(p, q, a, b, y2) == (y2 - c.1) * k);
    if k == 0real {
        lemma_mul01(0real, y1 - c.1); lemma_mul_comm(k, y1 - c.1);
        lemma_at_on(a, b, y1); lemma_at_on(p, q, y1);
        assert(meet2(p, q, a, b, (xat(a, b, y1), y1)));
    }
    lemma_sign(k, y1 - c.1); lemma_sign(k, y2 - c.1);
    lemma_mul_comm(k, y1 - c.1); lemma_mul_comm(k, y2 - c.1);
}
proof fn lemma_change_up(p: P2, q: P2, a: P2, b: P2, c: P2)
    requires p.1 < q.1, cross2(p, q, a, b, c) ensures change(p, q, a, b)
{
    lemma_cr(p, a, b); lemma_cr(q, a, b);
    lemma_xat(p, q, p.1, q.1);
    lemma_on_at(p, q, c); lemma_on_at(a, b, c);
    lemma_xat(p, q, p.1, c.1);
    assert(c.1 != p.1 && c.1 != q.1);
    if a.1 != b.1 {
        lemma_xat(a, b, a.1, b.1);
        assert(c.1 != a.1 && c.1 != b.1);
        let y1 = rmax(rmin(a.1, b.1), p.1);
        assert(y1 < c.1);
        if in_y(p.1, a, b) { lemma_side_change(p, q, a, b, c, y1, p.1); }
        if in_y(q.1, a, b) { lemma_side_change(p, q, a, b, c, y1, q.1); }
        if in_y(a.1, p, q) { lemma_side_change(p, q, a, b, c, y1, a.1); }
        if in_y(b.1, p, q) { lemma_side_change(p, q, a, b, c, y1, b.1); }
    } else {
        assert(xat(p, q, a.1) == c.0);
        assert(rmin(a.0, b.0) < c.0 < rmax(a.0, b.0)) by { assert(c != a && c != b); }
    }
}
/// An edge that crosses pq contributes.
proof fn lemma_change(p: P2, q: P2, a: P2, b: P2, c: P2)
    requires cross2(p, q, a, b, c) ensures change(p, q, a, b)
{
    if p.1 < q.1 { lemma_change_up(p, q, a, b, c); }
    else if q.1 < p.1 {
        lemma_flip2(p, q, c);
        assert forall|z: P2| #[trigger] meet2(q, p, a, b, z) implies z == c by { lemma_flip2(p, q, z); assert(meet2(p, q, a, b, z)); }
        lemma_change_up(q, p, a, b, c);
    } else {
        lemma_cr(p, a, b); lemma_cr(q, a, b);
        lemma_on_at(p, q, c); lemma_on_at(a, b, c);
        if a.1 == b.1 {
            // two level segments with one common point: it is an end
            assert(rmin(p.0, q.0) < c.0 < rmax(p.0, q.0));
            assert(rmin(a.0, b.0) < c.0 < rmax(a.0, b.0));
            let d = rmin(rmax(p.0, q.0), rmax(a.0, b.0));
            lemma_level_edge((d, c.1), p, q); lemma_level_edge((d, c.1), a, b);
            assert(meet2(p, q, a, b, (d, c.1)));
        } else {
            lemma_xat(a, b, a.1, b.1);
            assert(rmin(p.0, q.0) < c.0 < rmax(p.0, q.0));
            assert(c.1 != a.1 && c.1 != b.1);
        }
    }
}
// ---- closed chains ----------------------------------------------------------
pub open spec fn closed2(r: Seq<P2>) -> bool { r.len() >= 2 && r[0] == r[r.len() - 1] }
#[verifier::opaque]
pub open spec fn clear(r: Seq<P2>, p: P2, q: P2, n: int) -> bool { forall|i: int| 0 <= i < n ==> apart2(p, q, #[trigger] r[i], r[i + 1]) }
proof fn lemma_sum(r: Seq<P2>, p: P2, q: P2, n: int)
    requires 0 <= n < r.len(), clear(r, p, q, n)
    ensures odd(crn(r, p, n) + crn(r, q, n)) == (strip2(p, q, r[0]) != strip2(p, q, r[n]))
    decreases n
{
    if n > 0 {
        assert(clear(r, p, q, n - 1)) by { reveal(clear); }
        lemma_sum(r, p, q, n - 1);
        assert(apart2(p, q, r[n - 1], r[n])) by { reveal(clear); }
        lemma_no_change(p, q, r[n - 1], r[n]);
    }
}
/// No edge meets pq.
pub open spec fn free(r: Seq<P2>, p: P2, q: P2) -> bool { clear(r, p, q, r.len() - 1) }
/// Moving without meeting the chain does not change sides.
proof fn lemma_same_side(r: Seq<P2>, p: P2, q: P2)
    requires closed2(r), free(r, p, q) ensures inside2(r, p) == inside2(r, q)
{ reveal(inside2); lemma_sum(r, p, q, r.len() - 1); }
/// All edges but the k-th.
#[verifier::opaque]
pub open spec fn clear_but(r: Seq<P2>, p: P2, q: P2, k: int, n: int) -> bool { forall|i: int| 0 <= i < n && i != k ==> apart2(p, q, #[trigger] r[i], r[i + 1]) }
proof fn lemma_sum_but(r: Seq<P2>, p: P2, q: P2, k: int, c: P2, n: int)
    requires 0 <= n < r.len(), 0 <= k < r.len() - 1, clear_but(r, p, q, k, n), cross2(p, q, r[k], r[k + 1], c)
    ensures odd(crn(r, p, n) + crn(r, q, n)) == ((strip2(p, q, r[0]) != strip2(p, q, r[n])) != (k < n))
    decreases n
{
    if n > 0 {
        assert(clear_but(r, p, q, k, n - 1)) by { reveal(clear_but); }
        lemma_sum_but(r, p, q, k, c, n - 1);
        if n - 1 != k {
            assert(apart2(p, q, r[n - 1], r[n])) by { reveal(clear_but); }
            lemma_no_change(p, q, r[n - 1], r[n]);
        } else { lemma_change(p, q, r[n - 1], r[n], c); }
    }
}
/// Crossing one edge changes sides.
proof fn lemma_other_side(r: Seq<P2>, p: P2, q: P2, k: int, c: P2)
    requires closed2(r), 0 <= k < r.len() - 1, clear_but(r, p, q, k, r.len() - 1), cross2(p, q, r[k], r[k + 1], c)
    ensures inside2(r, p) != inside2(r, q)
{ reveal(inside2); lemma_sum_but(r, p, q, k, c, r.len() - 1); }
// ---- points at the rim ------------------------------------------------------
#[verifier::opaque]
pub open spec fn on_r(r: Seq<P2>, z: P2) -> bool { exists|i: int| 0 <= i < r.len() - 1 && on2(#[trigger] r[i], r[i + 1], z) }
proof fn lemma_on_r(r: Seq<P2>, i: int, z: P2) requires 0 <= i < r.len() - 1, on2(r[i], r[i + 1], z) ensures on_r(r, z) { reveal(on_r); }
proof fn lemma_vertex_on(r: Seq<P2>, i: int) requires 0 <= i < r.len(), r.len() >= 2 ensures on_r(r, r[i])
{ if i < r.len() - 1 { lemma_ends2(r[i], r[i + 1]); lemma_on_r(r, i, r[i]); } else { lemma_ends2(r[i - 1], r[i]); lemma_on_r(r, i - 1, r[i]); } }
proof fn lemma_none(r: Seq<P2>, p: P2, n: int)
    requires 0 <= n < r.len(), forall|i: int| 0 <= i < n ==> !cr(p, #[trigger] r[i], r[i + 1]) ensures crn(r, p, n) == 0 decreases n
{ if n > 0 { lemma_none(r, p, n - 1); assert(!cr(p, r[n - 1], r[n - 1 + 1])); } }
proof fn lemma_all_straddle(r: Seq<P2>, p: P2, n: int)
    requires 0 <= n < r.len(), forall|i: int| 0 <= i < n ==> cr(p, #[trigger] r[i], r[i + 1]) == straddle(p.1, r[i], r[i + 1])
    ensures odd(crn(r, p, n)) == ((r[0].1 > p.1) != (r[n].1 > p.1)) decreases n
{ if n > 0 { lemma_all_straddle(r, p, n - 1); assert(cr(p, r[n - 1], r[n - 1 + 1]) == straddle(p.1, r[n - 1], r[n])); } }
pub open spec fn left_of(r: Seq<P2>, x: real) -> bool { forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0 <= x }
pub open spec fn right_of(r: Seq<P2>, x: real) -> bool { forall|i: int| 0 <= i < r.len() ==> x <= (#[trigger] r[i]).0 }
/// A point no vertex lies right of is outside.
proof fn lemma_rim_right(r: Seq<P2>, p: P2)
    requires r.len() >= 2, left_of(r, p.0) ensures !inside2(r, p)
{
    reveal(inside2);
    assert forall|i: int| 0 <= i < r.len() - 1 implies !cr(p, #[trigger] r[i], r[i + 1]) by {
        lemma_cr(p, r[i], r[i + 1]);
        if straddle(p.1, r[i], r[i + 1]) { lemma_at_on(r[i], r[i + 1], p.1); lemma_on_at(r[i], r[i + 1], (xat(r[i], r[i + 1], p.1), p.1)); assert(r[i].0 <= p.0 && r[i + 1].0 <= p.0); }
    }
    lemma_none(r, p, r.len() - 1);
}
/// A point off the chain that no vertex lies left of is outside.
proof fn lemma_rim_left(r: Seq<P2>, p: P2)
    requires closed2(r), right_of(r, p.0), !on_r(r, p) ensures !inside2(r, p)
{
    reveal(inside2);
    assert forall|i: int| 0 <= i < r.len() - 1 implies cr(p, #[trigger] r[i], r[i + 1]) == straddle(p.1, r[i], r[i + 1]) by {
        lemma_cr(p, r[i], r[i + 1]);
        if straddle(p.1, r[i], r[i + 1]) {
            let z = (xat(r[i], r[i + 1], p.1), p.1);
            lemma_at_on(r[i], r[i + 1], p.1); lemma_on_at(r[i], r[i + 1], z); assert(r[i].0 >= p.0 && r[i + 1].0 >= p.0);
            if z == p { lemma_on_r(r, i, p); }
        }
    }
    lemma_all_straddle(r, p, r.len() - 1);
}
/// A point above all vertices, or below all, is outside.
proof fn lemma_rim_level(r: Seq<P2>, p: P2)
    requires r.len() >= 2, (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).1 <= p.1) || (forall|i: int| 0 <= i < r.len() ==> p.1 < (#[trigger] r[i]).1) ensures !inside2(r, p)
{
    reveal(inside2);
    assert forall|i: int| 0 <= i < r.len() - 1 implies !cr(p, #[trigger] r[i], r[i + 1]) by { assert(r[i].1 <= p.1 || p.1 < r[i].1); assert(r[i + 1].1 <= p.1 || p.1 < r[i + 1].1); }
    lemma_none(r, p, r.len() - 1);
}
// ---- simple closed chains ---------------------------------------------------
#[verifier::opaque]
pub open spec fn edges_ok(r: Seq<P2>, i: int, j: int) -> bool {
    forall|z: P2| #[trigger] meet2(r[i], r[i + 1], r[j], r[j + 1], z) ==> (j == i + 1 && z == r[j]) || (i == 0 && j == r.len() - 2 && z == r[0])
}
/// Closed, consecutive vertices different, edges sharing only the vertices they must.
pub open spec fn simple_ring(r: Seq<P2>) -> bool {
    &&& r.len() >= 4 && r[0] == r[r.len() - 1]
    &&& forall|i: int| 0 <= i < r.len() - 1 ==> #[trigger] r[i] != r[i + 1]
    &&& forall|i: int, j: int| 0 <= i < j < r.len() - 1 ==> #[trigger] edges_ok(r, i, j)
}
proof fn lemma_edges(r: Seq<P2>, i: int, j: int, z: P2)
    requires simple_ring(r), 0 <= i < r.len() - 1, 0 <= j < r.len() - 1, i != j, on2(r[i], r[i + 1], z), on2(r[j], r[j + 1], z)
    ensures j == i + 1 ==> z == r[j] || (i == 0 && j == r.len() - 2 && z == r[0]), i == j + 1 ==> z == r[i] || (j == 0 && i == r.len() - 2 && z == r[0]), j != i + 1 && i != j + 1 ==> z == r[0] && ((i == 0 && j == r.len() - 2) || (j == 0 && i == r.len() - 2)),
        (z == r[i] || z == r[i + 1]) && (z == r[j] || z == r[j + 1]),
{
    reveal(edges_ok);
    if i < j { assert(edges_ok(r, i, j)); assert(meet2(r[i], r[i + 1], r[j], r[j + 1], z)); }
    else { assert(edges_ok(r, j, i)); assert(meet2(r[j], r[j + 1], r[i], r[i + 1], z)); }
}
/// At most one point in common.
#[verifier::opaque]
pub open spec fn share1(r: Seq<P2>, s: Seq<P2>) -> bool { forall|z: P2, w: P2| on_r(r, z) && on_r(s, z) && on_r(r, w) && on_r(s, w) ==> #[trigger] same_pt(z, w) }
pub open spec fn same_pt(z: P2, w: P2) -> bool { z == w }
proof fn lemma_share1(r: Seq<P2>, s: Seq<P2>, z: P2, w: P2) requires share1(r, s), on_r(r, z), on_r(s, z), on_r(r, w), on_r(s, w) ensures z == w
{ reveal(share1); assert(same_pt(z, w)); }
proof fn lemma_share1_sym(r: Seq<P2>, s: Seq<P2>) ensures share1(r, s) == share1(s, r) { reveal(share1); }
proof fn lemma_sub_on(a: P2, b: P2, p: P2, q: P2, z: P2)
    requires on2(a, b, p), on2(a, b, q), on2(p, q, z) ensures on2(a, b, z)
{
    reveal(onr);
    let tp = choose|t: real| #[trigger] on_t(a.0, a.1, b.0, b.1, p.0, p.1, t);
    let tq = choose|t: real| #[trigger] on_t(a.0, a.1, b.0, b.1, q.0, q.1, t);
    let t = choose|t: real| #[trigger] on_t(p.0, p.1, q.0, q.1, z.0, z.1, t);
    let s = tp + t * (tq - tp);
    let u = b.0 - a.0;
    let v = b.1 - a.1;
    lemma_between(t, tq - tp);
    lemma_mul_dist(u, tp, t * (tq - tp)); lemma_mul_dist(v, tp, t * (tq - tp));
    lemma_sub_mul(u, tq, tp); lemma_sub_mul(v, tq, tp);
    lemma_mul_swap(u, t, tq - tp); lemma_mul_swap(v, t, tq - tp);
    assert(q.0 - p.0 == (tq - tp) * u && q.1 - p.1 == (tq - tp) * v);
    lemma_mul_comm(u, tq - tp); lemma_mul_comm(v, tq - tp);
    assert(s * u == tp * u + (t * (tq - tp)) * u);
    assert((t * (tq - tp)) * u == t * ((tq - tp) * u)) by { lemma_mul_swap(t, tq - tp, u); }
    assert((t * (tq - tp)) * v == t * ((tq - tp) * v)) by { lemma_mul_swap(t, tq - tp, v); }
    assert(on_t(a.0, a.1, b.0, b.1, z.0, z.1, s));
}
/// From a point of a segment other than t one of the ends can be reached without meeting t.
proof fn lemma_reach(a: P2, b: P2, z: P2, t: P2)
    requires on2(a, b, z), z != t ensures !on2(z, a, t) || !on2(z, b, t)
{
    if on2(z, a, t) && on2(z, b, t) {
        reveal(onr);
        let k = choose|k: real| #[trigger] on_t(a.0, a.1, b.0, b.1, z.0, z.1, k);
        let s = choose|s: real| #[trigger] on_t(z.0, z.1, a.0, a.1, t.0, t.1, s);
        let e = choose|e: real| #[trigger] on_t(z.0, z.1, b.0, b.1, t.0, t.1, e);
        lemma_reach1(a.0, b.0, z.0, t.0, k, s, e);
        lemma_reach1(a.1, b.1, z.1, t.1, k, s, e);
    }
}
proof fn lemma_reach1(a: real, b: real, z: real, t: real, k: real, s: real, e: real)
    requires z == a + k * (b - a), t == z + s * (a - z), t == z + e * (b - z), 0real <= k <= 1real, 0real <= s <= 1real, 0real <= e <= 1real
    ensures t == z
{
    let u = b - a;
    let m = 1real - k;
    // a - z = - k u, b - z = m u
    lemma_sub_mul(u, 1real, k); lemma_mul01(1real, u);
    assert(b - z == m * u);
    assert(a - z == 0real - k * u);
    lemma_between(k, u); lemma_between(m, u);
    lemma_between(s, a - z); lemma_between(e, b - z);
}
/// Points shared with r other than t are none.
pub open spec fn only_t(r: Seq<P2>, s: Seq<P2>, t: P2) -> bool { forall|z: P2| #[trigger] on_r(r, z) && on_r(s, z) ==> z == t }
proof fn lemma_part_free(r: Seq<P2>, s: Seq<P2>, t: P2, k: int, p: P2, q: P2)
    requires only_t(r, s, t), 0 <= k < s.len() - 1, on2(s[k], s[k + 1], p), on2(s[k], s[k + 1], q), !on2(p, q, t) || !on_r(r, t)
    ensures free(r, p, q)
{
    reveal(clear);
    assert forall|i: int| 0 <= i < r.len() - 1 implies apart2(p, q, #[trigger] r[i], r[i + 1]) by {
        reveal(apart2);
        assert forall|z: P2| !#[trigger] meet2(p, q, r[i], r[i + 1], z) by {
            if meet2(p, q, r[i], r[i + 1], z) {
                lemma_sub_on(s[k], s[k + 1], p, q, z);
                lemma_on_r(s, k, z); lemma_on_r(r, i, z);
            }
        }
    }
}
proof fn lemma_edge_free(r: Seq<P2>, s: Seq<P2>, t: P2, k: int)
    requires closed2(r), only_t(r, s, t), 0 <= k < s.len() - 1, !on2(s[k], s[k + 1], t) || !on_r(r, t)
    ensures inside2(r, s[k]) == inside2(r, s[k + 1])
{ lemma_ends2(s[k], s[k + 1]); lemma_part_free(r, s, t, k, s[k], s[k + 1]); lemma_same_side(r, s[k], s[k + 1]); }
/// An edge that t lies on, and not at its end.
proof fn lemma_edge_of(s: Seq<P2>, t: P2) -> (k: int)
    requires simple_ring(s), on_r(s, t) ensures 0 <= k < s.len() - 1, on2(s[k], s[k + 1], t), t != s[k + 1]
{
    reveal(on_r);
    let k = choose|k: int| 0 <= k < s.len() - 1 && on2(#[trigger] s[k], s[k + 1], t);
    if t != s[k + 1] { k }
    else if k + 1 < s.len() - 1 { lemma_ends2(s[k + 1], s[k + 2]); assert(s[k + 1] != s[k + 1 + 1]); k + 1 }
    else { lemma_ends2(s[0], s[1]); assert(s[0] != s[0int + 1]); 0 }
}
/// Vertices other than t are all on one side.
proof fn lemma_walk(r: Seq<P2>, s: Seq<P2>, t: P2, k: int, i: int)
    requires simple_ring(s), closed2(r), only_t(r, s, t), 0 <= k < s.len() - 1, on2(s[k], s[k + 1], t), t != s[k + 1], k < i < s.len()
    ensures s[i] == t || inside2(r, s[i]) == inside2(r, s[k + 1])
    decreases i
{
    if i > k + 1 {
        lemma_walk(r, s, t, k, i - 1);
        lemma_ends2(s[i - 1], s[i]);
        assert(s[i - 1] != s[i - 1 + 1]);
        if on2(s[i - 1], s[i], t) { lemma_edges(s, k, i - 1, t); } else { lemma_edge_free(r, s, t, i - 1); }
    }
}
proof fn lemma_walk0(r: Seq<P2>, s: Seq<P2>, t: P2, k: int, i: int)
    requires simple_ring(s), closed2(r), only_t(r, s, t), 0 <= k < s.len() - 1, on2(s[k], s[k + 1], t), t != s[k + 1], 0 <= i <= k
    ensures s[i] == t || inside2(r, s[i]) == inside2(r, s[k + 1])
    decreases i
{
    if i == 0 { lemma_walk(r, s, t, k, s.len() - 1); }
    else {
        lemma_walk0(r, s, t, k, i - 1);
        lemma_ends2(s[i - 1], s[i]);
        assert(s[i - 1] != s[i - 1 + 1]);
        if on2(s[i - 1], s[i], t) { lemma_edges(s, k, i - 1, t); } else { lemma_edge_free(r, s, t, i - 1); }
    }
}
/// A simple ring that meets r in t only lies, t apart, on one side of r.
proof fn lemma_one_side(r: Seq<P2>, s: Seq<P2>, t: P2) -> (side: bool)
    requires simple_ring(s), closed2(r), only_t(r, s, t), on_r(s, t)
    ensures forall|z: P2| #[trigger] on_r(s, z) && !on_r(r, z) ==> inside2(r, z) == side
{
    let k = lemma_edge_of(s, t);
    let side = inside2(r, s[k + 1]);
    assert forall|z: P2| #[trigger] on_r(s, z) && !on_r(r, z) implies inside2(r, z) == side by {
        if z == t {
            lemma_ends2(s[k], s[k + 1]);
            lemma_part_free(r, s, t, k, t, s[k + 1]); lemma_same_side(r, t, s[k + 1]);
        } else {
            reveal(on_r);
            let i = choose|i: int| 0 <= i < s.len() - 1 && on2(#[trigger] s[i], s[i + 1], z);
            lemma_reach(s[i], s[i + 1], z, t);
            lemma_ends2(s[i], s[i + 1]);
            let e = if !on2(z, s[i], t) { i } else { i + 1 };
            lemma_ends2(z, s[e]);
            lemma_part_free(r, s, t, i, z, s[e]); lemma_same_side(r, z, s[e]);
            if e > k { lemma_walk(r, s, t, k, e); } else { lemma_walk0(r, s, t, k, e); }
        }
    }
    side
}
/// All of s that is off r is inside r ...
#[verifier::opaque]
pub open spec fn lies_in(s: Seq<P2>, r: Seq<P2>) -> bool { forall|z: P2| #[trigger] on_r(s, z) && !on_r(r, z) ==> inside2(r, z) }
/// ... or outside.
#[verifier::opaque]
pub open spec fn lies_out(s: Seq<P2>, r: Seq<P2>) -> bool { forall|z: P2| #[trigger] on_r(s, z) && !on_r(r, z) ==> !inside2(r, z) }
proof fn lemma_in_pt(s: Seq<P2>, r: Seq<P2>, z: P2) requires lies_in(s, r), on_r(s, z), !on_r(r, z) ensures inside2(r, z) { reveal(lies_in); }
proof fn lemma_out_pt(s: Seq<P2>, r: Seq<P2>, z: P2) requires lies_out(s, r), on_r(s, z), !on_r(r, z) ensures !inside2(r, z) { reveal(lies_out); }
proof fn lemma_the_point(r: Seq<P2>, s: Seq<P2>) -> (t: P2)
    requires share1(r, s), simple_ring(s) ensures on_r(s, t), only_t(r, s, t)
{
    lemma_vertex_on(s, 0);
    if exists|z: P2| #[trigger] on_r(r, z) && on_r(s, z) {
        let t = choose|z: P2| #[trigger] on_r(r, z) && on_r(s, z);
        assert forall|z: P2| #[trigger] on_r(r, z) && on_r(s, z) implies z == t by { lemma_share1(r, s, z, t); }
        t
    } else { s[0] }
}
proof fn lemma_sides(r: Seq<P2>, s: Seq<P2>)
    requires share1(r, s), simple_ring(s), closed2(r) ensures lies_in(s, r) || lies_out(s, r)
{
    reveal(lies_in); reveal(lies_out);
    let t = lemma_the_point(r, s);
    let side = lemma_one_side(r, s, t);
}
/// A vertex of s off r (one of the first two).
proof fn lemma_off(r: Seq<P2>, s: Seq<P2>) -> (i: int)
    requires share1(r, s), simple_ring(s) ensures 0 <= i < 2, on_r(s, s[i]), !on_r(r, s[i])
{
    lemma_vertex_on(s, 0); lemma_vertex_on(s, 1);
    assert(s[0] != s[0int + 1]);
    if on_r(r, s[0]) && on_r(r, s[1]) { lemma_share1(r, s, s[0], s[1]); }
    if !on_r(r, s[0]) { 0 } else { 1 }
}
proof fn lemma_not_in_and_out(r: Seq<P2>, s: Seq<P2>)
    requires share1(r, s), simple_ring(s) ensures !(lies_in(s, r) && lies_out(s, r))
{ if lies_in(s, r) && lies_out(s, r) { let i = lemma_off(r, s); lemma_in_pt(s, r, s[i]); lemma_out_pt(s, r, s[i]); } }
/// Rings that share at most one point do not cross there.
proof fn lemma_no_cross(r: Seq<P2>, s: Seq<P2>, i: int, j: int, c: P2)
    requires share1(r, s), simple_ring(r), simple_ring(s), 0 <= i < r.len() - 1, 0 <= j < s.len() - 1
    ensures !cross2(s[j], s[j + 1], r[i], r[i + 1], c)
{
    if cross2(s[j], s[j + 1], r[i], r[i + 1], c) {
        let p = s[j];
        let q = s[j + 1];
        assert(meet2(p, q, r[i], r[i + 1], c));
        lemma_on_r(r, i, c); lemma_on_r(s, j, c);
        assert forall|k: int| 0 <= k < r.len() - 1 && k != i implies apart2(p, q, #[trigger] r[k], r[k + 1]) by {
            reveal(apart2);
            assert forall|z: P2| !#[trigger] meet2(p, q, r[k], r[k + 1], z) by {
                if meet2(p, q, r[k], r[k + 1], z) {
                    lemma_on_r(r, k, z); lemma_on_r(s, j, z); lemma_share1(r, s, z, c);
                    lemma_edges(r, i, k, c);
                }
            }
        }
        assert(clear_but(r, p, q, i, r.len() - 1)) by { reveal(clear_but); }
        lemma_other_side(r, p, q, i, c);
        lemma_vertex_on(s, j); lemma_vertex_on(s, j + 1);
        if on_r(r, p) { lemma_share1(r, s, p, c); }
        if on_r(r, q) { lemma_share1(r, s, q, c); }
        lemma_sides(r, s);
        if lies_in(s, r) { lemma_in_pt(s, r, p); lemma_in_pt(s, r, q); } else { lemma_out_pt(s, r, p); lemma_out_pt(s, r, q); }
    }
}
/// A leftmost vertex; a rightmost one.
proof fn lemma_leftmost(r: Seq<P2>) -> (i: int) requires r.len() >= 1 ensures 0 <= i < r.len(), right_of(r, r[i].0) decreases r.len()
{
    if r.len() == 1 { 0 } else {
        let h = r.drop_last();
        let i = lemma_leftmost(h);
        assert forall|k: int| 0 <= k < h.len() implies h[i].0 <= (#[trigger] r[k]).0 by { assert(h[k] == r[k]); }
        if r.last().0 < r[i].0 { r.len() - 1 } else { i }
    }
}
proof fn lemma_rightmost(r: Seq<P2>) -> (i: int) requires r.len() >= 1 ensures 0 <= i < r.len(), left_of(r, r[i].0) decreases r.len()
{
    if r.len() == 1 { 0 } else {
        let h = r.drop_last();
        let i = lemma_rightmost(h);
        assert forall|k: int| 0 <= k < h.len() implies h[i].0 >= (#[trigger] r[k]).0 by { assert(h[k] == r[k]); }
        if r.last().0 > r[i].0 { r.len() - 1 } else { i }
    }
}
/// Two rings do not lie in each other.
proof fn lemma_not_both(r: Seq<P2>, s: Seq<P2>)
    requires share1(r, s), simple_ring(r), simple_ring(s) ensures !(lies_in(s, r) && lies_in(r, s))
{
    if lies_in(s, r) && lies_in(r, s) {
        let ri = lemma_leftmost(r);
        let si = lemma_leftmost(s);
        let rj = lemma_rightmost(r);
        let sj = lemma_rightmost(s);
        lemma_vertex_on(r, ri); lemma_vertex_on(r, rj); lemma_vertex_on(s, si); lemma_vertex_on(s, sj);
        let v = if r[ri].0 <= s[si].0 { r[ri] } else { s[si] };
        let w = if r[rj].0 >= s[sj].0 { r[rj] } else { s[sj] };
        assert(right_of(r, v.0) && right_of(s, v.0) && left_of(r, w.0) && left_of(s, w.0));
        if !on_r(s, v) { lemma_rim_left(s, v); lemma_in_pt(r, s, v); }
        if !on_r(r, v) { lemma_rim_left(r, v); lemma_in_pt(s, r, v); }
        if !on_r(s, w) { lemma_rim_right(s, w); lemma_in_pt(r, s, w); }
        if !on_r(r, w) { lemma_rim_right(r, w); lemma_in_pt(s, r, w); }
        lemma_share1(r, s, v, w);
        let i = lemma_off(r, s);
        assert(v.0 <= s[i].0 <= w.0);
        lemma_rim_right(r, s[i]); lemma_in_pt(s, r, s[i]);
    }
}
// ---- nesting is transitive ---------------------------------------------------
pub open spec fn only_hit(z: P2, w: P2, a: P2, b: P2) -> bool { forall|q: P2| #[trigger] meet2(z, w, a, b, q) ==> q == w }
/// The point of ab on zw that is nearest to z.
proof fn lemma_near(z: P2, w: P2, a: P2, b: P2, h: P2) -> (n: P2)
    requires !on2(a, b, z), meet2(z, w, a, b, h) ensures on2(z, w, n), on2(a, b, n), only_hit(z, n, a, b)
{
    if only_hit(z, h, a, b) { h } else {
        reveal(onr);
        let q = choose|q: P2| #[trigger] meet2(z, h, a, b, q) && q != h;
        lemma_ends2(z, w);
        lemma_sub_on(z, w, z, h, q);
        let th = choose|t: real| #[trigger] on_t(z.0, z.1, w.0, w.1, h.0, h.1, t);
        let tq = choose|t: real| #[trigger] on_t(z.0, z.1, w.0, w.1, q.0, q.1, t);
        let sh = choose|t: real| #[trigger] on_t(a.0, a.1, b.0, b.1, h.0, h.1, t);
        let sq = choose|t: real| #[trigger] on_t(a.0, a.1, b.0, b.1, q.0, q.1, t);
        let k = (tq - th) / (sq - sh);
        assert(sq != sh);
        let al = th - sh * k;
        let be = al + k;
        lemma_along(z.0, w.0, a.0, b.0, th, tq, sh, sq);
        lemma_along(z.1, w.1, a.1, b.1, th, tq, sh, sq);
        // a = z + al d, b = z + be d
        if rmin(al, be) <= 0real <= rmax(al, be) {
            let s = lemma_unmix(al, be, 0real);
            lemma_mix(z.0, w.0, a.0, b.0, al, be, s, 0real); lemma_mix(z.1, w.1, a.1, b.1, al, be, s, 0real);
            lemma_mul01(0real, w.0 - z.0); lemma_mul01(0real, w.1 - z.1);
            assert(on_t(a.0, a.1, b.0, b.1, z.0, z.1, s));
        }
        lemma_between(sh, k);
        assert(th == al + sh * k);
        assert(rmin(al, be) <= th <= rmax(al, be));
        let m = rmin(al, be);
        assert(0real < m <= th);
        let n = if al <= be { a } else { b };
        assert(on_t(z.0, z.1, w.0, w.1, n.0, n.1, m));
        lemma_ends2(a, b);
        assert forall|c: P2| #[trigger] meet2(z, n, a, b, c) implies c == n by {
            lemma_sub_on(z, w, z, n, c);
            let t = choose|t: real| #[trigger] on_t(z.0, z.1, n.0, n.1, c.0, c.1, t);
            let s = choose|t: real| #[trigger] on_t(a.0, a.1, b.0, b.1, c.0, c.1, t);
            let g = al + s * k;
            lemma_between(s, k);
            lemma_mix2(z.0, w.0, a.0, b.0, al, be, s); lemma_mix2(z.1, w.1, a.1, b.1, al, be, s);
            // c = z + t m d = z + g d with t m <= m <= g
            lemma_between(t, m);
            lemma_mul_swap(t, m, w.0 - z.0); lemma_mul_swap(t, m, w.1 - z.1);
            assert(n.0 - z.0 == m * (w.0 - z.0) && n.1 - z.1 == m * (w.1 - z.1));
            assert(c.0 == z.0 + t * (n.0 - z.0) && c.1 == z.1 + t * (n.1 - z.1));
            lemma_mul_comm(t, m);
            assert(t * (n.0 - z.0) == t * (m * (w.0 - z.0)));
            assert(t * (n.1 - z.1) == t * (m * (w.1 - z.1)));
            assert(c.0 == z.0 + (t * m) * (w.0 - z.0) && c.1 == z.1 + (t * m) * (w.1 - z.1));
            lemma_sub_mul(w.0 - z.0, t * m, g); lemma_sub_mul(w.1 - z.1, t * m, g);
            if t * m != g {
                lemma_zero(t * m - g, w.0 - z.0); lemma_zero(t * m - g, w.1 - z.1);
                assert(w == z);
                lemma_mul_comm(th, 0real); lemma_mul_comm(m, 0real); lemma_mul01(0real, th); lemma_mul01(0real, m);
            }
            assert(g == m);
        }
        n
    }
}
proof fn lemma_along(z: real, w: real, a: real, b: real, th: real, tq: real, sh: real, sq: real)
    requires sq != sh, z + th * (w - z) == a + sh * (b - a), z + tq * (w - z) == a + sq * (b - a)
    ensures ({ let k = (tq - th) / (sq - sh); let al = th - sh * k; a == z + al * (w - z) && b == z + (al + k) * (w - z) })
{
    let d = w - z;
    let e = b - a;
    let k = (tq - th) / (sq - sh);
    lemma_sub_mul(d, tq, th); lemma_sub_mul(e, sq, sh);
    assert((tq - th) * d == (sq - sh) * e);
    let v = sq - sh;
    assert(k * v == tq - th) by { let u = tq - th; assert((u / v) * v == u) by (nonlinear_arith) requires v != 0real; }
    // k v d = v e so k d = e
    lemma_mul_swap(v, k, d); lemma_mul_comm(v, k);
    lemma_sub_mul(v, k * d, e); lemma_mul_comm(v, k * d); lemma_mul_comm(v, e);
    lemma_mul_comm(v, k * d - e);
    assert(v * (k * d) == v * e);
    lemma_mul_eq(v, k * d, e);
    assert(e == k * d);
    lemma_mul_swap(sh, k, d);
    lemma_sub_mul(d, th, sh * k);
    lemma_mul_dist(d, th - sh * k, k);
}
proof fn lemma_mul_eq(v: real, x: real, y: real) requires v != 0real, v * x == v * y ensures x == y
{ assert(x == y) by (nonlinear_arith) requires v != 0real, v * x == v * y; }
/// g between al and be is a mix of them.
proof fn lemma_unmix(al: real, be: real, g: real) -> (s: real)
    requires rmin(al, be) <= g <= rmax(al, be) ensures 0real <= s <= 1real, al + s * (be - al) == g
{
    if al == be { lemma_mul01(0real, be - al); 0real } else {
        let v = be - al;
        let s = (g - al) / v;
        lemma_ratio(g - al, v);
        s
    }
}
proof fn lemma_mix2(z: real, w: real, a: real, b: real, al: real, be: real, s: real)
    requires a == z + al * (w - z), b == z + be * (w - z) ensures a + s * (b - a) == z + (al + s * (be - al)) * (w - z)
{
    let d = w - z;
    lemma_sub_mul(d, be, al);
    lemma_mul_swap(s, be - al, d);
    lemma_mul_dist(d, al, s * (be - al));
}
proof fn lemma_mix(z: real, w: real, a: real, b: real, al: real, be: real, s: real, g: real)
    requires a == z + al * (w - z), b == z + be * (w - z), al + s * (be - al) == g ensures a + s * (b - a) == z + g * (w - z)
{ lemma_mix2(z, w, a, b, al, be, s); }
proof fn lemma_antisym(z: P2, p: P2, q: P2)
    requires on2(z, p, q), on2(z, q, p) ensures p == q
{
    reveal(onr);
    let s = choose|s: real| #[trigger] on_t(z.0, z.1, p.0, p.1, q.0, q.1, s);
    let t = choose|t: real| #[trigger] on_t(z.0, z.1, q.0, q.1, p.0, p.1, t);
    lemma_between(s, p.0 - z.0); lemma_between(t, q.0 - z.0);
    lemma_between(s, p.1 - z.1); lemma_between(t, q.1 - z.1);
}
/// The first point of the chain on the way from z to v.
#[verifier::opaque]
pub open spec fn first_hit(r: Seq<P2>, z: P2, w: P2, n: int) -> bool { forall|i: int| 0 <= i < n ==> only_hit(z, w, #[trigger] r[i], r[i + 1]) }
proof fn lemma_first(r: Seq<P2>, z: P2, v: P2, k: int, n: int) -> (w: P2)
    requires 0 <= k < n < r.len(), on2(r[k], r[k + 1], v), !on_r(r, z)
    ensures on2(z, v, w), on_r(r, w), first_hit(r, z, w, n)
    decreases n
{
    reveal(first_hit);
    lemma_ends2(z, v);
    if on2(r[n - 1], r[n], z) { lemma_on_r(r, n - 1, z); }
    if n - 1 == k && n == 1 {
        let w = lemma_near(z, v, r[0], r[1], v);
        lemma_on_r(r, 0, w);
        assert(only_hit(z, w, r[0int], r[0int + 1]));
        w
    } else if k < n - 1 {
        let w = lemma_first(r, z, v, k, n - 1);
        lemma_first_step(r, z, v, w, n)
    } else {
        // the edge with v is the last one; are there hits before?
        if exists|i: int, h: P2| 0 <= i < n - 1 && #[trigger] meet2(z, v, r[i], r[i + 1], h) {
            let (i, h) = choose|i: int, h: P2| 0 <= i < n - 1 && #[trigger] meet2(z, v, r[i], r[i + 1], h);
            let w = lemma_first(r, z, h, i, n - 1);
            lemma_sub_on(z, v, z, h, w);
            lemma_first_step(r, z, v, w, n)
        } else {
            let w = lemma_near(z, v, r[n - 1], r[n], v);
            lemma_on_r(r, n - 1, w);
            assert forall|i: int| 0 <= i < n implies only_hit(z, w, #[trigger] r[i], r[i + 1]) by {
                assert forall|q: P2| #[trigger] meet2(z, w, r[i], r[i + 1], q) implies q == w by {
                    if i < n - 1 { lemma_sub_on(z, v, z, w, q); assert(meet2(z, v, r[i], r[i + 1], q)); }
                    else { assert(r[i] == r[n - 1] && r[i + 1] == r[n]); }
                }
            }
            w
        }
    }
}
proof fn lemma_first_step(r: Seq<P2>, z: P2, v: P2, w: P2, n: int) -> (u: P2)
    requires 1 <= n < r.len(), on2(z, v, w), on_r(r, w), first_hit(r, z, w, n - 1), !on_r(r, z)
    ensures on2(z, v, u), on_r(r, u), first_hit(r, z, u, n)
{
    reveal(first_hit);
    lemma_ends2(z, v);
    if on2(r[n - 1], r[n], z) { lemma_on_r(r, n - 1, z); }
    if exists|h: P2| #[trigger] meet2(z, w, r[n - 1], r[n], h) {
        let h = choose|h: P2| #[trigger] meet2(z, w, r[n - 1], r[n], h);
        let u = lemma_near(z, w, r[n - 1], r[n], h);
        lemma_sub_on(z, v, z, w, u);
        lemma_on_r(r, n - 1, u);
        lemma_ends2(z, w);
        assert forall|i: int| 0 <= i < n implies only_hit(z, u, #[trigger] r[i], r[i + 1]) by {
            if i < n - 1 {
                assert(only_hit(z, w, r[i], r[i + 1]));
                assert forall|q: P2| #[trigger] meet2(z, u, r[i], r[i + 1], q) implies q == u by {
                    lemma_sub_on(z, w, z, u, q);
                    assert(meet2(z, w, r[i], r[i + 1], q));
                    lemma_antisym(z, u, w);
                }
            } else { assert(r[i] == r[n - 1] && r[i + 1] == r[n]); }
        }
        u
    } else {
        assert forall|i: int| 0 <= i < n implies only_hit(z, w, #[trigger] r[i], r[i + 1]) by {
            if i < n - 1 { assert(only_hit(z, w, r[i], r[i + 1])); }
            else {
                assert(r[i] == r[n - 1] && r[i + 1] == r[n]);
                assert forall|q: P2| #[trigger] meet2(z, w, r[i], r[i + 1], q) implies q == w by { assert(meet2(z, w, r[n - 1], r[n], q)); }
            }
        }
        w
    }
}
/// A point inside sees, past any one point of the ring, some vertex.
proof fn lemma_sees(r: Seq<P2>, z: P2, t: P2) -> (k: int)
    requires closed2(r), inside2(r, z), !on_r(r, z), on_r(r, t) ensures 0 <= k < r.len() - 1, !on2(z, r[k], t)
{
    if forall|k: int| 0 <= k < r.len() - 1 ==> on2(z, #[trigger] r[k], t) {
        assert(on2(z, r[0], t));
        assert forall|k: int| 0 <= k < r.len() implies on2(z, #[trigger] r[k], t) by { if k == r.len() - 1 { assert(r[k] == r[0]); } }
        if t.0 > z.0 {
            assert forall|k: int| 0 <= k < r.len() implies z.0 <= (#[trigger] r[k]).0 by { assert(on2(z, r[k], t)); lemma_on_at(z, r[k], t); }
            lemma_rim_left(r, z);
        } else if t.0 < z.0 {
            assert forall|k: int| 0 <= k < r.len() implies z.0 >= (#[trigger] r[k]).0 by { assert(on2(z, r[k], t)); lemma_on_at(z, r[k], t); }
            lemma_rim_right(r, z);
        } else {
            assert forall|k: int| 0 <= k < r.len() implies z.0 >= (#[trigger] r[k]).0 by { assert(on2(z, r[k], t)); lemma_beyond(z, r[k], t); }
            lemma_rim_right(r, z);
        }
    }
    choose|k: int| 0 <= k < r.len() - 1 && !on2(z, #[trigger] r[k], t)
}
proof fn lemma_beyond(z: P2, v: P2, t: P2) requires on2(z, v, t), t != z, t.0 == z.0 ensures v.0 == z.0
{
    reveal(onr);
    let s = choose|s: real| #[trigger] on_t(z.0, z.1, v.0, v.1, t.0, t.1, s);
    lemma_zero(s, v.0 - z.0);
    lemma_mul01(0real, v.1 - z.1);
}
/// No point is inside a ring and outside one that the first lies in.
proof fn lemma_inside_up(b: Seq<P2>, c: Seq<P2>, z: P2)
    requires simple_ring(b), simple_ring(c), share1(b, c), lies_in(b, c), inside2(b, z), !on_r(b, z), !on_r(c, z)
    ensures inside2(c, z)
{
    if !inside2(c, z) {
        let t = if exists|t: P2| #[trigger] on_r(b, t) && on_r(c, t) { choose|t: P2| #[trigger] on_r(b, t) && on_r(c, t) } else { b[0] };
        lemma_vertex_on(b, 0);
        let k = lemma_sees(b, z, t);
        let v = b[k];
        lemma_vertex_on(b, k);
        lemma_ends2(b[k], b[k + 1]);
        let w = lemma_first(b, z, v, k, b.len() - 1);
        if on_r(c, w) {
            assert(on_r(b, t) && on_r(c, t));
            lemma_share1(b, c, w, t);
        }
        if exists|i: int, y: P2| 0 <= i < c.len() - 1 && #[trigger] meet2(z, w, c[i], c[i + 1], y) {
            let (i, y) = choose|i: int, y: P2| 0 <= i < c.len() - 1 && #[trigger] meet2(z, w, c[i], c[i + 1], y);
            lemma_on_r(c, i, y);
            assert(y != w);
            lemma_ends2(z, w); lemma_ends2(z, y);
            assert(clear(b, z, y, b.len() - 1)) by {
                reveal(clear); reveal(first_hit);
                assert forall|j: int| 0 <= j < b.len() - 1 implies apart2(z, y, #[trigger] b[j], b[j + 1]) by {
                    reveal(apart2);
                    assert(only_hit(z, w, b[j], b[j + 1]));
                    assert forall|q: P2| !#[trigger] meet2(z, y, b[j], b[j + 1], q) by {
                        if meet2(z, y, b[j], b[j + 1], q) {
                            lemma_sub_on(z, w, z, y, q);
                            assert(meet2(z, w, b[j], b[j + 1], q));
                            lemma_antisym(z, w, y);
                        }
                    }
                }
            }
            lemma_same_side(b, z, y);
            if on_r(b, y) {
                reveal(on_r); reveal(clear); reveal(apart2);
                let j = choose|j: int| 0 <= j < b.len() - 1 && on2(#[trigger] b[j], b[j + 1], y);
                assert(meet2(z, y, b[j], b[j + 1], y));
                assert(apart2(z, y, b[j], b[j + 1]));
            }
            lemma_share1_sym(b, c);
            lemma_sides(b, c);
            if lies_out(c, b) { lemma_out_pt(c, b, y); }
            lemma_not_both(c, b);
        } else {
            assert(clear(c, z, w, c.len() - 1)) by {
                reveal(clear);
                assert forall|j: int| 0 <= j < c.len() - 1 implies apart2(z, w, #[trigger] c[j], c[j + 1]) by { reveal(apart2); }
            }
            lemma_same_side(c, z, w);
            lemma_in_pt(b, c, w);
        }
    }
}
/// A vertex of a off b and c.
proof fn lemma_off2(a: Seq<P2>, b: Seq<P2>, c: Seq<P2>) -> (i: int)
    requires simple_ring(a), share1(a, b), share1(a, c) ensures 0 <= i < 3, on_r(a, a[i]), !on_r(b, a[i]), !on_r(c, a[i])
{
    lemma_vertex_on(a, 0); lemma_vertex_on(a, 1); lemma_vertex_on(a, 2);
    let o = 0int;
    assert(a[o] != a[o + 1]); assert(a[o + 1] != a[o + 1 + 1]);
    if a[0] == a[2] {
        lemma_ends2(a[0], a[1]); lemma_ends2(a[1], a[2]);
        lemma_edges(a, 0, 1, a[0]);
    }
    if on_r(b, a[0]) && on_r(b, a[1]) { lemma_share1(a, b, a[0], a[1]); }
    if on_r(b, a[0]) && on_r(b, a[2]) { lemma_share1(a, b, a[0], a[2]); }
    if on_r(b, a[1]) && on_r(b, a[2]) { lemma_share1(a, b, a[1], a[2]); }
    if on_r(c, a[0]) && on_r(c, a[1]) { lemma_share1(a, c, a[0], a[1]); }
    if on_r(c, a[0]) && on_r(c, a[2]) { lemma_share1(a, c, a[0], a[2]); }
    if on_r(c, a[1]) && on_r(c, a[2]) { lemma_share1(a, c, a[1], a[2]); }
    if !on_r(b, a[0]) && !on_r(c, a[0]) { 0 } else if !on_r(b, a[1]) && !on_r(c, a[1]) { 1 } else { 2 }
}
proof fn lemma_in_in(a: Seq<P2>, b: Seq<P2>, c: Seq<P2>)
    requires simple_ring(a), simple_ring(b), simple_ring(c), share1(a, b), share1(b, c), share1(a, c), lies_in(a, b), lies_in(b, c)
    ensures lies_in(a, c)
{
    let i = lemma_off2(a, b, c);
    lemma_in_pt(a, b, a[i]);
    lemma_inside_up(b, c, a[i]);
    lemma_share1_sym(a, c);
    lemma_sides(c, a);
    if lies_out(a, c) { lemma_out_pt(a, c, a[i]); }
}
// ---- chains of positions as rings of points -----------------------------------
pub open spec fn pt(p: Position) -> P2 { (rx(p), ry(p)) }
pub open spec fn rp(s: Seq<Position>) -> Seq<P2> { Seq::new(s.len(), |i: int| pt(s[i])) }
proof fn lemma_midpoint(a: P2, b: P2) -> (m: P2)
    requires a != b ensures on2(a, b, m), m != a, m != b
{
    reveal(onr);
    let m = (a.0 + 0.5real * (b.0 - a.0), a.1 + 0.5real * (b.1 - a.1));
    assert(on_t(a.0, a.1, b.0, b.1, m.0, m.1, 0.5real));
    m
}
/// A closed simple chain of positions is a simple ring of points.
proof fn lemma_ring(s: Seq<Position>)
    requires is_chain(s), ls_closed(s) ensures simple_ring(rp(s)), all_finite(s)
{
    let r = rp(s);
    assert(pos_finite(s[0]) && pos_finite(s[s.len() - 1]));
    assert(r[0] == r[r.len() - 1]);
    assert forall|i: int| 0 <= i < r.len() - 1 implies #[trigger] r[i] != r[i + 1] by { assert(!pos_same(s[i], s[i + 1])); assert(pos_finite(s[i]) && pos_finite(s[i + 1])); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() - 1 implies #[trigger] edges_ok(r, i, j) by {
        reveal(edges_ok); reveal(pair_ok);
        assert(pair_ok(s, i, j));
        assert forall|z: P2| #[trigger] meet2(r[i], r[i + 1], r[j], r[j + 1], z) implies (j == i + 1 && z == r[j]) || (i == 0 && j == r.len() - 2 && z == r[0]) by {
            assert(both(ls_segs(s)[i], ls_segs(s)[j], z.0, z.1));
        }
    }
}
proof fn lemma_distinct(r: Seq<P2>, i: int, j: int)
    requires simple_ring(r), 0 <= i < r.len() - 1, 0 <= j < r.len() - 1, r[i] == r[j] ensures i == j
{
    if i != j {
        lemma_ends2(r[i], r[i + 1]); lemma_ends2(r[j], r[j + 1]);
        lemma_edges(r, i, j, r[i]);
        assert(r[i] != r[i + 1] && r[j] != r[j + 1]);
    }
}
