// Closed segments as sets of points of the real plane.
pub mod realm {
use super::*;
pub proof fn lemma_zero(d: real, x: real) requires d != 0real, d * x == 0real ensures x == 0real
{ assert(x == 0real) by (nonlinear_arith) requires d != 0real, d * x == 0real; }
pub proof fn lemma_mul_dist(k: real, a: real, b: real) ensures k * (a + b) == k * a + k * b, (a + b) * k == a * k + b * k
{ assert(k * (a + b) == k * a + k * b && (a + b) * k == a * k + b * k) by (nonlinear_arith); }
pub proof fn lemma_mul_comm(a: real, b: real) ensures a * b == b * a { assert(a * b == b * a) by (nonlinear_arith); }
pub proof fn lemma_mul_swap(u: real, t: real, q: real) ensures u * (t * q) == t * (u * q), (t * q) * u == t * (q * u), u * (t * q) == (t * u) * q
{ assert(u * (t * q) == t * (u * q) && (t * q) * u == t * (q * u) && u * (t * q) == (t * u) * q) by (nonlinear_arith); }
pub proof fn lemma_m3(a: real, b: real, c: real) ensures (a * b) * c == (b * c) * a, (a * b) * c == (a * c) * b, (a * b) * c == (c * b) * a
{ assert((a * b) * c == (b * c) * a && (a * b) * c == (a * c) * b && (a * b) * c == (c * b) * a) by (nonlinear_arith); }
pub proof fn lemma_cramer(u: real, v: real, p: real, q: real, o: real, w: real, s: real, t: real)
    requires s * u == o + t * p, s * v == w + t * q
    ensures s * (u * q - v * p) == o * q - w * p, t * (u * q - v * p) == o * v - w * u
{
    lemma_sub_mul(s, u * q, v * p); lemma_sub_mul(t, u * q, v * p);
    lemma_mul_swap(s, u, q); lemma_mul_swap(s, v, p); lemma_mul_swap(q, s, u); lemma_mul_swap(p, s, v);
    lemma_mul_dist(q, o, t * p); lemma_mul_dist(p, w, t * q);
    lemma_mul_swap(q, t, p); lemma_mul_swap(p, t, q); lemma_mul_comm(p, q);
    lemma_mul_swap(t, u, q); lemma_mul_swap(t, v, p); lemma_mul_swap(u, t, q); lemma_mul_swap(v, t, p);
    lemma_mul_comm(u, q); lemma_mul_comm(v, p);
    lemma_sub_mul(u, s * v, w); lemma_sub_mul(v, s * u, o);
    lemma_mul_swap(u, s, v); lemma_mul_swap(v, s, u); lemma_mul_comm(u, v);
    assert(t * q == s * v - w && t * p == s * u - o);
    assert(s * (u * q) == o * q + t * (p * q));
    assert(s * (v * p) == w * p + t * (p * q));
    assert(t * (u * q) == (t * q) * u && t * (v * p) == (t * p) * v);
}
pub proof fn lemma_cramer_id1(u: real, v: real, p: real, q: real, o: real, w: real)
    ensures (o * q - w * p) * u - (o * v - w * u) * p - (u * q - v * p) * o == 0real
{
    lemma_sub_mul(u, o * q, w * p); lemma_sub_mul(p, o * v, w * u); lemma_sub_mul(o, u * q, v * p);
    lemma_m3(o, q, u); lemma_m3(w, p, u); lemma_m3(o, v, p);
}
pub proof fn lemma_cramer_id2(u: real, v: real, p: real, q: real, o: real, w: real)
    ensures (o * q - w * p) * v - (o * v - w * u) * q - (u * q - v * p) * w == 0real
{
    lemma_sub_mul(v, o * q, w * p); lemma_sub_mul(q, o * v, w * u); lemma_sub_mul(w, u * q, v * p);
    lemma_m3(o, q, v); lemma_m3(w, p, v); lemma_m3(w, u, q);
}
/// d (s u - t p - o) with s d = a and t d = b.
pub proof fn lemma_cramer_half(d: real, s: real, t: real, u: real, p: real, o: real, a: real, b: real)
    requires d != 0real, s * d == a, t * d == b, a * u - b * p - d * o == 0real
    ensures s * u == o + t * p
{
    lemma_sub_mul(d, s * u - t * p, o);
    lemma_sub_mul(d, s * u, t * p);
    lemma_mul_swap(d, s, u); lemma_mul_swap(d, t, p);
    lemma_zero(d, s * u - t * p - o);
}
pub proof fn lemma_cramer_inv(u: real, v: real, p: real, q: real, o: real, w: real, s: real, t: real, d: real, a: real, b: real)
    requires d == u * q - v * p, a == o * q - w * p, b == o * v - w * u, d != 0real, s * d == a, t * d == b
    ensures s * u == o + t * p, s * v == w + t * q
{
    lemma_cramer_id1(u, v, p, q, o, w);
    lemma_cramer_id2(u, v, p, q, o, w);
    lemma_cramer_half(d, s, t, u, p, o, a, b);
    lemma_cramer_half(d, s, t, v, q, w, a, b);
}
pub proof fn lemma_cancel(s: real, t: real, d: real) requires d != 0real, s * d == t * d ensures s == t
{ assert(s == t) by (nonlinear_arith) requires d != 0real, s * d == t * d; }
pub proof fn lemma_mul01(s: real, x: real) ensures s == 0real ==> s * x == 0real, s == 1real ==> s * x == x
{ assert(0real * x == 0real && 1real * x == x) by (nonlinear_arith); }
pub proof fn lemma_line_vec(u: real, v: real, bx: real, by: real, p: real, q: real)
    requires u * by - v * bx == 0real, u * (by + q) - v * (bx + p) == 0real
    ensures u * q - v * p == 0real, (bx + p) * u + (by + q) * v - (bx * u + by * v) == p * u + q * v
{
    assert((bx + p) * u + (by + q) * v - (bx * u + by * v) == p * u + q * v) by (nonlinear_arith);
    assert(u * (by + q) - v * (bx + p) - (u * by - v * bx) == u * q - v * p) by (nonlinear_arith);
}
/// From parameter to place.
pub proof fn lemma_line_fwd(u: real, v: real, bx: real, by: real, p: real, q: real, t: real)
    requires u * by - v * bx == 0real, u * q - v * p == 0real, 0real <= t <= 1real
    ensures
        u * (by + t * q) - v * (bx + t * p) == 0real,
        ({ let s = bx * u + by * v; let d = p * u + q * v; let z = (bx + t * p) * u + (by + t * q) * v; rmin(s, s + d) <= z <= rmax(s, s + d) }),
{
    lemma_mul_dist(u, by, t * q); lemma_mul_dist(v, bx, t * p);
    lemma_mul_swap(u, t, q); lemma_mul_swap(v, t, p);
    lemma_sub_mul(t, u * q, v * p);
    assert(t * 0real == 0real) by (nonlinear_arith);
    lemma_mul_dist(u, bx, t * p); lemma_mul_dist(v, by, t * q);
    lemma_mul_swap(u, t, p); lemma_mul_swap(v, t, q);
    lemma_mul_dist(t, p * u, q * v);
    lemma_between(t, p * u + q * v);
}
pub proof fn lemma_between(t: real, d: real)
    requires 0real <= t <= 1real ensures d >= 0real ==> 0real <= t * d <= d, d <= 0real ==> d <= t * d <= 0real
{
    assert(d >= 0real ==> 0real <= t * d <= d) by (nonlinear_arith) requires 0real <= t <= 1real;
    assert(d <= 0real ==> d <= t * d <= 0real) by (nonlinear_arith) requires 0real <= t <= 1real;
}
/// From place to parameter: m, n is the offset from the start of b; l the squared length of a.
pub proof fn lemma_line_bwd(l: real, u: real, v: real, m: real, n: real, p: real, q: real, w: real, d: real)
    requires l > 0real, l * m == w * u, l * n == w * v, l * p == d * u, l * q == d * v, (0real <= w <= d) || (d <= w <= 0real)
    ensures d != 0real ==> 0real <= w / d <= 1real && m == (w / d) * p && n == (w / d) * q, d == 0real ==> m == 0real && n == 0real
{
    if d != 0real {
        lemma_ratio(w, d);
        lemma_line_scale(l, w / d, m, p, u, d, w);
        lemma_line_scale(l, w / d, n, q, v, d, w);
    } else {
        lemma_mul01(w, u); lemma_mul01(w, v);
        lemma_zero(l, m); lemma_zero(l, n);
    }
}
pub proof fn lemma_ratio(w: real, u: real)
    requires u != 0real, (0real <= w <= u) || (u <= w <= 0real)
    ensures 0real <= w / u <= 1real, (w / u) * u == w
{
    let t = w / u;
    assert(t * u == w) by (nonlinear_arith) requires t == w / u, u != 0real;
    assert(0real <= t <= 1real) by (nonlinear_arith) requires t * u == w, u != 0real, (0real <= w <= u) || (u <= w <= 0real);
}
pub proof fn lemma_line_scale(l: real, t: real, m: real, p: real, u: real, d: real, w: real)
    requires l > 0real, l * m == w * u, l * p == d * u, t * d == w ensures m == t * p
{
    assert(l * (t * p) == t * (l * p)) by (nonlinear_arith);
    assert(t * (d * u) == (t * d) * u) by (nonlinear_arith);
    lemma_sub_mul(l, m, t * p);
    lemma_zero(l, m - t * p);
}
pub proof fn lemma_diff(l: real, u: real, m: real, n: real, z: real, s: real)
    requires l * m == z * u, l * n == s * u ensures l * (m - n) == (z - s) * u
{ lemma_sub_mul(l, m, n); lemma_sub_mul(u, z, s); }
pub proof fn lemma_sub_mul(k: real, a: real, b: real) ensures (a - b) * k == a * k - b * k, k * (a - b) == k * a - k * b
{ assert((a - b) * k == a * k - b * k && k * (a - b) == k * a - k * b) by (nonlinear_arith); }
}
pub use realm::*;
pub open spec fn seg_finite(s: Segment) -> bool { pos_finite(s.start) && pos_finite(s.end) }
/// The point at parameter t of the segment from (ax, ay) to (bx, by).
pub open spec fn on_t(ax: real, ay: real, bx: real, by: real, x: real, y: real, t: real) -> bool {
    0real <= t <= 1real && x == ax + t * (bx - ax) && y == ay + t * (by - ay)
}
#[verifier::opaque]
pub open spec fn onr(ax: real, ay: real, bx: real, by: real, x: real, y: real) -> bool { exists|t: real| #[trigger] on_t(ax, ay, bx, by, x, y, t) }
pub open spec fn on(s: Segment, x: real, y: real) -> bool { onr(rx(s.start), ry(s.start), rx(s.end), ry(s.end), x, y) }
pub open spec fn on_pos(s: Segment, p: Position) -> bool { on(s, rx(p), ry(p)) }
/// Twice the signed area of the triangle a, b, p: positive when p is left of the line from a to b.
pub open spec fn side(s: Segment, x: real, y: real) -> real { (rx(s.end) - rx(s.start)) * (y - ry(s.start)) - (ry(s.end) - ry(s.start)) * (x - rx(s.start)) }
pub open spec fn rmin(a: real, b: real) -> real { if a <= b { a } else { b } }
pub open spec fn rmax(a: real, b: real) -> real { if a <= b { b } else { a } }
pub open spec fn within(s: Segment, x: real, y: real) -> bool {
    rmin(rx(s.start), rx(s.end)) <= x <= rmax(rx(s.start), rx(s.end)) && rmin(ry(s.start), ry(s.end)) <= y <= rmax(ry(s.start), ry(s.end))
}
proof fn lemma_on_in(ax: real, ay: real, bx: real, by: real, x: real, y: real, t: real)
    requires on_t(ax, ay, bx, by, x, y, t)
    ensures (bx - ax) * (y - ay) - (by - ay) * (x - ax) == 0real, rmin(ax, bx) <= x <= rmax(ax, bx), rmin(ay, by) <= y <= rmax(ay, by)
{
    let u = bx - ax;
    let v = by - ay;
    assert(u * (t * v) - v * (t * u) == 0real) by (nonlinear_arith);
    assert(y - ay == t * v && x - ax == t * u);
    assert(u >= 0real ==> 0real <= t * u <= u) by (nonlinear_arith) requires 0real <= t <= 1real;
    assert(u <= 0real ==> u <= t * u <= 0real) by (nonlinear_arith) requires 0real <= t <= 1real;
    assert(v >= 0real ==> 0real <= t * v <= v) by (nonlinear_arith) requires 0real <= t <= 1real;
    assert(v <= 0real ==> v <= t * v <= 0real) by (nonlinear_arith) requires 0real <= t <= 1real;
}
proof fn lemma_in_on(ax: real, ay: real, bx: real, by: real, x: real, y: real)
    requires (bx - ax) * (y - ay) - (by - ay) * (x - ax) == 0real, rmin(ax, bx) <= x <= rmax(ax, bx), rmin(ay, by) <= y <= rmax(ay, by)
    ensures onr(ax, ay, bx, by, x, y)
{
    reveal(onr);
    let u = bx - ax;
    let v = by - ay;
    if u != 0real {
        let t = (x - ax) / u;
        lemma_ratio(x - ax, u);
        let w = y - ay;
        assert(w == t * v) by (nonlinear_arith) requires u * w - v * (x - ax) == 0real, t * u == x - ax, u != 0real;
        assert(on_t(ax, ay, bx, by, x, y, t));
    } else if v != 0real {
        let t = (y - ay) / v;
        lemma_ratio(y - ay, v);
        assert(t * u == 0real) by (nonlinear_arith) requires u == 0real;
        assert(on_t(ax, ay, bx, by, x, y, t));
    } else {
        assert(0real * u == 0real && 0real * v == 0real) by (nonlinear_arith);
        assert(on_t(ax, ay, bx, by, x, y, 0real));
    }
}
/// On the segment: on its line and within its extent.
proof fn lemma_on(s: Segment, x: real, y: real)
    ensures on(s, x, y) <==> side(s, x, y) == 0real && within(s, x, y)
{
    reveal(onr);
    if on(s, x, y) {
        let t = choose|t: real| #[trigger] on_t(rx(s.start), ry(s.start), rx(s.end), ry(s.end), x, y, t);
        lemma_on_in(rx(s.start), ry(s.start), rx(s.end), ry(s.end), x, y, t);
    }
    if side(s, x, y) == 0real && within(s, x, y) { lemma_in_on(rx(s.start), ry(s.start), rx(s.end), ry(s.end), x, y); }
}
proof fn lemma_ends(s: Segment)
    ensures on_pos(s, s.start), on_pos(s, s.end)
{
    reveal(onr);
    let u = rx(s.end) - rx(s.start);
    let v = ry(s.end) - ry(s.start);
    assert(0real * u == 0real && 0real * v == 0real && 1real * u == u && 1real * v == v) by (nonlinear_arith);
    assert(on_t(rx(s.start), ry(s.start), rx(s.end), ry(s.end), rx(s.start), ry(s.start), 0real));
    assert(on_t(rx(s.start), ry(s.start), rx(s.end), ry(s.end), rx(s.end), ry(s.end), 1real));
}
// ---- intersection -----------------------------------------------------------
pub open spec fn both(a: Segment, b: Segment, x: real, y: real) -> bool { on(a, x, y) && on(b, x, y) }
/// The result is the set of shared points.
pub open spec fn is_isxn(a: Segment, b: Segment, r: SegmentIntersection) -> bool {
    match r {
        SegmentIntersection::None => forall|x: real, y: real| !#[trigger] both(a, b, x, y),
        SegmentIntersection::Position(p) => pos_finite(p) && (forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(p) && y == ry(p)),
        SegmentIntersection::Segment(s) => seg_finite(s) && !(rx(s.start) == rx(s.end) && ry(s.start) == ry(s.end)) && (forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> on(s, x, y)),
    }
}
pub open spec fn is_end(a: Segment, b: Segment, p: Position) -> bool { p == a.start || p == a.end || p == b.start || p == b.end }
proof fn lemma_point_seg(s: Segment, x: real, y: real)
    requires rx(s.start) == rx(s.end), ry(s.start) == ry(s.end)
    ensures on(s, x, y) <==> x == rx(s.start) && y == ry(s.start)
{
    lemma_ends(s);
    reveal(onr);
    if on(s, x, y) {
        let t = choose|t: real| #[trigger] on_t(rx(s.start), ry(s.start), rx(s.end), ry(s.end), x, y, t);
        assert(t * 0real == 0real) by (nonlinear_arith);
    }
}
// vectors of a pair of segments
pub open spec fn ux(a: Segment) -> real { rx(a.end) - rx(a.start) }
pub open spec fn uy(a: Segment) -> real { ry(a.end) - ry(a.start) }
pub open spec fn ox(a: Segment, b: Segment) -> real { rx(b.start) - rx(a.start) }
pub open spec fn oy(a: Segment, b: Segment) -> real { ry(b.start) - ry(a.start) }
pub open spec fn det(a: Segment, b: Segment) -> real { ux(a) * uy(b) - uy(a) * ux(b) }
pub open spec fn num_a(a: Segment, b: Segment) -> real { ox(a, b) * uy(b) - oy(a, b) * ux(b) }
pub open spec fn num_b(a: Segment, b: Segment) -> real { ox(a, b) * uy(a) - oy(a, b) * ux(a) }
/// Parameters of a shared point.
pub open spec fn params(a: Segment, b: Segment, x: real, y: real, s: real, t: real) -> bool {
    on_t(rx(a.start), ry(a.start), rx(a.end), ry(a.end), x, y, s) && on_t(rx(b.start), ry(b.start), rx(b.end), ry(b.end), x, y, t)
}
proof fn lemma_params(a: Segment, b: Segment, x: real, y: real) -> (r: (real, real))
    requires both(a, b, x, y)
    ensures params(a, b, x, y, r.0, r.1), r.0 * det(a, b) == num_a(a, b), r.1 * det(a, b) == num_b(a, b)
{
    reveal(onr);
    let s = choose|t: real| #[trigger] on_t(rx(a.start), ry(a.start), rx(a.end), ry(a.end), x, y, t);
    let t = choose|t: real| #[trigger] on_t(rx(b.start), ry(b.start), rx(b.end), ry(b.end), x, y, t);
    lemma_cramer(ux(a), uy(a), ux(b), uy(b), ox(a, b), oy(a, b), s, t);
    (s, t)
}
/// Segments that are not parallel share at most one point.
proof fn lemma_one(a: Segment, b: Segment, p: Position)
    requires det(a, b) != 0real, on_pos(a, p), on_pos(b, p)
    ensures forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(p) && y == ry(p)
{
    let k = lemma_params(a, b, rx(p), ry(p));
    assert forall|x: real, y: real| #[trigger] both(a, b, x, y) implies x == rx(p) && y == ry(p) by {
        let r = lemma_params(a, b, x, y);
        lemma_cancel(r.0, k.0, det(a, b));
    }
}
/// ... and it is where the parameters say.
proof fn lemma_cross_at(a: Segment, b: Segment, s: real, t: real)
    requires det(a, b) != 0real, s == num_a(a, b) / det(a, b), t == num_b(a, b) / det(a, b)
    ensures
        s * det(a, b) == num_a(a, b), t * det(a, b) == num_b(a, b),
        rx(a.start) + s * ux(a) == rx(b.start) + t * ux(b), ry(a.start) + s * uy(a) == ry(b.start) + t * uy(b),
        s == 0real ==> s * ux(a) == 0real && s * uy(a) == 0real,
        s == 1real ==> s * ux(a) == ux(a) && s * uy(a) == uy(a),
        t == 0real ==> t * ux(b) == 0real && t * uy(b) == 0real,
        t == 1real ==> t * ux(b) == ux(b) && t * uy(b) == uy(b),
        s * ux(a) == ux(a) * s, s * uy(a) == uy(a) * s,
{
    lemma_mul_comm(s, ux(a)); lemma_mul_comm(s, uy(a));
    let d = det(a, b);
    assert(s * d == num_a(a, b)) by (nonlinear_arith) requires d != 0real, s == num_a(a, b) / d;
    assert(t * d == num_b(a, b)) by (nonlinear_arith) requires d != 0real, t == num_b(a, b) / d;
    lemma_cramer_inv(ux(a), uy(a), ux(b), uy(b), ox(a, b), oy(a, b), s, t, d, num_a(a, b), num_b(a, b));
    lemma_mul01(s, ux(a)); lemma_mul01(s, uy(a)); lemma_mul01(t, ux(b)); lemma_mul01(t, uy(b));
}
proof fn lemma_cross_hit(a: Segment, b: Segment, s: real, t: real, p: Position)
    requires det(a, b) != 0real, s == num_a(a, b) / det(a, b), t == num_b(a, b) / det(a, b), 0real <= s <= 1real, 0real <= t <= 1real,
        rx(p) == rx(a.start) + s * ux(a), ry(p) == ry(a.start) + s * uy(a),
    ensures forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(p) && y == ry(p)
{
    lemma_cross_at(a, b, s, t);
    reveal(onr);
    assert(on_t(rx(a.start), ry(a.start), rx(a.end), ry(a.end), rx(p), ry(p), s));
    assert(on_t(rx(b.start), ry(b.start), rx(b.end), ry(b.end), rx(p), ry(p), t));
    lemma_one(a, b, p);
}
proof fn lemma_cross_miss(a: Segment, b: Segment, s: real, t: real)
    requires det(a, b) != 0real, s == num_a(a, b) / det(a, b), t == num_b(a, b) / det(a, b), !(0real <= s <= 1real && 0real <= t <= 1real),
    ensures forall|x: real, y: real| !#[trigger] both(a, b, x, y)
{
    lemma_cross_at(a, b, s, t);
    assert forall|x: real, y: real| !#[trigger] both(a, b, x, y) by {
        if both(a, b, x, y) {
            let r = lemma_params(a, b, x, y);
            lemma_cancel(r.0, s, det(a, b)); lemma_cancel(r.1, t, det(a, b));
        }
    }
}
/// Parallel and not on one line.
proof fn lemma_apart(a: Segment, b: Segment)
    requires det(a, b) == 0real, num_b(a, b) != 0real
    ensures forall|x: real, y: real| !#[trigger] both(a, b, x, y)
{
    assert forall|x: real, y: real| !#[trigger] both(a, b, x, y) by {
        if both(a, b, x, y) { let r = lemma_params(a, b, x, y); assert(r.1 * 0real == 0real) by (nonlinear_arith); }
    }
}
// ---- on one line ------------------------------------------------------------
/// Place along a, from its start, in units of its squared length.
pub open spec fn place(a: Segment, x: real, y: real) -> real { (x - rx(a.start)) * ux(a) + (y - ry(a.start)) * uy(a) }
pub open spec fn len2(a: Segment) -> real { ux(a) * ux(a) + uy(a) * uy(a) }
pub open spec fn aligned(a: Segment, x: real, y: real) -> bool { side(a, x, y) == 0real }
pub open spec fn proper(a: Segment) -> bool { !(ux(a) == 0real && uy(a) == 0real) }
proof fn lemma_len2(a: Segment) requires proper(a) ensures len2(a) > 0real
{
    let u = ux(a);
    let v = uy(a);
    assert(u * u + v * v > 0real) by (nonlinear_arith) requires !(u == 0real && v == 0real);
}
/// A point of the line is determined by its place.
proof fn lemma_place(a: Segment, x: real, y: real)
    requires proper(a), aligned(a, x, y)
    ensures len2(a) * (x - rx(a.start)) == place(a, x, y) * ux(a), len2(a) * (y - ry(a.start)) == place(a, x, y) * uy(a)
{
    let u = ux(a);
    let v = uy(a);
    let p = x - rx(a.start);
    let q = y - ry(a.start);
    assert((u * u + v * v) * p == (p * u + q * v) * u) by (nonlinear_arith) requires u * q - v * p == 0real;
    assert((u * u + v * v) * q == (p * u + q * v) * v) by (nonlinear_arith) requires u * q - v * p == 0real;
}
/// Points of the line are on a segment of the line exactly when their places lie between those of its ends.
proof fn lemma_line_on(a: Segment, b: Segment, x: real, y: real)
    requires proper(a), aligned(a, rx(b.start), ry(b.start)), aligned(a, rx(b.end), ry(b.end))
    ensures on(b, x, y) <==> aligned(a, x, y) && ({
        let s = place(a, rx(b.start), ry(b.start));
        let e = place(a, rx(b.end), ry(b.end));
        rmin(s, e) <= place(a, x, y) <= rmax(s, e)
    })
{
    lemma_len2(a);
    lemma_line_vec(ux(a), uy(a), ox(a, b), oy(a, b), ux(b), uy(b));
    assert(rx(b.end) - rx(a.start) == ox(a, b) + ux(b) && ry(b.end) - ry(a.start) == oy(a, b) + uy(b));
    if on(b, x, y) { lemma_line_on1(a, b, x, y); }
    if aligned(a, x, y) && rmin(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) <= place(a, x, y) <= rmax(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) { lemma_line_on2(a, b, x, y); }
}
proof fn lemma_line_on1(a: Segment, b: Segment, x: real, y: real)
    requires proper(a), aligned(a, rx(b.start), ry(b.start)), aligned(a, rx(b.end), ry(b.end)), on(b, x, y), ux(a) * uy(b) - uy(a) * ux(b) == 0real,
        place(a, rx(b.end), ry(b.end)) - place(a, rx(b.start), ry(b.start)) == ux(b) * ux(a) + uy(b) * uy(a)
    ensures aligned(a, x, y), rmin(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) <= place(a, x, y) <= rmax(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end)))
{
    reveal(onr);
    let t = choose|t: real| #[trigger] on_t(rx(b.start), ry(b.start), rx(b.end), ry(b.end), x, y, t);
    lemma_line_fwd(ux(a), uy(a), ox(a, b), oy(a, b), ux(b), uy(b), t);
    assert(x - rx(a.start) == ox(a, b) + t * ux(b));
    assert(y - ry(a.start) == oy(a, b) + t * uy(b));
}
proof fn lemma_line_on2(a: Segment, b: Segment, x: real, y: real)
    requires proper(a), len2(a) > 0real, aligned(a, rx(b.start), ry(b.start)), aligned(a, rx(b.end), ry(b.end)), aligned(a, x, y),
        rmin(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) <= place(a, x, y) <= rmax(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end)))
    ensures on(b, x, y)
{
    reveal(onr);
    lemma_place(a, x, y); lemma_place(a, rx(b.start), ry(b.start)); lemma_place(a, rx(b.end), ry(b.end));
    lemma_diff(len2(a), ux(a), x - rx(a.start), ox(a, b), place(a, x, y), place(a, rx(b.start), ry(b.start)));
    lemma_diff(len2(a), uy(a), y - ry(a.start), oy(a, b), place(a, x, y), place(a, rx(b.start), ry(b.start)));
    lemma_diff(len2(a), ux(a), rx(b.end) - rx(a.start), ox(a, b), place(a, rx(b.end), ry(b.end)), place(a, rx(b.start), ry(b.start)));
    lemma_diff(len2(a), uy(a), ry(b.end) - ry(a.start), oy(a, b), place(a, rx(b.end), ry(b.end)), place(a, rx(b.start), ry(b.start)));
    assert((x - rx(a.start)) - ox(a, b) == x - rx(b.start) && (y - ry(a.start)) - oy(a, b) == y - ry(b.start));
    assert((rx(b.end) - rx(a.start)) - ox(a, b) == ux(b) && (ry(b.end) - ry(a.start)) - oy(a, b) == uy(b));
    let w = place(a, x, y) - place(a, rx(b.start), ry(b.start));
    let d = place(a, rx(b.end), ry(b.end)) - place(a, rx(b.start), ry(b.start));
    lemma_line_bwd(len2(a), ux(a), uy(a), x - rx(b.start), y - ry(b.start), ux(b), uy(b), w, d);
    if d != 0real { assert(on_t(rx(b.start), ry(b.start), rx(b.end), ry(b.end), x, y, w / d)); } else { lemma_ends(b); }
}
proof fn lemma_same_place(a: Segment, x: real, y: real, x2: real, y2: real)
    requires proper(a), aligned(a, x, y), aligned(a, x2, y2), place(a, x, y) == place(a, x2, y2) ensures x == x2, y == y2
{
    lemma_place(a, x, y); lemma_place(a, x2, y2); lemma_len2(a);
    let l = len2(a);
    lemma_cancel(x - rx(a.start), x2 - rx(a.start), l); lemma_cancel(y - ry(a.start), y2 - ry(a.start), l);
}
/// Facts about two segments of one line.
proof fn lemma_one_line(a: Segment, b: Segment)
    requires proper(a), det(a, b) == 0real, num_b(a, b) == 0real
    ensures
        aligned(a, rx(b.start), ry(b.start)), aligned(a, rx(b.end), ry(b.end)), aligned(a, rx(a.start), ry(a.start)), aligned(a, rx(a.end), ry(a.end)),
        place(a, rx(a.start), ry(a.start)) == 0real, place(a, rx(a.end), ry(a.end)) == len2(a), len2(a) > 0real,
{
    lemma_len2(a);
    let u = ux(a);
    let v = uy(a);
    assert(u * 0real - v * 0real == 0real && 0real * u + 0real * v == 0real) by (nonlinear_arith);
    assert(u * v - v * u == 0real) by (nonlinear_arith);
    let o = ox(a, b);
    let w = oy(a, b);
    let p = ux(b);
    let q = uy(b);
    assert(u * w - v * o == 0real) by (nonlinear_arith) requires o * v - w * u == 0real;
    assert(u * (w + q) - v * (o + p) == 0real) by (nonlinear_arith) requires o * v - w * u == 0real, u * q - v * p == 0real;
}
/// The overlap of two segments of one line, between its two ends p and q.
proof fn lemma_overlap(a: Segment, b: Segment, p: Position, q: Position)
    requires proper(a), det(a, b) == 0real, num_b(a, b) == 0real,
        is_end(a, b, p), is_end(a, b, q),
        ({
            let s = place(a, rx(b.start), ry(b.start));
            let e = place(a, rx(b.end), ry(b.end));
            &&& place(a, rx(p), ry(p)) == rmax(0real, rmin(s, e))
            &&& place(a, rx(q), ry(q)) == rmin(len2(a), rmax(s, e))
            &&& rmin(s, e) <= len2(a)
            &&& rmax(s, e) >= 0real
        }),
    ensures
        forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> on(Segment { start: p, end: q }, x, y),
        (rx(p) == rx(q) && ry(p) == ry(q)) ==> forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(p) && y == ry(p),
{
    lemma_one_line(a, b);
    let r = Segment { start: p, end: q };
    assert forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> on(r, x, y) by {
        lemma_line_on(a, a, x, y); lemma_line_on(a, b, x, y); lemma_line_on(a, r, x, y);
    }
    if rx(p) == rx(q) && ry(p) == ry(q) {
        assert forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(p) && y == ry(p) by { lemma_point_seg(r, x, y); }
    }
}
proof fn lemma_no_overlap(a: Segment, b: Segment)
    requires proper(a), det(a, b) == 0real, num_b(a, b) == 0real,
        rmin(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) > len2(a) || rmax(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) < 0real,
    ensures forall|x: real, y: real| !#[trigger] both(a, b, x, y)
{
    lemma_one_line(a, b);
    assert forall|x: real, y: real| !#[trigger] both(a, b, x, y) by { lemma_line_on(a, a, x, y); lemma_line_on(a, b, x, y); }
}
/// What holds of the common points of any two segments.
pub proof fn lemma_isxn_facts(a: Segment, b: Segment)
    ensures
        on_pos(a, a.start), on_pos(a, a.end), on_pos(b, b.start), on_pos(b, b.end),
        !proper(a) ==> (forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(a.start) && y == ry(a.start) && on_pos(b, a.start)),
        det(a, b) == 0real && num_b(a, b) != 0real ==> (forall|x: real, y: real| !#[trigger] both(a, b, x, y)),
        proper(a) && det(a, b) == 0real && num_b(a, b) == 0real && (rmin(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) > len2(a) || rmax(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) < 0real)
            ==> (forall|x: real, y: real| !#[trigger] both(a, b, x, y)),
        det(a, b) != 0real && !(0real <= num_a(a, b) / det(a, b) <= 1real && 0real <= num_b(a, b) / det(a, b) <= 1real) ==> (forall|x: real, y: real| !#[trigger] both(a, b, x, y)),
        det(a, b) != 0real && on_pos(b, a.start) ==> (forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(a.start) && y == ry(a.start)),
        det(a, b) != 0real && on_pos(b, a.end) ==> (forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(a.end) && y == ry(a.end)),
        det(a, b) != 0real && on_pos(a, b.start) ==> (forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(b.start) && y == ry(b.start)),
        det(a, b) != 0real && on_pos(a, b.end) ==> (forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(b.end) && y == ry(b.end)),
{
    lemma_ends(a); lemma_ends(b);
    if !proper(a) {
        assert forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> x == rx(a.start) && y == ry(a.start) && on_pos(b, a.start) by { lemma_point_seg(a, x, y); }
    }
    if det(a, b) == 0real && num_b(a, b) != 0real { lemma_apart(a, b); }
    if proper(a) && det(a, b) == 0real && num_b(a, b) == 0real && (rmin(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) > len2(a) || rmax(place(a, rx(b.start), ry(b.start)), place(a, rx(b.end), ry(b.end))) < 0real) { lemma_no_overlap(a, b); }
    if det(a, b) != 0real {
        let s = num_a(a, b) / det(a, b);
        let t = num_b(a, b) / det(a, b);
        if !(0real <= s <= 1real && 0real <= t <= 1real) { lemma_cross_miss(a, b, s, t); }
        if on_pos(b, a.start) { lemma_one(a, b, a.start); }
        if on_pos(b, a.end) { lemma_one(a, b, a.end); }
        if on_pos(a, b.start) { lemma_one(a, b, b.start); }
        if on_pos(a, b.end) { lemma_one(a, b, b.end); }
    }
}
