pub mod hilm {
use super::*;
// The Hilbert curve over the 2^n x 2^n grid, and the word tricks that compute its keys.
pub open spec fn xor(a: bool, b: bool) -> bool { a != b }
pub type HState = (bool, bool);
/// One bit of each coordinate moves the state ...
pub open spec fn hstep(x: bool, y: bool, v: HState) -> HState {
    let a = xor(x, y);
    (xor(!(x || y), xor(v.0, !a && v.1)), xor(x && !y, xor(v.1, a && v.0)))
}
/// ... and gives two bits of the key.
pub open spec fn hdig_lo(x: bool, y: bool, v: HState) -> bool { xor(x, y) }
pub open spec fn hdig_hi(x: bool, y: bool, v: HState) -> bool { let w = hstep(x, y, v); xor(w.1, v.1) || !(xor(x, y) || xor(w.0, v.0)) }
pub open spec fn hdig(x: bool, y: bool, v: HState) -> int { 2 * b2i(hdig_hi(x, y, v)) + b2i(hdig_lo(x, y, v)) }
pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn pw2(n: int) -> int decreases n { if n <= 0 { 1 } else { 2 * pw2(n - 1) } }
pub open spec fn pw4(n: int) -> int decreases n { if n <= 0 { 1 } else { 4 * pw4(n - 1) } }
/// The i-th binary digit.
pub open spec fn ibit(x: int, i: int) -> bool { (x / pw2(i)) % 2 == 1 }
/// The low n bits.
pub open spec fn low(x: int, n: int) -> int { x % pw2(n) }
/// Place of the cell (low(x, n), low(y, n)) on the curve of order n that starts in state v.
pub open spec fn hil(n: int, v: HState, x: int, y: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { hdig(ibit(x, n - 1), ibit(y, n - 1), v) * pw4(n - 1) + hil(n - 1, hstep(ibit(x, n - 1), ibit(y, n - 1), v), x, y) }
}
pub proof fn lemma_p2(n: int) ensures pw2(n) >= 1, pw4(n) >= 1, n >= 0 ==> pw2(n + 1) == 2 * pw2(n) && pw4(n + 1) == 4 * pw4(n) decreases n
{ if n > 0 { lemma_p2(n - 1); } }
pub proof fn lemma_split_div(x: int, m: int)
    requires x >= 0, m >= 1 ensures x % (2 * m) == ((x / m) % 2) * m + x % m, (x / m) / 2 == x / (2 * m)
{
    let q = x / m;
    let h = q / 2;
    let r = q % 2;
    lemma_dm(x, m); lemma_dm(q, 2);
    let s = r * m + x % m;
    assert(x == h * (2 * m) + s) by (nonlinear_arith) requires x == q * m + x % m, q == 2 * h + r, s == r * m + x % m;
    assert(0 <= s < 2 * m) by (nonlinear_arith) requires s == r * m + x % m, 0 <= r <= 1, 0 <= x % m < m;
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, 2 * m, h, s);
}
pub proof fn lemma_low(x: int, n: int)
    requires n >= 1, x >= 0
    ensures low(x, n) == b2i(ibit(x, n - 1)) * pw2(n - 1) + low(x, n - 1), low(x, n) == (if ibit(x, n - 1) { pw2(n - 1) } else { 0 }) + low(x, n - 1), 0 <= low(x, n - 1) < pw2(n - 1)
{
    lemma_p2(n - 1);
    let m = pw2(n - 1);
    lemma_split_div(x, m);
    let r = (x / m) % 2;
    lemma_dm(x, m);
    assert(r == b2i(ibit(x, n - 1)));
    assert(r * m == if r == 1 { m } else { 0int }) by (nonlinear_arith) requires 0 <= r <= 1;
}
pub proof fn lemma_hil_range(n: int, v: HState, x: int, y: int)
    requires n >= 0 ensures 0 <= hil(n, v, x, y) < pw4(n) decreases n
{
    if n > 0 {
        lemma_p2(n - 1);
        lemma_hil_range(n - 1, hstep(ibit(x, n - 1), ibit(y, n - 1), v), x, y);
        let d = hdig(ibit(x, n - 1), ibit(y, n - 1), v);
        lemma_digit(d, hil(n - 1, hstep(ibit(x, n - 1), ibit(y, n - 1), v), x, y), pw4(n - 1));
    }
}
pub proof fn lemma_digit(d: int, r: int, m: int)
    requires 0 <= d <= 3, 0 <= r < m ensures 0 <= d * m + r < 4 * m, d * m == (if d == 0 { 0int } else if d == 1 { m } else if d == 2 { 2 * m } else { 3 * m })
{ assert(d * m == (if d == 0 { 0int } else if d == 1 { m } else if d == 2 { 2 * m } else { 3 * m })) by (nonlinear_arith) requires 0 <= d <= 3; }
/// Where the curve of order n enters and leaves.
pub open spec fn hin(v: HState, n: int) -> (int, int) { if v.1 { (pw2(n) - 1, pw2(n) - 1) } else { (0, 0) } }
pub open spec fn hout(v: HState, n: int) -> (int, int) { if v.0 { (0, pw2(n) - 1) } else { (pw2(n) - 1, 0) } }
pub proof fn lemma_corner(n: int, v: HState, x: int, y: int)
    requires n >= 0, x >= 0, y >= 0
    ensures hil(n, v, x, y) == 0 <==> (low(x, n), low(y, n)) == hin(v, n), hil(n, v, x, y) == pw4(n) - 1 <==> (low(x, n), low(y, n)) == hout(v, n)
    decreases n
{
    if n > 0 {
        let a = ibit(x, n - 1);
        let b = ibit(y, n - 1);
        let w = hstep(a, b, v);
        let d = hdig(a, b, v);
        lemma_p2(n - 1);
        lemma_corner(n - 1, w, x, y);
        lemma_hil_range(n - 1, w, x, y);
        lemma_digit(d, hil(n - 1, w, x, y), pw4(n - 1));
        lemma_low(x, n); lemma_low(y, n);
    } else { assert(x % 1 == 0 && y % 1 == 0); }
}
/// Different cells have different places.
pub proof fn lemma_one_to_one(n: int, v: HState, x: int, y: int, x2: int, y2: int)
    requires n >= 0, x >= 0, y >= 0, x2 >= 0, y2 >= 0, hil(n, v, x, y) == hil(n, v, x2, y2)
    ensures low(x, n) == low(x2, n), low(y, n) == low(y2, n)
    decreases n
{
    if n > 0 {
        let a = ibit(x, n - 1);
        let b = ibit(y, n - 1);
        let c = ibit(x2, n - 1);
        let d = ibit(y2, n - 1);
        let w = hstep(a, b, v);
        let w2 = hstep(c, d, v);
        lemma_p2(n - 1);
        lemma_hil_range(n - 1, w, x, y); lemma_hil_range(n - 1, w2, x2, y2);
        lemma_digit(hdig(a, b, v), hil(n - 1, w, x, y), pw4(n - 1));
        lemma_digit(hdig(c, d, v), hil(n - 1, w2, x2, y2), pw4(n - 1));
        assert(hdig(a, b, v) == hdig(c, d, v));
        assert(a == c && b == d);
        lemma_one_to_one(n - 1, w, x, y, x2, y2);
        lemma_low(x, n); lemma_low(y, n); lemma_low(x2, n); lemma_low(y2, n);
    } else { assert(x % 1 == 0 && y % 1 == 0 && x2 % 1 == 0 && y2 % 1 == 0); }
}
pub open spec fn iabs(a: int) -> int { if a < 0 { -a } else { a } }
/// Consecutive places are cells that share an edge.
pub proof fn lemma_neighbours(n: int, v: HState, x: int, y: int, x2: int, y2: int)
    requires n >= 0, x >= 0, y >= 0, x2 >= 0, y2 >= 0, hil(n, v, x2, y2) == hil(n, v, x, y) + 1
    ensures iabs(low(x, n) - low(x2, n)) + iabs(low(y, n) - low(y2, n)) == 1
    decreases n
{
    if n > 0 {
        let a = ibit(x, n - 1);
        let b = ibit(y, n - 1);
        let c = ibit(x2, n - 1);
        let d = ibit(y2, n - 1);
        let w = hstep(a, b, v);
        let w2 = hstep(c, d, v);
        lemma_p2(n - 1);
        lemma_hil_range(n - 1, w, x, y); lemma_hil_range(n - 1, w2, x2, y2);
        lemma_digit(hdig(a, b, v), hil(n - 1, w, x, y), pw4(n - 1));
        lemma_digit(hdig(c, d, v), hil(n - 1, w2, x2, y2), pw4(n - 1));
        lemma_low(x, n); lemma_low(y, n); lemma_low(x2, n); lemma_low(y2, n);
        if hdig(a, b, v) == hdig(c, d, v) {
            assert(a == c && b == d);
            lemma_neighbours(n - 1, w, x, y, x2, y2);
        } else {
            assert(hdig(c, d, v) == hdig(a, b, v) + 1);
            assert(hil(n - 1, w, x, y) == pw4(n - 1) - 1);
            assert(hil(n - 1, w2, x2, y2) == 0);
            lemma_corner(n - 1, w, x, y); lemma_corner(n - 1, w2, x2, y2);
        }
    } else { lemma_hil_range(n, v, x, y); lemma_hil_range(n, v, x2, y2); }
}
/// Every place is taken by a cell.
pub proof fn lemma_onto(n: int, v: HState, k: int) -> (r: (int, int))
    requires n >= 0, 0 <= k < pw4(n) ensures 0 <= r.0 < pw2(n), 0 <= r.1 < pw2(n), hil(n, v, r.0, r.1) == k
    decreases n
{
    if n <= 0 { (0, 0) } else {
        lemma_p2(n - 1);
        let m = pw4(n - 1);
        let d = if k < m { 0int } else if k < 2 * m { 1 } else if k < 3 * m { 2 } else { 3 };
        let (a, b) = lemma_onto_digit(v, d);
        let w = hstep(a, b, v);
        lemma_digit(d, k - (if d == 0 { 0int } else if d == 1 { m } else if d == 2 { 2 * m } else { 3 * m }), m);
        let q = lemma_onto(n - 1, w, k - d * m);
        let s = pw2(n - 1);
        let x = q.0 + (if a { s } else { 0 });
        let y = q.1 + (if b { s } else { 0 });
        lemma_top(q.0, n - 1, a); lemma_top(q.1, n - 1, b);
        lemma_hil_low(n - 1, w, x, y, q.0, q.1);
        (x, y)
    }
}
pub proof fn lemma_onto_digit(v: HState, d: int) -> (r: (bool, bool))
    requires 0 <= d <= 3 ensures hdig(r.0, r.1, v) == d
{
    if hdig(false, false, v) == d { (false, false) } else if hdig(false, true, v) == d { (false, true) } else if hdig(true, false, v) == d { (true, false) } else { (true, true) }
}
/// Adding the bit n above the low n bits.
pub proof fn lemma_top(q: int, n: int, a: bool)
    requires n >= 0, 0 <= q < pw2(n)
    ensures ibit(q + (if a { pw2(n) } else { 0 }), n) == a, low(q + (if a { pw2(n) } else { 0 }), n) == q, low(q, n) == q
{
    lemma_p2(n);
    let m = pw2(n);
    let x = q + (if a { m } else { 0 });
    lemma_dmu(q, m, 0, q);
    if a {
        lemma_dmu(x, m, 1, q);
    } else {
        lemma_dmu(x, m, 0, q);
    }
}
/// Only the low n bits matter.
pub proof fn lemma_hil_low(n: int, v: HState, x: int, y: int, x2: int, y2: int)
    requires n >= 0, x >= 0, y >= 0, x2 >= 0, y2 >= 0, low(x, n) == low(x2, n), low(y, n) == low(y2, n)
    ensures hil(n, v, x, y) == hil(n, v, x2, y2)
    decreases n
{
    if n > 0 {
        lemma_low(x, n); lemma_low(y, n); lemma_low(x2, n); lemma_low(y2, n);
        lemma_hil_low(n - 1, hstep(ibit(x, n - 1), ibit(y, n - 1), v), x, y, x2, y2);
    }
}
// ---- words ------------------------------------------------------------------
#[verifier::opaque]
pub open spec fn bit(w: u32, i: int) -> bool { 0 <= i < 32 && (w >> (i as u32)) & 1 == 1 }
pub broadcast proof fn lemma_bit_and(a: u32, b: u32, i: int) ensures #[trigger] bit(a & b, i) == (bit(a, i) && bit(b, i))
{ reveal(bit); if 0 <= i < 32 { let k = i as u32; assert((((a & b) >> k) & 1 == 1) == ((a >> k) & 1 == 1 && (b >> k) & 1 == 1)) by (bit_vector); } }
pub broadcast proof fn lemma_bit_or(a: u32, b: u32, i: int) ensures #[trigger] bit(a | b, i) == (bit(a, i) || bit(b, i))
{ reveal(bit); if 0 <= i < 32 { let k = i as u32; assert((((a | b) >> k) & 1 == 1) == ((a >> k) & 1 == 1 || (b >> k) & 1 == 1)) by (bit_vector); } }
pub broadcast proof fn lemma_bit_xor(a: u32, b: u32, i: int) ensures #[trigger] bit(a ^ b, i) == (bit(a, i) != bit(b, i))
{ reveal(bit); if 0 <= i < 32 { let k = i as u32; assert((((a ^ b) >> k) & 1 == 1) == (((a >> k) & 1 == 1) != ((b >> k) & 1 == 1))) by (bit_vector); } }
pub broadcast proof fn lemma_bit_shr(a: u32, s: u32, i: int) requires s < 32, i >= 0 ensures #[trigger] bit(a >> s, i) == bit(a, i + s)
{
    reveal(bit);
    if i < 32 {
        let k = i as u32;
        if i + s < 32 { let t = (i + s) as u32; assert(((a >> s) >> k) & 1 == (a >> t) & 1) by (bit_vector) requires t == k + s, t < 32, s < 32, k < 32; }
        else { assert(((a >> s) >> k) & 1 == 0) by (bit_vector) requires k + s >= 32, s < 32, k < 32; }
    }
}
pub proof fn lemma_bit_ffff(i: int) ensures bit(0xFFFF, i) == (0 <= i < 16)
{ reveal(bit); if 0 <= i < 32 { let k = i as u32; assert((((0xFFFFu32 >> k) & 1) == 1) == (k < 16)) by (bit_vector) requires k < 32; } }
pub proof fn lemma_bit_high(x: u32, i: int) requires x <= 0xFFFF, i >= 16 ensures !bit(x, i)
{ reveal(bit); if i < 32 { let k = i as u32; assert((x >> k) & 1 == 0) by (bit_vector) requires x <= 0xFFFF, k >= 16, k < 32; } }
/// The state above bit i of the cell (x, y).
pub open spec fn hst(x: u32, y: u32, i: int) -> HState
    decreases 16 - i
{ if i >= 16 { (false, false) } else { hstep(bit(x, i), bit(y, i), hst(x, y, i + 1)) } }
/// The four words describe how the state s bits up becomes the state here.
pub open spec fn hstage_at(x: u32, y: u32, a: u32, b: u32, c: u32, d: u32, s: int, i: int) -> bool {
    let v = hst(x, y, i + s);
    &&& hst(x, y, i).0 == xor(bit(c, i), xor(bit(a, i) && v.0, bit(b, i) && v.1))
    &&& hst(x, y, i).1 == xor(bit(d, i), xor(bit(b, i) && v.0, xor(bit(a, i), bit(b, i)) && v.1))
    &&& i >= 16 ==> !bit(c, i) && !bit(d, i)
}
#[verifier::opaque]
pub open spec fn hstage(x: u32, y: u32, a: u32, b: u32, c: u32, d: u32, s: int) -> bool { forall|i: int| 0 <= i ==> #[trigger] hstage_at(x, y, a, b, c, d, s, i) }
// The words of the computation.
pub open spec fn w_a(a: u32, b: u32, s: u32) -> u32 { (a & (a >> s)) ^ (b & (b >> s)) }
pub open spec fn w_b(a: u32, b: u32, s: u32) -> u32 { (a & (b >> s)) ^ (b & ((a ^ b) >> s)) }
pub open spec fn w_c(a: u32, b: u32, c: u32, d: u32, s: u32) -> u32 { c ^ ((a & (c >> s)) ^ (b & (d >> s))) }
pub open spec fn w_d(a: u32, b: u32, c: u32, d: u32, s: u32) -> u32 { d ^ ((b & (c >> s)) ^ ((a ^ b) & (d >> s))) }
pub open spec fn w_spread(w: u32) -> u32 {
    let w1 = (w | (w << 8)) & 0x00FF_00FF;
    let w2 = (w1 | (w1 << 4)) & 0x0F0F_0F0F;
    let w3 = (w2 | (w2 << 2)) & 0x3333_3333;
    (w3 | (w3 << 1)) & 0x5555_5555
}
pub open spec fn w_states(x: u32, y: u32) -> (u32, u32) {
    let a0 = x ^ y;
    let b0 = 0xFFFF ^ a0;
    let c0 = 0xFFFF ^ (x | y);
    let d0 = x & (y ^ 0xFFFF);
    let a1 = a0 | (b0 >> 1);
    let b1 = (a0 >> 1) ^ a0;
    let c1 = ((c0 >> 1) ^ (b0 & (d0 >> 1))) ^ c0;
    let d1 = ((a0 & (c0 >> 1)) ^ (d0 >> 1)) ^ d0;
    let a2 = w_a(a1, b1, 2);
    let b2 = w_b(a1, b1, 2);
    let c2 = w_c(a1, b1, c1, d1, 2);
    let d2 = w_d(a1, b1, c1, d1, 2);
    let a3 = w_a(a2, b2, 4);
    let b3 = w_b(a2, b2, 4);
    let c3 = w_c(a2, b2, c2, d2, 4);
    let d3 = w_d(a2, b2, c2, d2, 4);
    (w_c(a3, b3, c3, d3, 8), w_d(a3, b3, c3, d3, 8))
}
pub open spec fn w_key(x: u32, y: u32) -> u32 {
    let v = w_states(x, y);
    let a = v.0 ^ (v.0 >> 1);
    let b = v.1 ^ (v.1 >> 1);
    let i0 = x ^ y;
    let i1 = b | (0xFFFF ^ (i0 | a));
    (w_spread(i1) << 1) | w_spread(i0)
}
pub proof fn lemma_stage1(x: u32, y: u32, a: u32, b: u32, c: u32, d: u32)
    requires x <= 0xFFFF, y <= 0xFFFF,
        a == (x ^ y) | ((0xFFFF ^ (x ^ y)) >> 1), b == ((x ^ y) >> 1) ^ (x ^ y),
        c == (((0xFFFF ^ (x | y)) >> 1) ^ ((0xFFFF ^ (x ^ y)) & ((x & (y ^ 0xFFFF)) >> 1))) ^ (0xFFFF ^ (x | y)),
        d == (((x ^ y) & ((0xFFFF ^ (x | y)) >> 1)) ^ ((x & (y ^ 0xFFFF)) >> 1)) ^ (x & (y ^ 0xFFFF)),
    ensures hstage(x, y, a, b, c, d, 2)
{
    reveal(hstage);
    broadcast use lemma_bit_and, lemma_bit_or, lemma_bit_xor, lemma_bit_shr;
    assert forall|i: int| 0 <= i implies #[trigger] hstage_at(x, y, a, b, c, d, 2, i) by {
        lemma_bit_ffff(i); lemma_bit_ffff(i + 1);
        if i >= 16 { lemma_bit_high(x, i); lemma_bit_high(y, i); }
        if i + 1 >= 16 { lemma_bit_high(x, i + 1); lemma_bit_high(y, i + 1); }
        assert(hst(x, y, i + 1) == if i + 1 >= 16 { (false, false) } else { hstep(bit(x, i + 1), bit(y, i + 1), hst(x, y, i + 2)) });
        assert(hst(x, y, i + 2) == if i + 2 >= 16 { (false, false) } else { hst(x, y, i + 2) });
    }
}
pub proof fn lemma_stage_next(x: u32, y: u32, a: u32, b: u32, c: u32, d: u32, s: u32)
    requires hstage(x, y, a, b, c, d, s as int), 0 < s < 16
    ensures hstage(x, y, w_a(a, b, s), w_b(a, b, s), w_c(a, b, c, d, s), w_d(a, b, c, d, s), 2 * s)
{
    reveal(hstage);
    broadcast use lemma_bit_and, lemma_bit_or, lemma_bit_xor, lemma_bit_shr;
    let t = 2 * s;
    assert forall|i: int| 0 <= i implies #[trigger] hstage_at(x, y, w_a(a, b, s), w_b(a, b, s), w_c(a, b, c, d, s), w_d(a, b, c, d, s), t, i) by {
        let u = hst(x, y, i + s);
        let v = hst(x, y, i + t);
        assert(i + t == (i + s) + s);
        assert(hstage_at(x, y, a, b, c, d, s as int, i) && hstage_at(x, y, a, b, c, d, s as int, i + s));
        if i >= 16 { assert(hst(x, y, i + s) == (false, false)); }
    }
}
/// After the last stage the two words are the states.
pub proof fn lemma_states(x: u32, y: u32)
    requires x <= 0xFFFF, y <= 0xFFFF
    ensures forall|i: int| 0 <= i ==> #[trigger] hst(x, y, i) == (bit(w_states(x, y).0, i), bit(w_states(x, y).1, i))
{
    let a0 = x ^ y;
    let b0 = 0xFFFF ^ a0;
    let c0 = 0xFFFF ^ (x | y);
    let d0 = x & (y ^ 0xFFFF);
    let a1 = a0 | (b0 >> 1);
    let b1 = (a0 >> 1) ^ a0;
    let c1 = ((c0 >> 1) ^ (b0 & (d0 >> 1))) ^ c0;
    let d1 = ((a0 & (c0 >> 1)) ^ (d0 >> 1)) ^ d0;
    lemma_stage1(x, y, a1, b1, c1, d1);
    lemma_stage_next(x, y, a1, b1, c1, d1, 2);
    let a2 = w_a(a1, b1, 2);
    let b2 = w_b(a1, b1, 2);
    let c2 = w_c(a1, b1, c1, d1, 2);
    let d2 = w_d(a1, b1, c1, d1, 2);
    lemma_stage_next(x, y, a2, b2, c2, d2, 4);
    let a3 = w_a(a2, b2, 4);
    let b3 = w_b(a2, b2, 4);
    let c3 = w_c(a2, b2, c2, d2, 4);
    let d3 = w_d(a2, b2, c2, d2, 4);
    lemma_stage_next(x, y, a3, b3, c3, d3, 8);
    reveal(hstage);
    assert forall|i: int| 0 <= i implies #[trigger] hst(x, y, i) == (bit(w_states(x, y).0, i), bit(w_states(x, y).1, i)) by {
        assert(hst(x, y, i + 16) == (false, false));
        assert(hstage_at(x, y, w_a(a3, b3, 8), w_b(a3, b3, 8), w_c(a3, b3, c3, d3, 8), w_d(a3, b3, c3, d3, 8), 16, i));
    }
}
pub proof fn lemma_spread(w: u32, i: int)
    requires w <= 0xFFFF, 0 <= i < 16 ensures bit(w_spread(w), 2 * i) == bit(w, i), !bit(w_spread(w), 2 * i + 1)
{
    reveal(bit);
    let k = i as u32;
    let e = (2 * i) as u32;
    let o = (2 * i + 1) as u32;
    lemma_spread_bv(w, k);
    assert(e == 2 * k && o == 2 * k + 1);
}
pub proof fn lemma_spread_bv(w: u32, k: u32)
    requires w <= 0xFFFF, k < 16
    ensures (w_spread(w) >> ((2 * k) as u32)) & 1 == (w >> k) & 1, (w_spread(w) >> ((2 * k + 1) as u32)) & 1 == 0
{
    let w1 = (w | (w << 8)) & 0x00FF_00FF;
    let w2 = (w1 | (w1 << 4)) & 0x0F0F_0F0F;
    let w3 = (w2 | (w2 << 2)) & 0x3333_3333;
    let w4 = (w3 | (w3 << 1)) & 0x5555_5555;
    let e = (2 * k) as u32;
    let o = (2 * k + 1) as u32;
    assert((w4 >> e) & 1 == (w >> k) & 1 && (w4 >> o) & 1 == 0) by (bit_vector)
        requires w <= 0xFFFF, k < 16, w1 == (w | (w << 8)) & 0x00FF_00FF, w2 == (w1 | (w1 << 4)) & 0x0F0F_0F0F, w3 == (w2 | (w2 << 2)) & 0x3333_3333, w4 == (w3 | (w3 << 1)) & 0x5555_5555, e == 2 * k, o == 2 * k + 1;
}
pub proof fn lemma_bit_shl1(a: u32, i: int)
    requires 0 <= i < 16 ensures bit(a << 1, 2 * i + 1) == bit(a, 2 * i), i > 0 ==> bit(a << 1, 2 * i) == bit(a, 2 * i - 1), !bit(a << 1, 0)
{
    reveal(bit);
    let e = (2 * i) as u32;
    let o = (2 * i + 1) as u32;
    assert(((a << 1) >> o) & 1 == (a >> e) & 1) by (bit_vector) requires o == e + 1, o < 32;
    assert(((a << 1) >> 0) & 1 == 0) by (bit_vector);
    if i > 0 { let m = (2 * i - 1) as u32; assert(((a << 1) >> e) & 1 == (a >> m) & 1) by (bit_vector) requires e == m + 1, e < 32; }
}
/// The key's bits are the digits.
pub proof fn lemma_key_bits(x: u32, y: u32, i: int)
    requires x <= 0xFFFF, y <= 0xFFFF, 0 <= i < 16
    ensures bit(w_key(x, y), 2 * i) == hdig_lo(bit(x, i), bit(y, i), hst(x, y, i + 1)), bit(w_key(x, y), 2 * i + 1) == hdig_hi(bit(x, i), bit(y, i), hst(x, y, i + 1))
{
    broadcast use lemma_bit_and, lemma_bit_or, lemma_bit_xor, lemma_bit_shr;
    let v = w_states(x, y);
    let a = v.0 ^ (v.0 >> 1);
    let b = v.1 ^ (v.1 >> 1);
    let i0 = x ^ y;
    let i1 = b | (0xFFFF ^ (i0 | a));
    lemma_states(x, y);
    assert(x ^ y <= 0xFFFF) by (bit_vector) requires x <= 0xFFFF, y <= 0xFFFF;
    assert(hst(x, y, i) == (bit(v.0, i), bit(v.1, i)) && hst(x, y, i + 1) == (bit(v.0, i + 1), bit(v.1, i + 1)));
    lemma_bit_ffff(i);
    assert(i1 <= 0xFFFF) by {
        lemma_small(v.0, x, y, true); lemma_small(v.1, x, y, false);
        let p = v.0;
        let q = v.1;
        assert((q ^ (q >> 1)) | (0xFFFF ^ ((x ^ y) | (p ^ (p >> 1)))) <= 0xFFFF) by (bit_vector) requires p <= 0xFFFF, q <= 0xFFFF, x <= 0xFFFF, y <= 0xFFFF;
    }
    lemma_spread(i0, i); lemma_spread(i1, i);
    if i > 0 { lemma_spread(i1, i - 1); }
    lemma_bit_shl1(w_spread(i1), i);
}
/// A word without high bits is small.
pub proof fn lemma_small(w: u32, x: u32, y: u32, first: bool)
    requires forall|i: int| 0 <= i ==> (#[trigger] hst(x, y, i)) == (if first { (bit(w, i), hst(x, y, i).1) } else { (hst(x, y, i).0, bit(w, i)) })
    ensures w <= 0xFFFF
{
    assert forall|k: u32| 16 <= k < 32 implies #[trigger] ((w >> k) & 1) == 0 by {
        assert(hst(x, y, k as int) == (false, false));
        assert(!bit(w, k as int));
        reveal(bit);
        assert((w >> k) & 1 == 0 || (w >> k) & 1 == 1) by (bit_vector);
    }
    assert((w >> 16u32) & 1 == 0 && (w >> 17u32) & 1 == 0 && (w >> 18u32) & 1 == 0 && (w >> 19u32) & 1 == 0 && (w >> 20u32) & 1 == 0 && (w >> 21u32) & 1 == 0 && (w >> 22u32) & 1 == 0 && (w >> 23u32) & 1 == 0);
    assert((w >> 24u32) & 1 == 0 && (w >> 25u32) & 1 == 0 && (w >> 26u32) & 1 == 0 && (w >> 27u32) & 1 == 0 && (w >> 28u32) & 1 == 0 && (w >> 29u32) & 1 == 0 && (w >> 30u32) & 1 == 0 && (w >> 31u32) & 1 == 0);
    assert(w <= 0xFFFF) by (bit_vector) requires
        (w >> 16u32) & 1 == 0, (w >> 17u32) & 1 == 0, (w >> 18u32) & 1 == 0, (w >> 19u32) & 1 == 0, (w >> 20u32) & 1 == 0, (w >> 21u32) & 1 == 0, (w >> 22u32) & 1 == 0, (w >> 23u32) & 1 == 0,
        (w >> 24u32) & 1 == 0, (w >> 25u32) & 1 == 0, (w >> 26u32) & 1 == 0, (w >> 27u32) & 1 == 0, (w >> 28u32) & 1 == 0, (w >> 29u32) & 1 == 0, (w >> 30u32) & 1 == 0, (w >> 31u32) & 1 == 0;
}
pub proof fn lemma_bit_int(w: u32, i: int)
    requires 0 <= i < 32 ensures bit(w, i) == ibit(w as int, i), (w >> (i as u32)) as int == w as int / pw2(i)
    decreases i
{
    reveal(bit);
    let k = i as u32;
    if i == 0 { assert(w >> 0 == w) by (bit_vector); assert(pw2(0) == 1); } else {
        lemma_bit_int(w, i - 1);
        let j = (i - 1) as u32;
        assert(w >> k == (w >> j) / 2) by (bit_vector) requires k == j + 1, k < 32;
        lemma_p2(i - 1);
        lemma_split_div(w as int, pw2(i - 1));
    }
    let z = w >> k;
    assert((z & 1 == 1) == (z % 2 == 1)) by (bit_vector);
}
pub proof fn lemma_p24(n: int) requires n >= 0 ensures pw2(2 * n) == pw4(n) decreases n
{ if n > 0 { lemma_p24(n - 1); assert(pw2(2 * n) == 2 * pw2(2 * n - 1) && pw2(2 * n - 1) == 2 * pw2(2 * n - 2)); } }
/// The low digits of the key are the place within the quadrant.
pub proof fn lemma_key_low(x: u32, y: u32, n: int)
    requires x <= 0xFFFF, y <= 0xFFFF, 0 <= n <= 16
    ensures low(w_key(x, y) as int, 2 * n) == hil(n, hst(x, y, n), x as int, y as int)
    decreases n
{
    let k = w_key(x, y);
    if n > 0 {
        lemma_key_low(x, y, n - 1);
        lemma_key_bits(x, y, n - 1);
        lemma_bit_int(k, 2 * n - 1); lemma_bit_int(k, 2 * n - 2);
        lemma_bit_int(x, n - 1); lemma_bit_int(y, n - 1);
        lemma_low(k as int, 2 * n); lemma_low(k as int, 2 * n - 1);
        lemma_p24(n - 1); lemma_p2(2 * (n - 1));
        let d = hdig(bit(x, n - 1), bit(y, n - 1), hst(x, y, n));
        lemma_hil_range(n - 1, hst(x, y, n - 1), x as int, y as int);
        lemma_digit(d, hil(n - 1, hst(x, y, n - 1), x as int, y as int), pw4(n - 1));
        assert(pw2(2 * n - 1) == 2 * pw2(2 * n - 2));
    } else { assert(k as int % 1 == 0); }
}
/// The key of a cell is its place on the curve of order 16.
pub proof fn lemma_key(x: u32, y: u32)
    requires x <= 0xFFFF, y <= 0xFFFF
    ensures w_key(x, y) as int == hil(16, (false, false), x as int, y as int)
{
    lemma_key_low(x, y, 16);
    assert(pw2(32) == 0x1_0000_0000) by (compute);
}
}
pub use hilm::*;
// ---- from positions to cells ------------------------------------------------
/// Cell along one axis.
pub open spec fn h_cell(scale: Ext, p: Ext, lo: Ext) -> u32 { match c_to_u32(c_floor(c_mul(scale, c_sub(p, lo)))) { Some(k) => k, None => 0 } }
pub open spec fn h_key(h: Hilbert, p: Position) -> u32 { w_key(h_cell(h.x_scale.v(), p.vx(), h.x_min.v()), h_cell(h.y_scale.v(), p.vy(), h.y_min.v())) }
pub open spec fn h_safe(h: Hilbert, c: Option<Position>) -> u32 {
    match c { Some(p) => if env_contains(h.env, env_pos(p)) { h_key(h, p) } else { u32::MAX }, None => u32::MAX }
}
/// The Hilbert square of a box.
pub open spec fn h_of(e: Envelope) -> Hilbert {
    match e {
        Envelope::Empty => Hilbert { env: e, x_min: mkc(zero()), y_min: mkc(zero()), x_scale: mkc(zero()), y_scale: mkc(zero()) },
        Envelope::Bounds { min, max } =>
            if e_eq(max.vx(), min.vx()) && e_eq(max.vy(), min.vy()) { Hilbert { env: e, x_min: min.x, y_min: min.y, x_scale: mkc(zero()), y_scale: mkc(zero()) } }
            else { Hilbert { env: e, x_min: min.x, y_min: min.y, x_scale: mkc(c_div(Ext::Fin(65535real), c_sub(max.vx(), min.vx()))), y_scale: mkc(c_div(Ext::Fin(65535real), c_sub(max.vy(), min.vy()))) } }
    }
}
/// The sort key of an item in an index whose items have the total box t.
pub open spec fn item_key(t: Envelope, e: Envelope) -> u32 { h_safe(h_of(t), env_center(e)) }
/// Place of p on a grid of 65535 steps from lo to hi.
pub open spec fn grid(p: real, lo: real, hi: real) -> int { (65535real / (hi - lo) * (p - lo)).floor() }
proof fn lemma_cell(p: real, lo: real, hi: real)
    requires exact_arith(), lo <= p <= hi, lo < hi
    ensures h_cell(c_div(Ext::Fin(65535real), c_sub(Ext::Fin(hi), Ext::Fin(lo))), Ext::Fin(p), Ext::Fin(lo)) == grid(p, lo, hi), 0 <= grid(p, lo, hi) <= 65535
{
    broadcast use group_arith;
    let d = hi - lo;
    let s = 65535real / d;
    let t = p - lo;
    assert(0real <= s * t <= 65535real) by (nonlinear_arith) requires s == 65535real / d, d > 0real, 0real <= t <= d;
    let n = (s * t).floor();
    assert(0 <= n <= 65535);
    ax_floor(s * t);
    ax_to_u32(n);
}
