// Integer functions of std the crate uses (trusted specifications), powers of two.
pub mod im {
use super::*;
pub proof fn lemma_next(k: int, d: int) ensures (k + 1) * d == k * d + d, d * (k + 1) == d * k + d, (k - 1) * d + d == k * d, k * d == d * k
{ assert((k + 1) * d == k * d + d && d * (k + 1) == d * k + d && (k - 1) * d + d == k * d && k * d == d * k) by (nonlinear_arith); }
pub proof fn lemma_nonneg(k: int, d: int) requires k >= 0, d >= 0 ensures k * d >= 0, d * k >= 0
{ assert(k * d >= 0 && d * k >= 0) by (nonlinear_arith) requires k >= 0, d >= 0; }
pub proof fn lemma_ge(d: int, r: int) requires r >= 1, d >= 0 ensures d * r >= d, r * d >= d
{ lemma_nonneg(d, r - 1); lemma_next(r, d); lemma_next(r - 1, d); }
pub proof fn lemma_le(i: int, d: int, w: int) requires i <= d, w >= 0 ensures i * w <= d * w, w * i <= w * d
{ lemma_nonneg(d - i, w); vstd::arithmetic::mul::lemma_mul_is_distributive_sub(w, d, i); vstd::arithmetic::mul::lemma_mul_is_commutative(w, d - i); vstd::arithmetic::mul::lemma_mul_is_commutative(w, d); vstd::arithmetic::mul::lemma_mul_is_commutative(w, i); }
pub proof fn lemma_slot(k: int, d: int, r: int) requires 0 <= k < r, d >= 0 ensures 0 <= k * d, k * d + d <= d * r, k * d + d <= r * d, k * d + d == (k + 1) * d
{ lemma_nonneg(k, d); lemma_next(k, d); lemma_le(k + 1, r, d); lemma_next(r, d); }
pub proof fn lemma_dmu(a: int, d: int, q: int, r: int) requires d >= 1, a == q * d + r, 0 <= r < d ensures a / d == q, a % d == r
{ vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, d, q, r); }
pub proof fn lemma_dm(a: int, d: int) requires d >= 1, a >= 0 ensures a == d * (a / d) + a % d, a == (a / d) * d + a % d, 0 <= a % d < d, 0 <= a / d <= a
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, d); lemma_next(a / d, d);
    vstd::arithmetic::div_mod::lemma_mod_bound(a, d);
    vstd::arithmetic::div_mod::lemma_div_pos_is_pos(a, d);
    lemma_ge(a / d, d);
}
/// a = k d + i exactly when k and i are its quotient and remainder.
pub proof fn lemma_dm_iff(a: int, d: int, k: int, i: int) requires d >= 1, 0 <= i < d, a >= 0 ensures k * d + i == a <==> k == a / d && i == a % d
{ lemma_dm(a, d); if k * d + i == a { lemma_dmu(a, d, k, i); } }
pub proof fn lemma_div_lt(a: int, d: int, r: int) requires 0 <= a < d * r, d >= 1 ensures 0 <= a / d < r
{ lemma_dm(a, d); if a / d >= r { lemma_le(r, a / d, d); lemma_next(r, d); } }
pub proof fn lemma_div_mono(a: int, b: int, d: int) requires 0 <= a <= b, d >= 1 ensures 0 <= a / d <= b / d
{ lemma_dm(a, d); vstd::arithmetic::div_mod::lemma_div_is_ordered(a, b, d); }
pub proof fn lemma_mul_div(k: int, x: int) requires k >= 1 ensures (k * x) / k == x, (k * x) % k == 0
{ lemma_next(x, k); lemma_dmu(k * x, k, x, 0); }
}
pub use im::*;
pub open spec fn p2(e: nat) -> nat decreases e { if e == 0 { 1 } else { 2 * p2((e - 1) as nat) } }
#[verifier::opaque]
pub open spec fn is_pow2(n: int) -> bool { exists|e: nat| n == #[trigger] p2(e) }
/// Exponent of the greatest power of two dividing n > 0.
pub open spec fn tz(n: nat) -> nat decreases n { if n == 0 { 0 } else if n % 2 == 1 { 0 } else { 1 + tz(n / 2) } }
/// The least power of two that is at least n; refuses, or gives 0, when that is not representable.
pub assume_specification [usize::next_power_of_two] (n: usize) -> (r: usize)
    ensures n <= 0x8000_0000_0000_0000 ==> is_pow2(r as int) && r >= n && (n <= 1 ==> r == 1) && (n > 1 ==> r < 2 * n), n > 0x8000_0000_0000_0000 ==> r == 0;
pub assume_specification [usize::is_power_of_two] (n: usize) -> (r: bool)
    ensures r == is_pow2(n as int);
pub assume_specification [usize::trailing_zeros] (n: usize) -> (r: u32)
    ensures n == 0 ==> r == 64, n > 0 ==> r == tz(n as nat), r <= 64;
pub assume_specification<T, A: std::alloc::Allocator> [std::vec::Vec::<T, A>::shrink_to_fit] (v: &mut std::vec::Vec<T, A>)
    ensures final(v)@ == old(v)@;
/// The least power of two that is at least n is n itself exactly when n is a power of two.
proof fn lemma_p2_gap(a: nat, b: nat)
    ensures a < b ==> 2 * p2(a) <= p2(b), p2(a) >= 1
    decreases b
{ if a + 1 < b { lemma_p2_gap(a, (b - 1) as nat); } else if a < b { } ; lemma_p2_pos(a); }
proof fn lemma_p2_pos(a: nat) ensures p2(a) >= 1 decreases a { if a > 0 { lemma_p2_pos((a - 1) as nat); } }
proof fn lemma_np2(n: int, r: int)
    requires n >= 0, is_pow2(r), r >= n, n <= 1 ==> r == 1, n > 1 ==> r < 2 * n
    ensures n == r <==> is_pow2(n)
{
    reveal(is_pow2);
    if is_pow2(n) && n != r {
        let a = choose|e: nat| n == #[trigger] p2(e);
        let b = choose|e: nat| r == #[trigger] p2(e);
        lemma_p2_gap(a, b); lemma_p2_gap(b, a);
        assert(p2(0) == 1);
    }
}
proof fn lemma_pow2_odd(n: int)
    requires is_pow2(n), n >= 2 ensures n % 2 == 0
{ reveal(is_pow2); let a = choose|e: nat| n == #[trigger] p2(e); assert(a > 0 ==> p2(a) == 2 * p2((a - 1) as nat)); }
proof fn lemma_pow2_four(n: int)
    requires is_pow2(n), n > 2 ensures n >= 4
{ lemma_pow2_odd(n); }
proof fn lemma_pow2_ge2(n: int) requires is_pow2(n) ensures n >= 1, n > 1 ==> n == 2 || n >= 4
{ reveal(is_pow2); let a = choose|e: nat| n == #[trigger] p2(e); lemma_p2_pos(a); if n > 2 { lemma_pow2_four(n); } }
/// 2^63 is the greatest power of two below 2^64.
proof fn lemma_big_pow2(n: int) ensures 0x8000_0000_0000_0000 < n <= usize::MAX ==> !is_pow2(n)
{
    reveal(is_pow2);
    if 0x8000_0000_0000_0000 < n <= usize::MAX && is_pow2(n) {
        let a = choose|e: nat| n == #[trigger] p2(e);
        assert(p2(63) == 0x8000_0000_0000_0000) by (compute);
        assert(p2(64) == 0x1_0000_0000_0000_0000) by (compute);
        lemma_p2_gap(a, 63); lemma_p2_gap(63, a); lemma_p2_gap(64, a); lemma_p2_gap(a, 64);
    }
}
proof fn lemma_tz(n: int) ensures n >= 1 ==> (tz(n as nat) == 0 <==> n % 2 == 1), n == 1 ==> tz(1) == 0, n > 1 && is_pow2(n) ==> tz(n as nat) > 0
{ if n > 1 && is_pow2(n) { lemma_pow2_odd(n); } }
/// The part of num_traits::PrimInt the crate uses, at the types it uses it at.
pub trait PrimInt: Sized {
    spec fn pi(self) -> int;
    fn zero() -> (r: Self) ensures r.pi() == 0;
    fn one() -> (r: Self) ensures r.pi() == 1;
}
impl PrimInt for usize { open spec fn pi(self) -> int { self as int } fn zero() -> (r: Self) { 0 } fn one() -> (r: Self) { 1 } }
impl PrimInt for u32 { open spec fn pi(self) -> int { self as int } fn zero() -> (r: Self) { 0 } fn one() -> (r: Self) { 1 } }
pub open spec fn div_up(n: int, k: int) -> int { if n % k != 0 { n / k + 1 } else { n / k } }
