//! The statements about coordinates that contracts/theory/prelude.rs assumes, checked
//! for every f32 and f64 by Kani (bit-precise). `lt`, `le`, `eq` are IEEE comparisons;
//! `Ext` forgets the sign of zero, so equality of results is `==` or both NaN.
#![allow(dead_code)]
use num_traits::{Float, NumCast, One, ToPrimitive, Zero};

fn same<T: Float>(a: T, b: T) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}
fn fin<T: Float>(a: T) -> bool {
    a.is_finite()
}

macro_rules! axioms {
    ($t:ty, $m:ident) => {
        #[cfg(kani)]
        mod $m {
            use super::*;
            type T = $t;
            fn any() -> T {
                kani::any()
            }
            // ax_add_up, ax_sub_down
            #[kani::proof]
            fn add_up() {
                let (a, d) = (any(), any());
                kani::assume(T::zero() <= d && !a.is_nan() && a != T::neg_infinity());
                assert!(a <= a + d);
            }
            #[kani::proof]
            fn sub_down() {
                let (a, d) = (any(), any());
                kani::assume(T::zero() <= d && !a.is_nan() && a != T::infinity());
                assert!(a - d <= a);
            }
            // ax_add_nan, ax_sub_nan, ax_add_fin, ax_sub_fin
            #[kani::proof]
            fn nan() {
                let (a, b) = (any(), any());
                if a.is_nan() || b.is_nan() {
                    assert!((a + b).is_nan() && (a - b).is_nan());
                }
                if fin(a) && fin(b) {
                    assert!(!(a + b).is_nan() && !(a - b).is_nan());
                }
            }
            // C::min, C::max
            #[kani::proof]
            fn min_max() {
                let (a, b) = (any(), any());
                let mn = if a.is_nan() { b } else if b.is_nan() { a } else if a <= b { a } else { b };
                let mx = if a.is_nan() { b } else if b.is_nan() { a } else if a <= b { b } else { a };
                assert!(same(Float::min(a, b), mn));
                assert!(same(Float::max(a, b), mx));
            }
            // comparison, classification, negation, absolute value
            #[kani::proof]
            fn order() {
                let (a, b) = (any(), any());
                let nan = a.is_nan() || b.is_nan();
                assert!(a.partial_cmp(&b).is_none() == nan);
                if !nan {
                    assert!((a < b) as u8 + (a == b) as u8 + (b < a) as u8 == 1);
                    if a < b { assert!(b != T::neg_infinity() && a != T::infinity()); }
                }
                assert!(a.is_finite() == (!a.is_nan() && a != T::infinity() && a != T::neg_infinity()));
                assert!(a.is_infinite() == (a == T::infinity() || a == T::neg_infinity()));
                assert!(a.is_zero() == (a == T::zero()) && a.is_one() == (a == T::one()));
                assert!(same(-(-a), a));
                if fin(a) {
                    assert!(fin(-a) && a + (-a) == T::zero());
                    assert!(Float::abs(a) == if a < T::zero() { -a } else { a });
                }
                if T::zero() < a { assert!(a.is_sign_positive() && !a.is_sign_negative() && Float::signum(a) == T::one()); }
                if a < T::zero() { assert!(!a.is_sign_positive() && a.is_sign_negative() && Float::signum(a) == -T::one()); }
                if a.is_nan() { assert!(Float::signum(a).is_nan()); }
                if a.is_normal() { assert!(fin(a)); }
            }
            // equality is substitutive for everything but the sign of zero
            #[kani::proof]
            fn eq_subst() {
                let (a, b, c) = (any(), any(), any());
                kani::assume(a == b && (fin(a) || fin(c)));
                assert!(same(a + c, b + c) && same(a - c, b - c) && same(c - a, c - b));
                assert!((a < c) == (b < c) && (c < a) == (c < b) && (a == c) == (b == c));
            }
            #[kani::proof]
            fn constants() {
                assert!(T::zero() == 0.0 && T::one() == 1.0 && <T as Float>::nan().is_nan());
                assert!(<T as Float>::infinity() > <T as Float>::max_value() && <T as Float>::neg_infinity() < <T as Float>::min_value());
                assert!(fin(<T as Float>::max_value()) && <T as Float>::max_value() > 1.0 && <T as Float>::min_value() < 0.0);
                let e = <T as Float>::epsilon();
                assert!(fin(e) && e > 0.0 && e < 1.0);
                let m = <T as Float>::min_positive_value();
                assert!(fin(m) && m > 0.0 && m < 1.0);
            }
            // ax_to_u32 (integers a coordinate can represent), C::from
            #[kani::proof]
            fn to_u32() {
                let n: u32 = kani::any();
                let x = n as T;
                if x as u64 == n as u64 {
                    assert!(x.to_u32() == Some(n));
                }
                let a = any();
                if let Some(k) = a.to_u32() {
                    assert!(fin(a) && (k as f64) <= a.max(0.0) as f64);
                }
                let i: i32 = kani::any();
                kani::assume(-(1 << 24) <= i && i <= 1 << 24);
                let c: Option<T> = <T as NumCast>::from(i);
                assert!(c == Some(i as T) && (i as T) as i64 == i as i64);
            }
            // ax_floor: the greatest integer not above
            #[kani::proof]
            fn floor() {
                let a = any();
                kani::assume(fin(a) && a >= -2147483648.0 && a <= 4294967295.0);
                let f = Float::floor(a);
                assert!(f <= a && fin(f));
                let k = f as i64;
                assert!(k as T == f);
                assert!(a < (k + 1) as T || (k + 1) as T == f);
            }
        }
    };
}
axioms!(f32, f32s);
axioms!(f64, f64s);

/// What contracts/theory/ints.rs assumes of `usize`, for every `usize`.
#[cfg(kani)]
mod ints {
    // is_pow2(n): n is 2 * 2 * .. * 2
    fn is_pow2(n: usize) -> bool {
        let mut n = n;
        if n == 0 {
            return false;
        }
        while n % 2 == 0 {
            n /= 2;
        }
        n == 1
    }
    #[kani::proof]
    #[kani::unwind(66)]
    fn next_power_of_two() {
        let n: usize = kani::any();
        kani::assume(n <= 0x8000_0000_0000_0000);
        let r = n.next_power_of_two();
        assert!(is_pow2(r) && r >= n && (n > 1 || r == 1) && (n <= 1 || r - n < n));
    }
    #[kani::proof]
    #[kani::unwind(66)]
    fn is_power_of_two() {
        let n: usize = kani::any();
        assert!(n.is_power_of_two() == is_pow2(n));
    }
    // tz(n): 0 if n is odd, else 1 + tz(n / 2)
    #[kani::proof]
    #[kani::unwind(66)]
    fn trailing_zeros() {
        let n: usize = kani::any();
        let r = n.trailing_zeros();
        assert!(r <= 64 && (n != 0 || r == 64));
        if n != 0 {
            let (mut m, mut k) = (n, 0);
            while m % 2 == 0 {
                m /= 2;
                k += 1;
            }
            assert!(r == k);
        }
    }
}
/// What contracts/theory/wkt.rs assumes of `eq_ignore_ascii_case`, for texts of the
/// length it is used with: two bytes are equal up to the case of a letter.
#[cfg(kani)]
mod bytes {
    fn lower(b: u8) -> u8 {
        if 65 <= b && b <= 90 { b + 32 } else { b }
    }
    #[kani::proof]
    #[kani::unwind(5)]
    fn eq_ignore_ascii_case() {
        let (a, b): ([u8; 3], [u8; 3]) = (kani::any(), kani::any());
        let (i, j): (usize, usize) = (kani::any(), kani::any());
        kani::assume(i <= 3 && j <= 3);
        let mut same = i == j;
        let mut k = 0;
        while same && k < i {
            same = lower(a[k]) == lower(b[k]);
            k += 1;
        }
        assert!(a[..i].eq_ignore_ascii_case(&b[..j]) == same);
    }
}

/// What the theory assumes of `NotNan`: only NaN is refused, and order, equality and hash
/// are those of the number (so -0 and 0 are one key of a set or map).
#[cfg(kani)]
mod not_nan {
    use ordered_float::NotNan;
    use std::cmp::Ordering;
    use std::hash::{Hash, Hasher};
    // Remembers the words written.
    #[derive(PartialEq)]
    struct Words([u64; 4], usize);
    impl Hasher for Words {
        fn finish(&self) -> u64 { 0 }
        fn write(&mut self, b: &[u8]) {
            let mut w = 0;
            for &x in b { w = w << 8 | x as u64; }
            self.write_u64(w)
        }
        fn write_u64(&mut self, w: u64) { self.0[self.1] = w; self.1 += 1; }
    }
    macro_rules! key {
        ($t:ty, $m:ident) => {
            #[kani::proof]
            #[kani::unwind(34)]
            fn $m() {
                let (a, b): ($t, $t) = (kani::any(), kani::any());
                assert!(NotNan::new(a).is_err() == a.is_nan());
                kani::assume(!a.is_nan() && !b.is_nan());
                let (x, y) = (NotNan::new(a).unwrap(), NotNan::new(b).unwrap());
                assert!(x.into_inner().to_bits() == a.to_bits());
                assert!((x == y) == (a == b));
                assert!(x.cmp(&y) == if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater });
                if a == b {
                    let (mut h, mut k) = (Words([0; 4], 0), Words([0; 4], 0));
                    x.hash(&mut h);
                    y.hash(&mut k);
                    assert!(h == k);
                }
            }
        };
    }
    key!(f32, key_f32);
    key!(f64, key_f64);
}
