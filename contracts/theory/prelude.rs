// ---------------------------------------------------------------------------
// Trusted prelude: the coordinate type, std containers and iterators.
// Everything marked external_body or axiom here is listed in the evidence.
// ---------------------------------------------------------------------------

/// Value of a coordinate: what an IEEE number denotes. The sign of zero and the
/// NaN payload are abstracted away.
// The build target is 64-bit.
global size_of usize == 8;

pub enum Ext { NaN, NegInf, Fin(real), PosInf }

pub open spec fn e_lt(a: Ext, b: Ext) -> bool {
    match (a, b) {
        (Ext::NaN, _) => false,
        (_, Ext::NaN) => false,
        (Ext::NegInf, Ext::NegInf) => false,
        (Ext::NegInf, _) => true,
        (_, Ext::NegInf) => false,
        (Ext::PosInf, _) => false,
        (_, Ext::PosInf) => true,
        (Ext::Fin(x), Ext::Fin(y)) => x < y,
    }
}
pub open spec fn e_eq(a: Ext, b: Ext) -> bool { a != Ext::NaN && a == b }
pub open spec fn e_le(a: Ext, b: Ext) -> bool { e_lt(a, b) || e_eq(a, b) }
pub open spec fn e_min(a: Ext, b: Ext) -> Ext { if a == Ext::NaN { b } else if b == Ext::NaN { a } else if e_le(a, b) { a } else { b } }
pub open spec fn e_max(a: Ext, b: Ext) -> Ext { if a == Ext::NaN { b } else if b == Ext::NaN { a } else if e_le(a, b) { b } else { a } }
pub open spec fn e_fin(a: Ext) -> bool { a is Fin }
pub open spec fn zero() -> Ext { Ext::Fin(0real) }
pub open spec fn one() -> Ext { Ext::Fin(1real) }

// Arithmetic. Nothing is assumed of the results except what the axioms say;
// `exact_arith` is the assumption "every operation on finite operands yields the
// exact real result" (true of small dyadic coordinates; rounding and overflow are
// outside it).
pub uninterp spec fn exact_arith() -> bool;
pub uninterp spec fn c_add(a: Ext, b: Ext) -> Ext;
pub uninterp spec fn c_sub(a: Ext, b: Ext) -> Ext;
pub uninterp spec fn c_mul(a: Ext, b: Ext) -> Ext;
pub uninterp spec fn c_div(a: Ext, b: Ext) -> Ext;
pub uninterp spec fn c_sqrt(a: Ext) -> Ext;
pub uninterp spec fn c_floor(a: Ext) -> Ext;
pub uninterp spec fn c_to_u32(a: Ext) -> Option<u32>;
/// Rounding down and converting a representable number are exact.
pub axiom fn ax_floor(r: real) ensures c_floor(Ext::Fin(r)) == Ext::Fin(r.floor() as real);
pub axiom fn ax_to_u32(n: int) requires 0 <= n <= u32::MAX ensures c_to_u32(Ext::Fin(n as real)) == Some(n as u32);

pub broadcast axiom fn ax_add(a: Ext, b: Ext)
    requires exact_arith(), a is Fin, b is Fin ensures #[trigger] c_add(a, b) == Ext::Fin(a->Fin_0 + b->Fin_0);
pub broadcast axiom fn ax_sub(a: Ext, b: Ext)
    requires exact_arith(), a is Fin, b is Fin ensures #[trigger] c_sub(a, b) == Ext::Fin(a->Fin_0 - b->Fin_0);
pub broadcast axiom fn ax_mul(a: Ext, b: Ext)
    requires exact_arith(), a is Fin, b is Fin ensures #[trigger] c_mul(a, b) == Ext::Fin(a->Fin_0 * b->Fin_0);
pub broadcast axiom fn ax_div(a: Ext, b: Ext)
    requires exact_arith(), a is Fin, b is Fin, b->Fin_0 != 0real ensures #[trigger] c_div(a, b) == Ext::Fin(a->Fin_0 / b->Fin_0);
// Rounding is monotone, so adding a non-negative amount never moves down (all IEEE
// values, no exactness assumed). Checked by Kani for f32 and f64 (kani/).
pub broadcast axiom fn ax_add_up(a: Ext, d: Ext)
    requires e_le(zero(), d), a != Ext::NaN, a != Ext::NegInf ensures e_le(a, #[trigger] c_add(a, d));
pub broadcast axiom fn ax_sub_down(a: Ext, d: Ext)
    requires e_le(zero(), d), a != Ext::NaN, a != Ext::PosInf ensures e_le(#[trigger] c_sub(a, d), a);
// Operations propagate NaN; a sum or difference of finite numbers is never NaN.
pub broadcast axiom fn ax_add_nan(a: Ext, b: Ext)
    requires a == Ext::NaN || b == Ext::NaN ensures #[trigger] c_add(a, b) == Ext::NaN;
pub broadcast axiom fn ax_sub_nan(a: Ext, b: Ext)
    requires a == Ext::NaN || b == Ext::NaN ensures #[trigger] c_sub(a, b) == Ext::NaN;
pub broadcast axiom fn ax_add_fin(a: Ext, b: Ext)
    requires a is Fin, b is Fin ensures #[trigger] c_add(a, b) != Ext::NaN;
pub broadcast axiom fn ax_sub_fin(a: Ext, b: Ext)
    requires a is Fin, b is Fin ensures #[trigger] c_sub(a, b) != Ext::NaN;
pub broadcast axiom fn ax_sqrt(a: real)
    requires exact_arith(), a >= 0real
    ensures (#[trigger] c_sqrt(Ext::Fin(a))) is Fin, c_sqrt(Ext::Fin(a))->Fin_0 >= 0real, c_sqrt(Ext::Fin(a))->Fin_0 * c_sqrt(Ext::Fin(a))->Fin_0 == a;
pub broadcast group group_arith { ax_add, ax_sub, ax_mul, ax_div }
pub broadcast group group_mono { ax_add_up, ax_sub_down, ax_add_nan, ax_sub_nan, ax_add_fin, ax_sub_fin }

/// The coordinate: any type implementing the crate's `Coordinate` trait.
pub struct C { pub g: Ghost<Ext> }
impl Copy for C {}
impl Clone for C { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn mkc(e: Ext) -> C { C { g: Ghost(e) } }

impl C {
    pub open spec fn v(self) -> Ext { self.g@ }
    #[verifier::external_body] pub fn zero() -> (r: C) ensures r.v() == zero() { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: C) ensures r.v() == one() { unimplemented!() }
    #[verifier::external_body] pub fn nan() -> (r: C) ensures r.v() == Ext::NaN { unimplemented!() }
    #[verifier::external_body] pub fn infinity() -> (r: C) ensures r.v() == Ext::PosInf { unimplemented!() }
    #[verifier::external_body] pub fn neg_infinity() -> (r: C) ensures r.v() == Ext::NegInf { unimplemented!() }
    #[verifier::external_body] pub fn min(self, other: C) -> (r: C) ensures r.v() == e_min(self.v(), other.v()) { unimplemented!() }
    #[verifier::external_body] pub fn max(self, other: C) -> (r: C) ensures r.v() == e_max(self.v(), other.v()) { unimplemented!() }
    #[verifier::external_body] pub fn is_finite(self) -> (r: bool) ensures r == (self.v() is Fin) { unimplemented!() }
    #[verifier::external_body] pub fn is_nan(self) -> (r: bool) ensures r == (self.v() is NaN) { unimplemented!() }
    #[verifier::external_body] pub fn is_infinite(self) -> (r: bool) ensures r == (self.v() is PosInf || self.v() is NegInf) { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: C)
        ensures self.v() is Fin ==> r.v() == Ext::Fin(if self.v()->Fin_0 < 0real { 0real - self.v()->Fin_0 } else { self.v()->Fin_0 }) { unimplemented!() }
    #[verifier::external_body] pub fn sqrt(self) -> (r: C) ensures r.v() == c_sqrt(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn epsilon() -> (r: C) ensures r.v() is Fin, r.v()->Fin_0 > 0real, r.v()->Fin_0 < 1real { unimplemented!() }
    #[verifier::external_body] pub fn min_positive_value() -> (r: C) ensures r.v() is Fin, r.v()->Fin_0 > 0real, r.v()->Fin_0 < 1real { unimplemented!() }
    #[verifier::external_body] pub fn max_value() -> (r: C) ensures r.v() is Fin, r.v()->Fin_0 > 1real { unimplemented!() }
    #[verifier::external_body] pub fn min_value() -> (r: C) ensures r.v() is Fin, r.v()->Fin_0 < 0real { unimplemented!() }
    #[verifier::external_body] pub fn is_zero(&self) -> (r: bool) ensures r == e_eq(self.v(), zero()) { unimplemented!() }
    #[verifier::external_body] pub fn is_one(&self) -> (r: bool) ensures r == e_eq(self.v(), one()) { unimplemented!() }
    #[verifier::external_body] pub fn is_normal(self) -> (r: bool) ensures r ==> self.v() is Fin { unimplemented!() }
    #[verifier::external_body] pub fn is_positive(&self) -> (r: bool) ensures e_lt(zero(), self.v()) ==> r, e_lt(self.v(), zero()) ==> !r { unimplemented!() }
    #[verifier::external_body] pub fn is_negative(&self) -> (r: bool) ensures e_lt(self.v(), zero()) ==> r, e_lt(zero(), self.v()) ==> !r { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_positive(self) -> (r: bool) ensures e_lt(zero(), self.v()) ==> r, e_lt(self.v(), zero()) ==> !r { unimplemented!() }
    #[verifier::external_body] pub fn is_sign_negative(self) -> (r: bool) ensures e_lt(self.v(), zero()) ==> r, e_lt(zero(), self.v()) ==> !r { unimplemented!() }
    #[verifier::external_body] pub fn signum(self) -> (r: C)
        ensures e_lt(zero(), self.v()) ==> r.v() == one(), e_lt(self.v(), zero()) ==> r.v() == Ext::Fin(-1real), self.v() is NaN ==> r.v() is NaN { unimplemented!() }
    #[verifier::external_body] pub fn ceil(self) -> (r: C) { unimplemented!() }
    #[verifier::external_body] pub fn round(self) -> (r: C) { unimplemented!() }
    #[verifier::external_body] pub fn trunc(self) -> (r: C) { unimplemented!() }
    #[verifier::external_body] pub fn powi(self, n: i32) -> (r: C) ensures n == 1 ==> r.v() == self.v(), n == 2 ==> r.v() == c_mul(self.v(), self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn mul_add(self, a: C, b: C) -> (r: C)
        ensures exact_arith() && self.v() is Fin && a.v() is Fin && b.v() is Fin ==> r.v() == Ext::Fin(self.v()->Fin_0 * a.v()->Fin_0 + b.v()->Fin_0) { unimplemented!() }
    #[verifier::external_body] pub fn recip(self) -> (r: C) ensures r.v() == c_div(one(), self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn hypot(self, o: C) -> (r: C)
        ensures exact_arith() && self.v() is Fin && o.v() is Fin ==> r.v() == c_sqrt(c_add(c_mul(self.v(), self.v()), c_mul(o.v(), o.v()))) { unimplemented!() }
    #[verifier::external_body] pub fn floor(self) -> (r: C) ensures r.v() == c_floor(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn to_u32(self) -> (r: Option<u32>) ensures r == c_to_u32(self.v()) { unimplemented!() }
    #[verifier::external_body] pub fn from(i: i32) -> (r: Option<C>) ensures r is Some, r->Some_0.v() == Ext::Fin(i as real) { unimplemented!() }
}

pub open spec fn pcmp(a: Ext, b: Ext) -> Option<Ordering> {
    if a == Ext::NaN || b == Ext::NaN { None }
    else if e_lt(a, b) { Some(Ordering::Less) }
    else if a == b { Some(Ordering::Equal) }
    else { Some(Ordering::Greater) }
}
impl PartialEqSpecImpl for C {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &C) -> bool { e_eq(self.v(), o.v()) }
}
impl PartialEq for C { #[verifier::external_body] fn eq(&self, o: &C) -> bool { unimplemented!() } }
impl PartialOrdSpecImpl for C {
    open spec fn obeys_partial_cmp_spec() -> bool { true }
    open spec fn partial_cmp_spec(&self, o: &C) -> Option<Ordering> { pcmp(self.v(), o.v()) }
}
impl PartialOrd for C { #[verifier::external_body] fn partial_cmp(&self, o: &C) -> Option<Ordering> { unimplemented!() } }
impl AddSpecImpl<C> for C {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: C) -> bool { true }
    open spec fn add_spec(self, o: C) -> C { mkc(c_add(self.v(), o.v())) }
}
impl Add for C { type Output = C; #[verifier::external_body] fn add(self, o: C) -> C { unimplemented!() } }
impl SubSpecImpl<C> for C {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: C) -> bool { true }
    open spec fn sub_spec(self, o: C) -> C { mkc(c_sub(self.v(), o.v())) }
}
impl Sub for C { type Output = C; #[verifier::external_body] fn sub(self, o: C) -> C { unimplemented!() } }
impl MulSpecImpl<C> for C {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: C) -> bool { true }
    open spec fn mul_spec(self, o: C) -> C { mkc(c_mul(self.v(), o.v())) }
}
impl Mul for C { type Output = C; #[verifier::external_body] fn mul(self, o: C) -> C { unimplemented!() } }
impl DivSpecImpl<C> for C {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: C) -> bool { true }
    open spec fn div_spec(self, o: C) -> C { mkc(c_div(self.v(), o.v())) }
}
impl Div for C { type Output = C; #[verifier::external_body] fn div(self, o: C) -> C { unimplemented!() } }
impl NegSpecImpl for C {
    open spec fn obeys_neg_spec() -> bool { true }
    open spec fn neg_req(self) -> bool { true }
    open spec fn neg_spec(self) -> C { mkc(c_neg(self.v())) }
}
pub open spec fn c_neg(a: Ext) -> Ext { match a { Ext::NaN => Ext::NaN, Ext::NegInf => Ext::PosInf, Ext::PosInf => Ext::NegInf, Ext::Fin(x) => Ext::Fin(0real - x) } }
impl Neg for C { type Output = C; #[verifier::external_body] fn neg(self) -> C { unimplemented!() } }

// ---- NotNan (ordered-float) -------------------------------------------------
#[derive(Debug)]
pub struct FloatIsNan;
#[derive(Clone, Copy)]
pub struct NotNan { pub c: C }
impl NotNan {
    #[verifier::external_body]
    pub fn new(c: C) -> (r: Result<NotNan, FloatIsNan>)
        ensures c.v() is NaN ==> r is Err, !(c.v() is NaN) ==> r == Ok::<NotNan, FloatIsNan>(NotNan { c })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: C) ensures r == self.c { unimplemented!() }
}

/// A `Vec` of elements of two bytes or more cannot hold more (allocation limit).
pub axiom fn ax_vec_small<T>(v: Vec<T>) ensures v@.len() < 0x4000_0000_0000_0000;

/// `From<T> for T` is the identity.
pub axiom fn ax_into_refl<T: Into<T>>() ensures <T as IntoSpec<T>>::obeys_into_spec(), forall|x: T| #[trigger] IntoSpec::<T>::into_spec(x) == x;

// ---- iterators, materialised -------------------------------------------------
/// Move element `i` out of a vector that is consumed front to back.
#[verifier::external_body]
pub fn vtake<T>(v: &Vec<T>, i: usize) -> (r: T) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }

pub trait VIter<T> {
    spec fn vseq(&self) -> Seq<T>;
    fn viter<'a>(&'a self) -> (r: Vec<&'a T>)
        ensures r@.len() == self.vseq().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.vseq()[i];
    fn vsub<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T])
        requires a <= b <= self.vseq().len()
        ensures r@ == self.vseq().subrange(a as int, b as int);
    fn vfirst<'a>(&'a self) -> (r: Option<&'a T>)
        ensures self.vseq().len() == 0 ==> r is None, self.vseq().len() > 0 ==> r is Some && *r->Some_0 == self.vseq()[0];
    fn vlast<'a>(&'a self) -> (r: Option<&'a T>)
        ensures self.vseq().len() == 0 ==> r is None, self.vseq().len() > 0 ==> r is Some && *r->Some_0 == self.vseq().last();
    fn vget<'a>(&'a self, i: usize) -> (r: Option<&'a T>)
        ensures i >= self.vseq().len() ==> r is None, i < self.vseq().len() ==> r is Some && *r->Some_0 == self.vseq()[i as int];
}
impl<T> VIter<T> for Vec<T> {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    fn viter<'a>(&'a self) -> (r: Vec<&'a T>) {
        let mut r: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] r@[k]) == self@[k]
            decreases self@.len() - i
        { r.push(&self[i]); i += 1; }
        r
    }
    fn vsub<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { vstd::slice::slice_subrange(self.as_slice(), a, b) }
    fn vfirst<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() == 0 { None } else { Some(&self[0]) } }
    fn vlast<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
    fn vget<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { if i < self.len() { Some(&self[i]) } else { None } }
}
impl<T> VIter<T> for [T] {
    open spec fn vseq(&self) -> Seq<T> { self@ }
    fn viter<'a>(&'a self) -> (r: Vec<&'a T>) {
        let mut r: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] r@[k]) == self@[k]
            decreases self@.len() - i
        { r.push(&self[i]); i += 1; }
        r
    }
    fn vsub<'a>(&'a self, a: usize, b: usize) -> (r: &'a [T]) { vstd::slice::slice_subrange(self, a, b) }
    fn vfirst<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() == 0 { None } else { Some(&self[0]) } }
    fn vlast<'a>(&'a self) -> (r: Option<&'a T>) { if self.len() == 0 { None } else { Some(&self[self.len() - 1]) } }
    fn vget<'a>(&'a self, i: usize) -> (r: Option<&'a T>) { if i < self.len() { Some(&self[i]) } else { None } }
}
/// An iterator used one item at a time is the sequence of the items it still has to give.
pub trait VNext<T> {
    spec fn vleft(&self) -> Seq<T>;
    fn vnext(&mut self) -> (r: Option<T>)
        ensures old(self).vleft().len() == 0 ==> r is None && final(self).vleft() == old(self).vleft(),
            old(self).vleft().len() > 0 ==> r == Some(old(self).vleft()[0]) && final(self).vleft() == old(self).vleft().subrange(1, old(self).vleft().len() as int);
}
impl<T> VNext<T> for Vec<T> {
    open spec fn vleft(&self) -> Seq<T> { self@ }
    fn vnext(&mut self) -> (r: Option<T>) {
        if self.len() == 0 { None } else {
            proof { assert(self@.remove(0) =~= self@.subrange(1, self@.len() as int)); }
            Some(self.remove(0))
        }
    }
}
pub trait VInto: Sized {
    type It;
    spec fn vitems(self) -> Seq<Self::It>;
    fn vinto_iter(self) -> (r: Vec<Self::It>) ensures r@ == self.vitems();
}
impl<T> VInto for Vec<T> {
    type It = T;
    open spec fn vitems(self) -> Seq<T> { self@ }
    fn vinto_iter(self) -> (r: Vec<T>) { self }
}
impl<'a, T> VInto for &'a Vec<T> {
    type It = &'a T;
    open spec fn vitems(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn vinto_iter(self) -> (r: Vec<&'a T>) {
        let mut r: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k]) == &self@[k]
            decreases self@.len() - i
        { r.push(&self[i]); i += 1; }
        proof { assert(r@ =~= self.vitems()); }
        r
    }
}
impl<'a, T> VInto for &'a [T] {
    type It = &'a T;
    open spec fn vitems(self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) }
    fn vinto_iter(self) -> (r: Vec<&'a T>) {
        let mut r: Vec<&'a T> = Vec::new();
        let mut i: usize = 0;
        while i < self.len()
            invariant i <= self@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k]) == &self@[k]
            decreases self@.len() - i
        { r.push(&self[i]); i += 1; }
        proof { assert(r@ =~= self.vitems()); }
        r
    }
}
pub fn venumerate<T>(v: Vec<T>) -> (r: Vec<(usize, T)>)
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] r@[i]) == (i as usize, v@[i]), v@.len() <= usize::MAX
{
    let mut r: Vec<(usize, T)> = Vec::new();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k]) == (k as usize, v@[k])
        decreases v@.len() - i
    { r.push((i, vtake(&v, i))); i += 1; }
    r
}
pub fn vzip<A, B>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    ensures r@.len() == (if a@.len() <= b@.len() { a@.len() } else { b@.len() }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == (a@[i], b@[i])
{
    let mut r: Vec<(A, B)> = Vec::new();
    let mut i: usize = 0;
    while i < a.len() && i < b.len()
        invariant i <= a@.len(), i <= b@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k]) == (a@[k], b@[k])
        decreases a@.len() - i
    { r.push((vtake(&a, i), vtake(&b, i))); i += 1; }
    r
}
pub fn vchain<A>(a: Vec<A>, b: Vec<A>) -> (r: Vec<A>) ensures r@ == a@ + b@ { let mut a = a; let mut b = b; a.append(&mut b); a }
pub fn vskip<A>(a: Vec<A>, n: usize) -> (r: Vec<A>)
    ensures r@ == (if n <= a@.len() { a@.subrange(n as int, a@.len() as int) } else { Seq::<A>::empty() })
{
    let mut a = a;
    if n <= a.len() { a.split_off(n) } else { Vec::new() }
}
pub fn vtake_n<A>(a: Vec<A>, n: usize) -> (r: Vec<A>)
    ensures r@ == (if n <= a@.len() { a@.subrange(0, n as int) } else { a@ })
{
    let mut a = a;
    a.truncate(n);
    a
}
pub fn vrev<A>(a: Vec<A>) -> (r: Vec<A>) ensures r@ == a@.reverse()
{
    let n = a.len();
    let mut r: Vec<A> = Vec::new();
    let mut i: usize = 0;
    while i < n
        invariant i <= n, n == a@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k]) == a@[n - 1 - k]
        decreases n - i
    { r.push(vtake(&a, n - 1 - i)); i += 1; }
    proof { assert(r@ =~= a@.reverse()); }
    r
}
pub fn vcopied<'a, A: Copy>(a: Vec<&'a A>) -> (r: Vec<A>)
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> (#[trigger] r@[i]) == *a@[i]
{
    let mut r: Vec<A> = Vec::new();
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> (#[trigger] r@[k]) == *a@[k]
        decreases a@.len() - i
    { r.push(*a[i]); i += 1; }
    r
}
pub fn vrange(a: usize, b: usize) -> (r: Vec<usize>)
    ensures r@.len() == (if a <= b { b - a } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == a + i
{
    let mut r: Vec<usize> = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= i, i <= b || i == a, r@.len() == i - a, forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]) == a + k
        decreases b - i
    { r.push(i); i += 1; }
    r
}
pub fn vrange_incl(a: usize, b: usize) -> (r: Vec<usize>)
    ensures r@.len() == (if a <= b { b - a + 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == a + i
{
    let mut r = vrange(a, b);
    if a <= b { r.push(b); }
    r
}
pub open spec fn chunk_count(n: int, k: int) -> int { if n % k == 0 { n / k } else { n / k + 1 } }
pub fn vchunks<'a, T>(s: &'a [T], k: usize) -> (r: Vec<&'a [T]>)
    requires k > 0
    ensures r@.len() == chunk_count(s@.len() as int, k as int),
        forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s@.subrange(i * k, if (i + 1) * k <= s@.len() { (i + 1) * k } else { s@.len() as int })
{
    let n = s.len();
    let mut r: Vec<&'a [T]> = Vec::new();
    let mut lo: usize = 0;
    let ghost mut i: int = 0;
    while lo < n
        invariant k > 0, n == s@.len(), lo <= n, r@.len() == i, i >= 0,
            lo == i * k || (lo == n && (i - 1) * k < n < i * k),
            forall|j: int| 0 <= j < i ==> (#[trigger] r@[j])@ == s@.subrange(j * k, if (j + 1) * k <= s@.len() { (j + 1) * k } else { s@.len() as int }),
        decreases n - lo
    {
        proof { assert((i + 1) * k == i * k + k) by (nonlinear_arith); }
        let hi = if n - lo >= k { lo + k } else { n };
        r.push(vstd::slice::slice_subrange(s, lo, hi));
        proof { i = i + 1; assert((i - 1 + 1) * k == i * k); }
        lo = hi;
    }
    proof {
        let q = if lo == i * k { i } else { i - 1 };
        assert(i * k == (i - 1) * k + k) by (nonlinear_arith);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n as int, k as int, q, n - q * k);
    }
    r
}
pub open spec fn vrow<A, B>(x: A, b: Seq<B>) -> Seq<(A, B)> { Seq::new(b.len(), |j: int| (x, b[j])) }
pub open spec fn vprod<A, B>(a: Seq<A>, b: Seq<B>) -> Seq<(A, B)> decreases a.len() { if a.len() == 0 { Seq::empty() } else { vprod(a.drop_last(), b) + vrow(a.last(), b) } }
pub fn viproduct<A: Copy, B: Copy>(a: Vec<A>, b: Vec<B>) -> (r: Vec<(A, B)>)
    requires a@.len() <= 0x8000_0000, b@.len() <= 0x8000_0000
    ensures r@ == vprod(a@, b@)
{
    let mut r: Vec<(A, B)> = Vec::new();
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a@.len(), r@ == vprod(a@.take(i as int), b@)
        decreases a@.len() - i
    {
        let ghost r0 = r@;
        let mut j: usize = 0;
        while j < b.len()
            invariant i < a@.len(), j <= b@.len(), r@ == r0 + vrow(a@[i as int], b@).take(j as int)
            decreases b@.len() - j
        {
            r.push((a[i], b[j]));
            j += 1;
            proof { assert(r@ =~= r0 + vrow(a@[i as int], b@).take(j as int)); }
        }
        i += 1;
        proof {
            assert(vrow(a@[i - 1], b@).take(j as int) =~= vrow(a@[i - 1], b@));
            assert(a@.take(i as int).drop_last() =~= a@.take(i - 1));
        }
    }
    proof { assert(a@.take(i as int) =~= a@); }
    r
}
/// Permutation returned by a sort: new[i] == old[p[i]].
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> p[i] != p[j]
    &&& forall|j: int| 0 <= j < n ==> #[trigger] perm_at(p, j)
}
#[verifier::opaque]
pub open spec fn perm_at(p: Seq<int>, j: int) -> bool { exists|i: int| 0 <= i < p.len() && #[trigger] p[i] == j }
proof fn lemma_perm_id(n: int)
    requires n >= 0
    ensures is_perm(Seq::new(n as nat, |i: int| i), n)
{
    let p = Seq::new(n as nat, |i: int| i);
    assert forall|j: int| 0 <= j < n implies #[trigger] perm_at(p, j) by { reveal(perm_at); assert(p[j] == j); }
}
proof fn lemma_perm_swap(p: Seq<int>, n: int, a: int, b: int)
    requires is_perm(p, n), 0 <= a < n, 0 <= b < n, a != b
    ensures is_perm(p.update(a, p[b]).update(b, p[a]), n)
{
    let q = p.update(a, p[b]).update(b, p[a]);
    assert forall|j: int| 0 <= j < n implies #[trigger] perm_at(q, j) by {
        reveal(perm_at);
        assert(perm_at(p, j));
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j;
        if i == a { assert(q[b] == j); } else if i == b { assert(q[a] == j); } else { assert(q[i] == j); }
    }
    assert forall|i: int, j: int| 0 <= i < j < n implies q[i] != q[j] by {
        let si = if i == a { b } else if i == b { a } else { i };
        let sj = if j == a { b } else if j == b { a } else { j };
        assert(q[i] == p[si] && q[j] == p[sj] && si != sj);
        if si < sj { assert(p[si] != p[sj]); } else { assert(p[sj] != p[si]); }
    }
}
/// A sort whose result the contract describes (std's is another algorithm with the same contract).
#[verifier::loop_isolation(false)]
pub fn vsort_unstable_by_key<T>(v: &mut Vec<T>, keys: Vec<u32>) -> (p: Ghost<Seq<int>>)
    requires keys@.len() == old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), is_perm(p@, old(v)@.len() as int),
        forall|i: int| 0 <= i < final(v)@.len() ==> (#[trigger] final(v)@[i]) == old(v)@[p@[i]],
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> keys@[p@[i]] <= keys@[p@[j]],
{
    let ghost v0 = v@;
    let n = v.len();
    let mut kk: Vec<u32> = Vec::new();
    let mut c: usize = 0;
    while c < n
        invariant c <= n, kk@ == keys@.take(c as int)
        decreases n - c
    {
        kk.push(keys[c]);
        c += 1;
        proof { assert(keys@.take(c as int).drop_last() =~= keys@.take(c - 1)); assert(kk@ =~= keys@.take(c as int)); }
    }
    let ghost mut p: Seq<int> = Seq::new(n as nat, |i: int| i);
    proof { lemma_perm_id(n as int); assert(keys@.take(n as int) =~= keys@); }
    let mut i: usize = 0;
    while i < n
        invariant i <= n, v@.len() == n, kk@.len() == n, is_perm(p, n as int),
            forall|k: int| 0 <= k < n ==> (#[trigger] v@[k]) == v0[p[k]],
            forall|k: int| 0 <= k < n ==> (#[trigger] kk@[k]) == keys@[p[k]],
            forall|a: int, b: int| 0 <= a < i && a <= b < n ==> (#[trigger] kk@[a]) <= (#[trigger] kk@[b]),
        decreases n - i
    {
        let mut j: usize = i + 1;
        while j < n
            invariant i < j <= n, v@.len() == n, kk@.len() == n, is_perm(p, n as int),
                forall|k: int| 0 <= k < n ==> (#[trigger] v@[k]) == v0[p[k]],
                forall|k: int| 0 <= k < n ==> (#[trigger] kk@[k]) == keys@[p[k]],
                forall|a: int, b: int| 0 <= a < i && a <= b < n ==> (#[trigger] kk@[a]) <= (#[trigger] kk@[b]),
                forall|b: int| i <= b < j ==> kk@[i as int] <= (#[trigger] kk@[b]),
            decreases n - j
        {
            if kk[j] < kk[i] {
                proof { lemma_perm_swap(p, n as int, i as int, j as int); }
                let ghost w = v@;
                let x = v.remove(j);
                v.insert(i, x);
                let y = v.remove(i + 1);
                v.insert(j, y);
                proof { assert(v@ =~= w.update(i as int, w[j as int]).update(j as int, w[i as int])); }
                let a = kk[i];
                let b = kk[j];
                kk.set(i, b);
                kk.set(j, a);
                proof { p = p.update(i as int, p[j as int]).update(j as int, p[i as int]); }
            }
            j += 1;
        }
        i += 1;
    }
    proof {
        assert forall|i: int, j: int| 0 <= i <= j < v@.len() implies keys@[p[i]] <= keys@[p[j]] by { assert(kk@[i] <= kk@[j]); }
    }
    Ghost(p)
}
pub fn vsort_by_key<T>(v: &mut Vec<T>, keys: Vec<u32>) -> (p: Ghost<Seq<int>>)
    requires keys@.len() == old(v)@.len()
    ensures final(v)@.len() == old(v)@.len(), is_perm(p@, old(v)@.len() as int),
        forall|i: int| 0 <= i < final(v)@.len() ==> (#[trigger] final(v)@[i]) == old(v)@[p@[i]],
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> keys@[p@[i]] <= keys@[p@[j]],
{ vsort_unstable_by_key(v, keys) }
/// A panic that the contract does not allow.
#[verifier::external_body]
pub fn vpanic() -> ! requires false { unimplemented!() }
/// A refusal that the contract allows: control does not return.
#[verifier::external_body]
pub fn vrefuse() -> ! { unimplemented!() }
