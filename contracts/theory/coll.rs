// Specifications of the std collections the crate uses (trusted).
pub struct HashSet<T> { pub s: Ghost<Set<T>>, pub p: PhantomData<T> }
impl<T> HashSet<T> {
    pub open spec fn view(&self) -> Set<T> { self.s@ }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), self@.finite() { unimplemented!() }
}
pub struct HashMap<K, V> { pub m: Ghost<Map<K, V>>, pub p: PhantomData<(K, V)> }
pub struct MapEntry<'a, K, V> { pub h: &'a mut HashMap<K, V>, pub k: K }
impl<K, V> HashMap<K, V> {
    pub open spec fn view(&self) -> Map<K, V> { self.m@ }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn entry<'a>(&'a mut self, k: K) -> (r: MapEntry<'a, K, V>) ensures r.k == k, *r.h == *old(self), *final(r.h) == *final(self) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, x: &K) -> (r: bool) ensures r == self@.dom().contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn vkeys<'a>(&'a self) -> (r: Vec<&'a K>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(*(#[trigger] r@[i])),
            forall|x: K| #[trigger] self@.dom().contains(x) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == x,
    { unimplemented!() }
}
impl<'a, K, V> MapEntry<'a, K, V> {
    #[verifier::external_body] pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self.h)@.dom().contains(self.k) { old(self.h)@[self.k] } else { v }), final(self.h)@ == old(self.h)@.insert(self.k, *final(r)),
    { unimplemented!() }
}
impl<K, V> vstd::std_specs::core::IndexSpecImpl<&K> for HashMap<K, V> { open spec fn index_req(&self, k: &&K) -> bool { self@.dom().contains(**k) } }
impl<K, V> core::ops::Index<&K> for HashMap<K, V> {
    type Output = V;
    #[verifier::external_body] fn index(&self, k: &K) -> (r: &V) ensures *r == self@[*k] { unimplemented!() }
}
/// A type with the order `BTreeSet` sorts by.
pub trait VOrd { spec fn vlt(self, o: Self) -> bool; }
impl VOrd for NotNan { open spec fn vlt(self, o: NotNan) -> bool { e_lt(self.c.v(), o.c.v()) } }
impl VOrd for (NotNan, NotNan) {
    open spec fn vlt(self, o: (NotNan, NotNan)) -> bool { e_lt(self.0.c.v(), o.0.c.v()) || (self.0.c.v() == o.0.c.v() && e_lt(self.1.c.v(), o.1.c.v())) }
}
pub struct BTreeSet<T> { pub s: Ghost<Set<T>>, pub p: PhantomData<T> }
impl<T: VOrd> BTreeSet<T> {
    pub open spec fn view(&self) -> Set<T> { self.s@ }
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Set::<T>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, x: &T) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, x: T) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, x: &T) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ =~= Set::<T>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len(), self@.finite() { unimplemented!() }
    /// In-order iteration: strictly ascending, exactly the members.
    #[verifier::external_body] pub fn viter<'a>(&'a self) -> (r: Vec<&'a T>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains(*(#[trigger] r@[i])),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (*(#[trigger] r@[i])).vlt(*(#[trigger] r@[j])),
            forall|x: T| #[trigger] self@.contains(x) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == x,
    { unimplemented!() }
    #[verifier::external_body] pub fn vinto_iter(self) -> (r: Vec<T>)
        ensures forall|i: int| 0 <= i < r@.len() ==> self@.contains(#[trigger] r@[i]),
            forall|i: int, j: int| 0 <= i < j < r@.len() ==> (#[trigger] r@[i]).vlt(#[trigger] r@[j]),
            forall|x: T| #[trigger] self@.contains(x) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]) == x,
    { unimplemented!() }
}
pub trait VExtend<A>: Sized {
    spec fn vext_ok(o: Self, a: Seq<A>, n: Self) -> bool;
    fn vextend(&mut self, a: Vec<A>) ensures Self::vext_ok(*old(self), a@, *final(self));
}
impl<T> VExtend<T> for Vec<T> {
    open spec fn vext_ok(o: Self, a: Seq<T>, n: Self) -> bool { n@ == o@ + a }
    fn vextend(&mut self, a: Vec<T>) { let mut a = a; self.append(&mut a); }
}
impl<'a, T: Copy> VExtend<&'a T> for Vec<T> {
    open spec fn vext_ok(o: Self, a: Seq<&'a T>, n: Self) -> bool { n@ == o@ + Seq::new(a.len(), |i: int| *a[i]) }
    fn vextend(&mut self, a: Vec<&'a T>) {
        let mut b = vcopied(a);
        proof { assert(b@ =~= Seq::new(a@.len(), |i: int| *a@[i])); }
        self.append(&mut b);
    }
}
pub open spec fn vals(s: Seq<C>) -> Seq<Ext> { Seq::new(s.len(), |i: int| s[i].v()) }
/// Left-to-right floating point sum from zero.
pub open spec fn sum_fold(s: Seq<Ext>) -> Ext
    decreases s.len()
{ if s.len() == 0 { zero() } else { c_add(sum_fold(s.drop_last()), s.last()) } }
pub fn vsum(v: Vec<C>) -> (r: C) ensures r.v() == sum_fold(vals(v@))
{
    let mut r = C::zero();
    let mut i: usize = 0;
    while i < v.len()
        invariant i <= v@.len(), r.v() == sum_fold(vals(v@).take(i as int))
        decreases v@.len() - i
    {
        r = r + v[i];
        i += 1;
        proof { assert(vals(v@).take(i as int).drop_last() =~= vals(v@).take(i - 1)); }
    }
    proof { assert(vals(v@).take(i as int) =~= vals(v@)); }
    r
}
pub open spec fn b2n(b: bool) -> nat { if b { 1 } else { 0 } }
pub open spec fn count_in<T>(s: Seq<T>, h: T) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { count_in(s.drop_last(), h) + b2n(s.last() == h) } }
