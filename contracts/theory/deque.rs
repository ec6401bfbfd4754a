// std's double-ended queue and iterators used one item at a time.
pub use std::collections::VecDeque;
impl<T> VInto for VecDeque<T> {
    type It = T;
    open spec fn vitems(self) -> Seq<T> { self@ }
    fn vinto_iter(self) -> (r: Vec<T>) {
        let mut d = self;
        let mut r: Vec<T> = Vec::new();
        while d.len() > 0
            invariant r@ + d@ == self@
            decreases d@.len()
        {
            let ghost r0 = r@;
            let ghost d0 = d@;
            let x = d.pop_front();
            match x { Some(x) => { r.push(x); } None => { } }
            proof { assert(r@ + d@ =~= r0 + d0); }
        }
        proof { assert(r@ + d@ =~= r@); }
        r
    }
}
