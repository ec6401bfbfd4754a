// C24: the contracts give the interval laws.
pub open spec fn b_min(e: Envelope) -> Ext { match e { Envelope::Empty => Ext::NaN, Envelope::Bounds { min, max } => min.vx() } }
pub open spec fn b_max(e: Envelope) -> Ext { match e { Envelope::Empty => Ext::NaN, Envelope::Bounds { min, max } => max.vx() } }
pub open spec fn is_union(r: Envelope, s: Seq<Envelope>) -> bool {
    &&& (r is Empty <==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Empty)
    &&& is_least(b_min(r), s.map_values(|e: Envelope| b_min(e)))
    &&& is_greatest(b_max(r), s.map_values(|e: Envelope| b_max(e)))
}
pub proof fn lemma_fold_is_union(s: Seq<Envelope>)
    ensures is_union(env_fold(s), s)
    decreases s.len()
{
    let f1 = |e: Envelope| b_min(e);
    let f3 = |e: Envelope| b_max(e);
    if s.len() > 0 {
        let p = s.drop_last();
        let l = s.last();
        let r = env_fold(p);
        lemma_fold_is_union(p);
        assert(s.map_values(f1) =~= p.map_values(f1).push(b_min(l)));
        assert(s.map_values(f3) =~= p.map_values(f3).push(b_max(l)));
        lemma_least_step(b_min(r), p.map_values(f1), b_min(l));
        lemma_greatest_step(b_max(r), p.map_values(f3), b_max(l));
        assert(forall|i: int| 0 <= i < p.len() ==> s[i] == p[i]);
        assert(env_fold(s) is Empty <==> r is Empty && l is Empty);
        if env_fold(s) is Empty {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) is Empty by { if i < p.len() { assert(p[i] is Empty); } }
        } else if !(l is Empty) {
            assert(!(s[s.len() - 1] is Empty));
        } else {
            let i = choose|i: int| 0 <= i < p.len() && !((#[trigger] p[i]) is Empty);
            assert(!(s[i] is Empty));
        }
    }
}
pub proof fn lemma_merge_laws(a: Envelope, b: Envelope, c: Envelope)
    ensures
        env_merge(Envelope::Empty, a) == a, env_merge(a, Envelope::Empty) == a,
        env_merge(a, b) == env_merge(b, a),
        env_merge(env_merge(a, b), c) == env_merge(a, env_merge(b, c)),
        env_intersects(a, b) == env_intersects(b, a),
        !env_contains(a, Envelope::Empty), !env_contains(Envelope::Empty, a), !env_intersects(a, Envelope::Empty),
{ }
/// Membership of a value (possibly infinite) in a closed interval.
pub open spec fn in_iv(e: Envelope, x: Ext) -> bool { match e { Envelope::Empty => false, Envelope::Bounds { min, max } => e_le(min.vx(), x) && e_le(x, max.vx()) } }
pub open spec fn ordered(e: Envelope) -> bool { match e { Envelope::Empty => true, Envelope::Bounds { min, max } => e_le(min.vx(), max.vx()) } }
pub proof fn lemma_sets_of_values(a: Envelope, b: Envelope)
    requires ordered(a), ordered(b)
    ensures env_intersects(a, b) <==> exists|x: Ext| #[trigger] in_iv(a, x) && in_iv(b, x),
        !(a is Empty) && !(b is Empty) ==> (env_contains(a, b) <==> forall|x: Ext| #[trigger] in_iv(b, x) ==> in_iv(a, x)),
{
    match (a, b) {
        (Envelope::Bounds { min: m1, max: x1 }, Envelope::Bounds { min: m2, max: x2 }) => {
            if env_intersects(a, b) { let x = e_max(m1.vx(), m2.vx()); assert(in_iv(a, x) && in_iv(b, x)); }
            if forall|x: Ext| #[trigger] in_iv(b, x) ==> in_iv(a, x) { assert(in_iv(b, m2.vx())); assert(in_iv(b, x2.vx())); }
        }
        _ => { }
    }
}
