// C01: the contracts give the least enclosing box.
pub open spec fn b_minx(e: Envelope) -> Ext { match e { Envelope::Empty => Ext::NaN, Envelope::Bounds { min, max } => min.vx() } }
pub open spec fn b_miny(e: Envelope) -> Ext { match e { Envelope::Empty => Ext::NaN, Envelope::Bounds { min, max } => min.vy() } }
pub open spec fn b_maxx(e: Envelope) -> Ext { match e { Envelope::Empty => Ext::NaN, Envelope::Bounds { min, max } => max.vx() } }
pub open spec fn b_maxy(e: Envelope) -> Ext { match e { Envelope::Empty => Ext::NaN, Envelope::Bounds { min, max } => max.vy() } }

/// The empty box exactly when every input is empty; otherwise every bound is least or greatest.
pub open spec fn is_union(r: Envelope, s: Seq<Envelope>) -> bool {
    &&& (r is Empty <==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Empty)
    &&& is_least(b_minx(r), s.map_values(|e: Envelope| b_minx(e)))
    &&& is_least(b_miny(r), s.map_values(|e: Envelope| b_miny(e)))
    &&& is_greatest(b_maxx(r), s.map_values(|e: Envelope| b_maxx(e)))
    &&& is_greatest(b_maxy(r), s.map_values(|e: Envelope| b_maxy(e)))
}
/// What `Envelope::of` returns (its contract is env_fold) encloses every input and is least.
pub proof fn lemma_fold_is_union(s: Seq<Envelope>)
    ensures is_union(env_fold(s), s)
    decreases s.len()
{
    let f1 = |e: Envelope| b_minx(e);
    let f2 = |e: Envelope| b_miny(e);
    let f3 = |e: Envelope| b_maxx(e);
    let f4 = |e: Envelope| b_maxy(e);
    if s.len() > 0 {
        let p = s.drop_last();
        let l = s.last();
        let r = env_fold(p);
        lemma_fold_is_union(p);
        assert(s.map_values(f1) =~= p.map_values(f1).push(b_minx(l)));
        assert(s.map_values(f2) =~= p.map_values(f2).push(b_miny(l)));
        assert(s.map_values(f3) =~= p.map_values(f3).push(b_maxx(l)));
        assert(s.map_values(f4) =~= p.map_values(f4).push(b_maxy(l)));
        lemma_least_step(b_minx(r), p.map_values(f1), b_minx(l));
        lemma_least_step(b_miny(r), p.map_values(f2), b_miny(l));
        lemma_greatest_step(b_maxx(r), p.map_values(f3), b_maxx(l));
        lemma_greatest_step(b_maxy(r), p.map_values(f4), b_maxy(l));
        assert(forall|i: int| 0 <= i < p.len() ==> s[i] == p[i]);
        assert(env_fold(s) is Empty <==> r is Empty && l is Empty);
        if env_fold(s) is Empty {
            assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]) is Empty by { if i < p.len() { assert(p[i] is Empty); } }
        } else if !(l is Empty) {
            assert(!(s[s.len() - 1] is Empty));
        } else {
            let i = choose|i: int| 0 <= i < p.len() && !((#[trigger] p[i]) is Empty);
            assert(!(s[i] is Empty));
        }
    }
}
/// merge is the two-element case; the empty box is the identity; order does not matter.
pub proof fn lemma_merge_laws(a: Envelope, b: Envelope, c: Envelope)
    ensures
        env_merge(Envelope::Empty, a) == a, env_merge(a, Envelope::Empty) == a,
        env_merge(a, b) == env_merge(b, a),
        env_merge(env_merge(a, b), c) == env_merge(a, env_merge(b, c)),
        is_union(env_merge(a, b), seq![a, b]),
{
    lemma_fold_is_union(seq![a, b]);
    assert(seq![a, b].drop_last() =~= seq![a]);
    assert(seq![a].drop_last() =~= Seq::<Envelope>::empty());
    assert(env_fold(Seq::<Envelope>::empty()) == Envelope::Empty);
    assert(env_fold(seq![a]) == env_merge(env_fold(seq![a].drop_last()), seq![a].last()));
    assert(env_fold(seq![a, b]) == env_merge(env_fold(seq![a, b].drop_last()), seq![a, b].last()));
}
/// The box of two positions is the union of their point boxes.
pub proof fn lemma_new_is_union(p: Position, q: Position)
    ensures env_new(p, q) == env_merge(env_pos(p), env_pos(q)), env_new(p, q) == env_new(q, p)
{ }
proof fn lemma_map_sets(s1: Seq<Envelope>, s2: Seq<Envelope>, f: spec_fn(Envelope) -> Ext)
    requires s1.to_set() =~= s2.to_set() ensures s1.map_values(f).to_set() =~= s2.map_values(f).to_set()
{
    lemma_sets(s1, s2); lemma_sets(s2, s1);
    let a = s1.map_values(f);
    let b = s2.map_values(f);
    assert forall|x: Ext| a.to_set().contains(x) implies b.to_set().contains(x) by {
        let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
        let j = choose|j: int| 0 <= j < s2.len() && s2[j] == s1[i];
        assert(b[j] == x);
    }
    assert forall|x: Ext| b.to_set().contains(x) implies a.to_set().contains(x) by {
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x;
        let j = choose|j: int| 0 <= j < s1.len() && s1[j] == s2[i];
        assert(a[j] == x);
    }
}
pub proof fn lemma_fold_order(s1: Seq<Envelope>, s2: Seq<Envelope>)
    requires s1.to_set() =~= s2.to_set() ensures env_fold(s1) == env_fold(s2)
{
    let f1 = |e: Envelope| b_minx(e);
    let f2 = |e: Envelope| b_miny(e);
    let f3 = |e: Envelope| b_maxx(e);
    let f4 = |e: Envelope| b_maxy(e);
    lemma_fold_is_union(s1); lemma_fold_is_union(s2);
    lemma_map_sets(s1, s2, f1); lemma_map_sets(s1, s2, f2); lemma_map_sets(s1, s2, f3); lemma_map_sets(s1, s2, f4);
    let r1 = env_fold(s1);
    let r2 = env_fold(s2);
    lemma_least_unique(b_minx(r1), s1.map_values(f1), b_minx(r2), s2.map_values(f1));
    lemma_least_unique(b_miny(r1), s1.map_values(f2), b_miny(r2), s2.map_values(f2));
    lemma_greatest_unique(b_maxx(r1), s1.map_values(f3), b_maxx(r2), s2.map_values(f3));
    lemma_greatest_unique(b_maxy(r1), s1.map_values(f4), b_maxy(r2), s2.map_values(f4));
    lemma_sets(s1, s2); lemma_sets(s2, s1);
    assert(r1 is Empty <==> r2 is Empty);
}
