// The box of an index is the least box of the items it holds.
proof fn lemma_merge_alg(a: Envelope, b: Envelope, c: Envelope)
    ensures env_merge(Envelope::Empty, a) == a, env_merge(a, Envelope::Empty) == a, env_merge(a, b) == env_merge(b, a), env_merge(a, a) == a,
        env_merge(env_merge(a, b), c) == env_merge(a, env_merge(b, c)),
{ }
proof fn lemma_fold_add(a: Seq<Envelope>, b: Seq<Envelope>)
    ensures env_fold(a + b) == env_merge(env_fold(a), env_fold(b))
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); lemma_merge_alg(env_fold(a), Envelope::Empty, Envelope::Empty); }
    else { lemma_fold_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); lemma_merge_alg(env_fold(a), env_fold(b.drop_last()), b.last()); }
}
proof fn lemma_fold_absorb(t: Seq<Envelope>, i: int)
    requires 0 <= i < t.len() ensures env_merge(env_fold(t), t[i]) == env_fold(t) decreases t.len()
{
    let r = env_fold(t.drop_last());
    if i == t.len() - 1 { lemma_merge_alg(r, t.last(), t.last()); lemma_merge_alg(t.last(), t.last(), r); }
    else { lemma_fold_absorb(t.drop_last(), i); assert(t.drop_last()[i] == t[i]); lemma_merge_alg(r, t.last(), t[i]); lemma_merge_alg(r, t[i], t.last()); lemma_merge_alg(t.last(), t[i], r); }
}
proof fn lemma_fold_sub(s: Seq<Envelope>, t: Seq<Envelope>)
    requires forall|i: int| 0 <= i < s.len() && !((#[trigger] s[i]) is Empty) ==> t.contains(s[i])
    ensures env_merge(env_fold(t), env_fold(s)) == env_fold(t)
    decreases s.len()
{
    let z = env_fold(t);
    if s.len() == 0 { lemma_merge_alg(z, z, z); }
    else {
        let p = s.drop_last();
        assert forall|i: int| 0 <= i < p.len() && !((#[trigger] p[i]) is Empty) implies t.contains(p[i]) by { assert(p[i] == s[i]); }
        lemma_fold_sub(p, t);
        let e = s.last();
        lemma_merge_alg(z, env_fold(p), e);
        if e is Empty { lemma_merge_alg(z, z, z); }
        else { assert(t.contains(s[s.len() - 1])); let i = choose|i: int| 0 <= i < t.len() && t[i] == e; lemma_fold_absorb(t, i); }
    }
}
/// Only which non-empty boxes occur matters.
proof fn lemma_fold_same(s: Seq<Envelope>, t: Seq<Envelope>)
    requires
        forall|i: int| 0 <= i < s.len() && !((#[trigger] s[i]) is Empty) ==> t.contains(s[i]),
        forall|i: int| 0 <= i < t.len() && !((#[trigger] t[i]) is Empty) ==> s.contains(t[i]),
    ensures env_fold(s) == env_fold(t)
{ lemma_fold_sub(s, t); lemma_fold_sub(t, s); lemma_merge_alg(env_fold(s), env_fold(t), env_fold(t)); }
pub open spec fn fb_boxes(f: Flatbush, l: int, n: int) -> Seq<Envelope> { Seq::new(n as nat, |k: int| fb_env(f, l, k)) }
proof fn lemma_chunks(f: Flatbush, l: int, k: int)
    requires fb_wf(f), 1 <= l <= fb_h(f), 0 <= k <= fb_rn(f, l)
    ensures env_fold(fb_boxes(f, l, k)) == env_fold(fb_boxes(f, l - 1, k * f.degree))
    decreases k
{
    let d = f.degree as int;
    if k == 0 { assert(fb_boxes(f, l, 0) =~= fb_boxes(f, l - 1, 0 * d)); }
    else {
        lemma_level(f, l);
        lemma_chunks(f, l, k - 1);
        lemma_node_ok(f, l, k - 1);
        let a = fb_boxes(f, l - 1, (k - 1) * d);
        let b = fb_kids(f, l, k - 1);
        lemma_next(k, d); lemma_nonneg(k - 1, d);
        assert(fb_boxes(f, l - 1, k * d) =~= a + b) by {
            assert forall|i: int| 0 <= i < k * d implies fb_boxes(f, l - 1, k * d)[i] == (a + b)[i] by { if i >= (k - 1) * d { assert(b[i - (k - 1) * d] == f.tree@[fb_lo(f, l - 1) + (k - 1) * d + (i - (k - 1) * d)].1); } }
        }
        lemma_fold_add(a, b);
        assert(fb_boxes(f, l, k).drop_last() =~= fb_boxes(f, l, k - 1));
        assert(fb_boxes(f, l, k).last() == fb_env(f, l, k - 1));
    }
}
proof fn lemma_level_box(f: Flatbush, l: int)
    requires fb_wf(f), 0 <= l <= fb_h(f)
    ensures env_fold(fb_boxes(f, l, fb_cap(f, l))) == env_fold(fb_boxes(f, 0, fb_cap(f, 0)))
    decreases l
{
    if l >= 1 {
        lemma_level_box(f, l - 1); lemma_level(f, l);
        let r = fb_rn(f, l);
        lemma_chunks(f, l, r);
        assert(r * f.degree == fb_cap(f, l - 1)) by (nonlinear_arith) requires fb_cap(f, l - 1) == f.degree * r;
        let s = fb_boxes(f, l, fb_cap(f, l));
        let t = fb_boxes(f, l, r);
        assert forall|i: int| 0 <= i < s.len() && !((#[trigger] s[i]) is Empty) implies t.contains(s[i]) by { lemma_node_ok(f, l, i); assert(i < r); assert(t[i] == s[i]); }
        assert forall|i: int| 0 <= i < t.len() && !((#[trigger] t[i]) is Empty) implies s.contains(t[i]) by { assert(s[i] == t[i]); }
        lemma_fold_same(s, t);
    }
}
proof fn lemma_fb_box(f: Flatbush, items: Seq<Envelope>)
    requires fb_holds(f, items)
    ensures fb_root(f).envelope == env_fold(items)
{
    reveal(fb_holds);
    let h = fb_h(f);
    lemma_lo_grows(f, h);
    lemma_level_box(f, h);
    let top = fb_boxes(f, h, 1);
    assert(top.drop_last() =~= Seq::<Envelope>::empty());
    assert(top.last() == fb_root(f).envelope);
    assert(env_fold(top) == env_merge(env_fold(Seq::<Envelope>::empty()), top.last()));
    lemma_merge_alg(top.last(), top.last(), top.last());
    let s = fb_boxes(f, 0, fb_cap(f, 0));
    assert forall|i: int| 0 <= i < s.len() && !((#[trigger] s[i]) is Empty) implies items.contains(s[i]) by { assert(!(f.tree@[i].1 is Empty)); assert(items[f.tree@[i].0 as int] == s[i]); }
    assert forall|i: int| 0 <= i < items.len() && !((#[trigger] items[i]) is Empty) implies s.contains(items[i]) by {
        let p = choose|p: int| 0 <= p < fb_cap(f, 0) && (#[trigger] f.tree@[p]) == (i as usize, items[i]);
        assert(s[p] == items[i]);
    }
    lemma_fold_same(s, items);
}
