// C25: descending from the root through non-empty nodes, by the contracts of root_node and get_children.
pub open spec fn fb_kid(f: Flatbush, n: FlatbushNode, i: int) -> FlatbushNode {
    let t = fb_lo(f, n.level - 1) + fb_pos(f, n) * f.degree + i;
    FlatbushNode { level: (n.level - 1) as usize, tree_index: t as usize, sibling_index: f.tree@[t].0, envelope: f.tree@[t].1 }
}
/// What get_children returns of a node with children: as many nodes as the degree, one level
/// below, whose boxes' least enclosing box is the node's.
proof fn lemma_children(f: Flatbush, n: FlatbushNode, ch: Seq<FlatbushNode>)
    requires fb_wf(f), fb_inner(f, n), ch.len() == f.degree, forall|i: int| 0 <= i < ch.len() ==> fb_child(f, n, i, #[trigger] ch[i])
    ensures
        ch == Seq::new(f.degree as nat, |i: int| fb_kid(f, n, i)),
        forall|i: int| 0 <= i < ch.len() ==> (#[trigger] ch[i]).level == n.level - 1,
        n.envelope == env_fold(Seq::new(ch.len(), |i: int| ch[i].envelope)),
        forall|i: int| 0 <= i < ch.len() && !((#[trigger] ch[i]).envelope is Empty) && n.level >= 2 ==> fb_inner(f, ch[i]),
{
    let l = n.level as int;
    lemma_level(f, l);
    lemma_node_ok(f, l, fb_pos(f, n));
    assert forall|i: int| 0 <= i < ch.len() implies #[trigger] ch[i] == fb_kid(f, n, i) && ch[i].level == n.level - 1 && ch[i].envelope == fb_kids(f, l, fb_pos(f, n))[i] && (!(ch[i].envelope is Empty) && n.level >= 2 ==> fb_inner(f, ch[i])) by {
        assert(fb_child(f, n, i, ch[i]));
        if n.level >= 2 { lemma_inner(f, ch[i]); }
    }
    assert(ch =~= Seq::new(f.degree as nat, |i: int| fb_kid(f, n, i)));
    assert(Seq::new(ch.len(), |i: int| ch[i].envelope) =~= fb_kids(f, l, fb_pos(f, n)));
}
/// In how many ways a leaf is reached from a node: the first k children's share.
pub open spec fn reach(f: Flatbush, n: FlatbushNode, p: int) -> nat decreases n.level, f.degree + 1 {
    if n.envelope is Empty { 0 } else if n.level == 0 { b2n(n.tree_index == p) } else { reach_kids(f, n, f.degree as nat, p) }
}
pub open spec fn reach_kids(f: Flatbush, n: FlatbushNode, k: nat, p: int) -> nat decreases n.level, k as int {
    if k == 0 || n.level == 0 { 0 } else { reach_kids(f, n, (k - 1) as nat, p) + reach(f, fb_kid(f, n, k - 1), p) }
}
proof fn lemma_fold_empty(s: Seq<Envelope>, i: int)
    requires 0 <= i < s.len(), !(s[i] is Empty) ensures !(env_fold(s) is Empty) decreases s.len()
{ if i < s.len() - 1 { lemma_fold_empty(s.drop_last(), i); } }
/// A node above a non-empty leaf is non-empty.
proof fn lemma_above(f: Flatbush, l: int, p: int)
    requires fb_wf(f), 0 <= l <= fb_h(f), 0 <= p < fb_cap(f, 0), !(fb_env(f, 0, p) is Empty)
    ensures !(fb_env(f, l, anc(f.degree as int, l, p)) is Empty) decreases l
{
    if l >= 1 {
        lemma_above(f, l - 1, p);
        lemma_anc_range(f, l, p); lemma_anc_range(f, l - 1, p); lemma_level(f, l);
        let d = f.degree as int;
        let a = anc(d, l - 1, p);
        lemma_mod_range(a, d);
        lemma_node_ok(f, l, anc(d, l, p));
        assert(fb_kids(f, l, anc(d, l, p))[a % d] == fb_env(f, l - 1, a));
        lemma_fold_empty(fb_kids(f, l, anc(d, l, p)), a % d);
    }
}
proof fn lemma_kid(f: Flatbush, n: FlatbushNode, i: int)
    requires fb_wf(f), fb_inner(f, n), 0 <= i < f.degree ensures fb_child(f, n, i, fb_kid(f, n, i))
{
    lemma_level(f, n.level as int); lemma_lo_grows(f, n.level as int); lemma_lo_grows(f, n.level - 1);
    let k = fb_pos(f, n);
    let d = f.degree as int;
    let r = fb_rn(f, n.level as int);
    lemma_slot(k, d, r);
}
proof fn lemma_reach(f: Flatbush, n: FlatbushNode, p: int)
    requires fb_wf(f), fb_node(f, n), 0 <= p < fb_cap(f, 0)
    ensures reach(f, n, p) == b2n(covers(f, n, p) && !(f.tree@[p].1 is Empty))
    decreases n.level, f.degree + 1
{
    if covers(f, n, p) && !(f.tree@[p].1 is Empty) { lemma_above(f, n.level as int, p); }
    if !(n.envelope is Empty) && n.level > 0 {
        lemma_inner(f, n);
        lemma_reach_kids(f, n, f.degree as nat, p);
        lemma_anc_range(f, n.level - 1, p); lemma_level(f, n.level as int); lemma_mod_range(anc(f.degree as int, n.level - 1, p), f.degree as int);
    }
}
proof fn lemma_reach_kids(f: Flatbush, n: FlatbushNode, k: nat, p: int)
    requires fb_wf(f), fb_inner(f, n), k <= f.degree, 0 <= p < fb_cap(f, 0)
    ensures reach_kids(f, n, k, p) == b2n(covers(f, n, p) && anc(f.degree as int, n.level - 1, p) % (f.degree as int) < k && !(f.tree@[p].1 is Empty))
    decreases n.level, k as int
{
    lemma_anc_range(f, n.level - 1, p); lemma_level(f, n.level as int); lemma_mod_range(anc(f.degree as int, n.level - 1, p), f.degree as int);
    if k > 0 {
        lemma_kid(f, n, k - 1);
        lemma_reach_kids(f, n, (k - 1) as nat, p);
        lemma_reach(f, fb_kid(f, n, k - 1), p);
        lemma_child_covers(f, n, k - 1, fb_kid(f, n, k - 1), p);
    }
}
/// Every item with a box is reached exactly once, as one leaf carrying its position and box, and nothing else is reached.
proof fn lemma_walk(f: Flatbush, items: Seq<Envelope>, root: FlatbushNode)
    requires fb_holds(f, items), items.len() <= usize::MAX, root == fb_root(f), fb_node(f, root), fb_pos(f, root) == 0, root.level == fb_h(f)
    ensures
        forall|i: int| 0 <= i < items.len() && !((#[trigger] items[i]) is Empty) ==> exists|p: int| #[trigger] leaf_at(f, items, i, p) && reach(f, root, p) == 1
            && forall|r: int| 0 <= r < fb_cap(f, 0) && #[trigger] reach(f, root, r) > 0 && f.tree@[r].0 == i ==> r == p,
        forall|p: int| 0 <= p < fb_cap(f, 0) && #[trigger] reach(f, root, p) > 0 ==> f.tree@[p].0 < items.len() && items[f.tree@[p].0 as int] == f.tree@[p].1 && !(f.tree@[p].1 is Empty),
{
    reveal(fb_holds);
    assert forall|p: int| 0 <= p < fb_cap(f, 0) implies #[trigger] reach(f, root, p) == b2n(!(f.tree@[p].1 is Empty)) by { lemma_reach(f, root, p); lemma_root_covers(f, root, p); }
    assert forall|i: int| 0 <= i < items.len() && !((#[trigger] items[i]) is Empty) implies exists|p: int| #[trigger] leaf_at(f, items, i, p) && reach(f, root, p) == 1
            && forall|r: int| 0 <= r < fb_cap(f, 0) && #[trigger] reach(f, root, r) > 0 && f.tree@[r].0 == i ==> r == p by {
        let p = choose|p: int| 0 <= p < fb_cap(f, 0) && (#[trigger] f.tree@[p]) == (i as usize, items[i]);
        assert(leaf_at(f, items, i, p));
        assert forall|r: int| 0 <= r < fb_cap(f, 0) && #[trigger] reach(f, root, r) > 0 && f.tree@[r].0 == i implies r == p by { assert(!(f.tree@[r].1 is Empty) && !(f.tree@[p].1 is Empty)); }
    }
}
pub open spec fn leaf_at(f: Flatbush, items: Seq<Envelope>, i: int, p: int) -> bool { 0 <= p < fb_cap(f, 0) && f.tree@[p] == (i as usize, items[i]) }
