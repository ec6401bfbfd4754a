// Joins of two indexes, and of an index with itself.
pub type NPair = (FlatbushNode, FlatbushNode);
pub open spec fn covers2(f: Flatbush, g: Flatbush, n: NPair, p: int, r: int) -> bool { covers(f, n.0, p) && covers(g, n.1, r) }
pub open spec fn cnt2(f: Flatbush, g: Flatbush, s: Seq<NPair>, p: int, r: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else { cnt2(f, g, s.drop_last(), p, r) + b2n(covers2(f, g, s.last(), p, r)) } }
proof fn lemma_cnt2_push(f: Flatbush, g: Flatbush, s: Seq<NPair>, n: NPair)
    ensures forall|p: int, r: int| #[trigger] cnt2(f, g, s.push(n), p, r) == cnt2(f, g, s, p, r) + b2n(covers2(f, g, n, p, r))
{ assert(s.push(n).drop_last() =~= s); }
pub open spec fn hit2(f: Flatbush, g: Flatbush, p: int, r: int) -> bool { 0 <= p < fb_cap(f, 0) && 0 <= r < fb_cap(g, 0) && env_intersects(f.tree@[p].1, g.tree@[r].1) }
pub open spec fn work2(d: int, s: Seq<NPair>) -> int decreases s.len() { if s.len() == 0 { 0 } else { work2(d, s.drop_last()) + wt(d, s.last().0.level + s.last().1.level) } }
proof fn lemma_work2(d: int, s: Seq<NPair>) requires d >= 0 ensures work2(d, s) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_work2(d, s.drop_last()); lemma_wt(d, s.last().0.level + s.last().1.level); } }
proof fn lemma_work2_push(d: int, s: Seq<NPair>, n: NPair)
    ensures work2(d, s.push(n)) == work2(d, s) + wt(d, n.0.level + n.1.level)
{ assert(s.push(n).drop_last() =~= s); }
pub open spec fn imax(a: int, b: int) -> int { if a >= b { a } else { b } }

// ---- cross join -------------------------------------------------------------
/// A node whose children may be asked for unless it is a leaf.
pub open spec fn fb_live(f: Flatbush, n: FlatbushNode) -> bool { fb_node(f, n) && (n.level >= 1 ==> fb_inner(f, n)) }
#[verifier::opaque]
pub open spec fn x_res(f: Flatbush, g: Flatbush, res: Seq<(usize, usize)>, ps: Seq<(int, int)>) -> bool {
    res.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> hit2(f, g, (#[trigger] ps[i]).0, ps[i].1) && res[i] == (f.tree@[ps[i].0].0, g.tree@[ps[i].1].0)
}
pub open spec fn x_pair(f: Flatbush, g: Flatbush, n: NPair) -> bool { fb_live(f, n.0) && fb_live(g, n.1) && env_intersects(n.0.envelope, n.1.envelope) }
#[verifier::opaque]
pub open spec fn x_todo(f: Flatbush, g: Flatbush, s: Seq<NPair>) -> bool { forall|j: int| 0 <= j < s.len() ==> x_pair(f, g, #[trigger] s[j]) }
#[verifier::opaque]
pub open spec fn x_acc(f: Flatbush, g: Flatbush, ps: Seq<(int, int)>, s: Seq<NPair>, rest: spec_fn(int, int) -> int) -> bool {
    forall|p: int, r: int| hit2(f, g, p, r) ==> #[trigger] count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + rest(p, r) == 1
}
pub open spec fn x_none() -> spec_fn(int, int) -> int { |p: int, r: int| 0 }
pub open spec fn x_one(f: Flatbush, g: Flatbush, n: NPair) -> spec_fn(int, int) -> int { |p: int, r: int| b2n(covers2(f, g, n, p, r)) as int }
/// Children of the first from the i-th on, against the second.
pub open spec fn x_left1(f: Flatbush, g: Flatbush, n: NPair, i: int) -> spec_fn(int, int) -> int {
    |p: int, r: int| b2n(covers2(f, g, n, p, r) && anc(f.degree as int, n.0.level - 1, p) % (f.degree as int) >= i) as int
}
pub open spec fn x_left2(f: Flatbush, g: Flatbush, n: NPair, i: int) -> spec_fn(int, int) -> int {
    |p: int, r: int| b2n(covers2(f, g, n, p, r) && anc(g.degree as int, n.1.level - 1, r) % (g.degree as int) >= i) as int
}
pub open spec fn x_push(n: NPair, todo: Seq<NPair>, todo2: Seq<NPair>) -> bool {
    todo2 == (if env_intersects(n.0.envelope, n.1.envelope) { todo.push(n) } else { todo })
}
proof fn lemma_live(f: Flatbush, n: FlatbushNode)
    requires fb_wf(f), fb_node(f, n), !(n.envelope is Empty) ensures fb_live(f, n)
{ if n.level >= 1 { lemma_inner(f, n); } }
proof fn lemma_cover_env(f: Flatbush, n: FlatbushNode, p: int)
    requires fb_wf(f), fb_node(f, n), covers(f, n, p) ensures n.envelope == fb_env(f, n.level as int, anc(f.degree as int, n.level as int, p))
{ }
proof fn lemma_hit_up(f: Flatbush, g: Flatbush, n: NPair, p: int, r: int)
    requires fb_wf(f), fb_wf(g), fb_node(f, n.0), fb_node(g, n.1), hit2(f, g, p, r), covers2(f, g, n, p, r)
    ensures env_intersects(n.0.envelope, n.1.envelope)
{ lemma_up2(f, g, n.0.level as int, n.1.level as int, p, r); }
proof fn lemma_x_push(f: Flatbush, g: Flatbush, n: NPair, d: int, todo: Seq<NPair>, todo2: Seq<NPair>, ps: Seq<(int, int)>, rest: spec_fn(int, int) -> int, rest2: spec_fn(int, int) -> int)
    requires
        fb_wf(f), fb_wf(g), fb_node(f, n.0), fb_node(g, n.1), x_push(n, todo, todo2), d >= 0,
        x_todo(f, g, todo), x_acc(f, g, ps, todo, rest),
        forall|p: int, r: int| hit2(f, g, p, r) ==> #[trigger] rest(p, r) == rest2(p, r) + b2n(covers2(f, g, n, p, r)),
    ensures x_todo(f, g, todo2), x_acc(f, g, ps, todo2, rest2), work2(d, todo2) <= work2(d, todo) + wt(d, n.0.level + n.1.level),
{
    reveal(x_todo); reveal(x_acc);
    lemma_cnt2_push(f, g, todo, n);
    lemma_work2_push(d, todo, n);
    lemma_wt(d, n.0.level + n.1.level);
    if env_intersects(n.0.envelope, n.1.envelope) { lemma_live(f, n.0); lemma_live(g, n.1); }
    assert forall|p: int, r: int| hit2(f, g, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, g, todo2, p, r) + rest2(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, todo, p, r) + rest(p, r) == 1);
        assert(rest(p, r) == rest2(p, r) + b2n(covers2(f, g, n, p, r)));
        if covers2(f, g, n, p, r) { lemma_hit_up(f, g, n, p, r); }
    }
}
proof fn lemma_x_start(f: Flatbush, g: Flatbush, d: int, todo: Seq<NPair>)
    requires fb_wf(f), fb_wf(g), fb_node(f, fb_root(f)), fb_node(g, fb_root(g)), x_push((fb_root(f), fb_root(g)), Seq::empty(), todo), d >= 0,
        fb_pos(f, fb_root(f)) == 0, fb_pos(g, fb_root(g)) == 0, fb_root(f).level == fb_h(f), fb_root(g).level == fb_h(g),
    ensures x_todo(f, g, todo), x_acc(f, g, Seq::empty(), todo, x_none()), x_res(f, g, Seq::empty(), Seq::empty()),
{
    let n = (fb_root(f), fb_root(g));
    reveal(x_todo); reveal(x_acc); reveal(x_res);
    assert(x_acc(f, g, Seq::empty(), Seq::<NPair>::empty(), x_one(f, g, n))) by {
        assert forall|p: int, r: int| hit2(f, g, p, r) implies #[trigger] count_in(Seq::<(int, int)>::empty(), (p, r)) + cnt2(f, g, Seq::<NPair>::empty(), p, r) + x_one(f, g, n)(p, r) == 1 by {
            lemma_root_covers(f, n.0, p); lemma_root_covers(g, n.1, r);
        }
    }
    assert forall|p: int, r: int| hit2(f, g, p, r) implies #[trigger] x_one(f, g, n)(p, r) == x_none()(p, r) + b2n(covers2(f, g, n, p, r)) by { }
    lemma_x_push(f, g, n, d, Seq::empty(), todo, Seq::empty(), x_one(f, g, n), x_none());
}
proof fn lemma_x_pop(f: Flatbush, g: Flatbush, d: int, ps: Seq<(int, int)>, s: Seq<NPair>, n: NPair)
    requires fb_wf(f), fb_wf(g), d >= 0, x_todo(f, g, s.push(n)), x_acc(f, g, ps, s.push(n), x_none())
    ensures x_pair(f, g, n), x_todo(f, g, s), x_acc(f, g, ps, s, x_one(f, g, n)),
        n.0.level >= 1 ==> x_acc(f, g, ps, s, x_left1(f, g, n, 0)),
        n.1.level >= 1 ==> x_acc(f, g, ps, s, x_left2(f, g, n, 0)),
        n.0.level + n.1.level >= 1 ==> work2(d, s.push(n)) == work2(d, s) + d * wt(d, n.0.level + n.1.level - 1) + 1,
        work2(d, s.push(n)) >= work2(d, s) + 1,
        work2(d, s) >= 0,
{
    reveal(x_todo); reveal(x_acc);
    let t = s.push(n);
    assert(x_pair(f, g, t[s.len() as int]));
    assert forall|j: int| 0 <= j < s.len() implies x_pair(f, g, #[trigger] s[j]) by { assert(x_pair(f, g, t[j])); }
    lemma_cnt2_push(f, g, s, n);
    lemma_work2_push(d, s, n);
    lemma_work2(d, s);
    lemma_wt(d, n.0.level + n.1.level);
    assert forall|p: int, r: int| hit2(f, g, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_one(f, g, n)(p, r) == 1
        && (n.0.level >= 1 ==> x_left1(f, g, n, 0)(p, r) == x_one(f, g, n)(p, r)) && (n.1.level >= 1 ==> x_left2(f, g, n, 0)(p, r) == x_one(f, g, n)(p, r)) by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, t, p, r) + x_none()(p, r) == 1);
        if n.0.level >= 1 { lemma_anc_range(f, n.0.level - 1, p); lemma_level(f, n.0.level as int); lemma_mod_range(anc(f.degree as int, n.0.level - 1, p), f.degree as int); }
        if n.1.level >= 1 { lemma_anc_range(g, n.1.level - 1, r); lemma_level(g, n.1.level as int); lemma_mod_range(anc(g.degree as int, n.1.level - 1, r), g.degree as int); }
    }
}
proof fn lemma_x_leaf(f: Flatbush, g: Flatbush, ps: Seq<(int, int)>, s: Seq<NPair>, n: NPair, res: Seq<(usize, usize)>)
    requires fb_wf(f), fb_wf(g), x_pair(f, g, n), n.0.level == 0, n.1.level == 0, x_acc(f, g, ps, s, x_one(f, g, n)), x_res(f, g, res, ps)
    ensures
        x_acc(f, g, ps.push((n.0.tree_index as int, n.1.tree_index as int)), s, x_none()),
        x_res(f, g, res.push((n.0.sibling_index, n.1.sibling_index)), ps.push((n.0.tree_index as int, n.1.tree_index as int))),
{
    reveal(x_acc); reveal(x_res);
    let x = (n.0.tree_index as int, n.1.tree_index as int);
    lemma_count_push(ps, x);
    assert forall|p: int, r: int| hit2(f, g, p, r) implies #[trigger] count_in(ps.push(x), (p, r)) + cnt2(f, g, s, p, r) + x_none()(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_one(f, g, n)(p, r) == 1);
    }
    let ps2 = ps.push(x);
    assert forall|i: int| 0 <= i < ps2.len() implies hit2(f, g, (#[trigger] ps2[i]).0, ps2[i].1) && res.push((n.0.sibling_index, n.1.sibling_index))[i] == (f.tree@[ps2[i].0].0, g.tree@[ps2[i].1].0) by {
        if i < ps.len() { assert(ps2[i] == ps[i]); assert(hit2(f, g, ps[i].0, ps[i].1)); }
    }
}
proof fn lemma_x_child1(f: Flatbush, g: Flatbush, n: NPair, i: int, c: FlatbushNode)
    requires fb_wf(f), fb_wf(g), fb_inner(f, n.0), 0 <= i < f.degree, fb_child(f, n.0, i, c)
    ensures forall|p: int, r: int| hit2(f, g, p, r) ==> #[trigger] x_left1(f, g, n, i)(p, r) == x_left1(f, g, n, i + 1)(p, r) + b2n(covers2(f, g, (c, n.1), p, r))
{
    assert forall|p: int, r: int| hit2(f, g, p, r) implies #[trigger] x_left1(f, g, n, i)(p, r) == x_left1(f, g, n, i + 1)(p, r) + b2n(covers2(f, g, (c, n.1), p, r)) by {
        lemma_child_covers(f, n.0, i, c, p);
    }
}
proof fn lemma_x_child2(f: Flatbush, g: Flatbush, n: NPair, i: int, c: FlatbushNode)
    requires fb_wf(f), fb_wf(g), fb_inner(g, n.1), 0 <= i < g.degree, fb_child(g, n.1, i, c)
    ensures forall|p: int, r: int| hit2(f, g, p, r) ==> #[trigger] x_left2(f, g, n, i)(p, r) == x_left2(f, g, n, i + 1)(p, r) + b2n(covers2(f, g, (n.0, c), p, r))
{
    assert forall|p: int, r: int| hit2(f, g, p, r) implies #[trigger] x_left2(f, g, n, i)(p, r) == x_left2(f, g, n, i + 1)(p, r) + b2n(covers2(f, g, (n.0, c), p, r)) by {
        lemma_child_covers(g, n.1, i, c, r);
    }
}
proof fn lemma_x_done1(f: Flatbush, g: Flatbush, ps: Seq<(int, int)>, s: Seq<NPair>, n: NPair)
    requires fb_wf(f), fb_wf(g), fb_inner(f, n.0), x_acc(f, g, ps, s, x_left1(f, g, n, f.degree as int))
    ensures x_acc(f, g, ps, s, x_none())
{
    reveal(x_acc);
    assert forall|p: int, r: int| hit2(f, g, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_none()(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_left1(f, g, n, f.degree as int)(p, r) == 1);
        lemma_anc_range(f, n.0.level - 1, p); lemma_level(f, n.0.level as int); lemma_mod_range(anc(f.degree as int, n.0.level - 1, p), f.degree as int);
    }
}
proof fn lemma_x_done2(f: Flatbush, g: Flatbush, ps: Seq<(int, int)>, s: Seq<NPair>, n: NPair)
    requires fb_wf(f), fb_wf(g), fb_inner(g, n.1), x_acc(f, g, ps, s, x_left2(f, g, n, g.degree as int))
    ensures x_acc(f, g, ps, s, x_none())
{
    reveal(x_acc);
    assert forall|p: int, r: int| hit2(f, g, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_none()(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_left2(f, g, n, g.degree as int)(p, r) == 1);
        lemma_anc_range(g, n.1.level - 1, r); lemma_level(g, n.1.level as int); lemma_mod_range(anc(g.degree as int, n.1.level - 1, r), g.degree as int);
    }
}
#[verifier::opaque]
pub open spec fn x_exact(f: Flatbush, g: Flatbush, res: Seq<(usize, usize)>) -> bool {
    exists|ps: Seq<(int, int)>| #[trigger] x_res(f, g, res, ps) && x_acc(f, g, ps, Seq::empty(), x_none())
}
/// Exactly the pairs of items whose boxes meet, each once.
pub open spec fn is_exact2(res: Seq<(usize, usize)>, a: Seq<Envelope>, b: Seq<Envelope>) -> bool {
    forall|i: usize, j: usize| #[trigger] count_in(res, (i, j)) == b2n(i < a.len() && j < b.len() && env_intersects(a[i as int], b[j as int]))
}
/// Counting by a key that tells the places apart.
proof fn lemma_keys<K>(res: Seq<K>, ps: Seq<(int, int)>, k: K, x: (int, int))
    requires res.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> ((#[trigger] res[i]) == k <==> ps[i] == x)
    ensures count_in(res, k) == count_in(ps, x)
    decreases ps.len()
{
    if ps.len() > 0 {
        let r1 = res.drop_last();
        let p1 = ps.drop_last();
        assert forall|i: int| 0 <= i < p1.len() implies ((#[trigger] r1[i]) == k <==> p1[i] == x) by { assert(r1[i] == res[i]); assert(p1[i] == ps[i]); }
        lemma_keys(r1, p1, k, x);
        assert(res[ps.len() - 1] == k <==> ps[ps.len() - 1] == x);
    }
}
/// The leaf of an item.
pub open spec fn leaf_of(f: Flatbush, items: Seq<Envelope>, i: int, p: int) -> bool { 0 <= p < fb_cap(f, 0) && f.tree@[p] == (i as usize, items[i]) }
proof fn lemma_leaf(f: Flatbush, items: Seq<Envelope>, i: int) -> (p: int)
    requires fb_holds(f, items), 0 <= i < items.len(), !(items[i] is Empty)
    ensures leaf_of(f, items, i, p), i <= usize::MAX ==> forall|r: int| 0 <= r < fb_cap(f, 0) && !((#[trigger] f.tree@[r]).1 is Empty) ==> (f.tree@[r].0 == i <==> r == p)
{
    reveal(fb_holds);
    let p = choose|p: int| 0 <= p < fb_cap(f, 0) && (#[trigger] f.tree@[p]) == (i as usize, items[i]);
    assert(!(f.tree@[p].1 is Empty));
    p
}
proof fn lemma_leaf_item(f: Flatbush, items: Seq<Envelope>, p: int)
    requires fb_holds(f, items), 0 <= p < fb_cap(f, 0), !(f.tree@[p].1 is Empty)
    ensures f.tree@[p].0 < items.len(), items[f.tree@[p].0 as int] == f.tree@[p].1
{ reveal(fb_holds); }
proof fn lemma_exact2(f: Flatbush, g: Flatbush, res: Seq<(usize, usize)>, a: Seq<Envelope>, b: Seq<Envelope>)
    requires x_exact(f, g, res), fb_holds(f, a), fb_holds(g, b)
    ensures is_exact2(res, a, b)
{
    reveal(x_exact); reveal(x_acc); reveal(x_res);
    let ps = choose|ps: Seq<(int, int)>| #[trigger] x_res(f, g, res, ps) && x_acc(f, g, ps, Seq::empty(), x_none());
    assert forall|i: usize, j: usize| #[trigger] count_in(res, (i, j)) == b2n(i < a.len() && j < b.len() && env_intersects(a[i as int], b[j as int])) by {
        if i < a.len() && j < b.len() && env_intersects(a[i as int], b[j as int]) {
            let p = lemma_leaf(f, a, i as int);
            let r = lemma_leaf(g, b, j as int);
            assert(hit2(f, g, p, r));
            assert forall|k: int| 0 <= k < ps.len() implies ((#[trigger] res[k]) == (i, j) <==> ps[k] == (p, r)) by {
                assert(hit2(f, g, ps[k].0, ps[k].1));
                assert(!(f.tree@[ps[k].0].1 is Empty) && !(g.tree@[ps[k].1].1 is Empty));
            }
            lemma_keys(res, ps, (i, j), (p, r));
            assert(count_in(ps, (p, r)) + cnt2(f, g, Seq::<NPair>::empty(), p, r) + x_none()(p, r) == 1);
        } else {
            assert forall|k: int| 0 <= k < res.len() implies #[trigger] res[k] != (i, j) by {
                assert(hit2(f, g, ps[k].0, ps[k].1));
                lemma_leaf_item(f, a, ps[k].0); lemma_leaf_item(g, b, ps[k].1);
            }
            lemma_count_zero(res, (i, j));
        }
    }
}
