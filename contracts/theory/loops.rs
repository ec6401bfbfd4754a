// Two rings against each other: which pairs of edges are looked at, and what their ray crossings add up to.
pub type Key = (NotNan, NotNan);
pub open spec fn key_of(z: P2) -> Key { hkey(mkpos(Ext::Fin(z.0), Ext::Fin(z.1))) }
proof fn lemma_hkey(p: Position) requires pos_finite(p) ensures hkey(p) == key_of(pt(p))
{ assert(p.x == mkc(p.x.v())); assert(p.y == mkc(p.y.v())); }
proof fn lemma_hkey_inj(z: P2, w: P2) requires key_of(z) == key_of(w) ensures z == w
{ assert(hpos(key_of(z)).vx() == Ext::Fin(z.0)); assert(hpos(key_of(z)).vy() == Ext::Fin(z.1)); assert(hpos(key_of(w)).vx() == Ext::Fin(w.0)); assert(hpos(key_of(w)).vy() == Ext::Fin(w.1)); }
// ---- traversal ----------------------------------------------------------------
/// Overlap of the extents in y.
pub open spec fn y_ov(a: Envelope, b: Envelope) -> bool {
    match (a, b) {
        (Envelope::Bounds { min: m1, max: x1 }, Envelope::Bounds { min: m2, max: x2 }) => e_le(m1.vy(), x2.vy()) && e_le(m2.vy(), x1.vy()),
        _ => false,
    }
}
pub open spec fn nice(a: Envelope) -> bool { match a { Envelope::Bounds { min, max } => e_le(min.vx(), max.vx()) && e_le(min.vy(), max.vy()), _ => false } }
pub open spec fn hit3(f: Flatbush, g: Flatbush, p: int, r: int) -> bool {
    0 <= p < fb_cap(f, 0) && 0 <= r < fb_cap(g, 0) && nice(f.tree@[p].1) && nice(g.tree@[r].1) && y_ov(f.tree@[p].1, g.tree@[r].1)
}
pub open spec fn y_push(n: NPair, todo: Seq<NPair>, todo2: Seq<NPair>) -> bool {
    &&& todo2 == todo || (todo2 == todo.push(n) && n.0.envelope is Bounds && n.1.envelope is Bounds)
    &&& nice(n.0.envelope) && nice(n.1.envelope) && y_ov(n.0.envelope, n.1.envelope) ==> todo2 == todo.push(n)
}
pub open spec fn y_pair(f: Flatbush, g: Flatbush, n: NPair) -> bool { fb_live(f, n.0) && fb_live(g, n.1) && n.0.envelope is Bounds && n.1.envelope is Bounds }
#[verifier::opaque]
pub open spec fn y_todo(f: Flatbush, g: Flatbush, s: Seq<NPair>) -> bool { forall|j: int| 0 <= j < s.len() ==> y_pair(f, g, #[trigger] s[j]) }
#[verifier::opaque]
pub open spec fn y_acc(f: Flatbush, g: Flatbush, ps: Seq<(int, int)>, s: Seq<NPair>, rest: spec_fn(int, int) -> int) -> bool {
    forall|p: int, r: int| hit3(f, g, p, r) ==> #[trigger] count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + rest(p, r) == 1
}
pub open spec fn y_leaf(f: Flatbush, p: int) -> bool { 0 <= p < fb_cap(f, 0) && f.tree@[p].1 is Bounds }
#[verifier::opaque]
pub open spec fn y_res(f: Flatbush, g: Flatbush, res: Seq<(usize, usize)>, ps: Seq<(int, int)>) -> bool {
    res.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> y_leaf(f, (#[trigger] ps[i]).0) && y_leaf(g, ps[i].1) && res[i] == (f.tree@[ps[i].0].0, g.tree@[ps[i].1].0)
}
/// What covers a leaf contains its box.
proof fn lemma_nice_up(f: Flatbush, l: int, p: int)
    requires fb_wf(f), 0 <= l <= fb_h(f), 0 <= p < fb_cap(f, 0), nice(fb_env(f, 0, p))
    ensures nice(fb_env(f, l, anc(f.degree as int, l, p))), env_contains(fb_env(f, l, anc(f.degree as int, l, p)), fb_env(f, 0, p))
{
    let e = fb_env(f, 0, p);
    lemma_up(f, l, p, Envelope::Bounds { min: e->min, max: e->min });
    lemma_up(f, l, p, Envelope::Bounds { min: e->max, max: e->max });
}
proof fn lemma_y_up(f: Flatbush, g: Flatbush, n: NPair, p: int, r: int)
    requires fb_wf(f), fb_wf(g), fb_node(f, n.0), fb_node(g, n.1), hit3(f, g, p, r), covers2(f, g, n, p, r)
    ensures nice(n.0.envelope), nice(n.1.envelope), y_ov(n.0.envelope, n.1.envelope)
{
    lemma_nice_up(f, n.0.level as int, p); lemma_nice_up(g, n.1.level as int, r);
}
proof fn lemma_y_push(f: Flatbush, g: Flatbush, n: NPair, d: int, todo: Seq<NPair>, todo2: Seq<NPair>, ps: Seq<(int, int)>, rest: spec_fn(int, int) -> int, rest2: spec_fn(int, int) -> int)
    requires
        fb_wf(f), fb_wf(g), fb_node(f, n.0), fb_node(g, n.1), y_push(n, todo, todo2), d >= 0,
        y_todo(f, g, todo), y_acc(f, g, ps, todo, rest),
        forall|p: int, r: int| hit3(f, g, p, r) ==> #[trigger] rest(p, r) == rest2(p, r) + b2n(covers2(f, g, n, p, r)),
    ensures y_todo(f, g, todo2), y_acc(f, g, ps, todo2, rest2), work2(d, todo2) <= work2(d, todo) + wt(d, n.0.level + n.1.level),
{
    reveal(y_todo); reveal(y_acc);
    lemma_cnt2_push(f, g, todo, n);
    lemma_work2_push(d, todo, n);
    lemma_wt(d, n.0.level + n.1.level);
    if todo2 != todo { lemma_live(f, n.0); lemma_live(g, n.1); }
    assert forall|p: int, r: int| hit3(f, g, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, g, todo2, p, r) + rest2(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, todo, p, r) + rest(p, r) == 1);
        assert(rest(p, r) == rest2(p, r) + b2n(covers2(f, g, n, p, r)));
        if covers2(f, g, n, p, r) { lemma_y_up(f, g, n, p, r); assert(todo2 == todo.push(n)); assert(todo2.len() != todo.len()); }
    }
}
/// At least one item each.
proof fn lemma_y_root(f: Flatbush, n: FlatbushNode, items: Seq<Envelope>)
    requires fb_wf(f), fb_holds(f, items), items.len() > 0, nice(items[0]), fb_node(f, n), n.level == fb_h(f), fb_pos(f, n) == 0
    ensures n.envelope is Bounds, fb_live(f, n)
{
    let p = lemma_leaf(f, items, 0);
    lemma_root_covers(f, n, p);
    lemma_nice_up(f, n.level as int, p);
    lemma_live(f, n);
}
proof fn lemma_y_start(f: Flatbush, g: Flatbush, d: int, n: NPair, a: Seq<Envelope>, b: Seq<Envelope>)
    requires fb_wf(f), fb_wf(g), fb_node(f, n.0), fb_node(g, n.1), d >= 0, fb_holds(f, a), fb_holds(g, b), a.len() > 0, b.len() > 0, nice(a[0]), nice(b[0]),
        fb_pos(f, n.0) == 0, fb_pos(g, n.1) == 0, n.0.level == fb_h(f), n.1.level == fb_h(g),
    ensures y_todo(f, g, Seq::empty().push(n)), y_acc(f, g, Seq::empty(), Seq::empty().push(n), x_none()), y_res(f, g, Seq::empty(), Seq::empty()),
{
    reveal(y_todo); reveal(y_acc); reveal(y_res);
    lemma_y_root(f, n.0, a); lemma_y_root(g, n.1, b);
    lemma_cnt2_push(f, g, Seq::empty(), n);
    assert forall|p: int, r: int| hit3(f, g, p, r) implies #[trigger] count_in(Seq::<(int, int)>::empty(), (p, r)) + cnt2(f, g, Seq::<NPair>::empty().push(n), p, r) + x_none()(p, r) == 1 by {
        lemma_root_covers(f, n.0, p); lemma_root_covers(g, n.1, r);
    }
}
proof fn lemma_y_pop(f: Flatbush, g: Flatbush, d: int, ps: Seq<(int, int)>, s: Seq<NPair>, n: NPair)
    requires fb_wf(f), fb_wf(g), d >= 0, y_todo(f, g, s.push(n)), y_acc(f, g, ps, s.push(n), x_none())
    ensures y_pair(f, g, n), y_todo(f, g, s), y_acc(f, g, ps, s, x_one(f, g, n)),
        n.0.level >= 1 ==> y_acc(f, g, ps, s, x_left1(f, g, n, 0)),
        n.1.level >= 1 ==> y_acc(f, g, ps, s, x_left2(f, g, n, 0)),
        n.0.level + n.1.level >= 1 ==> work2(d, s.push(n)) == work2(d, s) + d * wt(d, n.0.level + n.1.level - 1) + 1,
        work2(d, s.push(n)) >= work2(d, s) + 1,
        work2(d, s) >= 0,
{
    reveal(y_todo); reveal(y_acc);
    let t = s.push(n);
    assert(y_pair(f, g, t[s.len() as int]));
    assert forall|j: int| 0 <= j < s.len() implies y_pair(f, g, #[trigger] s[j]) by { assert(y_pair(f, g, t[j])); }
    lemma_cnt2_push(f, g, s, n);
    lemma_work2_push(d, s, n);
    lemma_work2(d, s);
    lemma_wt(d, n.0.level + n.1.level);
    assert forall|p: int, r: int| hit3(f, g, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_one(f, g, n)(p, r) == 1
        && (n.0.level >= 1 ==> x_left1(f, g, n, 0)(p, r) == x_one(f, g, n)(p, r)) && (n.1.level >= 1 ==> x_left2(f, g, n, 0)(p, r) == x_one(f, g, n)(p, r)) by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, t, p, r) + x_none()(p, r) == 1);
        if n.0.level >= 1 { lemma_anc_range(f, n.0.level - 1, p); lemma_level(f, n.0.level as int); lemma_mod_range(anc(f.degree as int, n.0.level - 1, p), f.degree as int); }
        if n.1.level >= 1 { lemma_anc_range(g, n.1.level - 1, r); lemma_level(g, n.1.level as int); lemma_mod_range(anc(g.degree as int, n.1.level - 1, r), g.degree as int); }
    }
}
proof fn lemma_y_leaf(f: Flatbush, g: Flatbush, ps: Seq<(int, int)>, s: Seq<NPair>, n: NPair, res: Seq<(usize, usize)>)
    requires fb_wf(f), fb_wf(g), y_pair(f, g, n), n.0.level == 0, n.1.level == 0, y_acc(f, g, ps, s, x_one(f, g, n)), y_res(f, g, res, ps)
    ensures
        y_acc(f, g, ps.push((n.0.tree_index as int, n.1.tree_index as int)), s, x_none()),
        y_res(f, g, res.push((n.0.sibling_index, n.1.sibling_index)), ps.push((n.0.tree_index as int, n.1.tree_index as int))),
{
    reveal(y_acc); reveal(y_res);
    let x = (n.0.tree_index as int, n.1.tree_index as int);
    lemma_count_push(ps, x);
    assert forall|p: int, r: int| hit3(f, g, p, r) implies #[trigger] count_in(ps.push(x), (p, r)) + cnt2(f, g, s, p, r) + x_none()(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_one(f, g, n)(p, r) == 1);
    }
    let ps2 = ps.push(x);
    assert forall|i: int| 0 <= i < ps2.len() implies y_leaf(f, (#[trigger] ps2[i]).0) && y_leaf(g, ps2[i].1) && res.push((n.0.sibling_index, n.1.sibling_index))[i] == (f.tree@[ps2[i].0].0, g.tree@[ps2[i].1].0) by {
        if i < ps.len() { assert(ps2[i] == ps[i]); assert(y_leaf(f, ps[i].0)); }
    }
}
proof fn lemma_y_child1(f: Flatbush, g: Flatbush, n: NPair, i: int, c: FlatbushNode)
    requires fb_wf(f), fb_wf(g), fb_inner(f, n.0), 0 <= i < f.degree, fb_child(f, n.0, i, c)
    ensures forall|p: int, r: int| hit3(f, g, p, r) ==> #[trigger] x_left1(f, g, n, i)(p, r) == x_left1(f, g, n, i + 1)(p, r) + b2n(covers2(f, g, (c, n.1), p, r))
{
    assert forall|p: int, r: int| hit3(f, g, p, r) implies #[trigger] x_left1(f, g, n, i)(p, r) == x_left1(f, g, n, i + 1)(p, r) + b2n(covers2(f, g, (c, n.1), p, r)) by {
        lemma_child_covers(f, n.0, i, c, p);
    }
}
proof fn lemma_y_child2(f: Flatbush, g: Flatbush, n: NPair, i: int, c: FlatbushNode)
    requires fb_wf(f), fb_wf(g), fb_inner(g, n.1), 0 <= i < g.degree, fb_child(g, n.1, i, c)
    ensures forall|p: int, r: int| hit3(f, g, p, r) ==> #[trigger] x_left2(f, g, n, i)(p, r) == x_left2(f, g, n, i + 1)(p, r) + b2n(covers2(f, g, (n.0, c), p, r))
{
    assert forall|p: int, r: int| hit3(f, g, p, r) implies #[trigger] x_left2(f, g, n, i)(p, r) == x_left2(f, g, n, i + 1)(p, r) + b2n(covers2(f, g, (n.0, c), p, r)) by {
        lemma_child_covers(g, n.1, i, c, r);
    }
}
proof fn lemma_y_done1(f: Flatbush, g: Flatbush, ps: Seq<(int, int)>, s: Seq<NPair>, n: NPair)
    requires fb_wf(f), fb_wf(g), fb_inner(f, n.0), y_acc(f, g, ps, s, x_left1(f, g, n, f.degree as int))
    ensures y_acc(f, g, ps, s, x_none())
{
    reveal(y_acc);
    assert forall|p: int, r: int| hit3(f, g, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_none()(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_left1(f, g, n, f.degree as int)(p, r) == 1);
        lemma_anc_range(f, n.0.level - 1, p); lemma_level(f, n.0.level as int); lemma_mod_range(anc(f.degree as int, n.0.level - 1, p), f.degree as int);
    }
}
proof fn lemma_y_done2(f: Flatbush, g: Flatbush, ps: Seq<(int, int)>, s: Seq<NPair>, n: NPair)
    requires fb_wf(f), fb_wf(g), fb_inner(g, n.1), y_acc(f, g, ps, s, x_left2(f, g, n, g.degree as int))
    ensures y_acc(f, g, ps, s, x_none())
{
    reveal(y_acc);
    assert forall|p: int, r: int| hit3(f, g, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_none()(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_left2(f, g, n, g.degree as int)(p, r) == 1);
        lemma_anc_range(g, n.1.level - 1, r); lemma_level(g, n.1.level as int); lemma_mod_range(anc(g.degree as int, n.1.level - 1, r), g.degree as int);
    }
}
/// Pairs that overlap in y occur at most once; in the end, once.
pub open spec fn y_hit(a: Seq<Envelope>, b: Seq<Envelope>, i: int, j: int) -> bool { nice(a[i]) && nice(b[j]) && y_ov(a[i], b[j]) }
#[verifier::opaque]
pub open spec fn y_once(res: Seq<(usize, usize)>, a: Seq<Envelope>, b: Seq<Envelope>) -> bool {
    forall|i: usize, j: usize| i < a.len() && j < b.len() && y_hit(a, b, i as int, j as int) ==> #[trigger] count_in(res, (i, j)) <= 1
}
#[verifier::opaque]
pub open spec fn y_all(res: Seq<(usize, usize)>, a: Seq<Envelope>, b: Seq<Envelope>) -> bool {
    forall|i: usize, j: usize| i < a.len() && j < b.len() && y_hit(a, b, i as int, j as int) ==> #[trigger] count_in(res, (i, j)) == 1
}
/// Only items.
#[verifier::opaque]
pub open spec fn y_in(res: Seq<(usize, usize)>, n: int, m: int) -> bool { forall|k: int| 0 <= k < res.len() ==> (#[trigger] res[k]).0 < n && res[k].1 < m }
proof fn lemma_cnt2_nonneg(f: Flatbush, g: Flatbush, s: Seq<NPair>, p: int, r: int) ensures cnt2(f, g, s, p, r) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_cnt2_nonneg(f, g, s.drop_last(), p, r); } }
proof fn lemma_y_state(f: Flatbush, g: Flatbush, res: Seq<(usize, usize)>, ps: Seq<(int, int)>, s: Seq<NPair>, a: Seq<Envelope>, b: Seq<Envelope>)
    requires fb_holds(f, a), fb_holds(g, b), y_res(f, g, res, ps), y_acc(f, g, ps, s, x_none())
    ensures y_once(res, a, b), y_in(res, a.len() as int, b.len() as int), s.len() == 0 ==> y_all(res, a, b)
{
    reveal(y_once); reveal(y_all); reveal(y_in); reveal(y_res); reveal(y_acc);
    assert forall|k: int| 0 <= k < res.len() implies (#[trigger] res[k]).0 < a.len() && res[k].1 < b.len() by {
        assert(y_leaf(f, ps[k].0) && y_leaf(g, ps[k].1));
        lemma_leaf_item(f, a, ps[k].0); lemma_leaf_item(g, b, ps[k].1);
    }
    assert forall|i: usize, j: usize| i < a.len() && j < b.len() && y_hit(a, b, i as int, j as int) implies #[trigger] count_in(res, (i, j)) <= 1 && (s.len() == 0 ==> count_in(res, (i, j)) == 1) by {
        let p = lemma_leaf(f, a, i as int);
        let r = lemma_leaf(g, b, j as int);
        assert(hit3(f, g, p, r));
        assert forall|k: int| 0 <= k < ps.len() implies ((#[trigger] res[k]) == (i, j) <==> ps[k] == (p, r)) by {
            assert(y_leaf(f, ps[k].0) && y_leaf(g, ps[k].1));
        }
        lemma_keys(res, ps, (i, j), (p, r));
        assert(count_in(ps, (p, r)) + cnt2(f, g, s, p, r) + x_none()(p, r) == 1);
        lemma_cnt2_nonneg(f, g, s, p, r);
    }
}
// ---- rings ------------------------------------------------------------------
pub open spec fn ring_ok(l: LineString) -> bool { ls_boxed(l) && is_chain(l.positions@) && ls_closed(l.positions@) && l.positions@.len() <= 0x7fff_ffff }
// ---- counting crossings -------------------------------------------------------
/// Pairs (i, j) of res whose j-th edge the ray from p meets.
pub open spec fn wsum(p: P2, r: Seq<P2>, res: Seq<(usize, usize)>, i: int) -> int decreases res.len()
{ if res.len() == 0 { 0 } else { wsum(p, r, res.drop_last(), i) + b2n(res.last().0 == i && cr(p, r[res.last().1 as int], r[res.last().1 + 1])) } }
pub open spec fn csum(p: P2, r: Seq<P2>, res: Seq<(usize, usize)>, i: int, n: int) -> int decreases n
{ if n <= 0 { 0 } else { csum(p, r, res, i, n - 1) + (if cr(p, r[n - 1], r[n]) { count_in(res, (i as usize, (n - 1) as usize)) as int } else { 0 }) } }
proof fn lemma_csum_push(p: P2, r: Seq<P2>, res: Seq<(usize, usize)>, x: (usize, usize), i: int, n: int)
    requires 0 <= i <= usize::MAX, n <= usize::MAX
    ensures csum(p, r, res.push(x), i, n) == csum(p, r, res, i, n) + b2n(x.0 == i && x.1 < n && cr(p, r[x.1 as int], r[x.1 + 1]))
    decreases n
{
    if n > 0 { lemma_csum_push(p, r, res, x, i, n - 1); lemma_count_push(res, x); assert(count_in(res.push(x), (i as usize, (n - 1) as usize)) == count_in(res, (i as usize, (n - 1) as usize)) + b2n(x == (i as usize, (n - 1) as usize))); }
}
proof fn lemma_csum_empty(p: P2, r: Seq<P2>, i: int, n: int) ensures csum(p, r, Seq::empty(), i, n) == 0 decreases n
{ if n > 0 { lemma_csum_empty(p, r, i, n - 1); } }
proof fn lemma_wsum(p: P2, r: Seq<P2>, res: Seq<(usize, usize)>, i: int, m: int)
    requires 0 <= i <= usize::MAX, y_in(res, m, r.len() - 1), r.len() <= usize::MAX
    ensures wsum(p, r, res, i) == csum(p, r, res, i, r.len() - 1)
    decreases res.len()
{
    let n = r.len() - 1;
    if res.len() == 0 { assert(res =~= Seq::empty()); lemma_csum_empty(p, r, i, n); }
    else {
        let h = res.drop_last();
        assert(y_in(h, m, n)) by { reveal(y_in); assert forall|k: int| 0 <= k < h.len() implies (#[trigger] h[k]).0 < m && h[k].1 < n by { assert(h[k] == res[k]); } }
        lemma_wsum(p, r, h, i, m);
        assert(h.push(res.last()) =~= res);
        lemma_csum_push(p, r, h, res.last(), i, n);
        assert(res.last().1 < n) by { reveal(y_in); assert(res[res.len() - 1].1 < n); }
    }
}
proof fn lemma_wsum_push(p: P2, r: Seq<P2>, res: Seq<(usize, usize)>, x: (usize, usize), i: int)
    ensures wsum(p, r, res.push(x), i) == wsum(p, r, res, i) + b2n(x.0 == i && cr(p, r[x.1 as int], r[x.1 + 1]))
{ assert(res.push(x).drop_last() =~= res); }
proof fn lemma_crn_le(r: Seq<P2>, p: P2, n: int) requires n >= 0 ensures crn(r, p, n) <= n decreases n
{ if n > 0 { lemma_crn_le(r, p, n - 1); } }
/// The i-th edge of s and an edge of t that the ray from its start meets overlap in y.
proof fn lemma_cr_hit(s: Seq<Position>, t: Seq<Position>, i: int, j: int)
    requires all_finite(s), all_finite(t), 0 <= i < s.len() - 1, 0 <= j < t.len() - 1, cr(rp(s)[i], rp(t)[j], rp(t)[j + 1])
    ensures y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i, j)
{
    assert(pos_finite(s[i]) && pos_finite(s[i + 1]) && pos_finite(t[j]) && pos_finite(t[j + 1]));
    assert(envs(ls_segs(s))[i] == env_new(s[i], s[i + 1]));
    assert(envs(ls_segs(t))[j] == env_new(t[j], t[j + 1]));
}
/// So do edges with a common point, or a common height.
proof fn lemma_height_hit(s: Seq<Position>, t: Seq<Position>, i: int, j: int, y: real)
    requires all_finite(s), all_finite(t), 0 <= i < s.len() - 1, 0 <= j < t.len() - 1, in_y(y, rp(s)[i], rp(s)[i + 1]), in_y(y, rp(t)[j], rp(t)[j + 1])
    ensures y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i, j)
{
    assert(pos_finite(s[i]) && pos_finite(s[i + 1]) && pos_finite(t[j]) && pos_finite(t[j + 1]));
    assert(envs(ls_segs(s))[i] == env_new(s[i], s[i + 1]));
    assert(envs(ls_segs(t))[j] == env_new(t[j], t[j + 1]));
}
proof fn lemma_meet_hit(s: Seq<Position>, t: Seq<Position>, i: int, j: int, z: P2)
    requires all_finite(s), all_finite(t), 0 <= i < s.len() - 1, 0 <= j < t.len() - 1, on2(rp(s)[i], rp(s)[i + 1], z), on2(rp(t)[j], rp(t)[j + 1], z)
    ensures y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i, j)
{ lemma_on_at(rp(s)[i], rp(s)[i + 1], z); lemma_on_at(rp(t)[j], rp(t)[j + 1], z); lemma_height_hit(s, t, i, j, z.1); }
proof fn lemma_once(s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>, i: int, n: int, all: bool)
    requires all_finite(s), all_finite(t), 0 <= i < s.len() - 1, n <= t.len() - 1, s.len() <= usize::MAX, t.len() <= usize::MAX,
        y_once(res, envs(ls_segs(s)), envs(ls_segs(t))), all ==> y_all(res, envs(ls_segs(s)), envs(ls_segs(t))), n >= 0
    ensures csum(rp(s)[i], rp(t), res, i, n) <= crn(rp(t), rp(s)[i], n), all ==> csum(rp(s)[i], rp(t), res, i, n) == crn(rp(t), rp(s)[i], n)
    decreases n
{
    if n > 0 {
        lemma_once(s, t, res, i, n - 1, all);
        if cr(rp(s)[i], rp(t)[n - 1], rp(t)[n]) {
            lemma_cr_hit(s, t, i, n - 1);
            reveal(y_once); reveal(y_all);
            let a = i as usize;
            let b = (n - 1) as usize;
            assert(count_in(res, (a, b)) <= 1);
            if all { assert(count_in(res, (a, b)) == 1); }
        }
    }
}
// ---- crossing sums per vertex ---------------------------------------------------
pub open spec fn wval(m: Map<Key, i32>, h: Key) -> int { if m.dom().contains(h) { m[h] as int } else { 0 } }
/// The sum kept for the i-th vertex p.
pub open spec fn wn_at(m: Map<Key, i32>, p: P2, r: Seq<P2>, res: Seq<(usize, usize)>, i: int) -> bool {
    let w = wsum(p, r, res, i);
    let v = wval(m, key_of(p));
    &&& 0 - w <= v <= w && v % 2 == w % 2
    &&& forall|k: int| 0 <= k < res.len() && (#[trigger] res[k]).0 == i && !on2(r[res[k].1 as int], r[res[k].1 + 1], p) ==> m.dom().contains(key_of(p))
}
#[verifier::opaque]
pub open spec fn wn_ok(m: Map<Key, i32>, s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>) -> bool {
    &&& forall|h: Key| #[trigger] m.dom().contains(h) ==> is_vkey(s, h)
    &&& forall|i: int| 0 <= i < s.len() - 1 ==> wn_at(m, #[trigger] s[i], r, res, i)
}
#[verifier::opaque]
pub open spec fn is_vkey(s: Seq<P2>, h: Key) -> bool { exists|i: int| 0 <= i < s.len() - 1 && key_of(#[trigger] s[i]) == h }
proof fn lemma_wn_start(m: Map<Key, i32>, s: Seq<P2>, r: Seq<P2>) requires m == Map::<Key, i32>::empty() ensures wn_ok(m, s, r, Seq::empty())
{ reveal(wn_ok); }
proof fn lemma_on_no_cr(p: P2, a: P2, b: P2) requires on2(a, b, p) ensures !cr(p, a, b)
{ lemma_on_at(a, b, p); }
/// The pair adds nothing: the vertex lies on the edge.
proof fn lemma_wn_skip(m: Map<Key, i32>, s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>, x: (usize, usize))
    requires wn_ok(m, s, r, res), x.0 < s.len() - 1, x.1 < r.len() - 1, on2(r[x.1 as int], r[x.1 + 1], s[x.0 as int])
    ensures wn_ok(m, s, r, res.push(x))
{
    reveal(wn_ok);
    lemma_on_no_cr(s[x.0 as int], r[x.1 as int], r[x.1 + 1]);
    let res2 = res.push(x);
    assert forall|i: int| 0 <= i < s.len() - 1 implies wn_at(m, #[trigger] s[i], r, res2, i) by {
        assert(wn_at(m, s[i], r, res, i));
        lemma_wsum_push(s[i], r, res, x, i);
        assert forall|k: int| 0 <= k < res2.len() && (#[trigger] res2[k]).0 == i && !on2(r[res2[k].1 as int], r[res2[k].1 + 1], s[i]) implies m.dom().contains(key_of(s[i])) by {
            if k < res.len() { assert(res2[k] == res[k]); }
        }
    }
}
proof fn lemma_wn_same(m: Map<Key, i32>, m2: Map<Key, i32>, p: P2, r: Seq<P2>, res: Seq<(usize, usize)>, x: (usize, usize), d: int, v2: i32)
    requires wn_at(m, p, r, res, x.0 as int), -1 <= d <= 1, d != 0 <==> cr(p, r[x.1 as int], r[x.1 + 1]),
        v2 == wval(m, key_of(p)) + d, m2 == m.insert(key_of(p), v2)
    ensures wn_at(m2, p, r, res.push(x), x.0 as int)
{
    let h = key_of(p);
    lemma_wsum_push(p, r, res, x, x.0 as int);
    assert(m2.dom().contains(h) && m2[h] == v2);
}
proof fn lemma_wn_other(m: Map<Key, i32>, m2: Map<Key, i32>, p: P2, r: Seq<P2>, res: Seq<(usize, usize)>, x: (usize, usize), h0: Key, v2: i32, i: int)
    requires wn_at(m, p, r, res, i), i != x.0, key_of(p) != h0, m2 == m.insert(h0, v2)
    ensures wn_at(m2, p, r, res.push(x), i)
{
    let h = key_of(p);
    let res2 = res.push(x);
    lemma_wsum_push(p, r, res, x, i);
    assert(m2.dom().contains(h) == m.dom().contains(h));
    assert(m.dom().contains(h) ==> m2[h] == m[h]);
    assert(wval(m2, h) == wval(m, h));
    assert forall|k: int| 0 <= k < res2.len() && (#[trigger] res2[k]).0 == i && !on2(r[res2[k].1 as int], r[res2[k].1 + 1], p) implies m2.dom().contains(h) by {
        assert(k < res.len());
        assert(res2[k] == res[k]);
    }
}
proof fn lemma_wn_step(m: Map<Key, i32>, m2: Map<Key, i32>, s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>, x: (usize, usize), d: int, v2: i32)
    requires wn_ok(m, s, r, res), x.0 < s.len() - 1, x.1 < r.len() - 1, simple_ring(s), -1 <= d <= 1,
        d != 0 <==> cr(s[x.0 as int], r[x.1 as int], r[x.1 + 1]),
        v2 == wval(m, key_of(s[x.0 as int])) + d, m2 == m.insert(key_of(s[x.0 as int]), v2)
    ensures wn_ok(m2, s, r, res.push(x))
{
    let i0 = x.0 as int;
    let h0 = key_of(s[i0]);
    lemma_wn_keys(m, m2, s, r, res, i0, v2);
    assert forall|i: int| 0 <= i < s.len() - 1 implies wn_at(m2, #[trigger] s[i], r, res.push(x), i) by {
        lemma_wn_get(m, s, r, res, i);
        if i == i0 { lemma_wn_same(m, m2, s[i], r, res, x, d, v2); }
        else {
            if key_of(s[i]) == h0 { lemma_hkey_inj(s[i], s[i0]); lemma_distinct(s, i, i0); }
            lemma_wn_other(m, m2, s[i], r, res, x, h0, v2, i);
        }
    }
    reveal(wn_ok);
}
proof fn lemma_wn_get(m: Map<Key, i32>, s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>, i: int) requires wn_ok(m, s, r, res), 0 <= i < s.len() - 1 ensures wn_at(m, s[i], r, res, i)
{ reveal(wn_ok); }
proof fn lemma_wn_keys(m: Map<Key, i32>, m2: Map<Key, i32>, s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>, i0: int, v2: i32)
    requires wn_ok(m, s, r, res), 0 <= i0 < s.len() - 1, m2 == m.insert(key_of(s[i0]), v2)
    ensures forall|h: Key| #[trigger] m2.dom().contains(h) ==> is_vkey(s, h)
{
    assert forall|h: Key| #[trigger] m2.dom().contains(h) implies is_vkey(s, h) by {
        if h == key_of(s[i0]) { reveal(is_vkey); } else { assert(m.dom().contains(h)); reveal(wn_ok); }
    }
}
/// The sums stay small.
proof fn lemma_wn_bound(m: Map<Key, i32>, s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>, i: int)
    requires wn_ok(m, rp(s), rp(t), res), all_finite(s), all_finite(t), 0 <= i < s.len() - 1, s.len() <= 0x7fff_ffff, 2 <= t.len() <= 0x7fff_ffff, y_in(res, s.len() - 1, t.len() - 1),
        y_once(res, envs(ls_segs(s)), envs(ls_segs(t)))
    ensures -0x7fff_fffe <= wval(m, key_of(rp(s)[i])) <= 0x7fff_fffe
{
    reveal(wn_ok);
    let p = rp(s)[i];
    assert(wn_at(m, rp(s)[i], rp(t), res, i));
    lemma_wsum(p, rp(t), res, i, s.len() - 1);
    lemma_once(s, t, res, i, t.len() - 1, false);
    lemma_crn_le(rp(t), p, t.len() - 1);
}
// ---- the other ring's half ------------------------------------------------------
pub open spec fn swap(res: Seq<(usize, usize)>) -> Seq<(usize, usize)> { Seq::new(res.len(), |k: int| (res[k].1, res[k].0)) }
proof fn lemma_swap_push(res: Seq<(usize, usize)>, x: (usize, usize)) ensures swap(res.push(x)) == swap(res).push((x.1, x.0))
{ assert(swap(res.push(x)) =~= swap(res).push((x.1, x.0))); }
proof fn lemma_swap_count(res: Seq<(usize, usize)>, i: usize, j: usize) ensures count_in(swap(res), (j, i)) == count_in(res, (i, j)) decreases res.len()
{ if res.len() > 0 { lemma_swap_count(res.drop_last(), i, j); assert(swap(res).drop_last() =~= swap(res.drop_last())); } }
proof fn lemma_swap(res: Seq<(usize, usize)>, a: Seq<Envelope>, b: Seq<Envelope>)
    ensures y_once(res, a, b) ==> y_once(swap(res), b, a), y_all(res, a, b) ==> y_all(swap(res), b, a), forall|n: int, m: int| y_in(res, n, m) ==> #[trigger] y_in(swap(res), m, n)
{
    reveal(y_once); reveal(y_all); reveal(y_in);
    assert forall|i: usize, j: usize| #[trigger] count_in(swap(res), (i, j)) == count_in(res, (j, i)) by { lemma_swap_count(res, j, i); }
    assert forall|n: int, m: int| y_in(res, n, m) implies #[trigger] y_in(swap(res), m, n) by {
        assert forall|k: int| 0 <= k < swap(res).len() implies (#[trigger] swap(res)[k]).0 < m && swap(res)[k].1 < n by { assert(res[k].0 < n && res[k].1 < m); }
    }
}
// ---- common points ----------------------------------------------------------------
/// Exactly the common points found so far.
#[verifier::opaque]
pub open spec fn bd_ok(b: Set<Key>, s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>) -> bool {
    &&& forall|h: Key| #[trigger] b.contains(h) ==> exists|z: P2| on_r(s, z) && on_r(r, z) && #[trigger] key_of(z) == h
    &&& forall|k: int, z: P2| 0 <= k < res.len() && #[trigger] meet2(s[res[k].0 as int], s[res[k].0 + 1], r[res[k].1 as int], r[res[k].1 + 1], z) ==> b.contains(key_of(z))
}
proof fn lemma_bd_start(b: Set<Key>, s: Seq<P2>, r: Seq<P2>) requires b == Set::<Key>::empty() ensures bd_ok(b, s, r, Seq::empty())
{ reveal(bd_ok); }
proof fn lemma_bd_none(b: Set<Key>, s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>, x: (usize, usize))
    requires bd_ok(b, s, r, res), apart2(s[x.0 as int], s[x.0 + 1], r[x.1 as int], r[x.1 + 1]) ensures bd_ok(b, s, r, res.push(x))
{
    reveal(bd_ok); reveal(apart2);
    let res2 = res.push(x);
    assert forall|k: int, z: P2| 0 <= k < res2.len() && #[trigger] meet2(s[res2[k].0 as int], s[res2[k].0 + 1], r[res2[k].1 as int], r[res2[k].1 + 1], z) implies b.contains(key_of(z)) by {
        if k < res.len() { assert(res2[k] == res[k]); assert(meet2(s[res[k].0 as int], s[res[k].0 + 1], r[res[k].1 as int], r[res[k].1 + 1], z)); }
    }
}
pub open spec fn one_pt(p: P2, q: P2, a: P2, b: P2, c: P2) -> bool { meet2(p, q, a, b, c) && forall|z: P2| #[trigger] meet2(p, q, a, b, z) ==> z == c }
proof fn lemma_bd_one(b: Set<Key>, b2: Set<Key>, s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>, x: (usize, usize), c: P2)
    requires bd_ok(b, s, r, res), x.0 < s.len() - 1, x.1 < r.len() - 1, one_pt(s[x.0 as int], s[x.0 + 1], r[x.1 as int], r[x.1 + 1], c), b2 == b.insert(key_of(c))
    ensures bd_ok(b2, s, r, res.push(x))
{
    reveal(bd_ok);
    let res2 = res.push(x);
    lemma_on_r(s, x.0 as int, c); lemma_on_r(r, x.1 as int, c);
    assert forall|h: Key| #[trigger] b2.contains(h) implies exists|z: P2| on_r(s, z) && on_r(r, z) && #[trigger] key_of(z) == h by {
        if h == key_of(c) { } else { assert(b.contains(h)); }
    }
    assert forall|k: int, z: P2| 0 <= k < res2.len() && #[trigger] meet2(s[res2[k].0 as int], s[res2[k].0 + 1], r[res2[k].1 as int], r[res2[k].1 + 1], z) implies b2.contains(key_of(z)) by {
        if k < res.len() { assert(res2[k] == res[k]); assert(meet2(s[res[k].0 as int], s[res[k].0 + 1], r[res[k].1 as int], r[res[k].1 + 1], z)); }
    }
}
proof fn lemma_bd_swap(b: Set<Key>, s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>) requires bd_ok(b, s, r, res) ensures bd_ok(b, r, s, swap(res))
{
    reveal(bd_ok);
    let w = swap(res);
    assert forall|h: Key| #[trigger] b.contains(h) implies exists|z: P2| on_r(r, z) && on_r(s, z) && #[trigger] key_of(z) == h by { }
    assert forall|k: int, z: P2| 0 <= k < w.len() && #[trigger] meet2(r[w[k].0 as int], r[w[k].0 + 1], s[w[k].1 as int], s[w[k].1 + 1], z) implies b.contains(key_of(z)) by {
        assert(meet2(s[res[k].0 as int], s[res[k].0 + 1], r[res[k].1 as int], r[res[k].1 + 1], z));
    }
}
// ---- edges that overlap or cross ----------------------------------------------------
/// Two common points, or one that is an end of neither.
#[verifier::opaque]
pub open spec fn bad_pair(p: P2, q: P2, a: P2, b: P2) -> bool {
    (exists|z: P2, w: P2| z != w && #[trigger] meet2(p, q, a, b, z) && #[trigger] meet2(p, q, a, b, w)) || (exists|c: P2| #[trigger] meet2(p, q, a, b, c) && cross2(p, q, a, b, c))
}
pub open spec fn rings_bad(s: Seq<P2>, r: Seq<P2>) -> bool { exists|i: int, j: int| 0 <= i < s.len() - 1 && 0 <= j < r.len() - 1 && bad_pair(s[i], s[i + 1], #[trigger] r[j], r[j + 1]) && #[trigger] idx(i) }
pub open spec fn idx(i: int) -> bool { true }
#[verifier::opaque]
pub open spec fn no_bad(s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>) -> bool {
    forall|k: int| 0 <= k < res.len() ==> !bad_pair(s[(#[trigger] res[k]).0 as int], s[res[k].0 + 1], r[res[k].1 as int], r[res[k].1 + 1])
}
proof fn lemma_no_bad_push(s: Seq<P2>, r: Seq<P2>, res: Seq<(usize, usize)>, x: (usize, usize))
    requires no_bad(s, r, res), !bad_pair(s[x.0 as int], s[x.0 + 1], r[x.1 as int], r[x.1 + 1]) ensures no_bad(s, r, res.push(x))
{
    reveal(no_bad);
    let res2 = res.push(x);
    assert forall|k: int| 0 <= k < res2.len() implies !bad_pair(s[(#[trigger] res2[k]).0 as int], s[res2[k].0 + 1], r[res2[k].1 as int], r[res2[k].1 + 1]) by { if k < res.len() { assert(res2[k] == res[k]); } }
}
proof fn lemma_bad_not1(s: Seq<P2>, r: Seq<P2>, i: int, j: int)
    requires simple_ring(s), simple_ring(r), 0 <= i < s.len() - 1, 0 <= j < r.len() - 1, bad_pair(s[i], s[i + 1], r[j], r[j + 1])
    ensures !share1(s, r), rings_bad(s, r)
{
    assert(idx(i));
    if share1(s, r) {
        reveal(bad_pair);
        lemma_share1_sym(s, r);
        if exists|z: P2, w: P2| z != w && #[trigger] meet2(s[i], s[i + 1], r[j], r[j + 1], z) && #[trigger] meet2(s[i], s[i + 1], r[j], r[j + 1], w) {
            let (z, w) = choose|z: P2, w: P2| z != w && #[trigger] meet2(s[i], s[i + 1], r[j], r[j + 1], z) && #[trigger] meet2(s[i], s[i + 1], r[j], r[j + 1], w);
            lemma_on_r(s, i, z); lemma_on_r(r, j, z); lemma_on_r(s, i, w); lemma_on_r(r, j, w);
            lemma_share1(s, r, z, w);
        } else {
            let c = choose|c: P2| #[trigger] meet2(s[i], s[i + 1], r[j], r[j + 1], c) && cross2(s[i], s[i + 1], r[j], r[j + 1], c);
            lemma_no_cross(r, s, j, i, c);
        }
    }
}
/// The pair of edges has been looked at.
proof fn lemma_seen(s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>, i: int, j: int) -> (k: int)
    requires y_all(res, envs(ls_segs(s)), envs(ls_segs(t))), 0 <= i < s.len() - 1, 0 <= j < t.len() - 1, s.len() <= usize::MAX, t.len() <= usize::MAX, y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i, j)
    ensures 0 <= k < res.len(), res[k] == (i as usize, j as usize)
{
    reveal(y_all);
    let a = i as usize;
    let b = j as usize;
    assert(count_in(res, (a, b)) == 1);
    if forall|k: int| 0 <= k < res.len() ==> #[trigger] res[k] != (a, b) { lemma_count_zero(res, (a, b)); }
    choose|k: int| 0 <= k < res.len() && #[trigger] res[k] == (a, b)
}
proof fn lemma_none_bad(s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>)
    requires y_all(res, envs(ls_segs(s)), envs(ls_segs(t))), no_bad(rp(s), rp(t), res), all_finite(s), all_finite(t), s.len() <= usize::MAX, t.len() <= usize::MAX
    ensures !rings_bad(rp(s), rp(t))
{
    let a = rp(s);
    let b = rp(t);
    if rings_bad(a, b) {
        let (i, j) = choose|i: int, j: int| 0 <= i < a.len() - 1 && 0 <= j < b.len() - 1 && bad_pair(a[i], a[i + 1], #[trigger] b[j], b[j + 1]) && #[trigger] idx(i);
        reveal(bad_pair);
        let z = choose|z: P2| #[trigger] meet2(a[i], a[i + 1], b[j], b[j + 1], z);
        assert(meet2(a[i], a[i + 1], b[j], b[j + 1], z));
        lemma_meet_hit(s, t, i, j, z);
        let k = lemma_seen(s, t, res, i, j);
        reveal(no_bad);
        assert(!bad_pair(a[res[k].0 as int], a[res[k].0 + 1], b[res[k].1 as int], b[res[k].1 + 1]));
    }
}
// ---- which side ------------------------------------------------------------------------
pub open spec fn par_key(m: Map<Key, i32>, b: Set<Key>, h: Key, even: bool) -> bool { m.dom().contains(h) && !b.contains(h) && (m[h] as int % 2 == 0) == even }
#[verifier::opaque]
pub open spec fn has_par(m: Map<Key, i32>, b: Set<Key>, even: bool) -> bool { exists|h: Key| #[trigger] par_key(m, b, h, even) }
proof fn lemma_par_key(s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>, m: Map<Key, i32>, b: Set<Key>, h: Key, even: bool)
    requires y_once(res, envs(ls_segs(s)), envs(ls_segs(t))), y_all(res, envs(ls_segs(s)), envs(ls_segs(t))), y_in(res, s.len() - 1, t.len() - 1), all_finite(s), all_finite(t), s.len() <= 0x7fff_ffff, 4 <= t.len() <= 0x7fff_ffff,
        wn_ok(m, rp(s), rp(t), res), bd_ok(b, rp(s), rp(t), res), par_key(m, b, h, even)
    ensures exists|i: int| 0 <= i < s.len() - 1 && !on_r(rp(t), #[trigger] rp(s)[i]) && inside2(rp(t), rp(s)[i]) == !even
{
    let a = rp(s);
    let r = rp(t);
    assert(is_vkey(a, h)) by { reveal(wn_ok); }
    reveal(is_vkey);
    let i = choose|i: int| 0 <= i < a.len() - 1 && key_of(#[trigger] a[i]) == h;
    if on_r(r, a[i]) {
        reveal(on_r);
        let j = choose|j: int| 0 <= j < r.len() - 1 && on2(#[trigger] r[j], r[j + 1], a[i]);
        lemma_ends2(a[i], a[i + 1]);
        lemma_meet_hit(s, t, i, j, a[i]);
        let k = lemma_seen(s, t, res, i, j);
        reveal(bd_ok);
        assert(meet2(a[res[k].0 as int], a[res[k].0 + 1], r[res[k].1 as int], r[res[k].1 + 1], a[i]));
    }
    reveal(wn_ok);
    assert(wn_at(m, a[i], r, res, i));
    lemma_wsum(a[i], r, res, i, s.len() - 1);
    lemma_once(s, t, res, i, t.len() - 1, true);
    reveal(inside2);
}
/// Some vertex off the other ring has a sum.
proof fn lemma_some_key(s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>, m: Map<Key, i32>, b: Set<Key>, i0: int, j0: int)
    requires y_all(res, envs(ls_segs(s)), envs(ls_segs(t))), all_finite(s), all_finite(t), s.len() <= 0x7fff_ffff, t.len() <= 0x7fff_ffff, simple_ring(rp(s)), simple_ring(rp(t)), share1(rp(s), rp(t)),
        wn_ok(m, rp(s), rp(t), res), bd_ok(b, rp(s), rp(t), res), 0 <= i0 < s.len() - 1, 0 <= j0 < t.len() - 1, y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i0, j0)
    ensures has_par(m, b, true) || has_par(m, b, false)
{
    let a = rp(s);
    let r = rp(t);
    let k0 = lemma_seen(s, t, res, i0, j0);
    let mut i = i0;
    let mut j = j0;
    let mut k = k0;
    lemma_vertex_on(a, i0);
    if on_r(r, a[i0]) {
        let j1 = lemma_on_edge(r, a[i0]);
        let i1 = if i0 > 0 { i0 - 1 } else { a.len() - 2 };
        assert(a[i1 + 1] == a[i0]);
        lemma_ends2(a[i1], a[i1 + 1]);
        lemma_meet_hit(s, t, i1, j1, a[i0]);
        i = i1; j = j1;
        k = lemma_seen(s, t, res, i1, j1);
        assert(a[i1] != a[i1 + 1]);
        lemma_vertex_on(a, i1);
        if on_r(r, a[i1]) { lemma_share1(a, r, a[i1], a[i0]); }
    }
    // the i-th vertex is off r and the pair (i, j) has been seen
    assert(!on_r(r, a[i]));
    let h = key_of(a[i]);
    reveal(wn_ok);
    assert(wn_at(m, a[i], r, res, i));
    if on2(r[j], r[j + 1], a[i]) { lemma_on_r(r, j, a[i]); }
    assert(res[k].0 == i && res[k].1 == j);
    assert(m.dom().contains(h));
    if b.contains(h) {
        reveal(bd_ok);
        let z = choose|z: P2| on_r(a, z) && on_r(r, z) && #[trigger] key_of(z) == h;
        lemma_hkey_inj(z, a[i]);
    }
    reveal(has_par);
    assert(par_key(m, b, h, m[h] as int % 2 == 0));
    if m[h] as int % 2 == 0 { assert(par_key(m, b, h, true)); } else { assert(par_key(m, b, h, false)); }
}
proof fn lemma_on_edge(r: Seq<P2>, z: P2) -> (j: int) requires on_r(r, z) ensures 0 <= j < r.len() - 1, on2(r[j], r[j + 1], z)
{ reveal(on_r); choose|j: int| 0 <= j < r.len() - 1 && on2(#[trigger] r[j], r[j + 1], z) }
proof fn lemma_side(s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>, m: Map<Key, i32>, b: Set<Key>, i0: int, j0: int)
    requires y_once(res, envs(ls_segs(s)), envs(ls_segs(t))), y_all(res, envs(ls_segs(s)), envs(ls_segs(t))), y_in(res, s.len() - 1, t.len() - 1), all_finite(s), all_finite(t), s.len() <= 0x7fff_ffff, t.len() <= 0x7fff_ffff,
        simple_ring(rp(s)), simple_ring(rp(t)), share1(rp(s), rp(t)),
        wn_ok(m, rp(s), rp(t), res), bd_ok(b, rp(s), rp(t), res), 0 <= i0 < s.len() - 1, 0 <= j0 < t.len() - 1, y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i0, j0)
    ensures has_par(m, b, true) <==> lies_out(rp(s), rp(t)), has_par(m, b, false) <==> lies_in(rp(s), rp(t)), has_par(m, b, true) != has_par(m, b, false)
{
    let a = rp(s);
    let r = rp(t);
    lemma_some_key(s, t, res, m, b, i0, j0);
    lemma_share1_sym(a, r);
    lemma_sides(r, a);
    lemma_not_in_and_out(r, a);
    if has_par(m, b, true) {
        assert(lies_out(a, r)) by {
            reveal(has_par);
            let h = choose|h: Key| #[trigger] par_key(m, b, h, true);
            lemma_par_key(s, t, res, m, b, h, true);
            let i = choose|i: int| 0 <= i < s.len() - 1 && !on_r(rp(t), #[trigger] rp(s)[i]) && inside2(rp(t), rp(s)[i]) == !true;
            lemma_vertex_on(a, i);
            if lies_in(a, r) { lemma_in_pt(a, r, a[i]); }
        }
    }
    if has_par(m, b, false) {
        assert(lies_in(a, r)) by {
            reveal(has_par);
            let h = choose|h: Key| #[trigger] par_key(m, b, h, false);
            lemma_par_key(s, t, res, m, b, h, false);
            let i = choose|i: int| 0 <= i < s.len() - 1 && !on_r(rp(t), #[trigger] rp(s)[i]) && inside2(rp(t), rp(s)[i]) == !false;
            lemma_vertex_on(a, i);
            if lies_out(a, r) { lemma_out_pt(a, r, a[i]); }
        }
    }
}
// ---- boxes -------------------------------------------------------------------------------
proof fn lemma_fold_tight(s: Seq<Position>) -> (r: (int, int))
    requires all_finite(s), s.len() > 0
    ensures 0 <= r.0 < s.len(), 0 <= r.1 < s.len(), in_box(seq_env(s), rx(s[0]), ry(s[0])), ry(s[r.0]) == ry(seq_env(s)->min), ry(s[r.1]) == ry(seq_env(s)->max)
    decreases s.len()
{
    let t = s.drop_last();
    lemma_fold_box(s);
    assert(envs(s).drop_last() =~= envs(t));
    assert(envs(s).last() == env_pos(s.last()));
    assert(pos_finite(s.last()));
    assert(in_box(seq_env(s), rx(s[0]), ry(s[0])));
    if t.len() > 0 {
        assert forall|i: int| 0 <= i < t.len() implies pos_finite(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        let (lo, hi) = lemma_fold_tight(t);
        assert(t[lo] == s[lo] && t[hi] == s[hi]);
        let l = s.len() - 1;
        (if ry(s[l]) < ry(s[lo]) { l } else { lo }, if ry(s[l]) > ry(s[hi]) { l } else { hi })
    } else {
        assert(env_fold(envs(t)) == Envelope::Empty);
        (0, 0)
    }
}
proof fn lemma_no_height(r: Seq<P2>, y: real, i: int)
    requires r.len() >= 2, 0 <= i < r.len(), forall|k: int| 0 <= k < r.len() - 1 ==> !in_y(y, #[trigger] r[k], r[k + 1])
    ensures (r[i].1 < y) == (r[0].1 < y), r[i].1 != y
    decreases i
{
    if i > 0 { lemma_no_height(r, y, i - 1); assert(!in_y(y, r[i - 1], r[i - 1 + 1])); } else { assert(!in_y(y, r[0], r[0int + 1])); }
}
/// A chain passes every height between two of its vertices.
proof fn lemma_height(r: Seq<P2>, y: real, lo: int, hi: int) -> (k: int)
    requires r.len() >= 2, 0 <= lo < r.len(), 0 <= hi < r.len(), r[lo].1 <= y <= r[hi].1
    ensures 0 <= k < r.len() - 1, in_y(y, r[k], r[k + 1])
{
    if forall|k: int| 0 <= k < r.len() - 1 ==> !in_y(y, #[trigger] r[k], r[k + 1]) { lemma_no_height(r, y, lo); lemma_no_height(r, y, hi); }
    choose|k: int| 0 <= k < r.len() - 1 && in_y(y, #[trigger] r[k], r[k + 1])
}
/// If the boxes intersect, some pair of edges overlaps in y.
proof fn lemma_some_hit(s: Seq<Position>, t: Seq<Position>) -> (r: (int, int))
    requires all_finite(s), all_finite(t), s.len() >= 2, t.len() >= 2, env_intersects(seq_env(s), seq_env(t))
    ensures 0 <= r.0 < s.len() - 1, 0 <= r.1 < t.len() - 1, y_hit(envs(ls_segs(s)), envs(ls_segs(t)), r.0, r.1)
{
    let (l1, h1) = lemma_fold_tight(s);
    let (l2, h2) = lemma_fold_tight(t);
    let a = rp(s);
    let b = rp(t);
    assert(a[l1].1 <= a[h1].1 && b[l2].1 <= b[h2].1) by { lemma_fold_box(s); lemma_fold_box(t); assert(in_box(seq_env(s), rx(s[h1]), ry(s[h1]))); assert(in_box(seq_env(t), rx(t[h2]), ry(t[h2]))); }
    let y = rmax(a[l1].1, b[l2].1);
    let i = lemma_height(a, y, l1, h1);
    let j = lemma_height(b, y, l2, h2);
    lemma_height_hit(s, t, i, j, y);
    (i, j)
}
proof fn lemma_ring_in_box(s: Seq<Position>, z: P2)
    requires all_finite(s), s.len() >= 2, on_r(rp(s), z) ensures in_box(seq_env(s), z.0, z.1)
{
    let k = lemma_on_edge(rp(s), z);
    lemma_on_at(rp(s)[k], rp(s)[k + 1], z);
    lemma_fold_box(s);
    assert(in_box(seq_env(s), rx(s[k]), ry(s[k])) && in_box(seq_env(s), rx(s[k + 1]), ry(s[k + 1])));
}
/// Rings whose boxes do not intersect lie outside each other and share nothing.
proof fn lemma_boxes_out(s: Seq<Position>, t: Seq<Position>)
    requires all_finite(s), all_finite(t), s.len() >= 2, t.len() >= 2, closed2(rp(t)), !env_intersects(seq_env(s), seq_env(t))
    ensures lies_out(rp(s), rp(t)), !rings_bad(rp(s), rp(t))
{
    let a = rp(s);
    let r = rp(t);
    lemma_fold_box(t);
    assert(in_box(seq_env(t), rx(t[0]), ry(t[0])));
    let lo = seq_env(t)->min;
    let hi = seq_env(t)->max;
    assert forall|i: int| 0 <= i < r.len() implies rx(lo) <= (#[trigger] r[i]).0 <= rx(hi) && ry(lo) <= r[i].1 <= ry(hi) by { assert(in_box(seq_env(t), rx(t[i]), ry(t[i]))); }
    assert(lies_out(a, r)) by {
        reveal(lies_out);
        assert forall|z: P2| #[trigger] on_r(a, z) && !on_r(r, z) implies !inside2(r, z) by {
            lemma_ring_in_box(s, z);
            if z.0 < rx(lo) { lemma_rim_left(r, z); }
            else if z.0 > rx(hi) { lemma_rim_right(r, z); }
            else { lemma_rim_level(r, z); }
        }
    }
    if rings_bad(a, r) {
        let (i, j) = choose|i: int, j: int| 0 <= i < a.len() - 1 && 0 <= j < r.len() - 1 && bad_pair(a[i], a[i + 1], #[trigger] r[j], r[j + 1]) && #[trigger] idx(i);
        reveal(bad_pair);
        let z = choose|z: P2| #[trigger] meet2(a[i], a[i + 1], r[j], r[j + 1], z);
        assert(meet2(a[i], a[i + 1], r[j], r[j + 1], z));
        lemma_on_r(a, i, z); lemma_on_r(r, j, z);
        lemma_ring_in_box(s, z); lemma_ring_in_box(t, z);
    }
}
// ---- one pair of edges -------------------------------------------------------------------
pub open spec fn four(a: Segment, b: Segment, z: P2) -> bool { z == pt(a.start) || z == pt(a.end) || z == pt(b.start) || z == pt(b.end) }
proof fn lemma_isxn2(a: Segment, b: Segment, r: SegmentIntersection)
    requires is_isxn(a, b, r)
    ensures
        r is None ==> apart2(pt(a.start), pt(a.end), pt(b.start), pt(b.end)) && !bad_pair(pt(a.start), pt(a.end), pt(b.start), pt(b.end)),
        r is Position ==> one_pt(pt(a.start), pt(a.end), pt(b.start), pt(b.end), pt(r->Position_0)) && (bad_pair(pt(a.start), pt(a.end), pt(b.start), pt(b.end)) <==> !four(a, b, pt(r->Position_0))),
        r is Segment ==> bad_pair(pt(a.start), pt(a.end), pt(b.start), pt(b.end)),
{
    reveal(bad_pair); reveal(apart2);
    let (p, q, u, v) = (pt(a.start), pt(a.end), pt(b.start), pt(b.end));
    assert forall|z: P2| #[trigger] meet2(p, q, u, v, z) == both(a, b, z.0, z.1) by { }
    match r {
        SegmentIntersection::None => { assert forall|z: P2| !#[trigger] meet2(p, q, u, v, z) by { assert(!both(a, b, z.0, z.1)); } }
        SegmentIntersection::Position(c) => {
            let z = pt(c);
            assert(both(a, b, z.0, z.1));
            assert(meet2(p, q, u, v, z));
            assert forall|w: P2| #[trigger] meet2(p, q, u, v, w) implies w == z by { assert(both(a, b, w.0, w.1)); }
        }
        SegmentIntersection::Segment(s) => {
            lemma_ends(s);
            let (z, w) = (pt(s.start), pt(s.end));
            assert(both(a, b, z.0, z.1) && both(a, b, w.0, w.1));
            assert(meet2(p, q, u, v, z) && meet2(p, q, u, v, w));
        }
    }
}
// ---- vertices off the other ring -----------------------------------------------------------
pub open spec fn off_at(s: Seq<P2>, r: Seq<P2>, i: int, inside: bool) -> bool { !on_r(r, s[i]) && inside2(r, s[i]) == inside }
/// Some vertex of s lies strictly inside (outside) r.
#[verifier::opaque]
pub open spec fn some_v(s: Seq<P2>, r: Seq<P2>, inside: bool) -> bool { exists|i: int| 0 <= i < s.len() - 1 && #[trigger] off_at(s, r, i, inside) }
pub open spec fn crosses_v(s: Seq<P2>, r: Seq<P2>) -> bool { some_v(s, r, true) && some_v(s, r, false) }
pub open spec fn only_out(s: Seq<P2>, r: Seq<P2>) -> bool { some_v(s, r, false) && !some_v(s, r, true) }
pub open spec fn none_out(s: Seq<P2>, r: Seq<P2>) -> bool { !some_v(s, r, false) }
proof fn lemma_crn_some(r: Seq<P2>, p: P2, n: int) -> (j: int)
    requires crn(r, p, n) > 0 ensures 0 <= j < n, cr(p, r[j], r[j + 1])
    decreases n
{ if cr(p, r[n - 1], r[n]) { n - 1 } else { lemma_crn_some(r, p, n - 1) } }
proof fn lemma_in_hit(s: Seq<Position>, t: Seq<Position>, i: int) -> (j: int)
    requires all_finite(s), all_finite(t), 0 <= i < s.len() - 1, inside2(rp(t), rp(s)[i]) ensures 0 <= j < t.len() - 1, y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i, j)
{
    reveal(inside2);
    let j = lemma_crn_some(rp(t), rp(s)[i], t.len() - 1);
    lemma_cr_hit(s, t, i, j);
    j
}
pub open spec fn hits(s: Seq<Position>, t: Seq<Position>, i: int) -> bool { exists|j: int| 0 <= j < t.len() - 1 && #[trigger] y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i, j) }
/// Edges from a vertex outside that meet nothing in y lead to vertices outside.
proof fn lemma_go_round(s: Seq<Position>, t: Seq<Position>, i: int, i0: int) -> (k: int)
    requires all_finite(s), all_finite(t), simple_ring(rp(s)), 0 <= i < s.len() - 1, 0 <= i0 < s.len() - 1, hits(s, t, i0), off_at(rp(s), rp(t), i, false)
    ensures 0 <= k < s.len() - 1, hits(s, t, k), off_at(rp(s), rp(t), k, false)
    decreases (if i <= i0 { i0 - i } else { s.len() - i + i0 })
{
    if hits(s, t, i) { i } else {
        let a = rp(s);
        let r = rp(t);
        let z = a[i + 1];
        lemma_ends2(a[i], a[i + 1]);
        if on_r(r, z) {
            let j = lemma_on_edge(r, z);
            lemma_meet_hit(s, t, i, j, z);
        }
        if inside2(r, z) {
            reveal(inside2);
            let j = lemma_crn_some(r, z, t.len() - 1);
            lemma_height_hit(s, t, i, j, z.1);
        }
        if i + 1 < s.len() - 1 { lemma_go_round(s, t, i + 1, i0) } else { assert(a[0] == z); lemma_go_round(s, t, 0, i0) }
    }
}
/// The vertices off the other ring are those that have a sum, and their sums say which side they are on.
proof fn lemma_verts(s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>, m: Map<Key, i32>, b: Set<Key>, i0: int, j0: int)
    requires y_once(res, envs(ls_segs(s)), envs(ls_segs(t))), y_all(res, envs(ls_segs(s)), envs(ls_segs(t))), y_in(res, s.len() - 1, t.len() - 1), all_finite(s), all_finite(t), s.len() <= 0x7fff_ffff, 4 <= t.len() <= 0x7fff_ffff,
        simple_ring(rp(s)), simple_ring(rp(t)),
        wn_ok(m, rp(s), rp(t), res), bd_ok(b, rp(s), rp(t), res), 0 <= i0 < s.len() - 1, 0 <= j0 < t.len() - 1, y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i0, j0)
    ensures has_par(m, b, true) == some_v(rp(s), rp(t), false), has_par(m, b, false) == some_v(rp(s), rp(t), true)
{
    reveal(has_par); reveal(some_v);
    let a = rp(s);
    let r = rp(t);
    assert(hits(s, t, i0));
    assert forall|h: Key, even: bool| #[trigger] par_key(m, b, h, even) implies some_v(a, r, !even) by {
        lemma_par_key(s, t, res, m, b, h, even);
        let i = choose|i: int| 0 <= i < s.len() - 1 && !on_r(rp(t), #[trigger] rp(s)[i]) && inside2(rp(t), rp(s)[i]) == !even;
        assert(off_at(a, r, i, !even));
    }
    if some_v(a, r, true) {
        let i = choose|i: int| 0 <= i < a.len() - 1 && #[trigger] off_at(a, r, i, true);
        let j = lemma_in_hit(s, t, i);
        assert(hits(s, t, i));
        lemma_vert_key(s, t, res, m, b, i, true);
    }
    if some_v(a, r, false) {
        let i = choose|i: int| 0 <= i < a.len() - 1 && #[trigger] off_at(a, r, i, false);
        let k = lemma_go_round(s, t, i, i0);
        lemma_vert_key(s, t, res, m, b, k, false);
    }
}
proof fn lemma_vert_key(s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>, m: Map<Key, i32>, b: Set<Key>, i: int, inside: bool)
    requires y_once(res, envs(ls_segs(s)), envs(ls_segs(t))), y_all(res, envs(ls_segs(s)), envs(ls_segs(t))), y_in(res, s.len() - 1, t.len() - 1), all_finite(s), all_finite(t), s.len() <= 0x7fff_ffff, 4 <= t.len() <= 0x7fff_ffff,
        wn_ok(m, rp(s), rp(t), res), bd_ok(b, rp(s), rp(t), res), 0 <= i < s.len() - 1, hits(s, t, i), off_at(rp(s), rp(t), i, inside)
    ensures has_par(m, b, !inside)
{
    let a = rp(s);
    let r = rp(t);
    let h = key_of(a[i]);
    let j = choose|j: int| 0 <= j < t.len() - 1 && #[trigger] y_hit(envs(ls_segs(s)), envs(ls_segs(t)), i, j);
    let k = lemma_seen(s, t, res, i, j);
    lemma_wn_get(m, a, r, res, i);
    if on2(r[j], r[j + 1], a[i]) { lemma_on_r(r, j, a[i]); }
    assert(res[k].0 == i && res[k].1 == j);
    assert(m.dom().contains(h));
    if b.contains(h) {
        reveal(bd_ok);
        let z = choose|z: P2| on_r(a, z) && on_r(r, z) && #[trigger] key_of(z) == h;
        lemma_hkey_inj(z, a[i]);
    }
    lemma_wsum(a[i], r, res, i, s.len() - 1);
    lemma_once(s, t, res, i, t.len() - 1, true);
    reveal(inside2); reveal(has_par);
    assert(par_key(m, b, h, !inside));
}
/// Rings whose boxes do not intersect have all vertices outside each other.
proof fn lemma_boxes_verts(s: Seq<Position>, t: Seq<Position>)
    requires all_finite(s), all_finite(t), simple_ring(rp(s)), simple_ring(rp(t)), !env_intersects(seq_env(s), seq_env(t))
    ensures some_v(rp(s), rp(t), false), !some_v(rp(s), rp(t), true)
{
    reveal(some_v);
    let a = rp(s);
    let r = rp(t);
    lemma_boxes_out(s, t);
    lemma_off_box(s, t, 0);
    lemma_vertex_on(a, 0);
    lemma_out_pt(a, r, a[0]);
    assert(off_at(a, r, 0, false));
    if some_v(a, r, true) {
        let i = choose|i: int| 0 <= i < a.len() - 1 && #[trigger] off_at(a, r, i, true);
        lemma_vertex_on(a, i);
        lemma_out_pt(a, r, a[i]);
    }
}
proof fn lemma_off_box(s: Seq<Position>, t: Seq<Position>, i: int)
    requires all_finite(s), all_finite(t), 0 <= i < s.len(), s.len() >= 2, t.len() >= 2, !env_intersects(seq_env(s), seq_env(t)) ensures !on_r(rp(t), rp(s)[i])
{
    if on_r(rp(t), rp(s)[i]) {
        lemma_ring_in_box(t, rp(s)[i]);
        lemma_fold_box(s);
        assert(in_box(seq_env(s), rx(s[i]), ry(s[i])));
    }
}
