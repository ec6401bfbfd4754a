// The spatial index. A level of nodes occupies a run of `tree`; nodes of a level above the
// leaves that have children come first, padding after them.
pub open spec fn fb_h(f: Flatbush) -> int { f.level_indices@.len() - 1 }
pub open spec fn fb_lo(f: Flatbush, l: int) -> int { f.level_indices@[l] as int }
pub open spec fn fb_cap(f: Flatbush, l: int) -> int { (if l < fb_h(f) { fb_lo(f, l + 1) } else { f.tree@.len() as int }) - fb_lo(f, l) }
/// Number of nodes of level l >= 1 that have children.
pub open spec fn fb_rn(f: Flatbush, l: int) -> int { (fb_lo(f, l) - fb_lo(f, l - 1)) / (f.degree as int) }
pub open spec fn fb_env(f: Flatbush, l: int, k: int) -> Envelope { f.tree@[fb_lo(f, l) + k].1 }
pub open spec fn fb_kids(f: Flatbush, l: int, k: int) -> Seq<Envelope> { Seq::new(f.degree as nat, |i: int| f.tree@[fb_lo(f, l - 1) + k * f.degree + i].1) }
#[verifier::opaque]
pub open spec fn fb_node_ok(f: Flatbush, l: int, k: int) -> bool {
    &&& f.tree@[fb_lo(f, l) + k].0 == k
    &&& (k < fb_rn(f, l) ==> fb_env(f, l, k) == env_fold(fb_kids(f, l, k)))
    &&& (k >= fb_rn(f, l) ==> fb_env(f, l, k) is Empty)
}
#[verifier::opaque]
pub open spec fn fb_level(f: Flatbush, l: int) -> bool {
    &&& fb_lo(f, l) - fb_lo(f, l - 1) == f.degree * fb_rn(f, l)
    &&& 1 <= fb_rn(f, l) <= fb_cap(f, l)
    &&& fb_lo(f, l) < f.tree@.len()
    &&& forall|k: int| 0 <= k < fb_cap(f, l) ==> #[trigger] fb_node_ok(f, l, k)
}
pub open spec fn fb_wf(f: Flatbush) -> bool {
    &&& f.level_indices@.len() >= 1
    &&& fb_lo(f, 0) == 0
    &&& f.tree@.len() == fb_lo(f, fb_h(f)) + 1
    &&& (fb_h(f) >= 1 ==> f.degree >= 2)
    &&& f.degree <= 0x1000_0000_0000_0000
    &&& forall|l: int| 1 <= l <= fb_h(f) ==> #[trigger] fb_level(f, l)
}
/// A node handed out by the index, consistent with its storage.
pub open spec fn fb_pos(f: Flatbush, n: FlatbushNode) -> int { n.tree_index - fb_lo(f, n.level as int) }
pub open spec fn fb_node(f: Flatbush, n: FlatbushNode) -> bool {
    &&& n.level <= fb_h(f)
    &&& 0 <= fb_pos(f, n) < fb_cap(f, n.level as int)
    &&& n.tree_index < f.tree@.len()
    &&& n.sibling_index == f.tree@[n.tree_index as int].0
    &&& n.envelope == f.tree@[n.tree_index as int].1
}
/// Has children.
pub open spec fn fb_inner(f: Flatbush, n: FlatbushNode) -> bool { fb_node(f, n) && n.level >= 1 && fb_pos(f, n) < fb_rn(f, n.level as int) }
pub open spec fn fb_child(f: Flatbush, n: FlatbushNode, i: int, c: FlatbushNode) -> bool {
    fb_node(f, c) && c.level == n.level - 1 && fb_pos(f, c) == fb_pos(f, n) * f.degree + i
}

proof fn lemma_level(f: Flatbush, l: int)
    requires fb_wf(f), 1 <= l <= fb_h(f)
    ensures
        fb_lo(f, l) - fb_lo(f, l - 1) == f.degree * fb_rn(f, l),
        fb_cap(f, l - 1) == f.degree * fb_rn(f, l),
        1 <= fb_rn(f, l) <= fb_cap(f, l),
        fb_lo(f, l) < f.tree@.len(),
        fb_lo(f, l) + fb_cap(f, l) <= f.tree@.len(),
        f.degree >= 2,
{
    assert(fb_level(f, l)); reveal(fb_level);
    if l < fb_h(f) { assert(fb_level(f, l + 1)); }
}
proof fn lemma_node_ok(f: Flatbush, l: int, k: int)
    requires fb_wf(f), 1 <= l <= fb_h(f), 0 <= k < fb_cap(f, l)
    ensures f.tree@[fb_lo(f, l) + k].0 == k,
        k < fb_rn(f, l) ==> fb_env(f, l, k) == env_fold(fb_kids(f, l, k)),
        k >= fb_rn(f, l) ==> fb_env(f, l, k) is Empty
{ assert(fb_level(f, l)); reveal(fb_level); assert(fb_node_ok(f, l, k)); reveal(fb_node_ok); }
proof fn lemma_root(f: Flatbush, n: FlatbushNode)
    requires fb_wf(f), fb_node(f, n), n.level == fb_h(f)
    ensures fb_pos(f, n) == 0, n.level >= 1 ==> fb_inner(f, n)
{ if n.level >= 1 { lemma_level(f, n.level as int); } }
/// Only a node with children is non-empty above the leaves, and its ordinal is its place.
proof fn lemma_inner(f: Flatbush, n: FlatbushNode)
    requires fb_wf(f), fb_node(f, n), n.level >= 1
    ensures n.sibling_index == fb_pos(f, n), !(n.envelope is Empty) ==> fb_inner(f, n)
{ lemma_node_ok(f, n.level as int, fb_pos(f, n)); }
proof fn lemma_lo_grows(f: Flatbush, l: int)
    requires fb_wf(f), 0 <= l <= fb_h(f)
    ensures fb_lo(f, l) >= f.degree * l, fb_lo(f, l) >= 0, fb_lo(f, l) < f.tree@.len(), fb_cap(f, l) >= 1, fb_lo(f, l) + fb_cap(f, l) <= f.tree@.len()
    decreases l
{
    if l >= 1 {
        lemma_lo_grows(f, l - 1); lemma_level(f, l);
        lemma_next(l - 1, f.degree as int);
        lemma_ge(f.degree as int, fb_rn(f, l));
    } else if fb_h(f) >= 1 { lemma_level(f, 1);
        lemma_ge(f.degree as int, fb_rn(f, 1));
    }
}
// ---- ancestors of a leaf ----------------------------------------------------
pub open spec fn anc(d: int, l: int, p: int) -> int decreases l { if l <= 0 { p } else { anc(d, l - 1, p) / d } }
proof fn lemma_anc_range(f: Flatbush, l: int, p: int)
    requires fb_wf(f), 0 <= l <= fb_h(f), 0 <= p < fb_cap(f, 0)
    ensures 0 <= anc(f.degree as int, l, p) < fb_cap(f, l), l >= 1 ==> anc(f.degree as int, l, p) < fb_rn(f, l)
    decreases l
{
    if l >= 1 {
        lemma_anc_range(f, l - 1, p); lemma_level(f, l);
        let a = anc(f.degree as int, l - 1, p);
        let d = f.degree as int;
        let r = fb_rn(f, l);
        lemma_div_lt(a, d, r);
    }
}
proof fn lemma_anc_mono(d: int, l: int, p1: int, p2: int)
    requires d >= 1, 0 <= p1 <= p2
    ensures 0 <= anc(d, l, p1) <= anc(d, l, p2)
    decreases l
{
    if l > 0 {
        lemma_anc_mono(d, l - 1, p1, p2);
        let a = anc(d, l - 1, p1);
        let b = anc(d, l - 1, p2);
        lemma_div_mono(a, b, d);
    }
}
pub open spec fn covers(f: Flatbush, n: FlatbushNode, p: int) -> bool { fb_pos(f, n) == anc(f.degree as int, n.level as int, p) }
/// A child covers a leaf exactly when its parent does and it is the right one of the children.
proof fn lemma_child_covers(f: Flatbush, n: FlatbushNode, i: int, c: FlatbushNode, p: int)
    requires fb_wf(f), fb_inner(f, n), 0 <= i < f.degree, fb_child(f, n, i, c), 0 <= p < fb_cap(f, 0)
    ensures covers(f, c, p) <==> covers(f, n, p) && i == anc(f.degree as int, n.level - 1, p) % (f.degree as int)
{
    let d = f.degree as int;
    let l = n.level as int;
    lemma_anc_range(f, l - 1, p);
    let a = anc(d, l - 1, p);
    let k = fb_pos(f, n);
    assert(anc(d, l, p) == a / d);
    lemma_dm_iff(a, d, k, i);
}
proof fn lemma_mod_range(a: int, d: int) requires d >= 1, a >= 0 ensures 0 <= a % d < d, a == (a / d) * d + a % d
{ lemma_dm(a, d); }
/// A box that meets one of the boxes meets their union.
proof fn lemma_merge_hits(a: Envelope, b: Envelope, q: Envelope)
    ensures env_intersects(a, q) ==> env_intersects(env_merge(a, b), q), env_intersects(b, q) ==> env_intersects(env_merge(a, b), q)
{ }
proof fn lemma_fold_hits(s: Seq<Envelope>, i: int, q: Envelope)
    requires 0 <= i < s.len(), env_intersects(s[i], q)
    ensures env_intersects(env_fold(s), q)
    decreases s.len()
{
    lemma_merge_hits(env_fold(s.drop_last()), s.last(), q);
    if i < s.len() - 1 { lemma_fold_hits(s.drop_last(), i, q); }
}
/// Every ancestor of a leaf whose box meets the query meets it.
proof fn lemma_up(f: Flatbush, l: int, p: int, q: Envelope)
    requires fb_wf(f), 0 <= l <= fb_h(f), 0 <= p < fb_cap(f, 0), env_intersects(fb_env(f, 0, p), q)
    ensures env_intersects(fb_env(f, l, anc(f.degree as int, l, p)), q)
    decreases l
{
    if l >= 1 {
        lemma_up(f, l - 1, p, q);
        lemma_anc_range(f, l, p); lemma_anc_range(f, l - 1, p); lemma_level(f, l);
        let d = f.degree as int;
        let a = anc(d, l - 1, p);
        let k = anc(d, l, p);
        lemma_mod_range(a, d);
        lemma_node_ok(f, l, k);
        let s = fb_kids(f, l, k);
        assert(s[a % d] == fb_env(f, l - 1, a));
        lemma_fold_hits(s, a % d, q);
    }
}
proof fn lemma_sym(a: Envelope, b: Envelope) ensures env_intersects(a, b) == env_intersects(b, a) { }
/// Ancestors of two leaves whose boxes meet, meet.
proof fn lemma_up2(f: Flatbush, g: Flatbush, l: int, m: int, p: int, r: int)
    requires fb_wf(f), fb_wf(g), 0 <= l <= fb_h(f), 0 <= m <= fb_h(g), 0 <= p < fb_cap(f, 0), 0 <= r < fb_cap(g, 0), env_intersects(fb_env(f, 0, p), fb_env(g, 0, r))
    ensures env_intersects(fb_env(f, l, anc(f.degree as int, l, p)), fb_env(g, m, anc(g.degree as int, m, r)))
{
    lemma_up(f, l, p, fb_env(g, 0, r));
    let a = fb_env(f, l, anc(f.degree as int, l, p));
    lemma_sym(a, fb_env(g, 0, r));
    lemma_up(g, m, r, a);
    lemma_sym(a, fb_env(g, m, anc(g.degree as int, m, r)));
}
// ---- counting ---------------------------------------------------------------
pub open spec fn cnt(f: Flatbush, s: Seq<FlatbushNode>, p: int) -> nat
    decreases s.len()
{ if s.len() == 0 { 0 } else { cnt(f, s.drop_last(), p) + b2n(covers(f, s.last(), p)) } }
proof fn lemma_cnt_push(f: Flatbush, s: Seq<FlatbushNode>, n: FlatbushNode)
    ensures forall|p: int| #[trigger] cnt(f, s.push(n), p) == cnt(f, s, p) + b2n(covers(f, n, p))
{ assert(s.push(n).drop_last() =~= s); }
proof fn lemma_count_push<T>(s: Seq<T>, x: T)
    ensures forall|h: T| #[trigger] count_in(s.push(x), h) == count_in(s, h) + b2n(x == h)
{ assert(s.push(x).drop_last() =~= s); }
proof fn lemma_count_zero<T>(s: Seq<T>, h: T)
    requires forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != h ensures count_in(s, h) == 0
    decreases s.len()
{ if s.len() > 0 { assert(s[s.len() - 1] != h); assert forall|i: int| 0 <= i < s.drop_last().len() implies #[trigger] s.drop_last()[i] != h by { assert(s[i] != h); } lemma_count_zero(s.drop_last(), h); } }
// work left, for termination
pub open spec fn wt(d: int, l: int) -> int decreases l { if l <= 0 { 1 } else { d * wt(d, l - 1) + 1 } }
proof fn lemma_wt(d: int, l: int) requires d >= 0 ensures wt(d, l) >= 1 decreases l
{ if l > 0 { lemma_wt(d, l - 1); let w = wt(d, l - 1); lemma_nonneg(d, w); } }
pub open spec fn work(d: int, s: Seq<FlatbushNode>) -> int decreases s.len() { if s.len() == 0 { 0 } else { work(d, s.drop_last()) + wt(d, s.last().level as int) } }
proof fn lemma_work(d: int, s: Seq<FlatbushNode>) requires d >= 0 ensures work(d, s) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_work(d, s.drop_last()); lemma_wt(d, s.last().level as int); } }
proof fn lemma_work_push(d: int, s: Seq<FlatbushNode>, n: FlatbushNode)
    ensures work(d, s.push(n)) == work(d, s) + wt(d, n.level as int)
{ assert(s.push(n).drop_last() =~= s); }
// ---- children of a node, or those that meet something -----------------------------------------------
/// The first i children of n, those that meet q at least.
#[verifier::opaque]
pub open spec fn kids_ok(f: Flatbush, n: FlatbushNode, q: Envelope, s: Seq<FlatbushNode>, i: int) -> bool {
    &&& s.len() <= i
    &&& forall|j: int| 0 <= j < s.len() ==> fb_node(f, #[trigger] s[j]) && s[j].level == n.level - 1
    &&& forall|p: int| 0 <= p < fb_cap(f, 0) ==> #[trigger] cnt(f, s, p) <= b2n(covers(f, n, p) && anc(f.degree as int, n.level - 1, p) % (f.degree as int) < i)
    &&& forall|p: int| 0 <= p < fb_cap(f, 0) && env_intersects(f.tree@[p].1, q) ==> #[trigger] cnt(f, s, p) == b2n(covers(f, n, p) && anc(f.degree as int, n.level - 1, p) % (f.degree as int) < i)
}
proof fn lemma_kids_start(f: Flatbush, n: FlatbushNode, q: Envelope)
    requires fb_wf(f), fb_inner(f, n) ensures kids_ok(f, n, q, Seq::empty(), 0)
{
    reveal(kids_ok);
    assert forall|p: int| 0 <= p < fb_cap(f, 0) implies #[trigger] cnt(f, Seq::<FlatbushNode>::empty(), p) == b2n(covers(f, n, p) && anc(f.degree as int, n.level - 1, p) % (f.degree as int) < 0) by {
        lemma_anc_range(f, n.level - 1, p); lemma_level(f, n.level as int); lemma_mod_range(anc(f.degree as int, n.level - 1, p), f.degree as int);
    }
}
proof fn lemma_kids_step(f: Flatbush, n: FlatbushNode, q: Envelope, s: Seq<FlatbushNode>, i: int, c: FlatbushNode, s2: Seq<FlatbushNode>)
    requires fb_wf(f), fb_inner(f, n), kids_ok(f, n, q, s, i), 0 <= i < f.degree, fb_child(f, n, i, c),
        s2 == s.push(c) || (s2 == s && !env_intersects(c.envelope, q)),
    ensures kids_ok(f, n, q, s2, i + 1)
{
    reveal(kids_ok);
    let d = f.degree as int;
    lemma_cnt_push(f, s, c);
    assert forall|p: int| 0 <= p < fb_cap(f, 0) implies #[trigger] cnt(f, s2, p) <= b2n(covers(f, n, p) && anc(d, n.level - 1, p) % d < i + 1)
        && (env_intersects(f.tree@[p].1, q) ==> cnt(f, s2, p) == b2n(covers(f, n, p) && anc(d, n.level - 1, p) % d < i + 1)) by {
        lemma_child_covers(f, n, i, c, p);
        assert(cnt(f, s, p) <= b2n(covers(f, n, p) && anc(d, n.level - 1, p) % d < i));
        if env_intersects(f.tree@[p].1, q) {
            lemma_up(f, c.level as int, p, q);
            if covers(f, c, p) { assert(c.envelope == fb_env(f, c.level as int, anc(d, c.level as int, p))); }
        }
    }
    assert forall|j: int| 0 <= j < s2.len() implies fb_node(f, #[trigger] s2[j]) && s2[j].level == n.level - 1 by { if j < s.len() { assert(s2[j] == s[j]); } }
}
/// All children, whatever q is.
proof fn lemma_kids_all(f: Flatbush, n: FlatbushNode, q: Envelope, s: Seq<FlatbushNode>, i: int)
    requires fb_wf(f), fb_inner(f, n), s.len() == f.degree, forall|j: int| 0 <= j < s.len() ==> fb_child(f, n, j, #[trigger] s[j]), 0 <= i <= f.degree
    ensures kids_ok(f, n, q, s.take(i), i)
    decreases i
{
    if i == 0 { lemma_kids_start(f, n, q); assert(s.take(0) =~= Seq::empty()); }
    else {
        lemma_kids_all(f, n, q, s, i - 1);
        assert(fb_child(f, n, i - 1, s[i - 1]));
        assert(s.take(i) =~= s.take(i - 1).push(s[i - 1]));
        lemma_kids_step(f, n, q, s.take(i - 1), i - 1, s[i - 1], s.take(i));
    }
}
// ---- what the index holds ---------------------------------------------------
/// Every non-empty item is at one leaf, and every other leaf is empty.
#[verifier::opaque]
pub open spec fn fb_holds(f: Flatbush, items: Seq<Envelope>) -> bool {
    &&& fb_wf(f)
    &&& forall|p: int| 0 <= p < fb_cap(f, 0) && !((#[trigger] f.tree@[p]).1 is Empty) ==> f.tree@[p].0 < items.len() && items[f.tree@[p].0 as int] == f.tree@[p].1
    &&& forall|i: int| 0 <= i < items.len() && !((#[trigger] items[i]) is Empty) ==> exists|p: int| 0 <= p < fb_cap(f, 0) && (#[trigger] f.tree@[p]) == (i as usize, items[i])
    &&& forall|p: int, r: int| 0 <= p < r < fb_cap(f, 0) && !((#[trigger] f.tree@[p]).1 is Empty) && !((#[trigger] f.tree@[r]).1 is Empty) ==> f.tree@[p].0 != f.tree@[r].0
}
// ---- range query ------------------------------------------------------------
pub open spec fn fb_hit(f: Flatbush, q: Envelope, p: int) -> bool { 0 <= p < fb_cap(f, 0) && env_intersects(f.tree@[p].1, q) }
#[verifier::opaque]
pub open spec fn q_res(f: Flatbush, q: Envelope, res: Seq<usize>, ps: Seq<int>) -> bool {
    res.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> fb_hit(f, q, #[trigger] ps[i]) && res[i] == f.tree@[ps[i]].0
}
#[verifier::opaque]
pub open spec fn q_todo(f: Flatbush, q: Envelope, s: Seq<FlatbushNode>) -> bool {
    forall|j: int| 0 <= j < s.len() ==> fb_inner(f, #[trigger] s[j])
}
/// Every leaf to report is reported, or will be through exactly one node of the list, or is left (`rest`).
#[verifier::opaque]
pub open spec fn q_acc(f: Flatbush, q: Envelope, ps: Seq<int>, s: Seq<FlatbushNode>, rest: spec_fn(int) -> nat) -> bool {
    forall|p: int| fb_hit(f, q, p) ==> #[trigger] count_in(ps, p) + cnt(f, s, p) + rest(p) == 1
}
pub open spec fn q_left(f: Flatbush, n: FlatbushNode, i: int) -> spec_fn(int) -> nat {
    |p: int| b2n(covers(f, n, p) && anc(f.degree as int, n.level - 1, p) % (f.degree as int) >= i)
}
pub open spec fn fb_root(f: Flatbush) -> FlatbushNode {
    let t = f.tree@.len() - 1;
    FlatbushNode { level: fb_h(f) as usize, tree_index: t as usize, sibling_index: f.tree@[t].0, envelope: f.tree@[t].1 }
}
proof fn lemma_root_covers(f: Flatbush, n: FlatbushNode, p: int)
    requires fb_wf(f), fb_node(f, n), n.level == fb_h(f), fb_pos(f, n) == 0, 0 <= p < fb_cap(f, 0)
    ensures covers(f, n, p)
{ lemma_anc_range(f, fb_h(f), p); }
pub open spec fn q_none() -> spec_fn(int) -> nat { |p: int| 0 }
pub open spec fn q_one(f: Flatbush, n: FlatbushNode) -> spec_fn(int) -> nat { |p: int| b2n(covers(f, n, p)) }
/// What `_maybe_push_isxn` does with a node.
pub open spec fn q_push(n: FlatbushNode, q: Envelope, res: Seq<usize>, todo: Seq<FlatbushNode>, res2: Seq<usize>, todo2: Seq<FlatbushNode>) -> bool {
    if !env_intersects(n.envelope, q) { res2 == res && todo2 == todo }
    else if n.level == 0 { res2 == res.push(n.sibling_index) && todo2 == todo }
    else { res2 == res && todo2 == todo.push(n) }
}
pub open spec fn q_ps(n: FlatbushNode, q: Envelope, ps: Seq<int>) -> Seq<int> {
    if env_intersects(n.envelope, q) && n.level == 0 { ps.push(n.tree_index as int) } else { ps }
}
/// Taking a node off what is left and pushing it keeps the account.
proof fn lemma_q_push(f: Flatbush, q: Envelope, n: FlatbushNode, res: Seq<usize>, todo: Seq<FlatbushNode>, res2: Seq<usize>, todo2: Seq<FlatbushNode>, ps: Seq<int>, rest: spec_fn(int) -> nat, rest2: spec_fn(int) -> nat)
    requires
        fb_wf(f), fb_node(f, n), q_push(n, q, res, todo, res2, todo2),
        q_res(f, q, res, ps), q_todo(f, q, todo), q_acc(f, q, ps, todo, rest),
        forall|p: int| fb_hit(f, q, p) ==> #[trigger] rest(p) == rest2(p) + b2n(covers(f, n, p)),
    ensures
        q_res(f, q, res2, q_ps(n, q, ps)), q_todo(f, q, todo2), q_acc(f, q, q_ps(n, q, ps), todo2, rest2),
        work(f.degree as int, todo2) <= work(f.degree as int, todo) + wt(f.degree as int, n.level as int),
{
    reveal(q_res); reveal(q_todo); reveal(q_acc);
    let ps2 = q_ps(n, q, ps);
    let d = f.degree as int;
    lemma_wt(d, n.level as int);
    lemma_work_push(d, todo, n);
    lemma_cnt_push(f, todo, n);
    lemma_count_push(ps, n.tree_index as int);
    if n.level >= 1 { lemma_inner(f, n); }
    assert forall|p: int| fb_hit(f, q, p) implies #[trigger] count_in(ps2, p) + cnt(f, todo2, p) + rest2(p) == 1 by {
        assert(count_in(ps, p) + cnt(f, todo, p) + rest(p) == 1);
        if covers(f, n, p) { lemma_up(f, n.level as int, p, q); }
    }
}
proof fn lemma_q_pop(f: Flatbush, q: Envelope, ps: Seq<int>, s: Seq<FlatbushNode>, n: FlatbushNode)
    requires fb_wf(f), q_todo(f, q, s.push(n)), q_acc(f, q, ps, s.push(n), q_none())
    ensures fb_inner(f, n), q_todo(f, q, s), q_acc(f, q, ps, s, q_left(f, n, 0)),
        work(f.degree as int, s.push(n)) == work(f.degree as int, s) + f.degree * wt(f.degree as int, n.level - 1) + 1,
        work(f.degree as int, s) >= 0,
{
    reveal(q_todo); reveal(q_acc);
    let t = s.push(n);
    assert(fb_inner(f, t[s.len() as int]));
    assert forall|j: int| 0 <= j < s.len() implies fb_inner(f, #[trigger] s[j]) by { assert(fb_inner(f, t[j])); }
    lemma_cnt_push(f, s, n);
    lemma_work_push(f.degree as int, s, n);
    lemma_work(f.degree as int, s);
    assert forall|p: int| fb_hit(f, q, p) implies #[trigger] count_in(ps, p) + cnt(f, s, p) + q_left(f, n, 0)(p) == 1 by {
        assert(count_in(ps, p) + cnt(f, t, p) + q_none()(p) == 1);
        lemma_anc_range(f, n.level - 1, p);
        lemma_mod_range(anc(f.degree as int, n.level - 1, p), f.degree as int);
    }
}
proof fn lemma_q_done(f: Flatbush, q: Envelope, ps: Seq<int>, s: Seq<FlatbushNode>, n: FlatbushNode)
    requires fb_wf(f), fb_inner(f, n), q_acc(f, q, ps, s, q_left(f, n, f.degree as int))
    ensures q_acc(f, q, ps, s, q_none())
{
    reveal(q_acc);
    assert forall|p: int| fb_hit(f, q, p) implies #[trigger] count_in(ps, p) + cnt(f, s, p) + q_none()(p) == 1 by {
        assert(count_in(ps, p) + cnt(f, s, p) + q_left(f, n, f.degree as int)(p) == 1);
        lemma_anc_range(f, n.level - 1, p);
        lemma_mod_range(anc(f.degree as int, n.level - 1, p), f.degree as int);
    }
}
#[verifier::opaque]
pub open spec fn q_exact(f: Flatbush, q: Envelope, res: Seq<usize>) -> bool {
    exists|ps: Seq<int>| #[trigger] q_res(f, q, res, ps) && q_acc(f, q, ps, Seq::empty(), q_none())
}
/// Each item of the list whose box meets the query, once; nothing else.
pub open spec fn is_exact(res: Seq<usize>, items: Seq<Envelope>, q: Envelope) -> bool {
    forall|i: usize| #[trigger] count_in(res, i) == b2n(i < items.len() && env_intersects(items[i as int], q))
}
proof fn lemma_ids(f: Flatbush, res: Seq<usize>, ps: Seq<int>, id: usize, p: int)
    requires res.len() == ps.len(), forall|i: int| 0 <= i < ps.len() ==> #[trigger] res[i] == f.tree@[ps[i]].0,
        forall|i: int| 0 <= i < ps.len() ==> (f.tree@[#[trigger] ps[i]].0 == id <==> ps[i] == p),
    ensures count_in(res, id) == count_in(ps, p)
    decreases ps.len()
{
    if ps.len() > 0 {
        let r1 = res.drop_last();
        let p1 = ps.drop_last();
        assert forall|i: int| 0 <= i < p1.len() implies #[trigger] r1[i] == f.tree@[p1[i]].0 by { assert(r1[i] == res[i]); }
        assert forall|i: int| 0 <= i < p1.len() implies (f.tree@[#[trigger] p1[i]].0 == id <==> p1[i] == p) by { assert(p1[i] == ps[i]); }
        lemma_ids(f, r1, p1, id, p);
        assert(res[ps.len() - 1] == f.tree@[ps[ps.len() - 1]].0);
    }
}
proof fn lemma_exact(f: Flatbush, q: Envelope, res: Seq<usize>, items: Seq<Envelope>)
    requires q_exact(f, q, res), fb_holds(f, items)
    ensures is_exact(res, items, q)
{
    reveal(q_exact); reveal(fb_holds); reveal(q_acc); reveal(q_res);
    let ps = choose|ps: Seq<int>| #[trigger] q_res(f, q, res, ps) && q_acc(f, q, ps, Seq::empty(), q_none());
    assert forall|i: int| 0 <= i < ps.len() implies #[trigger] res[i] == f.tree@[ps[i]].0 && fb_hit(f, q, ps[i]) by { assert(fb_hit(f, q, ps[i])); }
    assert forall|i: usize| #[trigger] count_in(res, i) == b2n(i < items.len() && env_intersects(items[i as int], q)) by {
        if i < items.len() && env_intersects(items[i as int], q) {
            assert(!(items[i as int] is Empty));
            let p = choose|p: int| 0 <= p < fb_cap(f, 0) && (#[trigger] f.tree@[p]) == (i as int as usize, items[i as int]);
            assert(fb_hit(f, q, p));
            assert forall|j: int| 0 <= j < ps.len() implies (f.tree@[#[trigger] ps[j]].0 == i <==> ps[j] == p) by {
                assert(fb_hit(f, q, ps[j]));
                assert(!(f.tree@[ps[j]].1 is Empty) && !(f.tree@[p].1 is Empty));
            }
            lemma_ids(f, res, ps, i, p);
            assert(count_in(ps, p) + cnt(f, Seq::<FlatbushNode>::empty(), p) + q_none()(p) == 1);
        } else {
            assert forall|j: int| 0 <= j < res.len() implies #[trigger] res[j] != i by {
                assert(fb_hit(f, q, ps[j]));
                assert(!(f.tree@[ps[j]].1 is Empty));
            }
            lemma_count_zero(res, i);
        }
    }
}
// ---- building ---------------------------------------------------------------
/// An index whose topmost level so far has `s` nodes.
pub open spec fn fb_part(f: Flatbush, s: int) -> bool {
    &&& f.level_indices@.len() >= 1
    &&& fb_lo(f, 0) == 0
    &&& f.tree@.len() == fb_lo(f, fb_h(f)) + s
    &&& s >= 1
    &&& (fb_h(f) >= 1 ==> f.degree >= 2 && fb_rn(f, fb_h(f)) == s)
    &&& f.degree <= 0x1000_0000_0000_0000
    &&& forall|l: int| 1 <= l <= fb_h(f) ==> #[trigger] fb_level(f, l)
}
pub open spec fn fbx(degree: usize, level_indices: Vec<usize>, tree: Vec<(usize, Envelope)>) -> Flatbush { Flatbush { degree, level_indices, tree } }
/// Exact bound on the size of the finished index.
proof fn lemma_pot(d: int, s: int, cap: int, s2: int)
    requires d == 2 || d >= 4, s >= 2, cap == d * s2, s <= cap < s + d
    ensures s2 >= 1, s2 < s, cap + 4 * s2 + (if s2 > 1 { d } else { 0 }) <= 4 * s + d
{
    assert(s2 >= 1) by (nonlinear_arith) requires cap == d * s2, cap >= 2, d >= 2;
    if s <= d {
        assert(s2 == 1) by (nonlinear_arith) requires cap == d * s2, cap < s + d, s <= d, s2 >= 1, d >= 2;
    } else if d == 2 {
    } else {
        assert(4 * s2 <= cap) by (nonlinear_arith) requires cap == d * s2, d >= 4, s2 >= 1;
    }
    assert(s2 < s) by (nonlinear_arith) requires d >= 2, s >= 2, cap == d * s2, cap < s + d;
}
/// Padding a level to full capacity and adding the level above.
proof fn lemma_step(f: Flatbush, g: Flatbush, s: int, cap: int, s2: int)
    requires
        fb_part(f, s), g.degree == f.degree, f.degree >= 2,
        g.level_indices@ == f.level_indices@.push((fb_lo(f, fb_h(f)) + cap) as usize), fb_lo(f, fb_h(f)) + cap <= usize::MAX,
        cap == f.degree * s2, s <= cap, s2 >= 1,
        g.tree@.len() == fb_lo(f, fb_h(f)) + cap + s2,
        forall|i: int| 0 <= i < f.tree@.len() ==> #[trigger] g.tree@[i] == f.tree@[i],
        forall|i: int| f.tree@.len() <= i < fb_lo(f, fb_h(f)) + cap ==> #[trigger] g.tree@[i] == ((i - fb_lo(f, fb_h(f))) as usize, Envelope::Empty),
        forall|k: int| 0 <= k < s2 ==> #[trigger] g.tree@[fb_lo(f, fb_h(f)) + cap + k] == (k as usize, env_fold(fb_kids(g, fb_h(f) + 1, k))),
    ensures fb_part(g, s2)
{
    let h = fb_h(f);
    let d = f.degree as int;
    assert(fb_h(g) == h + 1);
    assert forall|l: int| 0 <= l <= h implies #[trigger] fb_lo(g, l) == fb_lo(f, l) by { }
    assert(fb_lo(g, h + 1) == fb_lo(f, h) + cap);
    lemma_mul_div(d, s2);
    assert(fb_rn(g, h + 1) == s2);
    reveal(fb_level);
    assert forall|l: int| 1 <= l <= h + 1 implies #[trigger] fb_level(g, l) by {
        if l <= h {
            assert(fb_level(f, l));
            assert(fb_lo(g, l) == fb_lo(f, l) && fb_lo(g, l - 1) == fb_lo(f, l - 1));
            if l < h { assert(fb_level(f, l + 1)); assert(fb_lo(g, l + 1) == fb_lo(f, l + 1)); lemma_lo_part(f, s, l + 1); }
            lemma_lo_part(f, s, l); lemma_lo_part(f, s, l - 1);
            assert forall|k: int| 0 <= k < fb_cap(g, l) implies #[trigger] fb_node_ok(g, l, k) by {
                reveal(fb_node_ok);
                if k < fb_cap(f, l) {
                    assert(fb_node_ok(f, l, k));
                    assert(g.tree@[fb_lo(f, l) + k] == f.tree@[fb_lo(f, l) + k]);
                    if k < fb_rn(f, l) {
                        let r = fb_rn(f, l);
                        lemma_slot(k, d, r);
                        assert(fb_kids(g, l, k) =~= fb_kids(f, l, k));
                    }
                } else {
                    assert(l == h);
                    assert(g.tree@[fb_lo(f, l) + k] == (k as usize, Envelope::Empty));
                }
            }
        } else {
            lemma_lo_part(f, s, h);
            assert forall|k: int| 0 <= k < fb_cap(g, l) implies #[trigger] fb_node_ok(g, l, k) by {
                reveal(fb_node_ok);
                assert(g.tree@[fb_lo(f, h) + cap + k] == (k as usize, env_fold(fb_kids(g, h + 1, k))));
            }
        }
    }
}
proof fn lemma_lo_part(f: Flatbush, s: int, l: int)
    requires fb_part(f, s), 0 <= l <= fb_h(f)
    ensures 0 <= fb_lo(f, l) < f.tree@.len(), l < fb_h(f) ==> fb_lo(f, l) <= fb_lo(f, l + 1), fb_lo(f, l) + fb_cap(f, l) <= f.tree@.len(),
        l >= 1 ==> fb_lo(f, l - 1) <= fb_lo(f, l), fb_lo(f, l) <= fb_lo(f, fb_h(f))
    decreases fb_h(f) - l
{
    reveal(fb_level);
    if l < fb_h(f) {
        lemma_lo_part(f, s, l + 1);
        assert(fb_level(f, l + 1));
        lemma_nonneg(f.degree as int, fb_rn(f, l + 1));
    }
    if l >= 1 {
        assert(fb_level(f, l));
        lemma_nonneg(f.degree as int, fb_rn(f, l));
    }
}
/// The leaves are the entries in order, then padding.
#[verifier::opaque]
pub open spec fn fb_leaves(f: Flatbush, e: Seq<(usize, Envelope)>) -> bool {
    &&& e.len() <= fb_cap(f, 0) <= f.tree@.len()
    &&& fb_lo(f, 0) == 0
    &&& forall|p: int| 0 <= p < e.len() ==> #[trigger] f.tree@[p] == e[p]
    &&& forall|p: int| e.len() <= p < fb_cap(f, 0) ==> (#[trigger] f.tree@[p]).1 is Empty
}
#[verifier::opaque]
pub open spec fn has_entry(e: Seq<(usize, Envelope)>, i: int, x: Envelope) -> bool { exists|p: int| 0 <= p < e.len() && (#[trigger] e[p]) == (i as usize, x) }
/// The entries are the items with their positions, in some order.
#[verifier::opaque]
pub open spec fn is_entries(e: Seq<(usize, Envelope)>, items: Seq<Envelope>) -> bool {
    &&& e.len() == items.len()
    &&& forall|p: int| 0 <= p < e.len() ==> (#[trigger] e[p]).0 < items.len() && items[e[p].0 as int] == e[p].1
    &&& forall|i: int| 0 <= i < items.len() ==> has_entry(e, i, #[trigger] items[i])
    &&& forall|p: int, r: int| 0 <= p < r < e.len() ==> (#[trigger] e[p]).0 != (#[trigger] e[r]).0
}
proof fn lemma_holds(f: Flatbush, e: Seq<(usize, Envelope)>, items: Seq<Envelope>)
    requires fb_wf(f), fb_leaves(f, e), is_entries(e, items)
    ensures fb_holds(f, items)
{
    reveal(fb_leaves); reveal(is_entries); reveal(fb_holds);
    assert forall|p: int| 0 <= p < fb_cap(f, 0) && !((#[trigger] f.tree@[p]).1 is Empty) implies f.tree@[p].0 < items.len() && items[f.tree@[p].0 as int] == f.tree@[p].1 by { assert(f.tree@[p] == e[p]); }
    assert forall|i: int| 0 <= i < items.len() && !((#[trigger] items[i]) is Empty) implies exists|p: int| 0 <= p < fb_cap(f, 0) && (#[trigger] f.tree@[p]) == (i as usize, items[i]) by {
        assert(has_entry(e, i, items[i])); reveal(has_entry);
        let p = choose|p: int| 0 <= p < e.len() && (#[trigger] e[p]) == (i as usize, items[i]);
        assert(f.tree@[p] == e[p]);
    }
    assert forall|p: int, r: int| 0 <= p < r < fb_cap(f, 0) && !((#[trigger] f.tree@[p]).1 is Empty) && !((#[trigger] f.tree@[r]).1 is Empty) implies f.tree@[p].0 != f.tree@[r].0 by {
        assert(f.tree@[p] == e[p] && f.tree@[r] == e[r]);
    }
}
/// An allocation is at most 2^63 - 1 bytes and an entry takes more than 16 bytes.
pub axiom fn ax_vec_entries(v: Vec<(usize, Envelope)>) ensures v@.len() < 0x0800_0000_0000_0000;
pub open spec fn chunk_envs(t: Seq<(usize, Envelope)>, a: int, d: int) -> Seq<Envelope> { Seq::new(d as nat, |j: int| t[a + j].1) }
proof fn lemma_enum_entries(e: Seq<(usize, Envelope)>, items: Seq<Envelope>)
    requires e.len() == items.len(), e.len() <= usize::MAX, forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == (i as usize, items[i])
    ensures is_entries(e, items)
{
    reveal(is_entries);
    assert forall|p: int| 0 <= p < e.len() implies (#[trigger] e[p]).0 < items.len() && items[e[p].0 as int] == e[p].1 by { assert(e[p] == (p as usize, items[p])); }
    assert forall|p: int, r: int| 0 <= p < r < e.len() implies (#[trigger] e[p]).0 != (#[trigger] e[r]).0 by { assert(e[p] == (p as usize, items[p])); assert(e[r] == (r as usize, items[r])); }
    assert forall|i: int| 0 <= i < items.len() implies has_entry(e, i, #[trigger] items[i]) by { reveal(has_entry); assert(e[i] == (i as usize, items[i])); }
}
/// Only the contents of the vectors matter.
proof fn lemma_fb_same(f: Flatbush, g: Flatbush, e: Seq<(usize, Envelope)>)
    requires fb_wf(f), fb_leaves(f, e), f.degree == g.degree, f.level_indices@ == g.level_indices@, f.tree@ == g.tree@
    ensures fb_wf(g), fb_leaves(g, e)
{
    reveal(fb_leaves);
    assert forall|l: int| 1 <= l <= fb_h(g) implies #[trigger] fb_level(g, l) by {
        assert(fb_level(f, l)); reveal(fb_level);
        assert forall|k: int| 0 <= k < fb_cap(g, l) implies #[trigger] fb_node_ok(g, l, k) by {
            assert(fb_node_ok(f, l, k)); reveal(fb_node_ok);
            assert(fb_kids(f, l, k) =~= fb_kids(g, l, k));
        }
    }
}
proof fn lemma_step_code(f: Flatbush, g: Flatbush, s: int, cap: int, s2: int, t: Seq<(usize, Envelope)>, next: Seq<Envelope>)
    requires
        fb_part(f, s), g.degree == f.degree, f.degree >= 2,
        g.level_indices@ == f.level_indices@.push((fb_lo(f, fb_h(f)) + cap) as usize), fb_lo(f, fb_h(f)) + cap <= usize::MAX,
        cap == f.degree * s2, s <= cap, s2 >= 1,
        t.len() == fb_lo(f, fb_h(f)) + cap, next.len() == s2,
        g.tree@.len() == t.len() + s2,
        forall|i: int| 0 <= i < t.len() ==> #[trigger] g.tree@[i] == t[i],
        forall|i: int| 0 <= i < f.tree@.len() ==> #[trigger] t[i] == f.tree@[i],
        forall|i: int| f.tree@.len() <= i < t.len() ==> #[trigger] t[i] == ((i - fb_lo(f, fb_h(f))) as usize, Envelope::Empty),
        forall|k: int| 0 <= k < s2 ==> #[trigger] g.tree@[t.len() + k] == (k as usize, next[k]),
        forall|k: int| 0 <= k < s2 ==> #[trigger] next[k] == env_fold(chunk_envs(t, fb_lo(f, fb_h(f)) + k * f.degree, f.degree as int)),
    ensures fb_part(g, s2), forall|e: Seq<(usize, Envelope)>| #[trigger] fb_leaves(f, e) ==> fb_leaves(g, e)
{
    let h = fb_h(f);
    let d = f.degree as int;
    lemma_lo_part(f, s, h);
    lemma_lo_part(f, s, 0);
    assert(fb_lo(g, h) == fb_lo(f, h));
    assert forall|k: int| 0 <= k < s2 implies #[trigger] g.tree@[fb_lo(f, h) + cap + k] == (k as usize, env_fold(fb_kids(g, h + 1, k))) by {
        lemma_slot(k, d, s2);
        assert(fb_kids(g, h + 1, k) =~= chunk_envs(t, fb_lo(f, h) + k * d, d));
        assert(next[k] == env_fold(chunk_envs(t, fb_lo(f, h) + k * d, d)));
        assert(g.tree@[t.len() + k] == (k as usize, next[k]));
    }
    assert forall|i: int| 0 <= i < f.tree@.len() implies #[trigger] g.tree@[i] == f.tree@[i] by { assert(t[i] == f.tree@[i]); }
    assert forall|i: int| f.tree@.len() <= i < fb_lo(f, h) + cap implies #[trigger] g.tree@[i] == ((i - fb_lo(f, h)) as usize, Envelope::Empty) by { assert(t[i] == ((i - fb_lo(f, h)) as usize, Envelope::Empty)); }
    lemma_step(f, g, s, cap, s2);
    assert forall|e: Seq<(usize, Envelope)>| #[trigger] fb_leaves(f, e) implies fb_leaves(g, e) by {
        reveal(fb_leaves);
        if h > 0 { assert(fb_lo(g, 1) == fb_lo(f, 1)); assert(fb_cap(g, 0) == fb_cap(f, 0)); lemma_lo_part(f, s, 1); }
        else { assert(fb_cap(g, 0) == cap); }
        lemma_lo_part(g, s2, 0);
    }
}
/// A permutation of the enumerated items, with the sort keys dropped.
proof fn lemma_perm_entries(e: Seq<(usize, Envelope)>, k: Seq<(u32, usize, Envelope)>, items: Seq<Envelope>, p: Seq<int>)
    requires e.len() == items.len(), k.len() == items.len(), e.len() <= usize::MAX, is_perm(p, e.len() as int),
        forall|i: int| 0 <= i < k.len() ==> (#[trigger] k[i]).1 == p[i] && k[i].2 == items[p[i]],
        forall|i: int| 0 <= i < e.len() ==> #[trigger] e[i] == (k[i].1, k[i].2),
    ensures is_entries(e, items)
{
    reveal(is_entries);
    assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] == (p[i] as usize, items[p[i]]) by { assert(k[i].1 == p[i]); }
    assert forall|i: int| 0 <= i < items.len() implies has_entry(e, i, #[trigger] items[i]) by {
        reveal(has_entry); assert(perm_at(p, i)); reveal(perm_at);
        let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == i;
        assert(e[j] == (i as usize, items[i]));
    }
    assert forall|i: int, j: int| 0 <= i < j < e.len() implies (#[trigger] e[i]).0 != (#[trigger] e[j]).0 by { assert(e[i] == (p[i] as usize, items[p[i]])); assert(e[j] == (p[j] as usize, items[p[j]])); }
}
/// The first n entries are stored in the order of their keys.
#[verifier::opaque]
pub open spec fn in_key_order(f: Flatbush, t: Envelope, n: int) -> bool {
    n <= f.tree@.len() && forall|p: int, r: int| 0 <= p <= r < n ==> item_key(t, (#[trigger] f.tree@[p]).1) <= item_key(t, (#[trigger] f.tree@[r]).1)
}
proof fn lemma_key_order(f: Flatbush, t: Envelope, e: Seq<(usize, Envelope)>)
    requires fb_leaves(f, e), forall|p: int, r: int| 0 <= p <= r < e.len() ==> item_key(t, (#[trigger] e[p]).1) <= item_key(t, (#[trigger] e[r]).1)
    ensures in_key_order(f, t, e.len() as int)
{
    reveal(fb_leaves); reveal(in_key_order);
    assert forall|p: int, r: int| 0 <= p <= r < e.len() implies item_key(t, (#[trigger] f.tree@[p]).1) <= item_key(t, (#[trigger] f.tree@[r]).1) by { assert(f.tree@[p] == e[p] && f.tree@[r] == e[r]); }
}
