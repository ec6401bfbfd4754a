// Joining an index with itself.
pub open spec fn hit_s(f: Flatbush, p: int, r: int) -> bool { p < r && hit2(f, f, p, r) && f.tree@[p].0 != f.tree@[r].0 }
pub open spec fn id_pair(f: Flatbush, p: int, r: int) -> (usize, usize) {
    let a = f.tree@[p].0;
    let b = f.tree@[r].0;
    if a <= b { (a, b) } else { (b, a) }
}
#[verifier::opaque]
pub open spec fn s_res(f: Flatbush, res: Seq<(usize, usize)>, ps: Seq<(int, int)>) -> bool {
    res.len() == ps.len() && forall|i: int| 0 <= i < ps.len() ==> hit_s(f, (#[trigger] ps[i]).0, ps[i].1) && res[i] == id_pair(f, ps[i].0, ps[i].1)
}
pub open spec fn s_pair(f: Flatbush, n: NPair) -> bool { fb_inner(f, n.0) && fb_inner(f, n.1) && n.0.level == n.1.level }
#[verifier::opaque]
pub open spec fn s_todo(f: Flatbush, s: Seq<NPair>) -> bool { forall|j: int| 0 <= j < s.len() ==> s_pair(f, #[trigger] s[j]) }
#[verifier::opaque]
pub open spec fn s_acc(f: Flatbush, ps: Seq<(int, int)>, s: Seq<NPair>, rest: spec_fn(int, int) -> int) -> bool {
    forall|p: int, r: int| hit_s(f, p, r) ==> #[trigger] count_in(ps, (p, r)) + cnt2(f, f, s, p, r) + rest(p, r) == 1
}
/// Pairs of `s` from the i-th on.
pub open spec fn s_left(f: Flatbush, s: Seq<NPair>, i: int) -> spec_fn(int, int) -> int {
    |p: int, r: int| cnt2(f, f, s, p, r) - cnt2(f, f, s.take(i), p, r)
}
pub open spec fn work_s(d: int, s: Seq<NPair>) -> int decreases s.len() { if s.len() == 0 { 0 } else { work_s(d, s.drop_last()) + wt(d, s.last().0.level as int) } }
proof fn lemma_work_s(d: int, s: Seq<NPair>) requires d >= 0 ensures work_s(d, s) >= 0 decreases s.len()
{ if s.len() > 0 { lemma_work_s(d, s.drop_last()); lemma_wt(d, s.last().0.level as int); } }
proof fn lemma_work_s_push(d: int, s: Seq<NPair>, n: NPair)
    ensures work_s(d, s.push(n)) == work_s(d, s) + wt(d, n.0.level as int)
{ assert(s.push(n).drop_last() =~= s); }
/// What `_maybe_push_self_isxn` does with a pair.
pub open spec fn s_push(n: NPair, res: Seq<(usize, usize)>, todo: Seq<NPair>, res2: Seq<(usize, usize)>, todo2: Seq<NPair>) -> bool {
    if n.0.tree_index > n.1.tree_index || !env_intersects(n.0.envelope, n.1.envelope) { res2 == res && todo2 == todo }
    else if n.0.level == 0 {
        todo2 == todo && res2 == (if n.0.sibling_index == n.1.sibling_index { res } else if n.0.sibling_index < n.1.sibling_index { res.push((n.0.sibling_index, n.1.sibling_index)) } else { res.push((n.1.sibling_index, n.0.sibling_index)) })
    } else { res2 == res && todo2 == todo.push(n) }
}
pub open spec fn s_ps(n: NPair, ps: Seq<(int, int)>) -> Seq<(int, int)> {
    if n.0.tree_index <= n.1.tree_index && env_intersects(n.0.envelope, n.1.envelope) && n.0.level == 0 && n.0.sibling_index != n.1.sibling_index { ps.push((n.0.tree_index as int, n.1.tree_index as int)) } else { ps }
}
proof fn lemma_s_push(f: Flatbush, d: int, n: NPair, res: Seq<(usize, usize)>, todo: Seq<NPair>, res2: Seq<(usize, usize)>, todo2: Seq<NPair>, ps: Seq<(int, int)>, rest: spec_fn(int, int) -> int, rest2: spec_fn(int, int) -> int)
    requires
        fb_wf(f), fb_node(f, n.0), fb_node(f, n.1), n.0.level == n.1.level, s_push(n, res, todo, res2, todo2), d >= 0,
        s_res(f, res, ps), s_todo(f, todo), s_acc(f, ps, todo, rest),
        forall|p: int, r: int| hit_s(f, p, r) ==> #[trigger] rest(p, r) == rest2(p, r) + b2n(covers2(f, f, n, p, r)),
    ensures s_res(f, res2, s_ps(n, ps)), s_todo(f, todo2), s_acc(f, s_ps(n, ps), todo2, rest2), work_s(d, todo2) <= work_s(d, todo) + wt(d, n.0.level as int),
{
    reveal(s_todo); reveal(s_acc); reveal(s_res);
    let ps2 = s_ps(n, ps);
    lemma_cnt2_push(f, f, todo, n);
    lemma_work_s_push(d, todo, n);
    lemma_wt(d, n.0.level as int);
    lemma_count_push(ps, (n.0.tree_index as int, n.1.tree_index as int));
    if env_intersects(n.0.envelope, n.1.envelope) { lemma_live(f, n.0); lemma_live(f, n.1); }
    assert forall|p: int, r: int| hit_s(f, p, r) implies #[trigger] count_in(ps2, (p, r)) + cnt2(f, f, todo2, p, r) + rest2(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, f, todo, p, r) + rest(p, r) == 1);
        assert(rest(p, r) == rest2(p, r) + b2n(covers2(f, f, n, p, r)));
        if covers2(f, f, n, p, r) {
            lemma_hit_up(f, f, n, p, r);
            if f.degree == 0 { assert(n.0.level == 0); } else { lemma_anc_mono(f.degree as int, n.0.level as int, p, r); }
            assert(n.0.tree_index <= n.1.tree_index);
        }
        if n.0.level == 0 { assert(covers2(f, f, n, p, r) <==> n.0.tree_index == p && n.1.tree_index == r); }
    }
    assert forall|i: int| 0 <= i < ps2.len() implies hit_s(f, (#[trigger] ps2[i]).0, ps2[i].1) && res2[i] == id_pair(f, ps2[i].0, ps2[i].1) by {
        if i < ps.len() { assert(ps2[i] == ps[i]); assert(hit_s(f, ps[i].0, ps[i].1)); }
    }
}
proof fn lemma_s_start(f: Flatbush, d: int, res: Seq<(usize, usize)>, todo: Seq<NPair>)
    requires fb_wf(f), fb_node(f, fb_root(f)), s_push((fb_root(f), fb_root(f)), Seq::empty(), Seq::empty(), res, todo), d >= 0,
        fb_pos(f, fb_root(f)) == 0, fb_root(f).level == fb_h(f),
    ensures s_todo(f, todo), s_acc(f, s_ps((fb_root(f), fb_root(f)), Seq::empty()), todo, x_none()), s_res(f, res, s_ps((fb_root(f), fb_root(f)), Seq::empty())),
{
    let n = (fb_root(f), fb_root(f));
    assert(s_todo(f, Seq::empty())) by { reveal(s_todo); }
    assert(s_res(f, Seq::empty(), Seq::empty())) by { reveal(s_res); }
    assert(s_acc(f, Seq::empty(), Seq::<NPair>::empty(), x_one(f, f, n))) by {
        reveal(s_acc);
        assert forall|p: int, r: int| hit_s(f, p, r) implies #[trigger] count_in(Seq::<(int, int)>::empty(), (p, r)) + cnt2(f, f, Seq::<NPair>::empty(), p, r) + x_one(f, f, n)(p, r) == 1 by {
            lemma_root_covers(f, n.0, p); lemma_root_covers(f, n.1, r);
        }
    }
    assert forall|p: int, r: int| hit_s(f, p, r) implies #[trigger] x_one(f, f, n)(p, r) == x_none()(p, r) + b2n(covers2(f, f, n, p, r)) by { }
    lemma_s_push(f, d, n, Seq::empty(), Seq::empty(), res, todo, Seq::empty(), x_one(f, f, n), x_none());
}
proof fn lemma_cnt2_add(f: Flatbush, g: Flatbush, a: Seq<NPair>, b: Seq<NPair>, p: int, r: int)
    ensures cnt2(f, g, a + b, p, r) == cnt2(f, g, a, p, r) + cnt2(f, g, b, p, r)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { lemma_cnt2_add(f, g, a, b.drop_last(), p, r); assert((a + b).drop_last() =~= a + b.drop_last()); }
}
proof fn lemma_cnt2_row(f: Flatbush, g: Flatbush, x: FlatbushNode, b: Seq<FlatbushNode>, p: int, r: int)
    ensures cnt2(f, g, vrow(x, b), p, r) == b2n(covers(f, x, p)) * cnt(g, b, r)
    decreases b.len()
{
    if b.len() > 0 {
        lemma_cnt2_row(f, g, x, b.drop_last(), p, r);
        assert(vrow(x, b).drop_last() =~= vrow(x, b.drop_last()));
        let k = b2n(covers(f, x, p)) as int;
        let c = cnt(g, b.drop_last(), r) as int;
        let e = b2n(covers(g, b.last(), r)) as int;
        assert(k * (c + e) == k * c + k * e) by (nonlinear_arith);
        assert(k * e == b2n(covers(f, x, p) && covers(g, b.last(), r))) by (nonlinear_arith) requires k == b2n(covers(f, x, p)), e == b2n(covers(g, b.last(), r));
    } else { assert(b2n(covers(f, x, p)) * 0 == 0) by (nonlinear_arith); }
}
proof fn lemma_cnt2_prod(f: Flatbush, g: Flatbush, a: Seq<FlatbushNode>, b: Seq<FlatbushNode>, p: int, r: int)
    ensures cnt2(f, g, vprod(a, b), p, r) == cnt(f, a, p) * cnt(g, b, r)
    decreases a.len()
{
    if a.len() > 0 {
        lemma_cnt2_prod(f, g, a.drop_last(), b, p, r);
        lemma_cnt2_row(f, g, a.last(), b, p, r);
        lemma_cnt2_add(f, g, vprod(a.drop_last(), b), vrow(a.last(), b), p, r);
        let x = cnt(f, a.drop_last(), p) as int;
        let y = b2n(covers(f, a.last(), p)) as int;
        let z = cnt(g, b, r) as int;
        assert((x + y) * z == x * z + y * z) by (nonlinear_arith);
    } else { assert(0 * cnt(g, b, r) == 0) by (nonlinear_arith); }
}
proof fn lemma_prod_elem<A, B>(a: Seq<A>, b: Seq<B>, i: int) -> (k: (int, int))
    requires 0 <= i < vprod(a, b).len()
    ensures 0 <= k.0 < a.len(), 0 <= k.1 < b.len(), vprod(a, b)[i] == (a[k.0], b[k.1])
    decreases a.len()
{
    let h = vprod(a.drop_last(), b);
    if i < h.len() { lemma_prod_elem(a.drop_last(), b, i) } else { (a.len() - 1, i - h.len()) }
}
proof fn lemma_prod_len<A, B>(a: Seq<A>, b: Seq<B>) ensures vprod(a, b).len() == a.len() * b.len() decreases a.len()
{
    if a.len() > 0 { lemma_prod_len(a.drop_last(), b); assert(a.len() * b.len() == (a.len() - 1) * b.len() + b.len()) by (nonlinear_arith); }
    else { assert(0 * b.len() == 0) by (nonlinear_arith); }
}
/// The pairs put in place of a pair.
pub open spec fn s_kids(f: Flatbush, n: NPair, s: Seq<NPair>) -> bool {
    &&& s.len() <= f.degree * f.degree
    &&& forall|i: int| 0 <= i < s.len() ==> #[trigger] s_kid(f, n, s[i])
}
pub open spec fn s_kid(f: Flatbush, n: NPair, c: NPair) -> bool { fb_node(f, c.0) && fb_node(f, c.1) && c.0.level == n.0.level - 1 && c.1.level == n.0.level - 1 }
proof fn lemma_s_kids(f: Flatbush, n: NPair, a: Seq<FlatbushNode>, b: Seq<FlatbushNode>, ps: Seq<(int, int)>, t: Seq<NPair>)
    requires fb_wf(f), s_pair(f, n), kids_ok(f, n.0, n.1.envelope, a, f.degree as int), kids_ok(f, n.1, n.0.envelope, b, f.degree as int), s_acc(f, ps, t, x_one(f, f, n))
    ensures s_kids(f, n, vprod(a, b)), s_acc(f, ps, t, s_left(f, vprod(a, b), 0))
{
    reveal(kids_ok); reveal(s_acc);
    let s = vprod(a, b);
    let d = f.degree as int;
    lemma_prod_len(a, b);
    assert(a.len() * b.len() <= d * d) by (nonlinear_arith) requires a.len() <= d, b.len() <= d;
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] s_kid(f, n, s[i]) by { let k = lemma_prod_elem(a, b, i); assert(fb_node(f, a[k.0]) && fb_node(f, b[k.1])); }
    assert forall|p: int, r: int| hit_s(f, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, f, t, p, r) + s_left(f, s, 0)(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, f, t, p, r) + x_one(f, f, n)(p, r) == 1);
        lemma_cnt2_prod(f, f, a, b, p, r);
        assert(s.take(0) =~= Seq::empty());
        let l = n.0.level - 1;
        lemma_anc_range(f, l, p); lemma_anc_range(f, l, r); lemma_level(f, n.0.level as int);
        lemma_mod_range(anc(d, l, p), d); lemma_mod_range(anc(d, l, r), d);
        let x = cnt(f, a, p) as int;
        let y = cnt(f, b, r) as int;
        assert(x <= b2n(covers(f, n.0, p)) && y <= b2n(covers(f, n.1, r)));
        if covers2(f, f, n, p, r) {
            let ep = f.tree@[p].1;
            let er = f.tree@[r].1;
            lemma_sym(ep, er);
            lemma_up(f, l + 1, r, ep); lemma_sym(ep, n.1.envelope);
            lemma_up(f, l + 1, p, er); lemma_sym(er, n.0.envelope);
            assert(x == 1 && y == 1);
        }
        assert(x * y == x_one(f, f, n)(p, r)) by (nonlinear_arith) requires 0 <= x <= 1, 0 <= y <= 1, x_one(f, f, n)(p, r) == (if x == 1 && y == 1 { 1int } else { 0 });
    }
}
proof fn lemma_s_pop(f: Flatbush, d: int, ps: Seq<(int, int)>, s: Seq<NPair>, n: NPair)
    requires fb_wf(f), d >= 0, s_todo(f, s.push(n)), s_acc(f, ps, s.push(n), x_none())
    ensures s_pair(f, n), s_todo(f, s), s_acc(f, ps, s, x_one(f, f, n)),
        work_s(d, s.push(n)) == work_s(d, s) + d * wt(d, n.0.level - 1) + 1,
        work_s(d, s) >= 0,
{
    reveal(s_todo); reveal(s_acc);
    let t = s.push(n);
    assert(s_pair(f, t[s.len() as int]));
    assert forall|j: int| 0 <= j < s.len() implies s_pair(f, #[trigger] s[j]) by { assert(s_pair(f, t[j])); }
    lemma_cnt2_push(f, f, s, n);
    lemma_work_s_push(d, s, n);
    lemma_work_s(d, s);
    assert forall|p: int, r: int| hit_s(f, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, f, s, p, r) + x_one(f, f, n)(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, f, t, p, r) + x_none()(p, r) == 1);
    }
}
proof fn lemma_s_next(f: Flatbush, s: Seq<NPair>, i: int)
    requires 0 <= i < s.len()
    ensures forall|p: int, r: int| #[trigger] s_left(f, s, i)(p, r) == s_left(f, s, i + 1)(p, r) + b2n(covers2(f, f, s[i], p, r))
{
    lemma_cnt2_push(f, f, s.take(i), s[i]);
    assert(s.take(i + 1) =~= s.take(i).push(s[i]));
    assert forall|p: int, r: int| #[trigger] s_left(f, s, i)(p, r) == s_left(f, s, i + 1)(p, r) + b2n(covers2(f, f, s[i], p, r)) by {
        assert(cnt2(f, f, s.take(i).push(s[i]), p, r) == cnt2(f, f, s.take(i), p, r) + b2n(covers2(f, f, s[i], p, r)));
    }
}
proof fn lemma_s_done(f: Flatbush, ps: Seq<(int, int)>, t: Seq<NPair>, s: Seq<NPair>)
    requires s_acc(f, ps, t, s_left(f, s, s.len() as int)) ensures s_acc(f, ps, t, x_none())
{
    reveal(s_acc);
    assert(s.take(s.len() as int) =~= s);
    assert forall|p: int, r: int| hit_s(f, p, r) implies #[trigger] count_in(ps, (p, r)) + cnt2(f, f, t, p, r) + x_none()(p, r) == 1 by {
        assert(count_in(ps, (p, r)) + cnt2(f, f, t, p, r) + s_left(f, s, s.len() as int)(p, r) == 1);
    }
}
#[verifier::opaque]
pub open spec fn s_exact(f: Flatbush, res: Seq<(usize, usize)>) -> bool {
    exists|ps: Seq<(int, int)>| #[trigger] s_res(f, res, ps) && s_acc(f, ps, Seq::empty(), x_none())
}
/// Exactly the pairs i < j of items whose boxes meet, each once.
pub open spec fn is_exact_self(res: Seq<(usize, usize)>, a: Seq<Envelope>) -> bool {
    forall|i: usize, j: usize| #[trigger] count_in(res, (i, j)) == b2n(i < j && j < a.len() && env_intersects(a[i as int], a[j as int]))
}
proof fn lemma_exact_self(f: Flatbush, res: Seq<(usize, usize)>, a: Seq<Envelope>)
    requires s_exact(f, res), fb_holds(f, a)
    ensures is_exact_self(res, a)
{
    reveal(s_exact); reveal(s_acc); reveal(s_res);
    let ps = choose|ps: Seq<(int, int)>| #[trigger] s_res(f, res, ps) && s_acc(f, ps, Seq::empty(), x_none());
    assert forall|i: usize, j: usize| #[trigger] count_in(res, (i, j)) == b2n(i < j && j < a.len() && env_intersects(a[i as int], a[j as int])) by {
        if i < j && j < a.len() && env_intersects(a[i as int], a[j as int]) {
            let p0 = lemma_leaf(f, a, i as int);
            let r0 = lemma_leaf(f, a, j as int);
            let p = if p0 < r0 { p0 } else { r0 };
            let r = if p0 < r0 { r0 } else { p0 };
            lemma_sym(a[i as int], a[j as int]);
            assert(hit_s(f, p, r));
            assert forall|k: int| 0 <= k < ps.len() implies ((#[trigger] res[k]) == (i, j) <==> ps[k] == (p, r)) by {
                assert(hit_s(f, ps[k].0, ps[k].1));
                assert(!(f.tree@[ps[k].0].1 is Empty) && !(f.tree@[ps[k].1].1 is Empty));
            }
            lemma_keys(res, ps, (i, j), (p, r));
            assert(count_in(ps, (p, r)) + cnt2(f, f, Seq::<NPair>::empty(), p, r) + x_none()(p, r) == 1);
        } else {
            assert forall|k: int| 0 <= k < res.len() implies #[trigger] res[k] != (i, j) by {
                assert(hit_s(f, ps[k].0, ps[k].1));
                lemma_leaf_item(f, a, ps[k].0); lemma_leaf_item(f, a, ps[k].1);
                lemma_sym(f.tree@[ps[k].0].1, f.tree@[ps[k].1].1);
            }
            lemma_count_zero(res, (i, j));
        }
    }
}
