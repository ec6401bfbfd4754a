// Collections of simple chains that touch at their ends only.
pub open spec fn ls_boxed(l: LineString) -> bool { l._envelope == seq_env(l.positions@) }
pub open spec fn all_boxed(s: Seq<LineString>) -> bool { forall|i: int| 0 <= i < s.len() ==> ls_boxed(#[trigger] s[i]) }
/// (x, y) is one of the two ends; a closed line string has none.
pub open spec fn is_tip(s: Seq<Position>, x: real, y: real) -> bool {
    !ls_closed(s) && s.len() > 0 && ((x == rx(s[0]) && y == ry(s[0])) || (x == rx(s.last()) && y == ry(s.last())))
}
#[verifier::opaque]
pub open spec fn touch_ok(s: Seq<Position>, t: Seq<Position>, i: int, j: int) -> bool {
    forall|x: real, y: real| #[trigger] both(ls_segs(s)[i], ls_segs(t)[j], x, y) ==> is_tip(s, x, y) && is_tip(t, x, y)
}
#[verifier::opaque]
pub open spec fn members_ok(s: Seq<Position>, t: Seq<Position>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() - 1 && 0 <= j < t.len() - 1 ==> #[trigger] touch_ok(s, t, i, j)
}
pub open spec fn all_members_ok(l: Seq<LineString>) -> bool {
    forall|i: int, j: int| 0 <= i < j < l.len() ==> members_ok((#[trigger] l[i]).positions@, (#[trigger] l[j]).positions@)
}
/// Every member a simple chain, shared points ends of both.
pub open spec fn is_mls_valid(l: Seq<LineString>) -> bool {
    (forall|i: int| 0 <= i < l.len() ==> is_chain((#[trigger] l[i]).positions@)) && all_members_ok(l)
}
/// In terms of points only.
pub open spec fn on_chain(s: Seq<Position>, x: real, y: real) -> bool { exists|i: int| 0 <= i < s.len() - 1 && on(#[trigger] ls_segs(s)[i], x, y) }
proof fn lemma_members_points(s: Seq<Position>, t: Seq<Position>)
    ensures members_ok(s, t) <==> (forall|x: real, y: real| #[trigger] on_chain(s, x, y) && #[trigger] on_chain(t, x, y) ==> is_tip(s, x, y) && is_tip(t, x, y))
{
    reveal(members_ok); reveal(touch_ok);
    if members_ok(s, t) {
        assert forall|x: real, y: real| #[trigger] on_chain(s, x, y) && #[trigger] on_chain(t, x, y) implies is_tip(s, x, y) && is_tip(t, x, y) by {
            let i = choose|i: int| 0 <= i < s.len() - 1 && on(#[trigger] ls_segs(s)[i], x, y);
            let j = choose|i: int| 0 <= i < t.len() - 1 && on(#[trigger] ls_segs(t)[i], x, y);
            assert(touch_ok(s, t, i, j));
            assert(both(ls_segs(s)[i], ls_segs(t)[j], x, y));
        }
    }
    if forall|x: real, y: real| #[trigger] on_chain(s, x, y) && #[trigger] on_chain(t, x, y) ==> is_tip(s, x, y) && is_tip(t, x, y) {
        assert forall|i: int, j: int| 0 <= i < s.len() - 1 && 0 <= j < t.len() - 1 implies #[trigger] touch_ok(s, t, i, j) by {
            assert forall|x: real, y: real| #[trigger] both(ls_segs(s)[i], ls_segs(t)[j], x, y) implies is_tip(s, x, y) && is_tip(t, x, y) by {
                assert(on_chain(s, x, y) && on_chain(t, x, y));
            }
        }
    }
}
/// What an intersection says about a pair of segments.
pub open spec fn touch_verdict(s: Seq<Position>, t: Seq<Position>, r: SegmentIntersection) -> bool {
    match r {
        SegmentIntersection::None => true,
        SegmentIntersection::Position(p) => is_tip(s, rx(p), ry(p)) && is_tip(t, rx(p), ry(p)),
        SegmentIntersection::Segment(_) => false,
    }
}
/// A segment of positive length has a third point.
proof fn lemma_third(s: Segment) -> (r: (real, real))
    requires !(rx(s.start) == rx(s.end) && ry(s.start) == ry(s.end))
    ensures on(s, r.0, r.1), !(r.0 == rx(s.start) && r.1 == ry(s.start)), !(r.0 == rx(s.end) && r.1 == ry(s.end))
{
    reveal(onr);
    let x = rx(s.start) + 0.5real * ux(s);
    let y = ry(s.start) + 0.5real * uy(s);
    assert(on_t(rx(s.start), ry(s.start), rx(s.end), ry(s.end), x, y, 0.5real));
    (x, y)
}
proof fn lemma_touch_verdict(s: Seq<Position>, t: Seq<Position>, i: int, j: int)
    requires 0 <= i < s.len() - 1, 0 <= j < t.len() - 1
    ensures forall|r: SegmentIntersection| #[trigger] is_isxn(ls_segs(s)[i], ls_segs(t)[j], r) ==> (touch_ok(s, t, i, j) <==> touch_verdict(s, t, r))
{
    reveal(touch_ok);
    let a = ls_segs(s)[i];
    let b = ls_segs(t)[j];
    assert forall|r: SegmentIntersection| #[trigger] is_isxn(a, b, r) implies (touch_ok(s, t, i, j) <==> touch_verdict(s, t, r)) by {
        match r {
            SegmentIntersection::None => {}
            SegmentIntersection::Position(p) => { assert(both(a, b, rx(p), ry(p))); }
            SegmentIntersection::Segment(g) => {
                lemma_ends(g);
                let m = lemma_third(g);
                assert(both(a, b, rx(g.start), ry(g.start)));
                assert(both(a, b, rx(g.end), ry(g.end)));
                assert(both(a, b, m.0, m.1));
            }
        }
    }
}
proof fn lemma_touch_apart(s: Seq<Position>, t: Seq<Position>, i: int, j: int)
    requires all_finite(s), all_finite(t), 0 <= i < s.len() - 1, 0 <= j < t.len() - 1, !env_intersects(envs(ls_segs(s))[i], envs(ls_segs(t))[j])
    ensures touch_ok(s, t, i, j)
{
    reveal(touch_ok);
    assert forall|x: real, y: real| #[trigger] both(ls_segs(s)[i], ls_segs(t)[j], x, y) implies is_tip(s, x, y) && is_tip(t, x, y) by { lemma_both_boxes(ls_segs(s)[i], ls_segs(t)[j], x, y); }
}
proof fn lemma_cand2(res: Seq<(usize, usize)>, a: Seq<Envelope>, b: Seq<Envelope>, k: int)
    requires is_exact2(res, a, b), 0 <= k < res.len() ensures 0 <= res[k].0 < a.len(), 0 <= res[k].1 < b.len()
{ lemma_in_count(res, k); let (i, j) = res[k]; assert(count_in(res, (i, j)) >= 1); }
proof fn lemma_members_ok(s: Seq<Position>, t: Seq<Position>, res: Seq<(usize, usize)>)
    requires all_finite(s), all_finite(t), s.len() <= usize::MAX, t.len() <= usize::MAX, is_exact2(res, envs(ls_segs(s)), envs(ls_segs(t))),
        forall|k: int| 0 <= k < res.len() ==> touch_ok(s, t, (#[trigger] res[k]).0 as int, res[k].1 as int)
    ensures members_ok(s, t)
{
    reveal(members_ok);
    assert forall|i: int, j: int| 0 <= i < s.len() - 1 && 0 <= j < t.len() - 1 implies #[trigger] touch_ok(s, t, i, j) by {
        let a = i as usize;
        let b = j as usize;
        assert(envs(ls_segs(s)).len() == s.len() - 1 && envs(ls_segs(t)).len() == t.len() - 1);
        if env_intersects(envs(ls_segs(s))[i], envs(ls_segs(t))[j]) {
            assert(count_in(res, (a, b)) == 1);
            if forall|k: int| 0 <= k < res.len() ==> #[trigger] res[k] != (a, b) { lemma_count_zero(res, (a, b)); }
            let k = choose|k: int| 0 <= k < res.len() && #[trigger] res[k] == (a, b);
            assert(touch_ok(s, t, res[k].0 as int, res[k].1 as int));
        } else { lemma_touch_apart(s, t, i, j); }
    }
}
proof fn lemma_members_bad(s: Seq<Position>, t: Seq<Position>, i: int, j: int)
    requires 0 <= i < s.len() - 1, 0 <= j < t.len() - 1, !touch_ok(s, t, i, j) ensures !members_ok(s, t)
{ reveal(members_ok); }
// ---- boxes of chains --------------------------------------------------------
pub open spec fn in_box(e: Envelope, x: real, y: real) -> bool {
    match e {
        Envelope::Bounds { min, max } => pos_finite(min) && pos_finite(max) && rx(min) <= x <= rx(max) && ry(min) <= y <= ry(max),
        _ => false,
    }
}
proof fn lemma_fold_box(s: Seq<Position>)
    requires all_finite(s), s.len() > 0
    ensures forall|i: int| 0 <= i < s.len() ==> in_box(seq_env(s), rx(#[trigger] s[i]), ry(s[i]))
    decreases s.len()
{
    let t = s.drop_last();
    assert(envs(s).drop_last() =~= envs(t));
    assert(envs(s).last() == env_pos(s.last()));
    assert(pos_finite(s.last()));
    if t.len() > 0 {
        assert forall|i: int| 0 <= i < t.len() implies pos_finite(#[trigger] t[i]) by { assert(t[i] == s[i]); }
        lemma_fold_box(t);
        assert(in_box(seq_env(t), rx(t[0]), ry(t[0])));
        assert forall|i: int| 0 <= i < s.len() implies in_box(seq_env(s), rx(#[trigger] s[i]), ry(s[i])) by {
            if i < t.len() { assert(t[i] == s[i]); }
        }
    } else {
        assert(env_fold(envs(t)) == Envelope::Empty);
        assert forall|i: int| 0 <= i < s.len() implies in_box(seq_env(s), rx(#[trigger] s[i]), ry(s[i])) by { assert(s[i] == s.last()); }
    }
}
/// Chains whose boxes do not intersect share no point.
proof fn lemma_chains_apart(s: Seq<Position>, t: Seq<Position>)
    requires all_finite(s), all_finite(t), !env_intersects(seq_env(s), seq_env(t)) ensures members_ok(s, t)
{
    reveal(members_ok); reveal(touch_ok);
    assert forall|i: int, j: int| 0 <= i < s.len() - 1 && 0 <= j < t.len() - 1 implies #[trigger] touch_ok(s, t, i, j) by {
        assert forall|x: real, y: real| #[trigger] both(ls_segs(s)[i], ls_segs(t)[j], x, y) implies is_tip(s, x, y) && is_tip(t, x, y) by {
            lemma_on(ls_segs(s)[i], x, y); lemma_on(ls_segs(t)[j], x, y);
            lemma_fold_box(s); lemma_fold_box(t);
            assert(in_box(seq_env(s), rx(s[i]), ry(s[i])) && in_box(seq_env(s), rx(s[i + 1]), ry(s[i + 1])));
            assert(in_box(seq_env(t), rx(t[j]), ry(t[j])) && in_box(seq_env(t), rx(t[j + 1]), ry(t[j + 1])));
        }
    }
}
proof fn lemma_all_members(l: Seq<LineString>, res: Seq<(usize, usize)>)
    requires l.len() <= usize::MAX, all_boxed(l), forall|i: int| 0 <= i < l.len() ==> is_chain((#[trigger] l[i]).positions@), is_exact_self(res, envs(l)),
        forall|k: int| 0 <= k < res.len() ==> members_ok(l[(#[trigger] res[k]).0 as int].positions@, l[res[k].1 as int].positions@)
    ensures all_members_ok(l)
{
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies members_ok((#[trigger] l[i]).positions@, (#[trigger] l[j]).positions@) by {
        let a = i as usize;
        let b = j as usize;
        assert(envs(l)[i] == l[i].env() && envs(l)[j] == l[j].env());
        if env_intersects(envs(l)[i], envs(l)[j]) {
            assert(count_in(res, (a, b)) == 1);
            if forall|k: int| 0 <= k < res.len() ==> #[trigger] res[k] != (a, b) { lemma_count_zero(res, (a, b)); }
            let k = choose|k: int| 0 <= k < res.len() && #[trigger] res[k] == (a, b);
            assert(members_ok(l[res[k].0 as int].positions@, l[res[k].1 as int].positions@));
        } else { assert(ls_boxed(l[i]) && ls_boxed(l[j])); lemma_chains_apart(l[i].positions@, l[j].positions@); }
    }
}
/// The boundary's points are the tips.
proof fn lemma_tips(s: Seq<Position>, g: Geometry, p: Position)
    requires all_finite(s), pos_finite(p), is_ls_boundary(g, s)
    ensures is_tip(s, rx(p), ry(p)) <==> (g is MultiPoint && exists|i: int| 0 <= i < g->MultiPoint_0.points@.len() && pos_same((#[trigger] g->MultiPoint_0.points@[i]).0, p))
{
    if g is MultiPoint {
        let q = g->MultiPoint_0.points@;
        assert(pos_finite(s[0]) && pos_finite(s.last()));
        assert(q[0].0 == s[0] && q[1].0 == s.last());
        assert(pos_same(q[0].0, p) || pos_same(q[1].0, p) <==> is_tip(s, rx(p), ry(p)));
    }
}
