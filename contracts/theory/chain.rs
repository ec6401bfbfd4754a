// Validation of chains of positions.
/// What an intersection says about a pair.
pub open spec fn verdict(s: Seq<Position>, i: int, j: int, r: SegmentIntersection) -> bool {
    match r {
        SegmentIntersection::None => true,
        SegmentIntersection::Position(p) => may_share(s, i, j, rx(p), ry(p)),
        SegmentIntersection::Segment(_) => false,
    }
}
proof fn lemma_verdict(s: Seq<Position>, i: int, j: int)
    requires 0 <= i < j < s.len() - 1
    ensures forall|r: SegmentIntersection| #[trigger] is_isxn(ls_segs(s)[i], ls_segs(s)[j], r) ==> (pair_ok(s, i, j) <==> verdict(s, i, j, r))
{
    reveal(pair_ok);
    let a = ls_segs(s)[i];
    let b = ls_segs(s)[j];
    assert forall|r: SegmentIntersection| #[trigger] is_isxn(a, b, r) implies (pair_ok(s, i, j) <==> verdict(s, i, j, r)) by {
        match r {
            SegmentIntersection::None => {}
            SegmentIntersection::Position(p) => { assert(both(a, b, rx(p), ry(p))); }
            SegmentIntersection::Segment(t) => {
                lemma_ends(t);
                assert(both(a, b, rx(t.start), ry(t.start)));
                assert(both(a, b, rx(t.end), ry(t.end)));
            }
        }
    }
}
/// Segments that share a point have boxes that intersect.
proof fn lemma_both_boxes(a: Segment, b: Segment, x: real, y: real)
    requires seg_finite(a), seg_finite(b), both(a, b, x, y)
    ensures env_intersects(env_new(a.start, a.end), env_new(b.start, b.end))
{
    lemma_on(a, x, y); lemma_on(b, x, y);
}
proof fn lemma_boxes_apart(s: Seq<Position>, i: int, j: int)
    requires all_finite(s), 0 <= i < j < s.len() - 1, !env_intersects(envs(ls_segs(s))[i], envs(ls_segs(s))[j])
    ensures pair_ok(s, i, j)
{
    reveal(pair_ok);
    assert forall|x: real, y: real| #[trigger] both(ls_segs(s)[i], ls_segs(s)[j], x, y) implies may_share(s, i, j, x, y) by { lemma_both_boxes(ls_segs(s)[i], ls_segs(s)[j], x, y); }
}
proof fn lemma_in_count<T>(s: Seq<T>, k: int)
    requires 0 <= k < s.len() ensures count_in(s, s[k]) >= 1
    decreases s.len()
{ if k < s.len() - 1 { assert(s.drop_last()[k] == s[k]); lemma_in_count(s.drop_last(), k); } }
/// The k-th candidate is a pair of segments.
proof fn lemma_cand(res: Seq<(usize, usize)>, n: int, e: Seq<Envelope>, k: int)
    requires is_exact_self(res, e), e.len() == n, 0 <= k < res.len() ensures 0 <= res[k].0 < res[k].1 < n
{ lemma_in_count(res, k); let (i, j) = res[k]; assert(count_in(res, (i, j)) >= 1); }
/// All candidates are fine, so all pairs are.
proof fn lemma_all_pairs(s: Seq<Position>, res: Seq<(usize, usize)>)
    requires all_finite(s), s.len() <= usize::MAX, is_exact_self(res, envs(ls_segs(s))), forall|k: int| 0 <= k < res.len() ==> pair_ok(s, (#[trigger] res[k]).0 as int, res[k].1 as int)
    ensures all_pairs_ok(s)
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() - 1 implies #[trigger] pair_ok(s, i, j) by {
        let a = i as usize;
        let b = j as usize;
        assert(envs(ls_segs(s)).len() == s.len() - 1);
        if env_intersects(envs(ls_segs(s))[i], envs(ls_segs(s))[j]) {
            assert(count_in(res, (a, b)) == 1);
            if forall|k: int| 0 <= k < res.len() ==> #[trigger] res[k] != (a, b) { lemma_count_zero(res, (a, b)); }
            let k = choose|k: int| 0 <= k < res.len() && #[trigger] res[k] == (a, b);
            assert(pair_ok(s, res[k].0 as int, res[k].1 as int));
        } else { lemma_boxes_apart(s, i, j); }
    }
}
