// Simple chains of positions.
/// The points that the i-th and j-th segment (i < j) of a simple chain may share.
pub open spec fn may_share(s: Seq<Position>, i: int, j: int, x: real, y: real) -> bool {
    ||| j == i + 1 && x == rx(s[j]) && y == ry(s[j])
    ||| ls_closed(s) && i == 0 && j == s.len() - 2 && x == rx(s[0]) && y == ry(s[0])
}
#[verifier::opaque]
pub open spec fn pair_ok(s: Seq<Position>, i: int, j: int) -> bool {
    forall|x: real, y: real| #[trigger] both(ls_segs(s)[i], ls_segs(s)[j], x, y) ==> may_share(s, i, j, x, y)
}
pub open spec fn all_pairs_ok(s: Seq<Position>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() - 1 ==> #[trigger] pair_ok(s, i, j) }
pub open spec fn steps_ok(s: Seq<Position>, n: int) -> bool { forall|i: int| 0 <= i < n ==> !pos_same((#[trigger] s[i]), s[i + 1]) }
/// Empty, or two or more finite positions, consecutive ones different, no two segments sharing more than they may.
pub open spec fn is_chain(s: Seq<Position>) -> bool {
    s.len() == 0 || (s.len() >= 2 && all_finite(s) && steps_ok(s, s.len() - 1) && all_pairs_ok(s))
}
