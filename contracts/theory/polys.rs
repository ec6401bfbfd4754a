// Polygons and collections of polygons.
pub open spec fn rr(l: LineString) -> Seq<P2> { rp(l.positions@) }
pub open spec fn ring_fit(l: LineString) -> bool { ls_boxed(l) && l.positions@.len() <= 0x7fff_ffff }
pub open spec fn is_loop(l: LineString) -> bool { is_chain(l.positions@) && ls_closed(l.positions@) }
/// Boxes in place, no ring of 2^31 vertices or more.
pub open spec fn pg_fit(p: Polygon) -> bool { ring_fit(p.exterior) && forall|i: int| 0 <= i < p.interiors@.len() ==> ring_fit(#[trigger] p.interiors@[i]) }
pub open spec fn pg_void(p: Polygon) -> bool { p.exterior.positions@.len() == 0 && p.interiors@.len() == 0 }
pub open spec fn pg_loops(p: Polygon) -> bool { is_loop(p.exterior) && forall|i: int| 0 <= i < p.interiors@.len() ==> is_loop(#[trigger] p.interiors@[i]) }
/// Rings that share at most one point, and none that cross or overlap.
pub open spec fn ok1(a: LineString, b: LineString) -> bool { share1(rr(a), rr(b)) }
pub open spec fn bad1(a: LineString, b: LineString) -> bool { rings_bad(rr(a), rr(b)) }
pub open spec fn inn(a: LineString, b: LineString) -> bool { lies_in(rr(a), rr(b)) }
pub open spec fn out2(a: LineString, b: LineString) -> bool { lies_out(rr(a), rr(b)) && lies_out(rr(b), rr(a)) }
pub open spec fn holes_in(s: Seq<LineString>, e: LineString, n: int) -> bool { forall|i: int| 0 <= i < n ==> inn(#[trigger] s[i], e) }
pub open spec fn holes_apart(s: Seq<LineString>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> out2(#[trigger] s[i], #[trigger] s[j]) }
pub open spec fn ext_ok1(s: Seq<LineString>, e: LineString) -> bool { forall|i: int| 0 <= i < s.len() ==> ok1(e, #[trigger] s[i]) }
pub open spec fn holes_ok1(s: Seq<LineString>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ok1(#[trigger] s[i], #[trigger] s[j]) }
/// Any two rings share at most one point.
pub open spec fn pg_ok1(p: Polygon) -> bool { ext_ok1(p.interiors@, p.exterior) && holes_ok1(p.interiors@) }
/// Empty, or closed simple rings, the holes inside the exterior and outside each other.
pub open spec fn is_pg_valid(p: Polygon) -> bool {
    pg_void(p) || (pg_loops(p) && holes_in(p.interiors@, p.exterior, p.interiors@.len() as int) && holes_apart(p.interiors@))
}
/// No edges that overlap or cross, no vertex of h outside e, none of e inside h, and some vertex of e outside h.
pub open spec fn v_nest(h: LineString, e: LineString) -> bool { !bad1(e, h) && only_out(rr(e), rr(h)) && none_out(rr(h), rr(e)) }
/// No edges that overlap or cross, no vertex of one inside the other, and some outside.
pub open spec fn v_apart(a: LineString, b: LineString) -> bool { !bad1(a, b) && only_out(rr(a), rr(b)) && only_out(rr(b), rr(a)) }
/// What validation checks: edges and vertices.
pub open spec fn is_pg_checked(p: Polygon) -> bool {
    pg_void(p) || (pg_loops(p) && (forall|i: int| 0 <= i < p.interiors@.len() ==> v_nest(#[trigger] p.interiors@[i], p.exterior))
        && forall|i: int, j: int| 0 <= i < j < p.interiors@.len() ==> v_apart(#[trigger] p.interiors@[i], #[trigger] p.interiors@[j]))
}
pub open spec fn hole_seen(s: Seq<LineString>, a: int, b: int) -> bool { v_apart(s[a], s[b]) && (ok1(s[a], s[b]) ==> out2(s[a], s[b])) }
/// Pairs whose boxes are apart are outside each other.
proof fn lemma_holes(s: Seq<LineString>, res: Seq<(usize, usize)>)
    requires s.len() <= usize::MAX, is_exact_self(res, envs(s)), forall|i: int| 0 <= i < s.len() ==> ls_boxed(#[trigger] s[i]) && is_loop(s[i]),
        forall|k: int| 0 <= k < res.len() ==> hole_seen(s, (#[trigger] res[k]).0 as int, res[k].1 as int)
    ensures holes_ok1(s) ==> holes_apart(s), forall|i: int, j: int| 0 <= i < j < s.len() ==> v_apart(#[trigger] s[i], #[trigger] s[j])
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies v_apart(#[trigger] s[i], #[trigger] s[j]) && (ok1(s[i], s[j]) ==> out2(s[i], s[j])) by {
        let a = i as usize;
        let b = j as usize;
        assert(envs(s)[i] == s[i].env() && envs(s)[j] == s[j].env());
        assert(ls_boxed(s[i]) && ls_boxed(s[j]) && is_loop(s[i]) && is_loop(s[j]));
        if env_intersects(envs(s)[i], envs(s)[j]) {
            assert(count_in(res, (a, b)) == 1);
            if forall|k: int| 0 <= k < res.len() ==> #[trigger] res[k] != (a, b) { lemma_count_zero(res, (a, b)); }
            let k = choose|k: int| 0 <= k < res.len() && #[trigger] res[k] == (a, b);
            assert(hole_seen(s, res[k].0 as int, res[k].1 as int));
        } else { lemma_loops_apart(s[i], s[j]); }
    }
}
proof fn lemma_loops_apart(a: LineString, b: LineString)
    requires ls_boxed(a), ls_boxed(b), is_loop(a), is_loop(b), !env_intersects(a._envelope, b._envelope)
    ensures out2(a, b), v_apart(a, b), v_apart(b, a)
{
    lemma_ring(a.positions@); lemma_ring(b.positions@);
    lemma_boxes_verts(a.positions@, b.positions@); lemma_boxes_verts(b.positions@, a.positions@);
    lemma_boxes_out(a.positions@, b.positions@); lemma_boxes_out(b.positions@, a.positions@);
}
/// In and out exclude each other.
proof fn lemma_in_or_out(a: LineString, b: LineString)
    requires is_loop(a), is_loop(b), ok1(a, b)
    ensures !(inn(a, b) && lies_out(rr(a), rr(b))), inn(a, b) || lies_out(rr(a), rr(b)), !(inn(a, b) && inn(b, a)), ok1(b, a)
{
    lemma_ring(a.positions@); lemma_ring(b.positions@);
    lemma_share1_sym(rr(a), rr(b));
    lemma_sides(rr(b), rr(a));
    lemma_not_in_and_out(rr(b), rr(a));
    lemma_not_both(rr(a), rr(b));
}
