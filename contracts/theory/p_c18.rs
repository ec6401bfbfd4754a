// Collections of polygons.
pub open spec fn pp_fit(p: Polygon) -> bool { pg_fit(p) && p._envelope == p.exterior._envelope }
pub open spec fn mpg_fit(s: Seq<Polygon>) -> bool { forall|i: int| 0 <= i < s.len() ==> pp_fit(#[trigger] s[i]) }
/// Rings of different members share at most one point.
pub open spec fn pp_ok1(p: Polygon, q: Polygon) -> bool { ok1(p.exterior, q.exterior) && ext_ok1(q.interiors@, p.exterior) && ext_ok1(p.interiors@, q.exterior) }
#[verifier::opaque]
pub open spec fn mpg_ok1(s: Seq<Polygon>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> pg_ok1(#[trigger] s[i])) && forall|i: int, j: int| 0 <= i < j < s.len() ==> pp_ok1(#[trigger] s[i], #[trigger] s[j])
}
/// The exterior of p lies inside a hole of q.
pub open spec fn in_hole(p: Polygon, q: Polygon) -> bool { exists|k: int| 0 <= k < q.interiors@.len() && inn(p.exterior, #[trigger] q.interiors@[k]) }
pub open spec fn pp_apart(p: Polygon, q: Polygon) -> bool { out2(p.exterior, q.exterior) || in_hole(p, q) || in_hole(q, p) }
pub open spec fn is_mpg_valid(s: Seq<Polygon>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> is_pg_valid(#[trigger] s[i])) && forall|i: int, j: int| 0 <= i < j < s.len() ==> pp_apart(#[trigger] s[i], #[trigger] s[j])
}
pub open spec fn all_shaped(s: Seq<Polygon>) -> bool { forall|i: int| 0 <= i < s.len() ==> pg_shaped(#[trigger] s[i]) }
pub open spec fn pg_shaped(p: Polygon) -> bool { is_pg_checked(p) && (pg_ok1(p) ==> is_pg_valid(p)) }
/// The same as far as edges and vertices tell.
pub open spec fn v_in_hole(p: Polygon, q: Polygon) -> bool { v_nest(p.exterior, q.exterior) && exists|k: int| 0 <= k < q.interiors@.len() && v_within(p.exterior, #[trigger] q.interiors@[k]) }
pub open spec fn v_within(a: LineString, b: LineString) -> bool { !bad1(a, b) && none_out(rr(a), rr(b)) && only_out(rr(b), rr(a)) }
pub open spec fn v_void(p: Polygon, q: Polygon) -> bool { p.exterior.positions@.len() == 0 || q.exterior.positions@.len() == 0 }
pub open spec fn pp_checked(p: Polygon, q: Polygon) -> bool { v_void(p, q) || v_apart(p.exterior, q.exterior) || v_in_hole(p, q) || v_in_hole(q, p) }
pub open spec fn is_mpg_checked(s: Seq<Polygon>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> is_pg_checked(#[trigger] s[i])) && forall|i: int, j: int| 0 <= i < j < s.len() ==> pp_checked(#[trigger] s[i], #[trigger] s[j])
}
pub open spec fn pair_seen(p: Polygon, q: Polygon) -> bool { pp_checked(p, q) && (pg_ok1(p) && pg_ok1(q) && pp_ok1(p, q) ==> pp_apart(p, q)) }
proof fn lemma_ok1_sym(a: LineString, b: LineString) ensures ok1(a, b) == ok1(b, a) { lemma_share1_sym(rr(a), rr(b)); }
proof fn lemma_void_out(a: LineString, b: LineString)
    requires a.positions@.len() == 0 ensures out2(a, b)
{ reveal(lies_out); reveal(on_r); reveal(inside2); assert forall|z: P2| !inside2(rr(a), z) by { assert(crn(rr(a), z, rr(a).len() - 1) == 0); } }
proof fn lemma_pp_far(p: Polygon, q: Polygon)
    requires pp_fit(p), pp_fit(q), pg_shaped(p), pg_shaped(q), !env_intersects(p._envelope, q._envelope) ensures pair_seen(p, q)
{
    if p.exterior.positions@.len() == 0 { lemma_void_out(p.exterior, q.exterior); }
    else if q.exterior.positions@.len() == 0 { lemma_void_out(q.exterior, p.exterior); }
    else { lemma_loops_apart(p.exterior, q.exterior); }
}
proof fn lemma_pp_near(p: Polygon, q: Polygon)
    requires pp_fit(p), pp_fit(q), pg_shaped(p), pg_shaped(q), env_intersects(p._envelope, q._envelope) ensures pg_loops(p), pg_loops(q)
{
    if p.exterior.positions@.len() == 0 { assert(env_fold(envs(p.exterior.positions@)) == Envelope::Empty); }
    if q.exterior.positions@.len() == 0 { assert(env_fold(envs(q.exterior.positions@)) == Envelope::Empty); }
}
proof fn lemma_members_apart(s: Seq<Polygon>, res: Seq<(usize, usize)>)
    requires s.len() <= usize::MAX, is_exact_self(res, envs(s)), mpg_fit(s), all_shaped(s),
        forall|k: int| 0 <= k < res.len() ==> pair_seen(s[(#[trigger] res[k]).0 as int], s[res[k].1 as int])
    ensures mpg_ok1(s) ==> is_mpg_valid(s), is_mpg_checked(s)
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies pair_seen(#[trigger] s[i], #[trigger] s[j]) by {
        let a = i as usize;
        let b = j as usize;
        assert(envs(s)[i] == s[i].env() && envs(s)[j] == s[j].env());
        assert(pp_fit(s[i]) && pp_fit(s[j]) && pg_shaped(s[i]) && pg_shaped(s[j]));
        if env_intersects(envs(s)[i], envs(s)[j]) {
            assert(count_in(res, (a, b)) == 1);
            if forall|k: int| 0 <= k < res.len() ==> #[trigger] res[k] != (a, b) { lemma_count_zero(res, (a, b)); }
            let k = choose|k: int| 0 <= k < res.len() && #[trigger] res[k] == (a, b);
            assert(pair_seen(s[res[k].0 as int], s[res[k].1 as int]));
        } else { lemma_pp_far(s[i], s[j]); }
    }
    assert forall|i: int| 0 <= i < s.len() implies is_pg_checked(#[trigger] s[i]) by { assert(pg_shaped(s[i])); }
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies pp_checked(#[trigger] s[i], #[trigger] s[j]) by { assert(pair_seen(s[i], s[j])); }
    if mpg_ok1(s) {
        reveal(mpg_ok1);
        assert forall|i: int| 0 <= i < s.len() implies is_pg_valid(#[trigger] s[i]) by { assert(pg_shaped(s[i])); }
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies pp_apart(#[trigger] s[i], #[trigger] s[j]) by { assert(pair_seen(s[i], s[j])); assert(pp_ok1(s[i], s[j])); }
    }
}
proof fn lemma_hole_in(p: Polygon, k: int) requires is_pg_valid(p), pg_loops(p), 0 <= k < p.interiors@.len() ensures inn(p.interiors@[k], p.exterior), is_loop(p.interiors@[k])
{ }
proof fn lemma_loops_in_in(a: LineString, b: LineString, c: LineString)
    requires is_loop(a), is_loop(b), is_loop(c), ok1(a, b), ok1(b, c), ok1(a, c), inn(a, b), inn(b, c) ensures inn(a, c)
{
    lemma_ring(a.positions@); lemma_ring(b.positions@); lemma_ring(c.positions@);
    lemma_in_in(rr(a), rr(b), rr(c));
}
/// An exterior that lies in another exterior can only be apart from it in one of its holes.
proof fn lemma_nested(p: Polygon, q: Polygon)
    requires pg_loops(p), pg_loops(q), is_pg_valid(p), is_pg_valid(q), pg_ok1(p), pg_ok1(q), pp_ok1(p, q), inn(p.exterior, q.exterior)
    ensures pp_apart(p, q) <==> in_hole(p, q), pp_apart(q, p) <==> in_hole(p, q)
{
    lemma_in_or_out(p.exterior, q.exterior);
    if in_hole(q, p) {
        let k = choose|k: int| 0 <= k < p.interiors@.len() && inn(q.exterior, #[trigger] p.interiors@[k]);
        let h = p.interiors@[k];
        lemma_hole_in(p, k);
        lemma_ok1_sym(p.exterior, q.exterior);
        lemma_ok1_sym(p.exterior, h);
        assert(ok1(q.exterior, h));
        lemma_loops_in_in(q.exterior, h, p.exterior);
    }
}
/// If p lies in a hole of q it contains no hole of q.
proof fn lemma_no_inner_hole(p: Polygon, q: Polygon, k: int)
    requires pg_loops(p), pg_loops(q), is_pg_valid(q), pg_ok1(q), pp_ok1(p, q), in_hole(p, q), 0 <= k < q.interiors@.len()
    ensures !inn(q.interiors@[k], p.exterior)
{
    let s = q.interiors@;
    if inn(s[k], p.exterior) {
        let m = choose|m: int| 0 <= m < s.len() && inn(p.exterior, #[trigger] s[m]);
        assert(is_loop(s[m]) && is_loop(s[k]));
        assert(ok1(p.exterior, s[k]) && ok1(p.exterior, s[m]));
        lemma_in_or_out(p.exterior, s[k]);
        lemma_in_or_out(p.exterior, s[m]);
        if k != m {
            assert(ok1(s[k], s[m])) by { if k < m { } else { lemma_ok1_sym(s[m], s[k]); } }
            lemma_loops_in_in(s[k], p.exterior, s[m]);
            assert(out2(s[k], s[m])) by { if k < m { } else { assert(out2(s[m], s[k])); } }
            lemma_in_or_out(s[k], s[m]);
        }
    }
}
proof fn lemma_pp_sym(p: Polygon, q: Polygon) ensures pp_ok1(p, q) == pp_ok1(q, p), pp_apart(p, q) == pp_apart(q, p)
{ lemma_ok1_sym(p.exterior, q.exterior); }
proof fn lemma_cand_box(res: Seq<(usize, usize)>, e: Seq<Envelope>, k: int)
    requires is_exact_self(res, e), 0 <= k < res.len() ensures env_intersects(e[res[k].0 as int], e[res[k].1 as int])
{ lemma_in_count(res, k); let (i, j) = res[k]; assert(count_in(res, (i, j)) >= 1); }
/// What the exteriors' relation leaves open.
pub open spec fn nest_ok(p: Polygon, q: Polygon) -> bool { pg_ok1(p) && pg_ok1(q) && pp_ok1(p, q) }
pub open spec fn pair_ready(s: Seq<Polygon>, a: int, b: int) -> bool { pp_fit(s[a]) && pp_fit(s[b]) && pg_shaped(s[a]) && pg_shaped(s[b]) && pg_loops(s[a]) && pg_loops(s[b]) && (mpg_ok1(s) ==> nest_ok(s[a], s[b])) }
proof fn lemma_pair_ready(s: Seq<Polygon>, a: int, b: int)
    requires mpg_fit(s), all_shaped(s), 0 <= a < b < s.len(), env_intersects(s[a]._envelope, s[b]._envelope) ensures pair_ready(s, a, b), pair_ready(s, b, a)
{
    reveal(mpg_ok1);
    let p = s[a];
    let q = s[b];
    assert(pp_fit(p) && pp_fit(q) && pg_shaped(p) && pg_shaped(q));
    lemma_pp_near(p, q);
    lemma_pp_sym(p, q);
}
/// Not apart, so not valid.
proof fn lemma_pair_bad(s: Seq<Polygon>, a: int, b: int)
    requires 0 <= a < s.len(), 0 <= b < s.len(), a != b, !pp_apart(s[a], s[b]) ensures !is_mpg_valid(s)
{ lemma_pp_sym(s[a], s[b]); if a < b { if is_mpg_valid(s) { assert(pp_apart(s[a], s[b])); } } else { if is_mpg_valid(s) { assert(pp_apart(s[b], s[a])); } } }
proof fn lemma_bad_pair_sym(p: P2, q: P2, a: P2, b: P2) requires bad_pair(p, q, a, b) ensures bad_pair(a, b, p, q)
{
    reveal(bad_pair);
    if exists|z: P2, w: P2| z != w && #[trigger] meet2(p, q, a, b, z) && #[trigger] meet2(p, q, a, b, w) {
        let (z, w) = choose|z: P2, w: P2| z != w && #[trigger] meet2(p, q, a, b, z) && #[trigger] meet2(p, q, a, b, w);
        assert(meet2(a, b, p, q, z) && meet2(a, b, p, q, w));
    } else {
        let c = choose|c: P2| #[trigger] meet2(p, q, a, b, c) && cross2(p, q, a, b, c);
        assert(meet2(a, b, p, q, c));
        assert forall|z: P2| #[trigger] meet2(a, b, p, q, z) implies z == c by { assert(meet2(p, q, a, b, z)); }
    }
}
proof fn lemma_bad_sym(a: LineString, b: LineString) ensures bad1(a, b) == bad1(b, a)
{ if bad1(a, b) { lemma_bad_flip(rr(a), rr(b)); } if bad1(b, a) { lemma_bad_flip(rr(b), rr(a)); } }
proof fn lemma_bad_flip(s: Seq<P2>, r: Seq<P2>) requires rings_bad(s, r) ensures rings_bad(r, s)
{
    let (i, j) = choose|i: int, j: int| 0 <= i < s.len() - 1 && 0 <= j < r.len() - 1 && bad_pair(s[i], s[i + 1], #[trigger] r[j], r[j + 1]) && #[trigger] idx(i);
    lemma_bad_pair_sym(s[i], s[i + 1], r[j], r[j + 1]);
    assert(idx(j));
    assert(bad_pair(r[j], r[j + 1], s[i], s[i + 1]));
}
