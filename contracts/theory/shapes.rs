//@need planar LineString as HasEnvelope::envelope
//@need planar MultiLineString as HasEnvelope::envelope
//@need planar Polygon as HasEnvelope::envelope
//@need planar MultiPolygon as HasEnvelope::envelope
// Line strings, polygons and their collections.
pub open spec fn ls_segs(s: Seq<Position>) -> Seq<Segment> { Seq::new((if s.len() == 0 { 0 } else { s.len() - 1 }) as nat, |i: int| Segment { start: s[i], end: s[i + 1] }) }
pub open spec fn ls_closed(s: Seq<Position>) -> bool { s.len() >= 4 && pos_same(s[0], s[s.len() - 1]) }
/// Two end points, or the empty geometry for a closed or empty line string.
pub open spec fn is_ls_boundary(g: Geometry, s: Seq<Position>) -> bool {
    if ls_closed(s) || s.len() == 0 { g is Empty }
    else { match g { Geometry::MultiPoint(m) => m.points@ =~= seq![Point(s[0]), Point(s.last())] && m._envelope == seq_env(m.points@), _ => false } }
}
pub open spec fn all_empty(s: Seq<LineString>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).positions@.len() == 0 }
pub open spec fn all_pg_empty(s: Seq<Polygon>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).exterior.positions@.len() == 0 }
pub open spec fn pg_rings(p: Polygon) -> Seq<LineString> { seq![p.exterior] + p.interiors@ }
pub open spec fn is_pg_boundary(g: Geometry, p: Polygon) -> bool {
    match g { Geometry::MultiLineString(m) => m.line_strings@ =~= pg_rings(p) && m._envelope == seq_env(m.line_strings@), _ => false }
}
/// The rings of every polygon that has a non-empty ring, in order.
pub open spec fn mpg_rings(s: Seq<Polygon>) -> Seq<LineString>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { mpg_rings(s.drop_last()) + (if all_empty(pg_rings(s.last())) { Seq::empty() } else { pg_rings(s.last()) }) }
}
pub open spec fn flat_rings(s: Seq<MultiLineString>) -> Seq<LineString>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat_rings(s.drop_last()) + s.last().line_strings@ } }
pub open spec fn mls_of(s: Seq<Geometry>) -> Seq<MultiLineString> { Seq::new(s.len(), |i: int| s[i]->MultiLineString_0) }

// ---- mod-2 rule -------------------------------------------------------------
pub open spec fn flat_points(s: Seq<MultiPoint>) -> Seq<Point>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat_points(s.drop_last()) + s.last().points@ } }
/// Ends of the members that have ends, in order.
pub open spec fn ends_of(s: Seq<LineString>) -> Seq<Point>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = s.last().positions@;
        ends_of(s.drop_last()) + (if ls_closed(p) || p.len() == 0 { Seq::empty() } else { seq![Point(p[0]), Point(p.last())] })
    }
}
/// Positions without NaN, in order.
pub open spec fn hkeys(s: Seq<Point>) -> Seq<(NotNan, NotNan)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else {
        let p = s.last().0;
        if p.vx() == Ext::NaN || p.vy() == Ext::NaN { hkeys(s.drop_last()) } else { hkeys(s.drop_last()).push(hkey(p)) }
    }
}
pub open spec fn odd_in<T>(s: Seq<T>, h: T) -> bool { count_in(s, h) % 2 == 1 }
proof fn lemma_odd_step<T>(s: Seq<T>, h: T)
    requires s.len() > 0 ensures odd_in(s, h) == (odd_in(s.drop_last(), h) != (s.last() == h))
{ }
/// Exactly the positions that occur an odd number of times as an end, ascending, each once.
pub open spec fn is_mls_boundary(g: Geometry, s: Seq<LineString>) -> bool {
    let e = hkeys(ends_of(s));
    match g {
        Geometry::Empty(_) => forall|h: (NotNan, NotNan)| !#[trigger] odd_in(e, h),
        Geometry::MultiPoint(m) => {
            &&& m.points@.len() > 0
            &&& m._envelope == seq_env(m.points@)
            &&& forall|i: int| 0 <= i < m.points@.len() ==> odd_in(e, hkey((#[trigger] m.points@[i]).0))
            &&& forall|h: (NotNan, NotNan)| #[trigger] odd_in(e, h) ==> has_pos(m.points@, hpos(h))
            &&& forall|i: int, j: int| 0 <= i < j < m.points@.len() ==> pos_lt((#[trigger] m.points@[i]).0, (#[trigger] m.points@[j]).0)
        },
        _ => false,
    }
}
#[verifier::opaque]
pub open spec fn has_p(s: Seq<Position>, p: Position) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == p }
proof fn lemma_mls_boundary(b: Set<(NotNan, NotNan)>, s: Seq<&(NotNan, NotNan)>, o: Seq<Position>, e: Seq<(NotNan, NotNan)>)
    requires
        forall|h: (NotNan, NotNan)| #[trigger] b.contains(h) <==> odd_in(e, h),
        !(b =~= Set::<(NotNan, NotNan)>::empty()),
        o.len() == s.len(),
        forall|j: int| 0 <= j < o.len() ==> (#[trigger] o[j]) == hpos(*s[j]),
        forall|i: int| 0 <= i < s.len() ==> b.contains(*(#[trigger] s[i])),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> (*(#[trigger] s[i])).vlt(*(#[trigger] s[j])),
        forall|x: (NotNan, NotNan)| #[trigger] b.contains(x) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == x,
    ensures
        o.len() > 0,
        forall|i: int| 0 <= i < o.len() ==> odd_in(e, hkey(#[trigger] o[i])),
        forall|h: (NotNan, NotNan)| #[trigger] odd_in(e, h) ==> has_p(o, hpos(h)),
        forall|i: int, j: int| 0 <= i < j < o.len() ==> pos_lt(#[trigger] o[i], #[trigger] o[j]),
{
    reveal(has_p);
    assert(exists|h: (NotNan, NotNan)| #[trigger] b.contains(h));
    let h = choose|h: (NotNan, NotNan)| #[trigger] b.contains(h);
    let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == h;
    assert forall|i: int| 0 <= i < o.len() implies odd_in(e, hkey(#[trigger] o[i])) by { assert(b.contains(*s[i])); assert(hkey(o[i]) == *s[i]); }
    assert forall|h: (NotNan, NotNan)| #[trigger] odd_in(e, h) implies has_p(o, hpos(h)) by {
        assert(b.contains(h));
        let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == h;
        assert(o[i] == hpos(h));
    }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies pos_lt(#[trigger] o[i], #[trigger] o[j]) by { assert((*s[i]).vlt(*s[j])); }
}
pub open spec fn geom_is_empty(g: Geometry) -> bool {
    match g {
        Geometry::Empty(_) => true,
        Geometry::Point(_) => false,
        Geometry::LineString(x) => x.positions@.len() == 0,
        Geometry::Polygon(x) => x.exterior.positions@.len() == 0,
        Geometry::MultiPoint(x) => x.points@.len() == 0,
        Geometry::MultiLineString(x) => all_empty(x.line_strings@),
        Geometry::MultiPolygon(x) => all_pg_empty(x.polygons@),
    }
}

pub broadcast proof fn lemma_flat_points_push(s: Seq<MultiPoint>, x: MultiPoint)
    ensures #[trigger] flat_points(s.push(x)) == flat_points(s) + x.points@
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_flat_rings_push(s: Seq<Geometry>, x: Geometry)
    requires x is MultiLineString
    ensures #[trigger] flat_rings(mls_of(s.push(x))) == flat_rings(mls_of(s)) + x->MultiLineString_0.line_strings@
{ assert(mls_of(s.push(x)).drop_last() =~= mls_of(s)); }

proof fn lemma_has_p(s: Seq<Position>)
    ensures forall|p: Position| #[trigger] has_p(s, p) ==> has_pos(points_into(s), p), points_into(s).len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] points_into(s)[i]).0 == s[i]
{
    reveal(has_p); reveal(has_pos); ax_into_refl::<Position>();
    assert forall|p: Position| #[trigger] has_p(s, p) implies has_pos(points_into(s), p) by { let j = choose|j: int| 0 <= j < s.len() && #[trigger] s[j] == p; assert(points_into(s)[j].0 == p); }
}
pub open spec fn is_mpg_boundary(g: Geometry, p: MultiPolygon) -> bool {
    match g { Geometry::MultiLineString(m) => m.line_strings@ == mpg_rings(p.polygons@) && m._envelope == seq_env(m.line_strings@), _ => false }
}
// Points on surfaces.
/// `p` is a position of the exterior ring.
pub open spec fn on_exterior(g: Polygon, p: Point) -> bool { exists|j: int| 0 <= j < g.exterior.positions@.len() && #[trigger] g.exterior.positions@[j] == p.0 }
pub open spec fn has_pg(s: Seq<Polygon>, g: Polygon) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == g }
