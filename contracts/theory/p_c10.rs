// The answer depends on the two segments as sets of points only: not on their order or directions.
pub open spec fn same_pos(p: Position, q: Position) -> bool { rx(p) == rx(q) && ry(p) == ry(q) }
pub open spec fn same_answer(r: SegmentIntersection, q: SegmentIntersection) -> bool {
    match r {
        SegmentIntersection::None => q is None,
        SegmentIntersection::Position(p) => q is Position && same_pos(p, q->Position_0),
        SegmentIntersection::Segment(s) => q is Segment && ({
            let t = q->Segment_0;
            (same_pos(s.start, t.start) && same_pos(s.end, t.end)) || (same_pos(s.start, t.end) && same_pos(s.end, t.start))
        }),
    }
}
/// A segment of positive length is determined, up to direction, by its points.
proof fn lemma_points_determine(s: Segment, t: Segment)
    requires proper(s), forall|x: real, y: real| #[trigger] on(s, x, y) <==> on(t, x, y)
    ensures (same_pos(s.start, t.start) && same_pos(s.end, t.end)) || (same_pos(s.start, t.end) && same_pos(s.end, t.start))
{
    lemma_ends(s); lemma_ends(t);
    assert(on(s, rx(t.start), ry(t.start)) && on(s, rx(t.end), ry(t.end)));
    assert(on(t, rx(s.start), ry(s.start)) && on(t, rx(s.end), ry(s.end)));
    assert(det(s, s) == 0real && num_b(s, s) == 0real) by {
        lemma_mul_comm(ux(s), uy(s));
        assert(0real * uy(s) == 0real && 0real * ux(s) == 0real) by (nonlinear_arith);
    }
    lemma_one_line(s, s);
    lemma_line_on(s, s, rx(t.start), ry(t.start)); lemma_line_on(s, s, rx(t.end), ry(t.end));
    lemma_line_on(s, t, rx(s.start), ry(s.start)); lemma_line_on(s, t, rx(s.end), ry(s.end));
    if place(s, rx(t.start), ry(t.start)) <= place(s, rx(t.end), ry(t.end)) {
        lemma_same_place(s, rx(s.start), ry(s.start), rx(t.start), ry(t.start));
        lemma_same_place(s, rx(s.end), ry(s.end), rx(t.end), ry(t.end));
    } else {
        lemma_same_place(s, rx(s.start), ry(s.start), rx(t.end), ry(t.end));
        lemma_same_place(s, rx(s.end), ry(s.end), rx(t.start), ry(t.start));
    }
}
proof fn lemma_answer_determined(a: Segment, b: Segment, r: SegmentIntersection, c: Segment, d: Segment, q: SegmentIntersection)
    requires is_isxn(a, b, r), is_isxn(c, d, q), forall|x: real, y: real| #[trigger] both(a, b, x, y) <==> both(c, d, x, y)
    ensures same_answer(r, q)
{
    if let SegmentIntersection::Segment(s) = r { lemma_ends(s); assert(both(a, b, rx(s.start), ry(s.start)) && both(a, b, rx(s.end), ry(s.end))); assert(both(c, d, rx(s.start), ry(s.start)) && both(c, d, rx(s.end), ry(s.end))); }
    if let SegmentIntersection::Segment(s) = q { lemma_ends(s); assert(both(c, d, rx(s.start), ry(s.start)) && both(c, d, rx(s.end), ry(s.end))); assert(both(a, b, rx(s.start), ry(s.start)) && both(a, b, rx(s.end), ry(s.end))); }
    if let SegmentIntersection::Position(p) = r { assert(both(a, b, rx(p), ry(p))); assert(both(c, d, rx(p), ry(p))); }
    if let SegmentIntersection::Position(p) = q { assert(both(c, d, rx(p), ry(p))); assert(both(a, b, rx(p), ry(p))); }
    if let SegmentIntersection::Segment(s) = r {
        if let SegmentIntersection::Segment(t) = q {
            assert forall|x: real, y: real| #[trigger] on(s, x, y) <==> on(t, x, y) by { assert(both(a, b, x, y) <==> both(c, d, x, y)); }
            lemma_points_determine(s, t);
        }
    }
}
proof fn lemma_rev(s: Segment, x: real, y: real)
    ensures on(s, x, y) <==> on(Segment { start: s.end, end: s.start }, x, y)
{
    let r = Segment { start: s.end, end: s.start };
    lemma_on(s, x, y); lemma_on(r, x, y);
    let u = ux(s);
    let v = uy(s);
    lemma_rev_side(u, v, x - rx(s.start), y - ry(s.start));
    assert(side(r, x, y) == (0real - u) * ((y - ry(s.start)) - v) - (0real - v) * ((x - rx(s.start)) - u));
}
proof fn lemma_rev_side(u: real, v: real, p: real, q: real)
    ensures (0real - u) * (q - v) - (0real - v) * (p - u) == 0real - (u * q - v * p)
{ assert((0real - u) * (q - v) - (0real - v) * (p - u) == 0real - (u * q - v * p)) by (nonlinear_arith); }
/// Swapping the arguments, and reversing either, gives the same answer.
proof fn lemma_order_direction(a: Segment, b: Segment, r: SegmentIntersection, q: SegmentIntersection)
    requires is_isxn(a, b, r)
    ensures
        is_isxn(b, a, q) ==> same_answer(r, q),
        is_isxn(Segment { start: a.end, end: a.start }, b, q) ==> same_answer(r, q),
        is_isxn(a, Segment { start: b.end, end: b.start }, q) ==> same_answer(r, q),
{
    let ra = Segment { start: a.end, end: a.start };
    let rb = Segment { start: b.end, end: b.start };
    assert forall|x: real, y: real| (#[trigger] both(a, b, x, y) <==> both(b, a, x, y)) && (both(a, b, x, y) <==> both(ra, b, x, y)) && (both(a, b, x, y) <==> both(a, rb, x, y)) by { lemma_rev(a, x, y); lemma_rev(b, x, y); }
    if is_isxn(b, a, q) { lemma_answer_determined(a, b, r, b, a, q); }
    if is_isxn(ra, b, q) { lemma_answer_determined(a, b, r, ra, b, q); }
    if is_isxn(a, rb, q) { lemma_answer_determined(a, b, r, a, rb, q); }
}
/// A shared end is reported as that end.
proof fn lemma_shared_end(a: Segment, b: Segment, p: Position, e: Position)
    requires is_isxn(a, b, SegmentIntersection::Position(p)), is_end(a, b, e), both(a, b, rx(e), ry(e))
    ensures same_pos(p, e)
{}
