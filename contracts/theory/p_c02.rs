// C02: the contracts of contains and intersects are set containment and intersection.
/// The point (x, y) lies in the closed box (never for the empty box; NaN bounds exclude all).
pub open spec fn in_box(e: Envelope, x: real, y: real) -> bool {
    match e {
        Envelope::Empty => false,
        Envelope::Bounds { min, max } => e_le(min.vx(), Ext::Fin(x)) && e_le(Ext::Fin(x), max.vx()) && e_le(min.vy(), Ext::Fin(y)) && e_le(Ext::Fin(y), max.vy()),
    }
}
/// As in_box for points that may lie at infinity.
pub open spec fn in_box_e(e: Envelope, x: Ext, y: Ext) -> bool {
    match e {
        Envelope::Empty => false,
        Envelope::Bounds { min, max } => e_le(min.vx(), x) && e_le(x, max.vx()) && e_le(min.vy(), y) && e_le(y, max.vy()),
    }
}
pub open spec fn ordered(e: Envelope) -> bool {
    match e { Envelope::Empty => true, Envelope::Bounds { min, max } => e_le(min.vx(), max.vx()) && e_le(min.vy(), max.vy()) }
}
proof fn lemma_intersects_common(a: Envelope, b: Envelope)
    requires ordered(a), ordered(b)
    ensures env_intersects(a, b) <==> exists|x: Ext, y: Ext| #[trigger] in_box_e(a, x, y) && in_box_e(b, x, y)
{
    if env_intersects(a, b) {
        match (a, b) {
            (Envelope::Bounds { min: m1, max: x1 }, Envelope::Bounds { min: m2, max: x2 }) => {
                let x = e_max(m1.vx(), m2.vx());
                let y = e_max(m1.vy(), m2.vy());
                assert(in_box_e(a, x, y) && in_box_e(b, x, y));
            }
            _ => { }
        }
    }
}
proof fn lemma_contains_subset(a: Envelope, b: Envelope)
    requires ordered(a), ordered(b), !(b is Empty), !(a is Empty)
    ensures env_contains(a, b) <==> forall|x: Ext, y: Ext| #[trigger] in_box_e(b, x, y) ==> in_box_e(a, x, y)
{
    match b {
        Envelope::Bounds { min, max } => {
            if forall|x: Ext, y: Ext| #[trigger] in_box_e(b, x, y) ==> in_box_e(a, x, y) {
                assert(in_box_e(b, min.vx(), min.vy()));
                assert(in_box_e(b, max.vx(), max.vy()));
            }
        }
        _ => { }
    }
}
proof fn lemma_relations(a: Envelope, b: Envelope, p: Position)
    ensures env_intersects(a, b) == env_intersects(b, a),
        env_contains(a, Envelope::Empty) == false, env_contains(Envelope::Empty, a) == false, env_intersects(a, Envelope::Empty) == false,
        p.vx() != Ext::NaN && p.vy() != Ext::NaN ==> env_contains(a, env_pos(p)) == in_box_e(a, p.vx(), p.vy()),
        (p.vx() == Ext::NaN || p.vy() == Ext::NaN) ==> !env_contains(a, env_pos(p)),
{ }
