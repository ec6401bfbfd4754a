// C26: with exact arithmetic a buffered box has every side moved out by d, and the
// centre is the midpoint, which lies in the box.
pub open spec fn fin_box(e: Envelope) -> bool {
    match e { Envelope::Empty => false, Envelope::Bounds { min, max } => pos_finite(min) && pos_finite(max) && e_le(min.vx(), max.vx()) && e_le(min.vy(), max.vy()) }
}
pub open spec fn bminx(e: Envelope) -> real { match e { Envelope::Bounds { min, max } => min.vx()->Fin_0, _ => 0real } }
pub open spec fn bminy(e: Envelope) -> real { match e { Envelope::Bounds { min, max } => min.vy()->Fin_0, _ => 0real } }
pub open spec fn bmaxx(e: Envelope) -> real { match e { Envelope::Bounds { min, max } => max.vx()->Fin_0, _ => 0real } }
pub open spec fn bmaxy(e: Envelope) -> real { match e { Envelope::Bounds { min, max } => max.vy()->Fin_0, _ => 0real } }
proof fn lemma_buffer(e: Envelope, d: real)
    requires fin_box(e), exact_arith()
    ensures ({
        let b = env_buffer(e, Ext::Fin(d));
        &&& b is Bounds
        &&& bminx(b) == bminx(e) - d && bminy(b) == bminy(e) - d && bmaxx(b) == bmaxx(e) + d && bmaxy(b) == bmaxy(e) + d
        &&& d >= 0real ==> fin_box(b) && env_contains(b, e)
    })
{ broadcast use group_arith; }
proof fn lemma_buffer_empty(d: Ext) ensures env_buffer(Envelope::Empty, d) == Envelope::Empty { }
proof fn lemma_center(e: Envelope, c: Position)
    requires fin_box(e), exact_arith(), Some(c) == env_center(e)
    ensures pos_finite(c),
        c.vx()->Fin_0 * 2real == bminx(e) + bmaxx(e), c.vy()->Fin_0 * 2real == bminy(e) + bmaxy(e),
        env_contains(e, env_pos(c)),
{
    broadcast use group_arith;
    match e {
        Envelope::Bounds { min, max } => {
            assert(c_add(one(), one()) == Ext::Fin(2real));
            assert(c.vx() == Ext::Fin((max.vx()->Fin_0 + min.vx()->Fin_0) / 2real));
            assert(c.vy() == Ext::Fin((max.vy()->Fin_0 + min.vy()->Fin_0) / 2real));
        }
        _ => { }
    }
}
