// C07: the query square, and that it reaches every item within the distance.
pub open spec fn square(p: Position, d: Ext) -> Envelope { env_buffer(env_pos(p), d) }
pub open spec fn in_box(e: Envelope, x: real, y: real) -> bool { bminx(e) <= x <= bmaxx(e) && bminy(e) <= y <= bmaxy(e) }
proof fn lemma_square(p: Position, d: Ext)
    requires exact_arith(), pos_finite(p), d is Fin, d->Fin_0 >= 0real
    ensures fin_box(square(p, d)), bminx(square(p, d)) == p.vx()->Fin_0 - d->Fin_0, bmaxx(square(p, d)) == p.vx()->Fin_0 + d->Fin_0,
        bminy(square(p, d)) == p.vy()->Fin_0 - d->Fin_0, bmaxy(square(p, d)) == p.vy()->Fin_0 + d->Fin_0,
{ broadcast use group_arith; }
/// An item with a point within the distance has a box that meets the square.
proof fn lemma_within(p: Position, d: Ext, e: Envelope, x: real, y: real)
    requires exact_arith(), pos_finite(p), d is Fin, d->Fin_0 >= 0real, fin_box(e), in_box(e, x, y),
        (x - p.vx()->Fin_0) * (x - p.vx()->Fin_0) + (y - p.vy()->Fin_0) * (y - p.vy()->Fin_0) <= d->Fin_0 * d->Fin_0,
    ensures env_intersects(e, square(p, d))
{
    lemma_square(p, d);
    let r = d->Fin_0;
    let u = x - p.vx()->Fin_0;
    let v = y - p.vy()->Fin_0;
    assert(u * u >= 0real && v * v >= 0real) by (nonlinear_arith);
    assert(0real - r <= u <= r) by (nonlinear_arith) requires r >= 0real, u * u <= r * r;
    assert(0real - r <= v <= r) by (nonlinear_arith) requires r >= 0real, v * v <= r * r;
}
