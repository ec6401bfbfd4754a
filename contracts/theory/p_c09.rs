// The keys are a walk over all cells of the 65536 x 65536 grid.
pub open spec fn key_of(x: u32, y: u32) -> int { w_key(x, y) as int }
proof fn lemma_in_grid(x: int) requires 0 <= x <= 0xFFFF ensures low(x, 16) == x, pw2(16) == 0x1_0000, pw4(16) == 0x1_0000_0000
{ assert(pw2(16) == 0x1_0000 && pw4(16) == 0x1_0000_0000) by (compute); assert(x % 0x1_0000 == x); }
/// One cell per key.
proof fn lemma_cells_one_to_one(x: u32, y: u32, x2: u32, y2: u32)
    requires x <= 0xFFFF, y <= 0xFFFF, x2 <= 0xFFFF, y2 <= 0xFFFF, key_of(x, y) == key_of(x2, y2) ensures x == x2, y == y2
{
    lemma_key(x, y); lemma_key(x2, y2);
    lemma_one_to_one(16, (false, false), x as int, y as int, x2 as int, y2 as int);
    lemma_in_grid(x as int); lemma_in_grid(y as int); lemma_in_grid(x2 as int); lemma_in_grid(y2 as int);
}
/// Every 32-bit key is the key of a cell.
proof fn lemma_cells_onto(k: u32) -> (r: (u32, u32))
    ensures r.0 <= 0xFFFF, r.1 <= 0xFFFF, key_of(r.0, r.1) == k
{
    lemma_in_grid(0);
    let c = lemma_onto(16, (false, false), k as int);
    lemma_key(c.0 as u32, c.1 as u32);
    (c.0 as u32, c.1 as u32)
}
/// Cells with consecutive keys share an edge.
proof fn lemma_cells_adjacent(x: u32, y: u32, x2: u32, y2: u32)
    requires x <= 0xFFFF, y <= 0xFFFF, x2 <= 0xFFFF, y2 <= 0xFFFF, key_of(x2, y2) == key_of(x, y) + 1
    ensures iabs(x - x2) + iabs(y - y2) == 1
{
    lemma_key(x, y); lemma_key(x2, y2);
    lemma_neighbours(16, (false, false), x as int, y as int, x2 as int, y2 as int);
    lemma_in_grid(x as int); lemma_in_grid(y as int); lemma_in_grid(x2 as int); lemma_in_grid(y2 as int);
}
pub open spec fn hx(p: Position) -> real { p.vx()->Fin_0 }
pub open spec fn hy(p: Position) -> real { p.vy()->Fin_0 }
pub open spec fn h_fin(p: Position) -> bool { p.vx() is Fin && p.vy() is Fin }
/// An item whose centre lies in the total box has the key of the cell it falls in.
proof fn lemma_item_cell(t: Envelope, e: Envelope)
    requires exact_arith(), t is Bounds, env_center(e) is Some,
        h_fin(t->min), h_fin(t->max), h_fin(env_center(e)->Some_0),
        hx(t->min) < hx(t->max), hy(t->min) < hy(t->max),
        hx(t->min) <= hx(env_center(e)->Some_0) <= hx(t->max), hy(t->min) <= hy(env_center(e)->Some_0) <= hy(t->max),
    ensures ({
        let c = env_center(e)->Some_0;
        let x = grid(hx(c), hx(t->min), hx(t->max));
        let y = grid(hy(c), hy(t->min), hy(t->max));
        0 <= x <= 65535 && 0 <= y <= 65535 && item_key(t, e) as int == hil(16, (false, false), x, y)
    }),
{
    let c = env_center(e)->Some_0;
    lemma_cell(hx(c), hx(t->min), hx(t->max)); lemma_cell(hy(c), hy(t->min), hy(t->max));
    lemma_key(grid(hx(c), hx(t->min), hx(t->max)) as u32, grid(hy(c), hy(t->min), hy(t->max)) as u32);
}
