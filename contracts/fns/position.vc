@@fn planar Coordinate::min_max
    ensures ret.0.v() == e_min(self.v(), other.v()), ret.1.v() == e_max(self.v(), other.v()),
@@fn planar Position as From<(C,C)>::from
@@extra
impl FromSpecImpl<(C, C)> for Position {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: (C, C)) -> Position { Position { x: c.0, y: c.1 } }
}
@@fn planar Position as From<[C;2]>::from
@@extra
impl FromSpecImpl<[C; 2]> for Position {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: [C; 2]) -> Position { Position { x: c@[0], y: c@[1] } }
}
@@fn planar Position as From<SafePosition<C>>::from
@@extra
impl FromSpecImpl<(NotNan, NotNan)> for Position {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: (NotNan, NotNan)) -> Position { Position { x: c.0.c, y: c.1.c } }
}
@@fn planar Position::new
    ensures ret == (Position { x, y }),
@@fn planar Position::cross
@@use group_arith
@@spec
    ensures exact_arith() && pos_finite(c1) && pos_finite(c2) ==> ret.v() == Ext::Fin(r_cross(c1, c2)),
@@fn planar Position::dot
@@use group_arith
@@spec
    ensures exact_arith() && pos_finite(c1) && pos_finite(c2) ==> ret.v() == Ext::Fin(r_dot(c1, c2)),
@@fn planar Position::min
    ensures ret == pos_min(*self, other),
@@fn planar Position::max
    ensures ret == pos_max(*self, other),
@@fn planar Position::min_max
    ensures ret.0 == pos_min(p1, p2), ret.1 == pos_max(p1, p2),
@@fn planar Position::validate
    ensures ret is Ok <==> pos_finite(*self),
@@fn planar Position::to_hashable
    ensures ret is Err <==> (self.vx() is NaN || self.vy() is NaN),
        ret is Ok ==> ret->Ok_0.0.c == self.x && ret->Ok_0.1.c == self.y,
@@fn planar Position as Sub::sub
@@extra
impl SubSpecImpl<Position> for Position {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Position) -> bool { true }
    open spec fn sub_spec(self, o: Position) -> Position { mkpos(c_sub(self.vx(), o.vx()), c_sub(self.vy(), o.vy())) }
}
@@fn planar Position as Add::add
@@extra
impl AddSpecImpl<Position> for Position {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Position) -> bool { true }
    open spec fn add_spec(self, o: Position) -> Position { mkpos(c_add(self.vx(), o.vx()), c_add(self.vy(), o.vy())) }
}
@@fn planar Position as Mul::mul
@@extra
impl MulSpecImpl<C> for Position {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: C) -> bool { true }
    open spec fn mul_spec(self, o: C) -> Position { mkpos(c_mul(self.vx(), o.v()), c_mul(self.vy(), o.v())) }
}
@@fn planar Position as Div::div
@@extra
impl DivSpecImpl<C> for Position {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: C) -> bool { true }
    open spec fn div_spec(self, o: C) -> Position { mkpos(c_div(self.vx(), o.v()), c_div(self.vy(), o.v())) }
}
@@fn planar Position as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { env_pos(*self) }
