@@fn linear Position as From<C>::from
@@extra
impl FromSpecImpl<C> for Position {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: C) -> Position { Position { x: c } }
}
@@fn linear Position as From<SafePosition<C>>::from
@@extra
impl FromSpecImpl<NotNan> for Position {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(c: NotNan) -> Position { Position { x: c.c } }
}
@@fn linear Position::new
    ensures ret == (Position { x }),
@@fn linear Position::min
    ensures ret == pos_min(*self, other),
@@fn linear Position::max
    ensures ret == pos_max(*self, other),
@@fn linear Position::min_max
    ensures ret.0 == pos_min(p1, p2), ret.1 == pos_max(p1, p2),
@@fn linear Position::validate
    ensures ret is Ok <==> self.vx() is Fin,
@@fn linear Position::to_hashable
    ensures ret is Err <==> self.vx() is NaN, ret is Ok ==> ret->Ok_0.c == self.x,
@@fn linear Position as Sub::sub
@@extra
impl SubSpecImpl<Position> for Position {
    open spec fn obeys_sub_spec() -> bool { true }
    open spec fn sub_req(self, o: Position) -> bool { true }
    open spec fn sub_spec(self, o: Position) -> Position { mkpos(c_sub(self.vx(), o.vx())) }
}
@@fn linear Position as Add::add
@@extra
impl AddSpecImpl<Position> for Position {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, o: Position) -> bool { true }
    open spec fn add_spec(self, o: Position) -> Position { mkpos(c_add(self.vx(), o.vx())) }
}
@@fn linear Position as Mul::mul
@@extra
impl MulSpecImpl<C> for Position {
    open spec fn obeys_mul_spec() -> bool { true }
    open spec fn mul_req(self, o: C) -> bool { true }
    open spec fn mul_spec(self, o: C) -> Position { mkpos(c_mul(self.vx(), o.v())) }
}
@@fn linear Position as Div::div
@@extra
impl DivSpecImpl<C> for Position {
    open spec fn obeys_div_spec() -> bool { true }
    open spec fn div_req(self, o: C) -> bool { true }
    open spec fn div_spec(self, o: C) -> Position { mkpos(c_div(self.vx(), o.v())) }
}
@@fn linear Position as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { env_new(*self, *self) }
@@fn linear Envelope as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { *self }
@@fn linear Envelope as From<(IP,IP)>::from
@@extra
impl<IP: Into<Position>> FromSpecImpl<(IP, IP)> for Envelope {
    open spec fn obeys_from_spec() -> bool { <IP as IntoSpec<Position>>::obeys_into_spec() }
    open spec fn from_spec(p: (IP, IP)) -> Envelope { env_new(into_pos(p.0), into_pos(p.1)) }
}
@@fn linear Envelope::empty
    ensures ret == Envelope::Empty,
@@fn linear Envelope::new
    ensures ret == env_new(position1, position2),
@@fn linear Envelope::of
    ensures ret == env_fold(envs_ref(objs@)),
@@inv 1
    __acc1 == env_fold(envs_ref(objs@.take(__i1 as int))),
@@at bot_1
    proof { assert(envs_ref(objs@.take(__i1 as int)).drop_last() =~= envs_ref(objs@.take(__i1 - 1))); }
@@at after_1
    proof { assert(objs@.take(__i1 as int) =~= objs@); }
@@fn linear Envelope::validate
    ensures ret is Ok <==> (match *self { Envelope::Empty => true, Envelope::Bounds { min, max } => min.vx() is Fin && max.vx() is Fin && e_le(min.vx(), max.vx()) }),
@@fn linear Envelope::is_empty
    ensures ret == (*self is Empty),
@@fn linear Envelope::contains
    ensures ret == env_contains(*self, other.env()),
@@fn linear Envelope::intersects
    ensures ret == env_intersects(*self, other),
@@fn linear Envelope::merge
    ensures ret == env_merge(*self, other.env()),
@@fn linear Envelope::expand
    ensures *final(self) == env_merge(*old(self), other.env()),
@@fn linear Segment as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { env_new(self.start, self.end) }
@@fn linear Segment as From<(IC,IC)>::from
@@extra
impl<IC: Into<Position>> FromSpecImpl<(IC, IC)> for Segment {
    open spec fn obeys_from_spec() -> bool { <IC as IntoSpec<Position>>::obeys_into_spec() }
    open spec fn from_spec(p: (IC, IC)) -> Segment { Segment { start: into_pos(p.0), end: into_pos(p.1) } }
}
@@fn linear Segment::new
    ensures ret == (Segment { start, end }),
@@fn linear Segment::validate
    ensures ret is Ok <==> self.start.vx() is Fin && self.end.vx() is Fin,
@@fn linear Segment::min
    ensures ret == pos_min(self.start, self.end),
@@fn linear Segment::max
    ensures ret == pos_max(self.start, self.end),
@@fn linear Line as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { match self.segment { None => Envelope::Empty, Some(s) => env_new(s.start, s.end) } }
@@fn linear Line as From<IS>::from
@@extra
impl<IS: Into<Segment>> FromSpecImpl<IS> for Line {
    open spec fn obeys_from_spec() -> bool { <IS as IntoSpec<Segment>>::obeys_into_spec() }
    open spec fn from_spec(p: IS) -> Line { Line { segment: Some(IntoSpec::<Segment>::into_spec(p)) } }
}
@@fn linear Line::empty
    ensures ret == (Line { segment: None }),
@@fn linear Line::new
    ensures ret == (Line { segment: Some(Segment { start, end }) }),
@@fn linear Line::is_empty
    ensures ret == (self.segment is None),
@@fn linear Line::start
    ensures ret == (match self.segment { None => None::<Point>, Some(s) => Some(Point(s.start)) }),
@@fn linear Line::end
    ensures ret == (match self.segment { None => None::<Point>, Some(s) => Some(Point(s.end)) }),
@@fn linear MultiLine as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { self._envelope }
@@fn linear MultiLine as From<Vec<IS>>::from
@@extra
impl<IS: Into<Segment>> FromSpecImpl<Vec<IS>> for MultiLine {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(p: Vec<IS>) -> MultiLine { arbitrary() }
}
@@out 1 Segment
@@spec
    ensures ret._envelope == seq_env(ret.segments@), ret.segments@.len() == segments@.len(),
        <IS as IntoSpec<Segment>>::obeys_into_spec() ==> forall|i: int| 0 <= i < segments@.len() ==> #[trigger] ret.segments@[i] == IntoSpec::<Segment>::into_spec(segments@[i]),
@@inv 1
    <IS as IntoSpec<Segment>>::obeys_into_spec() ==> forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == IntoSpec::<Segment>::into_spec(segments@[i]),
@@fn linear MultiLine::empty
    ensures ret.segments@.len() == 0, ret._envelope == Envelope::Empty,
@@fn linear MultiLine::new
@@use lemma_envs_ref
@@spec
    ensures ret.segments@ == segments@, ret._envelope == seq_env(segments@),
@@fn linear MultiLine::is_empty
    ensures ret == (self.segments@.len() == 0),
@@fn linear MultiLine::get_line
    ensures n < self.segments@.len() ==> ret == Some(Line { segment: Some(self.segments@[n as int]) }), n >= self.segments@.len() ==> ret is None,
@@fn linear MultiPoint as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { self._envelope }
@@fn linear MultiPoint as From<Vec<IP>>::from
@@extra
impl<IP: Into<Position>> FromSpecImpl<Vec<IP>> for MultiPoint {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(p: Vec<IP>) -> MultiPoint { arbitrary() }
}
@@out 1 Position
@@spec
    ensures ret._envelope == seq_env(ret.positions@), ret.positions@.len() == positions@.len(),
        <IP as IntoSpec<Position>>::obeys_into_spec() ==> forall|i: int| 0 <= i < positions@.len() ==> #[trigger] ret.positions@[i] == IntoSpec::<Position>::into_spec(positions@[i]),
@@inv 1
    <IP as IntoSpec<Position>>::obeys_into_spec() ==> forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == IntoSpec::<Position>::into_spec(positions@[i]),
@@fn linear MultiPoint::empty
    ensures ret.positions@.len() == 0, ret._envelope == Envelope::Empty,
@@fn linear MultiPoint::new
@@use lemma_envs_ref
@@spec
    ensures ret.positions@ == positions@, ret._envelope == seq_env(positions@),
@@fn linear MultiPoint::num_points
    ensures ret == self.positions@.len(),
@@fn linear MultiPoint::get_point
    ensures n < self.positions@.len() ==> ret == Some(Point(self.positions@[n as int])), n >= self.positions@.len() ==> ret is None,
@@fn linear Point as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { if self.0.vx() is NaN { Envelope::Empty } else { env_new(self.0, self.0) } }
@@fn linear Point as From<P>::from
@@extra
impl<P: Into<Position>> FromSpecImpl<P> for Point {
    open spec fn obeys_from_spec() -> bool { <P as IntoSpec<Position>>::obeys_into_spec() }
    open spec fn from_spec(p: P) -> Point { Point(into_pos(p)) }
}
@@fn linear Point::empty
    ensures ret.0.vx() is NaN,
@@fn linear Point::new
    ensures ret == Point(position),
@@fn linear Point::is_empty
    ensures ret == (self.0.vx() is NaN),
@@fn linear Point::x
    ensures ret == (if self.0.vx() is NaN { None::<C> } else { Some(self.0.x) }),
