@@fn planar Segment::validate
    ensures ret is Ok <==> pos_finite(self.start) && pos_finite(self.end),
@@fn planar Segment as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { env_new(self.start, self.end) }
@@fn planar Segment as From<(IP,IP)>::from
@@extra
impl<IP: Into<Position>> FromSpecImpl<(IP, IP)> for Segment {
    open spec fn obeys_from_spec() -> bool { <IP as IntoSpec<Position>>::obeys_into_spec() }
    open spec fn from_spec(p: (IP, IP)) -> Segment { Segment { start: into_pos(p.0), end: into_pos(p.1) } }
}
@@fn planar Segment::new
    ensures ret == (Segment { start, end }),
@@fn planar Segment::length_squared
@@use group_arith
@@spec
    ensures exact_arith() && pos_finite(self.start) && pos_finite(self.end) ==> ret.v() == Ext::Fin(norm2(self.start, self.end)),
@@fn planar Segment::length
@@at entry
    proof { if exact_arith() { lemma_norm2_nonneg(self.start, self.end); ax_sqrt(norm2(self.start, self.end)); } }
@@spec
    ensures exact_arith() && pos_finite(self.start) && pos_finite(self.end) ==> is_norm(ret.v(), self.start, self.end),
@@fn planar Segment::determinant
@@use group_arith
@@spec
    ensures exact_arith() && pos_finite(self.start) && pos_finite(self.end) ==> ret.v() == Ext::Fin(r_cross(self.start, self.end)),
@@fn planar Triangle::to_array
    ensures ret@ =~= seq![self.0, self.1, self.2],
@@fn planar Triangle as From<(IC,IC,IC)>::from
@@extra
impl<IC: Into<Position> + Copy> FromSpecImpl<(IC, IC, IC)> for Triangle {
    open spec fn obeys_from_spec() -> bool { <IC as IntoSpec<Position>>::obeys_into_spec() }
    open spec fn from_spec(p: (IC, IC, IC)) -> Triangle { Triangle(into_pos(p.0), into_pos(p.1), into_pos(p.2)) }
}
@@fn planar Triangle::new
    ensures ret == Triangle(p0, p1, p2),
@@fn planar Triangle::signed_area
@@use group_arith
@@spec
    ensures exact_arith() && tri_finite(*self) ==> ret.v() == Ext::Fin(r_area2(*self) / 2real),
@@fn planar Triangle::area
    ensures exact_arith() && tri_finite(*self) ==> ret.v() == Ext::Fin(if r_area2(*self) < 0real { (0real - r_area2(*self)) / 2real } else { r_area2(*self) / 2real }),
@@fn planar Segment::position_location
@@use group_arith
@@spec
    ensures exact_arith() && seg_finite(*self) && pos_finite(position) ==> ({
        let d = side(*self, rx(position), ry(position));
        (ret is Left <==> d > 0real) && (ret is On <==> d == 0real) && (ret is Right <==> d < 0real)
    }),
@@fn planar Segment::contains
@@at entry
    proof { lemma_on(self, rx(p), ry(p)); }
@@spec
    ensures exact_arith() && seg_finite(self) && pos_finite(p) ==> ret == on_pos(self, p),
@@fn planar Segment::intersect_segment
@@use group_arith
@@spec
    ensures exact_arith() && seg_finite(*self) && seg_finite(other) ==> is_isxn(*self, other, ret),
        ret is Segment ==> is_end(*self, other, ret->Segment_0.start) && is_end(*self, other, ret->Segment_0.end),
@@at entry
    let ghost __ok = exact_arith() && seg_finite(*self) && seg_finite(other);
    proof { lemma_isxn_facts(*self, other); }
@@at let_da_1
    proof { if __ok { assert(proper(*self)); } }
@@at let_end_1
    proof { if __ok { lemma_one_line(*self, other); lemma_overlap(*self, other, start, end); } }
@@at let_tb_1
    proof { if __ok { lemma_cross_at(*self, other, ta.v()->Fin_0, tb.v()->Fin_0); } }
@@at let_position_1
    proof { if __ok { lemma_cross_hit(*self, other, ta.v()->Fin_0, tb.v()->Fin_0, position); } }
