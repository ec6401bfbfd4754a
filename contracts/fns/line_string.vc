@@fn planar LineString::new
@@use lemma_envs_ref
@@spec
    ensures ret.positions@ == positions@, ret._envelope == seq_env(positions@),
@@fn planar LineString::collect_from
    ensures ret.positions@ == iter@, ret._envelope == seq_env(iter@),
@@fn planar LineString as From<Vec<P>>::from
@@extra
impl<P: Into<Position>> FromSpecImpl<Vec<P>> for LineString {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(p: Vec<P>) -> LineString { arbitrary() }
}
@@out 1 Position
@@spec
    ensures <P as IntoSpec<Position>>::obeys_into_spec() ==> ret.positions@ == Seq::new(v@.len(), |i: int| into_pos(v@[i])),
        ret._envelope == seq_env(ret.positions@),
@@inv 1
    <P as IntoSpec<Position>>::obeys_into_spec() ==> forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == into_pos(v@[i]),
@@at after_1
    proof { if <P as IntoSpec<Position>>::obeys_into_spec() { assert(__out1@ =~= Seq::new(v@.len(), |i: int| into_pos(v@[i]))); } }
@@fn planar LineString::segments_iter
@@out 1 Segment
@@spec
    ensures ret@ == ls_segs(self.positions@),
@@inv 1
    forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == (Segment { start: self.positions@[i], end: self.positions@[i + 1] }),
@@at after_1
    proof { assert(__out1@ =~= ls_segs(self.positions@)); }
@@fn planar LineString::get_segment
@@at entry
    proof { ax_vec_small(self.positions); }
@@spec
    requires n + 1 < self.positions@.len(),
    ensures ret == ls_segs(self.positions@)[n as int],
@@fn planar LineString::num_points
    ensures ret == self.positions@.len(),
@@fn planar LineString::get_point
    ensures n < self.positions@.len() ==> ret == Some(Point(self.positions@[n as int])), n >= self.positions@.len() ==> ret is None,
@@fn planar LineString::is_closed
    ensures ret == ls_closed(self.positions@),
@@fn planar LineString::start_point
    ensures self.positions@.len() == 0 ==> ret is None, self.positions@.len() > 0 ==> ret == Some(Point(self.positions@[0])),
@@fn planar LineString::end_point
    ensures self.positions@.len() == 0 ==> ret is None, self.positions@.len() > 0 ==> ret == Some(Point(self.positions@.last())),
@@fn planar LineString::length
@@use lemma_dist
@@out 1 C
@@spec
    ensures exact_arith() && all_finite(self.positions@) ==> is_length(ret.v(), self.positions@),
@@inv 1
    exact_arith() && all_finite(self.positions@) ==> forall|i: int| 0 <= i < __i1 ==> is_norm((#[trigger] __out1@[i]).v(), self.positions@[i], self.positions@[i + 1]),
@@at after_1
    proof { if exact_arith() && all_finite(self.positions@) { assert(vals(__out1@) =~= dists(self.positions@)); lemma_sum_fin(vals(__out1@)); } }
@@fn planar LineString::dimension
    ensures ret == 1,
@@fn planar LineString::geometry_type
    ensures ret@ == "LineString"@,
@@fn planar LineString::is_empty
    ensures ret == (self.positions@.len() == 0),
@@fn planar LineString::boundary
    ensures is_ls_boundary(ret, self.positions@),
@@fn planar LineString as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { self._envelope }
@@fn planar MultiLineString::new
@@use lemma_envs_ref
@@spec
    ensures ret.line_strings@ == line_strings@, ret._envelope == seq_env(line_strings@),
@@fn planar MultiLineString as From<Vec<L>>::from
@@extra
impl<L: Into<LineString>> FromSpecImpl<Vec<L>> for MultiLineString {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(p: Vec<L>) -> MultiLineString { arbitrary() }
}
@@out 1 LineString
@@spec
    ensures ret._envelope == seq_env(ret.line_strings@), ret.line_strings@.len() == v@.len(),
        <L as IntoSpec<LineString>>::obeys_into_spec() ==> forall|i: int| 0 <= i < v@.len() ==> #[trigger] ret.line_strings@[i] == IntoSpec::<LineString>::into_spec(v@[i]),
@@inv 1
    <L as IntoSpec<LineString>>::obeys_into_spec() ==> forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == IntoSpec::<LineString>::into_spec(v@[i]),
@@fn planar MultiLineString::is_closed
    ensures ret == forall|i: int| 0 <= i < self.line_strings@.len() ==> ls_closed((#[trigger] self.line_strings@[i]).positions@),
@@inv 1
    __r1 == forall|i: int| 0 <= i < __i1 ==> ls_closed((#[trigger] self.line_strings@[i]).positions@),
@@fn planar MultiLineString::length
@@out 1 C
@@spec
    ensures exact_arith() && mls_finite(self.line_strings@) ==> is_mls_length(ret.v(), self.line_strings@),
@@inv 1
    exact_arith() && mls_finite(self.line_strings@) ==> forall|i: int| 0 <= i < __i1 ==> is_length((#[trigger] __out1@[i]).v(), self.line_strings@[i].positions@),
@@at after_1
    proof { if exact_arith() && mls_finite(self.line_strings@) { assert(vals(__out1@) =~= mls_dists(self.line_strings@)); lemma_sum_fin(vals(__out1@)); } }
@@fn planar MultiLineString as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { self._envelope }
@@fn planar MultiLineString::dimension
    ensures ret == 1,
@@fn planar MultiLineString::geometry_type
    ensures ret@ == "MultiLineString"@,
@@fn planar MultiLineString::is_empty
    ensures ret == all_empty(self.line_strings@),
@@inv 1
    __r1 == forall|i: int| 0 <= i < __i1 ==> (#[trigger] self.line_strings@[i]).positions@.len() == 0,
@@fn planar MultiLineString::boundary
@@use lemma_flat_points_push
@@out 1 MultiPoint
@@out 2 Point
@@out 3 SafePosition
@@out 5 Position
@@spec
    ensures is_mls_boundary(ret, self.line_strings@),
@@noauto 1
@@inv 1
    __i1 <= __s1.len(),
    flat_points(__out1@) == ends_of(self.line_strings@.take(__i1 as int)),
@@at bot_1
    proof {
        let l = self.line_strings@.take(__i1 as int);
        assert(l.drop_last() =~= self.line_strings@.take(__i1 - 1));
        assert(l.last() == self.line_strings@[__i1 - 1]);
        assert(flat_points(__out1@) =~= ends_of(l));
    }
@@at after_1
    proof { assert(self.line_strings@.take(__i1 as int) =~= self.line_strings@); }
@@noauto 2
@@inv 2
    __i2 <= __s2.len(),
    __out2@ == flat_points(__s2@.take(__i2 as int)),
@@at bot_2
    proof { assert(__s2@.take(__i2 as int).drop_last() =~= __s2@.take(__i2 - 1)); }
@@at after_2
    proof { assert(__s2@.take(__i2 as int) =~= __s2@); }
@@noauto 3
@@inv 3
    __i3 <= __s3.len(),
    __out3@ == hkeys(__s3@.take(__i3 as int)),
@@at bot_3
    proof { assert(__s3@.take(__i3 as int).drop_last() =~= __s3@.take(__i3 - 1)); }
@@at after_3
    proof { assert(__s3@.take(__i3 as int) =~= __s3@); }
@@inv 4
    forall|h: (NotNan, NotNan)| #![trigger boundary@.contains(h)] #![trigger odd_in(__s4@.take(__i4 as int), h)] boundary@.contains(h) <==> odd_in(__s4@.take(__i4 as int), h),
@@at bot_4
    proof {
        let t = __s4@.take(__i4 as int);
        assert(t.drop_last() =~= __s4@.take(__i4 - 1));
        assert(t.last() == pos);
        assert forall|h: (NotNan, NotNan)| #[trigger] boundary@.contains(h) <==> odd_in(t, h) by { lemma_odd_step(t, h); }
    }
@@at after_4
    proof { assert(__s4@.take(__i4 as int) =~= __s4@); assert(__s4@ == hkeys(ends_of(self.line_strings@))); }
@@inv 5
    forall|j: int| 0 <= j < __i5 ==> (#[trigger] __out5@[j]) == hpos(*__s5@[j]),
@@at after_5
    proof { lemma_mls_boundary(boundary@, __s5@, __out5@, hkeys(ends_of(self.line_strings@))); lemma_has_p(__out5@); ax_into_refl::<Position>(); }
@@fn planar MultiPolygon::new
@@use lemma_envs_ref
@@spec
    ensures ret.polygons@ == polygons@, ret._envelope == seq_env(polygons@),
@@fn planar MultiPolygon as From<Vec<P>>::from
@@extra
impl<P: Into<Polygon>> FromSpecImpl<Vec<P>> for MultiPolygon {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(p: Vec<P>) -> MultiPolygon { arbitrary() }
}
@@out 1 Polygon
@@spec
    ensures ret._envelope == seq_env(ret.polygons@), ret.polygons@.len() == v@.len(),
        <P as IntoSpec<Polygon>>::obeys_into_spec() ==> forall|i: int| 0 <= i < v@.len() ==> #[trigger] ret.polygons@[i] == IntoSpec::<Polygon>::into_spec(v@[i]),
@@inv 1
    <P as IntoSpec<Polygon>>::obeys_into_spec() ==> forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == IntoSpec::<Polygon>::into_spec(v@[i]),
@@fn planar MultiPolygon as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { self._envelope }
@@fn planar MultiPolygon::dimension
    ensures ret == 2,
@@fn planar MultiPolygon::geometry_type
    ensures ret@ == "MultiPolygon"@,
@@fn planar MultiPolygon::is_empty
    ensures ret == all_pg_empty(self.polygons@),
@@inv 1
    __r1 == forall|i: int| 0 <= i < __i1 ==> (#[trigger] self.polygons@[i]).exterior.positions@.len() == 0,
@@fn planar MultiPolygon::boundary
@@use lemma_flat_rings_push
@@out 1 Geometry
@@out 2 Geometry
@@out 3 MultiLineString
@@out 4 LineString
@@spec
    ensures is_mpg_boundary(ret, *self),
@@inv 1
    forall|i: int| 0 <= i < __i1 ==> is_pg_boundary(#[trigger] __out1@[i], self.polygons@[i]),
@@noauto 2
@@inv 2
    __i2 <= __s2.len(), __s2@.len() == self.polygons@.len(),
    forall|i: int| 0 <= i < __s2@.len() ==> is_pg_boundary(#[trigger] __s2@[i], self.polygons@[i]),
    forall|i: int| 0 <= i < __out2@.len() ==> (#[trigger] __out2@[i]) is MultiLineString,
    flat_rings(mls_of(__out2@)) == mpg_rings(self.polygons@.take(__i2 as int)),
@@at bot_2
    proof {
        let l = self.polygons@.take(__i2 as int);
        assert(l.drop_last() =~= self.polygons@.take(__i2 - 1));
        assert(is_pg_boundary(__s2@[__i2 - 1], self.polygons@[__i2 - 1]));
        assert(flat_rings(mls_of(__out2@)) =~= mpg_rings(l));
    }
@@at after_2
    proof { assert(self.polygons@.take(__i2 as int) =~= self.polygons@); }
@@noauto 3
@@inv 3
    __i3 <= __s3.len(),
    forall|i: int| 0 <= i < __s3@.len() ==> (#[trigger] __s3@[i]) is MultiLineString,
    __out3@ == mls_of(__s3@.take(__i3 as int)),
@@at bot_3
    proof { assert(__s3@.take(__i3 as int).drop_last() =~= __s3@.take(__i3 - 1)); assert(__out3@ =~= mls_of(__s3@.take(__i3 as int))); }
@@at after_3
    proof { assert(__s3@.take(__i3 as int) =~= __s3@); }
@@noauto 4
@@inv 4
    __i4 <= __s4.len(),
    __out4@ == flat_rings(__s4@.take(__i4 as int)),
@@at bot_4
    proof { assert(__s4@.take(__i4 as int).drop_last() =~= __s4@.take(__i4 - 1)); }
@@at after_4
    proof { assert(__s4@.take(__i4 as int) =~= __s4@); }
@@fn planar Polygon as From<L>::from
@@extra
impl<L: Into<LineString>> FromSpecImpl<L> for Polygon {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(p: L) -> Polygon { arbitrary() }
}
@@spec
    ensures ret.interiors@.len() == 0, ret._envelope == ret.exterior.env(),
        <L as IntoSpec<LineString>>::obeys_into_spec() ==> ret.exterior == IntoSpec::<LineString>::into_spec(ext),
@@fn planar Polygon::new
    ensures ret.exterior == exterior, ret.interiors == interiors, ret._envelope == exterior.env(),
@@fn planar Polygon::point_on_surface
    ensures ret is None <==> self.exterior.positions@.len() == 0, ret is Some ==> on_exterior(*self, ret->Some_0),
@@at end
    proof { if __ret is Some { assert(self.exterior.positions@.contains(__ret->Some_0.0)) by { let i = if self.exterior.positions@[0] == __ret->Some_0.0 { 0 } else { self.exterior.positions@.len() - 1 }; assert(self.exterior.positions@[i] == __ret->Some_0.0); } } }
@@fn planar MultiPolygon::point_on_surface
@@out 1 &Polygon
@@spec
    ensures ret is None <==> all_pg_empty(self.polygons@), ret is Some ==> exists|i: int| 0 <= i < self.polygons@.len() && on_exterior(#[trigger] self.polygons@[i], ret->Some_0),
@@inv 1
    forall|k: int| 0 <= k < __out1@.len() ==> has_pg(self.polygons@, *(#[trigger] __out1@[k])) && __out1@[k].exterior.positions@.len() > 0,
    __out1@.len() == 0 ==> (forall|i: int| 0 <= i < __i1 ==> (#[trigger] self.polygons@[i]).exterior.positions@.len() == 0),
@@fn planar Polygon as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { self._envelope }
@@fn planar Polygon::dimension
    ensures ret == 2,
@@fn planar Polygon::geometry_type
    ensures ret@ == "Polygon"@,
@@fn planar Polygon::is_empty
    ensures ret == (self.exterior.positions@.len() == 0),
@@fn planar Polygon::boundary
@@at entry
    proof { ax_vec_small(self.interiors); }
@@spec
    ensures is_pg_boundary(ret, *self),
@@fn planar LineString::_validate_with_rtree
@@spec
    ensures
        exact_arith() ==> (ret is Ok <==> is_chain(self.positions@)),
        ret is Ok ==> fb_holds(ret->Ok_0, envs(ls_segs(self.positions@))),
@@at entry
    proof { ax_vec_small(self.positions); if self.positions@.len() == 0 { assert(envs(ls_segs(self.positions@)) =~= Seq::<Envelope>::empty()); } }
@@inv 1
    __s1@ == ls_segs(self.positions@),
    forall|i: int| 0 <= i < __i1 ==> pos_finite(#[trigger] self.positions@[i]),
    forall|i: int| 1 <= i <= __i1 ==> pos_finite(#[trigger] self.positions@[i]),
    steps_ok(self.positions@, __i1 as int),
@@at top_1
    proof {
        assert(seg == ls_segs(self.positions@)[__i1 - 1]);
        assert(seg.start == self.positions@[__i1 - 1] && seg.end == self.positions@[__i1 as int]);
    }
@@at after_1
    proof { assert(all_finite(self.positions@)); }
@@at let_num_segments_1
    proof { assert(is_exact_self(intersections@, envs(ls_segs(self.positions@)))); }
@@inv 2
    fb_holds(rtree, envs(ls_segs(self.positions@))),
    self.positions@.len() >= 2, num_segments == self.positions@.len() - 1, all_finite(self.positions@), steps_ok(self.positions@, self.positions@.len() - 1),
    is_exact_self(__s2@, envs(ls_segs(self.positions@))),
    exact_arith() ==> forall|k: int| 0 <= k < __i2 ==> pair_ok(self.positions@, (#[trigger] __s2@[k]).0 as int, __s2@[k].1 as int),
@@at top_2
    proof {
        lemma_cand(__s2@, num_segments as int, envs(ls_segs(self.positions@)), __i2 - 1);
        lemma_verdict(self.positions@, low_id as int, high_id as int);
    }
@@at after_2
    proof { if exact_arith() { lemma_all_pairs(self.positions@, __s2@); } }
@@fn planar LineString::validate
    ensures exact_arith() ==> (ret is Ok <==> is_chain(self.positions@)),
@@fn planar LineString::is_simple
    ensures exact_arith() ==> (ret <==> is_chain(self.positions@)),
@@fn planar LineString::is_ring
    ensures exact_arith() ==> (ret <==> ls_closed(self.positions@) && is_chain(self.positions@)),
@@fn planar MultiLineString::validate
@@spec
    ensures exact_arith() && all_boxed(self.line_strings@) ==> (ret is Ok <==> is_mls_valid(self.line_strings@)),
@@at entry
    let ghost __l = self.line_strings@;
    let ghost __ok = exact_arith() && all_boxed(self.line_strings@);
    proof { ax_vec_small(self.line_strings); }
@@inv 1
    __s1@.len() == __l.len(), forall|i: int| 0 <= i < __s1@.len() ==> *(#[trigger] __s1@[i]) == __l[i], __l == self.line_strings@,
    __ok ==> exact_arith() && all_boxed(__l),
    __ok ==> forall|i: int| 0 <= i < __i1 ==> is_chain((#[trigger] __l[i]).positions@),
@@at top_1
    proof { assert(*linestring == __l[__i1 - 1]); }
@@inv 2
    __l == self.line_strings@, __l.len() <= usize::MAX,
    __ok ==> exact_arith() && all_boxed(__l),
    __ok ==> forall|i: int| 0 <= i < __l.len() ==> is_chain((#[trigger] __l[i]).positions@),
    is_exact_self(__s2@, envs(__l)),
    __ok ==> forall|k: int| 0 <= k < __i2 ==> members_ok(__l[(#[trigger] __s2@[k]).0 as int].positions@, __l[__s2@[k].1 as int].positions@),
@@at top_2
    proof { lemma_cand(__s2@, __l.len() as int, envs(__l), __i2 - 1); }
    let ghost __p1 = __l[ls1_id as int].positions@;
    let ghost __p2 = __l[ls2_id as int].positions@;
    proof { ax_vec_small(__l[ls1_id as int].positions); ax_vec_small(__l[ls2_id as int].positions); }
@@at before_3
    proof { if __ok { assert(is_chain(__p1) && is_chain(__p2)); } assert(is_exact2(__s3@, envs(ls_segs(__p1)), envs(ls_segs(__p2)))); }
@@inv 3
    __l == self.line_strings@, ls1_id < ls2_id < __l.len(), *linestring1 == __l[ls1_id as int], *linestring2 == __l[ls2_id as int],
    __p1 == linestring1.positions@, __p2 == linestring2.positions@,
    __ok ==> exact_arith() && is_chain(__p1) && is_chain(__p2),
    is_exact2(__s3@, envs(ls_segs(__p1)), envs(ls_segs(__p2))),
    __ok ==> forall|k: int| 0 <= k < __i3 ==> touch_ok(__p1, __p2, (#[trigger] __s3@[k]).0 as int, __s3@[k].1 as int),
@@at top_3
    proof {
        lemma_cand2(__s3@, envs(ls_segs(__p1)), envs(ls_segs(__p2)), __i3 - 1);
        lemma_touch_verdict(__p1, __p2, seg1_id as int, seg2_id as int);
        if !touch_ok(__p1, __p2, seg1_id as int, seg2_id as int) { lemma_members_bad(__p1, __p2, seg1_id as int, seg2_id as int); }
        if __ok {
            assert forall|g: Geometry, p: Position| pos_finite(p) && #[trigger] is_ls_boundary(g, __p1) implies (#[trigger] is_tip(__p1, rx(p), ry(p)) <==> (g is MultiPoint && exists|i: int| 0 <= i < g->MultiPoint_0.points@.len() && pos_same((#[trigger] g->MultiPoint_0.points@[i]).0, p))) by { lemma_tips(__p1, g, p); }
            assert forall|g: Geometry, p: Position| pos_finite(p) && #[trigger] is_ls_boundary(g, __p2) implies (#[trigger] is_tip(__p2, rx(p), ry(p)) <==> (g is MultiPoint && exists|i: int| 0 <= i < g->MultiPoint_0.points@.len() && pos_same((#[trigger] g->MultiPoint_0.points@[i]).0, p))) by { lemma_tips(__p2, g, p); }
        }
    }
@@at after_3
    proof { if __ok { lemma_members_ok(__p1, __p2, __s3@); } }
@@at after_2
    proof { if __ok { lemma_all_members(__l, __s2@); } }
@@fn planar MultiLineString::is_simple
    ensures exact_arith() && all_boxed(self.line_strings@) ==> (ret <==> is_mls_valid(self.line_strings@)),
