@@fn planar Point as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { env_pos(self.0) }
@@fn planar Point as From<P>::from
@@extra
impl<P: Into<Position>> FromSpecImpl<P> for Point {
    open spec fn obeys_from_spec() -> bool { <P as IntoSpec<Position>>::obeys_into_spec() }
    open spec fn from_spec(p: P) -> Point { Point(IntoSpec::<Position>::into_spec(p)) }
}
@@fn planar Point::new
    ensures ret == Point(position),
@@fn planar Point::x
    ensures ret == self.0.x,
@@fn planar Point::y
    ensures ret == self.0.y,
@@fn planar Point::dimension
    ensures ret == 0,
@@fn planar Point::geometry_type
    ensures ret@ == "Point"@,
@@fn planar Point::is_empty
    ensures ret == false,
@@fn planar Point::is_simple
    ensures ret == pos_finite(self.0),
@@fn planar Point::validate
    ensures ret is Ok <==> pos_finite(self.0),
@@fn planar Point::boundary
    ensures ret == geom_empty(),
@@fn planar MultiPoint as HasEnvelope::envelope
@@impl
    open spec fn env(&self) -> Envelope { self._envelope }
@@fn planar MultiPoint::new
@@use lemma_envs_ref
@@spec
    ensures ret.points@ == points@, ret._envelope == seq_env(points@),
@@fn planar MultiPoint as From<Vec<P>>::from
@@extra
impl<P: Into<Position>> FromSpecImpl<Vec<P>> for MultiPoint {
    open spec fn obeys_from_spec() -> bool { false }
    open spec fn from_spec(p: Vec<P>) -> MultiPoint { arbitrary() }
}
@@out 1 Point
@@spec
    ensures <P as IntoSpec<Position>>::obeys_into_spec() ==> ret.points@ =~= points_into(v@) && ret._envelope == seq_env(ret.points@),
@@inv 1
    <P as IntoSpec<Position>>::obeys_into_spec() ==> forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == Point(into_pos(v@[i])),
@@fn planar MultiPoint::num_points
    ensures ret == self.points@.len(),
@@fn planar MultiPoint::dimension
    ensures ret == 0,
@@fn planar MultiPoint::geometry_type
    ensures ret@ == "MultiPoint"@,
@@fn planar MultiPoint::is_empty
    ensures ret == (self.points@.len() == 0),
@@fn planar MultiPoint::validate
    ensures ret is Ok <==> mp_valid(self.points@),
@@inv 1
    forall|j: int| 0 <= j < __i1 ==> pos_finite((#[trigger] self.points@[j]).0),
    forall|j: int| 0 <= j < __i1 ==> position_set@.contains(hkey((#[trigger] self.points@[j]).0)),
    forall|h: (NotNan, NotNan)| #[trigger] position_set@.contains(h) ==> exists|j: int| 0 <= j < __i1 && hkey((#[trigger] self.points@[j]).0) == h,
    forall|j: int, k: int| 0 <= j < k < __i1 ==> !pos_same((#[trigger] self.points@[j]).0, (#[trigger] self.points@[k]).0),
@@fn planar MultiPoint::is_simple
    ensures ret == mp_valid(self.points@),
@@fn planar MultiPoint::contains_point
    ensures ret == exists|i: int| 0 <= i < self.points@.len() && pos_same((#[trigger] self.points@[i]).0, point.0),
@@inv 1
    __r1 == exists|i: int| 0 <= i < __i1 && pos_same((#[trigger] self.points@[i]).0, point.0),
@@fn planar MultiPoint::boundary
    ensures ret == geom_empty(),
@@fn planar MultiPoint::make_simple
@@out 2 Point
@@spec
    ensures match ret {
        Geometry::Empty(_) => forall|i: int| 0 <= i < self.points@.len() ==> !pos_finite((#[trigger] self.points@[i]).0),
        Geometry::MultiPoint(m) => is_simplified(m, self.points@),
        _ => false,
    },
@@inv 1
    forall|j: int| 0 <= j < __i1 && pos_finite((#[trigger] self.points@[j]).0) ==> position_set@.contains(hkey(self.points@[j].0)),
    forall|h: (NotNan, NotNan)| #[trigger] position_set@.contains(h) ==> hpos_fin(h) && has_pos(self.points@, hpos(h)),
@@at call_insert_1
    proof { reveal(has_pos); }
@@inv 2
    forall|j: int| 0 <= j < __i2 ==> (#[trigger] __out2@[j]).0 == hpos(*__s2@[j]),
@@at b_6
    proof { assert forall|i: int| 0 <= i < self.points@.len() implies !pos_finite((#[trigger] self.points@[i]).0) by {
        if pos_finite(self.points@[i].0) { assert(position_set@.contains(hkey(self.points@[i].0))); assert(Set::<(NotNan, NotNan)>::empty().contains(hkey(self.points@[i].0))); } } }
@@at after_2
    proof {
        assert forall|i: int| 0 <= i < __out2@.len() implies pos_finite((#[trigger] __out2@[i]).0) && has_pos(self.points@, __out2@[i].0) by {
            assert(position_set@.contains(*__s2@[i]));
        }
        assert forall|j: int| 0 <= j < self.points@.len() && pos_finite((#[trigger] self.points@[j]).0) implies has_pos(__out2@, self.points@[j].0) by {
            reveal(has_pos);
            let h = hkey(self.points@[j].0);
            assert(position_set@.contains(h));
            let i = choose|i: int| 0 <= i < __s2@.len() && *(#[trigger] __s2@[i]) == h;
            assert(__out2@[i].0 == self.points@[j].0);
        }
        assert forall|i: int, j: int| 0 <= i < j < __out2@.len() implies pos_lt((#[trigger] __out2@[i]).0, (#[trigger] __out2@[j]).0) by { assert((*__s2@[i]).vlt(*__s2@[j])); }
        assert(__out2@.len() > 0) by {
            let h = choose|h: (NotNan, NotNan)| #[trigger] position_set@.contains(h);
            assert(!(position_set@ =~= Set::<(NotNan, NotNan)>::empty()));
            assert(exists|h: (NotNan, NotNan)| #[trigger] position_set@.contains(h));
            let i = choose|i: int| 0 <= i < __s2@.len() && *(#[trigger] __s2@[i]) == h;
        }
    }
