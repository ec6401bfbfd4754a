@@fn planar Polygon::validate
@@spec
    requires exact_arith(), pg_fit(*self)
    ensures
        ret is Ok ==> is_pg_checked(*self),
        pg_ok1(*self) ==> (ret is Ok <==> is_pg_valid(*self)),
@@at entry
    let ghost __l = self.interiors@;
    let ghost __e = self.exterior;
    proof { ax_vec_small(self.interiors); }
@@inv 1
    __s1@.len() == __l.len(), forall|i: int| 0 <= i < __s1@.len() ==> *(#[trigger] __s1@[i]) == __l[i], __l == self.interiors@, __e == self.exterior,
    exact_arith(), pg_fit(*self), is_loop(__e), !pg_void(*self),
    forall|i: int| 0 <= i < __i1 ==> is_loop(#[trigger] __l[i]) && v_nest(__l[i], __e) && (ok1(__e, __l[i]) ==> inn(__l[i], __e)),
@@at top_1
    proof { assert(*interior == __l[__i1 - 1]); assert(ring_fit(__l[__i1 - 1])); }
@@inv 2
    __l == self.interiors@, __e == self.exterior, __l.len() <= usize::MAX,
    exact_arith(), pg_fit(*self), pg_loops(*self), !pg_void(*self),
    forall|i: int| 0 <= i < __l.len() ==> is_loop(#[trigger] __l[i]) && v_nest(__l[i], __e) && (ok1(__e, __l[i]) ==> inn(__l[i], __e)),
    is_exact_self(__s2@, envs(__l)),
    forall|k: int| 0 <= k < __i2 ==> hole_seen(__l, (#[trigger] __s2@[k]).0 as int, __s2@[k].1 as int),
@@at top_2
    proof {
        lemma_cand(__s2@, __l.len() as int, envs(__l), __i2 - 1);
        assert(ring_fit(__l[ls1_id as int]) && ring_fit(__l[ls2_id as int]) && is_loop(__l[ls1_id as int]) && is_loop(__l[ls2_id as int]));
    }
@@at after_2
    proof {
        assert forall|i: int| 0 <= i < __l.len() implies ls_boxed(#[trigger] __l[i]) && is_loop(__l[i]) by { assert(ring_fit(__l[i])); }
        lemma_holes(__l, __s2@);
    }
@@fn planar Polygon::is_simple
@@spec
    requires exact_arith(), pg_fit(*self)
    ensures
        ret ==> is_pg_checked(*self),
        pg_ok1(*self) ==> (ret <==> is_pg_valid(*self)),
@@fn planar MultiPolygon::validate
@@spec
    requires exact_arith(), mpg_fit(self.polygons@)
    ensures
        ret is Ok ==> is_mpg_checked(self.polygons@),
        mpg_ok1(self.polygons@) ==> (ret is Ok <==> is_mpg_valid(self.polygons@)),
@@at entry
    let ghost __l = self.polygons@;
    let ghost __g = mpg_ok1(__l);
    proof {
        ax_vec_small(self.polygons);
        if __g { reveal(mpg_ok1); assert(forall|i: int| 0 <= i < __l.len() ==> pg_ok1(#[trigger] __l[i])); }
    }
@@inv 1
    __s1@.len() == __l.len(), forall|i: int| 0 <= i < __s1@.len() ==> *(#[trigger] __s1@[i]) == __l[i], __l == self.polygons@, __g == mpg_ok1(__l),
    exact_arith(), mpg_fit(__l),
    __g ==> forall|i: int| 0 <= i < __l.len() ==> pg_ok1(#[trigger] __l[i]),
    forall|i: int| 0 <= i < __i1 ==> pg_shaped(#[trigger] __l[i]),
@@at top_1
    proof { assert(*polygon == __l[__i1 - 1]); assert(pp_fit(__l[__i1 - 1])); }
@@inv 2
    __l == self.polygons@, __l.len() <= usize::MAX, __g == mpg_ok1(__l),
    exact_arith(), mpg_fit(__l), all_shaped(__l),
    is_exact_self(__s2@, envs(__l)),
    forall|k: int| 0 <= k < __i2 ==> pair_seen(__l[(#[trigger] __s2@[k]).0 as int], __l[__s2@[k].1 as int]),
@@at top_2
    let ghost __a1 = poly1_id as int;
    let ghost __a2 = poly2_id as int;
    let ghost mut __u = 0int;
    let ghost mut __v = 0int;
    proof {
        lemma_cand(__s2@, __l.len() as int, envs(__l), __i2 - 1);
        lemma_cand_box(__s2@, envs(__l), __i2 - 1);
        assert(envs(__l)[__a1] == __l[__a1].env() && envs(__l)[__a2] == __l[__a2].env());
        lemma_pair_ready(__l, __a1, __a2);
        if nest_ok(__l[__a1], __l[__a2]) { lemma_in_or_out(__l[__a1].exterior, __l[__a2].exterior); lemma_in_or_out(__l[__a2].exterior, __l[__a1].exterior); }
        lemma_pp_sym(__l[__a1], __l[__a2]);
    }
@@at ret_2
    proof { assert(!__g); }
@@at b_7
    proof { __u = __a2; __v = __a1; }
@@at b_8
    proof { __u = __a1; __v = __a2; }
@@at before_3
    let ghost __p = __l[__u];
    let ghost __q = __l[__v];
    let ghost __k = nest_ok(__p, __q);
    proof {
        assert(*inner_poly == __p && *outer_poly == __q);
        lemma_bad_sym(__p.exterior, __q.exterior);
        if __k { lemma_nested(__p, __q); }
    }
@@inv 3
    __l == self.polygons@, __g == mpg_ok1(__l), __g ==> __k, exact_arith(),
    0 <= __u < __l.len(), 0 <= __v < __l.len(), __u != __v, __p == __l[__u], __q == __l[__v], *inner_poly == __p, *outer_poly == __q, __k == nest_ok(__p, __q), pair_ready(__l, __u, __v),
    __k ==> (pp_apart(__p, __q) <==> in_hole(__p, __q)),
    __s3@.len() == __q.interiors@.len(), forall|i: int| 0 <= i < __s3@.len() ==> *(#[trigger] __s3@[i]) == __q.interiors@[i],
    __k && inside_interior ==> in_hole(__p, __q), inside_interior ==> v_in_hole(__p, __q), v_nest(__p.exterior, __q.exterior),
    __k && !inside_interior ==> forall|i: int| 0 <= i < __i3 ==> !inn(__p.exterior, #[trigger] __q.interiors@[i]),
@@at top_3
    proof {
        let h = __q.interiors@[__i3 - 1];
        assert(*int_loop == h && ring_fit(h) && is_loop(h));
        if __k {
            assert(ok1(__p.exterior, h));
            lemma_in_or_out(__p.exterior, h);
            if in_hole(__p, __q) { lemma_no_inner_hole(__p, __q, __i3 - 1); }
        }
    }
@@at ret_3
    proof { if __g { lemma_pair_bad(__l, __u, __v); } }
@@at ret_4
    proof { if __g { lemma_pair_bad(__l, __u, __v); } }
@@at after_2
    proof { lemma_members_apart(__l, __s2@); }
@@fn planar MultiPolygon::is_simple
@@spec
    requires exact_arith(), mpg_fit(self.polygons@)
    ensures
        ret ==> is_mpg_checked(self.polygons@),
        mpg_ok1(self.polygons@) ==> (ret <==> is_mpg_valid(self.polygons@)),
