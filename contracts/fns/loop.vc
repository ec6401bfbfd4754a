@@fn planar Segment::find_winding_number
@@spec
    ensures exact_arith() && seg_finite(seg) && pos_finite(position) ==> -1 <= ret <= 1 && (ret != 0 <==> cr(pt(position), pt(seg.start), pt(seg.end))),
@@fn planar fn _maybe_push_other_isxn
    ensures y_push((node1, node2), old(stack)@, final(stack)@),
@@fn planar fn _get_loop_relation
    ensures
        ret is Crosses <==> has_par(winding_numbers@, boundary_positions@, true) && has_par(winding_numbers@, boundary_positions@, false),
        ret is Outside <==> has_par(winding_numbers@, boundary_positions@, true) && !has_par(winding_numbers@, boundary_positions@, false),
        ret is Inside <==> !has_par(winding_numbers@, boundary_positions@, true),
@@at entry
    let ghost __m = winding_numbers@;
    let ghost __b = boundary_positions@;
    proof { reveal(has_par); }
@@inv 1
    __m == winding_numbers@, __b == boundary_positions@, !(outside && inside),
    forall|i: int| 0 <= i < __s1@.len() ==> __m.dom().contains(*(#[trigger] __s1@[i])),
    forall|h: Key| #[trigger] __m.dom().contains(h) ==> exists|i: int| 0 <= i < __s1@.len() && *(#[trigger] __s1@[i]) == h,
    outside ==> has_par(__m, __b, true), inside ==> has_par(__m, __b, false),
    forall|i: int| 0 <= i < __i1 ==> (par_key(__m, __b, *(#[trigger] __s1@[i]), true) ==> outside) && (par_key(__m, __b, *__s1@[i], false) ==> inside),
@@at top_1
    let ghost __o = outside;
    let ghost __n = inside;
    proof { reveal(has_par); assert(*pos == *__s1@[__i1 - 1]); assert(__m.dom().contains(*__s1@[__i1 - 1])); }
@@at let_is_even_1
    proof {
        assert(wn == __m[*pos]);
        assert(is_even == (wn as int % 2 == 0));
        assert(par_key(__m, __b, *pos, is_even));
        assert(has_par(__m, __b, is_even));
    }
@@at end
    proof {
        assert forall|h: Key, e: bool| #[trigger] par_key(__m, __b, h, e) implies (if e { outside } else { inside }) by {
            assert(__m.dom().contains(h));
        }
        reveal(has_par);
    }
@@fn planar fn find_loop_loop_relation
    requires exact_arith(), ring_ok(*loop_1), ring_ok(*loop_2)
    ensures
        share1(rp(loop_1.positions@), rp(loop_2.positions@)) ==> {
            &&& !(ret is Crosses)
            &&& ret is Separate <==> lies_out(rp(loop_1.positions@), rp(loop_2.positions@)) && lies_out(rp(loop_2.positions@), rp(loop_1.positions@))
            &&& ret is Contains <==> lies_in(rp(loop_2.positions@), rp(loop_1.positions@))
            &&& ret is Within <==> lies_in(rp(loop_1.positions@), rp(loop_2.positions@))
        },
        ret is Crosses <==> rings_bad(rp(loop_1.positions@), rp(loop_2.positions@)) || crosses_v(rp(loop_1.positions@), rp(loop_2.positions@)) || crosses_v(rp(loop_2.positions@), rp(loop_1.positions@)),
        ret is Separate ==> only_out(rp(loop_1.positions@), rp(loop_2.positions@)) && only_out(rp(loop_2.positions@), rp(loop_1.positions@)),
        ret is Contains ==> only_out(rp(loop_1.positions@), rp(loop_2.positions@)) && none_out(rp(loop_2.positions@), rp(loop_1.positions@)),
        ret is Within ==> none_out(rp(loop_1.positions@), rp(loop_2.positions@)) && only_out(rp(loop_2.positions@), rp(loop_1.positions@)),
@@refuse 1 none_out(rp(loop_1.positions@), rp(loop_2.positions@)) && none_out(rp(loop_2.positions@), rp(loop_1.positions@)) && !share1(rp(loop_1.positions@), rp(loop_2.positions@))
@@at entry
    let ghost mut __ps = Seq::<(int, int)>::empty();
    let ghost mut __res = Seq::<(usize, usize)>::empty();
    let ghost __s = loop_1.positions@;
    let ghost __t = loop_2.positions@;
    let ghost __a = rp(__s);
    let ghost __c = rp(__t);
    let ghost __es = envs(ls_segs(__s));
    let ghost __et = envs(ls_segs(__t));
    proof {
        lemma_ring(__s); lemma_ring(__t); lemma_share1_sym(__a, __c);
        if share1(__a, __c) { lemma_not_in_and_out(__a, __c); lemma_not_in_and_out(__c, __a); lemma_not_both(__a, __c); lemma_sides(__a, __c); lemma_sides(__c, __a); }
    }
@@at ret_1
    proof { lemma_boxes_out(__s, __t); lemma_boxes_out(__t, __s); lemma_boxes_verts(__s, __t); lemma_boxes_verts(__t, __s); }
@@at let_stack_1
    let ghost __d = imax(rtree_1.degree as int, rtree_2.degree as int);
@@at call_push_1
    proof {
        assert(stack@ =~= Seq::<NPair>::empty().push(stack@[0]));
        assert(__es.len() == __s.len() - 1 && __et.len() == __t.len() - 1);
        assert(pos_finite(__s[0]) && pos_finite(__s[1]) && pos_finite(__t[0]) && pos_finite(__t[1]));
        assert(__es[0] == env_new(__s[0], __s[1]) && __et[0] == env_new(__t[0], __t[1]));
        lemma_y_start(rtree_1, rtree_2, __d, stack@[0], __es, __et);
    }
@@at let_boundary_positions_1
    proof {
        lemma_wn_start(winding_numbers_1@, __a, __c); lemma_wn_start(winding_numbers_2@, __c, __a);
        lemma_bd_start(boundary_positions@, __a, __c);
        reveal(no_bad);
        assert(swap(__res) =~= Seq::<(usize, usize)>::empty());
    }
@@inv 1
    __d == imax(rtree_1.degree as int, rtree_2.degree as int), fb_wf(rtree_1), fb_wf(rtree_2),
    y_res(rtree_1, rtree_2, __res, __ps), y_todo(rtree_1, rtree_2, stack@), y_acc(rtree_1, rtree_2, __ps, stack@, x_none()),
    wn_ok(winding_numbers_1@, __a, __c, __res), wn_ok(winding_numbers_2@, __c, __a, swap(__res)), bd_ok(boundary_positions@, __a, __c, __res), no_bad(__a, __c, __res),
@@dec 1
    work2(__d, stack@)
@@at pre_1
    let ghost __t1 = stack@;
    let ghost __r0 = __res;
    let ghost __m1 = winding_numbers_1@;
    let ghost __m2 = winding_numbers_2@;
    let ghost __b0 = boundary_positions@;
    let ghost mut __leaf = false;
    let ghost mut __u1 = false;
    let ghost mut __u2 = false;
    proof { lemma_y_state(rtree_1, rtree_2, __res, __ps, stack@, __es, __et); }
@@at top_1
    let ghost __n = (node1, node2);
    let ghost __w = work2(__d, stack@);
    let ghost __l = node1.level + node2.level - 1;
    let ghost __x = (node1.sibling_index, node2.sibling_index);
    proof { assert(__t1 =~= stack@.push(__n)); lemma_y_pop(rtree_1, rtree_2, __d, __ps, stack@, __n); lemma_wt(__d, __l); }
@@at b_4
    proof {
        lemma_y_leaf(rtree_1, rtree_2, __ps, stack@, __n, __res);
        __ps = __ps.push((node1.tree_index as int, node2.tree_index as int));
        __res = __r0.push(__x);
        __leaf = true;
        lemma_y_state(rtree_1, rtree_2, __res, __ps, stack@, __es, __et);
        assert(__res[__res.len() - 1] == __x);
        reveal(y_in);
        assert(__x.0 < __s.len() - 1 && __x.1 < __t.len() - 1);
        assert(pos_finite(__s[__x.0 as int]) && pos_finite(__s[__x.0 + 1]) && pos_finite(__t[__x.1 as int]) && pos_finite(__t[__x.1 + 1]));
    }
@@at let_intersecting_position_1
    proof { assert(seg1.start == __s[__x.0 as int] && seg1.end == __s[__x.0 + 1] && seg2.start == __t[__x.1 as int] && seg2.end == __t[__x.1 + 1]); }
@@at ret_2
    proof { lemma_isxn2(seg1, seg2, SegmentIntersection::Segment(_s)); lemma_bad_not1(__a, __c, __x.0 as int, __x.1 as int); }
@@at b_6
    proof { lemma_isxn2(seg1, seg2, SegmentIntersection::Position(p)); }
@@at ret_3
    proof { lemma_bad_not1(__a, __c, __x.0 as int, __x.1 as int); }
@@at call_insert_1
    proof {
        lemma_hkey(p);
        lemma_bd_one(__b0, boundary_positions@, __a, __c, __r0, __x, pt(p));
        lemma_no_bad_push(__a, __c, __r0, __x);
    }
@@at b_9
    proof {
        lemma_isxn2(seg1, seg2, SegmentIntersection::None);
        lemma_bd_none(__b0, __a, __c, __r0, __x);
        lemma_no_bad_push(__a, __c, __r0, __x);
    }
@@at b_10
    proof { __u1 = true; lemma_hkey(seg1.start); lemma_wn_bound(__m1, __s, __t, __r0, __x.0 as int); }
@@at b_11
    proof { __u2 = true; lemma_hkey(seg2.start); lemma_swap(__r0, __es, __et); lemma_wn_bound(__m2, __t, __s, swap(__r0), __x.1 as int); }
@@at bot_1
    proof {
        if __leaf {
            lemma_swap_push(__r0, __x);
            let h1 = key_of(__a[__x.0 as int]);
            let h2 = key_of(__c[__x.1 as int]);
            if __u1 { lemma_wn_step(__m1, winding_numbers_1@, __a, __c, __r0, __x, winding_numbers_1@[h1] - wval(__m1, h1), winding_numbers_1@[h1]); }
            else { lemma_wn_skip(__m1, __a, __c, __r0, __x); }
            if __u2 { lemma_wn_step(__m2, winding_numbers_2@, __c, __a, swap(__r0), (__x.1, __x.0), winding_numbers_2@[h2] - wval(__m2, h2), winding_numbers_2@[h2]); }
            else { lemma_wn_skip(__m2, __c, __a, swap(__r0), (__x.1, __x.0)); }
        }
    }
@@inv 2
    fb_wf(rtree_1), fb_wf(rtree_2), fb_inner(rtree_1, node1), fb_node(rtree_2, node2), __n == (node1, node2), __s2@.len() == rtree_1.degree, __d >= 0, __l == node1.level + node2.level - 1,
    forall|i: int| 0 <= i < __s2@.len() ==> fb_child(rtree_1, node1, i, #[trigger] __s2@[i]),
    y_todo(rtree_1, rtree_2, stack@), y_acc(rtree_1, rtree_2, __ps, stack@, x_left1(rtree_1, rtree_2, __n, __i2 as int)),
    work2(__d, stack@) <= __w + __i2 * wt(__d, __l),
@@at top_2
    let ghost __t0 = stack@;
@@at bot_2
    proof {
        let i = __i2 - 1;
        let c = __s2@[i];
        assert(fb_child(rtree_1, node1, i, c));
        lemma_y_child1(rtree_1, rtree_2, __n, i, c);
        lemma_y_push(rtree_1, rtree_2, (c, node2), __d, __t0, stack@, __ps, x_left1(rtree_1, rtree_2, __n, i), x_left1(rtree_1, rtree_2, __n, i + 1));
        let w = wt(__d, __l);
        lemma_next(i, w);
    }
@@at after_2
    proof {
        lemma_y_done1(rtree_1, rtree_2, __ps, stack@, __n);
        let w = wt(__d, __l);
        lemma_le(__i2 as int, __d as int, w as int);
        lemma_work2(__d, stack@);
    }
@@inv 3
    fb_wf(rtree_1), fb_wf(rtree_2), fb_node(rtree_1, node1), fb_inner(rtree_2, node2), __n == (node1, node2), __s3@.len() == rtree_2.degree, __d >= 0, __l == node1.level + node2.level - 1,
    forall|i: int| 0 <= i < __s3@.len() ==> fb_child(rtree_2, node2, i, #[trigger] __s3@[i]),
    y_todo(rtree_1, rtree_2, stack@), y_acc(rtree_1, rtree_2, __ps, stack@, x_left2(rtree_1, rtree_2, __n, __i3 as int)),
    work2(__d, stack@) <= __w + __i3 * wt(__d, __l),
@@at top_3
    let ghost __t0 = stack@;
@@at bot_3
    proof {
        let i = __i3 - 1;
        let c = __s3@[i];
        assert(fb_child(rtree_2, node2, i, c));
        lemma_y_child2(rtree_1, rtree_2, __n, i, c);
        lemma_y_push(rtree_1, rtree_2, (node1, c), __d, __t0, stack@, __ps, x_left2(rtree_1, rtree_2, __n, i), x_left2(rtree_1, rtree_2, __n, i + 1));
        let w = wt(__d, __l);
        lemma_next(i, w);
    }
@@at after_3
    proof {
        lemma_y_done2(rtree_1, rtree_2, __ps, stack@, __n);
        let w = wt(__d, __l);
        lemma_le(__i3 as int, __d as int, w as int);
        lemma_work2(__d, stack@);
    }
@@at after_1
    proof {
        assert(stack@ =~= Seq::<NPair>::empty());
        lemma_y_state(rtree_1, rtree_2, __res, __ps, stack@, __es, __et);
        lemma_none_bad(__s, __t, __res);
        lemma_swap(__res, __es, __et);
        lemma_bd_swap(boundary_positions@, __a, __c, __res);
        let (i0, j0) = lemma_some_hit(__s, __t);
        lemma_verts(__s, __t, __res, winding_numbers_1@, boundary_positions@, i0, j0);
        lemma_verts(__t, __s, swap(__res), winding_numbers_2@, boundary_positions@, j0, i0);
        if share1(__a, __c) {
            lemma_side(__s, __t, __res, winding_numbers_1@, boundary_positions@, i0, j0);
            lemma_side(__t, __s, swap(__res), winding_numbers_2@, boundary_positions@, j0, i0);
        }
    }
