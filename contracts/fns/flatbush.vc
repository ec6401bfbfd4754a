@@fn planar Flatbush::root_node
    requires fb_wf(*self)
    ensures ret == fb_root(*self), fb_node(*self, ret), ret.level == fb_h(*self), ret.level >= 1 ==> fb_inner(*self, ret), fb_pos(*self, ret) == 0,
@@at end
    proof { lemma_lo_grows(*self, fb_h(*self)); lemma_root(*self, __ret); }
@@fn planar Flatbush::get_children
    requires fb_wf(*self), fb_inner(*self, node)
    ensures ret@.len() == self.degree, forall|i: int| 0 <= i < ret@.len() ==> fb_child(*self, node, i, #[trigger] ret@[i]),
        forall|q: Envelope| #[trigger] kids_ok(*self, node, q, ret@, self.degree as int),
@@at entry
    proof {
        lemma_inner(*self, node); lemma_level(*self, node.level as int); lemma_lo_grows(*self, node.level as int); lemma_lo_grows(*self, node.level - 1);
        let k = fb_pos(*self, node);
        let d = self.degree as int;
        let r = fb_rn(*self, node.level as int);
        lemma_slot(k, d, r);
    }
@@inv 1
    fb_wf(*self), fb_inner(*self, node), child_level == node.level - 1,
    start_index == fb_lo(*self, child_level as int) + fb_pos(*self, node) * self.degree,
    start_index + self.degree <= fb_lo(*self, node.level as int), fb_lo(*self, node.level as int) <= self.tree@.len(),
    fb_lo(*self, child_level as int) + fb_cap(*self, child_level as int) == fb_lo(*self, node.level as int),
    fb_pos(*self, node) * self.degree >= 0,
    __s1@.len() == self.degree, forall|i: int| 0 <= i < __s1@.len() ==> #[trigger] __s1@[i] == start_index + i,
    forall|i: int| 0 <= i < __i1 ==> fb_child(*self, node, i, #[trigger] __out1@[i]),
@@at end
    proof {
        assert forall|q: Envelope| #[trigger] kids_ok(*self, node, q, __ret@, self.degree as int) by {
            lemma_kids_all(*self, node, q, __ret@, self.degree as int);
            assert(__ret@.take(self.degree as int) =~= __ret@);
        }
    }
@@fn planar Flatbush::_maybe_push_isxn
    ensures q_push(node, query_env, old(results)@, old(todo_list)@, final(results)@, final(todo_list)@),
@@fn planar Flatbush::find_intersection_candidates
    requires fb_wf(*self)
    ensures
        <E as IntoSpec<Envelope>>::obeys_into_spec() ==> q_exact(*self, IntoSpec::<Envelope>::into_spec(query), ret@),
        <E as IntoSpec<Envelope>>::obeys_into_spec() ==> forall|items: Seq<Envelope>| #[trigger] fb_holds(*self, items) ==> is_exact(ret@, items, IntoSpec::<Envelope>::into_spec(query)),
@@at entry
    let ghost mut __ps = Seq::<int>::empty();
    proof {
        lemma_lo_grows(*self, fb_h(*self));
        let d = self.degree as int;
        let h = fb_h(*self);
        lemma_next(h, d);
        ax_vec_small(self.tree);
    }
@@at call__maybe_push_isxn_1
    proof {
        let n = fb_root(*self);
        reveal(q_res); reveal(q_todo); reveal(q_acc);
        assert forall|p: int| fb_hit(*self, query_env, p) implies #[trigger] q_one(*self, n)(p) == q_none()(p) + b2n(covers(*self, n, p)) by { }
        assert(q_acc(*self, query_env, __ps, Seq::<FlatbushNode>::empty(), q_one(*self, n))) by {
            assert forall|p: int| fb_hit(*self, query_env, p) implies #[trigger] count_in(__ps, p) + cnt(*self, Seq::<FlatbushNode>::empty(), p) + q_one(*self, n)(p) == 1 by { lemma_root_covers(*self, n, p); }
        }
        lemma_q_push(*self, query_env, n, Seq::empty(), Seq::empty(), results@, todo_list@, __ps, q_one(*self, n), q_none());
        __ps = q_ps(n, query_env, __ps);
    }
@@inv 1
    fb_wf(*self), q_res(*self, query_env, results@, __ps), q_todo(*self, query_env, todo_list@), q_acc(*self, query_env, __ps, todo_list@, q_none()),
    <E as IntoSpec<Envelope>>::obeys_into_spec() ==> query_env == IntoSpec::<Envelope>::into_spec(query),
@@dec 1
    work(self.degree as int, todo_list@)
@@at pre_1
    let ghost __t1 = todo_list@;
@@at top_1
    let ghost __w = work(self.degree as int, todo_list@);
    proof { assert(__t1 =~= todo_list@.push(node)); lemma_q_pop(*self, query_env, __ps, todo_list@, node); }
@@inv 2
    fb_wf(*self), fb_inner(*self, node), __s2@.len() == self.degree,
    forall|i: int| 0 <= i < __s2@.len() ==> fb_child(*self, node, i, *(#[trigger] __s2@[i])),
    q_res(*self, query_env, results@, __ps), q_todo(*self, query_env, todo_list@), q_acc(*self, query_env, __ps, todo_list@, q_left(*self, node, __i2 as int)),
    work(self.degree as int, todo_list@) <= __w + __i2 * wt(self.degree as int, node.level - 1),
@@at top_2
    let ghost __t0 = todo_list@;
    let ghost __r0 = results@;
@@at bot_2
    proof {
        let i = __i2 - 1;
        let n = *__s2@[i];
        assert(fb_child(*self, node, i, n));
        assert forall|p: int| fb_hit(*self, query_env, p) implies #[trigger] q_left(*self, node, i)(p) == q_left(*self, node, i + 1)(p) + b2n(covers(*self, n, p)) by { lemma_child_covers(*self, node, i, n, p); }
        lemma_q_push(*self, query_env, n, __r0, __t0, results@, todo_list@, __ps, q_left(*self, node, i), q_left(*self, node, i + 1));
        __ps = q_ps(n, query_env, __ps);
        let w = wt(self.degree as int, node.level - 1);
        lemma_next(i, w);
    }
@@at after_2
    proof {
        lemma_q_done(*self, query_env, __ps, todo_list@, node);
        let w = wt(self.degree as int, node.level - 1);
        assert(__i2 * w == self.degree * w);
        assert(work(self.degree as int, todo_list@) < work(self.degree as int, __t1));
        lemma_work(self.degree as int, todo_list@);
    }
@@at end
    proof {
        assert(todo_list@ =~= Seq::<FlatbushNode>::empty());
        reveal(q_exact);
        assert(q_exact(*self, query_env, __ret@));
        assert forall|items: Seq<Envelope>| #[trigger] fb_holds(*self, items) implies is_exact(__ret@, items, query_env) by { lemma_exact(*self, query_env, __ret@, items); }
    }
@@fn planar fn div_ceil
@@mono I=usize, I=u32
@@spec
    requires k > 0,
    ensures k * ret >= n, k * ret < n + k, ret <= n, ret == div_up(n as int, k as int),
@@at let_b_1
    proof {
        let a = n as int;
        let d = k as int;
        lemma_dm(a, d);
        let q = a / d;
        lemma_next(q, d);
        lemma_ge(q, d);
    }
@@fn planar fn next_multiple
@@mono I=usize
@@spec
    requires k > 0, n + k <= usize::MAX,
    ensures n <= ret < n + k, ret == k * (ret as int / k as int), ret as int % k as int == 0,
@@at end
    proof {
        let x = div_up(n as int, k as int);
        lemma_mul_div(k as int, x);
    }
@@fn planar fn quick_log_ceil
    requires n <= 0x8000_0000_0000_0000,
    ensures ret <= 64, e > 0,
@@refuse 1 e == 0
@@rename div_ceil => div_ceil_u32
@@fn planar Flatbush::new_empty
    ensures fb_wf(ret), fb_leaves(ret, Seq::empty()), fb_holds(ret, Seq::empty()), ret.degree <= 0x1_0000,
@@at end
    proof {
        reveal(fb_leaves); reveal(fb_holds);
        assert forall|p: int| 0 <= p < fb_cap(__ret, 0) implies (#[trigger] __ret.tree@[p]).1 is Empty by {}
    }
@@fn planar Flatbush::_new_unsorted
    requires degree <= 0x1000_0000_0000_0000 || !is_pow2(degree as int),
    ensures is_pow2(degree as int), fb_wf(ret), fb_leaves(ret, entries@), ret.degree == degree || ret.degree <= 0x1_0000,
@@refuse 1 !is_pow2(degree as int)
@@at entry
    proof {
        ax_vec_entries(entries);
        assert forall|r: int| is_pow2(r) && r >= degree && (degree <= 1 ==> r == 1) && (degree > 1 ==> r < 2 * degree) implies (degree == r <==> is_pow2(degree as int)) by { lemma_np2(degree as int, r); }
        lemma_big_pow2(degree as int);
    }
@@at let_degree_exp_1
    proof { lemma_tz(degree as int); }
@@at ret_1
    proof { assert(entries@ =~= Seq::<(usize, Envelope)>::empty()); }
@@at call_extend_1
    proof { assert(tree@ =~= entries@); }
@@at let_level_1
    let ghost mut __f9 = fbx(degree, level_indices, tree);
@@at before_1
    proof {
        lemma_pow2_ge2(degree as int);
        assert(fb_part(fbx(degree, level_indices, tree), level_size as int));
        assert(fb_leaves(fbx(degree, level_indices, tree), entries@)) by { reveal(fb_leaves); }
    }
@@inv 1
    0 < entries@.len() < 0x0800_0000_0000_0000, 2 <= degree <= 0x1000_0000_0000_0000, degree == 2 || degree >= 4,
    level_indices@.len() == level + 1, level_size >= 1,
    fb_part(fbx(degree, level_indices, tree), level_size as int),
    fb_leaves(fbx(degree, level_indices, tree), entries@),
    level_indices@[level as int] + 4 * level_size + (if level_size > 1 { degree as int } else { 0 }) <= 4 * entries@.len() + degree,
@@dec 1
    level_size
@@at top_1
    let ghost __f = fbx(degree, level_indices, tree);
    let ghost __lo = level_indices@[level as int] as int;
    let ghost __s0 = level_size as int;
    proof { lemma_lo_part(__f, level_size as int, level as int); lemma_lo_part(__f, level_size as int, 0); }
@@at call_push_2
    proof {
        let d = degree as int;
        let c = level_capacity as int;
        lemma_pot(d, level_size as int, c, c / d);
        ax_vec_small(level_indices);
    }
@@inv 2
    level < 0x4000_0000_0000_0000, level_indices@.len() == level + 2, level_indices@[level + 1] == __lo + level_capacity, __f.tree@.len() <= tree@.len() <= __lo + level_capacity,
    dummy_index == tree@.len() - __lo, __lo + level_capacity <= 0x4000_0000_0000_0000,
    forall|i: int| 0 <= i < __f.tree@.len() ==> #[trigger] tree@[i] == __f.tree@[i],
    forall|i: int| __f.tree@.len() <= i < tree@.len() ==> #[trigger] tree@[i] == ((i - __lo) as usize, Envelope::Empty),
@@dec 2
    __lo + level_capacity - tree@.len()
@@at let_level_items_1
    let ghost __t = tree@;
@@at before_3
    proof {
        let d = degree as int;
        let c = level_capacity as int;
        let n = c / d;
        assert(__s3@.len() == n);
        assert forall|i: int| 0 <= i < n implies #[trigger] __s3@[i]@ =~= __t.subrange(__lo + i * degree, __lo + i * degree + degree) by {
            lemma_slot(i, d, n); lemma_le(i + 1, n, d);
        }
    }
@@inv 3
    degree >= 2, level_capacity == degree * __s3@.len(), __lo >= 0, __t.len() == __lo + level_capacity,
    forall|i: int| 0 <= i < __s3@.len() ==> (#[trigger] __s3@[i])@ =~= __t.subrange(__lo + i * degree, __lo + i * degree + degree),
    forall|i: int| 0 <= i < __i3 ==> #[trigger] __out3@[i] == env_fold(chunk_envs(__t, __lo + i * degree, degree as int)),
@@at top_3
    proof {
        let i = __i3 as int;
        let d = degree as int;
        let n = __s3@.len() as int;
        lemma_slot(i, d, n);
    }
@@out 4 &Envelope
@@inv 4
    __s4@.len() == degree, forall|j: int| 0 <= j < __s4@.len() ==> *(#[trigger] __s4@[j]) == __t[__lo + __i3 * degree + j],
    forall|j: int| 0 <= j < __i4 ==> *(#[trigger] __out4@[j]) == __t[__lo + __i3 * degree + j].1,
@@at after_4
    proof { assert(envs_ref(__out4@) =~= chunk_envs(__t, __lo + __i3 * degree, degree as int)); }
@@at bot_1
    proof {
        let g = fbx(degree, level_indices, tree);
        let s2 = level_size as int;
        lemma_step_code(__f, g, __s0, level_capacity as int, s2, __t, next_items@);
    }
@@at call_extend_2
    proof { assert(tree@.len() == __t.len() + next_items@.len()); }
@@at after_1
    proof { __f9 = fbx(degree, level_indices, tree); }
@@at end
    proof { lemma_fb_same(__f9, __ret, entries@); }
@@fn planar Flatbush::new_unsorted
    requires degree <= 0x1000_0000_0000_0000 || !is_pow2(degree as int),
    ensures is_pow2(degree as int), fb_wf(ret), fb_holds(ret, envs(items@)), ret.degree == degree || ret.degree <= 0x1_0000,
@@inv 1
    forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == items@[i].env(),
    __s1@.len() == items@.len(), forall|i: int| 0 <= i < __s1@.len() ==> *(#[trigger] __s1@[i]) == items@[i],
@@at let_entries_1
    proof { lemma_enum_entries(entries@, envs(items@)); }
@@at end
    proof { lemma_holds(__ret, entries@, envs(items@)); }
@@fn planar Hilbert::new
@@spec
    ensures env is Bounds ==> ret == h_of(env), env is Empty ==> ret.env is Empty,
@@at b_4
    assert(1i32 << 16 == 0x10000i32) by (bit_vector);
@@fn planar Hilbert::safe_hilbert
    ensures ret == h_safe(*self, position),
@@fn planar Hilbert::hilbert
    ensures ret == h_key(*self, position),
@@fn planar Hilbert::hilbert_normalized
@@spec
    ensures ret == w_key(x, y), x <= 0xFFFF && y <= 0xFFFF ==> ret as int == hil(16, (false, false), x as int, y as int),
@@at end
    proof { if x <= 0xFFFF && y <= 0xFFFF { lemma_key(x, y); } }
@@fn planar Flatbush::new
@@use lemma_envs_ref
@@spec
    requires degree <= 0x1000_0000_0000_0000 || !is_pow2(degree as int),
    ensures is_pow2(degree as int), fb_wf(ret), fb_holds(ret, envs(items@)), ret.degree == degree || ret.degree <= 0x1_0000,
        !(seq_env(items@) is Empty) ==> in_key_order(ret, seq_env(items@), items@.len() as int),
@@inv 1
    forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == items@[i].env(),
    __s1@.len() == items@.len(), forall|i: int| 0 <= i < __s1@.len() ==> *(#[trigger] __s1@[i]) == items@[i],
@@out 2 (u32, usize, Envelope)
@@inv 2
    seq_env(items@) is Bounds ==> hilbert_square == h_of(seq_env(items@)), seq_env(items@) is Empty ==> hilbert_square.env is Empty,
    forall|i: int| 0 <= i < __s2@.len() ==> #[trigger] __s2@[i] == (i as usize, items@[i].env()), __s2@.len() == items@.len(),
    forall|i: int| 0 <= i < __i2 ==> (#[trigger] __out2@[i]).1 == i && __out2@[i].2 == items@[i].env() && __out2@[i].0 == item_key(seq_env(items@), items@[i].env()),
@@at before_3
    let ghost __e0 = entries@;
@@inv 3
    __i3 <= entries@.len(), entries@ == __e0,
    forall|i: int| 0 <= i < __i3 ==> #[trigger] __out3@[i] == __e0[i].0,
@@dec 3
    entries@.len() - __i3
@@at sorted_3
    proof {
        __p = __perm3@;
        assert forall|i: int, j: int| 0 <= i <= j < entries@.len() implies (#[trigger] entries@[i]).0 <= (#[trigger] entries@[j]).0 by {}
    }
@@inv 4
    forall|i: int| 0 <= i < __i4 ==> #[trigger] __out4@[i] == (__s4@[i].1, __s4@[i].2),
@@at after_4
    proof {
        lemma_perm_entries(__out4@, __s4@, envs(items@), __p);
        __e = __out4@;
        assert forall|p: int, r: int| 0 <= p <= r < __e.len() implies item_key(seq_env(items@), (#[trigger] __e[p]).1) <= item_key(seq_env(items@), (#[trigger] __e[r]).1) by { assert(__s4@[p].0 <= __s4@[r].0); }
    }
@@at let_entries_1
    let ghost mut __p = Seq::<int>::empty();
    let ghost mut __e = Seq::<(usize, Envelope)>::empty();
@@at end
    proof { lemma_holds(__ret, __e, envs(items@)); lemma_key_order(__ret, seq_env(items@), __e); }
@@fn planar Flatbush::_maybe_push_other_isxn
    ensures x_push((node1, node2), old(todo_list)@, final(todo_list)@),
@@fn planar Flatbush::find_other_rtree_intersection_candidates
    requires fb_wf(*self), fb_wf(*other)
    ensures
        x_exact(*self, *other, ret@),
        forall|a: Seq<Envelope>, b: Seq<Envelope>| #[trigger] fb_holds(*self, a) && #[trigger] fb_holds(*other, b) ==> is_exact2(ret@, a, b),
@@at entry
    let ghost mut __ps = Seq::<(int, int)>::empty();
    let ghost __d = imax(self.degree as int, other.degree as int);
    proof {
        lemma_lo_grows(*self, fb_h(*self));
        let d = self.degree as int;
        let h = fb_h(*self);
        lemma_next(h, d);
        ax_vec_small(self.tree);
    }
@@at call__maybe_push_other_isxn_1
    proof { lemma_x_start(*self, *other, __d, todo_list@); assert(results@ =~= Seq::<(usize, usize)>::empty()); }
@@inv 1
    fb_wf(*self), fb_wf(*other), __d == imax(self.degree as int, other.degree as int),
    x_res(*self, *other, results@, __ps), x_todo(*self, *other, todo_list@), x_acc(*self, *other, __ps, todo_list@, x_none()),
@@dec 1
    work2(__d, todo_list@)
@@at pre_1
    let ghost __t1 = todo_list@;
    let ghost __r1 = results@;
@@at top_1
    let ghost __n = (node1, node2);
    let ghost __w = work2(__d, todo_list@);
    let ghost __l = node1.level + node2.level - 1;
    proof { assert(__t1 =~= todo_list@.push(__n)); lemma_x_pop(*self, *other, __d, __ps, todo_list@, __n); lemma_wt(__d, __l); }
@@at call_push_1
    proof {
        assert(results@.drop_last() =~= __r1);
        lemma_x_leaf(*self, *other, __ps, todo_list@, __n, results@.drop_last());
        assert(results@.drop_last().push(results@.last()) =~= results@);
        __ps = __ps.push((node1.tree_index as int, node2.tree_index as int));
    }
@@inv 2
    fb_wf(*self), fb_wf(*other), fb_inner(*self, node1), fb_node(*other, node2), __n == (node1, node2), __s2@.len() == self.degree, __d >= 0, __l == node1.level + node2.level - 1,
    forall|i: int| 0 <= i < __s2@.len() ==> fb_child(*self, node1, i, #[trigger] __s2@[i]),
    x_todo(*self, *other, todo_list@), x_acc(*self, *other, __ps, todo_list@, x_left1(*self, *other, __n, __i2 as int)),
    work2(__d, todo_list@) <= __w + __i2 * wt(__d, __l),
@@at top_2
    let ghost __t0 = todo_list@;
@@at bot_2
    proof {
        let i = __i2 - 1;
        let c = __s2@[i];
        assert(fb_child(*self, node1, i, c));
        lemma_x_child1(*self, *other, __n, i, c);
        lemma_x_push(*self, *other, (c, node2), __d, __t0, todo_list@, __ps, x_left1(*self, *other, __n, i), x_left1(*self, *other, __n, i + 1));
        let w = wt(__d, __l);
        lemma_next(i, w);
    }
@@at after_2
    proof {
        lemma_x_done1(*self, *other, __ps, todo_list@, __n);
        let w = wt(__d, __l);
        lemma_le(__i2 as int, __d as int, w as int);
        lemma_work2(__d, todo_list@);
    }
@@inv 3
    fb_wf(*self), fb_wf(*other), fb_node(*self, node1), fb_inner(*other, node2), __n == (node1, node2), __s3@.len() == other.degree, __d >= 0, __l == node1.level + node2.level - 1,
    forall|i: int| 0 <= i < __s3@.len() ==> fb_child(*other, node2, i, #[trigger] __s3@[i]),
    x_todo(*self, *other, todo_list@), x_acc(*self, *other, __ps, todo_list@, x_left2(*self, *other, __n, __i3 as int)),
    work2(__d, todo_list@) <= __w + __i3 * wt(__d, __l),
@@at top_3
    let ghost __t0 = todo_list@;
@@at bot_3
    proof {
        let i = __i3 - 1;
        let c = __s3@[i];
        assert(fb_child(*other, node2, i, c));
        lemma_x_child2(*self, *other, __n, i, c);
        lemma_x_push(*self, *other, (node1, c), __d, __t0, todo_list@, __ps, x_left2(*self, *other, __n, i), x_left2(*self, *other, __n, i + 1));
        let w = wt(__d, __l);
        lemma_next(i, w);
    }
@@at after_3
    proof {
        lemma_x_done2(*self, *other, __ps, todo_list@, __n);
        let w = wt(__d, __l);
        lemma_le(__i3 as int, __d as int, w as int);
        lemma_work2(__d, todo_list@);
    }
@@at end
    proof {
        assert(todo_list@ =~= Seq::<NPair>::empty());
        reveal(x_exact);
        assert(x_exact(*self, *other, __ret@));
        assert forall|a: Seq<Envelope>, b: Seq<Envelope>| #[trigger] fb_holds(*self, a) && #[trigger] fb_holds(*other, b) implies is_exact2(__ret@, a, b) by { lemma_exact2(*self, *other, __ret@, a, b); }
    }
@@fn planar Flatbush::_maybe_push_self_isxn
    requires node1.level == node2.level
    ensures s_push((node1, node2), old(results)@, old(todo_list)@, final(results)@, final(todo_list)@),
@@fn planar Flatbush::find_self_intersection_candidates
    requires fb_wf(*self), self.degree <= 0x8000_0000
    ensures
        s_exact(*self, ret@),
        forall|a: Seq<Envelope>| #[trigger] fb_holds(*self, a) ==> is_exact_self(ret@, a),
@@at entry
    let ghost mut __ps = Seq::<(int, int)>::empty();
    let ghost __dd = self.degree * self.degree;
    proof {
        lemma_lo_grows(*self, fb_h(*self));
        let d = self.degree as int;
        let h = fb_h(*self);
        lemma_next(h, d);
        assert(d * d <= 0x4000_0000_0000_0000) by (nonlinear_arith) requires 0 <= d <= 0x8000_0000;
        assert(d * d >= 0) by (nonlinear_arith);
        ax_vec_small(self.tree);
    }
@@at call__maybe_push_self_isxn_1
    proof {
        assert(results@ =~= results@);
        lemma_s_start(*self, __dd, results@, todo_list@);
        __ps = s_ps((fb_root(*self), fb_root(*self)), __ps);
    }
@@inv 1
    fb_wf(*self), __dd == self.degree * self.degree, 0 <= __dd <= 0x4000_0000_0000_0000,
    s_res(*self, results@, __ps), s_todo(*self, todo_list@), s_acc(*self, __ps, todo_list@, x_none()),
@@dec 1
    work_s(__dd, todo_list@)
@@at pre_1
    let ghost __t1 = todo_list@;
@@at top_1
    let ghost __n = (node1, node2);
    let ghost __w = work_s(__dd, todo_list@);
    let ghost __l = node1.level - 1;
    proof { assert(__t1 =~= todo_list@.push(__n)); lemma_s_pop(*self, __dd, __ps, todo_list@, __n); lemma_wt(__dd, __l); }
@@at before_2
    proof { lemma_kids_start(*self, node1, node2.envelope); assert(__out2@ =~= Seq::<FlatbushNode>::empty()); }
@@inv 2
    fb_wf(*self), fb_inner(*self, node1), __s2@.len() == self.degree, forall|i: int| 0 <= i < __s2@.len() ==> fb_child(*self, node1, i, #[trigger] __s2@[i]),
    kids_ok(*self, node1, node2.envelope, __out2@, __i2 as int), __out2@.len() <= __i2,
@@at pre_2
    let ghost __o2 = __out2@;
@@at bot_2
    proof {
        assert(fb_child(*self, node1, __i2 - 1, __s2@[__i2 - 1]));
        lemma_kids_step(*self, node1, node2.envelope, __o2, __i2 - 1, __s2@[__i2 - 1], __out2@);
    }
@@at before_3
    proof { lemma_kids_start(*self, node2, node1.envelope); assert(__out3@ =~= Seq::<FlatbushNode>::empty()); }
@@inv 3
    fb_wf(*self), fb_inner(*self, node2), __s3@.len() == self.degree, forall|i: int| 0 <= i < __s3@.len() ==> fb_child(*self, node2, i, #[trigger] __s3@[i]),
    kids_ok(*self, node2, node1.envelope, __out3@, __i3 as int), __out3@.len() <= __i3,
@@at pre_3
    let ghost __o3 = __out3@;
@@at bot_3
    proof {
        assert(fb_child(*self, node2, __i3 - 1, __s3@[__i3 - 1]));
        lemma_kids_step(*self, node2, node1.envelope, __o3, __i3 - 1, __s3@[__i3 - 1], __out3@);
    }
@@at before_4
    proof { lemma_s_kids(*self, __n, children1@, children2@, __ps, todo_list@); }
@@inv 4
    fb_wf(*self), s_pair(*self, __n), s_kids(*self, __n, __s4@), __dd >= 0, __l == node1.level - 1, __n == (node1, node2),
    s_res(*self, results@, __ps), s_todo(*self, todo_list@), s_acc(*self, __ps, todo_list@, s_left(*self, __s4@, __i4 as int)),
    work_s(__dd, todo_list@) <= __w + __i4 * wt(__dd, __l),
@@at top_4
    let ghost __t0 = todo_list@;
    let ghost __r0 = results@;
    proof { assert(s_kid(*self, __n, __s4@[__i4 - 1])); }
@@at bot_4
    proof {
        let i = __i4 - 1;
        lemma_s_next(*self, __s4@, i);
        lemma_s_push(*self, __dd, __s4@[i], __r0, __t0, results@, todo_list@, __ps, s_left(*self, __s4@, i), s_left(*self, __s4@, i + 1));
        __ps = s_ps(__s4@[i], __ps);
        let w = wt(__dd, __l);
        lemma_next(i, w);
    }
@@at after_4
    proof {
        lemma_s_done(*self, __ps, todo_list@, __s4@);
        let w = wt(__dd, __l);
        lemma_le(__i4 as int, __dd as int, w as int);
        lemma_work_s(__dd, todo_list@);
    }
@@at end
    proof {
        assert(todo_list@ =~= Seq::<NPair>::empty());
        reveal(s_exact);
        assert(s_exact(*self, __ret@));
        assert forall|a: Seq<Envelope>| #[trigger] fb_holds(*self, a) implies is_exact_self(__ret@, a) by { lemma_exact_self(*self, __ret@, a); }
    }
@@fn planar Flatbush::find_candidates_within
    requires fb_wf(*self)
    ensures
        pos_finite(position) && e_le(zero(), distance.v()) ==> q_exact(*self, square(position, distance.v()), ret@),
        pos_finite(position) && e_le(zero(), distance.v()) ==> forall|items: Seq<Envelope>| #[trigger] fb_holds(*self, items) ==> is_exact(ret@, items, square(position, distance.v())),
@@at entry
    proof { ax_into_refl::<Envelope>(); }
    broadcast use group_mono;
@@fn planar Flatbush as HasEnvelope::envelope
@@inherent
    requires fb_wf(*self)
    ensures forall|items: Seq<Envelope>| #[trigger] fb_holds(*self, items) ==> ret == env_fold(items),
@@at end
    proof { assert forall|items: Seq<Envelope>| #[trigger] fb_holds(*self, items) implies __ret == env_fold(items) by { lemma_fb_box(*self, items); } }
@@fn planar LineString::build_rtree
    ensures fb_wf(ret), fb_holds(ret, envs(ls_segs(self.positions@))), ret.degree <= 0x1_0000,
