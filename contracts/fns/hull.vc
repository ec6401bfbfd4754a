@@fn planar fn _triple_location
@@spec
    ensures exact_arith() && pos_finite(a) && pos_finite(b) && pos_finite(c) ==>
        (ret is Left <==> orient(pt(a), pt(b), pt(c)) > 0real) && (ret is On <==> orient(pt(a), pt(b), pt(c)) == 0real) && (ret is Right <==> orient(pt(a), pt(b), pt(c)) < 0real),
@@fn planar fn find_convex_hull_of_simple_loop
@@attr
#[verifier::allow_complex_invariants]
@@spec
    requires exact_arith(), is_chain(aloop.positions@), aloop.positions@.len() > 0, ls_closed(aloop.positions@)
    ensures is_hull(rp(ret.positions@), rp(aloop.positions@)), ret._envelope == seq_env(ret.positions@),
@@at entry
    hide(orient); hide(simple_ring); hide(is_chain); hide(on2); hide(ls_closed); hide(line_to);
    let ghost __p = aloop.positions@;
    let ghost __s = rp(__p);
    let ghost __n = __p.len() as int;
    let ghost mut __j = 2int;
    let ghost mut __ix = Seq::<int>::empty();
    proof { lemma_ring(__p); lemma_ring_len(__s); }
@@at let_positions_1
    assert(positions@ =~= __p);
@@at let_c_1
    proof {
        assert(positions@ =~= __p.subrange(4, __n));
        assert(line_to(__s, 2)) by { reveal(line_to); lemma_ends2(__s[1], __s[2]); assert forall|w: int| 1 <= w <= 2 implies on2(__s[1], __s[2], #[trigger] __s[w]) by { if w == 1 {} } }
    }
@@inv 1
    exact_arith(), all_finite(__p), simple_ring(__s), __s == rp(__p), __n == __p.len(), 2 <= __j < __n - 1,
    a == __p[1], b == __p[__j], c == __p[__j + 1], positions@ == __p.subrange(__j + 2, __n), line_to(__s, __j),
    @ensures orient(__s[1], __s[__j], __s[__j + 1]) != 0real,
@@dec 1
    positions@.len()
@@at top_1
    proof { lemma_straight(__s, __j); }
@@at b_4
    proof { lemma_not_flat(__s); }
@@at bot_1
    proof { __j = __j + 1; assert(positions@ =~= __p.subrange(__j + 2, __n)); }
@@at call_push_back_5
    proof {
        let t = orient(__s[1], __s[__j], __s[__j + 1]);
        if t < 0real {
            lemma_start(__s, __j, 1, __j);
            __ix = seq![__j + 1, 1, __j, __j + 1];
            assert(rp(deque@) =~= seq![__s[__j + 1], __s[1], __s[__j], __s[__j + 1]]);
        } else {
            lemma_cyc(__s[1], __s[__j], __s[__j + 1]);
            lemma_start(__s, __j, __j, 1);
            __ix = seq![__j + 1, __j, 1, __j + 1];
            assert(rp(deque@) =~= seq![__s[__j + 1], __s[__j], __s[1], __s[__j + 1]]);
        }
    }
@@inv 2
    exact_arith(), all_finite(__p), simple_ring(__s), __s == rp(__p), __n == __p.len(), 2 <= __j < __n - 1,
    __s2@ == __p.subrange(__j + 2, __n), all_finite(deque@), hull_at(__s, rp(deque@), __ix, __j + 1 + __i2),
@@at top_2
    let ghost __d = deque@;
    let ghost __r = rp(__d);
    let ghost __m = __d.len() - 1;
    let ghost __t = __j + __i2;
    let ghost __q = pt(pos);
    let ghost mut __k = __m;
    let ghost mut __f = 0int;
    proof {
        assert(pos == __p[__t + 1] && __q == __s[__t + 1]);
        lemma_hull_shape(__s, __r, __ix, __t);
        lemma_cyc(__q, __r[0], __r[1]);
        assert(__d.subrange(0, __m + 1) =~= __d);
    }
@@at b_8
    proof { lemma_skip(__s, __r, __ix, __t); }
@@inv 3
    exact_arith(), all_finite(__d), pos_finite(pos), __r == rp(__d), __m == __d.len() - 1, __q == pt(pos), cvx(__r), 1 <= __k <= __m, deque@ == __d.subrange(0, __k + 1),
    forall|i: int| __k <= i < __m ==> #[trigger] g(__r, i, __q) >= 0real,
@@dec 3
    deque@.len()
@@at top_3
    proof {
        assert(g(__r, __k - 1, __q) >= 0real);
        if __k == 1 { lemma_some_unseen(__r, __q); }
    }
@@at bot_3
    proof { __k = __k - 1; assert(deque@ =~= __d.subrange(0, __k + 1)); }
@@at call_push_back_6
    proof { assert(deque@ =~= __d.subrange(__f, __k + 1).push(pos)); }
@@inv 4
    exact_arith(), all_finite(__d), pos_finite(pos), __r == rp(__d), __m == __d.len() - 1, __q == pt(pos), 0 <= __f < __k <= __m, deque@ == __d.subrange(__f, __k + 1).push(pos),
    g(__r, __k - 1, __q) < 0real, forall|i: int| 0 <= i < __f ==> #[trigger] g(__r, i, __q) >= 0real,
@@dec 4
    deque@.len()
@@at top_4
    proof { lemma_cyc(__q, __r[__f], __r[__f + 1]); assert(g(__r, __f, __q) >= 0real); }
@@at bot_4
    proof { __f = __f + 1; assert(deque@ =~= __d.subrange(__f, __k + 1).push(pos)); }
@@at after_4
    proof { lemma_cyc(__q, __r[__f], __r[__f + 1]); }
@@at call_push_front_2
    proof {
        lemma_push(__s, __r, __ix, __t, __f, __k);
        __ix = grown_ix(__ix, __f, __k, __t + 1);
        assert(rp(deque@) =~= grown(__r, __f, __k, __q));
    }
@@at end
    proof {
        assert(__ret.positions@ =~= deque@.reverse());
        assert(rp(__ret.positions@) =~= rp(deque@).reverse());
        lemma_result(__s, rp(deque@), __ix, rp(__ret.positions@));
    }
@@fn planar Polygon::convex_hull
    requires exact_arith(), is_chain(self.exterior.positions@), self.exterior.positions@.len() > 0, ls_closed(self.exterior.positions@)
    ensures is_hull(rp(ret.positions@), rp(self.exterior.positions@)), ret._envelope == seq_env(ret.positions@),
