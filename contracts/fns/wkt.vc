@@fn planar fn parse_wkt
    ensures
        ret is Ok <==> !wkt_gc_text(wkt_str@) && wkt_parse(wkt_str@) is Some && (forall|i: int| 0 <= i < wkt_parse(wkt_str@)->Some_0.len() ==> !((#[trigger] wkt_parse(wkt_str@)->Some_0[i]) is GeometryCollection)),
        ret is Ok ==> ret->Ok_0@.len() == wkt_parse(wkt_str@)->Some_0.len(),
        ret is Ok ==> forall|i: int| 0 <= i < ret->Ok_0@.len() ==> w_geom(#[trigger] ret->Ok_0@[i], wkt_parse(wkt_str@)->Some_0[i]),
@@out 1 Result<Geometry, &'static str>
@@spec
@@inv 1
    forall|i: int| 0 <= i < __i1 ==> ((#[trigger] __out1@[i]) is Ok <==> !(__s1@[i] is GeometryCollection)) && (__out1@[i] is Ok ==> w_geom(__out1@[i]->Ok_0, __s1@[i])),
@@at after_1
    proof {
        let w = wkt_parse(wkt_str@)->Some_0;
        assert(__s1@ == w);
        if forall|i: int| 0 <= i < __out1@.len() ==> (#[trigger] __out1@[i]) is Ok {
            assert forall|i: int| 0 <= i < w.len() implies !((#[trigger] w[i]) is GeometryCollection) by { assert(__out1@[i] is Ok); }
        }
    }
@@fn planar fn is_collection
    ensures ret == wkt_gc_text(wkt_str@),
@@at entry
    let ghost b = vstd::utf8::encode_utf8(wkt_str@);
@@inv 1
    text@ == b, start <= b.len(), forall|i: int| 0 <= i < start ==> wkt_ws(#[trigger] b[i]),
@@dec 1
    b.len() - start
@@at end
    proof {
        assert forall|k: int| wkt_gc_at(b, k) implies k == start by {
            assert(low(b[k + 0]) == wkt_gc()[0]);
            if k < start { assert(wkt_ws(b[k])); }
            if start < k { assert(wkt_ws(b[start as int])); }
        }
        let s = start as int;
        if s + 18 <= b.len() {
            let v = b.subrange(s, s + 18);
            assert forall|i: int| 0 <= i < 18 implies low(word@[i]) == #[trigger] wkt_gc()[i] by {}
            assert(__ret ==> forall|i: int| 0 <= i < 18 ==> low(#[trigger] v[i]) == low(word@[i]));
            if __ret {
                assert forall|i: int| 0 <= i < 18 implies low(#[trigger] b[s + i]) == wkt_gc()[i] by { assert(v[i] == b[s + i]); }
                assert(wkt_gc_at(b, s));
            } else if wkt_gc_at(b, s) {
                assert forall|i: int| 0 <= i < 18 implies low(#[trigger] v[i]) == low(word@[i]) by { assert(v[i] == b[s + i]); assert(low(b[s + i]) == wkt_gc()[i]); }
            }
        }
    }
@@fn planar fn from_wkt_geometry
    ensures ret is Ok <==> !(geom is GeometryCollection), ret is Ok ==> w_geom(ret->Ok_0, geom),
@@fn planar fn from_wkt_point
    ensures ret is Some <==> pt.0 is Some, ret is Some ==> ret->Some_0 == Point(w_pos(pt.0->Some_0)),
@@fn planar fn from_wkt_linestring
    ensures w_line(ret, ls),
@@inv 1
    forall|i: int| 0 <= i < __i1 ==> #[trigger] __out1@[i] == w_pos(__s1@[i]),
@@fn planar fn from_wkt_polygon
    ensures ret is Some <==> poly.0@.len() > 0, ret is Some ==> w_poly(ret->Some_0, poly),
@@inv 1
    w_lines(__out1@, __s1@.subrange(0, __i1 as int)),
@@at let_linestrings_1
    let ghost __l = linestrings@;
    proof { assert(poly.0@.subrange(0, poly.0@.len() as int) =~= poly.0@); }
@@at let_exterior_1
    proof { assert(forall|i: int| 0 <= i < linestrings@.len() ==> #[trigger] linestrings@[i] == __l[i + 1]); }
@@fn planar fn from_wkt_multi_point
    ensures ret.points@ == w_points(mp.0@), ret._envelope == seq_env(ret.points@),
@@inv 1
    __out1@ == w_points(__s1@.take(__i1 as int)),
@@at bot_1
    proof { assert(__s1@.take(__i1 as int).drop_last() =~= __s1@.take(__i1 - 1)); }
@@at after_1
    proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); }
@@fn planar fn from_wkt_multi_linestring
    ensures w_lines(ret.line_strings@, mls.0@), ret._envelope == seq_env(ret.line_strings@),
@@inv 1
    w_lines(__out1@, __s1@.subrange(0, __i1 as int)),
@@at after_1
    proof { assert(mls.0@.subrange(0, mls.0@.len() as int) =~= mls.0@); }
@@fn planar fn from_wkt_multi_polygon
    ensures w_polys(ret.polygons@, w_kept(mpoly.0@)), ret._envelope == seq_env(ret.polygons@),
@@inv 1
    w_polys(__out1@, w_kept(__s1@.take(__i1 as int))),
@@at bot_1
    proof { assert(__s1@.take(__i1 as int).drop_last() =~= __s1@.take(__i1 - 1)); }
@@at after_1
    proof { assert(__s1@.take(__s1@.len() as int) =~= __s1@); }
