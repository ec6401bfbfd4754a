// Least and greatest of a sequence of bounds.
/// `m` is the minimum of the bounds of `s`, NaN giving way to any other value.
pub open spec fn is_least(m: Ext, s: Seq<Ext>) -> bool {
    if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ext::NaN { m == Ext::NaN }
    else {
        &&& exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m && m != Ext::NaN
        &&& forall|i: int| 0 <= i < s.len() && #[trigger] s[i] != Ext::NaN ==> e_le(m, s[i])
    }
}
pub open spec fn is_greatest(m: Ext, s: Seq<Ext>) -> bool {
    if forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ext::NaN { m == Ext::NaN }
    else {
        &&& exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == m && m != Ext::NaN
        &&& forall|i: int| 0 <= i < s.len() && #[trigger] s[i] != Ext::NaN ==> e_le(s[i], m)
    }
}
proof fn lemma_least_step(m: Ext, s: Seq<Ext>, x: Ext)
    requires is_least(m, s) ensures is_least(e_min(m, x), s.push(x))
{
    let t = s.push(x);
    assert(t.last() == x);
    assert(forall|i: int| 0 <= i < s.len() ==> t[i] == s[i]);
    if x == Ext::NaN {
        if m == Ext::NaN { } else {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m && m != Ext::NaN;
            assert(t[i] == m);
        }
    } else {
        assert(t[s.len() as int] != Ext::NaN);
        if m == Ext::NaN {
            if !(forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ext::NaN) {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m && m != Ext::NaN;
                assert(false);
            }
        } else {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m && m != Ext::NaN;
            assert(t[i] == m);
        }
    }
}
proof fn lemma_greatest_step(m: Ext, s: Seq<Ext>, x: Ext)
    requires is_greatest(m, s) ensures is_greatest(e_max(m, x), s.push(x))
{
    let t = s.push(x);
    assert(t.last() == x);
    assert(forall|i: int| 0 <= i < s.len() ==> t[i] == s[i]);
    if x == Ext::NaN {
        if m == Ext::NaN { } else {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m && m != Ext::NaN;
            assert(t[i] == m);
        }
    } else {
        assert(t[s.len() as int] != Ext::NaN);
        if m == Ext::NaN {
            if !(forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == Ext::NaN) {
                let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m && m != Ext::NaN;
                assert(false);
            }
        } else {
            let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == m && m != Ext::NaN;
            assert(t[i] == m);
        }
    }
}
/// The fold depends only on which boxes occur, not on their order or multiplicity.
pub proof fn lemma_least_unique(m1: Ext, s1: Seq<Ext>, m2: Ext, s2: Seq<Ext>)
    requires is_least(m1, s1), is_least(m2, s2), s1.to_set() =~= s2.to_set() ensures m1 == m2
{
    lemma_sets(s1, s2); lemma_sets(s2, s1);
}
pub proof fn lemma_greatest_unique(m1: Ext, s1: Seq<Ext>, m2: Ext, s2: Seq<Ext>)
    requires is_greatest(m1, s1), is_greatest(m2, s2), s1.to_set() =~= s2.to_set() ensures m1 == m2
{
    lemma_sets(s1, s2); lemma_sets(s2, s1);
}
proof fn lemma_sets<T>(s1: Seq<T>, s2: Seq<T>)
    requires s1.to_set() =~= s2.to_set()
    ensures forall|i: int| 0 <= i < s1.len() ==> s2.contains(#[trigger] s1[i])
{
    assert forall|i: int| 0 <= i < s1.len() implies s2.contains(#[trigger] s1[i]) by {
        assert(s1.to_set().contains(s1[i]));
        assert(s2.to_set().contains(s1[i]));
    }
}
