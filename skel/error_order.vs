    use vstd::std_specs::btree::*;
    use vstd::std_specs::cmp::*;

    /// s lists the elements of e in ascending order, each once
    pub open spec fn ascending(s: Seq<&'static str>, e: Set<&'static str>) -> bool {
        s.to_set() =~= e && s.no_duplicates() && increasing_seq(s)
    }
    pub proof fn ascending_unique(a: Seq<&'static str>, b: Seq<&'static str>, e: Set<&'static str>)
        requires ascending(a, e), ascending(b, e)
        ensures a == b
        decreases a.len()
    {
        str_cmp_lawful();
        axiom_increasing_seq_meaning(a);
        axiom_increasing_seq_meaning(b);
        broadcast use vstd::seq_lib::group_to_multiset_ensures;
        if a.len() == 0 {
            if b.len() > 0 { assert(b.to_set().contains(b[0])); assert(a.to_set().contains(b[0])); }
            assert(a =~= b);
        } else {
            assert(a.to_set().contains(a.last()));
            assert(b.to_set().contains(a.last()));
            assert(b.len() > 0);
            assert(b.to_set().contains(b.last()));
            assert(a.to_set().contains(b.last()));
            let i = choose|i: int| 0 <= i < a.len() && a[i] == b.last();
            let j = choose|j: int| 0 <= j < b.len() && b[j] == a.last();
            if a.last() != b.last() {
                // both would be strictly below the other
                assert(i < a.len() - 1 && j < b.len() - 1);
                reveal(obeys_partial_cmp_spec_properties);
                reveal(obeys_cmp_partial_ord);
                reveal(obeys_cmp_ord);
                assert(OrdSpec::cmp_spec(&a[i], &a[a.len() - 1]) is Less);
                assert(OrdSpec::cmp_spec(&b[j], &b[b.len() - 1]) is Less);
                assert(false);
            }
            let a1 = a.drop_last();
            let b1 = b.drop_last();
            let e1 = e.remove(a.last());
            drop_ascending(a, e);
            drop_ascending(b, e);
            ascending_unique(a1, b1, e1);
            assert(a =~= a1.push(a.last()));
            assert(b =~= b1.push(b.last()));
        }
    }
    pub proof fn drop_ascending(a: Seq<&'static str>, e: Set<&'static str>)
        requires ascending(a, e), a.len() > 0
        ensures ascending(a.drop_last(), e.remove(a.last()))
    {
        str_cmp_lawful();
        axiom_increasing_seq_meaning(a);
        let d = a.drop_last();
        axiom_increasing_seq_meaning(d);
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies OrdSpec::cmp_spec(&d[i], &d[j]) is Less by { assert(OrdSpec::cmp_spec(&a[i], &a[j]) is Less); }
        assert forall|x: &'static str| d.to_set().contains(x) <==> e.remove(a.last()).contains(x) by {
            if e.remove(a.last()).contains(x) {
                assert(a.to_set().contains(x));
                let i = choose|i: int| 0 <= i < a.len() && a[i] == x;
                assert(d[i] == x);
            }
            if d.to_set().contains(x) {
                let i = choose|i: int| 0 <= i < d.len() && d[i] == x;
                assert(a[i] == x);
                assert(a.to_set().contains(x));
            }
        }
    }
    /// the first n descriptions, separated by ", "
    pub open spec fn listed(s: Seq<&'static str>, n: int) -> Seq<char>
        decreases n
    {
        if n <= 0 { Seq::empty() } else if n == 1 { s[0]@ } else { listed(s, n - 1) + ", "@ + s[n - 1]@ }
    }
    /// the text of an expected set
    pub open spec fn expected_text(s: Seq<&'static str>) -> Seq<char> {
        if s.len() == 0 { "<unreported>"@ } else if s.len() == 1 { s[0]@ } else { "one of "@ + listed(s, s.len() as int) }
    }
    pub open spec fn in_order(e: Set<&'static str>) -> Seq<&'static str> { choose|s: Seq<&'static str>| ascending(s, e) }

    pub proof fn order_facts(e: Set<&'static str>)
        ensures forall|s: Seq<&'static str>| #[trigger] ascending(s, e) ==> s == in_order(e) && s.len() == e.len(),
            e =~= Set::empty() ==> in_order(e) == Seq::<&'static str>::empty(),
            // a set's iterator
            forall|b: Seq<&&'static str>| b.unref().to_set() == e && b.no_duplicates() && #[trigger] increasing_seq(b) ==> b.unref() == in_order(e),
            // a set's elements, each mapped through a copy
            forall|s: Seq<&'static str>, b: Seq<&&'static str>|
                b.unref().to_set() == e && b.no_duplicates() && #[trigger] increasing_seq(b) && s.len() == b.len() && (forall|k: int| 0 <= k < s.len() ==> s[k] == *b[k])
                ==> #[trigger] ascending(s, e),
    {
        assert forall|s: Seq<&'static str>| #[trigger] ascending(s, e) implies s == in_order(e) && s.len() == e.len() by {
            ascending_unique(s, in_order(e), e);
            s.unique_seq_to_set();
            assert(s.to_set() == e);
        }
        assert forall|s: Seq<&'static str>, b: Seq<&&'static str>|
                b.unref().to_set() == e && b.no_duplicates() && #[trigger] increasing_seq(b) && s.len() == b.len() && (forall|k: int| 0 <= k < s.len() ==> s[k] == *b[k])
                implies #[trigger] ascending(s, e) by {
            assert(s =~= b.unref());
            str_cmp_lawful();
            broadcast use group_laws_cmp;
            axiom_increasing_seq_meaning(b);
            axiom_increasing_seq_meaning(s);
            assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { assert(b[i] != b[j]); }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies OrdSpec::cmp_spec(&s[i], &s[j]) is Less by { assert(OrdSpec::cmp_spec(&b[i], &b[j]) is Less); }
        }
        assert forall|b: Seq<&&'static str>| b.unref().to_set() == e && b.no_duplicates() && #[trigger] increasing_seq(b) implies b.unref() == in_order(e) by {
            assert(ascending(b.unref(), e));
        }
        if e =~= Set::empty() {
            str_cmp_lawful();
            axiom_increasing_seq_meaning(Seq::<&'static str>::empty());
            assert(ascending(Seq::empty(), e));
        }
    }
