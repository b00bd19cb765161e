/// What the walks compute, said without the order of the walk: matching without consuming as a
/// least fixed point, left calls, circles.
pub mod meaning {
    use vstd::prelude::*;
    use crate::ast::*;
    use crate::ast::Expr::*;
    use crate::analysis::*;
    use crate::proc_macro2::Span;

    /// e can match without consuming, by a derivation through at most k nested calls
    pub open spec fn nul_k(g: Rules, e: SpannedExpr, k: nat) -> bool decreases k, e, 0int {
        match e.expr {
            RuleExpr(n, _, _) => k > 0 && g.dom().contains(n.name()) && nul_k(g, body(g, n.name()), (k - 1) as nat),
            ActionExpr(v, _) => nul_seq(g, v, 0, k),
            ChoiceExpr(v) => nul_any(g, v, 0, k),
            OptionalExpr(_) | PosAssertExpr(_) | NegAssertExpr(_) | PositionExpr => true,
            Repeat { inner, bound, sep } => nul_k(g, *inner, k) || !lower(bound),
            MatchStrExpr(x) | QuietExpr(x) => nul_k(g, *x, k),
            PrecedenceExpr { levels } => nul_levels(g, levels, 0, k),
            LiteralExpr(_) | PatternExpr(_) | MethodExpr(_, _) | CustomExpr(_) | FailExpr(_) | MarkerExpr(_) => false,
        }
    }
    pub open spec fn nul_seq(g: Rules, v: Vec<TaggedExpr>, i: nat, k: nat) -> bool decreases k, v, v@.len() - i {
        i >= v@.len() || (nul_k(g, v@[i as int].expr, k) && nul_seq(g, v, i + 1, k))
    }
    pub open spec fn nul_any(g: Rules, v: Vec<SpannedExpr>, i: nat, k: nat) -> bool decreases k, v, v@.len() - i {
        i < v@.len() && (nul_k(g, v@[i as int], k) || nul_any(g, v, i + 1, k))
    }
    pub open spec fn nul_ops(g: Rules, v: Vec<PrecedenceOperator>, i: nat, k: nat) -> bool decreases k, v, v@.len() - i {
        i < v@.len() && (nul_seq(g, v@[i as int].elements, 0, k) || nul_ops(g, v, i + 1, k))
    }
    pub open spec fn nul_levels(g: Rules, v: Vec<PrecedenceLevel>, i: nat, k: nat) -> bool decreases k, v, v@.len() - i {
        i < v@.len() && (nul_ops(g, v@[i as int].operators, 0, k) || nul_levels(g, v, i + 1, k))
    }
    /// e can match without consuming
    pub open spec fn nul(g: Rules, e: SpannedExpr) -> bool { exists|k: nat| nul_k(g, e, k) }

    // ---- more calls allowed, more derivations
    pub proof fn more(g: Rules, e: SpannedExpr, k: nat, l: nat)
        requires nul_k(g, e, k), k <= l ensures nul_k(g, e, l) decreases k, e, 0int
    {
        match &e.expr {
            RuleExpr(n, _, _) => more(g, body(g, n.name()), (k - 1) as nat, (l - 1) as nat),
            ActionExpr(v, _) => more_seq(g, *v, 0, k, l),
            ChoiceExpr(v) => more_any(g, *v, 0, k, l),
            Repeat { inner, bound, sep } => if nul_k(g, **inner, k) { more(g, **inner, k, l) },
            MatchStrExpr(x) | QuietExpr(x) => more(g, **x, k, l),
            PrecedenceExpr { levels } => more_levels(g, *levels, 0, k, l),
            _ => {}
        }
    }
    pub proof fn more_seq(g: Rules, v: Vec<TaggedExpr>, i: nat, k: nat, l: nat)
        requires nul_seq(g, v, i, k), k <= l ensures nul_seq(g, v, i, l) decreases k, v, v@.len() - i
    { if i < v@.len() { more(g, v@[i as int].expr, k, l); more_seq(g, v, i + 1, k, l); } }
    pub proof fn more_any(g: Rules, v: Vec<SpannedExpr>, i: nat, k: nat, l: nat)
        requires nul_any(g, v, i, k), k <= l ensures nul_any(g, v, i, l) decreases k, v, v@.len() - i
    { if nul_k(g, v@[i as int], k) { more(g, v@[i as int], k, l); } else { more_any(g, v, i + 1, k, l); } }
    pub proof fn more_ops(g: Rules, v: Vec<PrecedenceOperator>, i: nat, k: nat, l: nat)
        requires nul_ops(g, v, i, k), k <= l ensures nul_ops(g, v, i, l) decreases k, v, v@.len() - i
    { if nul_seq(g, v@[i as int].elements, 0, k) { more_seq(g, v@[i as int].elements, 0, k, l); } else { more_ops(g, v, i + 1, k, l); } }
    pub proof fn more_levels(g: Rules, v: Vec<PrecedenceLevel>, i: nat, k: nat, l: nat)
        requires nul_levels(g, v, i, k), k <= l ensures nul_levels(g, v, i, l) decreases k, v, v@.len() - i
    { if nul_ops(g, v@[i as int].operators, 0, k) { more_ops(g, v@[i as int].operators, 0, k, l); } else { more_levels(g, v, i + 1, k, l); } }

    // ---- what the walk takes for possibly empty is
    pub proof fn null_sound(g: Rules, e: SpannedExpr, st: Seq<Name>)
        requires null(g, e, st) ensures nul_k(g, e, left(g, st)) decreases left(g, st), e, 0int
    {
        match &e.expr {
            RuleExpr(n, _, _) => {
                left_less(g, st, n.name());
                null_sound(g, body(g, n.name()), st.push(n.name()));
                more(g, body(g, n.name()), left(g, st.push(n.name())), (left(g, st) - 1) as nat);
            },
            ActionExpr(v, _) => null_sound_seq(g, *v, 0, st),
            ChoiceExpr(v) => null_sound_any(g, *v, 0, st),
            Repeat { inner, bound, sep } => if null(g, **inner, st) { null_sound(g, **inner, st) },
            MatchStrExpr(x) | QuietExpr(x) => null_sound(g, **x, st),
            PrecedenceExpr { levels } => null_sound_levels(g, *levels, 0, st),
            _ => {}
        }
    }
    pub proof fn null_sound_seq(g: Rules, v: Vec<TaggedExpr>, i: nat, st: Seq<Name>)
        requires null_seq(g, v, i, st) ensures nul_seq(g, v, i, left(g, st)) decreases left(g, st), v, v@.len() - i
    { if i < v@.len() { null_sound(g, v@[i as int].expr, st); null_sound_seq(g, v, i + 1, st); } }
    pub proof fn null_sound_any(g: Rules, v: Vec<SpannedExpr>, i: nat, st: Seq<Name>)
        requires null_any(g, v, i, st) ensures nul_any(g, v, i, left(g, st)) decreases left(g, st), v, v@.len() - i
    { if null(g, v@[i as int], st) { null_sound(g, v@[i as int], st); } else { null_sound_any(g, v, i + 1, st); } }
    pub proof fn null_sound_ops(g: Rules, v: Vec<PrecedenceOperator>, i: nat, st: Seq<Name>)
        requires null_ops(g, v, i, st) ensures nul_ops(g, v, i, left(g, st)) decreases left(g, st), v, v@.len() - i
    { if null_seq(g, v@[i as int].elements, 0, st) { null_sound_seq(g, v@[i as int].elements, 0, st); } else { null_sound_ops(g, v, i + 1, st); } }
    pub proof fn null_sound_levels(g: Rules, v: Vec<PrecedenceLevel>, i: nat, st: Seq<Name>)
        requires null_levels(g, v, i, st) ensures nul_levels(g, v, i, left(g, st)) decreases left(g, st), v, v@.len() - i
    { if null_ops(g, v@[i as int].operators, 0, st) { null_sound_ops(g, v@[i as int].operators, 0, st); } else { null_sound_levels(g, v, i + 1, st); } }

    // ---- and the walk finds it: the calls of a shortest derivation never repeat a rule, so only
    // the first `base` rules of the stack can get in the way, and those are reported
    pub open spec fn high(g: Rules, n: Name, k: nat) -> bool { forall|l: nat| l < k ==> !#[trigger] nul_k(g, body(g, n), l) }
    pub open spec fn setting(g: Rules, st: Seq<Name>, base: int, k: nat) -> bool {
        &&& 0 <= base <= st.len()
        &&& forall|i: int| 0 <= i < base ==> plain(g[#[trigger] st[i]])
        &&& forall|i: int| base <= i < st.len() ==> high(g, #[trigger] st[i], k)
    }
    pub proof fn least(g: Rules, e: SpannedExpr, k: nat) -> (r: nat)
        requires nul_k(g, e, k) ensures r <= k, nul_k(g, e, r), forall|l: nat| l < r ==> !#[trigger] nul_k(g, e, l) decreases k
    {
        if exists|l: nat| l < k && #[trigger] nul_k(g, e, l) { let l = choose|l: nat| l < k && #[trigger] nul_k(g, e, l); least(g, e, l) } else { k }
    }
    pub proof fn null_complete(g: Rules, e: SpannedExpr, st: Seq<Name>, base: int, k: nat)
        requires nul_k(g, e, k), setting(g, st, base, k), base == 0 || errs(g, e, st).len() == 0
        ensures null(g, e, st)
        decreases k, e, 0int
    {
        match &e.expr {
            RuleExpr(n, _, _) => {
                let n = n.name();
                let r = least(g, body(g, n), (k - 1) as nat);
                if st.contains(n) {
                    let i = choose|i: int| 0 <= i < st.len() && st[i] == n;
                    if i >= base { assert(high(g, st[i], k)); assert(false); }
                    assert(plain(g[st[i]]));
                    assert(false);
                }
                let s2 = st.push(n);
                assert(setting(g, s2, base, r)) by {
                    assert forall|i: int| base <= i < s2.len() implies high(g, #[trigger] s2[i], r) by { if i < st.len() { assert(high(g, st[i], k)); } }
                    assert forall|i: int| 0 <= i < base implies plain(g[#[trigger] s2[i]]) by { assert(plain(g[st[i]])); }
                }
                null_complete(g, body(g, n), s2, base, r);
            },
            ActionExpr(v, _) => null_complete_seq(g, *v, 0, st, base, k),
            ChoiceExpr(v) => null_complete_any(g, *v, 0, st, base, k),
            Repeat { inner, bound, sep } => if nul_k(g, **inner, k) { null_complete(g, **inner, st, base, k) },
            MatchStrExpr(x) | QuietExpr(x) => null_complete(g, **x, st, base, k),
            PrecedenceExpr { levels } => null_complete_levels(g, *levels, 0, st, base, k),
            _ => {}
        }
    }
    pub proof fn null_complete_seq(g: Rules, v: Vec<TaggedExpr>, i: nat, st: Seq<Name>, base: int, k: nat)
        requires nul_seq(g, v, i, k), setting(g, st, base, k), base == 0 || errs_seq(g, v, i, st).len() == 0
        ensures null_seq(g, v, i, st) decreases k, v, v@.len() - i
    { if i < v@.len() { null_complete(g, v@[i as int].expr, st, base, k); null_complete_seq(g, v, i + 1, st, base, k); } }
    pub proof fn null_complete_any(g: Rules, v: Vec<SpannedExpr>, i: nat, st: Seq<Name>, base: int, k: nat)
        requires nul_any(g, v, i, k), setting(g, st, base, k), base == 0 || errs_each(g, v, i, st).len() == 0
        ensures null_any(g, v, i, st) decreases k, v, v@.len() - i
    { if nul_k(g, v@[i as int], k) { null_complete(g, v@[i as int], st, base, k); } else { null_complete_any(g, v, i + 1, st, base, k); } }
    pub proof fn null_complete_ops(g: Rules, v: Vec<PrecedenceOperator>, i: nat, st: Seq<Name>, base: int, k: nat)
        requires nul_ops(g, v, i, k), setting(g, st, base, k), base == 0 || errs_ops(g, v, i, st).len() == 0
        ensures null_ops(g, v, i, st) decreases k, v, v@.len() - i
    { if nul_seq(g, v@[i as int].elements, 0, k) { null_complete_seq(g, v@[i as int].elements, 0, st, base, k); } else { null_complete_ops(g, v, i + 1, st, base, k); } }
    pub proof fn null_complete_levels(g: Rules, v: Vec<PrecedenceLevel>, i: nat, st: Seq<Name>, base: int, k: nat)
        requires nul_levels(g, v, i, k), setting(g, st, base, k), base == 0 || errs_levels(g, v, i, st).len() == 0
        ensures null_levels(g, v, i, st) decreases k, v, v@.len() - i
    { if nul_ops(g, v@[i as int].operators, 0, k) { null_complete_ops(g, v@[i as int].operators, 0, st, base, k); } else { null_complete_levels(g, v, i + 1, st, base, k); } }

    /// of a rule walked on its own, the walk says exactly whether it can match without consuming
    pub proof fn null_exact(g: Rules, n: Name)
        requires g.dom().contains(n)
        ensures null(g, body(g, n), seq![n]) == nul(g, body(g, n))
    {
        if null(g, body(g, n), seq![n]) { null_sound(g, body(g, n), seq![n]); }
        if nul(g, body(g, n)) {
            let k = choose|k: nat| nul_k(g, body(g, n), k);
            let r = least(g, body(g, n), k);
            assert(setting(g, seq![n], 0, r));
            null_complete(g, body(g, n), seq![n], 0, r);
        }
    }

    // ---- left calls
    /// y is called in e where nothing need have been consumed before
    pub open spec fn calls(g: Rules, e: SpannedExpr, y: Name) -> bool decreases e, 0int {
        match e.expr {
            RuleExpr(n, _, _) => g.dom().contains(y) && n.name() == y,
            ActionExpr(v, _) => calls_seq(g, v, 0, y),
            ChoiceExpr(v) => calls_any(g, v, 0, y),
            OptionalExpr(x) | PosAssertExpr(x) | NegAssertExpr(x) => calls(g, *x, y),
            Repeat { inner, bound, sep } => calls(g, *inner, y) || (nul(g, *inner) && match sep { Some(s) => calls(g, *s, y), None => false }),
            MatchStrExpr(x) | QuietExpr(x) => calls(g, *x, y),
            PrecedenceExpr { levels } => calls_levels(g, levels, 0, y),
            LiteralExpr(_) | PatternExpr(_) | MethodExpr(_, _) | CustomExpr(_) | FailExpr(_) | MarkerExpr(_) | PositionExpr => false,
        }
    }
    pub open spec fn calls_seq(g: Rules, v: Vec<TaggedExpr>, i: nat, y: Name) -> bool decreases v, v@.len() - i {
        i < v@.len() && (calls(g, v@[i as int].expr, y) || (nul(g, v@[i as int].expr) && calls_seq(g, v, i + 1, y)))
    }
    pub open spec fn calls_any(g: Rules, v: Vec<SpannedExpr>, i: nat, y: Name) -> bool decreases v, v@.len() - i {
        i < v@.len() && (calls(g, v@[i as int], y) || calls_any(g, v, i + 1, y))
    }
    pub open spec fn calls_ops(g: Rules, v: Vec<PrecedenceOperator>, i: nat, y: Name) -> bool decreases v, v@.len() - i {
        i < v@.len() && (calls_seq(g, v@[i as int].elements, 0, y) || calls_ops(g, v, i + 1, y))
    }
    pub open spec fn calls_levels(g: Rules, v: Vec<PrecedenceLevel>, i: nat, y: Name) -> bool decreases v, v@.len() - i {
        i < v@.len() && (calls_ops(g, v@[i as int].operators, 0, y) || calls_levels(g, v, i + 1, y))
    }
    pub open spec fn edge(g: Rules, x: Name, y: Name) -> bool { g.dom().contains(x) && calls(g, body(g, x), y) }
    pub open spec fn chain(g: Rules, p: Seq<Name>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> edge(g, #[trigger] p[i], p[i + 1]) }
    /// a rule that gets back to itself before anything need have been consumed
    pub open spec fn circular(g: Rules, p: Seq<Name>) -> bool { p.len() >= 2 && p[0] == p.last() && chain(g, p) }

    pub proof fn first_ok(st: Seq<Name>, n: Name)
        requires st.contains(n) ensures 0 <= first_at(st, n) < st.len(), st[first_at(st, n)] == n decreases st.len()
    {
        if st[0] != n {
            let i = choose|i: int| 0 <= i < st.len() && st[i] == n;
            assert(st.drop_first()[i - 1] == n);
            first_ok(st.drop_first(), n);
        }
    }

    // ---- every report is a circle that starts at a rule without #[cache_left_rec]
    pub open spec fn good(g: Rules, p: Seq<Name>) -> bool { circular(g, p) && plain(g[p[0]]) }
    pub open spec fn all_good(g: Rules, s: Seq<Err>) -> bool { forall|j: int| 0 <= j < s.len() ==> good(g, #[trigger] s[j].0) }
    pub open spec fn at(g: Rules, st: Seq<Name>) -> bool { st.len() > 0 && chain(g, st) }
    pub proof fn sound(g: Rules, e: SpannedExpr, st: Seq<Name>)
        requires at(g, st), filed(g), forall|y: Name| #[trigger] calls(g, e, y) ==> edge(g, st.last(), y)
        ensures all_good(g, errs(g, e, st))
        decreases left(g, st), e, 0int
    {
        match &e.expr {
            RuleExpr(n, _, _) => {
                let n = n.name();
                if g.dom().contains(n) {
                    assert(calls(g, e, n));
                    let s2 = st.push(n);
                    assert(chain(g, s2)) by {
                        assert forall|i: int| 0 <= i < s2.len() - 1 implies edge(g, #[trigger] s2[i], s2[i + 1]) by {
                            if i < st.len() - 1 { assert(edge(g, st[i], st[i + 1])); } else { assert(s2[i] == st.last()); }
                        }
                    }
                    if st.contains(n) {
                        let i = first_at(st, n);
                        first_ok(st, n);
                        let p = circle(st, n);
                        assert(p =~= s2.subrange(i, s2.len() as int));
                        assert forall|j: int| 0 <= j < p.len() - 1 implies edge(g, #[trigger] p[j], p[j + 1]) by { assert(edge(g, s2[i + j], s2[i + j + 1])); }
                        assert(p[0] == n);
                        assert(circular(g, p));
                    } else {
                        left_less(g, st, n);
                        sound(g, body(g, n), s2);
                    }
                }
            },
            ActionExpr(v, _) => { assert forall|y: Name| #[trigger] calls_seq(g, *v, 0, y) implies edge(g, st.last(), y) by { assert(calls(g, e, y)); } sound_seq(g, *v, 0, st); },
            ChoiceExpr(v) => { assert forall|y: Name| #[trigger] calls_any(g, *v, 0, y) implies edge(g, st.last(), y) by { assert(calls(g, e, y)); } sound_each(g, *v, 0, st); },
            OptionalExpr(x) | PosAssertExpr(x) | NegAssertExpr(x) => { assert forall|y: Name| #[trigger] calls(g, **x, y) implies edge(g, st.last(), y) by { assert(calls(g, e, y)); } sound(g, **x, st); },
            Repeat { inner, bound, sep } => {
                assert forall|y: Name| #[trigger] calls(g, **inner, y) implies edge(g, st.last(), y) by { assert(calls(g, e, y)); }
                sound(g, **inner, st);
                if let Some(s) = sep {
                    if null(g, **inner, st) {
                        null_sound(g, **inner, st);
                        assert forall|y: Name| #[trigger] calls(g, **s, y) implies edge(g, st.last(), y) by { assert(calls(g, e, y)); }
                        sound(g, **s, st);
                    }
                }
            },
            MatchStrExpr(x) | QuietExpr(x) => { assert forall|y: Name| #[trigger] calls(g, **x, y) implies edge(g, st.last(), y) by { assert(calls(g, e, y)); } sound(g, **x, st); },
            PrecedenceExpr { levels } => { assert forall|y: Name| #[trigger] calls_levels(g, *levels, 0, y) implies edge(g, st.last(), y) by { assert(calls(g, e, y)); } sound_levels(g, *levels, 0, st); },
            _ => {}
        }
    }
    pub proof fn sound_seq(g: Rules, v: Vec<TaggedExpr>, i: nat, st: Seq<Name>)
        requires at(g, st), filed(g), forall|y: Name| #[trigger] calls_seq(g, v, i, y) ==> edge(g, st.last(), y)
        ensures all_good(g, errs_seq(g, v, i, st)) decreases left(g, st), v, v@.len() - i
    {
        if i < v@.len() {
            let x = v@[i as int].expr;
            assert forall|y: Name| #[trigger] calls(g, x, y) implies edge(g, st.last(), y) by { assert(calls_seq(g, v, i, y)); }
            sound(g, x, st);
            if null(g, x, st) {
                null_sound(g, x, st);
                assert forall|y: Name| #[trigger] calls_seq(g, v, i + 1, y) implies edge(g, st.last(), y) by { assert(calls_seq(g, v, i, y)); }
                sound_seq(g, v, i + 1, st);
            }
        }
    }
    pub proof fn sound_each(g: Rules, v: Vec<SpannedExpr>, i: nat, st: Seq<Name>)
        requires at(g, st), filed(g), forall|y: Name| #[trigger] calls_any(g, v, i, y) ==> edge(g, st.last(), y)
        ensures all_good(g, errs_each(g, v, i, st)) decreases left(g, st), v, v@.len() - i
    {
        if i < v@.len() {
            assert forall|y: Name| #[trigger] calls(g, v@[i as int], y) implies edge(g, st.last(), y) by { assert(calls_any(g, v, i, y)); }
            sound(g, v@[i as int], st);
            assert forall|y: Name| #[trigger] calls_any(g, v, i + 1, y) implies edge(g, st.last(), y) by { assert(calls_any(g, v, i, y)); }
            sound_each(g, v, i + 1, st);
        }
    }
    pub proof fn sound_ops(g: Rules, v: Vec<PrecedenceOperator>, i: nat, st: Seq<Name>)
        requires at(g, st), filed(g), forall|y: Name| #[trigger] calls_ops(g, v, i, y) ==> edge(g, st.last(), y)
        ensures all_good(g, errs_ops(g, v, i, st)) decreases left(g, st), v, v@.len() - i
    {
        if i < v@.len() {
            let w = v@[i as int].elements;
            assert forall|y: Name| #[trigger] calls_seq(g, w, 0, y) implies edge(g, st.last(), y) by { assert(calls_ops(g, v, i, y)); }
            sound_seq(g, w, 0, st);
            assert forall|y: Name| #[trigger] calls_ops(g, v, i + 1, y) implies edge(g, st.last(), y) by { assert(calls_ops(g, v, i, y)); }
            sound_ops(g, v, i + 1, st);
        }
    }
    pub proof fn sound_levels(g: Rules, v: Vec<PrecedenceLevel>, i: nat, st: Seq<Name>)
        requires at(g, st), filed(g), forall|y: Name| #[trigger] calls_levels(g, v, i, y) ==> edge(g, st.last(), y)
        ensures all_good(g, errs_levels(g, v, i, st)) decreases left(g, st), v, v@.len() - i
    {
        if i < v@.len() {
            let w = v@[i as int].operators;
            assert forall|y: Name| #[trigger] calls_ops(g, w, 0, y) implies edge(g, st.last(), y) by { assert(calls_levels(g, v, i, y)); }
            sound_ops(g, w, 0, st);
            assert forall|y: Name| #[trigger] calls_levels(g, v, i + 1, y) implies edge(g, st.last(), y) by { assert(calls_levels(g, v, i, y)); }
            sound_levels(g, v, i + 1, st);
        }
    }

    // ---- a circle of rules without #[cache_left_rec] is reported
    pub open spec fn all_plain(g: Rules, st: Seq<Name>) -> bool { forall|i: int| 0 <= i < st.len() ==> plain(g[#[trigger] st[i]]) }
    pub open spec fn fresh(g: Rules, st: Seq<Name>, y: Name) -> bool { !st.contains(y) && errs(g, body(g, y), st.push(y)).len() == 0 }
    pub proof fn nul_seen(g: Rules, e: SpannedExpr, st: Seq<Name>)
        requires nul(g, e), all_plain(g, st), errs(g, e, st).len() == 0 ensures null(g, e, st)
    {
        let k = choose|k: nat| nul_k(g, e, k);
        assert(setting(g, st, st.len() as int, k));
        null_complete(g, e, st, st.len() as int, k);
    }
    pub proof fn step(g: Rules, e: SpannedExpr, st: Seq<Name>, y: Name)
        requires calls(g, e, y), all_plain(g, st), errs(g, e, st).len() == 0
        ensures fresh(g, st, y)
        decreases e, 0int
    {
        match &e.expr {
            RuleExpr(n, _, _) => {
                if st.contains(y) { let i = choose|i: int| 0 <= i < st.len() && st[i] == y; assert(plain(g[st[i]])); assert(false); }
            },
            ActionExpr(v, _) => step_seq(g, *v, 0, st, y),
            ChoiceExpr(v) => step_any(g, *v, 0, st, y),
            OptionalExpr(x) | PosAssertExpr(x) | NegAssertExpr(x) => step(g, **x, st, y),
            Repeat { inner, bound, sep } => if calls(g, **inner, y) { step(g, **inner, st, y) } else {
                nul_seen(g, **inner, st);
                if let Some(s) = sep { step(g, **s, st, y) }
            },
            MatchStrExpr(x) | QuietExpr(x) => step(g, **x, st, y),
            PrecedenceExpr { levels } => step_levels(g, *levels, 0, st, y),
            _ => {}
        }
    }
    pub proof fn step_seq(g: Rules, v: Vec<TaggedExpr>, i: nat, st: Seq<Name>, y: Name)
        requires calls_seq(g, v, i, y), all_plain(g, st), errs_seq(g, v, i, st).len() == 0 ensures fresh(g, st, y) decreases v, v@.len() - i
    {
        let x = v@[i as int].expr;
        if calls(g, x, y) { step(g, x, st, y) } else { nul_seen(g, x, st); step_seq(g, v, i + 1, st, y) }
    }
    pub proof fn step_any(g: Rules, v: Vec<SpannedExpr>, i: nat, st: Seq<Name>, y: Name)
        requires calls_any(g, v, i, y), all_plain(g, st), errs_each(g, v, i, st).len() == 0 ensures fresh(g, st, y) decreases v, v@.len() - i
    { if calls(g, v@[i as int], y) { step(g, v@[i as int], st, y) } else { step_any(g, v, i + 1, st, y) } }
    pub proof fn step_ops(g: Rules, v: Vec<PrecedenceOperator>, i: nat, st: Seq<Name>, y: Name)
        requires calls_ops(g, v, i, y), all_plain(g, st), errs_ops(g, v, i, st).len() == 0 ensures fresh(g, st, y) decreases v, v@.len() - i
    { if calls_seq(g, v@[i as int].elements, 0, y) { step_seq(g, v@[i as int].elements, 0, st, y) } else { step_ops(g, v, i + 1, st, y) } }
    pub proof fn step_levels(g: Rules, v: Vec<PrecedenceLevel>, i: nat, st: Seq<Name>, y: Name)
        requires calls_levels(g, v, i, y), all_plain(g, st), errs_levels(g, v, i, st).len() == 0 ensures fresh(g, st, y) decreases v, v@.len() - i
    { if calls_ops(g, v@[i as int].operators, 0, y) { step_ops(g, v@[i as int].operators, 0, st, y) } else { step_levels(g, v, i + 1, st, y) } }

    pub proof fn follow(g: Rules, p: Seq<Name>, i: int, st: Seq<Name>)
        requires circular(g, p), all_plain(g, p), 0 <= i < p.len() - 1, st =~= p.subrange(0, i + 1), errs(g, body(g, p[i]), st).len() == 0
        ensures false
        decreases p.len() - i
    {
        assert(all_plain(g, st)) by { assert forall|j: int| 0 <= j < st.len() implies plain(g[#[trigger] st[j]]) by { assert(plain(g[p[j]])); } }
        assert(edge(g, p[i], p[i + 1]));
        step(g, body(g, p[i]), st, p[i + 1]);
        if i + 1 == p.len() - 1 { assert(st[0] == p[i + 1]); assert(false); }
        follow(g, p, i + 1, st.push(p[i + 1]));
    }
    pub proof fn complete(g: Rules, p: Seq<Name>)
        requires circular(g, p), all_plain(g, p)
        ensures errs(g, body(g, p[0]), seq![p[0]]).len() > 0
    { if errs(g, body(g, p[0]), seq![p[0]]).len() == 0 { follow(g, p, 0, seq![p[0]]); } }

    // ---- the guarantees, for grammars without a second rule of the same name
    pub open spec fn distinct(rs: Seq<Rule>) -> bool {
        forall|i: int, j: int| 0 <= i < j < rs.len() ==> (#[trigger] rs[i]).name.name() != (#[trigger] rs[j]).name.name()
    }
    pub open spec fn of(rs: Seq<Rule>) -> Rules<'static> { first_rules(rs, rs.len()) }
    pub proof fn looked_up(rs: Seq<Rule>, i: nat, k: int)
        requires distinct(rs), 0 <= k < i <= rs.len() ensures first_rules(rs, i).dom().contains(rs[k].name.name()), *first_rules(rs, i)[rs[k].name.name()] == rs[k] decreases i
    {
        if k < i - 1 { looked_up(rs, (i - 1) as nat, k); } else {
            let m = first_rules(rs, (i - 1) as nat);
            first_rules_filed(rs, (i - 1) as nat);
            if m.dom().contains(rs[k].name.name()) { let j = choose|j: int| 0 <= j < i - 1 && *m[rs[k].name.name()] == rs[j]; assert(rs[j].name.name() == rs[k].name.name()); assert(false); }
        }
    }
    pub proof fn none_empty(g: Rules, rs: Seq<Rule>, i: nat, k: int)
        requires i <= k < rs.len(), errs(g, rs[k].expr, seq![rs[k].name.name()]).len() > 0 ensures errs_of(g, rs, i).len() > 0 decreases rs.len() - i
    { if i < k { none_empty(g, rs, i + 1, k); } }
    pub proof fn some_from(g: Rules, rs: Seq<Rule>, i: nat, j: int) -> (k: int)
        requires 0 <= j < errs_of(g, rs, i).len()
        ensures i <= k < rs.len(), exists|l: int| 0 <= l < errs(g, rs[k].expr, seq![rs[k].name.name()]).len() && errs(g, rs[k].expr, seq![rs[k].name.name()])[l] == errs_of(g, rs, i)[j]
        decreases rs.len() - i
    {
        let a = errs(g, rs[i as int].expr, seq![rs[i as int].name.name()]);
        if j < a.len() { assert(a[j] == errs_of(g, rs, i)[j]); i as int } else { some_from(g, rs, i + 1, j - a.len()) }
    }
    /// C14: every reported path is a circle from a rule that is not #[cache_left_rec] to itself
    pub proof fn reports_are_circles(rs: Seq<Rule>)
        requires distinct(rs)
        ensures all_good(of(rs), errs_of(of(rs), rs, 0))
    {
        let g = of(rs);
        first_rules_filed(rs, rs.len());
        assert forall|j: int| 0 <= j < errs_of(g, rs, 0).len() implies good(g, #[trigger] errs_of(g, rs, 0)[j].0) by {
            let k = some_from(g, rs, 0, j);
            let n = rs[k].name.name();
            looked_up(rs, rs.len(), k);
            assert(body(g, n) == rs[k].expr);
            assert forall|y: Name| #[trigger] calls(g, rs[k].expr, y) implies edge(g, seq![n].last(), y) by {}
            sound(g, rs[k].expr, seq![n]);
        }
    }
    /// C14: a circle of such rules makes the grammar rejected
    pub proof fn circles_are_reported(rs: Seq<Rule>, p: Seq<Name>)
        requires distinct(rs), circular(of(rs), p), all_plain(of(rs), p)
        ensures errs_of(of(rs), rs, 0).len() > 0
    {
        let g = of(rs);
        first_rules_filed(rs, rs.len());
        complete(g, p);
        assert(edge(g, p[0], p[1]));
        let k = choose|k: int| 0 <= k < rs.len() && *g[p[0]] == rs[k];
        none_empty(g, rs, 0, k);
    }
    /// C14: without #[cache_left_rec] rules, rejected exactly when there is a circle
    pub proof fn exactly(rs: Seq<Rule>)
        requires distinct(rs), forall|n: Name| #[trigger] of(rs).dom().contains(n) ==> plain(of(rs)[n])
        ensures errs_of(of(rs), rs, 0).len() > 0 <==> exists|p: Seq<Name>| circular(of(rs), p)
    {
        let g = of(rs);
        if errs_of(g, rs, 0).len() > 0 { reports_are_circles(rs); assert(good(g, errs_of(g, rs, 0)[0].0)); }
        if exists|p: Seq<Name>| circular(g, p) {
            let p = choose|p: Seq<Name>| circular(g, p);
            assert forall|i: int| 0 <= i < p.len() implies plain(g[#[trigger] p[i]]) by {
                if i < p.len() - 1 { assert(edge(g, p[i], p[i + 1])); } else { assert(edge(g, p[0], p[1])); }
            }
            circles_are_reported(rs, p);
        }
    }

    // ---- loops
    pub proof fn nullability_exact(rs: Seq<Rule>, i: nat)
        requires distinct(rs), i <= rs.len()
        ensures nullability(of(rs), rs, i).dom() =~= first_rules(rs, i).dom(),
            forall|n: Name| #[trigger] nullability(of(rs), rs, i).dom().contains(n) ==> nullability(of(rs), rs, i)[n] == nul(of(rs), body(of(rs), n)),
        decreases i
    {
        if i > 0 {
            nullability_exact(rs, (i - 1) as nat);
            looked_up(rs, rs.len(), i - 1);
            null_exact(of(rs), rs[i - 1].name.name());
        }
    }
    pub open spec fn said(g: Rules, m: Map<Name, bool>) -> bool {
        m.dom() =~= g.dom() && forall|n: Name| #[trigger] m.dom().contains(n) ==> m[n] == nul(g, body(g, n))
    }
    pub proof fn nul_rule(g: Rules, e: SpannedExpr)
        requires e.expr is RuleExpr
        ensures nul(g, e) == (g.dom().contains(e.expr->RuleExpr_0.name()) && nul(g, body(g, e.expr->RuleExpr_0.name())))
    {
        let n = e.expr->RuleExpr_0.name();
        if nul(g, e) { let k = choose|k: nat| nul_k(g, e, k); assert(nul_k(g, body(g, n), (k - 1) as nat)); }
        if g.dom().contains(n) && nul(g, body(g, n)) { let k = choose|k: nat| nul_k(g, body(g, n), k); assert(nul_k(g, e, k + 1)); }
    }
    /// C15: what the loop check takes for possibly empty is exactly what can match without consuming
    pub proof fn lnull_exact(g: Rules, m: Map<Name, bool>, e: SpannedExpr)
        requires said(g, m) ensures lnull(m, e) == nul(g, e) decreases e, 0int
    {
        match &e.expr {
            RuleExpr(n, _, _) => nul_rule(g, e),
            ActionExpr(v, _) => { lnull_seq_exact(g, m, *v, 0); if nul(g, e) { let k = choose|k: nat| nul_k(g, e, k); assert(nul_seq(g, *v, 0, k)); } if lnull(m, e) { let k = choose|k: nat| nul_seq(g, *v, 0, k); assert(nul_k(g, e, k)); } },
            ChoiceExpr(v) => { lnull_any_exact(g, m, *v, 0); if nul(g, e) { let k = choose|k: nat| nul_k(g, e, k); assert(nul_any(g, *v, 0, k)); } if lnull(m, e) { let k = choose|k: nat| nul_any(g, *v, 0, k); assert(nul_k(g, e, k)); } },
            Repeat { inner, bound, sep } => {
                lnull_exact(g, m, **inner);
                if nul(g, e) { let k = choose|k: nat| nul_k(g, e, k); assert(nul_k(g, **inner, k) || !lower(*bound)); }
                if lnull(m, e) { if lower(*bound) { let k = choose|k: nat| nul_k(g, **inner, k); assert(nul_k(g, e, k)); } else { assert(nul_k(g, e, 0)); } }
            },
            MatchStrExpr(x) | QuietExpr(x) => {
                lnull_exact(g, m, **x);
                if nul(g, e) { let k = choose|k: nat| nul_k(g, e, k); assert(nul_k(g, **x, k)); }
                if lnull(m, e) { let k = choose|k: nat| nul_k(g, **x, k); assert(nul_k(g, e, k)); }
            },
            PrecedenceExpr { levels } => { lnull_levels_exact(g, m, *levels, 0); if nul(g, e) { let k = choose|k: nat| nul_k(g, e, k); assert(nul_levels(g, *levels, 0, k)); } if lnull(m, e) { let k = choose|k: nat| nul_levels(g, *levels, 0, k); assert(nul_k(g, e, k)); } },
            OptionalExpr(_) | PosAssertExpr(_) | NegAssertExpr(_) | PositionExpr => { assert(nul_k(g, e, 0)); },
            _ => { if nul(g, e) { let k = choose|k: nat| nul_k(g, e, k); assert(false); } },
        }
    }
    pub proof fn lnull_seq_exact(g: Rules, m: Map<Name, bool>, v: Vec<TaggedExpr>, i: nat)
        requires said(g, m) ensures lnull_seq(m, v, i) == (exists|k: nat| nul_seq(g, v, i, k)) decreases v, v@.len() - i
    {
        if i >= v@.len() { assert(nul_seq(g, v, i, 0)); } else {
            let x = v@[i as int].expr;
            lnull_exact(g, m, x);
            lnull_seq_exact(g, m, v, i + 1);
            let j = i + 1;
            if exists|k: nat| nul_seq(g, v, i, k) { let k = choose|k: nat| nul_seq(g, v, i, k); assert(nul_k(g, x, k)); assert(nul_seq(g, v, i + 1, k)); }
            if lnull_seq(m, v, i) {
                let a = choose|k: nat| nul_k(g, x, k);
                let b = choose|k: nat| nul_seq(g, v, j, k);
                let c = if a > b { a } else { b };
                more(g, x, a, c);
                more_seq(g, v, i + 1, b, c);
                assert(nul_seq(g, v, i, c));
            }
        }
    }
    pub proof fn lnull_any_exact(g: Rules, m: Map<Name, bool>, v: Vec<SpannedExpr>, i: nat)
        requires said(g, m) ensures lnull_any(m, v, i) == (exists|k: nat| nul_any(g, v, i, k)) decreases v, v@.len() - i
    {
        if i < v@.len() {
            let x = v@[i as int];
            lnull_exact(g, m, x);
            lnull_any_exact(g, m, v, i + 1);
            let j = i + 1;
            if exists|k: nat| nul_any(g, v, i, k) { let k = choose|k: nat| nul_any(g, v, i, k); assert(nul_k(g, x, k) || nul_any(g, v, i + 1, k)); }
            if lnull(m, x) { let k = choose|k: nat| nul_k(g, x, k); assert(nul_any(g, v, i, k)); }
            if lnull_any(m, v, i + 1) { let k = choose|k: nat| nul_any(g, v, j, k); assert(nul_any(g, v, i, k)); }
        }
    }
    pub proof fn lnull_ops_exact(g: Rules, m: Map<Name, bool>, v: Vec<PrecedenceOperator>, i: nat)
        requires said(g, m) ensures lnull_ops(m, v, i) == (exists|k: nat| nul_ops(g, v, i, k)) decreases v, v@.len() - i
    {
        if i < v@.len() {
            let x = v@[i as int].elements;
            lnull_seq_exact(g, m, x, 0);
            lnull_ops_exact(g, m, v, i + 1);
            let j = i + 1;
            if exists|k: nat| nul_ops(g, v, i, k) { let k = choose|k: nat| nul_ops(g, v, i, k); assert(nul_seq(g, x, 0, k) || nul_ops(g, v, i + 1, k)); }
            if lnull_seq(m, x, 0) { let k = choose|k: nat| nul_seq(g, x, 0, k); assert(nul_ops(g, v, i, k)); }
            if lnull_ops(m, v, i + 1) { let k = choose|k: nat| nul_ops(g, v, j, k); assert(nul_ops(g, v, i, k)); }
        }
    }
    pub proof fn lnull_levels_exact(g: Rules, m: Map<Name, bool>, v: Vec<PrecedenceLevel>, i: nat)
        requires said(g, m) ensures lnull_levels(m, v, i) == (exists|k: nat| nul_levels(g, v, i, k)) decreases v, v@.len() - i
    {
        if i < v@.len() {
            let x = v@[i as int].operators;
            lnull_ops_exact(g, m, x, 0);
            lnull_levels_exact(g, m, v, i + 1);
            let j = i + 1;
            if exists|k: nat| nul_levels(g, v, i, k) { let k = choose|k: nat| nul_levels(g, v, i, k); assert(nul_ops(g, x, 0, k) || nul_levels(g, v, i + 1, k)); }
            if lnull_ops(m, x, 0) { let k = choose|k: nat| nul_ops(g, x, 0, k); assert(nul_levels(g, v, i, k)); }
            if lnull_levels(m, v, i + 1) { let k = choose|k: nat| nul_levels(g, v, j, k); assert(nul_levels(g, v, i, k)); }
        }
    }
}
