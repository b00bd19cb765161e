pub mod analysis {
    use vstd::prelude::*;
    use crate::proc_macro2::Span;
    use crate::stdmap::HashMap;
    use crate::stdx::names;
    use crate::ast::*;
    use crate::ast::Expr::*;
    //@@item src=peg-macros/analysis.rs sel="struct GrammarAnalysis" pub
    //@@item src=peg-macros/analysis.rs sel="struct LeftRecursionVisitor" pub
    //@@item src=peg-macros/analysis.rs sel="struct LeftRecursionError" pub
    //@@item src=peg-macros/analysis.rs sel="struct LoopNullabilityVisitor" pub
    //@@item src=peg-macros/analysis.rs sel="struct LoopNullabilityError" pub

    pub type Name = Seq<char>;
    pub type Rules<'a> = Map<Name, &'a Rule>;
    /// rules not being evaluated
    pub open spec fn left(g: Rules, st: Seq<Name>) -> nat { g.dom().difference(st.to_set()).len() }
    pub open spec fn body(g: Rules, n: Name) -> SpannedExpr { g[n].expr }
    pub open spec fn plain(r: &Rule) -> bool { !(r.cache is Some && r.cache->0 is Recursive) }

    /// every rule is filed under its name
    pub open spec fn filed(g: Rules) -> bool { forall|n: Name| #[trigger] g.dom().contains(n) ==> g[n].name.name() == n }

    pub proof fn left_less(g: Rules, st: Seq<Name>, n: Name)
        requires g.dom().contains(n), !st.contains(n)
        ensures left(g, st.push(n)) < left(g, st)
    {
        assert(st.push(n).to_set() =~= st.to_set().insert(n)) by {
            assert forall|x: Name| #[trigger] st.push(n).contains(x) <==> st.contains(x) || x == n by {
                if st.contains(x) { let i = choose|i: int| 0 <= i < st.len() && st[i] == x; assert(st.push(n)[i] == x); }
                assert(st.push(n)[st.len() as int] == n);
            }
        }
        let a = g.dom().difference(st.to_set());
        assert(g.dom().difference(st.push(n).to_set()) =~= a.remove(n));
        assert(a.contains(n));
    }

    // ---- can match without consuming; a call to a rule in st, which is being evaluated, counts as consuming
    pub open spec fn null(g: Rules, e: SpannedExpr, st: Seq<Name>) -> bool decreases left(g, st), e, 0int via null_d {
        match e.expr {
            RuleExpr(n, _, _) => g.dom().contains(n.name()) && !st.contains(n.name()) && null(g, body(g, n.name()), st.push(n.name())),
            ActionExpr(v, _) => null_seq(g, v, 0, st),
            ChoiceExpr(v) => null_any(g, v, 0, st),
            OptionalExpr(_) | PosAssertExpr(_) | NegAssertExpr(_) | PositionExpr => true,
            Repeat { inner, bound, sep } => null(g, *inner, st) || !lower(bound),
            MatchStrExpr(x) | QuietExpr(x) => null(g, *x, st),
            PrecedenceExpr { levels } => null_levels(g, levels, 0, st),
            LiteralExpr(_) | PatternExpr(_) | MethodExpr(_, _) | CustomExpr(_) | FailExpr(_) | MarkerExpr(_) => false,
        }
    }
    #[via_fn]
    proof fn null_d(g: Rules, e: SpannedExpr, st: Seq<Name>) {
        if let RuleExpr(n, _, _) = e.expr { if g.dom().contains(n.name()) && !st.contains(n.name()) { left_less(g, st, n.name()); } }
    }
    pub open spec fn null_seq(g: Rules, v: Vec<TaggedExpr>, i: nat, st: Seq<Name>) -> bool decreases left(g, st), v, v@.len() - i {
        i >= v@.len() || (null(g, v@[i as int].expr, st) && null_seq(g, v, i + 1, st))
    }
    pub open spec fn null_any(g: Rules, v: Vec<SpannedExpr>, i: nat, st: Seq<Name>) -> bool decreases left(g, st), v, v@.len() - i {
        i < v@.len() && (null(g, v@[i as int], st) || null_any(g, v, i + 1, st))
    }
    pub open spec fn null_ops(g: Rules, v: Vec<PrecedenceOperator>, i: nat, st: Seq<Name>) -> bool decreases left(g, st), v, v@.len() - i {
        i < v@.len() && (null_seq(g, v@[i as int].elements, 0, st) || null_ops(g, v, i + 1, st))
    }
    pub open spec fn null_levels(g: Rules, v: Vec<PrecedenceLevel>, i: nat, st: Seq<Name>) -> bool decreases left(g, st), v, v@.len() - i {
        i < v@.len() && (null_ops(g, v@[i as int].operators, 0, st) || null_levels(g, v, i + 1, st))
    }

    // ---- what the walk reports: (path, where)
    pub type Err = (Seq<Name>, Span);
    pub open spec fn first_at(st: Seq<Name>, n: Name) -> int decreases st.len() {
        if st.len() == 0 { 0 } else if st[0] == n { 0 } else { 1 + first_at(st.drop_first(), n) }
    }
    pub open spec fn circle(st: Seq<Name>, n: Name) -> Seq<Name> { st.subrange(first_at(st, n), st.len() as int).push(n) }
    pub open spec fn errs(g: Rules, e: SpannedExpr, st: Seq<Name>) -> Seq<Err> decreases left(g, st), e, 0int via errs_d {
        match e.expr {
            RuleExpr(n, _, _) =>
                if !g.dom().contains(n.name()) { Seq::empty() }
                else if st.contains(n.name()) { if plain(g[n.name()]) { seq![(circle(st, n.name()), n.at())] } else { Seq::empty() } }
                else { errs(g, body(g, n.name()), st.push(n.name())) },
            ActionExpr(v, _) => errs_seq(g, v, 0, st),
            ChoiceExpr(v) => errs_each(g, v, 0, st),
            OptionalExpr(x) | PosAssertExpr(x) | NegAssertExpr(x) => errs(g, *x, st),
            // the separator can be reached without consuming when an item can be empty
            Repeat { inner, bound, sep } => errs(g, *inner, st) + (match sep { Some(s) => if null(g, *inner, st) { errs(g, *s, st) } else { Seq::empty() }, None => Seq::empty() }),
            MatchStrExpr(x) | QuietExpr(x) => errs(g, *x, st),
            PrecedenceExpr { levels } => errs_levels(g, levels, 0, st),
            LiteralExpr(_) | PatternExpr(_) | MethodExpr(_, _) | CustomExpr(_) | FailExpr(_) | MarkerExpr(_) | PositionExpr => Seq::empty(),
        }
    }
    #[via_fn]
    proof fn errs_d(g: Rules, e: SpannedExpr, st: Seq<Name>) {
        if let RuleExpr(n, _, _) = e.expr { if g.dom().contains(n.name()) && !st.contains(n.name()) { left_less(g, st, n.name()); } }
    }
    pub open spec fn errs_seq(g: Rules, v: Vec<TaggedExpr>, i: nat, st: Seq<Name>) -> Seq<Err> decreases left(g, st), v, v@.len() - i {
        if i >= v@.len() { Seq::empty() }
        else { errs(g, v@[i as int].expr, st) + if null(g, v@[i as int].expr, st) { errs_seq(g, v, i + 1, st) } else { Seq::empty() } }
    }
    pub open spec fn errs_each(g: Rules, v: Vec<SpannedExpr>, i: nat, st: Seq<Name>) -> Seq<Err> decreases left(g, st), v, v@.len() - i {
        if i >= v@.len() { Seq::empty() } else { errs(g, v@[i as int], st) + errs_each(g, v, i + 1, st) }
    }
    pub open spec fn errs_ops(g: Rules, v: Vec<PrecedenceOperator>, i: nat, st: Seq<Name>) -> Seq<Err> decreases left(g, st), v, v@.len() - i {
        if i >= v@.len() { Seq::empty() } else { errs_seq(g, v@[i as int].elements, 0, st) + errs_ops(g, v, i + 1, st) }
    }
    pub open spec fn errs_levels(g: Rules, v: Vec<PrecedenceLevel>, i: nat, st: Seq<Name>) -> Seq<Err> decreases left(g, st), v, v@.len() - i {
        if i >= v@.len() { Seq::empty() } else { errs_ops(g, v@[i as int].operators, 0, st) + errs_levels(g, v, i + 1, st) }
    }

    pub open spec fn shown(e: LeftRecursionError) -> Err { (names(e.path@), e.span) }
    pub open spec fn all_shown(s: Seq<LeftRecursionError>) -> Seq<Err> { s.map_values(|e: LeftRecursionError| shown(e)) }
    pub broadcast proof fn errs_add(s: Seq<LeftRecursionError>, x: LeftRecursionError)
        ensures #[trigger] all_shown(s.push(x)) == all_shown(s).push(shown(x))
    { assert(all_shown(s.push(x)) =~= all_shown(s).push(shown(x))); }
    pub broadcast proof fn first_found(st: Seq<Name>, n: Name, i: int)
        requires 0 <= i < st.len(), #[trigger] st.subrange(i, st.len() as int).push(n) == st.subrange(i, st.len() as int).push(n), st[i] == n, forall|j: int| 0 <= j < i ==> st[j] != n
        ensures first_at(st, n) == i, st.contains(n)
    { first_is(st, n, i); }
    pub proof fn first_is(st: Seq<Name>, n: Name, i: int)
        requires 0 <= i < st.len(), st[i] == n, forall|j: int| 0 <= j < i ==> st[j] != n
        ensures first_at(st, n) == i
        decreases st.len()
    {
        if i > 0 { assert(st[0] != n); assert forall|j: int| 0 <= j < i - 1 implies st.drop_first()[j] != n by { assert(st[j + 1] != n); } first_is(st.drop_first(), n, i - 1); }
    }

    impl LeftRecursionError {
        /// the rules of the circle, in order
        //@@fn src=peg-macros/analysis.rs sel="LeftRecursionError::msg" vis redirect="&join"
            ensures crate::stdx::has(r@, crate::stdx::joined(names(self.path@), " -> "@))
        //@@pre
            broadcast use crate::stdx::group_has;
        //@@end
    }
    impl<'a> LeftRecursionVisitor<'a> {
        pub open spec fn same(&self, o: &Self) -> bool { self.stack@.len() == o.stack@.len() && names(self.stack@) == names(o.stack@) && self.rules == o.rules }
        pub open spec fn found(&self, o: &Self, new: Seq<Err>) -> bool { all_shown(self.errors@) =~= all_shown(o.errors@) + new }
        //@@fn src=peg-macros/analysis.rs sel="LeftRecursionVisitor<'a>::walk_rule" vis
            requires filed(old(self).rules@), !names(old(self).stack@).contains(rule.name.name()), old(self).rules@.dom().contains(rule.name.name()),
            ensures final(self).same(old(self)),
                r == null(old(self).rules@, rule.expr, names(old(self).stack@).push(rule.name.name())),
                final(self).found(old(self), errs(old(self).rules@, rule.expr, names(old(self).stack@).push(rule.name.name()))),
            decreases left(old(self).rules@, names(old(self).stack@).push(rule.name.name())), rule.expr, 1int
        //@@pre
            broadcast use crate::stdx::group_names;
            let ghost st = names(self.stack@);
            proof { left_less(self.rules@, st, rule.name.name()); assert(st.push(rule.name.name()).drop_last() =~= st); }
        //@@end
        //@@fn src=peg-macros/analysis.rs sel="LeftRecursionVisitor<'a>::walk_expr" vis bools redirect="iter.position,from,to_vec,&clone"
            requires filed(old(self).rules@),
            ensures final(self).same(old(self)),
                r == null(old(self).rules@, *this_expr, names(old(self).stack@)),
                final(self).found(old(self), errs(old(self).rules@, *this_expr, names(old(self).stack@))),
            decreases left(old(self).rules@, names(old(self).stack@)), *this_expr, 0int
        //@@closure 0
            -> (b: bool) ensures b == (caller_name@ == name@)
        //@@pre
            broadcast use {crate::stdx::group_names, errs_add, first_found};
            let ghost g = self.rules@;
            let ghost st = names(self.stack@);
            let ghost o = all_shown(self.errors@);
            proof { if let RuleExpr(n, _, _) = &this_expr.expr { if g.dom().contains(n.name()) && !st.contains(n.name()) { left_less(g, st, n.name()); } } }
        //@@loop 0
            invariant filed(old(self).rules@), self.same(old(self)), g == self.rules@, st == names(self.stack@), o == all_shown(old(self).errors@),
                __it.seq() == elems@.map_values(|x: TaggedExpr| &x), decreases_to!(this_expr => elems), left(g, st) == left(old(self).rules@, names(old(self).stack@)),
                null(g, *this_expr, st) == null_seq(g, *elems, __it.index() as nat, st),
                all_shown(self.errors@) + errs_seq(g, *elems, __it.index() as nat, st) =~= o + errs(g, *this_expr, st),
        //@@loop 1
            invariant filed(old(self).rules@), self.same(old(self)), g == self.rules@, st == names(self.stack@), o == all_shown(old(self).errors@),
                __it.seq() == choices@.map_values(|x: SpannedExpr| &x), decreases_to!(this_expr => choices), left(g, st) == left(old(self).rules@, names(old(self).stack@)),
                null(g, *this_expr, st) == (nullable || null_any(g, *choices, __it.index() as nat, st)),
                all_shown(self.errors@) + errs_each(g, *choices, __it.index() as nat, st) =~= o + errs(g, *this_expr, st),
        //@@loop 2
            invariant filed(old(self).rules@), self.same(old(self)), g == self.rules@, st == names(self.stack@), o == all_shown(old(self).errors@),
                __it.seq() == levels@.map_values(|x: PrecedenceLevel| &x), decreases_to!(this_expr => levels), left(g, st) == left(old(self).rules@, names(old(self).stack@)),
                null(g, *this_expr, st) == (nullable || null_levels(g, *levels, __it.index() as nat, st)),
                all_shown(self.errors@) + errs_levels(g, *levels, __it.index() as nat, st) =~= o + errs(g, *this_expr, st),
        //@@loopghost 3
            let ghost rn = null(g, *this_expr, st);
            let ghost ni = nullable;
            let ghost o3 = all_shown(self.errors@);
        //@@loop 3
            invariant filed(old(self).rules@), self.same(old(self)), g == self.rules@, st == names(self.stack@),
                __it.seq() == level.operators@.map_values(|x: PrecedenceOperator| &x), decreases_to!(this_expr => level.operators), left(g, st) == left(old(self).rules@, names(old(self).stack@)),
                (ni || null_ops(g, level.operators, 0, st)) == (nullable || null_ops(g, level.operators, __it.index() as nat, st)),
                all_shown(self.errors@) + errs_ops(g, level.operators, __it.index() as nat, st) =~= o3 + errs_ops(g, level.operators, 0, st),
        //@@loopghost 4
            let ghost o4 = all_shown(self.errors@);
        //@@loop 4
            invariant_except_break operator_nullable, null_seq(g, operator.elements, 0, st) == null_seq(g, operator.elements, __it.index() as nat, st),
                all_shown(self.errors@) + errs_seq(g, operator.elements, __it.index() as nat, st) =~= o4 + errs_seq(g, operator.elements, 0, st),
            invariant filed(old(self).rules@), self.same(old(self)), g == self.rules@, st == names(self.stack@),
                __it.seq() == operator.elements@.map_values(|x: TaggedExpr| &x), decreases_to!(this_expr => operator.elements), left(g, st) == left(old(self).rules@, names(old(self).stack@)),
            ensures operator_nullable == null_seq(g, operator.elements, 0, st),
                all_shown(self.errors@) =~= o4 + errs_seq(g, operator.elements, 0, st),
        //@@end
        //@@fn src=peg-macros/analysis.rs sel="LeftRecursionVisitor<'a>::check" vis redirect="entry.or_insert"
            requires filed(rules@), forall|k: int| 0 <= k < rules_of(grammar.items@).len() ==> rules@.dom().contains((#[trigger] rules_of(grammar.items@)[k]).name.name()),
            ensures all_shown(r.1@) =~= errs_of(rules@, rules_of(grammar.items@), 0),
                r.0@ =~= nullability(rules@, rules_of(grammar.items@), rules_of(grammar.items@).len()),
        //@@pre
            broadcast use crate::stdx::group_names;
            let ghost rs = rules_of(grammar.items@);
        //@@loop 0
            invariant visitor.rules == rules, filed(rules@), visitor.stack@.len() == 0, rs == rules_of(grammar.items@),
                __it.seq() == rs.map_values(|x: Rule| &x),
                forall|k: int| 0 <= k < rs.len() ==> rules@.dom().contains((#[trigger] rs[k]).name.name()),
                all_shown(visitor.errors@) + errs_of(rules@, rs, __it.index() as nat) =~= errs_of(rules@, rs, 0),
                rule_nullability@ =~= nullability(rules@, rs, __it.index() as nat),
        //@@loopbody 0
            let ghost __n = rs[__it.index()].name.name();
            proof { assert(names(visitor.stack@) =~= Seq::<Name>::empty()); assert(names(visitor.stack@).push(__n) =~= seq![__n]); }
        //@@end
    }
    /// every rule is walked on its own
    pub open spec fn errs_of(g: Rules, rs: Seq<Rule>, i: nat) -> Seq<Err> decreases rs.len() - i {
        if i >= rs.len() { Seq::empty() } else { errs(g, rs[i as int].expr, seq![rs[i as int].name.name()]) + errs_of(g, rs, i + 1) }
    }
    /// of the first i rules; the first of a name counts
    pub open spec fn nullability(g: Rules, rs: Seq<Rule>, i: nat) -> Map<Name, bool> decreases i {
        if i == 0 || i > rs.len() { Map::empty() } else {
            let (m, n) = (nullability(g, rs, (i - 1) as nat), rs[i - 1].name.name());
            if m.dom().contains(n) { m } else { m.insert(n, null(g, rs[i - 1].expr, seq![n])) }
        }
    }
    pub open spec fn first_rules<'a>(rs: Seq<Rule>, i: nat) -> Map<Name, &'a Rule> decreases i {
        if i == 0 || i > rs.len() { Map::empty() } else {
            let (m, n) = (first_rules(rs, (i - 1) as nat), rs[i - 1].name.name());
            if m.dom().contains(n) { m } else { m.insert(n, &rs[i - 1]) }
        }
    }
    pub proof fn first_rules_filed(rs: Seq<Rule>, i: nat)
        requires i <= rs.len()
        ensures filed(first_rules(rs, i)), forall|k: int| 0 <= k < i ==> first_rules(rs, i).dom().contains((#[trigger] rs[k]).name.name()),
            forall|n: Name| #[trigger] first_rules(rs, i).dom().contains(n) ==> exists|k: int| 0 <= k < i && *first_rules(rs, i)[n] == rs[k],
        decreases i
    {
        if i > 0 {
            first_rules_filed(rs, (i - 1) as nat);
            let m = first_rules(rs, (i - 1) as nat);
            let n = rs[i - 1].name.name();
            assert forall|x: Name| #[trigger] first_rules(rs, i).dom().contains(x) implies exists|k: int| 0 <= k < i && *first_rules(rs, i)[x] == rs[k] by {
                if m.dom().contains(x) {
                    let k = choose|k: int| 0 <= k < i - 1 && *m[x] == rs[k];
                    assert(*first_rules(rs, i)[x] == rs[k]);
                } else {
                    assert(*first_rules(rs, i)[x] == rs[i - 1]);
                }
            }
        }
    }

    // ---- loops that need not consume: nul tells which rules can match without consuming
    pub open spec fn lnull(nul: Map<Name, bool>, e: SpannedExpr) -> bool decreases e, 0int {
        match e.expr {
            RuleExpr(n, _, _) => nul.dom().contains(n.name()) && nul[n.name()],
            ActionExpr(v, _) => lnull_seq(nul, v, 0),
            ChoiceExpr(v) => lnull_any(nul, v, 0),
            OptionalExpr(_) | PosAssertExpr(_) | NegAssertExpr(_) | PositionExpr => true,
            Repeat { inner, bound, sep } => lnull(nul, *inner) || !lower(bound),
            MatchStrExpr(x) | QuietExpr(x) => lnull(nul, *x),
            PrecedenceExpr { levels } => lnull_levels(nul, levels, 0),
            LiteralExpr(_) | PatternExpr(_) | MethodExpr(_, _) | CustomExpr(_) | FailExpr(_) | MarkerExpr(_) => false,
        }
    }
    pub open spec fn lnull_seq(nul: Map<Name, bool>, v: Vec<TaggedExpr>, i: nat) -> bool decreases v, v@.len() - i {
        i >= v@.len() || (lnull(nul, v@[i as int].expr) && lnull_seq(nul, v, i + 1))
    }
    pub open spec fn lnull_any(nul: Map<Name, bool>, v: Vec<SpannedExpr>, i: nat) -> bool decreases v, v@.len() - i {
        i < v@.len() && (lnull(nul, v@[i as int]) || lnull_any(nul, v, i + 1))
    }
    pub open spec fn lnull_ops(nul: Map<Name, bool>, v: Vec<PrecedenceOperator>, i: nat) -> bool decreases v, v@.len() - i {
        i < v@.len() && (lnull_seq(nul, v@[i as int].elements, 0) || lnull_ops(nul, v, i + 1))
    }
    pub open spec fn lnull_levels(nul: Map<Name, bool>, v: Vec<PrecedenceLevel>, i: nat) -> bool decreases v, v@.len() - i {
        i < v@.len() && (lnull_ops(nul, v@[i as int].operators, 0) || lnull_levels(nul, v, i + 1))
    }
    /// the places of all loops without upper bound whose item and separator can both match nothing
    pub open spec fn loops(nul: Map<Name, bool>, e: SpannedExpr) -> Seq<Span> decreases e, 0int {
        match e.expr {
            RuleExpr(n, _, args) => loops_args(nul, args, 0),
            ActionExpr(v, _) => loops_seq(nul, v, 0),
            ChoiceExpr(v) => loops_each(nul, v, 0),
            OptionalExpr(x) | PosAssertExpr(x) | NegAssertExpr(x) => loops(nul, *x),
            Repeat { inner, bound, sep } => loops(nul, *inner) + (match sep { Some(s) => loops(nul, *s), None => Seq::empty() })
                + if lnull(nul, *inner) && (match sep { Some(s) => lnull(nul, *s), None => true }) && !upper(bound) { seq![e.span] } else { Seq::empty() },
            MatchStrExpr(x) | QuietExpr(x) => loops(nul, *x),
            PrecedenceExpr { levels } => loops_levels(nul, levels, 0),
            LiteralExpr(_) | PatternExpr(_) | MethodExpr(_, _) | CustomExpr(_) | FailExpr(_) | MarkerExpr(_) | PositionExpr => Seq::empty(),
        }
    }
    pub open spec fn loops_args(nul: Map<Name, bool>, v: Vec<RuleArg>, i: nat) -> Seq<Span> decreases v, v@.len() - i {
        if i >= v@.len() { Seq::empty() } else { (match v@[i as int] { RuleArg::Peg(x) => loops(nul, x), _ => Seq::empty() }) + loops_args(nul, v, i + 1) }
    }
    pub open spec fn loops_seq(nul: Map<Name, bool>, v: Vec<TaggedExpr>, i: nat) -> Seq<Span> decreases v, v@.len() - i {
        if i >= v@.len() { Seq::empty() } else { loops(nul, v@[i as int].expr) + loops_seq(nul, v, i + 1) }
    }
    pub open spec fn loops_each(nul: Map<Name, bool>, v: Vec<SpannedExpr>, i: nat) -> Seq<Span> decreases v, v@.len() - i {
        if i >= v@.len() { Seq::empty() } else { loops(nul, v@[i as int]) + loops_each(nul, v, i + 1) }
    }
    pub open spec fn loops_ops(nul: Map<Name, bool>, v: Vec<PrecedenceOperator>, i: nat) -> Seq<Span> decreases v, v@.len() - i {
        if i >= v@.len() { Seq::empty() } else { loops_seq(nul, v@[i as int].elements, 0) + loops_ops(nul, v, i + 1) }
    }
    pub open spec fn loops_levels(nul: Map<Name, bool>, v: Vec<PrecedenceLevel>, i: nat) -> Seq<Span> decreases v, v@.len() - i {
        if i >= v@.len() { Seq::empty() } else { loops_ops(nul, v@[i as int].operators, 0) + loops_levels(nul, v, i + 1) }
    }
    pub open spec fn loops_of(nul: Map<Name, bool>, rs: Seq<Rule>, i: nat) -> Seq<Span> decreases rs.len() - i {
        if i >= rs.len() { Seq::empty() } else { loops(nul, rs[i as int].expr) + loops_of(nul, rs, i + 1) }
    }
    pub open spec fn places(s: Seq<LoopNullabilityError>) -> Seq<Span> { s.map_values(|e: LoopNullabilityError| e.span) }
    pub broadcast proof fn places_add(s: Seq<LoopNullabilityError>, x: LoopNullabilityError)
        ensures #[trigger] places(s.push(x)) == places(s).push(x.span)
    { assert(places(s.push(x)) =~= places(s).push(x.span)); }

    impl<'a> LoopNullabilityVisitor<'a> {
        //@@fn src=peg-macros/analysis.rs sel="LoopNullabilityVisitor<'a>::check" vis
            ensures places(r@) =~= loops_of(rule_nullability@, rules_of(grammar.items@), 0)
        //@@pre
            let ghost rs = rules_of(grammar.items@);
        //@@loop 0
            invariant visitor.rule_nullability == rule_nullability, rs == rules_of(grammar.items@), __it.seq() == rs.map_values(|x: Rule| &x),
                places(visitor.errors@) + loops_of(rule_nullability@, rs, __it.index() as nat) =~= loops_of(rule_nullability@, rs, 0),
        //@@end
        //@@fn src=peg-macros/analysis.rs sel="LoopNullabilityVisitor<'a>::walk_expr" vis bools
            ensures final(self).rule_nullability == old(self).rule_nullability,
                r == lnull(old(self).rule_nullability@, *this_expr),
                places(final(self).errors@) =~= places(old(self).errors@) + loops(old(self).rule_nullability@, *this_expr),
            decreases *this_expr
        //@@pre
            broadcast use places_add;
            let ghost nul = self.rule_nullability@;
            let ghost o = places(self.errors@);
        //@@loop 0
            invariant self.rule_nullability == old(self).rule_nullability, nul == self.rule_nullability@,
                __it.seq() == rule_args@.map_values(|x: RuleArg| &x), decreases_to!(this_expr => rule_args),
                places(self.errors@) + loops_args(nul, *rule_args, __it.index() as nat) =~= o + loops(nul, *this_expr),
        //@@loop 1
            invariant self.rule_nullability == old(self).rule_nullability, nul == self.rule_nullability@,
                __it.seq() == elems@.map_values(|x: TaggedExpr| &x), decreases_to!(this_expr => elems),
                lnull(nul, *this_expr) == (nullable && lnull_seq(nul, *elems, __it.index() as nat)),
                places(self.errors@) + loops_seq(nul, *elems, __it.index() as nat) =~= o + loops(nul, *this_expr),
        //@@loop 2
            invariant self.rule_nullability == old(self).rule_nullability, nul == self.rule_nullability@,
                __it.seq() == choices@.map_values(|x: SpannedExpr| &x), decreases_to!(this_expr => choices),
                lnull(nul, *this_expr) == (nullable || lnull_any(nul, *choices, __it.index() as nat)),
                places(self.errors@) + loops_each(nul, *choices, __it.index() as nat) =~= o + loops(nul, *this_expr),
        //@@loop 3
            invariant self.rule_nullability == old(self).rule_nullability, nul == self.rule_nullability@,
                __it.seq() == levels@.map_values(|x: PrecedenceLevel| &x), decreases_to!(this_expr => levels),
                lnull(nul, *this_expr) == (nullable || lnull_levels(nul, *levels, __it.index() as nat)),
                places(self.errors@) + loops_levels(nul, *levels, __it.index() as nat) =~= o + loops(nul, *this_expr),
        //@@loopghost 4
            let ghost ni = nullable;
            let ghost o3 = places(self.errors@);
        //@@loop 4
            invariant self.rule_nullability == old(self).rule_nullability, nul == self.rule_nullability@,
                __it.seq() == level.operators@.map_values(|x: PrecedenceOperator| &x), decreases_to!(this_expr => level.operators),
                (ni || lnull_ops(nul, level.operators, 0)) == (nullable || lnull_ops(nul, level.operators, __it.index() as nat)),
                places(self.errors@) + loops_ops(nul, level.operators, __it.index() as nat) =~= o3 + loops_ops(nul, level.operators, 0),
        //@@loopghost 5
            let ghost o4 = places(self.errors@);
        //@@loop 5
            invariant self.rule_nullability == old(self).rule_nullability, nul == self.rule_nullability@,
                __it.seq() == operator.elements@.map_values(|x: TaggedExpr| &x), decreases_to!(this_expr => operator.elements),
                lnull_seq(nul, operator.elements, 0) == (operator_nullable && lnull_seq(nul, operator.elements, __it.index() as nat)),
                places(self.errors@) + loops_seq(nul, operator.elements, __it.index() as nat) =~= o4 + loops_seq(nul, operator.elements, 0),
        //@@end
    }

    //@@fn src=peg-macros/analysis.rs sel="fn check" vis redirect="entry.or_insert"
        ensures ({
            let rs = rules_of(grammar.items@);
            let g = first_rules(rs, rs.len());
            &&& r.rules@ =~= g
            &&& all_shown(r.left_recursion@) =~= errs_of(g, rs, 0)
            &&& places(r.loop_nullability@) =~= loops_of(nullability(g, rs, rs.len()), rs, 0)
        })
    //@@pre
        let ghost rs = rules_of(grammar.items@);
        proof { first_rules_filed(rs, rs.len()); }
    //@@loop 0
        invariant rs == rules_of(grammar.items@), __it.seq() == rs.map_values(|x: Rule| &x), rules@ =~= first_rules(rs, __it.index() as nat),
    //@@end
}
