
/// Trusted: the values of proc_macro2 a translation handles
pub mod pm2 {
    use vstd::prelude::*;
    use crate::proc_macro2::*;
    use crate::stdq::*;
    impl Span {
        #[verifier::external_body] pub fn mixed_site() -> Span { unimplemented!() }
        #[verifier::external_body] pub fn resolved_at(&self, o: Span) -> Span { unimplemented!() }
    }
    impl Ident {
        #[verifier::external_body] pub fn new(s: &str, at: Span) -> (r: Ident) ensures r.name() == s@ { unimplemented!() }
    }
    impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Ident) ensures r == self { unimplemented!() } }
    impl Clone for TokenStream { #[verifier::external_body] fn clone(&self) -> (r: TokenStream) ensures r == self { unimplemented!() } }
    impl Literal {
        #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
        #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() }
    }
    #[derive(PartialEq, Eq)]
    pub enum Delimiter { Parenthesis, Brace, Bracket, None }
    impl Group {
        #[verifier::external_body] pub fn new(d: Delimiter, t: TokenStream) -> (r: Group) ensures r.errs() == t.errs() { unimplemented!() }
        #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() }
        #[verifier::external_body] pub fn stream(&self) -> (r: TokenStream) ensures r.errs() == self.errs() { unimplemented!() }
        #[verifier::external_body] pub fn to_string(&self) -> String { unimplemented!() }
    }
    #[verifier::external_body] pub struct Punct { x: u8 }
    impl Punct { #[verifier::external_body] pub fn as_char(&self) -> char { unimplemented!() } }
    pub enum TokenTree { Group(Group), Ident(Ident), Punct(Punct), Literal(Literal) }
    /// what is left of a stream
    #[verifier::external_body] pub struct IntoIter { x: u8 }
    impl IntoIter {
        pub uninterp spec fn left(&self) -> nat;
        #[verifier::external_body] pub fn next(&mut self) -> (r: Option<TokenTree>) ensures final(self).left() <= old(self).left() { unimplemented!() }
        #[verifier::external_body] pub fn collect(self) -> (r: TokenStream) ensures r.errs() == self.left() { unimplemented!() }
    }
    impl TokenStream {
        #[verifier::external_body] pub fn into_iter(self) -> (r: IntoIter) ensures r.left() == self.errs() { unimplemented!() }
    }
}
pub mod msgs {
    use crate::analysis::LoopNullabilityError;
    impl LoopNullabilityError {
        //@@fn src=peg-macros/analysis.rs sel="LoopNullabilityError::msg" vis
        //@@end
    }
}
/// Trusted: `quote!`, as far as the errors in what it makes are concerned: those of what it is given, and one for each compile_error! in the template
pub mod stdq {
    use vstd::prelude::*;
    use crate::proc_macro2::*;
    /// how many compile_error! there are in a value's tokens
    pub trait Quotes { spec fn errs(&self) -> nat; }
    pub uninterp spec fn ts_errs(t: TokenStream) -> nat;
    pub uninterp spec fn group_errs(t: Group) -> nat;
    impl Quotes for TokenStream { open spec fn errs(&self) -> nat { ts_errs(*self) } }
    impl Quotes for Group { open spec fn errs(&self) -> nat { group_errs(*self) } }
    impl Quotes for Ident { open spec fn errs(&self) -> nat { 0 } }
    impl Quotes for Literal { open spec fn errs(&self) -> nat { 0 } }
    impl Quotes for String { open spec fn errs(&self) -> nat { 0 } }
    impl Quotes for i32 { open spec fn errs(&self) -> nat { 0 } }
    impl<T: Quotes> Quotes for Option<T> { open spec fn errs(&self) -> nat { match self { Some(x) => x.errs(), None => 0 } } }
    impl<T: Quotes + ?Sized> Quotes for &T { open spec fn errs(&self) -> nat { (**self).errs() } }
    impl<T: Quotes> Quotes for Vec<T> { open spec fn errs(&self) -> nat { vsum(self@) } }
    impl<T: Quotes> Quotes for [T] { open spec fn errs(&self) -> nat { vsum(self@) } }
    pub open spec fn vsum<T: Quotes>(s: Seq<T>) -> nat decreases s.len() {
        if s.len() == 0 { 0 } else { vsum(s.drop_last()) + s.last().errs() }
    }
    pub broadcast proof fn vsum_push<T: Quotes>(s: Seq<T>, x: T) ensures #[trigger] vsum(s.push(x)) == vsum(s) + x.errs() {
        assert(s.push(x).drop_last() =~= s);
    }
    pub broadcast proof fn vsum_none<T: Quotes>(s: Seq<T>) requires s.len() == 0 ensures #[trigger] vsum(s) == 0 {}
    pub broadcast proof fn vsum_zero<T: Quotes>(s: Seq<T>)
        requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).errs() == 0
        ensures #[trigger] vsum(s) == 0
        decreases s.len()
    { if s.len() > 0 { assert(s[s.len() - 1].errs() == 0); vsum_zero(s.drop_last()); } }
    pub broadcast proof fn vsum_add<T: Quotes>(s: Seq<T>, t: Seq<T>) ensures #[trigger] vsum(s + t) == vsum(s) + vsum(t) decreases t.len() {
        if t.len() == 0 { assert(s + t =~= s); } else { assert((s + t).drop_last() =~= s + t.drop_last()); vsum_add(s, t.drop_last()); }
    }
    pub broadcast group group_sum { vsum_push, vsum_none }
    #[verifier::external_body]
    pub fn start(n: usize) -> (r: TokenStream) ensures r.errs() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn start_at(at: Span, n: usize) -> (r: TokenStream) ensures r.errs() == n { unimplemented!() }
    #[verifier::external_body]
    pub fn add<T: Quotes + ?Sized>(s: TokenStream, x: &T) -> (r: TokenStream) ensures r.errs() == s.errs() + x.errs() { unimplemented!() }
    /// `format_ident!`: an identifier
    #[verifier::external_body]
    pub fn some_ident() -> Ident { unimplemented!() }
    /// `cfg!`: either way
    #[verifier::external_body]
    pub fn some_bool() -> bool { unimplemented!() }
}
/// Trusted: std's HashSet of Strings, as the set of names it is
pub mod stdset {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    pub struct HashSet<K> { m: std::collections::HashSet<K> }
    impl View for HashSet<String> {
        type V = Set<Seq<char>>;
        uninterp spec fn view(&self) -> Set<Seq<char>>;
    }
    impl HashSet<String> {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Set::<Seq<char>>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn contains(&self, k: &String) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: String) -> (r: bool) ensures r == !old(self)@.contains(k@), final(self)@ == old(self)@.insert(k@) { unimplemented!() }
    }
}
/// Trusted: iterators over vectors, and the rest of std
pub mod stdy {
    use vstd::prelude::*;
    use crate::stdx::names;
    use crate::stdset::HashSet;
    use crate::proc_macro2::*;
    pub use crate::stdx::{Same, std_clone};
    use crate::stdq::*;
    impl Same for TokenStream { open spec fn same(&self, o: &Self) -> bool { *self == *o } }
    impl Same for Ident { open spec fn same(&self, o: &Self) -> bool { *self == *o } }
    impl<T: Same> Same for Option<T> { open spec fn same(&self, o: &Self) -> bool { match (self, o) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false } } }
    pub trait Items { type E; spec fn items(&self) -> Seq<Self::E>; }
    impl<T> Items for Vec<T> { type E = T; open spec fn items(&self) -> Seq<T> { self@ } }
    impl<T> Items for [T] { type E = T; open spec fn items(&self) -> Seq<T> { self@ } }
    impl<T: Items + ?Sized> Items for &T { type E = T::E; open spec fn items(&self) -> Seq<T::E> { (**self).items() } }
    #[verifier::external_body]
    pub fn std_items<X: Items + ?Sized>(x: &X) -> (r: Vec<&X::E>)
        ensures r@.len() == x.items().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == x.items()[i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn std_enumerate<X: Items + ?Sized>(x: &X) -> (r: Vec<(usize, &X::E)>)
        ensures r@.len() == x.items().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).1 == x.items()[i] && r@[i].0 == i
    { unimplemented!() }
    #[verifier::external_body]
    pub fn std_rev<T>(x: Vec<T>) -> (r: Vec<T>)
        ensures r@.len() == x@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == x@[x@.len() - 1 - i]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn std_next_back<T>(x: &mut Vec<T>) -> (r: Option<T>)
        ensures match r { Some(v) => old(x)@.len() > 0 && final(x)@ == old(x)@.drop_last() && v == old(x)@.last(), None => old(x)@.len() == 0 }
    { x.pop() }
    #[verifier::external_body]
    pub fn std_expect<T>(x: Option<T>, m: &str) -> (r: T) requires x is Some ensures r == x->0 { x.expect(m) }
    pub trait Extends<T> { spec fn put(&self, v: Seq<T>, r: &Self) -> bool; }
    impl<T> Extends<T> for Vec<T> { open spec fn put(&self, v: Seq<T>, r: &Self) -> bool { r@ == self@ + v } }
    impl Extends<String> for HashSet<String> { open spec fn put(&self, v: Seq<String>, r: &Self) -> bool { r@ == self@.union(names(v).to_set()) } }
    #[verifier::external_body]
    pub fn std_extend<T, X: Extends<T>>(x: &mut X, v: Vec<T>) ensures old(x).put(v@, final(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn std_range<T>(x: &Vec<T>, a: usize, b: usize) -> (r: &[T]) requires a <= b <= x@.len() ensures r@ == x@.subrange(a as int, b as int) { &x[a..b] }
    #[verifier::external_body]
    pub fn std_full<T>(x: &Vec<T>) -> (r: &[T]) ensures r@ == x@ { &x[..] }
    #[verifier::external_body]
    pub fn std_cloned<T: Same>(x: Option<&T>) -> (r: Option<T>) ensures match (r, x) { (Some(a), Some(b)) => a.same(b), (None, None) => true, _ => false } { unimplemented!() }
    /// an Option's iterator is taken as the Option
    #[verifier::external_body]
    pub fn std_into_iter<T>(x: Option<T>) -> (r: Option<T>) ensures r == x { x }
    impl crate::stdx::Text for usize { uninterp spec fn text(&self) -> Seq<char>; }
}

pub mod mistakes {
    use vstd::prelude::*;
    use crate::proc_macro2::*;
    use crate::stdq::*;
    use crate::ast::*;
    use crate::ast::Expr::*;
    use crate::analysis::{Name, first_rules, errs_of, loops_of, nullability};
    // ---- what is wrong with an expression
    pub struct Cx<'a> { pub rules: Map<Name, &'a Rule>, pub args: Set<Name> }

    /// how many mistakes are reported: nothing in a bad call, and nothing else in a block of bad precedence rules
    pub open spec fn mis(cx: Cx, e: SpannedExpr, used: bool) -> nat decreases e, 0int {
        match e.expr {
            RuleExpr(n, gen, args) =>
                if cx.args.contains(n.name()) { if args@.len() > 0 || gen is Some { 1 } else { 0 } }
                else if !cx.rules.dom().contains(n.name()) { 1 }
                else if used && cx.rules[n.name()].ret_type is None { 1 }
                else if cx.rules[n.name()].params@.len() != args@.len() { 1 }
                else { mis_args(cx, args, 0) },
            ActionExpr(v, _) => mis_els(cx, v, 0, v@.len() as int),
            ChoiceExpr(v) => mis_each(cx, v, 0, used),
            OptionalExpr(x) | PosAssertExpr(x) | QuietExpr(x) => mis(cx, *x, used),
            NegAssertExpr(x) | MatchStrExpr(x) => mis(cx, *x, false),
            Repeat { inner, bound, sep } => mis(cx, *inner, used) + (match sep { Some(s) => mis(cx, *s, false), None => 0 }),
            PrecedenceExpr { levels } => if bad_levels(levels, 0) { 1 } else { mis_levels(cx, levels, 0) },
            MarkerExpr(_) => 1,
            LiteralExpr(_) | PatternExpr(_) | MethodExpr(_, _) | CustomExpr(_) | FailExpr(_) | PositionExpr => 0,
        }
    }
    pub open spec fn mis_args(cx: Cx, v: Vec<RuleArg>, i: nat) -> nat decreases v, v@.len() - i {
        if i >= v@.len() { 0 } else { (match v@[i as int] { RuleArg::Peg(e) => mis(cx, e, true), RuleArg::Rust(_) => 0 }) + mis_args(cx, v, i + 1) }
    }
    /// the elements from lo to hi; the value of one with a label is used
    pub open spec fn mis_els(cx: Cx, v: Vec<TaggedExpr>, lo: int, hi: int) -> nat decreases v, hi - lo {
        if lo < 0 || lo >= hi || hi > v@.len() { 0 } else { mis(cx, v@[lo].expr, v@[lo].name is Some) + mis_els(cx, v, lo + 1, hi) }
    }
    pub open spec fn mis_each(cx: Cx, v: Vec<SpannedExpr>, i: nat, used: bool) -> nat decreases v, v@.len() - i {
        if i >= v@.len() { 0 } else { mis(cx, v@[i as int], used) + mis_each(cx, v, i + 1, used) }
    }
    pub open spec fn marker(e: TaggedExpr) -> bool { e.expr.expr is MarkerExpr }
    pub open spec fn place(e: TaggedExpr) -> bool { e.expr.expr is PositionExpr }
    /// `l:position!() n:@ r:position!()`, or what looks like it
    pub open spec fn spans(v: Seq<TaggedExpr>) -> bool { v.len() == 3 && place(v[0]) && place(v[2]) }
    pub open spec fn bad_op(op: PrecedenceOperator) -> bool {
        let v = op.elements@;
        ||| v.len() == 0
        ||| spans(v) && !marker(v[1])
        ||| v.len() >= 3 && marker(v[0]) && marker(v.last()) && v[0].expr.expr->MarkerExpr_0 == v.last().expr.expr->MarkerExpr_0
    }
    pub open spec fn bad_ops(v: Vec<PrecedenceOperator>, i: nat) -> bool decreases v@.len() - i { i < v@.len() && (bad_op(v@[i as int]) || bad_ops(v, i + 1)) }
    pub open spec fn bad_levels(v: Vec<PrecedenceLevel>, i: nat) -> bool decreases v@.len() - i { i < v@.len() && (bad_ops(v@[i as int].operators, 0) || bad_levels(v, i + 1)) }
    pub open spec fn mis_op(cx: Cx, op: PrecedenceOperator) -> nat decreases op, 0int {
        let v = op.elements;
        let n = v@.len() as int;
        if n == 0 || spans(v@) { 0 }
        else if n >= 3 && marker(v@[0]) && marker(v@.last()) { mis_els(cx, v, 1, n - 1) }
        else if n >= 2 && marker(v@[0]) { mis_els(cx, v, 1, n) }
        else if n >= 2 && marker(v@.last()) { mis_els(cx, v, 0, n - 1) }
        else { mis_els(cx, v, 0, n) }
    }
    pub open spec fn mis_ops(cx: Cx, v: Vec<PrecedenceOperator>, i: nat) -> nat decreases v, v@.len() - i {
        if i >= v@.len() { 0 } else { mis_op(cx, v@[i as int]) + mis_ops(cx, v, i + 1) }
    }
    pub open spec fn mis_levels(cx: Cx, v: Vec<PrecedenceLevel>, i: nat) -> nat decreases v, v@.len() - i {
        if i >= v@.len() { 0 } else { mis_ops(cx, v@[i as int].operators, 0) + mis_levels(cx, v, i + 1) }
    }
    /// as a slice
    pub open spec fn mis_seq(cx: Cx, s: Seq<TaggedExpr>) -> nat decreases s.len() {
        if s.len() == 0 { 0 } else { mis(cx, s[0].expr, s[0].name is Some) + mis_seq(cx, s.drop_first()) }
    }
    pub broadcast proof fn mis_slice(cx: Cx, v: Vec<TaggedExpr>, lo: int, hi: int)
        requires 0 <= lo <= hi <= v@.len()
        ensures #[trigger] mis_seq(cx, v@.subrange(lo, hi)) == mis_els(cx, v, lo, hi)
        decreases hi - lo
    { if lo < hi { mis_slice(cx, v, lo + 1, hi); assert(v@.subrange(lo, hi).drop_first() =~= v@.subrange(lo + 1, hi)); } }
    pub broadcast proof fn mis_whole(cx: Cx, v: Vec<TaggedExpr>)
        ensures #[trigger] mis_seq(cx, v@) == mis_els(cx, v, 0, v@.len() as int)
    { mis_slice(cx, v, 0, v@.len() as int); assert(v@.subrange(0, v@.len() as int) =~= v@); }

    // ---- the tokens in the grammar hold no compile_error! of the user's own; a choice has alternatives (the grammar of grammars: C18)
    pub open spec fn ok(e: SpannedExpr) -> bool decreases e, 0int {
        match e.expr {
            PatternExpr(g) | CustomExpr(g) | FailExpr(g) => g.errs() == 0,
            RuleExpr(_, gen, args) => gen.errs() == 0 && ok_args(args, 0),
            MethodExpr(_, t) => t.errs() == 0,
            ActionExpr(v, code) => code.errs() == 0 && ok_els(v, 0),
            ChoiceExpr(v) => v@.len() > 0 && ok_each(v, 0),
            OptionalExpr(x) | PosAssertExpr(x) | QuietExpr(x) | NegAssertExpr(x) | MatchStrExpr(x) => ok(*x),
            Repeat { inner, bound, sep } => ok_bound(bound) && ok(*inner) && (match sep { Some(s) => ok(*s), None => true }),
            PrecedenceExpr { levels } => levels@.len() < 0x7fffffff && ok_levels(levels, 0),
            LiteralExpr(_) | MarkerExpr(_) | PositionExpr => true,
        }
    }
    pub open spec fn ok_bound(b: BoundedRepeat) -> bool {
        match b { BoundedRepeat::Exact(t) => t.errs() == 0, BoundedRepeat::Both(l, h) => l.errs() == 0 && h.errs() == 0, _ => true }
    }
    pub open spec fn ok_args(v: Vec<RuleArg>, i: nat) -> bool decreases v, v@.len() - i {
        i >= v@.len() || ((match v@[i as int] { RuleArg::Peg(e) => ok(e), RuleArg::Rust(t) => t.errs() == 0 }) && ok_args(v, i + 1))
    }
    pub open spec fn ok_els(v: Vec<TaggedExpr>, i: nat) -> bool decreases v, v@.len() - i { i >= v@.len() || (ok(v@[i as int].expr) && ok_els(v, i + 1)) }
    pub open spec fn ok_each(v: Vec<SpannedExpr>, i: nat) -> bool decreases v, v@.len() - i { i >= v@.len() || (ok(v@[i as int]) && ok_each(v, i + 1)) }
    pub open spec fn ok_ops(v: Vec<PrecedenceOperator>, i: nat) -> bool decreases v, v@.len() - i {
        i >= v@.len() || (v@[i as int].action.errs() == 0 && ok_els(v@[i as int].elements, 0) && ok_ops(v, i + 1))
    }
    pub open spec fn ok_levels(v: Vec<PrecedenceLevel>, i: nat) -> bool decreases v, v@.len() - i { i >= v@.len() || (ok_ops(v@[i as int].operators, 0) && ok_levels(v, i + 1)) }
    pub open spec fn ok_seq(s: Seq<TaggedExpr>) -> bool { forall|i: int| 0 <= i < s.len() ==> ok((#[trigger] s[i]).expr) }
    pub broadcast proof fn ok_els_all(v: Vec<TaggedExpr>, i: nat)
        requires #[trigger] ok_els(v, i)
        ensures forall|k: int| i <= k < v@.len() ==> ok((#[trigger] v@[k]).expr)
        decreases v@.len() - i
    { if i < v@.len() { ok_els_all(v, i + 1); } }

    // ---- the size of an expression, for termination
    pub open spec fn sz(e: SpannedExpr) -> nat decreases e, 0int {
        1 + match e.expr {
            RuleExpr(_, _, v) => sz_args(v, 0),
            ActionExpr(v, _) => sz_els(v, 0),
            ChoiceExpr(v) => sz_each(v, 0),
            OptionalExpr(x) | PosAssertExpr(x) | QuietExpr(x) | NegAssertExpr(x) | MatchStrExpr(x) => sz(*x),
            Repeat { inner, bound, sep } => sz(*inner) + match sep { Some(s) => sz(*s), None => 0 },
            PrecedenceExpr { levels } => sz_levels(levels, 0),
            _ => 0,
        }
    }
    pub open spec fn sz_args(v: Vec<RuleArg>, i: nat) -> nat decreases v, v@.len() - i {
        if i >= v@.len() { 0 } else { (match v@[i as int] { RuleArg::Peg(e) => sz(e), _ => 0 }) + sz_args(v, i + 1) }
    }
    pub open spec fn sz_els(v: Vec<TaggedExpr>, i: nat) -> nat decreases v, v@.len() - i { if i >= v@.len() { 0 } else { sz(v@[i as int].expr) + sz_els(v, i + 1) } }
    pub open spec fn sz_each(v: Vec<SpannedExpr>, i: nat) -> nat decreases v, v@.len() - i { if i >= v@.len() { 0 } else { sz(v@[i as int]) + sz_each(v, i + 1) } }
    pub open spec fn sz_ops(v: Vec<PrecedenceOperator>, i: nat) -> nat decreases v, v@.len() - i { if i >= v@.len() { 0 } else { sz_els(v@[i as int].elements, 0) + sz_ops(v, i + 1) } }
    pub open spec fn sz_levels(v: Vec<PrecedenceLevel>, i: nat) -> nat decreases v, v@.len() - i { if i >= v@.len() { 0 } else { sz_ops(v@[i as int].operators, 0) + sz_levels(v, i + 1) } }
    pub open spec fn sz_seq(s: Seq<TaggedExpr>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sz(s[0].expr) + sz_seq(s.drop_first()) } }
    pub proof fn sz_in(s: Seq<TaggedExpr>, i: int) requires 0 <= i < s.len() ensures sz(s[i].expr) <= sz_seq(s) decreases s.len() {
        if i > 0 { sz_in(s.drop_first(), i - 1); }
    }
    pub proof fn sz_from(v: Vec<TaggedExpr>, lo: int, hi: int)
        requires 0 <= lo <= hi <= v@.len() ensures sz_seq(v@.subrange(lo, hi)) <= sz_els(v, lo as nat) decreases hi - lo
    { if lo < hi { sz_from(v, lo + 1, hi); assert(v@.subrange(lo, hi).drop_first() =~= v@.subrange(lo + 1, hi)); } }
    pub proof fn sz_down(v: Vec<TaggedExpr>, lo: nat)
        requires lo <= v@.len() ensures sz_els(v, lo) <= sz_els(v, 0) decreases lo
    { if lo > 0 { sz_down(v, (lo - 1) as nat); } }
    pub broadcast proof fn sz_slice(v: Vec<TaggedExpr>, lo: int, hi: int)
        requires 0 <= lo <= hi <= v@.len() ensures #[trigger] sz_seq(v@.subrange(lo, hi)) <= sz_els(v, 0)
    { sz_from(v, lo, hi); sz_down(v, lo as nat); }
    pub broadcast proof fn sz_whole(v: Vec<TaggedExpr>) ensures #[trigger] sz_seq(v@) <= sz_els(v, 0)
    { sz_slice(v, 0, v@.len() as int); assert(v@.subrange(0, v@.len() as int) =~= v@); }
    pub broadcast group group_all { vsum_push, vsum_none, vsum_add, mis_slice, mis_whole, sz_slice, sz_whole, ok_els_all, crate::stdx::names_push, crate::stdx::names_len }
}
pub mod translate {
    use vstd::prelude::*;
    use crate::proc_macro2::*;
    use crate::pm2::*;
    use crate::stdq::*;
    use crate::stdmap::HashMap;
    use crate::stdset::HashSet;
    use crate::stdx::{names, Same};
    use crate::stdy::*;
    use crate::ast::*;
    use crate::ast::Expr::*;
    use crate::analysis;
    use crate::analysis::{Name, first_rules, errs_of, loops_of, nullability};
    use crate::mistakes::*;
    broadcast use group_all;
    //@@item src=peg-macros/translate.rs sel="struct Context" pub

    pub open spec fn cx<'a>(c: &Context<'a>) -> Cx<'a> { Cx { rules: c.rules@, args: c.rules_from_args@ } }
    pub open spec fn clean(c: &Context) -> bool {
        vsum(c.grammar_lifetime_params@) == 0 && c.input_ty.errs() == 0 && c.parse_state_ty.errs() == 0 && c.extra_args_call.errs() == 0 && c.extra_args_def.errs() == 0
    }
    /// derived
    impl<'a> Clone for Context<'a> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Context<'a>)
            ensures self.rules == r.rules && self.rules_from_args@ == r.rules_from_args@ && self.grammar_lifetime_params == r.grammar_lifetime_params && self.input_ty == r.input_ty
                && self.parse_state_ty == r.parse_state_ty && self.extra_args_call == r.extra_args_call && self.extra_args_def == r.extra_args_def
        { unimplemented!() }
    }
    pub open spec fn clean_capture(o: Option<(TokenStream, TokenStream, TokenStream, &Group)>) -> bool {
        match o { Some((a, b, c, d)) => a.errs() == 0 && b.errs() == 0 && c.errs() == 0 && d.errs() == 0, None => true }
    }
    pub open spec fn opt_sum(o: Option<Vec<TokenStream>>) -> nat { match o { Some(v) => vsum(v@), None => 0 } }
    pub open spec fn ok_param(p: RuleParam) -> bool { match p.ty { RuleParamTy::Rust(t) | RuleParamTy::Rule(t) => t.errs() == 0 } }
    pub open spec fn ok_rule(r: Rule) -> bool {
        ok(r.expr) && opt_sum(r.ty_params) == 0 && r.ret_type.errs() == 0 && r.where_clause.errs() == 0 && r.doc.errs() == 0 && r.visibility.errs() == 0
        && forall|i: int| 0 <= i < r.params@.len() ==> ok_param(#[trigger] r.params@[i])
    }
    pub open spec fn ok_grammar(g: &Grammar) -> bool {
        g.doc.errs() == 0 && g.visibility.errs() == 0 && opt_sum(g.lifetime_params) == 0 && g.input_type.errs() == 0
        && (forall|i: int| 0 <= i < g.args@.len() ==> (#[trigger] g.args@[i]).1.errs() == 0)
        && (forall|i: int| 0 <= i < g.items@.len() ==> match #[trigger] g.items@[i] { Item::Use(t) => t.errs() == 0, Item::Rule(r) => ok_rule(r) })
    }
    // ---- what is wrong with a grammar
    pub open spec fn own_args(r: Rule) -> Seq<Name> { r.params@.map_values(|p: RuleParam| p.name.name()) }
    /// inside a rule a call by the name of a parameter is a call of the parameter
    pub open spec fn in_rule<'a>(c: Cx<'a>, r: Rule) -> Cx<'a> { Cx { rules: c.rules, args: c.args.union(own_args(r).to_set()) } }
    pub open spec fn mis_body(c: Cx, r: Rule) -> nat { mis(in_rule(c, r), r.expr, r.ret_type is Some) }
    pub open spec fn closures(v: Seq<RuleParam>, n: int) -> nat decreases n { if n <= 0 { 0 } else { closures(v, n - 1) + if v[n - 1].ty is Rule { 1nat } else { 0 } } }
    /// the rules named before item i
    pub open spec fn seen(v: Seq<Item>, i: int) -> Set<Name> decreases i {
        if i <= 0 { Set::empty() } else { match v[i - 1] { Item::Rule(r) => seen(v, i - 1).insert(r.name.name()), _ => seen(v, i - 1) } }
    }
    pub open spec fn mis_rule(c: Cx, r: Rule, again: bool) -> nat {
        if again { 1 }
        else if r.cache is Some && (r.params@.len() > 0 || r.ty_params is Some) { 1 }
        else { (if r.visibility is Some { closures(r.params@, r.params@.len() as int) } else if r.no_eof { 1 } else { 0 }) + mis_body(c, r) }
    }
    pub open spec fn mis_items(c: Cx, v: Seq<Item>, i: int) -> nat decreases i {
        if i <= 0 { 0 } else { mis_items(c, v, i - 1) + match v[i - 1] { Item::Rule(r) => mis_rule(c, r, seen(v, i - 1).contains(r.name.name())), _ => 0 } }
    }
    /// everything that is wrong with a grammar: its rules, circles of left calls (C14), loops that need not consume (C15)
    pub open spec fn mis_grammar(g: &Grammar) -> nat {
        let rs = rules_of(g.items@);
        let rules = first_rules(rs, rs.len());
        mis_items(Cx { rules, args: Set::empty() }, g.items@, g.items@.len() as int) + reported_left(g) + reported_loops(g)
    }
    pub open spec fn reported_left(g: &Grammar) -> nat {
        let rs = rules_of(g.items@);
        errs_of(first_rules(rs, rs.len()), rs, 0).len()
    }
    pub open spec fn reported_loops(g: &Grammar) -> nat {
        let rs = rules_of(g.items@);
        loops_of(nullability(first_rules(rs, rs.len()), rs, rs.len()), rs, 0).len()
    }

    //@@fn src=peg-macros/translate.rs sel="fn report_error" vis
        ensures r.errs() == 1
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn report_error_expr" vis
        ensures r.errs() == 1
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn group_check_prefix"
        ensures match r { Some(t) => t.errs() <= group.errs(), None => true }
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn extra_args_def" iters
        requires ok_grammar(grammar)
        ensures r.errs() == 0
    //@@loop 0
        invariant vsum(__vx_v0@) == 0, ok_grammar(grammar), __it.seq().len() == grammar.args@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]) == grammar.args@[i],
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn extra_args_call" iters
        ensures r.errs() == 0
    //@@loop 0
        invariant vsum(__vx_v0@) == 0,
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn ty_params_slice" iters
        ensures vsum(r@) == opt_sum(*ty_params)
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn name_or_ignore" iters
        ensures r.errs() == 0
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn make_parse_state" iters
        requires ok_grammar(grammar)
        ensures r.errs() == 0
    //@@pre
        proof { rules_ok(grammar); }
    //@@loop 0
        invariant vsum(cache_fields_def@) == 0, vsum(cache_fields@) == 0,
            forall|i: int| 0 <= i < __it.seq().len() ==> ok_rule(*#[trigger] __it.seq()[i]),
    //@@end
    pub proof fn rules_ok(g: &Grammar)
        requires ok_grammar(g)
        ensures forall|k: int| 0 <= k < rules_of(g.items@).len() ==> ok_rule(#[trigger] rules_of(g.items@)[k])
    { rules_ok_n(g.items@); }
    pub proof fn rules_ok_n(v: Seq<Item>)
        requires forall|i: int| 0 <= i < v.len() ==> match #[trigger] v[i] { Item::Use(t) => t.errs() == 0, Item::Rule(r) => ok_rule(r) }
        ensures forall|k: int| 0 <= k < rules_of(v).len() ==> ok_rule(#[trigger] rules_of(v)[k])
        decreases v.len()
    {
        if v.len() > 0 {
            rules_ok_n(v.drop_last());
            let w = v.drop_last();
            match v.last() {
                Item::Rule(r) => {
                    assert(v[v.len() - 1] == Item::Rule(r));
                    assert(ok_rule(r));
                    assert(rules_of(v) == rules_of(w).push(r));
                    assert forall|k: int| 0 <= k < rules_of(v).len() implies ok_rule(#[trigger] rules_of(v)[k]) by { if k < rules_of(w).len() { assert(ok_rule(rules_of(w)[k])); } }
                }
                _ => {}
            }
        }
    }
    //@@fn src=peg-macros/translate.rs sel="fn rule_params_list" iters
        requires clean(context), ok_rule(*rule)
        ensures vsum(r@) == 0
    //@@loop 0
        invariant vsum(__vx_v0@) == 0, ok_rule(*rule), clean(context), input_ty.errs() == 0, parse_state_ty.errs() == 0,
            __it.seq().len() == rule.params@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]) == rule.params@[i],
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn compile_rule_export" iters redirect="into_iter"
        requires clean(context), ok_rule(*rule)
        ensures r.errs() == 0
    //@@loop 0
        invariant vsum(__vx_v0@) == 0,
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn compile_rule" iters redirect="into_iter"
        requires clean(context), ok_rule(*rule)
        ensures r.errs() == mis_body(cx(context), *rule)
    //@@pre
        assert(own_args(*rule).take(own_args(*rule).len() as int) =~= own_args(*rule));
    //@@loop 0
        invariant names(__vx_v0@) =~= own_args(*rule).take(__it.index()), own_args(*rule).len() == rule.params@.len(),
            __it.seq().len() == rule.params@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]) == rule.params@[i],
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn ordered_choice" iters redirect="@next_back,expect"
        requires rs@.len() > 0
        ensures r.errs() == vsum(rs@)
    //@@pre
        let ghost all = rs@;
    //@@loop 0
        invariant rs@ == all.drop_last(), all.len() > 0, __it.seq().len() == rs@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> (#[trigger] __it.seq()[i]) == rs@[rs@.len() - 1 - i],
            fallback.errs() + vsum(all.take(all.len() - 1 - __it.index())) == vsum(all),
    //@@loopbody 0
        proof { let k = all.len() - 1 - __it.index(); assert(all.take(k).drop_last() =~= all.take(k - 1)); assert(all.take(k).last() == all[k - 1]); }
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn labeled_seq" iters
        requires clean(context), ok_seq(exprs@)
        ensures r.errs() == mis_seq(cx(context), exprs@) + inner.errs()
        decreases sz_seq(exprs@), 2int
    //@@pre
        assert(exprs@.subrange(0, exprs@.len() as int) =~= exprs@);
    //@@loop 0
        invariant clean(context), ok_seq(exprs@), __it.seq().len() == exprs@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]) == exprs@[exprs@.len() - 1 - i],
            then.errs() == mis_seq(cx(context), exprs@.subrange(exprs@.len() - __it.index(), exprs@.len() as int)) + inner.errs(),
    //@@loopbody 0
        proof { sz_in(exprs@, exprs@.len() - 1 - __it.index()); let k = exprs@.len() - __it.index(); assert(exprs@.subrange(k - 1, exprs@.len() as int).drop_first() =~= exprs@.subrange(k, exprs@.len() as int)); }
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn compile_expr_continuation" iters redirect="cloned"
        requires clean(context), ok(*e)
        ensures r.errs() == mis(cx(context), *e, result_name is Some) + continuation.errs()
        decreases sz(*e), 1int
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn compile_literal_expr" iters
        ensures r.errs() == continuation.errs()
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn compile_pattern_expr" iters
        requires pattern_group.errs() == 0
        ensures r.errs() == success_res.errs()
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn compile_expr" iters
        requires clean(context), ok(*e)
        ensures r.errs() == mis(cx(context), *e, result_used)
        decreases sz(*e), 0int
    //@@pre
        let ghost c = cx(context);
        proof { if e.expr is ActionExpr { assert(ok_els(e.expr->ActionExpr_0, 0)); assert(sz_els(e.expr->ActionExpr_0, 0) < sz(*e)); } }
    //@@loop 0
        invariant clean(context), cx(context) == c, ok_args(*rule_args, __it.index() as nat), sz_args(*rule_args, __it.index() as nat) < sz(*e),
            __it.seq().len() == rule_args@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]) == rule_args@[i],
            vsum(__vx_v0@) + mis_args(c, *rule_args, __it.index() as nat) == mis_args(c, *rule_args, 0),
    //@@loop 1
        invariant clean(context), cx(context) == c, ok_each(*exprs, __it.index() as nat), sz_each(*exprs, __it.index() as nat) < sz(*e), __vx_v1@.len() == __it.index(),
            __it.seq().len() == exprs@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]) == exprs@[i],
            vsum(__vx_v1@) + mis_each(c, *exprs, __it.index() as nat, result_used) == mis_each(c, *exprs, 0, result_used),
    //@@loop 2
        invariant clean(context), cx(context) == c, levels@.len() < 0x7fffffff, ok_levels(*levels, __it.index() as nat), sz_levels(*levels, __it.index() as nat) < sz(*e), e.expr is PrecedenceExpr, e.expr->levels == *levels,
            __it.seq().len() == levels@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]).1 == levels@[i] && __it.seq()[i].0 == i,
            vsum(pre_rules@) + vsum(level_code@) + mis_levels(c, *levels, __it.index() as nat) == mis_levels(c, *levels, 0),
            bad_levels(*levels, __it.index() as nat) == bad_levels(*levels, 0),
            clean_capture(span_capture),
    //@@loopghost 3
        let ghost o = vsum(pre_rules@) + vsum(level_code@);
        let ghost li = __it.index();
    //@@loop 3
        invariant clean(context), cx(context) == c, e.expr is PrecedenceExpr, e.expr->levels == *levels, bad_levels(*levels, 0) == (bad_ops(level.operators, 0) || bad_levels(*levels, (li + 1) as nat)),
            ok_ops(level.operators, __it.index() as nat), sz_ops(level.operators, __it.index() as nat) < sz(*e), 0 <= prec < 0x7fffffff,
            __it.seq().len() == level.operators@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]) == level.operators@[i],
            vsum(pre_rules@) + vsum(level_code@) + vsum(post_rules@) + mis_ops(c, level.operators, __it.index() as nat) == o + mis_ops(c, level.operators, 0),
            bad_ops(level.operators, __it.index() as nat) == bad_ops(level.operators, 0),
            clean_capture(span_capture),
    //@@loopbody 3
        proof { let o = level.operators@[__it.index()]; assert(ok_els(o.elements, 0)); assert(mis_op(c, o) >= 0); assert(sz_els(o.elements, 0) < sz(*e)); }
    //@@end
    //@@fn src=peg-macros/translate.rs sel="fn compile_grammar" vis iters
        requires ok_grammar(grammar)
        ensures r.errs() == mis_grammar(grammar),
            r.errs() >= reported_left(grammar),
            r.errs() >= reported_loops(grammar),
    //@@loop 0
        invariant ok_grammar(grammar), clean(context), cx(context).rules == first_rules(rules_of(grammar.items@), rules_of(grammar.items@).len()), cx(context).args =~= Set::<Name>::empty(),
            __it.seq().len() == grammar.items@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]) == grammar.items@[i],
            seen_rule_names@ == seen(grammar.items@, __it.index()),
            vsum(items@) == mis_items(cx(context), grammar.items@, __it.index()),
    //@@loopghost 1
        let ghost o = vsum(items@);
        let ghost __r = *rule;
    //@@loop 1
        invariant *rule == __r, __it.seq().len() == rule.params@.len(), forall|i: int| 0 <= i < __it.seq().len() ==> *(#[trigger] __it.seq()[i]) == rule.params@[i],
            vsum(items@) == o + closures(rule.params@, __it.index()),
    //@@loopghost 2
        proof {
            let rs = rules_of(grammar.items@);
            assert(crate::analysis::all_shown(analysis.left_recursion@).len() == analysis.left_recursion@.len());
            assert(crate::analysis::places(analysis.loop_nullability@).len() == analysis.loop_nullability@.len());
            assert(cx(context) == Cx { rules: first_rules(rs, rs.len()), args: Set::<Name>::empty() });
        }
    //@@loop 2
        invariant vsum(__vx_v2@) == __it.index(), __it.seq().len() == analysis.left_recursion@.len(),
    //@@loop 3
        invariant vsum(__vx_v3@) == __it.index(), __it.seq().len() == analysis.loop_nullability@.len(),
    //@@end
}
