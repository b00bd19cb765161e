#![allow(unused_imports, dead_code, unused_variables, unused_mut, non_snake_case, unused_parens, unused_braces)]
use vstd::prelude::*;
verus! {
/// `a | b` and `a & b` on bools
pub fn vx_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { if a { true } else { b } }
pub fn vx_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { if a { b } else { false } }
/// an assertion of the code: an obligation
pub fn vx_assert(c: bool) requires c {}
#[verifier::external_body]
pub fn vx_panic() -> ! requires false { panic!() }

/// Trusted: the opaque values of proc_macro2 an analysis of the grammar carries around
pub mod proc_macro2 {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct Span { x: u8 }
    #[verifier::external_body] pub struct TokenStream { x: u8 }
    #[verifier::external_body] pub struct Group { x: u8 }
    #[verifier::external_body] pub struct Literal { x: u8 }
    #[verifier::external_body] pub struct Ident { x: u8 }
    impl Clone for Span {
        #[verifier::external_body]
        fn clone(&self) -> (r: Span) ensures r == self { Span { x: self.x } }
    }
    impl Copy for Span {}
    impl Ident {
        /// what it is spelled like
        pub uninterp spec fn name(&self) -> Seq<char>;
        pub uninterp spec fn at(&self) -> Span;
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String) ensures r@ == self.name() { String::new() }
        #[verifier::external_body]
        pub fn span(&self) -> (r: Span) ensures r == self.at() { Span { x: 0 } }
    }
}

/// Trusted: std's HashMap with String keys, as the map from names it is
pub mod stdmap {
    use vstd::prelude::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct HashMap<K, V> { m: std::collections::HashMap<K, V> }
    impl<V> View for HashMap<String, V> {
        type V = Map<Seq<char>, V>;
        uninterp spec fn view(&self) -> Map<Seq<char>, V>;
    }
    impl<V> HashMap<String, V> {
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { HashMap { m: std::collections::HashMap::new() } }
        #[verifier::external_body]
        pub fn get(&self, k: &String) -> (r: Option<&V>)
            ensures r == (if self@.dom().contains(k@) { Some(&self@[k@]) } else { None })
        { self.m.get(k) }
        /// `entry(k).or_insert(v)`
        #[verifier::external_body]
        pub fn entry_or_insert(&mut self, k: String, v: V)
            ensures final(self)@ == (if old(self)@.dom().contains(k@) { old(self)@ } else { old(self)@.insert(k@, v) })
        { self.m.entry(k).or_insert(v); }
    }
}

/// Trusted wrappers for std calls without a Verus specification
pub mod stdx {
    use vstd::prelude::*;
    pub open spec fn names(s: Seq<String>) -> Seq<Seq<char>> { s.map_values(|x: String| x@) }
    pub broadcast proof fn names_push(s: Seq<String>, x: String)
        ensures #[trigger] names(s.push(x)) == names(s).push(x@)
    { assert(names(s.push(x)) =~= names(s).push(x@)); }
    pub broadcast proof fn names_pop(s: Seq<String>)
        requires s.len() > 0
        ensures #[trigger] names(s.drop_last()) == names(s).drop_last()
    { assert(names(s.drop_last()) =~= names(s).drop_last()); }
    pub broadcast proof fn names_from(s: Seq<String>, a: int, b: int)
        requires 0 <= a <= b <= s.len()
        ensures #[trigger] names(s.subrange(a, b)) == names(s).subrange(a, b)
    { assert(names(s.subrange(a, b)) =~= names(s).subrange(a, b)); }
    pub broadcast proof fn names_len(s: Seq<String>) ensures (#[trigger] names(s)).len() == s.len() {}
    pub broadcast group group_names { names_push, names_pop, names_from, names_len }
    /// `v.iter().position(f)`
    #[verifier::external_body]
    pub fn std_iter_position<T, F: Fn(&T) -> bool>(v: &[T], f: F) -> (r: Option<usize>)
        requires forall|x: &T| f.requires((x,)),
        ensures match r {
            Some(i) => i < v@.len() && f.ensures((&v@[i as int],), true) && forall|j: int| 0 <= j < i ==> f.ensures((&#[trigger] v@[j],), false),
            None => forall|j: int| 0 <= j < v@.len() ==> f.ensures((&#[trigger] v@[j],), false),
        }
    { v.iter().position(|x| f(x)) }
    /// `v[a..]`
    #[verifier::external_body]
    pub fn std_from<T>(v: &[T], a: usize) -> (r: &[T])
        requires a <= v@.len(),
        ensures r@ == v@.subrange(a as int, v@.len() as int)
    { &v[a..] }
    #[verifier::external_body]
    pub fn std_to_vec(v: &[String]) -> (r: Vec<String>) ensures names(r@) == names(v@) { v.to_vec() }
    /// what a clone has in common with the original
    pub trait Same { spec fn same(&self, o: &Self) -> bool; }
    impl Same for String { open spec fn same(&self, o: &Self) -> bool { self@ == o@ } }
    #[verifier::external_body]
    pub fn std_clone<T: Same>(v: &T) -> (r: T) ensures r.same(v) { unimplemented!() }
    pub open spec fn joined(s: Seq<Seq<char>>, by: Seq<char>) -> Seq<char> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), by) + by + s.last() }
    }
    #[verifier::external_body]
    pub fn std_join(v: &Vec<String>, by: &str) -> (r: String) ensures r@ == joined(names(v@), by@) { v.join(by) }
    /// the text a value is shown as by `{}`
    pub trait Text { spec fn text(&self) -> Seq<char>; }
    impl Text for String { open spec fn text(&self) -> Seq<char> { self@ } }
    impl Text for str { open spec fn text(&self) -> Seq<char> { self@ } }
    impl Text for crate::proc_macro2::Ident { open spec fn text(&self) -> Seq<char> { self.name() } }
    impl<T: Text + ?Sized> Text for &T { open spec fn text(&self) -> Seq<char> { (**self).text() } }
    /// x occurs in r
    pub open spec fn has(r: Seq<char>, x: Seq<char>) -> bool { exists|i: int| 0 <= i <= r.len() - x.len() && #[trigger] r.subrange(i, i + x.len()) == x }
    pub broadcast proof fn has_last(s: Seq<char>, x: Seq<char>) ensures has(#[trigger] (s + x), x) {
        assert((s + x).subrange(s.len() as int, (s.len() + x.len()) as int) =~= x);
    }
    pub broadcast proof fn has_more(s: Seq<char>, x: Seq<char>, y: Seq<char>)
        requires has(s, x) ensures #[trigger] has(s + y, x)
    {
        let i = choose|i: int| 0 <= i <= s.len() - x.len() && #[trigger] s.subrange(i, i + x.len()) == x;
        assert((s + y).subrange(i, i + x.len()) =~= x);
    }
    pub broadcast group group_has { has_last, has_more }
    #[verifier::external_body]
    pub fn fmt_start() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
    #[verifier::external_body]
    pub fn fmt_add<T: Text + ?Sized>(s: String, x: &T) -> (r: String) ensures r@ == s@ + x.text() { s }
}
pub mod ast {
    use vstd::prelude::*;
    use crate::proc_macro2::{Group, Ident, Literal, Span, TokenStream};
    //@@item src=peg-macros/ast.rs sel="struct Grammar" pub
    //@@item src=peg-macros/ast.rs sel="enum Item" pub
    //@@item src=peg-macros/ast.rs sel="enum Cache" pub
    //@@item src=peg-macros/ast.rs sel="struct Rule" pub
    //@@item src=peg-macros/ast.rs sel="struct RuleParam" pub
    //@@item src=peg-macros/ast.rs sel="enum RuleParamTy" pub
    //@@item src=peg-macros/ast.rs sel="struct TaggedExpr" pub
    //@@item src=peg-macros/ast.rs sel="struct SpannedExpr" pub
    //@@item src=peg-macros/ast.rs sel="enum Expr" pub
    //@@item src=peg-macros/ast.rs sel="enum RuleArg" pub
    //@@item src=peg-macros/ast.rs sel="struct PrecedenceLevel" pub
    //@@item src=peg-macros/ast.rs sel="struct PrecedenceOperator" pub
    //@@item src=peg-macros/ast.rs sel="enum BoundedRepeat" pub
    /// at least one match is necessary
    pub open spec fn lower(b: BoundedRepeat) -> bool {
        match b { BoundedRepeat::None => false, BoundedRepeat::Plus => true, BoundedRepeat::Exact(_) => true, BoundedRepeat::Both(l, _) => l is Some }
    }
    /// the number of matches is limited
    pub open spec fn upper(b: BoundedRepeat) -> bool {
        match b { BoundedRepeat::None => false, BoundedRepeat::Plus => false, BoundedRepeat::Exact(_) => true, BoundedRepeat::Both(_, h) => h is Some }
    }
    impl BoundedRepeat {
        //@@fn src=peg-macros/ast.rs sel="BoundedRepeat::has_lower_bound" vis
            ensures r == lower(*self)
        //@@end
        //@@fn src=peg-macros/ast.rs sel="BoundedRepeat::has_upper_bound" vis
            ensures r == upper(*self)
        //@@end
    }
    /// the rules of a grammar, in order
    pub open spec fn rules_of(items: Seq<Item>) -> Seq<Rule> decreases items.len() {
        if items.len() == 0 { Seq::empty() } else {
            match items.last() { Item::Rule(r) => rules_of(items.drop_last()).push(r), _ => rules_of(items.drop_last()) }
        }
    }
    impl Grammar {
        /// Trusted: `Grammar::iter_rules` (filter_map over the items)
        #[verifier::external_body]
        pub fn iter_rules(&self) -> (r: Vec<&Rule>)
            ensures r@ == rules_of(self.items@).map_values(|x: Rule| &x)
        { unimplemented!() }
    }
}
