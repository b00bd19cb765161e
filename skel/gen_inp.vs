/// any input type whose operations satisfy the contracts of the runtime traits
#[verifier::external_body]
pub struct Inp { _p: () }
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Sl<'i> { _p: &'i () }
#[verifier::external_body]
pub struct Repr { _p: () }

pub uninterp spec fn i_valid(i: &Inp, p: int) -> bool;
pub uninterp spec fn i_end(i: &Inp) -> int;
pub uninterp spec fn i_repr(i: &Inp, p: int) -> Repr;
pub uninterp spec fn i_elem(i: &Inp, p: int) -> Option<(int, char)>;
pub uninterp spec fn i_lit(i: &Inp, p: int, l: &str) -> Option<int>;
pub uninterp spec fn i_slice<'i>(i: &'i Inp, a: int, b: int) -> Sl<'i>;

pub mod inp {
use vstd::prelude::*; use super::*; use super::peg;
/// what the contracts of the traits promise about positions
pub broadcast axiom fn i_pos(i: &Inp, p: int) ensures #[trigger] i_valid(i, p) ==> 0 <= p <= i_end(i) <= usize::MAX;
pub broadcast axiom fn i_elem_pos(i: &Inp, p: int)
    ensures i_valid(i, p) ==> match #[trigger] i_elem(i, p) { Some((q, _)) => p < q && i_valid(i, q), None => p == i_end(i) };
pub broadcast axiom fn i_lit_pos(i: &Inp, p: int, l: &str)
    // no literal of the grammars under contract is empty
    ensures i_valid(i, p) ==> match #[trigger] i_lit(i, p, l) { Some(q) => p < q && i_valid(i, q), None => true };
pub broadcast group group_inp { i_pos, i_elem_pos, i_lit_pos }

impl peg::Parse for Inp {
    type PositionRepr = Repr;
    open spec fn s_valid(&self, p: int) -> bool { i_valid(self, p) }
    open spec fn s_end(&self) -> int { i_end(self) }
    open spec fn s_repr(&self, p: int, r: Repr) -> bool { r == i_repr(self, p) }
    #[verifier::external_body] fn start<'input>(&'input self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn is_eof<'input>(&'input self, p: usize) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn position_repr<'input>(&'input self, p: usize) -> (r: Repr) { unimplemented!() }
}
impl<'input> peg::ParseElem<'input> for Inp {
    type Element = char;
    open spec fn s_elem(&self, p: int) -> Option<(int, char)> { i_elem(self, p) }
    #[verifier::external_body] fn parse_elem(&'input self, pos: usize) -> (r: peg::RuleResult<char>) { unimplemented!() }
}
impl peg::ParseLiteral for Inp {
    open spec fn s_lit(&self, p: int, lit: &str) -> Option<int> { i_lit(self, p, lit) }
    #[verifier::external_body] fn parse_string_literal(&self, pos: usize, literal: &str) -> (r: peg::RuleResult<()>) { unimplemented!() }
}
impl<'input> peg::ParseSlice<'input> for Inp {
    type Slice = Sl<'input>;
    open spec fn s_slice(&self, p1: int, p2: int, r: Sl<'input>) -> bool { r == i_slice(self, p1, p2) }
    #[verifier::external_body] fn parse_slice(&'input self, p1: usize, p2: usize) -> (r: Sl<'input>) { unimplemented!() }
}
}
pub use inp::*;
/// a vector is determined by its elements
pub uninterp spec fn mkvec<T>(s: Seq<T>) -> Vec<T>;
pub mod vecax { use vstd::prelude::*; use super::*;
pub broadcast axiom fn mkvec_view<T>(v: Vec<T>) ensures #[trigger] mkvec(v@) == v;
}
pub use vecax::*;
