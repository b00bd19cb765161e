pub type FlatTokenStream = Inp;
pub enum Delimiter { Parenthesis, Brace, Bracket, None }
pub uninterp spec fn sc_next_span(i: &Inp, p: int) -> Pr<Span>;
pub uninterp spec fn sc_ident(i: &Inp, p: int) -> Pr<Ident>;
pub uninterp spec fn sc_literal(i: &Inp, p: int) -> Pr<Literal>;
pub uninterp spec fn sc_group(i: &Inp, p: int, d: Delimiter) -> Pr<Group>;
pub uninterp spec fn sc_eat_until(i: &Inp, p: int, c: char) -> Pr<()>;
pub mod prim {
use vstd::prelude::*; use super::*; use super::peg;
/// what C17 proves of the token primitives: where they end
pub broadcast axiom fn p_span(i: &Inp, p: int) ensures i_valid(i, p) ==> match #[trigger] sc_next_span(i, p) { Pr::M(q, _) => q == p, Pr::F => true };
pub broadcast axiom fn p_ident(i: &Inp, p: int) ensures i_valid(i, p) ==> match #[trigger] sc_ident(i, p) { Pr::M(q, _) => p < q && i_valid(i, q), Pr::F => true };
pub broadcast axiom fn p_literal(i: &Inp, p: int) ensures i_valid(i, p) ==> match #[trigger] sc_literal(i, p) { Pr::M(q, _) => p < q && i_valid(i, q), Pr::F => true };
pub broadcast axiom fn p_group(i: &Inp, p: int, d: Delimiter) ensures i_valid(i, p) ==> match #[trigger] sc_group(i, p, d) { Pr::M(q, _) => p < q && i_valid(i, q), Pr::F => true };
pub broadcast axiom fn p_eat(i: &Inp, p: int, c: char) ensures i_valid(i, p) ==> match #[trigger] sc_eat_until(i, p, c) { Pr::M(q, _) => p < q && i_valid(i, q), Pr::F => true };
pub broadcast group group_prim { p_span, p_ident, p_literal, p_group, p_eat }
impl Inp {
    #[verifier::external_body] pub fn next_span(&self, pos: usize) -> (r: peg::RuleResult<Span>) ensures rr(r) == sc_next_span(self, pos as int) { unimplemented!() }
    #[verifier::external_body] pub fn ident(&self, pos: usize) -> (r: peg::RuleResult<Ident>) ensures rr(r) == sc_ident(self, pos as int) { unimplemented!() }
    #[verifier::external_body] pub fn literal(&self, pos: usize) -> (r: peg::RuleResult<Literal>) ensures rr(r) == sc_literal(self, pos as int) { unimplemented!() }
    #[verifier::external_body] pub fn group(&self, pos: usize, delim: Delimiter) -> (r: peg::RuleResult<Group>) ensures rr(r) == sc_group(self, pos as int, delim) { unimplemented!() }
    #[verifier::external_body] pub fn eat_until(&self, initial_pos: usize, end: char) -> (r: peg::RuleResult<()>) ensures rr(r) == sc_eat_until(self, initial_pos as int, end) { unimplemented!() }
}
}
pub use prim::*;
