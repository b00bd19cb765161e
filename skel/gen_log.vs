/// what a rule or an expression does at a position: where it ends and its value, or failure
pub enum Pr<T> { M(int, T), F }
pub open spec fn rr<T>(r: peg::RuleResult<T>) -> Pr<T> { match r { peg::RuleResult::Matched(p, v) => Pr::M(p as int, v), peg::RuleResult::Failed => Pr::F } }
/// the same without the value
pub open spec fn un<T>(r: Pr<T>) -> Pr<()> { match r { Pr::M(p, _) => Pr::M(p, ()), Pr::F => Pr::F } }

/// what an ErrorState holds
pub struct EV { pub max: int, pub sup: int, pub rep: bool, pub exp: Set<&'static str> }
pub open spec fn ev(e: peg::error::ErrorState) -> EV { EV { max: e.max_err_pos as int, sup: e.suppress_fail as int, rep: e.reparsing_on_error, exp: e.expected.expected@ } }
pub open spec fn mark1(e: EV, m: (int, &'static str)) -> EV {
    if e.sup > 0 { e }
    else if e.rep { if m.0 == e.max { EV { exp: e.exp.insert(m.1), ..e } } else { e } }
    else { if m.0 > e.max { EV { max: m.0, ..e } } else { e } }
}
/// a line of debugging output: its text and the positions printed in it
pub struct Say { pub f: &'static str, pub a: Seq<Repr> }
pub type Tr = Seq<Say>;
pub open spec fn lg<'i>(s: g::ParseState<'i>) -> Tr { s.vx_log@ }
pub open spec fn run(l: Tr, t: Tr) -> Tr { l + t }
pub open spec fn nil() -> Tr { Seq::empty() }
pub open spec fn sy1(f: &'static str, a: Repr) -> Tr { seq![Say { f, a: seq![a] }] }
pub open spec fn sy2(f: &'static str, a: Repr, b: Repr) -> Tr { seq![Say { f, a: seq![a, b] }] }
#[verifier::external_body]
pub fn say1<'i>(s: &mut g::ParseState<'i>, f: &'static str, a: &Repr) ensures lg(*final(s)) == run(lg(*old(s)), sy1(f, *a)) { unimplemented!() }
#[verifier::external_body]
pub fn say2<'i>(s: &mut g::ParseState<'i>, f: &'static str, a: &Repr, b: &Repr) ensures lg(*final(s)) == run(lg(*old(s)), sy2(f, *a, *b)) { unimplemented!() }
pub mod runlem {
use super::*; use vstd::prelude::*;
pub broadcast proof fn run_cat(l: Tr, a: Tr, b: Tr) ensures #[trigger] run(l, a + b) == run(run(l, a), b) { assert(l + (a + b) =~= (l + a) + b); }
pub broadcast proof fn run_nil(l: Tr) ensures #[trigger] run(l, nil()) == l { assert(l + nil() =~= l); }
pub broadcast group group_run { run_cat, run_nil }
}
pub use runlem::*;
