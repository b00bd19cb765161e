/// what a rule or an expression does at a position: where it ends and its value, or failure
pub enum Pr<T> { M(int, T), F }
pub open spec fn rr<T>(r: peg::RuleResult<T>) -> Pr<T> { match r { peg::RuleResult::Matched(p, v) => Pr::M(p as int, v), peg::RuleResult::Failed => Pr::F } }
/// the same without the value
pub open spec fn un<T>(r: Pr<T>) -> Pr<()> { match r { Pr::M(p, _) => Pr::M(p, ()), Pr::F => Pr::F } }

/// what an ErrorState holds
pub struct EV { pub max: int, pub sup: int, pub rep: bool, pub exp: Set<&'static str> }
pub open spec fn ev(e: peg::error::ErrorState) -> EV { EV { max: e.max_err_pos as int, sup: e.suppress_fail as int, rep: e.reparsing_on_error, exp: e.expected.expected@ } }
/// failures of terminals, expected! and conditional actions outside quiet blocks and lookaheads, in order
pub type Tr = Seq<(int, &'static str)>;
pub open spec fn mark1(e: EV, m: (int, &'static str)) -> EV {
    if e.sup > 0 { e }
    else if e.rep { if m.0 == e.max { EV { exp: e.exp.insert(m.1), ..e } } else { e } }
    else { if m.0 > e.max { EV { max: m.0, ..e } } else { e } }
}
pub open spec fn run(e: EV, t: Tr) -> EV decreases t.len()
{ if t.len() == 0 { e } else { mark1(run(e, t.drop_last()), t.last()) } }
pub open spec fn mk(p: int, w: &'static str) -> Tr { seq![(p, w)] }
pub open spec fn nil() -> Tr { Seq::empty() }

pub mod runlem {
use super::*; use vstd::prelude::*;
pub broadcast proof fn run_cat(e: EV, a: Tr, b: Tr) ensures #[trigger] run(e, a + b) == run(run(e, a), b) decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); }
    else { assert((a + b).drop_last() =~= a + b.drop_last()); run_cat(e, a, b.drop_last()); }
}
pub broadcast proof fn run_nil(e: EV) ensures #[trigger] run(e, nil()) == e {}
pub broadcast proof fn run_mk(e: EV, p: int, w: &'static str) ensures #[trigger] run(e, mk(p, w)) == mark1(e, (p, w))
{ assert(mk(p, w).drop_last() =~= Seq::empty()); assert(run(e, mk(p, w).drop_last()) == e); }
pub broadcast proof fn run_frame(e: EV, t: Tr)
    ensures (#[trigger] run(e, t)).sup == e.sup, run(e, t).rep == e.rep, e.sup > 0 ==> run(e, t) == e
    decreases t.len()
{ if t.len() > 0 { run_frame(e, t.drop_last()); } }
pub broadcast group group_run { run_cat, run_nil, run_mk, run_frame }

// ---- what the two passes of a public rule compute ----
/// the furthest reported position
pub open spec fn fmax(t: Tr) -> int decreases t.len()
{ if t.len() == 0 { 0 } else if t.last().0 > fmax(t.drop_last()) { t.last().0 } else { fmax(t.drop_last()) } }
/// what was reported there
pub open spec fn fexp_at(t: Tr, p: int) -> Set<&'static str> decreases t.len()
{ if t.len() == 0 { Set::empty() } else if t.last().0 == p { fexp_at(t.drop_last(), p).insert(t.last().1) } else { fexp_at(t.drop_last(), p) } }
/// the definitions above are what their names say
pub proof fn fmax_is(t: Tr)
    requires forall|k: int| 0 <= k < t.len() ==> 0 <= (#[trigger] t[k]).0
    ensures forall|k: int| 0 <= k < t.len() ==> (#[trigger] t[k]).0 <= fmax(t), fmax(t) >= 0, fmax(t) > 0 ==> exists|k: int| 0 <= k < t.len() && (#[trigger] t[k]).0 == fmax(t)
    decreases t.len()
{
    if t.len() > 0 {
        let d = t.drop_last();
        assert forall|k: int| 0 <= k < d.len() implies 0 <= (#[trigger] d[k]).0 by { assert(d[k] == t[k]); }
        fmax_is(d);
        assert forall|k: int| 0 <= k < t.len() implies (#[trigger] t[k]).0 <= fmax(t) by { if k < d.len() { assert(d[k] == t[k]); } }
        if fmax(t) > 0 {
            if t.last().0 == fmax(t) { assert(t[t.len() - 1].0 == fmax(t)); }
            else { let k = choose|k: int| 0 <= k < d.len() && (#[trigger] d[k]).0 == fmax(d); assert(t[k].0 == fmax(t)); }
        }
    }
}
pub proof fn fexp_is(t: Tr, p: int)
    ensures forall|w: &'static str| #[trigger] fexp_at(t, p).contains(w) <==> t.contains((p, w))
    decreases t.len()
{
    if t.len() > 0 {
        let d = t.drop_last();
        fexp_is(d, p);
        assert forall|w: &'static str| #[trigger] fexp_at(t, p).contains(w) <==> t.contains((p, w)) by {
            if d.contains((p, w)) { let k = choose|k: int| 0 <= k < d.len() && d[k] == (p, w); assert(t[k] == (p, w)); }
            if t.contains((p, w)) { let k = choose|k: int| 0 <= k < t.len() && t[k] == (p, w); if k < d.len() { assert(d[k] == (p, w)); } }
            if t.last() == (p, w) { assert(t[t.len() - 1] == (p, w)); }
            assert(fexp_at(d, p).contains(w) <==> d.contains((p, w)));
            assert(t.contains((p, w)) <==> d.contains((p, w)) || t.last() == (p, w));
            if t.last().0 == p { assert(fexp_at(t, p) == fexp_at(d, p).insert(t.last().1)); } else { assert(fexp_at(t, p) == fexp_at(d, p)); }
        }
    }
}
pub proof fn pass1(e: EV, t: Tr)
    requires e.sup == 0, !e.rep, e.max == 0
    ensures run(e, t).max == fmax(t), run(e, t).sup == 0, run(e, t).exp == e.exp
    decreases t.len()
{ if t.len() > 0 { pass1(e, t.drop_last()); run_frame(e, t.drop_last()); } }
pub proof fn pass2(e: EV, t: Tr)
    requires e.sup == 0, e.rep, e.exp == Set::<&'static str>::empty()
    ensures run(e, t).max == e.max, run(e, t).exp == fexp_at(t, e.max)
    decreases t.len()
{ if t.len() > 0 { pass2(e, t.drop_last()); run_frame(e, t.drop_last()); } }
}
pub use runlem::*;
