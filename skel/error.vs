pub mod error {
    use vstd::prelude::*;
    use super::{Parse, RuleResult};
    use std::collections::BTreeSet;
    use vstd::std_specs::iter::*;
    use vstd::laws_cmp::*;

    //@@item src=peg-runtime/error.rs sel="struct ExpectedSet" pub
    //@@item src=peg-runtime/error.rs sel="struct ParseError" pub
    //@@item src=peg-runtime/error.rs sel="struct ErrorState" pub

    /// std: comparison of strings is a total order
    pub axiom fn str_cmp_lawful() ensures obeys_cmp::<&'static str>();

    /// what recording one failure does (outside quiet blocks and lookaheads)
    pub open spec fn marked(old: ErrorState, new: ErrorState, pos: usize, what: &'static str) -> bool {
        &&& new.suppress_fail == old.suppress_fail
        &&& new.reparsing_on_error == old.reparsing_on_error
        &&& new.max_err_pos == (if old.suppress_fail == 0 && !old.reparsing_on_error && pos > old.max_err_pos { pos } else { old.max_err_pos })
        &&& new.expected.expected@ == (if old.suppress_fail == 0 && old.reparsing_on_error && pos == old.max_err_pos { old.expected.expected@.insert(what) } else { old.expected.expected@ })
    }

    impl ExpectedSet {
        //#TOKENS
    }
    impl ErrorState {
        //@@fn src=peg-runtime/error.rs sel="ErrorState::new" vis
            ensures r.max_err_pos == initial_pos, r.suppress_fail == 0, !r.reparsing_on_error,
                r.expected.expected@ == Set::<&'static str>::empty(),
        //@@end
        //@@fn src=peg-runtime/error.rs sel="ErrorState::reparse_for_error" vis
            ensures final(self).max_err_pos == old(self).max_err_pos, final(self).suppress_fail == 0, final(self).reparsing_on_error,
                final(self).expected.expected@ == old(self).expected.expected@,
        //@@end
        //@@fn src=peg-runtime/error.rs sel="ErrorState::mark_failure_slow_path" vis
            ensures final(self).max_err_pos == old(self).max_err_pos, final(self).suppress_fail == old(self).suppress_fail,
                final(self).reparsing_on_error == old(self).reparsing_on_error,
                final(self).expected.expected@ == (if pos == old(self).max_err_pos { old(self).expected.expected@.insert(expected) } else { old(self).expected.expected@ }),
        //@@pre
            proof { str_cmp_lawful(); }
        //@@end
        //@@fn src=peg-runtime/error.rs sel="ErrorState::mark_failure" vis
            ensures r == RuleResult::<()>::Failed, marked(*old(self), *final(self), pos, expected),
        //@@end
        //@@fn src=peg-runtime/error.rs sel="ErrorState::into_parse_error" vis redirect="into"
            requires input.s_valid(self.max_err_pos as int),
            ensures input.s_repr(self.max_err_pos as int, r.location), r.expected.expected@ == self.expected.expected@,
        //@@end
    }
    //#DISPLAY
}
