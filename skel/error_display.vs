    use crate::stdx::*;
    use crate::stdx2::*;
    use crate::fmtx::*;
    use std::fmt;

    /// std: `sort` on a slice that is already strictly ascending changes nothing
    pub assume_specification<T: Ord>[<[T]>::sort](s: &mut [T])
        ensures increasing_seq(old(s)@) ==> final(s)@ == old(s)@, final(s)@.len() == old(s)@.len();

    impl Show for ExpectedSet {
        open spec fn text(&self) -> Seq<char> { expected_text(in_order(self.expected@)) }
        //@@fn src=peg-runtime/error.rs sel="Display for ExpectedSet::fmt" name=show
        //@@pre
            proof { str_cmp_lawful(); order_facts(self.expected@); }
        //@@loop 0
            invariant
                in_order(self.expected@).len() > 1,
                __it.seq() =~= in_order(self.expected@).drop_first(),
                !broken(old(fmt)) ==> !broken(fmt) && out(fmt) =~= out(old(fmt)) + ("one of "@ + listed(in_order(self.expected@), __it.index() + 1)),
        //@@end
    }
    impl<L: Show> Show for ParseError<L> {
        open spec fn text(&self) -> Seq<char> { "error at "@ + self.location.text() + ": expected "@ + self.expected.text() }
        //@@fn src=peg-runtime/error.rs sel="Display for ParseError<L>::fmt" name=show
        //@@end
    }
