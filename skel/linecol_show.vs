    impl crate::stdx2::Show for LineCol {
        open spec fn text(&self) -> Seq<char> { crate::fmtx::decimal(self.line) + ":"@ + crate::fmtx::decimal(self.column) }
        //@@fn src=peg-runtime/str.rs sel="Display for LineCol::fmt" name=show
        //@@end
    }
