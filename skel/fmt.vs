/// Formatting: the text a Formatter has received so far. Trusted: what std's formatting
/// machinery does with the pieces of a format string (see evidence: trusted_base).
pub mod fmtx {
    use vstd::prelude::*;
    /// text written so far
    pub uninterp spec fn out(f: &std::fmt::Formatter) -> Seq<char>;
    /// the sink refuses output
    pub uninterp spec fn broken(f: &std::fmt::Formatter) -> bool;
    pub open spec fn wrote(f0: &std::fmt::Formatter, f1: &std::fmt::Formatter, r: Result<(), std::fmt::Error>, text: Seq<char>) -> bool {
        !broken(f0) ==> r is Ok && !broken(f1) && out(f1) =~= out(f0) + text
    }
    /// decimal notation
    pub uninterp spec fn decimal(n: usize) -> Seq<char>;
}
/// What `Display` writes for a type; `show` is one piece of a `write!`
pub mod stdx2 {
    use vstd::prelude::*;
    use crate::fmtx::*;
    pub trait Show {
        spec fn text(&self) -> Seq<char>;
        fn show(&self, f: &mut std::fmt::Formatter) -> (r: Result<(), std::fmt::Error>)
            ensures wrote(old(f), final(f), r, self.text());
    }
    impl Show for usize {
        open spec fn text(&self) -> Seq<char> { decimal(*self) }
        #[verifier::external_body]
        fn show(&self, f: &mut std::fmt::Formatter) -> (r: Result<(), std::fmt::Error>) { std::fmt::Display::fmt(self, f) }
    }
    impl Show for str {
        open spec fn text(&self) -> Seq<char> { self@ }
        #[verifier::external_body]
        fn show(&self, f: &mut std::fmt::Formatter) -> (r: Result<(), std::fmt::Error>) { std::fmt::Display::fmt(self, f) }
    }
    impl<T: Show + ?Sized> Show for &T {
        open spec fn text(&self) -> Seq<char> { (**self).text() }
        fn show(&self, f: &mut std::fmt::Formatter) -> (r: Result<(), std::fmt::Error>) { (**self).show(f) }
    }
}
