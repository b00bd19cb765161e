pub mod slice {
    use vstd::prelude::*;
    use super::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
    use super::lem::*; use vstd::string::*;
    impl<T> Parse for [T] {
        type PositionRepr = usize;
        open spec fn s_valid(&self, p: int) -> bool { 0 <= p <= self@.len() }
        open spec fn s_end(&self) -> int { self@.len() as int }
        open spec fn s_repr(&self, p: int, r: usize) -> bool { r == p }
        //@@fn src=peg-runtime/slice.rs sel="Parse for [T]::start"
        //@@end
        //@@fn src=peg-runtime/slice.rs sel="Parse for [T]::is_eof"
        //@@end
        //@@fn src=peg-runtime/slice.rs sel="Parse for [T]::position_repr"
        //@@end
    }
    impl<'input, T: 'input + Copy> ParseElem<'input> for [T] {
        type Element = T;
        open spec fn s_elem(&self, p: int) -> Option<(int, T)> { if 0 <= p < self@.len() { Some((p + 1, self@[p])) } else { None } }
        //@@fn src=peg-runtime/slice.rs sel="ParseElem for [T]::parse_elem"
        //@@pre
            proof { assert(vstd::slice::spec_slice_len(self) == self@.len()); }
        //@@end
    }
    impl ParseLiteral for [u8] {
        open spec fn s_lit(&self, p: int, lit: &str) -> Option<int> { if lit_here(self@, p, lit.spec_bytes()) { Some(p + lit.spec_bytes().len()) } else { None } }
        //@@fn src=peg-runtime/slice.rs sel="ParseLiteral for [u8]::parse_string_literal"
        //@@pre
            proof { bytes_len_bound(self); str_len_bound(literal); }
        //@@end
    }
    impl<'input, T: 'input> ParseSlice<'input> for [T] {
        type Slice = &'input [T];
        open spec fn s_slice(&self, p1: int, p2: int, r: &'input [T]) -> bool { r@ == self@.subrange(p1, p2) }
        //@@fn src=peg-runtime/slice.rs sel="ParseSlice for [T]::parse_slice"
        //@@end
    }
}
