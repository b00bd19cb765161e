pub mod str {
    use vstd::prelude::*;
    use super::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
    use super::lem::*; use vstd::string::*;
    use vstd::utf8::*;
    //@@item src=peg-runtime/str.rs sel="struct LineCol" pub
//#LINECOL_SHOW

    impl Parse for str {
        type PositionRepr = LineCol;
        open spec fn s_valid(&self, p: int) -> bool { str_bd(self.spec_bytes(), p) }
        open spec fn s_end(&self) -> int { self.spec_bytes().len() as int }
        open spec fn s_repr(&self, p: int, r: LineCol) -> bool { true }
        //@@fn src=peg-runtime/str.rs sel="Parse for str::start"
        //@@pre
            proof { str_facts(self); }
        //@@end
        //@@fn src=peg-runtime/str.rs sel="Parse for str::is_eof"
        //@@pre
            proof { str_facts(self); }
        //@@end
//#POSITION_REPR
    }
    impl<'input> ParseElem<'input> for str {
        type Element = char;
        open spec fn s_elem(&self, p: int) -> Option<(int, char)> {
            if rest(self, p).len() == 0 { None } else { Some((p + encode_scalar(rest(self, p)[0] as u32).len(), rest(self, p)[0])) }
        }
        //@@fn src=peg-runtime/str.rs sel="ParseElem for str::parse_elem"
        //@@pre
            proof { str_elem_facts(self, pos as int); }
        //@@end
    }
    impl ParseLiteral for str {
        open spec fn s_lit(&self, p: int, lit: &str) -> Option<int> { if lit_here(self.spec_bytes(), p, lit.spec_bytes()) { Some(p + lit.spec_bytes().len()) } else { None } }
        //@@fn src=peg-runtime/str.rs sel="ParseLiteral for str::parse_string_literal"
        //@@pre
            proof { str_lit_facts(self, pos as int, literal); }
        //@@end
    }
    impl<'input> ParseSlice<'input> for str {
        type Slice = &'input str;
        open spec fn s_slice(&self, p1: int, p2: int, r: &'input str) -> bool { r.spec_bytes() == self.spec_bytes().subrange(p1, p2) }
        //@@fn src=peg-runtime/str.rs sel="ParseSlice for str::parse_slice"
        //@@pre
            proof { str_slice_facts(self, p1 as int, p2 as int); }
        //@@end
    }
}
