// Contracts on peg-runtime. Function bodies and type definitions are extracted from /repo.
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, non_snake_case, unused_braces, bindings_with_variant_name, unreachable_patterns, unused_assignments)]
use vstd::prelude::*; use vstd::string::*;

verus! {
global size_of usize == 8;

/// `panic!` / `unreachable!` in extracted code: must be unreachable
pub fn vx_panic() -> (r: !)
    requires false
{ loop invariant false decreases 0int { } }

pub mod peg {
use vstd::prelude::*; use vstd::string::*;

//@@item src=peg-runtime/lib.rs sel="enum RuleResult" pub

pub mod lem {
    use vstd::string::*;
    use vstd::prelude::*;
    use vstd::utf8::*;
    use vstd::slice::SliceIndexSpec;
    use vstd::std_specs::iter::*;

    // ---- assumed facts about the standard library (trusted base, listed in evidence) ----
    /// std: a str never exceeds isize::MAX bytes
    pub axiom fn str_len_bound(s: &str) ensures s.spec_bytes().len() <= isize::MAX;
    /// std: a byte slice never exceeds isize::MAX bytes
    pub axiom fn bytes_len_bound(s: &[u8]) ensures s@.len() <= isize::MAX;
    /// std: `s[i]` on str returns what the index type says (vstd specifies the precondition only)
    pub assume_specification<I: std::slice::SliceIndex<str>>[<str as std::ops::Index<I>>::index](s: &str, i: I)
        -> (r: &<I as std::slice::SliceIndex<str>>::Output)
        ensures i.index_postcondition(s, r);

    // ---- UTF-8 lemmas (proved) ----
    pub open spec fn str_bd(b: Seq<u8>, p: int) -> bool { 0 <= p <= b.len() && is_char_boundary(b, p) }

    pub broadcast proof fn str_view_bytes(s: &str)
        ensures #[trigger] s.spec_bytes() == encode_utf8(s@), decode_utf8(s.spec_bytes()) == s@, valid_utf8(s.spec_bytes())
    { encode_utf8_decode_utf8(s@); encode_utf8_valid_utf8(s@); }

    pub proof fn str_facts(s: &str)
        ensures valid_utf8(s.spec_bytes()), s.spec_bytes().len() <= isize::MAX, str_bd(s.spec_bytes(), 0), str_bd(s.spec_bytes(), s.spec_bytes().len() as int)
    { str_len_bound(s); encode_utf8_valid_utf8(s@); is_char_boundary_start_end_of_seq(s.spec_bytes()); }

    pub proof fn bd_trans(b: Seq<u8>, p: int, q: int)
        requires valid_utf8(b), str_bd(b, p), valid_utf8(b.subrange(p, b.len() as int)), str_bd(b.subrange(p, b.len() as int), q)
        ensures str_bd(b, p + q)
        decreases p
    {
        if p == 0 { assert(b.subrange(0, b.len() as int) =~= b); }
        else {
            let l = length_of_first_scalar(b);
            let b2 = pop_first_scalar(b);
            assert(b2.subrange(p - l, b2.len() as int) =~= b.subrange(p, b.len() as int));
            bd_trans(b2, p - l, q);
        }
    }
    pub proof fn bd_lit(s: Seq<u8>, lit: Seq<char>)
        requires valid_utf8(s), encode_utf8(lit).len() <= s.len(), s.subrange(0, encode_utf8(lit).len() as int) == encode_utf8(lit)
        ensures str_bd(s, encode_utf8(lit).len() as int)
        decreases lit.len()
    {
        let e = encode_utf8(lit);
        if lit.len() > 0 {
            encode_utf8_first_scalar(lit);
            assert(s[0] == s.subrange(0, e.len() as int)[0]);
            let l = length_of_first_scalar(e);
            let e2 = encode_utf8(lit.drop_first());
            assert(e == encode_scalar(lit[0] as u32) + e2);
            let s2 = pop_first_scalar(s);
            assert forall|i: int| 0 <= i < e2.len() implies s2[i] == e2[i] by { assert(s.subrange(0, e.len() as int)[i + l] == e[i + l]); }
            assert(s2.subrange(0, e2.len() as int) =~= e2);
            bd_lit(s2, lit.drop_first());
        }
    }
    /// the text between a boundary and the end: its first character and where that ends
    pub open spec fn rest(s: &str, p: int) -> Seq<char> { decode_utf8(s.spec_bytes().subrange(p, s.spec_bytes().len() as int)) }

    pub proof fn str_elem_facts(s: &str, p: int)
        requires str_bd(s.spec_bytes(), p)
        ensures
            valid_utf8(s.spec_bytes()), s.spec_bytes().len() <= isize::MAX,
            str_bd(s.spec_bytes(), 0), str_bd(s.spec_bytes(), s.spec_bytes().len() as int),
            forall|r: &str| #[trigger] r.spec_bytes() == s.spec_bytes().subrange(p, s.spec_bytes().len() as int) ==> r@ == rest(s, p),
            rest(s, p).len() > 0 ==> 1 <= encode_scalar(rest(s, p)[0] as u32).len() <= 4
                && str_bd(s.spec_bytes(), p + encode_scalar(rest(s, p)[0] as u32).len()),
            rest(s, p).len() == 0 <==> p == s.spec_bytes().len(),
    {
        broadcast use str_view_bytes;
        str_facts(s);
        let b = s.spec_bytes();
        valid_utf8_split(b, p);
        let sf = b.subrange(p, b.len() as int);
        let r = rest(s, p);
        if r.len() > 0 {
            decode_utf8_encode_utf8(sf);
            encode_utf8_first_scalar(r);
            is_char_boundary_start_end_of_seq(pop_first_scalar(sf));
            assert(str_bd(sf, length_of_first_scalar(sf)));
            bd_trans(b, p, length_of_first_scalar(sf));
        }
    }
    pub open spec fn lit_here(b: Seq<u8>, p: int, lit: Seq<u8>) -> bool {
        p + lit.len() <= b.len() && b.subrange(p, p + lit.len()) =~= lit
    }
    pub proof fn str_lit_facts(s: &str, p: int, lit: &str)
        requires str_bd(s.spec_bytes(), p)
        ensures valid_utf8(s.spec_bytes()), s.spec_bytes().len() <= isize::MAX, lit.spec_bytes().len() <= isize::MAX,
            lit_here(s.spec_bytes(), p, lit.spec_bytes()) ==> str_bd(s.spec_bytes(), p + lit.spec_bytes().len()),
    {
        broadcast use str_view_bytes;
        str_facts(s); str_facts(lit);
        let b = s.spec_bytes();
        if lit_here(b, p, lit.spec_bytes()) {
            valid_utf8_split(b, p);
            let sf = b.subrange(p, b.len() as int);
            assert(sf.subrange(0, lit.spec_bytes().len() as int) =~= lit.spec_bytes());
            bd_lit(sf, lit@);
            bd_trans(b, p, lit.spec_bytes().len() as int);
        }
    }
    /// from one character boundary to a later one, distance measured on the whole string
    pub proof fn str_slice_facts(s: &str, p1: int, p2: int)
        requires str_bd(s.spec_bytes(), p1), str_bd(s.spec_bytes(), p2)
        ensures valid_utf8(s.spec_bytes()), s.spec_bytes().len() <= isize::MAX
    { str_facts(s); }
}

pub use crate::peg::lem::*;

pub trait Parse {
    type PositionRepr;
    /// positions a parser may be at
    spec fn s_valid(&self, p: int) -> bool;
    /// position of the end of input
    spec fn s_end(&self) -> int;
    spec fn s_repr(&self, p: int, r: Self::PositionRepr) -> bool;
    //@@fn src=peg-runtime/lib.rs sel="trait Parse::start"
        ensures r == 0, self.s_valid(r as int),
    //@@end
    //@@fn src=peg-runtime/lib.rs sel="trait Parse::is_eof"
        requires self.s_valid(p as int)
        ensures r == (p as int == self.s_end()),
    //@@end
    //@@fn src=peg-runtime/lib.rs sel="trait Parse::position_repr"
        requires self.s_valid(p as int)
        ensures self.s_repr(p as int, r),
    //@@end
}
pub trait ParseElem<'input>: Parse {
    type Element: Copy;
    /// the element at p and the position after it
    spec fn s_elem(&self, p: int) -> Option<(int, Self::Element)>;
    //@@fn src=peg-runtime/lib.rs sel="trait ParseElem::parse_elem"
        requires self.s_valid(pos as int)
        ensures match self.s_elem(pos as int) {
            Some((p, e)) => r == RuleResult::Matched(p as usize, e) && pos < p <= usize::MAX && self.s_valid(p),
            None => r == RuleResult::<Self::Element>::Failed && pos == self.s_end(),
        },
    //@@end
}
pub trait ParseLiteral: Parse {
    /// where the literal ends if the input continues with it at p
    spec fn s_lit(&self, p: int, lit: &str) -> Option<int>;
    //@@fn src=peg-runtime/lib.rs sel="trait ParseLiteral::parse_string_literal"
        requires self.s_valid(pos as int)
        ensures
            match self.s_lit(pos as int, literal) {
                Some(q) => 0 <= q <= usize::MAX && r == RuleResult::Matched(q as usize, ()) && self.s_valid(q),
                None => r == RuleResult::<()>::Failed,
            },
    //@@end
}
pub trait ParseSlice<'input>: Parse {
    type Slice;
    spec fn s_slice(&self, p1: int, p2: int, r: Self::Slice) -> bool;
    //@@fn src=peg-runtime/lib.rs sel="trait ParseSlice::parse_slice"
        requires self.s_valid(p1 as int), self.s_valid(p2 as int), p1 <= p2,
        ensures self.s_slice(p1 as int, p2 as int, r),
    //@@end
}
//@@fn src=peg-runtime/lib.rs sel="fn call_custom_closure" vis
    requires f.requires((input, pos)),
    ensures f.ensures((input, pos), r),
//@@end
