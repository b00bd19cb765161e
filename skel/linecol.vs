/// Lines and columns of a character sequence, and the bytes that encode it (all proved)
pub mod lclem {
    use vstd::prelude::*;
    use vstd::string::*;
    use vstd::utf8::*;
    use crate::peg::lem::*;
    use crate::stdx::*;
    use vstd::std_specs::iter::*;
    pub open spec fn count10(b: Seq<u8>) -> nat decreases b.len() {
        if b.len() == 0 { 0 } else { count10(b.drop_first()) + if b[0] == 10u8 { 1nat } else { 0nat } }
    }
    /// number of newline characters
    pub open spec fn newlines(c: Seq<char>) -> nat decreases c.len() {
        if c.len() == 0 { 0 } else { newlines(c.drop_first()) + if c[0] == '\n' { 1nat } else { 0nat } }
    }
    /// number of characters after the last newline
    pub open spec fn tail_len(c: Seq<char>) -> nat decreases c.len() {
        if c.len() == 0 { 0 } else if c.last() == '\n' { 0 } else { 1 + tail_len(c.drop_last()) }
    }
    pub proof fn count10_cat(a: Seq<u8>, b: Seq<u8>) ensures count10(a + b) == count10(a) + count10(b) decreases a.len()
    {
        if a.len() == 0 { assert(a + b =~= b); }
        else { count10_cat(a.drop_first(), b); assert((a + b).drop_first() =~= a.drop_first() + b); }
    }
    pub proof fn scalar10(c: char)
        ensures count10(encode_scalar(c as u32)) == (if c == '\n' { 1nat } else { 0nat }), encode_scalar(c as u32).len() >= 1
    {
        let v = c as u32;
        char_is_scalar(c);
        reveal_with_fuel(count10, 6);
        assert(has_width_1_encoding(v) ==> (v & 0x7f) == v) by { assert(v <= 0x7f ==> (v & 0x7f) == v) by(bit_vector); }
        assert(forall|x: u8| #![auto] (0xc0u8 | x) != 10u8 && (0xe0u8 | x) != 10u8 && (0xf0u8 | x) != 10u8 && (0x80u8 | x) != 10u8) by(bit_vector);
        assert(c != '\n' ==> v != 10u32);
    }
    pub proof fn nl_bytes(c: Seq<char>)
        ensures count10(encode_utf8(c)) == newlines(c), c.len() <= encode_utf8(c).len(), newlines(c) <= c.len()
        decreases c.len()
    {
        if c.len() > 0 { scalar10(c[0]); nl_bytes(c.drop_first()); count10_cat(encode_scalar(c[0] as u32), encode_utf8(c.drop_first())); }
    }
    pub proof fn n_true_count10(k: Seq<bool>, b: Seq<u8>)
        requires k.len() == b.len(), forall|j: int| 0 <= j < k.len() ==> k[j] == (#[trigger] b[j] == 10u8)
        ensures n_true(k) == count10(b)
        decreases k.len()
    {
        if k.len() > 0 {
            assert forall|j: int| 0 <= j < k.drop_first().len() implies k.drop_first()[j] == (#[trigger] b.drop_first()[j] == 10u8) by { assert(b[j + 1] == b.drop_first()[j]); }
            n_true_count10(k.drop_first(), b.drop_first());
            assert(k[0] == (b[0] == 10u8));
        }
    }
    pub proof fn tail_unique(c: Seq<char>, n: int)
        requires 0 <= n <= c.len(), forall|j: int| 0 <= j < n ==> #[trigger] c.reverse()[j] != '\n', n < c.len() ==> c.reverse()[n] == '\n'
        ensures n == tail_len(c)
        decreases c.len()
    {
        if c.len() > 0 {
            assert(c.reverse()[0] == c.last());
            if n > 0 {
                let d = c.drop_last();
                assert forall|j: int| 0 <= j < n - 1 implies #[trigger] d.reverse()[j] != '\n' by { assert(c.reverse()[j + 1] == d.reverse()[j]); }
                if n - 1 < d.len() { assert(c.reverse()[n] == d.reverse()[n - 1]); }
                tail_unique(d, n - 1);
            }
        }
    }
    pub broadcast proof fn chars_reversed(i: std::str::Chars, r: std::iter::Rev<std::str::Chars>)
        requires #[trigger] rev_post(i, r), r == into_rev_spec(i)
        ensures IteratorSpec::remaining(&r) == IteratorSpec::remaining(&i).reverse(), IteratorSpec::remaining(&r).len() == IteratorSpec::remaining(&i).len()
    { assert(IteratorSpec::obeys_prophetic_iter_laws(&i)); rev_postcondition(i); }
    pub open spec fn prefix(s: &str, p: int) -> Seq<char> { decode_utf8(s.spec_bytes().subrange(0, p)) }

    pub proof fn line_col_facts(s: &str, p: int)
        requires str_bd(s.spec_bytes(), p)
        ensures
            valid_utf8(s.spec_bytes()), s.spec_bytes().len() <= isize::MAX, str_bd(s.spec_bytes(), 0),
            prefix(s, p).len() <= p, newlines(prefix(s, p)) <= p, tail_len(prefix(s, p)) <= p,
            forall|r: &str| #[trigger] r.spec_bytes() == s.spec_bytes().subrange(0, p) ==> r@ == prefix(s, p),
            forall|k: Seq<bool>| (k.len() == p && forall|j: int| 0 <= j < p ==> k[j] == (#[trigger] s.spec_bytes()[j] == 10u8)) ==> #[trigger] n_true(k) == newlines(prefix(s, p)),
            forall|n: int| (0 <= n <= prefix(s, p).len() && (forall|j: int| 0 <= j < n ==> #[trigger] prefix(s, p).reverse()[j] != '\n')
                && (n < prefix(s, p).len() ==> #[trigger] prefix(s, p).reverse()[n] == '\n')) ==> n == tail_len(prefix(s, p)),
            tail_len(prefix(s, p)) <= prefix(s, p).len(),
            (forall|j: int| 0 <= j < prefix(s, p).len() ==> #[trigger] prefix(s, p).reverse()[j] != '\n') ==> tail_len(prefix(s, p)) == prefix(s, p).len(),
    {
        broadcast use str_view_bytes;
        str_facts(s);
        let b = s.spec_bytes();
        valid_utf8_split(b, p);
        let c = prefix(s, p);
        decode_utf8_encode_utf8(b.subrange(0, p));
        nl_bytes(c);
        tail_bound(c);
        assert forall|k: Seq<bool>| (k.len() == p && forall|j: int| 0 <= j < p ==> k[j] == (#[trigger] b[j] == 10u8)) implies #[trigger] n_true(k) == newlines(c) by {
            let pb = b.subrange(0, p);
            assert forall|j: int| 0 <= j < k.len() implies k[j] == (#[trigger] pb[j] == 10u8) by { assert(pb[j] == b[j]); }
            n_true_count10(k, pb);
        }
        assert forall|n: int| (0 <= n <= c.len() && (forall|j: int| 0 <= j < n ==> #[trigger] c.reverse()[j] != '\n')
            && (n < c.len() ==> #[trigger] c.reverse()[n] == '\n')) implies n == tail_len(c) by { tail_unique(c, n); }
        if forall|j: int| 0 <= j < c.len() ==> #[trigger] c.reverse()[j] != '\n' { tail_unique(c, c.len() as int); }
    }
    pub proof fn tail_bound(c: Seq<char>) ensures tail_len(c) <= c.len() decreases c.len()
    { if c.len() > 0 && c.last() != '\n' { tail_bound(c.drop_last()); } }
}
