/// `a == b` in a place that asserts
pub fn vx_assert(c: bool) requires c {}

/// Trusted: proc_macro2's tokens. A group is its delimiter and the trees inside, finitely nested.
pub mod proc_macro2 {
    use vstd::prelude::*;
    #[verifier::external_body] pub struct Span { x: u8 }
    impl Clone for Span {
        #[verifier::external_body]
        fn clone(&self) -> (r: Span) ensures r == self { Span { x: self.x } }
    }
    impl Copy for Span {}
    impl Span {
        #[verifier::external_body]
        pub fn call_site() -> Span { Span { x: 0 } }
    }
    pub enum Delimiter { Parenthesis, Brace, Bracket, None }
    impl Clone for Delimiter { fn clone(&self) -> (r: Delimiter) ensures r == self { *self } }
    impl Copy for Delimiter {}
    pub enum Spacing { Alone, Joint }
    impl Clone for Spacing { fn clone(&self) -> (r: Spacing) ensures r == self { *self } }
    impl Copy for Spacing {}
    #[verifier::external_body] pub struct Ident { x: u8 }
    #[verifier::external_body] pub struct Literal { x: u8 }
    #[verifier::external_body] pub struct Punct { x: u8 }
    pub struct Group { pub delim: Delimiter, pub trees: Vec<TokenTree>, pub at: Span }
    pub enum TokenTree { Group(Group), Ident(Ident), Punct(Punct), Literal(Literal) }
    pub struct TokenStream { pub trees: Vec<TokenTree> }
    impl Clone for Ident { #[verifier::external_body] fn clone(&self) -> (r: Ident) ensures r == self { unimplemented!() } }
    impl Clone for Literal { #[verifier::external_body] fn clone(&self) -> (r: Literal) ensures r == self { unimplemented!() } }
    impl Clone for Punct { #[verifier::external_body] fn clone(&self) -> (r: Punct) ensures r == self { unimplemented!() } }
    impl Clone for Group { #[verifier::external_body] fn clone(&self) -> (r: Group) ensures r == self { unimplemented!() } }
    impl Ident {
        pub uninterp spec fn name(&self) -> Seq<char>;
        pub uninterp spec fn at(&self) -> Span;
        #[verifier::external_body]
        pub fn to_string(&self) -> (r: String) ensures r@ == self.name() { unimplemented!() }
        #[verifier::external_body]
        pub fn span(&self) -> (r: Span) ensures r == self.at() { unimplemented!() }
    }
    impl Literal {
        pub uninterp spec fn at(&self) -> Span;
        #[verifier::external_body]
        pub fn span(&self) -> (r: Span) ensures r == self.at() { unimplemented!() }
    }
    impl Punct {
        pub uninterp spec fn ch(&self) -> char;
        pub uninterp spec fn joint(&self) -> bool;
        pub uninterp spec fn at(&self) -> Span;
        /// punctuation is ASCII
        #[verifier::external_body]
        pub fn as_char(&self) -> (r: char) ensures r == self.ch(), (r as u32) < 128 { unimplemented!() }
        #[verifier::external_body]
        pub fn spacing(&self) -> (r: Spacing) ensures r == (if self.joint() { Spacing::Joint } else { Spacing::Alone }) { unimplemented!() }
        #[verifier::external_body]
        pub fn span(&self) -> (r: Span) ensures r == self.at() { unimplemented!() }
    }
    impl Group {
        #[verifier::external_body]
        pub fn stream(&self) -> (r: TokenStream) ensures r.trees == self.trees { unimplemented!() }
        pub fn delimiter(&self) -> (r: Delimiter) ensures r == self.delim { self.delim }
        pub fn span(&self) -> (r: Span) ensures r == self.at { self.at }
    }
    impl TokenStream {
        pub fn new() -> (r: TokenStream) ensures r.trees@.len() == 0 { TokenStream { trees: Vec::new() } }
        /// `extend` with what an Option yields
        pub fn extend(&mut self, t: Option<TokenTree>)
            ensures final(self).trees@ == (match t { Some(t) => old(self).trees@.push(t), None => old(self).trees@ })
        { match t { Some(t) => { self.trees.push(t); } None => {} } }
    }
}

/// Trusted wrappers for std calls without a Verus specification
pub mod stdx {
    use vstd::prelude::*;
    use vstd::string::*;
    use vstd::utf8::*;
    use crate::proc_macro2::*;
    use crate::peg::lem::*;
    pub fn std_items(t: TokenStream) -> (r: Vec<TokenTree>) ensures r == t.trees { t.trees }
    pub trait Tree: Sized { spec fn tree(self) -> TokenTree; fn to_tree(self) -> (r: TokenTree) ensures r == self.tree(); }
    impl Tree for Ident { open spec fn tree(self) -> TokenTree { TokenTree::Ident(self) } fn to_tree(self) -> TokenTree { TokenTree::Ident(self) } }
    impl Tree for Literal { open spec fn tree(self) -> TokenTree { TokenTree::Literal(self) } fn to_tree(self) -> TokenTree { TokenTree::Literal(self) } }
    impl Tree for Punct { open spec fn tree(self) -> TokenTree { TokenTree::Punct(self) } fn to_tree(self) -> TokenTree { TokenTree::Punct(self) } }
    impl Tree for Group { open spec fn tree(self) -> TokenTree { TokenTree::Group(self) } fn to_tree(self) -> TokenTree { TokenTree::Group(self) } }
    pub fn std_into<T: Tree>(x: T) -> (r: TokenTree) ensures r == x.tree() { x.to_tree() }
    /// `==`
    pub trait Same<B: ?Sized> { spec fn same(&self, o: &B) -> bool; fn is_same(&self, o: &B) -> (r: bool) ensures r == self.same(o); }
    impl Same<&str> for String {
        open spec fn same(&self, o: &&str) -> bool { self@ == o@ }
        #[verifier::external_body]
        fn is_same(&self, o: &&str) -> bool { self == o }
    }
    impl Same<&str> for &str {
        open spec fn same(&self, o: &&str) -> bool { self@ == o@ }
        #[verifier::external_body]
        fn is_same(&self, o: &&str) -> bool { self == o }
    }
    impl Same<Spacing> for Spacing {
        open spec fn same(&self, o: &Spacing) -> bool { *self == *o }
        fn is_same(&self, o: &Spacing) -> bool { match (*self, *o) { (Spacing::Alone, Spacing::Alone) => true, (Spacing::Joint, Spacing::Joint) => true, _ => false } }
    }
    impl Same<Delimiter> for Delimiter {
        open spec fn same(&self, o: &Delimiter) -> bool { *self == *o }
        fn is_same(&self, o: &Delimiter) -> bool {
            match (*self, *o) { (Delimiter::Parenthesis, Delimiter::Parenthesis) => true, (Delimiter::Brace, Delimiter::Brace) => true, (Delimiter::Bracket, Delimiter::Bracket) => true, (Delimiter::None, Delimiter::None) => true, _ => false }
        }
    }
    impl Same<usize> for usize { open spec fn same(&self, o: &usize) -> bool { *self == *o } fn is_same(&self, o: &usize) -> bool { *self == *o } }
    impl Same<char> for char { open spec fn same(&self, o: &char) -> bool { *self == *o } fn is_same(&self, o: &char) -> bool { *self == *o } }
    pub fn std_eq<A: Same<B>, B>(a: &A, b: &B) -> (r: bool) ensures r == a.same(b) { a.is_same(b) }
    #[verifier::external_body]
    pub fn std_starts_with(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
    /// `s[a..]`
    #[verifier::external_body]
    pub fn std_from<'a>(s: &'a str, a: usize) -> (r: &'a str)
        requires str_bd(s.spec_bytes(), a as int)
        ensures r.spec_bytes() == s.spec_bytes().subrange(a as int, s.spec_bytes().len() as int)
    { &s[a..] }
}

pub mod tokens {
    use vstd::prelude::*;
    use vstd::string::*;
    use vstd::utf8::*;
    use crate::peg::{Parse, ParseElem, ParseLiteral, RuleResult};
    use crate::peg::lem::*;
    use crate::proc_macro2::{Delimiter, Group, Ident, Literal, Punct, Spacing, Span, TokenStream, TokenTree};

    //@@item src=peg-macros/tokens.rs sel="struct FlatTokenStream" pub
    //@@item src=peg-macros/tokens.rs sel="enum Token" pub
    //@@item src=peg-macros/tokens.rs sel="struct Sp" pub

    // ---- what flattening is ----
    /// the entries of one tree when the first of them is number `base`
    pub open spec fn flat_t(t: TokenTree, base: int) -> Seq<Token> decreases t {
        match t {
            TokenTree::Ident(i) => seq![Token::Ident(i)],
            TokenTree::Literal(l) => seq![Token::Literal(l)],
            TokenTree::Punct(p) => seq![Token::Punct(p)],
            TokenTree::Group(g) => {
                let inner = flat_v(g.trees, g.trees@.len() as int, base + 1);
                seq![Token::Begin(g, (base + inner.len() + 2) as usize)] + inner + seq![Token::End(g.delim, g.at)]
            }
        }
    }
    /// the entries of the first n trees of v
    pub open spec fn flat_v(v: Vec<TokenTree>, n: int, base: int) -> Seq<Token> decreases v, n {
        if n <= 0 || n > v@.len() { Seq::empty() } else {
            let a = flat_v(v, n - 1, base);
            a + flat_t(v@[n - 1], base + a.len())
        }
    }
    /// one step past the entry at p, over a whole group
    pub open spec fn after(ts: Seq<Token>, p: int) -> int {
        match ts[p] { Token::Begin(_, n) => n as int, _ => p + 1 }
    }
    /// the entries p..q are whole trees; each opening entry points past its closing one
    pub open spec fn whole(ts: Seq<Token>, p: int, q: int) -> bool decreases q - p {
        p == q || (0 <= p < q <= ts.len() && match ts[p] {
            Token::End(..) => false,
            Token::Begin(g, n) => p + 2 <= n <= q && ts[n - 1] == Token::End(g.delim, g.at) && ts.subrange(p, n as int) == flat_t(TokenTree::Group(g), p)
                && whole(ts, p + 1, n - 1) && whole(ts, n as int, q),
            _ => whole(ts, p + 1, q),
        })
    }
    /// ts says about each entry p..q what it should: the invariant of a flat token stream
    pub open spec fn wf(f: FlatTokenStream) -> bool { whole(f.tokens@, 0, f.tokens@.len() as int) }

    /// where running on from p up to a terminator ends: at it, at the end of the group around p, or at the end
    pub open spec fn stops(ts: Seq<Token>, p: int, c: char) -> bool {
        p < 0 || p >= ts.len() || ts[p] is End || (ts[p] is Punct && ts[p]->Punct_0.ch() == c)
    }
    pub open spec fn eaten(ts: Seq<Token>, p: int, c: char) -> int decreases ts.len() - p {
        if stops(ts, p, c) || after(ts, p) <= p || after(ts, p) > ts.len() { p } else { eaten(ts, after(ts, p), c) }
    }
    /// n >= 1 entries at p spell the text: punctuation followed by more punctuation, and one entry of any kind at the end
    pub open spec fn spells(ts: Seq<Token>, p: int, lit: Seq<char>, n: int) -> bool {
        1 <= n && 0 <= p && p + n <= ts.len()
        && (n == 1 || n - 1 < lit.len())
        && (forall|k: int| 0 <= k < n - 1 ==> (#[trigger] ts[p + k]) is Punct && ts[p + k]->Punct_0.ch() == lit[k] && ts[p + k]->Punct_0.joint())
        && spells1(ts[p + n - 1], lit.skip(n - 1))
    }
    pub open spec fn spells1(t: Token, lit: Seq<char>) -> bool {
        match t {
            Token::Ident(i) => i.name() == lit,
            Token::Punct(p) => lit == seq![p.ch()],
            Token::Begin(g, _) => open_s(g.delim) == lit,
            Token::End(d, _) => close_s(d) == lit,
            Token::Literal(_) => false,
        }
    }
    pub open spec fn open_s(d: Delimiter) -> Seq<char> { match d { Delimiter::Brace => "{"@, Delimiter::Bracket => "["@, Delimiter::Parenthesis => "("@, Delimiter::None => ""@ } }
    pub open spec fn close_s(d: Delimiter) -> Seq<char> { match d { Delimiter::Brace => "}"@, Delimiter::Bracket => "]"@, Delimiter::Parenthesis => ")"@, Delimiter::None => ""@ } }

    impl Clone for Token { #[verifier::external_body] fn clone(&self) -> (r: Token) ensures r == self { unimplemented!() } }

    pub open spec fn at(t: Token) -> Span {
        match t { Token::Ident(i) => i.at(), Token::Literal(l) => l.at(), Token::Punct(p) => p.at(), Token::Begin(g, _) => g.at, Token::End(_, s) => s }
    }
    impl Token {
        //@@fn src=peg-macros/tokens.rs sel="Token::span" vis
            ensures r == at(*self)
        //@@end
    }

    #[verifier::loop_isolation(false)]
    //@@fn src=peg-macros/tokens.rs sel="FlatTokenStream::new >> flatten" vis redirect="for"
        ensures
            final(tokens)@ == old(tokens)@ + flat_t(tree, old(tokens)@.len() as int),
        decreases tree
    //@@pre
        let ghost t0 = tree;
    //@@loop 0
        invariant
            __it.seq() == g.trees@,
            t0 == TokenTree::Group(g),
            start_pos == old(tokens)@.len(),
            tokens@ =~= old(tokens)@ + seq![Token::End(g.delim, g.at)] + flat_v(g.trees, __it.index(), start_pos + 1),
            forall|i: int| 0 <= i < __it.seq().len() ==> decreases_to!(t0 => #[trigger] __it.seq()[i]),
    //@@end

    pub proof fn whole_cat(ts: Seq<Token>, p: int, m: int, q: int)
        requires whole(ts, p, m), whole(ts, m, q), p <= m <= q <= ts.len(),
        ensures whole(ts, p, q)
        decreases m - p
    {
        if p < m { match ts[p] { Token::End(..) => {} Token::Begin(g, n) => { whole_cat(ts, n as int, m, q); } _ => { whole_cat(ts, p + 1, m, q); } } }
    }
    /// every entry of whole trees is well placed
    pub proof fn whole_at(ts: Seq<Token>, p: int, q: int, i: int)
        requires whole(ts, p, q), p <= i < q, ts[i] is Begin
        ensures i + 2 <= ts[i]->Begin_1 <= q, whole(ts, i, ts[i]->Begin_1 as int)
        decreases q - p
    {
        match ts[p] {
            Token::End(..) => {}
            Token::Begin(g, n) => { if i == p { assert(whole(ts, n as int, n as int)); } else if i < n - 1 { whole_at(ts, p + 1, n - 1, i); } else if i >= n { whole_at(ts, n as int, q, i); } }
            _ => { if i > p { whole_at(ts, p + 1, q, i); } }
        }
    }
    pub proof fn wf_at(f: FlatTokenStream, i: int)
        requires wf(f), 0 <= i < f.tokens@.len(), f.tokens@[i] is Begin
        ensures i + 2 <= f.tokens@[i]->Begin_1 <= f.tokens@.len(), whole(f.tokens@, i, f.tokens@[i]->Begin_1 as int)
    { whole_at(f.tokens@, 0, f.tokens@.len() as int, i); }

    pub proof fn flat_t_whole(t: TokenTree, ts: Seq<Token>, p: int)
        requires 0 <= p, p + flat_t(t, p).len() <= ts.len(), ts.len() <= usize::MAX, ts.subrange(p, p + flat_t(t, p).len()) =~= flat_t(t, p)
        ensures whole(ts, p, p + flat_t(t, p).len()), flat_t(t, p).len() >= 1
        decreases t
    {
        let f = flat_t(t, p);
        let s = ts.subrange(p, p + f.len());
        assert(s[0] == ts[p]);
        match t {
            TokenTree::Group(g) => {
                let inner = flat_v(g.trees, g.trees@.len() as int, p + 1);
                assert forall|k: int| 0 <= k < inner.len() implies ts[p + 1 + k] == inner[k] by { assert(s[1 + k] == ts[p + 1 + k]); }
                assert(ts.subrange(p + 1, p + 1 + inner.len()) =~= inner);
                flat_v_whole(g.trees, g.trees@.len() as int, ts, p + 1);
                assert(s[f.len() - 1] == ts[p + f.len() - 1]);
                assert(whole(ts, p + f.len(), p + f.len()));
            }
            _ => { assert(whole(ts, p + 1, p + 1)); }
        }
    }
    pub proof fn flat_v_whole(v: Vec<TokenTree>, n: int, ts: Seq<Token>, p: int)
        requires 0 <= p, 0 <= n <= v@.len(), p + flat_v(v, n, p).len() <= ts.len(), ts.len() <= usize::MAX, ts.subrange(p, p + flat_v(v, n, p).len()) =~= flat_v(v, n, p)
        ensures whole(ts, p, p + flat_v(v, n, p).len())
        decreases v, n
    {
        if n > 0 {
            let a = flat_v(v, n - 1, p);
            let b = flat_t(v@[n - 1], p + a.len());
            let s = ts.subrange(p, p + a.len() + b.len());
            assert(s =~= a + b);
            assert forall|k: int| 0 <= k < a.len() implies ts[p + k] == a[k] by { assert(s[k] == ts[p + k]); }
            assert forall|k: int| 0 <= k < b.len() implies ts[p + a.len() + k] == b[k] by { assert(s[a.len() + k] == ts[p + a.len() + k]); }
            assert(ts.subrange(p, p + a.len()) =~= a);
            assert(ts.subrange(p + a.len(), p + a.len() + b.len()) =~= b);
            flat_v_whole(v, n - 1, ts, p);
            flat_t_whole(v@[n - 1], ts, p + a.len());
            whole_cat(ts, p, p + a.len(), p + a.len() + b.len());
        }
    }
    pub proof fn len_bound(f: &FlatTokenStream) ensures f.tokens@.len() <= usize::MAX { vstd::std_specs::vec::axiom_spec_len(&f.tokens); }
    pub broadcast proof fn flat_wf(f: FlatTokenStream, v: Vec<TokenTree>, n: int)
        requires 0 <= n <= v@.len(), f.tokens@ == #[trigger] flat_v(v, n, 0),
        ensures #[trigger] wf(f)
    { len_bound(&f); assert(f.tokens@.subrange(0, f.tokens@.len() as int) =~= f.tokens@); flat_v_whole(v, n, f.tokens@, 0); }

    pub proof fn flat_t_some(t: TokenTree, p: int) ensures flat_t(t, p).len() >= 1 {}
    /// where tree k begins
    pub proof fn flat_at(v: Vec<TokenTree>, n: int, p: int, k: int)
        requires 0 <= k < n <= v@.len()
        ensures ({ let a = flat_v(v, k, p).len() as int; 0 <= a < flat_v(v, n, p).len() && flat_v(v, n, p)[a] == flat_t(v@[k], p + a)[0] })
        decreases n
    {
        flat_t_some(v@[n - 1], p + flat_v(v, n - 1, p).len());
        if k < n - 1 { flat_at(v, n - 1, p, k); }
    }
    pub proof fn flat_ext(v: Vec<TokenTree>, w: Vec<TokenTree>, n: int, p: int)
        requires 0 <= n <= v@.len(), n <= w@.len(), forall|k: int| 0 <= k < n ==> v@[k] == w@[k]
        ensures flat_v(v, n, p) == flat_v(w, n, p)
        decreases n
    { if n > 0 { flat_ext(v, w, n - 1, p); } }
    pub proof fn flat_tells_to(v: Vec<TokenTree>, n: int, w: Vec<TokenTree>, m: int, p: int, k: int)
        requires 0 <= k <= n <= v@.len(), k <= m <= w@.len(), flat_v(v, n, p) == flat_v(w, m, p)
        ensures forall|i: int| 0 <= i < k ==> v@[i] == w@[i]
        decreases k
    {
        if k > 0 {
            flat_tells_to(v, n, w, m, p, k - 1);
            flat_ext(v, w, k - 1, p);
            flat_at(v, n, p, k - 1); flat_at(w, m, p, k - 1);
            let a = p + flat_v(v, k - 1, p).len();
            let x = v@[k - 1]; let y = w@[k - 1];
            assert(flat_t(x, a)[0] == flat_t(y, a)[0]);
            match (x, y) { (TokenTree::Group(g), TokenTree::Group(h)) => { assert(flat_t(x, a)[0] == Token::Begin(g, flat_t(x, a)[0]->Begin_1)); } _ => {} }
        }
    }
    /// the entries tell the trees: nothing is lost, added or reordered
    pub proof fn flat_tells(v: Vec<TokenTree>, w: Vec<TokenTree>, p: int)
        requires flat_v(v, v@.len() as int, p) == flat_v(w, w@.len() as int, p)
        ensures v@ =~= w@
    {
        let n = v@.len() as int; let m = w@.len() as int;
        let k = if n < m { n } else { m };
        flat_tells_to(v, n, w, m, p, k);
        flat_ext(v, w, k, p);
        if n < m { flat_at(w, m, p, n); }
        if m < n { flat_at(v, n, p, m); }
    }

    impl FlatTokenStream {
        //@@fn src=peg-macros/tokens.rs sel="FlatTokenStream::new" vis redirect="for"
            ensures r.tokens@ == flat_v(stream.trees, stream.trees@.len() as int, 0), wf(r)
        //@@pre
            broadcast use flat_wf;
        //@@loop 0
            invariant
                __it.seq() == stream.trees@, tokens@ =~= flat_v(stream.trees, __it.index(), 0),
        //@@end
        //@@fn src=peg-macros/tokens.rs sel="FlatTokenStream::next_span" vis
            ensures r == (if pos < self.tokens@.len() { RuleResult::Matched(pos, at(self.tokens@[pos as int])) } else { RuleResult::Failed })
        //@@end
        //@@fn src=peg-macros/tokens.rs sel="FlatTokenStream::ident" vis
            ensures r == (if pos < self.tokens@.len() && self.tokens@[pos as int] is Ident { RuleResult::Matched((pos + 1) as usize, self.tokens@[pos as int]->Ident_0) } else { RuleResult::Failed })
        //@@pre
            proof { len_bound(self); }
        //@@end
        //@@fn src=peg-macros/tokens.rs sel="FlatTokenStream::literal" vis
            ensures r == (if pos < self.tokens@.len() && self.tokens@[pos as int] is Literal { RuleResult::Matched((pos + 1) as usize, self.tokens@[pos as int]->Literal_0) } else { RuleResult::Failed })
        //@@pre
            proof { len_bound(self); }
        //@@end
        //@@fn src=peg-macros/tokens.rs sel="FlatTokenStream::group" vis redirect="=="
            requires wf(*self)
            ensures
                r == (if pos < self.tokens@.len() && self.tokens@[pos as int] is Begin && self.tokens@[pos as int]->Begin_0.delim == delim { RuleResult::Matched(self.tokens@[pos as int]->Begin_1, self.tokens@[pos as int]->Begin_0) } else { RuleResult::Failed }),
                r is Matched ==> pos < r->Matched_0 <= self.tokens@.len() && whole(self.tokens@, pos as int, r->Matched_0 as int)
        //@@pre
            proof { len_bound(self); if pos < self.tokens@.len() && self.tokens@[pos as int] is Begin { wf_at(*self, pos as int); } }
        //@@end
        //@@fn src=peg-macros/tokens.rs sel="FlatTokenStream::eat_until" vis redirect="=="
            requires wf(*self)
            ensures
                r == (if stops(self.tokens@, initial_pos as int, end) { RuleResult::Failed } else { RuleResult::Matched(eaten(self.tokens@, initial_pos as int, end) as usize, ()) }),
                r is Matched ==> initial_pos < r->Matched_0 <= self.tokens@.len() && stops(self.tokens@, r->Matched_0 as int, end) && whole(self.tokens@, initial_pos as int, r->Matched_0 as int),
        //@@pre
            proof { len_bound(self); }
        //@@loop 0
            invariant
                wf(*self), self.tokens@.len() <= usize::MAX,
                initial_pos <= $POS,
                $POS != initial_pos ==> $POS <= self.tokens@.len() && !stops(self.tokens@, initial_pos as int, end),
                whole(self.tokens@, initial_pos as int, $POS as int),
                eaten(self.tokens@, initial_pos as int, end) == eaten(self.tokens@, $POS as int, end),
            ensures stops(self.tokens@, $POS as int, end)
            decreases self.tokens@.len() - $POS
        //@@loopbody 0
            proof { eat_step(*self, initial_pos as int, $POS as int, end); }
        //@@end
    }
    /// one step of running on
    pub proof fn eat_step(f: FlatTokenStream, p0: int, p: int, c: char)
        requires wf(f), 0 <= p0 <= p, whole(f.tokens@, p0, p)
        ensures !stops(f.tokens@, p, c) ==> ({
            let n = after(f.tokens@, p);
            p < n <= f.tokens@.len() && whole(f.tokens@, p0, n) && eaten(f.tokens@, p, c) == eaten(f.tokens@, n, c)
        })
    {
        let ts = f.tokens@;
        if !stops(ts, p, c) {
            let n = after(ts, p);
            if ts[p] is Begin { wf_at(f, p); } else { assert(whole(ts, p + 1, p + 1)); }
            whole_cat(ts, p0, p, n);
        }
    }
    impl Parse for FlatTokenStream {
        type PositionRepr = Sp;
        open spec fn s_valid(&self, p: int) -> bool { 0 <= p <= self.tokens@.len() }
        open spec fn s_end(&self) -> int { self.tokens@.len() as int }
        open spec fn s_repr(&self, p: int, r: Sp) -> bool { r.1 == p && (p < self.tokens@.len() ==> r.0 == at(self.tokens@[p])) }
        //@@fn src=peg-macros/tokens.rs sel="Parse for FlatTokenStream::start"
        //@@end
        //@@fn src=peg-macros/tokens.rs sel="Parse for FlatTokenStream::is_eof"
        //@@end
        //@@fn src=peg-macros/tokens.rs sel="Parse for FlatTokenStream::position_repr"
        //@@end
    }
    impl<'input> ParseElem<'input> for FlatTokenStream {
        type Element = &'input Token;
        open spec fn s_elem(&self, p: int) -> Option<(int, &'input Token)> { if 0 <= p < self.tokens@.len() { Some((p + 1, &self.tokens@[p])) } else { None } }
        //@@fn src=peg-macros/tokens.rs sel="ParseElem for FlatTokenStream::parse_elem"
        //@@pre
            proof { len_bound(self); }
        //@@end
    }
    //@@fn src=peg-macros/tokens.rs sel="fn delimiter_start" vis
        ensures r@ == open_s(d)
    //@@end
    //@@fn src=peg-macros/tokens.rs sel="fn delimiter_end" vis
        ensures r@ == close_s(d)
    //@@end
    /// the shortest rest of a text: without its first character, when that is ASCII
    pub proof fn rest_ascii(s: &str)
        requires s@.len() > 0, (s@[0] as u32) < 128
        ensures str_bd(s.spec_bytes(), 1), s.spec_bytes().len() == 1 <==> s@.len() == 1, s.spec_bytes().len() <= isize::MAX,
            forall|r: &str| #[trigger] r.spec_bytes() == s.spec_bytes().subrange(1, s.spec_bytes().len() as int) ==> r@ =~= s@.skip(1)
    {
        broadcast use str_view_bytes;
        str_facts(s);
        let c = s@[0];
        encode_utf8_first_scalar(s@);
        let e = encode_utf8(s@.drop_first());
        assert(s.spec_bytes() == encode_scalar(c as u32) + e);
        char_is_scalar(c);
        assert(has_width_1_encoding(c as u32));
        assert(encode_scalar(c as u32).len() == 1);
        assert(s.spec_bytes().subrange(1, s.spec_bytes().len() as int) =~= e);
        encode_utf8_decode_utf8(s@.drop_first());
        assert(s@.skip(1) =~= s@.drop_first());
        str_elem_facts(s, 0);
        assert(s.spec_bytes().subrange(0, s.spec_bytes().len() as int) =~= s.spec_bytes());
        if e.len() == 0 { assert(decode_utf8(e).len() == 0); } else { assert(s@.drop_first().len() > 0); }
    }
    pub open spec fn spelled(ts: Seq<Token>, p: int, lit: Seq<char>) -> bool { exists|n: int| spells(ts, p, lit, n) }
    pub proof fn spells_step(ts: Seq<Token>, p: int, lit: Seq<char>)
        requires 0 <= p < ts.len()
        ensures
            spells(ts, p, lit, 1) == spells1(ts[p], lit),
            forall|n: int| n != 1 && #[trigger] spells(ts, p, lit, n) ==> n > 1 && ts[p] is Punct && lit.len() > 0 && lit[0] == ts[p]->Punct_0.ch()
                && lit.len() > 1 && ts[p]->Punct_0.joint() && spells(ts, p + 1, lit.skip(1), n - 1),
            ts[p] is Punct && lit.len() > 1 && lit[0] == ts[p]->Punct_0.ch() && ts[p]->Punct_0.joint() ==>
                forall|n: int| #[trigger] spells(ts, p + 1, lit.skip(1), n) ==> spells(ts, p, lit, n + 1),
            ts[p] is Punct ==> (spells1(ts[p], lit) <==> lit.len() == 1 && lit[0] == ts[p]->Punct_0.ch()),
    {
        assert(lit.skip(0) =~= lit);
        if ts[p] is Punct && lit.len() == 1 && lit[0] == ts[p]->Punct_0.ch() { assert(lit =~= seq![ts[p]->Punct_0.ch()]); }
        assert forall|n: int| n != 1 && #[trigger] spells(ts, p, lit, n) implies n > 1 && ts[p] is Punct && lit.len() > 0 && lit[0] == ts[p]->Punct_0.ch()
                && lit.len() > 1 && ts[p]->Punct_0.joint() && spells(ts, p + 1, lit.skip(1), n - 1) by {
            assert(ts[p + 0] is Punct);
            assert(lit.skip(1).skip(n - 2) =~= lit.skip(n - 1));
            assert forall|k: int| 0 <= k < n - 2 implies (#[trigger] ts[p + 1 + k]) is Punct && ts[p + 1 + k]->Punct_0.ch() == lit.skip(1)[k] && ts[p + 1 + k]->Punct_0.joint() by {
                assert(ts[p + (k + 1)] is Punct);
            }
        }
        if ts[p] is Punct && lit.len() > 1 && lit[0] == ts[p]->Punct_0.ch() && ts[p]->Punct_0.joint() {
            assert forall|n: int| #[trigger] spells(ts, p + 1, lit.skip(1), n) implies spells(ts, p, lit, n + 1) by {
                assert(lit.skip(1).skip(n - 1) =~= lit.skip(n));
                assert forall|k: int| 0 <= k < n implies (#[trigger] ts[p + k]) is Punct && ts[p + k]->Punct_0.ch() == lit[k] && ts[p + k]->Punct_0.joint() by {
                    if k > 0 { assert(ts[p + 1 + (k - 1)] is Punct); assert(lit.skip(1)[k - 1] == lit[k]); }
                }
            }
        }
    }
    impl FlatTokenStream {
        //@@fn src=peg-macros/tokens.rs sel="ParseLiteral for FlatTokenStream::parse_string_literal" vis redirect="==,starts_with,from"
            ensures match r {
                RuleResult::Matched(q, _) => pos < q <= self.tokens@.len() && spells(self.tokens@, pos as int, literal@, q - pos),
                RuleResult::Failed => forall|n: int| !spells(self.tokens@, pos as int, literal@, n),
            }
            decreases self.tokens@.len() - pos
        //@@pre
            proof {
                len_bound(self);
                if literal@.len() > 0 && (literal@[0] as u32) < 128 { rest_ascii(literal); }
                if pos < self.tokens@.len() { spells_step(self.tokens@, pos as int, literal@); }
            }
        //@@end
    }
    pub broadcast proof fn push_ext(v: Vec<TokenTree>, w: Vec<TokenTree>, t: TokenTree, p: int)
        requires w@ == #[trigger] v@.push(t)
        ensures #[trigger] flat_v(w, w@.len() as int, p) == flat_v(v, v@.len() as int, p) + flat_t(t, p + flat_v(v, v@.len() as int, p).len())
    { flat_ext(v, w, v@.len() as int, p); }
    pub proof fn slice_step(ts: Seq<Token>, p1: int, p: int, p2: int)
        requires 0 <= p1 <= p < p2 <= ts.len(), whole(ts, p, p2)
        ensures !(ts[p] is End), p < after(ts, p) <= p2, whole(ts, after(ts, p), p2),
            ts.subrange(p1, after(ts, p)) == ts.subrange(p1, p) + ts.subrange(p, after(ts, p)),
            ts[p] is Begin ==> ts.subrange(p, after(ts, p)) == flat_t(TokenTree::Group(ts[p]->Begin_0), p),
            !(ts[p] is Begin) ==> ts.subrange(p, after(ts, p)) == seq![ts[p]],
    {
        assert(ts.subrange(p1, after(ts, p)) =~= ts.subrange(p1, p) + ts.subrange(p, after(ts, p)));
        if !(ts[p] is Begin) { assert(ts.subrange(p, p + 1) =~= seq![ts[p]]); }
    }
    impl<'input> FlatTokenStream {
        //@@fn src=peg-macros/tokens.rs sel="ParseSlice for FlatTokenStream::parse_slice" vis redirect="into"
            requires wf(*self), whole(self.tokens@, p1 as int, p2 as int), p2 <= self.tokens@.len(),
            ensures flat_v(r.trees, r.trees@.len() as int, p1 as int) =~= self.tokens@.subrange(p1 as int, p2 as int)
        //@@pre
            proof { len_bound(self); }
        //@@loop 0
            invariant
                wf(*self), self.tokens@.len() <= usize::MAX, p1 <= $POS <= p2, p2 <= self.tokens@.len(),
                whole(self.tokens@, $POS as int, p2 as int),
                flat_v(ts.trees, ts.trees@.len() as int, p1 as int) =~= self.tokens@.subrange(p1 as int, $POS as int),
            decreases p2 - $POS
        //@@loopbody 0
            broadcast use push_ext;
            proof { slice_step(self.tokens@, p1 as int, $POS as int, p2 as int); }
        //@@end
    }
    // ---- theorems over the contracts ----
    /// what parse_slice takes is what was there: any trees that flatten to these entries are the ones taken
    pub proof fn slice_tells(f: FlatTokenStream, v: Vec<TokenTree>, r: TokenStream, p1: int, p2: int)
        requires
            flat_v(r.trees, r.trees@.len() as int, p1) =~= f.tokens@.subrange(p1, p2),
            flat_v(v, v@.len() as int, p1) =~= f.tokens@.subrange(p1, p2),
        ensures r.trees@ == v@
    { flat_tells(r.trees, v, p1); }
    /// the whole input comes back
    pub proof fn all_back(f: FlatTokenStream, s: TokenStream, r: TokenStream)
        requires
            f.tokens@ == flat_v(s.trees, s.trees@.len() as int, 0),
            flat_v(r.trees, r.trees@.len() as int, 0) =~= f.tokens@.subrange(0, f.tokens@.len() as int),
        ensures r.trees@ == s.trees@
    { assert(f.tokens@.subrange(0, f.tokens@.len() as int) =~= f.tokens@); slice_tells(f, s.trees, r, 0, f.tokens@.len() as int); }
    /// a text is spelled by at most one run of entries
    pub proof fn one_spelling(ts: Seq<Token>, p: int, lit: Seq<char>, n: int, m: int)
        requires spells(ts, p, lit, n), spells(ts, p, lit, m)
        ensures n == m
        decreases n
    {
        spells_step(ts, p, lit);
        if n != 1 && m != 1 { assert(spells(ts, p + 1, lit.skip(1), n - 1)); assert(spells(ts, p + 1, lit.skip(1), m - 1)); one_spelling(ts, p + 1, lit.skip(1), n - 1, m - 1); }
    }
}
