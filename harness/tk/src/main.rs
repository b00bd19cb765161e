//! Enumerates token trees and compares peg-macros/tokens.rs with an independent reading of them.
//! args: seed, number of random streams. Prints FAIL lines, then DONE.
#![allow(dead_code, unused)]
extern crate peg_runtime as peg;
extern crate proc_macro2;
#[path = "/repo/peg-macros/tokens.rs"]
mod tokens;
use peg::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
use proc_macro2::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::time::{Duration, Instant};
use tokens::{FlatTokenStream, Token};

#[derive(Clone, Debug, PartialEq)]
enum K { Id, Lit, Pu(char, bool), Open(Delimiter, usize), Close(Delimiter) }
#[derive(Clone, Debug)]
struct En { k: K, text: String, /// first entry not in the same group
    upto: usize, tree: String }
fn ends(d: Delimiter) -> (&'static str, &'static str) {
    match d { Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::Parenthesis => ("(", ")"), Delimiter::None => ("", "") }
}
fn show(t: &TokenTree) -> String {
    match t {
        TokenTree::Group(g) => { let v: Vec<String> = g.stream().into_iter().map(|t| show(&t)).collect(); format!("{:?}<{}>", g.delimiter(), v.join(" ")) }
        TokenTree::Ident(i) => format!("i{}", i),
        TokenTree::Literal(i) => format!("l{}", i),
        TokenTree::Punct(p) => format!("p{}{:?}", p.as_char(), p.spacing()),
    }
}
fn shows(ts: TokenStream) -> String { ts.into_iter().map(|t| show(&t)).collect::<Vec<_>>().join(" ") }
fn lay(ts: TokenStream, out: &mut Vec<En>) {
    let from = out.len();
    for t in ts {
        let tree = show(&t);
        match t {
            TokenTree::Ident(i) => out.push(En { k: K::Id, text: i.to_string(), upto: 0, tree }),
            TokenTree::Literal(i) => out.push(En { k: K::Lit, text: i.to_string(), upto: 0, tree }),
            TokenTree::Punct(p) => out.push(En { k: K::Pu(p.as_char(), p.spacing() == Spacing::Joint), text: p.as_char().to_string(), upto: 0, tree }),
            TokenTree::Group(g) => {
                let at = out.len();
                out.push(En { k: K::Open(g.delimiter(), 0), text: ends(g.delimiter()).0.into(), upto: 0, tree: tree.clone() });
                lay(g.stream(), out);
                let n = out.len() + 1;
                out[at].k = K::Open(g.delimiter(), n);
                out.push(En { k: K::Close(g.delimiter()), text: ends(g.delimiter()).1.into(), upto: n, tree: String::new() });
                for e in &mut out[at + 1..n - 1] { if e.upto == 0 { e.upto = n - 1 } }
            }
        }
    }
}
fn next(e: &[En], p: usize) -> usize { if let K::Open(_, n) = e[p].k { n } else { p + 1 } }
fn lit(e: &[En], p: usize, l: &str) -> Option<usize> {
    if p >= e.len() { return None }
    match &e[p].k {
        K::Pu(c, j) => {
            if l == c.to_string() { return Some(p + 1) }
            if *j && l.starts_with(*c) && l.len() > 1 { return lit(e, p + 1, &l[c.len_utf8()..]) }
            None
        }
        K::Lit => None,
        _ => if e[p].text == l { Some(p + 1) } else { None },
    }
}
fn pos<T>(r: &RuleResult<T>) -> Option<usize> { match r { RuleResult::Matched(p, _) => Some(*p), RuleResult::Failed => None } }

static NOW: Mutex<Option<(Instant, String)>> = Mutex::new(None);
const LITS: &[&str] = &["a", "b", "ab", "1", "+", "++", "+-", "+++", ";", "(", ")", "{", "}", "[", "]", "", "+a", "é", "'a", "-", "=>", "()"];

fn case(ts: TokenStream, fails: &mut Vec<String>) -> u64 {
    let name = shows(ts.clone());
    let mut e = vec![];
    lay(ts.clone(), &mut e);
    for x in &mut e { if x.upto == 0 { x.upto = usize::MAX } }
    let n = e.len();
    for x in &mut e { if x.upto == usize::MAX { x.upto = n } }
    let mut cases = 0;
    let mut bad = |what: String| if fails.len() < 20 { fails.push(format!("token stream `{}`: {}", name, what)) };
    macro_rules! go { ($what:expr, $e:expr) => {{
        *NOW.lock().unwrap() = Some((Instant::now(), format!("token stream `{}`: {}", name, $what)));
        cases += 1;
        match catch_unwind(AssertUnwindSafe(|| $e)) { Ok(v) => Some(v), Err(_) => { bad(format!("{} panics", $what)); None } }
    }} }
    let f = match go!("flattening", FlatTokenStream::new(ts.clone())) { Some(f) => f, None => return cases };
    for p in 0..n + 2 {
        if let Some(r) = go!(format!("entry {}", p), f.parse_elem(p)) {
            let ok = match (&r, e.get(p)) {
                (RuleResult::Failed, None) => true,
                (RuleResult::Matched(q, t), Some(x)) => *q == p + 1 && match (t, &x.k) {
                    (Token::Ident(i), K::Id) => i.to_string() == x.text,
                    (Token::Literal(i), K::Lit) => i.to_string() == x.text,
                    (Token::Punct(i), K::Pu(c, j)) => i.as_char() == *c && (i.spacing() == Spacing::Joint) == *j,
                    (Token::Begin(g, m), K::Open(d, k)) => g.delimiter() == *d && m == k && show(&TokenTree::Group(g.clone())) == x.tree,
                    (Token::End(d, _), K::Close(k)) => d == k,
                    _ => false,
                },
                _ => false,
            };
            if !ok { bad(format!("entry {} is {:?}, expected {:?}", p, pos(&r), e.get(p))) }
        }
        let here = e.get(p).map(|x| x.k.clone());
        if let Some(r) = go!(format!("ident at {}", p), f.ident(p)) {
            let want = if here == Some(K::Id) { Some(p + 1) } else { None };
            let txt = match &r { RuleResult::Matched(_, i) => i.to_string() == e[p].text, _ => true };
            if pos(&r) != want || !txt { bad(format!("ident at {}: {:?}, expected {:?}", p, pos(&r), want)) }
        }
        if let Some(r) = go!(format!("literal at {}", p), f.literal(p)) {
            let want = if here == Some(K::Lit) { Some(p + 1) } else { None };
            let txt = match &r { RuleResult::Matched(_, i) => i.to_string() == e[p].text, _ => true };
            if pos(&r) != want || !txt { bad(format!("literal at {}: {:?}, expected {:?}", p, pos(&r), want)) }
        }
        if let Some(r) = go!(format!("next_span at {}", p), f.next_span(p)) {
            if pos(&r) != here.as_ref().map(|_| p) { bad(format!("next_span at {}: {:?}", p, pos(&r))) }
        }
        for d in [Delimiter::Brace, Delimiter::Bracket, Delimiter::Parenthesis, Delimiter::None].iter() {
            if let Some(r) = go!(format!("group {:?} at {}", d, p), f.group(p, *d)) {
                let want = match here { Some(K::Open(k, n)) if k == *d => Some(n), _ => None };
                let txt = match &r { RuleResult::Matched(_, g) => show(&TokenTree::Group(g.clone())) == e[p].tree, _ => true };
                if pos(&r) != want || !txt { bad(format!("group {:?} at {}: {:?}, expected {:?}", d, p, pos(&r), want)) }
            }
        }
        if p <= n {
            if let Some(r) = go!(format!("is_eof({})", p), f.is_eof(p)) { if r != (p == n) { bad(format!("is_eof({}) is {}", p, r)) } }
            if let Some(r) = go!(format!("position_repr({})", p), f.position_repr(p)) { if r.1 != p { bad(format!("position_repr({}) is {}", p, r.1)) } }
        }
        for c in [';', '+', ','].iter() {
            if let Some(r) = go!(format!("eat_until {:?} at {}", c, p), f.eat_until(p, *c)) {
                let mut q = p;
                while q < n && !matches!(&e[q].k, K::Close(_)) && !matches!(&e[q].k, K::Pu(x, _) if x == c) { q = next(&e, q) }
                let want = if q == p { None } else { Some(q) };
                if pos(&r) != want { bad(format!("eat_until {:?} at {}: {:?}, expected {:?}", c, p, pos(&r), want)) }
            }
        }
        for l in LITS {
            if let Some(r) = go!(format!("literal {:?} at {}", l, p), f.parse_string_literal(p, l)) {
                let want = lit(&e, p, l);
                if pos(&r) != want { bad(format!("literal {:?} at {}: {:?}, expected {:?}", l, p, pos(&r), want)) }
            }
        }
        if p <= n {
            // the trees from p on, up to every place that leaves them whole
            let (mut q, mut want) = (p, String::new());
            loop {
                if let Some(r) = go!(format!("tokens {}..{}", p, q), shows(f.parse_slice(p, q))) {
                    if r != want { bad(format!("tokens {}..{}: `{}`, expected `{}`", p, q, r, want)) }
                }
                if q >= n || matches!(e[q].k, K::Close(_)) { break }
                if !want.is_empty() { want.push(' ') }
                want.push_str(&e[q].tree);
                q = next(&e, q);
            }
        }
    }
    cases
}

fn leaf(k: usize) -> TokenTree {
    let pu = |c, s| TokenTree::Punct(Punct::new(c, s));
    match k {
        0 => TokenTree::Ident(Ident::new("a", Span::call_site())),
        1 => TokenTree::Ident(Ident::new("ab", Span::call_site())),
        2 => TokenTree::Literal(Literal::usize_unsuffixed(1)),
        3 => pu('+', Spacing::Joint),
        4 => pu('+', Spacing::Alone),
        5 => pu(';', Spacing::Alone),
        6 => pu('-', Spacing::Alone),
        7 => TokenTree::Literal(Literal::string("a")),
        8 => pu('=', Spacing::Joint),
        9 => pu('>', Spacing::Alone),
        10 => pu('\'', Spacing::Joint),
        11 => pu(',', Spacing::Alone),
        _ => TokenTree::Ident(Ident::new("é", Span::call_site())),
    }
}
const DS: [Delimiter; 4] = [Delimiter::Parenthesis, Delimiter::Brace, Delimiter::Bracket, Delimiter::None];
/// every stream of exactly `size` nodes over the first `k` leaves and `d` delimiters
fn all(size: usize, k: usize, d: usize, f: &mut dyn FnMut(Vec<TokenTree>)) {
    if size == 0 { return f(vec![]) }
    for l in 0..k {
        all(size - 1, k, d, &mut |mut v| { v.insert(0, leaf(l)); f(v) });
    }
    for inner in 0..size {
        for x in 0..d {
            all(inner, k, d, &mut |w| {
                let g = TokenTree::Group(Group::new(DS[x], w.into_iter().collect()));
                all(size - 1 - inner, k, d, &mut |mut v| { v.insert(0, g.clone()); f(v) });
            });
        }
    }
}
fn rnd(s: &mut u64) -> u64 { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; *s }
fn random(s: &mut u64, depth: usize) -> TokenStream {
    let n = rnd(s) % 6;
    (0..n).map(|_| if depth > 0 && rnd(s) % 4 == 0 {
        let d = DS[(rnd(s) % 4) as usize];
        TokenTree::Group(Group::new(d, random(s, depth - 1)))
    } else { leaf((rnd(s) % 13) as usize) }).collect()
}

fn main() {
    let a: Vec<u64> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_millis(500));
        if let Some((t, w)) = &*NOW.lock().unwrap() {
            if t.elapsed() > Duration::from_secs(10) { println!("FAIL {}: does not end", w); println!("DONE 0 0"); std::process::exit(0) }
        }
    });
    let (mut fails, mut cases, mut deep) = (vec![], 0u64, 0u64);
    for size in 0..4 { all(size, 7, 4, &mut |v| { cases += case(v.into_iter().collect(), &mut fails); deep += 1 }) }
    all(4, 4, 2, &mut |v| { cases += case(v.into_iter().collect(), &mut fails); deep += 1 });
    if a[2] > 0 { all(5, 3, 1, &mut |v| { cases += case(v.into_iter().collect(), &mut fails); deep += 1 }) }
    let mut s = a[0] * 2654435769 + 88172645463325252;
    for _ in 0..a[1] { cases += case(random(&mut s, 5), &mut fails); deep += 1 }
    // deep nesting
    let mut ts = TokenStream::new();
    for k in 0..200 { ts = vec![leaf(k % 13), TokenTree::Group(Group::new(DS[k % 4], ts)), leaf((k + 5) % 13)].into_iter().collect() }
    let mut e = vec![];
    lay(ts.clone(), &mut e);
    cases += case(ts, &mut fails);
    for f in &fails { println!("FAIL {}", f.replace('\n', " ")) }
    println!("DONE {} {}", cases, deep);
}
