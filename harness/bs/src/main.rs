//! The committed parser of grammars against (1) the published grammar run as a plain recursive program
//! (reference.rs, generated from grammar.rustpeg on each run) and (2) texts written from syntax trees.
//! args: seed, number of random texts, most sequences of one length in one place. Prints FAIL lines, then DONE.
#![allow(dead_code, unused)]
extern crate peg_runtime as peg;
extern crate proc_macro2;
#[path = "/repo/peg-macros/ast.rs"]
mod ast;
#[path = "/repo/peg-macros/grammar.rs"]
mod grammar;
#[path = "/repo/peg-macros/tokens.rs"]
mod tokens;
#[path = "/BUILD/reference.rs"]
mod reference;
mod trees;
use proc_macro2::*;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E3779B97F4A7C15) | 1) }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0 >> 11 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

static FAILS: AtomicUsize = AtomicUsize::new(0);
static CASES: AtomicUsize = AtomicUsize::new(0);
static READ: AtomicUsize = AtomicUsize::new(0);
pub fn fail(s: String) {
    if FAILS.fetch_add(1, SeqCst) < 5 { println!("FAIL {}", s.replace('\n', " ")) }
}
fn clip(s: &str, n: usize) -> String { s.chars().take(n).collect() }

/// the first place where two printed trees differ
fn differ(a: &str, b: &str) -> String {
    let k = a.bytes().zip(b.bytes()).take_while(|(x, y)| x == y).count();
    let k = k.saturating_sub(60);
    format!("`{}` instead of `{}`", clip(a.get(k..).unwrap_or(a), 160), clip(b.get(k..).unwrap_or(b), 160))
}

pub fn same(text: &str) {
    let ts: TokenStream = match text.parse() { Ok(t) => t, Err(_) => return };
    stream(text, ts)
}
fn stream(text: &str, ts: TokenStream) {
    CASES.fetch_add(1, SeqCst);
    let flat = tokens::FlatTokenStream::new(ts);
    let real = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| grammar::peg::peg_grammar(&flat)));
    let real = match real { Ok(r) => r, Err(_) => return fail(format!("{}: the parser of grammars panics", text)) };
    let want = reference::parse(&flat);
    match (&real, &want) {
        (Ok(a), Some(b)) => {
            READ.fetch_add(1, SeqCst);
            let (a, b) = (format!("{:?}", a), format!("{:?}", b));
            if a != b { fail(format!("{}: read as {}", text, differ(&a, &b))) }
        }
        (Ok(_), None) => fail(format!("{}: accepted, but not described by grammar.rustpeg", text)),
        (Err(e), Some(_)) => fail(format!("{}: rejected (expected {}), but described by grammar.rustpeg", text, e.expected)),
        (Err(_), None) => (),
    }
}

/// what rule bodies are made of
const BODY: &[&str] = &["\"x\"", "a()", "b", "_", "l:", "?", "*", "**", "+", "++", "<2>", "<1,>", "<,{n}>", ",", "$", "&", "!", "(\"y\")", "(@)", "@", "(\"y\" /)", "()", "{0}", "/", "--", "#{|i,p| f(i,p)}", "##m()", "#",
    "quiet!{\"q\"}", "quiet", "position!()", "expected!(\"e\")", "precedence!{@ \"+\" @ {1} -- n() {2}}", "['a']", ";", "rule", "a::<T>(<\"x\">, 1)", "'l", "->", "=", "pub", "::", "r#use", "3"];
/// what grammars are made of
const HEAD: &[&str] = &["pub", "(crate)", "rule", "r()", "r", "_", "(x: T)", "(p: rule<T>)", "<T>", "<'a>", "<'a: 'b, T: C + 'd>", "->", "T", "where", "T: C", ",", "=", "\"x\"", ";", "#[cache]", "#[cache_left_rec]", "#[no_eof]", "#[doc = \"d\"]", "#[x]",
    "use", "a::b", "::", "*", "as c", "{a, b as c}", "{}", "crate"];
/// what types are made of
const TYPE: &[&str] = &["&", "'a", "mut", "dyn", "impl", "C", "::", "<", ">", "(", ")", "(A, B)", "()", "->", "[T; 3]", "+", "?", "for<'a>", ",", "as", "{N}", "1", "C<D>", "!", "*"];
const WRAPS: &[(&str, &[&str])] = &[("grammar g() for str { rule r() = ", BODY), ("grammar g() for str { rule r() = precedence!{ ", BODY), ("grammar g() for str { ", HEAD), ("grammar g() for str { rule r() -> ", TYPE),
    ("grammar g() for ", TYPE), ("grammar g(x: ", TYPE), ("grammar g() for str { rule r(x: ", TYPE), ("", HEAD), ("grammar g() for str { rule r() where T: ", TYPE), ("grammar g() for str { rule r<T: ", TYPE), ("grammar g() for str { rule r() = a(", BODY),
    ("grammar g() for str { rule r() = precedence! { ", &["@", "\"x\"", "{0}", "--", "l:", "(@)", "/"]), ("grammar g() for str { use ", &["a", "::", "*", "as", "{b, c as d}", "{b,}", "{}", ",", "crate", ";"]),
    ("grammar g() for str { rule r(", &["x", ":", "T", "rule<T>", ",", "rule", "<", ">"]), ("grammar g() for str { rule r<", &["T", ":", "'a", "+", ",", "(?D)", ">() =", "\"x\""]), ("grammar g() for str { rule r() = \"x\"*<", &["1", "{n}", ",", ">", "x", "<"]),
    ("grammar g() for str { rule r() = a::<", &["T", "'a", "{N}", "1", ",", ">(", ")"])];
fn close(w: &str, s: &str) -> String {
    let mut t = format!("{}{}", w, s);
    if w.ends_with("grammar g() for ") { return t + " { rule r() = \"x\" }" }
    if w.ends_with("(x: ") && !w.contains('{') { return t + ") for str { }" }
    if w.ends_with("(x: ") || w.ends_with("r<T: ") { t += if w.ends_with("(x: ") { ") = \"x\" }" } else { ">() = \"x\" }" }; return t }
    if w.ends_with("a(") { return t + ") \"z\" }" }
    if w.ends_with("-> ") || w.ends_with("where T: ") { return t + " = \"x\" }" }
    if w.ends_with("{ use ") { return t + "; }" }
    if w.ends_with("rule r(") { return t + ") = \"x\" }" }
    if w.ends_with("precedence! { ") { return t + " } }" }
    if w.ends_with("precedence!{ ") { return t + " {0} } }" }
    if w.is_empty() { return t + " grammar g() for str { rule q() = \"x\" }" }
    t + " }"
}

fn toks(ts: TokenStream) -> Vec<TokenTree> { ts.into_iter().collect() }
/// one change at a random place and depth
fn mutate(ts: TokenStream, r: &mut Rng, pool: &[TokenTree]) -> TokenStream {
    let mut v = toks(ts);
    let groups: Vec<usize> = (0..v.len()).filter(|&i| matches!(&v[i], TokenTree::Group(_))).collect();
    if !groups.is_empty() && r.below(8) != 0 {
        let i = *r.pick(&groups);
        if let TokenTree::Group(g) = &v[i] {
            let d = if r.below(40) == 0 { *r.pick(&[Delimiter::Brace, Delimiter::Bracket, Delimiter::Parenthesis, Delimiter::None]) } else { g.delimiter() };
            v[i] = TokenTree::Group(Group::new(d, mutate(g.stream(), r, pool)));
        }
    } else if !v.is_empty() {
        let i = r.below(v.len());
        match r.below(5) {
            0 => { v.remove(i); }
            1 => { let t = v[i].clone(); v.insert(i, t) }
            2 => { let j = r.below(v.len()); v.swap(i, j) }
            3 => v[i] = r.pick(pool).clone(),
            _ => v.insert(i, r.pick(pool).clone()),
        }
    } else if !pool.is_empty() { v.push(r.pick(pool).clone()) }
    v.into_iter().collect()
}

fn threads(n: usize, f: impl Fn(usize) + Send + Sync + Clone + 'static) {
    let hs: Vec<_> = (0..n).map(|k| { let f = f.clone(); std::thread::Builder::new().stack_size(1 << 28).spawn(move || f(k)).unwrap() }).collect();
    for h in hs { if h.join().is_err() { fail("the comparison itself panics".into()) } }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let (seed, n, len): (u64, usize, usize) = (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap());
    let published = std::fs::read_to_string("/repo/peg-macros/grammar.rustpeg").unwrap();
    const T: usize = 7;
    threads(T, move |k| {
        if k == 0 { same(&published) }
        // every sequence of up to `len` pieces
        for (w, al) in WRAPS {
            for l in 0..9 {
                let total = al.len().pow(l as u32);
                if total > len { break }
                for c in (k..total).step_by(T) {
                    let (mut c, mut s) = (c, String::new());
                    for _ in 0..l { s.push_str(al[c % al.len()]); s.push(' '); c /= al.len() }
                    same(&close(w, &s))
                }
            }
        }
        // longer ones, random
        let mut r = Rng::new(seed * 100 + k as u64);
        for _ in 0..n / T {
            let (w, al) = r.pick(WRAPS);
            let l = 3 + r.below(6);
            let mut s = String::new();
            for _ in 0..l { s.push_str(r.pick(al)); s.push(' ') }
            same(&close(w, &s))
        }
        // changes of grammars
        let mut pool = vec![];
        for s in BODY.iter().chain(HEAD).chain(TYPE) { if let Ok(t) = s.parse::<TokenStream>() { pool.extend(toks(t)) } }
        let base: Vec<TokenStream> = vec![published.parse().unwrap()];
        for m in 0..n / T / 4 {
            let mut t = if m % 100 == 0 { base[0].clone() } else { trees::grammar(&mut r).0.parse().unwrap() };
            for _ in 0..1 + r.below(3) { t = mutate(t, &mut r, &pool) }
            let s = t.to_string();
            stream(&s, t);
        }
        // texts written from trees
        for _ in 0..n / T {
            let (text, want) = trees::grammar(&mut r);
            CASES.fetch_add(1, SeqCst);
            let ts: TokenStream = match text.parse() { Ok(t) => t, Err(_) => { fail(format!("not a token stream: {}", text)); continue } };
            let flat = tokens::FlatTokenStream::new(ts);
            match grammar::peg::peg_grammar(&flat) {
                Ok(g) => { READ.fetch_add(1, SeqCst); let got = trees::show(&g); if got != want { fail(format!("{}: read as {}", text, differ(&got, &want))) } }
                Err(e) => fail(format!("{}: rejected (expected {}), but it is a grammar", text, e.expected)),
            }
        }
    });
    println!("DONE {} {} {}", CASES.load(SeqCst), READ.load(SeqCst), FAILS.load(SeqCst));
}
