//! Bounded search for inputs on which the runtime breaks C07/C08, C10-C13. Prints one JSON
//! line per failing case ("FAIL ...") and "CASES n nontrivial m" at the end.
use peg_runtime::error::ErrorState;
use peg_runtime::str::LineCol;
use peg_runtime::{Parse, ParseElem, ParseLiteral, ParseSlice, RuleResult};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct T { cases: u64, nontrivial: u64, fails: u64, samples: Vec<String> }
impl T {
    fn check(&mut self, nt: bool, case: impl Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.cases += 1;
        if nt { self.nontrivial += 1 }
        if nt && self.samples.len() < 5 && self.nontrivial % 997 == 1 { self.samples.push(case()) }
        let r = match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => r,
            Err(e) => Err(format!("panic: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
        };
        if let Err(e) = r {
            self.fails += 1;
            if self.fails <= 5 { println!("FAIL {} => {}", case(), e) }
        }
    }
}
fn eq<A: PartialEq + std::fmt::Debug>(what: &str, got: A, want: A) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what}: got {got:?}, expected {want:?}")) }
}
const ALPHA: &[char] = &['a', '\n', 'é', '日', '😀', '\r', '\u{301}'];
fn strings(k: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    let mut last = v.clone();
    for _ in 0..k {
        let mut n = vec![];
        for s in &last { for c in ALPHA { n.push(format!("{s}{c}")) } }
        v.extend(n.iter().cloned());
        last = n;
    }
    v
}
fn boundaries(s: &str) -> Vec<usize> {
    let mut v: Vec<usize> = s.char_indices().map(|(i, _)| i).collect();
    v.push(s.len());
    v
}
fn c10(t: &mut T, k: usize) {
    let lits = strings(2);
    for s in strings(k) {
        let b = boundaries(&s);
        t.check(false, || format!("start of {s:?}"), || eq("start", Parse::start(s.as_str()), 0));
        for (i, &p) in b.iter().enumerate() {
            t.check(true, || format!("end of input? {s:?} at {p}"), || eq("is_eof", Parse::is_eof(s.as_str(), p), p == s.len()));
            t.check(true, || format!("element of {s:?} at {p}"), || {
                let want = match b.get(i + 1) { Some(&n) => RuleResult::Matched(n, s.chars().nth(i).unwrap()), None => RuleResult::Failed };
                eq("parse_elem", ParseElem::parse_elem(s.as_str(), p), want)
            });
            for l in &lits {
                t.check(!l.is_empty(), || format!("literal {l:?} in {s:?} at {p}"), || {
                    let (lb, sb) = (l.as_bytes(), s.as_bytes());
                    let here = sb.len() >= p + lb.len() && (0..lb.len()).all(|j| sb[p + j] == lb[j]);
                    eq("parse_string_literal", ParseLiteral::parse_string_literal(s.as_str(), p, l), if here { RuleResult::Matched(p + lb.len(), ()) } else { RuleResult::Failed })
                });
            }
            for &q in &b[i..] {
                t.check(q > p, || format!("slice of {s:?} from {p} to {q}"), || {
                    let got: &str = ParseSlice::parse_slice(s.as_str(), p, q);
                    eq("parse_slice", got.as_bytes().to_vec(), (p..q).map(|j| s.as_bytes()[j]).collect())
                });
            }
        }
    }
}
/// a literal of every length, whole, cut short, and with each single byte or character changed
fn long_literals(t: &mut T, utf8: bool, deep: bool) {
    let n = if deep { 300 } else { 80 };
    let chars: Vec<char> = (0..n).map(|i| if i % 5 == 3 { ['é', '日', '😀'][i / 5 % 3] } else { (b'a' + (i % 26) as u8) as char }).collect();
    for len in 1..=n {
        let lit: String = chars[..len].iter().collect();
        let mut inputs: Vec<String> = vec![lit.clone(), format!("{lit}z"), chars[..len - 1].iter().collect()];
        for i in 0..len {
            let mut c = chars[..len].to_vec();
            c[i] = if c[i] == 'é' { 'è' } else if c[i].is_ascii() { c[i].to_ascii_uppercase() } else { '本' };
            inputs.push(c.iter().collect());
        }
        for s in &inputs {
            for pre in ["", "q"] {
                let s = format!("{pre}{s}");
                let p = pre.len();
                let want = if s.as_bytes()[p..].starts_with(lit.as_bytes()) { RuleResult::Matched(p + lit.len(), ()) } else { RuleResult::Failed };
                t.check(true, || format!("literal {lit:?} in {s:?} at {p}"), || {
                    if utf8 { eq("parse_string_literal", ParseLiteral::parse_string_literal(s.as_str(), p, &lit), want) }
                    else { eq("parse_string_literal on bytes", ParseLiteral::parse_string_literal(s.as_bytes(), p, &lit), want) }
                });
            }
        }
    }
}
fn c11(t: &mut T, k: usize) {
    let alpha: &[u8] = &[b'a', b'b', 0, 0xc3, 0xa9, 0xff];
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..k {
        let mut n = vec![];
        for s in &last { for c in alpha { let mut x: Vec<u8> = s.clone(); x.push(*c); n.push(x) } }
        all.extend(n.iter().cloned());
        last = n;
    }
    let lits = ["", "a", "b", "ab", "aab", "é", "aé", "\0", "ba\0", "日"];
    for s in &all {
        let s: &[u8] = s;
        let w: Vec<u32> = s.iter().map(|x| *x as u32 * 1000).collect();
        t.check(false, || format!("start of {s:?}"), || eq("start", Parse::start(s), 0));
        for p in 0..=s.len() {
            t.check(true, || format!("end of input? {s:?} at {p}"), || eq("is_eof", Parse::is_eof(s, p), p == s.len()));
            t.check(true, || format!("position_repr in {s:?} at {p}"), || eq("position_repr", Parse::position_repr(s, p), p));
            t.check(true, || format!("element of {s:?} at {p}"), || eq("parse_elem", ParseElem::parse_elem(s, p), if p < s.len() { RuleResult::Matched(p + 1, s[p]) } else { RuleResult::Failed }));
            t.check(true, || format!("element of {w:?} at {p}"), || eq("parse_elem", ParseElem::parse_elem(&w[..], p), if p < w.len() { RuleResult::Matched(p + 1, w[p]) } else { RuleResult::Failed }));
            for l in lits {
                t.check(!l.is_empty(), || format!("literal {l:?} in {s:?} at {p}"), || {
                    let lb = l.as_bytes();
                    let here = s.len() >= p + lb.len() && (0..lb.len()).all(|j| s[p + j] == lb[j]);
                    eq("parse_string_literal", ParseLiteral::parse_string_literal(s, p, l), if here { RuleResult::Matched(p + lb.len(), ()) } else { RuleResult::Failed })
                });
            }
            for q in p..=s.len() {
                t.check(q > p, || format!("slice of {s:?} from {p} to {q}"), || {
                    let got: &[u8] = ParseSlice::parse_slice(s, p, q);
                    eq("parse_slice", got.to_vec(), (p..q).map(|j| s[j]).collect())
                });
                t.check(q > p, || format!("slice of {w:?} from {p} to {q}"), || {
                    let got: &[u32] = ParseSlice::parse_slice(&w[..], p, q);
                    eq("parse_slice", got.to_vec(), (p..q).map(|j| w[j]).collect())
                });
            }
        }
    }
}
fn c12(t: &mut T, k: usize) {
    let one = |t: &mut T, s: &str| {
        for p in boundaries(s) {
            t.check(p > 0, || format!("position_repr in {s:?} at {p}"), || {
                let (mut line, mut column) = (1usize, 1usize);
                for (i, c) in s.char_indices() { if i < p { if c == '\n' { line += 1; column = 1 } else { column += 1 } } }
                let got = Parse::position_repr(s, p);
                eq("position_repr", got, LineCol { line, column, offset: p })?;
                eq("display", got.to_string(), format!("{line}:{column}"))
            });
        }
    };
    for s in strings(k) { one(t, &s) }
    // long lines and many lines
    for n in [63usize, 255, 256, 257, 300, 65536] {
        one(t, &"é".repeat(n.min(400)));
        one(t, &"x\n".repeat(n.min(400)));
    }
    let big = "日".repeat(70_000) + "\n" + &"y".repeat(70_000);
    for p in [0usize, 3 * 65535, 3 * 65536, 3 * 70_000, 3 * 70_000 + 1, 3 * 70_000 + 65537, big.len()] {
        t.check(true, || format!("70000 times 日, newline, 70000 times y, at {p}"), || {
            let (mut line, mut column) = (1usize, 1usize);
            for (i, c) in big.char_indices() { if i < p { if c == '\n' { line += 1; column = 1 } else { column += 1 } } }
            eq("position_repr", Parse::position_repr(big.as_str(), p), LineCol { line, column, offset: p })
        });
    }
    let many = "\n".repeat(70_000);
    for p in [255usize, 256, 65535, 65536, 70_000] {
        t.check(true, || format!("70000 newlines, at {p}"), || eq("position_repr", Parse::position_repr(many.as_str(), p), LineCol { line: p + 1, column: 1, offset: p }));
    }
}
const TOK: &[&str] = &["\"a\"", "\"b\"", "EOF", "", "é", "number", "A", "one of x, y", "\"a", "10", "9", "a", "a ", "Number"];
fn c13(t: &mut T, k: usize) {
    // every sequence of up to k reports
    fn go(t: &mut T, seq: &mut Vec<usize>, k: usize) {
        let case = { let s = seq.clone(); move || format!("expected set built from {:?}", s.iter().map(|i| TOK[*i]).collect::<Vec<_>>()) };
        let s = seq.clone();
        t.check(s.len() > 1, case, move || {
            let mut e = ErrorState::new(0);
            e.reparse_for_error();
            for i in &s { let _ = e.mark_failure(0, TOK[*i]); }
            let pe = e.into_parse_error("");
            let mut want: Vec<&str> = s.iter().map(|i| TOK[*i]).collect();
            want.sort();
            want.dedup();
            eq("tokens", pe.expected.tokens().collect::<Vec<_>>(), want.clone())?;
            let mut text = String::new();
            if want.is_empty() { text.push_str("<unreported>") } else if want.len() == 1 { text.push_str(want[0]) } else {
                text.push_str("one of ");
                for (i, w) in want.iter().enumerate() { if i > 0 { text.push_str(", ") } text.push_str(w) }
            }
            eq("text of the set", pe.expected.to_string(), text.clone())?;
            eq("text of the error", pe.to_string(), format!("error at 1:1: expected {text}"))?;
            let mut e = ErrorState::new(0);
            e.reparse_for_error();
            for i in &s { let _ = e.mark_failure(0, TOK[*i]); }
            eq("text of the error", e.into_parse_error(&[1u8][..]).to_string(), format!("error at 0: expected {text}"))
        });
        if seq.len() < k {
            for i in 0..TOK.len() { seq.push(i); go(t, seq, k); seq.pop(); }
        }
    }
    go(t, &mut vec![], k);
    // large sets
    let names: Vec<&'static str> = (0..300).map(|i| &*Box::leak(format!("t{:03}", (i * 7) % 300).into_boxed_str())).collect();
    for n in [7usize, 8, 9, 16, 31, 32, 33, 64, 100, 256, 300] {
        t.check(true, || format!("{n} descriptions"), || {
            let mut e = ErrorState::new(0);
            e.reparse_for_error();
            for w in &names[..n] { let _ = e.mark_failure(0, w); }
            let pe = e.into_parse_error("");
            let mut want = names[..n].to_vec();
            want.sort();
            eq("tokens", pe.expected.tokens().collect::<Vec<_>>(), want.clone())?;
            eq("text", pe.expected.to_string(), format!("one of {}", want.join(", ")))
        });
    }
}
/// operations on an ErrorState against the definition of the reported error
fn c07(t: &mut T, k: usize, suppress: bool) {
    let mut ops: Vec<(u8, usize, usize)> = vec![];
    for p in 0..3 { for w in 0..2 { ops.push((0, p, w)) } }
    if suppress { ops.push((1, 0, 0)); ops.push((2, 0, 0)); }
    fn go(t: &mut T, ops: &[(u8, usize, usize)], seq: &mut Vec<(u8, usize, usize)>, depth: i32, k: usize) {
        if depth == 0 {
            let s = seq.clone();
            let text = { let s = s.clone(); move || format!("reports (0=fail at position p with token w, 1=enter quiet, 2=leave quiet): {s:?}") };
            t.check(s.len() > 1, text, move || {
                let mut e = ErrorState::new(0);
                let input = [0u8; 4];
                for pass in 0..2 {
                    if pass == 1 { e.reparse_for_error() }
                    for (o, p, w) in &s {
                        match o { 0 => { eq("mark_failure", e.mark_failure(*p, TOK[*w]), RuleResult::Failed)?; } 1 => e.suppress_fail += 1, _ => e.suppress_fail -= 1 }
                    }
                }
                let mut d = 0;
                let mut seen = vec![];
                for (o, p, w) in &s { match o { 0 => if d == 0 { seen.push((*p, TOK[*w])) }, 1 => d += 1, _ => d -= 1 } }
                let far = seen.iter().map(|x| x.0).max().unwrap_or(0);
                let want: BTreeSet<&str> = seen.iter().filter(|x| x.0 == far).map(|x| x.1).collect();
                let pe = e.into_parse_error(&input[..]);
                eq("location", pe.location, far)?;
                eq("expected", pe.expected.tokens().collect::<Vec<_>>(), want.into_iter().collect())
            });
        }
        if seq.len() < k {
            for o in ops {
                let d = depth + match o.0 { 1 => 1, 2 => -1, _ => 0 };
                if d >= 0 { seq.push(*o); go(t, ops, seq, d, k); seq.pop(); }
            }
        }
    }
    go(t, &ops, &mut vec![], 0, k);
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let deep = a.get(2).map(|s| s == "thorough").unwrap_or(false);
    let mut t = T { cases: 0, nontrivial: 0, fails: 0, samples: vec![] };
    match a[1].as_str() {
        "C10" => { c10(&mut t, if deep { 6 } else { 4 }); long_literals(&mut t, true, deep) }
        "C11" => { c11(&mut t, if deep { 6 } else { 5 }); long_literals(&mut t, false, deep) }
        "C12" => c12(&mut t, if deep { 7 } else { 5 }),
        "C13" => c13(&mut t, if deep { 6 } else { 4 }),
        "C07" => c07(&mut t, if deep { 7 } else { 5 }, false),
        "C08" => c07(&mut t, if deep { 8 } else { 6 }, true),
        _ => std::process::exit(2),
    }
    for s in &t.samples { println!("SAMPLE {s}") }
    println!("CASES {} NONTRIVIAL {} FAILS {}", t.cases, t.nontrivial, t.fails);
    std::process::exit(if t.fails > 0 { 1 } else { 0 });
}
