//! The translator of the tree under test as a library: grammars on stdin, separated by lines
//! `%%`; for each, one line with the errors it reports.
#![allow(dead_code, unused)]
extern crate peg_runtime as peg;
extern crate proc_macro2;
extern crate quote;
#[path = "/repo/peg-macros/analysis.rs"]
mod analysis;
#[path = "/repo/peg-macros/ast.rs"]
mod ast;
#[path = "/repo/peg-macros/grammar.rs"]
mod grammar;
#[path = "/repo/peg-macros/tokens.rs"]
mod tokens;
#[path = "/repo/peg-macros/translate.rs"]
mod translate;

use proc_macro2::{TokenStream, TokenTree};
use std::io::Read;

/// the messages of all `compile_error!` in the expansion
fn errors(ts: TokenStream, out: &mut Vec<String>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        if let TokenTree::Group(g) = t {
            let macro_args = i >= 2 && v[i - 2].to_string() == "compile_error" && v[i - 1].to_string() == "!";
            if macro_args {
                out.push(g.stream().to_string())
            } else {
                errors(g.stream(), out)
            }
        }
    }
}

fn one(src: &str) -> String {
    let ts: TokenStream = match src.parse() {
        Ok(t) => t,
        Err(_) => return "T".into(),
    };
    let flat = tokens::FlatTokenStream::new(ts);
    let g = match grammar::peg::peg_grammar(&flat) {
        Ok(g) => g,
        Err(e) => return format!("P\t{}\t{}", e.location.1, e.expected),
    };
    let mut out = vec![];
    errors(translate::compile_grammar(&g), &mut out);
    let mut s = String::from("E");
    for e in out {
        s.push('\t');
        s.push_str(&e.replace('\n', " ").replace('\t', " "));
    }
    s
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let t = std::thread::Builder::new()
        .stack_size(1 << 28)
        .spawn(move || {
            std::panic::set_hook(Box::new(|_| {}));
            for g in s.split("\n%%\n") {
                let g = g.to_string();
                let r = std::panic::catch_unwind(move || one(&g));
                println!("{}", r.unwrap_or_else(|_| "X".into()));
            }
        })
        .unwrap();
    t.join().unwrap();
}
