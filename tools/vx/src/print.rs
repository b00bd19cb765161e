//! Token printing with line breaks, and textual insertion of contracts.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn inline(t: TokenStream) -> String {
    let mut s = String::new();
    put(t, &mut s, None);
    s.trim().to_string()
}
pub fn tokens(t: TokenStream) -> String {
    let mut s = String::new();
    put(t, &mut s, Some(1));
    s
}

fn nl(o: &mut String, ind: usize) {
    while o.ends_with(' ') {
        o.pop();
    }
    if !o.ends_with('\n') {
        o.push('\n');
    }
    for _ in 0..ind {
        o.push_str("    ");
    }
}

fn put(t: TokenStream, o: &mut String, ind: Option<usize>) {
    let mut it = t.into_iter().peekable();
    while let Some(x) = it.next() {
        match x {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                o.push_str(a);
                match (g.delimiter(), ind) {
                    (Delimiter::Brace, Some(i)) if !g.stream().is_empty() => {
                        nl(o, i);
                        put(g.stream(), o, Some(i + 1));
                        nl(o, i - 1);
                    }
                    _ => put(g.stream(), o, ind),
                }
                while o.ends_with(' ') && b != "}" {
                    o.pop();
                }
                o.push_str(b);
                o.push(' ');
                if let (Delimiter::Brace, Some(i)) = (g.delimiter(), ind) {
                    let next_else = match it.peek() {
                        Some(TokenTree::Ident(i)) => i == "else",
                        Some(TokenTree::Punct(_)) => true,
                        None => true,
                        _ => false,
                    };
                    if !next_else {
                        nl(o, i - 1);
                    }
                }
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if matches!(c, ',' | ';' | '.' | '?') {
                    while o.ends_with(' ') {
                        o.pop();
                    }
                }
                o.push(c);
                if c == ';' {
                    if let Some(i) = ind {
                        nl(o, i - 1);
                        continue;
                    }
                }
                if p.spacing() == Spacing::Alone && !matches!(c, '.' | '\'' | '&' | '!') {
                    o.push(' ');
                } else if p.spacing() == Spacing::Alone && c == '!' {
                    // `a ! (..)` and `!x` both fine without a space
                } else if p.spacing() == Spacing::Alone && c == '&' {
                    // binary `&` never occurs in the code under contract without operands around it
                    o.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                o.push_str(&i.to_string());
                let bang = matches!(it.peek(), Some(TokenTree::Punct(p)) if p.as_char() == '!' && p.spacing() == Spacing::Alone);
                let paren = matches!(it.peek(), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
                if !(bang || paren && !matches!(i.to_string().as_str(), "if" | "match" | "return" | "in" | "while")) {
                    o.push(' ');
                }
            }
            TokenTree::Literal(l) => {
                o.push_str(&l.to_string());
                o.push(' ');
            }
        }
    }
}

/// remove loop markers that carry no contract, expand ghost arguments
pub fn drop_markers(s: &str) -> String {
    let mut out = s.to_string();
    while let Some(p) = out.find("__vx_loop_").or_else(|| out.find("__vx_before_")).or_else(|| out.find("__vx_hint_")) {
        let e = p + out[p..].find('}').unwrap() + 1;
        let e = if out[e..].trim_start().starts_with(';') { e + out[e..].find(';').unwrap() + 1 } else { e };
        out.replace_range(p..e, "");
    }
    while let Some(p) = out.find("__vx_ghost!") {
        let open = p + out[p..].find('(').unwrap();
        let mut depth = 0;
        let mut close = open;
        for (i, c) in out[open..].char_indices() {
            match c {
                '(' => depth += 1,
                ')' => {
                    depth -= 1;
                    if depth == 0 {
                        close = open + i;
                        break;
                    }
                }
                _ => {}
            }
        }
        let inner = out[open + 1..close].to_string();
        out.replace_range(p..close + 1, &inner);
    }
    out
}

/// move the contract of each marked closure between its parameters and its body
pub fn closure_contracts(s: &str, specs: &[(String, String)]) -> String {
    let mut out = s.to_string();
    for (mark, text) in specs {
        let p = match out.find(mark.as_str()) {
            Some(p) => p,
            None => continue,
        };
        let brace = out[..p].rfind('{').unwrap();
        let e = p + out[p..].find('}').unwrap() + 1;
        let e = if out[e..].trim_start().starts_with(';') { e + out[e..].find(';').unwrap() + 1 } else { e };
        out = format!("{} {} {{{}", &out[..brace], text.trim_end(), &out[e..]);
    }
    out
}

/// replace `MARK(inner)` by `call`
pub fn cut(s: &str, mark: &str, call: &str) -> Option<(String, String)> {
    let p = s.find(mark)?;
    let open = p + s[p..].find('(')?;
    let b = s.as_bytes();
    let (mut depth, mut i) = (0usize, open);
    loop {
        match *b.get(i)? {
            b'(' => depth += 1,
            b')' => {
                depth -= 1;
                if depth == 0 {
                    break;
                }
            }
            b'"' => {
                i += 1;
                while *b.get(i)? != b'"' {
                    i += if b[i] == b'\\' { 2 } else { 1 };
                }
            }
            b'\'' if b.get(i + 2) == Some(&b'\'') => i += 2,
            b'\'' if b.get(i + 1) == Some(&b'\\') && b.get(i + 3) == Some(&b'\'') => i += 3,
            _ => (),
        }
        i += 1;
    }
    Some((format!("{}{}{}", &s[..p], call, &s[i + 1..]), s[open + 1..i].to_string()))
}
