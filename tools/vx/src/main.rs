//! vx: mechanical extraction of function bodies from /repo into a Verus skeleton.
//!
//! `vx weave SKELETON ROOT OUT MAP` copies SKELETON to OUT; every directive is
//! replaced by code extracted from the file it names (relative to ROOT, or absolute).
//!
//!   //@@fn src=FILE sel="SEL" [vis] [name=NEW]   contract + extracted body
//!   (lines up to //@@end: sections `//@@spec` (default), `//@@pre`, `//@@loop K`, `//@@ghost` )
//!   //@@item src=FILE sel="struct NAME"          type definition, attributes dropped
//!
//! See DESIGN.md for the list of normalisations applied to extracted code.
mod norm;
mod prec;
mod print;

use quote::ToTokens;
use std::collections::HashMap;
use std::fmt::Write as _;
use syn::visit_mut::VisitMut;

pub struct Found {
    pub sig: syn::Signature,
    pub body: Option<syn::Block>,
    pub line: usize,
}

fn strip_lifetimes(s: &str) -> String {
    let f: proc_macro2::TokenStream = s.parse().expect("selector tokens");
    norm::canon_tokens(f)
}

fn impl_key(i: &syn::ItemImpl) -> String {
    let mut s = String::new();
    if let Some((_, p, _)) = &i.trait_ {
        let last = p.segments.last().unwrap();
        s.push_str(&last.ident.to_string());
        s.push_str(" for ");
    }
    s.push_str(&norm::canon_tokens(i.self_ty.to_token_stream()));
    s
}

fn find_fn(items: &[syn::Item], sel: &str) -> Result<Found, String> {
    // nested: outer>inner
    if let Some((outer, inner)) = sel.split_once(" >> ") {
        let o = find_fn(items, outer)?;
        let body = o.body.ok_or("no body")?;
        let mut f = norm::FindNested { name: inner.trim().to_string(), found: None };
        syn::visit::Visit::visit_block(&mut f, &body);
        let it = f.found.ok_or_else(|| format!("nested fn {inner} not found in {outer}"))?;
        return Ok(Found { line: it.sig.ident.span().start().line, sig: it.sig, body: Some(*it.block) });
    }
    if let Some(rest) = sel.strip_prefix("mod ") {
        let (m, rest) = rest.split_once("::").ok_or("bad selector")?;
        for it in items {
            if let syn::Item::Mod(md) = it {
                if md.ident == m {
                    return find_fn(&md.content.as_ref().ok_or("empty mod")?.1, rest);
                }
            }
        }
        return Err(format!("module {m} not found"));
    }
    if let Some(name) = sel.strip_prefix("fn ") {
        for it in items {
            if let syn::Item::Fn(f) = it {
                if f.sig.ident == name {
                    return Ok(Found { line: f.sig.ident.span().start().line, sig: f.sig.clone(), body: Some((*f.block).clone()) });
                }
            }
        }
        return Err(format!("function {name} not found"));
    }
    if let Some(rest) = sel.strip_prefix("trait ") {
        let (t, name) = rest.split_once("::").ok_or("bad selector")?;
        for it in items {
            if let syn::Item::Trait(tr) = it {
                if tr.ident == t {
                    for m in &tr.items {
                        if let syn::TraitItem::Fn(f) = m {
                            if f.sig.ident == name {
                                return Ok(Found { line: f.sig.ident.span().start().line, sig: f.sig.clone(), body: f.default.clone() });
                            }
                        }
                    }
                }
            }
        }
        return Err(format!("trait method {rest} not found"));
    }
    let (k, name) = sel.rsplit_once("::").ok_or_else(|| format!("bad selector {sel}"))?;
    let key = match k.split_once(" for ") {
        Some((t, ty)) => format!("{} for {}", t.trim(), strip_lifetimes(ty)),
        None => strip_lifetimes(k),
    };
    for it in items {
        if let syn::Item::Impl(im) = it {
            if impl_key(im) == key {
                for m in &im.items {
                    if let syn::ImplItem::Fn(f) = m {
                        if f.sig.ident == name {
                            return Ok(Found { line: f.sig.ident.span().start().line, sig: f.sig.clone(), body: Some(f.block.clone()) });
                        }
                    }
                }
            }
        }
    }
    Err(format!("{sel} not found"))
}

fn find_item(items: &[syn::Item], sel: &str) -> Result<syn::Item, String> {
    if let Some(rest) = sel.strip_prefix("mod ") {
        let (m, rest) = rest.split_once("::").ok_or("bad selector")?;
        for it in items {
            if let syn::Item::Mod(md) = it {
                if md.ident == m {
                    return find_item(&md.content.as_ref().ok_or("empty mod")?.1, rest);
                }
            }
        }
        return Err(format!("module {m} not found"));
    }
    let (kind, name) = sel.split_once(' ').ok_or("bad item selector")?;
    for it in items {
        let ok = match (kind, it) {
            ("struct", syn::Item::Struct(s)) => s.ident == name,
            ("enum", syn::Item::Enum(s)) => s.ident == name,
            ("type", syn::Item::Type(s)) => s.ident == name,
            ("const", syn::Item::Const(s)) => s.ident == name,
            ("trait", syn::Item::Trait(s)) => s.ident == name,
            ("fn", syn::Item::Fn(s)) => s.sig.ident == name,
            _ => false,
        };
        if ok {
            return Ok(it.clone());
        }
    }
    Err(format!("{sel} not found"))
}

pub fn parse_opts(s: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    let mut rest = s.trim();
    while !rest.is_empty() {
        let e = rest.find(|c: char| c == '=' || c == ' ').unwrap_or(rest.len());
        let k = rest[..e].to_string();
        rest = &rest[e..];
        if let Some(r) = rest.strip_prefix('=') {
            if let Some(r) = r.strip_prefix('"') {
                let e = r.find('"').expect("closing quote");
                m.insert(k, r[..e].to_string());
                rest = r[e + 1..].trim_start();
            } else {
                let e = r.find(' ').unwrap_or(r.len());
                m.insert(k, r[..e].to_string());
                rest = r[e..].trim_start();
            }
        } else {
            m.insert(k, String::new());
            rest = rest.trim_start();
        }
    }
    m
}

fn die(msg: String) -> ! {
    eprintln!("LOST-ANCHOR: {msg}");
    std::process::exit(3)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("weave") => weave(&a[2], &a[3], &a[4], &a[5]),
        Some("list") => list(&a[2]),
        _ => {
            eprintln!("usage: vx weave SKELETON ROOT OUT MAP | vx list FILE");
            std::process::exit(2)
        }
    }
}

/// list the functions of a file (used to see that every function is covered)
fn list(file: &str) {
    let f = syn::parse_file(&std::fs::read_to_string(file).unwrap()).unwrap();
    fn go(items: &[syn::Item], pre: &str) {
        for it in items {
            match it {
                syn::Item::Fn(f) => println!("{pre}fn {}", f.sig.ident),
                syn::Item::Mod(m) => {
                    if let Some((_, i)) = &m.content {
                        go(i, &format!("{pre}mod {}::", m.ident))
                    }
                }
                syn::Item::Impl(im) => {
                    for m in &im.items {
                        if let syn::ImplItem::Fn(f) = m {
                            println!("{pre}{}::{}", impl_key(im), f.sig.ident)
                        }
                    }
                }
                syn::Item::Trait(t) => {
                    for m in &t.items {
                        if let syn::TraitItem::Fn(f) = m {
                            println!("{pre}trait {}::{}", t.ident, f.sig.ident)
                        }
                    }
                }
                _ => {}
            }
        }
    }
    go(&f.items, "");
}

#[derive(Default)]
struct Sections {
    spec: String,
    pre: String,
    ghost_params: String,
    loops: HashMap<String, String>,
    before: HashMap<String, String>,
    bodies: HashMap<String, String>,
    hints: HashMap<String, String>,
    /// parts that become functions of their own: which, the call, the function up to the part
    outline: Vec<(String, String, String)>,
    calls: Vec<(String, String)>,
    closures: HashMap<String, String>,
    /// published actions: what stands for them, their text
    acts: Vec<(String, String)>,
}

fn weave(skel: &str, root: &str, out: &str, map: &str) {
    let text = std::fs::read_to_string(skel).unwrap_or_else(|e| die(format!("{skel}: {e}")));
    let mut cache: HashMap<String, syn::File> = HashMap::new();
    let mut o = String::new();
    let mut m = String::new();
    let mut lines = text.lines().peekable();
    while let Some(line) = lines.next() {
        let t = line.trim_start();
        if let Some(r) = t.strip_prefix("//@@fn ") {
            let opts = parse_opts(r);
            let mut s = Sections::default();
            let mut cur = "spec".to_string();
            loop {
                let l = lines.next().unwrap_or_else(|| die("missing //@@end".into()));
                let lt = l.trim_start();
                if lt.starts_with("//@@end") {
                    break;
                }
                if let Some(h) = lt.strip_prefix("//@@") {
                    cur = h.trim().to_string();
                    if let Some(c) = cur.strip_prefix("call ") {
                        let (n, args) = c.split_once(' ').unwrap();
                        s.calls.push((n.to_string(), args.to_string()));
                    }
                    continue;
                }
                if cur == "acts" {
                    let (n, a) = l.split_once(" <= ").unwrap_or_else(|| die(format!("bad action {l}")));
                    s.acts.push((n.to_string(), a.to_string()));
                    continue;
                }
                let dst = if cur == "spec" {
                    &mut s.spec
                } else if cur == "pre" {
                    &mut s.pre
                } else if cur == "ghost" {
                    &mut s.ghost_params
                } else if let Some(k) = cur.strip_prefix("loopghost ") {
                    s.before.entry(k.trim().to_string()).or_default()
                } else if let Some(k) = cur.strip_prefix("loopbody ") {
                    s.bodies.entry(k.trim().to_string()).or_default()
                } else if let Some(k) = cur.strip_prefix("outline ") {
                    if s.outline.last().map(|o| o.0.as_str()) != Some(k) {
                        s.outline.push((k.to_string(), l.to_string(), String::new()));
                        continue;
                    }
                    &mut s.outline.last_mut().unwrap().2
                } else if let Some(k) = cur.strip_prefix("hint ") {
                    s.hints.entry(k.trim().to_string()).or_default()
                } else if let Some(k) = cur.strip_prefix("loop ") {
                    s.loops.entry(k.trim().to_string()).or_default()
                } else if let Some(k) = cur.strip_prefix("closure ") {
                    s.closures.entry(k.trim().to_string()).or_default()
                } else {
                    die(format!("unknown section {cur}"))
                };
                dst.push_str(l);
                dst.push('\n');
            }
            let file = get(&mut cache, root, &opts["src"]);
            let mut f = find_fn(&file.items, &opts["sel"]).unwrap_or_else(|e| die(format!("{}: {e}", opts["src"])));
            if let Some(part) = opts.get("lift") {
                let (g, names) = prec::lift(&f, part, &opts).unwrap_or_else(|e| die(format!("{}: {e}", opts["sel"])));
                f = g;
                for (k, n) in names.iter().enumerate() {
                    let ph = format!("$A{k}");
                    s.spec = s.spec.replace(&ph, n);
                    s.pre = s.pre.replace(&ph, n);
                    for v in s.loops.values_mut() { *v = v.replace(&ph, n) }
                    for v in s.before.values_mut() { *v = v.replace(&ph, n) }
                }
            }
            let start = o.lines().count() + 1;
            emit_fn(&mut o, &mut f, &opts, &s);
            let end = o.lines().count();
            writeln!(m, "{start}\t{end}\t{}\t{}\t{}", opts["src"], f.line, opts["sel"]).unwrap();
        } else if let Some(r) = t.strip_prefix("//@@item ") {
            let opts = parse_opts(r);
            let file = get(&mut cache, root, &opts["src"]);
            let mut it = find_item(&file.items, &opts["sel"]).unwrap_or_else(|e| die(format!("{}: {e}", opts["src"])));
            let mut n = norm::Norm::new(&opts);
            n.visit_item_mut(&mut it);
            if opts.contains_key("log") {
                if let syn::Item::Struct(syn::ItemStruct { fields: syn::Fields::Named(f), .. }) = &mut it {
                    f.named.push(syn::parse_quote!(pub vx_log: Ghost<vstd::seq::Seq<crate::Say>>));
                }
            }
            if opts.contains_key("pub") {
                norm::publicise(&mut it);
            }
            o.push_str(&print::tokens(it.to_token_stream()));
            o.push('\n');
        } else {
            o.push_str(line);
            o.push('\n');
        }
    }
    std::fs::write(out, o).unwrap();
    std::fs::write(map, m).unwrap();
}

fn get<'a>(c: &'a mut HashMap<String, syn::File>, root: &str, f: &str) -> &'a syn::File {
    if !c.contains_key(f) {
        let p = if f.starts_with('/') { f.to_string() } else { format!("{root}/{f}") };
        let src = std::fs::read_to_string(&p).unwrap_or_else(|e| die(format!("{p}: {e}")));
        let parsed = syn::parse_file(&src).unwrap_or_else(|e| die(format!("{p}: {e}")));
        c.insert(f.to_string(), parsed);
    }
    &c[f]
}

fn emit_fn(o: &mut String, f: &mut Found, opts: &HashMap<String, String>, s: &Sections) {
    // out of reach in this tree: its contract stays, its body is not looked at
    let lost = opts.contains_key("lost");
    if lost {
        f.body = f.body.as_ref().map(|_| syn::parse_quote!({ unimplemented!() }));
    }
    let mut n = norm::Norm::new(opts);
    n.ghost_calls = s.calls.clone();
    n.outline = s.outline.iter().map(|o| o.0.clone()).collect();
    n.closure_specs = s.closures.clone();
    n.acts = s.acts.iter().map(|(n, a)| (n.clone(), norm::plain(a.parse().unwrap_or_else(|_| die(format!("action {a}")))))).collect();
    n.visit_signature_mut(&mut f.sig);
    if opts.contains_key("iters") {
        norm::iter_params(&mut f.sig);
    }
    if let Some(b) = &mut f.body {
        n.visit_block_mut(b);
    }
    if let Some(e) = n.error {
        die(format!("{}: {e}", opts["sel"]));
    }
    let name = opts.get("name").cloned().unwrap_or_else(|| f.sig.ident.to_string());
    if lost {
        o.push_str("#[verifier::external_body] ");
    }
    if opts.contains_key("vis") {
        o.push_str("pub ");
    }
    if f.sig.asyncness.is_some() || f.sig.unsafety.is_some() {
        die(format!("{}: async or unsafe function", opts["sel"]));
    }
    let g = &f.sig.generics;
    let mut params = Vec::new();
    for p in &f.sig.inputs {
        params.push(print::inline(p.to_token_stream()));
    }
    for l in s.ghost_params.lines() {
        if !l.trim().is_empty() {
            params.push(l.trim().trim_end_matches(',').to_string());
        }
    }
    let ret = match &f.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => format!(" -> (r: {})", print::inline(t.to_token_stream())),
    };
    let lt = print::inline(g.params.to_token_stream());
    let lt = if lt.is_empty() { String::new() } else { format!("<{lt}>") };
    let wh = g.where_clause.as_ref().map(|w| print::inline(w.to_token_stream())).unwrap_or_default();
    writeln!(o, "fn {name}{lt}({}){ret}\n{wh}", params.join(", ")).unwrap();
    o.push_str(&s.spec);
    match &f.body {
        None => o.push_str(";\n"),
        Some(_) if lost => o.push_str("{ unimplemented!() }\n"),
        Some(b) => {
            let mut text = print::tokens(b.to_token_stream());
            let fill = |k: &str, t: &str| -> String {
                let mut t = t.to_string();
                let r = n.roles.get(k).cloned().unwrap_or_default();
                for (ph, v) in [("$POS", r.0), ("$INIT", r.1), ("$VAL", r.2)] {
                    if t.contains(ph) {
                        match v {
                            Some(v) => t = t.replace(ph, &v),
                            None => die(format!("{}: loop {k}: no variable in the role {ph}", opts["sel"])),
                        }
                    }
                }
                t
            };
            // what an alternative has computed, for the prover; without a place it is left out
            for (k, g) in &s.hints {
                let mark = format!("__vx_hint_{k}!");
                if let Some(p) = text.find(&mark) {
                    let e = p + text[p..].find(';').unwrap() + 1;
                    text.replace_range(p..e, g);
                }
            }
            for (k, g) in &s.before {
                let mark = format!("__vx_before_{k}!");
                let p = text.find(&mark).unwrap_or_else(|| die(format!("{}: loop {k} not found", opts["sel"])));
                let e = p + text[p..].find(';').unwrap() + 1;
                text.replace_range(p..e, &fill(k, g));
            }
            // loop contracts
            for (k, inv) in &s.loops {
                let inv = &fill(k, inv);
                let mark = format!("{}", norm::loop_marker(k));
                let pos = match text.find(&mark) {
                    Some(p) => p,
                    None => die(format!("{}: loop {k} not found", opts["sel"])),
                };
                let brace = text[..pos].rfind('{').unwrap();
                let end = pos + mark.len();
                let end = end + text[end..].find(';').unwrap() + 1;
                // a `for` loop's iterator gets a name its invariant can use
                let mut head = text[..brace].to_string();
                if let Some(fp) = head.rfind("for ") {
                    let tail = head[fp..].to_string();
                    if !tail.contains('{') && !tail.contains(';') && tail.contains(" in ") {
                        head = format!("{}{}", &head[..fp], tail.replacen(" in ", " in __it: ", 1));
                    }
                }
                let start = s.bodies.get(k).map(|b| fill(k, b)).unwrap_or_default();
                let new = format!("{}\n{}{{{}{}", head, inv, start, &text[end..]);
                text = new;
            }
            let text = print::drop_markers(&text);
            let mut text = print::closure_contracts(&text, &n.closure_texts);
            // inner parts come after the parts they are in
            let mut parts = vec![];
            for (k, (id, call, head)) in s.outline.iter().enumerate().rev() {
                let (t, inner) = print::cut(&text, &format!("__vx_outline_{k}!"), call).unwrap_or_else(|| die(format!("{}: nothing to outline at {id}", opts["sel"])));
                text = t;
                parts.push((head, inner));
            }
            // canary run: with a contradictory precondition or axiom, this would be accepted
            let canary = std::env::var_os("VX_CANARY").is_some() && !opts.contains_key("trusted");
            if s.pre.trim().is_empty() && !canary {
                o.push_str(&text);
            } else {
                let i = text.find('{').unwrap();
                o.push_str("{\n");
                o.push_str(&s.pre);
                if canary {
                    o.push_str("assert(false);\n");
                }
                o.push_str(&text[i + 1..]);
            }
            o.push('\n');
            for (head, inner) in parts {
                o.push_str(head);
                if canary {
                    o.push_str("assert(false);\n");
                }
                o.push_str(&inner);
                o.push_str("\n}\n");
            }
        }
    }
}
