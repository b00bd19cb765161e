//! Normalisations applied to extracted code. Each is listed in DESIGN.md.
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, Stmt};

/// tokens without lifetimes, whitespace canonical
pub fn canon_tokens(t: TokenStream) -> String {
    fn go(t: TokenStream, o: &mut String) {
        let mut it = t.into_iter().peekable();
        while let Some(x) = it.next() {
            match x {
                TokenTree::Punct(p) if p.as_char() == '\'' => {
                    it.next();
                    if let Some(TokenTree::Punct(p)) = it.peek() {
                        if p.as_char() == ',' {
                            it.next();
                        }
                    }
                }
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("(", ")"),
                        proc_macro2::Delimiter::Brace => ("{", "}"),
                        proc_macro2::Delimiter::Bracket => ("[", "]"),
                        _ => ("", ""),
                    };
                    o.push_str(a);
                    go(g.stream(), o);
                    o.push_str(b);
                }
                other => o.push_str(&other.to_string()),
            }
        }
    }
    let mut o = String::new();
    go(t, &mut o);
    o.replace("<>", "")
}

pub fn loop_marker(k: &str) -> String {
    format!("__vx_loop_{k}!")
}

pub struct FindNested {
    pub name: String,
    pub found: Option<syn::ItemFn>,
}
impl<'a> syn::visit::Visit<'a> for FindNested {
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        if f.sig.ident == self.name && self.found.is_none() {
            self.found = Some(f.clone());
        }
        syn::visit::visit_item_fn(self, f);
    }
}

pub fn publicise(it: &mut syn::Item) {
    match it {
        syn::Item::Struct(s) => {
            s.vis = parse_quote!(pub);
            for f in s.fields.iter_mut() {
                f.vis = parse_quote!(pub);
            }
        }
        syn::Item::Enum(s) => s.vis = parse_quote!(pub),
        syn::Item::Type(s) => s.vis = parse_quote!(pub),
        _ => {}
    }
}

pub struct Norm {
    pub loops: usize,
    pub closures: usize,
    pub ghost_calls: Vec<(String, String)>,
    /// bindings whose value becomes a function of its own: `NAME K`
    pub outline: Vec<String>,
    pub bound_seen: std::collections::HashMap<String, usize>,
    /// alternatives seen so far
    pub hints: usize,
    pub closure_specs: HashMap<String, String>,
    pub closure_texts: Vec<(String, String)>,
    pub error: Option<String>,
    /// per loop: the position variable, its initial value, the result vector
    pub roles: HashMap<String, (Option<String>, Option<String>, Option<String>)>,
    /// `if let Matched(_, mut x)`: the value a loop inside works on
    bound: Option<String>,
    pending: (Option<String>, Option<String>, Option<String>),
    /// debugging output becomes an entry in a ghost log kept in the parse state
    log: bool,
    /// `a | b`, `a & b`, `a |= b`, `a &= b` are on bools
    bools: bool,
    /// adapters of iterators become loops over vectors, Option adapters become matches
    iters: bool,
    redirect: Vec<String>,
    /// published actions (call that stands for them, their tokens)
    pub acts: Vec<(String, String)>,
}

/// the tokens of an action, without what formatting may add: braces around all of it, a comma before a closing delimiter
pub fn plain(ts: TokenStream) -> String {
    fn go(ts: TokenStream, out: &mut String) {
        let v: Vec<proc_macro2::TokenTree> = ts.into_iter().collect();
        for (k, t) in v.iter().enumerate() {
            match t {
                proc_macro2::TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        proc_macro2::Delimiter::Parenthesis => ("( ", ") "),
                        proc_macro2::Delimiter::Brace => ("{ ", "} "),
                        proc_macro2::Delimiter::Bracket => ("[ ", "] "),
                        proc_macro2::Delimiter::None => ("", ""),
                    };
                    out.push_str(a);
                    go(g.stream(), out);
                    out.push_str(b);
                }
                proc_macro2::TokenTree::Punct(p) if p.as_char() == ',' && k + 1 == v.len() => {}
                t => {
                    out.push_str(&t.to_string());
                    out.push(' ');
                }
            }
        }
    }
    let mut ts = ts;
    loop {
        let v: Vec<proc_macro2::TokenTree> = ts.clone().into_iter().collect();
        match &v[..] {
            [proc_macro2::TokenTree::Group(g)] if g.delimiter() == proc_macro2::Delimiter::Brace || g.delimiter() == proc_macro2::Delimiter::None => ts = g.stream(),
            _ => break,
        }
    }
    let mut s = String::new();
    go(ts, &mut s);
    s
}

struct HasEscape(bool);
impl<'a> syn::visit::Visit<'a> for HasEscape {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) {
        self.0 = true
    }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) {
        self.0 = true
    }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}

impl Norm {
    pub fn new(opts: &HashMap<String, String>) -> Self {
        Norm {
            loops: 0,
            closures: 0,
            ghost_calls: vec![],
            hints: 0,
            outline: vec![],
            bound_seen: Default::default(),
            closure_specs: HashMap::new(),
            closure_texts: vec![],
            error: None,
            roles: HashMap::new(),
            bound: None,
            pending: (None, None, None),
            acts: vec![],
            log: opts.contains_key("log"),
            bools: opts.contains_key("bools"),
            iters: opts.contains_key("iters"),
            redirect: opts.get("redirect").map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default(),
        }
    }
    /// adapters of iterators and options without their closures
    fn adapter(&mut self, e: &Expr) -> Option<Expr> {
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match (name.as_str(), m.args.len()) {
                    ("collect", 0) => mapped(&m.receiver).map(|(x, p, b)| gathered(&items_of(&x), &p, &b, self.loops)),
                    ("extend", 1) => mapped(&m.args[0]).map(|(x, p, b)| {
                        let v = gathered(&items_of(&x), &p, &b, self.loops);
                        let a = &m.receiver;
                        parse_quote!(crate::stdy::std_extend(&mut #a, #v))
                    }),
                    ("rfold", 2) => inlinable(&m.args[1], 2).and_then(|(p, b)| {
                        let a = match &p[0] {
                            syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => i.ident.clone(),
                            _ => return None,
                        };
                        let (q, init) = (&p[1], &m.args[0]);
                        let x: Expr = match &*m.receiver {
                            Expr::MethodCall(i) if i.method == "iter" => items_of(&m.receiver),
                            x => x.clone(),
                        };
                        Some(parse_quote!({ let mut #a = #init; for __vx_x in crate::stdy::std_rev(#x) { let #q = __vx_x; #a = #b; } #a }))
                    }),
                    ("map", 1) if mapped(e).is_none() => inlinable(&m.args[0], 1).map(|(p, b)| {
                        let (o, p) = (&m.receiver, &p[0]);
                        parse_quote!(match #o { Some(#p) => Some(#b), None => None })
                    }),
                    ("unwrap_or_else", 1) => inlinable(&m.args[0], 0).map(|(_, b)| {
                        let o = &m.receiver;
                        parse_quote!(match #o { Some(__vx_some) => __vx_some, None => #b })
                    }),
                    _ => None,
                }
            }
            // an argument that is an iterator
            Expr::Call(c) if c.args.iter().any(|a| mapped(a).is_some()) => {
                let mut c = c.clone();
                for a in c.args.iter_mut() {
                    if let Some((x, p, b)) = mapped(a) {
                        *a = gathered(&items_of(&x), &p, &b, self.loops);
                    }
                }
                Some(Expr::Call(c))
            }
            // `match (&a, &b) { (&P(x), _) => .. }` is `match (&a, &b) { (P(x), _) => { let x = *x; .. } }`
            Expr::Match(m) if matches!(&*m.expr, Expr::Tuple(t) if t.elems.iter().all(|x| matches!(x, Expr::Reference(_)))) => {
                let mut m = m.clone();
                let mut any = false;
                for a in m.arms.iter_mut() {
                    if let syn::Pat::Tuple(t) = &mut a.pat {
                        let mut binds = vec![];
                        for p in t.elems.iter_mut() {
                            if let syn::Pat::Reference(r) = p {
                                struct B(Vec<syn::Ident>);
                                impl<'a> Visit<'a> for B {
                                    fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) {
                                        if !i.ident.to_string().starts_with(|c: char| c.is_uppercase()) {
                                            self.0.push(i.ident.clone())
                                        }
                                    }
                                }
                                let mut b = B(vec![]);
                                b.visit_pat(&r.pat);
                                binds.extend(b.0);
                                any = true;
                                *p = (*r.pat).clone();
                            }
                        }
                        if !binds.is_empty() {
                            let body = &a.body;
                            if a.guard.as_ref().map_or(false, |(_, g)| binds.iter().any(|b| mentions(g, b))) {
                                self.error = Some("a guard on a variable under a reference".into());
                            }
                            a.body = parse_quote!({ #(let #binds = *#binds;)* #body });
                        }
                    }
                }
                any.then(|| Expr::Match(m))
            }
            _ => None,
        }
    }
    fn closure_mark(&mut self, text: String) -> proc_macro2::TokenStream {
        let id = format_ident!("__vx_closure_{}", self.closure_texts.len());
        self.closure_texts.push((format!("{}!", id), text));
        quote!(#id!{};)
    }
}

/// `<T as ::peg::X>::Y` becomes `<T as crate::peg::X>::Y`: one more segment
fn shift_qself(q: &mut Option<syn::QSelf>, p: &syn::Path) {
    if let Some(q) = q {
        if q.position > 0 && p.leading_colon.is_some() && p.segments.first().map(|s| s.ident == "peg").unwrap_or(false) {
            q.position += 1;
        }
    }
}

fn is_print(p: &syn::Path) -> bool {
    matches!(p.segments.last().map(|s| s.ident.to_string()).as_deref(), Some("println") | Some("print") | Some("eprintln") | Some("eprint"))
}

struct Refs {
    by_ref: usize,
    other: usize,
}
impl<'a> syn::visit::Visit<'a> for Refs {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        if p.by_ref.is_some() && p.mutability.is_none() && p.subpat.is_none() {
            self.by_ref += 1
        } else if p.by_ref.is_some() || !p.ident.to_string().starts_with(|c: char| c.is_uppercase()) {
            self.other += 1
        }
    }
    fn visit_pat_reference(&mut self, _: &'a syn::PatReference) {
        self.other += 1
    }
}
/// every binding of every arm is `ref`
fn all_ref(m: &syn::ExprMatch) -> bool {
    let mut r = Refs { by_ref: 0, other: 0 };
    for a in &m.arms {
        syn::visit::Visit::visit_pat(&mut r, &a.pat);
    }
    r.by_ref > 0 && r.other == 0 && !matches!(&*m.expr, Expr::Reference(_))
}
struct StripRef;
impl VisitMut for StripRef {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        p.by_ref = None;
    }
}

fn plain_closure(e: &Expr) -> bool {
    match e {
        Expr::Closure(c) if c.inputs.len() == 1 && c.asyncness.is_none() => {
            let mut h = HasEscape(false);
            syn::visit::Visit::visit_expr(&mut h, &c.body);
            !h.0
        }
        _ => false,
    }
}

/// peel `&` patterns down to an identifier
fn ref_pat(p: &syn::Pat) -> Option<(usize, syn::Ident)> {
    match p {
        syn::Pat::Reference(r) if r.mutability.is_none() => ref_pat(&r.pat).map(|(n, i)| (n + 1, i)),
        syn::Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none() => Some((0, i.ident.clone())),
        _ => None,
    }
}

/// a template of tokens is the sum of what it is given: `quote!{..}`, `quote_spanned!{ span => .. }`
fn desugar_quote(m: &syn::Macro) -> Result<Expr, String> {
    let toks: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
    let (span, body) = if m.path.is_ident("quote_spanned") {
        let at = toks
            .windows(2)
            .position(|w| matches!((&w[0], &w[1]), (TokenTree::Punct(a), TokenTree::Punct(b)) if a.as_char() == '=' && b.as_char() == '>'))
            .ok_or("quote_spanned! without =>")?;
        let s: TokenStream = toks[..at].iter().cloned().collect();
        (Some(syn::parse2::<Expr>(s).map_err(|e| e.to_string())?), toks[at + 2..].to_vec())
    } else {
        (None, toks)
    };
    struct T {
        vars: Vec<syn::Ident>,
        errs: usize,
    }
    fn go(ts: &[TokenTree], o: &mut T, rep: bool) -> Result<(), String> {
        let mut i = 0;
        while i < ts.len() {
            match (&ts[i], ts.get(i + 1)) {
                (TokenTree::Punct(p), Some(TokenTree::Ident(x))) if p.as_char() == '#' => {
                    o.vars.push(x.clone());
                    i += 2;
                    continue;
                }
                (TokenTree::Punct(p), Some(TokenTree::Group(g))) if p.as_char() == '#' && g.delimiter() == proc_macro2::Delimiter::Parenthesis => {
                    if rep {
                        return Err("a repetition within a repetition".into());
                    }
                    let mut t = T { vars: vec![], errs: 0 };
                    go(&g.stream().into_iter().collect::<Vec<_>>(), &mut t, true)?;
                    // with two variables the shorter one would decide how much of the other is used
                    if t.vars.len() != 1 || t.errs > 0 {
                        return Err("a repetition of other than one variable".into());
                    }
                    o.vars.extend(t.vars);
                    i += 2;
                    continue;
                }
                (TokenTree::Ident(x), _) if x == "compile_error" => o.errs += 1,
                (TokenTree::Group(g), _) => go(&g.stream().into_iter().collect::<Vec<_>>(), o, rep)?,
                _ => {}
            }
            i += 1;
        }
        Ok(())
    }
    let mut t = T { vars: vec![], errs: 0 };
    go(&body, &mut t, false)?;
    let n = proc_macro2::Literal::usize_unsuffixed(t.errs);
    let mut out: Expr = match span {
        Some(s) => parse_quote!(crate::stdq::start_at(#s, #n)),
        None => parse_quote!(crate::stdq::start(#n)),
    };
    for v in t.vars {
        out = parse_quote!(crate::stdq::add(#out, &#v));
    }
    Ok(out)
}

/// a closure whose body can stand where it is called
fn inlinable(e: &Expr, n: usize) -> Option<(Vec<syn::Pat>, Expr)> {
    match e {
        Expr::Closure(c) if c.inputs.len() == n && c.asyncness.is_none() && c.capture.is_none() => {
            let mut h = HasEscape(false);
            syn::visit::Visit::visit_expr(&mut h, &c.body);
            (!h.0).then(|| (c.inputs.iter().map(|p| loosen(p)).collect(), (*c.body).clone()))
        }
        _ => None,
    }
}
/// `&(ref a, ref b)` on a reference is `(a, b)`
fn loosen(p: &syn::Pat) -> syn::Pat {
    if let syn::Pat::Reference(r) = p {
        let mut v = Refs { by_ref: 0, other: 0 };
        syn::visit::Visit::visit_pat(&mut v, &r.pat);
        if v.by_ref > 0 && v.other == 0 {
            let mut q = (*r.pat).clone();
            StripRef.visit_pat_mut(&mut q);
            return q;
        }
    }
    p.clone()
}
/// the elements `X.iter()`, in order, as a vector of references
fn items_of(e: &Expr) -> Expr {
    match e {
        Expr::MethodCall(m) if m.method == "enumerate" && m.args.is_empty() => {
            if let Expr::MethodCall(i) = &*m.receiver {
                if i.method == "iter" && i.args.is_empty() {
                    let x = &i.receiver;
                    return parse_quote!(crate::stdy::std_enumerate(&#x));
                }
            }
            parse_quote!(crate::stdy::std_items(#e))
        }
        Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
            let x = &m.receiver;
            parse_quote!(crate::stdy::std_items(&#x))
        }
        Expr::Reference(_) => parse_quote!(crate::stdy::std_items(#e)),
        e => e.clone(),
    }
}
/// `X.iter().map(|p| B)`
fn mapped(e: &Expr) -> Option<(Expr, syn::Pat, Expr)> {
    match e {
        Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 => match &*m.receiver {
            Expr::MethodCall(i) if i.method == "iter" && i.args.is_empty() => {
                inlinable(&m.args[0], 1).map(|(mut p, b)| ((*m.receiver).clone(), p.remove(0), b))
            }
            _ => None,
        },
        _ => None,
    }
}
/// as a vector, built by a loop
fn gathered(x: &Expr, p: &syn::Pat, b: &Expr, k: usize) -> Expr {
    let v = format_ident!("__vx_v{}", k);
    parse_quote!({ let mut #v = Vec::new(); for __vx_x in #x { let #p = __vx_x; #v.push(#b); } #v })
}
/// in the last statement of a loop's body, `if c { S; continue; } R` is `if c { S } else { R }`
fn no_continue(b: &mut syn::Block) {
    let ends = |b: &syn::Block| matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none());
    if ends(b) {
        b.stmts.pop();
    }
    for k in 0..b.stmts.len() {
        if let Stmt::Expr(Expr::If(i), _) = &b.stmts[k] {
            if i.else_branch.is_none() && ends(&i.then_branch) && k + 1 < b.stmts.len() {
                let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
                if let Some(Stmt::Expr(Expr::If(mut i), _)) = b.stmts.pop() {
                    i.else_branch = Some((Default::default(), Box::new(parse_quote!({ #(#rest)* }))));
                    b.stmts.push(Stmt::Expr(Expr::If(i), None));
                }
                break;
            }
        }
    }
    fn tail(e: &mut Expr) {
        match e {
            Expr::Block(x) if x.label.is_none() => no_continue(&mut x.block),
            Expr::If(i) => {
                no_continue(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    tail(x);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| tail(&mut a.body)),
            Expr::Continue(c) if c.label.is_none() => *e = parse_quote!({}),
            _ => {}
        }
    }
    if let Some(Stmt::Expr(e, _)) = b.stmts.last_mut() {
        tail(e);
    }
}
pub fn iter_params(s: &mut syn::Signature) {
    IterParams.visit_signature_mut(s)
}
/// `impl Iterator<Item = T>` is taken as the vector of what it yields
struct IterParams;
impl VisitMut for IterParams {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::ImplTrait(i) = t {
            if let (1, Some(syn::TypeParamBound::Trait(b))) = (i.bounds.len(), i.bounds.first()) {
                if let Some(s) = b.path.segments.last() {
                    if s.ident == "Iterator" || s.ident == "DoubleEndedIterator" {
                        if let syn::PathArguments::AngleBracketed(a) = &s.arguments {
                            if let Some(syn::GenericArgument::AssocType(x)) = a.args.first() {
                                let ty = &x.ty;
                                *t = parse_quote!(Vec<#ty>);
                                return;
                            }
                        }
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// the name a statement binds
fn bound_name(st: &Stmt) -> Option<String> {
    match st {
        Stmt::Local(syn::Local { pat: syn::Pat::Ident(i), init: Some(_), .. }) => Some(i.ident.to_string()),
        _ => None,
    }
}

/// an expression can be a function of its own only if control does not leave it
fn closed(e: &Expr) -> Result<(), String> {
    struct Leaves(Option<String>, usize);
    impl<'a> Visit<'a> for Leaves {
        fn visit_expr(&mut self, e: &'a Expr) {
            let l = matches!(e, Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_));
            match e {
                Expr::Return(_) | Expr::Try(_) => self.0 = Some("control leaves an expression to be outlined".into()),
                Expr::Break(b) if self.1 == 0 || b.label.is_some() => self.0 = Some("break out of an expression to be outlined".into()),
                Expr::Continue(b) if self.1 == 0 || b.label.is_some() => self.0 = Some("continue out of an expression to be outlined".into()),
                _ => (),
            }
            self.1 += l as usize;
            syn::visit::visit_expr(self, e);
            self.1 -= l as usize;
        }
    }
    let mut v = Leaves(None, 0);
    v.visit_expr(e);
    v.0.map_or(Ok(()), Err)
}

fn mentions(e: &Expr, x: &syn::Ident) -> bool {
    fn go(t: TokenStream, x: &syn::Ident) -> bool {
        t.into_iter().any(|t| match t {
            TokenTree::Ident(i) => i == *x,
            TokenTree::Group(g) => go(g.stream(), x),
            _ => false,
        })
    }
    go(e.to_token_stream(), x)
}

/// does the statement bind this name
fn named(st: &Stmt, name: &str) -> bool {
    matches!(st, Stmt::Local(l) if matches!(&l.pat, syn::Pat::Ident(i) if i.ident == name))
}

impl VisitMut for Norm {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }

    fn visit_type_path_mut(&mut self, t: &mut syn::TypePath) {
        shift_qself(&mut t.qself, &t.path);
        visit_mut::visit_type_path_mut(self, t);
    }
    fn visit_expr_path_mut(&mut self, t: &mut syn::ExprPath) {
        shift_qself(&mut t.qself, &t.path);
        visit_mut::visit_expr_path_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        // `::peg::x` names the runtime crate
        if p.leading_colon.is_some() && p.segments.first().map(|s| s.ident == "peg").unwrap_or(false) {
            let segs = p.segments.clone();
            *p = parse_quote!(crate::#segs);
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        // debugging output: dropped, or an entry in the log
        let mut err = None;
        let log = self.log;
        b.stmts.retain_mut(|s| match s {
            Stmt::Macro(m) if is_print(&m.mac.path) => {
                if log {
                    match say(&m.mac) {
                        Ok(e) => *s = Stmt::Expr(e, Some(Default::default())),
                        Err(x) => err = Some(x),
                    }
                }
                log
            }
            Stmt::Item(syn::Item::Use(_)) => false,
            // under contract by itself (or, if it is not, unknown to the verifier)
            Stmt::Item(syn::Item::Fn(_)) => false,
            _ => true,
        });
        if err.is_some() {
            self.error = err;
        }
        let mut out = vec![];
        let mut pos = (None, None, None);
        for mut st in std::mem::take(&mut b.stmts) {
            if let Stmt::Local(l) = &st {
                role(l, &mut pos);
            }
            if let (None, Some(v)) = (&pos.2, &self.bound) {
                pos.2 = Some(v.clone());
            }
            let is_loop = matches!(&st, Stmt::Expr(Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_), _));
            if is_loop {
                self.pending = pos.clone();
                let m = format_ident!("__vx_before_{}", self.loops);
                out.push(parse_quote!(#m!{};));
            }
            let hint = named(&st, "__choice_res").then(|| {
                self.hints += 1;
                format_ident!("__vx_hint_{}", self.hints - 1)
            });
            let cut = bound_name(&st).and_then(|n| {
                let k = self.bound_seen.entry(n.clone()).or_insert(0);
                *k += 1;
                let key = format!("{n} {}", *k - 1);
                self.outline.iter().position(|o| *o == key)
            });
            if let (Some(_), Stmt::Local(l)) = (cut, &st) {
                if let Some(i) = &l.init {
                    if let Err(e) = closed(&i.expr) {
                        self.error = Some(e);
                    }
                }
            }
            self.visit_stmt_mut(&mut st);
            if let (Some(k), Stmt::Local(l)) = (cut, &mut st) {
                if let Some(i) = &mut l.init {
                    let m = format_ident!("__vx_outline_{}", k);
                    let e = (*i.expr).clone();
                    i.expr = Box::new(parse_quote!(#m!(#e)));
                }
            }
            out.push(st);
            if let Some(m) = hint {
                out.push(parse_quote!(#m!{};));
            }
        }
        b.stmts = out;
    }

    fn visit_macro_mut(&mut self, _m: &mut syn::Macro) {}

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.iters {
            if let Some(n) = self.adapter(e) {
                *e = n;
                return self.visit_expr_mut(e);
            }
        }
        // `(|| B)()` is `B` when nothing in B leaves the closure
        if let Expr::Call(c) = e {
            if c.args.is_empty() {
                let mut f = &*c.func;
                while let Expr::Paren(p) = f {
                    f = &p.expr;
                }
                if let Expr::Closure(cl) = f {
                    if cl.inputs.is_empty() && cl.asyncness.is_none() {
                        if !self.acts.is_empty() {
                            let key = plain(quote::ToTokens::to_token_stream(&cl.body));
                            if let Some((f, _)) = self.acts.iter().find(|a| a.1 == key) {
                                *e = syn::parse_str(f).unwrap();
                                return;
                            }
                            if syn::parse_str::<syn::Ident>(key.trim()).is_err() {
                                self.error = Some(format!("an action that is not published: {}", key));
                                return;
                            }
                        }
                        let mut h = HasEscape(false);
                        syn::visit::Visit::visit_expr(&mut h, &cl.body);
                        if !h.0 {
                            let body = (*cl.body).clone();
                            *e = parse_quote!({ #body });
                            // avoid `{ { .. } }`
                            if let Expr::Block(b) = &body {
                                if b.label.is_none() {
                                    *e = body.clone();
                                }
                            }
                            return self.visit_expr_mut(e);
                        }
                    }
                }
            }
            // `(|a, b| B)(x, y)`: the arguments are evaluated, then bound, then B
            {
                let mut f = &*c.func;
                while let Expr::Paren(p) = f {
                    f = &p.expr;
                }
                if let Expr::Closure(cl) = f {
                    if cl.asyncness.is_none() && !cl.inputs.is_empty() && cl.inputs.len() == c.args.len() {
                        let mut h = HasEscape(false);
                        syn::visit::Visit::visit_expr(&mut h, &cl.body);
                        if !h.0 {
                            let mut stmts: Vec<Stmt> = vec![];
                            for (k, a) in c.args.iter().enumerate() {
                                let t = format_ident!("__vx_arg_{}", k);
                                stmts.push(parse_quote!(let #t = #a;));
                            }
                            for (k, p) in cl.inputs.iter().enumerate() {
                                let t = format_ident!("__vx_arg_{}", k);
                                stmts.push(match p {
                                    syn::Pat::Type(pt) => { let (p, ty) = (&pt.pat, &pt.ty); parse_quote!(let #p: #ty = #t;) }
                                    p => parse_quote!(let #p = #t;),
                                });
                            }
                            let body = (*cl.body).clone();
                            *e = parse_quote!({ #(#stmts)* #body });
                            return self.visit_expr_mut(e);
                        }
                    }
                }
            }
            // ghost arguments, erased by the verifier
            if let Expr::Path(p) = &*c.func {
                if let Some(seg) = p.path.segments.last() {
                    let name = seg.ident.to_string();
                    let mut extra = vec![];
                    if let Some(i) = self.ghost_calls.iter().position(|(n, _)| *n == name) {
                        extra.push(self.ghost_calls.remove(i).1);
                    }
                    for x in extra {
                        let ts: TokenStream = format!("__vx_ghost!({x})").parse().unwrap();
                        c.args.push(Expr::Verbatim(ts));
                    }
                }
            }
        }
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &*i.cond {
                if let syn::Pat::TupleStruct(t) = &*l.pat {
                    if let (2, Some(syn::Pat::Ident(x))) = (t.elems.len(), t.elems.last()) {
                        if x.mutability.is_some() {
                            let was = self.bound.replace(x.ident.to_string());
                            visit_mut::visit_expr_mut(self, e);
                            self.bound = was;
                            return;
                        }
                    }
                }
            }
        }
        match e {
            Expr::Loop(l) => {
                let k = self.loops;
                self.loops += 1;
                let r = std::mem::take(&mut self.pending);
                self.roles.insert(k.to_string(), r);
                self.visit_block_mut(&mut l.body);
                let m = format_ident!("__vx_loop_{}", k);
                l.body.stmts.insert(0, parse_quote!(#m!{};));
                return;
            }
            Expr::While(l) => {
                let k = self.loops;
                self.loops += 1;
                let r = std::mem::take(&mut self.pending);
                self.roles.insert(k.to_string(), r);
                self.visit_expr_mut(&mut l.cond);
                self.visit_block_mut(&mut l.body);
                let m = format_ident!("__vx_loop_{}", k);
                l.body.stmts.insert(0, parse_quote!(#m!{};));
                return;
            }
            Expr::ForLoop(l) => {
                let k = self.loops;
                self.loops += 1;
                let r = std::mem::take(&mut self.pending);
                self.roles.insert(k.to_string(), r);
                if self.iters {
                    no_continue(&mut l.body);
                    // `for P in X`: the pattern is bound inside
                    if !matches!(&*l.expr, Expr::Call(_)) {
                        l.expr = Box::new(items_of(&l.expr));
                    }
                    if !matches!(&*l.pat, syn::Pat::Ident(_)) {
                        let p = (*l.pat).clone();
                        l.body.stmts.insert(0, parse_quote!(let #p = __vx_x;));
                        l.pat = parse_quote!(__vx_x);
                    }
                }
                self.visit_expr_mut(&mut l.expr);
                if self.redirect.iter().any(|r| r == "for") {
                    let x = (*l.expr).clone();
                    l.expr = parse_quote!(crate::stdx::std_items(#x));
                }
                self.visit_block_mut(&mut l.body);
                let m = format_ident!("__vx_loop_{}", k);
                l.body.stmts.insert(0, parse_quote!(#m!{};));
                return;
            }
            Expr::MethodCall(m) if m.method == "map_or" && m.args.len() == 2 && plain_closure(&m.args[1]) && matches!(&m.args[0], Expr::Lit(_)) => {
                // `o.map_or(d, |x| B)` is `match o { Some(x) => B, None => d }`
                let (o, d) = ((*m.receiver).clone(), m.args[0].clone());
                if let Expr::Closure(c) = &m.args[1] {
                    let (x, b) = (c.inputs[0].clone(), (*c.body).clone());
                    *e = parse_quote!(match #o { Some(#x) => #b, None => #d });
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::MethodCall(m)
                if m.method == "map_or_else" && m.args.len() == 2 && plain_closure(&m.args[1]) && matches!(&m.args[0], Expr::Closure(c) if c.inputs.is_empty()) =>
            {
                // `o.map_or_else(|| A, |x| B)` is `match o { Some(x) => B, None => A }`
                let o = (*m.receiver).clone();
                if let (Expr::Closure(d), Expr::Closure(c)) = (&m.args[0], &m.args[1]) {
                    let mut h = HasEscape(false);
                    syn::visit::Visit::visit_expr(&mut h, &d.body);
                    if !h.0 {
                        let (x, b, d) = (c.inputs[0].clone(), (*c.body).clone(), (*d.body).clone());
                        *e = parse_quote!(match #o { Some(#x) => #b, None => #d });
                    }
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Binary(b) if self.redirect.iter().any(|r| r == "==") && matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_)) => {
                let (l, r) = (b.left.clone(), b.right.clone());
                *e = if matches!(b.op, syn::BinOp::Eq(_)) { parse_quote!(crate::stdx::std_eq(&#l, &#r)) } else { parse_quote!(!crate::stdx::std_eq(&#l, &#r)) };
            }
            Expr::Binary(b) if self.bools => {
                let (l, r) = (b.left.clone(), b.right.clone());
                match b.op {
                    // `a == &b` compares `*a` with `b`
                    syn::BinOp::Eq(_) | syn::BinOp::Ne(_) => {
                        if let (Expr::Reference(y), false) = (&*r, matches!(&*l, Expr::Reference(_))) {
                            if y.mutability.is_none() {
                                b.left = parse_quote!(*#l);
                                b.right = y.expr.clone();
                            }
                        }
                    }
                    syn::BinOp::BitOr(_) => *e = parse_quote!(crate::vx_or(#l, #r)),
                    syn::BinOp::BitAnd(_) => *e = parse_quote!(crate::vx_and(#l, #r)),
                    syn::BinOp::BitOrAssign(_) => *e = parse_quote!(#l = crate::vx_or(#r, #l)),
                    syn::BinOp::BitAndAssign(_) => *e = parse_quote!(#l = crate::vx_and(#r, #l)),
                    _ => {}
                }
            }
            Expr::Index(i) if matches!(&*i.index, Expr::Range(_)) => {
                if let Expr::Range(r) = &*i.index {
                    if let (Some(a), None) = (&r.start, &r.end) {
                        if self.redirect.iter().any(|r| r == "from") {
                            let (x, a) = (i.expr.clone(), a.clone());
                            *e = parse_quote!(crate::stdx::std_from(&#x, #a));
                        }
                    } else if self.iters {
                        let x = i.expr.clone();
                        *e = match (&r.start, &r.end, &r.limits) {
                            (Some(a), Some(b), syn::RangeLimits::HalfOpen(_)) => parse_quote!(*crate::stdy::std_range(&#x, #a, #b)),
                            (None, Some(b), syn::RangeLimits::HalfOpen(_)) => parse_quote!(*crate::stdy::std_range(&#x, 0, #b)),
                            (Some(a), None, _) => parse_quote!(*crate::stdy::std_range(&#x, #a, #x.len())),
                            (None, None, _) => parse_quote!(*crate::stdy::std_full(&#x)),
                            _ => e.clone(),
                        };
                    }
                }
            }
            Expr::Match(m) if all_ref(m) => {
                // `match place { P(ref x) .. }` is `match &place { P(x) .. }`
                let x = (*m.expr).clone();
                m.expr = parse_quote!(&#x);
                for a in &mut m.arms {
                    StripRef.visit_pat_mut(&mut a.pat);
                }
            }
            Expr::MethodCall(m)
                if !m.args.is_empty()
                    && matches!(&*m.receiver, Expr::MethodCall(i) if self.redirect.iter().any(|r| *r == format!("{}.{}", i.method, m.method))) =>
            {
                // two std calls in a row that only make sense together
                let i = match &*m.receiver {
                    Expr::MethodCall(i) => i.clone(),
                    _ => unreachable!(),
                };
                let recv = (*i.receiver).clone();
                let (a, b) = (i.args.clone(), m.args.clone());
                if i.method == "iter" {
                    let f = format_ident!("std_{}_{}", i.method, m.method);
                    *e = parse_quote!(crate::stdx::#f(&#recv, #b));
                } else {
                    let f = format_ident!("{}_{}", i.method, m.method);
                    *e = parse_quote!(#recv.#f(#a, #b));
                }
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::MethodCall(m)
                if m.args.is_empty()
                    && matches!(&*m.receiver, Expr::MethodCall(i) if self.redirect.iter().any(|r| *r == format!("{}.{}", i.method, m.method))) =>
            {
                let i = match &*m.receiver {
                    Expr::MethodCall(i) => i.clone(),
                    _ => unreachable!(),
                };
                let f = format_ident!("std_{}_{}", i.method, m.method);
                let recv = (*i.receiver).clone();
                let args = i.args.clone();
                *e = parse_quote!(crate::stdx::#f(#recv, #args));
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Match(m) if m.arms.iter().any(|a| matches!(a.pat, syn::Pat::Reference(_))) && m.arms.iter().all(|a| matches!(&a.pat, syn::Pat::Reference(_) | syn::Pat::Wild(_))) => {
                // `match &e { &P => .. }` is `match e { P => .. }`
                if let Expr::Reference(r) = (*m.expr).clone() {
                    if r.mutability.is_none() {
                        m.expr = r.expr;
                        for a in &mut m.arms {
                            if let syn::Pat::Reference(p) = a.pat.clone() {
                                a.pat = *p.pat;
                            }
                        }
                    }
                }
            }
            Expr::MethodCall(m) if self.redirect.iter().any(|r| m.method == r.trim_start_matches(['&', '@'])) => {
                // std method without a Verus specification: same call through a trusted wrapper
                let f = format_ident!("std_{}", m.method);
                let recv = (*m.receiver).clone();
                let args = m.args.clone();
                let by_ref = self.redirect.iter().any(|r| r.strip_prefix('&').map_or(false, |r| m.method == r));
                let by_mut = self.redirect.iter().any(|r| r.strip_prefix('@').map_or(false, |r| m.method == r));
                let std = if self.iters { format_ident!("stdy") } else { format_ident!("stdx") };
                *e = if by_ref {
                    parse_quote!(crate::#std::#f(&#recv, #args))
                } else if by_mut {
                    parse_quote!(crate::#std::#f(&mut #recv, #args))
                } else {
                    parse_quote!(crate::#std::#f(#recv, #args))
                };
                visit_mut::visit_expr_mut(self, e);
                return;
            }
            Expr::Struct(x) if self.log && x.path.segments.last().map_or(false, |s| s.ident == "ParseState") => {
                x.fields.push(parse_quote!(vx_log: Ghost(vstd::seq::Seq::empty())));
            }
            Expr::Macro(m) => {
                if is_print(&m.mac.path) {
                    if self.log {
                        match say(&m.mac) {
                            Ok(n) => *e = n,
                            Err(x) => self.error = Some(x),
                        }
                    } else {
                        *e = parse_quote!(());
                    }
                    return;
                }
                if m.mac.path.is_ident("quote") || m.mac.path.is_ident("quote_spanned") {
                    match desugar_quote(&m.mac) {
                        Ok(n) => {
                            *e = n;
                            visit_mut::visit_expr_mut(self, e);
                        }
                        Err(x) => self.error = Some(x),
                    }
                    return;
                }
                if m.mac.path.is_ident("format_ident") {
                    *e = parse_quote!(crate::stdq::some_ident());
                    return;
                }
                if m.mac.path.is_ident("cfg") {
                    *e = parse_quote!(crate::stdq::some_bool());
                    return;
                }
                if m.mac.path.is_ident("format") {
                    match desugar_format(&m.mac) {
                        Ok(n) => {
                            *e = n;
                            visit_mut::visit_expr_mut(self, e);
                        }
                        Err(x) => self.error = Some(x),
                    }
                    return;
                }
                if m.mac.path.is_ident("write") {
                    match desugar_write(&m.mac) {
                        Ok(n) => {
                            *e = n;
                            visit_mut::visit_expr_mut(self, e);
                        }
                        Err(x) => self.error = Some(x),
                    }
                    return;
                }
                if m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable") {
                    *e = parse_quote!(crate::vx_panic());
                    return;
                }
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                self.visit_expr_mut(&mut c.body);
                if let Some(t) = self.closure_specs.get(&k.to_string()).cloned() {
                    let m = self.closure_mark(t);
                    let b = (*c.body).clone();
                    c.body = match b {
                        Expr::Block(mut b) => {
                            let ms: Stmt = parse_quote!(#m);
                            b.block.stmts.insert(0, ms);
                            Box::new(Expr::Block(b))
                        }
                        b => parse_quote!({ #m #b }),
                    };
                    c.output = syn::ReturnType::Default;
                    return;
                }
                // `|&&c| E`: a variable pattern, the dereference made explicit, the
                // closure's contract is its own (side-effect free) body
                if c.inputs.len() == 1 {
                    let p = match &c.inputs[0] {
                        syn::Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    };
                    if let Some((n, id)) = ref_pat(&p).filter(|(n, _)| *n > 0) {
                        let b = (*c.body).clone();
                        let stars = "*".repeat(n);
                        let v = format_ident!("__c_{}", id);
                        let d: Expr = syn::parse_str(&format!("{stars}{v}")).unwrap();
                        let body: TokenStream = quote!({ let #id = #d; #b });
                        let ty: syn::Type = syn::parse_str(&format!("{}_", "&".repeat(n))).unwrap();
                        let text = format!("-> (r: bool) ensures r == ({})", crate::print::inline(body.clone()));
                        let m = self.closure_mark(text);
                        c.inputs.clear();
                        c.inputs.push(syn::Pat::Type(syn::PatType {
                            attrs: vec![],
                            pat: Box::new(syn::Pat::Ident(syn::PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: v, subpat: None })),
                            colon_token: Default::default(),
                            ty: Box::new(ty),
                        }));
                        c.body = parse_quote!({ #m #body });
                    }
                }
                return;
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("quote") || m.mac.path.is_ident("quote_spanned") {
                let e = Expr::Macro(syn::ExprMacro { attrs: vec![], mac: m.mac.clone() });
                *s = Stmt::Expr(e, m.semi_token);
            }
        }
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("panic") || m.mac.path.is_ident("unreachable") {
                *s = parse_quote!(crate::vx_panic(););
                return;
            }
            if m.mac.path.is_ident("debug_assert") || m.mac.path.is_ident("assert") {
                // a panic unless the condition holds
                match m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    Ok(a) if !a.is_empty() => {
                        let c = &a[0];
                        *s = parse_quote!(crate::vx_assert(#c););
                    }
                    _ => self.error = Some("assert!".into()),
                }
            } else if m.mac.path.is_ident("debug_assert_eq") || m.mac.path.is_ident("assert_eq") {
                match m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated) {
                    Ok(a) if a.len() >= 2 => {
                        let (x, y) = (&a[0], &a[1]);
                        *s = parse_quote!(crate::vx_assert(#x == #y););
                    }
                    _ => self.error = Some("assert_eq!".into()),
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

}

/// what a `let mut` in front of a loop is for, told by its initial value
fn role(l: &syn::Local, r: &mut (Option<String>, Option<String>, Option<String>)) {
    let pat = match &l.pat {
        syn::Pat::Type(t) => &*t.pat,
        p => p,
    };
    let (name, init) = match (pat, &l.init) {
        (syn::Pat::Ident(i), Some(x)) if i.mutability.is_some() => (i.ident.to_string(), &*x.expr),
        _ => return,
    };
    match init {
        Expr::Path(p) => {
            if let Some(i) = p.path.get_ident() {
                r.0 = Some(name);
                r.1 = Some(i.to_string());
            } else if p.path.segments.last().map_or(false, |s| s.ident == "Failed") {
                // the best result so far of a rule that grows its match
                r.2 = Some(name);
            }
        }
        Expr::Macro(m) if m.mac.path.is_ident("vec") && m.mac.tokens.is_empty() => r.2 = Some(name),
        Expr::Call(c) if c.args.is_empty() => {
            let f = canon_tokens(c.func.to_token_stream());
            if f.ends_with("Vec::new") {
                r.2 = Some(name);
            }
        }
        _ => {}
    }
}

/// `write!(f, "a{}b", x)` writes its pieces in order and stops at the first error
fn desugar_write(m: &syn::Macro) -> Result<Expr, String> {
    use syn::parse::Parser;
    let args = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated
        .parse2(m.tokens.clone())
        .map_err(|e| e.to_string())?;
    let mut it = args.into_iter();
    let f = it.next().ok_or("write! without target")?;
    let s = match it.next() {
        Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
        _ => return Err("write! without literal format".into()),
    };
    let mut pieces: Vec<Expr> = vec![];
    let mut rest: Vec<Expr> = it.collect();
    rest.reverse();
    let mut lit = String::new();
    let mut cs = s.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '{' if cs.peek() == Some(&'{') => {
                cs.next();
                lit.push('{')
            }
            '}' if cs.peek() == Some(&'}') => {
                cs.next();
                lit.push('}')
            }
            '{' => {
                if cs.next() != Some('}') {
                    return Err("format argument with options".into());
                }
                if !lit.is_empty() {
                    pieces.push(parse_quote!(#lit));
                    lit.clear();
                }
                let a = rest.pop().ok_or("missing format argument")?;
                pieces.push(parse_quote!(&#a));
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        pieces.push(parse_quote!(#lit));
    }
    if !rest.is_empty() {
        return Err("unused format argument".into());
    }
    let mut out: Option<Expr> = None;
    for p in pieces.into_iter().rev() {
        let w: Expr = parse_quote!(crate::stdx2::Show::show(#p, #f));
        out = Some(match out {
            None => w,
            Some(o) => parse_quote!(match #w { Ok(()) => #o, Err(__e) => Err(__e) }),
        });
    }
    Ok(out.unwrap_or_else(|| parse_quote!(Ok(()))))
}

#[allow(dead_code)]
pub fn show<T: ToTokens>(t: &T) -> String {
    crate::print::inline(t.to_token_stream())
}

/// `println!("a {} b {}", "x", y)` becomes `say1(__state, "a x b {}", &y)`
fn say(m: &syn::Macro) -> Result<Expr, String> {
    use syn::parse::Parser;
    let args = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).map_err(|e| e.to_string())?;
    let mut it = args.into_iter();
    let f = match it.next() {
        Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
        _ => return Err("println! without literal format".into()),
    };
    let mut rest = it;
    let (mut text, mut vals) = (String::new(), vec![]);
    let mut cs = f.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '{' if cs.peek() == Some(&'{') => {
                cs.next();
                text.push('{')
            }
            '}' if cs.peek() == Some(&'}') => {
                cs.next();
                text.push('}')
            }
            '{' => {
                let mut name = String::new();
                loop {
                    match cs.next() {
                        Some('}') => break,
                        Some(c) => name.push(c),
                        None => return Err("unclosed placeholder".into()),
                    }
                }
                let v: Expr = if name.is_empty() { rest.next().ok_or("missing argument")? } else { syn::parse_str(&name).map_err(|e| e.to_string())? };
                match v {
                    Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => text.push_str(&s.value()),
                    v => {
                        text.push_str("{}");
                        vals.push(v)
                    }
                }
            }
            c => text.push(c),
        }
    }
    let f = format_ident!("say{}", vals.len());
    Ok(parse_quote!(crate::#f(__state, #text, #(&#vals),*)))
}

/// `format!("a{}b", x)` is the concatenation of its pieces
fn desugar_format(m: &syn::Macro) -> Result<Expr, String> {
    use syn::parse::Parser;
    let args = syn::punctuated::Punctuated::<Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).map_err(|e| e.to_string())?;
    let mut rest = args.into_iter();
    let f = match rest.next() {
        Some(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => s.value(),
        _ => return Err("format! without literal format".into()),
    };
    let mut pieces: Vec<Expr> = vec![];
    let mut lit = String::new();
    let mut cs = f.chars().peekable();
    while let Some(c) = cs.next() {
        match c {
            '{' if cs.peek() == Some(&'{') => {
                cs.next();
                lit.push('{')
            }
            '}' if cs.peek() == Some(&'}') => {
                cs.next();
                lit.push('}')
            }
            '{' => {
                let mut name = String::new();
                loop {
                    match cs.next() {
                        Some('}') => break,
                        Some(c) => name.push(c),
                        None => return Err("unclosed placeholder".into()),
                    }
                }
                if name.contains(':') {
                    return Err("format argument with options".into());
                }
                if !lit.is_empty() {
                    pieces.push(parse_quote!(#lit));
                    lit.clear();
                }
                pieces.push(if name.is_empty() { rest.next().ok_or("missing argument")? } else { syn::parse_str(&name).map_err(|e| e.to_string())? });
            }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() {
        pieces.push(parse_quote!(#lit));
    }
    let mut out: Expr = parse_quote!(crate::stdx::fmt_start());
    for p in pieces {
        out = parse_quote!(crate::stdx::fmt_add(#out, &#p));
    }
    Ok(out)
}
