//! Grammars as trees: random ones, how they are written, what the parser should make of them.
use crate::ast::*;
use crate::ast::Expr::*;
use crate::Rng;

fn o<T: ToString>(x: &Option<T>) -> String { x.as_ref().map(|t| sq(&t.to_string())).unwrap_or("-".into()) }
/// token streams are compared without their spacing
fn sq(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }

// ---- what was read ----
pub fn show(g: &Grammar) -> String {
    let it: Vec<String> = g.items.iter().map(|i| match i { Item::Use(u) => format!("use[{}]", sq(&u.to_string())), Item::Rule(r) => rule(r) }).collect();
    let args: Vec<String> = g.args.iter().map(|(n, t)| format!("{}:{}", n, sq(&t.to_string()))).collect();
    format!("doc[{}]vis[{}]name[{}]lt[{}]args[{}]for[{}]{{{}}}", o(&g.doc), o(&g.visibility), g.name, lts(&g.lifetime_params), args.join(";"), sq(&g.input_type.to_string()), it.join("\n"))
}
fn lts(l: &Option<Vec<proc_macro2::TokenStream>>) -> String { l.as_ref().map(|v| v.iter().map(|t| sq(&t.to_string())).collect::<Vec<_>>().join(";")).unwrap_or("-".into()) }
fn rule(r: &Rule) -> String {
    let ps: Vec<String> = r.params.iter().map(|p| match &p.ty { RuleParamTy::Rust(t) => format!("{}:{}", p.name, sq(&t.to_string())), RuleParamTy::Rule(t) => format!("{}:rule<{}>", p.name, sq(&t.to_string())) }).collect();
    let c = match r.cache { None => "-", Some(Cache::Simple) => "simple", Some(Cache::Recursive) => "rec" };
    format!("doc[{}]cache[{}]noeof[{}]vis[{}]rule[{}]ty[{}]params[{}]ret[{}]where[{}]={}", o(&r.doc), c, r.no_eof, o(&r.visibility), r.name, lts(&r.ty_params), ps.join(";"), o(&r.ret_type), o(&r.where_clause), sh(&r.expr))
}
fn list(v: &[SpannedExpr]) -> String { v.iter().map(sh).collect::<Vec<_>>().join(" ") }
fn tagged(v: &[TaggedExpr]) -> String { v.iter().map(|t| format!("{}:{}", o(&t.name), sh(&t.expr))).collect::<Vec<_>>().join(" ") }
fn bound(b: &BoundedRepeat) -> String { match b { BoundedRepeat::None => "*".into(), BoundedRepeat::Plus => "+".into(), BoundedRepeat::Exact(n) => format!("={}", sq(&n.to_string())), BoundedRepeat::Both(a, b) => format!("{}..{}", o(a), o(b)) } }
fn sh(e: &SpannedExpr) -> String {
    match &e.expr {
        LiteralExpr(l) => format!("lit[{}]", l), PatternExpr(g) => format!("pat{}", sq(&g.to_string())),
        RuleExpr(n, g, a) => format!("call[{} {} {}]", n, o(g), a.iter().map(|a| match a { RuleArg::Rust(t) => format!("rust[{}]", sq(&t.to_string())), RuleArg::Peg(e) => format!("peg[{}]", sh(e)) }).collect::<Vec<_>>().join(" ")),
        MethodExpr(m, a) => format!("method[{} {}]", m, sq(&a.to_string())), CustomExpr(g) => format!("custom[{}]", sq(&g.to_string())),
        ChoiceExpr(v) => format!("choice[{}]", list(v)), OptionalExpr(e) => format!("opt[{}]", sh(e)),
        Repeat { inner, bound: b, sep } => format!("rep[{} {} {}]", sh(inner), bound(b), sep.as_ref().map(|s| sh(s)).unwrap_or("-".into())),
        PosAssertExpr(e) => format!("and[{}]", sh(e)), NegAssertExpr(e) => format!("not[{}]", sh(e)),
        ActionExpr(v, a) => format!("seq[{} {}]", tagged(v), o(a)), MatchStrExpr(e) => format!("slice[{}]", sh(e)),
        PositionExpr => "position".into(), QuietExpr(e) => format!("quiet[{}]", sh(e)), FailExpr(g) => format!("fail{}", sq(&g.to_string())),
        PrecedenceExpr { levels } => format!("prec[{}]", levels.iter().map(|l| l.operators.iter().map(|p| format!("{} {}", tagged(&p.elements), sq(&p.action.to_string()))).collect::<Vec<_>>().join(";")).collect::<Vec<_>>().join("--")),
        MarkerExpr(b) => format!("mark[{}]", b),
    }
}

// ---- what is written: text and its reading ----
/// where an expression can stand: 3 choice, 2 sequence, 1 element, 0 primary
struct W { text: String, want: String, lvl: u8 }
fn at(w: W, lvl: u8) -> W { if w.lvl <= lvl { w } else { W { text: format!("({})", w.text), want: w.want, lvl: 0 } } }
fn w(text: impl Into<String>, want: impl Into<String>, lvl: u8) -> W { W { text: text.into(), want: want.into(), lvl } }
fn ident(r: &mut Rng) -> &'static str { r.pick(&["a", "b", "expr", "r#pub", "quiet", "position", "cache", "x1", "grammar", "precedence"]) }
fn atom(r: &mut Rng) -> W {
    match r.below(12) {
        0 => w("\"+\"", "lit[\"+\"]", 0), 1 => w("'c'", "lit['c']", 0), 2 => w("['a'..='z' | '_']", "pat['a'..='z'|'_']", 0),
        3 => w("[^ 'x']", "pat[^'x']", 0),
        4 => { let n = *r.pick(&["_", "__", "___"]); w(n, format!("call[{} - ]", n), 0) }
        5 => { let n = ident(r); w(format!("##{}(1, 2)", n), format!("method[{} 1,2]", n), 0) }
        6 => w("##m()", "method[m ]", 0), 7 => w("#{|i, p| c(i, p)}", "custom[{|i,p|c(i,p)}]", 0),
        8 => w("position!()", "position", 0), 9 => w("expected!(\"e\")", "fail(\"e\")", 0),
        10 => w("0x10u8", "lit[0x10u8]", 0),
        _ => { let n = ident(r); w(format!("{}()", n), format!("call[{} - ]", n), 0) }
    }
}
fn count(r: &mut Rng) -> (&'static str, &'static str) { *r.pick(&[("", "*"), ("", "*"), ("<2>", "=2"), ("<{n}>", "={n}"), ("<1,>", "1..-"), ("<,3>", "-..3"), ("<1,{m}>", "1..{m}"), ("<,>", "-..-")]) }
fn items(r: &mut Rng, d: usize, n: usize, marks: bool) -> (Vec<String>, Vec<String>) {
    let (mut t, mut q) = (vec![], vec![]);
    for _ in 0..n {
        let e = if marks && r.below(3) == 0 { if r.below(2) == 0 { w("@", "mark[false]", 0) } else { w("(@)", "mark[true]", 0) } } else { at(expr(r, d), 1) };
        if r.below(3) == 0 { let l = ident(r); t.push(format!("{}:{}", l, e.text)); q.push(format!("{}:{}", l, e.want)) } else { t.push(e.text); q.push(format!("-:{}", e.want)) }
    }
    (t, q)
}
fn expr(r: &mut Rng, d: usize) -> W {
    if d == 0 || r.below(12) == 0 { return atom(r) }
    let d = d - 1;
    match r.below(12) {
        0 => { let e = at(expr(r, d), 0); let e = pre(r, e); w(format!("{}?", e.text), format!("opt[{}]", e.want), 1) }
        1 | 2 => { let e = at(expr(r, d), 0); let e = pre(r, e); let sep = r.below(2) == 0; let plus = r.below(2) == 0;
            let (ct, cw) = count(r);
            if sep { let s = at(expr(r, d), 0);
                if plus { w(format!("{} ++ {}", e.text, s.text), format!("rep[{} + {}]", e.want, s.want), 1) } else { w(format!("{} **{} {}", e.text, ct, s.text), format!("rep[{} {} {}]", e.want, cw, s.want), 1) } }
            else if plus { w(format!("{}+", e.text), format!("rep[{} + -]", e.want), 1) } else { w(format!("{}*{}", e.text, ct), format!("rep[{} {} -]", e.want, cw), 1) } }
        3 => { let e = at(expr(r, d), 0); w(format!("&{}", e.text), format!("and[{}]", e.want), 1) }
        4 => { let e = at(expr(r, d), 0); w(format!("!{}", e.text), format!("not[{}]", e.want), 1) }
        5 => { let e = at(expr(r, d), 0); w(format!("${}", e.text), format!("slice[{}]", e.want), 1) }
        6 => { let e = expr(r, d); w(format!("quiet!{{{}}}", e.text), format!("quiet[{}]", e.want), 0) }
        7 => { let n = 2 + r.below(2); let es: Vec<W> = (0..n).map(|_| at(expr(r, d), 2)).collect();
            w(es.iter().map(|e| e.text.clone()).collect::<Vec<_>>().join(" / "), format!("choice[{}]", es.iter().map(|e| e.want.clone()).collect::<Vec<_>>().join(" ")), 3) }
        8 | 9 => { let n = *r.pick(&[0, 1, 2, 2, 3, 4]); let act = n == 1 || r.below(2) == 0; let (t, q) = items(r, d, n, false);
            let a = *r.pick(&["{ v }", "{? Ok(1) }", "{ f(|x| { x }) }"]);
            if n == 0 && !act { return w("()", "seq[ -]", 0) }
            w(format!("{}{}", t.join(" "), if act { format!(" {}", a) } else { String::new() }), format!("seq[{} {}]", q.join(" "), if act { sq(a) } else { "-".into() }), 2) }
        10 => { let n = ident(r); let (mut t, mut q) = (vec![], vec![]);
            let (gt, gq) = *r.pick(&[("", "-"), ("", "-"), ("::<T>", "::<T>"), ("::<'a, u8, {N}>", "::<'a,u8,{N}>")]);
            for _ in 0..r.below(3) { if r.below(2) == 0 { let e = expr(r, d); t.push(format!("<{}>", e.text)); q.push(format!("peg[{}]", e.want)) } else { let a = *r.pick(&["1", "a + b(c, d)", "\"s\"", "{ x }"]); t.push(a.into()); q.push(format!("rust[{}]", sq(a))) } }
            // without a label, `a::<T>()` reads as the label `a`: the published grammar says so, too
            if !gt.is_empty() { return w(format!("l:{}{}({}) {{ l }}", n, gt, t.join(", ")), format!("seq[l:call[{} {} {}] {{l}}]", n, gq, q.join(" ")), 2) }
            w(format!("{}{}({})", n, gt, t.join(", ")), format!("call[{} {} {}]", n, gq, q.join(" ")), 0) }
        _ => { let (mut t, mut q) = (vec![], vec![]);
            for _ in 0..r.below(3) { let (mut lt, mut lq) = (vec![], vec![]);
                for _ in 0..1 + r.below(2) { let n = r.below(4); let (it, iq) = items(r, d.min(1), n, true); lt.push(format!("{} {{ 1 }}", it.join(" "))); lq.push(format!("{} {{1}}", iq.join(" "))) }
                t.push(lt.join(" ")); q.push(lq.join(";")) }
            w(format!("precedence!{{ {} }}", t.join(" -- ")), format!("prec[{}]", q.join("--")), 0) }
    }
}
/// a postfix operator may follow a prefix one
fn pre(r: &mut Rng, e: W) -> W { match r.below(8) { 0 => w(format!("&{}", e.text), format!("and[{}]", e.want), 1), 1 => w(format!("!{}", e.text), format!("not[{}]", e.want), 1), 2 => w(format!("${}", e.text), format!("slice[{}]", e.want), 1), _ => e } }
const TYPES: &[&str] = &["T", "&'a str", "&mut [u8]", "Vec<(A, B)>", "impl Fn(&str) -> Option<T> + 'a", "dyn C + D", "<T as I>::O", "()", "(A, B,)", "[u8; 4]", "::std::string::String", "X<'a, 3, {N}>", "&'static mut T", "impl for<'a> F<'a>", "A::<B>", "impl (?Sized)"];
fn opt<'a>(r: &mut Rng, v: &[(&'a str, &'a str)]) -> (String, String) { if r.below(2) == 0 { (String::new(), "-".into()) } else { let x = r.pick(v); (x.0.into(), sq(x.1)) } }
const DOC: &[(&str, &str)] = &[("/// d\n", "#[doc=\" d\"]"), ("#[doc = \"e\"] #[doc = \"f\"] ", "#[doc=\"e\"]#[doc=\"f\"]")];
const VIS: &[(&str, &str)] = &[("pub ", "pub"), ("pub(crate) ", "pub(crate)"), ("pub(in a::b) ", "pub(in a::b)")];
fn none(x: (String, String), empty: &str) -> (String, String) { if x.0.is_empty() { (x.0, empty.into()) } else { x } }
fn a_rule(r: &mut Rng) -> (String, String) {
    let doc = none(opt(r, DOC), ""); let vis = opt(r, VIS);
    let (c, cw) = *r.pick(&[("", "-"), ("", "-"), ("#[cache] ", "simple"), ("#[cache_left_rec] ", "rec")]);
    let ne = r.below(3) == 0;
    let under = r.below(6) == 0;
    let name = if under { *r.pick(&["_", "__", "___"]) } else { ident(r) };
    let (gt, gw) = if under { ("", "-") } else { *r.pick(&[("", "-"), ("", "-"), ("<T>", "T"), ("<'a, 'b: 'a + 'c, T: C + 'a,>", "'a;'b:'a+'c;T:C+'a")]) };
    let (mut t, mut q) = (vec![], vec![]);
    if !under { for _ in 0..r.below(3) { let n = ident(r); let y = *r.pick(TYPES); if r.below(2) == 0 { t.push(format!("{}: rule<{}>", n, y)); q.push(format!("{}:rule<{}>", n, sq(y))) } else { t.push(format!("{}: {}", n, y)); q.push(format!("{}:{}", n, sq(y))) } } }
    let ps = if under && r.below(2) == 0 { String::new() } else { format!("({}{})", t.join(", "), if !t.is_empty() && r.below(2) == 0 { "," } else { "" }) };
    let ret = if r.below(2) == 0 { let y = *r.pick(TYPES); (format!(" -> {}", y), sq(y)) } else { (String::new(), "-".into()) };
    let wh = opt(r, &[(" where T: C + 'a", "where T: C + 'a"), (" where 'a: 'b, for<'x> &'x T: (?D),", "where 'a: 'b, for<'x> &'x T: (?D),"), (" where", "where")]);
    let d = r.below(4);
    let e = expr(r, d);
    (format!("{}{}{}{}rule {}{}{}{}{} = {}{}", doc.0, c, if ne { "#[no_eof] " } else { "" }, vis.0, name, gt, ps, ret.0, wh.0, e.text, if r.below(3) == 0 { ";" } else { "" }),
     format!("doc[{}]cache[{}]noeof[{}]vis[{}]rule[{}]ty[{}]params[{}]ret[{}]where[{}]={}", doc.1, cw, ne, vis.1, name, gw, q.join(";"), ret.1, wh.1, e.want))
}
pub fn grammar(r: &mut Rng) -> (String, String) {
    let doc = none(opt(r, DOC), ""); let vis = opt(r, VIS);
    let (lt, lw) = *r.pick(&[("", "-"), ("<'a>", "'a"), ("<'a, 'b,>", "'a;'b")]);
    let (mut t, mut q) = (vec![], vec![]);
    for _ in 0..r.below(3) { let n = ident(r); let y = *r.pick(TYPES); t.push(format!("{}: {}", n, y)); q.push(format!("{}:{}", n, sq(y))) }
    let y = *r.pick(TYPES);
    let (mut it, mut iq) = (vec![], vec![]);
    for _ in 0..1 + r.below(3) {
        if r.below(6) == 0 { let u = *r.pick(&["use a::b;", "use crate::c::*;", "use x::{a, b as c,};", "use y as z;", "use a::{};"]); if u.ends_with("{};") { continue } it.push(u.to_string()); iq.push(format!("use[{}]", sq(u))) }
        else { let (a, b) = a_rule(r); it.push(a); iq.push(b) }
    }
    (format!("{}{}grammar g{}({}) for {} {{ {} }}", doc.0, vis.0, lt, t.join(", "), y, it.join("\n")),
     format!("doc[{}]vis[{}]name[g]lt[{}]args[{}]for[{}]{{{}}}", doc.1, vis.1, lw, q.join(";"), sq(y), iq.join("\n")))
}
