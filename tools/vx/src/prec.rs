//! Defunctionalisation of a precedence block: `__infix_parse` takes closures as `&dyn Fn`, which the
//! verifier does not support. Each closure literal becomes a function of its own (lambda lifting), each
//! call of a closure parameter becomes a call of that function. Done only when every closure parameter is
//! bound to exactly one literal, which is checked; otherwise the anchor is lost.
use crate::Found;
use quote::{format_ident, quote, ToTokens};
use std::collections::HashMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::{parse_quote, Expr, FnArg, Pat};

struct FnItems(Vec<syn::ItemFn>);
impl<'a> Visit<'a> for FnItems {
    fn visit_item_fn(&mut self, f: &'a syn::ItemFn) {
        self.0.push(f.clone());
    }
}

fn dyn_fn(t: &syn::Type) -> Option<(Vec<syn::Type>, syn::Type)> {
    let t = match t {
        syn::Type::Reference(r) => &*r.elem,
        _ => return None,
    };
    let b = match t {
        syn::Type::TraitObject(o) => o.bounds.first()?,
        _ => return None,
    };
    if let syn::TypeParamBound::Trait(t) = b {
        let seg = t.path.segments.last()?;
        if seg.ident != "Fn" {
            return None;
        }
        if let syn::PathArguments::Parenthesized(p) = &seg.arguments {
            let ret = match &p.output {
                syn::ReturnType::Type(_, t) => (**t).clone(),
                syn::ReturnType::Default => parse_quote!(()),
            };
            return Some((p.inputs.iter().cloned().collect(), ret));
        }
    }
    None
}

fn ident_of(p: &Pat) -> Option<(syn::Ident, bool)> {
    match p {
        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => Some((i.ident.clone(), i.mutability.is_some())),
        Pat::Type(t) => ident_of(&t.pat),
        _ => None,
    }
}

fn closure_of(e: &Expr) -> Option<&syn::ExprClosure> {
    match e {
        Expr::Reference(r) => closure_of(&r.expr),
        Expr::Paren(p) => closure_of(&p.expr),
        Expr::Closure(c) => Some(c),
        _ => None,
    }
}
fn callee(c: &syn::ExprCall) -> Option<&syn::Ident> {
    match &*c.func {
        Expr::Path(p) => p.path.get_ident(),
        _ => None,
    }
}

/// the calls of one function or closure parameter
struct Calls {
    name: String,
    found: Vec<syn::ExprCall>,
    uses: usize,
}
impl<'a> Visit<'a> for Calls {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if callee(c).map_or(false, |i| *i == self.name) {
            self.found.push(c.clone());
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) {
        if p.path.is_ident(&self.name) {
            self.uses += 1;
        }
    }
    fn visit_item_fn(&mut self, _: &'a syn::ItemFn) {}
}
fn calls(name: &str, b: &syn::Block) -> Calls {
    let mut c = Calls { name: name.to_string(), found: vec![], uses: 0 };
    c.visit_block(b);
    c
}

/// `f(a, closure, b)` becomes `g(ctx, a, b)`
struct Redirect {
    from: String,
    to: syn::Ident,
    ctx: Vec<syn::Ident>,
    drop: Vec<usize>,
}
impl VisitMut for Redirect {
    fn visit_expr_call_mut(&mut self, c: &mut syn::ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        if callee(c).map_or(false, |i| *i == self.from) {
            let to = &self.to;
            c.func = Box::new(parse_quote!(#to));
            let mut args: syn::punctuated::Punctuated<Expr, syn::Token![,]> = Default::default();
            for i in &self.ctx {
                args.push(parse_quote!(#i));
            }
            for (k, a) in c.args.iter().enumerate() {
                if !self.drop.contains(&k) {
                    args.push(a.clone());
                }
            }
            c.args = args;
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut syn::Stmt) {
        visit_mut::visit_stmt_mut(self, s)
    }
}

struct Subst(HashMap<String, syn::Type>);
impl VisitMut for Subst {
    fn visit_type_mut(&mut self, t: &mut syn::Type) {
        if let syn::Type::Path(p) = t {
            if let Some(i) = p.path.get_ident() {
                if let Some(n) = self.0.get(&i.to_string()) {
                    *t = n.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
struct DropFns;
impl VisitMut for DropFns {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        b.stmts.retain(|s| !matches!(s, syn::Stmt::Item(syn::Item::Fn(_))));
        visit_mut::visit_block_mut(self, b);
    }
}

/// PART: main | infix | atom | level | atomrec | levelrec. Returns the function and the names of its own parameters.
pub fn lift(f: &Found, part: &str, opts: &HashMap<String, String>) -> Result<(Found, Vec<String>), String> {
    let body = f.body.clone().ok_or("no body")?;
    let mut fns = FnItems(vec![]);
    fns.visit_block(&body);
    let with_dyn: Vec<_> = fns.0.into_iter().filter(|f| f.sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if dyn_fn(&t.ty).is_some()))).collect();
    if with_dyn.len() != 1 {
        return Err(format!("{} nested functions with closure parameters (expected one)", with_dyn.len()));
    }
    let inner = &with_dyn[0];
    let iname = inner.sig.ident.to_string();
    let mut sub = Subst(HashMap::new());
    for (g, o) in inner.sig.generics.type_params().zip(["T", "S"]) {
        sub.0.insert(g.ident.to_string(), syn::parse_str(opts.get(o).ok_or("no type given for the block")?).map_err(|e| e.to_string())?);
    }
    // the parameters every lifted function takes along
    let mut ctx_params: Vec<FnArg> = vec![];
    let mut ctx = vec![];
    for a in &f.sig.inputs {
        if let FnArg::Typed(t) = a {
            let (id, _) = ident_of(&t.pat).ok_or("parameter pattern")?;
            if matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()) || id == "__pos" {
                continue;
            }
            ctx_params.push(a.clone());
            ctx.push(id);
        }
    }
    let params: Vec<(syn::Ident, syn::Type)> = inner
        .sig
        .inputs
        .iter()
        .map(|a| match a {
            FnArg::Typed(t) => Ok((ident_of(&t.pat).ok_or("parameter pattern")?.0, (*t.ty).clone())),
            _ => Err("self parameter".to_string()),
        })
        .collect::<Result<_, String>>()?;
    let dyns: Vec<usize> = (0..params.len()).filter(|&k| dyn_fn(&params[k].1).is_some()).collect();
    if dyns.len() != 2 {
        return Err(format!("{} closure parameters (expected two)", dyns.len()));
    }
    let base = f.sig.ident.clone();
    let n_inf = format_ident!("{}_infix", base);
    let n_dyn = [format_ident!("{}_atom", base), format_ident!("{}_level", base)];
    let n_rec = [format_ident!("{}_atomrec", base), format_ident!("{}_levelrec", base)];
    // the outer call
    let oc = calls(&iname, &body);
    if oc.found.len() != 1 || oc.uses != 1 {
        return Err(format!("{} calls of {iname}", oc.found.len()));
    }
    let lits: Vec<syn::ExprClosure> = dyns.iter().map(|&k| oc.found[0].args.iter().nth(k).and_then(closure_of).cloned().ok_or("the block is not called with closure literals")).collect::<Result<_, _>>()?;
    // inside: recursive calls hand the closures on unchanged
    let ic = calls(&iname, &inner.block);
    if ic.uses != ic.found.len() {
        return Err(format!("{iname} is used other than by calling it"));
    }
    for c in &ic.found {
        for &k in &dyns {
            match c.args.iter().nth(k) {
                Some(Expr::Path(p)) if p.path.is_ident(&params[k].0) => {}
                _ => return Err("a recursive call with other closures".into()),
            }
        }
    }
    let mut recs: Vec<(syn::ExprClosure, usize)> = vec![];
    for &k in &dyns {
        let dc = calls(&params[k].0.to_string(), &inner.block);
        // once called, and handed on in each recursive call
        if dc.found.len() != 1 || dc.uses != 1 + ic.found.len() {
            return Err(format!("closure parameter {} is not called exactly once", params[k].0));
        }
        let (tys, _) = dyn_fn(&params[k].1).unwrap();
        let rk: Vec<usize> = (0..tys.len()).filter(|&j| dyn_fn(&tys[j]).is_some()).collect();
        if rk.len() != 1 {
            return Err("closure type".into());
        }
        let lit = dc.found[0].args.iter().nth(rk[0]).and_then(closure_of).cloned().ok_or("no closure literal in the call of the closure parameter")?;
        recs.push((lit, rk[0]));
    }
    let own = |id: &syn::Ident, m: bool, ty: &syn::Type| -> FnArg {
        let mut ty = ty.clone();
        let mut s = Subst(sub.0.clone());
        s.visit_type_mut(&mut ty);
        if m {
            parse_quote!(mut #id: #ty)
        } else {
            parse_quote!(#id: #ty)
        }
    };
    let mut sig = f.sig.clone();
    let mut names = vec![];
    let mut to_block = |c: &syn::ExprClosure| -> syn::Block {
        match &*c.body {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e }),
        }
    };
    let lift_closure = |sig: &mut syn::Signature, names: &mut Vec<String>, name: &syn::Ident, c: &syn::ExprClosure, fty: &syn::Type| -> Result<Option<syn::Ident>, String> {
        let (tys, ret) = dyn_fn(fty).ok_or("closure type")?;
        if tys.len() != c.inputs.len() {
            return Err("closure arity".into());
        }
        sig.ident = name.clone();
        sig.inputs = ctx_params.iter().cloned().collect();
        let mut rec = None;
        for (p, t) in c.inputs.iter().zip(&tys) {
            let (id, m) = ident_of(p).ok_or("closure parameter pattern")?;
            if dyn_fn(t).is_some() {
                rec = Some(id);
                continue;
            }
            names.push(id.to_string());
            sig.inputs.push(own(&id, m, t));
        }
        let mut ret = ret;
        Subst(sub.0.clone()).visit_type_mut(&mut ret);
        sig.output = syn::ReturnType::Type(Default::default(), Box::new(ret));
        Ok(rec)
    };
    let block = match part {
        "main" => {
            let mut b = body.clone();
            DropFns.visit_block_mut(&mut b);
            Redirect { from: iname.clone(), to: n_inf, ctx: ctx.clone(), drop: dyns.clone() }.visit_block_mut(&mut b);
            b
        }
        "infix" => {
            sig.ident = n_inf;
            sig.inputs = ctx_params.iter().cloned().collect();
            for (k, (id, ty)) in params.iter().enumerate() {
                if !dyns.contains(&k) {
                    names.push(id.to_string());
                    sig.inputs.push(own(id, false, ty));
                }
            }
            sig.output = inner.sig.output.clone();
            Subst(sub.0.clone()).visit_return_type_mut(&mut sig.output);
            let mut b = (*inner.block).clone();
            for j in 0..2 {
                Redirect { from: params[dyns[j]].0.to_string(), to: n_dyn[j].clone(), ctx: ctx.clone(), drop: vec![recs[j].1] }.visit_block_mut(&mut b);
            }
            let left = calls(&iname, &b);
            if !left.found.is_empty() {
                return Err("a recursive call outside the closures".into());
            }
            b
        }
        "atom" | "level" => {
            let j = (part == "level") as usize;
            let rec = lift_closure(&mut sig, &mut names, &n_dyn[j], &lits[j], &params[dyns[j]].1)?;
            let mut b = to_block(&lits[j]);
            if let Some(r) = rec {
                let c = calls(&r.to_string(), &b);
                if c.uses != c.found.len() {
                    return Err("the recursion closure is used other than by calling it".into());
                }
                Redirect { from: r.to_string(), to: n_rec[j].clone(), ctx: ctx.clone(), drop: vec![] }.visit_block_mut(&mut b);
            }
            b
        }
        "atomrec" | "levelrec" => {
            let j = (part == "levelrec") as usize;
            let (tys, _) = dyn_fn(&params[dyns[j]].1).unwrap();
            lift_closure(&mut sig, &mut names, &n_rec[j], &recs[j].0, &tys[recs[j].1])?;
            let mut b = to_block(&recs[j].0);
            Redirect { from: iname.clone(), to: n_inf, ctx: ctx.clone(), drop: dyns.clone() }.visit_block_mut(&mut b);
            b
        }
        _ => return Err(format!("unknown part {part}")),
    };
    let _ = (quote!(), block.to_token_stream());
    Ok((Found { line: f.line, sig, body: Some(block) }, names))
}
