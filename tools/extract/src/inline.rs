//! Inlines helper functions that carry no contract of their own (for example a
//! helper somebody extracted from a function under contract), so that the
//! obligation generated for the caller still covers their code.
use crate::Repo;
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Inliner<'a> {
    pub repo: &'a Repo,
    pub known: &'a BTreeSet<String>,
    pub file: &'a str,
    pub imp: Option<String>,
    pub depth: usize,
    pub inlined: Vec<String>,
    pub uncontracted: Vec<String>,
    pub stack: Vec<String>,
}

fn has_jump(b: &Block) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

/// Turn `if c { return X; } rest` into `if c { X } else { rest }` where possible.
fn structure_returns(b: &Block) -> Option<Block> {
    if !has_jump(b) {
        return Some(b.clone());
    }
    let stmts = &b.stmts;
    for (i, s) in stmts.iter().enumerate() {
        if let Stmt::Expr(Expr::Return(r), _) = s {
            let mut pre: Vec<Stmt> = stmts[..i].to_vec();
            if let Some(e) = &r.expr {
                pre.push(Stmt::Expr((**e).clone(), None));
            }
            let nb = Block { brace_token: b.brace_token, stmts: pre };
            return if has_jump(&nb) { None } else { Some(nb) };
        }
        let one = Block { brace_token: b.brace_token, stmts: vec![s.clone()] };
        if !has_jump(&one) {
            continue;
        }
        // statement containing a return: only `if c { ..return X; } [else ..]`
        if let Stmt::Expr(Expr::If(f), _) = s {
            let ends = matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _)));
            if ends && f.else_branch.is_none() {
                let then = structure_returns(&f.then_branch)?;
                let rest = Block { brace_token: b.brace_token, stmts: stmts[i + 1..].to_vec() };
                let rest = structure_returns(&rest)?;
                let c = &f.cond;
                let e: Expr = parse_quote!(if #c #then else #rest);
                let mut pre: Vec<Stmt> = stmts[..i].to_vec();
                pre.push(Stmt::Expr(e, None));
                return Some(Block { brace_token: b.brace_token, stmts: pre });
            }
        }
        return None;
    }
    None
}

fn bound_idents(b: &Block) -> BTreeSet<String> {
    struct V(BTreeSet<String>);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.insert(p.ident.to_string());
        }
    }
    let mut v = V(BTreeSet::new());
    syn::visit::Visit::visit_block(&mut v, b);
    v.0
}

struct Subst {
    from: Ident,
    place: Expr, // the path `x`
    full: Expr,  // `x`, `&x` or `&mut x`
    is_ref: bool,
}
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.is_ref {
            if let Expr::Unary(u) = e {
                if matches!(u.op, UnOp::Deref(_)) {
                    if let Expr::Path(p) = &*u.expr {
                        if p.path.is_ident(&self.from) {
                            *e = self.place.clone();
                            return;
                        }
                    }
                }
            }
            let is_from = |x: &Expr, f: &Ident| matches!(x, Expr::Path(p) if p.path.is_ident(f));
            match e {
                Expr::MethodCall(m) if is_from(&m.receiver, &self.from) => {
                    *m.receiver = self.place.clone();
                    for a in m.args.iter_mut() {
                        self.visit_expr_mut(a);
                    }
                    return;
                }
                Expr::Field(m) if is_from(&m.base, &self.from) => {
                    *m.base = self.place.clone();
                    return;
                }
                Expr::Index(m) if is_from(&m.expr, &self.from) => {
                    *m.expr = self.place.clone();
                    self.visit_expr_mut(&mut m.index);
                    return;
                }
                _ => {}
            }
        }
        if let Expr::Path(p) = e {
            if p.path.is_ident(&self.from) {
                *e = self.full.clone();
                return;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

fn is_place(e: &Expr) -> bool {
    match e {
        Expr::Path(p) => p.path.get_ident().is_some(),
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}

impl<'a> Inliner<'a> {
    fn candidate(&self, name: &str, imp: Option<&str>) -> Option<&'a crate::SrcFn> {
        let full = match imp {
            Some(i) => format!("{i}::{name}"),
            None => name.to_string(),
        };
        if self.known.contains(&full) || (imp.is_none() && self.known.contains(name)) || self.known.contains(name) {
            return None;
        }
        self.repo.find_fn(&full, self.file)
    }

    fn try_inline(&mut self, f: &crate::SrcFn, args: Vec<Expr>, recv: Option<Expr>) -> Option<Expr> {
        let name = f.sig.ident.to_string();
        if self.depth > 4 || self.stack.contains(&name) || !f.sig.generics.params.iter().all(|p| matches!(p, GenericParam::Lifetime(_))) {
            return None;
        }
        let mut body = structure_returns(&f.block)?;
        crate::StripAttrs.visit_block_mut(&mut body);
        let bound = bound_idents(&body);
        let mut params = vec![];
        for i in f.sig.inputs.iter() {
            match i {
                FnArg::Receiver(_) => {
                    if !matches!(&recv, Some(Expr::Path(p)) if p.path.is_ident("self")) {
                        return None;
                    }
                }
                FnArg::Typed(t) => params.push(t.clone()),
            }
        }
        if params.len() != args.len() {
            return None;
        }
        let mut lets_p: Vec<Pat> = vec![];
        let mut lets_a: Vec<Expr> = vec![];
        for (p, a) in params.iter().zip(args.iter()) {
            let id = match &*p.pat {
                Pat::Ident(i) => i,
                _ => return None,
            };
            let (place, is_ref) = match a {
                Expr::Reference(r) if is_place(&r.expr) => ((*r.expr).clone(), true),
                e if is_place(e) => (e.clone(), false),
                _ => {
                    lets_p.push((*p.pat).clone());
                    lets_a.push(a.clone());
                    continue;
                }
            };
            let root = place.to_token_stream().to_string();
            let root = root.split('.').next().unwrap().trim().to_string();
            let mutp = id.mutability.is_some();
            if mutp || bound.contains(&root) || bound.contains(&id.ident.to_string()) {
                if matches!(a, Expr::Reference(r) if r.mutability.is_some()) {
                    return None;
                }
                lets_p.push((*p.pat).clone());
                lets_a.push(a.clone());
                continue;
            }
            let mut s = Subst { from: id.ident.clone(), place, full: a.clone(), is_ref };
            s.visit_block_mut(&mut body);
        }
        // no capture: `let` bound parameter names must not occur in substituted places; accept only if
        // the bound names differ from every identifier of the other arguments
        for p in &lets_p {
            if let Pat::Ident(i) = p {
                for a in &args {
                    let t = a.to_token_stream().to_string();
                    if !lets_a.iter().any(|x| x.to_token_stream().to_string() == t)
                        && t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| i.ident == w)
                    {
                        return None;
                    }
                }
            }
        }
        self.inlined.push(name.clone());
        self.depth += 1;
        self.stack.push(name);
        self.visit_block_mut(&mut body);
        self.stack.pop();
        self.depth -= 1;
        // type ascription for the parameters where the result type is plain
        let stmts = body.stmts;
        Some(if lets_p.is_empty() {
            parse_quote!({ #(#stmts)* })
        } else if lets_p.len() == 1 {
            let p = &lets_p[0];
            let a = &lets_a[0];
            parse_quote!({ let #p = #a; #(#stmts)* })
        } else {
            // evaluate all arguments before any parameter is in scope
            let tmp: Vec<Ident> = (0..lets_p.len()).map(|i| Ident::new(&format!("hdarg{}_{}", self.inlined.len(), i), proc_macro2::Span::call_site())).collect();
            parse_quote!({ #(let #tmp = #lets_a;)* #(let #lets_p = #tmp;)* #(#stmts)* })
        })
    }
}

impl<'a> VisitMut for Inliner<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    let name = segs.last().unwrap().clone();
                    let imp: Option<String> = if segs.len() >= 2 {
                        let q = &segs[segs.len() - 2];
                        if q == "Self" {
                            self.imp.clone()
                        } else if q.chars().next().unwrap().is_uppercase() {
                            Some(q.clone())
                        } else {
                            None
                        }
                    } else {
                        None
                    };
                    if let Some(f) = self.candidate(&name, imp.as_deref()) {
                        if imp.is_some() && matches!(f.sig.inputs.first(), Some(FnArg::Receiver(_))) {
                            return;
                        }
                        let args: Vec<Expr> = c.args.iter().cloned().collect();
                        let full = match &imp {
                            Some(i) => format!("{i}::{name}"),
                            None => name.clone(),
                        };
                        match self.try_inline(f, args, None) {
                            Some(n) => *e = n,
                            None => self.uncontracted.push(full),
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) {
                    let name = m.method.to_string();
                    if let Some(imp) = self.imp.clone() {
                        if let Some(f) = self.candidate(&name, Some(&imp)) {
                            let args: Vec<Expr> = m.args.iter().cloned().collect();
                            match self.try_inline(f, args, Some((*m.receiver).clone())) {
                                Some(n) => *e = n,
                                None => self.uncontracted.push(format!("{imp}::{name}")),
                            }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
