//! The fixed, semantics-preserving rewrites applied to extracted code.
//! Every rewrite is listed in DESIGN.md ("what the extraction rewrites").
use crate::norm;
use crate::overlay::*;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

pub struct Rewriter<'a> {
    fo: &'a FnOv,
    ov: &'a Overlay,
    pub applied: BTreeMap<&'static str, usize>,
    ctr: usize,
    charvecs: BTreeSet<String>,
    /// locals declared as vectors of owned values that are not `Copy`
    ownedvecs: BTreeSet<String>,
    arrays: BTreeMap<String, usize>,
}

fn ident(s: &str) -> Ident {
    Ident::new(s, proc_macro2::Span::call_site())
}

thread_local! { static STR_EQ: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

/// Translate a simple boolean closure body to spec syntax.
/// Only operators, literals, the bound variable and character predicates.
pub fn to_spec(e: &Expr) -> Option<String> {
    Some(match e {
        Expr::Paren(p) => format!("({})", to_spec(&p.expr)?),
        Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => format!("!({})", to_spec(&u.expr)?),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => to_spec(&u.expr)?,
        Expr::Reference(r) => to_spec(&r.expr)?,
        Expr::Binary(b) => {
            let op = b.op.to_token_stream().to_string();
            if !["&&", "||", "==", "!=", "<", "<=", ">", ">=", "+", "-"].contains(&op.as_str()) {
                return None;
            }
            let (mut l, mut r) = (to_spec(&b.left)?, to_spec(&b.right)?);
            if op == "==" || op == "!=" {
                // strings are compared by their views
                let lit = |e: &Expr| matches!(e, Expr::Lit(l) if matches!(l.lit, Lit::Str(_)));
                let chr = |e: &Expr| matches!(e, Expr::Lit(l) if !matches!(l.lit, Lit::Str(_)));
                let any = lit(&b.left) || lit(&b.right) || STR_EQ.with(|x| x.get()) && !chr(&b.left) && !chr(&b.right);
                for (t, e) in [(&mut l, &b.left), (&mut r, &b.right)] {
                    if any && matches!(**e, Expr::Path(_)) {
                        t.push('@');
                    }
                }
            }
            format!("({l} {op} {r})")
        }
        Expr::Lit(l) => match &l.lit {
            Lit::Str(_) => format!("{}@", l.to_token_stream()),
            _ => l.to_token_stream().to_string(),
        },
        Expr::Path(p) => p.to_token_stream().to_string(),
        Expr::Macro(m) if m.mac.path.is_ident("matches") => {
            struct M(Expr, Pat);
            impl parse::Parse for M {
                fn parse(i: parse::ParseStream) -> Result<Self> {
                    let e = i.parse()?;
                    i.parse::<Token![,]>()?;
                    Ok(M(e, Pat::parse_multi_with_leading_vert(i)?))
                }
            }
            let M(x, p) = m.mac.parse_body::<M>().ok()?;
            let x = to_spec(&x)?;
            let alts: Vec<&Pat> = match &p {
                Pat::Or(o) => o.cases.iter().collect(),
                p => vec![p],
            };
            let mut out = vec![];
            for a in alts {
                let Pat::Lit(l) = a else { return None };
                if !matches!(l.lit, Lit::Char(_) | Lit::Int(_)) {
                    return None;
                }
                out.push(format!("{x} == {}", l.to_token_stream()));
            }
            format!("({})", out.join(" || "))
        }
        Expr::MethodCall(m) if m.args.len() == 1 && m.method == "contains" && is_const(&m.receiver) => {
            format!("{}@.contains({})", m.receiver.to_token_stream(), to_spec(&m.args[0])?)
        }
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "is_empty" && matches!(&*m.receiver, Expr::MethodCall(t) if t.method == "trim" && t.args.is_empty()) => {
            let Expr::MethodCall(t) = &*m.receiver else { return None };
            format!("(trim_s({}@).len() == 0)", to_spec(&t.receiver)?)
        }
        Expr::MethodCall(m) if m.args.is_empty() && m.method == "is_empty" => format!("({}@.len() == 0)", to_spec(&m.receiver)?),
        Expr::MethodCall(m) if m.args.is_empty() => {
            let r = to_spec(&m.receiver)?;
            let f = match m.method.to_string().as_str() {
                "is_whitespace" => "c_ws",
                "is_alphabetic" => "c_alpha",
                "is_alphanumeric" => "c_alnum",
                "is_uppercase" => "c_upper",
                "is_lowercase" => "c_lower",
                "is_numeric" => "c_numeric",
                "is_ascii_digit" => "c_adigit",
                "is_ascii_alphabetic" => "c_aalpha",
                "is_ascii_alphanumeric" => "c_aalnum",
                "is_ascii_punctuation" => "c_apunct",
                "is_ascii_uppercase" => "c_aupper",
                "is_ascii_lowercase" => "c_alower",
                "is_ascii_graphic" => "c_agraphic",
                "is_ascii" => "c_ascii",
                "is_control" => "c_control",
                "is_ascii_control" => "c_acontrol",
                _ => return None,
            };
            format!("{f}({r})")
        }
        _ => return None,
    })
}

/// the name of a constant
fn is_const(e: &Expr) -> bool {
    matches!(e, Expr::Path(p) if p.path.get_ident().is_some_and(|i| {
        let s = i.to_string();
        s.len() > 1 && s.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit())
    }))
}

fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let mut p = c.inputs[0].clone();
            if let Pat::Type(t) = &p {
                p = (*t.pat).clone();
            }
            return Some((p, (*c.body).clone()));
        }
    }
    None
}

fn has_return(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }
        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    syn::visit::Visit::visit_expr(&mut v, e);
    v.0
}

/// `x.iter().collect()` into a string
fn string_of_chars(e: &Expr, typed: bool) -> Option<Expr> {
    let Expr::MethodCall(m) = e else { return None };
    let fish = m.turbofish.to_token_stream().to_string();
    if m.method != "collect" || !(fish.contains("String") || (typed && fish.is_empty())) {
        return None;
    }
    let Expr::MethodCall(it) = &*m.receiver else { return None };
    if it.method != "iter" || !it.args.is_empty() {
        return None;
    }
    let mut b = (*it.receiver).clone();
    if let Expr::Index(i) = &mut b {
        if let Expr::Range(r) = &mut *i.index {
            if let (RangeLimits::Closed(_), Some(end)) = (&r.limits, &r.end) {
                let (start, n): (&Option<Box<Expr>>, Expr) = (&r.start, parse_quote!(#end + 1));
                *i.index = parse_quote!(#start..#n);
            }
        }
    }
    Some(parse_quote!(hd_string_of(&#b)))
}

struct IterShape {
    base: Expr,
    by_ref: bool,
    enumerate: bool,
    skip: Option<Expr>,
    rev: bool,
}

impl<'a> Rewriter<'a> {
    pub fn new(fo: &'a FnOv, ov: &'a Overlay) -> Self {
        STR_EQ.with(|x| x.set(fo.opts.contains("str_eq")));
        Rewriter { fo, ov, applied: BTreeMap::new(), ctr: 0, charvecs: BTreeSet::new(), ownedvecs: BTreeSet::new(), arrays: BTreeMap::new() }
    }
    fn hit(&mut self, k: &'static str) {
        *self.applied.entry(k).or_insert(0) += 1;
    }
    fn fresh(&mut self) -> usize {
        self.ctr += 1;
        self.ctr - 1
    }
    /// a local declared `Vec<char>`, or a range of one
    fn is_charvec(&self, e: &Expr) -> bool {
        match e {
            Expr::Path(p) => p.path.get_ident().is_some_and(|i| self.charvecs.contains(&i.to_string())),
            Expr::Index(i) => matches!(&*i.index, Expr::Range(_)) && self.is_charvec(&i.expr),
            Expr::Reference(r) => self.is_charvec(&r.expr),
            Expr::Paren(p) => self.is_charvec(&p.expr),
            _ => false,
        }
    }
    pub fn finish(&mut self, _b: &mut Block) {}

    fn iter_shape(&self, e: &Expr) -> Option<IterShape> {
        match e {
            Expr::Paren(p) => self.iter_shape(&p.expr),
            Expr::Reference(r) if r.mutability.is_none() => Some(IterShape {
                base: (*r.expr).clone(),
                by_ref: true,
                enumerate: false,
                skip: None,
                        rev: false,
            }),
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "enumerate" => {
                        let mut s = self.iter_shape(&m.receiver)?;
                        if s.enumerate || s.skip.is_some() || s.rev {
                            return None;
                        }
                        s.enumerate = true;
                        Some(s)
                    }
                    "rev" if matches!(&*m.receiver, Expr::MethodCall(_)) => {
                        let mut s = self.iter_shape(&m.receiver)?;
                        if s.skip.is_some() || s.rev {
                            return None;
                        }
                        s.rev = true;
                        Some(s)
                    }
                    "skip" => {
                        let mut s = self.iter_shape(&m.receiver)?;
                        if s.skip.is_some() || s.rev {
                            return None;
                        }
                        s.skip = Some(m.args[0].clone());
                        Some(s)
                    }
                    "copied" | "cloned" => {
                        let mut s = self.iter_shape(&m.receiver)?;
                        if !s.by_ref {
                            return None;
                        }
                        s.by_ref = false;
                        Some(s)
                    }
                    "iter" => Some(IterShape {
                        base: (*m.receiver).clone(),
                        by_ref: true,
                        enumerate: false,
                        skip: None,
                        rev: false,
                    }),
                    "into_iter" => Some(IterShape {
                        base: (*m.receiver).clone(),
                        by_ref: false,
                        enumerate: false,
                        skip: None,
                        rev: false,
                    }),
                    "chars" | "lines" | "split_whitespace" | "children" | "split" | "char_indices" => Some(IterShape {
                        base: e.clone(),
                        by_ref: false,
                        enumerate: false,
                        skip: None,
                        rev: false,
                    }),
                    _ => None,
                }
            }
            Expr::Path(_) | Expr::Field(_) => Some(IterShape {
                base: e.clone(),
                by_ref: self.fo.opts.contains("elem_ref"),
                enumerate: false,
                skip: None,
                        rev: false,
            }),
            _ => None,
        }
    }

    /// `X.chars()` etc. as a Vec-returning shim call.
    fn vecify(&mut self, e: &Expr) -> Expr {
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let to = match name.as_str() {
                "chars" => "hd_chars",
                "lines" => "hd_lines",
                "split_whitespace" => "hd_split_ws",
                "children" => "hd_children",
                "split" => "hd_split",
                "char_indices" => "hd_char_indices",
                _ => "",
            };
            if !to.is_empty() {
                let mut m2 = m.clone();
                m2.method = ident(to);
                return Expr::MethodCall(m2);
            }
        }
        e.clone()
    }

    fn rewrite_for(&mut self, f: &ExprForLoop) -> Option<Expr> {
        if matches!(&*f.expr, Expr::Range(_)) {
            return None;
        }
        // `for x in &mut v`
        if let Expr::Reference(r) = &*f.expr {
            if r.mutability.is_some() {
                let n = self.fresh();
                let k = ident(&format!("hdk{n}"));
                let base = &r.expr;
                let mut body = f.body.clone();
                let id = match &*f.pat {
                    Pat::Ident(i) => i.ident.clone(),
                    _ => return None,
                };
                // *x  ->  v[k]
                struct D {
                    id: Ident,
                    to: Expr,
                    bad: bool,
                }
                impl VisitMut for D {
                    fn visit_expr_mut(&mut self, e: &mut Expr) {
                        if let Expr::Unary(u) = e {
                            if matches!(u.op, UnOp::Deref(_)) {
                                if let Expr::Path(p) = &*u.expr {
                                    if p.path.is_ident(&self.id) {
                                        *e = self.to.clone();
                                        return;
                                    }
                                }
                            }
                        }
                        if let Expr::Path(p) = e {
                            if p.path.is_ident(&self.id) {
                                self.bad = true;
                            }
                        }
                        syn::visit_mut::visit_expr_mut(self, e);
                    }
                }
                let mut d = D { id, to: parse_quote!(#base[#k]), bad: false };
                d.visit_block_mut(&mut body);
                if d.bad {
                    return None;
                }
                self.hit("for-over-&mut-vec -> index loop");
                return Some(parse_quote!({ for #k in 0..#base.len() #body }));
            }
        }
        // a map emptied element by element
        if let Expr::MethodCall(m) = &*f.expr {
            if m.method == "drain" && m.args.len() == 1 && matches!(&m.args[0], Expr::Range(r) if r.start.is_none() && r.end.is_none()) {
                let n = self.fresh();
                let v = ident(&format!("hdv{n}"));
                let (pat, label, b) = (&f.pat, &f.label, &m.receiver);
                let mut body = f.body.clone();
                body.stmts.insert(0, parse_quote!(let #pat = #v.remove(0);));
                self.hit("for-over-drain(..) -> while with remove(0)");
                return Some(parse_quote!({ let mut #v = #b.hd_drain(); #label while #v.len() > 0 #body }));
            }
        }
        // a vector given away element by element
        let owned = self.fo.opts.contains("drain_loops")
            || matches!(&*f.expr, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.ownedvecs.contains(&i.to_string())));
        if let (Expr::Path(b), true) = (&*f.expr, owned) {
            let n = self.fresh();
            let v = ident(&format!("hdv{n}"));
            let (pat, label) = (&f.pat, &f.label);
            let mut body = f.body.clone();
            body.stmts.insert(0, parse_quote!(let #pat = #v.remove(0);));
            self.hit("for-over-owned-vector -> while with remove(0)");
            return Some(parse_quote!({ let mut #v = #b; #label while #v.len() > 0 #body }));
        }
        let s = self.iter_shape(&f.expr)?;
        let n = self.fresh();
        let v = ident(&format!("hdv{n}"));
        let k = ident(&format!("hdk{n}"));
        let vec_src = matches!(&s.base, Expr::MethodCall(m) if ["chars","lines","split_whitespace","children","split","char_indices"].contains(&m.method.to_string().as_str()))
            && !s.by_ref;
        let base = if vec_src { self.vecify(&s.base) } else { s.base.clone() };
        let (ipat, epat): (Option<Pat>, Pat) = if s.enumerate {
            match &*f.pat {
                Pat::Tuple(t) if t.elems.len() == 2 => (Some(t.elems[0].clone()), t.elems[1].clone()),
                _ => return None,
            }
        } else {
            (None, (*f.pat).clone())
        };
        // the position in the vector: from the end for `.rev()`
        let ix = if s.rev { ident(&format!("hdi{n}")) } else { k.clone() };
        let bind: Stmt = match (&epat, s.by_ref) {
            (Pat::Reference(r), true) => {
                let p = &r.pat;
                parse_quote!(let #p = #v[#ix];)
            }
            (p, true) => parse_quote!(let #p = &#v[#ix];),
            (p, false) => parse_quote!(let #p = #v[#ix];),
        };
        let mut body = f.body.clone();
        body.stmts.insert(0, bind);
        if let Some(Pat::Ident(i)) = &ipat {
            let id = &i.ident;
            body.stmts.insert(0, parse_quote!(let #id = #ix;));
        } else if ipat.is_some() && !matches!(ipat, Some(Pat::Wild(_))) {
            return None;
        }
        if s.rev {
            body.stmts.insert(0, parse_quote!(let #ix = #v.len() - 1 - #k;));
        }
        let start: Expr = match &s.skip {
            Some(x) => x.clone(),
            None => parse_quote!(0),
        };
        let letv: Stmt = if vec_src { parse_quote!(let #v = #base;) } else if s.by_ref { parse_quote!(let #v = &#base;) } else { parse_quote!(let #v = #base;) };
        self.hit("for-over-iterator -> index loop");
        let label = &f.label;
        Some(parse_quote!({ #letv #label for #k in #start..#v.len() #body }))
    }

    /// base of `X.iter()`-like receivers for consumer chains; returns (vec expr, by_ref)
    fn chain_base(&mut self, e: &Expr) -> Option<(Stmt, Ident, bool)> {
        let n = self.fresh();
        let v = ident(&format!("hdc{n}"));
        match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match name.as_str() {
                    "chars" | "lines" | "split_whitespace" | "split" | "children" => {
                        let b = self.vecify(e);
                        Some((parse_quote!(let #v = #b;), v, false))
                    }
                    "rev" => {
                        if let Expr::MethodCall(mm) = &*m.receiver {
                            if mm.method == "chars" {
                                let r = &mm.receiver;
                                return Some((parse_quote!(let #v = #r.hd_chars_rev();), v, false));
                            }
                        }
                        None
                    }
                    "iter" => {
                        let r = &m.receiver;
                        Some((parse_quote!(let #v = &#r;), v, true))
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn elem_bind(&self, p: &Pat, v: &Ident, k: &Ident, by_ref: bool, item_by_ref: bool) -> Option<(Stmt, Ident)> {
        // item_by_ref: closure receives &Item (filter, take_while, find)
        let mut p = p.clone();
        let mut refs = 0;
        while let Pat::Reference(r) = &p {
            refs += 1;
            p = (*r.pat).clone();
        }
        let id = match &p {
            Pat::Ident(i) => i.ident.clone(),
            _ => return None,
        };
        let have = by_ref as usize + item_by_ref as usize;
        if refs > have {
            return None;
        }
        let s: Stmt = match have - refs {
            0 => parse_quote!(let #id = #v[#k];),
            1 => parse_quote!(let #id = &#v[#k];),
            _ => parse_quote!(let #id = &&#v[#k];),
        };
        Some((s, id))
    }

    /// `array.iter().filter(closure).collect()` over a local array literal -> one test per element
    fn unroll_filter(&mut self, f: &ExprMethodCall) -> Option<Expr> {
        let Expr::MethodCall(it) = &*f.receiver else { return None };
        let Expr::Path(p) = &*it.receiver else { return None };
        if it.method != "iter" {
            return None;
        }
        let len = *self.arrays.get(&p.path.get_ident()?.to_string())?;
        let (pat, body) = closure1(f.args.first()?)?;
        if has_return(&body) {
            return None;
        }
        let n = self.fresh();
        let (r, x, a) = (ident(&format!("hdr{n}")), ident(&format!("hde{n}")), &it.receiver);
        let bind: Stmt = match &pat {
            Pat::Ident(i) => parse_quote!(let #i = &#x;),
            Pat::Reference(q) => {
                let q = &q.pat;
                parse_quote!(let #q = #x;)
            }
            // fields of a reference are bound by reference
            Pat::Tuple(t) => {
                let bs: Vec<Stmt> = t
                    .elems
                    .iter()
                    .enumerate()
                    .filter_map(|(k, q)| {
                        let k = Index::from(k);
                        match q {
                            Pat::Ident(i) => Some(parse_quote!(let #i = &#x.#k;)),
                            _ => None,
                        }
                    })
                    .collect();
                if t.elems.iter().any(|q| !matches!(q, Pat::Ident(_) | Pat::Wild(_))) {
                    return None;
                }
                Stmt::Expr(parse_quote!({ #(#bs)* }), None)
            }
            _ => return None,
        };
        let binds: Vec<Stmt> = match bind {
            Stmt::Expr(Expr::Block(b), None) => b.block.stmts,
            s => vec![s],
        };
        let mut stmts: Vec<Stmt> = vec![parse_quote!(let mut #r = Vec::new();)];
        for k in 0..len {
            let k = LitInt::new(&k.to_string(), proc_macro2::Span::call_site());
            stmts.push(parse_quote!({ let #x = &#a[#k]; #(#binds)* if #body { #r.push(#x); } }));
        }
        self.hit("array.iter().filter().collect() -> one test per element");
        Some(parse_quote!({ #(#stmts)* #r }))
    }

    /// `m.iter().filter(|(k, v)| ..).map(|(k, v)| ..).collect()`: m, and the two closures
    fn map_chain(&self, m: &ExprMethodCall) -> Option<(Expr, Pat, Expr, Pat, Expr)> {
        let Expr::MethodCall(mp) = &*m.receiver else { return None };
        if m.method != "collect" || mp.method != "map" {
            return None;
        }
        let Expr::MethodCall(fl) = &*mp.receiver else { return None };
        if fl.method != "filter" {
            return None;
        }
        let Expr::MethodCall(it) = &*fl.receiver else { return None };
        if it.method != "iter" {
            return None;
        }
        let (fp, fb) = closure1(&fl.args[0])?;
        let (pp, pb) = closure1(&mp.args[0])?;
        if !matches!(fp, Pat::Tuple(_)) || !matches!(pp, Pat::Tuple(_)) || has_return(&fb) || has_return(&pb) {
            return None;
        }
        Some(((*it.receiver).clone(), fp, fb, pp, pb))
    }

    /// `s.match_indices('c').any(|(i, _)| f(&s[i + 1..]))` -> loop over what follows each `c`
    fn tails_any(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let Expr::MethodCall(mi) = &*m.receiver else { return None };
        let Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) = mi.args.first()? else { return None };
        if m.method != "any" || mi.method != "match_indices" || !c.value().is_ascii() {
            return None;
        }
        let (p, body) = closure1(&m.args[0])?;
        let Pat::Tuple(t) = &p else { return None };
        let (Pat::Ident(i), Pat::Wild(_)) = (t.elems.first()?, t.elems.get(1)?) else { return None };
        let Expr::Call(call) = &body else { return None };
        let (r, i) = (&mi.receiver, &i.ident);
        let want: Expr = parse_quote!(&#r[#i + 1..]);
        if call.args.len() != 1 || norm(&call.args[0].to_token_stream().to_string()) != norm(&want.to_token_stream().to_string()) {
            return None;
        }
        let n = self.fresh();
        let (v, k, b, f) = (ident(&format!("hdv{n}")), ident(&format!("hdk{n}")), ident(&format!("hdr{n}")), &call.func);
        self.hit("match_indices(c).any(|(i, _)| f(&s[i + 1..])) -> loop over the tails");
        Some(parse_quote!({
            let #v = #r.hd_tails(#c);
            let mut #b = false;
            for #k in 0..#v.len() {
                if #f(#v[#k]) { #b = true; break; }
            }
            #b
        }))
    }

    /// consumer chains with a simple closure -> while loop with generated invariant
    fn rewrite_chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        match name.as_str() {
            "count" if matches!(&*m.receiver, Expr::MethodCall(f) if f.method == "filter" && matches!(&*f.receiver, Expr::MethodCall(i) if i.method == "iter" || i.method == "children")) => {
                let Expr::MethodCall(f) = &*m.receiver else { return None };
                let (p, body) = closure1(&f.args[0])?;
                if has_return(&body) {
                    return None;
                }
                let (letv, v, by_ref) = self.chain_base(&f.receiver)?;
                let n = self.fresh();
                let (k, r) = (ident(&format!("hdk{n}")), ident(&format!("hdr{n}")));
                let (bind, _) = self.elem_bind(&p, &v, &k, by_ref, true)?;
                self.hit("iter().filter().count() -> loop with a counter");
                Some(parse_quote!({
                    #letv
                    let mut #r: usize = 0;
                    for #k in 0..#v.len() {
                        #bind
                        if #body { #r += 1; }
                    }
                    #r
                }))
            }
            "count" => {
                if let Expr::MethodCall(tw) = &*m.receiver {
                    if tw.method == "take_while" {
                        let (p, body) = closure1(&tw.args[0])?;
                        let sp = to_spec(&body)?;
                        if let Expr::MethodCall(rv) = &*tw.receiver {
                            if rv.method == "rev" && matches!(&*rv.receiver, Expr::MethodCall(i) if i.method == "iter") {
                                let (letv, v, by_ref) = self.chain_base(&rv.receiver)?;
                                let n = self.fresh();
                                let (k, x) = (ident(&format!("hdn{n}")), ident(&format!("hdi{n}")));
                                let (bind, id) = self.elem_bind(&p, &v, &x, by_ref, true)?;
                                let inv = format!(
                                    "invariant_except_break 0 <= {k} <= {v}@.len(), invariant forall|hdj: int| {v}@.len() - {k} <= hdj < {v}@.len() ==> {{ let {id} = #[trigger] {v}@[hdj]; {sp} }}, ensures {k} < {v}@.len() ==> {{ let {id} = {v}@[{v}@.len() - 1 - {k}]; !({sp}) }}, 0 <= {k} <= {v}@.len(), decreases {v}@.len() - {k},"
                                );
                                let inv = LitStr::new(&inv, proc_macro2::Span::call_site());
                                self.hit("rev().take_while().count() -> while loop (generated invariant)");
                                return Some(parse_quote!({
                                    #letv
                                    let mut #k: usize = 0;
                                    while #k < #v.len() {
                                        __hd_auto!(#inv);
                                        let #x = #v.len() - 1 - #k;
                                        #bind
                                        if !(#body) { break; }
                                        #k += 1;
                                    }
                                    #k
                                }));
                            }
                        }
                        let (letv, v, by_ref) = self.chain_base(&tw.receiver)?;
                        let n = self.fresh();
                        let k = ident(&format!("hdn{n}"));
                        let (bind, id) = self.elem_bind(&p, &v, &k, by_ref, true)?;
                        let inv = format!(
                            "invariant_except_break 0 <= {k} <= {v}@.len(), invariant forall|hdj: int| 0 <= hdj < {k} ==> {{ let {id} = #[trigger] {v}@[hdj]; {sp} }}, ensures {k} < {v}@.len() ==> {{ let {id} = {v}@[{k} as int]; !({sp}) }}, 0 <= {k} <= {v}@.len(), decreases {v}@.len() - {k},"
                        );
                        let inv = LitStr::new(&inv, proc_macro2::Span::call_site());
                        self.hit("take_while().count() -> while loop (generated invariant)");
                        return Some(parse_quote!({
                            #letv
                            let mut #k: usize = 0;
                            while #k < #v.len() {
                                __hd_auto!(#inv);
                                #bind
                                if !(#body) { break; }
                                #k += 1;
                            }
                            #k
                        }));
                    }
                }
                None
            }
            "max" if m.args.is_empty() => {
                let Expr::MethodCall(fm) = &*m.receiver else { return None };
                if fm.method != "filter_map" && fm.method != "map" {
                    return None;
                }
                let (p, body) = closure1(&fm.args[0])?;
                if has_return(&body) {
                    return None;
                }
                let (letv, v, by_ref) = self.chain_base(&fm.receiver)?;
                let n = self.fresh();
                let k = ident(&format!("hdk{n}"));
                let r = ident(&format!("hdm{n}"));
                let o = ident(&format!("hdo{n}"));
                let (bind, _) = self.elem_bind(&p, &v, &k, by_ref, false)?;
                let val: Expr = if fm.method == "map" { parse_quote!(Some(#body)) } else { body };
                self.hit("filter_map().max() -> loop");
                Some(parse_quote!({
                    #letv
                    let mut #r: Option<usize> = None;
                    for #k in 0..#v.len() {
                        #bind
                        let #o: Option<usize> = #val;
                        match #o {
                            Some(hd_x) => { #r = Some(match #r { Some(hd_y) if hd_y > hd_x => hd_y, _ => hd_x }); }
                            None => {}
                        }
                    }
                    #r
                }))
            }
            "any" | "all" | "position" => {
                let (p, body) = closure1(&m.args[0])?;
                // without a translation of the test, nothing is said about the result
                let known = to_spec(&body);
                let sp = known.clone().unwrap_or("true".into());
                if known.is_none() && (has_return(&body) || name == "position") {
                    return None;
                }
                // optional take(n)
                let (src, take): (Expr, Option<Expr>) = match &*m.receiver {
                    Expr::MethodCall(t) if t.method == "take" => ((*t.receiver).clone(), Some(t.args[0].clone())),
                    e => (e.clone(), None),
                };
                let (letv, v, by_ref) = self.chain_base(&src)?;
                let n = self.fresh();
                let k = ident(&format!("hdn{n}"));
                let e = ident(&format!("hde{n}"));
                let r = ident(&format!("hdr{n}"));
                let (bind, id) = self.elem_bind(&p, &v, &k, by_ref, false)?;
                let lete: Stmt = match take {
                    Some(t) => parse_quote!(let #e: usize = if #t < #v.len() { #t } else { #v.len() };),
                    None => parse_quote!(let #e: usize = #v.len();),
                };
                self.hit("any/all/position -> while loop (generated invariant)");
                let neg = name == "all";
                let spj = if known.is_none() { sp.clone() } else if neg { sp.clone() } else { format!("!({sp})") };
                let spf = if known.is_none() { sp.clone() } else if neg { format!("!({sp})") } else { sp.clone() };
                let inv = format!(
                    "invariant_except_break 0 <= {k} <= {e}, {e} <= {v}@.len(), {r} == {init}, invariant forall|hdj: int| 0 <= hdj < {k} ==> {{ let {id} = #[trigger] {v}@[hdj]; {spj} }}, ensures {e} <= {v}@.len(), 0 <= {k} <= {e}, {r} == {init} ==> {k} == {e}, {r} != {init} ==> {k} < {e} && {{ let {id} = {v}@[{k} as int]; {spf} }}, {rset} decreases {e} - {k},",
                    init = match name.as_str() { "any" => "false", "all" => "true", _ => "None::<usize>" },
                    rset = if name == "position" { format!("{r} is Some ==> {r}->0 == {k},") } else { String::new() },
                );
                let inv = LitStr::new(&inv, proc_macro2::Span::call_site());
                let (init, set, cond): (Expr, Expr, Expr) = match name.as_str() {
                    "any" => (parse_quote!(false), parse_quote!(true), parse_quote!(#body)),
                    "all" => (parse_quote!(true), parse_quote!(false), parse_quote!(!(#body))),
                    _ => (parse_quote!(None), parse_quote!(Some(#k)), parse_quote!(#body)),
                };
                let ty: Type = if name == "position" { parse_quote!(Option<usize>) } else { parse_quote!(bool) };
                Some(parse_quote!({
                    #letv
                    #lete
                    let mut #k: usize = 0;
                    let mut #r: #ty = #init;
                    while #k < #e {
                        __hd_auto!(#inv);
                        #bind
                        if #cond { #r = #set; break; }
                        #k += 1;
                    }
                    #r
                }))
            }
            "find" if m.args.len() == 1 && !matches!(m.args[0], Expr::Lit(_)) => {
                let (p, body) = closure1(&m.args[0])?;
                let sp = to_spec(&body)?;
                let (letv, v, by_ref) = self.chain_base(&m.receiver)?;
                if by_ref {
                    return None;
                }
                let n = self.fresh();
                let (k, r) = (ident(&format!("hdn{n}")), ident(&format!("hdr{n}")));
                let (bind, id) = self.elem_bind(&p, &v, &k, false, true)?;
                let inv = format!(
                    "invariant_except_break 0 <= {k} <= {v}@.len(), {r} is None, invariant forall|hdj: int| 0 <= hdj < {k} ==> {{ let {id} = #[trigger] {v}@[hdj]; !({sp}) }}, ensures 0 <= {k} <= {v}@.len(), {r} is None ==> {k} == {v}@.len(), {r} is Some ==> {k} < {v}@.len() && {r}->0 == {v}@[{k} as int] && {{ let {id} = {v}@[{k} as int]; {sp} }}, decreases {v}@.len() - {k},"
                );
                let inv = LitStr::new(&inv, proc_macro2::Span::call_site());
                self.hit("find(closure) -> while loop (generated invariant)");
                Some(parse_quote!({
                    #letv
                    let mut #k: usize = 0;
                    let mut #r = None;
                    while #k < #v.len() {
                        __hd_auto!(#inv);
                        #bind
                        if #body { #r = Some(#v[#k]); break; }
                        #k += 1;
                    }
                    #r
                }))
            }
            "collect" if self.map_chain(m).is_some() => {
                let (base, fp, fb, mp, mb) = self.map_chain(m)?;
                let n = self.fresh();
                let (v, k, r, e) = (ident(&format!("hdv{n}")), ident(&format!("hdk{n}")), ident(&format!("hdr{n}")), ident(&format!("hde{n}")));
                let fbind = tuple_binds(&fp, &e, true)?;
                let mbind = tuple_binds(&mp, &e, false)?;
                self.hit("map.iter().filter().map().collect() -> loop over the entries");
                Some(parse_quote!({
                    let #v = #base.hd_entries();
                    let mut #r = Vec::new();
                    for #k in 0..#v.len() {
                        let #e = &#v[#k];
                        #(#fbind)*
                        if #fb {
                            #(#mbind)*
                            #r.push(#mb);
                        }
                    }
                    #r
                }))
            }
            "collect" if matches!(&*m.receiver, Expr::MethodCall(f) if f.method == "filter" && matches!(&*f.receiver, Expr::MethodCall(p) if p.method == "map" && matches!(&*p.receiver, Expr::MethodCall(x) if x.method == "split"))) => {
                let Expr::MethodCall(f) = &*m.receiver else { return None };
                let Expr::MethodCall(mp) = &*f.receiver else { return None };
                let ((fp, fb), (p, pb)) = (closure1(&f.args[0])?, closure1(&mp.args[0])?);
                let (Pat::Ident(x), false, false) = (&fp, has_return(&fb), has_return(&pb)) else { return None };
                let x = &x.ident;
                let (letv, v, by_ref) = self.chain_base(&mp.receiver)?;
                let n = self.fresh();
                let (k, r, e) = (ident(&format!("hdk{n}")), ident(&format!("hdr{n}")), ident(&format!("hde{n}")));
                let (bind, _) = self.elem_bind(&p, &v, &k, by_ref, false)?;
                self.hit("split().map().filter().collect() -> loop over the parts");
                Some(parse_quote!({
                    #letv
                    let mut #r = Vec::new();
                    for #k in 0..#v.len() {
                        #bind
                        let #e = #pb;
                        if { let #x = &#e; #fb } { #r.push(#e); }
                    }
                    #r
                }))
            }
            "or_insert" | "or_insert_with" => {
                let Expr::MethodCall(en) = &*m.receiver else { return None };
                if en.method != "entry" {
                    return None;
                }
                let (x, key) = (&en.receiver, &en.args[0]);
                let val: Expr = match (&m.args[0], name.as_str()) {
                    (Expr::Closure(c), "or_insert_with") if c.inputs.is_empty() => (*c.body).clone(),
                    (v, "or_insert") => v.clone(),
                    _ => return None,
                };
                self.hit("entry().or_insert() -> shim");
                Some(parse_quote!(#x.hd_or_insert(#key, #val)))
            }
            "sort_by_key" => {
                let (p, body) = closure1(&m.args[0])?;
                let Pat::Tuple(t) = &p else { return None };
                let Pat::Ident(a) = t.elems.first()? else { return None };
                if norm(&body.to_token_stream().to_string()) != format!("*{}", a.ident) {
                    return None;
                }
                let x = &m.receiver;
                self.hit("sort_by_key(|(a, ..)| *a) -> shim");
                Some(parse_quote!(#x.hd_sort_by_first()))
            }
            "ok" => {
                let Expr::MethodCall(pm) = &*m.receiver else { return None };
                if pm.method != "parse" || !norm(&pm.turbofish.to_token_stream().to_string()).contains("u64") {
                    return None;
                }
                let x = &pm.receiver;
                self.hit("parse::<u64>().ok() -> shim");
                Some(parse_quote!(#x.hd_parse_u64()))
            }
            "collect" => {
                let Expr::MethodCall(tw) = &*m.receiver else { return None };
                if tw.method != "take_while" || !matches!(&*tw.receiver, Expr::MethodCall(c) if c.method == "chars") {
                    return None;
                }
                let (p, body) = closure1(&tw.args[0])?;
                let sp = to_spec(&body)?;
                let (letv, v, by_ref) = self.chain_base(&tw.receiver)?;
                let n = self.fresh();
                let (k, r) = (ident(&format!("hdn{n}")), ident(&format!("hdr{n}")));
                let (bind, id) = self.elem_bind(&p, &v, &k, by_ref, true)?;
                let inv = format!(
                    "invariant_except_break 0 <= {k} <= {v}@.len(), invariant 0 <= {k} <= {v}@.len(), {r}@ == {v}@.take({k} as int), forall|hdj: int| 0 <= hdj < {k} ==> {{ let {id} = #[trigger] {v}@[hdj]; {sp} }}, ensures {k} < {v}@.len() ==> {{ let {id} = {v}@[{k} as int]; !({sp}) }}, 0 <= {k} <= {v}@.len(), decreases {v}@.len() - {k},"
                );
                let inv = LitStr::new(&inv, proc_macro2::Span::call_site());
                self.hit("chars().take_while().collect() -> while loop (generated invariant)");
                Some(parse_quote!({
                    #letv
                    let mut #k: usize = 0;
                    let mut #r = String::new();
                    hd_take_none(&#v);
                    while #k < #v.len() {
                        __hd_auto!(#inv);
                        #bind
                        if !(#body) { break; }
                        #r.push(#v[#k]);
                        hd_take_more(&#v, #k);
                        #k += 1;
                    }
                    #r
                }))
            }
            _ => None,
        }
    }

    fn rewrite_format(&mut self, mac: &Macro) -> Option<Expr> {
        let args: punctuated::Punctuated<Expr, Token![,]> =
            mac.parse_body_with(punctuated::Punctuated::parse_terminated).ok()?;
        let mut it = args.into_iter();
        let lit = match it.next()? {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return None,
        };
        let rest: Vec<Expr> = it.collect();
        let n = self.fresh();
        let f = ident(&format!("hdf{n}"));
        let mut stmts: Vec<Stmt> = vec![parse_quote!(let mut #f = String::new();)];
        let mut cur = String::new();
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        let mut argi = 0;
        let flush = |cur: &mut String, stmts: &mut Vec<Stmt>| {
            if !cur.is_empty() {
                let l = LitStr::new(cur, proc_macro2::Span::call_site());
                stmts.push(parse_quote!(#f.push_str(#l);));
                cur.clear();
            }
        };
        while i < cs.len() {
            if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
                cur.push('{');
                i += 2;
            } else if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' {
                cur.push('}');
                i += 2;
            } else if cs[i] == '{' {
                let j = (i..cs.len()).find(|&j| cs[j] == '}')?;
                let inner: String = cs[i + 1..j].iter().collect();
                flush(&mut cur, &mut stmts);
                if inner.is_empty() {
                    let a = rest.get(argi)?;
                    argi += 1;
                    stmts.push(parse_quote!(#f.push_str((#a).hd_fmt().as_str());));
                } else if inner.chars().all(|c| c.is_alphanumeric() || c == '_') && !inner.chars().next()?.is_numeric() {
                    let a = ident(&inner);
                    stmts.push(parse_quote!(#f.push_str((#a).hd_fmt().as_str());));
                } else {
                    if inner == ":02X" {
                        let a = rest.get(argi)?;
                        argi += 1;
                        stmts.push(parse_quote!(#f.push_str(hd_hex2(#a).as_str());));
                        i = j + 1;
                        continue;
                    }
                    if inner.starts_with(':') {
                        argi += 1;
                    }
                    stmts.push(parse_quote!(#f.push_str(hd_opaque_string().as_str());));
                }
                i = j + 1;
            } else {
                cur.push(cs[i]);
                i += 1;
            }
        }
        flush(&mut cur, &mut stmts);
        self.hit("format! -> push_str sequence");
        Some(parse_quote!({ #(#stmts)* #f }))
    }

    fn let_chain(&mut self, i: &ExprIf) -> Option<Expr> {
        fn flat(e: &Expr, out: &mut Vec<Expr>) {
            if let Expr::Binary(b) = e {
                if matches!(b.op, BinOp::And(_)) {
                    flat(&b.left, out);
                    flat(&b.right, out);
                    return;
                }
            }
            out.push(e.clone());
        }
        let mut cs = vec![];
        flat(&i.cond, &mut cs);
        if cs.len() < 2 || !cs.iter().any(|c| matches!(c, Expr::Let(_))) {
            return None;
        }
        self.hit("let-chain -> nested match/if");
        let els: Expr = match &i.else_branch {
            Some((_, e)) => (**e).clone(),
            None => parse_quote!({}),
        };
        let then = &i.then_branch;
        Some(build(&cs, then, &els))
    }
}

/// bindings of a tuple pattern against the fields of `e`
fn tuple_binds(p: &Pat, e: &Ident, by_ref: bool) -> Option<Vec<Stmt>> {
    let Pat::Tuple(t) = p else { return None };
    let mut out = vec![];
    for (k, q) in t.elems.iter().enumerate() {
        let k = Index::from(k);
        match q {
            Pat::Ident(i) if by_ref => out.push(parse_quote!(let #i = &#e.#k;)),
            Pat::Ident(i) => out.push(parse_quote!(let #i = #e.#k;)),
            Pat::Wild(_) => {}
            _ => return None,
        }
    }
    Some(out)
}

fn build(cs: &[Expr], a: &Block, b: &Expr) -> Expr {
    if cs.is_empty() {
        return Expr::Block(ExprBlock { attrs: vec![], label: None, block: a.clone() });
    }
    match &cs[0] {
        Expr::Let(l) => {
            let p = &l.pat;
            let e = &l.expr;
            let rest = &cs[1..];
            if rest.is_empty() {
                parse_quote!(match #e { #p => #a, _ => #b })
            } else if rest.iter().all(|c| !matches!(c, Expr::Let(_))) {
                let g = rest.iter().skip(1).fold(rest[0].clone(), |acc, c| parse_quote!(#acc && #c));
                parse_quote!(match #e { #p if #g => #a, _ => #b })
            } else {
                let inner = build(rest, a, b);
                parse_quote!(match #e { #p => #inner, _ => #b })
            }
        }
        _ => {
            let mut j = 0;
            while j < cs.len() && !matches!(cs[j], Expr::Let(_)) {
                j += 1;
            }
            let g = cs[1..j].iter().fold(cs[0].clone(), |acc, c| parse_quote!(#acc && #c));
            let inner = build(&cs[j..], a, b);
            parse_quote!(if #g { #inner } else { #b })
        }
    }
}

impl<'a> VisitMut for Rewriter<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let Pat::Type(t) = &l.pat {
            let ty = norm(&t.ty.to_token_stream().to_string());
            if let (Pat::Ident(i), true) = (&*t.pat, ty.starts_with(&norm("Vec<")) && !ty.contains('&') && ty.contains("String")) {
                self.ownedvecs.insert(i.ident.to_string());
            }
            if norm(&t.ty.to_token_stream().to_string()) == norm("Vec<char>") {
                if let Pat::Ident(i) = &*t.pat {
                    self.charvecs.insert(i.ident.to_string());
                }
            }
        }
        // characters collected into a string
        let is_string = matches!(&l.pat, Pat::Type(t) if norm(&t.ty.to_token_stream().to_string()) == "String");
        if let (true, Some(init)) = (is_string, &mut l.init) {
            if let Some(n) = string_of_chars(&init.expr, true) {
                *init.expr = n;
                self.hit("iter().collect() of characters -> shim");
            }
        }
        // a character iterator kept in a variable
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &mut l.init) {
            if let Expr::MethodCall(m) = &mut *init.expr {
                if i.mutability.is_some() && m.method == "chars" && m.args.is_empty() {
                    m.method = ident("hd_iter");
                    self.hit("character iterator in a variable -> HdIter shim");
                }
            }
        }
        if let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) {
            if let (Expr::Array(a), None) = (&*init.expr, &i.mutability) {
                self.arrays.insert(i.ident.to_string(), a.elems.len());
            }
        }
        syn::visit_mut::visit_local_mut(self, l);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        let s = norm(&t.to_token_stream().to_string());
        if let Some(to) = self.ov.typemap.get(&s) {
            *t = parse_str(to).expect("type map");
            return;
        }
        syn::visit_mut::visit_type_mut(self, t);
    }

    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // statement macros: format!-like in statement position, assertions, printing
        if let Stmt::Macro(m) = s {
            let name = m.mac.path.segments.last().unwrap().ident.to_string();
            if ["println", "eprintln", "debug_assert", "debug_assert_eq", "print", "eprint"].contains(&name.as_str()) {
                self.hit("diagnostic macro dropped");
                *s = parse_quote!({});
                return;
            }
        }
        syn::visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order rewrites
        loop {
            if let Expr::If(i) = e {
                if let Some(n) = self.let_chain(i) {
                    *e = n;
                    continue;
                }
            }
            break;
        }
        if let Expr::ForLoop(f) = e {
            if let Some(n) = self.rewrite_for(f) {
                *e = n;
                // visit the loop's own expression and body without re-rewriting the head
                if let Expr::Block(b) = e {
                    for s in b.block.stmts.iter_mut() {
                        match s {
                            Stmt::Expr(Expr::ForLoop(f2), _) => {
                                self.visit_expr_mut(&mut f2.expr);
                                self.visit_block_mut(&mut f2.body);
                            }
                            other => self.visit_stmt_mut(other),
                        }
                    }
                }
                return;
            }
        }
        if let Expr::Match(m) = e {
            // `match s { "a" => x, _ => y }` -> comparisons
            fn strs(p: &Pat) -> Option<Vec<Expr>> {
                match p {
                    Pat::Lit(l) if matches!(l.lit, Lit::Str(_)) => Some(vec![Expr::Lit(l.clone())]),
                    Pat::Or(o) => o.cases.iter().map(strs).collect::<Option<Vec<_>>>().map(|v| v.concat()),
                    _ => None,
                }
            }
            let n = m.arms.len();
            if n > 1
                && matches!(m.arms[n - 1].pat, Pat::Wild(_))
                && m.arms.iter().all(|a| a.guard.is_none())
                && m.arms[..n - 1].iter().all(|a| strs(&a.pat).is_some())
            {
                let x = &m.expr;
                let last = &m.arms[n - 1].body;
                let mut out: Expr = parse_quote!({ #last });
                for a in m.arms[..n - 1].iter().rev() {
                    let b = &a.body;
                    let tests = strs(&a.pat).unwrap().into_iter().map(|l| -> Expr { parse_quote!(hd_s == #l) }).reduce(|a, b| parse_quote!(#a || #b)).unwrap();
                    out = parse_quote!(if #tests { #b } else { #out });
                }
                self.hit("match on string literals -> comparisons");
                *e = parse_quote!({ let hd_s = #x; #out });
            }
        }
        if let Expr::Match(m) = e {
            // `a | b if g => x` -> `a if g => x, b if g => x`
            if m.arms.iter().any(|a| a.guard.is_some() && matches!(a.pat, Pat::Or(_))) {
                let mut arms = vec![];
                for a in m.arms.drain(..) {
                    match (&a.guard, &a.pat) {
                        (Some(_), Pat::Or(o)) => {
                            for p in o.cases.iter() {
                                let mut b = a.clone();
                                b.pat = p.clone();
                                arms.push(b);
                            }
                        }
                        _ => arms.push(a),
                    }
                }
                m.arms = arms;
                self.hit("guarded or-pattern -> one arm per alternative");
            }
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b, label) = (&l.pat, &l.expr, &w.body, &w.label);
                let n: Expr = parse_quote!(#label loop { match #x { #p => #b, _ => { break; } } });
                self.hit("while-let -> loop with match");
                *e = n;
            }
        }
        if let Expr::MethodCall(m) = e {
            // a character predicate as the pattern of starts_with or contains
            let first = m.args.first().cloned();
            if m.args.len() == 1 && (m.method == "starts_with" || m.method == "contains") {
                let r = m.receiver.clone();
                let starts = m.method == "starts_with";
                let clo: Option<(Pat, Expr)> = match &first {
                    Some(c @ Expr::Closure(_)) => closure1(c),
                    Some(Expr::Path(q)) if q.path.segments.len() == 2 && q.path.segments[0].ident == "char" => {
                        let f = &q.path.segments[1].ident;
                        Some((parse_quote!(hd_x), parse_quote!(hd_x.#f())))
                    }
                    _ => None,
                };
                if let Some((p, b)) = clo {
                    self.hit("starts_with/contains with a character predicate -> first character / any");
                    *e = if starts {
                        parse_quote!((match #r.chars().next() { Some(#p) => #b, None => false }))
                    } else {
                        parse_quote!(#r.chars().any(|#p| #b))
                    };
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            // (a..=b).contains(&x)
            if m.method == "contains" && m.args.len() == 1 {
                let mut r = &*m.receiver;
                if let Expr::Paren(q) = r {
                    r = &q.expr;
                }
                if let (Expr::Range(g), Expr::Reference(x)) = (r, &m.args[0]) {
                    if let (Some(a), Some(b)) = (&g.start, &g.end) {
                        let x = &x.expr;
                        self.hit("range.contains(&x) -> comparisons");
                        let n: Expr = if matches!(g.limits, RangeLimits::Closed(_)) {
                            parse_quote!({ let hd_x = #x; #a <= hd_x && hd_x <= #b })
                        } else {
                            parse_quote!({ let hd_x = #x; #a <= hd_x && hd_x < #b })
                        };
                        *e = n;
                    }
                }
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.tails_any(m) {
                *e = n;
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.rewrite_chain(m) {
                *e = n;
                // visit inner expressions
                syn::visit_mut::visit_expr_mut(self, e);
                return;
            }
        }
        syn::visit_mut::visit_expr_mut(self, e);
        // post-order rewrites
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && (self.is_charvec(&b.left) || self.is_charvec(&b.right)) {
                fn strip(e: &Expr) -> &Expr {
                    match e {
                        Expr::Reference(r) => strip(&r.expr),
                        Expr::Paren(p) => strip(&p.expr),
                        _ => e,
                    }
                }
                let (l, r) = (strip(&b.left), strip(&b.right));
                let call: Expr = parse_quote!(hd_chars_eq(&#l, &#r));
                let ne = matches!(b.op, BinOp::Ne(_));
                self.hit("== on character vectors -> hd_chars_eq");
                *e = if ne { parse_quote!(!#call) } else { call };
                return;
            }
        }
        match e {
            Expr::Macro(m) => {
                let name = m.mac.path.segments.last().unwrap().ident.to_string();
                if name == "format" {
                    if let Some(n) = self.rewrite_format(&m.mac) {
                        *e = n;
                        // arguments may themselves need rewriting
                        syn::visit_mut::visit_expr_mut(self, e);
                    }
                } else if name == "matches" {
                    // expand here so that let-patterns stay visible
                    struct M {
                        e: Expr,
                        p: Pat,
                        g: Option<Expr>,
                    }
                    impl parse::Parse for M {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let e = i.parse()?;
                            i.parse::<Token![,]>()?;
                            let p = Pat::parse_multi_with_leading_vert(i)?;
                            let g = if i.peek(Token![if]) {
                                i.parse::<Token![if]>()?;
                                Some(i.parse()?)
                            } else {
                                None
                            };
                            let _ = i.parse::<Option<Token![,]>>()?;
                            Ok(M { e, p, g })
                        }
                    }
                    if let Ok(mm) = m.mac.parse_body::<M>() {
                        let (ex, p) = (mm.e, mm.p);
                        self.hit("matches! -> match");
                        *e = match mm.g {
                            Some(g) => parse_quote!((match #ex { #p if #g => true, _ => false })),
                            None => parse_quote!((match #ex { #p => true, _ => false })),
                        };
                        syn::visit_mut::visit_expr_mut(self, e);
                    }
                } else if name == "vec" {
                    // vec![x; n] -> hd_vec_repeat(x, n)
                    struct R(Expr, Expr);
                    impl parse::Parse for R {
                        fn parse(i: parse::ParseStream) -> Result<Self> {
                            let a = i.parse()?;
                            i.parse::<Token![;]>()?;
                            Ok(R(a, i.parse()?))
                        }
                    }
                    if let Ok(R(a, b)) = m.mac.parse_body::<R>() {
                        self.hit("vec![x; n] -> hd_vec_repeat");
                        *e = parse_quote!(hd_vec_repeat(#a, #b));
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                if let Some(to) = self.ov.methodmap.get(&name) {
                    m.method = ident(to);
                    self.hit("method -> unit shim");
                    return;
                }
                match name.as_str() {
                    "is_some_and" | "is_none_or" => {
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            let r = &m.receiver;
                            let d: Expr = if name == "is_some_and" { parse_quote!(false) } else { parse_quote!(true) };
                            self.hit("is_some_and/is_none_or -> match");
                            let ne: Expr = match &p {
                                Pat::Reference(rp) => {
                                    let ip = &rp.pat;
                                    parse_quote!((match #r { Some(hd_x) => { let #ip = *hd_x; #b } None => #d }))
                                }
                                _ => parse_quote!((match #r { Some(#p) => #b, None => #d })),
                            };
                            *e = ne;
                        } else if matches!(m.args[0], Expr::Path(_)) {
                            let (r, f) = (&m.receiver, &m.args[0]);
                            let d: Expr = if name == "is_some_and" { parse_quote!(false) } else { parse_quote!(true) };
                            self.hit("is_some_and/is_none_or -> match");
                            *e = parse_quote!((match #r { Some(hd_x) => #f(hd_x), None => #d }));
                        }
                    }
                    "unwrap_or_else" | "map_or" | "and_then" | "or_else" if self.fo.opts.contains("option_closures") => {
                        let r = &m.receiver;
                        match name.as_str() {
                            "and_then" => {
                                if let Some((p, b)) = closure1(&m.args[0]) {
                                    if !has_return(&b) {
                                        self.hit("Option closure -> match");
                                        *e = parse_quote!((match #r { Some(#p) => #b, None => None }));
                                    }
                                }
                            }
                            "map_or" => {
                                if let Some((p, b)) = closure1(&m.args[1]) {
                                    let d = &m.args[0];
                                    self.hit("Option closure -> match");
                                    *e = parse_quote!((match #r { Some(#p) => #b, None => #d }));
                                }
                            }
                            "or_else" => {
                                if let Expr::Closure(c) = &m.args[0] {
                                    let b = &c.body;
                                    self.hit("Option closure -> match");
                                    *e = parse_quote!((match #r { Some(hd_x) => Some(hd_x), None => #b }));
                                }
                            }
                            _ => {
                                if let Expr::Closure(c) = &m.args[0] {
                                    if c.inputs.is_empty() {
                                        let b = &c.body;
                                        self.hit("Option closure -> match");
                                        *e = parse_quote!((match #r { Some(hd_x) => hd_x, None => #b }));
                                    }
                                }
                            }
                        }
                    }
                    "map" if self.fo.opts.contains("option_map") => {
                        if let Some((p, b)) = closure1(&m.args[0]) {
                            let r = &m.receiver;
                            self.hit("Option closure -> match");
                            *e = parse_quote!((match #r { Some(#p) => Some(#b), None => None }));
                        }
                    }
                    "next" | "last" | "next_back" | "count" => {
                        if let Expr::MethodCall(inner) = &*m.receiver {
                            if inner.method == "chars" {
                                let r = &inner.receiver;
                                let f = ident(match name.as_str() {
                                    "next" => "hd_first_char",
                                    "count" => "hd_char_count",
                                    _ => "hd_last_char",
                                });
                                self.hit("chars().next()/last()/count() -> shim");
                                *e = parse_quote!(#r.#f());
                            } else if name == "count" && ["lines", "split_whitespace", "split"].contains(&inner.method.to_string().as_str()) {
                                let v = self.vecify(&m.receiver.clone());
                                self.hit("str iterator .count() -> length of Vec shim");
                                *e = parse_quote!(#v.len());
                            } else if name == "next" && ["lines", "split_whitespace", "split"].contains(&inner.method.to_string().as_str()) {
                                let v = self.vecify(&m.receiver.clone());
                                self.hit("str iterator .next() -> first of Vec shim");
                                *e = parse_quote!(hd_first_of(&#v));
                            }
                        }
                    }
                    "truncate" => {
                        // s.truncate(s.trim_end_matches(p).len())
                        if let Expr::MethodCall(l) = &m.args[0] {
                            if l.method == "len" {
                                if let Expr::MethodCall(t) = &*l.receiver {
                                    if t.method == "hd_trim_end_matches" && norm(&t.receiver.to_token_stream().to_string()) == norm(&m.receiver.to_token_stream().to_string()) {
                                        let (r, p) = (&m.receiver, &t.args[0]);
                                        self.hit("truncate(trim_end_matches().len()) -> shim");
                                        *e = parse_quote!(hd_truncate_end(&mut #r, #p));
                                    }
                                }
                            }
                        }
                    }
                    "collect" if string_of_chars(&Expr::MethodCall(m.clone()), false).is_some() => {
                        self.hit("iter().collect() of characters -> shim");
                        let n = string_of_chars(&Expr::MethodCall(m.clone()), false).unwrap();
                        *e = n;
                    }
                    "collect" => {
                        if let Expr::Call(c) = &*m.receiver {
                            if let Expr::Path(p) = &*c.func {
                                if p.path.segments.last().is_some_and(|x| x.ident == "repeat_n") && c.args.len() == 2 {
                                    let (a, b) = (&c.args[0], &c.args[1]);
                                    self.hit("repeat_n().collect() -> shim");
                                    *e = parse_quote!(hd_repeat_char(#a, #b));
                                    return;
                                }
                            }
                        }
                        if let Expr::MethodCall(inner) = &*m.receiver {
                            let iname = inner.method.to_string();
                            match iname.as_str() {
                                "chars" | "lines" | "split_whitespace" | "split" | "children" => {
                                    let t = m.turbofish.to_token_stream().to_string();
                                    if !t.contains("String") {
                                        self.hit("str iterator collect -> Vec shim");
                                        let r = (*m.receiver).clone();
                                        *e = self.vecify(&r);
                                    }
                                }
                                "filter" => {
                                    if let Some(n) = self.unroll_filter(inner) {
                                        *e = n;
                                    }
                                }
                                _ => {}
                            }
                        }
                    }
                    "join" => {
                        if m.args.len() == 1 {
                            m.method = ident("hd_join");
                            self.hit("join -> hd_join");
                        }
                    }
                    "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" | "repeat" | "trim_start_matches" | "trim_end_matches" | "trim_matches"
                    | "width" | "trim" | "trim_start" | "trim_end" | "replace" | "concat"
                    | "is_whitespace" | "is_alphabetic" | "is_alphanumeric" | "is_numeric" | "is_uppercase" | "is_lowercase" | "is_control" | "is_ascii"
                    | "is_ascii_digit" | "is_ascii_alphabetic" | "is_ascii_alphanumeric" | "is_ascii_punctuation" | "is_ascii_uppercase" | "is_ascii_lowercase" | "is_ascii_graphic" | "is_ascii_control" | "split_once" => {
                        m.method = ident(&format!("hd_{name}"));
                        self.hit("str method -> hd_ shim");
                    }
                    "to_string" if self.fo.opts.contains("fmt_to_string") => {
                        m.method = ident("hd_fmt");
                        self.hit("to_string -> hd_fmt");
                    }
                    "contains" if is_const(&m.receiver) => {
                        let (r, a) = (&m.receiver, &m.args[0]);
                        self.hit("contains on a constant array -> shim");
                        *e = parse_quote!((#r).hd_has(#a));
                    }
                    "contains" if !self.fo.opts.contains("keep_contains") => {
                        m.method = ident("hd_contains");
                        self.hit("str method -> hd_ shim");
                    }
                    "find" if !self.fo.opts.contains("keep_find") => {
                        m.method = ident("hd_find");
                        self.hit("str method -> hd_ shim");
                    }
                    "max" | "min" => {}
                    _ => {}
                }
            }
            Expr::Call(c) if c.args.len() == 1 && norm(&c.func.to_token_stream().to_string()) == norm("String::from") => {
                let a = &c.args[0];
                self.hit("String::from(x) -> shim");
                *e = parse_quote!(hd_string_from(#a));
            }
            _ => {}
        }
        let _ = quote!();
    }
}

/// `for k in a..b { .. continue/break .. }` (Verus' for-loops have no `continue`)
/// -> `{ let mut hdn_k = a; while hdn_k < b { let k = hdn_k; hdn_k += 1; .. } }`.
/// `b` is evaluated once unless it is the length of the extractor's own vector binding.
pub struct Whileize {
    pub n: usize,
}
struct HasContinue {
    label: Option<String>,
    depth: usize,
    found: bool,
}
impl<'ast> syn::visit::Visit<'ast> for HasContinue {
    fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) {
        match &c.label {
            None if self.depth == 0 => self.found = true,
            Some(l) if Some(l.ident.to_string()) == self.label => self.found = true,
            _ => {}
        }
    }
    fn visit_expr_break(&mut self, c: &'ast syn::ExprBreak) {
        match &c.label {
            None if self.depth == 0 => self.found = true,
            Some(l) if Some(l.ident.to_string()) == self.label => self.found = true,
            _ => {}
        }
    }
    fn visit_expr_for_loop(&mut self, l: &'ast ExprForLoop) {
        self.depth += 1;
        syn::visit::visit_expr_for_loop(self, l);
        self.depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        self.depth += 1;
        syn::visit::visit_expr_while(self, l);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        self.depth += 1;
        syn::visit::visit_expr_loop(self, l);
        self.depth -= 1;
    }
}
impl VisitMut for Whileize {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        let Expr::ForLoop(f) = e else { return };
        let (Expr::Range(r), Pat::Ident(k)) = (&*f.expr, &*f.pat) else { return };
        if !matches!(r.limits, syn::RangeLimits::HalfOpen(_)) {
            return;
        }
        let (Some(a), Some(b)) = (&r.start, &r.end) else { return };
        let mut h = HasContinue { label: f.label.as_ref().map(|l| l.name.ident.to_string()), depth: 0, found: false };
        syn::visit::Visit::visit_block(&mut h, &f.body);
        if !h.found {
            return;
        }
        let k = &k.ident;
        let c = ident(&format!("hdn_{k}"));
        let own = norm(&b.to_token_stream().to_string()).starts_with("hdv");
        let label = &f.label;
        let mut body = f.body.clone();
        body.stmts.insert(0, parse_quote!(let #k = #c;));
        body.stmts.insert(1, parse_quote!(#c += 1;));
        self.n += 1;
        *e = if own {
            parse_quote!({ let mut #c: usize = #a; #label while #c < #b #body })
        } else {
            let end = ident(&format!("hde_{k}"));
            parse_quote!({ let mut #c: usize = #a; let #end: usize = #b; #label while #c < #end #body })
        };
    }
}

/// `s[a..]`, `s[..b]` and `s[a..b]` of strings, and `s.truncate(b)`
pub struct StrSlices {
    pub n: usize,
}
fn str_slice(e: &Expr) -> Option<Expr> {
    let Expr::Index(i) = e else { return None };
    let Expr::Range(r) = &*i.index else { return None };
    if !matches!(r.limits, RangeLimits::HalfOpen(_)) {
        return None;
    }
    let b = &i.expr;
    Some(match (&r.start, &r.end) {
        (Some(a), None) => parse_quote!(#b.hd_from(#a)),
        (None, Some(z)) => parse_quote!(#b.hd_to(#z)),
        (Some(a), Some(z)) => parse_quote!(#b.hd_between(#a, #z)),
        _ => return None,
    })
}
impl VisitMut for StrSlices {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let inner = match e {
            Expr::Reference(r) if r.mutability.is_none() => str_slice(&r.expr),
            Expr::Index(_) => str_slice(e),
            Expr::MethodCall(m) if m.method == "truncate" && m.args.len() == 1 => {
                let (r, a) = (&m.receiver, &m.args[0]);
                Some(parse_quote!(#r.hd_truncate_at(#a)))
            }
            _ => None,
        };
        if let Some(n) = inner {
            *e = n;
            self.n += 1;
        }
        syn::visit_mut::visit_expr_mut(self, e);
    }
}

/// Calls of a closure that is kept in a local variable are replaced by its body.
pub struct LocalClosures {
    pub n: usize,
}
struct CallSubst<'a> {
    name: &'a Ident,
    clo: &'a ExprClosure,
    n: usize,
}
impl<'a> VisitMut for CallSubst<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.name)) && c.args.len() == self.clo.inputs.len() {
                let mut st: Vec<Stmt> = vec![];
                for (p, a) in self.clo.inputs.iter().zip(c.args.iter()) {
                    st.push(parse_quote!(let #p = #a;));
                }
                let b = &self.clo.body;
                *e = parse_quote!({ #(#st)* #b });
                self.n += 1;
            }
        }
    }
}
impl VisitMut for LocalClosures {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let mut found = None;
            if let Stmt::Local(l) = &b.stmts[i] {
                if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    if let Expr::Closure(c) = &*init.expr {
                        let simple = c.inputs.iter().all(|x| match x {
                            Pat::Ident(_) => true,
                            Pat::Type(t) => matches!(&*t.pat, Pat::Ident(_)),
                            _ => false,
                        });
                        if simple && !has_return(&c.body) && init.diverge.is_none() {
                            found = Some((p.ident.clone(), c.clone()));
                        }
                    }
                }
            }
            if let Some((name, clo)) = found {
                let mut cs = CallSubst { name: &name, clo: &clo, n: 0 };
                for s in b.stmts[i + 1..].iter_mut() {
                    cs.visit_stmt_mut(s);
                }
                self.n += cs.n;
                let used = b.stmts[i + 1..].iter().any(|s| {
                    let t = s.to_token_stream().to_string();
                    let n = name.to_string();
                    t.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == n)
                });
                if !used {
                    b.stmts.remove(i);
                    continue;
                }
            }
            i += 1;
        }
        syn::visit_mut::visit_block_mut(self, b);
    }
}
