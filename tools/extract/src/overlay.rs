//! Overlay files (CONTRACTS/UNIT.vs) and the insertion of ghost text.
use crate::norm;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;

#[derive(Clone, Default)]
pub struct FnOv {
    pub name: String,
    pub source: Option<String>,
    pub ret: Option<String>,
    pub attrs: Vec<String>,
    pub spec: String,
    pub loops: BTreeMap<usize, String>,
    pub ats: Vec<(String, String)>,
    pub opts: BTreeSet<String>,
    pub locals: Vec<String>,
}
impl FnOv {
    pub fn bare(n: &str) -> Self {
        FnOv { name: n.into(), ..Default::default() }
    }
}

#[derive(Clone, Default)]
pub struct ItemOv {
    pub name: String,
    pub fields: Option<Vec<String>>,
    pub derive: Option<String>,
    pub attr: Option<String>,
}

#[derive(Default)]
pub struct Overlay {
    pub source: String,
    pub libs: Vec<String>,
    pub raw: String,
    /// fields that only functions under contract may change
    pub frame: BTreeSet<String>,
    /// methods that must not be called at all
    pub unused: BTreeSet<String>,
    pub fns: Vec<FnOv>,
    pub items: Vec<ItemOv>,
    pub pathmap: BTreeMap<String, String>,
    pub typemap: BTreeMap<String, String>,
    pub implhdr: BTreeMap<String, String>,
    pub extern_names: BTreeSet<String>,
    pub methodmap: BTreeMap<String, String>,
    pub dir: String,
}

impl Overlay {
    pub fn load(dir: &str, unit: &str) -> Overlay {
        let mut o = Overlay { dir: dir.into(), ..Default::default() };
        o.load_file(dir, unit);
        o
    }
    fn load_file(&mut self, dir: &str, unit: &str) {
        let p = format!("{dir}/{unit}.vs");
        let text = std::fs::read_to_string(&p).unwrap_or_else(|_| panic!("overlay {p}"));
        enum St {
            None,
            Raw,
            Spec,
            Loop(usize),
            At,
        }
        let mut st = St::None;
        for line in text.lines() {
            if let Some(d) = line.strip_prefix("%%") {
                let d = d.trim();
                let (k, rest) = match d.split_once(char::is_whitespace) {
                    Some((a, b)) => (a, b.trim()),
                    None => (d, ""),
                };
                st = St::None;
                match k {
                    "source" => self.source = rest.into(),
                    "lib" => self.libs.extend(rest.split_whitespace().map(|s| s.to_string())),
                    "use" => self.load_file(dir, rest),
                    "raw" => st = St::Raw,
                    "path" => {
                        let (a, b) = rest.split_once("=>").expect("path a => b");
                        self.pathmap.insert(a.trim().into(), b.trim().into());
                    }
                    "type" => {
                        let (a, b) = rest.split_once("=>").expect("type a => b");
                        self.typemap.insert(norm(a), b.trim().into());
                    }
                    "method" => {
                        let (a, b) = rest.split_once("=>").expect("method a => b");
                        self.methodmap.insert(a.trim().into(), b.trim().into());
                    }
                    "extern" => self.extern_names.extend(rest.split_whitespace().map(|s| s.to_string())),
                    "impl" => {
                        let (a, b) = rest.split_once("=>").expect("impl a => b");
                        self.implhdr.insert(a.trim().into(), b.trim().into());
                    }
                    "item" => self.items.push(ItemOv { name: rest.into(), ..Default::default() }),
                    "fields" => {
                        self.items.last_mut().unwrap().fields =
                            Some(rest.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).map(|s| s.to_string()).collect())
                    }
                    "derive" => self.items.last_mut().unwrap().derive = Some(rest.into()),
                    "itemattr" => self.items.last_mut().unwrap().attr = Some(rest.into()),
                    "frame" => self.frame.extend(rest.split(|c: char| c == ',' || c.is_whitespace()).filter(|s| !s.is_empty()).map(|s| s.to_string())),
                    "unused" => self.unused.extend(rest.split_whitespace().map(|s| s.to_string())),
                    "fn" => self.fns.push(FnOv::bare(rest)),
                    "from" => self.fns.last_mut().unwrap().source = Some(rest.into()),
                    "ret" => self.fns.last_mut().unwrap().ret = Some(rest.into()),
                    "attr" => self.fns.last_mut().unwrap().attrs.push(rest.into()),
                    "opt" => {
                        let o = &mut self.fns.last_mut().unwrap().opts;
                        o.extend(rest.split_whitespace().map(|s| s.to_string()));
                    }
                    "spec" => st = St::Spec,
                    "loop" => st = St::Loop(rest.parse().expect("loop n")),
                    "at" => {
                        self.fns.last_mut().unwrap().ats.push((rest.into(), String::new()));
                        st = St::At;
                    }
                    "" | "end" | "#" => {}
                    _ => panic!("unknown directive {k} in {p}"),
                }
                continue;
            }
            match st {
                St::None => {}
                St::Raw => {
                    self.raw.push_str(line);
                    self.raw.push('\n');
                }
                St::Spec => {
                    let f = self.fns.last_mut().unwrap();
                    f.spec.push_str(line);
                    f.spec.push('\n');
                }
                St::Loop(n) => {
                    let f = self.fns.last_mut().unwrap();
                    let e = f.loops.entry(n).or_default();
                    e.push_str(line);
                    e.push('\n');
                }
                St::At => {
                    let f = self.fns.last_mut().unwrap();
                    let e = &mut f.ats.last_mut().unwrap().1;
                    e.push_str(line);
                    e.push('\n');
                }
            }
        }
    }

    pub fn known_names(&self) -> BTreeSet<String> {
        let mut s: BTreeSet<String> = self.extern_names.clone();
        for f in &self.fns {
            s.insert(f.name.clone());
        }
        let mut texts = vec![self.raw.clone()];
        for l in &self.libs {
            texts.push(std::fs::read_to_string(format!("{}/lib/{l}.rs", self.dir)).unwrap_or_default());
        }
        for t in texts {
            let mut rest = t.as_str();
            while let Some(i) = rest.find("fn ") {
                let r = &rest[i + 3..];
                let id: String = r.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                if !id.is_empty() {
                    s.insert(id);
                }
                rest = r;
            }
        }
        s
    }
}

/// Inserts marker macros into the (already rewritten) body.
pub struct Inserter<'a> {
    fo: &'a FnOv,
    pub lost: Vec<String>,
    n: usize,
    loops: BTreeMap<usize, ()>,
    used: BTreeSet<usize>,
}

fn marker(kind: &str, id: usize) -> syn::Stmt {
    syn::parse_str(&format!("__hd_{kind}!({id});")).unwrap()
}

impl<'a> Inserter<'a> {
    pub fn new(fo: &'a FnOv) -> Self {
        Inserter { fo, lost: vec![], n: 0, loops: BTreeMap::new(), used: BTreeSet::new() }
    }

    pub fn run(&mut self, b: &mut syn::Block, ghosts: &mut Vec<String>) {
        if !self.fo.opts.contains("no_reveal") {
            RevealLits { ghosts }.top(b);
        }
        // 1. number loops in pre-order and insert invariants / body ghosts
        {
            let mut v = LoopVisitor { ins: self, ghosts };
            v.visit_block_mut(b);
        }
        // 2. statement anchored ghosts
        for (idx, (place, text)) in self.fo.ats.iter().enumerate() {
            let pl = place.trim();
            if pl == "start" {
                let id = ghosts.len();
                ghosts.push(text.clone());
                b.stmts.insert(0, marker("ghost", id));
                self.used.insert(idx);
            } else if pl == "end" {
                let id = ghosts.len();
                ghosts.push(text.clone());
                let pos = match b.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_)) => b.stmts.len() - 1,
                    _ => b.stmts.len(),
                };
                b.stmts.insert(pos, marker("ghost", id));
                self.used.insert(idx);
            } else if pl.starts_with("before ") || pl.starts_with("after ") {
                let before = pl.starts_with("before ");
                let rest = pl.split_once(' ').unwrap().1.trim();
                let (pat, ord) = match rest.rsplit_once(" #") {
                    Some((p, n)) if n.parse::<usize>().is_ok() => (p, n.parse().unwrap()),
                    _ => (rest, 0usize),
                };
                let id = ghosts.len();
                ghosts.push(text.clone());
                let mut v = StmtAnchor { pat: norm(pat), before, ord, seen: 0, id, done: false };
                v.visit_block_mut(b);
                if v.done {
                    self.used.insert(idx);
                }
            } else if pl == "result" {
                // every returned value is bound to `hdr` first
                let id = ghosts.len();
                ghosts.push(text.clone());
                let tail = match b.stmts.last() {
                    Some(syn::Stmt::Expr(e, None)) if !matches!(e, syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Return(_)) => Some(e.clone()),
                    _ => None,
                };
                if tail.is_some() {
                    b.stmts.pop();
                }
                let mut v = RetValue { id };
                v.visit_block_mut(b);
                if let Some(mut e) = tail {
                    v.visit_expr_mut(&mut e);
                    b.stmts.push(syn::parse_quote! { let hdr = #e; });
                    b.stmts.push(marker("ghost", id));
                    b.stmts.push(syn::Stmt::Expr(syn::parse_quote! { hdr }, None));
                }
                self.used.insert(idx);
            } else if pl.starts_with("return") {
                // before every `return`
                let id = ghosts.len();
                ghosts.push(text.clone());
                let mut v = RetAnchor { id, seen: 0 };
                v.visit_block_mut(b);
                self.used.insert(idx);
            }
        }
        for (idx, (place, _)) in self.fo.ats.iter().enumerate() {
            if !self.used.contains(&idx) {
                self.lost.push(format!("anchor `{place}` not found"));
            }
        }
        for k in self.fo.loops.keys() {
            if !self.loops.contains_key(k) {
                self.lost.push(format!("loop {k} not found"));
            }
        }
        if !self.fo.loops.is_empty() || self.n > 0 {
            for k in 0..self.n {
                if !self.fo.loops.contains_key(&k) {
                    self.lost.push(format!("loop {k} has no invariant"));
                }
            }
        }
    }
}

/// The counter and the end of a loop made by rewrite::Whileize.
fn whileized(body: &syn::Block, cond: Option<&syn::Expr>) -> Option<(String, String)> {
    let syn::Stmt::Local(l) = body.stmts.first()? else { return None };
    let syn::Pat::Ident(p) = &l.pat else { return None };
    let k = p.ident.to_string();
    let init = norm(&l.init.as_ref()?.expr.to_token_stream().to_string());
    if init != format!("hdn_{k}") {
        return None;
    }
    let syn::Expr::Binary(b) = cond? else { return None };
    Some((k, b.right.to_token_stream().to_string()))
}
fn words(text: &str, from: &str, to: &str) -> String {
    let mut out = String::new();
    let mut cur = String::new();
    for c in text.chars().chain(['\0']) {
        if c.is_alphanumeric() || c == '_' {
            cur.push(c);
        } else {
            out.push_str(if cur == from { to } else { &cur });
            cur.clear();
            if c != '\0' {
                out.push(c);
            }
        }
    }
    out
}
fn while_inv(text: &str, k: &str, end: &str) -> String {
    let t = words(text, k, &format!("hdn_{k}"));
    let bounds = format!("0 <= hdn_{k} <= {end}, ");
    let mut t = if words(&t, "invariant", "\u{1}").contains('\u{1}') {
        words(&t, "invariant", &format!("invariant {bounds}"))
    } else {
        format!("invariant {bounds}\n{t}")
    };
    if !words(&t, "decreases", "\u{1}").contains('\u{1}') {
        t.push_str(&format!("\n    decreases {end} - hdn_{k},"));
    }
    t
}

struct LoopVisitor<'x, 'a> {
    ins: &'x mut Inserter<'a>,
    ghosts: &'x mut Vec<String>,
}

fn has_auto(b: &syn::Block) -> bool {
    matches!(b.stmts.first(), Some(syn::Stmt::Macro(m)) if m.mac.path.is_ident("__hd_auto"))
}

impl<'x, 'a> LoopVisitor<'x, 'a> {
    fn enter(&mut self, body: &mut syn::Block) -> usize {
        if has_auto(body) {
            return usize::MAX;
        }
        let n = self.ins.n;
        self.ins.n += 1;
        self.ins.loops.insert(n, ());
        n
    }
    fn leave(&mut self, n: usize, body: &mut syn::Block, cond: Option<&syn::Expr>) {
        if n == usize::MAX {
            return;
        }
        let fo = self.ins.fo;
        let mut pre: Vec<syn::Stmt> = vec![];
        let id = self.ghosts.len();
        let wz = whileized(body, cond);
        self.ghosts.push(match &wz {
            Some((k, end)) => while_inv(&fo.loops.get(&n).cloned().unwrap_or_default(), k, end),
            None => fo.loops.get(&n).cloned().unwrap_or_default(),
        });
        let off = if wz.is_some() { 2 } else { 0 };
        pre.push(marker("inv", id));
        for (idx, (place, text)) in fo.ats.iter().enumerate() {
            let pl = place.trim();
            if pl == format!("loop {n} start") {
                let id = self.ghosts.len();
                self.ghosts.push(text.clone());
                // keep after the index bindings generated by the for-rewrite
                pre.push(marker("ghost", id));
                self.ins.used.insert(idx);
            } else if pl == format!("loop {n} end") || pl == format!("loop {n} back") {
                let id = self.ghosts.len();
                self.ghosts.push(text.clone());
                if pl.ends_with("back") {
                    let mut v = ContAnchor { id };
                    v.visit_block_mut(body);
                }
                // a diverging tail needs no ghost
                body.stmts.push(marker("ghost", id));
                self.ins.used.insert(idx);
            }
        }
        for (i, s) in pre.into_iter().enumerate() {
            // the invariant first, ghosts after the bindings of the counter
            body.stmts.insert(if i == 0 { 0 } else { i + off }, s);
        }
    }
}

impl<'x, 'a> VisitMut for LoopVisitor<'x, 'a> {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            let is_loop = matches!(&b.stmts[i], syn::Stmt::Expr(syn::Expr::ForLoop(_) | syn::Expr::While(_) | syn::Expr::Loop(_), _));
            let n = self.ins.n;
            let auto = match &b.stmts[i] {
                syn::Stmt::Expr(syn::Expr::While(w), _) => has_auto(&w.body),
                syn::Stmt::Expr(syn::Expr::ForLoop(w), _) => has_auto(&w.body),
                _ => false,
            };
            self.visit_stmt_mut(&mut b.stmts[i]);
            if is_loop && !auto {
                let fo = self.ins.fo;
                let mut after: Vec<syn::Stmt> = vec![];
                for (idx, (place, text)) in fo.ats.iter().enumerate() {
                    let pl = place.trim();
                    if pl == format!("loop {n} before") {
                        let id = self.ghosts.len();
                        self.ghosts.push(text.clone());
                        b.stmts.insert(i, marker("ghost", id));
                        i += 1;
                        self.ins.used.insert(idx);
                    } else if pl == format!("loop {n} after") {
                        let id = self.ghosts.len();
                        self.ghosts.push(text.clone());
                        after.push(marker("ghost", id));
                        self.ins.used.insert(idx);
                    }
                }
                for s in after {
                    b.stmts.insert(i + 1, s);
                    i += 1;
                }
            }
            i += 1;
        }
    }
    fn visit_expr_for_loop_mut(&mut self, e: &mut syn::ExprForLoop) {
        let n = self.enter(&mut e.body);
        syn::visit_mut::visit_expr_for_loop_mut(self, e);
        self.leave(n, &mut e.body, None);
    }
    fn visit_expr_while_mut(&mut self, e: &mut syn::ExprWhile) {
        let n = self.enter(&mut e.body);
        syn::visit_mut::visit_expr_while_mut(self, e);
        self.leave(n, &mut e.body, Some(&e.cond));
    }
    fn visit_expr_loop_mut(&mut self, e: &mut syn::ExprLoop) {
        let n = self.enter(&mut e.body);
        syn::visit_mut::visit_expr_loop_mut(self, e);
        self.leave(n, &mut e.body, None);
    }
}

struct ContAnchor {
    id: usize,
}
impl VisitMut for ContAnchor {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if matches!(&b.stmts[i], syn::Stmt::Expr(syn::Expr::Continue(_), _)) {
                b.stmts.insert(i, marker("ghost", self.id));
                i += 1;
            } else {
                self.visit_stmt_mut(&mut b.stmts[i]);
            }
            i += 1;
        }
    }
    fn visit_expr_for_loop_mut(&mut self, _: &mut syn::ExprForLoop) {}
    fn visit_expr_while_mut(&mut self, _: &mut syn::ExprWhile) {}
    fn visit_expr_loop_mut(&mut self, _: &mut syn::ExprLoop) {}
}

struct RetValue {
    id: usize,
}
impl VisitMut for RetValue {
    fn visit_expr_mut(&mut self, e: &mut syn::Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let syn::Expr::Return(r) = e {
            if let Some(v) = &r.expr {
                let m = marker("ghost", self.id);
                *e = syn::parse_quote! { { let hdr = #v; #m return hdr; } };
            }
        }
    }
    fn visit_expr_closure_mut(&mut self, _: &mut syn::ExprClosure) {}
}

struct RetAnchor {
    id: usize,
    seen: usize,
}
impl VisitMut for RetAnchor {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if matches!(&b.stmts[i], syn::Stmt::Expr(syn::Expr::Return(_), _)) {
                b.stmts.insert(i, marker("ghost", self.id));
                self.seen += 1;
                i += 1;
            } else {
                self.visit_stmt_mut(&mut b.stmts[i]);
            }
            i += 1;
        }
    }
}

struct StmtAnchor {
    pat: String,
    before: bool,
    ord: usize,
    seen: usize,
    id: usize,
    done: bool,
}
impl VisitMut for StmtAnchor {
    fn visit_block_mut(&mut self, b: &mut syn::Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return;
            }
            let t = norm(&b.stmts[i].to_token_stream().to_string());
            if t.starts_with(&self.pat) {
                if self.seen == self.ord {
                    let pos = if self.before { i } else { i + 1 };
                    b.stmts.insert(pos, marker("ghost", self.id));
                    self.done = true;
                    return;
                }
                self.seen += 1;
            }
            self.visit_stmt_mut(&mut b.stmts[i]);
            i += 1;
        }
    }
}

/// Replace the marker macros in the printed text by the ghost text.
pub fn substitute(text: &str, ghosts: &[String]) -> String {
    let mut out = String::new();
    let mut rest = text;
    // first pass: spec / ret / inv markers directly after an opening brace
    while let Some(i) = rest.find("__hd_") {
        let head = &rest[..i];
        let tail = &rest[i..];
        let bang = tail.find('!').unwrap();
        let kind = &tail[5..bang];
        let close = tail.find(");").unwrap();
        let arg = &tail[bang + 2..close];
        let after = &tail[close + 2..];
        match kind {
            "ret" | "spec" | "inv" | "auto" => {
                let g = if kind == "auto" {
                    let s: String = arg.to_string();
                    let lit: syn::LitStr = syn::parse_str(&s).expect("auto lit");
                    lit.value()
                } else {
                    ghosts[arg.trim().parse::<usize>().unwrap()].clone()
                };
                out.push_str(head);
                // move before the last `{` in out
                let p = out.rfind('{').expect("brace");
                let tailp = out[p + 1..].to_string();
                debug_assert!(tailp.trim().is_empty());
                out.truncate(p);
                let o = out.trim_end().len();
                out.truncate(o);
                if kind == "ret" {
                    out.push(' ');
                    out.push_str(&g);
                } else {
                    out.push('\n');
                    out.push_str(g.trim_end());
                    out.push('\n');
                }
                out.push('{');
                out.push_str(&tailp);
            }
            "ghost" => {
                out.push_str(head);
                out.push_str(&ghosts[arg.trim().parse::<usize>().unwrap()]);
            }
            _ => {
                out.push_str(head);
                out.push_str(&tail[..close + 2]);
            }
        }
        rest = after;
    }
    out.push_str(rest);
    out
}

/// Ghost `reveal_strlit` for every string literal used in a block that opens a new proof context.
struct RevealLits<'g> {
    ghosts: &'g mut Vec<String>,
}
struct Lits(BTreeSet<String>);
impl<'ast> syn::visit::Visit<'ast> for Lits {
    fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
        self.0.insert(l.to_token_stream().to_string());
    }
    fn visit_macro(&mut self, _: &'ast syn::Macro) {}
}
impl<'g> RevealLits<'g> {
    fn mk(&mut self, b: &syn::Block) -> Option<syn::Stmt> {
        let mut l = Lits(BTreeSet::new());
        syn::visit::Visit::visit_block(&mut l, b);
        if l.0.is_empty() {
            return None;
        }
        let t: Vec<String> = l.0.iter().map(|x| {
            let v = syn::parse_str::<syn::LitStr>(x).map(|l| l.value()).unwrap_or_default();
            let mut r = format!("reveal_strlit({x});");
            if v.chars().count() <= 16 {
                let cs: Vec<String> = v.chars().map(|c| syn::LitChar::new(c, proc_macro2::Span::call_site()).to_token_stream().to_string()).collect();
                if cs.is_empty() {
                    r.push_str(&format!(" assert({x}@ =~= Seq::<char>::empty());"));
                } else {
                    r.push_str(&format!(" assert({x}@ =~= seq![{}]);", cs.join(", ")));
                }
            }
            r
        }).collect();
        let id = self.ghosts.len();
        self.ghosts.push(format!("proof {{ {} }}\n", t.join(" ")));
        Some(marker("ghost", id))
    }
    fn top(&mut self, b: &mut syn::Block) {
        if let Some(s) = self.mk(b) {
            b.stmts.insert(0, s);
        }
        self.visit_block_mut(b);
    }
    fn body(&mut self, b: &mut syn::Block) {
        if let Some(s) = self.mk(b) {
            let pos = if has_auto(b) { 1 } else { 0 };
            b.stmts.insert(pos, s);
        }
    }
}
impl<'g> VisitMut for RevealLits<'g> {
    fn visit_expr_for_loop_mut(&mut self, e: &mut syn::ExprForLoop) {
        syn::visit_mut::visit_expr_for_loop_mut(self, e);
        self.body(&mut e.body);
    }
    fn visit_expr_while_mut(&mut self, e: &mut syn::ExprWhile) {
        syn::visit_mut::visit_expr_while_mut(self, e);
        self.body(&mut e.body);
    }
    fn visit_expr_loop_mut(&mut self, e: &mut syn::ExprLoop) {
        syn::visit_mut::visit_expr_loop_mut(self, e);
        self.body(&mut e.body);
    }
}
