//! hd-extract: mechanically extracts functions of /repo into one Verus file.
//!
//! usage: hd-extract REPO CONTRACTS_DIR UNIT OUT.rs OUT.json
//!
//! Reads CONTRACTS_DIR/UNIT.vs (contracts, invariants, ghost code, stub types)
//! and the *current* sources in REPO, and writes a self-contained Verus file in
//! which every executable line of a function under contract is the repository's
//! own code after the (fixed, documented) rewrites in rewrite.rs.
mod hooks;
mod inline;
mod overlay;
mod rewrite;

use overlay::*;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;

pub struct SrcFn {
    pub file: String,
    pub imp: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub line: usize,
}

pub struct Repo {
    pub fns: Vec<SrcFn>,
    pub items: Vec<(String, syn::Item)>,
    pub consts: Vec<(String, syn::ImplItemConst)>,
}

fn is_test_cfg(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = a.to_token_stream().to_string().replace(' ', "");
        s == "#[cfg(test)]" || s == "#[test]"
    })
}

fn load(repo: &str) -> Repo {
    let mut r = Repo { fns: vec![], items: vec![], consts: vec![] };
    let mut stack = vec![format!("{repo}/src")];
    while let Some(d) = stack.pop() {
        let mut es: Vec<_> = match std::fs::read_dir(&d) {
            Ok(x) => x.flatten().map(|e| e.path()).collect(),
            Err(_) => continue,
        };
        es.sort();
        for p in es {
            if p.is_dir() {
                stack.push(p.to_string_lossy().into());
                continue;
            }
            if p.extension().and_then(|x| x.to_str()) != Some("rs") {
                continue;
            }
            let text = std::fs::read_to_string(&p).unwrap_or_default();
            let rel = p.strip_prefix(repo).unwrap().to_string_lossy().to_string();
            let f = match syn::parse_file(&text) {
                Ok(f) => f,
                Err(e) => {
                    eprintln!("parse error in {rel}: {e}");
                    std::process::exit(3);
                }
            };
            walk(&rel, f.items, &mut r);
        }
    }
    r
}

fn walk(rel: &str, items: Vec<syn::Item>, r: &mut Repo) {
    for it in items {
        match &it {
            syn::Item::Fn(f) if !is_test_cfg(&f.attrs) => r.fns.push(SrcFn {
                file: rel.into(),
                imp: None,
                sig: f.sig.clone(),
                block: (*f.block).clone(),
                line: f.sig.ident.span().start().line,
            }),
            syn::Item::Impl(im) if !is_test_cfg(&im.attrs) => {
                let name = match &*im.self_ty {
                    syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                    _ => continue,
                };
                let name = match &im.trait_ {
                    Some((_, p, _)) => {
                        format!("{}@{}", name, p.segments.last().unwrap().ident)
                    }
                    None => name,
                };
                for ii in &im.items {
                    if let syn::ImplItem::Const(c) = ii {
                        r.consts.push((name.clone(), c.clone()));
                    }
                    if let syn::ImplItem::Fn(f) = ii {
                        if is_test_cfg(&f.attrs) {
                            continue;
                        }
                        r.fns.push(SrcFn {
                            file: rel.into(),
                            imp: Some(name.clone()),
                            sig: f.sig.clone(),
                            block: f.block.clone(),
                            line: f.sig.ident.span().start().line,
                        });
                    }
                }
            }
            syn::Item::Mod(m) if !is_test_cfg(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    walk(rel, its.clone(), r);
                }
            }
            syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Const(_) | syn::Item::Static(_) => {
                derived_default(rel, &it, r);
                r.items.push((rel.into(), it.clone()))
            }
            _ => {}
        }
    }
}

/// The function that `#[derive(Default)]` stands for.
fn derived_default(rel: &str, it: &syn::Item, r: &mut Repo) {
    let (attrs, id) = match it {
        syn::Item::Struct(s) => (&s.attrs, &s.ident),
        syn::Item::Enum(e) => (&e.attrs, &e.ident),
        _ => return,
    };
    let derives = |a: &syn::Attribute| a.path().is_ident("derive") && norm(&a.to_token_stream().to_string()).contains("Default");
    if !attrs.iter().any(derives) {
        return;
    }
    let value: syn::Expr = match it {
        syn::Item::Enum(e) => {
            let Some(v) = e.variants.iter().find(|v| v.attrs.iter().any(|a| a.path().is_ident("default"))) else { return };
            let v = &v.ident;
            syn::parse_quote!(Self::#v)
        }
        syn::Item::Struct(s) => {
            let mut fs: Vec<syn::FieldValue> = vec![];
            for f in &s.fields {
                let (Some(n), t) = (&f.ident, &f.ty) else { return };
                let syn::Type::Path(p) = t else { return };
                let v: syn::Expr = match p.path.segments.last().unwrap().ident.to_string().as_str() {
                    "bool" => syn::parse_quote!(false),
                    "usize" | "u64" | "u32" => syn::parse_quote!(0),
                    "Option" => syn::parse_quote!(None),
                    "String" => syn::parse_quote!(String::new()),
                    "Vec" => syn::parse_quote!(Vec::new()),
                    _ => {
                        let q = &p.path.segments.last().unwrap().ident;
                        syn::parse_quote!(#q::default())
                    }
                };
                fs.push(syn::parse_quote!(#n: #v));
            }
            syn::parse_quote!(Self { #(#fs),* })
        }
        _ => return,
    };
    let f: syn::ItemFn = syn::parse_quote!(fn default() -> Self { #value });
    r.fns.push(SrcFn { file: rel.into(), imp: Some(format!("{id}@Default")), sig: f.sig, block: *f.block, line: id.span().start().line });
}

impl Repo {
    pub fn find_fn(&self, name: &str, src: &str) -> Option<&SrcFn> {
        let (imp, f) = match name.split_once("::") {
            Some((a, b)) => (Some(a.to_string()), b),
            None => (None, name),
        };
        let c: Vec<&SrcFn> = self
            .fns
            .iter()
            .filter(|x| x.imp == imp && x.sig.ident == f)
            .collect();
        if c.len() == 1 {
            return Some(c[0]);
        }
        let d: Vec<&SrcFn> = c.iter().copied().filter(|x| x.file == src).collect();
        d.first().copied()
    }
    pub fn find_item(&self, name: &str, src: &str) -> Option<syn::Item> {
        let c: Vec<&(String, syn::Item)> = self
            .items
            .iter()
            .filter(|(_, i)| match i {
                syn::Item::Struct(s) => s.ident == name,
                syn::Item::Enum(s) => s.ident == name,
                syn::Item::Const(s) => s.ident == name,
                syn::Item::Static(s) => s.ident == name,
                _ => false,
            })
            .collect();
        if c.len() == 1 {
            return Some(c[0].1.clone());
        }
        c.iter().find(|x| x.0 == src).map(|x| x.1.clone())
    }
}

pub fn norm(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}

fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<syn::Attribute>) {
        a.clear();
    }
}

/// strip `pub(super)` etc. and paths such as `super::` / `crate::...::X`
struct FlattenPaths<'a> {
    map: &'a BTreeMap<String, String>,
}
impl<'a> VisitMut for FlattenPaths<'a> {
    fn visit_path_mut(&mut self, p: &mut syn::Path) {
        syn::visit_mut::visit_path_mut(self, p);
        let full: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let joined = full.join("::");
        if let Some(to) = self.map.get(&joined) {
            let np: syn::Path = syn::parse_str(to).expect("path map");
            let last_args = p.segments.last().unwrap().arguments.clone();
            *p = np;
            p.segments.last_mut().unwrap().arguments = last_args;
            return;
        }
        // drop leading lower-case module segments
        let mut segs: Vec<syn::PathSegment> = p.segments.iter().cloned().collect();
        let keep_std = matches!(full[0].as_str(), "std" | "core" | "alloc" | "Self" | "self" | "u32" | "char" | "usize" | "str" | "u8");
        if segs.len() > 1 && !keep_std {
            while segs.len() > 1 {
                let n = segs[0].ident.to_string();
                if n.chars().next().map_or(false, |c| c.is_lowercase()) {
                    segs.remove(0);
                } else {
                    break;
                }
            }
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() >= 5 && a[1] == "hooks" {
        hooks::run(&load(&a[2]), &a[3], &a[4], a.len() > 5);
        return;
    }
    if a.len() != 6 {
        eprintln!("usage: hd-extract REPO CONTRACTS UNIT OUT.rs OUT.json");
        std::process::exit(2);
    }
    let (repo_dir, cdir, unit, out_rs, out_json) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let repo = load(repo_dir);
    let ov = Overlay::load(cdir, unit);

    let mut lost: Vec<String> = vec![]; // anchors that could not be attached
    let mut notes: Vec<String> = vec![];
    let mut fnmeta: Vec<String> = vec![];
    let mut emitted: BTreeMap<Option<String>, Vec<String>> = BTreeMap::new();
    let mut impl_order: Vec<Option<String>> = vec![];
    let mut items_txt = String::new();

    // ---- items (types and constants taken verbatim) ----
    for it in &ov.items {
        let (iname, ifile) = it.name.split_once(" from ").unwrap_or((&it.name, &ov.source));
        match repo.find_item(iname, ifile) {
            None => lost.push(format!("item {} not found", it.name)),
            Some(mut item) => {
                let mut derive_keep: Vec<String> = vec![];
                if let Some(d) = &it.derive {
                    derive_keep = d.split_whitespace().map(|s| s.to_string()).collect();
                }
                StripAttrs.visit_item_mut(&mut item);
                FlattenPaths { map: &ov.pathmap }.visit_item_mut(&mut item);
                match &mut item {
                    syn::Item::Struct(s) => {
                        s.vis = syn::parse_quote!(pub);
                        if let Some(fields) = &it.fields {
                            let want: BTreeSet<String> = fields.iter().cloned().collect();
                            if let syn::Fields::Named(n) = &mut s.fields {
                                let have: BTreeSet<String> = n
                                    .named
                                    .iter()
                                    .map(|f| f.ident.as_ref().unwrap().to_string())
                                    .collect();
                                for w in want.difference(&have) {
                                    lost.push(format!("field {}.{} not found", it.name, w));
                                }
                                n.named = n
                                    .named
                                    .iter()
                                    .filter(|f| want.contains(&f.ident.as_ref().unwrap().to_string()))
                                    .cloned()
                                    .collect();
                            }
                        }
                        for f in s.fields.iter_mut() {
                            f.vis = syn::parse_quote!(pub);
                        }
                    }
                    syn::Item::Enum(e) => e.vis = syn::parse_quote!(pub),
                    syn::Item::Const(c) => {
                        c.vis = syn::parse_quote!(pub);
                        struct Static;
                        impl syn::visit_mut::VisitMut for Static {
                            fn visit_type_reference_mut(&mut self, r: &mut syn::TypeReference) {
                                r.lifetime.get_or_insert(syn::parse_quote!('static));
                                syn::visit_mut::visit_type_reference_mut(self, r);
                            }
                        }
                        syn::visit_mut::VisitMut::visit_type_mut(&mut Static, &mut c.ty);
                    }
                    _ => {}
                }
                if !derive_keep.is_empty() {
                    items_txt.push_str(&format!("#[derive({})]\n", derive_keep.join(", ")));
                }
                if let Some(at) = &it.attr {
                    items_txt.push_str(at);
                    items_txt.push('\n');
                }
                let f = syn::File { shebang: None, attrs: vec![], items: vec![item] };
                items_txt.push_str(&prettyplease::unparse(&f));
            }
        }
    }

    let known: BTreeSet<String> = ov.known_names();
    let mut ghosts: Vec<String> = vec![];
    let mut queue: Vec<(String, Option<FnOv>)> = ov
        .fns
        .iter()
        .map(|f| (f.name.clone(), Some(f.clone())))
        .collect();
    let mut qi = 0;
    let mut uncontracted: Vec<String> = vec![];
    let mut queued: BTreeSet<String> = queue.iter().map(|q| q.0.clone()).collect();

    while qi < queue.len() {
        let (name, fo) = queue[qi].clone();
        qi += 1;
        let sf = match repo.find_fn(&name, fo.as_ref().and_then(|f| f.source.as_deref()).unwrap_or(&ov.source)) {
            Some(s) => s,
            None => {
                lost.push(format!("function {name} not found"));
                continue;
            }
        };
        let fo = fo.unwrap_or_else(|| FnOv::bare(&name));
        let imp = sf.imp.clone().map(|s| s.split('@').next().unwrap().to_string());
        let mut sig = sf.sig.clone();
        let mut block = sf.block.clone();
        StripAttrs.visit_block_mut(&mut block);
        StripAttrs.visit_signature_mut(&mut sig);
        // inline helpers that carry no contract
        let mut inl = inline::Inliner {
            repo: &repo,
            known: &known,
            file: &sf.file,
            imp: sf.imp.clone(),
            depth: 0,
            inlined: vec![],
            uncontracted: vec![],
            stack: vec![name.clone()],
        };
        inl.visit_block_mut(&mut block);
        for i in &inl.inlined {
            notes.push(format!("{name}: helper {i} inlined"));
        }
        for u in inl.uncontracted.clone() {
            if queued.insert(u.clone()) {
                uncontracted.push(u.clone());
                queue.push((u, None));
            }
        }
        let mut lc = rewrite::LocalClosures { n: 0 };
        lc.visit_block_mut(&mut block);
        if lc.n > 0 {
            notes.push(format!("{name}: rewrite call of a local closure -> its body x{}", lc.n));
        }
        if fo.opts.contains("str_slices") {
            let mut ss = rewrite::StrSlices { n: 0 };
            ss.visit_block_mut(&mut block);
            if ss.n > 0 {
                notes.push(format!("{name}: rewrite byte slices of a string -> shim x{}", ss.n));
            }
        }
        let mut rw = rewrite::Rewriter::new(&fo, &ov);
        rw.visit_block_mut(&mut block);
        rw.visit_signature_mut(&mut sig);
        rw.finish(&mut block);
        FlattenPaths { map: &ov.pathmap }.visit_block_mut(&mut block);
        FlattenPaths { map: &ov.pathmap }.visit_signature_mut(&mut sig);
        for (k, v) in &rw.applied {
            notes.push(format!("{name}: rewrite {k} x{v}"));
        }
        let mut wz = rewrite::Whileize { n: 0 };
        wz.visit_block_mut(&mut block);
        if wz.n > 0 {
            notes.push(format!("{name}: rewrite for-with-continue -> while x{}", wz.n));
        }
        // by-value `mut` params: Verus accepts them
        let mut ins = overlay::Inserter::new(&fo);
        ins.run(&mut block, &mut ghosts);
        for l in &ins.lost {
            lost.push(format!("{name}: {l}"));
        }
        // signature printing
        let retty = match &sig.output {
            syn::ReturnType::Default => None,
            syn::ReturnType::Type(_, t) => Some(t.to_token_stream().to_string()),
        };
        let mut sig2 = sig.clone();
        sig2.output = syn::ReturnType::Default;
        let specid = ghosts.len();
        ghosts.push(fo.spec.clone());
        let specmac: syn::Stmt = syn::parse_str(&format!("__hd_spec!({specid});")).unwrap();
        let mut b2 = block.clone();
        b2.stmts.insert(0, specmac);
        let retmark = match &retty {
            Some(t) => {
                let id = ghosts.len();
                ghosts.push(format!("-> ({}: {})", fo.ret.clone().unwrap_or("hd_r".into()), t));
                format!("__hd_ret!({id});")
            }
            None => {
                let id = ghosts.len();
                ghosts.push(String::new());
                format!("__hd_ret!({id});")
            }
        };
        b2.stmts.insert(0, syn::parse_str(&retmark).unwrap());
        let txt = if imp.is_some() {
            let f = syn::ImplItemFn {
                attrs: vec![],
                vis: syn::parse_quote!(pub),
                defaultness: None,
                sig: sig2,
                block: b2,
            };
            let im: syn::ItemImpl = syn::parse_quote!(impl __HD { #f });
            let file = syn::File { shebang: None, attrs: vec![], items: vec![syn::Item::Impl(im)] };
            let t = prettyplease::unparse(&file);
            let t = t.trim_end();
            let inner = &t[t.find('{').unwrap() + 1..t.len() - 1];
            inner.to_string()
        } else {
            let f = syn::ItemFn {
                attrs: vec![],
                vis: syn::parse_quote!(pub),
                sig: sig2,
                block: Box::new(b2),
            };
            let file = syn::File { shebang: None, attrs: vec![], items: vec![syn::Item::Fn(f)] };
            prettyplease::unparse(&file)
        };
        let mut full = String::new();
        full.push_str(&format!("// @fn {} {}:{}\n", name, sf.file, sf.line));
        for at in &fo.attrs {
            full.push_str(at);
            full.push('\n');
        }
        full.push_str(&txt);
        full.push_str(&format!("// @endfn {name}\n"));
        let key = if imp.is_some() { imp.clone() } else { None };
        if !emitted.contains_key(&key) {
            impl_order.push(key.clone());
        }
        emitted.entry(key).or_default().push(full);
        fnmeta.push(format!(
            "{{\"name\":{},\"file\":{},\"line\":{},\"contracted\":{}}}",
            json_str(&name),
            json_str(&sf.file),
            sf.line,
            !uncontracted.contains(&name)
        ));
    }

    // frame: outside of the functions under contract, nothing changes the fields named by the unit
    let inlined: BTreeSet<String> = notes.iter().filter_map(|n| n.split(": helper ").nth(1)?.strip_suffix(" inlined").map(|s| s.to_string())).collect();
    for f in repo.fns.iter() {
        let name = match &f.imp {
            Some(i) => format!("{i}::{}", f.sig.ident),
            None => f.sig.ident.to_string(),
        };
        if queued.contains(&name) || inlined.contains(&name) {
            continue;
        }
        let mut v = FrameVisitor { frame: &ov.frame, unused: &ov.unused, found: vec![] };
        syn::visit::Visit::visit_block(&mut v, &f.block);
        for x in v.found {
            lost.push(format!("function frame: {name} ({}:{}) changes {x}", f.file, f.line));
        }
    }
    if !ov.frame.is_empty() || !ov.unused.is_empty() {
        notes.push(format!("frame: of {} functions, only those under contract change {:?}; none calls {:?}", repo.fns.len(), ov.frame, ov.unused));
    }

    let mut body = String::new();
    for key in &impl_order {
        match key {
            None => {
                for t in &emitted[key] {
                    body.push_str(t);
                    body.push('\n');
                }
            }
            Some(n) => {
                let hdr = ov.implhdr.get(n).cloned().unwrap_or(format!("impl {n}"));
                body.push_str(&format!("{hdr} {{\n"));
                // the associated constants of the type
                for (_, c) in repo.consts.iter().filter(|(t, _)| t == n) {
                    let mut c = c.clone();
                    c.attrs.clear();
                    c.vis = syn::parse_quote!(pub);
                    body.push_str(&format!("{}\n", c.to_token_stream()));
                }
                for t in &emitted[key] {
                    body.push_str(t);
                    body.push('\n');
                }
                body.push_str("}\n");
            }
        }
    }
    let body = overlay::substitute(&body, &ghosts);
    let mut out = String::new();
    out.push_str("// GENERATED by hd-extract; do not edit.\n#![allow(unused)]\n#![cfg_attr(verus_keep_ghost, feature(pattern))]\n");
    out.push_str("use vstd::prelude::*;\nverus! {\n");
    for l in &ov.libs {
        let p = format!("{cdir}/lib/{l}.rs");
        out.push_str(&format!("// ---- lib {l}\n"));
        out.push_str(&std::fs::read_to_string(&p).unwrap_or_else(|_| panic!("lib {p}")));
        out.push('\n');
    }
    out.push_str("// ---- items extracted from the repository\n");
    out.push_str(&items_txt);
    out.push_str("// ---- overlay\n");
    out.push_str(&ov.raw);
    out.push_str("// ---- functions extracted from the repository\n");
    out.push_str(&body);
    out.push_str("\n} // verus!\nfn main() {}\n");
    std::fs::write(out_rs, out).unwrap();
    let j = format!(
        "{{\"unit\":{},\"functions\":[{}],\"lost\":[{}],\"uncontracted\":[{}],\"notes\":[{}]}}\n",
        json_str(unit),
        fnmeta.join(","),
        lost.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        uncontracted.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(","),
        notes.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",")
    );
    std::fs::write(out_json, j).unwrap();
}

/// Finds what may change one of the fields: an assignment, a mutable borrow, or a call of a changing method.
struct FrameVisitor<'a> {
    frame: &'a BTreeSet<String>,
    unused: &'a BTreeSet<String>,
    found: Vec<String>,
}
impl<'a> FrameVisitor<'a> {
    fn place(&self, e: &syn::Expr) -> Option<String> {
        match e {
            syn::Expr::Field(f) => match &f.member {
                syn::Member::Named(n) if self.frame.contains(&n.to_string()) => Some(n.to_string()),
                _ => self.place(&f.base),
            },
            syn::Expr::Index(i) => self.place(&i.expr),
            syn::Expr::Paren(p) => self.place(&p.expr),
            syn::Expr::Unary(u) => self.place(&u.expr),
            _ => None,
        }
    }
}
const CHANGES: &[&str] = &[
    "push", "push_str", "insert", "insert_str", "clear", "truncate", "pop", "remove", "retain", "drain", "extend", "replace_range", "take", "replace",
    "get_or_insert", "get_or_insert_with", "as_mut", "split_off", "as_mut_str", "as_mut_string", "reserve", "iter_mut", "last_mut", "first_mut", "swap", "append",
    "write_str", "write_fmt", "write_char", "clone_from", "as_deref_mut",
];
impl<'a> syn::visit::Visit<'a> for FrameVisitor<'a> {
    fn visit_expr(&mut self, e: &'a syn::Expr) {
        let hit = match e {
            syn::Expr::Assign(a) => self.place(&a.left),
            syn::Expr::Binary(b) if b.op.to_token_stream().to_string().ends_with('=') && !matches!(b.op, syn::BinOp::Eq(_) | syn::BinOp::Ne(_) | syn::BinOp::Le(_) | syn::BinOp::Ge(_)) => {
                self.place(&b.left)
            }
            syn::Expr::Reference(r) if r.mutability.is_some() => self.place(&r.expr),
            syn::Expr::MethodCall(m) => {
                if self.unused.contains(&m.method.to_string()) {
                    Some(m.method.to_string())
                } else if CHANGES.contains(&m.method.to_string().as_str()) {
                    self.place(&m.receiver)
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(h) = hit {
            self.found.push(h);
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) {
        if p.by_ref.is_some() && p.mutability.is_some() {
            self.found.push("a pattern by mutable reference".into());
        }
        syn::visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'a syn::Macro) {
        // write!(self.field, ..)
        let t = m.tokens.to_string();
        if m.path.segments.last().is_some_and(|s| s.ident == "write" || s.ident == "writeln") {
            let first = t.split(',').next().unwrap_or("");
            if let Some(f) = self.frame.iter().find(|f| first.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == f.as_str())) {
                self.found.push(f.clone());
            }
        }
    }
}
