//! `hd-extract hooks REPO SPEC OUTDIR`: writes the contents of the verification hook modules.
//!
//! Every hook is a thin wrapper that calls one private function of the repository.  A wrapper is
//! only generated when the function exists with the expected parameter and result types;
//! otherwise it returns None and the harness skips the cases that need it.
use crate::{norm, Repo};
use quote::ToTokens;
use std::collections::BTreeMap;

pub struct Want {
    pub key: String,
    pub params: Vec<String>,
    pub ret: String,
}

/// parse `Type::name(T1; T2) -> R`
fn parse_want(s: &str) -> Want {
    let s = s.trim();
    let open = s.find('(').expect("hook spec: (");
    let (head, rest) = match s.rfind(" -> ") {
        Some(p) if s[..p].ends_with(')') => (&s[..p], s[p + 4..].trim().to_string()),
        _ => (s, String::new()),
    };
    let inner = &head[open + 1..head.len() - 1];
    Want {
        key: s[..open].trim().to_string(),
        params: inner.split(';').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect(),
        ret: rest,
    }
}

fn strip_lt(s: &str) -> String {
    // 'a lifetimes are irrelevant for matching
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().is_some_and(|c| c.is_alphanumeric() || *c == '_') {
                it.next();
            }
        } else {
            o.push(c);
        }
    }
    norm(&o)
}

fn matches(repo: &Repo, w: &Want, file: &str) -> bool {
    let Some(f) = repo.find_fn(&w.key, file) else { return false };
    if f.sig.asyncness.is_some() || f.sig.unsafety.is_some() {
        return false;
    }
    let mut ps = vec![];
    for i in &f.sig.inputs {
        match i {
            syn::FnArg::Receiver(r) => ps.push(norm(&r.to_token_stream().to_string())),
            syn::FnArg::Typed(t) => ps.push(strip_lt(&t.ty.to_token_stream().to_string())),
        }
    }
    let ret = match &f.sig.output {
        syn::ReturnType::Default => String::new(),
        syn::ReturnType::Type(_, t) => strip_lt(&t.to_token_stream().to_string()),
    };
    let wp: Vec<String> = w.params.iter().map(|p| strip_lt(p)).collect();
    ps == wp && ret == strip_lt(&w.ret)
}

fn full(t: &str) -> String {
    let mut t = t.to_string();
    for (a, b) in [("Options", "crate::Options"), ("TableAlignment", "comrak::nodes::TableAlignment")] {
        t = t.replace(a, b);
    }
    t
}

pub fn run(repo: &Repo, spec: &str, outdir: &str, empty: bool) {
    let text = std::fs::read_to_string(spec).expect("hook spec");
    let mods = [
        "lib", "serializer", "block", "code", "document", "heading", "inline", "link", "list", "punctuation", "state",
        "table", "wrap",
    ];
    let mut out: BTreeMap<String, String> = mods.iter().map(|m| (m.to_string(), String::new())).collect();
    let mut missing: Vec<String> = vec![];
    let mut cur = String::new();
    let mut last: Option<(String, String, String)> = None; // raw sig, body, module
    let file_of = |m: &str| match m {
        "lib" => "src/lib.rs".to_string(),
        "serializer" => "src/serializer/mod.rs".to_string(),
        m => format!("src/serializer/{m}.rs"),
    };
    for line in text.lines() {
        let l = line.trim();
        if l.is_empty() || l.starts_with("//") {
            continue;
        }
        if let Some(m) = l.strip_prefix("module ") {
            cur = m.trim().to_string();
        } else if let Some(r) = l.strip_prefix("raw ") {
            let (sig, body) = r.split_once(" => ").expect("raw =>");
            last = Some((sig.to_string(), body.to_string(), cur.clone()));
        } else if let Some(r) = l.strip_prefix("needs ") {
            let (sig, body, m) = last.take().expect("needs without raw");
            let ok = !empty && r.split(" & ").all(|w| matches(repo, &parse_want(w), &file_of(&m)));
            if !ok {
                missing.push(sig.clone());
            }
            let b = if ok { format!("Some({body})") } else { "None".into() };
            out.get_mut(&m).unwrap().push_str(&format!("#[allow(unused)]\n{sig} {{ {b} }}\n"));
        } else if let Some(r) = l.strip_prefix("fn ") {
            let w = parse_want(r);
            let ok = !empty && matches(repo, &w, &file_of(&cur));
            let name = w.key.split("::").last().unwrap();
            let args: Vec<String> = w.params.iter().enumerate().map(|(i, t)| format!("a{i}: {}", full(t))).collect();
            let call: Vec<String> = (0..w.params.len()).map(|i| format!("a{i}")).collect();
            let ret = if w.ret.is_empty() { "()".to_string() } else { full(&w.ret) };
            let path = match w.key.split_once("::") {
                Some((_, f)) => format!("crate::serializer::Serializer::{f}"),
                None => format!("super::{name}"),
            };
            if !ok {
                missing.push(w.key.clone());
            }
            let b = if ok { format!("Some({path}({}))", call.join(", ")) } else { "None".into() };
            out.get_mut(&cur).unwrap().push_str(&format!(
                "#[allow(unused)]\npub fn {name}({}) -> Option<{ret}> {{ {b} }}\n",
                args.join(", ")
            ));
        } else {
            panic!("hook spec line: {l}");
        }
    }
    let s = out.get_mut("serializer").unwrap();
    for m in ["block", "code", "document", "heading", "inline", "link", "list", "punctuation", "state", "table", "wrap"] {
        s.push_str(&format!("pub use super::{m}::verif as {m};\n"));
    }
    out.get_mut("lib").unwrap().push_str("pub use super::serializer::verif::*;\n");
    std::fs::create_dir_all(outdir).unwrap();
    for (m, t) in out {
        let p = format!("{outdir}/{m}.rs");
        if std::fs::read_to_string(&p).ok().as_deref() != Some(&t) {
            std::fs::write(&p, t).unwrap();
        }
    }
    std::fs::write(format!("{outdir}/missing.txt"), missing.join("\n")).unwrap();
}
