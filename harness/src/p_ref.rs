//! C14 reference links, C15 footnotes.
use crate::md::*;
use crate::p_block::{adjacent_lists, degenerate, first_diff, framed, frames, shape, shape_of};
use crate::p_text::{fmt, plain_opts, with_width};
use crate::util::*;
use hongdown::Options;

/// Links and images in order: kind, content, target.
fn links(n: &Node, v: &mut Vec<String>) {
    for k in &n.kids {
        if k.is("link") || k.is("image") {
            v.push(format!("{} {:?} -> {}", k.kind, collapse(&k.plain()), collapse_target(&k.text).replace('\0', " title ")));
        }
        links(k, v);
    }
}
fn label_of(s: &str) -> String {
    s.to_lowercase().split_whitespace().collect::<Vec<_>>().join(" ")
}
/// The lines of a document that are not in code or paragraphs, without what precedes them in their containers.
fn lines(out: &str) -> Vec<(usize, String)> {
    let d = parse(out);
    let code: Vec<(usize, usize)> = d.find_all("code_block").iter().chain(d.find_all("paragraph").iter()).map(|k| (k.line, k.end)).collect();
    out.split('\n')
        .enumerate()
        .map(|(i, l)| (i + 1, l.trim_start_matches([' ', '>', ':']).to_string()))
        .filter(|(i, _)| !code.iter().any(|c| c.0 <= *i && *i <= c.1))
        .collect()
}
/// Labels that are defined more than once, and definitions nobody reads.
fn definitions(out: &str) -> Option<String> {
    let mut seen: Vec<String> = vec![];
    for (_, l) in lines(out) {
        if let Some(r) = l.strip_prefix('[')
            && !l.starts_with("[^")
            && let Some((label, _)) = r.split_once("]: ")
            && !label.contains('[')
        {
            let k = label_of(label);
            if seen.contains(&k) {
                return Some(format!("label {label:?} is defined twice"));
            }
            seen.push(k);
        }
    }
    None
}

const TEXTS: &[&str] = &["text", "Text", "TEXT", "two words", "Two  Words", "*em*", "`code`", "a `b` c", "x", "1", "#1", "10", "2", "stra\u{df}e", "STRASSE", "\u{c9}t\u{e9}", "\u{e9}t\u{e9}", "T_a", "it's", "a.b", "**b** c", "x\\*y", "x\\]y", "![i](i.png)", "![Text][lab]"];
const LABELS: &[&str] = &["lab", "Lab", "LAB", "la b", "La  B", "1", "2", "10", "#3", "text", "two words", "x", "`code`", "*em*", "\u{c9}t\u{e9}", "note", "a.b", "x-y", "#12", "007", "stra\u{df}e", "STRASSE"];
const URLS: &[&str] = &["http://e.com/a", "http://e.com/b", "https://e.com/", "a.md", "#frag", "<a b>", "../x", "mailto:a@b.c", "http://e.com/a_(b)", "HTTP://E.COM/A", "http://e.com/?q=1&r=2"];
const TITLES: &[&str] = &["", "", "", " \"T\"", " \"U\"", " 'a \"b\" c'", " (p)"];

fn link(r: &mut Rng) -> String {
    let (t, l) = (*r.pick(TEXTS), *r.pick(LABELS));
    let b = if r.chance(1, 5) && !t.contains("![") { "!" } else { "" };
    match r.below(9) {
        0 | 1 => format!("{b}[{t}][{l}]"),
        2 => format!("{b}[{l}][]"),
        3 | 4 => format!("{b}[{l}]"),
        5 => format!("<{}>", r.pick(&["http://e.com/a", "mailto:a@b.c", "a@b.c", "https://e.com/"])),
        _ => format!("{b}[{}]({}{})", if r.chance(1, 3) { l } else { t }, r.pick(URLS), r.pick(TITLES)),
    }
}
fn paragraph(r: &mut Rng) -> String {
    let mut s = String::new();
    for k in 0..r.range(1, 5) {
        if k > 0 {
            s.push_str(r.pick(&[" ", " ", " and ", "\n", ", ", ".  ", " or\n"]));
        }
        if r.chance(1, 4) {
            s.push_str(r.pick(&["word", "more words here", "*emph*", "it", "see:"]));
        } else if r.chance(1, 9) {
            s.push_str(&format!("*see {}*", link(r)));
        } else {
            s.push_str(&link(r));
        }
    }
    s
}
fn definition(r: &mut Rng) -> String {
    format!("[{}]: {}{}", r.pick(LABELS), r.pick(URLS), r.pick(TITLES))
}
fn document(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..r.range(1, 5) {
        match r.below(10) {
            0 => s.push_str(&format!("## {}\n\n", paragraph(r).replace('\n', " "))),
            1 => s.push_str(&format!("> {}\n\n", paragraph(r).replace('\n', "\n> "))),
            2 => s.push_str(&format!(" -  {}\n -  {}\n\n", paragraph(r).replace('\n', "\n    "), paragraph(r).replace('\n', "\n    "))),
            3 => s.push_str(&format!("| a |\n| - |\n| {} |\n\n", link(r))),
            4 => s.push_str(&format!("### H\n\n{}\n\n", paragraph(r))),
            5 => {
                for _ in 0..r.range(1, 3) {
                    s.push_str(&definition(r));
                    s.push('\n');
                }
                s.push('\n');
            }
            6 => s.push_str(&format!("> {}\n>\n> {}\n\n", paragraph(r).replace('\n', "\n> "), definition(r))),
            7 => s.push_str(&format!("Term\n:   {}\n\n", paragraph(r).replace('\n', "\n    "))),
            _ => s.push_str(&format!("{}\n\n", paragraph(r))),
        }
    }
    s + &definitions_of(r)
}
/// Definitions of some labels, or of all of them in some order.
fn definitions_of(r: &mut Rng) -> String {
    if r.chance(1, 3) {
        return (0..r.range(1, 7)).map(|_| definition(r) + "\n").collect();
    }
    let k = r.below(LABELS.len());
    (0..LABELS.len()).map(|i| format!("[{}]: {}{}\n", LABELS[(i * 3 + k) % LABELS.len()], r.pick(URLS), r.pick(TITLES))).collect()
}

fn options() -> Vec<(&'static str, Options)> {
    let mut narrow = with_width(plain_opts(), 24);
    narrow.setext_h1 = false;
    vec![("", plain_opts()), (", narrow", narrow)]
}

pub fn c14(c: &mut Ctx) {
    for (name, o) in options() {
        let whole = |s: &str| -> Res {
            let d = parse(s);
            let mut a = vec![];
            links(&d, &mut a);
            if a.is_empty() || d.odd_brackets() || degenerate(&d) {
                return Res::Skip;
            }
            let out = fmt(s, &o);
            // comrak stops resolving references when their targets add up to more than the document
            if d.texts("link").iter().chain(d.texts("image").iter()).map(|t| t.len()).sum::<usize>() > out.len().min(s.len()) {
                return Res::Skip;
            }
            let e = parse(&out);
            let mut b = vec![];
            links(&e, &mut b);
            if a != b {
                return Res::Fail(format!("links {a:?} became {b:?}; output {out:?}"));
            }
            match definitions(&out) {
                Some(m) => Res::Fail(format!("{m}; output {out:?}")),
                None => Res::Ok(out.contains("]: ")),
            }
        };
        c.generated(&format!("links of a document with definitions{name}"), 20_000, &document, &whole);
        for f in frames() {
            c.generated(&format!("references in a {}{name}", f.0), 500, &|r| {
                let mut p = paragraph(r);
                if r.chance(1, 3) {
                    p = format!("{p}\n\n{}", definition(r));
                }
                format!("{}\n\n{}", framed(&f, r.chance(1, 2), &p), definitions_of(r))
            }, &whole);
        }
    }
}

const NAMES: &[&str] = &["1", "2", "10", "note", "n-1", "*", "a.b", "0", "x1", "\u{c9}t\u{e9}", "\u{df}", "long-name-of-a-note"];
const MORE_NAMES: &[&str] = &["Note", "\u{e9}t\u{e9}", "undefined", "NOTE", "3"];
const CONTENTS: &[&str] = &[
    "A note.", "A longer note with quite a few words in it, so that it is wrapped.", "*Emphasis* and `code`.", "See [this](a.md).", "See [that](http://e.com/a).", "See [lab].", "Two\nlines.", "Hard\\\nbreak.", "First.\n\nSecond.", "- a\n- b", "    code", "~~~~\ncode\n\ncode\n~~~~",
    "> quote", "Text\n\n- a\n\n  b", "# Heading", "[^2]", "See [^note].", "<b>x</b>", "1. a\n2. b", "| a |\n| - |\n| b |", "A `code span` and \\*escape\\*.", "http://e.com/x", "\u{6f22}\u{5b57}", "- a\n\n  > b\n\nc", "***\n\na",
];
fn noted(r: &mut Rng) -> String {
    let mut s = String::from(*r.pick(&["Some text", "Words", "*Emphasis*", "`code`", "A"]));
    for _ in 0..r.range(0, 3) {
        s.push_str(r.pick(&["", " ", " and", ", more", "\nnext"]));
        let names = if r.chance(1, 8) { MORE_NAMES } else { NAMES };
        s.push_str(&format!("[^{}]", r.pick(names)));
    }
    s.push_str(r.pick(&["", ".", " x."]));
    s
}
fn note_block(r: &mut Rng) -> String {
    match r.below(12) {
        0 => format!("## {}", noted(r).replace('\n', " ")),
        1 => format!("> {}", noted(r).replace('\n', "\n> ")),
        2 => format!(" -  {}\n -  {}", noted(r).replace('\n', "\n    "), noted(r).replace('\n', "\n    ")),
        3 => format!("| a | b |\n| - | - |\n| {} | x |", noted(r).replace('\n', " ")),
        4 => format!("Term\n:   {}", noted(r).replace('\n', "\n    ")),
        5 => format!("{}\n---", noted(r).replace('\n', " ")),
        6 => format!("> [!NOTE]\n> {}", noted(r).replace('\n', "\n> ")),
        7 => format!(" -  a\n\n    > {}\n\n    b", noted(r).replace('\n', "\n    > ")),
        8 => "***".to_string(),
        9 => "[lab]: http://e.com/l".to_string(),
        _ => noted(r),
    }
}
fn note(name: &str, content: &str) -> String {
    format!("[^{name}]: {}", content.split('\n').enumerate().map(|(i, l)| if i == 0 || l.is_empty() { l.to_string() } else { format!("    {l}") }).collect::<Vec<_>>().join("\n"))
}
/// (blocks, definitions, where the definitions stand among the blocks)
fn note_parts(r: &mut Rng) -> (Vec<String>, Vec<String>, Vec<usize>) {
    let b: Vec<String> = (0..r.range(1, 6)).map(|_| note_block(r)).collect();
    let k = r.below(NAMES.len());
    let n = r.range(1, NAMES.len());
    let d: Vec<String> = (0..n).map(|i| note(NAMES[(i * 3 + k) % NAMES.len()], *r.pick(CONTENTS))).collect();
    let w = d.iter().map(|_| r.below(b.len() + 1)).collect();
    (b, d, w)
}
fn note_document(b: &[String], d: &[String], w: &[usize]) -> String {
    let mut s = String::new();
    for i in 0..=b.len() {
        for (k, x) in d.iter().enumerate() {
            if w[k] == i {
                s.push_str(x);
                s.push_str("\n\n");
            }
        }
        if i < b.len() {
            s.push_str(&b[i]);
            s.push_str("\n\n");
        }
    }
    s
}
/// Referenced footnotes: name and content, in some order.
fn notes(d: &Node) -> Vec<String> {
    let mut v: Vec<String> = d
        .find_all("footnote")
        .iter()
        .map(|n| {
            let mut o = format!("{}:\n", n.text);
            n.kids.iter().for_each(|k| shape(k, &mut o, 1));
            o
        })
        .collect();
    v.sort();
    v
}
/// the names of the footnotes a text defines, as they are compared
fn note_names(s: &str) -> Vec<String> {
    s.split('\n')
        .filter_map(|l| l.trim_start_matches([' ', '>', ':']).strip_prefix("[^")?.split_once(']'))
        .filter(|(name, rest)| !name.is_empty() && rest.starts_with(':'))
        .map(|(name, _)| label_of(name))
        .collect()
}
/// Can a reader get to every footnote from the text? (comrak keeps those that are referenced by others it drops)
fn all_reachable(d: &Node) -> bool {
    let all = d.find_all("footnote");
    let mut v = vec![];
    outside(d, &mut v);
    let mut i = 0;
    while i < v.len() {
        let name = v[i].clone();
        for n in all.iter().filter(|n| label_of(&n.text) == name) {
            let mut w = vec![];
            outside(n, &mut w);
            for x in w {
                if !v.contains(&x) {
                    v.push(x);
                }
            }
        }
        i += 1;
    }
    all.iter().all(|n| v.contains(&label_of(&n.text)))
}
fn outside(n: &Node, v: &mut Vec<String>) {
    for k in n.kids.iter().filter(|k| !k.is("footnote")) {
        if k.is("footnote_ref") {
            v.push(label_of(&k.text));
        }
        outside(k, v);
    }
}
/// The references outside of footnotes.
fn refs(d: &Node) -> Vec<String> {
    let mut v = vec![];
    outside(d, &mut v);
    v
}
/// The text with all footnote definitions at its end.
fn at_the_end(s: &str, d: &Node) -> Option<String> {
    let l: Vec<&str> = s.split('\n').collect();
    let notes: Vec<&Node> = d.kids.iter().filter(|k| k.is("footnote")).collect();
    let of = |i: usize| notes.iter().any(|n| n.line <= i && i <= n.end);
    if notes.is_empty() || notes.iter().any(|n| n.end > l.len()) || d.find_all("footnote").len() != notes.len() {
        return None;
    }
    let mut t: Vec<&str> = (1..=l.len()).filter(|i| !of(*i)).map(|i| l[i - 1]).collect();
    let mut sorted = notes.clone();
    sorted.sort_by_key(|n| n.line);
    for n in sorted {
        t.push("");
        t.extend(&l[n.line - 1..n.end]);
    }
    t.push("");
    Some(t.join("\n"))
}

pub fn c15(c: &mut Ctx) {
    for (name, o) in options() {
        let whole = |s: &str| -> Res {
            let d = parse(s);
            let (a, x) = (notes(&d), refs(&d));
            // the reader drops a repeated definition, the formatter as well
            let defined = note_names(s);
            if a.is_empty() || d.odd_brackets() || degenerate(&d) || adjacent_lists(&d) || !all_reachable(&d) || (1..defined.len()).any(|k| defined[k..].contains(&defined[k - 1])) {
                return Res::Skip;
            }
            let out = fmt(s, &o);
            let e = parse(&out);
            let b = notes(&e);
            if a != b {
                return Res::Fail(format!("{}; output {out:?}", first_diff(&a.concat(), &b.concat())));
            }
            let y = refs(&e);
            if x != y {
                return Res::Fail(format!("references {x:?} became {y:?}; output {out:?}"));
            }
            // the reader drops repeated definitions, so count them in the text
            let n = note_names(&out).len();
            if n == a.len() { ok() } else { Res::Fail(format!("{} footnotes are defined {n} times; output {out:?}", a.len())) }
        };
        c.generated(&format!("footnotes of a document{name}"), 40_000, &|r| { let (b, d, w) = note_parts(r); note_document(&b, &d, &w) }, &whole);
        // where the definitions stand does not matter
        let moved = |s: &str| -> Res {
            let d = parse(s);
            let t = match at_the_end(s, &d) {
                Some(t) => t,
                None => return Res::Skip,
            };
            let defined = note_names(s);
            if d.odd_brackets() || degenerate(&d) || adjacent_lists(&d) || d.find_all("footnote").iter().any(|n| !refs(&d).contains(&label_of(&n.text))) || shape_of(s) != shape_of(&t) || (1..defined.len()).any(|k| defined[k..].contains(&defined[k - 1])) {
                return Res::Skip;
            }
            eq("with the definitions at the end", &fmt(&t, &o), &fmt(s, &o))
        };
        c.generated(&format!("place of the footnotes of a document{name}"), 20_000, &|r| { let (b, d, w) = note_parts(r); note_document(&b, &d, &w) }, &moved);
        for f in frames() {
            c.generated(&format!("footnote references in a {}{name}", f.0), 1000, &|r| {
                let p = noted(r);
                let d: String = NAMES.iter().map(|n| note(n, *r.pick(CONTENTS)) + "\n\n").collect();
                format!("{}\n\n{d}", framed(&f, r.chance(1, 2), &p))
            }, &whole);
        }
    }
}
