//! C03 code blocks, C04 tables, C12 no panic and exact source slices, C13 directives, C16 lists,
//! C17 block structure.
use crate::md::*;
use crate::p_text::{fmt, plain_opts, with_width};
use crate::util::*;
use hongdown::Options;
use hongdown::verif as hk;

/// A container: (name, text before it, prefix of its first line, prefix of its other lines)
pub type Frame = (&'static str, &'static str, &'static str, &'static str);
pub fn frames() -> Vec<Frame> {
    vec![
        ("document", "", "", ""),
        ("quote", "", "> ", "> "),
        ("list item", "", " -  ", "    "),
        ("ordered list item", "", "1.  ", "    "),
        ("nested list item", " -  a\n\n", "     -  ", "        "),
        ("task", "", " -  [x] ", "    "),
        ("definition", "term\n\n", ":   ", "    "),
        ("alert", "> [!NOTE]\n", "> ", "> "),
        ("footnote", "x[^1]\n\n", "[^1]: ", "    "),
        ("quote in a list item", "", " -  > ", "    > "),
        ("list item in a quote", "", "> -  ", ">    "),
        ("quote in a quote", "", "> > ", "> > "),
    ]
}
/// put the lines of a block into a container, after a first paragraph if `lead`
pub fn framed(f: &Frame, lead: bool, body: &str) -> String {
    let mut o = String::from(f.1);
    let mut first = true;
    let mut all: Vec<String> = vec![];
    if lead {
        all.push("lead".into());
        all.push(String::new());
    }
    all.extend(body.split('\n').map(|s| s.to_string()));
    for l in all {
        let p = if first { f.2 } else { f.3 };
        first = false;
        if l.is_empty() {
            o.push_str(p.trim_end());
        } else {
            o.push_str(p);
            o.push_str(&l);
        }
        o.push('\n');
    }
    o
}

/// code blocks with the kinds of their containers
pub fn code_blocks(d: &Node) -> Vec<String> {
    fn go(n: &Node, path: &str, out: &mut Vec<String>) {
        if n.is("code_block") {
            // a block that is not closed has no line end after its last line
            let t = if n.text.ends_with('\n') || n.text.ends_with('\0') { n.text.clone() } else { format!("{}\n", n.text) };
            out.push(format!("{path}: {t:?}"));
        }
        let p = match n.kind.as_str() {
            "document" | "dl" | "di" => path.to_string(),
            k => format!("{path}/{k}"),
        };
        for c in &n.kids {
            go(c, &p, out);
        }
    }
    let mut v = vec![];
    go(d, "", &mut v);
    v
}

pub fn code_opts() -> Vec<Options> {
    let mut v = vec![];
    for (k, (fc, min, sp)) in [("`", 3, true), ("~", 4, true), ("`", 4, false), ("~", 3, false), ("`", 7, true)].iter().enumerate() {
        let mut o = plain_opts();
        o.fence_char = if *fc == "`" { hongdown::FenceChar::Backtick } else { hongdown::FenceChar::Tilde };
        o.min_fence_length = hongdown::MinFenceLength::new(*min).unwrap();
        o.space_after_fence = *sp;
        if k == 2 {
            o.default_language = "text".into();
        }
        v.push(o);
    }
    v
}

pub fn c03(c: &mut Ctx) {
    let opts = code_opts();
    // the writer, read back line by line
    for (k, o) in opts.iter().enumerate() {
        let fc = o.fence_char.as_char();
        for which in 0..3u8 {
            let f = |s: &str| -> Res {
                let (info, lit) = s.split_once('\n').unwrap_or(("", s));
                let fc = if info.contains('`') { '~' } else { fc };
                let lit = if lit.is_empty() { String::new() } else { format!("{lit}\n") };
                let ind = if which == 0 { "" } else { "    " };
                let Some(r) = hk::code::code_block(o, which, info, &lit, ind) else { return Res::Skip };
                let want_info = if info.trim().is_empty() { o.default_language.as_str() } else { info.trim() };
                let lines: Vec<&str> = r.strip_suffix('\n').unwrap_or(&r).split('\n').collect();
                let n = lines[0].chars().take_while(|c| *c == fc).count();
                let bad = |m: &str| Res::Fail(format!("{m}: info {info:?}, code {lit:?} was written as {r:?}"));
                if n < o.min_fence_length.get() {
                    return bad("fence too short");
                }
                if lines[0][n..].trim() != want_info {
                    return bad("info string changed");
                }
                if lines.len() < 2 || lines[lines.len() - 1] != format!("{ind}{}", fc.to_string().repeat(n)) {
                    return bad("no closing fence");
                }
                let mut back = String::new();
                for l in &lines[1..lines.len() - 1] {
                    let t = if l.is_empty() {
                        ""
                    } else if let Some(t) = l.strip_prefix(ind) {
                        t
                    } else {
                        return bad("line not indented");
                    };
                    let tt = t.trim_start_matches([' ', '\t']);
                    let m = tt.chars().take_while(|c| *c == fc).count();
                    if m >= n && tt[m..].trim().is_empty() {
                        return bad("a line of the code closes the block");
                    }
                    back.push_str(t);
                    back.push('\n');
                }
                if back != lit { bad("code changed") } else { Res::Ok(lit.contains(fc)) }
            };
            let what = format!("writing a code block (writer {which}, options {k})");
            if k < 2 {
                c.exhaustive(&what, &format!("a{fc} \n"), c.len(7), &f);
            }
            c.random(&what, &format!("ab{fc}{fc}{fc}~` \t\n\n>-é"), 40, 8_000, &f);
        }
    }
    let info = |s: &str| -> Res {
        let Some(r) = hk::code::parse_code_info(s) else { return Res::Skip };
        let t = s.trim();
        let want = (t.split_whitespace().next().unwrap_or(""), t, t.split_whitespace().any(|w| w == "hongdown-no-format"));
        if r == want { Res::Ok(!t.is_empty()) } else { Res::Fail(format!("info {s:?} was read as {r:?}")) }
    };
    c.random("reading an info string", "ab {}=\t", 20, 5_000, &info);
    c.random("reading any info string", " !\"#$%&'()*+,-./09:;<=>?@AZ[\\]^_`az{|}~\té漢\u{a0}", 12, 20_000, &info);
    c.generated("reading an info string with keywords", 5_000, &|r| (0..r.below(5)).map(|_| *r.pick(&["rust", " ", "hongdown-no-format", "  ", "{a}", "x-", "\t"])).collect(), &info);
    // whole documents
    let body = |r: &mut Rng| -> String {
        let fc = *r.pick(&['`', '~']);
        let n = r.range(3, 6);
        let mut lines = vec![];
        for _ in 0..r.below(5) {
            lines.push(
                (0..r.range(0, 4)).map(|_| *r.pick(&["a", " ", "```", "~~~", "`", "> q", "- x", "    ", "# h", "1. ", "<b>", "\\*", "&amp;", "[x]: y", "~~~~", "````", "|a|b|", "\t", "é漢", "*"])).collect::<String>(),
            );
        }
        if r.chance(1, 5) {
            // indented code
            let mut l: Vec<String> = lines.iter().map(|l| format!("    {l}")).collect();
            l.insert(0, "    code".into());
            return l.join("\n");
        }
        let f = fc.to_string().repeat(n);
        let info = *r.pick(&["", "rust", " rust ", "rust,ignore", "a b=c", "{.x #y}", "js hongdown-no-format", "text&amp;x", "é", "rust,", "c++", "c#", "f#;", "a.", "{x}", "x\\*", "#!a", "-", ":a:"]);
        let mut s = format!("{f}{info}\n");
        for l in &lines {
            s.push_str(l);
            s.push('\n');
        }
        if r.chance(9, 10) {
            s.push_str(&f);
        } else {
            s.pop();
        }
        s
    };
    for f in frames() {
        for lead in [false, true] {
            for (k, o) in opts.iter().enumerate() {
                let whole = |s: &str| -> Res {
                    let a = code_blocks(&parse(s));
                    if a.is_empty() {
                        return Res::Skip;
                    }
                    let out = fmt(s, o);
                    let b = code_blocks(&parse(&out));
                    let norm = |v: &Vec<String>| -> Vec<String> {
                        v.iter().map(|x| if o.default_language.is_empty() { x.clone() } else { x.replace(": \"\\0", &format!(": \"{}\\0", o.default_language)) }).collect()
                    };
                    if norm(&a) == b { ok() } else { Res::Fail(format!("code blocks {a:?} became {b:?}; output {out:?}")) }
                };
                c.generated(
                    &format!("code block in a {}{}, options {k}", f.0, if lead { " after a paragraph" } else { "" }),
                    300,
                    &|r| {
                        let mut s = framed(&f, lead, &body(r));
                        if r.chance(1, 3) {
                            s.push_str("\nafter\n");
                        }
                        s
                    },
                    &whole,
                );
            }
        }
    }
}

/// Canonical form of a block tree, for comparing the input with the output.
pub fn shape(n: &Node, o: &mut String, d: usize) {
    let pad = "  ".repeat(d);
    match n.kind.as_str() {
        "paragraph" => o.push_str(&format!("{pad}paragraph {:?}\n", n.inline())),
        "heading" => o.push_str(&format!("{pad}heading {} {:?}\n", n.text, collapse(&n.inline().replace("\u{2}BR\u{3}", " ")))),
        "cell" => o.push_str(&format!("{pad}cell {:?}\n", n.inline())),
        "code_block" => {
            let t = if n.text.ends_with('\n') || n.text.ends_with('\0') { n.text.clone() } else { format!("{}\n", n.text) };
            o.push_str(&format!("{pad}code {t:?}\n"));
        }
        "html_block" => {
            let t: Vec<&str> = n.text.trim_end().split('\n').map(|l| l.trim()).collect();
            o.push_str(&format!("{pad}html {t:?}\n"));
        }
        "front_matter" => o.push_str(&format!("{pad}front matter {:?}\n", n.text.trim_end())),
        "bullet_list" | "ordered_list" => {
            o.push_str(&format!("{pad}{}\n", n.kind));
            n.kids.iter().for_each(|c| shape(c, o, d + 1));
        }
        _ => {
            o.push_str(&format!("{pad}{} {}\n", n.kind, n.text));
            n.kids.iter().for_each(|c| shape(c, o, d + 1));
        }
    }
}
/// two lists of the same kind side by side become one list: recorded as a known finding
pub fn adjacent_lists(n: &Node) -> bool {
    n.kids.windows(2).any(|w| w[0].kind == w[1].kind && w[0].kind.ends_with("_list")) || n.kids.iter().any(adjacent_lists)
}
/// empty items and definitions, and lists that start on the line of another list's marker: not covered
pub fn degenerate(n: &Node) -> bool {
    let item = matches!(n.kind.as_str(), "item" | "task" | "dd" | "dt");
    // an alert at the start of a definition: a known finding
    (n.kind == "dd" && !n.kids.is_empty() && n.kids[0].kind == "alert") ||
    (item && (n.kids.is_empty() || n.kids[0].kind.ends_with("_list"))) || n.kids.iter().any(degenerate)
}
pub fn shape_of(s: &str) -> String {
    let d = parse(s);
    let mut o = String::new();
    // comrak moves footnotes to the end, in the order of their first reference
    shape(&d, &mut o, 0);
    o
}
pub fn first_diff(a: &str, b: &str) -> String {
    let (x, y): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    for k in 0..x.len().max(y.len()) {
        if x.get(k) != y.get(k) {
            return format!("{} became {}", x.get(k).unwrap_or(&"(nothing)").trim(), y.get(k).unwrap_or(&"(nothing)").trim());
        }
    }
    String::new()
}

const WORDS: &[&str] = &[
    "alpha", "beta", "gamma", "`code x`", "*em*", "**strong text**", "[link](target.md)", "<b>x</b>", "a_b", "1.", "- ", "+", "#", "漢字", "é", "\\*lit\\*", "&amp;", "http\\://x", "![img](p.png)", "it", "is", "longerwordhere", "C:\\\\x", "x|y", "(paren)", "end.", "`` ` ``", "<!-- c -->", "\\[z\\]", "1)", "=",
];
pub fn words(r: &mut Rng, n: usize) -> String {
    let mut s = String::from(*r.pick(&["Start", "alpha", "*em*", "`code`", "text", "[link](t.md \"title\")", "A"]));
    for _ in 0..r.below(n) {
        s.push(if r.chance(1, 8) { '\n' } else { ' ' });
        s.push_str(r.pick(WORDS));
    }
    // spaces at line ends would make hard breaks
    s.split('\n').map(|l| l.trim()).filter(|l| !l.is_empty()).collect::<Vec<_>>().join("\n")
}
fn indent(s: &str, first: &str, rest: &str) -> String {
    s.split('\n')
        .enumerate()
        .map(|(k, l)| {
            let p = if k == 0 { first } else { rest };
            if l.is_empty() { p.trim_end().to_string() } else { format!("{p}{l}") }
        })
        .collect::<Vec<_>>()
        .join("\n")
}
pub struct Gen {
    pub lists: bool,
    pub quotes: bool,
    pub dls: bool,
    pub tables: bool,
    pub html: bool,
    pub width: usize,
}
pub fn gen_block(r: &mut Rng, g: &Gen, depth: usize, tight: bool) -> String {
    let k = r.below(if depth == 0 { 8 } else { 14 });
    match k {
        0..=2 => words(r, g.width),
        3 => {
            if r.chance(1, 2) {
                format!("{} {}", "#".repeat(r.range(1, 6)), words(r, 6).replace('\n', " "))
            } else {
                format!("{}\n{}", words(r, 6).replace('\n', " "), r.pick(&["===", "---"]))
            }
        }
        4 => {
            let f = *r.pick(&["```", "~~~~"]);
            let mut s = format!("{f}{}", r.pick(&["", "rust", " x y"]));
            for _ in 0..r.below(4) {
                s.push('\n');
                s.push_str(r.pick(&["code", "  indented", "", "> q", "- x", "# h", "```", "\ttab", "a  b"]));
            }
            let body: Vec<&str> = s.split('\n').filter(|l| *l != f).collect();
            format!("{}\n{f}", body.join("\n"))
        }
        5 => r.pick(&["---", "***", "* * *", "___"]).to_string(),
        6 if g.tables => gen_table(r),
        7 if g.html => {
            let s = *r.pick(&["<div>\nx\n</div>", "<!-- a comment -->", "<p align=\"center\">text</p>", "<details>\n<summary>s</summary>\n</details>", "<!-- two\nlines -->"]);
            s.to_string()
        }
        8 | 9 if g.quotes => {
            let b = gen_blocks(r, g, depth - 1, 3);
            indent(&b, "> ", "> ")
        }
        10 if g.quotes => {
            let b = gen_blocks(r, g, depth - 1, 3);
            format!("> [!{}]\n{}", r.pick(&["NOTE", "TIP", "WARNING", "IMPORTANT", "CAUTION"]), indent(&b, "> ", "> "))
        }
        11 | 12 if g.lists => gen_list(r, g, depth, tight),
        13 if g.dls => {
            let mut s = vec![];
            for _ in 0..r.range(1, 2) {
                let b = if r.chance(1, 6) { gen_block(r, &Gen { lists: false, quotes: g.quotes, dls: false, tables: g.tables, html: g.html, width: g.width }, 1, false) } else if r.chance(1, 2) { words(r, g.width) } else { format!("{}\n\n{}", words(r, g.width), gen_blocks(r, g, depth - 1, 2)) };
                s.push(format!("{}\n\n{}", words(r, 4).replace('\n', " "), indent(&b, ":   ", "    ")));
            }
            s.join("\n\n")
        }
        _ => words(r, g.width),
    }
}
pub fn gen_list(r: &mut Rng, g: &Gen, depth: usize, tight: bool) -> String {
    let n = r.range(1, 4);
    let ordered = r.chance(1, 3);
    let task = !ordered && r.chance(1, 4);
    let loose = !tight && r.chance(1, 3);
    let m = *r.pick(&["- ", "* ", "+ ", " -  ", "-   "]);
    let mut items = vec![];
    for k in 0..n {
        let marker = if ordered { format!("{}. ", k + 1) } else { m.to_string() };
        let ind = " ".repeat(marker.len());
        let mut b = if task && r.chance(3, 4) { format!("[{}] {}", r.pick(&["x", " ", "X"]), words(r, g.width)) } else { words(r, g.width) };
        if !b.starts_with('[') && r.chance(1, 10) && depth > 0 {
            b = gen_block(r, g, depth - 1, false);
        }
        if depth > 0 && r.chance(1, 3) {
            if r.chance(1, 2) {
                b.push('\n');
                b.push_str(&gen_list(r, g, depth - 1, true));
            } else {
                b.push_str("\n\n");
                b.push_str(&gen_blocks(r, g, depth - 1, 2));
            }
        }
        items.push(indent(&b, &marker, &ind));
    }
    items.join(if loose { "\n\n" } else { "\n" })
}
pub fn gen_blocks(r: &mut Rng, g: &Gen, depth: usize, n: usize) -> String {
    (0..r.range(1, n)).map(|_| gen_block(r, g, depth, false)).collect::<Vec<_>>().join("\n\n")
}
pub fn gen_table(r: &mut Rng) -> String {
    let cols = r.range(1, 4);
    let cell = |r: &mut Rng| -> String {
        let n = r.below(4);
        (0..n)
            .map(|_| *r.pick(&["a", "bb", "`c`", "*e*", "\\|", "`x\\|y`", "漢字", "é", "[l](u.md)", "longer text", "1", "\\\\", "**s**", "&amp;", "<b>t</b>", "-", ":"]))
            .collect::<Vec<_>>()
            .join(" ")
    };
    let lead = r.chance(5, 6);
    let row = |c: Vec<String>| -> String { if lead || cols == 1 { format!("| {} |", c.join(" | ")) } else { c.join(" | ") } };
    let mut s = vec![];
    let mut h: Vec<String> = (0..cols).map(|_| cell(r)).collect();
    if h[0].is_empty() {
        h[0] = "h".into();
    }
    s.push(row(h));
    s.push(row((0..cols).map(|_| r.pick(&["---", ":--", "--:", ":-:", "-"]).to_string()).collect()));
    for _ in 0..r.below(4) {
        let mut c: Vec<String> = (0..cols).map(|_| cell(r)).collect();
        if c[0].is_empty() || c[0] == "-" || c[0] == ":" || c[0] == "1" {
            c[0] = "x".into();
        }
        if r.chance(1, 10) {
            c.pop();
        }
        s.push(row(c));
    }
    s.join("\n")
}

pub fn c17(c: &mut Ctx) {
    let mut opts = vec![plain_opts(), with_width(plain_opts(), 30)];
    let mut o = plain_opts();
    o.setext_h1 = false;
    o.setext_h2 = false;
    o.fence_char = hongdown::FenceChar::Backtick;
    opts.push(o);
    for (k, o) in opts.iter().enumerate() {
        let whole = |s: &str, strict: bool| -> Res {
            if !s.ends_with('\n') {
                return Res::Skip;
            }
            let d = parse(s);
            if strict && (adjacent_lists(&d) || degenerate(&d)) {
                return Res::Skip;
            }
            let a = shape_of(s);
            let out = fmt(s, o);
            let b = shape_of(&out);
            if a == b { Res::Ok(a.lines().count() > 3) } else { Res::Fail(format!("{}; output {out:?}", first_diff(&a, &b))) }
        };
        for (name, g) in [
            ("blocks", Gen { lists: false, quotes: false, dls: false, tables: true, html: true, width: 14 }),
            ("quotes", Gen { lists: false, quotes: true, dls: false, tables: true, html: true, width: 14 }),
            ("lists", Gen { lists: true, quotes: false, dls: false, tables: true, html: true, width: 14 }),
            ("lists and quotes", Gen { lists: true, quotes: true, dls: false, tables: true, html: true, width: 14 }),
            ("definitions", Gen { lists: false, quotes: false, dls: true, tables: true, html: true, width: 14 }),
            ("everything", Gen { lists: true, quotes: true, dls: true, tables: true, html: true, width: 14 }),
        ] {
            c.generated(&format!("structure of documents with {name}, options {k}"), 1500, &|r| format!("{}\n", gen_blocks(r, &g, 3, 5)), &|s| whole(s, true));
        }
        c.generated(&format!("structure of nested definitions, options {k}"), 400, &|r| {
            let g = Gen { lists: true, quotes: true, dls: true, tables: false, html: false, width: 6 };
            let mut s = format!("{}\n\n:   {}\n", words(r, 2).replace('\n', " "), words(r, 3).replace('\n', " "));
            let inner = format!("{}\n\n{}", words(r, 2).replace('\n', " "), indent(&gen_blocks(r, &g, 1, 2), ":   ", "    "));
            for _ in 0..r.range(1, 3) {
                let b = match r.below(4) {
                    0 | 1 => inner.clone(),
                    2 => gen_list(r, &g, 2, false),
                    _ => gen_block(r, &g, 2, false),
                };
                s.push_str(&format!("\n{}\n", indent(&b, "    ", "    ")));
            }
            s
        }, &|s| whole(s, true));
        if k == 0 {
            // known finding: lists that differ only in their marker become one
            c.check("lists side by side", "- a\n\n* b\n", &|s| whole(s, false));
            // known finding: an alert at the start of a definition is put on the line after the marker
            c.check("an alert at the start of a definition", "t\n: > [!TIP]\n  > x\n", &|s| whole(s, false));
        }
    }
}
