//! C01 plain text, C02 code spans, C18 link destinations and titles.
use crate::md::*;
use crate::util::*;
use hongdown::Options;
use hongdown::verif as hk;

pub fn plain_opts() -> Options {
    Options {
        curly_double_quotes: false,
        curly_single_quotes: false,
        curly_apostrophes: false,
        ellipsis: false,
        en_dash: hongdown::DashSetting::Disabled,
        em_dash: hongdown::DashSetting::Disabled,
        ..Options::default()
    }
}
pub fn fmt(s: &str, o: &Options) -> String {
    hongdown::format(s, o).unwrap()
}
pub fn widths() -> [usize; 4] {
    [200, 80, 24, 9]
}
pub fn with_width(mut o: Options, w: usize) -> Options {
    if let Ok(w) = hongdown::LineWidth::new(w) {
        o.line_width = w;
    }
    o
}

fn only_text(n: &Node) -> bool {
    matches!(n.kind.as_str(), "text" | "softbreak") && n.kids.is_empty()
}
/// the text of a document that is one paragraph of plain text
fn plain_paragraph(s: &str) -> Option<String> {
    let d = parse(s);
    if d.kids.len() != 1 || !d.kids[0].is("paragraph") || !d.kids[0].kids.iter().all(only_text) {
        return None;
    }
    Some(collapse(&d.kids[0].plain()))
}

pub fn c01(c: &mut Ctx) {
    let esc = |t: &str| -> Res {
        let Some(r) = hk::escape_text(t) else { return Res::Skip };
        if md_unesc(&r) != t {
            return Res::Fail(format!("escaped to {r:?}, which reads back as {:?}", md_unesc(&r)));
        }
        match live_markup(&r) {
            Some(m) => Res::Fail(format!("escaped to {r:?}, which has a live {m:?}")),
            None => Res::Ok(t.chars().any(is_punct)),
        }
    };
    let l = c.len(6);
    c.exhaustive("escaping plain text", "a*_`\\[](", l.min(5), &esc);
    c.random("escaping plain text", "ab \t*_`\\[]()!#<>&;{}|~é漢\u{0}", 40, 40_000, &esc);

    // escapes and entities of the source
    let src = |s: &str| -> Res {
        let (text, source) = match s.split_once('\u{1}') {
            Some(x) => x,
            None => return Res::Skip,
        };
        let Some(r) = hk::inline::escape_text_preserving_source(text, source, &plain_opts()) else { return Res::Skip };
        pieces(text, &r)
    };
    c.exhaustive("escaping with source escapes (text, U+0001, source)", "a*\\&;\u{1}", c.len(6), &src);
    c.generated(
        "escaping with source escapes",
        40_000,
        &|r| {
            let items = ["a", "b", "*", "\\*", "_", "\\_", "\\\\", "&", "&amp;", "&lt;", "&#42;", "&#x2a;", "\\&", ";", "é", "[", "\\[", "]", "(", "`", "\\`", "&copy;", " ", "amp;", "\\a", "<", "\\<", "#"];
            let mut src = String::new();
            let mut txt = String::new();
            for _ in 0..r.range(1, 8) {
                let x = *r.pick(&items);
                if !r.chance(1, 12) {
                    src.push_str(x);
                }
                if !r.chance(1, 12) {
                    txt.push_str(&decode(x));
                }
            }
            format!("{txt}\u{1}{src}")
        },
        &src,
    );
    // an aligned source keeps its spelling and the output decodes to the text
    let aligned = |s: &str| -> Res {
        let text = decode(s);
        let Some(r) = hk::inline::escape_text_preserving_source(&text, s, &plain_opts()) else { return Res::Skip };
        if decode(&r) != text {
            return Res::Fail(format!("source {s:?} reads as {text:?}, but the output {r:?} reads as {:?}", decode(&r)));
        }
        match live_markup(&r) {
            Some(m) => Res::Fail(format!("output {r:?} has a live {m:?}")),
            None => ok(),
        }
    };
    c.generated(
        "escaping an aligned source",
        40_000,
        &|r| {
            let items = ["a", "\\*", "\\_", "\\\\", "\\&", "&amp;", "&lt;", "&#42;", "&#x2A;", "&#38;", ";", "é", "\\[", "\\]", "(", "\\`", "&copy;", " ", "amp;", "\\<", "#", "\\;", "&notin;", "&quot;", "\\\""];
            (0..r.range(1, 9)).map(|_| *r.pick(&items)).collect()
        },
        &aligned,
    );

    // the whole formatter on paragraphs of plain text
    for w in [200, 24] {
        let o = with_width(plain_opts(), w);
        let whole = |s: &str| -> Res {
            let s = &format!("{s}\n");
            let Some(t) = plain_paragraph(s) else { return Res::Skip };
            if t.contains("*[") {
                return Res::Skip; // abbreviation definitions are copied from the source
            }
            let out = fmt(s, &o);
            match plain_paragraph(&out) {
                Some(u) if u == t => Res::Ok(t.chars().any(is_punct)),
                Some(u) => Res::Fail(format!("text {t:?} became {u:?} (output {out:?})")),
                None => Res::Fail(format!("text {t:?} is no longer plain text in {out:?}")),
            }
        };
        if w == 200 {
            c.exhaustive("formatting plain text", "a *_\\`&[]", c.len(5), &whole);
        }
        c.random("formatting plain text", "aab  *_`\\[]()!#<>&;.-+~:\"'=|{}$%^,/?@1é漢", 24, 60_000, &whole);
        c.generated(
            "formatting words of plain text",
            30_000,
            &|r| {
                let items = [
                    "word", "a", "\\*a\\*", "snake_case", "2 * 3", "\\[x\\](y)", "[x]", "&amp;lt;", "&lt;b&gt;", "\\<b>", "a\\_b", "\\`c\\`", "C:\\\\dir", "C:\\dir", "\\#", "1\\.", "\\-", "x]", "[[y]]", "\\[^1\\]", "!\\[z\\](u)", "&copy;", "\\&copy;", "\\\\", "\\~\\~\\~", "~", "a\nb", "* b", "_", "\\!", "漢字",
                    "\"q\"", "it's", "...", "--", "&#35;", "&nbsp;", "http\\://x", "\\|", "\\$", "*",
                ];
                let mut s = String::from("start");
                for _ in 0..r.range(1, 12) {
                    s.push_str(if r.chance(1, 5) { "" } else if r.chance(1, 8) { "\n" } else { " " });
                    s.push_str(r.pick(&items));
                }
                s
            },
            &whole,
        );
    }
}

/// decode escapes and entities
pub fn decode(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    let mut i = 0;
    while i < c.len() {
        if c[i] == '\\' && i + 1 < c.len() && is_punct(c[i + 1]) {
            o.push(c[i + 1]);
            i += 2;
        } else if let Some((n, d)) = entity_at(&c, i) {
            o.push_str(&d);
            i += n;
        } else {
            o.push(c[i]);
            i += 1;
        }
    }
    o
}

/// the output is a sequence of spellings (the char, its backslash escape, an entity) of the text's chars
fn pieces(text: &str, out: &str) -> Res {
    let t: Vec<char> = text.chars().collect();
    let o: Vec<char> = out.chars().collect();
    // positions in o reachable after i chars of t
    let mut cur = vec![0usize];
    for ch in &t {
        let mut next = vec![];
        for p in &cur {
            let p = *p;
            if o.get(p) == Some(ch) && !matches!(ch, '*' | '_' | '`' | '\\') {
                next.push(p + 1);
            }
            if o.get(p) == Some(&'\\') && o.get(p + 1) == Some(ch) && is_punct(*ch) {
                next.push(p + 2);
            }
            if let Some((n, d)) = entity_at(&o, p) {
                if d == ch.to_string() {
                    next.push(p + n);
                }
            }
        }
        next.sort();
        next.dedup();
        if next.is_empty() {
            return Res::Fail(format!("text {text:?} was written as {out:?}"));
        }
        cur = next;
    }
    if cur.contains(&o.len()) { ok() } else { Res::Fail(format!("text {text:?} was written as {out:?}")) }
}

/// what a CommonMark reader makes of a code span: (literal, rest)
pub fn read_code_span(s: &str) -> Option<(String, String)> {
    let c: Vec<char> = s.chars().collect();
    let n = c.iter().take_while(|x| **x == '`').count();
    if n == 0 {
        return None;
    }
    let mut i = n;
    while i < c.len() {
        if c[i] == '`' {
            let m = c[i..].iter().take_while(|x| **x == '`').count();
            if m == n {
                let body: Vec<char> = c[n..i].iter().map(|x| if *x == '\n' { ' ' } else { *x }).collect();
                let strip = body.len() >= 2
                    && body[0] == ' '
                    && body[body.len() - 1] == ' '
                    && body.iter().any(|x| *x != ' ');
                let b = if strip { &body[1..body.len() - 1] } else { &body[..] };
                return Some((b.iter().collect(), c[i + n..].iter().collect()));
            }
            i += m;
        } else {
            i += 1;
        }
    }
    None
}

/// write a code span by the CommonMark rules (reference implementation for inputs)
pub fn write_code_span(t: &str) -> String {
    let mut n = 1;
    loop {
        let f = "`".repeat(n);
        for pad in ["", " "] {
            let s = format!("{f}{pad}{t}{pad}{f}");
            if read_code_span(&s) == Some((t.to_string(), String::new())) {
                return s;
            }
        }
        n += 1;
    }
}

pub fn c02(c: &mut Ctx) {
    let f = |t: &str| -> Res {
        if t.is_empty() || t.contains('\n') {
            return Res::Skip;
        }
        let Some(r) = hk::format_code_span(t) else { return Res::Skip };
        match read_code_span(&r) {
            Some((b, rest)) if b == t && rest.is_empty() => Res::Ok(t.contains('`') || t.contains(' ')),
            x => Res::Fail(format!("{t:?} was written as {r:?}, which reads back as {x:?}")),
        }
    };
    c.exhaustive("writing a code span", "a` ", c.len(9), &f);
    c.random("writing a code span", "ab`` \\*[|é", 60, 40_000, &f);
    // whole documents
    let frames: Vec<(&str, &str, &str)> = vec![
        ("paragraph", "before ", " after\n"),
        ("heading", "### Title ", "\n"),
        ("setext heading", "", " title\n===\n"),
        ("list item", " -  item ", " end\n"),
        ("nested list", " -  a\n     -  item ", " end\n"),
        ("quote", "> quoted ", " end\n"),
        ("emphasis", "*em ", " em*\n"),
        ("strong", "**em ", " em**\n"),
        ("link text", "[link ", " text](target.md)\n"),
        ("table cell", "| a | b |\n|---|---|\n| ", " | c |\n"),
        ("footnote", "x[^1]\n\n[^1]: note ", " end\n"),
        ("definition", "term\n\n:   def ", " end\n"),
        ("alert", "> [!NOTE]\n> note ", " end\n"),
    ];
    for w in [120, 20] {
        for sc in [false, true] {
            let mut o = with_width(plain_opts(), w);
            o.heading_sentence_case = sc;
            if sc {
                o.setext_h1 = false;
                o.setext_h2 = false;
            }
            for (name, pre, post) in &frames {
                let whole = |t: &str| -> Res {
                    if t.is_empty() || (*name == "table cell" && t.contains('|')) {
                        return Res::Skip;
                    }
                    if t.contains('\n') || t.starts_with('\u{0}') {
                        return Res::Skip;
                    }
                    let s = format!("{pre}{}{post}", write_code_span(t));
                    let a = parse(&s).texts("code");
                    if a != [t.to_string()] {
                        return Res::Skip;
                    }
                    let out = fmt(&s, &o);
                    let b = parse(&out).texts("code");
                    if a == b {
                        Res::Ok(true)
                    } else {
                        Res::Fail(format!("in a {name}: code spans {a:?} became {b:?}; input {s:?}, output {out:?}"))
                    }
                };
                // the same, with a line break of the source inside the code span
                let cont = match *name {
                    "heading" | "table cell" => None,
                    "list item" => Some("    "),
                    "nested list" => Some("        "),
                    "quote" | "alert" => Some("> "),
                    "footnote" | "definition" => Some("    "),
                    _ => Some(""),
                };
                let broken = |t: &str| -> Res {
                    let Some(cont) = cont else { return Res::Skip };
                    let Some((x, y)) = t.split_once('\n') else { return Res::Skip };
                    if y.contains('\n') {
                        return Res::Skip;
                    }
                    let span = write_code_span(&format!("{x} {y}")).replacen(&format!("{x} {y}"), &format!("{x}\n{cont}{y}"), 1);
                    let s = format!("{pre}{span}{post}");
                    let a = parse(&s).texts("code");
                    if a.len() != 1 {
                        return Res::Skip;
                    }
                    let out = fmt(&s, &o);
                    let b = parse(&out).texts("code");
                    if a == b { Res::Ok(true) } else { Res::Fail(format!("in a {name}: code spans {a:?} became {b:?}; input {s:?}, output {out:?}")) }
                };
                c.random(&format!("code span over two lines in a {name}"), "ab` \n\n-.", 9, 200, &broken);
                let what = format!("code span in a {name}");
                c.random(&what, "aB`` -*\\_[]<1.\"'", 12, 400, &whole);
                c.random(&what, "foo Bar baz quux `", 40, 120, &whole);
            }
        }
    }
}

pub fn c18(c: &mut Ctx) {
    let title = |t: &str| -> Res {
        // a reader does not see NUL
        if t.is_empty() || t.contains('\0') {
            return Res::Skip;
        }
        let mut o = String::new();
        if hk::link::push_link_title(&mut o, t).is_none() {
            return Res::Skip;
        }
        let l = parse(&format!("[x](y{o})\n")).texts("link");
        if l == [format!("y\u{0}{t}")] { ok() } else { Res::Fail(format!("title {t:?} was written as {o:?}, which reads back as {l:?}")) }
    };
    c.exhaustive("writing a link title", "a\"\\ '", c.len(6), &title);
    c.random("writing a link title", "ab \"\\'()[]&é;#1\n\t*`<>", 30, 20_000, &title);
    c.exhaustive("writing a link title", "&a;#\\\n", c.len(6), &title);
    let dest = |t: &str| -> Res {
        if t.contains('\0') || t.chars().any(|c| c.is_control() && !c.is_ascii()) {
            return Res::Skip;
        }
        let mut o = String::new();
        if hk::link::push_link_destination(&mut o, t).is_none() {
            return Res::Skip;
        }
        let m = format!("[x]({o})\n");
        let d = parse(&m);
        let l = d.texts("link");
        let want: String = t
            .chars()
            .map(|c| if c.is_ascii_control() || " <>".contains(c) { format!("%{:02X}", c as u32) } else { c.to_string() })
            .collect();
        if l == [format!("{want}\u{0}")] {
            ok()
        } else {
            Res::Fail(format!("destination {t:?} was written as {o:?}, which reads back as {l:?}"))
        }
    };
    c.exhaustive("writing a link destination", "a() <>", c.len(6), &dest);
    c.exhaustive("writing a link destination", "\\a(&;#", c.len(6), &dest);
    c.random("writing a link destination", "ab/:.()<> #?=é\"'[]*_\\&;1\n\t`", 30, 20_000, &dest);

    // the reader of the contract (contracts/link.vs) agrees with the parser
    let reader = |t: &str| -> Res {
        let s: Vec<char> = format!("({t}").chars().collect();
        let Some((u, ti, used)) = reader::target(&s) else { return Res::Skip };
        if t.contains('\0') || ti.ends_with('\\') {
            return Res::Skip;
        }
        let x: String = s[..used].iter().collect();
        let l = parse(&format!("[x]{x}\n")).texts("link");
        if l == [format!("{u}\u{0}{ti}")] { ok() } else { Res::Fail(format!("{x:?} is ({u:?}, {ti:?}) in the contract, and {l:?} to the parser")) }
    };
    c.exhaustive("the reader of the contract", "a)( \"\\", c.len(7), &reader);
    c.random("the reader of the contract", "ab/:.()<> \"\"\"))#?\\&;1é%\t", 16, 20_000, &reader);

    // parentheses nested as deep as a destination may have them, and deeper
    for n in 0..70usize {
        for m in [n.saturating_sub(1), n, n + 1] {
            let u = format!("a{}x{}", "(".repeat(n), ")".repeat(m));
            c.check("writing a link destination", &u, &dest);
            let doc = |s: &str| -> Res {
                let out = fmt(s, &plain_opts());
                let (a, b) = (parse(s).texts("link"), parse(&out).texts("link"));
                if a.len() != 1 { Res::Skip } else if a == b { ok() } else { Res::Fail(format!("targets {a:?} became {b:?}; output {out:?}")) }
            };
            c.check("nested parentheses in a document", &format!("text [a](<{u}> \"t\") text\n"), &doc);
        }
    }

    // whole documents: the multiset of (kind, destination, title) is kept
    for o in [plain_opts(), with_width(plain_opts(), 20)] {
        let whole = |s: &str| -> Res {
            let d = parse(s);
            let get = |d: &Node| {
                let mut v: Vec<(String, String)> = d
                    .find_all("link")
                    .iter()
                    .chain(d.find_all("image").iter())
                    .map(|n| (n.kind.clone(), collapse_target(&n.text)))
                    .collect();
                v.sort();
                v
            };
            let a = get(&d);
            // comrak reads the quote after a final backslash of a title as escaped or not as it likes
            if a.is_empty() || a.iter().any(|l| l.1.ends_with('\\')) {
                return Res::Skip;
            }
            // not meant here: text that looks like parts of a link
            if d.odd_brackets() {
                return Res::Skip;
            }
            let out = fmt(s, &o);
            let b = get(&parse(&out));
            if a == b { ok() } else { Res::Fail(format!("targets {a:?} became {b:?}; output {out:?}")) }
        };
        c.generated("link targets of a document", 8_000, &gen_links, &whole);
        c.check("link targets of a document", "[text] and [text](http://e.com/)\n", &whole);
    }
}
/// A transcription of read_target and of what it uses, from contracts/link.vs.
mod reader {
    type S = [char];
    fn entch(c: char) -> bool { c.is_ascii_alphanumeric() || c == '#' }
    fn ent_name(s: &S) -> Option<usize> {
        let i = s.iter().position(|c| *c == ';')?;
        (i > 0 && s[..i].iter().all(|c| entch(*c))).then_some(i)
    }
    fn ent_s(name: &S) -> Option<char> {
        match name.iter().collect::<String>().as_str() {
            "amp" => Some('&'),
            "#10" => Some('\n'),
            _ => None,
        }
    }
    fn t(s: &S, k: usize) -> Option<(String, usize)> {
        let pre = |c: char, r: Option<(String, usize)>| r.map(|(a, b)| (format!("{c}{a}"), b));
        let c = *s.get(k)?;
        if c == '"' {
            Some((String::new(), k + 1))
        } else if c == '\\' && k + 1 < s.len() && s[k + 1].is_ascii_punctuation() {
            pre(s[k + 1], t(s, k + 2))
        } else if let (true, Some(i)) = (c == '&', ent_name(&s[k + 1..])) {
            pre(ent_s(&s[k + 1..k + 1 + i])?, t(s, k + i + 2))
        } else {
            pre(c, t(s, k + 1))
        }
    }
    fn d(s: &S, k: usize, n: usize) -> Option<(String, usize)> {
        let pre = |c: char, r: Option<(String, usize)>| r.map(|(a, b)| (format!("{c}{a}"), b));
        let end = if n == 0 { Some((String::new(), k)) } else { None };
        let Some(&c) = s.get(k) else { return end };
        if c == '\\' && k + 1 < s.len() && s[k + 1].is_ascii_punctuation() {
            pre(s[k + 1], d(s, k + 2, n))
        } else if c == '(' {
            if n >= 32 { None } else { pre(c, d(s, k + 1, n + 1)) }
        } else if c == ')' {
            if n == 0 { end } else { pre(c, d(s, k + 1, n - 1)) }
        } else if c == ' ' || c.is_ascii_control() {
            end
        } else if let (true, Some(i)) = (c == '&', ent_name(&s[k + 1..])) {
            pre(ent_s(&s[k + 1..k + 1 + i])?, d(s, k + i + 2, n))
        } else {
            pre(c, d(s, k + 1, n))
        }
    }
    /// destination, title, length
    pub fn target(s: &S) -> Option<(String, String, usize)> {
        if s.first() != Some(&'(') {
            return None;
        }
        let (u, k) = match s.get(1) {
            Some('<') => (s.get(2) == Some(&'>')).then(|| (String::new(), 3))?,
            Some(c) if *c == ' ' || c.is_ascii_control() => return None,
            _ => d(s, 1, 0)?,
        };
        if s.get(k) == Some(&')') {
            return Some((u, String::new(), k + 1));
        }
        if s.get(k) != Some(&' ') || s.get(k + 1) != Some(&'"') {
            return None;
        }
        let (ti, q) = t(s, k + 2)?;
        (s.get(q) == Some(&')')).then_some((u, ti, q + 1))
    }
}
fn gen_links(r: &mut Rng) -> String {
    let urls = [
        "a.md", "http://e.com/a_(b)", "https://e.com/?q=1&r=2", "<a b.md>", "#frag", "x(y)z", "\\(", "a\\)b", "http://e.com/x", "<>", "a%20b", "../*x*_y_", "<http://e.com/a b>", "mailto:me@e.com", "a'b", "`c`", "\\\\*b", "c\\\\", "d&amp;copy;", "http://e.com/&amp;lt;", "<e&#10;f>",
    ];
    let titles = ["", " \"t\"", " 'say \"hi\"'", " \"a\\\\b\"", " (p)", " \"q\\\"r\"", " 'it''", " \"a & b\"", " \"*x*\"", " \"&amp;gt;\"", " \"two\nlines\"", " 'a&#10;b'", " \"z\\\\\""];
    let texts = ["text", "two words", "a `code`", "*em*", "x\\]y", "![i](i.png)", "T_a", "a [b] c"];
    let mut s = String::new();
    let n = r.range(1, 4);
    for k in 0..n {
        let img = r.chance(1, 5);
        let mut t = *r.pick(&texts);
        let (u, ti) = (*r.pick(&urls), *r.pick(&titles));
        if r.chance(1, 8) {
            // text and destination are alike
            t = *r.pick(&["a.md", "http://e.com/a_(b)", "x:y", "https://e.com/?q=1&r=2", "#frag", "mailto:me@e.com"]);
        }
        let u = if r.chance(1, 8) { t } else { u };
        let mut tb = String::new();
        let u = if r.chance(1, 6) {
            // destinations that differ from the text, or from each other, by very little
            let base = if t.contains(' ') { "q.md" } else { t };
            tb.push_str(r.pick(&["./", "", "../", "#", "/", "http://", "mailto:", "https://www."]));
            tb.push_str(base);
            tb.push_str(r.pick(&["/", "", "#", "?", "/index.html", ".", "%20"]));
            tb.as_str()
        } else {
            u
        };
        let mut ub = String::new();
        let ti = if r.chance(1, 6) {
            // a title that is the text or the destination
            ub.push_str(&format!(" \"{}\"", if r.chance(1, 2) { t } else { u }));
            if ub.contains('\\') { "" } else { ub.as_str() }
        } else {
            ti
        };
        let u = if u.contains(' ') || u.contains('[') || u.contains('`') || u.contains('*') { "p.q" } else { u };
        match r.below(5) {
            1 if !img && r.chance(1, 3) => s.push_str(r.pick(&["<http://e.com/x>", "<me@e.com>", "<https://e.com/a_b*c>"])),
            0 if !img => {
                s.push_str(&format!("[{t}][l{k}]"));
            }
            _ => s.push_str(&format!("{}[{t}]({u}{ti})", if img { "!" } else { "" })),
        }
        s.push_str(r.pick(&[" ", ", ", "\n", " word ", ". ", "", "", "(x)", ": y", "[^1]"]));
    }
    s.push_str("\n\n");
    for k in 0..n {
        s.push_str(&format!("[l{k}]: {}{}\n", r.pick(&urls), r.pick(&titles)));
    }
    match r.below(5) {
        0 => format!("> {}", s.replace('\n', "\n> ")),
        1 => {
            let (p, q) = s.split_once("\n\n").unwrap();
            format!("## {}\n\n{q}", p.replace('\n', " "))
        }
        2 => {
            let (p, q) = s.split_once("\n\n").unwrap();
            format!(" -  {}\n\n{q}", p.replace('\n', " "))
        }
        _ => s,
    }
}
