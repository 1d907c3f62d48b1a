//! C04 tables, C12 no panic and exact source slices, C13 directives, C16 lists.
use crate::md::*;
use crate::p_block::*;
use crate::p_text::{fmt, plain_opts, with_width};
use crate::util::*;
use comrak::nodes::TableAlignment;
use hongdown::Options;
use hongdown::verif as hk;
use unicode_width::UnicodeWidthStr;

fn tables(d: &Node) -> Vec<String> {
    d.find_all("table")
        .iter()
        .map(|t| {
            let mut s = String::new();
            shape(t, &mut s, 0);
            s
        })
        .collect()
}

/// length of the run of backslashes a text starts with
fn run(t: &[char]) -> usize {
    t.iter().take_while(|c| **c == '\\').count()
}
pub fn c04(c: &mut Ctx) {
    // one cell
    for (a, name) in [(TableAlignment::Left, "left"), (TableAlignment::Right, "right"), (TableAlignment::Center, "centre"), (TableAlignment::None, "no")] {
        for w in [0usize, 3, 4, 9, 20] {
            let f = |s: &str| -> Res {
                let Some(r) = hk::table::format_cell_aligned(s, w, a) else { return Res::Skip };
                let pad = w.saturating_sub(s.width());
                let (l, t) = match a {
                    TableAlignment::Right => (pad, 0),
                    TableAlignment::Center => (pad / 2, pad - pad / 2),
                    _ => (0, pad),
                };
                if a != TableAlignment::Center {
                    return eq("cell", &r, &format!("{}{s}{}", " ".repeat(l), " ".repeat(t)));
                }
                // either side may get the odd space
                let l2 = r.len() - r.trim_start_matches(' ').len() - (s.len() - s.trim_start_matches(' ').len());
                let _ = (l, t);
                if !s.trim().is_empty() && r == format!("{}{s}{}", " ".repeat(l2), " ".repeat(pad - l2.min(pad))) && l2.abs_diff(pad - l2.min(pad)) <= 1 {
                    ok()
                } else if s.trim().is_empty() && r == format!("{}{s}", " ".repeat(pad)) {
                    Res::Ok(false)
                } else {
                    Res::Fail(format!("cell {s:?} at width {w} became {r:?}"))
                }
            };
            c.exhaustive(&format!("a cell with {name} alignment in {w} columns"), "a漢é `", c.len(5), &f);
            c.random(&format!("a cell with {name} alignment in {w} columns, longer"), "ab漢字é\u{200b}\u{301}👩\u{200d}👧 |\\", 24, 1_500, &f);
        }
    }
    let pipes = |s: &str| -> Res {
        let Some(n) = hk::table::count_unescaped_pipes(s) else { return Res::Skip };
        let ch: Vec<char> = s.chars().collect();
        let want = (0..ch.len()).filter(|i| ch[*i] == '|' && (*i == 0 || ch[*i - 1] != '\\')).count();
        if n == want { Res::Ok(want > 0) } else { Res::Fail(format!("{n} pipes counted in {s:?}, expected {want}")) }
    };
    c.exhaustive("counting the pipes of a line", "|\\a`", c.len(7), &pipes);
    c.random("counting the pipes of a longer line", "|\\a` é漢", 60, 10_000, &pipes);
    // what a cell holds after escaping has no pipe that ends it
    let esc = |s: &str| -> Res {
        if s.contains('\n') {
            return Res::Skip;
        }
        let Some(r) = hk::escape_table_cell(s) else { return Res::Skip };
        let ch: Vec<char> = r.chars().collect();
        for i in 0..ch.len() {
            if ch[i] == '|' && (i == 0 || ch[i - 1] != '\\') {
                return Res::Fail(format!("{s:?} was written as {r:?}, which has an unescaped pipe"));
            }
        }
        // taking out one backslash before some of the pipes gives the text
        let (sc, mut k) = (s.chars().collect::<Vec<char>>(), 0);
        for i in 0..ch.len() {
            if k < sc.len() && ch[i] == sc[k] && !(ch[i] == '\\' && sc.get(k..).is_some_and(|t| run(t) < run(&ch[i..]))) {
                k += 1;
            } else if !(ch[i] == '\\' && ch.get(i + 1).is_some()) {
                return Res::Fail(format!("{s:?} was written as {r:?}"));
            }
        }
        if k == sc.len() { Res::Ok(s.contains('|')) } else { Res::Fail(format!("{s:?} was written as {r:?}")) }
    };
    c.exhaustive("escaping the pipes of a cell", "|\\a`", c.len(7), &esc);
    c.random("escaping the pipes of a longer cell", "|\\a` é漢", 60, 10_000, &esc);

    let opts = [plain_opts(), with_width(plain_opts(), 12)];
    for (k, o) in opts.iter().enumerate() {
        for f in frames() {
            let whole = |s: &str| -> Res {
                if !s.ends_with('\n') {
                    return Res::Skip;
                }
                let d = parse(s);
                if degenerate(&d) {
                    return Res::Skip;
                }
                let a = tables(&d);
                if a.is_empty() {
                    return Res::Skip;
                }
                let out = fmt(s, o);
                let d2 = parse(&out);
                let b = tables(&d2);
                if a != b {
                    return Res::Fail(format!("{}; output {out:?}", first_diff(&a.join(""), &b.join(""))));
                }
                // all lines of a table are equally wide
                let lines: Vec<&str> = out.lines().collect();
                for t in d2.find_all("table") {
                    let ws: Vec<usize> = lines[t.line - 1..t.end].iter().map(|l| l[l.find('|').unwrap_or(0)..].width()).collect();
                    if ws.iter().any(|w| *w != ws[0]) {
                        return Res::Fail(format!("lines of a table have display widths {ws:?}; output {out:?}"));
                    }
                }
                ok()
            };
            for lead in [false, true] {
                c.generated(&format!("table in a {}{}, options {k}", f.0, if lead { " after a paragraph" } else { "" }), 400, &|r| {
                    let mut s = framed(&f, lead, &gen_table(r));
                    if r.chance(1, 4) {
                        s.push_str("\nafter\n");
                    }
                    s
                }, &whole);
            }
        }
        let plain = |s: &str| -> Res {
            let f = frames();
            let t = format!("| h |\n|---|\n| {s} |\n");
            let d = parse(&t);
            let a = tables(&d);
            if a.is_empty() {
                return Res::Skip;
            }
            let _ = f;
            let out = fmt(&t, o);
            let b = tables(&parse(&out));
            if a == b { Res::Ok(s.contains('|')) } else { Res::Fail(format!("{}; output {out:?}", first_diff(&a.join(""), &b.join("")))) }
        };
        c.exhaustive(&format!("a cell of a table, options {k}"), "a|\\`* ", c.len(5), &plain);
        c.random(&format!("a longer cell of a table, options {k}"), "ab|\\\\`*_ <>[]()漢é&!", 20, 6_000, &plain);
    }
}

/// options drawn from all accepted values
pub fn any_options(r: &mut Rng) -> Options {
    use hongdown::*;
    let mut o = Options::default();
    if let Ok(w) = LineWidth::new(*r.pick(&[8, 9, 10, 12, 20, 40, 80, 200])) {
        o.line_width = w;
    }
    o.setext_h1 = r.chance(1, 2);
    o.setext_h2 = r.chance(1, 2);
    o.heading_sentence_case = r.chance(1, 2);
    o.unordered_marker = *r.pick(&[UnorderedMarker::Hyphen, UnorderedMarker::Asterisk, UnorderedMarker::Plus]);
    o.leading_spaces = LeadingSpaces::new(r.below(4)).unwrap();
    o.trailing_spaces = TrailingSpaces::new(r.below(4)).unwrap_or_default();
    o.indent_width = IndentWidth::new(r.range(1, 8)).unwrap_or_default();
    o.ordered_list_indent_width = IndentWidth::new(r.range(1, 8)).unwrap_or_default();
    o.odd_level_marker = *r.pick(&[OrderedMarker::Period, OrderedMarker::Parenthesis]);
    o.even_level_marker = *r.pick(&[OrderedMarker::Period, OrderedMarker::Parenthesis]);
    o.ordered_list_pad = *r.pick(&[OrderedListPad::Start, OrderedListPad::End]);
    o.fence_char = *r.pick(&[FenceChar::Tilde, FenceChar::Backtick]);
    o.min_fence_length = MinFenceLength::new(r.range(3, 7)).unwrap_or_default();
    o.space_after_fence = r.chance(1, 2);
    o.default_language = r.pick(&["", "text"]).to_string();
    if let Ok(t) = ThematicBreakStyle::new(r.pick(&["---", "* * *", "___", "- - - -"]).to_string()) {
        o.thematic_break_style = t;
    }
    o.thematic_break_leading_spaces = LeadingSpaces::new(r.below(4)).unwrap();
    o.curly_double_quotes = r.chance(1, 2);
    o.curly_single_quotes = r.chance(1, 2);
    o.curly_apostrophes = r.chance(1, 2);
    o.ellipsis = r.chance(1, 2);
    let dash = |r: &mut Rng| -> DashSetting {
        match DashPattern::new(r.pick(&["--", "---", "-", " - ", "->", "—", "~"]).to_string()) {
            Ok(p) if r.chance(2, 3) => DashSetting::Pattern(p),
            _ => DashSetting::Disabled,
        }
    };
    o.en_dash = dash(r);
    o.em_dash = dash(r);
    if validate_dash_settings(&o).is_err() {
        o.en_dash = DashSetting::Disabled;
    }
    o
}

const TOKENS: &[&str] = &[
    "\n", "\n\n", "\n", " ", "  ", "    ", "\t", "a", "bc", "é", "漢", "👩\u{200d}👧", "\u{301}", "\u{a0}", "\u{feff}", "\0", "\r\n", "\r", "`", "``", "~~~", "```", "*", "**", "_", "__", "[", "]", "(", ")", "](", "][", "![", "<", ">", "<a", "<!--", "-->", "<!-- hongdown-disable -->", "<!-- hongdown-enable -->", "<!-- hongdown-disable-next-line -->", "<!-- hongdown-disable-next-section -->", "<!-- hongdown-disable-file -->", "<!-- hongdown-proper-nouns: A, b -->", "<!-->", "|", "|-|", "||", ":", ": ", ":   ", "-", "- ", "---", "+ ", "1. ", "99. ", "999999999) ", "[ ] ", "[x] ", "#", "## ", "=", "===", "\\", "\\\\", "&amp;", "&#0;", "&", ";", "[^1]", "[^1]: ", "[^é]: ", "[r]", "[r]: ", "http://x.y/", "\"", "'", "...", "--", "> ", ">", "> [!NOTE]", "!", ".", "?", "\u{200b}", "İ", "ß", "ŉ", "ﬁ", "\u{1}", "\u{fffd}",
];
fn soup(r: &mut Rng) -> String {
    let n = r.range(1, 40);
    let mut s: String = (0..n).map(|_| *r.pick(TOKENS)).collect();
    if r.chance(1, 10) {
        s = format!("---\nk: v\n---\n{s}");
    }
    s
}

pub fn c12(c: &mut Ctx) {
    // pieces of a line at given bytes
    let slice = |s: &str| -> Res {
        let n = s.len() + 3;
        for a in 0..n {
            for b in a..n {
                let Some(r) = hk::state::safe_str_slice(s, a, b) else { return Res::Skip };
                let (mut x, mut y) = (a.min(s.len()), b.min(s.len()));
                while !s.is_char_boundary(x) {
                    x -= 1;
                }
                while !s.is_char_boundary(y) {
                    y += 1;
                }
                if r != &s[x..y] {
                    return Res::Fail(format!("bytes {a}..{b} of {s:?} are {r:?}, expected {:?}", &s[x..y]));
                }
            }
        }
        Res::Ok(!s.is_ascii())
    };
    c.exhaustive("a piece of a line", "aé漢👩", c.len(5), &slice);
    c.random("a piece of a longer line", "ab é漢👩\u{301}", 14, 2_000, &slice);
    // every private function is total
    let total = |s: &str| -> Res {
        let _ = hk::escape_text(s);
        let _ = hk::format_code_span(s);
        let _ = hk::escape_table_cell(s);
        let _ = hk::normalize_whitespace(s);
        for w in [8usize, 9, 80] {
            let _ = hk::wrap_text(s, "", w);
            let _ = hk::wrap_text(s, "> ", w);
            let _ = hk::wrap_text_first_line(s, " -  ", "    ", w);
        }
        let _ = hk::code::parse_code_info(s);
        let _ = hk::heading::to_sentence_case(s, &[], &[]);
        let _ = hk::heading::to_sentence_case(s, &["Foo Bar".into(), "é".into()], &["Foo".into()]);
        let _ = hk::punctuation::transform_punctuation(s, &Options::default());
        let _ = hk::state::directive(s);
        let _ = hk::table::count_unescaped_pipes(s);
        let _ = hk::extract_numeric_label(s);
        let mut o = Options::default();
        o.curly_apostrophes = true;
        let _ = hk::punctuation::transform_punctuation(s, &o);
        let _ = hk::inline::escape_text_preserving_source(s, s, &o);
        ok()
    };
    c.random("every helper returns", "ab \\`*_[]()<>&;!|#'\"-.:~\n\0é漢\u{301}İß", 20, 20_000, &total);
    c.generated("every helper returns on pieces of documents", 20_000, &soup, &total);
    let cfg = |s: &str| -> Res {
        let (seed, text) = s.split_once('\u{2}').unwrap_or(("0", s));
        let mut r = Rng::new(seed.parse().unwrap_or(0));
        let o = any_options(&mut r);
        let a = hongdown::format(text, &o).map_err(|e| e.to_string());
        let b = hongdown::format_with_warnings(text, &o).map_err(|e| e.to_string());
        match (a, b) {
            (Ok(x), Ok(y)) if x == y.output => ok(),
            (Ok(x), Ok(y)) => Res::Fail(format!("format and format_with_warnings differ: {x:?} and {:?}", y.output)),
            (x, y) => Res::Fail(format!("no result: {:?} {:?}", x.err(), y.err())),
        }
    };
    c.generated("every document is formatted", 60_000, &|r| format!("{}\u{2}{}", r.below(1000), soup(r)), &cfg);
    let g = Gen { lists: true, quotes: true, dls: true, tables: true, html: true, width: 14 };
    c.generated("every structured document is formatted", 8_000, &|r| format!("{}\u{2}{}\n", r.below(1000), gen_blocks(r, &g, 3, 5)), &cfg);
    c.exhaustive("every short document is formatted", "a-`[\n :|>", c.len(4), &|s| cfg(&format!("1\u{2}{s}")));
}

const DIRECTIVES: &[(&str, &str)] = &[
    ("hongdown-disable-next-line", "DisableNextLine"),
    ("hongdown-disable-file", "DisableFile"),
    ("hongdown-disable-next-section", "DisableNextSection"),
    ("hongdown-disable", "Disable"),
    ("hongdown-enable", "Enable"),
];
fn directive_spec(s: &str) -> Option<String> {
    let t = s.trim();
    let i = t.strip_prefix("<!--")?.strip_suffix("-->")?.trim();
    if let Some(d) = DIRECTIVES.iter().find(|d| d.0 == i) {
        return Some(d.1.to_string());
    }
    for (p, n) in [("hongdown-proper-nouns:", "ProperNouns"), ("hongdown-common-nouns:", "CommonNouns")] {
        if let Some(a) = i.strip_prefix(p) {
            let v: Vec<String> = a.split(',').map(|x| x.trim().to_string()).filter(|x| !x.is_empty()).collect();
            return Some(format!("{n}({v:?})"));
        }
    }
    None
}

/// text a formatter would change everywhere
fn messy_block(r: &mut Rng, headings: bool) -> String {
    let p = *r.pick(&["", "", " ", "  "]);
    let x = match r.below(if headings { 11 } else { 9 }) {
        0 => "some   text  with \"quotes\" -- and...  spaces".to_string(),
        1 => "* a\n* b\n\n  * c".to_string(),
        2 => "```rust\ncode   here\n```".to_string(),
        3 => "|a|b|\n|-|:-:|\n|1|2|".to_string(),
        4 => ">quote\n>more".to_string(),
        5 => "1) one\n2) two".to_string(),
        6 => "    indented  code\n\n    more".to_string(),
        7 => "a very long line that would certainly be wrapped if the formatter were to format it, since it is longer than eighty".to_string(),
        8 => "***".to_string(),
        9 => "### A Heading ###".to_string(),
        _ => "Sub Heading\n-----------".to_string(),
    };
    if x.starts_with("    ") { x } else { x.split('\n').map(|l| if l.is_empty() { String::new() } else { format!("{p}{l}") }).collect::<Vec<_>>().join("\n") }
}
fn messy(r: &mut Rng, headings: bool) -> String {
    let mut s = messy_block(r, headings);
    for _ in 0..r.below(4) {
        s.push_str(&"\n".repeat(r.range(2, 4)));
        let b = messy_block(r, headings);
        // a list would take in what follows, code would join code
        if s.ends_with('e') && b.starts_with("    ") {
            continue;
        }
        s.push_str(&b);
    }
    s
}

pub fn c13(c: &mut Ctx) {
    let rec = |s: &str| -> Res {
        let Some(r) = hk::state::directive(s) else { return Res::Skip };
        let want = directive_spec(s);
        if r == want { Res::Ok(want.is_some()) } else { Res::Fail(format!("{s:?} was read as {r:?}, expected {want:?}")) }
    };
    c.generated("reading a directive", 30_000, &|r| {
        let w = ["<!--", "-->", " ", "\n", "hongdown-disable", "hongdown-enable", "-next-line", "-file", "-next-section", "hongdown-", "disable", "x", "-", "hongdown-proper-nouns:", "hongdown-common-nouns:", "Foo", ",", " Bar", "hongdown-disable-next-line", "hongdown-disable-file", "hongdown-disable-next-section", "HONGDOWN-DISABLE", "<!", "->"];
        if r.chance(2, 3) { format!("<!-- {} -->", (0..r.range(1, 3)).map(|_| *r.pick(&w)).collect::<String>()) } else { (0..r.below(6)).map(|_| *r.pick(&w)).collect() }
    }, &rec);
    for d in DIRECTIVES {
        for pre in ["", " ", "x", "-", "- ", "-- ", "! ", "\n", "\t "] {
            for post in ["", " ", "x", "-", "d", "-x", " -", " --", "\n", ".", ";"] {
                c.check("reading one directive", &format!("<!--{pre}{}{post}-->", d.0), &rec);
            }
        }
    }
    // spellings made of the words of the documented ones and of words like them
    let words = ["hongdown", "disable", "enable", "next", "line", "section", "file", "block", "off", "on", "begin", "end", "ignore", "format", "proper", "nouns", "noun:", "nouns:", "common", "start", "stop", "no", "all", "Disable", "prettier", "markdownlint", ""];
    for a in words {
        for b in words {
            for x in words {
                for y in words {
                    let t = [a, b, x, y].iter().filter(|w| !w.is_empty()).copied().collect::<Vec<_>>().join("-");
                    if y.is_empty() || !x.is_empty() {
                        c.check("reading a spelling", &format!("<!-- {t} -->"), &rec);
                    }
                }
            }
        }
    }
    for q in ["disable", "enable", "disable-next-line", "disable-file"] {
        for s in ["_", " ", "", ".", ":", "/", "@"] {
            c.check("reading a spelling", &format!("<!-- hongdown{s}{q} -->"), &rec);
            c.check("reading a spelling", &format!("<!-- hongdown-{} -->", q.replace('-', s)), &rec);
            c.check("reading a spelling", &format!("<!-- hongdown-{q}{s}x -->"), &rec);
            c.check("reading a spelling", &format!("<!-- {q}{s}x -->"), &rec);
        }
    }
    let opts = [Options::default(), with_width(plain_opts(), 40)];
    for (k, o) in opts.iter().enumerate() {
        // region between disable and enable; parts are separated by control characters
        let region = |s: &str| -> Res {
            let p: Vec<&str> = s.split('\u{1}').collect();
            if p.len() != 4 || p.iter().any(|x| x.trim().is_empty()) {
                return Res::Skip;
            }
            let (a, mid, b, kind) = (p[0], p[1], p[2], p[3]);
            if mid.starts_with('\n') || mid.trim_end() != mid || mid.contains("hongdown") || a.contains("hongdown") || b.contains("hongdown") {
                return Res::Skip;
            }
            match kind {
                "region" => {
                    let doc = format!("{a}\n\n<!-- hongdown-disable -->\n\n{mid}\n\n<!-- hongdown-enable -->\n\n{b}\n");
                    let out = fmt(&doc, o);
                    let want = format!("\n\n<!-- hongdown-disable -->\n\n{mid}\n\n<!-- hongdown-enable -->\n\n");
                    if !out.contains(&want) {
                        return Res::Fail(format!("the disabled text is not kept; output {out:?}"));
                    }
                    let (x, y) = out.split_once(&want).unwrap();
                    if format!("{x}\n") != fmt(&format!("{a}\n"), o) {
                        return Res::Fail(format!("text before the region is not formatted as usual: {x:?}"));
                    }
                    if y.trim_start_matches('\n') != fmt(&format!("{b}\n"), o) {
                        return Res::Fail(format!("text after the region is not formatted as usual: {y:?}"));
                    }
                    ok()
                }
                "open" => {
                    let doc = format!("{a}\n\n<!-- hongdown-disable -->\n\n{mid}\n");
                    let out = fmt(&doc, o);
                    if !out.ends_with(&format!("\n\n<!-- hongdown-disable -->\n\n{mid}\n")) {
                        return Res::Fail(format!("the disabled text is not kept; output {out:?}"));
                    }
                    ok()
                }
                "file" | "file-open" | "file-blank" | "file-space" => {
                    let end = match kind { "file" => "\n", "file-open" => "", "file-blank" => "\n\n\n", _ => "\n  \n\t\n" };
                    let rest = format!("\n{mid}\n\n\n{b}{end}");
                    let doc = format!("{a}\n\n<!-- hongdown-disable-file -->\n{rest}");
                    let out = fmt(&doc, o);
                    if out != format!("{}\n<!-- hongdown-disable-file -->\n{rest}", fmt(&format!("{a}\n"), o)) {
                        return Res::Fail(format!("the rest of the file is not kept; output {out:?}"));
                    }
                    ok()
                }
                "next" => {
                    // one block
                    let d = parse(&format!("{mid}\n"));
                    if d.kids.len() != 1 {
                        return Res::Skip;
                    }
                    // the block must not go on in what follows
                    let both = parse(&format!("{mid}\n\n{b}\n"));
                    if both.kids.is_empty() || shape_one(&both.kids[0]) != shape_one(&d.kids[0]) {
                        return Res::Skip;
                    }
                    let doc = format!("{a}\n\n<!-- hongdown-disable-next-line -->\n\n{mid}\n\n{b}\n");
                    let out = fmt(&doc, o);
                    // a section starts with an extra blank line
                    let w1 = format!("\n\n<!-- hongdown-disable-next-line -->\n\n{mid}\n");
                    let w2 = format!("\n\n<!-- hongdown-disable-next-line -->\n\n\n{mid}\n");
                    let Some((x, y)) = out.split_once(&w1).or_else(|| out.split_once(&w2)) else {
                        return Res::Fail(format!("the next block is not kept; output {out:?}"));
                    };
                    if format!("{x}\n") != fmt(&format!("{a}\n"), o) {
                        return Res::Fail(format!("text before the directive is not formatted as usual: {x:?}"));
                    }
                    if y.trim_start_matches('\n') != fmt(&format!("{b}\n"), o) {
                        return Res::Fail(format!("text after the block is not formatted as usual: {y:?}"));
                    }
                    ok()
                }
                _ => {
                    // up to the next heading of level one or two
                    if parse(&format!("{mid}\n")).kids.iter().any(|n| n.is("heading") && (n.text == "1" || n.text == "2")) {
                        return Res::Skip;
                    }
                    let h = if kind == "section1" { "# Next *one*" } else { "## Next *one*" };
                    let doc = format!("{a}\n\n<!-- hongdown-disable-next-section -->\n\n{mid}\n\n{h}\n\n{b}\n");
                    let out = fmt(&doc, o);
                    let want = format!("\n\n<!-- hongdown-disable-next-section -->\n\n{mid}\n\n");
                    let Some((x, y)) = out.split_once(&want) else {
                        return Res::Fail(format!("the section is not kept; output {out:?}"));
                    };
                    if format!("{x}\n") != fmt(&format!("{a}\n"), o) {
                        return Res::Fail(format!("text before the section is not formatted as usual: {x:?}"));
                    }
                    if y.trim_start_matches('\n') != fmt(&format!("{h}\n\n{b}\n"), o) {
                        return Res::Fail(format!("text after the section is not formatted as usual: {y:?}"));
                    }
                    ok()
                }
            }
        };
        // directives and numbered blocks in any order: which block is left alone
        let order = |s: &str| -> Res {
            if s.contains("ll") {
                return Res::Skip; // one list
            }
            let (mut doc, mut want, mut mode) = (String::new(), vec![], 0);
            for (i, ch) in s.chars().enumerate() {
                let (src, done) = match ch {
                    'p' => (format!("Text{i} _ end"), format!("Text{i} \\_ end")),
                    '1' => (format!("#  Head{i}"), format!("Head{i}\n=")),
                    '2' => (format!("##  Head{i}"), format!("Head{i}\n-")),
                    '3' => (format!("###   Head{i} _"), format!("### Head{i} \\_")),
                    'l' => (format!("*    Item{i}\n\n\n      more{i} _"), format!(" -  Item{i}\n\n    more{i} \\_")),
                    'h' => (format!("<div>\n<b   {i}>\n</div>"), format!("<div>\n<b   {i}>\n</div>")),
                    _ => {
                        let d = match ch { 'n' => "hongdown-disable-next-line", 's' => "hongdown-disable-next-section", 'd' => "hongdown-disable", 'e' => "hongdown-enable", _ => "hongdown-x" };
                        doc.push_str(&format!("<!-- {d} -->\n\n"));
                        // 1: the next block, 2: the section, 3: all
                        match ch { 'n' => mode = 1, 's' => mode = 2, 'd' => mode = 3, 'e' => mode = 0, _ => {
                            want.push((mode > 0, String::new(), String::new()));
                            if mode == 1 { mode = 0; }
                        } }
                        continue;
                    }
                };
                if mode == 2 && (ch == '1' || ch == '2') {
                    mode = 0;
                }
                doc.push_str(&format!("{src}\n\n"));
                want.push((mode > 0, src, done));
                if mode == 1 {
                    mode = 0;
                }
            }
            let out = fmt(&doc, o);
            for (kept, src, done) in &want {
                let w = if *kept { src } else { done };
                if !out.contains(w.as_str()) {
                    return Res::Fail(format!("{} not in the output of {doc:?}: {w:?}; output {out:?}", if *kept { "text to be left alone" } else { "text to be formatted" }));
                }
            }
            ok()
        };
        let kinds: Vec<char> = "p12ndse".chars().collect();
        for n in 1..=4u32 {
            for x in 0..kinds.len().pow(n) {
                let s: String = (0..n).map(|j| kinds[x / kinds.len().pow(j) % kinds.len()]).collect();
                c.check(&format!("directives and blocks in order, options {k}"), &s, &order);
            }
        }
        c.generated(&format!("directives and blocks, options {k}"), 4_000, &|r| (0..r.range(3, 12)).map(|_| *r.pick(&['p', 'p', '1', '2', '3', 'l', 'h', 'n', 's', 'd', 'e', 'e', 'x'])).collect(), &order);
        for kind in ["region", "open", "file", "file-open", "file-blank", "file-space", "next", "section1", "section2"] {
            c.generated(&format!("{kind} left alone, options {k}"), 1_500, &|r| {
                let mid = if kind == "next" { messy_block(r, true) } else { messy(r, !kind.starts_with("section")) };
                format!("{}\u{1}{mid}\u{1}{}\u{1}{kind}", text_block(r), text_block(r))
            }, &region);
        }
    }
}
fn shape_one(n: &Node) -> String {
    let mut s = String::new();
    shape(n, &mut s, 0);
    s
}
fn text_block(r: &mut Rng) -> String {
    r.pick(&["Some   text...", "A *b*  c \"d\"", "## Heading", "Title\n=====", "> q", "[inline](x.md) link", "`code`  x", "para one\n\npara   two"]).to_string()
}

/// lists with their markers left out
fn lists(d: &Node) -> String {
    let mut s = String::new();
    for n in &d.kids {
        shape(n, &mut s, 0);
    }
    s
}

pub fn list_opts() -> Vec<(String, Options)> {
    use hongdown::*;
    let mut v = vec![("the default options".to_string(), plain_opts())];
    // leading spaces, trailing spaces, indent width, ordered indent width
    for (m, l, t, i, n) in [
        (UnorderedMarker::Asterisk, 0, 2, 3, 3),
        (UnorderedMarker::Plus, 1, 1, 3, 3),
        (UnorderedMarker::Hyphen, 2, 1, 4, 4),
        (UnorderedMarker::Hyphen, 0, 3, 4, 4),
        (UnorderedMarker::Hyphen, 1, 2, 4, 4),
        (UnorderedMarker::Asterisk, 0, 1, 4, 4),
        (UnorderedMarker::Plus, 1, 2, 8, 6),
        (UnorderedMarker::Hyphen, 3, 1, 5, 5),
    ] {
        for (a, b, p) in [(OrderedMarker::Period, OrderedMarker::Period, OrderedListPad::Start), (OrderedMarker::Parenthesis, OrderedMarker::Period, OrderedListPad::End)] {
            let mut o = plain_opts();
            o.unordered_marker = m;
            o.leading_spaces = LeadingSpaces::new(l).unwrap();
            o.trailing_spaces = TrailingSpaces::new(t).unwrap();
            o.indent_width = IndentWidth::new(i).unwrap();
            o.ordered_list_indent_width = IndentWidth::new(n).unwrap();
            o.odd_level_marker = a;
            o.even_level_marker = b;
            o.ordered_list_pad = p;
            v.push((format!("marker {m:?}, {l} leading and {t} trailing spaces, indents {i} and {n}, {a:?}, {b:?}, {p:?}"), o));
        }
    }
    v
}

pub fn c16(c: &mut Ctx) {
    for (name, o) in list_opts() {
        let whole = |s: &str| -> Res {
            if !s.ends_with('\n') {
                return Res::Skip;
            }
            let d = parse(s);
            if adjacent_lists(&d) || degenerate(&d) {
                return Res::Skip;
            }
            let a = lists(&d);
            let out = fmt(s, &o);
            let d2 = parse(&out);
            let b = lists(&d2);
            if a != b {
                return Res::Fail(format!("{}; output {out:?}", first_diff(&a, &b)));
            }
            if let Some(m) = tightened(&d, &d2) {
                return Res::Fail(format!("{m}; output {out:?}"));
            }
            match markers(&d2, &out, &o) {
                Some(m) => Res::Fail(format!("{m}; output {out:?}")),
                None => Res::Ok(a.contains("_list")),
            }
        };
        for (kind, g) in [
            ("lists", Gen { lists: true, quotes: false, dls: false, tables: false, html: false, width: 14 }),
            ("lists and quotes", Gen { lists: true, quotes: true, dls: false, tables: true, html: true, width: 14 }),
        ] {
            c.generated(&format!("{kind} with {name}"), 700, &|r| format!("{}\n", (0..r.range(1, 3)).map(|k| if k % 2 == 0 { gen_list(r, &g, 3, false) } else { gen_block(r, &g, 2, false) }).collect::<Vec<_>>().join("\n\n")), &whole);
        }
        c.generated(&format!("long lists with {name}"), 60, &|r| {
            let n = *r.pick(&[9usize, 10, 11, 20, 101]);
            let mut s = String::new();
            let lead = *r.pick(&["", "", "-   a\n", "1.  a\n", "10) a\n", "> ", "-   a\n    1.  b\n"]);
            let ind = if lead.is_empty() { "" } else if lead == "> " { "> " } else { &"        "[..4 * lead.matches('\n').count()] };
            if ind != "> " {
                s.push_str(lead);
            }
            for k in 0..n {
                s.push_str(&format!("{ind}{}. {}\n", k + 1, words(r, 3).replace('\n', " ")));
            }
            s
        }, &whole);
        c.generated(&format!("deep lists with {name}"), 60, &|r| {
            let mut s = String::new();
            let mut ind = String::new();
            for _ in 0..r.range(2, 7) {
                let m = *r.pick(&["1.  ", "1.  ", "1)  ", "-   ", "*   "]);
                s.push_str(&format!("{ind}{m}{}\n", words(r, 3).replace('\n', " ")));
                ind.push_str(&" ".repeat(m.len()));
                if r.chance(1, 8) {
                    s.push_str(&format!("\n{ind}> {}\n\n", words(r, 3).replace('\n', " ")));
                }
            }
            s
        }, &whole);
        let long: String = (0..1001).map(|k| format!("{}. item\n", k + 1)).collect();
        c.check(&format!("a list of 1001 items with {name}"), &long, &whole);
    }
}

/// a loose list whose items have more than one block between them stays loose
fn tightened(a: &Node, b: &Node) -> Option<String> {
    if a.kind.ends_with("_list") && a.text.starts_with("loose") && b.text.starts_with("tight") {
        return Some("a loose list became tight".into());
    }
    a.kids.iter().zip(b.kids.iter()).find_map(|(x, y)| tightened(x, y))
}
/// the markers of all lists follow the options, and ordered lists are numbered 1, 2, 3...
fn markers(d: &Node, out: &str, o: &Options) -> Option<String> {
    let lines: Vec<&str> = out.lines().collect();
    deep_markers(d, &lines, o, 0, 0)
}
fn deep_markers(d: &Node, lines: &[&str], o: &Options, depth: usize, on: usize) -> Option<String> {
    for l in d.kids.iter() {
        let list = l.kind.ends_with("_list");
        let quote = matches!(l.kind.as_str(), "quote" | "alert");
        let top = on == 0;
        let depth = if quote { 0 } else { depth + usize::from(list) };
        for (k, it) in l.kids.iter().enumerate().filter(|_| list) {
            let line = lines[it.line - 1];
            if l.is("bullet_list") {
                let want = format!("{}{}{}", " ".repeat(o.leading_spaces.get()), o.unordered_marker.as_char(), " ".repeat(o.trailing_spaces.get()));
                if top && (!line.starts_with(want.trim_end()) || (line.len() > want.len() && !line.starts_with(&want))) {
                    return Some(format!("item {line:?} does not start with {want:?}"));
                }
            } else {
                let t = line.trim_start_matches([' ', '>']);
                // behind another marker on its line
                if it.line == on || !top && !t.starts_with(|c: char| c.is_ascii_digit()) {
                    continue;
                }
                let digits: String = t.chars().take_while(|c| c.is_ascii_digit()).collect();
                if digits != (k + 1).to_string() {
                    return Some(format!("item {} is numbered {digits:?}", k + 1));
                }
                let want = if depth % 2 == 1 { o.odd_level_marker } else { o.even_level_marker };
                if t[digits.len()..].chars().next() != Some(want.as_char()) {
                    return Some(format!("item {line:?} has another delimiter"));
                }
            }
        }
        if let Some(m) = deep_markers(l, lines, o, depth, if matches!(l.kind.as_str(), "item" | "task") { l.line } else { on.max(1) }) {
            return Some(m);
        }
    }
    None
}
