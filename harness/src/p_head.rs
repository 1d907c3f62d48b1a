//! C11 headings.
use crate::md::*;
use crate::p_block::{degenerate, framed, frames};
use crate::p_text::{fmt, plain_opts};
use crate::util::*;
use hongdown::Options;
use hongdown::verif as hk;
use unicode_width::UnicodeWidthStr;

/// Letters without their case; straight quotation marks (sentence case makes them curly)
pub fn fold(s: &str) -> String {
    let mut o = String::new();
    for c in s.to_uppercase().to_lowercase().to_uppercase().chars() {
        match c {
            '\u{201c}' | '\u{201d}' => o.push('"'),
            '\u{2018}' | '\u{2019}' => o.push('\''),
            c => o.push(c),
        }
    }
    o
}
/// The inline content of a heading: text (folded if `case` may change), and code, targets and HTML as they are.
fn content(n: &Node, case: bool, o: &mut String) {
    let t = |s: &str| if case { fold(s) } else { s.to_string() };
    for k in &n.kids {
        match k.kind.as_str() {
            "text" => o.push_str(&t(&k.text)),
            // a heading is one line
            "softbreak" | "linebreak" => o.push(' '),
            "code" => o.push_str(&format!("\u{2}code {}\u{3}", k.text.replace(' ', "\u{5}"))),
            "html" => o.push_str(&format!("\u{2}html {}\u{3}", k.text.replace(' ', "\u{5}"))),
            "footnote_ref" => o.push_str(&format!("\u{2}fn {}\u{3}", fold(&k.text))),
            kind => {
                let target = if k.text.is_empty() { String::new() } else { collapse_target(&k.text).replace(' ', "\u{5}") };
                o.push_str(&format!("\u{2}{kind} {target}\u{4}"));
                content(k, case, o);
                o.push('\u{3}');
            }
        }
    }
}
fn headings(d: &Node, case: bool) -> Vec<String> {
    d.find_all("heading")
        .iter()
        .map(|h| {
            let mut s = String::new();
            content(h, case, &mut s);
            format!("{} {}", h.text, collapse(&s))
        })
        .collect()
}
/// Every underline is as wide as its text (headings outside of containers).
fn underlines(out: &str) -> Option<String> {
    let l: Vec<&str> = out.split('\n').collect();
    for h in parse(out).kids.iter().filter(|k| k.is("heading") && k.end > k.line) {
        let (t, u) = (l[h.end - 2], l[h.end - 1]);
        if h.end != h.line + 1 || t.width() != u.width() || u.chars().any(|c| c != u.chars().next().unwrap()) {
            return Some(format!("the text {t:?} is underlined with {u:?}"));
        }
    }
    None
}

fn nouns(case: usize) -> (Vec<String>, Vec<String>) {
    let v = |l: &[&str]| l.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    match case {
        0 => (v(&[]), v(&[])),
        1 => (v(&["Foo", "BAR", "my-Lib", "@a/B", "Two Words", "O\u{2019}Neil X", "\u{c9}t\u{e9}"]), v(&["Go", "Rust", "New York"])),
        _ => (v(&["a", "A b", "b'S", "The \"q\"", "1", "\u{df}", "iPhone"]), v(&["a", "github actions", ""])),
    }
}

const PIECES: &[&str] = &[
    "Foo", "BAR", "baz", "two", "Words", "I", "i'm", "Go", "rust", "JavaScript", "javascript", "GitHub", "Actions", "New", "york", "O'Neil X", "PhD", "e.g.", "Ph.D.", "u.s.", "'80s", "don't", "Don't", "\"Quoted Text\"", "'Single Q'", "\"", "'", "`Code Span`", "`` a`B ``",
    "*Emph Text*", "**Strong**", "[Link Text](Target.md)", "[Other](http://E.com/A_(B) \"A Title\")", "![Img Alt](Pic.PNG)", "<B>", "</B>", "<Br/>", "<a Href=\"X Y\">", "<http://E.com/Foo>", "<Me@E.com>", "&amp;", "\\*", "\\\\", "\\`", "\\[X\\]", "[X]", "(Y)", ":", ";", "-", "\u{2014}", "\u{2013}", "/",
    "HTTP/2", "my-lib", "@a/b", "Self-Hosted", "A/B", "\u{e9}t\u{e9}", "\u{c9}cole", "\u{6f22}\u{5b57}", "Stra\u{df}e", "\u{df}a", "\u{1c4}x", "\u{130}st", "\u{3a3}\u{39f}\u{3a3}", "\u{201c}Curly\u{201d}", "\u{2019}s", "GitHub's", "github\u{2019}s", "(GitHub)", "1.", "2nd", "#", "C#", "..", "!", "?", ",", "x", "a_B_c", "~", "--", "---", "=",
    "\u{200b}", "\u{301}", "\u{1f469}", "South Korea", "south korea's", "REPUBLIC OF KOREA", "Codeberg Pages.", "+", "*",
];
/// rarer: what sentence case has to leave alone
const FIXED: &[&str] = &[
    "<a Title=\"X>Y Z\">", "<!-- A Comment -->", "<?Php X ?>", "<![CDATA[ A B ]]>", "&Dagger;", "&Eacute;", "&Gt;", "&AMP;", "&#X41;", "[T](<A (B> \"C)\")", "[T](A 'B \"C')", "[T](A (B \\) C))", "[Code `X Y`](A)", "[![Alt](Img)](Out)", "[Ref][Lab El]", "[Lab El]", "[Lab El][]", "[^Note]", "![Ref][Lab El]", "[\"Q\" X]", "\\\"", "\\'", "\\<B C>", "`A`B`", "``", "`",
    "[It's][it's \"Q\"]", "\u{fffd}", "\u{fffd}0\u{fffd}", "\u{2018}", "\u{201c}", "[A \"B](C)", "\"A [B\" C](D)", "\\&", "&Foo", "&Foo;",
];

fn heading_text(r: &mut Rng) -> String {
    let mut s = String::new();
    for k in 0..r.range(1, 6) {
        if k > 0 {
            s.push_str(r.pick(&[" ", " ", " ", " ", " ", "", "-", "/", ": ", "  ", "; ", "\u{2014}", "_", "*", "'"]));
        }
        s.push_str(if r.chance(1, 9) { r.pick(FIXED) } else { r.pick(PIECES) });
    }
    s
}
fn heading(r: &mut Rng) -> String {
    let t = heading_text(r);
    match r.below(6) {
        0 => format!("{t}\n==="),
        1 => format!("{t}\n-----"),
        2 => format!("{t}\n{}\n{}", heading_text(r), r.pick(&["=", "---"])),
        3 => format!("{} {t} {}", "#".repeat(r.range(1, 6)), r.pick(&["#", "##", "######", "#\\#", "\\#", ""])),
        _ => format!("{} {t}", "#".repeat(r.range(1, 6))),
    }
}
fn options() -> Vec<(String, Options)> {
    let mut v = vec![];
    for (n, h1, h2) in [("underlined", true, true), ("with signs", false, false), ("mixed", true, false)] {
        for case in [None, Some(0), Some(1), Some(2)] {
            let mut o = plain_opts();
            o.setext_h1 = h1;
            o.setext_h2 = h2;
            o.heading_sentence_case = case.is_some();
            if let Some(c) = case {
                (o.heading_proper_nouns, o.heading_common_nouns) = nouns(c);
            }
            if case.is_none() || n == "underlined" || case == Some(1) {
                v.push((format!("{n}{}", case.map_or(String::new(), |c| format!(", sentence case {c}"))), o));
            }
        }
    }
    v
}

pub fn c11(c: &mut Ctx) {
    // the sentence case function
    for case in 0..3 {
        let (p, q) = nouns(case);
        let f = |s: &str| -> Res {
            let Some(r) = hk::heading::to_sentence_case(s, &p, &q) else { return Res::Skip };
            if s.contains('\u{fffd}') {
                return Res::Skip;
            }
            if fold(&r) == fold(s) { Res::Ok(r != s) } else { Res::Fail(format!("{s:?} became {r:?}")) }
        };
        let what = format!("the letters of a heading in sentence case, nouns {case}");
        c.exhaustive(&what, "aB '\"-", c.len(6), &f);
        c.exhaustive(&what, "aB:/\u{2019}.", c.len(5), &f);
        c.random(&what, "abcIAB  \"\"''--//:;.,()[]<>`\\&\u{2018}\u{2019}\u{201c}\u{201d}\u{2014}\u{df}\u{130}\u{e9}\u{3a3}1s", 30, 60_000, &f);
        c.generated(&what, 60_000, &heading_text, &f);
    }
    for (name, o) in options() {
        let case = o.heading_sentence_case;
        let whole = |s: &str| -> Res {
            let d = parse(s);
            let a = headings(&d, case);
            // Not meant here: items with nothing but a marker on their first line, and emphasis right
            // inside of emphasis. The function has its own mark for nouns of several words.
            let nested = d.find_all("emph").iter().chain(d.find_all("strong").iter()).any(|e| e.kids.iter().any(|k| k.is("emph") || k.is("strong")));
            if nested || s.to_lowercase().matches("[^note]:").count() > 1 || degenerate(&d) || d.odd_brackets() || a.is_empty() || (case && s.contains('\u{fffd}')) {
                return Res::Skip;
            }
            let out = fmt(s, &o);
            let b = headings(&parse(&out), case);
            if a != b {
                return Res::Fail(format!("headings {a:?} became {b:?}; output {out:?}"));
            }
            match underlines(&out) {
                None => Res::Ok(a.iter().any(|h| h.len() > 4)),
                Some(e) => Res::Fail(format!("{e}; output {out:?}")),
            }
        };
        c.generated(&format!("headings of a document, {name}"), 5000, &|r| {
            let n = r.range(1, 3);
            let mut s: String = (0..n).map(|_| format!("{}\n\n{}", heading(r), r.pick(&["", "text\n\n"]))).collect();
            if s.contains('[') {
                s.push_str("[lab el]: <Ref T> \"Ti T\"\n[it's \"q\"]: Q\n[\"q\" x]: Qx\n\n[^note]: n\n");
            }
            s
        }, &whole);
        for f in frames() {
            c.generated(&format!("a heading in a {}, {name}", f.0), 250, &|r| format!("{}\n", framed(&f, r.chance(1, 2), &heading(r))), &whole);
        }
        c.exhaustive(&format!("a short heading, {name}"), "a# \\-=", 4, &|s| whole(&format!("# {s}\n")));
        c.exhaustive(&format!("a short underlined heading, {name}"), "a#. 1>", 4, &|s| whole(&format!("{s}\n===\n")));
    }
}
