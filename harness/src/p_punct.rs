//! C07 punctuation transformations, C08 dashes.
use crate::md::*;
use crate::p_block::{degenerate, first_diff, framed, frames};
use crate::p_text::{fmt, plain_opts, with_width};
use crate::util::*;
use hongdown::verif as hk;
use hongdown::{DashPattern, DashSetting, Options};

/// settings as a number: 4 switches, then an en and an em pattern
const PATS: [&str; 6] = ["", "--", "---", "-", "=>", "~~-"];
pub fn settings(k: usize) -> Option<Options> {
    let mut o = plain_opts();
    o.curly_double_quotes = k & 1 != 0;
    o.curly_single_quotes = k & 2 != 0;
    o.curly_apostrophes = k & 4 != 0;
    o.ellipsis = k & 8 != 0;
    let dash = |p: &str| match DashPattern::new(p.to_string()) {
        Ok(p) => DashSetting::Pattern(p),
        Err(_) => DashSetting::Disabled,
    };
    let (en, em) = (PATS[k / 16 % 6], PATS[k / 96 % 6]);
    if en == em && !en.is_empty() {
        return None;
    }
    o.en_dash = dash(en);
    o.em_dash = dash(em);
    Some(o)
}
const N: usize = 16 * 36;

fn pat(d: &DashSetting) -> Vec<char> {
    match d {
        DashSetting::Pattern(p) => p.as_str().chars().collect(),
        DashSetting::Disabled => vec![],
    }
}
/// one dash: every place where the pattern stands, from left to right; a one-character pattern only between spaces
pub fn dash_ref(t: &[char], p: &[char], c: char) -> Vec<char> {
    if p.is_empty() {
        return t.to_vec();
    }
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        let e = i + p.len();
        let here = e <= t.len() && (0..p.len()).all(|k| t[i + k] == p[k]);
        let free = p.len() > 1 || ((i == 0 || t[i - 1].is_whitespace()) && (e >= t.len() || t[e].is_whitespace()));
        if here && free {
            o.push(c);
            i = e;
        } else {
            o.push(t[i]);
            i += 1;
        }
    }
    o
}
fn dashes_ref(t: &[char], o: &Options) -> Vec<char> {
    let (en, em) = (pat(&o.en_dash), pat(&o.em_dash));
    if en.len() > em.len() { dash_ref(&dash_ref(t, &en, '–'), &em, '—') } else { dash_ref(&dash_ref(t, &em, '—'), &en, '–') }
}
/// runs of periods: four are an ellipsis and a period, three that remain are an ellipsis
fn dots_ref(t: &[char]) -> Vec<char> {
    let mut o = vec![];
    let mut i = 0;
    while i < t.len() {
        let mut n = 0;
        while i + n < t.len() && t[i + n] == '.' {
            n += 1;
        }
        if n == 0 {
            o.push(t[i]);
            i += 1;
            continue;
        }
        for _ in 0..n / 4 {
            o.extend(['…', '.']);
        }
        match n % 4 {
            3 => o.push('…'),
            m => o.extend(std::iter::repeat_n('.', m)),
        }
        i += n;
    }
    o
}
fn doubles_ref(t: &[char]) -> Vec<char> {
    let mut open = true;
    let mut o = vec![];
    for i in 0..t.len() {
        if t[i] != '"' {
            o.push(t[i]);
            continue;
        }
        let left = i == 0 || t[i - 1].is_whitespace() || "([{“‘".contains(t[i - 1]);
        let right = i + 1 == t.len() || t[i + 1].is_whitespace() || ".,;:!?)]}".contains(t[i + 1]);
        let opens = if left != right { left } else { open };
        o.push(if opens { '“' } else { '”' });
        open = !opens;
    }
    o
}

fn transformed(t: &str, r: &str, o: &Options) -> Res {
    let tc: Vec<char> = t.chars().collect();
    let mut c = dashes_ref(&tc, o);
    if o.ellipsis {
        c = dots_ref(&c);
    }
    if o.curly_double_quotes {
        c = doubles_ref(&c);
    }
    let rc: Vec<char> = r.chars().collect();
    let want: String = c.iter().collect();
    if rc.len() != c.len() {
        return Res::Fail(format!("{t:?} became {r:?}, expected {want:?} up to single quotation marks"));
    }
    for k in 0..c.len() {
        let between = |f: &dyn Fn(char) -> bool| k > 0 && k + 1 < c.len() && f(c[k - 1]) && f(c[k + 1]);
        let fine = if c[k] != '\'' {
            rc[k] == c[k]
        } else if between(&|x| x.is_alphabetic()) {
            rc[k] == if o.curly_apostrophes { '’' } else { '\'' }
        } else if o.curly_single_quotes {
            matches!(rc[k], '\'' | '‘' | '’')
        } else if o.curly_apostrophes {
            matches!(rc[k], '\'' | '’')
        } else {
            rc[k] == '\''
        };
        if !fine {
            return Res::Fail(format!("{t:?} became {r:?}, expected {want:?} up to single quotation marks; position {k}"));
        }
    }
    Res::Ok(r != t)
}
/// split off the settings: the text after "N|"
fn with_settings(s: &str) -> Option<(Options, &str)> {
    let (n, t) = s.split_once('|')?;
    let o = settings(n.parse::<usize>().ok().filter(|k| *k < N)?)?;
    Some((o, t))
}

/// the inline dump of a tree with every text replaced
fn mapped(n: &Node, o: &Options) -> Option<Node> {
    let mut m = n.clone();
    if m.is("text") {
        m.text = hk::punctuation::transform_punctuation(&m.text, o)?;
    }
    if n.is("link") && n.text == format!("{}\0", n.plain()) {
        return Some(m); // an autolink shows its destination
    }
    let mut kids = vec![];
    for c in &n.kids {
        kids.push(mapped(c, o)?);
    }
    m.kids = kids;
    Some(m)
}
/// headings, paragraphs, cells and terms with their texts
fn leaves(n: &Node, out: &mut Vec<String>) {
    if matches!(n.kind.as_str(), "paragraph" | "heading" | "cell") {
        out.push(format!("{}: {}", n.kind, n.inline()));
        return;
    }
    if matches!(n.kind.as_str(), "code_block" | "html_block") {
        out.push(format!("{}: {}", n.kind, n.text.trim_end_matches('\n')));
    }
    for c in &n.kids {
        leaves(c, out);
    }
}

fn docs(c: &mut Ctx, what: &str, n: usize, only_dashes: bool) {
    let fs = frames();
    let doc = move |s: &str| -> Res {
        let Some((o, d)) = with_settings(s) else { return Res::Skip };
        let o = with_width(o, 200);
        let before = parse(d);
        // a bare `<` may become a tag only because of what the quotes around it became
        if before.find_all("text").iter().any(|n| n.text.contains('<')) {
            return Res::Skip;
        }
        if degenerate(&before) {
            return Res::Skip;
        }
        let Some(m) = mapped(&before, &o) else { return Res::Skip };
        let (mut a, mut b) = (vec![], vec![]);
        leaves(&m, &mut a);
        let out = fmt(d, &o);
        leaves(&parse(&out), &mut b);
        if a != b {
            return Res::Fail(format!("{}; output {out:?}", first_diff(&a.join("\n"), &b.join("\n"))));
        }
        Res::Ok(a.len() > 1 || out != d)
    };
    c.generated(
        what,
        n,
        &move |r| {
            let words = ["a", "it's", "\"b c\"", "'d'", "e...", "f....", "g--h", "i---j", "k - l", "=>", "\"", "don't", "'80s", "m=>n", "(\"o\")", "~~-", "\"p", "q\"", "漢'字", "é...", "5'", "-", "--", "..", "x's", "`\"r\" -- s...`", "*\"t\"*", "**u--v**", "[w 'x'](/y--z \"it's...\")", "<i title=\"a--b\">", "![a--b](/c...d)", "<http://a--b.c/d...e>", "\\\"", "&quot;", "\\-\\-", "l'eau", "`'`", "`...`"];
            let mut k = r.below(N);
            if only_dashes {
                k = k / 16 * 16;
            }
            let n = r.range(1, 8);
            let text = (0..n).map(|_| r.pick(&words).to_string()).collect::<Vec<_>>().join(" ");
            let f = &fs[r.below(fs.len())];
            let body = match r.below(6) {
                0 => format!("## {text}"),
                1 => format!("| h |\n|---|\n| {} |", text.replace('|', "")),
                2 => format!("{text}\n\n```\n\"code\" -- it's...\n```"),
                _ => text,
            };
            format!("{k}|{}", framed(f, r.chance(1, 4), &body))
        },
        &doc,
    );
}

pub fn c07(c: &mut Ctx) {
    let f = |s: &str| -> Res {
        let Some((o, t)) = with_settings(s) else { return Res::Skip };
        let Some(r) = hk::punctuation::transform_punctuation(t, &o) else { return Res::Skip };
        transformed(t, &r, &o)
    };
    for k in [1usize, 2, 4, 6, 8, 15, 16 + 15, 96 + 15] {
        let g = |s: &str| f(&format!("{k}|{s}"));
        let l = c.len(5);
        c.exhaustive(&format!("transforming a text, settings {k}"), "a 'b\".-(", l.min(5), &g);
    }
    c.generated(
        "transforming a text, any settings",
        150_000,
        &|r| format!("{}|{}", r.below(N), r.string(&"aabsS15  ''\"\"..--=>~()[]{},.;:!?“”‘’…–—é漢\u{a0}\t".chars().collect::<Vec<_>>(), 24)),
        &f,
    );
    docs(c, "punctuation of a document", 40_000, false);
}

pub fn c08(c: &mut Ctx) {
    // one dash
    let one = |s: &str| -> Res {
        let Some((p, t)) = s.split_once('|') else { return Res::Skip };
        if DashPattern::new(p.to_string()).is_err() {
            return Res::Skip;
        }
        let Some(r) = hk::punctuation::transform_dashes(t, p, '—') else { return Res::Skip };
        let (tc, pc): (Vec<char>, Vec<char>) = (t.chars().collect(), p.chars().collect());
        let want: String = dash_ref(&tc, &pc, '—').into_iter().collect();
        match eq(&format!("pattern {p:?} in {t:?}"), &r, &want) {
            Res::Ok(_) => Res::Ok(r != t),
            x => x,
        }
    };
    for p in ["-", "--", "---", "-a", "aa", "a-a"] {
        let g = |s: &str| one(&format!("{p}|{s}"));
        let l = c.len(7);
        c.exhaustive(&format!("replacing the pattern {p:?}"), "-a ", l, &g);
    }
    c.generated("replacing a pattern", 100_000, &|r| {
        let al: Vec<char> = "---=>>a  ~b\u{a0}é…–—“”‘’.,()1!\t".chars().collect();
        let p: String = (0..r.range(1, 4)).map(|_| *r.pick(&['-', '-', '=', '>', 'a', '~'])).collect();
        format!("{p}|{}", r.string(&al, 16))
    }, &one);
    // both dashes through the whole pipeline
    let both = |s: &str| -> Res {
        let Some((en, x)) = s.split_once('|') else { return Res::Skip };
        let Some((em, t)) = x.split_once('|') else { return Res::Skip };
        let mut o = plain_opts();
        for (p, d) in [(en, &mut o.en_dash), (em, &mut o.em_dash)] {
            *d = match DashPattern::new(p.to_string()) {
                Ok(p) => DashSetting::Pattern(p),
                Err(_) => DashSetting::Disabled,
            };
        }
        let same = en == em && matches!(o.en_dash, DashSetting::Pattern(_));
        let rejected = hongdown::validate_dash_settings(&o).is_err();
        if same != rejected {
            return Res::Fail(format!("patterns {en:?} and {em:?}: rejected is {rejected}"));
        }
        if same {
            return ok();
        }
        let Some(r) = hk::punctuation::transform_punctuation(t, &o) else { return Res::Skip };
        let tc: Vec<char> = t.chars().collect();
        let want: String = dashes_ref(&tc, &o).into_iter().collect();
        eq(&format!("en dash {en:?}, em dash {em:?} in {t:?}"), &r, &want)
    };
    c.generated("replacing two patterns", 100_000, &|r| {
        let ps = ["-", "--", "---", "----", "=>", "=", "-=", ">", "--=", ""];
        let al: Vec<char> = "-----==>> aa~é…–—“”.,(1!\t".chars().collect();
        format!("{}|{}|{}", r.pick(&ps), r.pick(&ps), r.string(&al, 16))
    }, &both);
    docs(c, "dashes of a document", 30_000, true);
}
