//! C05 wrapping changes only line breaks, C06 lines respect the width.
use crate::md::*;
use crate::p_block::{Gen, adjacent_lists, degenerate, first_diff, framed, frames, gen_blocks, shape_of};
use crate::p_text::{fmt, plain_opts, with_width};
use crate::util::*;
use hongdown::verif as hk;
use unicode_width::UnicodeWidthStr;

/// For each character: is it inside a code span or inside matching brackets, where a line must not
/// be broken?
fn unbreakable(t: &[char]) -> Vec<bool> {
    let mut v = vec![false; t.len()];
    let mut open: Vec<usize> = vec![];
    let mut i = 0;
    while i < t.len() {
        match t[i] {
            '\\' => i += 2,
            '`' => {
                let n = t[i..].iter().take_while(|c| **c == '`').count();
                let mut j = i + n;
                let mut end = None;
                while j < t.len() {
                    let m = t[j..].iter().take_while(|c| **c == '`').count();
                    if m == n {
                        end = Some(j);
                        break;
                    }
                    j += m.max(1);
                }
                match end {
                    Some(j) => {
                        v[i..j + n].iter_mut().for_each(|b| *b = true);
                        i = j + n;
                    }
                    None => i += n,
                }
            }
            '[' => {
                open.push(i);
                i += 1;
            }
            ']' => {
                if let Some(o) = open.pop() {
                    v[o..=i].iter_mut().for_each(|b| *b = true);
                }
                i += 1;
            }
            _ => i += 1,
        }
    }
    v
}

/// (text before each piece, piece): pieces are separated by spaces that may become a line break
fn pieces(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let u = unbreakable(&c);
    let mut v = vec![];
    let mut cur = String::new();
    for (k, ch) in c.iter().enumerate() {
        if *ch == ' ' && !u[k] {
            if !cur.is_empty() {
                v.push(std::mem::take(&mut cur));
            }
        } else {
            cur.push(*ch);
        }
    }
    if !cur.is_empty() {
        v.push(cur);
    }
    v
}

/// could a line that starts with this word be something else than a line of text?
fn special(w: &str) -> bool {
    let c = w.chars().next().unwrap_or('a');
    "-+=|:~#><".contains(c) || w.starts_with("[^") || (c.is_ascii_digit() && w.ends_with(['.', ')']))
}

/// A line that is wider than the columns it has must be one piece, fit without the pieces at its end
/// that may not start a line, or have nothing but pieces that may not stand alone before the last one.
fn wide_ok(line: &str, columns: usize) -> bool {
    let mut line = line.trim_end();
    let p = pieces(line);
    let mut n = p.len();
    while n > 1 && special(&p[n - 1]) {
        n -= 1;
        line = line[..line.len() - p[n].len()].trim_end_matches(' ');
    }
    // a tag alone on the first line would start an HTML block
    let tag = n > 1 && {
        let t = line[..line.len() - p[n - 1].len()].trim_end_matches(' ');
        let name = t.trim_start_matches('<').trim_start_matches('/');
        t.starts_with('<') && t.ends_with('>') && name.starts_with(|c: char| c.is_ascii_alphabetic()) && (t.contains(['"', '\'']) || t.matches(['<', '>']).count() == 2)
    };
    n <= 1 || tag || line.width() <= columns || p[..n - 1].iter().all(|p| special(p))
}

/// the lines of a wrapped text without their prefixes
fn lines_of(r: &str, first: &str, prefix: &str) -> Result<Vec<String>, String> {
    let mut v = vec![];
    for (k, l) in r.split('\n').enumerate() {
        let p = if k == 0 { first } else { prefix };
        match l.strip_prefix(p) {
            Some(t) => v.push(t.to_string()),
            None if r.is_empty() || (!l.is_empty() && l == p.trim_end()) => v.push(String::new()),
            None => return Err(format!("line {k} does not start with the prefix {p:?}")),
        }
    }
    Ok(v)
}

/// the words and hard breaks of a text with soft break marks
fn words_of(t: &str) -> Vec<String> {
    let mut v = vec![];
    for (k, s) in t.split('\n').enumerate() {
        if k > 0 {
            v.push("\n".into());
        }
        v.extend(s.split([' ', '\0']).filter(|w| !w.is_empty()).map(String::from));
    }
    v
}
/// the words and hard breaks of wrapped lines (a hard break is two spaces at the end of a line)
fn words_of_lines(l: &[String]) -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for (k, s) in l.iter().enumerate() {
        v.extend(s.split(' ').filter(|w| !w.is_empty()).map(String::from));
        if s.ends_with("  ") && k + 1 < l.len() {
            v.push("\n".into());
        }
    }
    v
}

const CASES: &[(&str, &str)] = &[("", ""), (" -  ", "    "), ("> ", "> "), ("[^1]: ", "      "), ("", "    "), ("漢 ", "> ")];

/// settings|text, where the settings select prefixes and width
fn split(s: &str) -> Option<(&'static str, &'static str, usize, &str)> {
    let (k, t) = s.split_once('|')?;
    let k: usize = k.parse().ok()?;
    let (f, p) = CASES[k % CASES.len()];
    Some((f, p, 8 + k / CASES.len(), t))
}
fn words_kept(t: &str, r: &str, f: &str, p: &str) -> Result<(), String> {
    let l = lines_of(r, f, p)?;
    let (a, mut b) = (words_of(t), words_of_lines(&l));
    if a != b {
        // a word after a hard break is escaped when it would start a block
        let mut k = 0;
        while k < b.len() && k < a.len() {
            if k > 0 && a[k - 1] == "\n" && a[k] != b[k] && b[k].replacen('\\', "", 1) == a[k] {
                b[k] = a[k].clone();
            }
            k += 1;
        }
    }
    if a != b {
        return Err(format!("words {a:?} became {b:?}"));
    }
    Ok(())
}
/// breaks put where the text has a space, outside of code spans and brackets
fn breaks_allowed(t: &str, r: &str, f: &str, p: &str) -> Result<(), String> {
    let l = lines_of(r, f, p)?;
    let c: Vec<char> = t.chars().collect();
    let u = unbreakable(&c);
    let mut k = 0;
    for (n, line) in l.iter().enumerate() {
        for ch in line.trim_end().chars() {
            while k < c.len() && c[k] == ' ' && ch != ' ' {
                k += 1;
            }
            if c.get(k) != Some(&ch) {
                return Err(format!("the text of line {n} is not the text of the paragraph"));
            }
            k += 1;
        }
        if n + 1 < l.len() && (c.get(k) != Some(&' ') || u[k]) {
            return Err(format!("line {n} ends where no break is allowed"));
        }
    }
    Ok(())
}
fn widths_ok(r: &str, f: &str, p: &str, w: usize) -> Result<(), String> {
    for (n, line) in lines_of(r, f, p)?.iter().enumerate() {
        let line = line.trim_end();
        let width = if n == 0 { f } else { p }.width() + line.width();
        if width > w && !wide_ok(line, w.saturating_sub(width - line.width())) {
            return Err(format!("line {line:?} is {width} columns wide, the limit is {w}"));
        }
    }
    Ok(())
}

const WORDS: &[&str] = &[
    "a", "bb", "word", "longer", "extraordinarily", "`c d`", "`` x ` y ``", "[l m](n)", "[o][p q]", "**b", "c**", "-", "1.", "2)", "#", ">", "=", "漢字", "é", "e.", "\\[", "[", "]", "`", "\\`", "![i j](k)", "<b>", "<div>", "[^1]", ":", "+", "x|y", "\\]", "--", "12.", "it's", "(s", "t)", "[u [v w] x](y)",
];
fn text(r: &mut Rng, words: &[&str], soft: bool, hard: bool) -> String {
    let n = r.range(1, 14);
    let mut s = String::from(*r.pick(words));
    for _ in 1..n {
        match r.below(24) {
            0..=2 if soft => s.push('\0'),
            3 if hard => s.push('\n'),
            4 => s.push_str("  "),
            _ => s.push(' '),
        }
        s.push_str(r.pick(words));
    }
    s
}
fn code_across(s: &str) -> bool {
    // code spans and brackets that go on after a soft or hard break: the source already breaks them
    s.split(['\0', '\n']).count() > 1 && s.split(['\0', '\n']).any(|l| l.matches('`').count() % 2 == 1 || l.contains('[') || l.contains(']'))
}

pub fn c05(c: &mut Ctx) {
    let single = |s: &str| -> Res {
        let Some((f, p, w, t)) = split(s) else { return Res::Skip };
        if t.contains(['\0', '\n']) {
            return Res::Skip;
        }
        let t = t.trim_matches(' ');
        let Some(r) = hk::wrap::wrap_single_segment(t, f, p, w) else { return Res::Skip };
        if let Err(e) = words_kept(t, &r, f, p).and_then(|_| breaks_allowed(t, &r, f, p)) {
            return Res::Fail(format!("{e}; text {t:?} became {r:?}"));
        }
        Res::Ok(r.contains('\n'))
    };
    for k in 0..CASES.len() {
        let g = |s: &str| single(&format!("{k}|{s}"));
        let l = c.len(6);
        c.exhaustive(&format!("breaking a text, prefixes {k}"), "ab `[]", l, &g);
    }
    c.generated("breaking a text", 60_000, &|r| format!("{}|{}", r.below(CASES.len() * 30), text(r, WORDS, false, false)), &single);
    let multi = |s: &str| -> Res {
        let Some((f, p, w, t)) = split(s) else { return Res::Skip };
        if t.is_empty() || t.split(['\0', '\n']).any(|l| l.trim_matches(' ').is_empty()) {
            return Res::Skip;
        }
        let mut res = Res::Skip;
        for (f, r) in [(p, hk::wrap_text(t, p, w)), (f, hk::wrap_text_first_line(t, f, p, w))] {
            let Some(r) = r else { continue };
            if let Err(e) = words_kept(t, &r, f, p) {
                return Res::Fail(format!("{e}; text {t:?} became {r:?}"));
            }
            res = Res::Ok(r.contains('\n'));
        }
        res
    };
    for k in 0..CASES.len() {
        let g = |s: &str| multi(&format!("{k}|{}", s.replace('/', "\0").replace('!', "\n")));
        let l = c.len(5);
        c.exhaustive(&format!("wrapping a text with breaks, prefixes {k}"), "ab -/!`", l, &g);
    }
    c.generated("wrapping a text with breaks", 60_000, &|r| format!("{}|{}", r.below(CASES.len() * 30), text(r, WORDS, true, true)), &multi);

    // whole documents: only line breaks change
    let fs = frames();
    let doc = |s: &str| -> Res {
        let Some((w, d)) = s.split_once('|') else { return Res::Skip };
        let Ok(w) = w.parse::<usize>() else { return Res::Skip };
        if !(8..200).contains(&w) {
            return Res::Skip;
        }
        let t = parse(d);
        if adjacent_lists(&t) || degenerate(&t) {
            return Res::Skip;
        }
        let out = fmt(d, &with_width(plain_opts(), w));
        let (a, b) = (shape_of(d), shape_of(&out));
        if a == b { Res::Ok(out.lines().count() > 2) } else { Res::Fail(format!("{}; output {out:?}", first_diff(&a, &b))) }
    };
    c.generated("wrapping a paragraph of a document", 40_000, &|r| {
        let f = &fs[r.below(fs.len())];
        let t = text(r, WORDS, true, true).replace('\0', "\n").replace("\n\n", "\n");
        let t = if r.chance(1, 4) { t.replacen('\n', "  \n", 1) } else { t };
        format!("{}|{}", r.range(8, 60), framed(f, r.chance(1, 3), &t))
    }, &doc);
    c.generated("wrapping a document", 8_000, &|r| {
        let g = Gen { lists: true, quotes: true, dls: true, tables: true, html: true, width: 20 };
        format!("{}|{}\n", r.range(8, 60), gen_blocks(r, &g, 2, 3))
    }, &doc);
}

pub fn c06(c: &mut Ctx) {
    let f = |s: &str| -> Res {
        let Some((f, p, w, t)) = split(s) else { return Res::Skip };
        if t.split(['\0', '\n']).any(|l| l.trim_matches(' ').is_empty()) || code_across(t) {
            return Res::Skip;
        }
        let mut res = Res::Skip;
        for (f, r) in [(p, hk::wrap_text(t, p, w)), (f, hk::wrap_text_first_line(t, f, p, w)), (f, if t.contains(['\0', '\n']) { None } else { hk::wrap::wrap_single_segment(t, f, p, w) })] {
            let Some(r) = r else { continue };
            if let Err(e) = widths_ok(&r, f, p, w) {
                return Res::Fail(format!("{e}; text {t:?} became {r:?}"));
            }
            // source lines that fit are kept up to the first that does not
            let src: Vec<&str> = t.split(['\0', '\n']).collect();
            let got = match lines_of(&r, f, p) {
                Ok(l) => l,
                Err(e) => return Res::Fail(e),
            };
            for (k, l) in src.iter().enumerate() {
                let l = l.trim_matches(' ');
                let pw = if k == 0 { f } else { p }.width();
                if src.iter().any(|l| l.split(' ').any(special)) || pw + l.width() > w {
                    break;
                }
                if src.len() > 1 && got.get(k).map(|g| g.trim_end()) != Some(l) {
                    return Res::Fail(format!("line {k} fits but was not kept: text {t:?} became {r:?}"));
                }
            }
            res = Res::Ok(r.contains('\n'));
        }
        res
    };
    for k in 0..CASES.len() {
        let g = |s: &str| f(&format!("{k}|{}", s.replace('/', "\0")));
        let l = c.len(7);
        c.exhaustive(&format!("widths of wrapped lines, prefixes {k}"), "a 漢/", l, &g);
    }
    c.generated("widths of wrapped lines", 100_000, &|r| format!("{}|{}", r.below(CASES.len() * 60), text(r, WORDS, true, true)), &f);

    // paragraphs in containers
    let fs = frames();
    let plain: Vec<&str> = WORDS.iter().copied().filter(|w| !special(w) && !w.contains(['[', ']', '`', '*', '<', '(', ')', '|'])).chain(["`c`", "*em*", "[l](m)"]).collect();
    let doc = |s: &str| -> Res {
        let Some((w, d)) = s.split_once('|') else { return Res::Skip };
        let Ok(w) = w.parse::<usize>() else { return Res::Skip };
        if !(8..200).contains(&w) {
            return Res::Skip;
        }
        let t = parse(d);
        if degenerate(&t) || !t.find_all("code_block").is_empty() || !t.find_all("html_block").is_empty() || !t.find_all("table").is_empty() || !t.find_all("heading").is_empty() {
            return Res::Skip;
        }
        let out = fmt(d, &with_width(plain_opts(), w));
        for l in out.lines() {
            let l = l.trim_end();
            if l.width() <= w {
                continue;
            }
            let mut marker = false;
            // the text after quote marks, list markers and footnote names
            let mut x = l;
            loop {
                let y = x.trim_start();
                // (the text after a marker is measured alone)
                let y = y.strip_prefix("> ").or(y.strip_prefix("-  ")).or(y.strip_prefix(":   ")).or(y.strip_prefix("[x] ")).or(y.strip_prefix("[ ] ")).unwrap_or(y);
                let y = if y.starts_with("[^") && y.contains("]: ") { &y[y.find("]: ").unwrap() + 3..] } else { y };
                let digits = y.chars().take_while(|c| c.is_ascii_digit()).count();
                let y = if digits > 0 && y[digits..].starts_with(". ") { &y[digits + 2..] } else { y };
                if y == x {
                    break;
                }
                marker |= !x.trim_start().starts_with('>') && x.trim_start() != y;
                x = y;
            }
            if !wide_ok(x, if marker { w } else { w.saturating_sub(l.width() - x.width()) }) && !x.starts_with("[!") {
                return Res::Fail(format!("line {l:?} is {} columns wide, the limit is {w}; output {out:?}", l.width()));
            }
        }
        Res::Ok(out.lines().count() > 2)
    };
    c.generated("widths of the lines of a document", 40_000, &|r| {
        let f = &fs[r.below(fs.len())];
        let t = text(r, &plain, true, false).replace('\0', "\n");
        format!("{}|{}", r.range(8, 60), framed(f, r.chance(1, 3), &t))
    }, &doc);
}
