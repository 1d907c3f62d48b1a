//! The contracts assumed of std (contracts/lib/chars.rs, strs.rs), transcribed definition by
//! definition and evaluated against std: every char, every short string over an alphabet.
use crate::util::*;

type S = [char];

fn c_ws(c: char) -> bool {
    ('\t' <= c && c <= '\r')
        || c == ' '
        || c == '\u{85}'
        || c == '\u{a0}'
        || c == '\u{1680}'
        || ('\u{2000}' <= c && c <= '\u{200a}')
        || c == '\u{2028}'
        || c == '\u{2029}'
        || c == '\u{202f}'
        || c == '\u{205f}'
        || c == '\u{3000}'
}
fn c_adigit(c: char) -> bool { '0' <= c && c <= '9' }
fn c_aupper(c: char) -> bool { 'A' <= c && c <= 'Z' }
fn c_alower(c: char) -> bool { 'a' <= c && c <= 'z' }
fn c_apunct(c: char) -> bool {
    ('!' <= c && c <= '/') || (':' <= c && c <= '@') || ('[' <= c && c <= '`') || ('{' <= c && c <= '~')
}
fn trim_end_s(s: &S) -> &S { if !s.is_empty() && c_ws(s[s.len() - 1]) { trim_end_s(&s[..s.len() - 1]) } else { s } }
fn trim_start_s(s: &S) -> &S { if !s.is_empty() && c_ws(s[0]) { trim_start_s(&s[1..]) } else { s } }
fn trim_end_c(s: &S, c: char) -> &S { if !s.is_empty() && s[s.len() - 1] == c { trim_end_c(&s[..s.len() - 1], c) } else { s } }
fn trim_start_c(s: &S, c: char) -> &S { if !s.is_empty() && s[0] == c { trim_start_c(&s[1..], c) } else { s } }
fn rep_s(s: &S, n: usize) -> Vec<char> {
    if n == 0 {
        vec![]
    } else {
        let mut r = rep_s(s, n - 1);
        r.extend(s);
        r
    }
}
fn split_s(s: &S, c: char) -> Vec<Vec<char>> {
    if s.is_empty() {
        return vec![vec![]];
    }
    let (l, d) = (s[s.len() - 1], &s[..s.len() - 1]);
    let mut p = split_s(d, c);
    if l == c {
        p.push(vec![]);
    } else if p.is_empty() {
        p = vec![vec![l]];
    } else {
        p.last_mut().unwrap().push(l);
    }
    p
}
fn lines_s(s: &S) -> Vec<Vec<char>> {
    let p = split_s(s, '\n');
    let n = p.len();
    let mut q = p;
    if n > 0 && q[n - 1].is_empty() {
        q.pop();
    }
    for (i, l) in q.iter_mut().enumerate() {
        if i + 1 < n && l.last() == Some(&'\r') {
            l.pop();
        }
    }
    q
}
fn words_s(s: &S) -> Vec<Vec<char>> {
    if s.is_empty() {
        return vec![];
    }
    let (l, d) = (s[s.len() - 1], &s[..s.len() - 1]);
    let mut p = words_s(d);
    if !c_ws(l) {
        if s.len() >= 2 && !c_ws(s[s.len() - 2]) && !p.is_empty() {
            p.last_mut().unwrap().push(l);
        } else {
            p.push(vec![l]);
        }
    }
    p
}
fn join_s(v: &[Vec<char>], sep: &S) -> Vec<char> {
    if v.is_empty() {
        vec![]
    } else if v.len() == 1 {
        v[0].clone()
    } else {
        let mut r = join_s(&v[..v.len() - 1], sep);
        r.extend(sep);
        r.extend(&v[v.len() - 1]);
        r
    }
}
fn dec_s(n: usize) -> String {
    let d = (b'0' + (n % 10) as u8) as char;
    if n < 10 { d.to_string() } else { format!("{}{d}", dec_s(n / 10)) }
}
fn first_ix(s: &S, c: char) -> usize { if s.is_empty() || s[0] == c { 0 } else { 1 + first_ix(&s[1..], c) } }
fn tails_s(s: &S, c: char) -> Vec<Vec<char>> {
    if s.is_empty() {
        return vec![];
    }
    let mut r = if s[0] == c { vec![s[1..].to_vec()] } else { vec![] };
    r.extend(tails_s(&s[1..], c));
    r
}
fn repl_s(s: &S, c: char, by: &S) -> Vec<char> {
    if s.is_empty() {
        return vec![];
    }
    let mut r = if s[0] == c { by.to_vec() } else { vec![s[0]] };
    r.extend(repl_s(&s[1..], c, by));
    r
}
fn repl_str(s: &S, p: &S, by: &S) -> Vec<char> {
    if p.is_empty() || s.is_empty() {
        return s.to_vec();
    }
    let (mut r, rest) = if s.starts_with(p) { (by.to_vec(), &s[p.len()..]) } else { (vec![s[0]], &s[1..]) };
    r.extend(repl_str(rest, p, by));
    r
}
fn c_len(c: char) -> usize { if c <= '\u{7f}' { 1 } else if c <= '\u{7ff}' { 2 } else if c <= '\u{ffff}' { 3 } else { 4 } }
fn blen(s: &S) -> usize { if s.is_empty() { 0 } else { blen(&s[..s.len() - 1]) + c_len(s[s.len() - 1]) } }
fn byte_k(s: &S, b: usize) -> Option<usize> { (0..=s.len()).find(|&k| blen(&s[..k]) == b) }
fn hexd(n: u32) -> char { if n < 10 { ('0' as u32 + n) as u8 as char } else { ('A' as u32 + (n - 10)) as u8 as char } }
fn occurs(s: &S, p: &S) -> bool {
    (0..=s.len()).any(|i| i + p.len() <= s.len() && s[i..i + p.len()] == *p)
}
fn vs<'a>(i: impl Iterator<Item = &'a str>) -> Vec<Vec<char>> { i.map(|l| l.chars().collect()).collect() }
fn is(what: &str, ok: bool) -> Result<(), String> { if ok { Ok(()) } else { Err(what.to_string()) } }

fn one_char(c: char) -> Result<(), String> {
    let a = c <= '\u{7f}';
    is("c_ws", c.is_whitespace() == c_ws(c))?;
    is("ascii classes", c.is_ascii() == a
        && c.is_ascii_digit() == c_adigit(c)
        && c.is_ascii_uppercase() == c_aupper(c)
        && c.is_ascii_lowercase() == c_alower(c)
        && c.is_ascii_alphabetic() == (c_aupper(c) || c_alower(c))
        && c.is_ascii_alphanumeric() == (c_aupper(c) || c_alower(c) || c_adigit(c))
        && c.is_ascii_punctuation() == c_apunct(c)
        && c.is_ascii_control() == (c <= '\u{1f}' || c == '\u{7f}')
        && c.is_ascii_graphic() == ('!' <= c && c <= '~'))?;
    is("ax_alpha_ascii", !a || c.is_alphabetic() == (c_aupper(c) || c_alower(c)))?;
    is("ax_numeric_ascii", !a || c.is_numeric() == c_adigit(c))?;
    is("ax_upper_ascii", !a || c.is_uppercase() == c_aupper(c))?;
    is("ax_lower_ascii", !a || c.is_lowercase() == c_alower(c))?;
    is("ax_alnum_not_ws", !c_ws(c) || !c.is_alphabetic() && !c.is_numeric())?;
    is("c_alnum", c.is_alphanumeric() == (c.is_alphabetic() || c.is_numeric()))?;
    is("c_len", c.len_utf8() == c_len(c))?;
    let s = c.to_string();
    use unicode_width::UnicodeWidthStr;
    is("ax_width_bound", s.width() <= 4)?;
    for n in [1, 3] {
        let p = " ".repeat(n);
        is("ax_width_pad_right", format!("{s}{p}").width() == s.width() + n)?;
        is("ax_width_pad_left", format!("{p}{s}").width() == s.width() + n)?;
    }
    Ok(())
}

fn one_string(t: &str) -> Result<(), String> {
    use unicode_width::UnicodeWidthStr;
    let v: Vec<char> = t.chars().collect();
    let s = &v[..];
    let cs = |x: &str| x.chars().collect::<Vec<_>>();
    is("hd_trim", cs(t.trim()) == trim_start_s(trim_end_s(s)))?;
    is("hd_trim_end", cs(t.trim_end()) == trim_end_s(s))?;
    is("hd_trim_start", cs(t.trim_start()) == trim_start_s(s))?;
    is("hd_chars_rev", t.chars().rev().eq(s.iter().rev().copied()))?;
    is("hd_first_char", t.chars().next() == s.first().copied() && t.chars().last() == s.last().copied())?;
    is("hd_lines", vs(t.lines()) == lines_s(s))?;
    is("hd_split_ws", vs(t.split_whitespace()) == words_s(s))?;
    is("hd_char_count", t.chars().count() == s.len())?;
    is("String::len", t.to_string().len() == blen(s) && t.len() == blen(s))?;
    is("hd_string_of", cs(&s.iter().collect::<String>()) == s)?;
    for b in 0..=blen(s) + 1 {
        is("on_char", t.is_char_boundary(b) == byte_k(s, b).is_some())?;
        let Some(k) = byte_k(s, b) else { continue };
        let mut x = t.to_string();
        x.truncate(b);
        is("hd_truncate_at", cs(&x) == s[..k])?;
        is("hd_from, hd_to", cs(&t[b..]) == s[k..] && cs(&t[..b]) == s[..k])?;
        for c in b..=blen(s) {
            if let Some(l) = byte_k(s, c) {
                is("hd_between", cs(&t[b..c]) == s[k..l])?;
            }
        }
    }
    let mut it = t.chars();
    for k in 0..=s.len() {
        is("HdIter", it.as_str().chars().eq(s[k..].iter().copied()) && it.next() == s.get(k).copied())?;
    }
    for c in ['a', ' ', '\n', '-', 'é'] {
        let f = first_ix(s, c);
        is("hd_split_once", t.split_once(c).map(|(a, b)| (cs(a), cs(b))) == (f < s.len()).then(|| (s[..f].to_vec(), s[f + 1..].to_vec())))?;
        is("hd_tails", !c.is_ascii() || vs(t.match_indices(c).map(|(i, _)| &t[i + 1..])) == tails_s(s, c))?;
        is("hd_split", vs(t.split(c)) == split_s(s, c))?;
        is("hd_trim_end_matches", cs(t.trim_end_matches(c)) == trim_end_c(s, c))?;
        is("hd_trim_start_matches", cs(t.trim_start_matches(c)) == trim_start_c(s, c))?;
        is("char patterns", t.starts_with(c) == (s.first() == Some(&c)) && t.ends_with(c) == (s.last() == Some(&c)) && t.contains(c) == s.contains(&c))?;
        is("char strips", t.strip_prefix(c).map(cs) == (s.first() == Some(&c)).then(|| s[1..].to_vec())
            && t.strip_suffix(c).map(cs) == (s.last() == Some(&c)).then(|| s[..s.len() - 1].to_vec()))?;
        let mut x = t.to_string();
        x.truncate(x.trim_end_matches(c).len());
        is("hd_truncate_end", cs(&x) == trim_end_c(s, c))?;
    }
    for p in ["", "a", "- ", "aa", "a\r\n", "é-"] {
        let q = cs(p);
        is("str patterns", t.starts_with(p) == (s.len() >= q.len() && s[..q.len()] == q)
            && t.ends_with(p) == (s.len() >= q.len() && s[s.len() - q.len()..] == q)
            && t.contains(p) == occurs(s, &q))?;
        is("str strips", t.strip_prefix(p).map(cs) == (s.len() >= q.len() && s[..q.len()] == q).then(|| s[q.len()..].to_vec())
            && t.strip_suffix(p).map(cs) == (s.len() >= q.len() && s[s.len() - q.len()..] == q).then(|| s[..s.len() - q.len()].to_vec()))?;
        is("hd_replace of a string", q.is_empty() || cs(&t.replace(p, "-b")) == repl_str(s, &q, &['-', 'b']))?;
        is("hd_join", cs(&t.split('a').collect::<Vec<_>>().join(p)) == join_s(&split_s(s, 'a'), &q))?;
    }
    for n in 0..3 {
        is("hd_replace", cs(&t.replace('a', &" -a"[..n])) == repl_s(s, 'a', &[' ', '-', 'a'][..n]))?;
        is("hd_repeat", cs(&t.repeat(n)) == rep_s(s, n))?;
        let p = " ".repeat(n);
        is("ax_width_pad", format!("{t}{p}").width() == t.width() + n && format!("{p}{t}").width() == t.width() + n)?;
    }
    is("ax_width_bound", t.width() <= 4 * s.len())?;
    is("ax_width_empty", "".width() == 0)
}

/// IndexMap and HashMap against sequences of entries
fn containers() {
    let keys = ["a", "b", "c"];
    for code in 0..3usize.pow(5) {
        let (mut ix, mut seq) = (indexmap::IndexMap::<String, usize>::new(), Vec::<(String, usize)>::new());
        let (mut hm, mut m) = (std::collections::HashMap::<String, usize>::new(), std::collections::BTreeMap::<String, usize>::new());
        let mut x = code;
        for step in 0..5 {
            let k = keys[x % 3].to_string();
            x /= 3;
            ix.insert(k.clone(), step);
            match seq.iter().position(|e| e.0 == k) {
                Some(i) => seq[i] = (k.clone(), step),
                None => seq.push((k.clone(), step)),
            }
            hm.entry(k.clone()).or_insert(step);
            if !m.contains_key(&k) {
                m.insert(k.clone(), step);
            }
            assert!(ix.iter().map(|(k, v)| (k.clone(), *v)).eq(seq.iter().cloned()), "ix_insert");
            assert!(keys.iter().all(|k| hm.get(*k) == m.get(*k)), "hd_or_insert");
        }
        assert!(ix.drain(..).eq(seq) && ix.is_empty(), "hd_drain");
    }
}

pub fn shims(c: &mut Ctx) {
    let f = |t: &str| match t.chars().next().map_or(Ok(()), one_char) {
        Ok(()) => Res::Ok(true),
        Err(e) => Res::Fail(e),
    };
    if c.shard == 0 {
        for x in '\0'..=char::MAX {
            c.check("contracts of char methods", x.encode_utf8(&mut [0; 4]), &f);
        }
        c.bound("contracts of char methods: every char");
    }
    let g = |t: &str| match one_string(t) {
        Ok(()) => Res::Ok(!t.is_empty()),
        Err(e) => Res::Fail(e),
    };
    c.exhaustive("contracts of str methods", "aé- \n\r", 5, &g);
    c.random("contracts of longer strs", "aaéé--  \n\r\t\u{a0}\u{3000}\u{85}字\u{fe0f}❤\u{200d}0#👩", 24, 20_000, &g);
    let h = |t: &str| match t.parse::<usize>() {
        Ok(n) if n.to_string() != dec_s(n) => Res::Fail("dec_s".into()),
        _ => Res::Ok(true),
    };
    for n in (0..2000).chain([99_999, 100_000, usize::MAX]) {
        c.check("writing a number", &n.to_string(), &h);
    }
    containers();
    for n in 0..256u32 {
        assert!(format!("{:02X}", n) == format!("{}{}", hexd(n / 16), hexd(n % 16)));
    }
    for n in 0..100usize {
        let v = vec![n; n];
        assert!(v.len() == n && v.iter().all(|x| *x == n));
    }
}
