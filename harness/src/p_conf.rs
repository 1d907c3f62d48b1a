//! C09 (validated settings) and C10 (layers of configuration).
use crate::md;
use crate::util::*;
use hongdown::config::*;
use hongdown::{CodeFormatter, Options};
use std::path::{Path, PathBuf};

/// The settings: section, key, spellings of accepted values, spellings of rejected ones.
type Key = (&'static str, &'static str, &'static [&'static str], &'static [&'static str]);
const KEYS: &[Key] = &[
    ("", "no_inherit", &["true", "false"], &["1", "\"yes\""]),
    ("", "line_width", &["8", "9", "40", "80", "100", "1000000"], &["0", "7", "-1", "80.0", "\"80\"", "true"]),
    ("", "include", &["[]", "[\"*.md\"]", "[\"a/**\", \"b.md\"]"], &["\"*.md\"", "[1]"]),
    ("", "exclude", &["[]", "[\"x.md\"]"], &["true"]),
    ("", "git_aware", &["true", "false"], &["0"]),
    ("heading", "setext_h1", &["true", "false"], &["\"true\""]),
    ("heading", "setext_h2", &["true", "false"], &["2"]),
    ("heading", "sentence_case", &["true", "false"], &["[]"]),
    ("heading", "proper_nouns", &["[]", "[\"Foo\", \"BAR\"]"], &["\"Foo\""]),
    ("heading", "common_nouns", &["[]", "[\"Go\"]"], &["[true]"]),
    ("unordered_list", "unordered_marker", &["\"-\"", "\"*\"", "\"+\""], &["\".\"", "\"\"", "\"--\"", "1"]),
    ("unordered_list", "leading_spaces", &["0", "1", "2", "3"], &["4", "5", "100", "-1", "\"1\""]),
    ("unordered_list", "trailing_spaces", &["0", "1", "2", "3"], &["4", "7", "-2"]),
    ("unordered_list", "indent_width", &["1", "2", "4", "8"], &["0", "-4"]),
    ("ordered_list", "odd_level_marker", &["\".\"", "\")\""], &["\"-\"", "\"\""]),
    ("ordered_list", "even_level_marker", &["\".\"", "\")\""], &["\":\""]),
    ("ordered_list", "pad", &["\"start\"", "\"end\""], &["\"Start\"", "\"middle\""]),
    ("ordered_list", "indent_width", &["1", "3", "4", "5"], &["0", "-1"]),
    ("code_block", "fence_char", &["\"~\"", "\"`\""], &["\"-\"", "\"~~\""]),
    ("code_block", "min_fence_length", &["3", "4", "7"], &["0", "1", "2", "-3"]),
    ("code_block", "space_after_fence", &["true", "false"], &["1"]),
    ("code_block", "default_language", &["\"\"", "\"text\""], &["false"]),
    ("thematic_break", "style", &["\"***\"", "\"- - -\"", "\"____\"", "\"* * *\""], &["\"\"", "\"**\"", "\"*-*\"", "\"abc\"", "\"***-\"", "\"* * -\"", "\"---.\"", "3"]),
    ("thematic_break", "leading_spaces", &["0", "1", "2", "3"], &["4", "-1"]),
    ("punctuation", "curly_double_quotes", &["true", "false"], &["\"no\""]),
    ("punctuation", "curly_single_quotes", &["true", "false"], &["0"]),
    ("punctuation", "curly_apostrophes", &["true", "false"], &["1"]),
    ("punctuation", "ellipsis", &["true", "false"], &["\"...\""]),
    ("punctuation", "en_dash", &["false", "\"--\"", "\"~~\""], &["true", "\"\"", "\"- -\"", "\"–\"", "1"]),
    ("punctuation", "em_dash", &["false", "\"---\"", "\"--\""], &["true", "\"\"", "\"-\\t-\"", "\"\\u0007\""]),
];

fn arr(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", "))
}
fn dash(d: &DashSetting) -> String {
    match d {
        DashSetting::Disabled => "false".into(),
        DashSetting::Pattern(p) => format!("{:?}", p.as_str()),
    }
}
/// The value of a setting, written as in a file.
fn value(c: &Config, s: &str, k: &str) -> String {
    match (s, k) {
        ("", "no_inherit") => c.no_inherit.to_string(),
        ("", "line_width") => c.line_width.get().to_string(),
        ("", "include") => arr(&c.include),
        ("", "exclude") => arr(&c.exclude),
        ("", "git_aware") => c.git_aware.to_string(),
        ("heading", "setext_h1") => c.heading.setext_h1.to_string(),
        ("heading", "setext_h2") => c.heading.setext_h2.to_string(),
        ("heading", "sentence_case") => c.heading.sentence_case.to_string(),
        ("heading", "proper_nouns") => arr(&c.heading.proper_nouns),
        ("heading", "common_nouns") => arr(&c.heading.common_nouns),
        ("unordered_list", "unordered_marker") => format!("\"{}\"", c.unordered_list.unordered_marker.as_char()),
        ("unordered_list", "leading_spaces") => c.unordered_list.leading_spaces.get().to_string(),
        ("unordered_list", "trailing_spaces") => c.unordered_list.trailing_spaces.get().to_string(),
        ("unordered_list", "indent_width") => c.unordered_list.indent_width.get().to_string(),
        ("ordered_list", "odd_level_marker") => format!("\"{}\"", c.ordered_list.odd_level_marker.as_char()),
        ("ordered_list", "even_level_marker") => format!("\"{}\"", c.ordered_list.even_level_marker.as_char()),
        ("ordered_list", "pad") => if c.ordered_list.pad == OrderedListPad::Start { "\"start\"" } else { "\"end\"" }.into(),
        ("ordered_list", "indent_width") => c.ordered_list.indent_width.get().to_string(),
        ("code_block", "fence_char") => format!("\"{}\"", c.code_block.fence_char.as_char()),
        ("code_block", "min_fence_length") => c.code_block.min_fence_length.get().to_string(),
        ("code_block", "space_after_fence") => c.code_block.space_after_fence.to_string(),
        ("code_block", "default_language") => format!("{:?}", c.code_block.default_language),
        ("thematic_break", "style") => format!("{:?}", c.thematic_break.style.as_str()),
        ("thematic_break", "leading_spaces") => c.thematic_break.leading_spaces.get().to_string(),
        ("punctuation", "curly_double_quotes") => c.punctuation.curly_double_quotes.to_string(),
        ("punctuation", "curly_single_quotes") => c.punctuation.curly_single_quotes.to_string(),
        ("punctuation", "curly_apostrophes") => c.punctuation.curly_apostrophes.to_string(),
        ("punctuation", "ellipsis") => c.punctuation.ellipsis.to_string(),
        ("punctuation", "en_dash") => dash(&c.punctuation.en_dash),
        ("punctuation", "em_dash") => dash(&c.punctuation.em_dash),
        _ => String::new(),
    }
}
const STYLE: &str = "\"- - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -\"";
/// The documented default of a setting (README, "Configuration options").
fn default_of(s: &str, k: &str) -> &'static str {
    match (s, k) {
        ("", "no_inherit") => "false",
        ("", "line_width") => "80",
        ("", "include" | "exclude") | ("heading", "proper_nouns" | "common_nouns") => "[]",
        ("", "git_aware") | ("heading", "setext_h1" | "setext_h2") | ("code_block", "space_after_fence") => "true",
        ("heading", "sentence_case") | ("punctuation", "curly_apostrophes" | "en_dash") => "false",
        ("unordered_list", "unordered_marker") => "\"-\"",
        ("unordered_list", "leading_spaces") => "1",
        ("unordered_list", "trailing_spaces") => "2",
        (_, "indent_width") | ("code_block", "min_fence_length") => "4",
        ("ordered_list", "odd_level_marker") => "\".\"",
        ("ordered_list", "even_level_marker") => "\")\"",
        ("ordered_list", "pad") => "\"start\"",
        ("code_block", "fence_char") => "\"~\"",
        ("code_block", "default_language") => "\"\"",
        ("thematic_break", "style") => STYLE,
        ("thematic_break", "leading_spaces") => "3",
        ("punctuation", "em_dash") => "\"--\"",
        _ => "true",
    }
}

/// A file: lines `section.key = value`, in the order of KEYS once per key.
fn toml_of(lines: &str) -> Option<String> {
    let mut out = String::new();
    let mut section = "";
    let mut seen = std::collections::HashSet::new();
    // top-level settings first, sections together
    let mut ls: Vec<(usize, &str, &str, &str)> = vec![];
    for l in lines.lines() {
        let (n, v) = l.split_once(" = ")?;
        let (s, k) = n.split_once('.').unwrap_or(("", n));
        let p = KEYS.iter().position(|x| x.0 == s && x.1 == k)?;
        if !seen.insert(p) {
            return None;
        }
        ls.push((p, s, k, v));
    }
    ls.sort();
    for (_, s, k, v) in ls {
        if s != section {
            out.push_str(&format!("[{s}]\n"));
            section = s;
        }
        out.push_str(&format!("{k} = {v}\n"));
    }
    Some(out)
}
fn setting(s: &str, k: &str) -> String { if s.is_empty() { k.to_string() } else { format!("{s}.{k}") } }
fn some_settings(r: &mut Rng, sections: bool) -> String {
    let mut o = String::new();
    let some = KEYS.iter().filter(|_| r.chance(1, 4)).collect::<Vec<_>>();
    for k in some {
        if !sections && !k.0.is_empty() || k.1 == "no_inherit" {
            continue;
        }
        o.push_str(&format!("{} = {}\n", setting(k.0, k.1), r.pick(k.2)));
    }
    o
}

// ------------------------------------------------------------------------------------ C09
fn number(t: &str) -> Res {
    let Ok(n) = t.parse::<usize>() else { return Res::Skip };
    let all: [(&str, Option<usize>, bool); 5] = [
        ("leading_spaces", LeadingSpaces::new(n).ok().map(|x| x.get()), n <= 3),
        ("trailing_spaces", TrailingSpaces::new(n).ok().map(|x| x.get()), n <= 3),
        ("indent_width", IndentWidth::new(n).ok().map(|x| x.get()), n >= 1),
        ("line_width", LineWidth::new(n).ok().map(|x| x.get()), n >= 8),
        ("min_fence_length", MinFenceLength::new(n).ok().map(|x| x.get()), n >= 3),
    ];
    for (name, got, want) in all {
        if got != want.then_some(n) {
            return Res::Fail(format!("{name}: {got:?}"));
        }
    }
    Res::Ok(true)
}
fn is_break(t: &str) -> bool {
    ['*', '-', '_'].iter().any(|m| t.chars().all(|c| c == *m || c == ' ' || c == '\t') && t.chars().filter(|c| c == m).count() >= 3)
}
fn style(t: &str) -> Res {
    let got = ThematicBreakStyle::new(t.to_string());
    let want = is_break(t.trim());
    match &got {
        Err(_) if !want => return Res::Ok(false),
        Err(e) => return Res::Fail(format!("rejected: {e}")),
        Ok(_) if !want => return Res::Fail("accepted".into()),
        Ok(s) if s.as_str() != t.trim() => return Res::Fail(format!("stored as {:?}", s.as_str())),
        _ => {}
    }
    for n in 0..4 {
        let o = Options { thematic_break_style: got.clone().unwrap(), thematic_break_leading_spaces: LeadingSpaces::new(n).unwrap(), ..Options::default() };
        let Ok(r) = hongdown::format("a\n\n***\n\nb\n", &o) else { return Res::Fail("not formatted".into()) };
        let b = md::parse(&r);
        if b.find_all("break").len() != 1 || b.find_all("paragraph").len() != 2 {
            return Res::Fail(format!("with {n} spaces: {r:?}"));
        }
    }
    Res::Ok(true)
}
fn pattern(t: &str) -> Res {
    let want = !t.is_empty() && t.chars().all(|c| ('!'..='~').contains(&c));
    match DashPattern::new(t.to_string()) {
        Ok(p) if want && p.as_str() == t => Res::Ok(true),
        Err(_) if !want => Res::Ok(false),
        x => Res::Fail(format!("{x:?}")),
    }
}
/// One setting in a file: accepted and stored as it is, or an error.
fn in_a_file(t: &str) -> Res {
    let Some((n, v)) = t.split_once(" = ") else { return Res::Skip };
    let (s, k) = n.split_once('.').unwrap_or(("", n));
    let Some(key) = KEYS.iter().find(|x| x.0 == s && x.1 == k) else { return Res::Skip };
    let Some(f) = toml_of(t) else { return Res::Skip };
    let (ok, bad) = (key.2.contains(&v), key.3.contains(&v));
    let want = match v.parse::<i64>() {
        Ok(n) if !ok && !bad => match k {
            "line_width" => n >= 8,
            "leading_spaces" | "trailing_spaces" => (0..=3).contains(&n),
            "indent_width" => n >= 1,
            "min_fence_length" => n >= 3,
            _ => return Res::Skip,
        },
        _ if ok || bad => ok,
        _ => return Res::Skip,
    };
    let c = Config::from_toml(&f);
    let l = toml::from_str::<ConfigLayer>(&f).map(|l| l.merge_over(Config::default()));
    for c in [c, l] {
        match c {
            Ok(c) if want => {
                for x in KEYS {
                    let w = if x.0 == s && x.1 == k { v } else { default_of(x.0, x.1) };
                    if value(&c, x.0, x.1) != w {
                        return Res::Fail(format!("{} is {}", setting(x.0, x.1), value(&c, x.0, x.1)));
                    }
                }
            }
            Err(_) if !want => {}
            Ok(_) => return Res::Fail("accepted".into()),
            Err(e) => return Res::Fail(format!("rejected: {}", e.message())),
        }
    }
    Res::Ok(true)
}

pub fn c09(c: &mut Ctx) {
    for n in (0..4000).chain([65_535, 65_536, 1 << 31, u32::MAX as usize, usize::MAX - 1, usize::MAX]) {
        if n % c.shards == c.shard {
            c.check("a number", &n.to_string(), &number);
        }
    }
    c.bound("a number: 0..4000 and six larger ones");
    c.exhaustive("a style of thematic breaks", "*-_ \t", 6, &style);
    c.random("a longer style of thematic breaks", "**---_  \t\nx.\u{a0}", 30, 20_000, &style);
    c.generated("a long style of thematic breaks", 4_000, &|r| {
        let m = *r.pick(&["*", "-", "_"]);
        (0..r.range(2, 90)).map(|_| if r.chance(1, 40) { *r.pick(&[" ", "  ", "\t", "x", "*", "\u{a0}"]) } else if r.chance(1, 3) { " " } else { m }).collect()
    }, &style);
    c.exhaustive("a dash pattern", "-~ a\t\u{7f}é", 5, &pattern);
    for x in '\0'..='\u{3000}' {
        if x as usize % c.shards == c.shard {
            c.check("a dash pattern with a character", &format!("-{x}"), &pattern);
        }
    }
    c.bound("a dash pattern with a character: every character up to U+3000");
    for k in KEYS {
        for v in k.2.iter().chain(k.3) {
            c.check("a setting in a file", &format!("{} = {v}", setting(k.0, k.1)), &in_a_file);
        }
        if matches!(k.1, "line_width" | "leading_spaces" | "trailing_spaces" | "indent_width" | "min_fence_length") {
            for n in -3..130 {
                c.check("a setting in a file", &format!("{} = {n}", setting(k.0, k.1)), &in_a_file);
            }
        }
    }
    c.bound("a setting in a file: every setting, listed values and -3..130");
}

// ------------------------------------------------------------------------------------ C10
/// What files (lowest priority first) say: per top-level setting and section, the last that has it.
fn expected(files: &[&str]) -> Option<Config> {
    let mut last: std::collections::BTreeMap<&str, (usize, Vec<&str>)> = Default::default();
    for (n, f) in files.iter().enumerate() {
        for l in f.lines() {
            let (name, _) = l.split_once(" = ")?;
            let unit = name.split_once('.').map_or(name, |x| x.0);
            let e = last.entry(unit).or_insert((n, vec![]));
            if e.0 != n {
                *e = (n, vec![]);
            }
            e.1.push(l);
        }
    }
    let all: Vec<&str> = last.values().flat_map(|x| x.1.iter().copied()).collect();
    // the flag is that of the last file, set or not
    let flag = files.last().is_some_and(|f| f.lines().any(|l| l == "no_inherit = true"));
    let mut c = Config::from_toml(&toml_of(&all.join("\n"))?).ok()?;
    c.no_inherit = flag;
    Some(c)
}
fn differs(got: &Config, want: &Config) -> Option<String> {
    for x in KEYS {
        let (g, w) = (value(got, x.0, x.1), value(want, x.0, x.1));
        if g != w {
            return Some(format!("{} is {g}, not {w}", setting(x.0, x.1)));
        }
    }
    (got != want).then(|| "other settings differ".into())
}
/// files separated by lines `--`, lowest priority first
fn merged(t: &str) -> Res {
    let files: Vec<&str> = t.split("--\n").collect();
    let Some(want) = expected(&files) else { return Res::Skip };
    let mut c = Config::default();
    for f in &files {
        let Some(f) = toml_of(f) else { return Res::Skip };
        let Ok(l) = toml::from_str::<ConfigLayer>(&f) else { return Res::Skip };
        c = l.merge_over(c);
    }
    match differs(&c, &want) {
        None => Res::Ok(files.len() > 1),
        Some(d) => Res::Fail(d),
    }
}

pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new(name: &str) -> Self {
        let p = std::env::temp_dir().join(format!("hd-harness-{}-{name}", std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// `legacy`, `xdg`, `up` and `project` files between lines `--`; `absent` stands for no file.
/// The project file nearest to the working directory counts.
fn places(t: &str, d: &Path) -> Option<(Vec<String>, PathBuf)> {
    let files: Vec<&str> = t.split("--\n").collect();
    if files.len() != 4 {
        return None;
    }
    let work = d.join("home/work/deep");
    let _ = std::fs::remove_dir_all(d);
    std::fs::create_dir_all(&work).ok()?;
    std::fs::create_dir_all(d.join("home/.config/hongdown")).ok()?;
    let at = [d.join("home/.hongdown.toml"), d.join("home/.config/hongdown/config.toml"), d.join("home/work/.hongdown.toml"), work.join(".hongdown.toml")];
    for (f, p) in files.iter().zip(&at) {
        if *f != "absent\n" {
            let f = toml_of(f)?;
            // a file that cannot be read is reported and left out by the program; not meant here
            toml::from_str::<ConfigLayer>(&f).ok()?;
            std::fs::write(p, f).ok()?;
        }
    }
    let there = |k: usize| (files[k] != "absent\n").then(|| files[k].to_string());
    // the legacy file lies above the working directory, too
    let project = there(3).or(there(2)).or(there(0));
    let alone = project.as_ref().is_some_and(|p| p.lines().any(|l| l == "no_inherit = true"));
    let mut order: Vec<String> = vec![];
    if !alone {
        order.extend(there(0));
        order.extend(there(1));
    }
    order.extend(project);
    Some((order, work))
}
fn cascade(t: &str, d: &Path) -> Res {
    let Some((order, work)) = places(t, d) else { return Res::Skip };
    let Some(want) = expected(&order.iter().map(|s| s.as_str()).collect::<Vec<_>>()) else { return Res::Skip };
    match Config::load_cascading(&work) {
        Err(e) => Res::Fail(format!("not loaded: {e}")),
        Ok((c, _)) => match differs(&c, &want) {
            None => Res::Ok(order.len() > 1),
            Some(d) => Res::Fail(d),
        },
    }
}
fn options(c: &Config) -> Options {
    Options {
        line_width: c.line_width,
        setext_h1: c.heading.setext_h1,
        setext_h2: c.heading.setext_h2,
        heading_sentence_case: c.heading.sentence_case,
        heading_proper_nouns: c.heading.proper_nouns.clone(),
        heading_common_nouns: c.heading.common_nouns.clone(),
        unordered_marker: c.unordered_list.unordered_marker,
        leading_spaces: c.unordered_list.leading_spaces,
        trailing_spaces: c.unordered_list.trailing_spaces,
        indent_width: c.unordered_list.indent_width,
        odd_level_marker: c.ordered_list.odd_level_marker,
        even_level_marker: c.ordered_list.even_level_marker,
        ordered_list_pad: c.ordered_list.pad,
        ordered_list_indent_width: c.ordered_list.indent_width,
        fence_char: c.code_block.fence_char,
        min_fence_length: c.code_block.min_fence_length,
        space_after_fence: c.code_block.space_after_fence,
        default_language: c.code_block.default_language.clone(),
        thematic_break_style: c.thematic_break.style.clone(),
        thematic_break_leading_spaces: c.thematic_break.leading_spaces,
        curly_double_quotes: c.punctuation.curly_double_quotes,
        curly_single_quotes: c.punctuation.curly_single_quotes,
        curly_apostrophes: c.punctuation.curly_apostrophes,
        ellipsis: c.punctuation.ellipsis,
        en_dash: c.punctuation.en_dash.clone(),
        em_dash: c.punctuation.em_dash.clone(),
        code_formatters: std::collections::HashMap::<String, CodeFormatter>::new(),
    }
}
/// shows every setting
const DOC: &str = "Foo And BAR Go Fast With Rust\n=====\n\nSecond Title Of The Text\n----\n\n- a\n    - b\n    1. c\n       1. d\n- e\n\n1. f\n2. g\n\n***\n\n~~~\nx\n~~~\n\n~~~ py\ny\n~~~\n\n\"q\" 'r' it's ... a -- b --- c a~~b d--e f---g\n\none two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen\n";

fn run(cli: &str, home: &Path, cwd: &Path, args: &[&str], input: &str) -> Option<(i32, String, String)> {
    use std::io::Write;
    let mut p = std::process::Command::new(cli)
        .args(args)
        .current_dir(cwd)
        .env_clear()
        .env("HOME", home)
        .env("XDG_CONFIG_HOME", home.join(".config"))
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::piped())
        .spawn()
        .ok()?;
    p.stdin.take()?.write_all(input.as_bytes()).ok()?;
    let o = p.wait_with_output().ok()?;
    Some((o.status.code().unwrap_or(-1), String::from_utf8_lossy(&o.stdout).into(), String::from_utf8_lossy(&o.stderr).into()))
}
/// The program, run below the files: it formats with the settings of the layers. A fifth part holds
/// arguments: `config` (a file of its own, nothing else counts) and `width N`.
fn program(t: &str, d: &Path, cli: &str) -> Res {
    let parts: Vec<&str> = t.split("--\n").collect();
    if parts.len() != 6 {
        return Res::Skip;
    }
    let Some((mut order, work)) = places(&parts[..4].join("--\n"), d) else { return Res::Skip };
    let mut args: Vec<String> = vec!["--stdin".into()];
    if parts[4] != "absent\n" {
        let Some(f) = toml_of(parts[4]).filter(|f| toml::from_str::<ConfigLayer>(f).is_ok()) else { return Res::Skip };
        let p = d.join("own.toml");
        if std::fs::write(&p, f).is_err() {
            return Res::Skip;
        }
        args.extend(["--config".to_string(), p.to_string_lossy().to_string()]);
        order = vec![parts[4].to_string()];
    }
    let Some(mut want) = expected(&order.iter().map(|s| s.as_str()).collect::<Vec<_>>()) else { return Res::Skip };
    if let Some(w) = parts[5].strip_prefix("width ") {
        let Some(n) = w.trim().parse().ok().and_then(|n| LineWidth::new(n).ok()) else { return Res::Skip };
        want.line_width = n;
        args.extend(["--line-width".to_string(), w.trim().to_string()]);
    }
    let o = options(&want);
    if hongdown::validate_dash_settings(&o).is_err() {
        return Res::Skip; // refused by the program
    }
    let Ok(out) = hongdown::format(DOC, &o) else { return Res::Skip };
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match run(cli, &d.join("home"), &work, &a, DOC) {
        None => Res::Skip,
        Some((0, got, _)) if got == out => Res::Ok(true),
        Some((code, got, err)) => {
            let n = got.lines().zip(out.lines()).position(|(a, b)| a != b).unwrap_or(0);
            Res::Fail(format!("status {code}, line {n} is {:?}, not {:?}; {err}", got.lines().nth(n), out.lines().nth(n)))
        }
    }
}

pub fn c10(c: &mut Ctx) {
    let file = |r: &mut Rng| if r.chance(1, 6) { "no_inherit = true\n".to_string() } else { String::new() };
    c.check("no layer at all", "", &merged);
    for a in KEYS {
        for b in KEYS {
            let (x, y) = (setting(a.0, a.1), setting(b.0, b.1));
            c.check("two layers with one setting each", &format!("{x} = {}\n--\n{y} = {}\n", a.2[0], b.2[1]), &merged);
        }
    }
    c.bound("two layers with one setting each: every pair of settings");
    c.generated("layers", 8_000, &|r| {
        let n = r.range(1, 4);
        let v: Vec<String> = (0..n).map(|_| format!("{}{}", file(r), some_settings(r, true))).collect();
        v.join("--\n")
    }, &merged);
    let s = Scratch::new("c10");
    let home = s.0.join("home");
    // SAFETY: every shard is a process with a single thread
    unsafe {
        std::env::set_var("HOME", &home);
        std::env::set_var("XDG_CONFIG_HOME", home.join(".config"));
    }
    let place = |r: &mut Rng| if r.chance(1, 3) { "absent\n".to_string() } else { format!("{}{}", file(r), some_settings(r, true)) };
    let d = s.0.clone();
    c.generated("layers in files", 3_000, &|r| {
        let v: Vec<String> = (0..4).map(|_| place(r)).collect();
        v.join("--\n")
    }, &|t| cascade(t, &d));
    if let Ok(cli) = std::env::var("HD_CLI") {
        c.generated("the settings the program formats with", 400, &|r| {
            let mut v: Vec<String> = (0..4).map(|_| place(r)).collect();
            v.push(if r.chance(1, 4) { place(r) } else { "absent\n".into() });
            v.push(if r.chance(1, 4) { format!("width {}\n", r.range(8, 90)) } else { String::new() });
            v.join("--\n")
        }, &|t| program(t, &d, &cli));
        for k in KEYS {
            for v in k.2 {
                c.check("a setting the program formats with", &format!("absent\n--\nabsent\n--\nabsent\n--\n{} = {v}\n--\nabsent\n--\n", setting(k.0, k.1)), &|t| program(t, &d, &cli));
            }
        }
    }
}
