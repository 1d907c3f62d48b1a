//! Reading Markdown back: an owned copy of comrak's tree, and decoders written from the
//! CommonMark specification (independent of the code under test).
use comrak::nodes::{AstNode, ListDelimType, ListType, NodeValue, TableAlignment};
use comrak::{Arena, parse_document};

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: String,
    pub text: String,
    pub kids: Vec<Node>,
    pub line: usize,
    pub end: usize,
}

pub fn comrak_options() -> comrak::Options<'static> {
    let mut o = comrak::Options::default();
    o.extension.front_matter_delimiter = Some("---".to_string());
    o.extension.table = true;
    o.extension.description_lists = true;
    o.extension.alerts = true;
    o.extension.footnotes = true;
    o.extension.tasklist = true;
    o
}

pub fn parse(s: &str) -> Node {
    let arena = Arena::new();
    // An unterminated last line is read as the same line with a newline (comrak takes a last
    // `2)` without one for a paragraph)
    let t = if s.is_empty() || s.ends_with('\n') { s.to_string() } else { format!("{s}\n") };
    let root = parse_document(&arena, &t, &comrak_options());
    conv(root)
}

fn conv<'a>(n: &'a AstNode<'a>) -> Node {
    let d = n.data.borrow();
    let (mut kind, mut text) = (String::new(), String::new());
    match &d.value {
        NodeValue::Document => kind.push_str("document"),
        NodeValue::FrontMatter(s) => {
            kind.push_str("front_matter");
            text.push_str(s);
        }
        NodeValue::BlockQuote => kind.push_str("quote"),
        NodeValue::List(l) => {
            kind.push_str(match l.list_type {
                ListType::Bullet => "bullet_list",
                ListType::Ordered => "ordered_list",
            });
            text = format!(
                "{}{}{}",
                if l.tight { "tight" } else { "loose" },
                match (l.list_type, l.delimiter) {
                    (ListType::Bullet, _) => (l.bullet_char as char).to_string(),
                    (_, ListDelimType::Period) => ".".into(),
                    (_, ListDelimType::Paren) => ")".into(),
                },
                l.start
            );
        }
        NodeValue::Item(_) => kind.push_str("item"),
        NodeValue::TaskItem(t) => {
            kind.push_str("task");
            text.push_str(if t.symbol.is_some() { "x" } else { " " });
        }
        NodeValue::DescriptionList => kind.push_str("dl"),
        NodeValue::DescriptionItem(_) => kind.push_str("di"),
        NodeValue::DescriptionTerm => kind.push_str("dt"),
        NodeValue::DescriptionDetails => kind.push_str("dd"),
        NodeValue::CodeBlock(c) => {
            kind.push_str("code_block");
            text = format!("{}\u{0}{}", c.info, c.literal);
        }
        NodeValue::HtmlBlock(h) => {
            kind.push_str("html_block");
            text.push_str(&h.literal);
        }
        NodeValue::Paragraph => kind.push_str("paragraph"),
        NodeValue::Heading(h) => {
            kind.push_str("heading");
            text = h.level.to_string();
        }
        NodeValue::ThematicBreak => kind.push_str("break"),
        NodeValue::FootnoteDefinition(f) => {
            kind.push_str("footnote");
            text.push_str(&f.name);
        }
        NodeValue::Table(t) => {
            kind.push_str("table");
            for a in &t.alignments {
                text.push(match a {
                    TableAlignment::None => 'n',
                    TableAlignment::Left => 'l',
                    TableAlignment::Center => 'c',
                    TableAlignment::Right => 'r',
                });
            }
        }
        NodeValue::TableRow(h) => {
            kind.push_str("row");
            text.push_str(if *h { "header" } else { "" });
        }
        NodeValue::TableCell => kind.push_str("cell"),
        NodeValue::Text(t) => {
            kind.push_str("text");
            text.push_str(t);
        }
        NodeValue::SoftBreak => kind.push_str("softbreak"),
        NodeValue::LineBreak => kind.push_str("linebreak"),
        NodeValue::Code(c) => {
            kind.push_str("code");
            text.push_str(&c.literal);
        }
        NodeValue::HtmlInline(h) => {
            kind.push_str("html");
            text.push_str(h);
        }
        NodeValue::Emph => kind.push_str("emph"),
        NodeValue::Strong => kind.push_str("strong"),
        NodeValue::Link(l) => {
            kind.push_str("link");
            text = format!("{}\u{0}{}", l.url, l.title);
        }
        NodeValue::Image(l) => {
            kind.push_str("image");
            text = format!("{}\u{0}{}", l.url, l.title);
        }
        NodeValue::FootnoteReference(f) => {
            kind.push_str("footnote_ref");
            text.push_str(&f.name);
        }
        NodeValue::Alert(a) => {
            kind.push_str("alert");
            text = format!("{:?}", a.alert_type);
        }
        other => kind = format!("other:{other:?}"),
    }
    Node {
        kind,
        text,
        kids: n.children().map(conv).collect(),
        line: d.sourcepos.start.line,
        end: d.sourcepos.end.line,
    }
}

impl Node {
    pub fn is(&self, k: &str) -> bool {
        self.kind == k
    }
    pub fn all<'a>(&'a self, k: &str, out: &mut Vec<&'a Node>) {
        if self.kind == k {
            out.push(self);
        }
        for c in &self.kids {
            c.all(k, out);
        }
    }
    pub fn find_all(&self, k: &str) -> Vec<&Node> {
        let mut v = vec![];
        self.all(k, &mut v);
        v
    }
    pub fn texts(&self, k: &str) -> Vec<String> {
        self.find_all(k).iter().map(|n| n.text.clone()).collect()
    }
    /// concatenated text with breaks as spaces
    pub fn plain(&self) -> String {
        let mut s = String::new();
        self.plain_into(&mut s);
        s
    }
    /// text outside of links and images
    pub fn own_text(&self, s: &mut String) {
        if self.is("text") {
            s.push_str(&self.text);
        }
        for c in &self.kids {
            if !c.is("link") && !c.is("image") {
                c.own_text(s);
            }
        }
    }
    /// Brackets in the text that look like the parts of a link, but are none
    pub fn odd_brackets(&self) -> bool {
        let mut s = String::new();
        self.own_text(&mut s);
        ["](", "][", "[]"].iter().any(|p| s.contains(p)) || s.matches('[').count() != s.matches(']').count()
    }
    fn plain_into(&self, s: &mut String) {
        match self.kind.as_str() {
            "text" | "code" | "html" => s.push_str(&self.text),
            "softbreak" | "linebreak" => s.push(' '),
            _ => {}
        }
        for c in &self.kids {
            c.plain_into(s);
        }
    }
    /// canonical inline dump: adjacent text merged, soft breaks are spaces, runs of white space collapsed
    pub fn inline(&self) -> String {
        let mut o = String::new();
        self.inline_into(&mut o);
        collapse(&o)
    }
    fn inline_into(&self, o: &mut String) {
        match self.kind.as_str() {
            "text" => o.push_str(&self.text),
            "softbreak" => o.push(' '),
            "linebreak" => o.push_str("\u{2}BR\u{3}"),
            "code" => o.push_str(&format!("\u{2}code {}\u{3}", protect(&self.text))),
            "html" => o.push_str(&format!("\u{2}html {}\u{3}", self.text)),
            "footnote_ref" => o.push_str(&format!("\u{2}fn {}\u{3}", self.text)),
            "emph" | "strong" | "link" | "image" => {
                let t = if self.text.is_empty() { String::new() } else { collapse_target(&self.text) };
                o.push_str(&format!("\u{2}{} {}\u{4}", self.kind, protect(&t)));
                for c in &self.kids {
                    c.inline_into(o);
                }
                o.push('\u{3}');
            }
            _ => {
                for c in &self.kids {
                    c.inline_into(o);
                }
            }
        }
    }
    /// canonical dump of a block tree
    pub fn blocks(&self) -> String {
        let mut o = String::new();
        self.blocks_into(&mut o, 0);
        o
    }
    fn blocks_into(&self, o: &mut String, d: usize) {
        let leaf = matches!(self.kind.as_str(), "paragraph" | "heading" | "cell" | "dt");
        o.push_str(&"  ".repeat(d));
        o.push_str(&self.kind);
        o.push(' ');
        let t = match self.kind.as_str() {
            "bullet_list" => self.text[..5].to_string(),
            "ordered_list" => self.text[..5].to_string(),
            _ => self.text.clone(),
        };
        o.push_str(&format!("{t:?}"));
        if leaf {
            let mut s = String::new();
            for c in &self.kids {
                if c.is("paragraph") {
                    s.push_str(&c.inline());
                } else {
                    let mut x = String::new();
                    c.inline_into(&mut x);
                    s.push_str(&x);
                }
            }
            o.push_str(&format!(" {:?}\n", collapse(&s)));
        } else {
            o.push('\n');
            for c in &self.kids {
                c.blocks_into(o, d + 1);
            }
        }
    }
}
/// a link target up to percent-encoding and white space in the title
pub fn collapse_target(t: &str) -> String {
    let (u, ti) = t.split_once('\u{0}').unwrap_or((t, ""));
    let u: String = u.chars().map(|c| if c.is_ascii_control() || " <>".contains(c) { format!("%{:02X}", c as u32) } else { c.to_string() }).collect();
    format!("{u}\u{0}{}", collapse(ti))
}
fn protect(s: &str) -> String {
    s.replace(' ', "\u{5}").replace('\n', "\u{6}")
}
pub fn collapse(s: &str) -> String {
    let mut o = String::new();
    let mut sp = false;
    for c in s.chars() {
        if c == ' ' || c == '\n' || c == '\t' {
            sp = true;
        } else {
            if sp && !o.is_empty() {
                o.push(' ');
            }
            sp = false;
            o.push(c);
        }
    }
    o
}

pub fn is_punct(c: char) -> bool {
    c.is_ascii_punctuation()
}
/// CommonMark backslash-escape decoding
pub fn md_unesc(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' && it.peek().is_some_and(|c| is_punct(*c)) {
            o.push(it.next().unwrap());
        } else {
            o.push(c);
        }
    }
    o
}
/// a markup character that is not escaped, if any
pub fn live_markup(s: &str) -> Option<char> {
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.peek() {
                Some(n) if is_punct(*n) => {
                    it.next();
                }
                _ => return Some('\\'),
            }
        } else if c == '*' || c == '_' || c == '`' {
            return Some(c);
        }
    }
    None
}
/// decode the HTML entity starting at `i`, if any: (chars consumed, decoded)
pub fn entity_at(c: &[char], i: usize) -> Option<(usize, String)> {
    if c.get(i) != Some(&'&') {
        return None;
    }
    let end = (i + 1..c.len().min(i + 40)).find(|j| c[*j] == ';')?;
    let name: String = c[i + 1..end].iter().collect();
    let len = end - i + 1;
    if let Some(n) = name.strip_prefix('#') {
        let v = if let Some(h) = n.strip_prefix(['x', 'X']) {
            if h.is_empty() || h.len() > 6 || !h.chars().all(|c| c.is_ascii_hexdigit()) {
                return None;
            }
            u32::from_str_radix(h, 16).ok()?
        } else {
            if n.is_empty() || n.len() > 7 || !n.chars().all(|c| c.is_ascii_digit()) {
                return None;
            }
            n.parse().ok()?
        };
        let ch = if v == 0 { '\u{fffd}' } else { char::from_u32(v).unwrap_or('\u{fffd}') };
        return Some((len, ch.to_string()));
    }
    if name.is_empty() || !name.chars().all(|c| c.is_ascii_alphanumeric()) {
        return None;
    }
    let b = name.as_bytes();
    html_escape::NAMED_ENTITIES
        .binary_search_by_key(&b, |(n, _)| n)
        .ok()
        .map(|k| (len, html_escape::NAMED_ENTITIES[k].1.to_string()))
}
