%% source src/serializer/inline.rs
%% lib chars strs links text nodes
%% impl Serializer => impl<'a> Serializer<'a>
%% method to_string => hd_fmt
%% item LEFT_DOUBLE_QUOTE from src/serializer/punctuation.rs
%% item RIGHT_DOUBLE_QUOTE from src/serializer/punctuation.rs
%% item LEFT_SINGLE_QUOTE from src/serializer/punctuation.rs
%% item RIGHT_SINGLE_QUOTE from src/serializer/punctuation.rs
%% item ELLIPSIS from src/serializer/punctuation.rs
%% item EN_DASH from src/serializer/punctuation.rs
%% item EM_DASH from src/serializer/punctuation.rs
%% item DashPattern
%% item DashSetting
%% item Options
%% fields em_dash, en_dash, heading_sentence_case
%% item Serializer
%% fields options, source_lines
%% raw
// ---------------------------------------------------------------- specification
// ---- entities
/// the character an entity stands for
pub uninterp spec fn dec_ent(e: Seq<char>) -> Option<char>;
pub open spec fn ent_c(c: char) -> bool { c_aalnum(c) || c == '#' }
pub open spec fn ent_shape(e: Seq<char>) -> bool {
    e.len() >= 2 && e[0] == '&' && e.last() == ';' && forall|i: int| 1 <= i < e.len() - 1 ==> ent_c(#[trigger] e[i])
}
/// e is written at i and stands for c
pub open spec fn ent_at(s: Seq<char>, i: int, e: Seq<char>, c: char) -> bool {
    0 <= i && i + e.len() <= s.len() && s.subrange(i, i + e.len()) == e && ent_shape(e) && dec_ent(e) == Some(c)
}
/// an entity of at most 12 characters
pub open spec fn short_ent(s: Seq<char>, i: int) -> bool { exists|e: Seq<char>, c: char| #[trigger] ent_at(s, i, e, c) && e.len() <= 12 }
impl<'a> Serializer<'a> {
    #[verifier::external_body]
    fn decode_html_entity(entity: &str) -> (r: Option<char>) ensures r == dec_ent(entity@) { unimplemented!() }
}
impl DashPattern {
    // proved in the unit `punctuation`
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.0@ { unimplemented!() }
}
// proved in the unit `escape`
#[verifier::external_body]
pub fn escape_text(text: &str) -> (r: String) ensures md_unesc(r@) == text@, inert(r@) { unimplemented!() }
// ---- a text, written character by character
pub open spec fn markup(c: char) -> bool { c == '*' || c == '_' || c == '`' || c == '\\' }
/// one character: as itself, escaped, or as an entity
pub open spec fn piece(p: Seq<char>, c: char) -> bool {
    (p == seq![c] && !markup(c)) || (p == seq!['\\', c] && c_apunct(c)) || (ent_shape(p) && dec_ent(p) == Some(c))
}
pub open spec fn cut(m: Seq<char>, p: Seq<char>) -> bool { true }
/// o is the first k characters of t, each written once, in order
#[verifier::opaque]
pub open spec fn pieces(o: Seq<char>, t: Seq<char>, k: int) -> bool decreases k {
    if k <= 0 { o.len() == 0 } else { exists|m: Seq<char>, p: Seq<char>| #[trigger] cut(m, p) && pieces(m, t, k - 1) && piece(p, t[k - 1]) && o == m + p }
}
/// the same where the source is not known: brackets and what starts an entity are escaped, too
pub open spec fn piece2(p: Seq<char>, t: Seq<char>, k: int) -> bool {
    let c = t[k];
    (p == seq![c] && !markup(c) && c != '[' && c != ']' && c != '<' && !(c == '&' && short_ent(t, k))) || (p == seq!['\\', c] && c_apunct(c))
}
#[verifier::opaque]
pub open spec fn pieces2(o: Seq<char>, t: Seq<char>, k: int) -> bool decreases k {
    if k <= 0 { o.len() == 0 } else { exists|m: Seq<char>, p: Seq<char>| #[trigger] cut(m, p) && pieces2(m, t, k - 1) && piece2(p, t, k - 1) && o == m + p }
}
pub proof fn lemma_step(m: Seq<char>, p: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k, pieces(m, t, k), piece(p, t[k]),
    ensures pieces(m + p, t, k + 1),
{ reveal_with_fuel(pieces, 2); assert(cut(m, p)); }
pub proof fn lemma_step2(m: Seq<char>, p: Seq<char>, t: Seq<char>, k: int)
    requires 0 <= k, pieces2(m, t, k), piece2(p, t, k),
    ensures pieces2(m + p, t, k + 1),
{ reveal_with_fuel(pieces2, 2); assert(cut(m, p)); }
pub proof fn lemma_p2(o: Seq<char>, t: Seq<char>, k: int)
    requires pieces2(o, t, k),
    ensures pieces(o, t, k),
    decreases k,
{
    reveal_with_fuel(pieces, 2); reveal_with_fuel(pieces2, 2);
    if k > 0 {
        let (m, p) = choose|m: Seq<char>, p: Seq<char>| #[trigger] cut(m, p) && pieces2(m, t, k - 1) && piece2(p, t, k - 1) && o == m + p;
        lemma_p2(m, t, k - 1); assert(cut(m, p));
        assert(piece(p, t[k - 1]));
    }
}
pub proof fn lemma_unesc_len(s: Seq<char>)
    ensures md_unesc(s).len() == 0 <==> s.len() == 0,
{ reveal_with_fuel(md_unesc, 2); }
/// one character, escaped by escape_text
pub broadcast proof fn lemma_one(r: Seq<char>)
    requires #[trigger] inert(r), md_unesc(r).len() == 1,
    ensures ({ let c = md_unesc(r)[0]; piece(r, c) && (r == seq![c] && !markup(c) || r == seq!['\\', c] && c_apunct(c)) }),
{
    let c = md_unesc(r)[0];
    reveal_with_fuel(md_unesc, 2); reveal_with_fuel(inert, 2);
    if r[0] == '\\' {
        lemma_unesc_len(r.skip(2));
        assert(md_unesc(r).len() == 1 + md_unesc(r.skip(2)).len());
        assert(r =~= seq!['\\', c]);
    } else {
        lemma_unesc_len(r.skip(1));
        assert(md_unesc(r).len() == 1 + md_unesc(r.skip(1)).len());
        assert(r =~= seq![c]);
    }
}
pub broadcast proof fn lemma_added(a: Seq<char>, b: Seq<char>)
    ensures #[trigger] (a + b).skip(a.len() as int) == b,
{ assert((a + b).skip(a.len() as int) =~= b); }
pub broadcast proof fn lemma_added1(a: Seq<char>, c: char)
    ensures #[trigger] a.push(c).skip(a.len() as int) == seq![c],
{ assert(a.push(c).skip(a.len() as int) =~= seq![c]); }
pub broadcast proof fn lemma_added2(a: Seq<char>, c: char, d: char)
    ensures #[trigger] a.push(c).push(d).skip(a.len() as int) == seq![c, d],
{ assert(a.push(c).push(d).skip(a.len() as int) =~= seq![c, d]); }
pub broadcast group group_added { lemma_one, lemma_added, lemma_added1, lemma_added2 }
/// C01: nothing in the written text starts a span of emphasis or code
pub proof fn lemma_pieces_inert(o: Seq<char>, t: Seq<char>, k: int)
    requires pieces(o, t, k),
    ensures inert(o),
    decreases k,
{
    reveal_with_fuel(pieces, 2); reveal_with_fuel(inert, 3);
    if k > 0 {
        let (m, p) = choose|m: Seq<char>, p: Seq<char>| #[trigger] cut(m, p) && pieces(m, t, k - 1) && piece(p, t[k - 1]) && o == m + p;
        lemma_pieces_inert(m, t, k - 1);
        lemma_inert_append(m, p);
        lemma_piece(t[k - 1]);
        if ent_shape(p) { lemma_plain(p, 0); assert(p.skip(0) =~= p); }
    }
}
pub proof fn lemma_plain(p: Seq<char>, i: int)
    requires ent_shape(p), 0 <= i <= p.len(),
    ensures inert(p.skip(i)),
    decreases p.len() - i,
{
    reveal_with_fuel(inert, 2);
    if i < p.len() { lemma_plain(p, i + 1); assert(p.skip(i).skip(1) =~= p.skip(i + 1)); assert(p.skip(i)[0] == p[i]); assert(i == 0 || i == p.len() - 1 || ent_c(p[i])); }
}
/// an entity at i ends at the first semicolon
pub proof fn lemma_ent(s: Seq<char>, i: int, end: int)
    requires 0 <= i < end <= s.len(), forall|j: int| i < j < end ==> ent_c(#[trigger] s[j]),
    ensures
        end - i >= 12 || end == s.len() ==> !short_ent(s, i),
        end < s.len() && s[end] != ';' && !ent_c(s[end]) ==> !short_ent(s, i),
        end < s.len() && s[end] == ';' ==> forall|e: Seq<char>, c: char| #[trigger] ent_at(s, i, e, c) ==> e == s.subrange(i, end + 1),
{
    assert forall|e: Seq<char>, c: char| #[trigger] ent_at(s, i, e, c) implies e.len() >= end - i + 1 by {
        if e.len() < end - i + 1 {
            let k = e.len() - 1;
            assert(s.subrange(i, i + e.len())[k] == s[i + k]);
            assert(e.last() == ';');
            if k > 0 { assert(ent_c(s[i + k])); }
        }
    }
    assert forall|e: Seq<char>, c: char| #[trigger] ent_at(s, i, e, c) && end < s.len() && !ent_c(s[end]) implies e.len() == end - i + 1 by {
        if e.len() > end - i + 1 { assert(e[end - i] == s.subrange(i, i + e.len())[end - i]); assert(ent_c(e[end - i])); }
    }
}
/// a character of the pattern in the source: as itself, escaped, or as an entity
pub open spec fn unit_at(s: Seq<char>, i: int, c: char, j: int) -> bool {
    (j == i + 1 && j <= s.len() && s[i] == c) || (j == i + 2 && j <= s.len() && s[i] == '\\' && s[i + 1] == c) || (exists|e: Seq<char>| #[trigger] ent_at(s, i, e, c) && j == i + e.len())
}
#[verifier::opaque]
pub open spec fn reads_pat(s: Seq<char>, i: int, p: Seq<char>, k: int, j: int) -> bool decreases k {
    if k <= 0 { i == j } else { exists|m: int| #[trigger] unit_at(s, m, p[k - 1], j) && reads_pat(s, i, p, k - 1, m) }
}
pub proof fn lemma_pat(s: Seq<char>, i: int, p: Seq<char>, k: int, m: int, j: int)
    requires 0 <= k, reads_pat(s, i, p, k, m), unit_at(s, m, p[k], j),
    ensures reads_pat(s, i, p, k + 1, j),
{ reveal_with_fuel(reads_pat, 2); assert(unit_at(s, m, p[(k + 1) - 1], j)); }
pub open spec fn quote_c(c: char) -> bool { c == '\u{201C}' || c == '\u{201D}' || c == '\u{2018}' || c == '\u{2019}' || c == '\u{2026}' || c == '\u{2014}' || c == '\u{2013}' }

// ---------------------------------------------------------------- inline content
/// the text of a node without markup
pub open spec fn raw_s<'b>(n: &'b AstNode<'b>) -> Seq<char> decreases height(n), 1nat, 0nat {
    match val(n) {
        NodeValue::Text(t) => t@,
        NodeValue::SoftBreak => seq![' '],
        _ => raw_k(height(n), kids(n)),
    }
}
pub open spec fn raw_k<'b>(h: nat, v: Seq<&'b AstNode<'b>>) -> Seq<char> decreases h, 0nat, v.len() {
    if v.len() == 0 { Seq::empty() } else { raw_k(h, v.drop_last()) + (if height(v.last()) < h { raw_s(v.last()) } else { Seq::empty() }) }
}
/// r is t with the punctuation of the options (unit `punctuation`)
pub uninterp spec fn punct_of(t: Seq<char>, r: Seq<char>) -> bool;
/// the source of a node, where its position is one in the document
pub uninterp spec fn src_of<'b>(n: &'b AstNode<'b>, s: Seq<char>) -> bool;
/// the link or image is written with this text and label in the source, and the label does not stand for something else
pub uninterp spec fn ref_as<'b>(n: &'b AstNode<'b>, text: Seq<char>, label: Seq<char>) -> bool;
/// there is an image in a link
pub uninterp spec fn has_image<'b>(n: &'b AstNode<'b>) -> bool;
/// what follows the link would be read as a part of it
pub uninterp spec fn next_brk<'b>(n: &'b AstNode<'b>) -> bool;
/// an absolute URI without entities
pub uninterp spec fn auto_ok(url: Seq<char>) -> bool;
/// the reference has been noted, so that its definition is written (unit `refs`)
pub uninterp spec fn registered(label: Seq<char>, url: Seq<char>, title: Seq<char>) -> bool;
pub open spec fn ref_link_s(open: Seq<char>, text: Seq<char>, label: Seq<char>) -> Seq<char> {
    if label.len() > 0 && label[0] == '\x01' { open + text + "][]"@ } else if text == label { open + text + seq![']'] } else { open + text + "]["@ + label + seq![']'] }
}
pub open spec fn ref_label(label: Seq<char>) -> Seq<char> { if label.len() > 0 && label[0] == '\x01' { label.skip(1) } else { label } }
pub open spec fn ext_rel(o: Seq<char>, text: Seq<char>, url: Seq<char>, title: Seq<char>, brk: bool, o2: Seq<char>) -> bool {
    let l = repl_s(text, '\0', " "@);
    ||| inline_rel(o, seq!['['], text, url, title, o2)
    ||| label_ok(l) && registered(l, url, title) && o2 == o + seq!['['] + l + seq![']'] + (if brk { "[]"@ } else { Seq::empty() })
}
pub open spec fn target_rel(o: Seq<char>, url: Seq<char>, title: Seq<char>, o2: Seq<char>) -> bool {
    exists|t: Seq<char>| o2 == o + t && #[trigger] reads_back(t, url, title)
}
/// the source is that of a code span with this content
pub open spec fn same_code(s: Seq<char>, lit: Seq<char>) -> bool {
    let c = repl_str(trim_start_c(trim_end_c(s, '`'), '`'), "\\|"@, "|"@);
    let l = repl_str(lit, "\\|"@, "|"@);
    c == l || c == seq![' '] + l + seq![' ']
}
/// a code span: with the source where that has the same content, or as it is read back
pub open spec fn code_w<'b>(n: &'b AstNode<'b>, lit: Seq<char>, w: Seq<char>) -> bool {
    ||| src_of(n, w) && span_shape(w) && !w.contains('\n') && same_code(w, lit)
    ||| lit.len() > 0 && !lit.contains('\n') ==> reads_as_span(w, lit)
}
pub open spec fn mid(m: Seq<char>) -> bool { true }
/// what has been written after o
pub open spec fn added(o: Seq<char>, o2: Seq<char>) -> Seq<char> { o2.skip(o.len() as int) }
pub open spec fn ext(o: Seq<char>, o2: Seq<char>) -> bool { o2 == o + added(o, o2) }
pub open spec fn one(c: char) -> Seq<char> { seq![c] }
/// what is written for the text of a node
pub open spec fn text_w(t: Seq<char>, e: Seq<char>) -> bool { exists|p: Seq<char>| #[trigger] punct_of(t, p) && esc_w(p, e) }
/// the text, each character once, in order, as itself, escaped or as an entity (none of them as the start of markup), or by escape_text
pub open spec fn esc_w(p: Seq<char>, e: Seq<char>) -> bool { pieces(e, p, p.len() as int) || (md_unesc(e) == p && inert(e)) }
/// an inline node, written after o: hd says if it is in a heading
pub open spec fn inl<'b>(hd: bool, n: &'b AstNode<'b>, o: Seq<char>, o2: Seq<char>) -> bool decreases height(n), 3nat, 0nat {
    let h = height(n);
    match val(n) {
        NodeValue::Text(t) => ext(o, o2) && text_w(t@, added(o, o2)),
        NodeValue::SoftBreak => o2 == o.push(if hd { ' ' } else { '\0' }),
        NodeValue::LineBreak => o2 == o.push(if hd { ' ' } else { '\n' }),
        NodeValue::Emph => framed(hd, h, n, one('*'), o, o2) || framed(hd, h, n, one('_'), o, o2),
        NodeValue::Strong => framed(hd, h, n, "**"@, o, o2) || framed(hd, h, n, "__"@, o, o2),
        NodeValue::Code(c) => ext(o, o2) && code_w(n, c.literal@, added(o, o2)),
        NodeValue::Link(l) => link_w(hd, h, n, l.url@, l.title@, o, o2) || (hd && exists|m: Seq<char>| #[trigger] mid(m) && link_w(hd, h, n, l.url@, l.title@, o, m) && kept(o, m, o2)),
        NodeValue::Image(l) => (!hd && ref_rel(n, seq!['!', '['], l.url@, l.title@, o, o2)) || exists|a: Seq<char>| #[trigger] mid(a) && inls(hd, h, kids(n), Seq::empty(), a) && inline_rel(o, seq!['!', '['], a, l.url@, l.title@, o2),
        NodeValue::HtmlInline(t) => o2 == o + (if hd { repl_s(t@, '\n', " "@) } else { t@ }),
        NodeValue::FootnoteReference(f) => o2 == o + "[^"@ + f.name@ + one(']'),
        _ => inls(hd, h, kids(n), o, o2),
    }
}
/// the nodes in order, each once
pub open spec fn inls<'b>(hd: bool, h: nat, v: Seq<&'b AstNode<'b>>, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 0nat, v.len() {
    if v.len() == 0 { o2 == o } else { exists|m: Seq<char>| #[trigger] mid(m) && inls(hd, h, v.drop_last(), o, m) && height(v.last()) < h && inl(hd, v.last(), m, o2) }
}
/// between two delimiters
pub open spec fn framed<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, d: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 1nat, kids(n).len() {
    exists|m: Seq<char>| #[trigger] mid(m) && inls(hd, h, kids(n), o + d, m) && o2 == m + d
}
/// with the text and the label of the source
pub open spec fn ref_rel<'b>(n: &'b AstNode<'b>, open: Seq<char>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool {
    exists|t: Seq<char>, l: Seq<char>| #[trigger] ref_as(n, t, l) && registered(ref_label(l), url, title) && o2 == o + ref_link_s(open, t, l)
}
pub open spec fn badge_ref<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 1nat, kids(n).len() {
    exists|t: Seq<char>, l: Seq<char>, m: Seq<char>| #[trigger] ref_as(n, t, l) && registered(ref_label(l), url, title) && #[trigger] mid(m) && inls(hd, h, kids(n), o.push('['), m) && o2 == m + "]["@ + ref_label(l) + one(']')
}
pub open spec fn badge<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 1nat, kids(n).len() {
    exists|m: Seq<char>| #[trigger] mid(m) && inls(hd, h, kids(n), o.push('['), m) && target_rel(m.push(']'), url, title, o2)
}
pub open spec fn textual<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 1nat, kids(n).len() {
    exists|m: Seq<char>| #[trigger] mid(m) && inls(hd, h, kids(n), Seq::empty(), m) && (ext_rel(o, m, url, title, next_brk(n), o2) || inline_rel(o, seq!['['], m, url, title, o2))
}
/// a link: as a reference, with its target in parentheses, or as an autolink
pub open spec fn link_w<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 2nat, 0nat {
    ||| !has_image(n) && ref_rel(n, one('['), url, title, o, o2)
    ||| has_image(n) && badge_ref(hd, h, n, url, title, o, o2)
    ||| !hd && has_image(n) && badge(hd, h, n, url, title, o, o2)
    ||| title.len() == 0 && raw_s(n) == url && auto_ok(url) && o2 == o + (one('<') + url + one('>'))
    ||| url == "mailto:"@ + raw_s(n) && src_of(n, one('<') + raw_s(n) + one('>')) && o2 == o + (one('<') + raw_s(n) + one('>'))
    ||| (hd || !has_image(n)) && textual(hd, h, n, url, title, o, o2)
}
/// the same, one level deep
pub open spec fn inl1<'b>(hd: bool, n: &'b AstNode<'b>, o: Seq<char>, o2: Seq<char>) -> bool {
    let h = height(n);
    match val(n) {
        NodeValue::Text(t) => ext(o, o2) && text_w(t@, added(o, o2)),
        NodeValue::SoftBreak => o2 == o.push(if hd { ' ' } else { '\0' }),
        NodeValue::LineBreak => o2 == o.push(if hd { ' ' } else { '\n' }),
        NodeValue::Emph => framed1(hd, h, n, one('*'), o, o2) || framed1(hd, h, n, one('_'), o, o2),
        NodeValue::Strong => framed1(hd, h, n, "**"@, o, o2) || framed1(hd, h, n, "__"@, o, o2),
        NodeValue::Code(c) => ext(o, o2) && code_w(n, c.literal@, added(o, o2)),
        NodeValue::Link(l) => link_w1(hd, h, n, l.url@, l.title@, o, o2) || (hd && exists|m: Seq<char>| #[trigger] mid(m) && link_w1(hd, h, n, l.url@, l.title@, o, m) && kept(o, m, o2)),
        NodeValue::Image(l) => (!hd && ref_rel(n, seq!['!', '['], l.url@, l.title@, o, o2)) || exists|a: Seq<char>| #[trigger] mid(a) && p_all(hd, n, Seq::empty(), a) && inline_rel(o, seq!['!', '['], a, l.url@, l.title@, o2),
        NodeValue::HtmlInline(t) => o2 == o + (if hd { repl_s(t@, '\n', " "@) } else { t@ }),
        NodeValue::FootnoteReference(f) => o2 == o + "[^"@ + f.name@ + one(']'),
        _ => p_all(hd, n, o, o2),
    }
}
/// between two delimiters
pub open spec fn framed1<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, d: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool {
    exists|m: Seq<char>| #[trigger] mid(m) && p_all(hd, n, o + d, m) && o2 == m + d
}
pub open spec fn badge_ref1<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool {
    exists|t: Seq<char>, l: Seq<char>, m: Seq<char>| #[trigger] ref_as(n, t, l) && registered(ref_label(l), url, title) && #[trigger] mid(m) && p_all(hd, n, o.push('['), m) && o2 == m + "]["@ + ref_label(l) + one(']')
}
pub open spec fn badge1<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool {
    exists|m: Seq<char>| #[trigger] mid(m) && p_all(hd, n, o.push('['), m) && target_rel(m.push(']'), url, title, o2)
}
pub open spec fn textual1<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool {
    exists|m: Seq<char>| #[trigger] mid(m) && p_all(hd, n, Seq::empty(), m) && (ext_rel(o, m, url, title, next_brk(n), o2) || inline_rel(o, seq!['['], m, url, title, o2))
}
/// a link: as a reference, with its target in parentheses, or as an autolink
pub open spec fn link_w1<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool {
    ||| !has_image(n) && ref_rel(n, one('['), url, title, o, o2)
    ||| has_image(n) && badge_ref1(hd, h, n, url, title, o, o2)
    ||| !hd && has_image(n) && badge1(hd, h, n, url, title, o, o2)
    ||| title.len() == 0 && raw_s(n) == url && auto_ok(url) && o2 == o + (one('<') + url + one('>'))
    ||| url == "mailto:"@ + raw_s(n) && src_of(n, one('<') + raw_s(n) + one('>')) && o2 == o + (one('<') + raw_s(n) + one('>'))
    ||| (hd || !has_image(n)) && textual1(hd, h, n, url, title, o, o2)
}
#[verifier::opaque]
pub open spec fn p_all<'b>(hd: bool, n: &'b AstNode<'b>, o: Seq<char>, o2: Seq<char>) -> bool { inls(hd, height(n), kids(n), o, o2) }
#[verifier::opaque]
pub open spec fn p_k<'b>(hd: bool, n: &'b AstNode<'b>, k: int, o: Seq<char>, o2: Seq<char>) -> bool { inls(hd, height(n), kids(n).take(k), o, o2) }
pub proof fn lemma_inl<'b>(hd: bool, n: &'b AstNode<'b>, o: Seq<char>, o2: Seq<char>)
    requires inl1(hd, n, o, o2),
    ensures inl(hd, n, o, o2),
{
    reveal(p_all);
    match val(n) {
        NodeValue::Link(l) => {
            if link_w1(hd, height(n), n, l.url@, l.title@, o, o2) { lemma_link(hd, n, l.url@, l.title@, o, o2); }
            else {
                let m = choose|m: Seq<char>| #[trigger] mid(m) && link_w1(hd, height(n), n, l.url@, l.title@, o, m) && kept(o, m, o2);
                lemma_link(hd, n, l.url@, l.title@, o, m);
            }
        }
        _ => {}
    }
}
pub proof fn lemma_link<'b>(hd: bool, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>)
    requires link_w1(hd, height(n), n, url, title, o, o2),
    ensures link_w(hd, height(n), n, url, title, o, o2),
{
    reveal(p_all);
    let h = height(n);
    if badge_ref1(hd, h, n, url, title, o, o2) { assert(badge_ref(hd, h, n, url, title, o, o2)); }
    if badge1(hd, h, n, url, title, o, o2) { assert(badge(hd, h, n, url, title, o, o2)); }
    if textual1(hd, h, n, url, title, o, o2) { assert(textual(hd, h, n, url, title, o, o2)); }
}
/// the label of a link in a heading, written after its text
pub open spec fn kept(o: Seq<char>, m: Seq<char>, o2: Seq<char>) -> bool {
    exists|l: Seq<char>| label_ok(l) && (m == o + one('[') + l + one(']') || m == o + one('[') + l + "][]"@) && o2 == #[trigger] kept_s(o, l)
}
pub open spec fn kept_s(o: Seq<char>, l: Seq<char>) -> Seq<char> { o + one('[') + l + "]["@ + l + one(']') }
pub proof fn lemma_kid<'b>(hd: bool, n: &'b AstNode<'b>, k: int, o: Seq<char>, m: Seq<char>, o2: Seq<char>)
    requires 0 <= k < kids(n).len(), p_k(hd, n, k, o, m), inl1(hd, kids(n)[k], m, o2),
    ensures p_k(hd, n, k + 1, o, o2),
{
    broadcast use ax_tree;
    reveal(p_k); assert(mid(m)); lemma_inl(hd, kids(n)[k], m, o2);
    assert(kids(n).take(k + 1).drop_last() =~= kids(n).take(k));
    assert(kids(n).take(k + 1).last() == kids(n)[k]);
}
pub proof fn lemma_no_kids<'b>(hd: bool, n: &'b AstNode<'b>, o: Seq<char>)
    ensures p_k(hd, n, 0, o, o),
{ reveal(p_k); }
pub proof fn lemma_all<'b>(hd: bool, n: &'b AstNode<'b>, o: Seq<char>, m: Seq<char>)
    requires p_k(hd, n, kids(n).len() as int, o, m),
    ensures p_all(hd, n, o, m),
{ reveal(p_k); reveal(p_all); assert(kids(n).take(kids(n).len() as int) =~= kids(n)); }
pub proof fn lemma_full<'b>(n: &'b AstNode<'b>)
    ensures kids(n).take(kids(n).len() as int) == kids(n),
{ assert(kids(n).take(kids(n).len() as int) =~= kids(n)); }
// ---- proved in other units, or about the tree and positions of comrak
#[verifier::external_body]
pub fn transform_punctuation(text: &str, options: &Options) -> (r: String) ensures punct_of(text@, r@) { unimplemented!() }
#[verifier::external_body]
pub fn format_code_span(content: &str) -> (r: String) ensures content@.len() > 0 && !content@.contains('\n') ==> reads_as_span(r@, content@) { unimplemented!() }
#[verifier::external_body]
pub fn is_label_in_sentence_case(label: &str) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn is_valid_code_span(source: &str) -> (r: bool) ensures r ==> span_shape(source@) { unimplemented!() }
impl<'a> Serializer<'a> {
    #[verifier::external_body]
    fn extract_text_source<'b>(&self, node: &'b AstNode<'b>) -> (r: Option<String>) ensures r matches Some(s) ==> s@.len() <= 0x7fff_ffff_ffff_ffff { unimplemented!() }
    #[verifier::external_body]
    pub fn extract_source<'b>(&self, node: &'b AstNode<'b>) -> (r: Option<String>) ensures r matches Some(s) ==> src_of(node, s@) { unimplemented!() }
    #[verifier::external_body]
    fn get_reference_style_info<'b>(&self, node: &'b AstNode<'b>) -> (r: Option<(String, String)>) ensures r matches Some((t, l)) ==> ref_as(node, t@, l@) { unimplemented!() }
    #[verifier::external_body]
    fn node_text_contains_char<'b>(&self, node: &'b AstNode<'b>, ch: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn can_use_underscores<'b>(node: &'b AstNode<'b>) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn is_valid_label(text: &str) -> (r: bool) ensures r == label_ok(text@) { unimplemented!() }
    #[verifier::external_body]
    fn contains_image<'b>(node: &'b AstNode<'b>) -> (r: bool) ensures r == has_image(node) { unimplemented!() }
    #[verifier::external_body]
    fn next_sibling_starts_with_bracket<'b>(node: &'b AstNode<'b>) -> (r: bool) ensures r == next_brk(node) { unimplemented!() }
    #[verifier::external_body]
    fn can_be_autolink(url: &str) -> (r: bool) ensures r == auto_ok(url@) { unimplemented!() }
    #[verifier::external_body]
    fn add_reference(&mut self, label: String, url: String, title: String) ensures registered(label@, url@, title@) { unimplemented!() }
    #[verifier::external_body]
    fn format_reference_link(&mut self, output: &mut String, text: &str, label: &str, url: &str, title: &str)
        ensures final(output)@ == old(output)@ + ref_link_s(seq!['['], text@, label@), registered(ref_label(label@), url@, title@) { unimplemented!() }
    #[verifier::external_body]
    fn format_reference_image(&mut self, output: &mut String, text: &str, label: &str, url: &str, title: &str)
        ensures final(output)@ == old(output)@ + ref_link_s(seq!['!', '['], text@, label@), registered(ref_label(label@), url@, title@) { unimplemented!() }
    #[verifier::external_body]
    fn format_external_link_as_reference(&mut self, output: &mut String, text: &str, url: &str, title: &str, use_collapsed: bool)
        ensures ext_rel(old(output)@, text@, url@, title@, use_collapsed, final(output)@) { unimplemented!() }
    #[verifier::external_body]
    fn format_inline_link(output: &mut String, text: &str, url: &str, title: &str) ensures inline_rel(old(output)@, seq!['['], text@, url@, title@, final(output)@) { unimplemented!() }
    #[verifier::external_body]
    fn format_inline_image(output: &mut String, text: &str, url: &str, title: &str) ensures inline_rel(old(output)@, seq!['!', '['], text@, url@, title@, final(output)@) { unimplemented!() }
    #[verifier::external_body]
    fn push_link_target(output: &mut String, url: &str, title: &str) ensures target_rel(old(output)@, url@, title@, final(output)@) { unimplemented!() }
    #[verifier::external_body]
    fn format_autolink(output: &mut String, url: &str) ensures final(output)@ == old(output)@ + (seq!['<'] + url@ + seq!['>']) { unimplemented!() }
}

pub broadcast proof fn lemma_push(a: Seq<char>, c: char)
    ensures #[trigger] a.push(c) == a + one(c),
{ assert(a.push(c) =~= a + one(c)); }
pub broadcast proof fn lemma_e(a: Seq<char>)
    ensures #[trigger] (Seq::<char>::empty() + a) == a,
{ assert(Seq::<char>::empty() + a =~= a); }
pub broadcast group group_inl { lemma_added, lemma_push, lemma_e }
pub proof fn lemma_raw<'b>(n: &'b AstNode<'b>, k: int)
    requires 0 <= k < kids(n).len(),
    ensures raw_k(height(n), kids(n).take(k + 1)) == raw_k(height(n), kids(n).take(k)) + raw_s(kids(n)[k]),
{
    broadcast use ax_tree;
    assert(kids(n).take(k + 1).drop_last() =~= kids(n).take(k));
    assert(kids(n).take(k + 1).last() == kids(n)[k]);
}

/// what has been written is not changed
pub proof fn lemma_ext<'b>(hd: bool, n: &'b AstNode<'b>, o: Seq<char>, o2: Seq<char>)
    requires inl(hd, n, o, o2),
    ensures ext(o, o2),
    decreases height(n), 3nat, 0nat,
{
    broadcast use group_inl;
    
    match val(n) {
        NodeValue::Emph | NodeValue::Strong => {
            let d = if val(n) is Emph { if framed(hd, height(n), n, one('*'), o, o2) { one('*') } else { one('_') } } else { if framed(hd, height(n), n, "**"@, o, o2) { "**"@ } else { "__"@ } };
            lemma_ext_framed(hd, height(n), n, d, o, o2);
        }
        NodeValue::Link(l) => {
            if link_w(hd, height(n), n, l.url@, l.title@, o, o2) { lemma_ext_link(hd, height(n), n, l.url@, l.title@, o, o2); }
            else {
                let m = choose|m: Seq<char>| #[trigger] mid(m) && link_w(hd, height(n), n, l.url@, l.title@, o, m) && kept(o, m, o2);
                let x = choose|x: Seq<char>| label_ok(x) && (m == o + one('[') + x + one(']') || m == o + one('[') + x + "][]"@) && o2 == #[trigger] kept_s(o, x);
                assert(o2 =~= o + (one('[') + x + "]["@ + x + one(']')));
            }
        }
        NodeValue::Image(l) => {
            if !hd && ref_rel(n, seq!['!', '['], l.url@, l.title@, o, o2) { }
            else {
                let a = choose|a: Seq<char>| #[trigger] mid(a) && inls(hd, height(n), kids(n), Seq::empty(), a) && inline_rel(o, seq!['!', '['], a, l.url@, l.title@, o2);
                lemma_ext_inline(o, seq!['!', '['], a, l.url@, l.title@, o2);
            }
        }
        NodeValue::FootnoteReference(f) => { assert(o2 =~= o + ("[^"@ + f.name@ + one(']'))); }
        NodeValue::Text(_) | NodeValue::SoftBreak | NodeValue::LineBreak | NodeValue::Code(_) | NodeValue::HtmlInline(_) => {}
        _ => { lemma_ext_s(hd, height(n), kids(n), o, o2); }
    }
}
pub proof fn lemma_ext_s<'b>(hd: bool, h: nat, v: Seq<&'b AstNode<'b>>, o: Seq<char>, o2: Seq<char>)
    requires inls(hd, h, v, o, o2),
    ensures ext(o, o2),
    decreases h, 0nat, v.len(),
{
    
    if v.len() == 0 { assert(o2 =~= o + added(o, o2)); }
    else {
        let m = choose|m: Seq<char>| #[trigger] mid(m) && inls(hd, h, v.drop_last(), o, m) && height(v.last()) < h && inl(hd, v.last(), m, o2);
        lemma_ext_s(hd, h, v.drop_last(), o, m);
        lemma_ext(hd, v.last(), m, o2);
        lemma_ext_trans(o, m, o2);
    }
}
pub proof fn lemma_ext_trans(o: Seq<char>, m: Seq<char>, o2: Seq<char>)
    requires ext(o, m), ext(m, o2),
    ensures ext(o, o2),
{ assert(o2 =~= o + (added(o, m) + added(m, o2))); assert(added(o, o2) =~= added(o, m) + added(m, o2)); }
pub proof fn lemma_ext_framed<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, d: Seq<char>, o: Seq<char>, o2: Seq<char>)
    requires framed(hd, h, n, d, o, o2),
    ensures ext(o, o2),
    decreases h, 1nat, kids(n).len(),
{
    broadcast use group_inl;
    let m = choose|m: Seq<char>| #[trigger] mid(m) && inls(hd, h, kids(n), o + d, m) && o2 == m + d;
    lemma_ext_s(hd, h, kids(n), o + d, m);
    lemma_ext_trans(o, o + d, m);
    lemma_ext_trans(o, m, o2);
}
pub proof fn lemma_ext_inline(o: Seq<char>, open: Seq<char>, text: Seq<char>, url: Seq<char>, title: Seq<char>, o2: Seq<char>)
    requires inline_rel(o, open, text, url, title, o2),
    ensures ext(o, o2),
{
    broadcast use group_inl;
    let t = choose|t: Seq<char>| o2 == o + open + text + seq![']'] + t && #[trigger] reads_back(t, url, title);
    assert(o2 =~= o + (open + text + seq![']'] + t));
}
pub proof fn lemma_ext_link<'b>(hd: bool, h: nat, n: &'b AstNode<'b>, url: Seq<char>, title: Seq<char>, o: Seq<char>, o2: Seq<char>)
    requires link_w(hd, h, n, url, title, o, o2),
    ensures ext(o, o2),
    decreases h, 2nat, 0nat,
{
    broadcast use group_inl;
    if ref_rel(n, one('['), url, title, o, o2) { }
    else if badge_ref(hd, h, n, url, title, o, o2) {
        let (t, l, m) = choose|t: Seq<char>, l: Seq<char>, m: Seq<char>| #[trigger] ref_as(n, t, l) && registered(ref_label(l), url, title) && #[trigger] mid(m) && inls(hd, h, kids(n), o.push('['), m) && o2 == m + "]["@ + ref_label(l) + one(']');
        lemma_ext_s(hd, h, kids(n), o.push('['), m);
        lemma_ext_trans(o, o.push('['), m);
        assert(o2 =~= m + ("]["@ + ref_label(l) + one(']')));
        lemma_ext_trans(o, m, o2);
    }
    else if badge(hd, h, n, url, title, o, o2) {
        let m = choose|m: Seq<char>| #[trigger] mid(m) && inls(hd, h, kids(n), o.push('['), m) && target_rel(m.push(']'), url, title, o2);
        let t = choose|t: Seq<char>| o2 == m.push(']') + t && #[trigger] reads_back(t, url, title);
        lemma_ext_s(hd, h, kids(n), o.push('['), m);
        lemma_ext_trans(o, o.push('['), m);
        assert(o2 =~= m + (one(']') + t));
        lemma_ext_trans(o, m, o2);
    }
    else if textual(hd, h, n, url, title, o, o2) {
        let m = choose|m: Seq<char>| #[trigger] mid(m) && inls(hd, h, kids(n), Seq::empty(), m) && (ext_rel(o, m, url, title, next_brk(n), o2) || inline_rel(o, seq!['['], m, url, title, o2));
        if inline_rel(o, seq!['['], m, url, title, o2) { lemma_ext_inline(o, seq!['['], m, url, title, o2); }
        else {
            let l = repl_s(m, '\0', " "@);
            let z = if next_brk(n) { "[]"@ } else { Seq::empty() };
            assert(o2 =~= o + (seq!['['] + l + seq![']'] + z));
        }
    }
}

pub proof fn lemma_bytes(s: Seq<char>, j: int, k: int)
    requires 0 <= j < k <= s.len(),
    ensures blen(s.take(j)) < blen(s.take(k)),
    decreases k - j,
{
    assert(s.take(k).drop_last() =~= s.take(k - 1));
    if j < k - 1 { lemma_bytes(s, j, k - 1); }
}
pub proof fn lemma_at_byte(s: Seq<char>, b: int, j: int, k: int)
    requires at_byte(s, b, j), at_byte(s, b, k),
    ensures j == k,
{ if j < k { lemma_bytes(s, j, k); } else if k < j { lemma_bytes(s, k, j); } }

%% fn Serializer::try_parse_html_entity
%% ret r
%% spec
    ensures
        r matches Some((e, c)) ==> ent_at(chars@, start as int, e@, c) && ascii_s(e@) && e@.len() <= 12,
        r is None ==> !short_ent(chars@, start as int),
%% loop 0
    invariant
        start < chars@.len(), chars@[start as int] == '&', start < end <= chars@.len(), end - start <= 12,
        forall|i: int| start < i < end ==> ent_c(#[trigger] chars@[i]),
    decreases chars@.len() - end,
%% at loop 0 start
    proof {
        lemma_ent(chars@, start as int, end as int);
        if chars@[end as int] == ';' {
            let e = chars@.subrange(start as int, end + 1);
            assert forall|i: int| 1 <= i < e.len() - 1 implies ent_c(#[trigger] e[i]) by { assert(e[i] == chars@[start + i]); }
            assert forall|i: int| 0 <= i < e.len() implies c_ascii(#[trigger] e[i]) by { if i > 0 && i < e.len() - 1 { assert(ent_c(e[i])); } }
            assert(e[0] == '&' && e.last() == ';' && e.len() == end + 1 - start);
        }
    }
%% at loop 0 after
    proof { lemma_ent(chars@, start as int, end as int); }

%% fn Serializer::match_source_pattern
%% ret r
%% spec
    requires start <= source@.len() <= 0x7fff_ffff_ffff_ffff,
    ensures r matches Some(n) ==> start + n <= source@.len() && reads_pat(source@, start as int, pattern@, pattern@.len() as int, start + n),
%% at start
    proof { reveal_with_fuel(reads_pat, 1); }
%% loop 0
    invariant
        start <= pos <= source@.len() <= 0x7fff_ffff_ffff_ffff, hdv0@ == pattern@, reads_pat(source@, start as int, pattern@, hdk0 as int, pos as int),
%% at loop 0 start
    let ghost pos0 = pos as int;
%% at loop 0 end
    proof {
        assert(unit_at(source@, pos0, pattern@[hdk0 as int], pos as int));
        lemma_pat(source@, start as int, pattern@, hdk0 as int, pos0, pos as int);
    }

%% fn Serializer::transformed_source_len
%% ret r
%% spec
    requires start <= source@.len() <= 0x7fff_ffff_ffff_ffff,
    ensures r matches Some(n) ==> quote_c(text_char) && start + n <= source@.len(),

%% fn Serializer::escape_text_without_source
%% ret r
%% spec
    ensures pieces2(r@, text@, text@.len() as int),
%% at start
    broadcast use group_added;
    proof { reveal_with_fuel(pieces2, 1); }
%% loop 0
    invariant hdv0@ == text@, chars@ == text@, pieces2(result@, text@, hdk0 as int),
%% at loop 0 start
    broadcast use group_added;
    let ghost r0 = result@;
%% at loop 0 end
    proof {
        let p = result@.skip(r0.len() as int);
        assert(result@ =~= r0 + p);
        lemma_step2(r0, p, text@, hdk0 as int);
    }

%% fn Serializer::escape_text_preserving_source
%% ret r
%% spec
    requires source@.len() <= 0x7fff_ffff_ffff_ffff,
    ensures pieces(r@, text@, text@.len() as int),
%% at start
    proof { reveal_with_fuel(pieces, 1); }
%% loop 0
    invariant
        text_chars@ == text@, source_chars@ == source@, 0 <= text_idx <= text@.len(), 0 <= source_idx <= source@.len() <= 0x7fff_ffff_ffff_ffff,
        pieces(result@, text@, text_idx as int),
    decreases (text@.len() - text_idx) + (source@.len() - source_idx),
%% at loop 0 start
    broadcast use group_added;
    let ghost r0 = result@; let ghost t0 = text_idx as int;
%% at loop 0 end
    proof {
        if text_idx > t0 {
            let p = result@.skip(r0.len() as int);
            assert(result@ =~= r0 + p);
            lemma_step(r0, p, text@, t0);
        }
    }
%% at loop 0 after
    proof { assert forall|o: Seq<char>| #[trigger] pieces2(o, text@, text@.len() as int) implies pieces(o, text@, text@.len() as int) by { lemma_p2(o, text@, text@.len() as int); } }

%% fn is_source_of_code
%% opt option_closures
%% ret r
%% spec
    ensures r == same_code(source@, literal@),
%% at start
    proof { ax_string_eq(); reveal_strlit("\\|"); reveal_strlit("|"); }
%% at end
    proof {
        let c = content@; let l = literal@;
        assert(c == repl_str(trim_start_c(trim_end_c(source@, '`'), '`'), "\\|"@, "|"@));
        if c.len() >= 2 && c[0] == ' ' && c.last() == ' ' { assert(c =~= seq![' '] + c.skip(1).take(c.len() - 2) + seq![' ']); assert(padded == Some(padded->0)); assert(padded->0@ =~= c.skip(1).take(c.len() - 2)); assert(c == seq![' '] + l + seq![' '] ==> c.skip(1).take(c.len() - 2) =~= l); }
        if c == seq![' '] + l + seq![' '] { assert(c.len() >= 2 && c[0] == ' ' && c.last() == ' '); assert(c.skip(1).last() == c.last()); }
    }

%% fn Serializer::collect_raw_text_recursive
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    ensures final(text)@ == old(text)@ + raw_s(node),
%% at start
    broadcast use group_inl;
%% at loop 0 before
    proof { assert(raw_k(height(node), kids(node).take(0)) == Seq::<char>::empty()); assert(text@ + Seq::<char>::empty() =~= text@); }
%% loop 0
    invariant hdv0@ == kids(node), text@ == old(text)@ + raw_k(height(node), kids(node).take(hdk0 as int)),
%% at loop 0 start
    let ghost g_m = text@;
%% at loop 0 end
    proof { lemma_raw(node, hdk0 as int); assert(text@ =~= old(text)@ + raw_k(height(node), kids(node).take(hdk0 + 1))); }
%% at loop 0 after
    proof { lemma_full(node); }

%% fn Serializer::collect_raw_text
%% ret r
%% spec
    ensures r@ == raw_s(node),
%% at start
    broadcast use group_inl;

%% fn Serializer::is_email_autolink
%% ret r
%% spec
    ensures r ==> url@ == "mailto:"@ + raw_s(node) && src_of(node, one('<') + raw_s(node) + one('>')),
%% at start
    proof { ax_string_eq(); assert("mailto:"@.len() == 7) by { reveal_strlit("mailto:"); } assert(url@.len() >= 7 ==> url@ =~= url@.take(7) + url@.skip(7)); }

%% fn Serializer::escape_text_node
%% ret r
%% spec
    ensures esc_w(text@, r@), forall|t: Seq<char>| #[trigger] punct_of(t, text@) ==> text_w(t, r@),
%% at start
    proof { assert forall|o: Seq<char>| #[trigger] pieces2(o, text@, text@.len() as int) implies pieces(o, text@, text@.len() as int) by { lemma_p2(o, text@, text@.len() as int); } }

%% fn Serializer::collect_inline_content
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    ensures p_all(false, node, old(content)@, final(content)@),
%% at loop 0 before
    let ghost g_o = content@;
    proof { lemma_no_kids(false, node, g_o); }
%% loop 0
    invariant hdv0@ == kids(node), p_k(false, node, hdk0 as int, g_o, content@),
%% at loop 0 start
    let ghost g_m = content@;
%% at loop 0 end
    proof { lemma_kid(false, node, hdk0 as int, g_o, g_m, content@); }
%% at loop 0 after
    proof { lemma_all(false, node, g_o, content@); }

%% fn Serializer::collect_inline_node
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    ensures inl1(false, node, old(content)@, final(content)@),
%% at start
    broadcast use group_inl;
    proof { ax_string_eq(); }
%% at loop 0 before
    let ghost g_o = content@;
    proof { assert(content@ =~= old(content)@ + one(delim)); lemma_no_kids(false, node, g_o); }
%% loop 0
    invariant hdv0@ == kids(node), p_k(false, node, hdk0 as int, g_o, content@),
%% at loop 0 start
    let ghost g_m = content@;
%% at loop 0 end
    proof { lemma_kid(false, node, hdk0 as int, g_o, g_m, content@); }
%% at loop 0 after
    proof { lemma_all(false, node, g_o, content@); assert(mid(content@));  }
%% at loop 1 before
    let ghost g_o = content@;
    proof { assert(content@ =~= old(content)@ + delim@); lemma_no_kids(false, node, g_o); }
%% loop 1
    invariant hdv1@ == kids(node), p_k(false, node, hdk1 as int, g_o, content@),
%% at loop 1 start
    let ghost g_m = content@;
%% at loop 1 end
    proof { lemma_kid(false, node, hdk1 as int, g_o, g_m, content@); }
%% at loop 1 after
    proof { lemma_all(false, node, g_o, content@); assert(mid(content@));  }
%% at loop 2 before
    let ghost g_o = content@;
    proof { lemma_no_kids(false, node, g_o); }
%% loop 2
    invariant hdv2@ == kids(node), p_k(false, node, hdk2 as int, g_o, content@),
%% at loop 2 start
    let ghost g_m = content@;
%% at loop 2 end
    proof { lemma_kid(false, node, hdk2 as int, g_o, g_m, content@); }
%% at loop 2 after
    proof { lemma_all(false, node, g_o, content@); assert(mid(content@));  }
%% at loop 3 before
    let ghost g_o = content@;
    proof { lemma_no_kids(false, node, g_o); }
%% loop 3
    invariant hdv3@ == kids(node), p_k(false, node, hdk3 as int, g_o, content@),
%% at loop 3 start
    let ghost g_m = content@;
%% at loop 3 end
    proof { lemma_kid(false, node, hdk3 as int, g_o, g_m, content@); }
%% at loop 3 after
    proof { lemma_all(false, node, g_o, content@); assert(mid(content@));  }
%% at loop 4 before
    let ghost g_o = link_text@;
    proof { lemma_no_kids(false, node, g_o); }
%% loop 4
    invariant hdv4@ == kids(node), p_k(false, node, hdk4 as int, g_o, link_text@),
%% at loop 4 start
    let ghost g_m = link_text@;
%% at loop 4 end
    proof { lemma_kid(false, node, hdk4 as int, g_o, g_m, link_text@); }
%% at loop 4 after
    proof { lemma_all(false, node, g_o, link_text@); assert(mid(link_text@));  }
%% at loop 5 before
    let ghost g_o = link_text@;
    proof { lemma_no_kids(false, node, g_o); }
%% loop 5
    invariant hdv5@ == kids(node), p_k(false, node, hdk5 as int, g_o, link_text@),
%% at loop 5 start
    let ghost g_m = link_text@;
%% at loop 5 end
    proof { lemma_kid(false, node, hdk5 as int, g_o, g_m, link_text@); }
%% at loop 5 after
    proof { lemma_all(false, node, g_o, link_text@); assert(mid(link_text@));  }
%% at loop 6 before
    let ghost g_o = alt_text@;
    proof { lemma_no_kids(false, node, g_o); }
%% loop 6
    invariant hdv6@ == kids(node), p_k(false, node, hdk6 as int, g_o, alt_text@),
%% at loop 6 start
    let ghost g_m = alt_text@;
%% at loop 6 end
    proof { lemma_kid(false, node, hdk6 as int, g_o, g_m, alt_text@); }
%% at loop 6 after
    proof { lemma_all(false, node, g_o, alt_text@); assert(mid(alt_text@));  }
%% at loop 7 before
    let ghost g_o = content@;
    proof { lemma_no_kids(false, node, g_o); }
%% loop 7
    invariant hdv7@ == kids(node), p_k(false, node, hdk7 as int, g_o, content@),
%% at loop 7 start
    let ghost g_m = content@;
%% at loop 7 end
    proof { lemma_kid(false, node, hdk7 as int, g_o, g_m, content@); }
%% at loop 7 after
    proof { lemma_all(false, node, g_o, content@); assert(mid(content@));  }
%% at after if let Some((text, label)) = self.get_reference_style_info(node)
    proof { assert(link_w1(false, height(node), node, link.url@, link.title@, old(content)@, content@)); }

%% fn Serializer::collect_text
%% attr #[verifier::exec_allows_no_decreases_clause]
%% ret r
%% spec
    ensures inl1(true, node, Seq::empty(), r@),

%% fn Serializer::collect_text_recursive
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    ensures inl1(true, node, old(text)@, final(text)@),
%% at start
    broadcast use group_inl;
    proof { ax_string_eq(); }
%% at loop 0 before
    let ghost g_o = text@;
    proof { assert(text@ =~= old(text)@ + one(delim)); lemma_no_kids(true, node, g_o); }
%% loop 0
    invariant hdv0@ == kids(node), p_k(true, node, hdk0 as int, g_o, text@),
%% at loop 0 start
    let ghost g_m = text@;
%% at loop 0 end
    proof { lemma_kid(true, node, hdk0 as int, g_o, g_m, text@); }
%% at loop 0 after
    proof { lemma_all(true, node, g_o, text@); assert(mid(text@));  }
%% at loop 1 before
    let ghost g_o = text@;
    proof { assert(text@ =~= old(text)@ + delim@); lemma_no_kids(true, node, g_o); }
%% loop 1
    invariant hdv1@ == kids(node), p_k(true, node, hdk1 as int, g_o, text@),
%% at loop 1 start
    let ghost g_m = text@;
%% at loop 1 end
    proof { lemma_kid(true, node, hdk1 as int, g_o, g_m, text@); }
%% at loop 1 after
    proof { lemma_all(true, node, g_o, text@); assert(mid(text@));  }
%% at loop 2 before
    let ghost g_o = text@;
    proof { lemma_no_kids(true, node, g_o); }
%% loop 2
    invariant hdv2@ == kids(node), p_k(true, node, hdk2 as int, g_o, text@),
%% at loop 2 start
    let ghost g_m = text@;
%% at loop 2 end
    proof { lemma_kid(true, node, hdk2 as int, g_o, g_m, text@); }
%% at loop 2 after
    proof { lemma_all(true, node, g_o, text@); assert(mid(text@));  }
%% at loop 3 before
    let ghost g_o = link_text@;
    proof { lemma_no_kids(true, node, g_o); }
%% loop 3
    invariant hdv3@ == kids(node), p_k(true, node, hdk3 as int, g_o, link_text@),
%% at loop 3 start
    let ghost g_m = link_text@;
%% at loop 3 end
    proof { lemma_kid(true, node, hdk3 as int, g_o, g_m, link_text@); }
%% at loop 3 after
    proof { lemma_all(true, node, g_o, link_text@); assert(mid(link_text@));  }
%% at loop 4 before
    let ghost g_o = alt_text@;
    proof { lemma_no_kids(true, node, g_o); }
%% loop 4
    invariant hdv4@ == kids(node), p_k(true, node, hdk4 as int, g_o, alt_text@),
%% at loop 4 start
    let ghost g_m = alt_text@;
%% at loop 4 end
    proof { lemma_kid(true, node, hdk4 as int, g_o, g_m, alt_text@); }
%% at loop 4 after
    proof { lemma_all(true, node, g_o, alt_text@); assert(mid(alt_text@));  }
%% at loop 5 before
    let ghost g_o = text@;
    proof { lemma_no_kids(true, node, g_o); }
%% loop 5
    invariant hdv5@ == kids(node), p_k(true, node, hdk5 as int, g_o, text@),
%% at loop 5 start
    let ghost g_m = text@;
%% at loop 5 end
    proof { lemma_kid(true, node, hdk5 as int, g_o, g_m, text@); }
%% at loop 5 after
    proof { lemma_all(true, node, g_o, text@); assert(mid(text@));  }
%% at before if self.options.heading_sentence_case
    proof { assert(mid(text@)); assert(link_w1(true, height(node), node, link.url@, link.title@, old(text)@, text@)); lemma_link(true, node, link.url@, link.title@, old(text)@, text@); lemma_ext_link(true, height(node), node, link.url@, link.title@, old(text)@, text@); assert(text@.take(old(text)@.len() as int) =~= old(text)@); assert(at_byte(text@, start as int, old(text)@.len() as int)); }
%% fn Serializer::get_emphasis_delimiter
%% from src/serializer/state.rs
%% ret r
%% spec
    ensures r == '*' || r == '_',

%% fn Serializer::get_strong_delimiter
%% from src/serializer/state.rs
%% ret r
%% spec
    ensures r@ == "**"@ || r@ == "__"@,

%% fn Serializer::keep_label
%% opt str_slices option_closures
%% spec
    requires exists|k: int| #[trigger] at_byte(old(text)@, start as int, k),
    ensures forall|k: int| #[trigger] at_byte(old(text)@, start as int, k) ==> final(text)@ == old(text)@ || kept(old(text)@.take(k), old(text)@, final(text)@),
%% at start
    proof { ax_string_eq(); }
    let ghost g_t = text@;
    let ghost g_k = byte_k(text@, start as int);
    assert(at_byte(g_t, start as int, g_k));
    assert forall|k: int| #[trigger] at_byte(g_t, start as int, k) implies k == g_k by { lemma_at_byte(g_t, start as int, k, g_k); }
%% at before let Some(label) =
    let ghost g_r = g_t.skip(g_k);
    proof { assert(g_t =~= g_t.take(g_k) + g_r); assert(g_r.len() >= 2 && g_r.skip(g_r.len() - 2) == "[]"@ ==> g_r =~= g_r.take(g_r.len() - 2) + "[]"@); assert(link@ == g_r || g_r =~= link@ + "[]"@); assert(link@.len() >= 2 && link@[0] == '[' ==> link@ =~= one('[') + link@.skip(1).take(link@.len() - 2) + one(link@.last())); }
%% at before text.hd_truncate_at(start)
    let ghost g_l = label@;
    proof {
        assert(link@ == one('[') + g_l + one(']'));
        if g_r == link@ { assert(g_t =~= g_t.take(g_k) + one('[') + g_l + one(']')); }
        else { assert(g_t =~= g_t.take(g_k) + one('[') + g_l + "][]"@) by { reveal_strlit("][]"); reveal_strlit("[]"); assert("][]"@ =~= one(']') + "[]"@); assert(g_r =~= one('[') + g_l + one(']') + "[]"@); assert(g_t =~= g_t.take(g_k) + g_r); assert(g_t.take(g_k) + (one('[') + g_l + one(']') + "[]"@) =~= g_t.take(g_k) + one('[') + g_l + (one(']') + "[]"@)); } }
    }
%% at after text.push_str(
    proof { assert(text@ == g_t.take(g_k) + ("["@ + g_l + "]["@ + g_l + "]"@)); reveal_strlit("["); reveal_strlit("]"); assert("["@ =~= one('[')); assert("]"@ =~= one(']')); if label_ok(g_l) { assert(text@ =~= kept_s(g_t.take(g_k), g_l)); } }

