%% source src/serializer/document.rs
%% lib chars strs nodes
%% impl Serializer => impl<'a> Serializer<'a>
%% method extend => hd_extend
%% method get => hd_get_range
%% method min => hd_min2
%% method to_string => hd_fmt
%% item FormatSkipMode
%% derive Clone Copy PartialEq Eq
%% item Directive
%% item Serializer
%% fields output, source_lines, skip_mode, source_ends_with_newline, directive_proper_nouns, directive_common_nouns
%% frame source_lines, skip_mode, source_ends_with_newline, directive_proper_nouns, directive_common_nouns
%% unused borrow_mut
%% raw
// ---------------------------------------------------------------- specification
pub trait HdExtend { fn hd_extend(&mut self, o: Vec<String>); }
impl HdExtend for Vec<String> {
    #[verifier::external_body]
    fn hd_extend(&mut self, o: Vec<String>) ensures sviews(final(self)@) == sviews(old(self)@) + sviews(o@) { self.extend(o) }
}
pub trait HdMin { fn hd_min2(self, o: usize) -> usize; }
impl HdMin for usize { fn hd_min2(self, o: usize) -> (r: usize) ensures r == (if self < o { self } else { o }) { if self < o { self } else { o } } }
pub trait HdGetRange<'a> { spec fn all(&self) -> Seq<&'a str>; fn hd_get_range(&self, r: std::ops::Range<usize>) -> Option<&[&'a str]>; }
impl<'a> HdGetRange<'a> for Vec<&'a str> {
    open spec fn all(&self) -> Seq<&'a str> { self@ }
    #[verifier::external_body]
    fn hd_get_range(&self, r: std::ops::Range<usize>) -> (x: Option<&[&'a str]>)
        ensures x.is_some() == (r.start <= r.end <= self@.len()), x.is_some() ==> (x->0)@ == self@.subrange(r.start as int, r.end as int)
    { self.get(r) }
}
impl<'a> HdJoin for [&'a str] {
    open spec fn parts(&self) -> Seq<Seq<char>> { views(self@) }
    #[verifier::external_body] fn hd_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}
// ---- the directives
pub enum Dv { NextLine, File, Section, Disable, Enable, Proper(Seq<Seq<char>>), Common(Seq<Seq<char>>) }
/// the words of a list with commas
pub open spec fn nouns_s(v: Seq<Seq<char>>) -> Seq<Seq<char>> decreases v.len() {
    if v.len() == 0 { Seq::empty() }
    else if trim_s(v.last()).len() == 0 { nouns_s(v.drop_last()) }
    else { nouns_s(v.drop_last()).push(trim_s(v.last())) }
}
pub open spec fn word_s(c: Seq<char>) -> Option<Dv> {
    if c == "hongdown-disable-next-line"@ { Some(Dv::NextLine) }
    else if c == "hongdown-disable-file"@ { Some(Dv::File) }
    else if c == "hongdown-disable-next-section"@ { Some(Dv::Section) }
    else if c == "hongdown-disable"@ { Some(Dv::Disable) }
    else if c == "hongdown-enable"@ { Some(Dv::Enable) }
    else if has_pre(c, "hongdown-proper-nouns:"@) { Some(Dv::Proper(nouns_s(split_s(c.skip(22), ',')))) }
    else if has_pre(c, "hongdown-common-nouns:"@) { Some(Dv::Common(nouns_s(split_s(c.skip(22), ',')))) }
    else { None }
}
pub open spec fn has_pre(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn has_suf(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) == p }
/// what an HTML block says to the formatter
pub open spec fn dir_s(html: Seq<char>) -> Option<Dv> {
    let t = trim_s(html);
    if t.len() >= 7 && has_pre(t, "<!--"@) && has_suf(t, "-->"@) { word_s(trim_s(t.subrange(4, t.len() - 3))) } else { None }
}
pub open spec fn dv(d: Option<Directive>) -> Option<Dv> {
    match d {
        None => None,
        Some(Directive::DisableNextLine) => Some(Dv::NextLine),
        Some(Directive::DisableFile) => Some(Dv::File),
        Some(Directive::DisableNextSection) => Some(Dv::Section),
        Some(Directive::Disable) => Some(Dv::Disable),
        Some(Directive::Enable) => Some(Dv::Enable),
        Some(Directive::ProperNouns(v)) => Some(Dv::Proper(sviews(v@))),
        Some(Directive::CommonNouns(v)) => Some(Dv::Common(sviews(v@))),
    }
}
// ---- the source
pub struct Src { pub lines: Seq<Seq<char>>, pub nl: bool }
pub open spec fn blank(l: Seq<char>) -> bool { trim_s(l).len() == 0 }
pub open spec fn cut_blank(v: Seq<Seq<char>>) -> Seq<Seq<char>> decreases v.len() {
    if v.len() > 0 && blank(v.last()) { cut_blank(v.drop_last()) } else { v }
}
pub open spec fn end_blank(v: Seq<Seq<char>>) -> nat decreases v.len() {
    if v.len() > 0 && blank(v.last()) { end_blank(v.drop_last()) + 1 } else { 0 }
}
pub proof fn lemma_end_blank(v: Seq<Seq<char>>, n: int)
    requires 0 <= n <= v.len(), forall|j: int| v.len() - n <= j < v.len() ==> blank(#[trigger] v[j]), n < v.len() ==> !blank(v[v.len() - 1 - n]),
    ensures end_blank(v) == n, cut_blank(v) == v.take(v.len() - n),
    decreases v.len(),
{
    if v.len() > 0 && n > 0 {
        let w = v.drop_last();
        assert(blank(v[v.len() - 1]));
        assert forall|j: int| w.len() - (n - 1) <= j < w.len() implies blank(#[trigger] w[j]) by { assert(w[j] == v[j]); }
        if n - 1 < w.len() { assert(w[w.len() - 1 - (n - 1)] == v[v.len() - 1 - n]); }
        lemma_end_blank(w, n - 1);
        assert(w.take(w.len() - (n - 1)) =~= v.take(v.len() - n));
    } else {
        assert(v.take(v.len() - n) =~= v);
    }
}
/// the lines of a block, without blank ones at the end
pub open spec fn block_s<'b>(s: Src, n: &'b AstNode<'b>) -> Option<Seq<char>> {
    let (a, b) = (pos(n).start.line as int - 1, pos(n).end.line as int);
    if 0 <= a <= b <= s.lines.len() { Some(join_s(cut_blank(s.lines.subrange(a, b)), "\n"@)) } else { None }
}
/// everything from a line on
pub open spec fn from_s(s: Src, line: int) -> Option<Seq<char>> {
    if 1 <= line <= s.lines.len() { Some(join_s(s.lines.skip(line - 1), "\n"@) + (if s.nl { seq!['\n'] } else { Seq::empty() })) } else { None }
}
pub proof fn lemma_join_push(v: Seq<Seq<char>>, n: int)
    requires 0 <= n < v.len(),
    ensures join_s(v.take(n + 1), "\n"@) == join_s(v.take(n), "\n"@) + (if n > 0 { "\n"@ } else { Seq::empty() }) + v[n], join_s(v.take(0), "\n"@) == Seq::<char>::empty(),
{
    assert(v.take(n + 1).drop_last() =~= v.take(n));
    assert(v.take(n + 1).last() == v[n]);
    assert(join_s(v.take(n), "\n"@) + (if n > 0 { "\n"@ } else { Seq::empty() }) + v[n] =~= join_s(v.take(n + 1), "\n"@));
}
pub proof fn lemma_nouns_push(v: Seq<Seq<char>>, n: int)
    requires 0 <= n < v.len(),
    ensures nouns_s(v.take(n + 1)) == (if trim_s(v[n]).len() == 0 { nouns_s(v.take(n)) } else { nouns_s(v.take(n)).push(trim_s(v[n])) }), nouns_s(v.take(0)).len() == 0, v.take(v.len() as int) == v,
{
    assert(v.take(n + 1).drop_last() =~= v.take(n));
    assert(v.take(n + 1).last() == v[n]);
    assert(v.take(v.len() as int) =~= v);
}
/// the number of blank lines before a block; where a definition is taken out, there is one
pub open spec fn gap_s<'b>(s: Src, n: &'b AstNode<'b>) -> nat {
    let before = if pos(n).start.line == 0 { 0int } else { pos(n).start.line - 1 };
    let k = end_blank(s.lines.take(if before < s.lines.len() { before } else { s.lines.len() as int }));
    let end = match prev(n) { Some(p) => pos(p).end.line as int, None => 0 };
    if k == 0 && before > end { 1 } else { k }
}
pub open spec fn src(s: Serializer) -> Src { Src { lines: views(s.source_lines@), nl: s.source_ends_with_newline } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for FormatSkipMode {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &FormatSkipMode) -> bool { *self == *other }
}
// ---- the document, block by block
pub struct St { pub o: Seq<char>, pub mode: FormatSkipMode, pub proper: Seq<Seq<char>>, pub common: Seq<Seq<char>> }
pub open spec fn st(s: Serializer) -> St { St { o: s.output@, mode: s.skip_mode, proper: sviews(s.directive_proper_nouns@), common: sviews(s.directive_common_nouns@) } }
#[verifier::opaque]
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
/// the block, formatted: see the unit `blocks`
pub uninterp spec fn fmt_rel<'b>(n: &'b AstNode<'b>, proper: Seq<Seq<char>>, common: Seq<Seq<char>>, o: Seq<char>, o2: Seq<char>) -> bool;
pub open spec fn is_note<'b>(n: &'b AstNode<'b>) -> bool { val(n) is FootnoteDefinition }
pub open spec fn is_html<'b>(n: &'b AstNode<'b>) -> bool { val(n) is HtmlBlock }
pub open spec fn html_s<'b>(n: &'b AstNode<'b>) -> Seq<char> { val(n)->HtmlBlock_0.literal@ }
pub open spec fn node_dir<'b>(n: &'b AstNode<'b>) -> Option<Dv> { if is_html(n) { dir_s(html_s(n)) } else { None } }
/// a heading that ends a section
pub open spec fn ends_section<'b>(n: &'b AstNode<'b>) -> bool { val(n) is Heading && val(n)->Heading_0.level <= 2 }
/// written elsewhere: footnote definitions, and HTML blocks (but no directives) at the end of the document
pub open spec fn elsewhere<'b>(t: int, v: Seq<&'b AstNode<'b>>, i: int) -> bool { is_note(v[i]) || (i >= t && is_html(v[i])) }
/// the block is output as it is in the source
pub open spec fn as_is<'b>(mode: FormatSkipMode, n: &'b AstNode<'b>) -> bool {
    match mode {
        FormatSkipMode::None => false,
        FormatSkipMode::NextBlock | FormatSkipMode::Disabled => true,
        FormatSkipMode::UntilSection => !ends_section(n),
    }
}
pub open spec fn mode_after_dir(mode: FormatSkipMode, d: Dv) -> FormatSkipMode {
    match d {
        Dv::NextLine => FormatSkipMode::NextBlock,
        Dv::Section => FormatSkipMode::UntilSection,
        Dv::Disable => FormatSkipMode::Disabled,
        Dv::Enable => FormatSkipMode::None,
        Dv::File | Dv::Proper(_) | Dv::Common(_) => mode,
    }
}
pub open spec fn mode_after<'b>(mode: FormatSkipMode, n: &'b AstNode<'b>) -> FormatSkipMode {
    match mode {
        FormatSkipMode::Disabled => mode,
        FormatSkipMode::UntilSection => if ends_section(n) { FormatSkipMode::None } else { mode },
        FormatSkipMode::NextBlock | FormatSkipMode::None => FormatSkipMode::None,
    }
}
pub open spec fn line_start(o: Seq<char>) -> bool { o.len() == 0 || o.last() == '\n' }
/// what came before old comes before new
pub open spec fn appended(old: Seq<char>, new: Seq<char>) -> bool { forall|x: Seq<char>| starts(old, x) ==> #[trigger] starts(new, x) }
/// b is o, then anything, then x
#[verifier::opaque]
pub open spec fn adds(o: Seq<char>, b: Seq<char>, x: Seq<char>) -> bool { b.len() >= o.len() + x.len() && starts(b, o) && b.skip(b.len() - x.len()) == x }
pub broadcast proof fn lemma_starts_add(a: Seq<char>, b: Seq<char>, x: Seq<char>)
    requires starts(b, a),
    ensures #[trigger] starts(b + x, a),
{ reveal(starts); assert((b + x).take(a.len() as int) =~= b.take(a.len() as int)); }
pub broadcast proof fn lemma_starts_push(a: Seq<char>, b: Seq<char>, c: char)
    requires starts(b, a),
    ensures #[trigger] starts(b.push(c), a),
{ reveal(starts); assert(b.push(c).take(a.len() as int) =~= b.take(a.len() as int)); }
pub broadcast proof fn lemma_starts_self(a: Seq<char>)
    ensures #[trigger] starts(a, a),
{ reveal(starts); assert(a.take(a.len() as int) =~= a); }
pub broadcast proof fn lemma_starts_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] starts(b, a), #[trigger] starts(c, b),
    ensures starts(c, a),
{ reveal(starts); assert(c.take(a.len() as int) =~= b.take(a.len() as int)); }
pub broadcast proof fn lemma_adds(o: Seq<char>, m: Seq<char>, x: Seq<char>)
    requires starts(m, o),
    ensures #[trigger] adds(o, m + x, x),
{ reveal(adds); reveal(starts); lemma_starts_add(o, m, x); assert((m + x).skip(m.len() as int) =~= x); }
pub broadcast proof fn lemma_adds_nl(o: Seq<char>, m: Seq<char>, t: Seq<char>, x: Seq<char>)
    requires starts(m, o),
    ensures #[trigger] adds(o, (m + t).push('\n') + x, t.push('\n') + x),
{
    lemma_adds(o, m, t.push('\n') + x);
    assert((m + t).push('\n') + x =~= m + (t.push('\n') + x));
}
pub broadcast group group_adds { lemma_starts_add, lemma_starts_push, lemma_starts_self, lemma_adds, lemma_adds_nl }
pub open spec fn dir_step<'b>(v: Seq<&'b AstNode<'b>>, i: int, d: Dv, a: St, b: St) -> bool {
    &&& adds(a.o, b.o, html_s(v[i]))
    &&& b.mode == mode_after_dir(a.mode, d)
    &&& b.proper == (match d { Dv::Proper(w) => a.proper + w, _ => a.proper })
    &&& b.common == (match d { Dv::Common(w) => a.common + w, _ => a.common })
}
/// the only block that is output as it is: on a line of its own
pub open spec fn alone(o: Seq<char>, b: Seq<char>, x: Seq<char>, own_line: bool) -> bool {
    adds(o, b, x.push('\n')) && (own_line ==> line_start(b.take(b.len() - x.len() - 1)))
}
pub proof fn lemma_alone(o: Seq<char>, m: Seq<char>, x: Seq<char>, own_line: bool)
    requires starts(m, o), own_line ==> line_start(m),
    ensures alone(o, (m + x).push('\n'), x, own_line),
{
    assert((m + x).push('\n') =~= m + x.push('\n'));
    lemma_adds(o, m, x.push('\n'));
    assert((m + x).push('\n').take(m.len() as int) =~= m);
}
pub open spec fn block_step<'b>(s: Src, v: Seq<&'b AstNode<'b>>, i: int, a: St, b: St) -> bool {
    &&& b.mode == mode_after(a.mode, v[i]) && b.proper == a.proper && b.common == a.common
    &&& match (as_is(a.mode, v[i]), block_s(s, v[i])) {
        (true, Some(x)) =>
            if a.mode is NextBlock { alone(a.o, b.o, x, i > 0 && !(val(v[i - 1]) is FrontMatter)) }
            else { b.o == ((if i > 0 { a.o + rep_s("\n"@, gap_s(s, v[i])) } else { a.o }) + x).push('\n') },
        _ => formatted(v[i], a, b.o),
    }
}
#[verifier::opaque]
pub open spec fn formatted<'b>(n: &'b AstNode<'b>, a: St, b: Seq<char>) -> bool {
    exists|m: Seq<char>| starts(m, a.o) && #[trigger] fmt_rel(n, a.proper, a.common, m, b) && appended(m, b)
}
pub open spec fn step<'b>(s: Src, t: int, v: Seq<&'b AstNode<'b>>, i: int, a: St, b: St) -> bool {
    if elsewhere(t, v, i) { b == a }
    else {
        match node_dir(v[i]) {
            Some(d) => !(d is File) && dir_step(v, i, d, a, b),
            None => block_step(s, v, i, a, b),
        }
    }
}
pub open spec fn mid(x: St) -> bool { true }
/// the blocks from i on, before j
pub open spec fn steps<'b>(s: Src, t: int, v: Seq<&'b AstNode<'b>>, i: int, j: int, a: St, b: St) -> bool decreases j - i {
    if j <= i { b == a } else { exists|m: St| #[trigger] mid(m) && steps(s, t, v, i, j - 1, a, m) && step(s, t, v, j - 1, m, b) }
}
/// the rest of the file comes after the directive at k as it is
pub open spec fn file_end<'b>(s: Src, t: int, v: Seq<&'b AstNode<'b>>, k: int, a: Seq<char>, b: Seq<char>) -> bool {
    0 <= k < v.len() && !elsewhere(t, v, k) && node_dir(v[k]) == Some(Dv::File)
    && match from_s(s, pos(v[k]).end.line + 1) {
        Some(x) => adds(a, b, trim_end_s(html_s(v[k])).push('\n') + x),
        None => adds(a, b, trim_end_s(html_s(v[k]))),
    }
}
/// no block is left out: from t on there are only HTML blocks that are no directives, and footnote definitions
pub open spec fn trailing<'b>(v: Seq<&'b AstNode<'b>>, t: int) -> bool {
    0 <= t <= v.len() && forall|i: int| t <= i < v.len() ==> is_note(#[trigger] v[i]) || (is_html(v[i]) && node_dir(v[i]).is_none())
}
#[verifier::opaque]
pub open spec fn doc_rel<'b>(s: Src, v: Seq<&'b AstNode<'b>>, a: St, out: Seq<char>) -> bool {
    exists|t: int, k: int, m: St| #[trigger] trailing(v, t) && 0 <= k <= v.len() && #[trigger] steps(s, t, v, 0, k, a, m)
        && (if k < v.len() { file_end(s, t, v, k, m.o, out) } else { starts(out, m.o) })
}
pub proof fn lemma_none<'b>(s: Src, t: int, v: Seq<&'b AstNode<'b>>, a: St)
    ensures steps(s, t, v, 0, 0, a, a),
{}
/// what follows from the steps so far
pub proof fn lemma_go<'b>(s: Src, t: int, v: Seq<&'b AstNode<'b>>, k: int, s0: St, a: St)
    requires trailing(v, t), 0 <= k <= v.len(), steps(s, t, v, 0, k, s0, a),
    ensures
        k < v.len() ==> forall|b: St| step(s, t, v, k, a, b) ==> #[trigger] steps(s, t, v, 0, k + 1, s0, b),
        forall|out: Seq<char>| file_end(s, t, v, k, a.o, out) ==> #[trigger] doc_rel(s, v, s0, out),
        k == v.len() ==> forall|out: Seq<char>| starts(out, a.o) ==> #[trigger] doc_rel(s, v, s0, out),
{
    reveal(doc_rel);
    if k < v.len() {
        assert forall|b: St| step(s, t, v, k, a, b) implies #[trigger] steps(s, t, v, 0, k + 1, s0, b) by { assert(mid(a) && steps(s, t, v, 0, k, s0, a)); }
    }
}
pub open spec fn same_src(a: Serializer, b: Serializer) -> bool { a.source_lines == b.source_lines && a.source_ends_with_newline == b.source_ends_with_newline }
pub open spec fn same_mode(a: Serializer, b: Serializer) -> bool {
    same_src(a, b) && a.skip_mode == b.skip_mode && a.directive_proper_nouns == b.directive_proper_nouns && a.directive_common_nouns == b.directive_common_nouns
}
impl<'a> Serializer<'a> {
    #[verifier::external_body]
    pub fn serialize_node<'b>(&mut self, node: &'b AstNode<'b>)
        ensures
            same_mode(*old(self), *final(self)),
            is_note(node) ==> final(self).output@ == old(self).output@,
            appended(old(self).output@, final(self).output@),
            forall|n: &'b AstNode<'b>, a: St| n == node && starts(old(self).output@, a.o) && a.proper == sviews(old(self).directive_proper_nouns@) && a.common == sviews(old(self).directive_common_nouns@)
                ==> #[trigger] formatted(n, a, final(self).output@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn flush_footnotes_before(&mut self, before_line: Option<usize>)
        ensures same_mode(*old(self), *final(self)), appended(old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush_footnote_references_before(&mut self, before_line: Option<usize>)
        ensures same_mode(*old(self), *final(self)), appended(old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush_references(&mut self)
        ensures same_mode(*old(self), *final(self)), appended(old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush_footnotes(&mut self) ensures same_mode(*old(self), *final(self)), appended(old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn flush_footnote_references(&mut self) ensures same_mode(*old(self), *final(self)), appended(old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn check_undefined_references_ast<'b>(&mut self, node: &'b AstNode<'b>)
        ensures same_mode(*old(self), *final(self)), final(self).output == old(self).output { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_footnote_reference_lines<'b>(&mut self, node: &'b AstNode<'b>)
        ensures same_mode(*old(self), *final(self)), final(self).output == old(self).output { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_references<'b>(&mut self, node: &'b AstNode<'b>)
        ensures same_mode(*old(self), *final(self)), final(self).output == old(self).output { unimplemented!() }
}
// ---------------------------------------------------------------- theorems over the contracts
/// nothing that is written is taken back
pub proof fn lemma_step_starts<'b>(s: Src, t: int, v: Seq<&'b AstNode<'b>>, i: int, a: St, b: St)
    requires step(s, t, v, i, a, b),
    ensures starts(b.o, a.o),
{
    broadcast use group_adds;
    reveal(adds);
    reveal(formatted);
    if !elsewhere(t, v, i) && node_dir(v[i]).is_none() && !(as_is(a.mode, v[i]) && block_s(s, v[i]).is_some()) {
        let m = choose|m: Seq<char>| starts(m, a.o) && #[trigger] fmt_rel(v[i], a.proper, a.common, m, b.o) && appended(m, b.o);
        assert(starts(b.o, a.o));
    }
}
/// the mode of a block only depends on the directives before it
pub open spec fn mode_of<'b>(t: int, v: Seq<&'b AstNode<'b>>, i: int, m: FormatSkipMode) -> FormatSkipMode decreases i {
    if i <= 0 { m }
    else if elsewhere(t, v, i - 1) { mode_of(t, v, i - 1, m) }
    else { match node_dir(v[i - 1]) { Some(d) => mode_after_dir(mode_of(t, v, i - 1, m), d), None => mode_after(mode_of(t, v, i - 1, m), v[i - 1]) } }
}
pub proof fn lemma_mode<'b>(s: Src, t: int, v: Seq<&'b AstNode<'b>>, k: int, a: St, b: St)
    requires steps(s, t, v, 0, k, a, b),
    ensures b.mode == mode_of(t, v, k, a.mode),
    decreases k,
{
    if k > 0 {
        let m = choose|m: St| #[trigger] mid(m) && steps(s, t, v, 0, k - 1, a, m) && step(s, t, v, k - 1, m, b);
        lemma_mode(s, t, v, k - 1, a, m);
    }
}
pub proof fn lemma_split<'b>(s: Src, t: int, v: Seq<&'b AstNode<'b>>, h: int, i: int, j: int, a: St, b: St)
    requires h <= i <= j, steps(s, t, v, h, j, a, b),
    ensures exists|x: St| #[trigger] mid(x) && steps(s, t, v, h, i, a, x) && steps(s, t, v, i, j, x, b) && starts(b.o, x.o),
    decreases j - h,
{
    lemma_starts_self(b.o);
    if i == j {
        assert(mid(b) && steps(s, t, v, i, j, b, b));
    } else {
        let m = choose|m: St| #[trigger] mid(m) && steps(s, t, v, h, j - 1, a, m) && step(s, t, v, j - 1, m, b);
        lemma_split(s, t, v, h, i, j - 1, a, m);
        let x = choose|x: St| #[trigger] mid(x) && steps(s, t, v, h, i, a, x) && steps(s, t, v, i, j - 1, x, m) && starts(m.o, x.o);
        lemma_step_starts(s, t, v, j - 1, m, b);
        lemma_starts_trans(x.o, m.o, b.o);
        assert(mid(x) && steps(s, t, v, i, j, x, b));
    }
}
/// the blocks from i on, before j, and the blank lines before each of them, as they are in the source
pub open spec fn region_s<'b>(s: Src, v: Seq<&'b AstNode<'b>>, i: int, j: int) -> Seq<char> decreases j - i {
    if j <= i { Seq::empty() } else { region_s(s, v, i, j - 1) + rep_s("\n"@, gap_s(s, v[j - 1])) + (block_s(s, v[j - 1])->0).push('\n') }
}
/// the block has no say itself
pub open spec fn ordinary<'b>(s: Src, n: &'b AstNode<'b>, section: bool) -> bool {
    !is_note(n) && node_dir(n).is_none() && block_s(s, n).is_some() && (section ==> !ends_section(n))
}
/// not at the end of the document, where HTML blocks come after the definitions
pub open spec fn fixed<'b>(n: &'b AstNode<'b>) -> bool { node_dir(n).is_some() || (!is_html(n) && !is_note(n)) }
pub proof fn lemma_region_steps<'b>(s: Src, t: int, v: Seq<&'b AstNode<'b>>, i: int, j: int, a: St, b: St)
    requires
        0 < i <= j <= t, steps(s, t, v, i, j, a, b), a.mode is Disabled || a.mode is UntilSection,
        forall|x: int| i <= x < j ==> ordinary(s, #[trigger] v[x], a.mode is UntilSection),
    ensures b.mode == a.mode, b.o == a.o + region_s(s, v, i, j),
    decreases j - i,
{
    if i == j { assert(a.o + region_s(s, v, i, j) =~= a.o); }
    else {
        let m = choose|m: St| #[trigger] mid(m) && steps(s, t, v, i, j - 1, a, m) && step(s, t, v, j - 1, m, b);
        lemma_region_steps(s, t, v, i, j - 1, a, m);
        assert(ordinary(s, v[j - 1], a.mode is UntilSection));
        assert(b.o =~= a.o + region_s(s, v, i, j));
    }
}
/// a document with all its directives for the file after block q
pub open spec fn no_file<'b>(v: Seq<&'b AstNode<'b>>, q: int) -> bool { forall|x: int| 0 <= x < q ==> node_dir(#[trigger] v[x]) != Some(Dv::File) }
/// how a document is written up to block i, and what block i adds to it
pub open spec fn at_block<'b>(s: Src, v: Seq<&'b AstNode<'b>>, s0: St, i: int, j: int, out: Seq<char>, t: int, a: St, b: St) -> bool {
    j <= t && trailing(v, t) && steps(s, t, v, 0, i, s0, a) && steps(s, t, v, i, j, a, b) && starts(out, b.o)
}
pub proof fn lemma_at<'b>(s: Src, v: Seq<&'b AstNode<'b>>, s0: St, i: int, j: int, q: int, out: Seq<char>)
    requires doc_rel(s, v, s0, out), 0 <= i <= j <= q < v.len(), no_file(v, q), fixed(v[q]),
    ensures exists|t: int, a: St, b: St| #[trigger] at_block(s, v, s0, i, j, out, t, a, b),
{
    reveal(doc_rel);
    reveal(adds);
    let (t, k, m) = choose|t: int, k: int, m: St| #[trigger] trailing(v, t) && 0 <= k <= v.len() && #[trigger] steps(s, t, v, 0, k, s0, m)
        && (if k < v.len() { file_end(s, t, v, k, m.o, out) } else { starts(out, m.o) });
    if t <= q { assert(is_note(v[q]) || (is_html(v[q]) && node_dir(v[q]).is_none())); assert(false); }
    if k < q { assert(node_dir(v[k]) == Some(Dv::File)); assert(false); }
    assert(starts(out, m.o));
    lemma_split(s, t, v, 0, i, k, s0, m);
    let a = choose|x: St| #[trigger] mid(x) && steps(s, t, v, 0, i, s0, x) && steps(s, t, v, i, k, x, m) && starts(m.o, x.o);
    lemma_split(s, t, v, i, j, k, a, m);
    let b = choose|x: St| #[trigger] mid(x) && steps(s, t, v, i, j, a, x) && steps(s, t, v, j, k, x, m) && starts(m.o, x.o);
    lemma_starts_trans(b.o, m.o, out);
    assert(at_block(s, v, s0, i, j, out, t, a, b));
}
pub open spec fn ends_in(o: Seq<char>, x: Seq<char>) -> bool { o.len() >= x.len() && o.skip(o.len() - x.len()) == x }
/// THEOREM: after a directive that disables formatting (or the formatting of a section), the blocks come out as in the source,
/// right after the directive, with the blank lines before them
pub proof fn lemma_region<'b>(s: Src, v: Seq<&'b AstNode<'b>>, s0: St, out: Seq<char>, i: int, j: int, q: int)
    requires
        doc_rel(s, v, s0, out), 0 < i <= j <= q < v.len(), no_file(v, q), fixed(v[q]),
        node_dir(v[i - 1]) == Some(Dv::Disable) || node_dir(v[i - 1]) == Some(Dv::Section),
        forall|x: int| i <= x < j ==> ordinary(s, #[trigger] v[x], node_dir(v[i - 1]) == Some(Dv::Section)),
    ensures exists|o: Seq<char>| #[trigger] ends_in(o, html_s(v[i - 1])) && starts(out, o + region_s(s, v, i, j)),
{
    lemma_at(s, v, s0, i, j, q, out);
    let (t, a, b) = choose|t: int, a: St, b: St| #[trigger] at_block(s, v, s0, i, j, out, t, a, b);
    let m = choose|m: St| #[trigger] mid(m) && steps(s, t, v, 0, i - 1, s0, m) && step(s, t, v, i - 1, m, a);
    reveal(adds);
    lemma_region_steps(s, t, v, i, j, a, b);
    assert(ends_in(a.o, html_s(v[i - 1])));
}
/// THEOREM: after a directive that disables the formatting of the next block, that block comes out as in the source, on lines of its own
/// (footnote definitions between them are written elsewhere), and the block after it is formatted again
pub proof fn lemma_next<'b>(s: Src, v: Seq<&'b AstNode<'b>>, s0: St, out: Seq<char>, i: int, q: int)
    requires
        doc_rel(s, v, s0, out), 0 < i < q < v.len(), no_file(v, q), fixed(v[q]),
        node_dir(v[i - 1]) == Some(Dv::NextLine), ordinary(s, v[i], false),
    ensures
        exists|o: Seq<char>| line_start(o) && starts(out, #[trigger] (o + (block_s(s, v[i])->0).push('\n'))),
        exists|t: int, a: St, b: St| #[trigger] at_block(s, v, s0, i + 1, i + 1, out, t, a, b) && a.mode is None,
{
    lemma_at(s, v, s0, i, i + 1, q, out);
    let (t, a, b) = choose|t: int, a: St, b: St| #[trigger] at_block(s, v, s0, i, i + 1, out, t, a, b);
    let m = choose|m: St| #[trigger] mid(m) && steps(s, t, v, 0, i - 1, s0, m) && step(s, t, v, i - 1, m, a);
    let m2 = choose|m2: St| #[trigger] mid(m2) && steps(s, t, v, i, i, a, m2) && step(s, t, v, i, m2, b);
    assert(m2 == a);
    assert(a.mode is NextBlock);
    let x = block_s(s, v[i])->0;
    reveal(adds);
    let o = b.o.take(b.o.len() - x.len() - 1);
    assert(val(v[i - 1]) is HtmlBlock);
    assert(o + x.push('\n') =~= b.o);
    assert(line_start(o) && starts(out, o + x.push('\n')));
    assert(mid(a) && steps(s, t, v, 0, i + 1, s0, b));
    assert(steps(s, t, v, i + 1, i + 1, b, b));
    assert(at_block(s, v, s0, i + 1, i + 1, out, t, b, b));
}
/// THEOREM: after a directive for the file, the rest of the source comes out byte for byte, and nothing after it
pub proof fn lemma_file<'b>(s: Src, v: Seq<&'b AstNode<'b>>, s0: St, out: Seq<char>, k: int)
    requires
        doc_rel(s, v, s0, out), 0 <= k < v.len(), no_file(v, k), node_dir(v[k]) == Some(Dv::File), 1 <= pos(v[k]).end.line < s.lines.len(),
    ensures
        ends_in(out, trim_end_s(html_s(v[k])).push('\n') + join_s(s.lines.skip(pos(v[k]).end.line as int), "\n"@) + (if s.nl { seq!['\n'] } else { Seq::empty() })),
{
    reveal(doc_rel);
    reveal(adds);
    let (t, n, m) = choose|t: int, n: int, m: St| #[trigger] trailing(v, t) && 0 <= n <= v.len() && #[trigger] steps(s, t, v, 0, n, s0, m)
        && (if n < v.len() { file_end(s, t, v, n, m.o, out) } else { starts(out, m.o) });
    if t <= k { assert(is_note(v[k]) || (is_html(v[k]) && node_dir(v[k]).is_none())); assert(false); }
    if n < k { assert(node_dir(v[n]) == Some(Dv::File)); assert(false); }
    if n > k {
        lemma_split(s, t, v, 0, k + 1, n, s0, m);
        let x = choose|x: St| #[trigger] mid(x) && steps(s, t, v, 0, k + 1, s0, x) && steps(s, t, v, k + 1, n, x, m) && starts(m.o, x.o);
        let y = choose|y: St| #[trigger] mid(y) && steps(s, t, v, 0, k, s0, y) && step(s, t, v, k, y, x);
        assert(false);
    }
    assert(trim_end_s(html_s(v[k])).push('\n') + join_s(s.lines.skip(pos(v[k]).end.line as int), "\n"@) + (if s.nl { seq!['\n'] } else { Seq::empty() })
        =~= trim_end_s(html_s(v[k])).push('\n') + from_s(s, pos(v[k]).end.line + 1)->0);
}
/// THEOREM: where formatting is not disabled, a block is formatted with the nouns of the directives before it
pub proof fn lemma_outside<'b>(s: Src, v: Seq<&'b AstNode<'b>>, s0: St, out: Seq<char>, i: int, q: int)
    requires doc_rel(s, v, s0, out), 0 <= i < q < v.len(), no_file(v, q), fixed(v[q]), !is_note(v[i]), node_dir(v[i]).is_none(), mode_of(q, v, i, s0.mode) is None,
    ensures exists|a: St, b: St| #[trigger] formatted(v[i], a, b.o) && starts(out, b.o),
{
    lemma_at(s, v, s0, i, i + 1, q, out);
    let (t, a, b) = choose|t: int, a: St, b: St| #[trigger] at_block(s, v, s0, i, i + 1, out, t, a, b);
    lemma_mode(s, t, v, i, s0, a);
    lemma_mode_t(t, q, v, i, s0.mode);
    let m2 = choose|m2: St| #[trigger] mid(m2) && steps(s, t, v, i, i, a, m2) && step(s, t, v, i, m2, b);
    assert(formatted(v[i], a, b.o));
}
/// where the HTML blocks at the end start does not matter before them
pub proof fn lemma_mode_t<'b>(t: int, q: int, v: Seq<&'b AstNode<'b>>, i: int, m: FormatSkipMode)
    requires i <= t, i <= q,
    ensures mode_of(t, v, i, m) == mode_of(q, v, i, m),
    decreases i,
{ if i > 0 { lemma_mode_t(t, q, v, i - 1, m); } }
// ---- the region, line by line
pub open spec fn text_s(v: Seq<Seq<char>>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { text_s(v.drop_last()) + v.last().push('\n') } }
pub proof fn lemma_text_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures text_s(a + b) == text_s(a) + text_s(b),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); assert(text_s(a) + text_s(b) =~= text_s(a)); }
    else {
        lemma_text_add(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(text_s(a + b) =~= text_s(a) + text_s(b));
    }
}
pub proof fn lemma_text_join(v: Seq<Seq<char>>)
    requires v.len() > 0,
    ensures text_s(v) == join_s(v, "\n"@).push('\n'),
    decreases v.len(),
{
    reveal_strlit("\n");
    assert("\n"@ =~= seq!['\n']);
    if v.len() == 1 { assert(text_s(v.drop_last()) =~= Seq::<char>::empty()); assert(v.last() == v[0]); assert(text_s(v) =~= v[0].push('\n')); }
    else { lemma_text_join(v.drop_last()); assert(text_s(v) =~= join_s(v, "\n"@).push('\n')); }
}
pub open spec fn empties(n: nat) -> Seq<Seq<char>> { Seq::new(n, |i: int| Seq::empty()) }
pub proof fn lemma_text_blank(n: nat)
    ensures text_s(empties(n)) == rep_s("\n"@, n),
    decreases n,
{
    reveal_strlit("\n");
    assert("\n"@ =~= seq!['\n']);
    if n > 0 {
        lemma_text_blank((n - 1) as nat);
        assert(empties(n).drop_last() =~= empties((n - 1) as nat));
        assert(text_s(empties(n)) =~= rep_s("\n"@, n));
    }
}
/// the line after the last one of a block that is not blank (lines start at 0)
pub open spec fn end_of<'b>(s: Src, n: &'b AstNode<'b>) -> int { pos(n).start.line - 1 + cut_blank(s.lines.subrange(pos(n).start.line - 1, pos(n).end.line as int)).len() }
/// there is nothing but blank lines between two blocks, and the positions are those of blocks
pub open spec fn next_to<'b>(s: Src, p: &'b AstNode<'b>, n: &'b AstNode<'b>) -> bool {
    &&& prev(n) == Some(p)
    &&& 1 <= pos(n).start.line <= pos(n).end.line <= s.lines.len()
    &&& pos(p).end.line < pos(n).start.line
    &&& !blank(s.lines[pos(n).start.line - 1])
    &&& forall|x: int| pos(p).end.line <= x < pos(n).start.line - 1 ==> blank(#[trigger] s.lines[x])
}
/// a line that comes out is the one in the source, or both are blank
pub open spec fn same_line(a: Seq<char>, b: Seq<char>) -> bool { a == b || (a.len() == 0 && blank(b)) }
/// the lines of the output for those of the source from a on, before b
pub open spec fn same_lines(s: Src, l: Seq<Seq<char>>, a: int, b: int) -> bool {
    0 <= a <= b <= s.lines.len() && l.len() == b - a && forall|x: int| 0 <= x < l.len() ==> same_line(#[trigger] l[x], s.lines[a + x])
}
pub proof fn lemma_cut(v: Seq<Seq<char>>)
    ensures
        cut_blank(v).len() <= v.len(), cut_blank(v) == v.take(cut_blank(v).len() as int),
        forall|x: int| cut_blank(v).len() <= x < v.len() ==> blank(#[trigger] v[x]),
        cut_blank(v).len() > 0 ==> !blank(v[cut_blank(v).len() - 1]),
        v.len() > 0 && !blank(v[0]) ==> cut_blank(v).len() > 0,
    decreases v.len(),
{
    if v.len() > 0 && blank(v.last()) {
        let w = v.drop_last();
        lemma_cut(w);
        assert(w.take(cut_blank(w).len() as int) =~= v.take(cut_blank(w).len() as int));
        assert forall|x: int| cut_blank(v).len() <= x < v.len() implies blank(#[trigger] v[x]) by { if x < w.len() { assert(w[x] == v[x]); } }
        if cut_blank(w).len() > 0 { assert(w[cut_blank(w).len() - 1] == v[cut_blank(w).len() - 1]); }
        if !blank(v[0]) { assert(w.len() > 0); assert(w[0] == v[0]); }
    } else { assert(v.take(v.len() as int) =~= v); }
}
pub open spec fn well<'b>(s: Src, n: &'b AstNode<'b>) -> bool {
    1 <= pos(n).start.line <= pos(n).end.line <= s.lines.len() && !blank(s.lines[pos(n).start.line - 1])
}
pub proof fn lemma_gap<'b>(s: Src, o: &'b AstNode<'b>, p: &'b AstNode<'b>)
    requires well(s, o), next_to(s, o, p),
    ensures
        pos(o).start.line <= end_of(s, o) <= pos(o).end.line, gap_s(s, p) == pos(p).start.line - 1 - end_of(s, o),
        forall|x: int| end_of(s, o) <= x < pos(p).start.line - 1 ==> blank(#[trigger] s.lines[x]),
{
    let osub = s.lines.subrange(pos(o).start.line - 1, pos(o).end.line as int);
    lemma_cut(osub);
    let before = pos(p).start.line - 1;
    let f = end_of(s, o);
    let w = s.lines.take(before);
    assert(osub[0] == s.lines[pos(o).start.line - 1]);
    assert forall|x: int| f <= x < before implies blank(#[trigger] s.lines[x]) by {
        if x < pos(o).end.line { assert(osub[x - (pos(o).start.line - 1)] == s.lines[x]); }
    }
    assert forall|x: int| w.len() - (before - f) <= x < w.len() implies blank(#[trigger] w[x]) by { assert(w[x] == s.lines[x]); }
    assert(w[f - 1] == osub[cut_blank(osub).len() - 1]);
    lemma_end_blank(w, before - f);
}
pub proof fn lemma_more(s: Src, l: Seq<Seq<char>>, e: int, f: int, g: nat, b: Seq<Seq<char>>)
    requires
        same_lines(s, l, e, f), f + g + b.len() <= s.lines.len(),
        forall|x: int| f <= x < f + g ==> blank(#[trigger] s.lines[x]),
        forall|y: int| 0 <= y < b.len() ==> #[trigger] b[y] == s.lines[f + g + y],
    ensures same_lines(s, l + empties(g) + b, e, f + g + b.len()),
{
    let r = l + empties(g) + b;
    assert forall|x: int| 0 <= x < r.len() implies same_line(#[trigger] r[x], s.lines[e + x]) by {
        if x < l.len() { assert(r[x] == l[x]); }
        else if x < l.len() + g { assert(r[x].len() == 0); }
        else { let y = x - l.len() - g; assert(r[x] == b[y]); }
    }
}
/// THEOREM: the text of a region has the lines of the source from the end of the directive on, up to the end of its last block
pub proof fn lemma_region_lines<'b>(s: Src, v: Seq<&'b AstNode<'b>>, i: int, j: int)
    requires 0 < i <= j <= v.len(), well(s, v[i - 1]), forall|x: int| i <= x < j ==> next_to(s, v[x - 1], #[trigger] v[x]),
    ensures exists|l: Seq<Seq<char>>| #[trigger] same_lines(s, l, end_of(s, v[i - 1]), end_of(s, v[j - 1])) && region_s(s, v, i, j) == text_s(l),
    decreases j - i,
{
    let p = v[j - 1];
    let sub = s.lines.subrange(pos(p).start.line - 1, pos(p).end.line as int);
    let e = end_of(s, v[i - 1]);
    if i == j {
        lemma_cut(sub);
        assert(sub[0] == s.lines[pos(p).start.line - 1]);
        let l = Seq::<Seq<char>>::empty();
        assert(same_lines(s, l, e, e));
    } else {
        lemma_region_lines(s, v, i, j - 1);
        let o = v[j - 2];
        let l = choose|l: Seq<Seq<char>>| #[trigger] same_lines(s, l, e, end_of(s, o)) && region_s(s, v, i, j - 1) == text_s(l);
        assert(next_to(s, v[j - 1 - 1], v[j - 1]));
        if j - 1 > i { assert(next_to(s, v[j - 2 - 1], v[j - 2])); }
        lemma_gap(s, o, p);
        lemma_cut(sub);
        assert(sub[0] == s.lines[pos(p).start.line - 1]);
        let b = cut_blank(sub);
        let g = gap_s(s, p);
        assert forall|y: int| 0 <= y < b.len() implies #[trigger] b[y] == s.lines[end_of(s, o) + g + y] by { assert(b[y] == sub[y]); }
        lemma_more(s, l, e, end_of(s, o), g, b);
        lemma_text_add(l + empties(g), b);
        lemma_text_add(l, empties(g));
        lemma_text_blank(g);
        lemma_text_join(b);
        assert(region_s(s, v, i, j) == region_s(s, v, i, j - 1) + rep_s("\n"@, g) + (block_s(s, p)->0).push('\n'));
        assert(region_s(s, v, i, j) == text_s(l + empties(g) + b));
        assert(same_lines(s, l + empties(g) + b, e, end_of(s, p)));
    }
}
%% end
%% fn Directive::parse
%% from src/serializer/state.rs
%% ret r
%% spec
    ensures dv(r) == dir_s(html@)
%% end
%% at before let content
    let ghost t = trimmed@;
    proof {
        let a = t.skip(4);
        assert(t.skip(t.len() - 3).len() == 3);
        if t.len() >= 7 { assert(a.skip(a.len() - 3) =~= t.skip(t.len() - 3)); assert(a.take(a.len() - 3) =~= t.subrange(4, t.len() - 3)); }
        else if t.len() >= 4 && has_suf(a, "-->"@) { assert(false); }
    }
%% end
%% loop 0
    invariant sviews(hdr1@) =~= nouns_s(views(hdc0@).take(hdk1 as int))
%% end
%% at loop 0 before
    proof { if views(hdc0@).len() > 0 { lemma_nouns_push(views(hdc0@), 0); } }
%% end
%% at loop 0 start
    proof { lemma_nouns_push(views(hdc0@), hdk1 as int); }
%% end
%% loop 1
    invariant sviews(hdr3@) =~= nouns_s(views(hdc2@).take(hdk3 as int))
%% end
%% at loop 1 before
    proof { if views(hdc2@).len() > 0 { lemma_nouns_push(views(hdc2@), 0); } }
%% end
%% at loop 1 start
    proof { lemma_nouns_push(views(hdc2@), hdk3 as int); }
%% end
%% fn Serializer::should_skip_formatting
%% from src/serializer/state.rs
%% ret r
%% spec
    ensures r == !(self.skip_mode is None)
%% end
%% fn Serializer::extract_source_lines
%% from src/serializer/state.rs
%% ret r
%% spec
    ensures (match r { Some(x) => Some(x@), None => None }) == block_s(src(*self), node)
%% end
%% at after let blank_count
    proof {
        let v = src(*self).lines.subrange(start_idx as int, sourcepos.end.line as int);
        assert(views(lines@) =~= v);
        assert forall|j: int| v.len() - blank_count <= j < v.len() implies blank(#[trigger] v[j]) by { assert(v[j] == lines@[j]@); }
        lemma_end_blank(v, blank_count as int);
        assert(views(lines@.take(lines@.len() - blank_count)) =~= v.take(v.len() - blank_count));
    }
%% end
%% fn Serializer::extract_source_from_line
%% from src/serializer/state.rs
%% ret r
%% spec
    ensures (match r { Some(x) => Some(x@), None => None }) == from_s(src(*self), start_line as int)
%% end
%% loop 0
    invariant
        start_idx <= hdk0 <= hdv0@.len(), start_idx < hdv0@.len(),
        result@ == join_s(views(hdv0@).skip(start_idx as int).take(hdk0 - start_idx), "\n"@),
%% end
%% at loop 0 before
    proof { lemma_join_push(views(hdv0@).skip(start_idx as int), 0); }
%% end
%% at loop 0 start
    let ghost before = result@;
    proof { lemma_join_push(views(hdv0@).skip(start_idx as int), hdk0 - start_idx); }
%% end
%% at loop 0 end
    proof {
        reveal_strlit("\n");
        assert("\n"@ =~= seq!['\n']);
        assert(views(hdv0@).skip(start_idx as int)[hdk0 - start_idx] == hdv0@[hdk0 as int]@);
        assert(result@ =~= join_s(views(hdv0@).skip(start_idx as int).take(hdk0 - start_idx + 1), "\n"@));
    }
%% end
%% at before if self.source_ends_with_newline
    let ghost before = result@;
    proof { let v = views(self.source_lines@).skip(start_idx as int); assert(v.take(v.len() as int) =~= v); }
%% end
%% at before Some(result)
    proof { assert(result@ =~= before + (if self.source_ends_with_newline { seq!['\n'] } else { Seq::empty() })); }
%% end
%% fn Serializer::count_blank_lines_before
%% opt option_closures
%% ret r
%% spec
    ensures r == gap_s(src(*self), node)
%% end
%% at after let count
    proof {
        let v = src(*self).lines.take(if before < self.source_lines@.len() { before as int } else { self.source_lines@.len() as int });
        assert(views(lines@) =~= v);
        assert forall|j: int| v.len() - count <= j < v.len() implies blank(#[trigger] v[j]) by { assert(v[j] == lines@[j]@); }
        lemma_end_blank(v, count as int);
    }
%% end
%% fn Serializer::find_trailing_html_blocks
%% ret r
%% spec
    ensures trailing(children@, r as int)
%% end
%% loop 0
    invariant_except_break
        forall|j: int| children@.len() - hdn_hdk0 <= j < trailing_start ==> is_note(#[trigger] children@[j]),
    invariant
        trailing(children@, trailing_start as int), hdn_hdk0 <= children@.len(), hdv0@ == children@,
    decreases children@.len() - hdn_hdk0,
%% end
%% fn Serializer::output_trailing_html_blocks
%% spec
    ensures same_mode(*old(self), *final(self)), appended(old(self).output@, final(self).output@)
%% end
%% at start
    broadcast use group_adds;
%% end
%% loop 0
    invariant
        same_mode(*old(self), *self), appended(old(self).output@, self.output@), hdn_hdk0 <= children@.len(), hdv0@ == children@, !is_first ==> hdn_hdk0 > 0,
    decreases children@.len() - hdn_hdk0,
%% end
%% at loop 0 start
    broadcast use group_adds;
    proof { if hdn_hdk0 > 0 { ax_tree(children@[hdn_hdk0 - 1]); } ax_tree(children@[hdn_hdk0 as int]); }
%% end
%% fn Serializer::serialize_document
%% attr #[verifier::rlimit(60)]
%% spec
    ensures
        doc_rel(src(*old(self)), kids(node), st(*old(self)), final(self).output@),
        same_src(*old(self), *final(self)),
%% end
%% at start
    hide(steps); hide(block_s); hide(from_s); hide(gap_s); hide(dir_s); hide(rep_s); hide(trim_end_s);
%% end
%% loop 0
    invariant same_mode(*old(self), *self), self.output@ == old(self).output@
%% end
%% loop 1
    invariant
        children@ == kids(node), hdv1@ == children@, hdn_hdk1 <= children@.len(),
        same_src(*old(self), *self), trailing(children@, trailing_html_start as int),
        steps(src(*old(self)), trailing_html_start as int, kids(node), 0, hdn_hdk1 as int, st(*old(self)), st(*self)),
    decreases children@.len() - hdn_hdk1,
%% end
%% at loop 1 before
    proof { lemma_none(src(*old(self)), trailing_html_start as int, kids(node), st(*old(self))); }
%% end
%% at loop 1 start
    broadcast use group_adds;
    let ghost a = st(*self);
    proof {
        lemma_go(src(*old(self)), trailing_html_start as int, kids(node), hdn_hdk1 as int, st(*old(self)), a);
        ax_tree(children@[hdn_hdk1 as int]);
    }
%% end
%% at loop 1 end
    proof { if a.mode is None && node_dir(children@[hdn_hdk1 - 1]).is_none() && !elsewhere(trailing_html_start as int, kids(node), hdn_hdk1 - 1) { assert(formatted(kids(node)[hdn_hdk1 - 1], a, self.output@)); } }
%% end
%% at loop 1 after
    proof { lemma_go(src(*old(self)), trailing_html_start as int, kids(node), children@.len() as int, st(*old(self)), st(*self)); }
    broadcast use group_adds;
%% end
