%% source src/serializer/block.rs
%% lib chars strs nodes
%% impl Serializer => impl<'a> Serializer<'a>
%% path std::mem::take => hd_take
%% path std::mem::replace => hd_set
%% method push => hd_push
%% method clone => hd_clone
%% method max => hd_max2
%% method min => hd_min2
%% item UnorderedMarker
%% derive Clone Copy
%% item OrderedMarker
%% derive Clone Copy
%% item LeadingSpaces
%% derive Clone Copy
%% item TrailingSpaces
%% derive Clone Copy
%% item IndentWidth
%% derive Clone Copy
%% item ThematicBreakStyle
%% item LineWidth
%% derive Clone Copy
%% item Options
%% fields leading_spaces, trailing_spaces, indent_width, ordered_list_indent_width, unordered_marker, odd_level_marker, even_level_marker, thematic_break_style, line_width
%% item Serializer
%% fields output, options, list_item_index, list_type, list_tight, in_block_quote, blockquote_prefix, list_depth, in_description_details, description_details_first_list, ordered_list_max_items, list_item_indent, blockquote_outer_indent, blockquote_entry_list_depth, footnotes
%% item BlockquoteState
%% item LINE_SPACE
%% frame list_item_index, list_type, list_tight, in_block_quote, blockquote_prefix, list_depth, in_description_details, description_details_first_list, list_item_indent, blockquote_outer_indent, blockquote_entry_list_depth
%% unused borrow_mut
%% raw
// ---------------------------------------------------------------- specification
pub trait HdClone: Sized { fn hd_clone(&self) -> (r: Self) ensures r == *self; }
impl HdClone for String { #[verifier::external_body] fn hd_clone(&self) -> (r: String) { self.clone() } }
pub trait HdTake: Sized { spec fn is_default(&self) -> bool; fn hd_default() -> (r: Self) ensures r.is_default(); }
impl HdTake for String { open spec fn is_default(&self) -> bool { self@.len() == 0 } fn hd_default() -> (r: String) { String::new() } }
impl HdTake for bool { open spec fn is_default(&self) -> bool { !*self } fn hd_default() -> (r: bool) { false } }
#[verifier::external_body]
pub fn hd_take<T: HdTake>(d: &mut T) -> (r: T) ensures r == *old(d), final(d).is_default() { std::mem::replace(d, T::hd_default()) }
#[verifier::external_body]
pub fn hd_set<T>(d: &mut T, v: T) -> (r: T) ensures r == *old(d), *final(d) == v { std::mem::replace(d, v) }
/// one character (a name of its own, so that the solver does not move it around in sequences)
#[verifier::opaque]
pub open spec fn one(c: char) -> Seq<char> { seq![c] }
pub trait HdPush<X> { spec fn pushed(&self, x: X, r: &Self) -> bool; fn hd_push(&mut self, x: X) ensures old(self).pushed(x, final(self)); }
impl HdPush<char> for String {
    open spec fn pushed(&self, x: char, r: &Self) -> bool { r@ == self@ + one(x) }
    fn hd_push(&mut self, x: char) { proof { reveal(one); assert(old(self)@.push(x) =~= old(self)@ + one(x)); } self.push(x) }
}
impl<T> HdPush<T> for Vec<T> {
    open spec fn pushed(&self, x: T, r: &Self) -> bool { r@ == self@.push(x) }
    fn hd_push(&mut self, x: T) { self.push(x) }
}
pub trait HdMinMax { fn hd_max2(self, o: usize) -> usize; fn hd_min2(self, o: usize) -> usize; }
impl HdMinMax for usize {
    fn hd_max2(self, o: usize) -> (r: usize) ensures r == (if self > o { self } else { o }) { if self > o { self } else { o } }
    fn hd_min2(self, o: usize) -> (r: usize) ensures r == (if self < o { self } else { o }) { if self < o { self } else { o } }
}
/// the context of a block: everything that its containers set up for it
pub struct Ctx {
    pub opt: Options, pub idx: nat, pub list_type: Option<ListType>, pub tight: bool, pub quoted: bool, pub prefix: Seq<char>, pub depth: nat,
    pub details: bool, pub first: bool, pub indent: Seq<char>, pub outer: Seq<char>, pub entry: nat,
}
/// the flag for the list on the line of a colon only matters to that list and its first item
pub open spec fn ctx(s: Serializer) -> Ctx {
    Ctx {
        opt: *s.options, idx: s.list_item_index as nat, list_type: s.list_type, tight: s.list_tight, quoted: s.in_block_quote, prefix: s.blockquote_prefix@,
        depth: s.list_depth as nat, details: s.in_description_details,
        first: s.description_details_first_list && (s.list_depth == 0 || (s.list_depth == 1 && s.list_item_index == 0)),
        indent: s.list_item_indent@, outer: s.blockquote_outer_indent@, entry: s.blockquote_entry_list_depth as nat,
    }
}
pub open spec fn spaces(n: nat) -> Seq<char> { rep_s(" "@, n) }
pub open spec fn all_spaces(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == ' ' }
pub open spec fn quote_s(c: Ctx) -> Seq<char> { if c.quoted { c.outer + c.prefix } else { Seq::empty() } }
pub open spec fn blank_s(c: Ctx, o: Seq<char>) -> Seq<char> { (if c.quoted { trim_end_c(o + quote_s(c), ' ') } else { o }) + one('\n') }
pub open spec fn end_line(o: Seq<char>) -> Seq<char> { if o.len() > 0 && o.last() == '\n' { o } else { o + one('\n') } }
/// the context of the blocks in a quote
pub open spec fn enter_s(c: Ctx) -> Ctx {
    Ctx {
        quoted: true, prefix: (if c.quoted { c.prefix + c.indent } else { c.prefix }) + "> "@, outer: if c.quoted { c.outer } else { c.indent }, entry: 0,
        indent: Seq::empty(), list_type: None, depth: 0, details: false, first: false, ..c
    }
}
/// the context of a block that is indented as a whole afterwards
pub open spec fn inner_s(c: Ctx) -> Ctx { Ctx { quoted: false, prefix: Seq::empty(), outer: Seq::empty(), ..enter_s(c) } }
pub open spec fn list_s(c: Ctx, l: NodeList) -> Ctx {
    Ctx { list_type: Some(l.list_type), tight: l.tight, idx: 0, depth: c.depth + 1, first: c.first && c.depth == 0, ..c }
}
/// the context of item i of a list
pub open spec fn at_s(c: Ctx, i: int) -> Ctx { Ctx { idx: i as nat, first: c.first && i == 0, ..c } }
/// the block, on its own, line by line after the prefix of the quotes and the indent
pub open spec fn embed_s(c: Ctx, indent: Seq<char>, o: Seq<char>, v: Seq<Seq<char>>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { o }
    else if v.len() == 1 { (o + v[0]) + one('\n') }
    else if v.last().len() == 0 { blank_s(c, embed_s(c, indent, o, v.drop_last())) }
    else { (embed_s(c, indent, o, v.drop_last()) + quote_s(c) + indent + v.last()) + one('\n') }
}
pub open spec fn bullet_s(m: UnorderedMarker) -> char { match m { UnorderedMarker::Hyphen => '-', UnorderedMarker::Asterisk => '*', UnorderedMarker::Plus => '+' } }
pub open spec fn delim_s(m: OrderedMarker) -> char { match m { OrderedMarker::Period => '.', OrderedMarker::Parenthesis => ')' } }
pub open spec fn same_first(a: Serializer, b: Serializer) -> bool { a.description_details_first_list == b.description_details_first_list }
/// what a quote changes is kept
pub open spec fn kept(s: Serializer, k: BlockquoteState) -> bool {
    k.was_in_block_quote == s.in_block_quote && k.old_blockquote_prefix@ == s.blockquote_prefix@ && k.old_blockquote_outer_indent@ == s.blockquote_outer_indent@
    && k.old_blockquote_entry_list_depth == s.blockquote_entry_list_depth && k.old_list_item_indent@ == s.list_item_indent@ && k.old_list_type == s.list_type
    && k.old_list_depth == s.list_depth && k.was_in_description_details == s.in_description_details && k.was_on_colon_line == s.description_details_first_list
}
/// and restored: the rest is that of a
pub open spec fn restored(a: Serializer, k: BlockquoteState, b: Serializer) -> bool {
    kept(b, k) && b.options == a.options && b.list_item_index == a.list_item_index && b.list_tight == a.list_tight
}
// ---- what is written for a block: every child once, in order, each in its context
pub open spec fn mid(m: Seq<char>) -> bool { true }
/// what is written for the other blocks (see the units on headings, code, tables, links, and paragraphs)
pub uninterp spec fn block_rel<'b>(n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool;
pub open spec fn leaf_rel<'b>(n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool {
    match val(n) {
        NodeValue::Document | NodeValue::Heading(_) | NodeValue::CodeBlock(_) | NodeValue::FrontMatter(_) | NodeValue::Table(_)
        | NodeValue::Paragraph | NodeValue::ThematicBreak => block_rel(n, c, o, o2),
        _ => true,
    }
}
/// a code block in a list item or in details: see the unit `code`
pub uninterp spec fn code_rel(info: Seq<char>, code: Seq<char>, indent: Seq<char>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool;
pub uninterp spec fn code2_rel(info: Seq<char>, code: Seq<char>, indent: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool;
/// a paragraph in details: its content, wrapped
pub uninterp spec fn text_rel<'b>(n: &'b AstNode<'b>, text: Seq<char>) -> bool;
pub uninterp spec fn wrapped_rel(text: Seq<char>, prefix: Seq<char>, width: int, o: Seq<char>, o2: Seq<char>) -> bool;
pub open spec fn has_first(b: Seq<char>, p: Seq<char>) -> Seq<char> { if b.len() >= p.len() && b.take(p.len() as int) == p { b.skip(p.len() as int) } else { b } }
/// the line would be read as a thematic break
pub open spec fn rule_line(l: Seq<char>) -> bool { (forall|i: int| 0 <= i < l.len() ==> #[trigger] l[i] == '-' || l[i] == '*' || l[i] == ' ') && words_s(l).len() >= 2 }
pub open spec fn first_line(t: Seq<char>) -> Seq<char> { if lines_s(t).len() > 0 { lines_s(t)[0] } else { Seq::empty() } }
/// the first block of an item follows the marker on its line
pub open spec fn joined_s(c: Ctx, o: Seq<char>, b: Seq<char>) -> Seq<char> {
    let t = trim_start_c(has_first(b, quote_s(c)), ' ');
    if rule_line(first_line(t)) { o + one('\n') + b } else { o + t }
}
/// a block of its kind is written by w in the context c
pub open spec fn w_rel<'b>(h: nat, n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 0nat, 0nat
{ height(n) < h && wrote(n, c, o, o2) }
pub open spec fn wrote<'b>(n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases height(n), 5nat, 0nat {
    let h = height(n);
    match val(n) {
        NodeValue::List(l) => kids_rel(h, kids(n), true, list_s(c, l), o, o2),
        NodeValue::Item(_) => item_rel(n, at_s(c, c.idx as int + 1), on_colon(c), None, o, o2),
        NodeValue::TaskItem(t) => item_rel(n, at_s(c, c.idx as int + 1), on_colon(c), Some(t.symbol), o, o2),
        NodeValue::BlockQuote => quote_rel(h, kids(n), enter_s(c), o, o2),
        NodeValue::Alert(a) => quote_rel(h, kids(n), enter_s(c), alert_s(n, a.alert_type, enter_s(c), o), o2),
        NodeValue::DescriptionList => apart_rel(h, kids(n), c, o, o2),
        NodeValue::DescriptionDetails => details_rel(h, kids(n), Ctx { details: true, ..c }, o, o2),
        NodeValue::DescriptionItem(_) | NodeValue::DescriptionTerm => kids_rel(h, kids(n), false, c, o, o2),
        NodeValue::HtmlBlock(b) => o2 == o + b.literal@,
        NodeValue::FootnoteDefinition(_) => o2 == o,
        _ => leaf_rel(n, c, o, o2),
    }
}
/// one after the other; i is the number of the item in a list
pub open spec fn kids_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, list: bool, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 1nat, v.len() {
    if v.len() == 0 { o2 == o }
    else { exists|m: Seq<char>| #[trigger] mid(m) && kids_rel(h, v.drop_last(), list, c, o, m) && w_rel(h, v.last(), if list { at_s(c, v.len() - 1) } else { c }, m, o2) }
}
/// with blank lines in between
pub open spec fn apart_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 1nat, v.len() {
    if v.len() == 0 { o2 == o }
    else { exists|m: Seq<char>| #[trigger] mid(m) && apart_rel(h, v.drop_last(), c, o, m) && w_rel(h, v.last(), c, if v.len() > 1 { blank_s(c, m) } else { m }, o2) }
}
/// the blocks of a quote
pub open spec fn quote_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 3nat, 0nat {
    if v.len() == 0 { o2 == blank_s(c, o) } else { quoted_rel(h, v, c, o, o2) }
}
pub open spec fn quoted_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 2nat, v.len() {
    if v.len() == 0 { o2 == o }
    else { exists|m: Seq<char>| #[trigger] mid(m) && quoted_rel(h, v.drop_last(), c, o, m) && quoted1_rel(h, v.last(), c, if v.len() > 1 { blank_s(c, m) } else { m }, o2) }
}
pub open spec fn quoted1_rel<'b>(h: nat, n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 2nat, 0nat {
    match val(n) {
        NodeValue::Heading(_) | NodeValue::HtmlBlock(_) => indented_rel(h, n, c, Seq::empty(), o + quote_s(c), o2),
        _ => w_rel(h, n, c, o, o2),
    }
}
pub open spec fn indented_rel<'b>(h: nat, n: &'b AstNode<'b>, c: Ctx, indent: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 1nat, 0nat {
    exists|b: Seq<char>| #[trigger] mid(b) && w_rel(h, n, inner_s(c), Seq::empty(), b) && o2 == embed_s(c, indent, o, lines_s(b))
}
pub open spec fn on_marker_rel<'b>(h: nat, n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 1nat, 0nat {
    exists|b: Seq<char>| #[trigger] mid(b) && w_rel(h, n, c, Seq::empty(), b) && o2 == joined_s(c, o, b)
}
pub open spec fn above<'b>(h: nat, v: Seq<&'b AstNode<'b>>) -> bool { forall|i: int| 0 <= i < v.len() ==> height(#[trigger] v[i]) < h }
pub open spec fn alert_name(t: AlertType) -> Seq<char> {
    match t { AlertType::Note => "NOTE"@, AlertType::Tip => "TIP"@, AlertType::Important => "IMPORTANT"@, AlertType::Warning => "WARNING"@, AlertType::Caution => "CAUTION"@ }
}
/// the header of an alert, and a blank line if there is one in the source
pub open spec fn alert_s<'b>(n: &'b AstNode<'b>, t: AlertType, c: Ctx, o: Seq<char>) -> Seq<char> {
    let p = o + quote_s(c) + "[!"@ + alert_name(t) + "]\n"@;
    if kids(n).len() > 0 && pos(kids(n)[0]).start.line > pos(n).start.line + 1 { blank_s(c, p) } else { p }
}
// ---- list items
pub open spec fn number_s(c: Ctx) -> Seq<char> { dec_s(c.idx) }
pub open spec fn max_i(a: int, b: int) -> int { if a > b { a } else { b } }
pub open spec fn min_i(a: int, b: int) -> int { if a < b { a } else { b } }
pub open spec fn marker_w(c: Ctx) -> int {
    match c.list_type {
        Some(ListType::Bullet) => c.opt.leading_spaces.0 + 1 + c.opt.trailing_spaces.0,
        Some(ListType::Ordered) => max_i(c.opt.ordered_list_indent_width.0 as int, number_s(c).len() as int + 2),
        None => 0,
    }
}
/// before the first item of the list on the line of a colon
pub open spec fn on_colon(c: Ctx) -> bool { c.first && c.idx == 0 && c.depth == 1 }
pub open spec fn nested_w(c: Ctx) -> int { if c.list_type == Some(ListType::Ordered) { c.opt.ordered_list_indent_width.0 as int } else { c.opt.indent_width.0 as int } }
pub open spec fn nested_lead(c: Ctx) -> int { if c.list_type == Some(ListType::Ordered) { 0 } else { c.opt.leading_spaces.0 as int } }
pub open spec fn nested_outer(c: Ctx) -> int { if c.details { max_i(c.indent.len() - 5, 0) } else { c.indent.len() as int } }
/// what precedes the marker of an item in nested lists
pub open spec fn nested_width(c: Ctx) -> int {
    let a = min_i(nested_w(c) * (c.depth - 1), nested_outer(c) + max_i(3 - nested_lead(c), 0));
    if c.depth <= 1 { 0 } else if nested_w(c) >= marker_w(c) { max_i(a, nested_outer(c)) } else { a }
}
pub open spec fn marker_s(c: Ctx) -> Seq<char> {
    match c.list_type {
        Some(ListType::Bullet) =>
            (if c.details && c.depth == 1 { Seq::empty() } else { spaces(c.opt.leading_spaces.0 as nat) }) + one(bullet_s(c.opt.unordered_marker)) + spaces(c.opt.trailing_spaces.0 as nat),
        Some(ListType::Ordered) =>
            number_s(c) + one(delim_s(if c.depth % 2 == 1 { c.opt.odd_level_marker } else { c.opt.even_level_marker }))
            + spaces(max_i(c.opt.ordered_list_indent_width.0 - number_s(c).len() - 1, 1) as nat),
        None => Seq::empty(),
    }
}
pub open spec fn box_s(t: Option<Option<char>>) -> Seq<char> { match t { Some(Some(_)) => "[x] "@, Some(None) => "[ ] "@, None => Seq::empty() } }
pub open spec fn base_s(c: Ctx) -> Seq<char> {
    spaces(((if c.details { 5int } else { 0 }) + nested_width(c)) as nat)
    + spaces((if c.details && c.depth == 1 && c.list_type == Some(ListType::Bullet) { 1 + c.opt.trailing_spaces.0 } else { marker_w(c) }) as nat)
}
/// the line of an item up to its content
pub open spec fn head_s(c: Ctx, colon: bool, t: Option<Option<char>>) -> Seq<char> {
    (if colon { Seq::empty() } else { quote_s(c) + (if c.details { "     "@ } else { Seq::empty() }) }) + spaces(nested_width(c) as nat) + marker_s(c) + box_s(t)
}
/// the checkbox is on a line of its own
pub open spec fn box_alone<'b>(n: &'b AstNode<'b>, t: Option<Option<char>>) -> bool { t is Some && !(kids(n).len() > 0 && val(kids(n)[0]) is Paragraph) }
pub open spec fn item_rel<'b>(n: &'b AstNode<'b>, c: Ctx, colon: bool, t: Option<Option<char>>, o: Seq<char>, o2: Seq<char>) -> bool decreases height(n), 4nat, 0nat {
    let o1 = (if !c.tight && c.idx > 1 { blank_s(c, o) } else { o }) + head_s(c, colon, t);
    let alone = box_alone(n, t);
    exists|m: Seq<char>| #[trigger] mid(m)
        && item_kids(height(n), kids(n), Ctx { indent: base_s(c), ..c }, alone, if alone { trim_end_c(o1, ' ') } else { o1 }, m) && o2 == end_line(m)
}
pub open spec fn item_kids<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, alone: bool, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 3nat, v.len() {
    if v.len() == 0 { o2 == o }
    else { exists|m: Seq<char>| #[trigger] mid(m) && item_kids(h, v.drop_last(), c, alone, o, m) && item_kid(h, v, c, alone, m, o2) }
}
/// the last of the children v of an item
pub open spec fn item_kid<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, alone: bool, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 2nat, 0nat {
    let n = v.last();
    let first = v.len() == 1 && !alone;
    let apart = v.len() > 1 && pos(n).start.line > pos(v[v.len() - 2]).end.line + 1;
    let o1 = if first { o } else if !n_list(n) || apart { blank_s(c, end_line(o)) } else { end_line(o) };
    let o3 = if first { o1 } else { o1 + quote_s(c) + c.indent };
    match val(n) {
        NodeValue::List(_) | NodeValue::BlockQuote | NodeValue::Alert(_) => if first { on_marker_rel(h, n, c, o1, o2) } else { w_rel(h, n, c, o1, o2) },
        NodeValue::Paragraph => w_rel(h, n, c, o3, o2),
        NodeValue::CodeBlock(b) => code_rel(b.info@, b.literal@, c.indent, c, o3, o2),
        NodeValue::ThematicBreak => o2 == o3 + rule_s(c, first),
        _ => indented_rel(h, n, c, c.indent, o3, o2),
    }
}
pub open spec fn rule_s(c: Ctx, first: bool) -> Seq<char> {
    let s = trim_start_s(c.opt.thematic_break_style.0@);
    if first && !(s.len() > 0 && s[0] == '_') { "___"@ } else { s }
}
pub proof fn lemma_dec(n: nat)
    ensures ascii_s(dec_s(n)), dec_s(n).len() >= 1, n <= 0x7fff_ffff ==> dec_s(n).len() <= 10,
    decreases n,
{
    if n >= 10 { lemma_dec(n / 10); lemma_dec_len(n); } else { lemma_dec_len(n); }
    assert forall|i: int| 0 <= i < dec_s(n).len() implies c_ascii(#[trigger] dec_s(n)[i]) by {
        let d = (n % 10) as u32;
        assert(n < 10 ==> n as u32 == d);
        assert(d < 10);
        assert(((('0' as u32 + d) as u8) as char) <= '\u{7f}');
        if n >= 10 && i < dec_s(n).len() - 1 { assert(dec_s(n)[i] == dec_s(n / 10)[i]); }
    }
}
/// a number below 10^k has at most k digits
pub proof fn lemma_dec_len(n: nat)
    ensures
        dec_s(n).len() >= 1, n < 10 ==> dec_s(n).len() == 1, n < 100 ==> dec_s(n).len() <= 2, n < 1000 ==> dec_s(n).len() <= 3, n < 10000 ==> dec_s(n).len() <= 4,
        n < 100000 ==> dec_s(n).len() <= 5, n < 1000000 ==> dec_s(n).len() <= 6, n < 10000000 ==> dec_s(n).len() <= 7, n < 100000000 ==> dec_s(n).len() <= 8,
        n < 1000000000 ==> dec_s(n).len() <= 9, n < 10000000000 ==> dec_s(n).len() <= 10,
    decreases n,
{
    if n >= 10 { lemma_dec_len(n / 10); }
}
pub proof fn lemma_spaces(n: nat)
    ensures spaces(n).len() == n, all_spaces(spaces(n)), ascii_s(spaces(n)),
    decreases n,
{
    reveal_strlit(" ");
    if n > 0 { lemma_spaces((n - 1) as nat); }
}
pub proof fn lemma_item_step<'b>(h: nat, v: Seq<&'b AstNode<'b>>, k: int, c: Ctx, alone: bool, o: Seq<char>, m: Seq<char>, o2: Seq<char>)
    requires 0 <= k < v.len(), item_kids(h, v.take(k), c, alone, o, m), item_kid(h, v.take(k + 1), c, alone, m, o2),
    ensures item_kids(h, v.take(k + 1), c, alone, o, o2),
{
    assert(v.take(k + 1).drop_last() =~= v.take(k));
    assert(mid(m));
}
// ---- the same, unfolded on demand only
#[verifier::opaque]
pub open spec fn p_wrote<'b>(n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool { wrote(n, c, o, o2) }
#[verifier::opaque]
pub open spec fn p_indented_rel<'b>(h: nat, n: &'b AstNode<'b>, c: Ctx, indent: Seq<char>, o: Seq<char>, o2: Seq<char>) -> bool { indented_rel(h, n, c, indent, o, o2) }
#[verifier::opaque]
pub open spec fn p_on_marker_rel<'b>(h: nat, n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool { on_marker_rel(h, n, c, o, o2) }
#[verifier::opaque]
pub open spec fn p_item_kids<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, alone: bool, o: Seq<char>, o2: Seq<char>) -> bool { item_kids(h, v, c, alone, o, o2) }
#[verifier::opaque]
pub open spec fn p_item_rel<'b>(n: &'b AstNode<'b>, c: Ctx, colon: bool, t: Option<Option<char>>, o: Seq<char>, o2: Seq<char>) -> bool { item_rel(n, c, colon, t, o, o2) }
#[verifier::opaque]
pub open spec fn p_kids_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, list: bool, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool { kids_rel(h, v, list, c, o, o2) }
#[verifier::opaque]
pub open spec fn p_apart_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool { apart_rel(h, v, c, o, o2) }
#[verifier::opaque]
pub open spec fn p_details_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool { details_rel(h, v, c, o, o2) }
#[verifier::opaque]
pub open spec fn p_quoted_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool { quoted_rel(h, v, c, o, o2) }
#[verifier::opaque]
pub open spec fn p_quote_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool { quote_rel(h, v, c, o, o2) }
/// the same, piece by piece
pub open spec fn dd_s(c: Ctx, colon: bool) -> Seq<char> { if c.details && !colon { "     "@ } else { ""@ } }
pub open spec fn nest_onto(o: Seq<char>, c: Ctx, colon: bool) -> Seq<char> {
    let q = if colon { o } else { o + quote_s(c) };
    if c.depth > 1 { q + (Seq::<char>::empty() + dd_s(c, colon) + spaces(nested_width(c) as nat)) } else { q + dd_s(c, colon) }
}
pub open spec fn marker_onto(o: Seq<char>, c: Ctx) -> Seq<char> {
    match c.list_type {
        Some(ListType::Bullet) => {
            let q = if c.details && c.depth == 1 { o } else { o + spaces(c.opt.leading_spaces.0 as nat) };
            q + one(bullet_s(c.opt.unordered_marker)) + spaces(c.opt.trailing_spaces.0 as nat)
        },
        Some(ListType::Ordered) =>
            o + number_s(c) + one(delim_s(if c.depth % 2 == 1 { c.opt.odd_level_marker } else { c.opt.even_level_marker }))
            + spaces(max_i(c.opt.ordered_list_indent_width.0 - number_s(c).len() - 1, 1) as nat),
        None => o,
    }
}
pub open spec fn box_onto(o: Seq<char>, t: Option<Option<char>>) -> Seq<char> { if t is Some { o + box_s(t) } else { o } }
pub proof fn lemma_head(o: Seq<char>, c: Ctx, colon: bool, t: Option<Option<char>>)
    ensures box_onto(marker_onto(nest_onto(o, c, colon), c), t) == o + head_s(c, colon, t),
{
    reveal_strlit("");
    assert(nest_onto(o, c, colon) =~= o + ((if colon { Seq::empty() } else { quote_s(c) + (if c.details { "     "@ } else { Seq::empty() }) }) + spaces(nested_width(c) as nat)));
    let n = nest_onto(o, c, colon);
    assert(marker_onto(n, c) =~= n + marker_s(c));
    assert(box_onto(marker_onto(n, c), t) =~= n + marker_s(c) + box_s(t));
    assert(n + marker_s(c) + box_s(t) =~= o + head_s(c, colon, t));
}
pub proof fn lemma_empty_add(a: Seq<char>)
    ensures Seq::<char>::empty() + a == a, a + Seq::<char>::empty() == a,
{
    assert(Seq::<char>::empty() + a =~= a);
    assert(a + Seq::<char>::empty() =~= a);
}
pub open spec fn own_width(c: Ctx) -> int { if c.details && c.depth == 1 && c.list_type == Some(ListType::Bullet) { 1 + c.opt.trailing_spaces.0 } else { marker_w(c) } }
pub open spec fn base_x(c: Ctx) -> Seq<char> {
    if c.details { Seq::<char>::empty() + spaces((5 + nested_width(c)) as nat) + spaces(own_width(c) as nat) }
    else if c.depth > 1 { Seq::<char>::empty() + spaces(nested_width(c) as nat) + spaces(marker_w(c) as nat) }
    else { spaces(marker_w(c) as nat) }
}
pub proof fn lemma_base(c: Ctx)
    requires all_spaces(c.indent),
    ensures base_x(c) == base_s(c), all_spaces(base_s(c)), base_s(c).len() == (if c.details { 5int } else { 0 }) + nested_width(c) + own_width(c),
{
    assert(base_x(c) =~= base_s(c));
    assert(c.depth > 1 ==> nested_w(c) * (c.depth - 1) >= 0) by (nonlinear_arith) requires nested_w(c) >= 0;
    lemma_spaces(((if c.details { 5int } else { 0 }) + nested_width(c)) as nat);
    lemma_spaces((if c.details && c.depth == 1 && c.list_type == Some(ListType::Bullet) { 1 + c.opt.trailing_spaces.0 } else { marker_w(c) }) as nat);
}
/// child k of an item
pub open spec fn kid_from<'b>(v: Seq<&'b AstNode<'b>>, k: int, c: Ctx, alone: bool, o: Seq<char>) -> Seq<char> {
    if k == 0 && !alone { o }
    else if !n_list(v[k]) || (k > 0 && pos(v[k]).start.line > pos(v[k - 1]).end.line + 1) { blank_s(c, end_line(o)) } else { end_line(o) }
}
pub open spec fn kid_case<'b>(h: nat, n: &'b AstNode<'b>, c: Ctx, first: bool, o1: Seq<char>, o2: Seq<char>) -> bool {
    let o3 = if first { o1 } else { o1 + quote_s(c) + c.indent };
    match val(n) {
        NodeValue::List(_) | NodeValue::BlockQuote | NodeValue::Alert(_) => if first { p_on_marker_rel(h, n, c, o1, o2) } else { p_wrote(n, c, o1, o2) },
        NodeValue::Paragraph => p_wrote(n, c, o3, o2),
        NodeValue::CodeBlock(b) => code_rel(b.info@, b.literal@, c.indent, c, o3, o2),
        NodeValue::ThematicBreak => o2 == o3 + rule_s(c, first),
        _ => p_indented_rel(h, n, c, c.indent, o3, o2),
    }
}
pub proof fn lemma_kid<'b>(h: nat, v: Seq<&'b AstNode<'b>>, k: int, c: Ctx, alone: bool, o: Seq<char>, m: Seq<char>, o2: Seq<char>)
    requires
        0 <= k < v.len(), height(v[k]) < h, p_item_kids(h, v.take(k), c, alone, o, m),
        kid_case(h, v[k], c, k == 0 && !alone, kid_from(v, k, c, alone, m), o2),
    ensures p_item_kids(h, v.take(k + 1), c, alone, o, o2),
{
    reveal(p_item_kids); reveal(p_wrote); reveal(p_indented_rel); reveal(p_on_marker_rel);
    let w = v.take(k + 1);
    assert(w.last() == v[k]);
    assert(k > 0 ==> w[w.len() - 2] == v[k - 1]);
    assert(item_kid(h, w, c, alone, m, o2));
    lemma_item_step(h, v, k, c, alone, o, m, o2);
}
pub open spec fn item_start<'b>(n: &'b AstNode<'b>, c: Ctx, colon: bool, t: Option<Option<char>>, o: Seq<char>) -> Seq<char> {
    let o1 = (if !c.tight && c.idx > 1 { blank_s(c, o) } else { o }) + head_s(c, colon, t);
    if box_alone(n, t) { trim_end_c(o1, ' ') } else { o1 }
}
pub proof fn lemma_item<'b>(n: &'b AstNode<'b>, c: Ctx, colon: bool, t: Option<Option<char>>, o: Seq<char>, m: Seq<char>)
    requires p_item_kids(height(n), kids(n), Ctx { indent: base_s(c), ..c }, box_alone(n, t), item_start(n, c, colon, t, o), m),
    ensures p_item_rel(n, c, colon, t, o, end_line(m)),
{
    reveal(p_item_rel); reveal(p_item_kids);
    assert(mid(m));
}
// ---- the details of a definition
pub open spec fn details_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 3nat, v.len() {
    if v.len() == 0 { o2 == o }
    else { exists|m: Seq<char>| #[trigger] mid(m) && details_rel(h, v.drop_last(), c, o, m) && detail_rel(h, v.last(), v.len() == 1, c, m, o2) }
}
pub open spec fn wrap4_rel<'b>(n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool {
    exists|t: Seq<char>, m: Seq<char>| text_rel(n, t) && #[trigger] wrapped_rel(t, quote_s(c) + "    "@, c.opt.line_width.0 as int, o, m) && o2 == m + one('\n')
}
pub open spec fn detail_rel<'b>(h: nat, n: &'b AstNode<'b>, first: bool, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool decreases h, 2nat, 0nat {
    let q = quote_s(c);
    let e = blank_s(c, end_line(o));
    let i = "    "@;
    if first {
        match val(n) {
            NodeValue::Paragraph => wrap4_rel(n, c, o + q + ":   "@, o2),
            NodeValue::CodeBlock(b) => code2_rel(b.info@, b.literal@, q + i, (o + q + ":   "@) + one('\n') + q + i, o2),
            NodeValue::List(_) => w_rel(h, n, Ctx { first: c.depth == 0, ..c }, o + q + ":    "@, o2),
            NodeValue::Alert(_) => w_rel(h, n, Ctx { indent: i, ..c }, o + q + ":\n"@, o2),
            NodeValue::ThematicBreak => o2 == (o + q + ":   "@ + c.opt.thematic_break_style.0@) + one('\n'),
            _ => indented_rel(h, n, c, i, o + q + ":   "@, o2),
        }
    } else {
        match val(n) {
            NodeValue::Paragraph => wrap4_rel(n, c, e + q + i, o2),
            NodeValue::CodeBlock(b) => code2_rel(b.info@, b.literal@, q + i, e + q + i, o2),
            NodeValue::List(_) => w_rel(h, n, c, e, o2),
            NodeValue::BlockQuote | NodeValue::Alert(_) => w_rel(h, n, Ctx { indent: i, ..c }, e, o2),
            _ => indented_rel(h, n, c, i, e + q + i, o2),
        }
    }
}
pub open spec fn detail_case<'b>(h: nat, n: &'b AstNode<'b>, first: bool, c: Ctx, o: Seq<char>, o2: Seq<char>) -> bool {
    let q = quote_s(c);
    let e = blank_s(c, end_line(o));
    let i = "    "@;
    if first {
        match val(n) {
            NodeValue::Paragraph => wrap4_rel(n, c, o + q + ":   "@, o2),
            NodeValue::CodeBlock(b) => code2_rel(b.info@, b.literal@, q + i, (o + q + ":   "@) + one('\n') + q + i, o2),
            NodeValue::List(_) => p_wrote(n, Ctx { first: c.depth == 0, ..c }, o + q + ":    "@, o2),
            NodeValue::Alert(_) => p_wrote(n, Ctx { indent: i, ..c }, o + q + ":\n"@, o2),
            NodeValue::ThematicBreak => o2 == (o + q + ":   "@ + c.opt.thematic_break_style.0@) + one('\n'),
            _ => p_indented_rel(h, n, c, i, o + q + ":   "@, o2),
        }
    } else {
        match val(n) {
            NodeValue::Paragraph => wrap4_rel(n, c, e + q + i, o2),
            NodeValue::CodeBlock(b) => code2_rel(b.info@, b.literal@, q + i, e + q + i, o2),
            NodeValue::List(_) => p_wrote(n, c, e, o2),
            NodeValue::BlockQuote | NodeValue::Alert(_) => p_wrote(n, Ctx { indent: i, ..c }, e, o2),
            _ => p_indented_rel(h, n, c, i, e + q + i, o2),
        }
    }
}
pub proof fn lemma_detail<'b>(h: nat, v: Seq<&'b AstNode<'b>>, k: int, c: Ctx, o: Seq<char>, m: Seq<char>, o2: Seq<char>)
    requires 0 <= k < v.len(), height(v[k]) < h, p_details_rel(h, v.take(k), c, o, m), detail_case(h, v[k], k == 0, c, m, o2),
    ensures p_details_rel(h, v.take(k + 1), c, o, o2),
{
    reveal(p_details_rel); reveal(p_wrote); reveal(p_indented_rel);
    let w = v.take(k + 1);
    assert(w.last() == v[k]);
    assert(w.drop_last() =~= v.take(k));
    assert(detail_rel(h, w.last(), w.len() == 1, c, m, o2));
    assert(mid(m));
}
// ---- the blocks of a footnote
pub open spec fn note_rel<'b>(h: nat, v: Seq<&'b AstNode<'b>>, c: Ctx, r: Seq<char>) -> bool decreases v.len() {
    if v.len() == 0 { r.len() == 0 }
    else { exists|q: Seq<char>, b: Seq<char>| note_rel(h, v.drop_last(), c, q) && #[trigger] note1_rel(h, v.last(), v.len(), c, q, b, r) }
}
pub open spec fn note1_rel<'b>(h: nat, n: &'b AstNode<'b>, k: nat, c: Ctx, q: Seq<char>, b: Seq<char>, r: Seq<char>) -> bool {
    p_wrote(n, c, Seq::empty(), b) && r == (if k > 1 && trim_end_s(b).len() > 0 { q + "\n\n"@ } else { q }) + trim_end_s(b)
}
// ---- what every block may rely on, and leaves behind
pub open spec fn opt_ok(o: Options) -> bool {
    o.leading_spaces.0 <= 3 && o.trailing_spaces.0 <= 3 && o.indent_width.0 <= 0x7fff_ffff && o.ordered_list_indent_width.0 <= 0x7fff_ffff
}
/// ends of the numbers; the indent is spaces; items only in lists, other blocks of a list in its items
pub open spec fn ok_s<'b>(n: &'b AstNode<'b>, c: Ctx) -> bool {
    opt_ok(c.opt) && all_spaces(c.indent) && c.depth + height(n) <= 0xffff_ffff && c.idx <= 0x7fff_ffff
    && c.indent.len() <= (c.depth + (if n_item(n) { 0int } else { 1 })) * 0x1_0000_0000
    && (if n_item(n) { c.depth >= 1 && c.idx < 0x7fff_ffff } else { (c.first ==> n_list(n) && c.depth == 0) && (c.depth >= 1 ==> c.idx >= 1) })
}
pub open spec fn ok_kids<'b>(n: &'b AstNode<'b>, c: Ctx) -> bool {
    opt_ok(c.opt) && all_spaces(c.indent) && c.depth + height(n) <= 0xffff_ffff + (if n_list(n) { 1int } else { 0 }) && c.idx <= 0x7fff_ffff
    && c.indent.len() <= (c.depth + (if n_list(n) { 0int } else { 1 })) * 0x1_0000_0000
    && (if n_list(n) { c.depth >= 1 && c.idx == 0 } else { !c.first && (c.depth >= 1 ==> c.idx >= 1) })
}
/// the context after the block: as before, but that an item counts
pub open spec fn after_s<'b>(n: &'b AstNode<'b>, c: Ctx, d: Ctx) -> bool {
    if n_item(n) { d == at_s(c, c.idx as int + 1) } else if n_list(n) { d == Ctx { first: d.first, ..c } && (d.first ==> c.first) } else { d == c }
}
// ---- the writers of the other blocks: they keep the context
pub struct FootnoteSet { x: u8 }
impl FootnoteSet {
    #[verifier::external_body]
    pub fn record_reference_line(&mut self, name: String, line: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_reference_line(&self, name: &str) -> Option<usize> { unimplemented!() }
    #[verifier::external_body]
    pub fn start_collecting(&mut self, reference_line: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn stop_collecting(&mut self) { unimplemented!() }
    #[verifier::external_body]
    pub fn add(&mut self, name: String, content: String, reference_line: usize, has_blocks: bool) { unimplemented!() }
}
#[verifier::external_body]
pub fn escape_text(text: &str) -> String { unimplemented!() }
#[verifier::external_body]
pub fn format_code_span(content: &str) -> String { unimplemented!() }
pub open spec fn leaf_ok(a: Serializer, b: Serializer) -> bool { ctx(b) == ctx(a) && same_first(a, b) }
impl<'a> Serializer<'a> {
    #[verifier::external_body]
    pub fn extract_source<'b>(&self, node: &'b AstNode<'b>) -> Option<String> { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_inline_node<'b>(&mut self, node: &'b AstNode<'b>, content: &mut String)
        ensures leaf_ok(*old(self), *final(self)), final(self).output == old(self).output { unimplemented!() }
    #[verifier::external_body]
    pub fn collect_paragraph_content<'b>(&mut self, node: &'b AstNode<'b>, content: &mut String)
        ensures leaf_ok(*old(self), *final(self)), final(self).output == old(self).output, old(content)@.len() == 0 ==> text_rel(node, final(content)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_wrapped(&mut self, text: &str, continuation: &str)
        ensures leaf_ok(*old(self), *final(self)), wrapped_rel(text@, continuation@, old(self).options.line_width.0 as int, old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_link<'b>(&mut self, node: &'b AstNode<'b>, url: &str, title: &str) ensures leaf_ok(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_image<'b>(&mut self, node: &'b AstNode<'b>, url: &str, title: &str) ensures leaf_ok(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_table_row<'b>(&mut self, node: &'b AstNode<'b>, is_header: bool) ensures leaf_ok(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_code_block_indented(&mut self, info: &str, literal: &str, indent: &str)
        ensures leaf_ok(*old(self), *final(self)), code_rel(info@, literal@, indent@, ctx(*old(self)), old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_code_block_with_indent(&mut self, code: &NodeCodeBlock, indent: &str)
        ensures leaf_ok(*old(self), *final(self)), code2_rel(code.info@, code.literal@, indent@, old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_document<'b>(&mut self, node: &'b AstNode<'b>)
        ensures leaf_ok(*old(self), *final(self)), forall|n: &'b AstNode<'b>| n == node ==> #[trigger] block_rel(n, ctx(*old(self)), old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_heading<'b>(&mut self, node: &'b AstNode<'b>, level: u8)
        ensures leaf_ok(*old(self), *final(self)), forall|n: &'b AstNode<'b>| n == node && val(n) is Heading && val(n)->Heading_0.level == level ==> #[trigger] block_rel(n, ctx(*old(self)), old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_table<'b>(&mut self, node: &'b AstNode<'b>, table: &NodeTable)
        ensures leaf_ok(*old(self), *final(self)), forall|n: &'b AstNode<'b>| n == node ==> #[trigger] block_rel(n, ctx(*old(self)), old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_paragraph<'b>(&mut self, node: &'b AstNode<'b>)
        ensures leaf_ok(*old(self), *final(self)), forall|n: &'b AstNode<'b>| n == node ==> #[trigger] block_rel(n, ctx(*old(self)), old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_front_matter<'b>(&mut self, content: &str)
        ensures leaf_ok(*old(self), *final(self)), forall|n: &'b AstNode<'b>| val(n) is FrontMatter && val(n)->FrontMatter_0@ == content@ ==> #[trigger] block_rel(n, ctx(*old(self)), old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_thematic_break<'b>(&mut self, is_after_list: bool)
        ensures leaf_ok(*old(self), *final(self)), forall|n: &'b AstNode<'b>| val(n) is ThematicBreak ==> #[trigger] block_rel(n, ctx(*old(self)), old(self).output@, final(self).output@) { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize_code_block<'b>(&mut self, info: &str, literal: &str)
        ensures leaf_ok(*old(self), *final(self)), forall|n: &'b AstNode<'b>| val(n) is CodeBlock && val(n)->CodeBlock_0.info@ == info@ && val(n)->CodeBlock_0.literal@ == literal@ ==> #[trigger] block_rel(n, ctx(*old(self)), old(self).output@, final(self).output@) { unimplemented!() }
}
// ---------------------------------------------------------------- theorems over the contracts
// The marker, read by the CommonMark rules
pub enum Mark { Bullet(char), Ordered(int, char) }
pub open spec fn num_s(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { num_s(s.drop_last()) * 10 + (s.last() as int - '0' as int) } }
pub open spec fn digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digits_end(s: Seq<char>, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && digit(s[i]) { digits_end(s, i + 1) } else { i } }
/// the marker at the start of a line and the number of characters up to the spaces behind it
pub open spec fn read_mark(s: Seq<char>) -> Option<(Mark, int)> {
    let e = digits_end(s, 0);
    if s.len() >= 2 && (s[0] == '-' || s[0] == '*' || s[0] == '+') && s[1] == ' ' { Some((Mark::Bullet(s[0]), 1)) }
    else if 1 <= e <= 9 && e + 1 < s.len() && (s[e] == '.' || s[e] == ')') && s[e + 1] == ' ' { Some((Mark::Ordered(num_s(s.take(e)), s[e]), e + 1)) }
    else { None }
}
pub proof fn lemma_num(n: nat)
    ensures num_s(dec_s(n)) == n, forall|i: int| 0 <= i < dec_s(n).len() ==> digit(#[trigger] dec_s(n)[i]),
    decreases n,
{
    let d = (n % 10) as u32;
    assert(d < 10 && ((('0' as u32 + d) as u8) as char) as int == '0' as int + d);
    if n >= 10 {
        lemma_num(n / 10);
        assert(dec_s(n).drop_last() =~= dec_s(n / 10));
        assert forall|i: int| 0 <= i < dec_s(n).len() implies digit(#[trigger] dec_s(n)[i]) by {
            if i < dec_s(n).len() - 1 { assert(dec_s(n)[i] == dec_s(n / 10)[i]); }
        }
    } else {
        assert(dec_s(n).drop_last() =~= Seq::<char>::empty());
        assert(num_s(Seq::<char>::empty()) == 0);
        assert(n as u32 == d);
    }
}
pub proof fn lemma_digits_end(s: Seq<char>, i: int, e: int)
    requires 0 <= i <= e <= s.len(), forall|k: int| i <= k < e ==> digit(#[trigger] s[k]), e == s.len() || !digit(s[e]),
    ensures digits_end(s, i) == e,
    decreases e - i,
{
    if i < e { lemma_digits_end(s, i + 1, e); }
}
/// an item of a numbered list reads as the item with its number, one of a bulleted list as one with the bullet, whatever follows
pub proof fn lemma_marker(c: Ctx, rest: Seq<char>)
    requires opt_ok(c.opt), c.list_type is Some, c.opt.trailing_spaces.0 >= 1, c.idx < 1000000000,
    ensures
        c.list_type == Some(ListType::Ordered) ==>
            read_mark(marker_s(c) + rest) == Some((Mark::Ordered(c.idx as int, delim_s(if c.depth % 2 == 1 { c.opt.odd_level_marker } else { c.opt.even_level_marker })), number_s(c).len() as int + 1)),
        c.list_type == Some(ListType::Bullet) && (c.opt.leading_spaces.0 == 0 || c.details && c.depth == 1) ==> read_mark(marker_s(c) + rest) == Some((Mark::Bullet(bullet_s(c.opt.unordered_marker)), 1int)),
{
    reveal(one);
    let s = marker_s(c) + rest;
    lemma_spaces(c.opt.trailing_spaces.0 as nat);
    lemma_spaces(c.opt.leading_spaces.0 as nat);
    if c.list_type == Some(ListType::Ordered) {
        let d = number_s(c);
        let n = max_i(c.opt.ordered_list_indent_width.0 - d.len() - 1, 1) as nat;
        let l = delim_s(if c.depth % 2 == 1 { c.opt.odd_level_marker } else { c.opt.even_level_marker });
        lemma_spaces(n); lemma_num(c.idx); lemma_dec_len(c.idx);
        assert(s =~= d + (seq![l] + spaces(n) + rest));
        assert(s.take(d.len() as int) =~= d);
        assert(s[d.len() as int] == l);
        assert(s[d.len() as int + 1] == spaces(n)[0]);
        assert forall|k: int| 0 <= k < d.len() implies digit(#[trigger] s[k]) by { assert(s[k] == d[k]); }
        lemma_digits_end(s, 0, d.len() as int);
        assert(digit(s[0]));
    } else if c.opt.leading_spaces.0 == 0 || c.details && c.depth == 1 {
        let b = bullet_s(c.opt.unordered_marker);
        let t = spaces(c.opt.trailing_spaces.0 as nat);
        assert(s =~= seq![b] + t + rest);
        assert(s[1] == t[0]);
    }
}
/// the marker with its spaces is as wide as it is counted
pub proof fn lemma_marker_width(c: Ctx)
    requires opt_ok(c.opt), c.list_type is Some,
    ensures marker_s(c).len() == own_width(c),
{
    reveal(one);
    lemma_spaces(c.opt.trailing_spaces.0 as nat);
    lemma_spaces(c.opt.leading_spaces.0 as nat);
    if c.list_type == Some(ListType::Ordered) { lemma_spaces(max_i(c.opt.ordered_list_indent_width.0 - number_s(c).len() - 1, 1) as nat); }
}
/// the other lines of an item are indented to where its content starts, in the same quotes
pub proof fn lemma_column(c: Ctx, o: Seq<char>)
    requires opt_ok(c.opt), c.list_type is Some, c.depth >= 1, all_spaces(c.indent),
    ensures
        head_s(c, false, None).len() == quote_s(c).len() + base_s(c).len(), head_s(c, false, None).take(quote_s(c).len() as int) == quote_s(c),
        c.details ==> head_s(c, true, None).len() + 5 == base_s(c).len(),
        all_spaces(base_s(c)),
{
    lemma_marker_width(c); lemma_base(c);
    reveal_strlit("     ");
    assert(c.depth > 1 ==> nested_w(c) * (c.depth - 1) >= 0) by (nonlinear_arith) requires nested_w(c) >= 0;
    lemma_spaces(nested_width(c) as nat);
    assert(head_s(c, false, None).take(quote_s(c).len() as int) =~= quote_s(c));
}
/// a list in an item of another list: its markers stand at least where the content of that item starts, and at most three columns behind
pub proof fn lemma_nested(p: Ctx, c: Ctx)
    requires
        opt_ok(c.opt), c.opt == p.opt, c.list_type is Some, p.list_type is Some, p.depth >= 1, c.depth == p.depth + 1, c.details == p.details, all_spaces(p.indent),
        c.indent == base_s(p), nested_w(c) >= marker_w(c),
    ensures
        (if c.details { 5int } else { 0 }) + nested_width(c) + nested_lead(c) >= base_s(p).len(),
        (if c.details { 5int } else { 0 }) + nested_width(c) + nested_lead(c) <= base_s(p).len() + 3,
{
    lemma_base(p);
    assert(p.depth > 1 ==> nested_w(p) * (p.depth - 1) >= 0) by (nonlinear_arith) requires nested_w(p) >= 0;
}
/// what is written from s[i] to s[i + 1] is child i: every child, once, in order, with nothing in between
pub open spec fn part<'b>(h: nat, v: Seq<&'b AstNode<'b>>, list: bool, c: Ctx, s: Seq<Seq<char>>, i: int) -> bool {
    w_rel(h, v[i], if list { at_s(c, i) } else { c }, s[i], s[i + 1])
}
pub open spec fn parts<'b>(h: nat, v: Seq<&'b AstNode<'b>>, list: bool, c: Ctx, s: Seq<Seq<char>>) -> bool {
    s.len() == v.len() + 1 && forall|i: int| 0 <= i < v.len() ==> #[trigger] part(h, v, list, c, s, i)
}
pub proof fn lemma_parts<'b>(h: nat, v: Seq<&'b AstNode<'b>>, list: bool, c: Ctx, o: Seq<char>, o2: Seq<char>) -> (s: Seq<Seq<char>>)
    requires kids_rel(h, v, list, c, o, o2),
    ensures parts(h, v, list, c, s), s[0] == o, s.last() == o2,
    decreases v.len(),
{
    if v.len() == 0 { seq![o] } else {
        let m = choose|m: Seq<char>| #[trigger] mid(m) && kids_rel(h, v.drop_last(), list, c, o, m) && w_rel(h, v.last(), if list { at_s(c, v.len() - 1) } else { c }, m, o2);
        let s = lemma_parts(h, v.drop_last(), list, c, o, m);
        let r = s.push(o2);
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] part(h, v, list, c, r, i) by {
            if i < v.len() - 1 { assert(part(h, v.drop_last(), list, c, s, i)); }
        }
        r
    }
}
/// the items of a list: item i has the number i + 1, the kind of the list, and is written where item i - 1 ended
pub proof fn lemma_list<'b>(n: &'b AstNode<'b>, c: Ctx, o: Seq<char>, o2: Seq<char>) -> (s: Seq<Seq<char>>)
    requires wrote(n, c, o, o2), n_list(n), opt_ok(c.opt), c.depth == 0 || c.idx >= 1,
    ensures
        s.len() == kids(n).len() + 1, s[0] == o, s.last() == o2,
        forall|i: int| 0 <= i < kids(n).len() ==> item_of(n, i, Ctx { first: false, idx: (i + 1) as nat, depth: c.depth + 1, list_type: Some(val(n)->List_0.list_type), tight: val(n)->List_0.tight, ..c }, c.first && c.depth == 0 && i == 0, #[trigger] s[i], s[i + 1]),
{
    ax_tree(n);
    let l = val(n)->List_0;
    let lc = list_s(c, l);
    let s = lemma_parts(height(n), kids(n), true, lc, o, o2);
    assert forall|i: int| 0 <= i < kids(n).len() implies item_of(n, i, Ctx { first: false, idx: (i + 1) as nat, depth: c.depth + 1, list_type: Some(l.list_type), tight: l.tight, ..c }, c.first && c.depth == 0 && i == 0, #[trigger] s[i], s[i + 1]) by {
        assert(part(height(n), kids(n), true, lc, s, i));
        assert(n_item(kids(n)[i]));
    }
    s
}
pub open spec fn item_of<'b>(n: &'b AstNode<'b>, i: int, c: Ctx, colon: bool, o: Seq<char>, o2: Seq<char>) -> bool {
    item_rel(kids(n)[i], c, colon, if val(kids(n)[i]) is TaskItem { Some(val(kids(n)[i])->TaskItem_0.symbol) } else { None }, o, o2)
}
%% fn LeadingSpaces::get
%% from src/config.rs
%% ret r
%% spec
    ensures r == self.0,
%% fn TrailingSpaces::get
%% from src/config.rs
%% ret r
%% spec
    ensures r == self.0,
%% fn IndentWidth::get
%% from src/config.rs
%% ret r
%% spec
    ensures r == self.0,
%% fn UnorderedMarker::as_char
%% from src/config.rs
%% ret r
%% spec
    ensures r == bullet_s(self),
%% fn OrderedMarker::as_char
%% from src/config.rs
%% ret r
%% spec
    ensures r == delim_s(self),
%% fn ThematicBreakStyle::as_str
%% from src/config.rs
%% ret r
%% spec
    ensures r@ == self.0@,
%% fn Serializer::push_block_quote_prefix
%% spec
    ensures ctx(*final(self)) == ctx(*old(self)), same_first(*old(self), *final(self)), final(self).output@ == old(self).output@ + quote_s(ctx(*old(self))),
%% at after self.output.push_str(&self.blockquote_prefix)
    proof { assert(self.output@ =~= old(self).output@ + quote_s(ctx(*old(self)))); }
%% at start
    proof { assert(old(self).output@ + Seq::<char>::empty() =~= old(self).output@); }
%% fn Serializer::push_blank_block_quote_line
%% spec
    ensures ctx(*final(self)) == ctx(*old(self)), same_first(*old(self), *final(self)), final(self).output@ == blank_s(ctx(*old(self)), old(self).output@),
%% fn Serializer::enter_blockquote_context
%% ret r
%% spec
    ensures
        ctx(*final(self)) == enter_s(ctx(*old(self))), final(self).output == old(self).output,
        kept(*old(self), r),
%% at result
    proof {
        assert(self.list_item_indent@ =~= Seq::<char>::empty());
        assert(ctx(*self).prefix =~= enter_s(ctx(*old(self))).prefix);
    }
%% fn Serializer::exit_blockquote_context
%% spec
    ensures final(self).output == old(self).output, restored(*old(self), state, *final(self)),
%% fn Serializer::serialize_children
%% from src/serializer/mod.rs
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        ok_kids(node, ctx(*old(self))),
    ensures
        ctx(*final(self)) == (if n_list(node) && kids(node).len() > 0 { at_s(ctx(*old(self)), kids(node).len() as int) } else { ctx(*old(self)) }),
        p_kids_rel(height(node), kids(node), n_list(node), ctx(*old(self)), old(self).output@, final(self).output@),
        final(self).description_details_first_list ==> old(self).description_details_first_list,
%% at start
    proof { reveal(p_kids_rel); }
%% loop 0
    invariant
        hdv0@ == kids(node), ok_kids(node, ctx(*old(self))),
        ctx(*self) == (if n_list(node) && hdk0 > 0 { at_s(ctx(*old(self)), hdk0 as int) } else { ctx(*old(self)) }),
        p_kids_rel(height(node), kids(node).take(hdk0 as int), n_list(node), ctx(*old(self)), old(self).output@, self.output@),
        self.description_details_first_list ==> old(self).description_details_first_list,
%% at loop 0 start
    proof {
        ax_tree(node); reveal(p_wrote); reveal(p_kids_rel);
        assert(mid(self.output@));
        assert(kids(node).take(hdk0 + 1).drop_last() =~= kids(node).take(hdk0 as int));
    }
    let ghost hd_m = self.output@;
    let ghost c0 = ctx(*old(self));
    let ghost c1 = ctx(*self);
%% at loop 0 end
    proof {
        let v = kids(node).take(hdk0 + 1);
        let ci = if n_list(node) { at_s(c0, v.len() - 1) } else { c0 };
        assert(c1 == ci);
        assert(v.last() == kids(node)[hdk0 as int]);
        assert(p_wrote(v.last(), ci, hd_m, self.output@));
        assert(height(v.last()) < height(node));
        assert(w_rel(height(node), v.last(), ci, hd_m, self.output@));
        assert(p_kids_rel(height(node), v, n_list(node), c0, old(self).output@, self.output@));
    }
%% at loop 0 after
    proof { reveal(p_kids_rel); assert(kids(node).take(kids(node).len() as int) =~= kids(node)); }
%% fn Serializer::serialize_indented
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        !n_item(node), ok_s(node, inner_s(ctx(*old(self)))),
    ensures
        leaf_ok(*old(self), *final(self)),
        forall|h: nat| height(node) < h ==> #[trigger] p_indented_rel(h, node, ctx(*old(self)), indent@, old(self).output@, final(self).output@),
%% at start
    proof { reveal(p_wrote); reveal(p_indented_rel); }
    let ghost c0 = ctx(*self);
    let ghost o0 = self.output@;
%% at before self.serialize_node(node)
    proof { assert(ctx(*self) == inner_s(c0)); assert(self.output@ =~= Seq::<char>::empty()); }
%% at before self.exit_blockquote_context(state)
    proof { assert(mid(self.output@)); }
    let ghost b0 = self.output@;
%% loop 0
    invariant
        leaf_ok(*old(self), *self), ctx(*self) == c0, hdv0@.len() == lines_s(b0).len(), views(hdv0@) == lines_s(b0),
        self.output@ == embed_s(c0, indent@, o0, lines_s(b0).take(hdn_hdk0 as int)),
    decreases hdv0@.len() - hdn_hdk0,
%% at loop 0 start
    proof {
        let v = lines_s(b0).take(hdk0 + 1);
        assert(v.drop_last() =~= lines_s(b0).take(hdk0 as int));
        assert(v.last() == hdv0@[hdk0 as int]@);
        assert(o0 + v[0] + Seq::<char>::empty() =~= o0 + v[0]);
        assert(self.output@ + Seq::<char>::empty() =~= self.output@);
    }
%% at loop 0 after
    proof { assert(lines_s(b0).take(lines_s(b0).len() as int) =~= lines_s(b0)); assert(mid(b0)); assert(lines_s(b0).len() == 0 ==> o0 == self.output@);
        assert(p_wrote(node, inner_s(c0), Seq::empty(), b0)); assert(self.output@ == embed_s(c0, indent@, o0, lines_s(b0))); }
%% fn Serializer::serialize_blockquote_children
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        forall|i: int| 0 <= i < children@.len() ==> !n_item(#[trigger] children@[i]) && ok_s(children@[i], ctx(*old(self))),
        ctx(*old(self)).depth == 0, !ctx(*old(self)).first,
    ensures
        ctx(*final(self)) == ctx(*old(self)), final(self).description_details_first_list ==> old(self).description_details_first_list,
        forall|h: nat| above(h, children@) ==> #[trigger] p_quote_rel(h, children@, ctx(*old(self)), old(self).output@, final(self).output@),
%% loop 0
    invariant
        hdv0@ == children@,
        forall|i: int| 0 <= i < children@.len() ==> !n_item(#[trigger] children@[i]) && ok_s(children@[i], ctx(*old(self))),
        ctx(*self) == ctx(*old(self)), ctx(*old(self)).depth == 0, !ctx(*old(self)).first,
        self.description_details_first_list ==> old(self).description_details_first_list,
        children@.len() == 0 ==> self.output@ == blank_s(ctx(*old(self)), old(self).output@),
        children@.len() > 0 ==> forall|h: nat| #![all_triggers] above(h, children@) ==> p_quoted_rel(h, children@.take(hdk0 as int), ctx(*old(self)), old(self).output@, self.output@),
%% at loop 0 before
    proof { reveal(p_quoted_rel); reveal(p_quote_rel);
        assert(children@.take(0).len() == 0);
        assert(children@.len() > 0 ==> self.output@ == old(self).output@);
        assert(children@.len() > 0 ==> forall|h: nat| p_quoted_rel(h, children@.take(0), ctx(*old(self)), old(self).output@, self.output@));
    }
%% at loop 0 start
    let ghost hd_m = self.output@;
    proof {
        reveal(p_quoted_rel); reveal(p_wrote); reveal(p_indented_rel); assert(mid(hd_m));
        assert(children@.take(hdk0 + 1).drop_last() =~= children@.take(hdk0 as int));
    }
%% at loop 0 end
    proof {
        let v = children@.take(hdk0 + 1);
        assert(v.last() == children@[hdk0 as int]);
        let m1 = if v.len() > 1 { blank_s(ctx(*old(self)), hd_m) } else { hd_m };
        assert forall|h: nat| above(h, children@) implies #[trigger] p_quoted_rel(h, v, ctx(*old(self)), old(self).output@, self.output@) by {
            assert(p_quoted_rel(h, v.drop_last(), ctx(*old(self)), old(self).output@, hd_m));
            let n = v.last();
            assert(height(n) < h);
            if val(n) is Heading || val(n) is HtmlBlock {
                assert(p_indented_rel(h, n, ctx(*old(self)), ""@, m1 + quote_s(ctx(*old(self))), self.output@));
            } else {
                assert(p_wrote(n, ctx(*old(self)), m1, self.output@));
                assert(w_rel(h, n, ctx(*old(self)), m1, self.output@));
            }
            assert(quoted1_rel(h, v.last(), ctx(*old(self)), m1, self.output@));
        }
    }
%% at loop 0 after
    proof { reveal(p_quoted_rel); reveal(p_quote_rel); assert(children@.take(children@.len() as int) =~= children@); }
%% fn Serializer::serialize_block_quote
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        !n_item(node), !n_list(node), ok_s(node, ctx(*old(self))),
    ensures
        leaf_ok(*old(self), *final(self)),
        p_quote_rel(height(node), kids(node), enter_s(ctx(*old(self))), old(self).output@, final(self).output@),
%% at before self.serialize_blockquote_children(&children)
    proof { ax_tree(node); assert(ctx(*self) == enter_s(ctx(*old(self)))); }
%% at before self.exit_blockquote_context(state)
    proof { assert(above(height(node), children@)); }
%% fn Serializer::serialize_alert
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        !n_item(node), !n_list(node), ok_s(node, ctx(*old(self))),
    ensures
        leaf_ok(*old(self), *final(self)),
        p_quote_rel(height(node), kids(node), enter_s(ctx(*old(self))), alert_s(node, alert_type, enter_s(ctx(*old(self))), old(self).output@), final(self).output@),
%% at start
    let ghost o0 = self.output@;
    let ghost c0 = ctx(*self);
%% at after self.output.push_str("]\n")
    proof {
        ax_tree(node);
        assert(self.output@ =~= o0 + quote_s(enter_s(c0)) + "[!"@ + alert_name(alert_type) + "]\n"@);
    }
%% at before self.serialize_blockquote_children(&children)
    proof {
        assert(ctx(*self) == enter_s(ctx(*old(self)))); assert(self.output@ == alert_s(node, alert_type, enter_s(c0), o0));
    }
%% at before self.exit_blockquote_context(state)
    proof { assert(above(height(node), children@)); }
%% fn Serializer::count_list_items
%% from src/serializer/list.rs
%% ret r
%% loop 0
    invariant hdr1 <= hdk1,
%% fn Serializer::calculate_marker_width
%% opt fmt_to_string
%% from src/serializer/list.rs
%% ret r
%% spec
    requires opt_ok(*self.options), self.list_item_index <= 0x7fff_ffff,
    ensures r == marker_w(ctx(*self)),
%% at start
    proof { lemma_dec(self.list_item_index as nat); }
%% fn Serializer::serialize_list
%% from src/serializer/list.rs
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        n_list(node), val(node)->List_0.list_type == list_type, val(node)->List_0.tight == tight, ok_s(node, ctx(*old(self))),
    ensures
        after_s(node, ctx(*old(self)), ctx(*final(self))), p_wrote(node, ctx(*old(self)), old(self).output@, final(self).output@),
        final(self).description_details_first_list ==> old(self).description_details_first_list,
%% at before self.serialize_children(node)
    proof { reveal(p_kids_rel); reveal(p_wrote); assert(ctx(*self) == list_s(ctx(*old(self)), val(node)->List_0)); }
%% fn Serializer::serialize_on_marker_line
%% from src/serializer/list.rs
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        !n_item(node), ok_s(node, ctx(*old(self))),
    ensures
        after_s(node, ctx(*old(self)), ctx(*final(self))), final(self).description_details_first_list ==> old(self).description_details_first_list,
        forall|h: nat| height(node) < h ==> #[trigger] p_on_marker_rel(h, node, ctx(*old(self)), old(self).output@, final(self).output@),
%% at start
    let ghost c0 = ctx(*self);
    let ghost o0 = self.output@;
%% at before self.serialize_node(node)
    proof { assert(prefix@ =~= quote_s(c0)); assert(self.output@ =~= Seq::<char>::empty()); }
%% at after let block = hd_set(&mut self.output, output)
    proof { reveal(p_wrote); reveal(p_on_marker_rel); assert(mid(block@)); assert(p_wrote(node, c0, Seq::empty(), block@)); }
%% at after let text = block.hd_strip_prefix(&prefix).unwrap_or(&block)
    proof { assert(text@ =~= has_first(block@, quote_s(c0))); }
%% at after let line = hd_first_of(&text.hd_lines()).unwrap_or("")
    let ghost t0 = text@;
    proof {
        assert(line@ == first_line(text@)) by {
        }
    }
%% at before self.output.hd_push('\n')
    proof { assert(rule_line(line@)); assert(o0 + one('\n') + block@ == joined_s(c0, o0, block@)); }
%% at before self.output.push_str(text)
    proof { assert(!rule_line(line@)); assert(o0 + t0 == joined_s(c0, o0, block@)); }
%% fn Serializer::serialize_list_item
%% from src/serializer/list.rs
%% opt fmt_to_string no_reveal
%% attr #[verifier::rlimit(100)]
%% attr #[verifier::spinoff_prover]
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        n_item(node), ok_s(node, ctx(*old(self))),
    ensures
        after_s(node, ctx(*old(self)), ctx(*final(self))), final(self).description_details_first_list ==> old(self).description_details_first_list,
        p_item_rel(node, at_s(ctx(*old(self)), ctx(*old(self)).idx as int + 1), on_colon(ctx(*old(self))), task_marker, old(self).output@, final(self).output@),
%% at start
    hide(rep_s); hide(dec_s); hide(trim_end_c);
    let ghost c0 = ctx(*self);
    let ghost c = at_s(c0, c0.idx as int + 1);
    let ghost colon = on_colon(c0);
    let ghost o0 = self.output@;
    proof { ax_tree(node); lemma_dec(c.idx); }
%% at before let is_first_item_on_colon_line
    let ghost o1 = self.output@;
    proof { assert(ctx(*self) == c); assert(o1 == if !c.tight && c.idx > 1 { blank_s(c, o0) } else { o0 }); }
%% at before let indent_width
    proof { assert(is_first_item_on_colon_line == colon); assert(self.output@ == if colon { o1 } else { o1 + quote_s(c) }); assert(desc_base_indent@ == dd_s(c, colon)); }
%% at before let mut nested_indent
    proof {
        assert(indent_width * (self.list_depth - 1) <= 0x7fff_ffff * 0xffff_ffff) by (nonlinear_arith)
            requires indent_width <= 0x7fff_ffff, 1 <= self.list_depth <= 0xffff_ffff;
        assert(indent_width * (self.list_depth - 1) >= 0) by (nonlinear_arith) requires indent_width >= 0, 1 <= self.list_depth;
    }
%% at before if self.list_depth > 1
    proof {
        assert(c.depth == self.list_depth && c.indent == self.list_item_indent@ && c.details == self.in_description_details && c.list_type == self.list_type);
        assert(indent_width == nested_w(c));
        assert(nested_indent == nested_w(c) * (c.depth - 1));
        assert(c.depth == 1 ==> nested_w(c) * (c.depth - 1) == 0) by (nonlinear_arith);
    }
%% at after nested_indent = nested_indent.hd_min2
    proof { assert(nested_indent == min_i(nested_w(c) * (c.depth - 1), nested_outer(c) + max_i(3 - nested_lead(c), 0))); }
%% at before match self.list_type
    proof {
        assert(nested_indent == nested_width(c));
        assert(self.output@ == nest_onto(o1, c, colon));
    }
%% at before if let Some(checked) = task_marker
    proof { assert(self.output@ == marker_onto(nest_onto(o1, c, colon), c)); }
%% at before let children
    proof { assert(self.output@ == box_onto(marker_onto(nest_onto(o1, c, colon), c), task_marker)); lemma_head(o1, c, colon, task_marker); }
    let ghost o2 = self.output@;
%% at before let marker_width = self.calculate
    let ghost o3 = self.output@;
    proof {
        assert(is_checkbox_alone == box_alone(node, task_marker));
        reveal(p_item_kids); assert(o3 == item_start(node, c, colon, task_marker, o0));
        assert(o3 == if is_checkbox_alone { trim_end_c(o2, ' ') } else { o2 });
    }
%% at before let old_list_item_indent
    let ghost cl = Ctx { indent: base_s(c), ..c };
    proof {
        assert(base_indent@ == base_x(c));
        lemma_base(c);
    }
%% loop 0
    invariant
        hdn_hdk3 <= hdv3@.len(), hdv3@ == kids(node), children@ == kids(node), n_item(node), base_indent@ == cl.indent, is_checkbox_alone == box_alone(node, task_marker), ctx(*self) == cl, ok_kids(node, cl),
        self.description_details_first_list ==> old(self).description_details_first_list,
        p_item_kids(height(node), kids(node).take(hdn_hdk3 as int), cl, is_checkbox_alone, o3, self.output@),
    decreases hdv3@.len() - hdn_hdk3,
%% at loop 0 start
    let ghost m0 = self.output@;
    let ghost k0 = hdk3 as int;
    let ghost first0 = k0 == 0 && !is_checkbox_alone;
    let ghost n1 = kids(node)[k0];
    proof {
        ax_tree(node); ax_tree(n1);
        if k0 > 0 { ax_tree(kids(node)[k0 - 1]); }
        assert(ok_s(n1, cl) && !n_item(n1));
    }
%% at before match &child.data.borrow().value
    let ghost m1 = self.output@;
    proof { assert(m1 == kid_from(kids(node), k0, cl, is_checkbox_alone, m0)); }
%% at before continue
    proof {
        assert(kid_case(height(node), n1, cl, first0, m1, self.output@));
        lemma_kid(height(node), kids(node), k0, cl, is_checkbox_alone, o3, m0, self.output@);
    }
%% at loop 0 end
    proof {
        assert(kid_case(height(node), n1, cl, first0, m1, self.output@));
        lemma_kid(height(node), kids(node), k0, cl, is_checkbox_alone, o3, m0, self.output@);
    }
%% at before self.serialize_indented(child, &base_indent)
    proof { assert(ctx(*self) == cl); assert(self.output@ == if first0 { m1 } else { m1 + quote_s(cl) + cl.indent }); }
%% at loop 0 after
    proof {
        assert(kids(node).take(kids(node).len() as int) =~= kids(node));
        lemma_item(node, c, colon, task_marker, o0, self.output@);
    }
%% fn Serializer::serialize_description_details
%% from src/serializer/document.rs
%% attr #[verifier::rlimit(60)]
%% attr #[verifier::spinoff_prover]
%% attr #[verifier::exec_allows_no_decreases_clause]
%% opt fmt_to_string no_reveal
%% spec
    requires
        !n_item(node), !n_list(node), ok_s(node, ctx(*old(self))),
    ensures
        ctx(*final(self)) == ctx(*old(self)), final(self).description_details_first_list ==> old(self).description_details_first_list,
        p_details_rel(height(node), kids(node), Ctx { details: true, ..ctx(*old(self)) }, old(self).output@, final(self).output@),
%% at start
    hide(rep_s); hide(dec_s); hide(trim_end_c);
    let ghost c0 = ctx(*self);
    let ghost c = Ctx { details: true, ..c0 };
    let ghost o0 = self.output@;
    proof { ax_tree(node); reveal_strlit("    "); assert(all_spaces("    "@)); }
%% at loop 0 before
    proof { reveal(p_details_rel); assert(kids(node).take(0).len() == 0); assert(blockquote_prefix@ =~= quote_s(c)); assert(ctx(*self) == c); }
%% loop 0
    invariant
        hdv1@ == kids(node), children@ == kids(node), !n_item(node), !n_list(node), ok_kids(node, c), blockquote_prefix@ == quote_s(c), ctx(*self) == c, !c.first,
        all_spaces("    "@), "    "@.len() == 4, c == (Ctx { details: true, ..ctx(*old(self)) }), was_in_description_details == ctx(*old(self)).details, o0 == old(self).output@,
        self.description_details_first_list ==> old(self).description_details_first_list,
        p_details_rel(height(node), kids(node).take(hdk1 as int), c, o0, self.output@),
%% at loop 0 start
    let ghost m0 = self.output@;
    let ghost k0 = hdk1 as int;
    let ghost n1 = kids(node)[k0];
    proof { ax_tree(node); ax_tree(n1); assert(ok_s(n1, c) && !n_item(n1)); }
%% at loop 0 end
    proof {
        assert(detail_case(height(node), n1, k0 == 0, c, m0, self.output@));
        lemma_detail(height(node), kids(node), k0, c, o0, m0, self.output@);
    }
%% at loop 0 after
    proof { assert(kids(node).take(kids(node).len() as int) =~= kids(node)); }
%% fn Serializer::serialize_single_block
%% from src/serializer/mod.rs
%% ret r
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        !n_item(node), ok_s(node, ctx(*old(self))),
    ensures
        ctx(*final(self)) == ctx(*old(self)) || n_list(node), after_s(node, ctx(*old(self)), ctx(*final(self))), final(self).output@ == old(self).output@,
        final(self).description_details_first_list ==> old(self).description_details_first_list,
        exists|b: Seq<char>| #[trigger] p_wrote(node, ctx(*old(self)), Seq::empty(), b) && r@ == trim_end_s(b),
%% at before self.serialize_node(node)
    proof { assert(self.output@ =~= Seq::<char>::empty()); }
%% fn Serializer::serialize_footnote_blocks
%% from src/serializer/mod.rs
%% ret r
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires
        !n_item(node), !n_list(node), ok_s(node, ctx(*old(self))),
    ensures
        ctx(*final(self)) == ctx(*old(self)), final(self).output@ == old(self).output@,
        final(self).description_details_first_list ==> old(self).description_details_first_list,
        exists|q: Seq<char>| #[trigger] note_rel(height(node), kids(node), ctx(*old(self)), q) && r@ == trim_end_s(q),
%% loop 0
    invariant
        hdv0@ == kids(node), !n_item(node), !n_list(node), ok_s(node, ctx(*old(self))), ctx(*self) == ctx(*old(self)), self.output@ == old(self).output@,
        self.description_details_first_list ==> old(self).description_details_first_list, first_block == (hdk0 == 0),
        note_rel(height(node), kids(node).take(hdk0 as int), ctx(*old(self)), result@),
%% at loop 0 start
    let ghost q0 = result@;
    proof { ax_tree(node); assert(kids(node).take(hdk0 + 1).drop_last() =~= kids(node).take(hdk0 as int)); }
%% at loop 0 end
    proof {
        let v = kids(node).take(hdk0 + 1);
        let n = kids(node)[hdk0 as int];
        assert(v.last() == n);
        let b = choose|b: Seq<char>| #[trigger] p_wrote(n, ctx(*old(self)), Seq::empty(), b) && block_content@ == trim_end_s(b);
        assert(note1_rel(height(node), v.last(), v.len(), ctx(*old(self)), q0, b, result@));
    }
%% at loop 0 after
    proof { assert(kids(node).take(kids(node).len() as int) =~= kids(node)); }
%% fn Serializer::serialize_node
%% from src/serializer/mod.rs
%% attr #[verifier::rlimit(60)]
%% attr #[verifier::spinoff_prover]
%% attr #[verifier::exec_allows_no_decreases_clause]
%% spec
    requires ok_s(node, ctx(*old(self))),
    ensures
        after_s(node, ctx(*old(self)), ctx(*final(self))), p_wrote(node, ctx(*old(self)), old(self).output@, final(self).output@),
        final(self).description_details_first_list ==> old(self).description_details_first_list,
%% at start
    let ghost c0 = ctx(*self);
    let ghost o0 = self.output@;
    proof { ax_tree(node); reveal(p_wrote); reveal(p_kids_rel); reveal(p_apart_rel); reveal(p_details_rel); reveal(p_quote_rel); reveal(p_item_rel); }
%% loop 0
    invariant
        hdv0@ == kids(node), children@ == kids(node), !n_item(node), !n_list(node), ok_s(node, c0), ctx(*self) == c0, val(node) is DescriptionList,
        self.description_details_first_list ==> old(self).description_details_first_list,
        p_apart_rel(height(node), kids(node).take(hdk0 as int), c0, o0, self.output@),
%% at loop 0 before
    proof { reveal(p_apart_rel); assert(kids(node).take(0).len() == 0); }
%% at loop 0 start
    let ghost m0 = self.output@;
    proof { ax_tree(node); reveal(p_wrote); reveal(p_apart_rel); assert(mid(m0)); assert(kids(node).take(hdk0 + 1).drop_last() =~= kids(node).take(hdk0 as int)); assert(!n_item(kids(node)[hdk0 as int])); }
%% at loop 0 end
    proof {
        let v = kids(node).take(hdk0 + 1);
        let m1 = if v.len() > 1 { blank_s(c0, m0) } else { m0 };
        assert(v.last() == kids(node)[hdk0 as int]);
        assert(p_wrote(v.last(), c0, m1, self.output@));
        assert(height(v.last()) < height(node));
        assert(w_rel(height(node), v.last(), c0, m1, self.output@));
        assert(p_apart_rel(height(node), v, c0, o0, self.output@));
    }
%% at loop 0 after
    proof { reveal(p_apart_rel); assert(kids(node).take(kids(node).len() as int) =~= kids(node)); }
%% loop 1
    invariant
        ctx(*self) == c0, self.output@ == o0, self.description_details_first_list ==> old(self).description_details_first_list,
