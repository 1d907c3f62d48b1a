// String shims: each external_body function below calls the std function it is named after;
// its contract is the assumption listed in the evidence.
pub assume_specification [String::with_capacity] (_0: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
/// bytes of UTF-8
pub open spec fn c_len(c: char) -> nat { if c <= '\u{7f}' { 1 } else if c <= '\u{7ff}' { 2 } else if c <= '\u{ffff}' { 3 } else { 4 } }
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { blen(s.drop_last()) + c_len(s.last()) } }
/// the k-th character starts at this byte
pub open spec fn at_byte(s: Seq<char>, b: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == b }
/// a character starts at this byte, or the text ends there
pub open spec fn on_char(s: Seq<char>, b: int) -> bool { exists|k: int| #[trigger] at_byte(s, b, k) }
/// the character that starts at this byte
pub open spec fn byte_k(s: Seq<char>, b: int) -> int { choose|k: int| #[trigger] at_byte(s, b, k) }
pub trait HdTrunc { spec fn now(&self) -> Seq<char>; fn hd_truncate_at(&mut self, b: usize)
    requires on_char(old(self).now(), b as int),
    ensures final(self).now() == old(self).now().take(byte_k(old(self).now(), b as int)); }
impl HdTrunc for String {
    open spec fn now(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn hd_truncate_at(&mut self, b: usize) { self.truncate(b) }
}
pub assume_specification [String::len] (_0: &String) -> (r: usize) ensures r == blen(_0@), r >= _0@.len(), ascii_s(_0@) ==> r == _0@.len();

pub open spec fn ascii_s(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> c_ascii(#[trigger] s[i]) }
use vstd::string::StringSliceAdditionalSpecFns;
// AXIOM: an ASCII string has as many bytes as characters
pub axiom fn ax_ascii_len(s: &str)
    requires forall|i: int| 0 <= i < s@.len() ==> c_ascii(#[trigger] s@[i]),
    ensures s.spec_bytes().len() == s@.len();
use vstd::std_specs::cmp::PartialEqSpec;
// AXIOM: strings are equal if their characters are
pub axiom fn ax_string_eq()
    ensures
        <String as PartialEqSpec<str>>::obeys_eq_spec(), <str as PartialEqSpec<String>>::obeys_eq_spec(), <String as PartialEqSpec<String>>::obeys_eq_spec(),
        forall|a: &String, b: &str| (#[trigger] <String as PartialEqSpec<str>>::eq_spec(a, b)) == (a@ == b@),
        forall|a: &str, b: &String| (#[trigger] <str as PartialEqSpec<String>>::eq_spec(a, b)) == (a@ == b@),
        forall|a: &String, b: &String| (#[trigger] <String as PartialEqSpec<String>>::eq_spec(a, b)) == (a@ == b@);
pub open spec fn trim_end_s(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && c_ws(s.last()) { trim_end_s(s.drop_last()) } else { s }
}
pub open spec fn trim_start_s(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && c_ws(s[0]) { trim_start_s(s.drop_first()) } else { s }
}
pub open spec fn trim_s(s: Seq<char>) -> Seq<char> { trim_start_s(trim_end_s(s)) }
pub open spec fn rep_s(s: Seq<char>, n: nat) -> Seq<char> decreases n {
    if n == 0 { Seq::empty() } else { rep_s(s, (n - 1) as nat) + s }
}
/// number of leading chars satisfying c == x
pub open spec fn lead_run(s: Seq<char>, x: char) -> nat decreases s.len() {
    if s.len() > 0 && s[0] == x { 1 + lead_run(s.drop_first(), x) } else { 0 }
}
pub open spec fn split_s(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else if s.last() == c { split_s(s.drop_last(), c).push(Seq::<char>::empty()) }
    else {
        let p = split_s(s.drop_last(), c);
        if p.len() == 0 { seq![seq![s.last()]] } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn split_2(s: Seq<char>, c: char, d: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else if s.last() == c || s.last() == d { split_2(s.drop_last(), c, d).push(Seq::<char>::empty()) }
    else {
        let p = split_2(s.drop_last(), c, d);
        if p.len() == 0 { seq![seq![s.last()]] } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
pub open spec fn strip_cr(s: Seq<char>) -> Seq<char> {
    if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s }
}
pub open spec fn lines_s(s: Seq<char>) -> Seq<Seq<char>> {
    let p = split_s(s, '\n');
    let q = if p.len() > 0 && p.last().len() == 0 { p.drop_last() } else { p };
    // every line that was terminated by \n (all but possibly the last) loses a trailing \r
    q.map(|i: int, l: Seq<char>| if i < p.len() - 1 { strip_cr(l) } else { l })
}
pub open spec fn join_s(v: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() }
    else if v.len() == 1 { v[0] }
    else { join_s(v.drop_last(), sep) + sep + v.last() }
}
pub open spec fn words_s(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if c_ws(s.last()) { words_s(s.drop_last()) }
    else {
        let p = words_s(s.drop_last());
        if s.len() >= 2 && !c_ws(s[s.len() - 2]) && p.len() > 0 { p.drop_last().push(p.last().push(s.last())) }
        else { p.push(seq![s.last()]) }
    }
}
pub open spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map(|i: int, x: &str| x@) }
pub broadcast proof fn lemma_views_at(v: Seq<&str>, i: int)
    requires 0 <= i < v.len(),
    ensures views(v)[i] == (#[trigger] v[i])@,
{}
pub open spec fn sviews(v: Seq<String>) -> Seq<Seq<char>> { v.map(|i: int, x: String| x@) }

pub uninterp spec fn str_width(s: Seq<char>) -> nat;
// AXIOMS on unicode_width (spot-checked by the harness, see trusted base)
pub broadcast axiom fn ax_width_empty()
    ensures #[trigger] str_width(Seq::<char>::empty()) == 0;
pub broadcast axiom fn ax_width_pad_right(s: Seq<char>, n: nat)
    ensures #[trigger] str_width(s + rep_s(seq![' '], n)) == str_width(s) + n;
pub broadcast axiom fn ax_width_pad_left(s: Seq<char>, n: nat)
    ensures #[trigger] str_width(rep_s(seq![' '], n) + s) == str_width(s) + n;
// a char is never wider than its UTF-8 form is long (U+17D8 has three columns)
pub broadcast axiom fn ax_width_bound(s: Seq<char>)
    ensures #[trigger] str_width(s) <= 4 * s.len();
pub broadcast group group_width { ax_width_empty, ax_width_pad_right, ax_width_pad_left, ax_width_bound }

pub trait HdPat {
    spec fn is_pre(&self, s: Seq<char>) -> bool;
    spec fn is_suf(&self, s: Seq<char>) -> bool;
    spec fn plen(&self) -> nat;
    spec fn occurs(&self, s: Seq<char>) -> bool;
}
impl HdPat for char {
    open spec fn is_pre(&self, s: Seq<char>) -> bool { s.len() > 0 && s[0] == *self }
    open spec fn is_suf(&self, s: Seq<char>) -> bool { s.len() > 0 && s.last() == *self }
    open spec fn plen(&self) -> nat { 1 }
    open spec fn occurs(&self, s: Seq<char>) -> bool { s.contains(*self) }
}
impl<'a> HdPat for &'a str {
    open spec fn is_pre(&self, s: Seq<char>) -> bool { s.len() >= self@.len() && s.take(self@.len() as int) == self@ }
    open spec fn is_suf(&self, s: Seq<char>) -> bool { s.len() >= self@.len() && s.skip(s.len() - self@.len()) == self@ }
    open spec fn plen(&self) -> nat { self@.len() }
    open spec fn occurs(&self, s: Seq<char>) -> bool { seq_occurs(s, self@) }
}
impl<'a> HdPat for &'a String {
    open spec fn is_pre(&self, s: Seq<char>) -> bool { s.len() >= self@.len() && s.take(self@.len() as int) == self@ }
    open spec fn is_suf(&self, s: Seq<char>) -> bool { s.len() >= self@.len() && s.skip(s.len() - self@.len()) == self@ }
    open spec fn plen(&self) -> nat { self@.len() }
    open spec fn occurs(&self, s: Seq<char>) -> bool { seq_occurs(s, self@) }
}
pub open spec fn seq_occurs(s: Seq<char>, p: Seq<char>) -> bool {
    exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p
}
pub trait HdPatExec: HdPat { 
    fn x_pre(&self, s: &str) -> bool; fn x_suf(&self, s: &str) -> bool; fn x_occ(&self, s: &str) -> bool;
    fn x_strip_pre<'s>(&self, s: &'s str) -> Option<&'s str>; fn x_strip_suf<'s>(&self, s: &'s str) -> Option<&'s str>;
}
impl HdPatExec for char {
    #[verifier::external_body] fn x_pre(&self, s: &str) -> bool { s.starts_with(*self) }
    #[verifier::external_body] fn x_suf(&self, s: &str) -> bool { s.ends_with(*self) }
    #[verifier::external_body] fn x_occ(&self, s: &str) -> bool { s.contains(*self) }
    #[verifier::external_body] fn x_strip_pre<'s>(&self, s: &'s str) -> Option<&'s str> { s.strip_prefix(*self) }
    #[verifier::external_body] fn x_strip_suf<'s>(&self, s: &'s str) -> Option<&'s str> { s.strip_suffix(*self) }
}
impl<'a> HdPatExec for &'a str {
    #[verifier::external_body] fn x_pre(&self, s: &str) -> bool { s.starts_with(*self) }
    #[verifier::external_body] fn x_suf(&self, s: &str) -> bool { s.ends_with(*self) }
    #[verifier::external_body] fn x_occ(&self, s: &str) -> bool { s.contains(*self) }
    #[verifier::external_body] fn x_strip_pre<'s>(&self, s: &'s str) -> Option<&'s str> { s.strip_prefix(*self) }
    #[verifier::external_body] fn x_strip_suf<'s>(&self, s: &'s str) -> Option<&'s str> { s.strip_suffix(*self) }
}
impl<'a> HdPatExec for &'a String {
    #[verifier::external_body] fn x_pre(&self, s: &str) -> bool { s.starts_with(self.as_str()) }
    #[verifier::external_body] fn x_suf(&self, s: &str) -> bool { s.ends_with(self.as_str()) }
    #[verifier::external_body] fn x_occ(&self, s: &str) -> bool { s.contains(self.as_str()) }
    #[verifier::external_body] fn x_strip_pre<'s>(&self, s: &'s str) -> Option<&'s str> { s.strip_prefix(self.as_str()) }
    #[verifier::external_body] fn x_strip_suf<'s>(&self, s: &'s str) -> Option<&'s str> { s.strip_suffix(self.as_str()) }
}

/// (proved) what has been taken grows by a character
pub fn hd_take_none(v: &Vec<char>) ensures v@.take(0) == Seq::<char>::empty() { assert(v@.take(0) =~= Seq::<char>::empty()); }
pub fn hd_take_more(v: &Vec<char>, k: usize) requires k < v@.len() ensures v@.take(k + 1) == v@.take(k as int).push(v@[k as int])
{ assert(v@.take(k + 1) =~= v@.take(k as int).push(v@[k as int])); }
pub trait HdHas<T> { spec fn has_s(&self, x: T) -> bool; fn hd_has(&self, x: T) -> (r: bool) ensures r == self.has_s(x); }
impl<'a> HdHas<&'a char> for [char; 2] {
    open spec fn has_s(&self, x: &'a char) -> bool { self@.contains(*x) }
    #[verifier::external_body] fn hd_has(&self, x: &'a char) -> (r: bool) { self.contains(x) }
}
/// a pattern that stands for one of a set of characters
pub trait HdSet {
    spec fn trim_end(&self, s: Seq<char>) -> Seq<char>;
    spec fn trim_start(&self, s: Seq<char>) -> Seq<char>;
    spec fn split(&self, s: Seq<char>) -> Seq<Seq<char>>;
}
impl HdSet for char {
    open spec fn trim_end(&self, s: Seq<char>) -> Seq<char> { trim_end_c(s, *self) }
    open spec fn trim_start(&self, s: Seq<char>) -> Seq<char> { trim_start_c(s, *self) }
    open spec fn split(&self, s: Seq<char>) -> Seq<Seq<char>> { split_s(s, *self) }
}
impl HdSet for [char; 2] {
    open spec fn trim_end(&self, s: Seq<char>) -> Seq<char> { trim_end_2(s, self@[0], self@[1]) }
    open spec fn trim_start(&self, s: Seq<char>) -> Seq<char> { trim_start_2(s, self@[0], self@[1]) }
    open spec fn split(&self, s: Seq<char>) -> Seq<Seq<char>> { split_2(s, self@[0], self@[1]) }
}
pub open spec fn trim_end_2(s: Seq<char>, c: char, d: char) -> Seq<char> decreases s.len() {
    if s.len() > 0 && (s.last() == c || s.last() == d) { trim_end_2(s.drop_last(), c, d) } else { s }
}
pub open spec fn trim_start_2(s: Seq<char>, c: char, d: char) -> Seq<char> decreases s.len() {
    if s.len() > 0 && (s[0] == c || s[0] == d) { trim_start_2(s.drop_first(), c, d) } else { s }
}
/// position of the first c (the length if there is none)
pub open spec fn first_ix(s: Seq<char>, c: char) -> int decreases s.len() {
    if s.len() == 0 || s[0] == c { 0 } else { 1 + first_ix(s.skip(1), c) }
}
pub proof fn lemma_first_ix(s: Seq<char>, c: char)
    ensures
        0 <= first_ix(s, c) <= s.len(), (first_ix(s, c) < s.len()) == s.contains(c),
        first_ix(s, c) < s.len() ==> s[first_ix(s, c)] == c,
        forall|i: int| 0 <= i < first_ix(s, c) ==> s[i] != c,
    decreases s.len(),
{
    if s.len() > 0 && s[0] != c {
        let t = s.skip(1);
        lemma_first_ix(t, c);
        assert forall|i: int| 0 <= i < first_ix(s, c) implies s[i] != c by { if i > 0 { assert(s[i] == t[i - 1]); } }
        if s.contains(c) { let j = choose|j: int| 0 <= j < s.len() && s[j] == c; assert(t[j - 1] == c); }
        if t.contains(c) { let j = choose|j: int| 0 <= j < t.len() && t[j] == c; assert(s[j + 1] == c); }
    }
}
/// what follows each c, from left to right
pub open spec fn tails_s(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == c { seq![s.skip(1)] + tails_s(s.skip(1), c) }
    else { tails_s(s.skip(1), c) }
}
/// std::str::Chars: what is left to read
#[verifier::external_body]
pub struct HdIter<'a> { it: std::str::Chars<'a> }
impl<'a> View for HdIter<'a> { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl<'a> HdIter<'a> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>)
        ensures
            old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1),
    { self.it.next() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'a str) ensures r@ == self@ { self.it.as_str() }
}
pub open spec fn hexd(n: int) -> char { if n < 10 { (('0' as u32 + n as u32) as u8) as char } else { (('A' as u32 + (n as u32 - 10)) as u8) as char } }
pub open spec fn hex2_s(n: int) -> Seq<char> { seq![hexd(n / 16), hexd(n % 16)] }
#[verifier::external_body]
pub fn hd_hex2(n: u32) -> (r: String) ensures n < 256 ==> r@ == hex2_s(n as int) { format!("{:02X}", n) }
/// every c replaced by a text
pub open spec fn repl_s(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { (if s[0] == c { by } else { seq![s[0]] }) + repl_s(s.skip(1), c, by) }
}
/// every p (which is not empty) replaced by a text, from left to right
pub open spec fn repl_str(s: Seq<char>, p: Seq<char>, by: Seq<char>) -> Seq<char> decreases s.len() {
    if p.len() == 0 || s.len() == 0 { s } else if s.len() >= p.len() && s.take(p.len() as int) == p { by + repl_str(s.skip(p.len() as int), p, by) } else { seq![s[0]] + repl_str(s.skip(1), p, by) }
}
pub uninterp spec fn repl_any(s: Seq<char>, p: Seq<char>, by: Seq<char>) -> Seq<char>;
pub trait HdRepl { spec fn repl(&self, s: Seq<char>, by: Seq<char>) -> Seq<char>; }
impl HdRepl for char { open spec fn repl(&self, s: Seq<char>, by: Seq<char>) -> Seq<char> { repl_s(s, *self, by) } }
impl<'a> HdRepl for &'a str { open spec fn repl(&self, s: Seq<char>, by: Seq<char>) -> Seq<char> { if self@.len() == 0 { repl_any(s, self@, by) } else { repl_str(s, self@, by) } } }
pub uninterp spec fn lower_s(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper_s(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn u64_s(s: Seq<char>) -> Option<u64>;
pub trait HdStr {
    spec fn sv(&self) -> Seq<char>;
    fn hd_from(&self, a: usize) -> (r: &str)
        requires on_char(self.sv(), a as int),
        ensures r@ == self.sv().skip(byte_k(self.sv(), a as int));
    fn hd_to(&self, b: usize) -> (r: &str)
        requires on_char(self.sv(), b as int),
        ensures r@ == self.sv().take(byte_k(self.sv(), b as int));
    fn hd_between(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, on_char(self.sv(), a as int), on_char(self.sv(), b as int),
        ensures r@ == self.sv().subrange(byte_k(self.sv(), a as int), byte_k(self.sv(), b as int));
    fn hd_chars(&self) -> (r: Vec<char>) ensures r@ == self.sv(), r@.len() <= 0x7fff_ffff_ffff_ffff;
    fn hd_chars_rev(&self) -> (r: Vec<char>) ensures r@ == self.sv().reverse(), r@.len() <= 0x7fff_ffff_ffff_ffff;
    fn hd_first_char(&self) -> (r: Option<char>) ensures r == (if self.sv().len() > 0 { Some(self.sv()[0]) } else { None::<char> });
    fn hd_last_char(&self) -> (r: Option<char>) ensures r == (if self.sv().len() > 0 { Some(self.sv().last()) } else { None::<char> });
    fn hd_char_count(&self) -> (r: usize) ensures r == self.sv().len();
    fn hd_trim(&self) -> (r: &str) ensures r@ == trim_s(self.sv());
    fn hd_trim_end(&self) -> (r: &str) ensures r@ == trim_end_s(self.sv());
    fn hd_trim_start(&self) -> (r: &str) ensures r@ == trim_start_s(self.sv());
    fn hd_trim_end_matches<P: HdSet>(&self, c: P) -> (r: &str) ensures r@ == c.trim_end(self.sv());
    fn hd_trim_start_matches<P: HdSet>(&self, c: P) -> (r: &str) ensures r@ == c.trim_start(self.sv());
    fn hd_trim_matches<P: HdSet>(&self, c: P) -> (r: &str) ensures r@ == c.trim_start(c.trim_end(self.sv()));
    fn hd_split<P: HdSet>(&self, c: P) -> (r: Vec<&str>) ensures views(r@) == c.split(self.sv()), r@.len() >= 1;
    fn hd_iter(&self) -> (r: HdIter<'_>) ensures r@ == self.sv();
    fn hd_tails(&self, c: char) -> (r: Vec<&str>) requires c_ascii(c), ensures views(r@) == tails_s(self.sv(), c);
    fn hd_split_once(&self, c: char) -> (r: Option<(&str, &str)>)
        ensures
            r.is_some() == (first_ix(self.sv(), c) < self.sv().len()),
            r.is_some() ==> (r->0).0@ == self.sv().take(first_ix(self.sv(), c)) && (r->0).1@ == self.sv().skip(first_ix(self.sv(), c) + 1);
    fn hd_replace<P: HdRepl>(&self, c: P, by: &str) -> (r: String) ensures r@ == c.repl(self.sv(), by@);
    fn hd_to_lowercase(&self) -> (r: String) ensures r@ == lower_s(self.sv());
    fn hd_to_uppercase(&self) -> (r: String) ensures r@ == upper_s(self.sv());
    fn hd_parse_u64(&self) -> (r: Option<u64>) ensures r == u64_s(self.sv());
    fn hd_lines(&self) -> (r: Vec<&str>) ensures views(r@) == lines_s(self.sv());
    fn hd_split_ws(&self) -> (r: Vec<&str>) ensures views(r@) == words_s(self.sv());
    fn hd_repeat(&self, n: usize) -> (r: String) ensures r@ == rep_s(self.sv(), n as nat);
    fn hd_width(&self) -> (r: usize) ensures r == str_width(self.sv()), r <= 0x7fff_ffff_ffff_ffff, self.sv().len() <= 0x7fff_ffff_ffff_ffff;
    fn hd_starts_with<P: HdPatExec>(&self, p: P) -> (r: bool) ensures r == p.is_pre(self.sv());
    fn hd_ends_with<P: HdPatExec>(&self, p: P) -> (r: bool) ensures r == p.is_suf(self.sv());
    fn hd_contains<P: HdPatExec>(&self, p: P) -> (r: bool) ensures r == p.occurs(self.sv());
    fn hd_strip_prefix<P: HdPatExec>(&self, p: P) -> (r: Option<&str>)
        ensures r.is_some() == p.is_pre(self.sv()), r.is_some() ==> r->0@ == self.sv().skip(p.plen() as int);
    fn hd_strip_suffix<P: HdPatExec>(&self, p: P) -> (r: Option<&str>)
        ensures r.is_some() == p.is_suf(self.sv()), r.is_some() ==> r->0@ == self.sv().take(self.sv().len() - p.plen());
}
impl HdStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn hd_from(&self, a: usize) -> (r: &str) { &self[a..] }
    #[verifier::external_body] fn hd_to(&self, b: usize) -> (r: &str) { &self[..b] }
    #[verifier::external_body] fn hd_between(&self, a: usize, b: usize) -> (r: &str) { &self[a..b] }
    #[verifier::external_body] fn hd_chars(&self) -> (r: Vec<char>) { self.chars().collect() }
    #[verifier::external_body] fn hd_chars_rev(&self) -> (r: Vec<char>) { self.chars().rev().collect() }
    #[verifier::external_body] fn hd_first_char(&self) -> (r: Option<char>) { self.chars().next() }
    #[verifier::external_body] fn hd_last_char(&self) -> (r: Option<char>) { self.chars().last() }
    #[verifier::external_body] fn hd_char_count(&self) -> (r: usize) { self.chars().count() }
    #[verifier::external_body] fn hd_trim(&self) -> (r: &str) { self.trim() }
    #[verifier::external_body] fn hd_trim_end(&self) -> (r: &str) { self.trim_end() }
    #[verifier::external_body] fn hd_trim_start(&self) -> (r: &str) { self.trim_start() }
    #[verifier::external_body] fn hd_trim_end_matches<P: HdSet>(&self, c: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn hd_trim_start_matches<P: HdSet>(&self, c: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn hd_trim_matches<P: HdSet>(&self, c: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn hd_split<P: HdSet>(&self, c: P) -> (r: Vec<&str>) { unimplemented!() }
    #[verifier::external_body] fn hd_iter(&self) -> (r: HdIter<'_>) { HdIter { it: self.chars() } }
    #[verifier::external_body] fn hd_tails(&self, c: char) -> (r: Vec<&str>) { self.match_indices(c).map(|(i, _)| &self[i + 1..]).collect() }
    #[verifier::external_body] fn hd_split_once(&self, c: char) -> (r: Option<(&str, &str)>) { self.split_once(c) }
    #[verifier::external_body] fn hd_replace<P: HdRepl>(&self, c: P, by: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn hd_to_lowercase(&self) -> (r: String) { self.to_lowercase() }
    #[verifier::external_body] fn hd_to_uppercase(&self) -> (r: String) { self.to_uppercase() }
    #[verifier::external_body] fn hd_parse_u64(&self) -> (r: Option<u64>) { self.parse().ok() }
    #[verifier::external_body] fn hd_lines(&self) -> (r: Vec<&str>) { self.lines().collect() }
    #[verifier::external_body] fn hd_split_ws(&self) -> (r: Vec<&str>) { self.split_whitespace().collect() }
    #[verifier::external_body] fn hd_repeat(&self, n: usize) -> (r: String) { self.repeat(n) }
    #[verifier::external_body] fn hd_width(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn hd_starts_with<P: HdPatExec>(&self, p: P) -> (r: bool) { p.x_pre(self) }
    #[verifier::external_body] fn hd_ends_with<P: HdPatExec>(&self, p: P) -> (r: bool) { p.x_suf(self) }
    #[verifier::external_body] fn hd_contains<P: HdPatExec>(&self, p: P) -> (r: bool) { p.x_occ(self) }
    #[verifier::external_body] fn hd_strip_prefix<P: HdPatExec>(&self, p: P) -> (r: Option<&str>) { p.x_strip_pre(self) }
    #[verifier::external_body] fn hd_strip_suffix<P: HdPatExec>(&self, p: P) -> (r: Option<&str>) { p.x_strip_suf(self) }
}
pub trait HdFmt {
    spec fn fmt_s(&self) -> Seq<char>;
    fn hd_fmt(&self) -> (r: String) ensures r@ == self.fmt_s();
}
impl HdFmt for str {
    open spec fn fmt_s(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn hd_fmt(&self) -> (r: String) { self.to_string() }
}
impl HdFmt for String {
    open spec fn fmt_s(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn hd_fmt(&self) -> (r: String) { self.clone() }
}
impl HdFmt for char {
    open spec fn fmt_s(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn hd_fmt(&self) -> (r: String) { self.to_string() }
}
pub open spec fn dec_s(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![(('0' as u32 + n as u32) as u8) as char] } else { dec_s(n / 10).push((('0' as u32 + (n % 10) as u32) as u8) as char) }
}
impl HdFmt for usize {
    open spec fn fmt_s(&self) -> Seq<char> { dec_s(*self as nat) }
    #[verifier::external_body] fn hd_fmt(&self) -> (r: String) { self.to_string() }
}
#[verifier::external_body]
pub fn hd_string_from(s: &str) -> (r: String) ensures r@ == s@ { String::from(s) }
#[verifier::external_body]
pub fn hd_opaque_string() -> (r: String) { String::new() }
#[verifier::external_body]
pub fn hd_vec_repeat<T: Copy>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> r@[i] == x
{ vec![x; n] }
#[verifier::external_body]
pub fn hd_str_join(v: &Vec<&str>, sep: &str) -> (r: String) ensures r@ == join_s(views(v@), sep@) { v.join(sep) }
pub trait HdJoin { spec fn parts(&self) -> Seq<Seq<char>>; fn hd_join(&self, sep: &str) -> (r: String) ensures r@ == join_s(self.parts(), sep@); }
impl<'a> HdJoin for Vec<&'a str> {
    open spec fn parts(&self) -> Seq<Seq<char>> { views(self@) }
    #[verifier::external_body] fn hd_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}
impl HdJoin for Vec<String> {
    open spec fn parts(&self) -> Seq<Seq<char>> { sviews(self@) }
    #[verifier::external_body] fn hd_join(&self, sep: &str) -> (r: String) { self.join(sep) }
}
pub assume_specification<T: Copy> [Option::<&T>::copied] (_0: Option<&T>) -> (r: Option<T>)
    ensures r == (match _0 { Some(x) => Some(*x), None => None::<T> });

#[verifier::external_body]
pub fn hd_string_of(v: &[char]) -> (r: String) ensures r@ == v@ { v.iter().collect() }
#[verifier::external_body]
pub fn hd_repeat_char(c: char, n: usize) -> (r: String) ensures r@ == rep_s(seq![c], n as nat) { std::iter::repeat_n(c, n).collect() }
pub open spec fn trim_end_c(s: Seq<char>, c: char) -> Seq<char> decreases s.len() {
    if s.len() > 0 && s.last() == c { trim_end_c(s.drop_last(), c) } else { s }
}
pub open spec fn trim_start_c(s: Seq<char>, c: char) -> Seq<char> decreases s.len() {
    if s.len() > 0 && s[0] == c { trim_start_c(s.drop_first(), c) } else { s }
}
#[verifier::external_body]
pub fn hd_truncate_end(s: &mut String, c: char) ensures final(s)@ == trim_end_c(old(s)@, c) { s.truncate(s.trim_end_matches(c).len()) }
#[verifier::external_body]
pub fn hd_first_of<'a>(v: &Vec<&'a str>) -> (r: Option<&'a str>) ensures r == (if v@.len() > 0 { Some(v@[0]) } else { None::<&'a str> }) { v.first().copied() }
pub fn hd_max(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
pub trait HdDeref { spec fn dv(&self) -> Option<Seq<char>>; fn hd_as_deref(&self) -> (r: Option<&str>) ensures r.is_some() == self.dv().is_some(), r.is_some() ==> r->0@ == self.dv()->0; }
impl HdDeref for Option<String> {
    open spec fn dv(&self) -> Option<Seq<char>> { match self { Some(x) => Some(x@), None => None } }
    #[verifier::external_body] fn hd_as_deref(&self) -> (r: Option<&str>) { self.as_deref() }
}
