global size_of usize == 8;
// Character classes.  c_ws and the c_a* classes are defined concretely (checked against
// std for every char by the harness' shim test); c_alpha/c_alnum/c_upper/c_lower/c_numeric are
// uninterpreted with the axioms below.
pub open spec fn c_ws(c: char) -> bool {
    ('\t' <= c && c <= '\r') || c == ' ' || c == '\u{85}' || c == '\u{a0}' || c == '\u{1680}'
    || ('\u{2000}' <= c && c <= '\u{200a}') || c == '\u{2028}' || c == '\u{2029}' || c == '\u{202f}'
    || c == '\u{205f}' || c == '\u{3000}'
}
pub open spec fn c_adigit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn c_aupper(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn c_alower(c: char) -> bool { 'a' <= c && c <= 'z' }
pub open spec fn c_aalpha(c: char) -> bool { c_aupper(c) || c_alower(c) }
pub open spec fn c_aalnum(c: char) -> bool { c_aalpha(c) || c_adigit(c) }
pub open spec fn c_apunct(c: char) -> bool {
    ('!' <= c && c <= '/') || (':' <= c && c <= '@') || ('[' <= c && c <= '`') || ('{' <= c && c <= '~')
}
pub open spec fn c_agraphic(c: char) -> bool { '!' <= c && c <= '~' }
pub open spec fn c_acontrol(c: char) -> bool { c <= '\u{1f}' || c == '\u{7f}' }
pub open spec fn c_ascii(c: char) -> bool { c <= '\u{7f}' }
pub uninterp spec fn c_alpha(c: char) -> bool;
pub uninterp spec fn c_numeric(c: char) -> bool;
pub uninterp spec fn c_upper(c: char) -> bool;
pub uninterp spec fn c_lower(c: char) -> bool;
pub uninterp spec fn c_control(c: char) -> bool;
pub open spec fn c_alnum(c: char) -> bool { c_alpha(c) || c_numeric(c) }

// AXIOM (checked exhaustively over all chars by the harness): the ASCII part of the Unicode classes.
pub broadcast axiom fn ax_alpha_ascii(c: char)
    requires c_ascii(c),
    ensures #[trigger] c_alpha(c) == c_aalpha(c);
pub broadcast axiom fn ax_numeric_ascii(c: char)
    requires c_ascii(c),
    ensures #[trigger] c_numeric(c) == c_adigit(c);
pub broadcast axiom fn ax_upper_ascii(c: char)
    requires c_ascii(c),
    ensures #[trigger] c_upper(c) == c_aupper(c);
pub broadcast axiom fn ax_lower_ascii(c: char)
    requires c_ascii(c),
    ensures #[trigger] c_lower(c) == c_alower(c);
// AXIOM (checked exhaustively): letters and numbers are never white space.
pub broadcast axiom fn ax_alnum_not_ws(c: char)
    ensures #[trigger] c_ws(c) ==> !c_alpha(c) && !c_numeric(c);
pub broadcast group group_chars { ax_alpha_ascii, ax_numeric_ascii, ax_upper_ascii, ax_lower_ascii, ax_alnum_not_ws }

pub trait HdChar: Sized {
    spec fn ch(&self) -> char;
    fn hd_is_whitespace(&self) -> (r: bool) ensures r == c_ws(self.ch());
    fn hd_is_alphabetic(&self) -> (r: bool) ensures r == c_alpha(self.ch());
    fn hd_is_alphanumeric(&self) -> (r: bool) ensures r == c_alnum(self.ch());
    fn hd_is_numeric(&self) -> (r: bool) ensures r == c_numeric(self.ch());
    fn hd_is_uppercase(&self) -> (r: bool) ensures r == c_upper(self.ch());
    fn hd_is_lowercase(&self) -> (r: bool) ensures r == c_lower(self.ch());
    fn hd_is_control(&self) -> (r: bool) ensures r == c_control(self.ch());
    fn hd_is_ascii(&self) -> (r: bool) ensures r == c_ascii(self.ch());
    fn hd_is_ascii_digit(&self) -> (r: bool) ensures r == c_adigit(self.ch());
    fn hd_is_ascii_alphabetic(&self) -> (r: bool) ensures r == c_aalpha(self.ch());
    fn hd_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == c_aalnum(self.ch());
    fn hd_is_ascii_punctuation(&self) -> (r: bool) ensures r == c_apunct(self.ch());
    fn hd_is_ascii_uppercase(&self) -> (r: bool) ensures r == c_aupper(self.ch());
    fn hd_is_ascii_lowercase(&self) -> (r: bool) ensures r == c_alower(self.ch());
    fn hd_is_ascii_graphic(&self) -> (r: bool) ensures r == c_agraphic(self.ch());
    fn hd_is_ascii_control(&self) -> (r: bool) ensures r == c_acontrol(self.ch());
}
impl HdChar for char {
    open spec fn ch(&self) -> char { *self }
    #[verifier::external_body] fn hd_is_whitespace(&self) -> (r: bool) { self.is_whitespace() }
    #[verifier::external_body] fn hd_is_alphabetic(&self) -> (r: bool) { self.is_alphabetic() }
    #[verifier::external_body] fn hd_is_alphanumeric(&self) -> (r: bool) { self.is_alphanumeric() }
    #[verifier::external_body] fn hd_is_numeric(&self) -> (r: bool) { self.is_numeric() }
    #[verifier::external_body] fn hd_is_uppercase(&self) -> (r: bool) { self.is_uppercase() }
    #[verifier::external_body] fn hd_is_lowercase(&self) -> (r: bool) { self.is_lowercase() }
    #[verifier::external_body] fn hd_is_control(&self) -> (r: bool) { self.is_control() }
    #[verifier::external_body] fn hd_is_ascii(&self) -> (r: bool) { self.is_ascii() }
    #[verifier::external_body] fn hd_is_ascii_digit(&self) -> (r: bool) { self.is_ascii_digit() }
    #[verifier::external_body] fn hd_is_ascii_alphabetic(&self) -> (r: bool) { self.is_ascii_alphabetic() }
    #[verifier::external_body] fn hd_is_ascii_alphanumeric(&self) -> (r: bool) { self.is_ascii_alphanumeric() }
    #[verifier::external_body] fn hd_is_ascii_punctuation(&self) -> (r: bool) { self.is_ascii_punctuation() }
    #[verifier::external_body] fn hd_is_ascii_uppercase(&self) -> (r: bool) { self.is_ascii_uppercase() }
    #[verifier::external_body] fn hd_is_ascii_lowercase(&self) -> (r: bool) { self.is_ascii_lowercase() }
    #[verifier::external_body] fn hd_is_ascii_graphic(&self) -> (r: bool) { self.is_ascii_graphic() }
    #[verifier::external_body] fn hd_is_ascii_control(&self) -> (r: bool) { self.is_ascii_control() }
}
pub trait HdToVec { spec fn tv(&self) -> Seq<char>; fn hd_to_vec(&self) -> (r: Vec<char>) ensures r@ == self.tv(); }
impl HdToVec for [char] {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn hd_to_vec(&self) -> (r: Vec<char>) { self.to_vec() }
}
impl HdToVec for Vec<char> {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn hd_to_vec(&self) -> (r: Vec<char>) { self.clone() }
}
#[verifier::external_body]
pub fn hd_chars_eq<A: HdToVec + ?Sized, B: HdToVec + ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == (a.tv() == b.tv()) { unimplemented!() }
