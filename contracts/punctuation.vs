%% source src/serializer/punctuation.rs
%% lib chars strs
%% method to_vec => hd_to_vec
%% item STRAIGHT_DOUBLE_QUOTE
%% item LEFT_DOUBLE_QUOTE
%% item RIGHT_DOUBLE_QUOTE
%% item STRAIGHT_SINGLE_QUOTE
%% item LEFT_SINGLE_QUOTE
%% item RIGHT_SINGLE_QUOTE
%% item ELLIPSIS
%% item EN_DASH
%% item EM_DASH
%% raw
// ---------------------------------------------------------------- ellipsis
pub open spec fn dots3(s: Seq<char>) -> bool { s.len() >= 3 && s[0] == '.' && s[1] == '.' && s[2] == '.' }
/// Left to right: a run of exactly three periods is an ellipsis, a fourth period stays a period.
pub open spec fn ell_s(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if dots3(s) {
        if s.len() > 3 && s[3] == '.' { seq!['\u{2026}', '.'] + ell_s(s.skip(4)) }
        else { seq!['\u{2026}'] + ell_s(s.skip(3)) }
    } else { seq![s[0]] + ell_s(s.skip(1)) }
}
/// the text with every ellipsis character spelt out
pub open spec fn unell(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == '\u{2026}' { seq!['.', '.', '.'] + unell(s.skip(1)) }
    else { seq![s[0]] + unell(s.skip(1)) }
}
pub proof fn lemma_unell_app(a: Seq<char>, b: Seq<char>)
    ensures unell(a + b) == unell(a) + unell(b),
    decreases a.len(),
{
    if a.len() == 0 { assert(a + b =~= b); assert(unell(a) + unell(b) =~= unell(b)); }
    else {
        lemma_unell_app(a.skip(1), b);
        assert((a + b).skip(1) =~= a.skip(1) + b);
        if a[0] == '\u{2026}' {
            assert(unell(a + b) =~= seq!['.', '.', '.'] + (unell(a.skip(1)) + unell(b)));
            assert(unell(a) + unell(b) =~= seq!['.', '.', '.'] + (unell(a.skip(1)) + unell(b)));
        } else {
            assert(unell(a + b) =~= seq![a[0]] + (unell(a.skip(1)) + unell(b)));
            assert(unell(a) + unell(b) =~= seq![a[0]] + (unell(a.skip(1)) + unell(b)));
        }
    }
}
pub proof fn lemma_unell_plain(a: Seq<char>)
    requires forall|k: int| 0 <= k < a.len() ==> a[k] != '\u{2026}',
    ensures unell(a) == a,
    decreases a.len(),
{
    if a.len() > 0 { lemma_unell_plain(a.skip(1)); assert(seq![a[0]] + a.skip(1) =~= a); }
}
/// C07: nothing but periods and ellipses changes, and no period is lost or added.
pub proof fn lemma_ell_frame(s: Seq<char>)
    ensures unell(ell_s(s)) == unell(s),
    decreases s.len(),
{
    if s.len() == 0 {
    } else if dots3(s) {
        let n: int = if s.len() > 3 && s[3] == '.' { 4 } else { 3 };
        let h: Seq<char> = if n == 4 { seq!['\u{2026}', '.'] } else { seq!['\u{2026}'] };
        lemma_ell_frame(s.skip(n));
        lemma_unell_app(h, ell_s(s.skip(n)));
        reveal_with_fuel(unell, 3);
        assert(h.skip(1) =~= if n == 4 { seq!['.'] } else { Seq::<char>::empty() });
        assert(seq!['.'].skip(1) =~= Seq::<char>::empty());
        assert(unell(h) =~= s.take(n));
        lemma_unell_plain(s.take(n));
        lemma_unell_app(s.take(n), s.skip(n));
        assert(s.take(n) + s.skip(n) =~= s);
    } else {
        lemma_ell_frame(s.skip(1));
        lemma_unell_app(seq![s[0]], ell_s(s.skip(1)));
        lemma_unell_app(seq![s[0]], s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
/// Text without three periods in a row is unchanged.
pub open spec fn has3(s: Seq<char>) -> bool { exists|k: int| 0 <= k && k + 3 <= s.len() && #[trigger] dots3(s.skip(k)) }
pub proof fn lemma_ell_id(s: Seq<char>)
    requires !has3(s),
    ensures ell_s(s) == s,
    decreases s.len(),
{
    if s.len() > 0 {
        assert(s.skip(0) =~= s);
        assert(!dots3(s)) by { if dots3(s) { assert(dots3(s.skip(0))); } }
        assert forall|k: int| 0 <= k && k + 3 <= s.skip(1).len() implies !#[trigger] dots3(s.skip(1).skip(k)) by {
            assert(s.skip(1).skip(k) =~= s.skip(k + 1));
        }
        lemma_ell_id(s.skip(1));
        assert(seq![s[0]] + s.skip(1) =~= s);
    }
}
/// A run of exactly three periods becomes exactly one ellipsis, whatever stands around it.
pub proof fn lemma_ell_run3(a: Seq<char>, b: Seq<char>)
    requires a.len() == 0 || a.last() != '.', b.len() == 0 || b[0] != '.',
    ensures ell_s(a + seq!['.', '.', '.'] + b) == ell_s(a) + seq!['\u{2026}'] + ell_s(b),
    decreases a.len(),
{
    let d = seq!['.', '.', '.'];
    let s = a + d + b;
    if a.len() == 0 {
        assert(s =~= d + b);
        assert(s.skip(3) =~= b);
        assert(ell_s(a) + seq!['\u{2026}'] + ell_s(b) =~= seq!['\u{2026}'] + ell_s(b));
    } else if dots3(a) {
        let n: int = if a.len() > 3 && a[3] == '.' { 4 } else { 3 };
        assert(a.len() > 3);
        assert(s[3] == a[3]);
        lemma_ell_run3(a.skip(n), b);
        assert(s.skip(n) =~= a.skip(n) + d + b);
        assert(ell_s(s) =~= ell_s(a) + seq!['\u{2026}'] + ell_s(b));
    } else {
        assert(!dots3(s)) by {
            if dots3(s) {
                assert(s[0] == a[0]);
                if a.len() >= 2 { assert(s[1] == a[1]); }
                if a.len() >= 3 { assert(s[2] == a[2]); }
            }
        }
        lemma_ell_run3(a.skip(1), b);
        assert(s.skip(1) =~= a.skip(1) + d + b);
        assert(ell_s(s) =~= ell_s(a) + seq!['\u{2026}'] + ell_s(b));
    }
}
// ---------------------------------------------------------------- quotation marks
pub open spec fn opens_before(c: char) -> bool {
    c_ws(c) || c == '(' || c == '[' || c == '{' || c == '\u{201C}' || c == '\u{2018}'
}
pub open spec fn closes_after(c: char) -> bool {
    c_ws(c) || c == '.' || c == ',' || c == ';' || c == ':' || c == '!' || c == '?' || c == ')' || c == ']' || c == '}'
}
pub open spec fn left_free(t: Seq<char>, i: int) -> bool { i == 0 || opens_before(t[i - 1]) }
pub open spec fn right_free(t: Seq<char>, i: int) -> bool { i + 1 == t.len() || closes_after(t[i + 1]) }
pub open spec fn is_open(t: Seq<char>, i: int, expecting: bool) -> bool {
    if left_free(t, i) && !right_free(t, i) { true }
    else if right_free(t, i) && !left_free(t, i) { false }
    else { expecting }
}
/// Would an undecided quotation mark at k open?  Yes unless the last straight one before it was opened.
pub open spec fn expects_open(t: Seq<char>, r: Seq<char>, k: int) -> bool decreases k {
    if k <= 0 { true } else if t[k - 1] == '"' { r[k - 1] != '\u{201C}' } else { expects_open(t, r, k - 1) }
}
pub proof fn lemma_expects_stable(t: Seq<char>, r: Seq<char>, r2: Seq<char>, k: int)
    requires 0 <= k <= r.len(), k <= t.len(), r.len() <= r2.len(), r2.take(r.len() as int) == r,
    ensures expects_open(t, r, k) == expects_open(t, r2, k),
    decreases k,
{
    if k > 0 {
        assert(r2.take(r.len() as int)[k - 1] == r2[k - 1]);
        lemma_expects_stable(t, r, r2, k - 1);
    }
}
/// r is t with some occurrences of x replaced by a or b
pub open spec fn only(t: Seq<char>, r: Seq<char>, x: char, a: char, b: char) -> bool {
    r.len() == t.len() && forall|k: int| 0 <= k < t.len() ==> #[trigger] r[k] == t[k] || t[k] == x && (r[k] == a || r[k] == b)
}
pub open spec fn letter(t: Seq<char>, k: int) -> bool { 0 <= k < t.len() && c_alpha(t[k]) }
pub open spec fn alnum(t: Seq<char>, k: int) -> bool { 0 <= k < t.len() && c_alnum(t[k]) }
pub open spec fn double_rel(t: Seq<char>, r: Seq<char>) -> bool {
    only(t, r, '"', '\u{201C}', '\u{201D}')
    && forall|k: int| 0 <= k < t.len() && t[k] == '"'
        ==> #[trigger] r[k] == (if is_open(t, k, expects_open(t, r, k)) { '\u{201C}' } else { '\u{201D}' })
}
pub open spec fn single_rel(t: Seq<char>, r: Seq<char>) -> bool {
    only(t, r, '\'', '\u{2018}', '\u{2019}')
    && forall|k: int| 0 <= k < t.len() && t[k] == '\'' && letter(t, k - 1) && letter(t, k + 1) ==> #[trigger] r[k] == '\''
}
pub open spec fn apos_rel(t: Seq<char>, r: Seq<char>) -> bool {
    only(t, r, '\'', '\u{2019}', '\u{2019}')
    && forall|k: int| 0 <= k < t.len() && t[k] == '\'' && alnum(t, k - 1) && alnum(t, k + 1) ==> #[trigger] r[k] == '\u{2019}'
}
// ---------------------------------------------------------------- dashes
pub open spec fn at(s: Seq<char>, i: int, p: Seq<char>) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn dash_at(s: Seq<char>, i: int, p: Seq<char>) -> bool {
    at(s, i, p) && (p.len() > 1
        || ((i == 0 || c_ws(s[i - 1])) && (i + p.len() >= s.len() || c_ws(s[i + p.len()]))))
}
/// Left to right from i: every pattern that stands where the rule allows it, once.
pub open spec fn dash_s(s: Seq<char>, i: int, p: Seq<char>, c: char) -> Seq<char> decreases s.len() - i when p.len() > 0 {
    if i < 0 || i >= s.len() { Seq::empty() }
    else if dash_at(s, i, p) { seq![c] + dash_s(s, i + p.len(), p, c) }
    else { seq![s[i]] + dash_s(s, i + 1, p, c) }
}
/// C08: text without the pattern is unchanged.
pub proof fn lemma_dash_id(s: Seq<char>, i: int, p: Seq<char>, c: char)
    requires p.len() > 0, 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> !#[trigger] at(s, k, p),
    ensures dash_s(s, i, p, c) == s.skip(i),
    decreases s.len() - i,
{
    if i < s.len() {
        assert(!at(s, i, p));
        lemma_dash_id(s, i + 1, p, c);
        assert(seq![s[i]] + s.skip(i + 1) =~= s.skip(i));
    } else { assert(s.skip(i) =~= Seq::<char>::empty()); }
}
/// C08: replacing each new dash by the pattern gives the text back (nothing else changes).
pub open spec fn undash(r: Seq<char>, p: Seq<char>, c: char) -> Seq<char> decreases r.len() {
    if r.len() == 0 { Seq::empty() }
    else { (if r[0] == c { p } else { seq![r[0]] }) + undash(r.skip(1), p, c) }
}
pub proof fn lemma_undash(s: Seq<char>, i: int, p: Seq<char>, c: char)
    requires p.len() > 0, 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> s[k] != c,
    ensures undash(dash_s(s, i, p, c), p, c) == s.skip(i),
    decreases s.len() - i,
{
    let r = dash_s(s, i, p, c);
    if i >= s.len() { assert(s.skip(i) =~= Seq::<char>::empty()); }
    else if dash_at(s, i, p) {
        lemma_undash(s, i + p.len(), p, c);
        assert(r.skip(1) =~= dash_s(s, i + p.len(), p, c));
        assert(p + s.skip(i + p.len()) =~= s.skip(i)) by { assert(s.subrange(i, i + p.len()) + s.skip(i + p.len()) =~= s.skip(i)); }
    } else {
        lemma_undash(s, i + 1, p, c);
        assert(r.skip(1) =~= dash_s(s, i + 1, p, c));
        assert(seq![s[i]] + s.skip(i + 1) =~= s.skip(i));
    }
}
// the derived equality of DashPattern (a newtype around String)
impl vstd::std_specs::cmp::PartialEqSpecImpl for DashPattern {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { self.0@ == other.0@ }
}
impl PartialEq for DashPattern {
    #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { self.0 == other.0 }
}
// ---------------------------------------------------------------- the whole pipeline
pub open spec fn pattern_s(d: DashSetting) -> Seq<char> {
    match d { DashSetting::Pattern(p) => p.0@, DashSetting::Disabled => Seq::<char>::empty() }
}
pub open spec fn dash_step(s: Seq<char>, p: Seq<char>, c: char) -> Seq<char> { if p.len() == 0 { s } else { dash_s(s, 0, p, c) } }
/// Both dashes, the longer pattern first.
pub open spec fn dashes_s(s: Seq<char>, o: Options) -> Seq<char> {
    let (en, em) = (pattern_s(o.en_dash), pattern_s(o.em_dash));
    if en.len() > em.len() { dash_step(dash_step(s, en, '\u{2013}'), em, '\u{2014}') }
    else { dash_step(dash_step(s, em, '\u{2014}'), en, '\u{2013}') }
}
pub open spec fn dots_s(s: Seq<char>, o: Options) -> Seq<char> { if o.ellipsis { ell_s(s) } else { s } }
/// d, e: the text after the double and after the single quotation marks
pub open spec fn punct_rel(t: Seq<char>, d: Seq<char>, e: Seq<char>, r: Seq<char>, o: Options) -> bool {
    let c = dots_s(dashes_s(t, o), o);
    (if o.curly_double_quotes { double_rel(c, d) } else { d == c })
    && (if o.curly_single_quotes { single_rel(d, e) } else { e == d })
    && (if o.curly_apostrophes { apos_rel(e, r) } else { r == e })
}
pub proof fn lemma_dash_len(s: Seq<char>, i: int, p: Seq<char>, c: char)
    requires p.len() > 0, 0 <= i <= s.len(),
    ensures dash_s(s, i, p, c).len() <= s.len() - i,
    decreases s.len() - i,
{
    if i < s.len() { if dash_at(s, i, p) { lemma_dash_len(s, i + p.len(), p, c); } else { lemma_dash_len(s, i + 1, p, c); } }
}
pub proof fn lemma_ell_len(s: Seq<char>)
    ensures ell_s(s).len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        if dots3(s) { if s.len() > 3 && s[3] == '.' { lemma_ell_len(s.skip(4)); } else { lemma_ell_len(s.skip(3)); } }
        else { lemma_ell_len(s.skip(1)); }
    }
}
pub proof fn lemma_step_len(s: Seq<char>, p: Seq<char>, c: char)
    ensures dash_step(s, p, c).len() <= s.len(),
{
    if p.len() > 0 { lemma_dash_len(s, 0, p, c); }
}
/// C07: with every transformation switched off the text is unchanged.
pub proof fn lemma_all_off(t: Seq<char>, d: Seq<char>, e: Seq<char>, r: Seq<char>, o: Options)
    requires
        punct_rel(t, d, e, r, o), !o.curly_double_quotes, !o.curly_single_quotes, !o.curly_apostrophes, !o.ellipsis,
        pattern_s(o.en_dash).len() == 0, pattern_s(o.em_dash).len() == 0,
    ensures r == t,
{}
/// C08: a longer pattern is not cut up by a shorter one: where neither pattern stands, nothing changes, and where the
/// longer one stands at the start of the text it becomes its own dash.
pub proof fn lemma_longer_first(t: Seq<char>, o: Options)
    requires
        pattern_s(o.en_dash).len() > pattern_s(o.em_dash).len() > 0, at(t, 0, pattern_s(o.en_dash)),
        pattern_s(o.em_dash)[0] != '\u{2013}',
    ensures dashes_s(t, o).len() > 0, dashes_s(t, o)[0] == '\u{2013}',
{
    let (en, em) = (pattern_s(o.en_dash), pattern_s(o.em_dash));
    let m = dash_s(t, 0, en, '\u{2013}');
    assert(m[0] == '\u{2013}');
    if at(m, 0, em) { assert(m.subrange(0, em.len() as int)[0] == m[0]); }
}
%% fn transform_ellipsis
%% ret r
%% spec
    ensures
        r@ == ell_s(text@),
        unell(r@) == unell(text@),
        !has3(text@) ==> r@ == text@,
%% at start
    proof { lemma_ell_frame(text@); if !has3(text@) { lemma_ell_id(text@); } }
%% loop 0
    invariant
        chars@ == text@, 0 <= i <= chars@.len(), chars@.len() <= 0x7fff_ffff_ffff_ffff,
        result@ + ell_s(text@.skip(i as int)) == ell_s(text@),
    decreases chars@.len() - i,
%% at loop 0 before
    proof { assert(text@.skip(0) =~= text@); assert(result@ + ell_s(text@) =~= ell_s(text@)); }
%% at loop 0 start
    let ghost i0 = i as int; let ghost r0 = result@;
    proof {
        assert(text@.skip(i0).skip(1) =~= text@.skip(i0 + 1));
        if i0 + 2 < text@.len() { assert(text@.skip(i0).skip(3) =~= text@.skip(i0 + 3)); }
        if i0 + 3 < text@.len() { assert(text@.skip(i0).skip(4) =~= text@.skip(i0 + 4)); }
    }
%% at loop 0 back
    proof { assert(result@ + ell_s(text@.skip(i as int)) =~= r0 + ell_s(text@.skip(i0))); }
%% at loop 0 after
    proof { assert(text@.skip(i as int) =~= Seq::<char>::empty()); assert(result@ + Seq::<char>::empty() =~= result@); }

%% fn transform_double_quotes
%% ret r
%% spec
    ensures double_rel(text@, r@),
%% loop 0
    invariant
        chars@ == text@, hdv0@ == text@, chars@.len() <= 0x7fff_ffff_ffff_ffff,
        result@.len() == hdk0,
        only(text@.take(hdk0 as int), result@, '"', '\u{201C}', '\u{201D}'),
        expecting_open == expects_open(text@, result@, hdk0 as int),
        forall|k: int| 0 <= k < hdk0 && text@[k] == '"'
            ==> #[trigger] result@[k] == (if is_open(text@, k, expects_open(text@, result@, k)) { '\u{201C}' } else { '\u{201D}' }),
%% at loop 0 start
    let ghost r0 = result@;
%% at loop 0 back
    proof {
        assert(result@.take(r0.len() as int) =~= r0);
        assert forall|k: int| 0 <= k < hdk0 implies #[trigger] result@[k] == r0[k] by {}
        assert forall|k: int| 0 <= k <= hdk0 implies expects_open(text@, r0, k) == #[trigger] expects_open(text@, result@, k) by {
            lemma_expects_stable(text@, r0, result@, k);
        }
        assert(expects_open(text@, result@, hdk0 + 1) == (if text@[hdk0 as int] == '"' { result@[hdk0 as int] != '\u{201C}' } else { expects_open(text@, result@, hdk0 as int) }));
    }
%% at loop 0 after
    proof { assert(text@.take(text@.len() as int) =~= text@); }

%% fn transform_single_quotes
%% ret r
%% spec
    ensures single_rel(text@, r@),
%% loop 0
    invariant
        chars@ == text@, hdv0@ == text@, chars@.len() <= 0x7fff_ffff_ffff_ffff,
        result@.len() == hdk0,
        only(text@.take(hdk0 as int), result@, '\'', '\u{2018}', '\u{2019}'),
        forall|k: int| 0 <= k < hdk0 && text@[k] == '\'' && letter(text@, k - 1) && letter(text@, k + 1) ==> #[trigger] result@[k] == '\'',
%% at loop 0 after
    proof { assert(text@.take(text@.len() as int) =~= text@); }

%% fn transform_apostrophes
%% ret r
%% spec
    requires text@.len() <= 0x7fff_ffff,
    ensures apos_rel(text@, r@),
%% loop 0
    invariant
        chars@ == text@, hdv0@ == text@, chars@.len() <= 0x7fff_ffff,
        result@.len() == hdk0, 0 <= open_single_quote_count <= hdk0,
        only(text@.take(hdk0 as int), result@, '\'', '\u{2019}', '\u{2019}'),
        forall|k: int| 0 <= k < hdk0 && text@[k] == '\'' && alnum(text@, k - 1) && alnum(text@, k + 1) ==> #[trigger] result@[k] == '\u{2019}',
%% at loop 0 after
    proof { assert(text@.take(text@.len() as int) =~= text@); }

%% fn transform_dashes
%% ret r
%% spec
    ensures
        pattern@.len() == 0 ==> r@ == text@,
        pattern@.len() > 0 ==> r@ == dash_s(text@, 0, pattern@, replacement),
%% loop 0
    invariant
        chars@ == text@, pattern_chars@ == pattern@, pattern@.len() > 0, is_single_char == (pattern@.len() == 1),
        0 <= i <= chars@.len(), chars@.len() <= 0x7fff_ffff_ffff_ffff, pattern_chars@.len() <= 0x7fff_ffff_ffff_ffff,
        result@ + dash_s(text@, i as int, pattern@, replacement) == dash_s(text@, 0, pattern@, replacement),
    decreases chars@.len() - i,
%% at loop 0 start
    let ghost i0 = i as int; let ghost r0 = result@;
%% at after let slice
    proof { if i0 + pattern@.len() <= text@.len() { assert(slice@ =~= text@.subrange(i0, i0 + pattern@.len())); } }
%% at loop 0 back
    proof { assert(result@ + dash_s(text@, i as int, pattern@, replacement) =~= r0 + dash_s(text@, i0, pattern@, replacement)); }
%% at loop 0 before
    proof { assert(result@ + dash_s(text@, 0, pattern@, replacement) =~= dash_s(text@, 0, pattern@, replacement)); }
%% at loop 0 after
    proof { assert(result@ + Seq::<char>::empty() =~= result@); }

%% fn should_be_opening_quote
%% ret r
%% spec
    requires 0 <= i < chars@.len(), chars@.len() <= 0x7fff_ffff_ffff_ffff,
    ensures r == is_open(chars@, i as int, expecting_open),

%% item DashPattern
%% item DashSetting
%% item Options
%% fields curly_double_quotes, curly_single_quotes, curly_apostrophes, ellipsis, en_dash, em_dash
%% item PunctuationError
%% fn DashPattern::as_str
%% ret r
%% spec
    ensures r@ == self.0@,
%% fn dash_pattern
%% ret r
%% spec
    ensures r@ == pattern_s(*setting),
%% fn validate_dash_settings
%% ret r
%% spec
    ensures
        r.is_err() == (options.en_dash is Pattern && options.em_dash is Pattern && pattern_s(options.en_dash) == pattern_s(options.em_dash)),
%% fn transform_punctuation
%% ret r
%% spec
    requires text@.len() <= 0x7fff_ffff,
    ensures
        exists|d: Seq<char>, e: Seq<char>| punct_rel(text@, d, e, r@, *options),
%% at start
    let ghost o = *options;
    proof {
        let (en, em) = (pattern_s(o.en_dash), pattern_s(o.em_dash));
        lemma_step_len(text@, en, '\u{2013}');
        lemma_step_len(text@, em, '\u{2014}');
        lemma_step_len(dash_step(text@, en, '\u{2013}'), em, '\u{2014}');
        lemma_step_len(dash_step(text@, em, '\u{2014}'), en, '\u{2013}');
        lemma_ell_len(dashes_s(text@, o));
    }
%% at before if options.curly_double_quotes
    proof { assert(result@ == dots_s(dashes_s(text@, o), o)); }
%% at before if options.curly_single_quotes
    let ghost d = result@;
%% at before if options.curly_apostrophes
    let ghost e = result@;
%% at result
    proof { assert(punct_rel(text@, d, e, hdr@, o)); }
