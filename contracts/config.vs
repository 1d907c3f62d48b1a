%% source src/config.rs
%% lib chars strs
%% item LeadingSpaces
%% derive Clone Copy
%% item TrailingSpaces
%% derive Clone Copy
%% item IndentWidth
%% derive Clone Copy
%% item LineWidth
%% derive Clone Copy
%% item MinFenceLength
%% derive Clone Copy
%% item ThematicBreakStyle
%% item DashPattern
%% type PathBuf => HdPath
%% type Path => HdPath
%% item Config
%% item ConfigLayer
%% item HeadingConfig
%% item UnorderedMarker
%% derive Clone Copy
%% item UnorderedListConfig
%% item OrderedMarker
%% derive Clone Copy
%% item OrderedListPad
%% derive Clone Copy
%% item OrderedListConfig
%% item FormatterConfig
%% item FenceChar
%% derive Clone Copy
%% item CodeBlockConfig
%% item ThematicBreakConfig
%% item DashSetting
%% item PunctuationConfig
%% raw
use std::collections::HashMap;
// ---------------------------------------------------------------- specification
/// how often a character occurs
pub open spec fn cnt(s: Seq<char>, c: char) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { cnt(s.drop_last(), c) + if s.last() == c { 1nat } else { 0 } }
}
/// only the marker, spaces and tabs, and the marker at least three times
pub open spec fn break_of(t: Seq<char>, m: char) -> bool {
    (forall|i: int| 0 <= i < t.len() ==> t[i] == m || t[i] == ' ' || t[i] == '\t') && cnt(t, m) >= 3
}
/// CommonMark's pattern of a thematic break, without the indentation
pub open spec fn is_break(t: Seq<char>) -> bool { break_of(t, '*') || break_of(t, '-') || break_of(t, '_') }
/// CommonMark: a line that reads as a thematic break
pub open spec fn reads_as_break(l: Seq<char>) -> bool {
    exists|n: nat| n <= 3 && n <= l.len() && l.take(n as int) == rep_s(seq![' '], n) && #[trigger] is_break(l.skip(n as int))
        && l.skip(n as int).len() > 0 && l[n as int] != ' ' && l[n as int] != '\t'
}
pub proof fn lemma_cnt_le(s: Seq<char>, a: char, b: char, c: char)
    requires a != b, b != c, a != c,
    ensures cnt(s, a) + cnt(s, b) + cnt(s, c) <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_cnt_le(s.drop_last(), a, b, c); }
}
pub proof fn lemma_cnt_only(s: Seq<char>, i: int, a: char)
    requires 0 <= i < s.len(), s[i] == a,
    ensures cnt(s, a) > 0,
    decreases s.len(),
{
    if i < s.len() - 1 { lemma_cnt_only(s.drop_last(), i, a); }
}
/// a character that no thematic break contains
pub open spec fn foreign(c: char) -> bool { c != '*' && c != '-' && c != '_' && c != ' ' && c != '\t' }
pub proof fn lemma_cnt_of(s: Seq<char>, a: char)
    requires cnt(s, a) > 0,
    ensures exists|i: int| 0 <= i < s.len() && s[i] == a,
    decreases s.len(),
{
    if s.last() == a { assert(s[s.len() - 1] == a); } else { lemma_cnt_of(s.drop_last(), a); }
}
/// the three counts tell whether the text is a thematic break
pub proof fn lemma_break(t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> !foreign(#[trigger] t[i]),
    ensures
        break_of(t, '*') == (cnt(t, '*') >= 3 && cnt(t, '-') == 0 && cnt(t, '_') == 0),
        break_of(t, '-') == (cnt(t, '-') >= 3 && cnt(t, '*') == 0 && cnt(t, '_') == 0),
        break_of(t, '_') == (cnt(t, '_') >= 3 && cnt(t, '-') == 0 && cnt(t, '*') == 0),
{
    lemma_break_one(t, '*', '-', '_');
    lemma_break_one(t, '-', '*', '_');
    lemma_break_one(t, '_', '-', '*');
}
pub proof fn lemma_break_one(t: Seq<char>, m: char, a: char, b: char)
    requires
        forall|i: int| 0 <= i < t.len() ==> t[i] == m || t[i] == a || t[i] == b || t[i] == ' ' || #[trigger] t[i] == '\t',
        m != a, m != b, a != b, a != ' ', a != '\t', b != ' ', b != '\t',
    ensures break_of(t, m) == (cnt(t, m) >= 3 && cnt(t, a) == 0 && cnt(t, b) == 0),
{
    if break_of(t, m) {
        if cnt(t, a) > 0 { lemma_cnt_of(t, a); }
        if cnt(t, b) > 0 { lemma_cnt_of(t, b); }
    } else if cnt(t, m) >= 3 {
        let i = choose|i: int| 0 <= i < t.len() && !(t[i] == m || t[i] == ' ' || t[i] == '\t');
        if t[i] == a { lemma_cnt_only(t, i, a); } else { assert(t[i] == b); lemma_cnt_only(t, i, b); }
    }
}
pub proof fn lemma_rep(n: nat)
    ensures rep_s(seq![' '], n).len() == n, forall|k: int| 0 <= k < n ==> rep_s(seq![' '], n)[k] == ' ',
    decreases n,
{
    if n > 0 { lemma_rep((n - 1) as nat); }
}
pub proof fn lemma_trim_start(s: Seq<char>)
    ensures trim_start_s(s).len() > 0 ==> !c_ws(trim_start_s(s)[0]),
    decreases s.len(),
{
    if s.len() > 0 && c_ws(s[0]) { lemma_trim_start(s.drop_first()); }
}
/// C09: an accepted style after up to three spaces reads as a thematic break.
pub proof fn lemma_style_reads_as_break(style: Seq<char>, n: nat)
    requires n <= 3, is_break(trim_s(style)),
    ensures reads_as_break(rep_s(seq![' '], n) + trim_s(style)),
{
    let t = trim_s(style);
    let l = rep_s(seq![' '], n) + t;
    lemma_rep(n);
    lemma_trim_start(trim_end_s(style));
    assert(t.len() > 0);
    assert(l.take(n as int) =~= rep_s(seq![' '], n));
    assert(l.skip(n as int) =~= t);
    assert(is_break(l.skip(n as int)));
}

// ---- C10: layers
#[verifier::external_body]
pub struct HdPath { _x: u8 }
#[verifier::external_body]
pub struct ConfigError { _x: u8 }
pub open spec fn set_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
/// every setting (a top-level value or a section) has the value of the layer if it sets it
pub open spec fn over(l: ConfigLayer, b: Config) -> Config {
    Config {
        no_inherit: l.no_inherit,
        line_width: set_or(l.line_width, b.line_width),
        include: set_or(l.include, b.include),
        exclude: set_or(l.exclude, b.exclude),
        git_aware: set_or(l.git_aware, b.git_aware),
        heading: set_or(l.heading, b.heading),
        unordered_list: set_or(l.unordered_list, b.unordered_list),
        ordered_list: set_or(l.ordered_list, b.ordered_list),
        code_block: set_or(l.code_block, b.code_block),
        thematic_break: set_or(l.thematic_break, b.thematic_break),
        punctuation: set_or(l.punctuation, b.punctuation),
    }
}
/// layers from the lowest to the highest priority
pub open spec fn all_over(ls: Seq<ConfigLayer>, b: Config) -> Config decreases ls.len() {
    if ls.len() == 0 { b } else { all_over(ls.drop_first(), over(ls[0], b)) }
}
// what the files say (assumed: the loaders read the files they are named after)
pub uninterp spec fn system_layer() -> Option<ConfigLayer>;
pub uninterp spec fn legacy_layer() -> Option<ConfigLayer>;
pub uninterp spec fn xdg_layer() -> Option<ConfigLayer>;
pub uninterp spec fn project_layer(dir: HdPath) -> Option<(HdPath, ConfigLayer)>;
impl Config {
    #[verifier::external_body]
    pub fn load_system_config() -> (r: Result<Option<ConfigLayer>, ConfigError>) ensures r.is_ok() ==> r->Ok_0 == system_layer() { unimplemented!() }
    #[verifier::external_body]
    pub fn load_user_legacy_config() -> (r: Result<Option<ConfigLayer>, ConfigError>) ensures r.is_ok() ==> r->Ok_0 == legacy_layer() { unimplemented!() }
    #[verifier::external_body]
    pub fn load_user_xdg_config() -> (r: Result<Option<ConfigLayer>, ConfigError>) ensures r.is_ok() ==> r->Ok_0 == xdg_layer() { unimplemented!() }
    #[verifier::external_body]
    pub fn discover_project_config(start_dir: &HdPath) -> (r: Result<Option<(HdPath, ConfigLayer)>, ConfigError>) ensures r.is_ok() ==> r->Ok_0 == project_layer(*start_dir) { unimplemented!() }
}
pub open spec fn one(l: Option<ConfigLayer>) -> Seq<ConfigLayer> { match l { Some(x) => seq![x], None => Seq::empty() } }
/// the layers that count, lowest priority first
pub open spec fn layers_for(dir: HdPath) -> Seq<ConfigLayer> {
    match project_layer(dir) {
        Some((_, l)) if l.no_inherit => seq![l],
        Some((_, l)) => one(system_layer()) + one(legacy_layer()) + one(xdg_layer()) + seq![l],
        None => one(system_layer()) + one(legacy_layer()) + one(xdg_layer()),
    }
}
/// the defaults of the documentation
pub open spec fn documented_default(c: Config) -> bool {
    &&& !c.no_inherit && c.line_width.0 == 80 && c.include@.len() == 0 && c.exclude@.len() == 0 && c.git_aware
    &&& c.heading.setext_h1 && c.heading.setext_h2 && !c.heading.sentence_case
    &&& c.heading.proper_nouns@.len() == 0 && c.heading.common_nouns@.len() == 0
    &&& c.unordered_list.unordered_marker is Hyphen && c.unordered_list.leading_spaces.0 == 1
    &&& c.unordered_list.trailing_spaces.0 == 2 && c.unordered_list.indent_width.0 == 4
    &&& c.ordered_list.odd_level_marker is Period && c.ordered_list.even_level_marker is Parenthesis
    &&& c.ordered_list.pad is Start && c.ordered_list.indent_width.0 == 4
    &&& c.code_block.fence_char is Tilde && c.code_block.min_fence_length.0 == 4 && c.code_block.space_after_fence
    &&& c.code_block.default_language@.len() == 0 && c.code_block.formatters@ == Map::<String, FormatterConfig>::empty()
    &&& c.thematic_break.style.0@ == default_style() && c.thematic_break.leading_spaces.0 == 3
    &&& c.punctuation.curly_double_quotes && c.punctuation.curly_single_quotes && !c.punctuation.curly_apostrophes && c.punctuation.ellipsis
    &&& c.punctuation.en_dash is Disabled && c.punctuation.em_dash is Pattern && c.punctuation.em_dash->Pattern_0.0@ == "--"@
}

pub open spec fn default_style() -> Seq<char> { "- - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -"@ }
pub proof fn lemma_cnt_three(s: Seq<char>, a: char)
    requires s.len() >= 5, s[0] == a, s[2] == a, s[4] == a,
    ensures cnt(s, a) >= 3,
    decreases s.len(),
{
    if s.len() > 5 { lemma_cnt_three(s.drop_last(), a); }
    else {
        reveal_with_fuel(cnt, 6);
    }
}
/// the documented default reads as a thematic break
pub proof fn lemma_default_style()
    ensures is_break(default_style()), default_style().len() > 0,
{
    reveal_strlit("- - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - - -");
    let t = default_style();
    assert(t.len() == 73);
    assert(t[0] == '-'); assert(t[1] == ' '); assert(t[2] == '-'); assert(t[3] == ' '); assert(t[4] == '-'); assert(t[5] == ' '); assert(t[6] == '-'); assert(t[7] == ' '); assert(t[8] == '-'); assert(t[9] == ' '); assert(t[10] == '-'); assert(t[11] == ' '); assert(t[12] == '-'); assert(t[13] == ' '); assert(t[14] == '-'); assert(t[15] == ' '); assert(t[16] == '-'); assert(t[17] == ' '); assert(t[18] == '-'); assert(t[19] == ' '); assert(t[20] == '-'); assert(t[21] == ' '); assert(t[22] == '-'); assert(t[23] == ' '); assert(t[24] == '-'); assert(t[25] == ' '); assert(t[26] == '-'); assert(t[27] == ' '); assert(t[28] == '-'); assert(t[29] == ' '); assert(t[30] == '-'); assert(t[31] == ' '); assert(t[32] == '-'); assert(t[33] == ' '); assert(t[34] == '-'); assert(t[35] == ' '); assert(t[36] == '-'); assert(t[37] == ' '); assert(t[38] == '-'); assert(t[39] == ' '); assert(t[40] == '-'); assert(t[41] == ' '); assert(t[42] == '-'); assert(t[43] == ' '); assert(t[44] == '-'); assert(t[45] == ' '); assert(t[46] == '-'); assert(t[47] == ' '); assert(t[48] == '-'); assert(t[49] == ' '); assert(t[50] == '-'); assert(t[51] == ' '); assert(t[52] == '-'); assert(t[53] == ' '); assert(t[54] == '-'); assert(t[55] == ' '); assert(t[56] == '-'); assert(t[57] == ' '); assert(t[58] == '-'); assert(t[59] == ' '); assert(t[60] == '-'); assert(t[61] == ' '); assert(t[62] == '-'); assert(t[63] == ' '); assert(t[64] == '-'); assert(t[65] == ' '); assert(t[66] == '-'); assert(t[67] == ' '); assert(t[68] == '-'); assert(t[69] == ' '); assert(t[70] == '-'); assert(t[71] == ' '); assert(t[72] == '-');
    assert forall|i: int| 0 <= i < t.len() implies t[i] == '-' || t[i] == ' ' || t[i] == '\t' by {
        assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5 || i == 6 || i == 7 || i == 8 || i == 9 || i == 10 || i == 11 || i == 12 || i == 13 || i == 14 || i == 15 || i == 16 || i == 17 || i == 18 || i == 19 || i == 20 || i == 21 || i == 22 || i == 23 || i == 24 || i == 25 || i == 26 || i == 27 || i == 28 || i == 29 || i == 30 || i == 31 || i == 32 || i == 33 || i == 34 || i == 35 || i == 36 || i == 37 || i == 38 || i == 39 || i == 40 || i == 41 || i == 42 || i == 43 || i == 44 || i == 45 || i == 46 || i == 47 || i == 48 || i == 49 || i == 50 || i == 51 || i == 52 || i == 53 || i == 54 || i == 55 || i == 56 || i == 57 || i == 58 || i == 59 || i == 60 || i == 61 || i == 62 || i == 63 || i == 64 || i == 65 || i == 66 || i == 67 || i == 68 || i == 69 || i == 70 || i == 71 || i == 72);
    }
    lemma_cnt_three(t, '-');
    assert(break_of(t, '-'));
}
%% fn LeadingSpaces::new
%% ret r
%% spec
    ensures r.is_ok() == (value <= 3), r.is_ok() ==> r->Ok_0.0 == value,
%% fn TrailingSpaces::new
%% ret r
%% spec
    ensures r.is_ok() == (value <= 3), r.is_ok() ==> r->Ok_0.0 == value,
%% fn IndentWidth::new
%% ret r
%% spec
    ensures r.is_ok() == (value >= 1), r.is_ok() ==> r->Ok_0.0 == value,
%% fn LineWidth::new
%% ret r
%% spec
    ensures r.is_ok() == (value >= 8), r.is_ok() ==> r->Ok_0.0 == value,
%% fn MinFenceLength::new
%% ret r
%% spec
    ensures r.is_ok() == (value >= 3), r.is_ok() ==> r->Ok_0.0 == value,
%% fn LeadingSpaces::get
%% ret r
%% spec
    ensures r == self.0,
%% fn TrailingSpaces::get
%% ret r
%% spec
    ensures r == self.0,
%% fn IndentWidth::get
%% ret r
%% spec
    ensures r == self.0,
%% fn LineWidth::get
%% ret r
%% spec
    ensures r == self.0,
%% fn MinFenceLength::get
%% ret r
%% spec
    ensures r == self.0,
%% fn ThematicBreakStyle::as_str
%% ret r
%% spec
    ensures r@ == self.0@,
%% fn DashPattern::as_str
%% ret r
%% spec
    ensures r@ == self.0@,
%% fn DashPattern::new
%% ret r
%% spec
    ensures
        r.is_ok() == (pattern@.len() > 0 && forall|i: int| 0 <= i < pattern@.len() ==> c_agraphic(#[trigger] pattern@[i])),
        r.is_ok() ==> r->Ok_0.0@ == pattern@,
%% fn ThematicBreakStyle::new
%% ret r
%% spec
    ensures
        r.is_ok() == is_break(trim_s(style@)),
        r.is_ok() ==> r->Ok_0.0@ == trim_s(style@),
%% at loop 0 before
let ghost t = trimmed@;
%% loop 0
    invariant_except_break !has_other,
    invariant
        hdv0@ == t, hdn_hdk0 <= t.len(), t.len() <= 0x7fff_ffff_ffff_ffff,
        !has_other ==> forall|i: int| 0 <= i < hdn_hdk0 ==> !foreign(#[trigger] t[i]),
        !has_other ==> asterisk_count == cnt(t.take(hdn_hdk0 as int), '*') && hyphen_count == cnt(t.take(hdn_hdk0 as int), '-') && underscore_count == cnt(t.take(hdn_hdk0 as int), '_'),
    ensures
        hdv0@ == t,
        has_other ==> exists|i: int| 0 <= i < t.len() && foreign(#[trigger] t[i]),
        !has_other ==> hdn_hdk0 == t.len(),
    decreases t.len() - hdn_hdk0,
%% at loop 0 start
proof {
    assert(t.take(hdn_hdk0 as int).drop_last() =~= t.take(hdn_hdk0 - 1));
    lemma_cnt_le(t.take(hdn_hdk0 as int), '*', '-', '_');
    lemma_cnt_le(t.take(hdn_hdk0 - 1), '*', '-', '_');
}
%% at loop 0 after
proof {
    assert(t.take(t.len() as int) =~= t);
    lemma_cnt_le(t, '*', '-', '_');
    if !has_other { lemma_break(t); }
}
%% fn LeadingSpaces@Default::default
%% ret r
%% spec
    ensures r.0 == 1,
%% fn TrailingSpaces@Default::default
%% ret r
%% spec
    ensures r.0 == 2,
%% fn IndentWidth@Default::default
%% ret r
%% spec
    ensures r.0 == 4,
%% fn LineWidth@Default::default
%% ret r
%% spec
    ensures r.0 == 80,
%% fn MinFenceLength@Default::default
%% ret r
%% spec
    ensures r.0 == 4,
%% fn UnorderedMarker@Default::default
%% ret r
%% spec
    ensures r is Hyphen,
%% fn OrderedMarker@Default::default
%% ret r
%% spec
    ensures r is Period,
%% fn OrderedListPad@Default::default
%% ret r
%% spec
    ensures r is Start,
%% fn FenceChar@Default::default
%% ret r
%% spec
    ensures r is Tilde,
%% fn DashSetting@Default::default
%% ret r
%% spec
    ensures r is Disabled,
%% fn ThematicBreakStyle@Default::default
%% ret r
%% spec
    ensures r.0@ == default_style(),
%% fn HeadingConfig@Default::default
%% ret r
%% spec
    ensures r.setext_h1 && r.setext_h2 && !r.sentence_case && r.proper_nouns@.len() == 0 && r.common_nouns@.len() == 0,
%% fn UnorderedListConfig@Default::default
%% ret r
%% spec
    ensures r.unordered_marker is Hyphen && r.leading_spaces.0 == 1 && r.trailing_spaces.0 == 2 && r.indent_width.0 == 4,
%% fn OrderedListConfig@Default::default
%% ret r
%% spec
    ensures r.odd_level_marker is Period && r.even_level_marker is Parenthesis && r.pad is Start && r.indent_width.0 == 4,
%% fn CodeBlockConfig@Default::default
%% ret r
%% spec
    ensures r.fence_char is Tilde && r.min_fence_length.0 == 4 && r.space_after_fence && r.default_language@.len() == 0 && r.formatters@ == Map::<String, FormatterConfig>::empty(),
%% fn ThematicBreakConfig@Default::default
%% ret r
%% spec
    ensures r.style.0@ == default_style() && r.leading_spaces.0 == 3,
%% fn PunctuationConfig@Default::default
%% ret r
%% spec
    ensures r.curly_double_quotes && r.curly_single_quotes && !r.curly_apostrophes && r.ellipsis && r.en_dash is Disabled && r.em_dash is Pattern && r.em_dash->Pattern_0.0@ == "--"@,
%% fn Config@Default::default
%% ret r
%% spec
    ensures documented_default(r),
%% fn ConfigLayer::merge_over
%% ret r
%% spec
    ensures r == over(self, base),
%% fn Config::load_cascading
%% ret r
%% opt drain_loops
%% spec
    ensures
        r.is_ok() ==> exists|d: Config| #[trigger] documented_default(d) && r->Ok_0.0 == all_over(layers_for(*start_dir), d),
        r.is_ok() ==> (r->Ok_0.1 == match project_layer(*start_dir) { Some((p, _)) => Some(p), None => None::<HdPath> }),
%% at loop 0 before
let ghost d = config;
let ghost ls = layers@;
proof {
    assert(documented_default(d));
    assert(ls =~= layers_for(*start_dir));
}
%% loop 0
    invariant all_over(hdv0@, config) == all_over(ls, d),
    decreases hdv0@.len(),
