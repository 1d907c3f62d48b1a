%% source src/serializer/link.rs
%% lib chars strs links
%% impl Serializer => impl Serializer
%% raw
pub struct Serializer {}
// ---- autolinks
pub open spec fn scheme_c(c: char) -> bool { c_aalnum(c) || c == '+' || c == '.' || c == '-' }
pub open spec fn uri_c(c: char) -> bool { !c_acontrol(c) && c != ' ' && c != '<' && c != '>' }
/// an absolute URI: a scheme of 2 to 32 characters, a colon, and no control characters, spaces or angle brackets
pub open spec fn is_uri(s: Seq<char>) -> bool {
    let k = first_ix(s, ':');
    &&& k < s.len()
    &&& 2 <= k <= 32
    &&& c_aalpha(s[0])
    &&& forall|j: int| 0 <= j < k ==> scheme_c(#[trigger] s[j])
    &&& forall|j: int| k < j < s.len() ==> uri_c(#[trigger] s[j])
}
pub open spec fn unent(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == '&' && ent_name(s.skip(1)) {
        let i = first_ix(s.skip(1), ';');
        if 0 < i && i + 2 <= s.len() { ent_s(s.skip(1).take(i)) + unent(s.skip(i + 2)) } else { Seq::empty() }
    }
    else { seq![s[0]] + unent(s.skip(1)) }
}
pub open spec fn no_ent(s: Seq<char>) -> bool decreases s.len() {
    s.len() == 0 || (!(s[0] == '&' && ent_name(s.skip(1))) && no_ent(s.skip(1)))
}
/// `<URI>`: the URI, and what follows
pub open spec fn read_auto(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    let i = first_ix(s, '>');
    if s.len() > 0 && s[0] == '<' && 0 < i < s.len() && is_uri(s.subrange(1, i)) { Some((unent(s.subrange(1, i)), s.skip(i + 1))) } else { None }
}
pub proof fn lemma_unent(s: Seq<char>)
    requires no_ent(s),
    ensures unent(s) == s,
    decreases s.len(),
{
    if s.len() > 0 { lemma_unent(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(unent(s) =~= s); }
}
pub proof fn lemma_first_at(s: Seq<char>, c: char, k: int)
    requires 0 <= k < s.len(), s[k] == c, forall|j: int| 0 <= j < k ==> s[j] != c,
    ensures first_ix(s, c) == k,
{
    lemma_first_ix(s, c);
    let i = first_ix(s, c);
    assert(s.contains(c));
    if i < k { assert(s[i] != c); }
    if k < i { assert(s[k] != c); }
}
/// C18: a URL that can be written as an autolink is read back as it was
pub proof fn lemma_auto(u: Seq<char>, x: Seq<char>)
    requires is_uri(u), no_ent(u),
    ensures read_auto(seq!['<'] + u + seq!['>'] + x) == Some((u, x)),
{
    let w = seq!['<'] + u + seq!['>'] + x;
    let n = u.len() as int;
    let k = first_ix(u, ':');
    lemma_first_ix(u, ':');
    assert forall|j: int| 0 <= j < n + 1 implies w[j] != '>' by {
        if j > 0 {
            assert(w[j] == u[j - 1]);
            if j - 1 < k { assert(scheme_c(u[j - 1])); } else if j - 1 > k { assert(uri_c(u[j - 1])); }
        }
    }
    assert(w[n + 1] == '>');
    lemma_first_at(w, '>', n + 1);
    assert(w.subrange(1, n + 1) =~= u);
    assert(w.skip(n + 2) =~= x);
    lemma_unent(u);
}
/// the tails of what follows the scheme are those of the URL
pub proof fn lemma_no_ent(s: Seq<char>)
    ensures no_ent(s) == forall|i: int| 0 <= i < tails_s(s, '&').len() ==> !ent_name(#[trigger] tails_s(s, '&')[i]),
    decreases s.len(),
{
    if s.len() > 0 {
        let t = s.skip(1);
        lemma_no_ent(t);
        let a = tails_s(t, '&');
        let b = tails_s(s, '&');
        if s[0] == '&' {
            assert(b[0] == t);
            if no_ent(s) {
                assert forall|i: int| 0 <= i < b.len() implies !ent_name(#[trigger] b[i]) by { if i > 0 { assert(b[i] == a[i - 1]); } }
            }
            if forall|i: int| 0 <= i < b.len() ==> !ent_name(#[trigger] b[i]) {
                assert forall|i: int| 0 <= i < a.len() implies !ent_name(#[trigger] a[i]) by { assert(b[i + 1] == a[i]); }
            }
        }
    }
}
pub proof fn lemma_no_ent_skip(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> #[trigger] s[j] != '&',
    ensures no_ent(s) == no_ent(s.skip(k)),
    decreases k,
{
    if k == 0 { assert(s.skip(0) =~= s); }
    else {
        let t = s.skip(1);
        assert forall|j: int| 0 <= j < k - 1 implies #[trigger] t[j] != '&' by { assert(t[j] == s[j + 1]); }
        lemma_no_ent_skip(t, k - 1);
        assert(t.skip(k - 1) =~= s.skip(k));
        assert(s[0] != '&');
    }
}

%% fn Serializer::continues_entity
%% ret r
%% spec
    ensures r == ent_name(rest@),
%% at start
    proof {
        lemma_first_ix(rest@, ';');
        assert forall|j: int| 0 <= j < first_ix(rest@, ';') implies #[trigger] rest@[j] == rest@.take(first_ix(rest@, ';'))[j] by {}
    }
%% fn Serializer::has_balanced_parentheses
%% ret r
%% spec
    ensures r == bal(url@, 0),
%% at loop 0 before
    proof { assert(url@.skip(0) =~= url@); }
%% loop 0
    invariant
        hdv0@ == url@, depth <= 32, bal(url@, 0) == bal(url@.skip(hdk0 as int), depth as int),
%% at loop 0 start
    proof { assert(url@.skip(hdk0 as int).skip(1) =~= url@.skip(hdk0 + 1)); }
%% fn Serializer::push_link_destination
%% spec
    ensures final(output)@ == old(output)@ + w_dest(url@),
%% loop 0
    invariant_except_break
        url@.len() > 0, balanced == bal(url@, 0),
        output@ + w_d(rest@, balanced) == old(output)@ + w_d(url@, balanced),
    ensures
        output@ == old(output)@ + w_d(url@, balanced),
    decreases rest@.len(),
%% fn Serializer::push_link_title
%% spec
    ensures final(output)@ == old(output)@ + w_title(title@),
%% loop 0
    invariant_except_break
        output@ + w_t(rest@) == old(output)@ + " \""@ + w_t(title@),
    ensures
        output@ == old(output)@ + " \""@ + w_t(title@),
    decreases rest@.len(),
%% fn Serializer::push_link_target
%% spec
    ensures final(output)@ == old(output)@ + w_target(url@, title@), reads_back(w_target(url@, title@), url@, title@),
%% at end
    proof {
        assert(output@ =~= old(output)@ + w_target(url@, title@));
        assert forall|x: Seq<char>| #[trigger] read_target(w_target(url@, title@) + x) == Some((norm(url@), title@, x)) by { lemma_target(url@, title@, x); }
    }
%% fn Serializer::format_inline_link
%% spec
    ensures inline_rel(old(output)@, seq!['['], text@, url@, title@, final(output)@),
%% at end
    proof { assert(output@ =~= old(output)@ + seq!['['] + text@ + seq![']'] + w_target(url@, title@)); }
%% fn Serializer::format_inline_image
%% spec
    ensures inline_rel(old(output)@, seq!['!', '['], alt_text@, url@, title@, final(output)@),
%% at end
    proof {
        reveal_strlit("![");
        assert(output@ =~= old(output)@ + seq!['!', '['] + alt_text@ + seq![']'] + w_target(url@, title@));
    }
%% fn Serializer::is_valid_label
%% ret r
%% spec
    ensures r == label_ok(text@),
%% at loop 0 before
    proof { assert(text@.skip(0) =~= text@); }
%% loop 0
    invariant
        hdv0@ == text@,
        no_br(text@, false) == no_br(text@.skip(hdk0 as int), escaped),
        all_ws(text@) == (blank && all_ws(text@.skip(hdk0 as int))),
%% at loop 0 start
    proof { assert(text@.skip(hdk0 as int).skip(1) =~= text@.skip(hdk0 + 1)); }
%% fn Serializer::format_autolink
%% spec
    ensures final(output)@ == old(output)@ + (seq!['<'] + url@ + seq!['>']),
%% at end
    proof { assert(output@ =~= old(output)@ + (seq!['<'] + url@ + seq!['>'])); }
%% fn Serializer::can_be_autolink
%% ret r
%% spec
    ensures r == (is_uri(url@) && no_ent(url@)),
%% at start
    broadcast use lemma_views_at;
%% loop 0
    invariant_except_break
        !hdr4, forall|hdj: int| 0 <= hdj < hdn_hdk4 ==> !ent_name(#[trigger] hdv4@[hdj]@),
    invariant
        views(hdv4@) == tails_s(rest@, '&'),
    ensures
        hdr4 ==> exists|hdj: int| 0 <= hdj < hdv4@.len() && ent_name(#[trigger] hdv4@[hdj]@),
        !hdr4 ==> forall|hdj: int| 0 <= hdj < hdv4@.len() ==> !ent_name(#[trigger] hdv4@[hdj]@),
%% at loop 0 after
    proof {
        lemma_no_ent(rest@);
        let b = tails_s(rest@, '&');
        assert(b.len() == hdv4@.len());
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] b[i] == hdv4@[i]@ by {}
        if hdr4 {
            let j = choose|hdj: int| 0 <= hdj < hdv4@.len() && ent_name(#[trigger] hdv4@[hdj]@);
            assert(b[j] == hdv4@[j]@);
        }
    }
%% at end
    proof {
        let k = first_ix(url@, ':');
        lemma_first_ix(url@, ':');
        let u = url@;
        let a = scheme@;
        let b = rest@;
        assert forall|j: int| 0 <= j < k implies #[trigger] u[j] == a[j] by {}
        assert forall|j: int| k < j < u.len() implies #[trigger] u[j] == b[j - k - 1] by {}
        assert forall|j: int| 0 <= j < b.len() implies #[trigger] b[j] == u[j + k + 1] by {}
        assert forall|j: int| 0 <= j < a.len() implies #[trigger] a[j] == u[j] by {}
        if forall|j: int| 0 <= j < k ==> scheme_c(#[trigger] u[j]) {
            assert forall|j: int| 0 <= j < a.len() implies c_ascii(#[trigger] a[j]) by { assert(scheme_c(u[j])); }
            ax_ascii_len(scheme);
            assert forall|j: int| 0 <= j < k + 1 implies #[trigger] u[j] != '&' by { if j < k { assert(scheme_c(u[j])); } }
            lemma_no_ent_skip(u, k + 1);
        }
    }
