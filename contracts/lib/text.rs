// ---- text with backslash escapes
/// CommonMark backslash-escape decoding.
pub open spec fn md_unesc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == '\\' && s.len() >= 2 && c_apunct(s[1]) { seq![s[1]] + md_unesc(s.skip(2)) }
    else { seq![s[0]] + md_unesc(s.skip(1)) }
}
/// Scanning left to right, every `*`, `_`, backtick and backslash that is not itself escaped is absent.
pub open spec fn inert(s: Seq<char>) -> bool decreases s.len() {
    if s.len() == 0 { true }
    else if s[0] == '\\' { s.len() >= 2 && c_apunct(s[1]) && inert(s.skip(2)) }
    else { s[0] != '*' && s[0] != '_' && s[0] != '`' && inert(s.skip(1)) }
}
/// Text appended to inert text is read independently of it.
pub proof fn lemma_inert_append(s: Seq<char>, x: Seq<char>)
    requires inert(s),
    ensures md_unesc(s + x) == md_unesc(s) + md_unesc(x), inert(s + x) == inert(x),
    decreases s.len(),
{
    if s.len() == 0 {
        assert(s + x =~= x);
        assert(md_unesc(s) + md_unesc(x) =~= md_unesc(x));
    } else if s[0] == '\\' {
        lemma_inert_append(s.skip(2), x);
        assert((s + x).skip(2) =~= s.skip(2) + x);
        assert(md_unesc(s) + md_unesc(x) =~= seq![s[1]] + (md_unesc(s.skip(2)) + md_unesc(x)));
    } else {
        lemma_inert_append(s.skip(1), x);
        assert((s + x).skip(1) =~= s.skip(1) + x);
        assert(md_unesc(s) + md_unesc(x) =~= seq![s[0]] + (md_unesc(s.skip(1)) + md_unesc(x)));
    }
}
/// One character, written as itself or escaped.
pub proof fn lemma_piece(c: char)
    ensures
        md_unesc(seq![c]) == seq![c],
        inert(seq![c]) == (c != '*' && c != '_' && c != '`' && c != '\\'),
        c_apunct(c) ==> md_unesc(seq!['\\', c]) == seq![c] && inert(seq!['\\', c]),
{
    reveal_with_fuel(md_unesc, 3);
    reveal_with_fuel(inert, 3);
    assert(seq![c].skip(1) =~= Seq::<char>::empty());
    assert(seq!['\\', c].skip(2) =~= Seq::<char>::empty());
    assert(seq![c] + Seq::<char>::empty() =~= seq![c]);
}
// ---- code spans
pub open spec fn ticks(n: nat) -> Seq<char> { rep_s(seq!['`'], n) }
/// s[i..j] is a maximal run of backticks
pub open spec fn is_run(s: Seq<char>, i: int, j: int) -> bool {
    0 <= i < j <= s.len() && (forall|k: int| i <= k < j ==> s[k] == '`')
    && (i > 0 ==> s[i - 1] != '`') && (j < s.len() ==> s[j] != '`')
}
/// CommonMark: one space is stripped from each end if both are spaces and there is something else.
pub open spec fn strip_span(b: Seq<char>) -> Seq<char> {
    if b.len() >= 2 && b[0] == ' ' && b.last() == ' ' && (exists|k: int| 0 <= k < b.len() && b[k] != ' ') {
        b.subrange(1, b.len() - 1)
    } else { b }
}
/// r is a code span that a CommonMark reader reads as c
pub open spec fn is_span(r: Seq<char>, n: nat, b: Seq<char>, c: Seq<char>) -> bool {
    n > 0 && r == ticks(n) + b + ticks(n) && b.len() > 0 && b[0] != '`' && b.last() != '`'
    && (forall|i: int, j: int| is_run(b, i, j) ==> j - i != n)
    && strip_span(b) == c
}
pub open spec fn reads_as_span(r: Seq<char>, c: Seq<char>) -> bool { exists|n: nat, b: Seq<char>| is_span(r, n, b, c) }
/// runs of n backticks at both ends
pub open spec fn tick_ends(s: Seq<char>, n: int) -> bool {
    1 <= n <= s.len() && (forall|i: int| 0 <= i < n ==> #[trigger] s[i] == '`') && (forall|i: int| s.len() - n <= i < s.len() ==> #[trigger] s[i] == '`') && (n < s.len() ==> s[n] != '`' && s[s.len() - 1 - n] != '`')
}
pub open spec fn span_shape(s: Seq<char>) -> bool { exists|n: int| #[trigger] tick_ends(s, n) }
