%% source src/serializer/escape.rs
%% lib chars strs text
%% raw
// ---------------------------------------------------------------- specification
/// C01, one step: the text so far, followed by a safe spelling of the next character.
pub proof fn lemma_esc_step(r0: Seq<char>, r1: Seq<char>, t: Seq<char>, k: int)
    requires
        0 <= k < t.len(), inert(r0), md_unesc(r0) == t.take(k),
        (r1 == r0.push(t[k]) && t[k] != '*' && t[k] != '_' && t[k] != '`' && t[k] != '\\')
        || (r1 == r0.push('\\').push(t[k]) && c_apunct(t[k])),
    ensures inert(r1), md_unesc(r1) == t.take(k + 1),
{
    lemma_piece(t[k]);
    let x = if r1 == r0.push(t[k]) { seq![t[k]] } else { seq!['\\', t[k]] };
    assert(r1 =~= r0 + x);
    lemma_inert_append(r0, x);
    assert(t.take(k) + seq![t[k]] =~= t.take(k + 1));
}

// ---- code spans
/// longest run of backticks in s
pub open spec fn tail_run(s: Seq<char>, x: char) -> nat decreases s.len() {
    if s.len() > 0 && s.last() == x { 1 + tail_run(s.drop_last(), x) } else { 0 }
}
pub open spec fn max_run(s: Seq<char>, x: char) -> nat decreases s.len() {
    if s.len() == 0 { 0 }
    else { let a = max_run(s.drop_last(), x); let b = tail_run(s, x); if a > b { a } else { b } }
}
pub proof fn lemma_runs(s: Seq<char>, i: int, j: int)
    requires is_run(s, i, j),
    ensures j - i <= max_run(s, '`'),
    decreases s.len(),
{
    if j < s.len() {
        let d = s.drop_last();
        assert(is_run(d, i, j));
        lemma_runs(d, i, j);
    } else {
        lemma_tail(s, i);
        lemma_max_run_bound(s, '`');
    }
}
pub proof fn lemma_tail(s: Seq<char>, i: int)
    requires 0 <= i <= s.len(), forall|k: int| i <= k < s.len() ==> s[k] == '`',
    ensures s.len() - i <= tail_run(s, '`'),
    decreases s.len(),
{
    if i < s.len() { lemma_tail(s.drop_last(), i); }
}
pub proof fn lemma_ticks(n: nat)
    ensures ticks(n).len() == n, forall|k: int| 0 <= k < n ==> ticks(n)[k] == '`',
    decreases n,
{
    if n > 0 { lemma_ticks((n - 1) as nat); }
}
/// C02: a delimiter longer than every run in the content, with padding where the reader needs it.
pub proof fn lemma_span(r: Seq<char>, n: nat, c: Seq<char>)
    requires
        c.len() > 0, n > max_run(c, '`'),
        (r == ticks(n) + c + ticks(n) && c[0] != '`' && c.last() != '`' && strip_span(c) == c)
        || r == ticks(n) + (seq![' '] + c + seq![' ']) + ticks(n) && (exists|k: int| 0 <= k < c.len() && c[k] != ' '),
    ensures reads_as_span(r, c),
{
    if r == ticks(n) + c + ticks(n) && c[0] != '`' && c.last() != '`' && strip_span(c) == c {
        assert forall|i: int, j: int| is_run(c, i, j) implies j - i != n by { lemma_runs(c, i, j); }
        assert(is_span(r, n, c, c));
    } else {
        let b = seq![' '] + c + seq![' '];
        assert forall|i: int, j: int| is_run(b, i, j) implies j - i != n by {
            assert(b[i] == '`' && b[j - 1] == '`');
            assert forall|k: int| i - 1 <= k < j - 1 implies c[k] == '`' by { assert(b[k + 1] == c[k]); }
            assert(i > 1 ==> b[i - 1] == c[i - 2]);
            assert(j < b.len() - 1 ==> b[j] == c[j - 1]);
            assert(is_run(c, i - 1, j - 1));
            lemma_runs(c, i - 1, j - 1);
        }
        let k = choose|k: int| 0 <= k < c.len() && c[k] != ' ';
        assert(b[k + 1] != ' ');
        assert(b.subrange(1, b.len() - 1) =~= c);
        assert(is_span(r, n, b, c));
    }
}
pub proof fn lemma_max_run_bound(s: Seq<char>, x: char)
    ensures max_run(s, x) <= s.len(), tail_run(s, x) <= s.len(), tail_run(s, x) <= max_run(s, x),
    decreases s.len(),
{
    if s.len() > 0 { lemma_max_run_bound(s.drop_last(), x); }
}

// ---- table cells
pub open spec fn cell_esc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == '\\' && s.len() >= 2 { seq![s[0], s[1]] + cell_esc(s.skip(2)) }
    else if s[0] == '|' { seq!['\\', '|'] + cell_esc(s.skip(1)) }
    else { seq![s[0]] + cell_esc(s.skip(1)) }
}
/// no `|` that is not escaped
pub open spec fn no_bare_pipe(s: Seq<char>) -> bool decreases s.len() {
    if s.len() == 0 { true }
    else if s[0] == '\\' && s.len() >= 2 { no_bare_pipe(s.skip(2)) }
    else { s[0] != '|' && no_bare_pipe(s.skip(1)) }
}
pub proof fn lemma_cell_no_bare(s: Seq<char>)
    ensures no_bare_pipe(cell_esc(s)),
    decreases s.len(),
{
    let r = cell_esc(s);
    if s.len() == 0 {
    } else if s[0] == '\\' && s.len() >= 2 {
        lemma_cell_no_bare(s.skip(2));
        assert(r.skip(2) =~= cell_esc(s.skip(2)));
    } else if s[0] == '|' {
        lemma_cell_no_bare(s.skip(1));
        assert(r.skip(2) =~= cell_esc(s.skip(1)));
    } else {
        lemma_cell_no_bare(s.skip(1));
        assert(r.skip(1) =~= cell_esc(s.skip(1)));
        if s[0] == '\\' { assert(s.skip(1) =~= Seq::<char>::empty()); }
    }
}
%% fn escape_text
%% ret r
%% spec
    ensures
        md_unesc(r@) == text@,
        inert(r@),
%% loop 0
    invariant
        chars@ == text@, hdv0@ == text@,
        md_unesc(result@) == text@.take(hdk0 as int), inert(result@),
%% at loop 0 start
    let ghost r0 = result@;
%% at loop 0 end
    proof { lemma_esc_step(r0, result@, text@, hdk0 as int); }
%% at loop 0 after
    proof { assert(text@.take(text@.len() as int) =~= text@); }

%% fn format_code_span
%% ret r
%% spec
    ensures
        content@.len() > 0 && !content@.contains('\n') ==> reads_as_span(r@, content@),
%% loop 0
    invariant
        hdv0@ == content@,
        content@.len() <= 0x7fff_ffff_ffff_ffff,
        max_consecutive == max_run(content@.take(hdk0 as int), '`'),
        current_consecutive == tail_run(content@.take(hdk0 as int), '`'),
        max_consecutive <= hdk0, current_consecutive <= hdk0,
%% at loop 0 start
    proof {
        assert(content@.take(hdk0 as int + 1).drop_last() =~= content@.take(hdk0 as int));
        lemma_max_run_bound(content@.take(hdk0 as int), '`');
    }
%% at loop 0 after
    proof { assert(content@.take(content@.len() as int) =~= content@); }
%% at result
    proof {
        if content@.len() > 0 {
            let d = ticks(delimiter_count as nat);
            let l = content@.len() as int;
            if !(hdr@ =~= d + content@ + d && content@[0] != '`' && content@.last() != '`' && strip_span(content@) == content@) {
                assert(hdr@ =~= d + (seq![' '] + content@ + seq![' ']) + d);
                assert(content@[0] != ' ' || content@[l - 1] != ' ' || exists|k: int| 0 <= k < l && content@[k] != ' ');
            }
            lemma_span(hdr@, delimiter_count as nat, content@);
        }
    }

%% fn is_valid_code_span
%% ret r
%% spec
    ensures r ==> span_shape(source@),
%% at end
    proof {
        let n = leading_backticks as int;
        assert forall|i: int| source@.len() - trailing_backticks <= i < source@.len() implies #[trigger] source@[i] == '`' by { assert(source@.reverse()[source@.len() - 1 - i] == '`'); }
        if n < source@.len() && trailing_backticks == n { assert(source@.reverse()[n] == source@[source@.len() - 1 - n]); }
        if trailing_backticks == n { assert(tick_ends(source@, n)); }
    }

%% fn escape_table_cell
%% ret r
%% spec
    ensures
        r@ == cell_esc(content@),
        no_bare_pipe(r@),
%% at start
    proof { lemma_cell_no_bare(content@); }
%% loop 0
    invariant
        chars@ == content@, 0 <= i <= chars@.len(),
        result@ + cell_esc(content@.skip(i as int)) == cell_esc(content@),
    decreases chars@.len() - i,
%% at loop 0 start
    let ghost i0 = i as int; let ghost r0 = result@;
%% at loop 0 end
    proof {
        assert(content@.skip(i0).skip(1) =~= content@.skip(i0 + 1));
        if i0 + 1 < content@.len() { assert(content@.skip(i0).skip(2) =~= content@.skip(i0 + 2)); }
        assert(result@ + cell_esc(content@.skip(i as int)) =~= r0 + cell_esc(content@.skip(i0)));
    }
%% at loop 0 after
    proof { assert(content@.skip(i as int) =~= Seq::<char>::empty()); assert(result@ + Seq::<char>::empty() =~= result@); }
%% at loop 0 before
    proof { assert(content@.skip(0) =~= content@); assert(result@ + cell_esc(content@) =~= cell_esc(content@)); }

%% fn normalize_whitespace
%% ret r
%% spec
    ensures r@ == join_s(words_s(text@), seq![' ']),
