%% source src/serializer/wrap.rs
%% lib chars strs
%% raw
// ---------------------------------------------------------------- where lines may be broken
/// the end of the run of backticks at i
pub open spec fn run_end(cs: Seq<char>, i: int) -> int decreases cs.len() - i {
    if 0 <= i < cs.len() && cs[i] == '`' { run_end(cs, i + 1) } else { i }
}
pub open spec fn odd_backslashes(cs: Seq<char>, i: int) -> bool decreases i {
    0 < i <= cs.len() && cs[i - 1] == '\\' && !odd_backslashes(cs, i - 1)
}
/// the end of the first run of exactly n backticks from i on
pub open spec fn closing(cs: Seq<char>, i: int, n: int) -> Option<int> decreases (if cs.len() > i { cs.len() - i } else { 0 }) {
    if i < 0 || i >= cs.len() { None }
    else if cs[i] != '`' { closing(cs, i + 1, n) }
    else if run_end(cs, i) - i == n { Some(run_end(cs, i)) }
    else if run_end(cs, i) > i { closing(cs, run_end(cs, i), n) }
    else { None }
}
/// the end of the code span (or of the literal backticks) at i
pub open spec fn code_end_s(cs: Seq<char>, i: int) -> int {
    if odd_backslashes(cs, i) { i + 1 }
    else {
        match closing(cs, run_end(cs, i), run_end(cs, i) - i) {
            Some(e) => e,
            None => run_end(cs, i),
        }
    }
}
pub proof fn lemma_run_end(cs: Seq<char>, i: int)
    requires 0 <= i <= cs.len(),
    ensures i <= run_end(cs, i) <= cs.len(), run_end(cs, i) < cs.len() ==> cs[run_end(cs, i)] != '`',
        i < cs.len() && cs[i] == '`' ==> run_end(cs, i) > i,
        forall|k: int| i <= k < run_end(cs, i) ==> cs[k] == '`',
    decreases cs.len() - i,
{
    if i < cs.len() && cs[i] == '`' { lemma_run_end(cs, i + 1); }
}
pub proof fn lemma_run_is(cs: Seq<char>, i: int, k: int)
    requires 0 <= i <= k <= cs.len(), forall|j: int| i <= j < k ==> cs[j] == '`',
    ensures run_end(cs, i) == run_end(cs, k),
    decreases k - i,
{
    if i < k { lemma_run_is(cs, i + 1, k); }
}
pub proof fn lemma_closing(cs: Seq<char>, i: int, n: int)
    requires 0 <= i <= cs.len(), n > 0,
    ensures closing(cs, i, n) matches Some(e) ==> i + n <= e <= cs.len() && (forall|k: int| e - n <= k < e ==> cs[k] == '`')
        && (e < cs.len() ==> cs[e] != '`'),
    decreases cs.len() - i,
{
    lemma_run_end(cs, i);
    if i < cs.len() {
        if cs[i] != '`' { lemma_closing(cs, i + 1, n); }
        else if run_end(cs, i) - i != n { lemma_closing(cs, run_end(cs, i), n); }
    }
}
pub proof fn lemma_code_end(cs: Seq<char>, i: int)
    requires 0 <= i < cs.len(), cs[i] == '`',
    ensures i < code_end_s(cs, i) <= cs.len(),
{
    lemma_run_end(cs, i);
    lemma_closing(cs, run_end(cs, i), run_end(cs, i) - i);
}
/// C05: a code span that is closed ends with as many backticks as it starts with
pub proof fn lemma_span_closed(cs: Seq<char>, i: int)
    requires 0 <= i < cs.len(), cs[i] == '`', !odd_backslashes(cs, i), code_end_s(cs, i) > run_end(cs, i),
    ensures ({
        let (n, e) = (run_end(cs, i) - i, code_end_s(cs, i));
        e - n >= run_end(cs, i) && (forall|k: int| e - n <= k < e ==> cs[k] == '`') && (e < cs.len() ==> cs[e] != '`')
    }),
{
    lemma_run_end(cs, i);
    lemma_closing(cs, run_end(cs, i), run_end(cs, i) - i);
}
/// brackets: the state of the search at i is the stack of open ones and the ends found
pub open spec fn brackets_s(cs: Seq<char>, i: int, open: Seq<int>, ends: Seq<int>) -> Seq<int> decreases (if cs.len() > i { cs.len() - i } else { 0 }) {
    if i < 0 || i >= cs.len() { ends }
    else if cs[i] == '\\' { brackets_s(cs, i + 2, open, ends) }
    else if cs[i] == '`' && code_end_s(cs, i) > i { brackets_s(cs, code_end_s(cs, i), open, ends) }
    else if cs[i] == '[' { brackets_s(cs, i + 1, open.push(i), ends) }
    else if cs[i] == ']' && open.len() > 0 { brackets_s(cs, i + 1, open.drop_last(), ends.update(open.last(), i + 1)) }
    else { brackets_s(cs, i + 1, open, ends) }
}
pub open spec fn bracket_ends_s(cs: Seq<char>) -> Seq<int> {
    brackets_s(cs, 0, Seq::empty(), Seq::new(cs.len(), |i: int| i + 1))
}
pub open spec fn ints(v: Seq<usize>) -> Seq<int> { v.map(|i: int, x: usize| x as int) }
/// what is read in one go: a code span, matching brackets, or a character
pub open spec fn unit_end(cs: Seq<char>, i: int) -> int {
    if cs[i] == '`' { code_end_s(cs, i) } else if cs[i] == '[' { bracket_ends_s(cs)[i] } else { i + 1 }
}
/// does a unit start at k, when one starts at i?
pub open spec fn reaches(cs: Seq<char>, i: int, k: int) -> bool decreases (if k > i { k - i } else { 0 }) {
    i == k || (0 <= i < cs.len() && i < k && unit_end(cs, i) > i && reaches(cs, unit_end(cs, i), k))
}
/// a space outside of code spans and brackets
pub open spec fn breakable(cs: Seq<char>, k: int) -> bool { cs[k] == ' ' && reaches(cs, 0, k) }
/// a piece of text without breakable spaces, and the breakable spaces after it
pub struct Tok { pub text: Seq<char>, pub space: Seq<char> }
pub struct Pos { pub a: int, pub b: int, pub c: int }
pub open spec fn tok_at(cs: Seq<char>, p: Pos) -> Tok { Tok { text: cs.subrange(p.a, p.b), space: cs.subrange(p.b, p.c) } }
pub open spec fn piece(cs: Seq<char>, p: Pos) -> bool {
    &&& 0 <= p.a < p.b <= p.c <= cs.len()
    &&& forall|k: int| p.a <= k < p.b ==> !#[trigger] breakable(cs, k)
    &&& forall|k: int| p.b <= k < p.c ==> #[trigger] breakable(cs, k)
}
pub open spec fn linked(ps: Seq<Pos>, j: int) -> bool { ps[j - 1].c == ps[j].a && ps[j - 1].b < ps[j - 1].c }
/// the pieces of the text up to `end`, each from where the one before ends
pub open spec fn pieces(cs: Seq<char>, ps: Seq<Pos>, end: int) -> bool {
    &&& forall|j: int| 0 <= j < ps.len() ==> piece(cs, #[trigger] ps[j])
    &&& forall|j: int| 0 < j < ps.len() ==> #[trigger] linked(ps, j)
    &&& ps.len() > 0 ==> ps.last().c == end
    &&& forall|k: int| 0 <= k < (if ps.len() > 0 { ps[0].a } else { end }) ==> #[trigger] breakable(cs, k)
}
pub open spec fn toks_s(cs: Seq<char>, ps: Seq<Pos>) -> Seq<Tok> { ps.map(|j: int, p: Pos| tok_at(cs, p)) }
pub open spec fn flat(l: Seq<Tok>) -> Seq<char> decreases l.len() {
    if l.len() == 0 { Seq::empty() } else { flat(l.drop_last()) + l.last().text + l.last().space }
}
pub open spec fn all_s(ls: Seq<Seq<Tok>>) -> Seq<Tok> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { all_s(ls.drop_last()) + ls.last() }
}
pub open spec fn trim2(s: Seq<char>) -> Seq<char> { trim_end_2(s, ' ', '\t') }
/// where the words of a line go: the first one after another prefix
pub struct Setting { pub first: Seq<char>, pub prefix: Seq<char>, pub width: int }
pub open spec fn prefix_of(st: Setting, k: int) -> Seq<char> { if k == 0 { st.first } else { st.prefix } }
pub open spec fn line_s(st: Setting, k: int, l: Seq<Tok>) -> Seq<char> { prefix_of(st, k) + flat(l) }
pub open spec fn done_s(st: Setting, ls: Seq<Seq<Tok>>) -> Seq<char> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() } else { (done_s(st, ls.drop_last()) + trim2(line_s(st, ls.len() - 1, ls.last()))).push('\n') }
}
pub open spec fn render(st: Setting, ls: Seq<Seq<Tok>>) -> Seq<char> {
    done_s(st, ls.drop_last()) + trim2(line_s(st, ls.len() - 1, ls.last()))
}
pub uninterp spec fn starts_block_s(word: Seq<char>) -> bool;
pub uninterp spec fn only_marker_s(line: Seq<char>, prefix_width: nat) -> bool;
pub uninterp spec fn only_tag_s(line: Seq<char>, prefix_width: nat) -> bool;
/// may a piece (and the spaces after it) be put at the end of a line?
pub open spec fn may_stay(line: Seq<char>, pw: nat, first: bool, tok: Seq<char>, spaces: nat, width: int) -> bool {
    ||| str_width(line) == pw
    ||| str_width(line) + str_width(tok) + spaces <= width
    ||| starts_block_s(tok)
    ||| only_marker_s(line, pw)
    ||| first && only_tag_s(line, pw)
}
pub open spec fn stays(st: Setting, k: int, l: Seq<Tok>, t: Tok) -> bool {
    may_stay(line_s(st, k, l), str_width(prefix_of(st, k)), k == 0, t.text, t.space.len(), st.width)
}
/// C06: every piece but the first of a line is there because it fits (or may not start a line).
pub open spec fn line_ok(st: Setting, k: int, l: Seq<Tok>) -> bool {
    forall|j: int| 0 < j < l.len() ==> #[trigger] stays(st, k, l.take(j), l[j])
}
/// C05: a line ends where the next piece neither fits nor has to stay.
pub open spec fn break_ok(st: Setting, k: int, l: Seq<Tok>, next: Seq<Tok>) -> bool {
    next.len() > 0 && !stays(st, k, l, next[0])
}
pub open spec fn lines_ok(st: Setting, ls: Seq<Seq<Tok>>) -> bool {
    &&& forall|k: int| 0 <= k < ls.len() ==> #[trigger] line_ok(st, k, ls[k])
    &&& forall|k: int| 0 < k < ls.len() ==> break_ok(st, k - 1, ls[k - 1], #[trigger] ls[k])
}
/// the last piece is written without the spaces after it
pub open spec fn last_trimmed(cs: Seq<char>, ps: Seq<Pos>) -> Seq<Pos> {
    if ps.len() == 0 { ps } else { ps.drop_last().push(Pos { a: ps.last().a, b: ps.last().b, c: ps.last().b }) }
}
pub open spec fn wrapped(cs: Seq<char>, st: Setting, ls: Seq<Seq<Tok>>, ps: Seq<Pos>, r: Seq<char>) -> bool {
    &&& pieces(cs, ps, cs.len() as int)
    &&& ls.len() > 0 && all_s(ls) == toks_s(cs, last_trimmed(cs, ps))
    &&& lines_ok(st, ls)
    &&& r == render(st, ls)
}
pub proof fn lemma_line_space()
    ensures LINE_SPACE@[0] == ' ', LINE_SPACE@[1] == '\t',
{
}
pub proof fn lemma_line_space_has()
    ensures forall|c: char| LINE_SPACE@.contains(c) == (c == ' ' || c == '\t'),
{
    lemma_line_space();
    assert forall|c: char| LINE_SPACE@.contains(c) == (c == ' ' || c == '\t') by {
        if c == ' ' { assert(LINE_SPACE@[0] == c); }
        if c == '\t' { assert(LINE_SPACE@[1] == c); }
    }
}
/// the state of the loop: what has been read up to i is in pieces, then in tok and then in sp
pub open spec fn scan(cs: Seq<char>, i: int, end: int, tok: Seq<char>, sp: Seq<char>, ps: Seq<Pos>, a: int) -> bool {
    let q = if end > i { end } else { i };
    &&& 0 <= a <= i <= q <= cs.len()
    &&& forall|k: int| i <= k ==> #[trigger] reaches(cs, 0, k) == reaches(cs, q, k)
    &&& pieces(cs, ps, a) && (ps.len() > 0 ==> ps.last().b < ps.last().c)
    &&& i < end ==> tok.len() > 0 && sp.len() == 0
    &&& if tok.len() == 0 { sp.len() == 0 && a == i && ps.len() == 0 }
        else {
            &&& tok.len() + sp.len() == i - a
            &&& tok == cs.subrange(a, a + tok.len()) && sp == cs.subrange(a + tok.len(), i)
            &&& piece(cs, Pos { a, b: a + tok.len(), c: i })
        }
}
pub proof fn lemma_not_back(cs: Seq<char>, i: int, k: int)
    requires k < i,
    ensures !reaches(cs, i, k),
{
}
/// one more character
pub proof fn lemma_scan_inside(cs: Seq<char>, i: int, end: int, tok: Seq<char>, sp: Seq<char>, ps: Seq<Pos>, a: int)
    requires scan(cs, i, end, tok, sp, ps, a), i < end, i < cs.len(),
    ensures scan(cs, i + 1, end, tok.push(cs[i]), sp, ps, a),
{
    lemma_not_back(cs, end, i);
    assert(!reaches(cs, 0, i));
    assert(tok.push(cs[i]) =~= cs.subrange(a, i + 1));
    assert(sp =~= cs.subrange(i + 1, i + 1));
}
pub proof fn lemma_scan_space(cs: Seq<char>, i: int, end: int, tok: Seq<char>, sp: Seq<char>, ps: Seq<Pos>, a: int)
    requires scan(cs, i, end, tok, sp, ps, a), end <= i < cs.len(), cs[i] == ' ',
    ensures
        tok.len() == 0 ==> scan(cs, i + 1, end, tok, sp, ps, i + 1),
        tok.len() > 0 ==> scan(cs, i + 1, end, tok, sp.push(cs[i]), ps, a),
{
    assert(reaches(cs, i, i));
    assert(reaches(cs, 0, i));
    assert forall|k: int| i + 1 <= k implies #[trigger] reaches(cs, 0, k) == reaches(cs, i + 1, k) by {
        assert(reaches(cs, i, k) == reaches(cs, i + 1, k));
    }
    if tok.len() > 0 {
        assert(sp.push(cs[i]) =~= cs.subrange(a + tok.len(), i + 1));
    }
}
/// the start of a unit at i, outside of any other
pub proof fn lemma_scan_start(cs: Seq<char>, i: int, end: int, end2: int, tok: Seq<char>, sp: Seq<char>, ps: Seq<Pos>, a: int)
    requires scan(cs, i, end, tok, sp, ps, a), end <= i < cs.len(), cs[i] != ' ', unit_end(cs, i) > i,
        cs[i] == '`' || cs[i] == '[' ==> end2 == unit_end(cs, i) <= cs.len(), cs[i] != '`' && cs[i] != '[' ==> end2 == end,
    ensures
        sp.len() == 0 ==> scan(cs, i + 1, end2, tok.push(cs[i]), sp, ps, a),
        sp.len() > 0 ==> scan(cs, i + 1, end2, seq![cs[i]], Seq::empty(), ps.push(Pos { a, b: a + tok.len(), c: i }), i),
        tok_at(cs, Pos { a, b: a + tok.len(), c: i }) == (Tok { text: tok, space: sp }),
{
    assert(reaches(cs, 0, i) == reaches(cs, i, i));
    let q = if end2 > i + 1 { end2 } else { i + 1 };
    assert(q == unit_end(cs, i));
    assert forall|k: int| i + 1 <= k implies #[trigger] reaches(cs, 0, k) == reaches(cs, q, k) by {
        assert(reaches(cs, 0, k) == reaches(cs, i, k));
        if k < q { lemma_not_back(cs, q, k); }
    }
    if sp.len() == 0 {
        assert(tok.push(cs[i]) =~= cs.subrange(a, i + 1));
        assert(sp =~= cs.subrange(i + 1, i + 1));
        if tok.len() == 0 { assert(a == i); }
    } else {
        let ps2 = ps.push(Pos { a, b: a + tok.len(), c: i });
        assert(seq![cs[i]] =~= cs.subrange(i, i + 1));
        assert(Seq::<char>::empty() =~= cs.subrange(i + 1, i + 1));
        assert(piece(cs, Pos { a: i, b: i + 1, c: i + 1 }));
        assert forall|j: int| 0 < j < ps2.len() implies #[trigger] linked(ps2, j) by { if j < ps.len() { assert(linked(ps, j)); } }
        assert(pieces(cs, ps2, i));
    }
    if tok.len() == 0 {
        assert(cs.subrange(a, a) =~= tok);
        assert(cs.subrange(a, i) =~= sp);
    }
}
/// the pieces placed so far: whole lines, and the line being written
pub open spec fn placed(st: Setting, cs: Seq<char>, ps: Seq<Pos>, ls: Seq<Seq<Tok>>, cur: Seq<Tok>, result: Seq<char>, line: Seq<char>, first: bool, a: int) -> bool {
    &&& all_s(ls) + cur == toks_s(cs, ps)
    &&& result == done_s(st, ls)
    &&& line == line_s(st, ls.len() as int, cur)
    &&& first == (ls.len() == 0)
    &&& lines_ok(st, ls.push(cur))
    &&& line.len() <= st.first.len() + st.prefix.len() + a
}
pub proof fn lemma_place_stay(st: Setting, ls: Seq<Seq<Tok>>, cur: Seq<Tok>, t: Tok)
    requires lines_ok(st, ls.push(cur)), stays(st, ls.len() as int, cur, t),
    ensures
        lines_ok(st, ls.push(cur.push(t))), all_s(ls) + cur.push(t) == (all_s(ls) + cur).push(t),
        line_s(st, ls.len() as int, cur.push(t)) == line_s(st, ls.len() as int, cur) + t.text + t.space,
{
    let k = ls.len() as int;
    let (l1, l2, c2) = (ls.push(cur), ls.push(cur.push(t)), cur.push(t));
    assert(all_s(ls) + cur.push(t) =~= (all_s(ls) + cur).push(t));
    assert(c2.drop_last() =~= cur);
    assert(line_s(st, k, c2) =~= line_s(st, k, cur) + t.text + t.space);
    assert(line_ok(st, k, l1[k]));
    assert forall|j: int| 0 < j < c2.len() implies #[trigger] stays(st, k, c2.take(j), c2[j]) by {
        if j < cur.len() {
            assert(c2.take(j) =~= cur.take(j));
            assert(stays(st, k, cur.take(j), cur[j]));
        } else { assert(c2.take(j) =~= cur); }
    }
    assert forall|m: int| 0 <= m < l2.len() implies #[trigger] line_ok(st, m, l2[m]) by {
        if m < k { assert(line_ok(st, m, l1[m])); }
    }
    assert forall|m: int| 0 < m < l2.len() implies break_ok(st, m - 1, l2[m - 1], #[trigger] l2[m]) by {
        assert(break_ok(st, m - 1, l1[m - 1], l1[m]));
    }
}
pub proof fn lemma_place_break(st: Setting, ls: Seq<Seq<Tok>>, cur: Seq<Tok>, t: Tok)
    requires lines_ok(st, ls.push(cur)), !stays(st, ls.len() as int, cur, t),
    ensures
        lines_ok(st, ls.push(cur).push(seq![t])), all_s(ls.push(cur)) + seq![t] == (all_s(ls) + cur).push(t),
        line_s(st, (ls.len() + 1) as int, seq![t]) == st.prefix + t.text + t.space,
        done_s(st, ls.push(cur)) == (done_s(st, ls) + trim2(line_s(st, ls.len() as int, cur))).push('\n'),
{
    let k = ls.len() as int;
    let l1 = ls.push(cur);
    let l2 = l1.push(seq![t]);
    assert(l1.drop_last() =~= ls);
    assert(all_s(l1) =~= all_s(ls) + cur);
    assert(all_s(l1) + seq![t] =~= (all_s(ls) + cur).push(t));
    assert(seq![t].drop_last() =~= Seq::empty());
    assert(flat(Seq::<Tok>::empty()) =~= Seq::empty());
    assert(line_s(st, k + 1, seq![t]) =~= st.prefix + t.text + t.space);
    assert forall|m: int| 0 <= m < l2.len() implies #[trigger] line_ok(st, m, l2[m]) by {
        if m <= k { assert(line_ok(st, m, l1[m])); }
    }
    assert forall|m: int| 0 < m < l2.len() implies break_ok(st, m - 1, l2[m - 1], #[trigger] l2[m]) by {
        if m <= k { assert(break_ok(st, m - 1, l1[m - 1], l1[m])); }
    }
}
/// the spaces after a piece, and how wide they and the line may be
pub proof fn lemma_before_add(st: Setting, cs: Seq<char>, i: int, end: int, tok: Seq<char>, sp: Seq<char>, ps: Seq<Pos>, ls: Seq<Seq<Tok>>, cur: Seq<Tok>, result: Seq<char>, line: Seq<char>, first: bool, a: int)
    requires scan(cs, i, end, tok, sp, ps, a), placed(st, cs, ps, ls, cur, result, line, first, a),
    ensures forall|k: int| 0 <= k < sp.len() ==> #[trigger] sp[k] == ' ',
        str_width(line) <= 4 * (st.first.len() + st.prefix.len() + cs.len()), str_width(tok) + sp.len() <= 5 * cs.len(),
{
    ax_width_bound(line);
    ax_width_bound(tok);
    if tok.len() > 0 {
        assert forall|k: int| 0 <= k < sp.len() implies #[trigger] sp[k] == ' ' by {
            assert(breakable(cs, a + tok.len() + k));
        }
    }
}
/// one piece more
pub proof fn lemma_place(st: Setting, cs: Seq<char>, ps: Seq<Pos>, p: Pos, ps2: Seq<Pos>, ls: Seq<Seq<Tok>>, cur: Seq<Tok>, result: Seq<char>, line: Seq<char>, first: bool, a: int)
    requires placed(st, cs, ps, ls, cur, result, line, first, a), ps2 == ps.push(p), 0 <= p.a <= p.b <= p.c <= cs.len(), a <= p.a,
    ensures ({
        let t = tok_at(cs, p);
        if stays(st, ls.len() as int, cur, t) { placed(st, cs, ps2, ls, cur.push(t), result, line + t.text + t.space, first, p.c) }
        else { placed(st, cs, ps2, ls.push(cur), seq![t], (result + trim2(line)).push('\n'), st.prefix + t.text + t.space, false, p.c) }
    }),
{
    let t = tok_at(cs, p);
    assert(toks_s(cs, ps2) =~= toks_s(cs, ps).push(t));
    if stays(st, ls.len() as int, cur, t) { lemma_place_stay(st, ls, cur, t); } else { lemma_place_break(st, ls, cur, t); }
}
// ---------------------------------------------------------------- lines that are kept, lines that are merged
/// the first word of a line
pub open spec fn first_nonempty(p: Seq<Seq<char>>) -> Option<Seq<char>> decreases p.len() {
    if p.len() == 0 { None } else if p[0].len() > 0 { Some(p[0]) } else { first_nonempty(p.drop_first()) }
}
pub broadcast proof fn lemma_first_none(p: Seq<&str>)
    requires forall|j: int| 0 <= j < p.len() ==> (#[trigger] p[j])@.len() == 0,
    ensures #[trigger] first_nonempty(views(p)) is None,
    decreases p.len(),
{
    if p.len() > 0 { assert(views(p).drop_first() =~= views(p.drop_first())); lemma_first_none(p.drop_first()); }
}
pub broadcast proof fn lemma_first_at(p: Seq<&str>, n: int)
    requires 0 <= n < p.len(), forall|j: int| 0 <= j < n ==> (#[trigger] p[j])@.len() == 0, p[n]@.len() > 0,
    ensures #![trigger first_nonempty(views(p)), p[n]] first_nonempty(views(p)) == Some(p[n]@),
    decreases p.len(),
{
    if n > 0 {
        assert(views(p).drop_first() =~= views(p.drop_first()));
        assert forall|j: int| 0 <= j < n - 1 implies (#[trigger] p.drop_first()[j])@.len() == 0 by { assert(p[j + 1]@.len() == 0); }
        lemma_first_at(p.drop_first(), n - 1);
    }
}
pub open spec fn first_word(line: Seq<char>) -> Option<Seq<char>> { first_nonempty(split_2(line, ' ', '\t')) }
pub open spec fn stays_on_line(line: Seq<char>) -> bool {
    match first_word(line) { Some(w) => starts_block_s(w), None => false }
}
pub open spec fn join_lines(parts: Seq<Seq<char>>) -> Seq<Seq<char>> decreases parts.len() {
    if parts.len() == 0 { Seq::empty() }
    else {
        let (before, line) = (join_lines(parts.drop_last()), parts.last());
        if before.len() > 0 && stays_on_line(line) { before.drop_last().push(before.last().push(' ') + trim_start_2(line, ' ', '\t')) }
        else { before.push(line) }
    }
}
/// the lines of the text: a line break stays one unless the word after it would start a block
pub open spec fn original_lines_s(text: Seq<char>) -> Seq<Seq<char>> { join_lines(split_s(text, '\0')) }
pub open spec fn trim_both_2(s: Seq<char>) -> Seq<char> { trim_start_2(trim_end_2(s, ' ', '\t'), ' ', '\t') }
/// the lines from j on, as one
pub open spec fn merged_up_to(lines: Seq<Seq<char>>, j: int, end: int) -> Seq<char> decreases end - j {
    if end <= j + 1 { trim_both_2(lines[j]) } else { merged_up_to(lines, j, end - 1).push(' ') + trim_both_2(lines[end - 1]) }
}
pub open spec fn merged_s(lines: Seq<Seq<char>>, j: int) -> Seq<char> { merged_up_to(lines, j, lines.len() as int) }
pub open spec fn fits(st: Setting, k: int, line: Seq<char>) -> bool { str_width(prefix_of(st, k)) + str_width(trim_both_2(line)) <= st.width }
pub open spec fn on_a_line(before: Seq<char>, text: Seq<char>) -> Seq<char> {
    (if before.len() > 0 { before.push('\n') } else { before }) + text
}
/// the characters of the lines and the breaks after them
pub open spec fn total(p: Seq<Seq<char>>) -> nat decreases p.len() { if p.len() == 0 { 0 } else { total(p.drop_last()) + p.last().len() + 1 } }
pub proof fn lemma_split_total(s: Seq<char>, c: char)
    ensures total(split_s(s, c)) == s.len() + 1, split_s(s, c).len() > 0,
    decreases s.len(),
{
    if s.len() == 0 {
        let r = split_s(s, c);
        assert(r == seq![Seq::<char>::empty()]);
        assert(r.drop_last() =~= Seq::empty());
        assert(total(r) == total(r.drop_last()) + r.last().len() + 1);
        assert(total(r.drop_last()) == 0);
    } else {
        lemma_split_total(s.drop_last(), c);
        let p = split_s(s.drop_last(), c);
        let r = split_s(s, c);
        assert(total(p) == total(p.drop_last()) + p.last().len() + 1);
        if s.last() == c { assert(r == p.push(Seq::empty())); assert(r.drop_last() =~= p); }
        else { assert(r == p.drop_last().push(p.last().push(s.last()))); assert(r.drop_last() =~= p.drop_last()); }
        assert(total(r) == total(r.drop_last()) + r.last().len() + 1);
    }
}
pub proof fn lemma_join_total(p: Seq<Seq<char>>)
    ensures total(join_lines(p)) <= total(p), p.len() > 0 ==> join_lines(p).len() > 0,
    decreases p.len(),
{
    if p.len() > 0 {
        lemma_join_total(p.drop_last());
        lemma_trim_start_2_len(p.last());
        let (b, r) = (join_lines(p.drop_last()), join_lines(p));
        if b.len() > 0 && stays_on_line(p.last()) { assert(r.drop_last() =~= b.drop_last()); } else { assert(r.drop_last() =~= b); }
    }
}
pub proof fn lemma_total_take(l: Seq<Seq<char>>, n: int)
    requires 0 <= n <= l.len(),
    ensures total(l.take(n)) <= total(l),
    decreases l.len(),
{
    if n < l.len() { lemma_total_take(l.drop_last(), n); assert(l.drop_last().take(n) =~= l.take(n)); } else { assert(l.take(n) =~= l); }
}
pub proof fn lemma_merged_total(l: Seq<Seq<char>>, j: int, end: int)
    requires 0 <= j < end <= l.len(),
    ensures merged_up_to(l, j, end).len() + 1 <= total(l.take(end)),
    decreases end - j,
{
    assert(l.take(end).drop_last() =~= l.take(end - 1));
    lemma_trim_both_len(l[end - 1]);
    lemma_trim_both_len(l[j]);
    if end > j + 1 { lemma_merged_total(l, j, end - 1); }
}
pub proof fn lemma_trim_both_len(s: Seq<char>)
    ensures trim_both_2(s).len() <= s.len(),
{
    lemma_trim_end_2_len(s);
    lemma_trim_start_2_len(trim_end_2(s, ' ', '\t'));
}
pub proof fn lemma_trim_end_2_len(s: Seq<char>)
    ensures trim_end_2(s, ' ', '\t').len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_trim_end_2_len(s.drop_last()); }
}
pub proof fn lemma_trim_start_2_len(s: Seq<char>)
    ensures trim_start_2(s, ' ', '\t').len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 { lemma_trim_start_2_len(s.drop_first()); }
}
pub proof fn lemma_merged_len(lines: Seq<Seq<char>>, j: int, end: int)
    requires 0 <= j < end <= lines.len(),
    ensures trim_both_2(lines[j]).len() <= merged_up_to(lines, j, end).len(),
    decreases end - j,
{
    if end > j + 1 { lemma_merged_len(lines, j, end - 1); }
}
/// the first n lines as they are
pub open spec fn kept_s(st: Setting, lines: Seq<Seq<char>>, n: int) -> Seq<char> decreases n {
    if n <= 0 { Seq::empty() } else { on_a_line(kept_s(st, lines, n - 1), prefix_of(st, n - 1) + trim_both_2(lines[n - 1])) }
}
/// is this the text wrapped?
#[verifier::opaque]
pub open spec fn is_wrapped(cs: Seq<char>, st: Setting, r: Seq<char>) -> bool {
    exists|ls: Seq<Seq<Tok>>, ps: Seq<Pos>| #[trigger] wrapped(cs, st, ls, ps, r)
}
pub open spec fn from_line(st: Setting, k: int) -> Setting { Setting { first: prefix_of(st, k), prefix: st.prefix, width: st.width } }
/// C06: the first n lines fit and are kept, and the others are wrapped as one
pub open spec fn kept_then_wrapped(lines: Seq<Seq<char>>, st: Setting, r: Seq<char>, n: int) -> bool {
    &&& 0 <= n < lines.len()
    &&& forall|k: int| 0 <= k < n ==> #[trigger] fits(st, k, lines[k])
    &&& !fits(st, n, lines[n])
    &&& exists|w: Seq<char>| r == on_a_line(kept_s(st, lines, n), w) && #[trigger] is_wrapped(merged_s(lines, n), from_line(st, n), w)
}
pub open spec fn kept(lines: Seq<Seq<char>>, st: Setting, r: Seq<char>, n: int) -> bool {
    &&& r == kept_s(st, lines, n)
    &&& forall|k: int| 0 <= k < n ==> #[trigger] fits(st, k, lines[k])
}
pub open spec fn segment_ok(text: Seq<char>, st: Setting, r: Seq<char>) -> bool {
    let lines = original_lines_s(text);
    if lines.len() == 1 { is_wrapped(lines[0], st, r) }
    else { kept(lines, st, r, lines.len() as int) || exists|n: int| #[trigger] kept_then_wrapped(lines, st, r, n) }
}
// ---------------------------------------------------------------- what follows for C05 and C06
/// the axiom of starts_block_is, for words of the specification
pub axiom fn ax_starts_block(w: Seq<char>) ensures interrupts_s(w) ==> starts_block_s(w);
pub proof fn lemma_pieces_flat(cs: Seq<char>, ps: Seq<Pos>, end: int)
    requires pieces(cs, ps, end), ps.len() > 0,
    ensures flat(toks_s(cs, ps)) == cs.subrange(ps[0].a, end), ps[0].a <= end,
    decreases ps.len(),
{
    let (p, q) = (ps.last(), ps.drop_last());
    assert(piece(cs, p));
    assert(toks_s(cs, ps).drop_last() =~= toks_s(cs, q));
    let t = toks_s(cs, ps).last();
    assert(t == tok_at(cs, p));
    assert(flat(toks_s(cs, ps)) == flat(toks_s(cs, q)) + t.text + t.space);
    if q.len() > 0 {
        assert forall|j: int| 0 < j < q.len() implies #[trigger] linked(q, j) by { assert(linked(ps, j)); }
        assert(linked(ps, ps.len() - 1));
        assert forall|j: int| 0 <= j < q.len() implies piece(cs, #[trigger] q[j]) by { assert(piece(cs, ps[j])); }
        assert(ps[ps.len() - 1].a == q.last().c);
        lemma_pieces_flat(cs, q, p.a);
        assert(flat(toks_s(cs, ps)) =~= cs.subrange(ps[0].a, end));
    } else {
        assert(toks_s(cs, q) =~= Seq::empty());
        assert(flat(toks_s(cs, ps)) =~= cs.subrange(ps[0].a, end));
    }
}
/// C05: no word is lost, repeated or moved, and no line break is put where there is not a space outside
/// of code spans and brackets
pub proof fn theorem_words(cs: Seq<char>, st: Setting, ls: Seq<Seq<Tok>>, ps: Seq<Pos>, r: Seq<char>)
    requires wrapped(cs, st, ls, ps, r),
    ensures
        all_s(ls) == toks_s(cs, last_trimmed(cs, ps)),
        ps.len() > 0 ==> flat(toks_s(cs, ps)) == cs.skip(ps[0].a) && forall|k: int| 0 <= k < ps[0].a ==> (#[trigger] cs[k]) == ' ',
        ps.len() == 0 ==> forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]) == ' ',
        forall|j: int| 0 < j < ps.len() ==> cs[(#[trigger] ps[j]).a - 1] == ' ' && reaches(cs, 0, ps[j].a - 1),
{
    if ps.len() > 0 {
        lemma_pieces_flat(cs, ps, cs.len() as int);
        assert(cs.subrange(ps[0].a, cs.len() as int) =~= cs.skip(ps[0].a));
        assert forall|k: int| 0 <= k < ps[0].a implies (#[trigger] cs[k]) == ' ' by { assert(breakable(cs, k)); }
    } else {
        assert forall|k: int| 0 <= k < cs.len() implies (#[trigger] cs[k]) == ' ' by { assert(breakable(cs, k)); }
    }
    assert forall|j: int| 0 < j < ps.len() implies cs[(#[trigger] ps[j]).a - 1] == ' ' && reaches(cs, 0, ps[j].a - 1) by {
        assert(piece(cs, ps[j - 1]));
        assert(linked(ps, j));
        assert(breakable(cs, ps[j].a - 1));
    }
}
/// C05: no line but the first starts with a word that would start a block there
pub proof fn theorem_line_starts(cs: Seq<char>, st: Setting, ls: Seq<Seq<Tok>>, ps: Seq<Pos>, r: Seq<char>)
    requires wrapped(cs, st, ls, ps, r),
    ensures forall|k: int| 0 < k < ls.len() ==> (#[trigger] ls[k]).len() > 0 && !interrupts_s(ls[k][0].text),
{
    assert forall|k: int| 0 < k < ls.len() implies (#[trigger] ls[k]).len() > 0 && !interrupts_s(ls[k][0].text) by {
        assert(break_ok(st, k - 1, ls[k - 1], ls[k]));
        ax_starts_block(ls[k][0].text);
    }
}
/// C06: a piece is added to a line that has one only when it fits there, or would start a block on a line
/// of its own, or the line before it would be one
pub proof fn theorem_lines_fit(cs: Seq<char>, st: Setting, ls: Seq<Seq<Tok>>, ps: Seq<Pos>, r: Seq<char>, k: int, j: int)
    requires wrapped(cs, st, ls, ps, r), 0 <= k < ls.len(), 0 < j < ls[k].len(),
        str_width(line_s(st, k, ls[k].take(j))) != str_width(prefix_of(st, k)),
        !starts_block_s(ls[k][j].text), !only_marker_s(line_s(st, k, ls[k].take(j)), str_width(prefix_of(st, k))),
        k > 0 || !only_tag_s(line_s(st, k, ls[k].take(j)), str_width(prefix_of(st, k))),
    ensures str_width(line_s(st, k, ls[k].take(j))) + str_width(ls[k][j].text) + ls[k][j].space.len() <= st.width,
{
    assert(line_ok(st, k, ls[k]));
    assert(stays(st, k, ls[k].take(j), ls[k][j]));
}
/// C06: a line is broken only where the next piece does not fit
pub proof fn theorem_lines_full(cs: Seq<char>, st: Setting, ls: Seq<Seq<Tok>>, ps: Seq<Pos>, r: Seq<char>, k: int)
    requires wrapped(cs, st, ls, ps, r), 0 < k < ls.len(),
    ensures ls[k].len() > 0, str_width(line_s(st, k - 1, ls[k - 1])) + str_width(ls[k][0].text) + ls[k][0].space.len() > st.width,
{
    assert(break_ok(st, k - 1, ls[k - 1], ls[k]));
}
// ---------------------------------------------------------------- hard line breaks
pub open spec fn blank_s(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) == '\0' || s[i] == ' ' || s[i] == '\t' }
/// what is written for a hard line break: a backslash where two spaces would be on a line of their own
pub open spec fn break_s(seg: Seq<char>) -> Seq<char> { if blank_s(seg) { seq!['\\', '\n'] } else { seq![' ', ' ', '\n'] } }
pub uninterp spec fn escaped_start_s(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
pub fn escape_block_start(text: &str) -> (r: String) ensures r@ == escaped_start_s(text@), r@.len() <= text@.len() + 1 { unimplemented!() }
pub open spec fn seg_text(segs: Seq<Seq<char>>, k: int) -> Seq<char> { if k == 0 { segs[k] } else { escaped_start_s(segs[k]) } }
pub open spec fn part_ok(segs: Seq<Seq<char>>, st: Setting, k: int, part: Seq<char>) -> bool {
    if blank_s(seg_text(segs, k)) { part == prefix_of(st, k) } else { segment_ok(seg_text(segs, k), from_line(st, k), part) }
}
pub open spec fn with_breaks(segs: Seq<Seq<char>>, parts: Seq<Seq<char>>) -> Seq<char> decreases parts.len() {
    if parts.len() == 0 { Seq::empty() }
    else if parts.len() == 1 { parts[0] }
    else { with_breaks(segs, parts.drop_last()) + break_s(segs[parts.len() - 2]) + parts.last() }
}
/// C05: as many hard line breaks as the text has, each between the segments it is between
pub open spec fn parts_ok(segs: Seq<Seq<char>>, st: Setting, parts: Seq<Seq<char>>) -> bool {
    forall|k: int| 0 <= k < parts.len() ==> part_ok(segs, st, k, #[trigger] parts[k])
}
pub open spec fn text_ok(text: Seq<char>, st: Setting, r: Seq<char>) -> bool {
    let segs = split_s(text, '\n');
    if segs.len() == 1 { segment_ok(text, st, r) }
    else { exists|parts: Seq<Seq<char>>| parts.len() == segs.len() && r == with_breaks(segs, parts) && #[trigger] parts_ok(segs, st, parts) }
}
pub broadcast proof fn lemma_skip_add(a: Seq<char>, b: Seq<char>, n: int)
    requires n == a.len(),
    ensures #[trigger] (a + b).skip(n) == b,
{
    assert((a + b).skip(n) =~= b);
}
pub proof fn lemma_split_len(s: Seq<char>, c: char, k: int)
    requires 0 <= k < split_s(s, c).len(),
    ensures split_s(s, c)[k].len() <= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_split_total(s.drop_last(), c);
        let p = split_s(s.drop_last(), c);
        let j = if k < p.len() { k } else { p.len() - 1 };
        lemma_split_len(s.drop_last(), c, j);
    }
}
/// words that interrupt a paragraph at the start of a line
pub open spec fn ordered_one(w: Seq<char>) -> bool {
    w.len() > 0 && (w.last() == '.' || w.last() == ')') && trim_start_c(w.drop_last(), '0') == seq!['1']
}
pub open spec fn interrupts_s(w: Seq<char>) -> bool {
    ||| w.len() > 0 && w[0] == '>'
    ||| w.len() >= 3 && w[0] == '~' && w[1] == '~' && w[2] == '~'
    ||| forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) == '-' || w[i] == '+' || w[i] == '=' || w[i] == '|' || w[i] == ':'
    ||| w.len() <= 6 && forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) == '#'
    ||| ordered_one(w)
    ||| w.len() >= 2 && w[0] == '[' && w[1] == '^' && seq_occurs(w, seq![']', ':'])
    ||| w.len() >= 2 && w[0] == '<' && (w[1] == '!' || w[1] == '?')
}
/// starts_block below as a function of its argument: it has no state
#[verifier::external_body]
pub fn starts_block_is(word: &str) -> (r: bool) ensures r == starts_block_s(word@), interrupts_s(word@) ==> r { unimplemented!() }
pub trait HdOr<'a> { spec fn ov(&self) -> Option<&'a str>; fn hd_or(self, b: Option<&'a str>) -> (r: Option<&'a str>) ensures r == (if self.ov().is_some() { self.ov() } else { b }); }
impl<'a> HdOr<'a> for Option<&'a str> {
    open spec fn ov(&self) -> Option<&'a str> { *self }
    #[verifier::external_body] fn hd_or(self, b: Option<&'a str>) -> (r: Option<&'a str>) { self.or(b) }
}
/// the list of the names of HTML tags: what is in it is not under contract
pub struct HtmlBlockTags;
pub const HTML_BLOCK_TAGS: HtmlBlockTags = HtmlBlockTags;
impl HtmlBlockTags { #[verifier::external_body] pub fn hd_has(&self, name: &&str) -> bool { unimplemented!() } }
pub trait HdLower { fn hd_lower(&self) -> String; }
impl HdLower for String { #[verifier::external_body] fn hd_lower(&self) -> String { self.to_ascii_lowercase() } }
#[verifier::external_body]
pub fn is_only_block_marker(line: &str, prefix_width: usize) -> (r: bool) ensures r == only_marker_s(line@, prefix_width as nat) { unimplemented!() }
#[verifier::external_body]
pub fn is_only_html_tag(line: &str, prefix_width: usize) -> (r: bool) ensures r == only_tag_s(line@, prefix_width as nat) { unimplemented!() }
%% item LINE_SPACE
%% fn find_code_span_end
%% ret r
%% spec
    requires start < chars@.len(), chars@[start as int] == '`', chars@.len() <= 0x7fff_ffff_ffff_ffff,
    ensures r == code_end_s(chars@, start as int), start < r <= chars@.len(),
%% at start
    proof { lemma_code_end(chars@, start as int); lemma_run_end(chars@, start as int); }
%% loop 0
    invariant
        backslashes <= start < chars@.len(),
        odd_backslashes(chars@, start as int) == (odd_backslashes(chars@, start - backslashes) == (backslashes % 2 == 0)),
    ensures !odd_backslashes(chars@, start - backslashes),
    decreases start - backslashes,
%% loop 1
    invariant
        start <= opening <= chars@.len(), run_end(chars@, start as int) == run_end(chars@, opening as int),
    ensures opening == run_end(chars@, start as int),
    decreases chars@.len() - opening,
%% loop 2
    invariant
        start < chars@.len(), chars@[start as int] == '`', opening == run_end(chars@, start as int), start < opening, !odd_backslashes(chars@, start as int),
        opening <= i <= chars@.len(), chars@.len() <= 0x7fff_ffff_ffff_ffff,
        closing(chars@, opening as int, opening - start) == closing(chars@, i as int, opening - start),
        start < code_end_s(chars@, start as int) <= chars@.len(),
    decreases chars@.len() - i,
%% at loop 2 start
    proof { lemma_run_end(chars@, i as int); }
%% loop 3
    invariant
        i <= closing <= chars@.len(), run_end(chars@, i as int) == run_end(chars@, closing as int),
    ensures closing == run_end(chars@, i as int),
    decreases chars@.len() - closing,

%% fn find_bracket_ends
%% ret r
%% spec
    requires chars@.len() <= 0x7fff_ffff_ffff_ffff,
    ensures ints(r@) == bracket_ends_s(chars@), forall|i: int| 0 <= i < chars@.len() ==> i < #[trigger] r@[i] <= chars@.len(), r@.len() == chars@.len(),
%% loop 0
    invariant
        chars@.len() <= 0x7fff_ffff_ffff_ffff, i <= chars@.len() + 1,
        ends@.len() == chars@.len(),
        forall|k: int| 0 <= k < open@.len() ==> (#[trigger] open@[k]) < i && open@[k] < chars@.len(),
        forall|k: int| 0 <= k < chars@.len() ==> k < #[trigger] ends@[k] <= chars@.len(),
        brackets_s(chars@, i as int, ints(open@), ints(ends@)) == bracket_ends_s(chars@),
    decreases chars@.len() + 1 - i,
%% at loop 0 before
    proof {
        assert(ints(open@) =~= Seq::empty());
        assert(ints(ends@) =~= Seq::new(chars@.len(), |i: int| i + 1));
    }
%% at loop 0 start
    let ghost (o0, e0, i0) = (open@, ends@, i);
%% at loop 0 end
    proof {
        if chars@[i0 as int] == '[' { assert(ints(open@) =~= ints(o0).push(i0 as int)); }
        if chars@[i0 as int] == ']' && o0.len() > 0 {
            assert(ints(open@) =~= ints(o0).drop_last());
            assert(ints(ends@) =~= ints(e0).update(ints(o0).last(), i0 + 1));
        }
    }

%% fn add_token_to_line_with_prefix
%% path starts_block => starts_block_is
%% spec
    requires
        forall|i: int| 0 <= i < trailing_spaces@.len() ==> #[trigger] trailing_spaces@[i] == ' ',
        str_width(old(current_line)@) <= 0x3fff_ffff_ffff_ffff, str_width(token@) + trailing_spaces@.len() <= 0x3fff_ffff_ffff_ffff,
    ensures ({
        let pw = if *old(is_first_line) { first_prefix_width as nat } else { str_width(prefix@) };
        if may_stay(old(current_line)@, pw, *old(is_first_line), token@, trailing_spaces@.len(), line_width as int) {
            &&& final(result)@ == old(result)@
            &&& final(current_line)@ == old(current_line)@ + token@ + trailing_spaces@
            &&& *final(is_first_line) == *old(is_first_line)
        } else {
            &&& final(result)@ == (old(result)@ + trim2(old(current_line)@)).push('\n')
            &&& final(current_line)@ == prefix@ + token@ + trailing_spaces@
            &&& !*final(is_first_line)
        }
    }),
%% at start
    proof { ax_ascii_len(trailing_spaces); lemma_line_space(); }


%% fn wrap_single_segment
%% ret r
%% spec
    requires text@.len() <= 0xff_ffff_ffff_ffff, first_prefix@.len() <= 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff,
    ensures is_wrapped(text@, Setting { first: first_prefix@, prefix: prefix@, width: line_width as int }, r@),
%% at start
    let ghost st = Setting { first: first_prefix@, prefix: prefix@, width: line_width as int };
    let ghost cs = text@;
    let ghost mut ls: Seq<Seq<Tok>> = Seq::empty();
    let ghost mut cur: Seq<Tok> = Seq::empty();
    let ghost mut ps: Seq<Pos> = Seq::empty();
    let ghost mut a: int = 0;
%% loop 0
    invariant
        cs == text@, chars@ == text@, hdv0@ == cs, cs.len() <= 0xff_ffff_ffff_ffff, first_prefix@.len() <= 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff,
        st == (Setting { first: first_prefix@, prefix: prefix@, width: line_width as int }),
        first_prefix_width == str_width(first_prefix@),
        ints(bracket_ends@) == bracket_ends_s(cs), bracket_ends@.len() == cs.len(), forall|i: int| 0 <= i < cs.len() ==> i < #[trigger] bracket_ends@[i] <= cs.len(),
        scan(cs, hdk0 as int, unbreakable_end as int, current_token@, trailing_spaces@, ps, a),
        placed(st, cs, ps, ls, cur, result@, current_line@, is_first_line, a),
%% at loop 0 before
    proof {
        assert(all_s(ls) + cur =~= toks_s(cs, ps));
        assert(flat(cur) =~= Seq::empty());
        assert(current_line@ =~= line_s(st, 0, cur));
        assert(lines_ok(st, ls.push(cur)));
    }
%% at loop 0 start
    let ghost (tok0, sp0, end0) = (current_token@, trailing_spaces@, unbreakable_end as int);
    let ghost (result0, line0, first0) = (result@, current_line@, is_first_line);
    let ghost p0 = Pos { a, b: a + current_token@.len(), c: hdk0 as int };
    proof {
        lemma_before_add(st, cs, hdk0 as int, end0, tok0, sp0, ps, ls, cur, result0, line0, first0, a);
        if cs[hdk0 as int] == '`' { lemma_code_end(cs, hdk0 as int); }
        assert(ints(bracket_ends@)[hdk0 as int] == bracket_ends@[hdk0 as int]);
    }
%% at loop 0 end
    proof {
        let i = hdk0 as int;
        if i < end0 {
            lemma_scan_inside(cs, i, end0, tok0, sp0, ps, a);
        } else if cs[i] == ' ' {
            lemma_scan_space(cs, i, end0, tok0, sp0, ps, a);
            if tok0.len() == 0 { a = i + 1; }
        } else {
            lemma_scan_start(cs, i, end0, unbreakable_end as int, tok0, sp0, ps, a);
            if tok0.len() > 0 && sp0.len() > 0 {
                let t = tok_at(cs, p0);
                lemma_place(st, cs, ps, p0, ps.push(p0), ls, cur, result0, line0, first0, a);
                if stays(st, ls.len() as int, cur, t) { cur = cur.push(t); } else { ls = ls.push(cur); cur = seq![t]; }
                ps = ps.push(p0);
                a = i;
            }
        }
    }
%% at loop 0 after
    let ghost p1 = Pos { a, b: a + current_token@.len(), c: cs.len() as int };
    let ghost p2 = Pos { a, b: a + current_token@.len(), c: a + current_token@.len() };
    let ghost (ps1, ls1, cur1, tok1, sp1) = (ps, ls, cur, current_token@, trailing_spaces@);
    let ghost (result0, line0, first0) = (result@, current_line@, is_first_line);
    proof {
        lemma_before_add(st, cs, cs.len() as int, unbreakable_end as int, tok1, sp1, ps, ls, cur, result0, line0, first0, a);
        if tok1.len() > 0 {
            assert(tok_at(cs, p2) == (Tok { text: tok1, space: Seq::empty() })) by { assert(cs.subrange(p2.b, p2.c) =~= Seq::empty()); }
            lemma_place(st, cs, ps, p2, ps.push(p2), ls, cur, result0, line0, first0, a);
            let t = tok_at(cs, p2);
            if stays(st, ls.len() as int, cur, t) { cur = cur.push(t); } else { ls = ls.push(cur); cur = seq![t]; }
            ps = ps.push(p1);
            assert(last_trimmed(cs, ps) =~= ps1.push(p2));
            assert forall|j: int| 0 < j < ps.len() implies #[trigger] linked(ps, j) by { if j < ps1.len() { assert(linked(ps1, j)); } }
            assert(pieces(cs, ps, cs.len() as int));
        } else {
            assert(last_trimmed(cs, ps) =~= ps);
        }
    }
%% at end
    proof {
        lemma_line_space();
        assert(ls.push(cur).drop_last() =~= ls);
        assert(all_s(ls.push(cur)) =~= all_s(ls) + cur);
        assert(result@ =~= render(st, ls.push(cur)));
        assert(wrapped(text@, st, ls.push(cur), ps, result@));
        reveal(is_wrapped);
    }

%% fn split_original_lines
%% path starts_block => starts_block_is
%% ret r
%% spec
    ensures sviews(r@) == original_lines_s(text@), r@.len() > 0, r@.len() == 1 ==> r@[0]@ == original_lines_s(text@)[0] && r@[0]@.len() <= text@.len(),
        forall|j: int| 0 <= j < r@.len() ==> (#[trigger] merged_s(sviews(r@), j)).len() <= text@.len(),
%% loop 0
    invariant
        views(hdv0@) == split_s(text@, '\0'), LINE_SPACE@[0] == ' ', LINE_SPACE@[1] == '\t',
        sviews(lines@) == join_lines(split_s(text@, '\0').take(hdk0 as int)), lines@.len() == sviews(lines@).len(),
%% at loop 0 before
    proof { lemma_line_space(); assert(sviews(lines@) =~= join_lines(split_s(text@, '\0').take(0))); }
%% at loop 0 start
    broadcast use lemma_first_none, lemma_first_at;
    let ghost (lines0, p0, k0) = (lines@, split_s(text@, '\0'), hdk0 as int);
    proof {
        assert(views(hdv0@)[k0] == p0[k0]);
        assert(p0.take(k0 + 1).drop_last() =~= p0.take(k0));
        assert(p0.take(k0 + 1).last() == p0[k0]);
    }
%% at loop 0 end
    proof {
        let l1 = p0[k0];
        assert(join_lines(p0.take(k0 + 1)) == (if sviews(lines0).len() > 0 && stays_on_line(l1) { sviews(lines0).drop_last().push(sviews(lines0).last().push(' ') + trim_start_2(l1, ' ', '\t')) } else { sviews(lines0).push(l1) }));
        assert(lines@.len() == lines0.len() <==> (sviews(lines0).len() > 0 && stays_on_line(l1)));
        assert(sviews(lines@) =~= join_lines(p0.take(k0 + 1)));
    }
%% at end
    proof {
        let p = split_s(text@, '\0');
        assert(p.take(p.len() as int) =~= p);
        lemma_split_total(text@, '\0');
        lemma_join_total(p);
        let l = sviews(lines@);
        assert forall|j: int| 0 <= j < l.len() implies (#[trigger] merged_s(l, j)).len() <= text@.len() by {
            lemma_merged_total(l, j, l.len() as int);
            assert(l.take(l.len() as int) =~= l);
        }
        if l.len() == 1 { assert(l.drop_last() =~= Seq::empty()); assert(l[0] == lines@[0]@); }
    }

%% fn wrap_text_segment
%% ret r
%% spec
    requires text@.len() <= 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff,
    ensures segment_ok(text@, Setting { first: prefix@, prefix: prefix@, width: line_width as int }, r@),
%% at start
    let ghost st = Setting { first: prefix@, prefix: prefix@, width: line_width as int };
    let ghost lines = original_lines_s(text@);
    let ghost mut done = false;
    proof { lemma_line_space(); }
%% loop 0
    invariant
        st == (Setting { first: prefix@, prefix: prefix@, width: line_width as int }), LINE_SPACE@[0] == ' ', LINE_SPACE@[1] == '\t',
        lines == original_lines_s(text@), lines == sviews(original_lines@), lines.len() == original_lines@.len(), lines.len() > 1,
        text@.len() <= 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff,
        forall|j: int| 0 <= j < lines.len() ==> (#[trigger] merged_s(lines, j)).len() <= text@.len(),
        i <= original_lines@.len(), 
        !done ==> kept(lines, st, result@, i as int),
        done ==> i == lines.len() && exists|n: int| #[trigger] kept_then_wrapped(lines, st, result@, n),
    decreases original_lines@.len() - i,
%% at loop 0 start
    let ghost (i0, result0) = (i as int, result@);
    proof {
        assert(lines[i0] == original_lines@[i0]@);
        assert(kept_s(st, lines, i0 + 1) == on_a_line(kept_s(st, lines, i0), prefix_of(st, i0) + trim_both_2(lines[i0])));
        lemma_trim_both_len(lines[i0]);
        assert(merged_s(lines, i0).len() <= text@.len());
        lemma_merged_len(lines, i0, lines.len() as int);
        assert(from_line(st, i0) == (Setting { first: (if i0 == 0 { prefix@ } else { prefix@ }), prefix: prefix@, width: line_width as int }));
        ax_width_bound(prefix@); ax_width_bound(prefix@); ax_width_bound(trim_both_2(lines[i0]));
    }
%% at loop 0 end
    proof {
        if fits(st, i0, lines[i0]) {
            assert(result@ =~= kept_s(st, lines, i0 + 1));
            assert(kept(lines, st, result@, i as int));
        } else {
            assert(kept_then_wrapped(lines, st, result@, i0));
            done = true;
        }
    }
%% loop 1
    invariant
        LINE_SPACE@[0] == ' ', LINE_SPACE@[1] == '\t',
        lines == sviews(original_lines@), lines.len() == original_lines@.len(),
        i0 < i <= original_lines@.len(), 0 <= i0,
        merged@ == merged_up_to(lines, i0, i as int),
    decreases original_lines@.len() - i,
%% at loop 1 start
    proof { assert(lines[i as int] == original_lines@[i as int]@); }
%% at loop 1 after
    assert(merged@ == merged_s(lines, i0));

%% fn wrap_text_first_line_segment
%% ret r
%% spec
    requires text@.len() <= 0xff_ffff_ffff_ffff, first_prefix@.len() <= 0xff_ffff_ffff_ffff, continuation_prefix@.len() <= 0xff_ffff_ffff_ffff,
    ensures segment_ok(text@, Setting { first: first_prefix@, prefix: continuation_prefix@, width: line_width as int }, r@),
%% at start
    let ghost st = Setting { first: first_prefix@, prefix: continuation_prefix@, width: line_width as int };
    let ghost lines = original_lines_s(text@);
    let ghost mut done = false;
    proof { lemma_line_space(); }
%% loop 0
    invariant
        st == (Setting { first: first_prefix@, prefix: continuation_prefix@, width: line_width as int }), LINE_SPACE@[0] == ' ', LINE_SPACE@[1] == '\t',
        lines == original_lines_s(text@), lines == sviews(original_lines@), lines.len() == original_lines@.len(), lines.len() > 1,
        text@.len() <= 0xff_ffff_ffff_ffff, first_prefix@.len() <= 0xff_ffff_ffff_ffff, continuation_prefix@.len() <= 0xff_ffff_ffff_ffff,
        forall|j: int| 0 <= j < lines.len() ==> (#[trigger] merged_s(lines, j)).len() <= text@.len(),
        i <= original_lines@.len(), is_first_line == (i == 0),
        !done ==> kept(lines, st, result@, i as int),
        done ==> i == lines.len() && exists|n: int| #[trigger] kept_then_wrapped(lines, st, result@, n),
    decreases original_lines@.len() - i,
%% at loop 0 start
    let ghost (i0, result0) = (i as int, result@);
    proof {
        assert(lines[i0] == original_lines@[i0]@);
        assert(kept_s(st, lines, i0 + 1) == on_a_line(kept_s(st, lines, i0), prefix_of(st, i0) + trim_both_2(lines[i0])));
        lemma_trim_both_len(lines[i0]);
        assert(merged_s(lines, i0).len() <= text@.len());
        lemma_merged_len(lines, i0, lines.len() as int);
        assert(from_line(st, i0) == (Setting { first: (if i0 == 0 { first_prefix@ } else { continuation_prefix@ }), prefix: continuation_prefix@, width: line_width as int }));
        ax_width_bound(first_prefix@); ax_width_bound(continuation_prefix@); ax_width_bound(trim_both_2(lines[i0]));
    }
%% at loop 0 end
    proof {
        if fits(st, i0, lines[i0]) {
            assert(result@ =~= kept_s(st, lines, i0 + 1));
            assert(kept(lines, st, result@, i as int));
        } else {
            assert(kept_then_wrapped(lines, st, result@, i0));
            done = true;
        }
    }
%% loop 1
    invariant
        LINE_SPACE@[0] == ' ', LINE_SPACE@[1] == '\t',
        lines == sviews(original_lines@), lines.len() == original_lines@.len(),
        i0 < i <= original_lines@.len(), 0 <= i0,
        merged@ == merged_up_to(lines, i0, i as int),
    decreases original_lines@.len() - i,
%% at loop 1 start
    proof { assert(lines[i as int] == original_lines@[i as int]@); }
%% at loop 1 after
    assert(merged@ == merged_s(lines, i0));

%% fn is_blank
%% ret r
%% spec
    ensures r == blank_s(segment@),
%% at start
    proof { lemma_line_space(); lemma_line_space_has(); }

%% fn push_hard_break
%% spec
    ensures final(result)@ == old(result)@ + break_s(segment@),
%% at end
    proof { assert(result@ =~= old(result)@ + break_s(segment@)); }

%% fn wrap_text
%% opt fmt_to_string
%% ret r
%% spec
    requires text@.len() < 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff,
    ensures text_ok(text@, Setting { first: prefix@, prefix: prefix@, width: line_width as int }, r@),
%% at start
    let ghost st = Setting { first: prefix@, prefix: prefix@, width: line_width as int };
    let ghost segs = split_s(text@, '\n');
    let ghost mut parts: Seq<Seq<char>> = Seq::empty();
    proof { lemma_line_space(); lemma_split_total(text@, '\n'); }
%% loop 0
    invariant
        st == (Setting { first: prefix@, prefix: prefix@, width: line_width as int }), segs == split_s(text@, '\n'), views(hdv0@) == segs,
        hdv0@ == hard_break_segments@, 
        text@.len() < 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff, prefix@.len() <= 0xff_ffff_ffff_ffff,
        parts.len() == hdk0, parts_ok(segs, st, parts), result@ == with_breaks(segs, parts),
%% at loop 0 start
    let ghost (k0, result0, parts0) = (hdk0 as int, result@, parts);
    proof {
        assert(segs[k0] == hdv0@[k0]@);
        if k0 > 0 { assert(segs[k0 - 1] == hdv0@[k0 - 1]@); }
        lemma_split_len(text@, '\n', k0);
        assert(from_line(st, k0) == (Setting { first: (if k0 == 0 { prefix@ } else { prefix@ }), prefix: prefix@, width: line_width as int }));
    }
%% at loop 0 end
    proof {
        let head = if k0 > 0 { result0 + break_s(segs[k0 - 1]) } else { result0 };
        broadcast use lemma_skip_add;
        let part = result@.skip(head.len() as int);
        parts = parts0.push(part);
        assert(parts.drop_last() =~= parts0);
        assert(result@ =~= with_breaks(segs, parts));
    }

%% fn wrap_text_first_line
%% opt fmt_to_string
%% ret r
%% spec
    requires text@.len() < 0xff_ffff_ffff_ffff, first_prefix@.len() <= 0xff_ffff_ffff_ffff, continuation_prefix@.len() <= 0xff_ffff_ffff_ffff,
    ensures text_ok(text@, Setting { first: first_prefix@, prefix: continuation_prefix@, width: line_width as int }, r@),
%% at start
    let ghost st = Setting { first: first_prefix@, prefix: continuation_prefix@, width: line_width as int };
    let ghost segs = split_s(text@, '\n');
    let ghost mut parts: Seq<Seq<char>> = Seq::empty();
    proof { lemma_line_space(); lemma_split_total(text@, '\n'); }
%% loop 0
    invariant
        st == (Setting { first: first_prefix@, prefix: continuation_prefix@, width: line_width as int }), segs == split_s(text@, '\n'), views(hdv0@) == segs,
        hdv0@ == hard_break_segments@, is_first_segment == (hdk0 == 0),
        text@.len() < 0xff_ffff_ffff_ffff, first_prefix@.len() <= 0xff_ffff_ffff_ffff, continuation_prefix@.len() <= 0xff_ffff_ffff_ffff,
        parts.len() == hdk0, parts_ok(segs, st, parts), result@ == with_breaks(segs, parts),
%% at loop 0 start
    let ghost (k0, result0, parts0) = (hdk0 as int, result@, parts);
    proof {
        assert(segs[k0] == hdv0@[k0]@);
        if k0 > 0 { assert(segs[k0 - 1] == hdv0@[k0 - 1]@); }
        lemma_split_len(text@, '\n', k0);
        assert(from_line(st, k0) == (Setting { first: (if k0 == 0 { first_prefix@ } else { continuation_prefix@ }), prefix: continuation_prefix@, width: line_width as int }));
    }
%% at loop 0 end
    proof {
        let head = if k0 > 0 { result0 + break_s(segs[k0 - 1]) } else { result0 };
        broadcast use lemma_skip_add;
        let part = result@.skip(head.len() as int);
        parts = parts0.push(part);
        assert(parts.drop_last() =~= parts0);
        assert(result@ =~= with_breaks(segs, parts));
    }

%% method or => hd_or
%% method to_ascii_lowercase => hd_lower
%% fn starts_block
%% opt str_eq
%% ret r
%% spec
    ensures interrupts_s(word@) ==> r,
%% at start
    proof {
        let w = word@;
        if w.len() >= 3 && w[0] == '~' && w[1] == '~' && w[2] == '~' { assert(w.take(3) =~= seq!['~', '~', '~']); }
        if w.len() >= 2 && w[0] == '[' && w[1] == '^' { assert(w.take(2) =~= seq!['[', '^']); }
        if w.len() > 0 { assert(w.take(w.len() - 1) =~= w.drop_last()); }
        if w.len() > 1 { assert(w.skip(1)[0] == w[1]); }
    }
