%% source src/serializer/state.rs
%% lib chars strs maps
%% impl Serializer => impl<'a> Serializer<'a>
%% path std::collections::HashMap => HashMap
%% path std::collections::HashSet => HashSet
%% method clone => hd_clone
%% method to_string => hd_fmt
%% item LineWidth
%% derive Clone Copy
%% item Options
%% fields line_width
%% item ReferenceLink
%% item FootnoteDefinition
%% item FootnoteSet
%% item Serializer
%% fields output, options, pending_references, emitted_references, reference_targets, footnotes
%% raw
// ---------------------------------------------------------------- specification
pub trait HdClone: Sized { fn hd_clone(&self) -> (r: Self) ensures r == *self; }
impl HdClone for String { #[verifier::external_body] fn hd_clone(&self) -> (r: String) { self.clone() } }
pub type Pend = Seq<(Seq<char>, FootnoteDefinition)>;
/// what is written of a footnote definition
pub struct Fv { pub name: Seq<char>, pub content: Seq<char>, pub has_blocks: bool }
pub open spec fn fv(f: FootnoteDefinition) -> Fv { Fv { name: f.name@, content: f.content@, has_blocks: f.has_blocks } }
pub open spec fn fvs(v: Seq<FootnoteDefinition>) -> Seq<Fv> { v.map(|i: int, r: FootnoteDefinition| fv(r)) }
pub open spec fn ref_fvs(v: Seq<&FootnoteDefinition>) -> Seq<Fv> { v.map(|i: int, r: &FootnoteDefinition| fv(*r)) }
pub open spec fn num_fvs(v: Seq<(u64, &FootnoteDefinition)>) -> Seq<Fv> { v.map(|i: int, r: (u64, &FootnoteDefinition)| fv(*r.1)) }
pub trait HdSort { fn hd_sort_by_first(&mut self); }
impl<'a> HdSort for Vec<(u64, &'a FootnoteDefinition)> {
    #[verifier::external_body]
    fn hd_sort_by_first(&mut self) ensures num_fvs(final(self)@).to_multiset() == num_fvs(old(self)@).to_multiset() { self.sort_by_key(|(n, _)| *n) }
}
/// the text wrapper: its contract is proved in the unit `wrap`
pub uninterp spec fn text_ok(text: Seq<char>, first: Seq<char>, prefix: Seq<char>, width: int, out: Seq<char>) -> bool;
#[verifier::external_body]
pub fn wrap_text_first_line(text: &str, first_prefix: &str, continuation_prefix: &str, line_width: usize) -> (r: String)
    ensures text_ok(text@, first_prefix@, continuation_prefix@, line_width as int, r@)
{ unimplemented!() }

// ---- the writer
pub open spec fn mark_s(name: Seq<char>) -> Seq<char> { "[^"@ + name + "]: "@ }
/// the lines of a footnote that has blocks: the first after the mark, the others indented unless they are empty
pub open spec fn blocks_s(mark: Seq<char>, v: Seq<Seq<char>>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() }
    else if v.len() == 1 { mark + v[0] + seq!['\n'] }
    else { blocks_s(mark, v.drop_last()) + (if v.last().len() == 0 { Seq::empty() } else { rep_s(" "@, 4) + v.last() }) + seq!['\n'] }
}
pub open spec fn is_indent(i: Seq<char>) -> bool { exists|n: nat| i == #[trigger] rep_s(" "@, n) }
/// a footnote definition is written after o
#[verifier::opaque]
pub open spec fn note_rel(o: Seq<char>, f: Fv, width: int, o2: Seq<char>) -> bool {
    let c = repl_s(f.content, '\0', " "@);
    if f.has_blocks { o2 == o + blocks_s(mark_s(f.name), lines_s(f.content)) }
    else if trim_s(c).len() == 0 { o2 == o + mark_s(f.name) + seq!['\n'] }
    else { exists|i: Seq<char>, w: Seq<char>| #[trigger] text_ok(c, mark_s(f.name), i, width, w) && is_indent(i) && o2 == o + w + seq!['\n'] }
}
/// the definitions are written after o in this order
pub open spec fn notes_rel(o: Seq<char>, v: Seq<Fv>, width: int, o2: Seq<char>) -> bool decreases v.len() {
    if v.len() == 0 { o2 == o } else { exists|m: Seq<char>| notes_rel(o, v.drop_last(), width, m) && #[trigger] note_rel(m, v.last(), width, o2) }
}
/// the names e and those of the definitions
pub open spec fn add_names(e: Set<Seq<char>>, v: Seq<Fv>) -> Set<Seq<char>> decreases v.len() {
    if v.len() == 0 { e } else { add_names(e, v.drop_last()).insert(v.last().name) }
}
pub open spec fn is_before(line: usize, before: Option<usize>) -> bool {
    match before { Some(l) => line > 0 && line < l, None => true }
}
/// the pending definitions that are referenced before the line and not written yet
pub open spec fn todo(p: Pend, e: Set<Seq<char>>, before: Option<usize>) -> Seq<Fv> decreases p.len() {
    if p.len() == 0 { Seq::empty() }
    else if e.contains(p.last().0) || !is_before(p.last().1.reference_line, before) { todo(p.drop_last(), e, before) }
    else { todo(p.drop_last(), e, before).push(fv(p.last().1)) }
}
/// the other ones that are not written yet
pub open spec fn keep(p: Pend, e: Set<Seq<char>>, before: Option<usize>) -> Pend decreases p.len() {
    if p.len() == 0 { Seq::empty() }
    else if e.contains(p.last().0) || is_before(p.last().1.reference_line, before) { keep(p.drop_last(), e, before) }
    else { keep(p.drop_last(), e, before).push(p.last()) }
}
/// the definitions of v are written, in some order, after a blank line; nothing else changes but their names
pub open spec fn written(v: Seq<Fv>, o: Seq<char>, e: Set<Seq<char>>, width: int, o2: Seq<char>, e2: Set<Seq<char>>) -> bool {
    if v.len() == 0 { o2 == o && e2 == e }
    else { exists|order: Seq<Fv>| #[trigger] order.to_multiset() == v.to_multiset() && notes_rel(blank_line_s(o), order, width, o2) && e2 == add_names(e, order) }
}
pub open spec fn wf(p: Pend) -> bool { forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 == p[i].1.name@ }
pub open spec fn same_but_pending(a: FootnoteSet, b: FootnoteSet) -> bool {
    a.emitted == b.emitted && a.reference_lines == b.reference_lines && a.collecting_content == b.collecting_content
    && a.current_reference_line == b.current_reference_line && a.pending_references == b.pending_references
}
pub open spec fn same_but_notes(a: FootnoteSet, b: FootnoteSet) -> bool {
    a.reference_lines == b.reference_lines && a.collecting_content == b.collecting_content
    && a.current_reference_line == b.current_reference_line && a.pending_references == b.pending_references
}
pub open spec fn same_rest(a: Serializer, b: Serializer) -> bool {
    a.options == b.options && a.pending_references == b.pending_references && a.emitted_references == b.emitted_references && a.reference_targets == b.reference_targets
}
/// a definition whose name is written or pending
pub open spec fn known(p: Pend, e: Set<Seq<char>>, k: Seq<char>) -> bool { e.contains(k) || has_key(p, k) }
pub proof fn lemma_keep_once(p: Pend, e: Set<Seq<char>>, before: Option<usize>)
    requires keys_once(p),
    ensures
        keys_once(keep(p, e, before)),
        forall|i: int| 0 <= i < keep(p, e, before).len() ==> has_key(p, (#[trigger] keep(p, e, before)[i]).0),
    decreases p.len(),
{
    if p.len() > 0 {
        let q = p.drop_last();
        let r = keep(q, e, before);
        let s = keep(p, e, before);
        let n = p.len() - 1;
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(p[i] == q[i] && p[j] == q[j]); }
        lemma_keep_once(q, e, before);
        assert forall|i: int| 0 <= i < r.len() implies has_key(p, (#[trigger] r[i]).0) && r[i].0 != p.last().0 by {
            let x = choose|x: int| 0 <= x < q.len() && (#[trigger] q[x]).0 == r[i].0;
            assert(p[x] == q[x]);
            assert(p[n] == p.last());
        }
        assert(p[n] == p.last());
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(s[i] == r[i]); if j < r.len() { assert(s[j] == r[j]); } else { assert(s[j] == p.last()); } }
        assert forall|i: int| 0 <= i < s.len() implies has_key(p, (#[trigger] s[i]).0) by { if i < r.len() { assert(s[i] == r[i]); } else { assert(s[i] == p[n]); } }
    }
}
pub open spec fn has_name(v: Seq<Fv>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).name == k }
/// the number of definitions of a name
pub open spec fn defs_of(v: Seq<Fv>, k: Seq<char>) -> nat { v.to_multiset().filter(|r: Fv| r.name == k).len() }
pub proof fn lemma_add_names(e: Set<Seq<char>>, v: Seq<Fv>, k: Seq<char>)
    ensures add_names(e, v).contains(k) == (e.contains(k) || has_name(v, k)),
    decreases v.len(),
{
    if v.len() > 0 {
        let w = v.drop_last();
        let n = v.len() - 1;
        lemma_add_names(e, w, k);
        if has_name(v, k) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).name == k; if i < n { assert(w[i] == v[i]); } }
        if has_name(w, k) { let i = choose|i: int| 0 <= i < w.len() && (#[trigger] w[i]).name == k; assert(v[i] == w[i]); }
        assert(v[n] == v.last());
    }
}
pub proof fn lemma_defs_push(v: Seq<Fv>, r: Fv, k: Seq<char>)
    ensures defs_of(v.push(r), k) == defs_of(v, k) + (if r.name == k { 1nat } else { 0nat }),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms;
    let f = |r: Fv| r.name == k;
    let a = v.to_multiset();
    assert(v.push(r).to_multiset() == a.insert(r));
    if f(r) { assert(a.insert(r).filter(f) =~= a.filter(f).insert(r)); } else { assert(a.insert(r).filter(f) =~= a.filter(f)); }
}
pub proof fn lemma_has_name_perm(a: Seq<Fv>, b: Seq<Fv>, k: Seq<char>)
    requires a.to_multiset() == b.to_multiset(), has_name(a, k),
    ensures has_name(b, k),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).name == k;
    assert(a.contains(a[i]));
    assert(b.to_multiset().contains(a[i]));
    assert(b.contains(a[i]));
    let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
    assert(b[j].name == k);
}
pub proof fn lemma_todo_once(p: Pend, e: Set<Seq<char>>, before: Option<usize>, k: Seq<char>)
    requires wf(p), keys_once(p),
    ensures
        defs_of(todo(p, e, before), k) + (if has_key(keep(p, e, before), k) { 1nat } else { 0nat }) == (if has_key(p, k) && !e.contains(k) { 1nat } else { 0nat }),
        has_name(todo(p, e, before), k) == (defs_of(todo(p, e, before), k) > 0),
        wf(keep(p, e, before)),
    decreases p.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms;
    let t = todo(p, e, before);
    if p.len() == 0 {
        let f = |r: Fv| r.name == k;
        assert(t.to_multiset().filter(f) =~= vstd::multiset::Multiset::empty());
    } else {
        let q = p.drop_last();
        let n = p.len() - 1;
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 == q[i].1.name@ by { assert(q[i] == p[i]); }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(p[i] == q[i] && p[j] == q[j]); }
        lemma_todo_once(q, e, before, k);
        lemma_last_key(p, k);
        assert(p[n] == p.last());
        let u = todo(q, e, before);
        let r = keep(q, e, before);
        if e.contains(p.last().0) {
        } else if is_before(p.last().1.reference_line, before) {
            lemma_defs_push(u, fv(p.last().1), k);
            assert(t[u.len() as int] == fv(p.last().1));
            if has_name(t, k) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name == k; if i < u.len() { assert(u[i] == t[i]); } }
            if has_name(u, k) { let i = choose|i: int| 0 <= i < u.len() && (#[trigger] u[i]).name == k; assert(t[i] == u[i]); }
        } else {
            let w = keep(p, e, before);
            assert(w.drop_last() =~= r);
            lemma_last_key(w, k);
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).0 == w[i].1.name@ by { if i < r.len() { assert(w[i] == r[i]); } else { assert(w[i] == p[n]); } }
        }
    }
}
pub proof fn lemma_keep_none(p: Pend, e: Set<Seq<char>>)
    ensures keep(p, e, None).len() == 0,
    decreases p.len(),
{
    if p.len() > 0 { lemma_keep_none(p.drop_last(), e); }
}
/// C15: writing pending footnotes defines each name at most once, and only if it is not defined yet; none is
/// lost, and none is left when all are written
pub proof fn theorem_notes(p: Pend, e: Set<Seq<char>>, before: Option<usize>, order: Seq<Fv>, k: Seq<char>)
    requires wf(p), keys_once(p), order.to_multiset() == todo(p, e, before).to_multiset(),
    ensures
        defs_of(order, k) <= 1,
        defs_of(order, k) == 1 ==> has_key(p, k) && !e.contains(k),
        known(keep(p, e, before), add_names(e, order), k) == known(p, e, k),
        before is None ==> keep(p, e, before).len() == 0 && (has_key(p, k) && !e.contains(k) ==> defs_of(order, k) == 1),
        wf(keep(p, e, before)),
{
    lemma_todo_once(p, e, before, k);
    lemma_add_names(e, order, k);
    if has_name(order, k) { lemma_has_name_perm(order, todo(p, e, before), k); }
    if has_name(todo(p, e, before), k) { lemma_has_name_perm(todo(p, e, before), order, k); }
    if before is None { lemma_keep_none(p, e); }
}
// ---- the reader: the lines of a definition
/// a line of a footnote's content, as it is written after the first
pub open spec fn unindent(l: Seq<char>) -> Seq<char> {
    if l.len() >= 4 && l.take(4) == rep_s(" "@, 4) { l.skip(4) } else { l }
}
/// C15: indented content lines are read back as they were
pub proof fn lemma_unindent(l: Seq<char>)
    ensures l.len() > 0 ==> unindent(rep_s(" "@, 4) + l) == l, unindent(Seq::<char>::empty()) == Seq::<char>::empty(),
{
    reveal_with_fuel(rep_s, 6);
    reveal_strlit(" ");
    assert(rep_s(" "@, 4) =~= seq![' ', ' ', ' ', ' ']);
    let w = rep_s(" "@, 4) + l;
    assert(w.take(4) =~= rep_s(" "@, 4));
    assert(w.skip(4) =~= l);
}

%% fn FootnoteSet::add
%% spec
    ensures
        final(self).pending@ == ix_insert(old(self).pending@, name@, FootnoteDefinition { name, content, reference_line, has_blocks }),
        same_but_pending(*old(self), *final(self)),
        wf(old(self).pending@) ==> wf(final(self).pending@),
        forall|k: Seq<char>| #[trigger] has_key(final(self).pending@, k) == (has_key(old(self).pending@, k) || k == name@),
%% at end
    proof {
        let v = FootnoteDefinition { name, content, reference_line, has_blocks };
        lemma_ix_insert(old(self).pending@, name@, v);
        assert forall|k: Seq<char>| #[trigger] has_key(self.pending@, k) == (has_key(old(self).pending@, k) || k == name@) by { assert(has_key(ix_insert(old(self).pending@, name@, v), k) == (has_key(old(self).pending@, k) || k == name@)); }
    }
%% fn FootnoteSet::start_collecting
%% spec
    ensures
        final(self).collecting_content, final(self).current_reference_line == reference_line,
        final(self).pending == old(self).pending, final(self).emitted == old(self).emitted, final(self).reference_lines == old(self).reference_lines,
        final(self).pending_references == old(self).pending_references,
%% fn FootnoteSet::stop_collecting
%% spec
    ensures
        !final(self).collecting_content,
        final(self).pending == old(self).pending, final(self).emitted == old(self).emitted, final(self).reference_lines == old(self).reference_lines,
        final(self).pending_references == old(self).pending_references,
%% fn FootnoteSet::record_reference_line
%% spec
    ensures
        final(self).reference_lines@ == (if old(self).reference_lines@.contains_key(name@) { old(self).reference_lines@ } else { old(self).reference_lines@.insert(name@, line) }),
        final(self).pending == old(self).pending, final(self).emitted == old(self).emitted,
        final(self).collecting_content == old(self).collecting_content, final(self).current_reference_line == old(self).current_reference_line,
        final(self).pending_references == old(self).pending_references,
%% fn FootnoteSet::get_reference_line
%% ret r
%% spec
    ensures r == (if self.reference_lines@.contains_key(name@) { Some(self.reference_lines@[name@]) } else { None::<usize> }),
%% fn Serializer::ensure_blank_line
%% from src/serializer/mod.rs
%% spec
    ensures final(self).output@ == blank_line_s(old(self).output@), same_rest(*old(self), *final(self)), final(self).footnotes == old(self).footnotes,
%% at start
    proof {
        let o = self.output@;
        if o.len() >= 2 {
            assert(o.skip(o.len() - 2)[0] == o[o.len() - 2] && o.skip(o.len() - 2)[1] == o[o.len() - 1]);
            if o[o.len() - 2] == '\n' && o[o.len() - 1] == '\n' { assert(o.skip(o.len() - 2) =~= seq!['\n', '\n']); }
        }
    }
%% at end
    proof {
        let o = old(self).output@;
        reveal_strlit("\n");
        if self.output@.len() == o.len() + 1 { assert(self.output@ =~= o + "\n"@); }
    }
%% fn Serializer::extract_numeric_footnote_name
%% from src/serializer/mod.rs
%% ret r
%% spec
    ensures true,
%% fn LineWidth::get
%% from src/config.rs
%% ret r
%% spec
    ensures r == self.0,
%% fn Serializer::write_footnote
%% from src/serializer/mod.rs
%% spec
    ensures note_rel(old(self).output@, fv(*footnote), old(self).options.line_width.0 as int, final(self).output@),
        same_rest(*old(self), *final(self)), final(self).footnotes == old(self).footnotes,
%% at start
    broadcast use lemma_views_at;
    proof { reveal(note_rel); reveal_strlit(" "); assert(rep_s(" "@, 4) =~= seq![' ', ' ', ' ', ' ']) by { reveal_with_fuel(rep_s, 6); } }
%% at loop 0 before
    proof { assert(views(lines@).take(0) =~= Seq::<Seq<char>>::empty()); }
%% loop 0
    invariant
        hdv1@ == lines@, views(lines@) == lines_s(footnote.content@), prefix@ == mark_s(footnote.name@), continuation_indent@ == rep_s(" "@, 4),
        self.output@ == old(self).output@ + blocks_s(prefix@, views(lines@).take(hdk1 as int)),
        same_rest(*old(self), *self), self.footnotes == old(self).footnotes,
%% at loop 0 start
    broadcast use lemma_views_at;
    let ghost o1 = self.output@;
    proof {
        let a = views(lines@).take(hdk1 + 1);
        assert(a.drop_last() =~= views(lines@).take(hdk1 as int));
        assert(a.last() == lines@[hdk1 as int]@);
        assert(hdk1 == 0 ==> blocks_s(prefix@, a.drop_last()) =~= Seq::<char>::empty());
    }
%% at loop 0 end
    proof { assert(self.output@ =~= old(self).output@ + blocks_s(prefix@, views(lines@).take(hdk1 + 1))); }
%% at loop 0 after
    proof { assert(views(lines@).take(lines@.len() as int) =~= views(lines@)); }
%% at before let continuation_indent
    proof { assert(prefix@ =~= mark_s(footnote.name@)); }
%% at before if content.hd_trim
    proof { assert((self.output@ + prefix@).push('\n') =~= self.output@ + mark_s(footnote.name@) + seq!['\n']); }
%% at before let wrapped
    proof { assert(is_indent(continuation_indent@)); }
%% at end
    proof { assert(self.output@ =~= old(self).output@ + wrapped@ + seq!['\n']); assert(text_ok(content@, mark_s(footnote.name@), continuation_indent@, old(self).options.line_width.0 as int, wrapped@));
        let f = fv(*footnote); let wd = old(self).options.line_width.0 as int; let o2 = self.output@; let o = old(self).output@;
        let c = repl_s(f.content, '\0', " "@);
        assert(is_indent(continuation_indent@));
        assert(o2 == o + wrapped@ + seq!['\n']);
        assert(text_ok(c, mark_s(f.name), continuation_indent@, wd, wrapped@));
        assert(exists|w: Seq<char>| #[trigger] text_ok(c, mark_s(f.name), continuation_indent@, wd, w));
        assert(exists|w: Seq<char>| #[trigger] text_ok(c, mark_s(f.name), continuation_indent@, wd, w) && o2 == o + w + seq!['\n']);
    }
%% fn Serializer::flush_footnotes
%% from src/serializer/mod.rs
%% spec
    ensures
        written(todo(old(self).footnotes.pending@, old(self).footnotes.emitted@, None), old(self).output@, old(self).footnotes.emitted@, old(self).options.line_width.0 as int, final(self).output@, final(self).footnotes.emitted@),
        final(self).footnotes.pending@.len() == 0,
%% at start
    proof { lemma_keep_none(self.footnotes.pending@, self.footnotes.emitted@); }
%% fn Serializer::flush_footnotes_before
%% from src/serializer/mod.rs
%% spec
    ensures
        written(todo(old(self).footnotes.pending@, old(self).footnotes.emitted@, before_line), old(self).output@, old(self).footnotes.emitted@, old(self).options.line_width.0 as int, final(self).output@, final(self).footnotes.emitted@),
        final(self).footnotes.pending@ == keep(old(self).footnotes.pending@, old(self).footnotes.emitted@, before_line),
        same_but_notes(old(self).footnotes, final(self).footnotes),
        same_rest(*old(self), *final(self)),
%% loop 0
    invariant
        same_but_pending(old(self).footnotes, self.footnotes), same_rest(*old(self), *self), self.output == old(self).output,
        self.footnotes.pending@.len() == 0,
        own_views(hdv0@) == old(self).footnotes.pending@.skip(old(self).footnotes.pending@.len() - hdv0@.len()),
        hdv0@.len() <= old(self).footnotes.pending@.len(),
        fvs(to_emit@) == todo(old(self).footnotes.pending@.take(old(self).footnotes.pending@.len() - hdv0@.len()), old(self).footnotes.emitted@, before_line),
        own_views(to_keep@) == keep(old(self).footnotes.pending@.take(old(self).footnotes.pending@.len() - hdv0@.len()), old(self).footnotes.emitted@, before_line),
    decreases hdv0@.len(),
%% at loop 0 start
    let ghost p = old(self).footnotes.pending@;
    let ghost k = p.len() - hdv0@.len();
    let ghost w = hdv0@;
    let ghost te = to_emit@;
    let ghost tk = to_keep@;
    proof {
        assert(p.take(k + 1).drop_last() =~= p.take(k));
        assert(p.take(k + 1).last() == own_views(w)[0]) by { assert(own_views(w)[0] == p.skip(k)[0]); }
        assert(own_views(w.remove(0)) =~= p.skip(k + 1)) by { assert forall|i: int| 0 <= i < w.len() - 1 implies (#[trigger] w.remove(0)[i]) == w[i + 1] by {} assert(own_views(w.remove(0)) =~= own_views(w).skip(1)); assert(p.skip(k).skip(1) =~= p.skip(k + 1)); }
    }
%% at loop 0 end
    proof {
        assert(own_views(w)[0] == (w[0].0@, w[0].1));
        if to_emit@.len() > te.len() { assert(fvs(to_emit@) =~= fvs(te).push(fv(w[0].1))); }
        else { assert(own_views(to_keep@) =~= own_views(tk).push((w[0].0@, w[0].1))); }
    }
%% at loop 1 before
    proof {
        let p = old(self).footnotes.pending@;
        assert(p.take(p.len() as int) =~= p);
        ax_keys_once(old(self).footnotes.pending);
    }
%% loop 1
    invariant
        same_but_pending(old(self).footnotes, self.footnotes), same_rest(*old(self), *self), self.output == old(self).output,
        keys_once(old(self).footnotes.pending@),
        self.footnotes.pending@ + own_views(hdv1@) =~= keep(old(self).footnotes.pending@, old(self).footnotes.emitted@, before_line),
    decreases hdv1@.len(),
%% at loop 1 start
    let ghost w = hdv1@;
    let ghost f = self.footnotes.pending@;
    proof {
        let p = old(self).footnotes.pending@;
        let q = keep(p, old(self).footnotes.emitted@, before_line);
        lemma_keep_once(p, old(self).footnotes.emitted@, before_line);
        assert(own_views(w)[0] == (w[0].0@, w[0].1));
        assert(own_views(w) =~= seq![own_views(w)[0]] + own_views(w.remove(0)));
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).0 != w[0].0@ by {
            assert(q[i] == f[i]);
            assert(q[f.len() as int] == own_views(w)[0]);
        }
        assert(!has_key(f, w[0].0@));
    }
%% at loop 1 end
    proof { assert(self.footnotes.pending@ =~= f.push((w[0].0@, w[0].1))); }
%% at before let numeric_count
    let ghost t = fvs(to_emit@);
    let ghost o1 = self.output@;
    let ghost e0 = old(self).footnotes.emitted@;
    let ghost lw = old(self).options.line_width.0 as int;
    let ghost kp = keep(old(self).footnotes.pending@, e0, before_line);
    proof { assert(to_emit@.take(0) =~= Seq::<FootnoteDefinition>::empty()); assert(fvs(to_emit@.take(0)) =~= Seq::<Fv>::empty()); }
%% loop 2
    invariant hdc2@ == to_emit@, hdr3 <= hdk3,
%% loop 3
    invariant
        hdv4@ == to_emit@, t == fvs(to_emit@),
        notes_rel(o1, fvs(to_emit@.take(hdk4 as int)), lw, self.output@),
        self.footnotes.emitted@ == add_names(e0, fvs(to_emit@.take(hdk4 as int))),
        self.footnotes.pending@ == kp, same_but_notes(old(self).footnotes, self.footnotes), same_rest(*old(self), *self), lw == old(self).options.line_width.0,
%% at loop 3 end
    proof { assert(notes_rel(o1, fvs(to_emit@.take(hdk4 + 1)).drop_last(), lw, m) && note_rel(m, fvs(to_emit@.take(hdk4 + 1)).last(), lw, self.output@)); assert(notes_rel(o1, fvs(to_emit@.take(hdk4 + 1)), lw, self.output@)); }
%% at loop 3 start
    let ghost m = self.output@;
    proof {
        assert(fvs(to_emit@.take(hdk4 + 1)).drop_last() =~= fvs(to_emit@.take(hdk4 as int)));
        assert(fvs(to_emit@.take(hdk4 + 1)).last() == fv(to_emit@[hdk4 as int]));
    }
%% at loop 3 after
    proof {
        assert(to_emit@.take(to_emit@.len() as int) =~= to_emit@);
        assert(t.to_multiset() == t.to_multiset());
        assert(t.len() == to_emit@.len());
        assert(notes_rel(o1, t, lw, self.output@));
    }
%% at loop 4 before
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    proof {
        assert(ref_fvs(regular_footnotes@) =~= Seq::<Fv>::empty());
        assert(num_fvs(numeric_footnotes@) =~= Seq::<Fv>::empty());
        assert(Seq::<Fv>::empty().to_multiset().add(Seq::<Fv>::empty().to_multiset()) =~= Seq::<Fv>::empty().to_multiset());
    }
%% loop 4
    invariant
        hdv5@ == to_emit@, t == fvs(to_emit@),
        ref_fvs(regular_footnotes@).to_multiset().add(num_fvs(numeric_footnotes@).to_multiset()) == fvs(to_emit@.take(hdk5 as int)).to_multiset(),
%% at loop 4 start
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    proof { assert(fvs(to_emit@.take(hdk5 + 1)) =~= fvs(to_emit@.take(hdk5 as int)).push(fv(to_emit@[hdk5 as int]))); }
    let ghost a = regular_footnotes@;
    let ghost b = numeric_footnotes@;
%% at loop 4 end
    proof {
        if numeric_footnotes@.len() > b.len() { assert(num_fvs(numeric_footnotes@) =~= num_fvs(b).push(fv(to_emit@[hdk5 as int]))); }
        else { assert(ref_fvs(regular_footnotes@) =~= ref_fvs(a).push(fv(to_emit@[hdk5 as int]))); }
    }
%% at before numeric_footnotes.hd_sort_by_first
    let ghost a = ref_fvs(regular_footnotes@);
    let ghost b0 = num_fvs(numeric_footnotes@);
    proof {
        assert(to_emit@.take(to_emit@.len() as int) =~= to_emit@);
        assert(a.to_multiset().add(b0.to_multiset()) == t.to_multiset());
    }
%% at after numeric_footnotes.hd_sort_by_first
    let ghost b = num_fvs(numeric_footnotes@);
    proof { assert(a.take(0) =~= Seq::<Fv>::empty()); }
%% loop 5
    invariant
        hdv6@ == regular_footnotes@, a == ref_fvs(regular_footnotes@),
        notes_rel(o1, a.take(hdk6 as int), lw, self.output@),
        self.footnotes.emitted@ == add_names(e0, a.take(hdk6 as int)),
        self.footnotes.pending@ == kp, same_but_notes(old(self).footnotes, self.footnotes), same_rest(*old(self), *self), lw == old(self).options.line_width.0,
%% at loop 5 end
    proof { assert(notes_rel(o1, a.take(hdk6 + 1).drop_last(), lw, m) && note_rel(m, a.take(hdk6 + 1).last(), lw, self.output@)); assert(notes_rel(o1, a.take(hdk6 + 1), lw, self.output@)); }
%% at loop 5 start
    let ghost m = self.output@;
    proof {
        assert(a.take(hdk6 + 1).drop_last() =~= a.take(hdk6 as int));
        assert(a.take(hdk6 + 1).last() == fv(*regular_footnotes@[hdk6 as int]));
    }
%% at loop 6 before
    proof {
        assert(a.take(a.len() as int) =~= a);
        assert(a + b.take(0) =~= a);
    }
%% loop 6
    invariant
        hdv7@ == numeric_footnotes@, b == num_fvs(numeric_footnotes@),
        notes_rel(o1, a + b.take(hdk7 as int), lw, self.output@),
        self.footnotes.emitted@ == add_names(e0, a + b.take(hdk7 as int)),
        self.footnotes.pending@ == kp, same_but_notes(old(self).footnotes, self.footnotes), same_rest(*old(self), *self), lw == old(self).options.line_width.0,
%% at loop 6 end
    proof { assert(notes_rel(o1, (a + b.take(hdk7 + 1)).drop_last(), lw, m) && note_rel(m, (a + b.take(hdk7 + 1)).last(), lw, self.output@)); assert(notes_rel(o1, (a + b.take(hdk7 + 1)), lw, self.output@)); }
%% at loop 6 start
    let ghost m = self.output@;
    proof {
        let c = a + b.take(hdk7 + 1);
        assert(c.drop_last() =~= a + b.take(hdk7 as int));
        assert(c.last() == fv(*numeric_footnotes@[hdk7 as int].1));
    }
%% at loop 6 after
    proof {
        assert(b.take(b.len() as int) =~= b);
        vstd::seq_lib::lemma_multiset_commutative(a, b);
        assert((a + b).to_multiset() == t.to_multiset());
        assert(t.len() == to_emit@.len());
        assert(notes_rel(o1, a + b, lw, self.output@));
    }
