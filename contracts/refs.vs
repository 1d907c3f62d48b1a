%% source src/serializer/state.rs
%% lib chars strs links maps
%% impl Serializer => impl<'a> Serializer<'a>
%% path std::collections::HashMap => HashMap
%% path std::collections::HashSet => HashSet
%% method clone => hd_clone
%% method to_string => hd_fmt
%% method to_lowercase => hd_to_lowercase
%% method to_uppercase => hd_to_uppercase
%% item LineWidth
%% derive Clone Copy
%% item Options
%% fields line_width
%% item ReferenceLink
%% item FootnoteDefinition
%% item FootnoteSet
%% item Serializer
%% fields output, options, pending_references, emitted_references, reference_targets, bracketed_texts, footnotes, in_block_quote, blockquote_prefix, source_lines
%% raw
// ---------------------------------------------------------------- specification
pub trait HdClone: Sized { fn hd_clone(&self) -> (r: Self) ensures r == *self; }
impl HdClone for String { #[verifier::external_body] fn hd_clone(&self) -> (r: String) { self.clone() } }
impl HdClone for ReferenceLink { #[verifier::external_body] fn hd_clone(&self) -> (r: ReferenceLink) { unimplemented!() } }
// ---------------------------------------------------------------- references
// the link writers: proved in the unit `link`
impl<'a> Serializer<'a> {
    #[verifier::external_body]
    pub fn format_inline_link(output: &mut String, text: &str, url: &str, title: &str)
        ensures inline_rel(old(output)@, seq!['['], text@, url@, title@, final(output)@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_valid_label(text: &str) -> (r: bool)
        ensures r == label_ok(text@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_link_destination(output: &mut String, url: &str)
        ensures final(output)@ == old(output)@ + w_dest(url@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_link_title(output: &mut String, title: &str)
        ensures final(output)@ == old(output)@ + w_title(title@)
    { unimplemented!() }
}
/// a label the way labels are matched
pub open spec fn nlabel(s: Seq<char>) -> Seq<char> { upper_s(lower_s(join_s(words_s(repl_s(s, '\0', " "@)), " "@))) }
pub struct Rv { pub label: Seq<char>, pub url: Seq<char>, pub title: Seq<char> }
pub open spec fn rv(r: ReferenceLink) -> Rv { Rv { label: r.label@, url: r.url@, title: r.title@ } }
pub open spec fn rvs(v: Seq<ReferenceLink>) -> Seq<Rv> { v.map(|i: int, r: ReferenceLink| rv(r)) }
pub open spec fn ref_rvs(v: Seq<&ReferenceLink>) -> Seq<Rv> { v.map(|i: int, r: &ReferenceLink| rv(*r)) }
pub open spec fn num_rvs(v: Seq<(u64, &ReferenceLink)>) -> Seq<Rv> { v.map(|i: int, r: (u64, &ReferenceLink)| rv(*r.1)) }
pub trait HdSort { fn hd_sort_by_first(&mut self); }
impl<'a> HdSort for Vec<(u64, &'a ReferenceLink)> {
    #[verifier::external_body]
    fn hd_sort_by_first(&mut self) ensures num_rvs(final(self)@).to_multiset() == num_rvs(old(self)@).to_multiset() { self.sort_by_key(|(n, _)| *n) }
}
/// the definition of a reference: a line with the label, the destination, and the title
pub open spec fn ref_s(r: Rv) -> Seq<char> {
    seq!['['] + repl_s(r.label, '\0', " "@) + "]: "@ + w_dest(r.url) + w_title(r.title) + seq!['\n']
}
pub open spec fn refs_s(v: Seq<Rv>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { refs_s(v.drop_last()) + ref_s(v.last()) }
}
/// the labels e and those of the definitions
pub open spec fn add_labels(e: Set<Seq<char>>, v: Seq<Rv>) -> Set<Seq<char>> decreases v.len() {
    if v.len() == 0 { e } else { add_labels(e, v.drop_last()).insert(nlabel(v.last().label)) }
}
/// the pending definitions that are not written yet
pub open spec fn todo(p: Seq<(Seq<char>, ReferenceLink)>, e: Set<Seq<char>>) -> Seq<Rv> decreases p.len() {
    if p.len() == 0 { Seq::empty() }
    else if e.contains(p.last().0) { todo(p.drop_last(), e) }
    else { todo(p.drop_last(), e).push(rv(p.last().1)) }
}
pub open spec fn is_before(line: usize, before: Option<usize>) -> bool {
    match before { Some(l) => line > 0 && line < l, None => true }
}
/// the pending definitions of footnotes referenced before a line that are not written yet
pub open spec fn fn_todo(p: Seq<(Seq<char>, (ReferenceLink, usize))>, e: Set<Seq<char>>, before: Option<usize>) -> Seq<Rv> decreases p.len() {
    if p.len() == 0 { Seq::empty() }
    else if e.contains(p.last().0) || !is_before(p.last().1.1, before) { fn_todo(p.drop_last(), e, before) }
    else { fn_todo(p.drop_last(), e, before).push(rv(p.last().1.0)) }
}
/// the other ones that are not written yet
pub open spec fn fn_keep(p: Seq<(Seq<char>, (ReferenceLink, usize))>, e: Set<Seq<char>>, before: Option<usize>) -> Seq<(Seq<char>, (ReferenceLink, usize))> decreases p.len() {
    if p.len() == 0 { Seq::empty() }
    else if e.contains(p.last().0) || is_before(p.last().1.1, before) { fn_keep(p.drop_last(), e, before) }
    else { fn_keep(p.drop_last(), e, before).push(p.last()) }
}
/// the definitions of v are written, in some order, after a blank line; nothing else changes but their labels
pub open spec fn written(v: Seq<Rv>, o: Seq<char>, e: Set<Seq<char>>, o2: Seq<char>, e2: Set<Seq<char>>) -> bool {
    if v.len() == 0 { o2 == o && e2 == e }
    else { exists|order: Seq<Rv>| #[trigger] order.to_multiset() == v.to_multiset() && o2 == blank_line_s(o) + refs_s(order) && e2 == add_labels(e, order) }
}
pub open spec fn other_target(s: Serializer, label: Seq<char>, url: Seq<char>, title: Seq<char>) -> bool {
    s.reference_targets@.contains_key(nlabel(label)) && (s.reference_targets@[nlabel(label)].0@ != url || s.reference_targets@[nlabel(label)].1@ != title)
}
pub open spec fn wf_refs(p: Seq<(Seq<char>, ReferenceLink)>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 == nlabel(p[i].1.label@)
}
pub open spec fn wf_fnrefs(p: Seq<(Seq<char>, (ReferenceLink, usize))>) -> bool {
    forall|i: int| 0 <= i < p.len() ==> (#[trigger] p[i]).0 == nlabel(p[i].1.0.label@)
}
/// pending definitions are filed under their labels
pub open spec fn wf(s: Serializer) -> bool { wf_refs(s.pending_references@) && wf_fnrefs(s.footnotes.pending_references@) }
/// a label whose definition is written or pending
pub open spec fn known(s: Serializer, k: Seq<char>) -> bool {
    s.emitted_references@.contains(k) || has_key(s.pending_references@, k) || has_key(s.footnotes.pending_references@, k)
}
/// pending definitions have the targets that the labels stand for
pub open spec fn agrees(s: Serializer) -> bool {
    &&& forall|i: int| 0 <= i < s.pending_references@.len() ==> is_target(s, (#[trigger] s.pending_references@[i]).1)
    &&& forall|i: int| 0 <= i < s.footnotes.pending_references@.len() ==> is_target(s, (#[trigger] s.footnotes.pending_references@[i]).1.0)
}
pub open spec fn is_target(s: Serializer, r: ReferenceLink) -> bool {
    let k = nlabel(r.label@);
    s.reference_targets@.contains_key(k) && s.reference_targets@[k].0@ == r.url@ && s.reference_targets@[k].1@ == r.title@
}
/// the first target of a label is the one that it stands for
pub open spec fn add_target(t: Map<Seq<char>, (String, String)>, label: Seq<char>, url: String, title: String) -> Map<Seq<char>, (String, String)> {
    if t.contains_key(nlabel(label)) { t } else { t.insert(nlabel(label), (url, title)) }
}
/// a use of a label is noted: its definition is pending, and the label stands for the target
pub open spec fn noted(a: Serializer, b: Serializer, label: Seq<char>, url: Seq<char>, title: Seq<char>) -> bool {
    &&& same_but_pending(a, b)
    &&& wf(a) ==> wf(b)
    &&& forall|k: Seq<char>| #[trigger] known(b, k) == (known(a, k) || k == nlabel(label))
    &&& !other_target(a, label, url, title) ==> stands_for(b, label, url, title) && (agrees(a) ==> agrees(b))
}
pub open spec fn stands_for(s: Serializer, label: Seq<char>, url: Seq<char>, title: Seq<char>) -> bool {
    s.reference_targets@.contains_key(nlabel(label)) && s.reference_targets@[nlabel(label)].0@ == url && s.reference_targets@[nlabel(label)].1@ == title
}
/// a link or image written with a reference: a label of one of the three forms, noted
pub open spec fn ref_link_s(open: Seq<char>, text: Seq<char>, label: Seq<char>) -> Seq<char> {
    if label.len() > 0 && label[0] == '\x01' { open + text + "][]"@ } else if text == label { open + text + seq![']'] } else { open + text + "]["@ + label + seq![']'] }
}
pub open spec fn ref_label(label: Seq<char>) -> Seq<char> { if label.len() > 0 && label[0] == '\x01' { label.skip(1) } else { label } }
pub open spec fn bracketed(s: Serializer, text: Seq<char>) -> bool { s.bracketed_texts@.contains(repl_s(nlabel(text), '\\', ""@)) }
/// an external link: as a reference to its text where that cannot be read otherwise, or inline
pub open spec fn ext_link(a: Serializer, b: Serializer, o: Seq<char>, o2: Seq<char>, text: Seq<char>, url: Seq<char>, title: Seq<char>, collapsed: bool) -> bool {
    let l = repl_s(text, '\0', " "@);
    ||| inline_rel(o, seq!['['], text, url, title, o2) && a == b
    ||| label_ok(l) && !other_target(a, l, url, title) && !bracketed(a, l) && !(o.len() > 0 && o.last() == ']' && !(o.len() > 1 && o[o.len() - 2] == '\\'))
        && o2 == o + seq!['['] + l + seq![']'] + (if collapsed { "[]"@ } else { Seq::empty() }) && noted(a, b, l, url, title)
}
pub proof fn lemma_add_labels(e: Set<Seq<char>>, v: Seq<Rv>, k: Seq<char>)
    ensures add_labels(e, v).contains(k) == (e.contains(k) || exists|i: int| 0 <= i < v.len() && nlabel((#[trigger] v[i]).label) == k),
    decreases v.len(),
{
    if v.len() > 0 {
        let w = v.drop_last();
        let n = v.len() - 1;
        lemma_add_labels(e, w, k);
        if exists|i: int| 0 <= i < v.len() && nlabel((#[trigger] v[i]).label) == k {
            let i = choose|i: int| 0 <= i < v.len() && nlabel((#[trigger] v[i]).label) == k;
            if i < n { assert(w[i] == v[i]); }
        }
        if exists|i: int| 0 <= i < w.len() && nlabel((#[trigger] w[i]).label) == k {
            let i = choose|i: int| 0 <= i < w.len() && nlabel((#[trigger] w[i]).label) == k;
            assert(v[i] == w[i]);
        }
        assert(v[n] == v.last());
    }
}
pub proof fn lemma_keep_once(p: Seq<(Seq<char>, (ReferenceLink, usize))>, e: Set<Seq<char>>, before: Option<usize>)
    requires keys_once(p),
    ensures
        keys_once(fn_keep(p, e, before)),
        forall|i: int| 0 <= i < fn_keep(p, e, before).len() ==> has_key(p, (#[trigger] fn_keep(p, e, before)[i]).0),
    decreases p.len(),
{
    if p.len() > 0 {
        let q = p.drop_last();
        let r = fn_keep(q, e, before);
        let s = fn_keep(p, e, before);
        let n = p.len() - 1;
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(p[i] == q[i] && p[j] == q[j]); }
        lemma_keep_once(q, e, before);
        assert forall|i: int| 0 <= i < r.len() implies has_key(p, (#[trigger] r[i]).0) && r[i].0 != p.last().0 by {
            let x = choose|x: int| 0 <= x < q.len() && (#[trigger] q[x]).0 == r[i].0;
            assert(p[x] == q[x]);
            assert(p[n] == p.last());
        }
        assert(p[n] == p.last());
        assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).0 != (#[trigger] s[j]).0 by { assert(s[i] == r[i]); if j < r.len() { assert(s[j] == r[j]); } else { assert(s[j] == p.last()); } }
        assert forall|i: int| 0 <= i < s.len() implies has_key(p, (#[trigger] s[i]).0) by { if i < r.len() { assert(s[i] == r[i]); } else { assert(s[i] == p[n]); } }
    }
}
pub open spec fn has_label(v: Seq<Rv>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < v.len() && nlabel((#[trigger] v[i]).label) == k }
/// what is left to write: the pending definitions whose labels are not written
pub proof fn lemma_todo(p: Seq<(Seq<char>, ReferenceLink)>, e: Set<Seq<char>>, k: Seq<char>)
    requires wf_refs(p),
    ensures has_label(todo(p, e), k) == (has_key(p, k) && !e.contains(k)),
    decreases p.len(),
{
    if p.len() > 0 {
        let q = p.drop_last();
        let n = p.len() - 1;
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 == nlabel(q[i].1.label@) by { assert(q[i] == p[i]); }
        lemma_todo(q, e, k);
        let t = todo(q, e);
        let u = todo(p, e);
        assert(p[n] == p.last());
        if has_key(p, k) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; if i < n { assert(q[i] == p[i]); assert(has_key(q, k)); } }
        if has_key(q, k) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == k; assert(p[i] == q[i]); }
        if !e.contains(p.last().0) {
            assert(u == t.push(rv(p.last().1)));
            assert(u[t.len() as int] == rv(p.last().1));
            if has_label(u, k) { let i = choose|i: int| 0 <= i < u.len() && nlabel((#[trigger] u[i]).label) == k; if i < t.len() { assert(t[i] == u[i]); } }
            if has_label(t, k) { let i = choose|i: int| 0 <= i < t.len() && nlabel((#[trigger] t[i]).label) == k; assert(u[i] == t[i]); }
        }
    }
}
pub open spec fn same_but_refs(a: FootnoteSet, b: FootnoteSet) -> bool {
    a.pending == b.pending && a.emitted == b.emitted && a.reference_lines == b.reference_lines
    && a.collecting_content == b.collecting_content && a.current_reference_line == b.current_reference_line
}
pub open spec fn same_but_pending(a: Serializer, b: Serializer) -> bool {
    a.output == b.output && a.options == b.options && a.emitted_references == b.emitted_references && a.bracketed_texts == b.bracketed_texts
    && a.in_block_quote == b.in_block_quote && a.blockquote_prefix == b.blockquote_prefix && a.source_lines == b.source_lines
}
pub open spec fn same_but_defs(a: Serializer, b: Serializer) -> bool {
    a.options == b.options && a.reference_targets == b.reference_targets && a.bracketed_texts == b.bracketed_texts
    && a.in_block_quote == b.in_block_quote && a.blockquote_prefix == b.blockquote_prefix && a.source_lines == b.source_lines
}
pub open spec fn same_but_output(a: Serializer, b: Serializer) -> bool {
    a.options == b.options && a.pending_references == b.pending_references && a.emitted_references == b.emitted_references
    && a.reference_targets == b.reference_targets && a.bracketed_texts == b.bracketed_texts && a.footnotes == b.footnotes
    && a.in_block_quote == b.in_block_quote && a.blockquote_prefix == b.blockquote_prefix && a.source_lines == b.source_lines
}

/// the number of definitions of a label
pub open spec fn defs_of(v: Seq<Rv>, k: Seq<char>) -> nat { v.to_multiset().filter(|r: Rv| nlabel(r.label) == k).len() }
pub proof fn lemma_defs_push(v: Seq<Rv>, r: Rv, k: Seq<char>)
    ensures defs_of(v.push(r), k) == defs_of(v, k) + (if nlabel(r.label) == k { 1nat } else { 0nat }),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms;
    let f = |r: Rv| nlabel(r.label) == k;
    let a = v.to_multiset();
    assert(v.push(r).to_multiset() == a.insert(r));
    if f(r) { assert(a.insert(r).filter(f) =~= a.filter(f).insert(r)); } else { assert(a.insert(r).filter(f) =~= a.filter(f)); }
}
pub proof fn lemma_has_label_perm(a: Seq<Rv>, b: Seq<Rv>, k: Seq<char>)
    requires a.to_multiset() == b.to_multiset(), has_label(a, k),
    ensures has_label(b, k),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let i = choose|i: int| 0 <= i < a.len() && nlabel((#[trigger] a[i]).label) == k;
    assert(a.contains(a[i]));
    assert(b.to_multiset().contains(a[i]));
    assert(b.contains(a[i]));
    let j = choose|j: int| 0 <= j < b.len() && b[j] == a[i];
    assert(nlabel(b[j].label) == k);
}
pub proof fn lemma_todo_once(p: Seq<(Seq<char>, ReferenceLink)>, e: Set<Seq<char>>, k: Seq<char>)
    requires wf_refs(p), keys_once(p),
    ensures defs_of(todo(p, e), k) == (if has_key(p, k) && !e.contains(k) { 1nat } else { 0nat }),
    decreases p.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms;
    if p.len() == 0 {
        let f = |r: Rv| nlabel(r.label) == k;
        assert(todo(p, e).to_multiset().filter(f) =~= vstd::multiset::Multiset::empty());
    } else {
        let q = p.drop_last();
        let n = p.len() - 1;
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 == nlabel(q[i].1.label@) by { assert(q[i] == p[i]); }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(p[i] == q[i] && p[j] == q[j]); }
        lemma_todo_once(q, e, k);
        lemma_last_key(p, k);
        if !e.contains(p.last().0) { lemma_defs_push(todo(q, e), rv(p.last().1), k); }
    }
}
pub proof fn lemma_fn_todo_once(p: Seq<(Seq<char>, (ReferenceLink, usize))>, e: Set<Seq<char>>, before: Option<usize>, k: Seq<char>)
    requires wf_fnrefs(p), keys_once(p),
    ensures
        defs_of(fn_todo(p, e, before), k) + (if has_key(fn_keep(p, e, before), k) { 1nat } else { 0nat }) == (if has_key(p, k) && !e.contains(k) { 1nat } else { 0nat }),
        has_label(fn_todo(p, e, before), k) == (defs_of(fn_todo(p, e, before), k) > 0),
        wf_fnrefs(fn_keep(p, e, before)),
    decreases p.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures, vstd::multiset::group_multiset_axioms;
    let t = fn_todo(p, e, before);
    if p.len() == 0 {
        let f = |r: Rv| nlabel(r.label) == k;
        assert(t.to_multiset().filter(f) =~= vstd::multiset::Multiset::empty());
    } else {
        let q = p.drop_last();
        let n = p.len() - 1;
        assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]).0 == nlabel(q[i].1.0.label@) by { assert(q[i] == p[i]); }
        assert forall|i: int, j: int| 0 <= i < j < q.len() implies (#[trigger] q[i]).0 != (#[trigger] q[j]).0 by { assert(p[i] == q[i] && p[j] == q[j]); }
        lemma_fn_todo_once(q, e, before, k);
        lemma_last_key(p, k);
        assert(p[n] == p.last());
        let u = fn_todo(q, e, before);
        let r = fn_keep(q, e, before);
        if e.contains(p.last().0) {
        } else if is_before(p.last().1.1, before) {
            lemma_defs_push(u, rv(p.last().1.0), k);
            assert(t[u.len() as int] == rv(p.last().1.0));
            if has_label(t, k) { let i = choose|i: int| 0 <= i < t.len() && nlabel((#[trigger] t[i]).label) == k; if i < u.len() { assert(u[i] == t[i]); } }
            if has_label(u, k) { let i = choose|i: int| 0 <= i < u.len() && nlabel((#[trigger] u[i]).label) == k; assert(t[i] == u[i]); }
        } else {
            let w = fn_keep(p, e, before);
            assert(w.drop_last() =~= r);
            lemma_last_key(w, k);
            assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).0 == nlabel(w[i].1.0.label@) by { if i < r.len() { assert(w[i] == r[i]); } else { assert(w[i] == p[n]); } }
        }
    }
}
/// C14: writing the pending definitions defines each label that was not defined yet once, and loses none
pub proof fn theorem_flush(p: Seq<(Seq<char>, ReferenceLink)>, e: Set<Seq<char>>, order: Seq<Rv>, k: Seq<char>)
    requires wf_refs(p), keys_once(p), order.to_multiset() == todo(p, e).to_multiset(),
    ensures
        defs_of(order, k) == (if has_key(p, k) && !e.contains(k) { 1nat } else { 0nat }),
        add_labels(e, order).contains(k) == (e.contains(k) || has_key(p, k)),
{
    lemma_todo_once(p, e, k);
    lemma_todo(p, e, k);
    lemma_add_labels(e, order, k);
    if has_label(order, k) { lemma_has_label_perm(order, todo(p, e), k); }
    if has_label(todo(p, e), k) { lemma_has_label_perm(todo(p, e), order, k); }
}
/// C14: and so does writing those of the footnotes
pub proof fn theorem_fn_flush(p: Seq<(Seq<char>, (ReferenceLink, usize))>, e: Set<Seq<char>>, before: Option<usize>, order: Seq<Rv>, k: Seq<char>)
    requires wf_fnrefs(p), keys_once(p), order.to_multiset() == fn_todo(p, e, before).to_multiset(),
    ensures
        defs_of(order, k) <= 1,
        defs_of(order, k) == 1 ==> has_key(p, k) && !e.contains(k),
        (add_labels(e, order).contains(k) || has_key(fn_keep(p, e, before), k)) == (e.contains(k) || has_key(p, k)),
        before is None ==> fn_keep(p, e, before).len() == 0,
{
    lemma_fn_todo_once(p, e, before, k);
    lemma_add_labels(e, order, k);
    if has_label(order, k) { lemma_has_label_perm(order, fn_todo(p, e, before), k); }
    if has_label(fn_todo(p, e, before), k) { lemma_has_label_perm(fn_todo(p, e, before), order, k); }
    if before is None { lemma_keep_none(p, e); }
}
pub proof fn lemma_keep_none(p: Seq<(Seq<char>, (ReferenceLink, usize))>, e: Set<Seq<char>>)
    ensures fn_keep(p, e, None).len() == 0,
    decreases p.len(),
{
    if p.len() > 0 { lemma_keep_none(p.drop_last(), e); }
}
// ---- the reader: a reference definition
/// `[label]: destination "title"` up to the end of the line: label, destination, title, and the lines after it
pub open spec fn read_def(s: Seq<char>) -> Option<(Seq<char>, Seq<char>, Seq<char>, Seq<char>)> {
    if s.len() == 0 || s[0] != '[' { None }
    else {
        match read_l(s.skip(1)) {
            None => None,
            Some((l, r)) =>
                if r.len() >= 2 && r[0] == ':' && r[1] == ' ' {
                    match read_dest(r.skip(2)) {
                        None => None,
                        Some((u, q)) =>
                            if q.len() >= 2 && q[0] == ' ' && q[1] == '"' {
                                match read_t(q.skip(2)) {
                                    Some((t, z)) => if z.len() >= 1 && z[0] == '\n' { Some((l, u, t, z.skip(1))) } else { None },
                                    None => None,
                                }
                            } else if q.len() >= 1 && q[0] == '\n' && !title_next(q.skip(1)) { Some((l, u, Seq::empty(), q.skip(1))) }
                            else { None },
                    }
                } else { None },
        }
    }
}
/// a line that could be the title of the definition before it
pub open spec fn title_next(s: Seq<char>) -> bool { s.len() > 0 && (s[0] == '"' || s[0] == '\'' || s[0] == '(' || s[0] == ' ' || s[0] == '\t') }
/// C14: a definition is read back as its label, destination and title
pub proof fn lemma_def(r: Rv, x: Seq<char>)
    requires no_br(repl_s(r.label, '\0', " "@), false), !esc_end(repl_s(r.label, '\0', " "@), false), !title_next(x),
    ensures read_def(ref_s(r) + x) == Some((repl_s(r.label, '\0', " "@), norm(r.url), r.title, x)),
{
    let l = repl_s(r.label, '\0', " "@);
    let w = ref_s(r) + x;
    let nl = seq!['\n'];
    let e = nl + x;
    let m = w_title(r.title) + e;
    let d = w_dest(r.url) + m;
    reveal_strlit("]: ");
    reveal_strlit(" \"");
    reveal_strlit("<>");
    reveal_strlit("&amp;");
    let c = seq![':', ' '] + d;
    assert(w.skip(1) =~= l + (seq![']'] + c));
    lemma_label(l, c);
    assert(c.skip(2) =~= d);
    if r.title.len() == 0 { assert(m =~= e); }
    assert(e.skip(1) =~= x);
    assert(ends_dest(m));
    if r.url.len() == 0 {
        assert(d.skip(2) =~= m);
        assert(norm(r.url) =~= Seq::<char>::empty());
    } else {
        lemma_dest(r.url, bal(r.url, 0), 0, m);
        assert(w_d(r.url, bal(r.url, 0)).len() > 0);
        assert(d[0] == wd_piece(r.url, bal(r.url, 0))[0]);
    }
    assert(read_dest(d) == Some((norm(r.url), m)));
    if r.title.len() > 0 {
        assert(m.skip(2) =~= w_t(r.title) + (seq!['"'] + e));
        lemma_title(r.title, e);
    } else {
        assert(r.title =~= Seq::<char>::empty());
    }
}
%% fn normalize_whitespace
%% from src/serializer/escape.rs
%% ret r
%% spec
    ensures r@ == join_s(words_s(text@), " "@),
%% fn Serializer::normalize_label
%% from src/serializer/state.rs
%% ret r
%% spec
    ensures r@ == nlabel(label@),
%% fn FootnoteSet::add_reference
%% from src/serializer/state.rs
%% spec
    ensures
        final(self).pending_references@ == ix_insert(old(self).pending_references@, label@, (reference, old(self).current_reference_line)),
        same_but_refs(*old(self), *final(self)),
%% fn Serializer::add_reference
%% from src/serializer/state.rs
%% spec
    ensures
        final(self).reference_targets@ == add_target(old(self).reference_targets@, label@, url, title),
        old(self).footnotes.collecting_content ==> final(self).footnotes.pending_references@ == ix_insert(old(self).footnotes.pending_references@, nlabel(label@), (ReferenceLink { label, url, title }, old(self).footnotes.current_reference_line))
            && final(self).pending_references == old(self).pending_references,
        !old(self).footnotes.collecting_content ==> final(self).pending_references@ == ix_insert(old(self).pending_references@, nlabel(label@), ReferenceLink { label, url, title })
            && final(self).footnotes.pending_references == old(self).footnotes.pending_references,
        same_but_refs(old(self).footnotes, final(self).footnotes),
        same_but_pending(*old(self), *final(self)),
        noted(*old(self), *final(self), label@, url@, title@),
%% at result
    proof {
        let r = ReferenceLink { label, url, title };
        let k = nlabel(label@);
        lemma_ix_insert(old(self).pending_references@, k, r);
        lemma_ix_insert(old(self).footnotes.pending_references@, k, (r, old(self).footnotes.current_reference_line));
    }
%% fn Serializer::has_other_target
%% from src/serializer/state.rs
%% ret r
%% spec
    ensures r == other_target(*self, label@, url@, title@),
%% at start
    proof { ax_string_eq(); }
%% fn Serializer::ensure_blank_line
%% from src/serializer/mod.rs
%% spec
    ensures final(self).output@ == blank_line_s(old(self).output@), same_but_output(*old(self), *final(self)),
%% at start
    proof {
        let o = self.output@;
        if o.len() >= 2 {
            assert(o.skip(o.len() - 2)[0] == o[o.len() - 2] && o.skip(o.len() - 2)[1] == o[o.len() - 1]);
            if o[o.len() - 2] == '\n' && o[o.len() - 1] == '\n' { assert(o.skip(o.len() - 2) =~= seq!['\n', '\n']); }
        }
    }
%% at end
    proof {
        let o = old(self).output@;
        reveal_strlit("\n");
        if self.output@.len() == o.len() + 1 { assert(self.output@ =~= o + "\n"@); }
    }
%% fn Serializer::extract_numeric_label
%% from src/serializer/mod.rs
%% ret r
%% fn Serializer::write_reference
%% from src/serializer/mod.rs
%% spec
    ensures final(output)@ == old(output)@ + ref_s(rv(*reference)),
%% fn Serializer::flush_references
%% from src/serializer/mod.rs
%% spec
    ensures
        written(todo(old(self).pending_references@, old(self).emitted_references@), old(self).output@, old(self).emitted_references@, final(self).output@, final(self).emitted_references@),
        final(self).pending_references@.len() == 0,
        same_but_defs(*old(self), *final(self)),
        final(self).footnotes == old(self).footnotes,
%% loop 0
    invariant
        entry_views(hdv0@) == self.pending_references@, *self == *old(self),
        rvs(hdr0@) == todo(self.pending_references@.take(hdk0 as int), self.emitted_references@),
%% at loop 0 start
    proof {
        let p = self.pending_references@;
        assert(p.take(hdk0 + 1).drop_last() =~= p.take(hdk0 as int));
        assert(p.take(hdk0 + 1).last() == entry_views(hdv0@)[hdk0 as int]);
    }
%% at loop 0 end
    proof {
        assert(rvs(hdr0@) =~= todo(self.pending_references@.take(hdk0 + 1), self.emitted_references@));
    }
%% at before self.pending_references.clear
    let ghost t = rvs(refs@);
    proof {
        let p = old(self).pending_references@;
        assert(p.take(p.len() as int) =~= p);
        assert(t == todo(p, old(self).emitted_references@));
        assert(refs@.take(0) =~= Seq::<ReferenceLink>::empty());
    }
%% loop 1
    invariant hdc1@ == refs@, hdr2 <= hdk2,
%% loop 2
    invariant
        hdv3@ == refs@, t == rvs(refs@),
        self.output@ == blank_line_s(old(self).output@) + refs_s(rvs(refs@.take(hdk3 as int))),
        self.emitted_references@ == add_labels(old(self).emitted_references@, rvs(refs@.take(hdk3 as int))),
        self.pending_references@.len() == 0, same_but_defs(*old(self), *self), self.footnotes == old(self).footnotes,
%% at loop 2 start
    proof {
        assert(rvs(refs@.take(hdk3 + 1)).drop_last() =~= rvs(refs@.take(hdk3 as int)));
        assert(rvs(refs@.take(hdk3 + 1)).last() == rv(refs@[hdk3 as int]));
    }
%% at loop 2 end
    assert(self.output@ =~= blank_line_s(old(self).output@) + refs_s(rvs(refs@.take(hdk3 + 1))));
%% at loop 2 after
    proof {
        assert(refs@.take(refs@.len() as int) =~= refs@);
        assert(t.to_multiset() == t.to_multiset());
        assert(t.len() == refs@.len());
        assert(self.output@ == blank_line_s(old(self).output@) + refs_s(t));
    }
%% at loop 3 before
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    proof {
        assert(ref_rvs(regular_refs@) =~= Seq::<Rv>::empty());
        assert(num_rvs(numeric_refs@) =~= Seq::<Rv>::empty());
        assert(rvs(refs@.take(0)) =~= Seq::<Rv>::empty());
        assert(Seq::<Rv>::empty().to_multiset().add(Seq::<Rv>::empty().to_multiset()) =~= Seq::<Rv>::empty().to_multiset());
    }
%% loop 3
    invariant
        hdv4@ == refs@, t == rvs(refs@),
        ref_rvs(regular_refs@).to_multiset().add(num_rvs(numeric_refs@).to_multiset()) == rvs(refs@.take(hdk4 as int)).to_multiset(),
%% at loop 3 start
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    proof { assert(rvs(refs@.take(hdk4 + 1)) =~= rvs(refs@.take(hdk4 as int)).push(rv(refs@[hdk4 as int]))); }
    let ghost a = regular_refs@;
    let ghost b = numeric_refs@;
%% at loop 3 end
    proof {
        if numeric_refs@.len() > b.len() { assert(num_rvs(numeric_refs@) =~= num_rvs(b).push(rv(refs@[hdk4 as int]))); }
        else { assert(ref_rvs(regular_refs@) =~= ref_rvs(a).push(rv(refs@[hdk4 as int]))); }
    }
%% at before numeric_refs.hd_sort_by_first
    let ghost a = ref_rvs(regular_refs@);
    let ghost b0 = num_rvs(numeric_refs@);
    proof {
        assert(refs@.take(refs@.len() as int) =~= refs@);
        assert(a.to_multiset().add(b0.to_multiset()) == t.to_multiset());
    }
%% loop 4
    invariant
        hdv5@ == regular_refs@, a == ref_rvs(regular_refs@),
        self.output@ == blank_line_s(old(self).output@) + refs_s(a.take(hdk5 as int)),
        self.emitted_references@ == add_labels(old(self).emitted_references@, a.take(hdk5 as int)),
        self.pending_references@.len() == 0, same_but_defs(*old(self), *self), self.footnotes == old(self).footnotes,
%% at loop 4 start
    proof {
        assert(a.take(hdk5 + 1).drop_last() =~= a.take(hdk5 as int));
        assert(a.take(hdk5 + 1).last() == rv(*regular_refs@[hdk5 as int]));
    }
%% at loop 4 end
    assert(self.output@ =~= blank_line_s(old(self).output@) + refs_s(a.take(hdk5 + 1)));
%% at after numeric_refs.hd_sort_by_first
    let ghost b = num_rvs(numeric_refs@);
    proof { assert(a.take(0) =~= Seq::<Rv>::empty()); }
%% at loop 5 before
    proof {
        assert(a.take(a.len() as int) =~= a);
        assert(a + b.take(0) =~= a);
    }
%% loop 5
    invariant
        hdv6@ == numeric_refs@, b == num_rvs(numeric_refs@),
        self.output@ == blank_line_s(old(self).output@) + refs_s(a + b.take(hdk6 as int)),
        self.emitted_references@ == add_labels(old(self).emitted_references@, a + b.take(hdk6 as int)),
        self.pending_references@.len() == 0, same_but_defs(*old(self), *self), self.footnotes == old(self).footnotes,
%% at loop 5 start
    proof {
        let c = a + b.take(hdk6 + 1);
        assert(c.drop_last() =~= a + b.take(hdk6 as int));
        assert(c.last() == rv(*numeric_refs@[hdk6 as int].1));
    }
%% at loop 5 end
    assert(self.output@ =~= blank_line_s(old(self).output@) + refs_s(a + b.take(hdk6 + 1)));
%% at loop 5 after
    proof {
        assert(b.take(b.len() as int) =~= b);
        vstd::seq_lib::lemma_multiset_commutative(a, b);
        assert((a + b).to_multiset() == t.to_multiset());
        assert(t.len() == refs@.len());
        assert(self.output@ == blank_line_s(old(self).output@) + refs_s(a + b));
        assert(self.emitted_references@ == add_labels(old(self).emitted_references@, a + b));
    }
%% fn Serializer::flush_footnote_references_before
%% from src/serializer/mod.rs
%% spec
    ensures
        written(fn_todo(old(self).footnotes.pending_references@, old(self).emitted_references@, before_line), old(self).output@, old(self).emitted_references@, final(self).output@, final(self).emitted_references@),
        final(self).footnotes.pending_references@ == fn_keep(old(self).footnotes.pending_references@, old(self).emitted_references@, before_line),
        same_but_refs(old(self).footnotes, final(self).footnotes),
        same_but_defs(*old(self), *final(self)),
        final(self).pending_references == old(self).pending_references,
%% loop 0
    invariant
        same_but_refs(old(self).footnotes, self.footnotes), same_but_defs(*old(self), *self), self.output == old(self).output,
        self.pending_references == old(self).pending_references, self.emitted_references == old(self).emitted_references,
        self.footnotes.pending_references@.len() == 0,
        own_views(hdv0@) == old(self).footnotes.pending_references@.skip(old(self).footnotes.pending_references@.len() - hdv0@.len()),
        hdv0@.len() <= old(self).footnotes.pending_references@.len(),
        rvs(to_emit@) == fn_todo(old(self).footnotes.pending_references@.take(old(self).footnotes.pending_references@.len() - hdv0@.len()), old(self).emitted_references@, before_line),
        own_views(to_keep@) == fn_keep(old(self).footnotes.pending_references@.take(old(self).footnotes.pending_references@.len() - hdv0@.len()), old(self).emitted_references@, before_line),
    decreases hdv0@.len(),
%% at loop 0 start
    let ghost p = old(self).footnotes.pending_references@;
    let ghost k = p.len() - hdv0@.len();
    let ghost w = hdv0@;
    let ghost te = to_emit@;
    let ghost tk = to_keep@;
    proof {
        assert(p.take(k + 1).drop_last() =~= p.take(k));
        assert(p.take(k + 1).last() == own_views(w)[0]) by { assert(own_views(w)[0] == p.skip(k)[0]); }
        assert(own_views(w.remove(0)) =~= p.skip(k + 1)) by { assert forall|i: int| 0 <= i < w.len() - 1 implies (#[trigger] w.remove(0)[i]) == w[i + 1] by {} assert(own_views(w.remove(0)) =~= own_views(w).skip(1)); assert(p.skip(k).skip(1) =~= p.skip(k + 1)); }
    }
%% at loop 0 end
    proof {
        assert(own_views(w)[0] == (w[0].0@, w[0].1));
        if to_emit@.len() > te.len() { assert(rvs(to_emit@) =~= rvs(te).push(rv(w[0].1.0))); }
        else { assert(own_views(to_keep@) =~= own_views(tk).push((w[0].0@, w[0].1))); }
    }
%% at loop 1 before
    proof {
        let p = old(self).footnotes.pending_references@;
        assert(p.take(p.len() as int) =~= p);
        ax_keys_once(old(self).footnotes.pending_references);
    }
%% loop 1
    invariant
        same_but_refs(old(self).footnotes, self.footnotes), same_but_defs(*old(self), *self), self.output == old(self).output,
        self.pending_references == old(self).pending_references, self.emitted_references == old(self).emitted_references,
        keys_once(old(self).footnotes.pending_references@),
        self.footnotes.pending_references@ + own_views(hdv1@) =~= fn_keep(old(self).footnotes.pending_references@, old(self).emitted_references@, before_line),
    decreases hdv1@.len(),
%% at loop 1 start
    let ghost w = hdv1@;
    let ghost f = self.footnotes.pending_references@;
    proof {
        let p = old(self).footnotes.pending_references@;
        let q = fn_keep(p, old(self).emitted_references@, before_line);
        lemma_keep_once(p, old(self).emitted_references@, before_line);
        assert(own_views(w)[0] == (w[0].0@, w[0].1));
        assert(own_views(w) =~= seq![own_views(w)[0]] + own_views(w.remove(0)));
        assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).0 != w[0].0@ by {
            assert(q[i] == f[i]);
            assert(q[f.len() as int] == own_views(w)[0]);
        }
        assert(!has_key(f, w[0].0@));
    }
%% at loop 1 end
    proof { assert(self.footnotes.pending_references@ =~= f.push((w[0].0@, w[0].1))); }
%% loop 2
    invariant
        hdv2@ == to_emit@,
        self.output@ == blank_line_s(old(self).output@) + refs_s(rvs(to_emit@.take(hdk2 as int))),
        self.emitted_references@ == add_labels(old(self).emitted_references@, rvs(to_emit@.take(hdk2 as int))),
        same_but_refs(old(self).footnotes, self.footnotes), same_but_defs(*old(self), *self),
        self.pending_references == old(self).pending_references,
        self.footnotes.pending_references@ == fn_keep(old(self).footnotes.pending_references@, old(self).emitted_references@, before_line),
%% at loop 2 start
    proof {
        assert(rvs(to_emit@.take(hdk2 + 1)).drop_last() =~= rvs(to_emit@.take(hdk2 as int)));
        assert(rvs(to_emit@.take(hdk2 + 1)).last() == rv(to_emit@[hdk2 as int]));
    }
%% at loop 2 end
    assert(self.output@ =~= blank_line_s(old(self).output@) + refs_s(rvs(to_emit@.take(hdk2 + 1))));
%% at loop 2 after
    proof {
        assert(to_emit@.take(to_emit@.len() as int) =~= to_emit@);
        assert(rvs(to_emit@).to_multiset() == fn_todo(old(self).footnotes.pending_references@, old(self).emitted_references@, before_line).to_multiset());
    }
%% fn Serializer::is_bracketed_text
%% from src/serializer/state.rs
%% ret r
%% spec
    ensures r == bracketed(*self, text@),
%% fn Serializer::format_reference_link
%% from src/serializer/link.rs
%% spec
    ensures
        final(output)@ == old(output)@ + ref_link_s(seq!['['], text@, label@),
        noted(*old(self), *final(self), ref_label(label@), url@, title@),
%% at start
    proof { ax_string_eq(); }
%% at result
    proof { assert(output@ =~= old(output)@ + ref_link_s(seq!['['], text@, label@)); }
%% fn Serializer::format_reference_image
%% from src/serializer/link.rs
%% spec
    ensures
        final(output)@ == old(output)@ + ref_link_s(seq!['!', '['], text@, label@),
        noted(*old(self), *final(self), ref_label(label@), url@, title@),
%% at start
    proof { ax_string_eq(); reveal_strlit("!["); }
%% at result
    proof { assert(output@ =~= old(output)@ + ref_link_s(seq!['!', '['], text@, label@)); }
%% fn Serializer::format_external_link_as_reference
%% from src/serializer/link.rs
%% spec
    ensures
        ext_link(*old(self), *final(self), old(output)@, final(output)@, text@, url@, title@, use_collapsed),
        agrees(*old(self)) ==> agrees(*final(self)),
        wf(*old(self)) ==> wf(*final(self)),
%% at start
    proof {
        let o = output@;
        if o.len() >= 2 {
            let z = o.skip(o.len() - 2);
            assert(z[0] == o[o.len() - 2] && z[1] == o[o.len() - 1]);
            if o[o.len() - 2] == '\\' && o[o.len() - 1] == ']' { assert(z =~= seq!['\\', ']']); }
        }
    }
%% at end
    proof { assert(output@ =~= old(output)@ + seq!['['] + repl_s(text@, '\0', " "@) + seq![']'] + (if use_collapsed { "[]"@ } else { Seq::empty() })); }
