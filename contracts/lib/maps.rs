// ---------------------------------------------------------------- containers
/// the contract of a HashSet of strings that is used here
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct HashSet<T> { x: std::marker::PhantomData<T> }
impl View for HashSet<String> { type V = Set<Seq<char>>; uninterp spec fn view(&self) -> Set<Seq<char>>; }
impl HashSet<String> {
    #[verifier::external_body]
    pub fn hd_contains(&self, k: &str) -> (r: bool) ensures r == self@.contains(k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(k@) { unimplemented!() }
}
/// the contract of a HashMap from strings that is used here
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<V> View for HashMap<String, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>)
        ensures r == (if self@.contains_key(k@) { Some(&self@[k@]) } else { None::<&V> })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn hd_or_insert(&mut self, k: String, v: V)
        ensures final(self)@ == (if old(self)@.contains_key(k@) { old(self)@ } else { old(self)@.insert(k@, v) })
    { unimplemented!() }
}
/// the contract of an IndexMap from strings that is used here: entries in order, keys once
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct IndexMap<K, V> { x: std::marker::PhantomData<(K, V)> }
impl<V> View for IndexMap<String, V> { type V = Seq<(Seq<char>, V)>; uninterp spec fn view(&self) -> Seq<(Seq<char>, V)>; }
pub open spec fn has_key<V>(m: Seq<(Seq<char>, V)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k }
pub open spec fn key_ix<V>(m: Seq<(Seq<char>, V)>, k: Seq<char>) -> int { choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == k }
pub open spec fn keys_once<V>(m: Seq<(Seq<char>, V)>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> (#[trigger] m[i]).0 != (#[trigger] m[j]).0 }
pub open spec fn ix_insert<V>(m: Seq<(Seq<char>, V)>, k: Seq<char>, v: V) -> Seq<(Seq<char>, V)> {
    if has_key(m, k) { m.update(key_ix(m, k), (k, v)) } else { m.push((k, v)) }
}
pub open spec fn entry_views<V>(r: Seq<(&String, &V)>) -> Seq<(Seq<char>, V)> { r.map(|i: int, x: (&String, &V)| (x.0@, *x.1)) }
pub open spec fn own_views<V>(r: Seq<(String, V)>) -> Seq<(Seq<char>, V)> { r.map(|i: int, x: (String, V)| (x.0@, x.1)) }
impl<V> IndexMap<String, V> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<(Seq<char>, V)>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: V) -> (r: Option<V>) ensures final(self)@ == ix_insert(old(self)@, k@, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn hd_entries(&self) -> (r: Vec<(&String, &V)>) ensures entry_views(r@) == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn hd_drain(&mut self) -> (r: Vec<(String, V)>) ensures own_views(r@) == old(self)@, final(self)@ == Seq::<(Seq<char>, V)>::empty() { unimplemented!() }
}
// AXIOM: an IndexMap has every key once
pub broadcast axiom fn ax_keys_once<V>(m: IndexMap<String, V>)
    ensures keys_once(#[trigger] m@);
pub open spec fn blank_line_s(o: Seq<char>) -> Seq<char> {
    let n = o.len() as int;
    if n >= 2 && o[n - 1] == '\n' && o[n - 2] == '\n' { o } else if n >= 1 && o[n - 1] == '\n' { o + "\n"@ } else { o + "\n\n"@ }
}
pub proof fn lemma_ix_insert<V>(m: Seq<(Seq<char>, V)>, k: Seq<char>, v: V)
    ensures
        forall|q: Seq<char>| #[trigger] has_key(ix_insert(m, k, v), q) == (has_key(m, q) || q == k),
        forall|i: int| 0 <= i < ix_insert(m, k, v).len() ==> (#[trigger] ix_insert(m, k, v)[i]) == (k, v) || (i < m.len() && ix_insert(m, k, v)[i] == m[i]),
{
    let r = ix_insert(m, k, v);
    assert forall|q: Seq<char>| has_key(r, q) == (has_key(m, q) || q == k) by {
        if has_key(m, k) {
            let x = key_ix(m, k);
            assert(r[x] == (k, v));
            if has_key(r, q) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == q; if i != x { assert(m[i] == r[i]); } }
            if has_key(m, q) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == q; if i != x { assert(m[i] == r[i]); } }
        } else {
            let n = m.len() as int;
            assert(r[n] == (k, v));
            if has_key(r, q) { let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0 == q; if i < n { assert(m[i] == r[i]); } }
            if has_key(m, q) { let i = choose|i: int| 0 <= i < m.len() && (#[trigger] m[i]).0 == q; assert(r[i] == m[i]); }
        }
    }
}
pub proof fn lemma_last_key<V>(p: Seq<(Seq<char>, V)>, k: Seq<char>)
    requires p.len() > 0,
    ensures
        has_key(p, k) == (has_key(p.drop_last(), k) || p.last().0 == k),
        keys_once(p) && has_key(p.drop_last(), k) ==> p.last().0 != k,
{
    let q = p.drop_last();
    let n = p.len() - 1;
    assert(p[n] == p.last());
    if has_key(p, k) { let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0 == k; if i < n { assert(q[i] == p[i]); } }
    if has_key(q, k) { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0 == k; assert(p[i] == q[i]); }
}
