// ---- common/multimap.rs: multimap::MultiMap (contracts assumed): per key the non-empty list of its values in insertion order ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct MultiMap<K, V> { k: core::marker::PhantomData<(K, V)> }
impl<K: VKey, V> MultiMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::KV, Seq<V>>;
    /// the values of a key, none if it is absent
    pub open spec fn all(&self, k: K::KV) -> Seq<V> { if self@.contains_key(k) { self@[k] } else { Seq::empty() } }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, Seq<V>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(q.vkey()) && self@[q.vkey()].len() > 0 && *v == self@[q.vkey()][0], None => !self@.contains_key(q.vkey()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_vec<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: Option<&Vec<V>>)
        ensures match r { Some(v) => self@.contains_key(q.vkey()) && v@ == self@[q.vkey()], None => !self@.contains_key(q.vkey()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: bool)
        ensures r == self@.contains_key(q.vkey()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V)
        ensures final(self)@ == old(self)@.insert(k.vkey(), old(self).all(k.vkey()).push(v)),
    { unimplemented!() }
}
/// the keys with their lists, in iteration order, whatever that is
pub uninterp spec fn mm_entries<K: VKey, V>(m: MultiMap<K, V>) -> Seq<(K, Vec<V>)>;
pub open spec fn mm_lists<K: VKey, V>(e: Seq<(K, Vec<V>)>, m: Map<K::KV, Seq<V>>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0.vkey()) && m[e[i].0.vkey()] == e[i].1@
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.vkey() != (#[trigger] e[j]).0.vkey()
    &&& forall|k: K::KV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == k
}
pub proof fn lemma_mm_find<K: VKey, V>(e: Seq<(K, Vec<V>)>, m: Map<K::KV, Seq<V>>, k: K::KV) -> (i: int) requires mm_lists(e, m), m.contains_key(k) ensures 0 <= i < e.len(), e[i].0.vkey() == k
{ choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == k }
pub broadcast axiom fn axiom_mm_entries<K: VKey, V>(m: MultiMap<K, V>) ensures mm_lists(#[trigger] mm_entries(m), m@);
impl<K: VKey, V> VxInto for MultiMap<K, V> { type Item = (K, Vec<V>); open spec fn vx_items(self) -> Seq<(K, Vec<V>)> { mm_entries(self) }
    #[verifier::external_body] fn vx_into_iter(self) -> VxIter<(K, Vec<V>)> { unimplemented!() } }
/// the elements of a sequence of lists, in order
pub open spec fn flat<'a, T>(s: Seq<&'a Vec<T>>) -> Seq<&'a T> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + seq_refs(s.last()@) } }
impl<'a, T> VxIter<&'a Vec<T>> {
    #[verifier::external_body]
    pub fn flatten(self) -> (r: VxIter<&'a T>) ensures r.pos() == 0, r@ == flat(self@) { unimplemented!() }
}
pub broadcast proof fn lemma_flat_one<'a, T>(s: Seq<&'a Vec<T>>)
    ensures s.len() == 0 ==> #[trigger] flat(s) == Seq::<&'a T>::empty(), s.len() == 1 ==> flat(s) == seq_refs(s[0]@),
{
    reveal_with_fuel(flat, 3);
    if s.len() == 1 { assert(s.drop_last().len() == 0); assert(flat(s) =~= seq_refs(s[0]@)); }
}
/// a list of pairs collects to a multimap: every value under its key, in order
pub open spec fn mm_built<K: VKey, V>(s: Seq<(K, V)>) -> Map<K::KV, Seq<V>> decreases s.len()
{ if s.len() == 0 { Map::empty() } else { let m = mm_built(s.drop_last()); let k = s.last().0.vkey(); m.insert(k, (if m.contains_key(k) { m[k] } else { Seq::empty() }).push(s.last().1)) } }
impl<K: VKey, V> MultiMap<K, V> {
    #[verifier::external_body]
    pub fn from_iter<const N: usize>(a: [(K, V); N]) -> (r: Self) ensures r@ == mm_built(a@) { unimplemented!() }
}
pub broadcast proof fn lemma_mm_built_one<K: VKey, V>(s: Seq<(K, V)>) ensures s.len() == 1 ==> #[trigger] mm_built(s) == Map::<K::KV, Seq<V>>::empty().insert(s[0].0.vkey(), seq![s[0].1])
{ reveal_with_fuel(mm_built, 2); if s.len() == 1 { assert(s.drop_last().len() == 0); assert(Seq::<V>::empty().push(s[0].1) =~= seq![s[0].1]); } }
impl<K: VKey, V> VxFrom<(K, V)> for MultiMap<K, V> { open spec fn vx_is(s: Seq<(K, V)>, r: Self) -> bool { r@ == mm_built(s) } #[verifier::external_body] fn vx_from(v: Vec<(K, V)>) -> (r: Self) { unimplemented!() } }
pub open spec fn mm_pair<K: VKey, V>(s: Seq<(K, V)>, k: K::KV, v: V) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vkey() == k && s[i].1 == v }
/// the multimap holds exactly the values of the pairs
pub open spec fn mm_holds<K: VKey, V>(m: Map<K::KV, Seq<V>>, s: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).0.vkey()) && m[s[i].0.vkey()].contains(s[i].1)
    &&& forall|k: K::KV, j: int| m.contains_key(k) && 0 <= j < m[k].len() ==> mm_pair(s, k, #[trigger] m[k][j])
    &&& forall|k: K::KV| #[trigger] m.contains_key(k) ==> m[k].len() > 0
}
pub proof fn lemma_mm_holds<K: VKey, V>(s: Seq<(K, V)>) ensures mm_holds(mm_built(s), s) decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); lemma_mm_holds(t);
        let m = mm_built(t); let k = s.last().0.vkey(); let v = s.last().1;
        let l = (if m.contains_key(k) { m[k] } else { Seq::empty() }).push(v);
        let r = mm_built(s); assert(r == m.insert(k, l));
        assert forall|i: int| 0 <= i < s.len() implies r.contains_key((#[trigger] s[i]).0.vkey()) && r[s[i].0.vkey()].contains(s[i].1) by {
            if i == s.len() - 1 { assert(s[i] == s.last()); assert(l[l.len() - 1] == v); }
            else { assert(t[i] == s[i]); let q = s[i].0.vkey(); let j = choose|j: int| 0 <= j < m[q].len() && m[q][j] == s[i].1; if q == k { assert(l[j] == s[i].1); } else { assert(r[q] == m[q]); } }
        }
        assert forall|q: K::KV, j: int| r.contains_key(q) && 0 <= j < r[q].len() implies mm_pair(s, q, #[trigger] r[q][j]) by {
            if q == k && j == l.len() - 1 { assert(s[s.len() - 1].1 == r[q][j]); }
            else { assert(m.contains_key(q)); assert(r[q][j] == m[q][j]); assert(mm_pair(t, q, m[q][j])); let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.vkey() == q && t[i].1 == m[q][j]; assert(s[i] == t[i]); }
        }
        assert forall|q: K::KV| #[trigger] r.contains_key(q) implies r[q].len() > 0 by { if q != k { assert(m.contains_key(q)); } }
    } else { assert(mm_built(s) == Map::<K::KV, Seq<V>>::empty()); assert(forall|q: K::KV| !mm_built(s).contains_key(q)); }
}
/// the values of a key, in order
pub open spec fn mm_with<K: VKey, V>(s: Seq<(K, V)>, k: K::KV, n: int) -> Seq<V> decreases n { if n <= 0 { Seq::empty() } else if s[n - 1].0.vkey() == k { mm_with(s, k, n - 1).push(s[n - 1].1) } else { mm_with(s, k, n - 1) } }
pub proof fn lemma_mm_with_prefix<K: VKey, V>(s: Seq<(K, V)>, t: Seq<(K, V)>, k: K::KV, n: int) requires 0 <= n <= s.len(), n <= t.len(), forall|i: int| 0 <= i < n ==> s[i] == t[i] ensures mm_with(s, k, n) == mm_with(t, k, n) decreases n
{ if n > 0 { lemma_mm_with_prefix(s, t, k, n - 1); } }
/// a multimap collected from pairs has for each key the values of its pairs, in order
pub proof fn lemma_mm_with<K: VKey, V>(s: Seq<(K, V)>, k: K::KV)
    ensures mm_built(s).contains_key(k) == (mm_with(s, k, s.len() as int).len() > 0), mm_built(s).contains_key(k) ==> mm_built(s)[k] == mm_with(s, k, s.len() as int), decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); lemma_mm_with(t, k); lemma_mm_with_prefix(s, t, k, t.len() as int);
        let m = mm_built(t); let q = s.last().0.vkey(); let l = (if m.contains_key(q) { m[q] } else { Seq::empty() }).push(s.last().1);
        assert(mm_built(s) == m.insert(q, l));
        if q == k { assert(m.contains_key(k) || mm_with(t, k, t.len() as int) =~= Seq::empty()); }
    } else { assert(mm_built(s) == Map::<K::KV, Seq<V>>::empty()); }
}
