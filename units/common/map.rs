// ---- common/map.rs: HashMap (contracts assumed for std::collections::HashMap); iteration order is unspecified ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { k: core::marker::PhantomData<(K, V)> }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Entry<'a, K, V> { pub map: &'a mut HashMap<K, V>, pub key: K }
impl<K: VKey, V> VxDefault for HashMap<K, V> { open spec fn vx_isdef(r: Self) -> bool { r@ == Map::<K::KV, V>::empty() } fn vx_default() -> (r: Self) { HashMap::new() } }

impl<K: VKey, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::KV, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K::KV, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.contains_key(q.vkey()) && *v == self@[q.vkey()], None => !self@.contains_key(q.vkey()) },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: bool)
        ensures r == self@.contains_key(q.vkey()),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: VKey<KV = K::KV> + ?Sized>(&mut self, q: &Q) -> (r: Option<&mut V>)
        ensures match r {
            Some(v) => old(self)@.contains_key(q.vkey()) && *v == old(self)@[q.vkey()] && final(self)@ == old(self)@.insert(q.vkey(), *final(v)),
            None => !old(self)@.contains_key(q.vkey()) && final(self)@ == old(self)@ },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k.vkey(), v),
            r == (if old(self)@.contains_key(k.vkey()) { Some(old(self)@[k.vkey()]) } else { None }),
    { unimplemented!() }
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures *r.map == *old(self), *final(r.map) == *final(self), r.key == k,
    { Entry { map: self, key: k } }
}
impl<'a, K: VKey, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self.map)@.contains_key(self.key.vkey()) { old(self.map)@[self.key.vkey()] } else { v }),
            final(self.map)@ == old(self.map)@.insert(self.key.vkey(), *final(r)),
    { unimplemented!() }
}
impl<'a, K: VKey, V: VxDefault> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V)
        ensures (if old(self.map)@.contains_key(self.key.vkey()) { *r == old(self.map)@[self.key.vkey()] } else { V::vx_isdef(*r) }),
            final(self.map)@ == old(self.map)@.insert(self.key.vkey(), *final(r)),
    { unimplemented!() }
}
/// the map a sequence of (key, value) pairs collects to: a later pair replaces an earlier one
pub open spec fn map_of<K: VKey, V>(s: Seq<(K, V)>) -> Map<K::KV, V>
    decreases s.len()
{ if s.len() == 0 { Map::empty() } else { map_of(s.drop_last()).insert(s.last().0.vkey(), s.last().1) } }
impl<K: VKey, V> VxFrom<(K, V)> for HashMap<K, V> {
    open spec fn vx_is(s: Seq<(K, V)>, r: Self) -> bool { r@ == map_of(s) }
    #[verifier::external_body] fn vx_from(v: Vec<(K, V)>) -> (r: Self) { unimplemented!() }
}
/// the entries of a map in its iteration order, whatever that is
pub uninterp spec fn entries<K: VKey, V>(m: HashMap<K, V>) -> Seq<(K, V)>;
pub open spec fn lists<K: VKey, V>(e: Seq<(K, V)>, m: Map<K::KV, V>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> m.contains_key((#[trigger] e[i]).0.vkey()) && m[e[i].0.vkey()] == e[i].1
    &&& forall|i: int, j: int| 0 <= i < j < e.len() ==> (#[trigger] e[i]).0.vkey() != (#[trigger] e[j]).0.vkey()
    &&& forall|k: K::KV| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == k
}
pub broadcast axiom fn axiom_entries<K: VKey, V>(m: HashMap<K, V>) ensures lists(#[trigger] entries(m), m@);
impl<K: VKey, V> VxInto for HashMap<K, V> { type Item = (K, V); open spec fn vx_items(self) -> Seq<(K, V)> { entries(self) }
    #[verifier::external_body] fn vx_into_iter(self) -> VxIter<(K, V)> { unimplemented!() } }
pub open spec fn entry_refs<'a, K, V>(s: Seq<(K, V)>) -> Seq<(&'a K, &'a V)> { Seq::new(s.len(), |i: int| (&s[i].0, &s[i].1)) }
impl<'a, K: VKey, V> VxInto for &'a HashMap<K, V> { type Item = (&'a K, &'a V); open spec fn vx_items(self) -> Seq<(&'a K, &'a V)> { entry_refs(entries(*self)) }
    #[verifier::external_body] fn vx_into_iter(self) -> VxIter<(&'a K, &'a V)> { unimplemented!() } }
impl<K: VKey, V> HashMap<K, V> {
    /// `m[&k]`
    #[verifier::external_body]
    pub fn vx_at<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: &V) requires self@.contains_key(q.vkey()) ensures *r == self@[q.vkey()] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter(&self) -> (r: VxIter<(&K, &V)>) ensures r.pos() == 0, r@ == entry_refs(entries(*self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values(&self) -> (r: VxIter<&V>) ensures r.pos() == 0, r@ == Seq::new(entries(*self).len(), |i: int| &entries(*self)[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_values(self) -> (r: VxIter<V>) ensures r.pos() == 0, r@ == Seq::new(entries(self).len(), |i: int| entries(self)[i].1) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VKey<KV = K::KV> + ?Sized>(&mut self, q: &Q) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(q.vkey()), r == (if old(self)@.contains_key(q.vkey()) { Some(old(self)@[q.vkey()]) } else { None }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_entry<Q: VKey<KV = K::KV> + ?Sized>(&mut self, q: &Q) -> (r: Option<(K, V)>)
        ensures final(self)@ == old(self)@.remove(q.vkey()),
            match r { Some(e) => old(self)@.contains_key(q.vkey()) && e.1 == old(self)@[q.vkey()] && e.0.vkey() == q.vkey(), None => !old(self)@.contains_key(q.vkey()) },
    { unimplemented!() }
}
/// a list of pairs with pairwise different keys collects to the map it lists
pub proof fn map_of_distinct<K: VKey, V>(s: Seq<(K, V)>)
    requires forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0.vkey() != (#[trigger] s[j]).0.vkey(),
    ensures lists(s, map_of(s)),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).0.vkey() != (#[trigger] d[j]).0.vkey() by { assert(s[i].0.vkey() != s[j].0.vkey()); }
        map_of_distinct(d);
        let m = map_of(s);
        assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] s[i]).0.vkey()) && m[s[i].0.vkey()] == s[i].1 by {
            if i < d.len() { assert(d[i] == s[i]); assert(map_of(d).contains_key(d[i].0.vkey())); assert(s[i].0.vkey() != s[s.len() - 1].0.vkey()); }
        }
        assert forall|k: K::KV| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vkey() == k by {
            if k == s.last().0.vkey() { assert(s[s.len() - 1].0.vkey() == k); } else {
                assert(map_of(d).contains_key(k));
                let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0.vkey() == k; assert(s[i] == d[i]);
            }
        }
    }
}
/// looking a key up in a collected list of two parts: the later part first
pub proof fn map_of_two<K: VKey, V>(a: Seq<(K, V)>, b: Seq<(K, V)>)
    ensures forall|k: K::KV| #![trigger map_of(a + b).contains_key(k)] map_of(a + b).contains_key(k) == (map_of(b).contains_key(k) || map_of(a).contains_key(k)),
        forall|k: K::KV| #![trigger map_of(a + b)[k]] map_of(a + b).contains_key(k) ==> map_of(a + b)[k] == (if map_of(b).contains_key(k) { map_of(b)[k] } else { map_of(a)[k] }),
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else { assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); map_of_two(a, b.drop_last());
        let c = a + b.drop_last(); let x = b.last();
        assert(map_of(a + b) == map_of(c).insert(x.0.vkey(), x.1));
        assert(map_of(b) == map_of(b.drop_last()).insert(x.0.vkey(), x.1));
        assert forall|k: K::KV| #![trigger map_of(a + b).contains_key(k)] map_of(a + b).contains_key(k) == (map_of(b).contains_key(k) || map_of(a).contains_key(k)) by { assert(map_of(c).contains_key(k) == (map_of(b.drop_last()).contains_key(k) || map_of(a).contains_key(k))); }
        assert forall|k: K::KV| #![trigger map_of(a + b)[k]] map_of(a + b).contains_key(k) implies map_of(a + b)[k] == (if map_of(b).contains_key(k) { map_of(b)[k] } else { map_of(a)[k] }) by { if k != x.0.vkey() { assert(map_of(c).contains_key(k)); assert(map_of(c)[k] == (if map_of(b.drop_last()).contains_key(k) { map_of(b.drop_last())[k] } else { map_of(a)[k] })); } }
    }
}
/// the entries of a map collect to the same map
pub proof fn map_of_entries<K: VKey, V>(m: HashMap<K, V>)
    ensures lists(entries(m), m@), forall|k: K::KV| #![trigger map_of(entries(m)).contains_key(k)] #![trigger m@.contains_key(k)] map_of(entries(m)).contains_key(k) == m@.contains_key(k),
        forall|k: K::KV| #![trigger map_of(entries(m))[k]] m@.contains_key(k) ==> map_of(entries(m))[k] == m@[k],
{
    broadcast use axiom_entries;
    let s = entries(m);
    assert(lists(s, m@));
    map_of_distinct(s);
    assert forall|k: K::KV| #![trigger map_of(s)[k]] m@.contains_key(k) implies map_of(s).contains_key(k) && map_of(s)[k] == m@[k] by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vkey() == k; assert(map_of(s).contains_key(s[i].0.vkey())); }
    assert forall|k: K::KV| #![trigger map_of(s).contains_key(k)] map_of(s).contains_key(k) implies m@.contains_key(k) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vkey() == k; assert(m@.contains_key(s[i].0.vkey())); }
    assert forall|k: K::KV| #![trigger m@.contains_key(k)] m@.contains_key(k) implies map_of(s).contains_key(k) by { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vkey() == k; assert(map_of(s).contains_key(s[i].0.vkey())); }
}
