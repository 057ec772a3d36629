// ---- common/set.rs: HashSet (contracts assumed for std::collections::HashSet); iteration order is unspecified ----
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { k: core::marker::PhantomData<K> }
impl<K: VKey> HashSet<K> {
    pub uninterp spec fn view(&self) -> Set<K::KV>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<K::KV>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VKey<KV = K::KV> + ?Sized>(&self, q: &Q) -> (r: bool) ensures r == self@.contains(q.vkey()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k.vkey()), r == !old(self)@.contains(k.vkey()) { unimplemented!() }
}
/// the set holds exactly the given elements
pub open spec fn set_of<K: VKey>(s: Seq<K>, r: Set<K::KV>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> r.contains((#[trigger] s[i]).vkey())
    &&& forall|k: K::KV| #[trigger] r.contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).vkey() == k
}
impl<K: VKey> VxFrom<K> for HashSet<K> {
    open spec fn vx_is(s: Seq<K>, r: Self) -> bool { set_of(s, r@) }
    #[verifier::external_body] fn vx_from(v: Vec<K>) -> (r: Self) { unimplemented!() }
}
