// ---- common/pest.rs: pest parse trees (the grammar engine is trusted): a pair has a rule, its text and its inner pairs ----
#[verifier::external_body]
#[verifier::accept_recursive_types(R)]
pub struct Pair<R> { v: core::marker::PhantomData<R> }
pub type Pairs<R> = VxIter<Pair<R>>;
impl<R> Pair<R> {
    pub uninterp spec fn rule(&self) -> R;
    pub uninterp spec fn text(&self) -> Seq<char>;
    pub uninterp spec fn kids(&self) -> Seq<Pair<R>>;
    #[verifier::external_body]
    pub fn as_rule(&self) -> (r: R) ensures r == self.rule() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &'static str) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_inner(self) -> (r: VxIter<Pair<R>>) ensures r.pos() == 0, r@ == self.kids() { unimplemented!() }
}
