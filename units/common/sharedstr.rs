// ---- common/sharedstr.rs: Arc<str> ----
#[verifier::external_body]
pub struct SharedStr { v: u8 }
impl SharedStr {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: Self) ensures r@ == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
impl VKey for SharedStr { type KV = Seq<char>; open spec fn vkey(&self) -> Seq<char> { self@ } }
