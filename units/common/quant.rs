#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct QPos { x: i64, y: i64 }
impl QPos { pub uninterp spec fn view(&self) -> (int, int); }
impl vstd::std_specs::cmp::PartialEqSpecImpl for QPos { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl PartialEq for QPos { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Point { #[verifier::external_body] pub fn quantize(&self) -> (r: QPos) ensures r@ == self.quant() { unimplemented!() } }
