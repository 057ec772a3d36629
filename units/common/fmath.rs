// ---- common/fmath.rs: numbers read from digits ----
/// the number a text of digits spells
pub uninterp spec fn fnum(s: Seq<char>) -> f64;
#[verifier::external_body]
#[derive(Debug)]
pub struct ParseFloatError { v: u8 }
pub trait VxParse { spec fn vx_num_text(&self) -> Seq<char>;
    fn vx_parse<T: VxNumber>(&self) -> (r: Result<T, ParseFloatError>) ensures digits(self.vx_num_text()) && self.vx_num_text().len() > 0 ==> r is Ok && T::vx_reads(self.vx_num_text(), r->Ok_0); }
pub trait VxNumber: Sized { spec fn vx_reads(s: Seq<char>, r: Self) -> bool; }
impl VxNumber for f64 { open spec fn vx_reads(s: Seq<char>, r: f64) -> bool { r == fnum(s) } }
impl VxParse for str { open spec fn vx_num_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T: VxNumber>(&self) -> Result<T, ParseFloatError> { unimplemented!() } }
impl VxParse for String { open spec fn vx_num_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<T: VxNumber>(&self) -> Result<T, ParseFloatError> { unimplemented!() } }
