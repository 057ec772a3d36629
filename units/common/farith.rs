// ---- common/farith.rs: f64 arithmetic as uninterpreted functions (IEEE evaluation is trusted, not modelled) ----
pub uninterp spec fn fadd(a: f64, b: f64) -> f64;
pub uninterp spec fn fsub(a: f64, b: f64) -> f64;
pub uninterp spec fn fmul(a: f64, b: f64) -> f64;
pub uninterp spec fn fdiv(a: f64, b: f64) -> f64;
pub uninterp spec fn fneg(a: f64) -> f64;
#[verifier::external_body]
pub fn vx_fadd(a: f64, b: f64) -> (r: f64) ensures r == fadd(a, b) { a + b }
#[verifier::external_body]
pub fn vx_fsub(a: f64, b: f64) -> (r: f64) ensures r == fsub(a, b) { a - b }
#[verifier::external_body]
pub fn vx_fmul(a: f64, b: f64) -> (r: f64) ensures r == fmul(a, b) { a * b }
#[verifier::external_body]
pub fn vx_fdiv(a: f64, b: f64) -> (r: f64) ensures r == fdiv(a, b) { a / b }
pub uninterp spec fn fabs(a: f64) -> f64;
pub uninterp spec fn fround(a: f64) -> f64;
pub uninterp spec fn fnegative(a: f64) -> bool;
pub uninterp spec fn f_as_u64(a: f64) -> u64;
pub uninterp spec fn f_of(n: int) -> f64;
pub trait VxFloat: Sized { fn vx_abs(self) -> f64; fn vx_round(self) -> f64; fn vx_is_neg(self) -> bool; }
impl VxFloat for f64 {
    #[verifier::external_body] fn vx_abs(self) -> (r: f64) ensures r == fabs(self) { unimplemented!() }
    #[verifier::external_body] fn vx_round(self) -> (r: f64) ensures r == fround(self) { unimplemented!() }
    #[verifier::external_body] fn vx_is_neg(self) -> (r: bool) ensures r == fnegative(self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_f_as_u64(x: f64) -> (r: u64) ensures r == f_as_u64(x) { unimplemented!() }
/// f64::from on small integers
pub trait VxToFloat { spec fn whole(&self) -> int; }
impl VxToFloat for u16 { open spec fn whole(&self) -> int { *self as int } }
impl VxToFloat for u8 { open spec fn whole(&self) -> int { *self as int } }
impl VxToFloat for i8 { open spec fn whole(&self) -> int { *self as int } }
#[verifier::external_body]
pub fn vx_f64_from<T: VxToFloat>(x: T) -> (r: f64) ensures r == f_of(x.whole()) { unimplemented!() }
