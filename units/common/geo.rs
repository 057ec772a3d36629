// ---- common/geo.rs: geo points are opaque; `quant` is Quantize::quantize (contract assumed here, proved by Kani for C17) ----
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Point { v: f64 }
impl Point {
    /// the position rounded to a millionth of a degree
    pub uninterp spec fn quant(&self) -> (int, int);
}
