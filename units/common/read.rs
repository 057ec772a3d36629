// ---- common/read.rs: FromStr. `reads` says which value a text stands for (std's own parsers are trusted) ----
pub trait FromStr: Sized { type Err: core::fmt::Debug; spec fn reads(s: Seq<char>) -> Option<Self>;
    fn from_str(s: &str) -> (ret: Result<Self, Self::Err>) ensures ret.ok() == Self::reads(s@); }
#[derive(Debug)]
pub struct ParseIntError { }
#[derive(Debug)]
pub struct ParseFloatError { }
pub mod rd {
use vstd::prelude::*; use super::dg::*;
/// what std's integer parsers accept: digits after an optional `+` (signed ones also `-`), if the number fits
pub open spec fn body(s: Seq<char>) -> Seq<char> { if s.len() > 0 && (s[0] == '+' || s[0] == '-') { s.drop_first() } else { s } }
pub open spec fn read_nat(s: Seq<char>, max: nat) -> Option<nat> { if s.len() > 0 && s[0] != '-' && all_digits(body(s)) && val(body(s)) <= max { Some(val(body(s))) } else { None } }
pub open spec fn read_int(s: Seq<char>, max: nat) -> Option<int> {
    if s.len() == 0 || !all_digits(body(s)) { None } else if s[0] == '-' { if val(body(s)) <= max + 1 { Some(-(val(body(s)) as int)) } else { None } } else if val(body(s)) <= max { Some(val(body(s)) as int) } else { None }
}
#[verifier::opaque]
pub open spec fn read_u8(s: Seq<char>) -> Option<u8> { match read_nat(s, 0xff) { Some(n) => Some(n as u8), None => None } }
#[verifier::opaque]
pub open spec fn read_u16(s: Seq<char>) -> Option<u16> { match read_nat(s, 0xffff) { Some(n) => Some(n as u16), None => None } }
#[verifier::opaque]
pub open spec fn read_u32(s: Seq<char>) -> Option<u32> { match read_nat(s, 0xffff_ffff) { Some(n) => Some(n as u32), None => None } }
#[verifier::opaque]
pub open spec fn read_u64(s: Seq<char>) -> Option<u64> { match read_nat(s, 0xffff_ffff_ffff_ffff) { Some(n) => Some(n as u64), None => None } }
#[verifier::opaque]
pub open spec fn read_usize(s: Seq<char>) -> Option<usize> { match read_nat(s, usize::MAX as nat) { Some(n) => Some(n as usize), None => None } }
#[verifier::opaque]
pub open spec fn read_i8(s: Seq<char>) -> Option<i8> { match read_int(s, 0x7f) { Some(n) => Some(n as i8), None => None } }
#[verifier::opaque]
pub open spec fn read_i16(s: Seq<char>) -> Option<i16> { match read_int(s, 0x7fff) { Some(n) => Some(n as i16), None => None } }
#[verifier::opaque]
pub open spec fn read_i32(s: Seq<char>) -> Option<i32> { match read_int(s, 0x7fff_ffff) { Some(n) => Some(n as i32), None => None } }
#[verifier::opaque]
pub open spec fn read_i64(s: Seq<char>) -> Option<i64> { match read_int(s, 0x7fff_ffff_ffff_ffff) { Some(n) => Some(n as i64), None => None } }
/// which f32 or f64 a text stands for is left open; that digits with an optional point and sign stand for one is std's documented grammar
pub uninterp spec fn read_f32(s: Seq<char>) -> Option<f32>;
pub uninterp spec fn read_f64(s: Seq<char>) -> Option<f64>;
pub open spec fn digits_at(s: Seq<char>, a: int, b: int) -> bool { forall|i: int| a <= i < b ==> is_digit(#[trigger] s[i]) }
/// an optional `+` and 1 to n digits
pub open spec fn t_uint(s: Seq<char>, n: nat) -> bool { s.len() > 0 && s[0] != '-' && all_digits(body(s)) && body(s).len() <= n }
/// an optional sign and 1 to n digits
pub open spec fn t_int(s: Seq<char>, n: nat) -> bool { s.len() > 0 && all_digits(body(s)) && body(s).len() <= n }
/// exactly n digits
pub open spec fn t_digits(s: Seq<char>, n: nat) -> bool { s.len() == n && forall|i: int| 0 <= i < n ==> is_digit(#[trigger] s[i]) }
/// an optional sign, digits with at most one point, at least one digit
pub open spec fn t_float(s: Seq<char>) -> bool {
    let b = body(s);
    exists|d: int| 0 <= d <= b.len() && #[trigger] digits_at(b, 0, d) && (d == b.len() && d > 0 || d < b.len() && b.len() > 1 && b[d] == '.' && digits_at(b, d + 1, b.len() as int))
}
#[verifier::external_body]
pub broadcast proof fn axiom_read_f64(s: Seq<char>) requires #[trigger] t_float(s) ensures #[trigger] read_f64(s) is Some { }
#[verifier::external_body]
pub broadcast proof fn axiom_read_f32(s: Seq<char>) requires #[trigger] t_float(s) ensures #[trigger] read_f32(s) is Some { }
pub open spec fn tens(n: nat) -> nat decreases n { if n == 0 { 1 } else { 10 * tens((n - 1) as nat) } }
pub proof fn lemma_val(s: Seq<char>, n: nat) requires s.len() <= n, forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) ensures val(s) < tens(n) decreases n
{
    if s.len() == 0 { if n > 0 { lemma_val(s, (n - 1) as nat); } }
    else { lemma_val(s.drop_last(), (n - 1) as nat); assert(is_digit(s[s.len() - 1])); assert(digit_val(s.last()) <= 9); }
}
pub broadcast proof fn lemma_read_u8(s: Seq<char>, n: nat) requires #[trigger] t_uint(s, n), n <= 2 ensures #[trigger] read_u8(s) is Some { reveal(read_u8); lemma_val(body(s), 2); assert(tens(2) == 100) by (compute); }
pub broadcast proof fn lemma_read_u16(s: Seq<char>, n: nat) requires #[trigger] t_uint(s, n), n <= 4 ensures #[trigger] read_u16(s) is Some { reveal(read_u16); lemma_val(body(s), 4); assert(tens(4) == 10000) by (compute); }
pub broadcast proof fn lemma_read_u32(s: Seq<char>, n: nat) requires #[trigger] t_uint(s, n), n <= 9 ensures #[trigger] read_u32(s) is Some { reveal(read_u32); lemma_val(body(s), 9); assert(tens(9) == 1000000000) by (compute); }
pub broadcast proof fn lemma_read_u64(s: Seq<char>, n: nat) requires #[trigger] t_uint(s, n), n <= 19 ensures #[trigger] read_u64(s) is Some { reveal(read_u64); lemma_val(body(s), 19); assert(tens(19) == 10000000000000000000) by (compute); }
pub broadcast proof fn lemma_read_usize(s: Seq<char>, n: nat) requires #[trigger] t_uint(s, n), n <= 9 ensures #[trigger] read_usize(s) is Some { reveal(read_usize); lemma_val(body(s), 9); assert(tens(9) == 1000000000) by (compute); }
pub broadcast proof fn lemma_read_i8(s: Seq<char>, n: nat) requires #[trigger] t_int(s, n), n <= 2 ensures #[trigger] read_i8(s) is Some { reveal(read_i8); lemma_val(body(s), 2); assert(tens(2) == 100) by (compute); }
pub broadcast proof fn lemma_uread_i8(s: Seq<char>, n: nat) requires #[trigger] t_uint(s, n), n <= 2 ensures #[trigger] read_i8(s) is Some { reveal(read_i8); lemma_val(body(s), 2); assert(tens(2) == 100) by (compute); }
pub broadcast proof fn lemma_read_i16(s: Seq<char>, n: nat) requires #[trigger] t_int(s, n), n <= 4 ensures #[trigger] read_i16(s) is Some { reveal(read_i16); lemma_val(body(s), 4); assert(tens(4) == 10000) by (compute); }
pub broadcast proof fn lemma_uread_i16(s: Seq<char>, n: nat) requires #[trigger] t_uint(s, n), n <= 4 ensures #[trigger] read_i16(s) is Some { reveal(read_i16); lemma_val(body(s), 4); assert(tens(4) == 10000) by (compute); }
pub broadcast proof fn lemma_read_i32(s: Seq<char>, n: nat) requires #[trigger] t_int(s, n), n <= 9 ensures #[trigger] read_i32(s) is Some { reveal(read_i32); lemma_val(body(s), 9); assert(tens(9) == 1000000000) by (compute); }
pub broadcast proof fn lemma_uread_i32(s: Seq<char>, n: nat) requires #[trigger] t_uint(s, n), n <= 9 ensures #[trigger] read_i32(s) is Some { reveal(read_i32); lemma_val(body(s), 9); assert(tens(9) == 1000000000) by (compute); }
pub broadcast proof fn lemma_read_i64(s: Seq<char>, n: nat) requires #[trigger] t_int(s, n), n <= 18 ensures #[trigger] read_i64(s) is Some { reveal(read_i64); lemma_val(body(s), 18); assert(tens(18) == 1000000000000000000) by (compute); }
pub broadcast proof fn lemma_uread_i64(s: Seq<char>, n: nat) requires #[trigger] t_uint(s, n), n <= 18 ensures #[trigger] read_i64(s) is Some { reveal(read_i64); lemma_val(body(s), 18); assert(tens(18) == 1000000000000000000) by (compute); }
pub broadcast group reads { axiom_read_f64, axiom_read_f32, lemma_read_u8, lemma_read_u16, lemma_read_u32, lemma_read_u64, lemma_read_usize, lemma_read_i8, lemma_read_i16, lemma_read_i32, lemma_read_i64, lemma_uread_i8, lemma_uread_i16, lemma_uread_i32, lemma_uread_i64 }
}
pub use rd::*;
impl FromStr for u8 { type Err = ParseIntError; open spec fn reads(s: Seq<char>) -> Option<u8> { read_u8(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<u8, ParseIntError>) { unimplemented!() } }
impl FromStr for u16 { type Err = ParseIntError; open spec fn reads(s: Seq<char>) -> Option<u16> { read_u16(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<u16, ParseIntError>) { unimplemented!() } }
impl FromStr for u32 { type Err = ParseIntError; open spec fn reads(s: Seq<char>) -> Option<u32> { read_u32(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<u32, ParseIntError>) { unimplemented!() } }
impl FromStr for u64 { type Err = ParseIntError; open spec fn reads(s: Seq<char>) -> Option<u64> { read_u64(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<u64, ParseIntError>) { unimplemented!() } }
impl FromStr for usize { type Err = ParseIntError; open spec fn reads(s: Seq<char>) -> Option<usize> { read_usize(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<usize, ParseIntError>) { unimplemented!() } }
impl FromStr for i8 { type Err = ParseIntError; open spec fn reads(s: Seq<char>) -> Option<i8> { read_i8(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<i8, ParseIntError>) { unimplemented!() } }
impl FromStr for i16 { type Err = ParseIntError; open spec fn reads(s: Seq<char>) -> Option<i16> { read_i16(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<i16, ParseIntError>) { unimplemented!() } }
impl FromStr for i32 { type Err = ParseIntError; open spec fn reads(s: Seq<char>) -> Option<i32> { read_i32(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<i32, ParseIntError>) { unimplemented!() } }
impl FromStr for i64 { type Err = ParseIntError; open spec fn reads(s: Seq<char>) -> Option<i64> { read_i64(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<i64, ParseIntError>) { unimplemented!() } }
impl FromStr for f32 { type Err = ParseFloatError; open spec fn reads(s: Seq<char>) -> Option<f32> { read_f32(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<f32, ParseFloatError>) { unimplemented!() } }
impl FromStr for f64 { type Err = ParseFloatError; open spec fn reads(s: Seq<char>) -> Option<f64> { read_f64(s) } #[verifier::external_body] fn from_str(s: &str) -> (ret: Result<f64, ParseFloatError>) { unimplemented!() } }
/// `s.parse()`
pub trait VxText { spec fn vtext(&self) -> Seq<char>; fn vx_str(&self) -> (r: &str) ensures r@ == self.vtext(); }
impl VxText for str { open spec fn vtext(&self) -> Seq<char> { self@ } fn vx_str(&self) -> (r: &str) { self } }
impl VxText for String { open spec fn vtext(&self) -> Seq<char> { self@ } fn vx_str(&self) -> (r: &str) { self.as_str() } }
impl<X: VxText + ?Sized> VxText for &X { open spec fn vtext(&self) -> Seq<char> { (**self).vtext() } fn vx_str(&self) -> (r: &str) { (**self).vx_str() } }
pub fn vx_parse<T: FromStr, S: VxText>(s: S) -> (r: Result<T, T::Err>) ensures r.ok() == T::reads(s.vtext()) { T::from_str(s.vx_str()) }
