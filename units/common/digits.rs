// ---- common/digits.rs: texts of decimal digits ----
pub mod dg {
use vstd::prelude::*;
pub open spec fn digit_val(c: char) -> nat { (c as u32 - '0' as u32) as nat }
pub open spec fn is_digit(c: char) -> bool { '0' <= c <= '9' }
/// the number a text of digits spells
pub open spec fn val(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { val(s.drop_last()) * 10 + digit_val(s.last()) } }
pub open spec fn all_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
}
pub use dg::*;
