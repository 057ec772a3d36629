// ---- common/decimal.rs: decimal digits of naturals; `{:0W}` of an unsigned integer ----
pub open spec fn digit_char(d: nat) -> char { (('0' as u32) + (d % 10)) as char }
/// shortest decimal text
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![digit_char(n)] } else { dec(n / 10).push(digit_char(n % 10)) } }
pub open spec fn zeros(k: nat) -> Seq<char> { Seq::new(k, |i: int| '0') }
pub open spec fn pad(n: nat, w: nat) -> Seq<char> { if dec(n).len() >= w { dec(n) } else { zeros((w - dec(n).len()) as nat) + dec(n) } }
pub trait VxUnsigned { spec fn nat_of(&self) -> nat; }
impl VxUnsigned for u64 { open spec fn nat_of(&self) -> nat { *self as nat } }
impl VxUnsigned for u32 { open spec fn nat_of(&self) -> nat { *self as nat } }
impl VxUnsigned for u16 { open spec fn nat_of(&self) -> nat { *self as nat } }
impl VxUnsigned for u8 { open spec fn nat_of(&self) -> nat { *self as nat } }
/// `{:0W}`: zeros on the left up to W characters (std's formatting of unsigned integers, trusted)
#[verifier::external_body]
pub fn vx_push_padded<T: VxUnsigned>(s: &mut String, x: &T, w: usize) ensures final(s)@ == old(s)@ + pad(x.nat_of(), w as nat) { unimplemented!() }
pub proof fn lemma_digit(n: nat) ensures is_digit(digit_char(n)), digit_val(digit_char(n)) == n % 10
{ let d = (n % 10) as u32; assert(d < 10); let c = (48u32 + d) as char; assert(c as u32 == 48 + d); }
pub proof fn lemma_dec(n: nat) ensures all_digits(dec(n)), val(dec(n)) == n decreases n
{
    lemma_digit(n);
    if n < 10 { assert(dec(n).drop_last() =~= Seq::empty()); assert(val(dec(n).drop_last()) == 0); }
    else { lemma_dec(n / 10); lemma_digit(n % 10); assert(dec(n).drop_last() =~= dec(n / 10)); assert((n % 10) % 10 == n % 10); }
}
pub proof fn lemma_zeros(k: nat, s: Seq<char>) ensures val(zeros(k) + s) == val(s) decreases s.len(), k
{
    if s.len() > 0 { assert((zeros(k) + s).drop_last() =~= zeros(k) + s.drop_last()); lemma_zeros(k, s.drop_last()); }
    else { assert(zeros(k) + s =~= zeros(k)); if k > 0 { assert(zeros(k).drop_last() =~= zeros((k - 1) as nat)); lemma_zeros((k - 1) as nat, Seq::empty()); assert(zeros((k - 1) as nat) + Seq::empty() =~= zeros((k - 1) as nat)); } }
}
/// padding changes no value
pub proof fn lemma_pad(n: nat, w: nat) ensures all_digits(pad(n, w)), val(pad(n, w)) == n, pad(n, w).len() >= w
{ lemma_dec(n); if dec(n).len() < w { lemma_zeros((w - dec(n).len()) as nat, dec(n)); } }
/// `w` digits suffice below 10^w
pub proof fn lemma_pad_len(n: nat, w: nat) requires n < pow10(w), w > 0 ensures pad(n, w).len() == w
{ lemma_dec_len(n, w); }
pub open spec fn pow10(w: nat) -> nat decreases w { if w == 0 { 1 } else { 10 * pow10((w - 1) as nat) } }
pub proof fn lemma_dec_len(n: nat, w: nat) requires n < pow10(w), w > 0 ensures dec(n).len() <= w decreases w
{ if n >= 10 { if w == 1 { assert(pow10(1) == 10 * pow10(0)); } else { assert(n / 10 < pow10((w - 1) as nat)); lemma_dec_len(n / 10, (w - 1) as nat); } } }
