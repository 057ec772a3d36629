// ---- common/text.rs: text by characters and by bytes (contracts assumed for str and String) ----
pub open spec fn digit(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> digit(#[trigger] s[i]) }
/// length in bytes
pub open spec fn blen(s: Seq<char>) -> int { vstd::utf8::encode_utf8(s).len() as int }
pub proof fn lemma_blen(s: Seq<char>)
    ensures digits(s) ==> blen(s) == s.len(),
{
    if digits(s) { assert(vstd::utf8::is_ascii_chars(s)) by { assert forall|i: int| 0 <= i < s.len() implies '\0' <= #[trigger] s[i] <= '\u{7f}' by { assert(digit(s[i])); } } vstd::utf8::is_ascii_chars_encode_utf8(s); }
}
/// the two parts of a text cut after n bytes, if that is between two characters
pub open spec fn cut(s: Seq<char>, n: int) -> bool { exists|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == n }
pub open spec fn split_at(s: Seq<char>, n: int) -> Option<(Seq<char>, Seq<char>)> {
    if cut(s, n) { let k = choose|k: int| 0 <= k <= s.len() && blen(#[trigger] s.take(k)) == n; Some((s.take(k), s.skip(k))) } else { None }
}
pub trait VxBytes { spec fn vx_chars(&self) -> Seq<char>;
    fn vx_blen(&self) -> (r: usize) ensures r == blen(self.vx_chars());
    fn vx_split_at(&self, n: usize) -> (r: Option<(&str, &str)>) ensures (r is Some) == (split_at(self.vx_chars(), n as int) is Some), match r { Some(p) => Some((p.0@, p.1@)) == split_at(self.vx_chars(), n as int), None => true };
    fn vx_starts(&self, c: char) -> (r: bool) ensures r == (self.vx_chars().len() > 0 && self.vx_chars()[0] == c);
}
impl VxBytes for str { open spec fn vx_chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_blen(&self) -> usize { unimplemented!() } #[verifier::external_body] fn vx_split_at(&self, n: usize) -> Option<(&str, &str)> { unimplemented!() } #[verifier::external_body] fn vx_starts(&self, c: char) -> bool { unimplemented!() } }
impl VxBytes for String { open spec fn vx_chars(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_blen(&self) -> usize { unimplemented!() } #[verifier::external_body] fn vx_split_at(&self, n: usize) -> Option<(&str, &str)> { unimplemented!() } #[verifier::external_body] fn vx_starts(&self, c: char) -> bool { unimplemented!() } }
/// s[a..b] on text of digits (any other text is outside this contract)
#[verifier::external_body]
pub fn vx_slice<S: VxBytes + ?Sized>(s: &S, a: usize, b: usize) -> (r: &str)
    requires digits(s.vx_chars()), a <= b <= s.vx_chars().len(),
    ensures r@ == s.vx_chars().subrange(a as int, b as int),
{ unimplemented!() }

/// `String == &str` compares the texts (the standard library's implementation; assumed)
pub broadcast axiom fn axiom_string_obeys() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::obeys_eq_spec();
pub broadcast axiom fn axiom_string_eq(a: String, b: &str) ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<&str>>::eq_spec(&a, &b) == (a@ == b@);
pub broadcast group group_string_eq { axiom_string_obeys, axiom_string_eq }
