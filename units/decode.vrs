//@ source src/lib.rs
//@ use base
//@ rename to_vec vx_to_vec
//@ rename decode vx_decode
//@ rename to_string vx_cow_string
//@ callrename String::from_utf8 vx_from_utf8
//@ results vx_from_utf8
//@ prelude
use vstd::utf8::*;
#[verifier::external_body]
pub struct Error { v: u8 } // io::Error
#[verifier::external_body]
pub struct FromUtf8Error { v: u8 }
#[verifier::external_body]
pub fn vx_to_vec(s: &[u8]) -> (r: Vec<u8>) ensures r@ == s@ { unimplemented!() }
/// String::from_utf8 (std)
#[verifier::external_body]
pub fn vx_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures match r { Ok(s) => valid_utf8(v@) && s@ == decode_utf8(v@), Err(_) => !valid_utf8(v@) },
{ unimplemented!() }
/// the Windows-1252 code page
pub open spec fn cp1252(b: u8) -> char {
    if b < 0x80 || b >= 0xA0 { b as char }
    else if b == 0x80 { '\u{20AC}' } else if b == 0x82 { '\u{201A}' } else if b == 0x83 { '\u{0192}' } else if b == 0x84 { '\u{201E}' } else if b == 0x85 { '\u{2026}' } else if b == 0x86 { '\u{2020}' } else if b == 0x87 { '\u{2021}' }
    else if b == 0x88 { '\u{02C6}' } else if b == 0x89 { '\u{2030}' } else if b == 0x8A { '\u{0160}' } else if b == 0x8B { '\u{2039}' } else if b == 0x8C { '\u{0152}' } else if b == 0x8E { '\u{017D}' }
    else if b == 0x91 { '\u{2018}' } else if b == 0x92 { '\u{2019}' } else if b == 0x93 { '\u{201C}' } else if b == 0x94 { '\u{201D}' } else if b == 0x95 { '\u{2022}' } else if b == 0x96 { '\u{2013}' } else if b == 0x97 { '\u{2014}' }
    else if b == 0x98 { '\u{02DC}' } else if b == 0x99 { '\u{2122}' } else if b == 0x9A { '\u{0161}' } else if b == 0x9B { '\u{203A}' } else if b == 0x9C { '\u{0153}' } else if b == 0x9E { '\u{017E}' } else if b == 0x9F { '\u{0178}' }
    else { b as char } // 81 8D 8F 90 9D stay control characters
}
pub open spec fn cp1252_text(s: Seq<u8>) -> Seq<char> { Seq::new(s.len(), |i: int| cp1252(s[i])) }
pub open spec fn has_bom(s: Seq<u8>) -> bool {
    (s.len() >= 3 && s[0] == 0xEF && s[1] == 0xBB && s[2] == 0xBF) || (s.len() >= 2 && ((s[0] == 0xFE && s[1] == 0xFF) || (s[0] == 0xFF && s[1] == 0xFE)))
}
/// encoding_rs::WINDOWS_1252 (trusted: decodes by the code page unless a byte order mark takes over)
pub struct Encoding { }
pub exec const WINDOWS_1252: Encoding = Encoding { };
#[verifier::external_body]
pub struct Cow { v: u8 }
impl Cow { pub uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body]
pub fn vx_decode(e: Encoding, s: &[u8]) -> (r: (Cow, Encoding, bool))
    ensures !has_bom(s@) ==> r.0@ == cp1252_text(s@),
{ unimplemented!() }
pub trait VxText { spec fn vx_text(&self) -> Seq<char>; fn vx_str(&self) -> (r: String) ensures r@ == self.vx_text(); }
impl VxText for Cow { open spec fn vx_text(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_str(&self) -> String { unimplemented!() } }
pub fn vx_cow_string<T: VxText>(x: T) -> (r: String) ensures r@ == x.vx_text() { x.vx_str() }

/// what a file's bytes say
pub open spec fn text_of(s: Seq<u8>) -> Seq<char> { if valid_utf8(s) { decode_utf8(s) } else { cp1252_text(s) } }
//@ lemmas
/// ASCII content reads the same as UTF-8, as Windows-1252 and as Latin-1, and is what its bytes spell
proof fn theorem_ascii(s: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] < 0x80,
    ensures valid_utf8(s), decode_utf8(s) == cp1252_text(s), text_of(s) == cp1252_text(s), !has_bom(s), forall|i: int| 0 <= i < s.len() ==> (#[trigger] text_of(s)[i]) as u32 == s[i],
{
    let t = cp1252_text(s);
    assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as u32 == s[i] by { assert(cp1252(s[i]) == s[i] as char); }
    assert(is_ascii_chars(t)) by { assert forall|i: int| 0 <= i < t.len() implies '\0' <= #[trigger] t[i] <= '\u{7f}' by { assert(t[i] as u32 == s[i]); } }
    is_ascii_chars_encode_utf8(t);
    assert(encode_utf8(t) =~= s);
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
}
/// every text survives being written as UTF-8
proof fn theorem_roundtrip(t: Seq<char>)
    ensures text_of(encode_utf8(t)) == t,
{
    encode_utf8_valid_utf8(t);
    encode_utf8_decode_utf8(t);
}
//@ fn read_to_string
//@ spec
    ensures
        ret is Ok,
        valid_utf8(contents@) || !has_bom(contents@) ==> ret->Ok_0@ == text_of(contents@),
