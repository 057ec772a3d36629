//@ source src/adaptation/colours.rs
//@ use base
//@ literal src/adaptation/colours.rs Regex::new(r"^#([0-9a-fA-F]{2})([0-9a-fA-F]{2})([0-9a-fA-F]{2})$")
//@ item Colour eq
//@ callrename u8::try_from vx_u8_try
//@ callrename u8::from_str_radix vx_u8_radix
//@ callrename i32::from vx_i32_from
//@ callrename serde::de::Error::invalid_type vx_invalid_type
//@ callrename serde::de::Unexpected::Str vx_unexpected
//@ results vx_u8_try vx_u8_radix r g b
//@ stubbed hash_rgb_regex
//@ prelude
#[verifier::external_body]
pub struct TryFromIntError { v: u8 }
#[verifier::external_body]
pub struct ParseIntError { v: u8 }
#[verifier::external_body]
pub fn vx_u8_try(x: i32) -> (r: Result<u8, TryFromIntError>)
    ensures match r { Ok(v) => 0 <= x < 256 && v == x, Err(_) => !(0 <= x < 256) },
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_i32_from(x: u8) -> (r: i32) ensures r == x { unimplemented!() }
pub open spec fn hexval(c: char) -> int {
    if '0' <= c <= '9' { c as int - '0' as int } else if 'a' <= c <= 'f' { c as int - 'a' as int + 10 } else if 'A' <= c <= 'F' { c as int - 'A' as int + 10 } else { -1 }
}
pub open spec fn hex2(s: Seq<char>) -> bool { s.len() == 2 && hexval(s[0]) >= 0 && hexval(s[1]) >= 0 }
/// u8::from_str_radix(_, 16) on two hexadecimal digits (std)
#[verifier::external_body]
pub fn vx_u8_radix<S: VKey<KV = Seq<char>> + ?Sized>(s: &S, radix: u32) -> (r: Result<u8, ParseIntError>)
    ensures radix == 16 && hex2(s.vkey()) ==> r is Ok && r->Ok_0 == hexval(s.vkey()[0]) * 16 + hexval(s.vkey()[1]),
{ unimplemented!() }
/// the text of an opaque colour, in either case of its letters
pub open spec fn spells(s: Seq<char>) -> bool { s.len() == 7 && s[0] == '#' && forall|i: int| 1 <= i < 7 ==> hexval(#[trigger] s[i]) >= 0 }
pub open spec fn byte_at(s: Seq<char>, i: int) -> int { hexval(s[i]) * 16 + hexval(s[i + 1]) }
/// regex ^#([0-9a-fA-F]{2})([0-9a-fA-F]{2})([0-9a-fA-F]{2})$ (trusted: the pattern's meaning)
#[verifier::external_body]
pub struct Regex { v: u8 }
impl Regex {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Vec<String>>)
        ensures (r is Some) == spells(s@),
            r is Some ==> r->0@.len() == 4 && r->0@[1]@ == s@.subrange(1, 3) && r->0@[2]@ == s@.subrange(3, 5) && r->0@[3]@ == s@.subrange(5, 7),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn hash_rgb_regex() -> (r: &'static Regex) { unimplemented!() }
pub struct ColourVisitor;
#[verifier::external_body]
pub struct DeError { v: u8 }
#[verifier::external_body]
pub struct Unexpected { v: u8 }
#[verifier::external_body]
pub fn vx_unexpected(s: &str) -> Unexpected { unimplemented!() }
#[verifier::external_body]
pub fn vx_invalid_type(u: Unexpected, v: &ColourVisitor) -> DeError { unimplemented!() }
/// serde::Serializer: the one string written
#[verifier::external_body]
pub struct Serializer { v: u8 }
#[verifier::external_body]
pub struct SerOk { v: u8 }
impl SerOk { pub uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct SerError { v: u8 }
impl Serializer {
    #[verifier::external_body]
    pub fn serialize_str(self, s: &str) -> (r: Result<SerOk, SerError>) ensures r is Ok ==> r->Ok_0.text() == s@ { unimplemented!() }
}
pub trait Visitor<'de> { type Value; fn visit_str(self, v: &str) -> (ret: Result<Colour, DeError>); }
pub trait Serialize { fn serialize(&self, serializer: Serializer) -> (ret: Result<SerOk, SerError>); }
impl VxVal for u8 { type VV = int; open spec fn vval(&self) -> int { *self as int } }
pub open spec fn hexd(n: int) -> char { if n < 10 { (n + '0' as int) as char } else { (n - 10 + 'a' as int) as char } }
pub open spec fn text_of(r: int, g: int, b: int) -> Seq<char> { seq!['#', hexd(r / 16), hexd(r % 16), hexd(g / 16), hexd(g % 16), hexd(b / 16), hexd(b % 16)] }
/// format!("#{:02x}{:02x}{:02x}", ..) (trusted: std's formatting of bytes)
pub axiom fn axiom_hex_format(r: int, g: int, b: int)
    ensures 0 <= r < 256 && 0 <= g < 256 && 0 <= b < 256 ==> fmt3("#{:02x}{:02x}{:02x}"@, r, g, b) == text_of(r, g, b);
/// the packed integer of a colour
pub open spec fn packed(c: Colour) -> int { c.r + 256 * c.g + 65536 * c.b }
//@ lemmas
/// decoding what encoding gives returns the colour, made opaque
proof fn theorem_pack(c: Colour)
    ensures 0 <= packed(c) < 0x100_0000, packed(c) % 256 == c.r, packed(c) / 256 % 256 == c.g, packed(c) / 65536 == c.b,
{ }
/// two opaque colours never share a packed integer or a text
proof fn theorem_text(c: Colour)
    ensures ({ let t = text_of(c.r as int, c.g as int, c.b as int); spells(t) && byte_at(t, 1) == c.r && byte_at(t, 3) == c.g && byte_at(t, 5) == c.b }),
{
    let t = text_of(c.r as int, c.g as int, c.b as int);
    assert forall|n: int| 0 <= n < 16 implies hexval(#[trigger] hexd(n)) == n by { }
    assert(t[1] == hexd(c.r as int / 16) && t[2] == hexd(c.r as int % 16) && t[3] == hexd(c.g as int / 16) && t[4] == hexd(c.g as int % 16) && t[5] == hexd(c.b as int / 16) && t[6] == hexd(c.b as int % 16));
}
//@ fn Colour::from_rgb
//@ spec
ensures ret.r == r, ret.g == g, ret.b == b, ret.a == 255,
//@ fn Colour::from_euroscope
//@ spec
ensures
    match ret { Ok(c) => 0 <= colour_num < 0x100_0000 && packed(c) == colour_num && c.a == 255, Err(_) => !(0 <= colour_num < 0x100_0000) },
//@ fn Colour::to_euroscope
//@ spec
ensures ret == packed(*self),
//@ fn ColourVisitor as Visitor::visit_str
//@ sig fn visit_str(self, v: &str) -> (ret: Result<Colour, DeError>)
//@ spec
ensures
    match ret { Ok(c) => spells(v@) && c.r == byte_at(v@, 1) && c.g == byte_at(v@, 3) && c.b == byte_at(v@, 5) && c.a == 255, Err(_) => !spells(v@) },
//@ fn Colour as Serialize::serialize
//@ sig fn serialize(&self, serializer: Serializer) -> (ret: Result<SerOk, SerError>)
//@ spec
ensures ret is Ok ==> ret->Ok_0.text() == text_of(self.r as int, self.g as int, self.b as int),
//@ at start
proof { axiom_hex_format(self.r as int, self.g as int, self.b as int); }
