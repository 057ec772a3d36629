//@ source src/adaptation/icao.rs
//@ use base
//@ use map
//@ use letters
//@ item Wtc
//@ item AircraftType
//@ item EngineType
//@ item ParseWtcError
//@ item ParseAircraftTypeError
//@ item ParseEngineTypeError
//@ item Aircraft noclone
//@ item AircraftMap noclone
//@ prelude
pub trait FromStr: Sized { type Err; fn from_str(s: &str) -> (ret: Result<Self, Self::Err>); }
pub trait Display { fn fmt(&self, f: &mut Formatter) -> (ret: Result<(), FmtError>); }
pub struct FmtError { }
/// std::fmt::Formatter: what has been written so far
#[verifier::external_body]
pub struct Formatter { v: u8 }
impl Formatter {
    pub uninterp spec fn out(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn write_str(&mut self, s: &str) -> (r: Result<(), FmtError>) ensures r is Ok ==> final(self).out() == old(self).out() + s@ { unimplemented!() }
}
impl AircraftMap {
    /// Deref to the inner map
    pub fn get<Q: VKey<KV = Seq<char>> + ?Sized>(&self, q: &Q) -> (r: Option<&Aircraft>)
        ensures match r { Some(v) => self.0@.contains_key(q.vkey()) && *v == self.0@[q.vkey()], None => !self.0@.contains_key(q.vkey()) },
    { self.0.get(q) }
}
/// the printed letter of a wake category
pub open spec fn wtc_text(w: Wtc) -> Seq<char> { match w { Wtc::LIGHT => seq!['L'], Wtc::MEDIUM => seq!['M'], Wtc::HEAVY => seq!['H'], Wtc::SUPER => seq!['J'], Wtc::UNKNOWN => seq!['?'] } }
//@ fn Wtc as FromStr::from_str
//@ spec
ensures ret.ok() == wtc_of(s@), ret is Ok <==> wtc_of(s@) is Some,
//@ at start
proof { lemma_letter(s@); }
//@ fn AircraftType as FromStr::from_str
//@ spec
ensures ret.ok() == type_of(s@), ret is Ok <==> type_of(s@) is Some,
//@ at start
proof { lemma_letter(s@); }
//@ fn EngineType as FromStr::from_str
//@ spec
ensures ret.ok() == engine_of(s@), ret is Ok <==> engine_of(s@) is Some,
//@ at start
proof { lemma_letter(s@); }
//@ fn AircraftMap::wtc
//@ spec
ensures ret == (match ac_type { Some(t) => if self.0@.contains_key(t@) { self.0@[t@].wtc } else { Wtc::UNKNOWN }, None => Wtc::UNKNOWN }),
//@ fn Wtc as Display::fmt
//@ sig fn fmt(&self, f: &mut Formatter) -> (ret: Result<(), FmtError>)
//@ spec
ensures ret is Ok ==> final(f).out() == old(f).out() + wtc_text(*self),
//@ at start
proof { reveal_strlit("L"); reveal_strlit("M"); reveal_strlit("H"); reveal_strlit("J"); reveal_strlit("?");
    assert("L"@ =~= seq!['L'] && "M"@ =~= seq!['M'] && "H"@ =~= seq!['H'] && "J"@ =~= seq!['J'] && "?"@ =~= seq!['?']); }
//@ lemmas
/// the printed letter of a known category decodes to that category
pub proof fn theorem_wtc_roundtrip(w: Wtc)
    ensures w != Wtc::UNKNOWN ==> wtc_of(wtc_text(w)) == Some(w),
{ }
