//@ source src/icao_aircraft.rs
//@ source src/adaptation/icao.rs
//@ source src/lib.rs
//@ use base
//@ use map
//@ use letters
//@ use pest
//@ use firsts
//@ use digits
//@ use read
//@ rename clone .vx_dup
//@ itersrc into_inner
//@ results read_to_string
//@ stubbed read_to_string
//@ rename parse vx_parse
//@ item Wtc
//@ item AircraftType
//@ item EngineType
//@ item ParseWtcError
//@ item ParseAircraftTypeError
//@ item ParseEngineTypeError
//@ item Aircraft noclone
//@ item AircraftMap noclone
//@ item AircraftResult
//@ grammar AircraftParser aircraft
//@ prelude
broadcast use crate::rd::reads;
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum AircraftError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for AircraftError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for AircraftError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
#[verifier::external]
impl core::fmt::Debug for ParseWtcError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external]
impl core::fmt::Debug for ParseAircraftTypeError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
#[verifier::external]
impl core::fmt::Debug for ParseEngineTypeError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub trait LetterStr: Sized { type Err; fn from_str(s: &str) -> (ret: Result<Self, Self::Err>); }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
/// what the grammar makes of a text
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_aircraft(tree(s)->0);
pub struct AircraftParser { }
impl AircraftParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
pub open spec fn file(content: Seq<u8>) -> Option<Seq<Pair<Rule>>> { match text_of(content) { Some(t) => match tree(t) { Some(p) => Some(p[0].kids()), None => None }, None => None } }
pub open spec fn record(p: Pair<Rule>) -> bool { p.rule() is definition }
pub open spec fn key(p: Pair<Rule>) -> Seq<char> { p.kids()[0].text() }
pub type Entry1 = Aircraft;
/// the entry is what the record says
pub open spec fn says(v: Aircraft, p: Pair<Rule>) -> bool {
    let k = p.kids();
    &&& v.designator@ == k[0].text() && v.manufacturer@ == k[5].text() && v.name@ == k[6].text()
    &&& Some(v.wtc) == wtc_of(k[1].text()) && Some(v.aircrafttype) == type_of(k[2].text()) && Some(v.enginetype) == engine_of(k[4].text())
    &&& v.num_engines == (match read_u8(k[3].text()) { Some(n) => n, None => 0 })
}
//@ fn Wtc as FromStr::from_str  trait=LetterStr
//@ spec
ensures ret.ok() == wtc_of(s@), ret is Ok <==> wtc_of(s@) is Some,
//@ at start
proof { lemma_letter(s@); }
//@ fn AircraftType as FromStr::from_str  trait=LetterStr
//@ spec
ensures ret.ok() == type_of(s@), ret is Ok <==> type_of(s@) is Some,
//@ at start
proof { lemma_letter(s@); }
//@ fn EngineType as FromStr::from_str  trait=LetterStr
//@ spec
ensures ret.ok() == engine_of(s@), ret is Ok <==> engine_of(s@) is Some,
//@ at start
proof { lemma_letter(s@); }
//@ fn parse_aircraft  loops=1
//@ type acc0 HashMap<String, Aircraft>
//@ spec
ensures match ret { Ok(m) => file(content@) is Some && first_of_each(m.0@, file(content@)->0), Err(_) => file(content@) is None },
//@ at start
proof { if text_of(content@) is Some { axiom_tree(text_of(content@)->0); } }
//@ loop 0
    file(content@) is Some, g0 == file(content@)->0, root_aircraft(tree(text_of(content@)->0)->0), firsts(acc0@, g0, it0.pos()),
//@ at loop0.start
let ghost m0 = acc0@;
//@ at loop0.end
proof { let n = it0.pos() - 1; if record(g0[n]) { firsts_add(m0, acc0@, g0, n); } else { firsts_skip(m0, g0, n); } }
//@ lemmas
