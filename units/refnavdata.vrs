//@ source src/navdata_airports.rs
//@ source src/lib.rs
//@ use base
//@ use map
//@ use pest
//@ use firsts
//@ use digits
//@ use read
//@ rename clone .vx_dup
//@ itersrc into_inner
//@ results read_to_string
//@ stubbed read_to_string
//@ rename parse vx_parse
//@ item NavdataAirport noclone
//@ item NavdataAirportsResult
//@ grammar NavdataAirportsParser airports
//@ prelude
broadcast use crate::rd::reads;
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum NavdataAirportsError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for NavdataAirportsError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for NavdataAirportsError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct Point { v: f64 }
/// the point at a longitude and latitude
pub uninterp spec fn point(x: f64, y: f64) -> Point;
impl Point { #[verifier::external_body] pub fn new(x: f64, y: f64) -> (r: Point) ensures r == point(x, y) { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
/// what the grammar makes of a text
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_airports(tree(s)->0);
pub struct NavdataAirportsParser { }
impl NavdataAirportsParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
pub open spec fn file(content: Seq<u8>) -> Option<Seq<Pair<Rule>>> { match text_of(content) { Some(t) => match tree(t) { Some(p) => Some(p[0].kids()), None => None }, None => None } }
pub open spec fn record(p: Pair<Rule>) -> bool { p.rule() is definition }
pub open spec fn key(p: Pair<Rule>) -> Seq<char> { p.kids()[0].text() }
pub type Entry1 = NavdataAirport;
/// the entry is what the record says
/// the fields are designator, latitude, longitude, name
pub open spec fn says(v: NavdataAirport, p: Pair<Rule>) -> bool { let k = p.kids(); v.designator@ == k[0].text() && v.name@ == k[3].text() && v.location == point(read_f64(k[2].text())->0, read_f64(k[1].text())->0) }
//@ fn parse_navdata_airports  loops=1
//@ type acc0 HashMap<String, NavdataAirport>
//@ spec
ensures match ret { Ok(m) => file(content@) is Some && first_of_each(m@, file(content@)->0), Err(_) => file(content@) is None },
//@ at start
proof { if text_of(content@) is Some { axiom_tree(text_of(content@)->0); } }
//@ loop 0
    file(content@) is Some, g0 == file(content@)->0, root_airports(tree(text_of(content@)->0)->0), firsts(acc0@, g0, it0.pos()),
//@ at loop0.start
let ghost m0 = acc0@;
//@ at loop0.end
proof { let n = it0.pos() - 1; if record(g0[n]) { firsts_add(m0, acc0@, g0, n); } else { firsts_skip(m0, g0, n); } }
//@ lemmas
