//@ source src/icao_airlines.rs
//@ source src/lib.rs
//@ use base
//@ use map
//@ use pest
//@ use firsts
//@ use digits
//@ use read
//@ rename clone .vx_dup
//@ itersrc into_inner
//@ results read_to_string
//@ stubbed read_to_string
//@ literal src/icao_airlines.rs #[pest_ast(inner(rule(Rule::designator), with(span_into_string)))] pub designator: String,
//@ literal src/icao_airlines.rs #[pest_ast(inner(rule(Rule::name), with(span_into_string)))] pub name: String,
//@ literal src/icao_airlines.rs #[pest_ast(inner(rule(Rule::callsign), with(span_into_string)))] pub callsign: String,
//@ literal src/icao_airlines.rs #[pest_ast(inner(rule(Rule::country), with(span_into_string)))] pub country: String,
//@ literal src/icao_airlines.rs fn span_into_string(span: Span) -> String { span.as_str().to_string() }
//@ item Airlines noclone
//@ item Airline noclone
//@ item Eoi noclone
//@ item AirlinesResult
//@ grammar AirlinesParser airlines
//@ prelude
broadcast use crate::rd::reads;
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum AirlinesError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for AirlinesError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for AirlinesError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
/// what the grammar makes of a text
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_airlines(tree(s)->0);
pub struct AirlinesParser { }
impl AirlinesParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
pub open spec fn file(content: Seq<u8>) -> Option<Seq<Pair<Rule>>> { match text_of(content) { Some(t) => match tree(t) { Some(p) => Some(p[0].kids()), None => None }, None => None } }
pub open spec fn record(p: Pair<Rule>) -> bool { p.rule() is definition }
pub open spec fn key(p: Pair<Rule>) -> Seq<char> { p.kids()[0].text() }
pub open spec fn shape(p: Pair<Rule>) -> bool { record(p) ==> p.kids().len() >= 4 }
/// a file is a list of records and the end of input
pub open spec fn shapes(k: Seq<Pair<Rule>>) -> bool { k.len() >= 1 && !record(k.last()) && forall|i: int| 0 <= i < k.len() - 1 ==> record(#[trigger] k[i]) && shape(k[i]) }
pub type Entry1 = Airline;
/// the entry is what the record says
pub open spec fn says(v: Airline, p: Pair<Rule>) -> bool { let k = p.kids(); v.designator@ == k[0].text() && v.name@ == k[1].text() && v.callsign@ == k[2].text() && v.country@ == k[3].text() }
pub open spec fn says_all(d: Seq<Airline>, k: Seq<Pair<Rule>>) -> bool { d.len() == k.len() - 1 && forall|i: int| 0 <= i < d.len() ==> says(#[trigger] d[i], k[i]) }
#[derive(Debug)]
pub struct NoError { }
impl Airlines {
    /// generated by pest_ast from the attributes of Airlines and Airline (their text is pinned above)
    #[verifier::external_body]
    pub fn from_pest(p: &mut VxIter<Pair<Rule>>) -> (r: Result<Airlines, NoError>)
        requires old(p).pos() == 0, old(p)@.len() >= 1, shapes(old(p)@[0].kids()),
        ensures r matches Ok(a) && says_all(a.definitions@, old(p)@[0].kids()),
    { unimplemented!() }
}
//@ fn parse_airlines  loops=1
//@ type acc0 HashMap<String, Airline>
//@ spec
ensures match ret { Ok(m) => file(content@) is Some && first_of_each(m@, file(content@)->0), Err(_) => file(content@) is None },
//@ at start
proof { if text_of(content@) is Some { axiom_tree(text_of(content@)->0); } }
//@ loop 0
    file(content@) is Some, shapes(file(content@)->0), says_all(g0, file(content@)->0), firsts(acc0@, file(content@)->0, it0.pos()),
//@ at loop0.start
let ghost m0 = acc0@;
//@ at loop0.end
proof { let n = it0.pos() - 1; assert(says(g0[n], (file(content@)->0)[n])); firsts_add(m0, acc0@, file(content@)->0, n); }
//@ at loop0.after
proof { let k = file(content@)->0; firsts_skip(acc0@, k, k.len() - 1); }
//@ lemmas
