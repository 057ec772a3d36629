//@ source src/isec.rs
//@ source src/adaptation/locations/mod.rs
//@ source src/lib.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ use multimap
//@ rename parse vx_parse
//@ itersrc into_inner
//@ results read_to_string
//@ stubbed read_to_string
//@ item Fix
//@ item IsecMap noclone
//@ grammar IsecParser wpts
//@ prelude
broadcast use crate::rd::reads;
#[verifier::ext_equal]
#[derive(Clone, Copy)]
pub struct Point(pub f64, pub f64);
pub fn vx_point(x: f64, y: f64) -> (r: Point) ensures r == Point(x, y) { Point(x, y) }
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum IsecError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for IsecError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for IsecError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_wpts(tree(s)->0);
pub struct IsecParser { }
impl IsecParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
/// derived DerefMut: the map inside
impl IsecMap { pub fn insert(&mut self, k: String, v: Fix) ensures final(self).0@ == old(self).0@.insert(k@, old(self).0.all(k@).push(v)) { self.0.insert(k, v) } }
/// the text value with these characters
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub axiom fn axiom_string_of() ensures forall|s: String| #[trigger] string_of(s@) == s;
pub open spec fn file(content: Seq<u8>) -> Option<Seq<Pair<Rule>>> { match text_of(content) { Some(t) => match tree(t) { Some(p) => Some(p[0].kids()), None => None }, None => None } }
/// the position a line gives: latitude, then longitude
pub open spec fn position(p: Pair<Rule>) -> Point { let k = p.kids(); Point(read_f64(k[1].text())->0, read_f64(k[0].text())->0) }
pub open spec fn waypoint(p: Pair<Rule>) -> Fix { Fix { designator: string_of(p.kids()[0].text()), coordinate: position(p.kids()[1]) } }
/// the first n lines: under every designator its waypoints, in the order of the file
pub open spec fn waypoints(k: Seq<Pair<Rule>>, n: int) -> Map<Seq<char>, Seq<Fix>>
    decreases n
{ if n <= 0 { Map::empty() } else { let m = waypoints(k, n - 1); if k[n - 1].rule() is wpt { let d = k[n - 1].kids()[0].text(); m.insert(d, (if m.contains_key(d) { m[d] } else { Seq::empty() }).push(waypoint(k[n - 1]))) } else { m } } }
//@ fn parse_coord
//@ spec
requires g_coord(pair),
ensures ret == position(pair),
//@ fn parse_isec_txt  loops=1
//@ type acc0 IsecMap
//@ spec
ensures match ret { Ok(m) => file(content@) is Some && m.0@ == waypoints(file(content@)->0, file(content@)->0.len() as int), Err(_) => file(content@) is None },
//@ at start
proof { axiom_string_of(); if text_of(content@) is Some { axiom_tree(text_of(content@)->0); } }
//@ loop 0
    file(content@) is Some, g0 == file(content@)->0, root_wpts(tree(text_of(content@)->0)->0), acc0.0@ == waypoints(g0, it0.pos()),
//@ at loop0.start
let ghost m0 = acc0.0@;
//@ at loop0.end
proof { let n = it0.pos() - 1; axiom_string_of(); if g0[n].rule() is wpt { let w = waypoint(g0[n]); let d = g0[n].kids()[0].text(); assert(w.designator@ == d); assert(acc0.0@ == m0.insert(d, (if m0.contains_key(d) { m0[d] } else { Seq::empty() }).push(w))); } else { assert(acc0.0@ == m0); } }
//@ lemmas
