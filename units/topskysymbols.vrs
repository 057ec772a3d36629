//@ source src/topsky/symbol.rs
//@ source src/topsky/mod.rs
//@ source src/adaptation/symbols.rs
//@ source src/lib.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ use farith
//@ use steps
//@ rename parse vx_parse
//@ rename clone .vx_dup
//@ rename abs .vx_abs
//@ callrename f64::EPSILON VX_EPSILON
//@ itersrc into_inner
//@ results read_to_string
//@ stubbed read_to_string
//@ item SymbolDef noclone
//@ item SymbolRule noclone
//@ grammar TopskyParser symbols maps
//@ prelude
broadcast use crate::rd::reads;
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum TopskyError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for TopskyError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for TopskyError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_symbols(tree(s)->0);
pub struct TopskyParser { }
impl TopskyParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
pub open spec fn file(content: Seq<u8>) -> Option<Seq<Pair<Rule>>> { match text_of(content) { Some(t) => match tree(t) { Some(p) => Some(p[0].kids()), None => None }, None => None } }
/// a symbol is drawn by its lines, in order
pub open spec fn drawn(v: Seq<SymbolRule>, p: Pair<Rule>) -> bool { v.len() == p.kids().len() - 1 && forall|i: int| 0 <= i < v.len() ==> step(#[trigger] v[i], p.kids()[i + 1]) }
pub open spec fn says(d: SymbolDef, p: Pair<Rule>) -> bool { d.name@ == p.kids()[0].text() && drawn(d.rules@, p) }
pub open spec fn lines(k: Seq<Pair<Rule>>) -> bool { exists|p: Pair<Rule>| (g_symbol(p) || g_symboldef(p)) && #[trigger] p.kids().skip(1) == k }
/// the line that says how a symbol is drawn: the last one of its name
pub open spec fn last(k: Seq<Pair<Rule>>, n: int, t: Seq<char>) -> Option<int>
    decreases n
{ if n <= 0 { None } else if k[n - 1].rule() is symbol && k[n - 1].kids()[0].text() == t { Some(n - 1) } else { last(k, n - 1, t) } }
pub open spec fn symbols(m: Map<Seq<char>, SymbolDef>, k: Seq<Pair<Rule>>, n: int) -> bool {
    forall|t: Seq<char>| match #[trigger] last(k, n, t) { Some(i) => m.contains_key(t) && says(m[t], k[i]), None => !m.contains_key(t) }
}
pub proof fn lemma_push<K: VKey, V>(s: Seq<(K, V)>, x: (K, V)) ensures map_of(s.push(x)) == map_of(s).insert(x.0.vkey(), x.1) { assert(s.push(x).drop_last() =~= s); }
//@ fn parse_point
//@ spec
requires g_symbol_rule_point(pair),
ensures ret == at(pair),
//@ fn parse_symbol_rules  loops=2
//@ floats
//@ fcmp
//@ spec
requires 0 <= pairs.pos() <= pairs@.len(), lines(pairs@.skip(pairs.pos())),
ensures ret@.len() == pairs@.len() - pairs.pos(), forall|i: int| 0 <= i < ret@.len() ==> step(#[trigger] ret@[i], pairs@[pairs.pos() + i]),
//@ loop 0
    lines(g0), acc0@.len() == it0.pos(), forall|i: int| 0 <= i < acc0@.len() ==> step(#[trigger] acc0@[i], g0[i]),
//@ loop 1
    g_polygon(vx_x0), g1 == vx_x0.kids(), acc1@.len() == it1.pos(), forall|i: int| 0 <= i < acc1@.len() ==> #[trigger] acc1@[i] == at(g1[i]),
//@ at loop0.start
proof { let n = it0.pos() - 1; let p = choose|p: Pair<Rule>| (g_symbol(p) || g_symboldef(p)) && #[trigger] p.kids().skip(1) == g0; assert(g0[n] == p.kids()[n + 1]); }
//@ fn parse_symbol
//@ spec
requires g_symbol(pair) || g_symboldef(pair) || pair.rule() is EOI,
ensures match ret { Some(d) => !(pair.rule() is EOI) && says(d, pair), None => pair.rule() is EOI },
//@ fn parse_topsky_symbols  loops=1
//@ spec
ensures match ret { Ok(m) => file(contents@) is Some && symbols(m@, file(contents@)->0, file(contents@)->0.len() as int), Err(_) => file(contents@) is None },
//@ at start
proof { if text_of(contents@) is Some { axiom_tree(text_of(contents@)->0); } }
//@ loop 0
    file(contents@) is Some, g0 == file(contents@)->0, root_symbols(tree(text_of(contents@)->0)->0), symbols(map_of(acc0@), g0, it0.pos()),
//@ at loop0.start
let ghost before = acc0@;
//@ at loop0.end
proof { let n = it0.pos() - 1; if acc0@.len() > before.len() { lemma_push(before, acc0@.last()); assert(acc0@ =~= before.push(acc0@.last())); }
    assert forall|t: Seq<char>| match #[trigger] last(g0, n + 1, t) { Some(i) => map_of(acc0@).contains_key(t) && says(map_of(acc0@)[t], g0[i]), None => !map_of(acc0@).contains_key(t) } by { let _ = last(g0, n, t); } }
//@ lemmas
