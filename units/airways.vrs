//@ source src/adaptation/locations/airways.rs
//@ source src/adaptation/locations/mod.rs
//@ source src/airway.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ use geo
//@ use quant
//@ use sharedstr
//@ stubbed contains_nav_element quantize read_to_string
//@ rename parse vx_parse
//@ callrename AirwayGraph::default graph_default
//@ results read_to_string
//@ itersrc into_inner
//@ grammar AirwayParser airways
//@ item AirwayGraphResult
//@ item AirwayType
//@ item AirwayId eq
//@ item FixId eq
//@ item Fix noclone
//@ item GraphPosition
//@ item AirwayFix noclone
//@ item AirwayEdge
//@ item GraphFix noclone
//@ item AirwayGraph noclone
//@ prelude
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum AirwayError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for AirwayError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for AirwayError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes; a file has less than usize::MAX / 8 lines
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_airways(tree(s)->0) && tree(s)->0[0].kids().len() * 8 < usize::MAX;
pub struct AirwayParser { }
impl AirwayParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
/// the point at a longitude and latitude
pub uninterp spec fn point(x: f64, y: f64) -> Point;
#[verifier::external_body]
pub fn vx_point(x: f64, y: f64) -> (r: Point) ensures r == point(x, y) { unimplemented!() }
/// the derived default: nothing in it
#[verifier::external_body]
pub fn graph_default() -> (r: AirwayGraph) ensures nothing(r) { unimplemented!() }
pub open spec fn nothing(g: AirwayGraph) -> bool { g.fixes@.len() == 0 && g.fix_name_by_id@.len() == 0 && g.airway_name_by_id@.len() == 0 && g.fix_id_by_name@ == Map::<Seq<char>, Vec<FixId>>::empty() && g.airway_id_by_name@ == Map::<Seq<char>, AirwayId>::empty() }
pub open spec fn letter(s: Seq<char>, c: char) -> bool { s.len() == 1 && s[0] == c }
// ---- what a line of the airway file says ----
pub open spec fn place_of(p: Pair<Rule>) -> Point { point(read_f64(p.kids()[1].text())->0, read_f64(p.kids()[0].text())->0) }
pub open spec fn level_of(p: Pair<Rule>) -> Option<u32> { if p.rule() is level { read_u32(p.text()) } else { None } }
pub open spec fn kind_of(s: Seq<char>) -> AirwayType { if letter(s, 'H') { AirwayType::High } else if letter(s, 'L') { AirwayType::Low } else if letter(s, 'B') { AirwayType::Both } else { AirwayType::Unknown } }
/// a segment from the line's waypoint to a neighbour
pub open spec fn seg_of(line: Pair<Rule>, n: Pair<Rule>) -> SegIn {
    let (k, m) = (line.kids(), n.kids());
    SegIn { awy: k[2].text(), kf: pt_key(k[0].text(), place_of(k[1])), kt: pt_key(m[0].text(), place_of(m[1])), valid: letter(m[3].text(), 'Y'), lvl: level_of(m[2]) }
}
/// the first m of the two neighbours of a line
pub open spec fn add(h: Seq<SegIn>, line: Pair<Rule>, m: int) -> Seq<SegIn>
    decreases m
{ if m <= 0 { h } else { let n = line.kids()[3 + m]; if n.rule() is neighbour { add(h, line, m - 1).push(seg_of(line, n)) } else { add(h, line, m - 1) } } }
/// the segments of the first n lines
pub open spec fn segments(k: Seq<Pair<Rule>>, n: int) -> Seq<SegIn>
    decreases n
{ if n <= 0 { Seq::empty() } else if k[n - 1].rule() is airway { add(segments(k, n - 1), k[n - 1], 2) } else { segments(k, n - 1) } }
/// the graph is the one these segments make
pub open spec fn made(g: AirwayGraph, h: Seq<SegIn>) -> bool { g.wf() && forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] g.rel(w, k1, k2) == after(h, w, k1, k2) }
pub open spec fn fits(g: AirwayGraph, n: int) -> bool { g.n() <= 2 * n && g.airway_name_by_id@.len() <= n }
pub proof fn lemma_made(g: AirwayGraph, f: AirwayGraph, h: Seq<SegIn>, x: SegIn)
    requires made(g, h), f.wf(), forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] f.rel(w, k1, k2) == seg_upd(g.rel(w, k1, k2), x.awy, x.kf, x.kt, x.valid, x.lvl, w, k1, k2)
    ensures made(f, h.push(x))
{ assert(h.push(x).drop_last() =~= h); assert(h.push(x).last() == x); assert forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] f.rel(w, k1, k2) == after(h.push(x), w, k1, k2) by { assert(g.rel(w, k1, k2) == after(h, w, k1, k2)); } }
pub proof fn lemma_none(g: AirwayGraph) requires nothing(g) ensures made(g, Seq::empty()), fits(g, 0) { assert forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] g.rel(w, k1, k2) == after(Seq::empty(), w, k1, k2) by { theorem_empty(g, w, k1, k2); } theorem_empty(g, Seq::empty(), (Seq::empty(), (0, 0)), (Seq::empty(), (0, 0))); }
#[verifier::external_body]
pub struct Locations { v: u8 }
impl Locations {
    pub uninterp spec fn nav(&self, d: Seq<char>, q: (int, int)) -> bool;
    #[verifier::external_body]
    pub fn contains_nav_element<S: VKey<KV = Seq<char>> + ?Sized>(&self, d: &S, p: GraphPosition) -> (r: bool) ensures r == self.nav(d.vkey(), p.0.quant()) { unimplemented!() }
}
impl VKey for AirwayId { type KV = int; open spec fn vkey(&self) -> int { self.0 as int } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for GraphPosition { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.0.quant() == o.0.quant() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for AirwayEdge { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.to == o.to } }

/// a waypoint: its name and its position to a millionth of a degree
pub type Key = (Seq<char>, (int, int));
/// what is kept of a directed edge: direction valid, minimum level
pub type EV = (bool, Option<u32>);

impl AirwayGraph {
    pub open spec fn n(&self) -> int { self.fixes@.len() as int }
    pub open spec fn key(&self, i: int) -> Key { (self.fix_name_by_id@[i]@, self.fixes@[i].position.0.quant()) }
    pub open spec fn ids(&self, name: Seq<char>) -> Seq<FixId> { if self.fix_id_by_name@.contains_key(name) { self.fix_id_by_name@[name]@ } else { Seq::empty() } }
    /// edge list of node i on airway a
    pub open spec fn es(&self, a: int, i: int) -> Seq<AirwayEdge> { if self.fixes@[i].edges@.contains_key(a) { self.fixes@[i].edges@[a]@ } else { Seq::empty() } }
    pub open spec fn has(&self, a: int, i: int, j: int) -> bool { exists|m: int| 0 <= m < self.es(a, i).len() && (#[trigger] self.es(a, i)[m]).to.0 == j }
    pub open spec fn at(&self, a: int, i: int, j: int) -> int { choose|m: int| 0 <= m < self.es(a, i).len() && (#[trigger] self.es(a, i)[m]).to.0 == j }
    /// the directed edge i -> j on airway a
    pub open spec fn ev(&self, a: int, i: int, j: int) -> Option<EV> {
        if self.has(a, i, j) { let e = self.es(a, i)[self.at(a, i, j)]; Some((e.valid_direction, e.minimum_level)) } else { None }
    }
    pub open spec fn node(&self, k: Key) -> Option<int> {
        if exists|i: int| 0 <= i < self.n() && #[trigger] self.key(i) == k { Some(choose|i: int| 0 <= i < self.n() && #[trigger] self.key(i) == k) } else { None }
    }
    pub open spec fn awy(&self, w: Seq<char>) -> Option<int> { if self.airway_id_by_name@.contains_key(w) { Some(self.airway_id_by_name@[w].0 as int) } else { None } }
    pub open spec fn wname(&self, a: int) -> Seq<char> { self.airway_name_by_id@[a]@ }
    /// the directed edge between named waypoints on a named airway
    pub open spec fn rel(&self, w: Seq<char>, k1: Key, k2: Key) -> Option<EV> {
        match (self.awy(w), self.node(k1), self.node(k2)) { (Some(a), Some(i), Some(j)) => self.ev(a, i, j), _ => None }
    }
    pub open spec fn wf_names(&self) -> bool {
        &&& self.fix_name_by_id@.len() == self.fixes@.len()
        &&& forall|name: Seq<char>, m: int| #![trigger self.ids(name)[m]] 0 <= m < self.ids(name).len() ==> 0 <= self.ids(name)[m].0 < self.n() && self.fix_name_by_id@[self.ids(name)[m].0 as int]@ == name
        &&& forall|i: int| 0 <= i < self.n() ==> #[trigger] self.listed(i)
        &&& forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < self.n() && #[trigger] self.key(i) == #[trigger] self.key(j) ==> i == j
    }
    /// node i is found under its name
    pub open spec fn listed(&self, i: int) -> bool { exists|m: int| 0 <= m < self.ids(self.fix_name_by_id@[i]@).len() && (#[trigger] self.ids(self.fix_name_by_id@[i]@)[m]).0 == i }
    pub open spec fn wf_awys(&self) -> bool {
        &&& forall|w: Seq<char>| #[trigger] self.airway_id_by_name@.contains_key(w) ==> 0 <= self.airway_id_by_name@[w].0 < self.airway_name_by_id@.len() && self.airway_name_by_id@[self.airway_id_by_name@[w].0 as int]@ == w
        &&& forall|a: int| 0 <= a < self.airway_name_by_id@.len() ==> self.airway_id_by_name@.contains_key(#[trigger] self.airway_name_by_id@[a]@) && self.airway_id_by_name@[self.airway_name_by_id@[a]@].0 == a
    }
    pub open spec fn wf_edges(&self) -> bool {
        &&& forall|a: int, i: int, m: int| #![trigger self.es(a, i)[m]] 0 <= i < self.n() && 0 <= m < self.es(a, i).len() ==> 0 <= a < self.airway_name_by_id@.len() && 0 <= self.es(a, i)[m].to.0 < self.n()
        &&& forall|a: int, i: int| #![trigger self.fixes@[i].edges@.contains_key(a)] 0 <= i < self.n() && self.fixes@[i].edges@.contains_key(a) ==> self.es(a, i).len() > 0
        &&& forall|a: int, i: int, m: int, m2: int| #![trigger self.es(a, i)[m], self.es(a, i)[m2]] 0 <= i < self.n() && 0 <= m < self.es(a, i).len() && 0 <= m2 < self.es(a, i).len() && self.es(a, i)[m].to == self.es(a, i)[m2].to ==> m == m2
    }
    /// every neighbourhood is visible from both ends
    pub open spec fn wf_sym(&self) -> bool {
        forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] self.rel(w, k1, k2) is Some ==> self.rel(w, k2, k1) is Some
    }
    pub open spec fn wf0(&self) -> bool { self.wf_names() && self.wf_awys() && self.wf_edges() }
    pub open spec fn wf(&self) -> bool { self.wf0() && self.wf_sym() }
}
pub open spec fn min_lvl(a: Option<u32>, b: Option<u32>) -> Option<u32> {
    match (a, b) { (Some(x), Some(y)) => Some(if x <= y { x } else { y }), (Some(x), None) => Some(x), (None, b) => b }
}
pub open spec fn merge(o: Option<EV>, v: bool, l: Option<u32>) -> Option<EV> {
    match o { Some((v0, l0)) => Some((v0 || v, min_lvl(l0, l))), None => Some((v, l)) }
}
/// effect of one segment awy: kf -> kt on the directed edge k1 -> k2 of airway w
pub open spec fn seg_upd(o: Option<EV>, awy: Seq<char>, kf: Key, kt: Key, valid: bool, lvl: Option<u32>, w: Seq<char>, k1: Key, k2: Key) -> Option<EV> {
    let s1 = if w == awy && k1 == kf && k2 == kt { merge(o, valid, lvl) } else { o };
    if w == awy && k1 == kt && k2 == kf { merge(s1, false, lvl) } else { s1 }
}
/// every waypoint keeps its id
pub open spec fn node_kept(g1: AirwayGraph, g2: AirwayGraph) -> bool { g1.n() <= g2.n() && forall|i: int| 0 <= i < g1.n() ==> #[trigger] g2.key(i) == g1.key(i) }
/// the recorded segments are the same
pub open spec fn rel_kept(g1: AirwayGraph, g2: AirwayGraph) -> bool { forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] g2.rel(w, k1, k2) == g1.rel(w, k1, k2) }
/// g2 extends g1: same nodes (and possibly more) with the same names
pub open spec fn extends(g1: AirwayGraph, g2: AirwayGraph) -> bool {
    &&& g1.n() <= g2.n()
    &&& forall|i: int| 0 <= i < g1.n() ==> #[trigger] g2.fixes@[i] == g1.fixes@[i] && g2.fix_name_by_id@[i] == g1.fix_name_by_id@[i]
    &&& forall|i: int| g1.n() <= i < g2.n() ==> (#[trigger] g2.fixes@[i]).edges@ == Map::<int, Vec<AirwayEdge>>::empty()
}
pub open spec fn pt_key(name: Seq<char>, p: Point) -> Key { (name, p.quant()) }

pub proof fn lemma_node(g: AirwayGraph, i: int)
    requires g.wf_names(), 0 <= i < g.n(),
    ensures g.node(g.key(i)) == Some(i),
{ let k = g.key(i); assert(exists|j: int| 0 <= j < g.n() && #[trigger] g.key(j) == k); }
pub proof fn lemma_listed(g: AirwayGraph, k: Key)
    requires g.wf_names(),
    ensures g.node(k) matches Some(i) ==> 0 <= i < g.n() && g.key(i) == k && exists|m: int| 0 <= m < g.ids(k.0).len() && (#[trigger] g.ids(k.0)[m]).0 == i,
{ if g.node(k) is Some { 
    let i = choose|i: int| 0 <= i < g.n() && #[trigger] g.key(i) == k;
    assert(g.listed(i)); assert(g.fix_name_by_id@[i]@ == k.0);
    let m = choose|m: int| 0 <= m < g.ids(k.0).len() && (#[trigger] g.ids(k.0)[m]).0 == i;
    assert(g.ids(k.0)[m].0 == i); } }
pub proof fn lemma_not_node(g: AirwayGraph, k: Key)
    ensures g.node(k) is None ==> forall|i: int| 0 <= i < g.n() ==> #[trigger] g.key(i) != k,
{ }

//@ fn GraphPosition as PartialEq::eq
//@ fn AirwayEdge as PartialEq::eq
//@ fn AirwayGraph::add_fix_raw
//@ attr verifier::spinoff_prover
//@ spec
requires old(self).wf0(), old(self).node(pt_key(name@, fix.0)) is None, old(self).n() < usize::MAX,
ensures
    final(self).wf0(), final(self).n() == old(self).n() + 1, ret.0 == old(self).n(), final(self).key(ret.0 as int) == pt_key(name@, fix.0),
    node_kept(*old(self), *final(self)), rel_kept(*old(self), *final(self)),
    final(self).airway_id_by_name == old(self).airway_id_by_name, final(self).airway_name_by_id == old(self).airway_name_by_id,
//@ at tail
proof { lemma_added(*old(self), *self, name@, fix.0); }
//@ fn AirwayGraph::find_fix_id
//@ type r0 Option<&FixId>
//@ attr verifier::loop_isolation(false)
//@ spec
requires self.wf_names(),
ensures match ret { Some(id) => self.node(pt_key(fix.designator@, fix.coordinate)) == Some(id.0 as int) && id.0 < self.n(), None => self.node(pt_key(fix.designator@, fix.coordinate)) is None },
//@ at start
proof { lemma_listed(*self, pt_key(fix.designator@, fix.coordinate)); }
//@ loop 0
invariant
    g0 == seq_refs(self.ids(fix.designator@)), pos.0 == fix.coordinate,
    r0 matches Some(x) ==> exists|m: int| 0 <= m < it0.pos() && #[trigger] self.ids(fix.designator@)[m] == *x && self.fixes@[x.0 as int].position.0.quant() == pos.0.quant(),
    r0 is None ==> forall|m: int| 0 <= m < it0.pos() ==> self.fixes@[(#[trigger] self.ids(fix.designator@)[m]).0 as int].position.0.quant() != pos.0.quant(),
//@ at tail
proof { if let Some(id) = vx_ret { lemma_node(*self, id.0 as int); } }
//@ fn AirwayGraph::find_fix_on_airway
//@ type r0 Option<&FixId>
//@ attr verifier::loop_isolation(false)
//@ spec
requires self.wf_names(),
ensures match ret {
    Some(id) => id.0 < self.n() && self.key(id.0 as int).0 == designator@ && self.fixes@[id.0 as int].edges@.contains_key(airway.0 as int),
    None => forall|i: int| 0 <= i < self.n() && (#[trigger] self.key(i)).0 == designator@ ==> !self.fixes@[i].edges@.contains_key(airway.0 as int) },
//@ at start
proof { lemma_all_listed(*self, designator@); }
//@ loop 0
invariant
    g0 == seq_refs(self.ids(designator@)),
    r0 matches Some(x) ==> exists|m: int| 0 <= m < it0.pos() && #[trigger] self.ids(designator@)[m] == *x && self.fixes@[x.0 as int].edges@.contains_key(airway.0 as int),
    r0 is None ==> forall|m: int| 0 <= m < it0.pos() ==> !self.fixes@[(#[trigger] self.ids(designator@)[m]).0 as int].edges@.contains_key(airway.0 as int),
//@ fn AirwayGraph::get_airway_id
//@ spec
ensures ret == (if self.airway_id_by_name@.contains_key(name@) { Some(self.airway_id_by_name@[name@]) } else { None }),
//@ fn AirwayGraph::get_or_insert_fix_id
//@ attr verifier::loop_isolation(false)
//@ spec
requires old(self).wf0(), old(self).n() < usize::MAX,
ensures
    final(self).wf0(), old(self).n() <= final(self).n() <= old(self).n() + 1, ret.0 < final(self).n(), final(self).key(ret.0 as int) == pt_key(name@, fix.0),
    node_kept(*old(self), *final(self)), rel_kept(*old(self), *final(self)),
    final(self).airway_id_by_name == old(self).airway_id_by_name, final(self).airway_name_by_id == old(self).airway_name_by_id,
//@ at start
proof { lemma_listed(*self, pt_key(name@, fix.0)); }
//@ loop 0
invariant
    *self == *old(self), g0 == seq_refs(self.ids(name@)),
    forall|m: int| 0 <= m < it0.pos() ==> self.fixes@[(#[trigger] self.ids(name@)[m]).0 as int].position.0.quant() != fix.0.quant(),
//@ fn AirwayGraph::get_or_insert_airway_id
//@ spec
requires old(self).wf0(), old(self).airway_name_by_id@.len() < usize::MAX,
ensures
    final(self).wf0(), final(self).n() == old(self).n(), final(self).wname(ret.0 as int) == name@, ret.0 < final(self).airway_name_by_id@.len(),
    final(self).airway_name_by_id@.len() <= old(self).airway_name_by_id@.len() + 1,
    node_kept(*old(self), *final(self)), rel_kept(*old(self), *final(self)),
    forall|w: Seq<char>| old(self).awy(w) is Some ==> #[trigger] final(self).awy(w) == old(self).awy(w),
//@ at tail
proof { lemma_same_fixes(*old(self), *self); }
//@ fn AirwayGraph::insert_or_update_edge
//@ attr verifier::loop_isolation(false)
//@ spec
requires old(self).wf0(), from.0 < old(self).n(), to_edge.to.0 < old(self).n(), airway.0 < old(self).airway_name_by_id@.len(),
ensures
    final(self).wf0(), final(self).n() == old(self).n(), node_kept(*old(self), *final(self)),
    final(self).airway_id_by_name == old(self).airway_id_by_name, final(self).airway_name_by_id == old(self).airway_name_by_id,
    forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] final(self).rel(w, k1, k2) == (
        if w == old(self).wname(airway.0 as int) && k1 == old(self).key(from.0 as int) && k2 == old(self).key(to_edge.to.0 as int) { merge(old(self).rel(w, k1, k2), to_edge.valid_direction, to_edge.minimum_level) }
        else { old(self).rel(w, k1, k2) }),
//@ loop 0
invariant
    edges@ == old(self).es(airway.0 as int, from.0 as int), g0 == seq_refs(edges@),
    r0 matches Some(q) ==> edges@[q as int].to == to_edge.to,
    r0 is None ==> forall|m: int| 0 <= m < it0.pos() ==> (#[trigger] edges@[m]).to != to_edge.to,
//@ at tail
proof { lemma_edge_upd(*old(self), *self, airway.0 as int, from.0 as int, to_edge); }
//@ fn AirwayGraph::insert_or_update_segment
//@ at start
hide(AirwayGraph::wf0); hide(AirwayGraph::rel); hide(AirwayGraph::key);
//@ spec
requires old(self).wf(), old(self).n() < usize::MAX - 1, old(self).airway_name_by_id@.len() < usize::MAX,
ensures
    final(self).wf(), final(self).n() <= old(self).n() + 2, final(self).airway_name_by_id@.len() <= old(self).airway_name_by_id@.len() + 1,
    forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] final(self).rel(w, k1, k2)
        == seg_upd(old(self).rel(w, k1, k2), airway_name@, pt_key(from_name@, from_fix.0), pt_key(segment.fix.designator@, segment.fix.coordinate), segment.valid_direction, segment.minimum_level, w, k1, k2),
//@ fn AirwayGraph::is_fix_id_on_airway
//@ spec
requires fix.0 < self.n(),
ensures ret == self.fixes@[fix.0 as int].edges@.contains_key(airway.0 as int),
//@ fn AirwayGraph::traverse_airway
//@ attr verifier::loop_isolation(false)
//@ type r1 Option<&AirwayEdge>
//@ spec
requires self.wf(), self.n() < usize::MAX, start_fix.0 < self.n(), end.0 < self.n(), exists|m: int| 0 <= m < self.es(airway.0 as int, start_fix.0 as int).len() && #[trigger] self.es(airway.0 as int, start_fix.0 as int)[m] == *start_edge,
ensures
    ret matches Some(p) ==> path_on(*self, airway.0 as int, start_fix.0 as int, p@) && p@.len() > 0 && p@.last().0 == end && p@[0].0 == start_edge.to && (forall|m: int| 0 <= m < p@.len() - 1 ==> (#[trigger] p@[m]).0 != end),
    ret is None ==> unled(*self, airway.0 as int, start_fix.0 as int, end.0 as int, start_edge.to.0 as int),
//@ at start
hide(unbr); hide(path_on); hide(sofar); hide(unled); hide(AirwayGraph::wf_names); hide(AirwayGraph::wf_awys); hide(AirwayGraph::wf_sym); hide(AirwayGraph::ev); hide(AirwayGraph::key);
let ghost a = airway.0 as int;
let ghost s = start_fix.0 as int;
let ghost t = end.0 as int;
let ghost e0 = start_edge.to.0 as int;
proof {
    lemma_path_empty(*self, a, s);
    lemma_sofar_start(*self, a, s, t, e0);
}
//@ loop 0
invariant
    a == airway.0, s == start_fix.0, t == end.0, e0 == start_edge.to.0, self.wf(), prev.0 < self.n(), edge.to.0 < self.n(), count == expanded@.len(), count <= self.n(),
    exists|m: int| 0 <= m < self.es(a, prev.0 as int).len() && #[trigger] self.es(a, prev.0 as int)[m] == *edge,
    (forall|m: int| 0 <= m < count ==> (#[trigger] expanded@[m]).0 != end),
    path_on(*self, a, s, expanded@), prev.0 == from(s, expanded@, count as int),
    count == 0 ==> edge == start_edge, count > 0 ==> expanded@[0].0 == start_edge.to && edge.to.0 != from(s, expanded@, count - 1),
    sofar(*self, a, s, t, e0, count as int, prev.0 as int, edge.to.0 as int),
decreases self.n() - count
//@ at loop0.start
proof {
    lemma_path_push(*self, a, s, expanded@, *edge);
    lemma_sofar(*self, a, s, t, e0, count as int, prev.0 as int, edge.to.0 as int);
}
//@ loop 1
invariant
    g1 == seq_refs(edges@), edges@ == self.es(a, current.0 as int),
    r1 matches Some(x) ==> x.to != prev && exists|m: int| 0 <= m < it1.pos() && #[trigger] self.es(a, current.0 as int)[m] == *x,
    r1 is None ==> forall|m: int| 0 <= m < it1.pos() ==> (#[trigger] self.es(a, current.0 as int)[m]).to == prev,
//@ fn AirwayGraph::expand_airway_segment
//@ attr verifier::loop_isolation(false)
//@ spec
requires self.wf(), self.n() < usize::MAX,
ensures
    ret matches Some(p) ==> exists|a: int, s: int, e: int, r: Seq<Step>| #[trigger] expands(*self, *start, end@, airway@, a, s, e, r) && p@.len() == r.len()
        && forall|m: int| 0 <= m < r.len() ==> elem_of(*self, *locations, r[m], #[trigger] p@[m]),
    ret is None ==> forall|a: int, s: int, e: int, q: Seq<int>| #[trigger] reachable(*self, *start, end@, airway@, a, s, e, q) ==> false,
//@ at start
hide(unbr); hide(path_on); hide(AirwayGraph::ev); hide(AirwayGraph::wf_edges); hide(AirwayGraph::wf_sym); hide(AirwayGraph::wf_awys);
let ghost start0 = *start; let ghost end0 = end@; let ghost airway0 = airway@;
proof {
    reveal(AirwayGraph::wf_edges);
    assert forall|a: int, s: int, e: int, q: Seq<int>| #[trigger] reachable(*self, start0, end0, airway0, a, s, e, q) implies 1 < q.len() && self.es(a, s).len() <= 2 && exists|m: int| 0 <= m < self.es(a, s).len() && (#[trigger] self.es(a, s)[m]).to.0 == q[1] by {
        reveal(unbr); assert(self.has(a, q[0], q[1])); assert(self.es(a, q[0]).len() <= 2);
    }
    assert forall|a: int, s: int, e: int, q: Seq<int>, s2: int| #![trigger reachable(*self, start0, end0, airway0, a, s, e, q), self.fixes@[s2]] reachable(*self, start0, end0, airway0, a, s, e, q) && starts(*self, a, start0, s2) implies
        self.fixes@[s2].edges@[a]@.len() <= 2 by { assert(s2 == s); }
}
//@ loop 0
invariant
    starts(*self, airway.0 as int, start0, start.0 as int), ends(*self, airway.0 as int, end0, end.0 as int), self.awy(airway0) == Some(airway.0 as int), start.0 < self.n(), end.0 < self.n(),
    g0 == seq_refs(edges@), edges@ == self.es(airway.0 as int, start.0 as int),
    forall|m: int| 0 <= m < it0.pos() ==> forall|q: Seq<int>| #[trigger] unbr(*self, airway.0 as int, start.0 as int, end.0 as int, q) ==> q[1] != (#[trigger] self.es(airway.0 as int, start.0 as int)[m]).to.0,
//@ at loop0.start
proof { assert(*edge == self.es(airway.0 as int, start.0 as int)[it0.pos() - 1]); }
//@ loop 1
invariant
    g1 == seq_refs(expanded_fixes@), acc1@.len() == it1.pos(),
    expands(*self, start0, end0, airway0, airway.0 as int, start.0 as int, end.0 as int, expanded_fixes@),
    forall|m: int| 0 <= m < it1.pos() ==> 0 <= (#[trigger] expanded_fixes@[m]).0.0 < self.n(),
    forall|m: int| 0 <= m < it1.pos() ==> elem_of(*self, *locations, expanded_fixes@[m], #[trigger] acc1@[m]),
//@ at loop1.start
proof { reveal(path_on); assert(0 <= expanded_fixes@[it1.pos() - 1].0.0 < self.n()); }
//@ fn parse_coord
//@ spec
requires g_coord(pair),
ensures ret == place_of(pair),
//@ at start
proof { broadcast use crate::rd::reads; }
//@ fn parse_level
//@ spec
requires pair.rule() is level || pair.rule() is not_established,
ensures ret == level_of(*pair),
//@ fn AirwayFix::parse
//@ spec
requires g_neighbour(pair) || pair.rule() is no_neighbour,
ensures match ret { None => pair.rule() is no_neighbour, Some(x) => pair.rule() is neighbour && ({ let m = pair.kids(); x.fix.designator@ == m[0].text() && x.fix.coordinate == place_of(m[1]) && x.minimum_level == level_of(m[2]) && x.valid_direction == letter(m[3].text(), 'Y') }) },
//@ at start
proof { reveal_strlit("Y"); assert("Y"@ =~= seq!['Y']); assert forall|s: &str| #![trigger s@] letter(s@, 'Y') ==> s == "Y" by { axiom_str_ext(s, "Y"); if letter(s@, 'Y') { assert(s@ =~= seq!['Y']); } } }
//@ fn AirwayType::parse
//@ spec
requires g_airway_type(*pair),
ensures ret == kind_of(pair.text()),
//@ at start
proof { reveal_strlit("H"); assert("H"@ =~= seq!['H']); reveal_strlit("L"); assert("L"@ =~= seq!['L']); reveal_strlit("B"); assert("B"@ =~= seq!['B']); reveal_strlit(""); assert(""@ =~= seq![]);
    assert forall|s: &str| #![trigger s@] (s@ == seq!['H'] ==> s == "H") && (s@ == seq!['L'] ==> s == "L") && (s@ == seq!['B'] ==> s == "B") && (s@.len() == 0 ==> s == "") by { axiom_str_ext(s, "H"); axiom_str_ext(s, "L"); axiom_str_ext(s, "B"); axiom_str_ext(s, ""); if s@.len() == 0 { assert(s@ =~= seq![]); } } }
//@ fn parse_airway_txt
//@ spec
ensures match ret { Ok(g) => text_of(content@) matches Some(t) && tree(t) matches Some(p) && made(g, segments(p[0].kids(), p[0].kids().len() as int)), Err(_) => true },
//@ at start
proof { if let Some(t) = text_of(content@) { axiom_tree(t); } }
//@ loop 0
    g0 == tree(text_of(content@)->0)->0[0].kids(), g_airways(tree(text_of(content@)->0)->0[0]), g0.len() * 8 < usize::MAX,
    made(acc0, segments(g0, it0.pos())), fits(acc0, 2 * it0.pos()),
//@ at loop0.before
proof { lemma_none(acc0); }
//@ at loop0.start
let ghost line = g0[it0.pos() - 1];
let ghost h = segments(g0, it0.pos() - 1);
//@ loop 1
    g_airway(line), made(acc, add(h, line, it1.pos())), fits(acc, 2 * (it0.pos() - 1) + it1.pos()), airway@ == line.kids()[2].text(), fix_name@ == line.kids()[0].text(), fix == GraphPosition(place_of(line.kids()[1])), airway_type == kind_of(line.kids()[3].text()),
    airway_line@ == line.kids(), airway_line.pos() == 4 + it1.pos(), g1.len() == 2, 0 < it0.pos() <= g0.len(), g0.len() * 8 < usize::MAX,
//@ at loop1.start
let ghost before = acc;
let ghost n = line.kids()[3 + it1.pos()];
//@ at loop1.end
proof { if n.rule() is neighbour { lemma_made(before, acc, add(h, line, it1.pos() - 1), seg_of(line, n)); } }
//@ lemmas
pub type Step = (FixId, bool, Option<u32>);
/// node i carries airway a
pub open spec fn on(g: AirwayGraph, a: int, i: int) -> bool { 0 <= i < g.n() && g.fixes@[i].edges@.contains_key(a) }
/// s is where an expansion from this fix starts: the waypoint itself if it is known, else one of that name on the airway
pub open spec fn starts(g: AirwayGraph, a: int, start: Fix, s: int) -> bool {
    on(g, a, s) && match g.node(pt_key(start.designator@, start.coordinate)) { Some(i) => s == i, None => g.key(s).0 == start.designator@ }
}
pub open spec fn ends(g: AirwayGraph, a: int, end: Seq<char>, e: int) -> bool { on(g, a, e) && g.key(e).0 == end }
/// r is a walk along the airway from the start waypoint which ends at (and only at) the end waypoint
pub open spec fn expands(g: AirwayGraph, start: Fix, end: Seq<char>, airway: Seq<char>, a: int, s: int, e: int, r: Seq<Step>) -> bool {
    &&& g.awy(airway) == Some(a) && starts(g, a, start, s) && ends(g, a, end, e)
    &&& path_on(g, a, s, r) && r.len() > 0 && r.last().0.0 == e && forall|m: int| 0 <= m < r.len() - 1 ==> (#[trigger] r[m]).0.0 != e
}
/// the reported element for a step
pub open spec fn elem_of(g: AirwayGraph, loc: Locations, r: Step, p: (AirwayFix, bool)) -> bool {
    &&& p.0.fix.designator@ == g.key(r.0.0 as int).0 && p.0.fix.coordinate == g.fixes@[r.0.0 as int].position.0
    &&& p.0.valid_direction == r.1 && p.0.minimum_level == r.2
    &&& p.1 == loc.nav(p.0.fix.designator@, p.0.fix.coordinate.quant())
}
/// q is an unbranched walk from the (only) start waypoint to the (only) end waypoint of that name on the airway
pub open spec fn reachable(g: AirwayGraph, start: Fix, end: Seq<char>, airway: Seq<char>, a: int, s: int, e: int, q: Seq<int>) -> bool {
    &&& g.awy(airway) == Some(a) && starts(g, a, start, s) && ends(g, a, end, e) && unbr(g, a, s, e, q)
    &&& forall|s2: int| #[trigger] starts(g, a, start, s2) ==> s2 == s
    &&& forall|e2: int| #[trigger] ends(g, a, end, e2) ==> e2 == e
}
/// the node a path stands on before its m-th step
pub open spec fn from(s: int, p: Seq<(FixId, bool, Option<u32>)>, m: int) -> int { if m <= 0 { s } else { p[m - 1].0.0 as int } }
/// every step is a segment of the airway carrying its flags, no step goes straight back
pub open spec fn path_on(g: AirwayGraph, a: int, s: int, p: Seq<(FixId, bool, Option<u32>)>) -> bool {
    &&& forall|m: int| 0 <= m < p.len() ==> 0 <= (#[trigger] p[m]).0.0 < g.n() && g.ev(a, from(s, p, m), p[m].0.0 as int) == Some((p[m].1, p[m].2))
    &&& forall|m: int| 1 <= m < p.len() ==> (#[trigger] p[m]).0.0 != from(s, p, m - 1)
}
pub proof fn lemma_path_empty(g: AirwayGraph, a: int, s: int)
    ensures path_on(g, a, s, Seq::empty()),
{ }
pub proof fn lemma_path_push(g: AirwayGraph, a: int, s: int, p: Seq<(FixId, bool, Option<u32>)>, e: AirwayEdge)
    requires g.wf(), path_on(g, a, s, p), 0 <= from(s, p, p.len() as int) < g.n(), p.len() > 0 ==> e.to.0 != from(s, p, p.len() - 1),
        exists|m: int| 0 <= m < g.es(a, from(s, p, p.len() as int)).len() && #[trigger] g.es(a, from(s, p, p.len() as int))[m] == e,
    ensures path_on(g, a, s, p.push((e.to, e.valid_direction, e.minimum_level))),
{
    let f = from(s, p, p.len() as int);
    let m = choose|m: int| 0 <= m < g.es(a, f).len() && #[trigger] g.es(a, f)[m] == e;
    assert(g.es(a, f)[m].to.0 == e.to.0);
    assert(g.has(a, f, e.to.0 as int));
    let x = g.at(a, f, e.to.0 as int);
    assert(g.es(a, f)[x].to == g.es(a, f)[m].to);
    let p2 = p.push((e.to, e.valid_direction, e.minimum_level));
    assert forall|i: int| 0 <= i < p2.len() implies 0 <= (#[trigger] p2[i]).0.0 < g.n() && g.ev(a, from(s, p2, i), p2[i].0.0 as int) == Some((p2[i].1, p2[i].2)) by {
        assert(from(s, p2, i) == from(s, p, i));
        if i < p.len() { assert(p2[i] == p[i]); }
    }
    assert forall|i: int| 1 <= i < p2.len() implies (#[trigger] p2[i]).0.0 != from(s, p2, i - 1) by {
        assert(from(s, p2, i - 1) == from(s, p, i - 1));
        if i < p.len() { assert(p2[i] == p[i]); }
    }
}
/// q follows the airway from s to its first arrival at e, unbranched: every waypoint before the end has
/// at most two neighbours on the airway, no step goes straight back or stays in place
pub open spec fn unbr(g: AirwayGraph, a: int, s: int, e: int, q: Seq<int>) -> bool {
    &&& q.len() >= 2 && q[0] == s && q.last() == e
    &&& forall|m: int| 0 <= m < q.len() ==> 0 <= #[trigger] q[m] < g.n()
    &&& forall|m: int| 0 <= m < q.len() - 1 ==> g.has(a, #[trigger] q[m], q[m + 1]) && q[m + 1] != q[m]
    &&& forall|m: int| 0 <= m < q.len() - 1 ==> g.es(a, #[trigger] q[m]).len() <= 2
    &&& forall|m: int| 0 <= m < q.len() - 2 ==> #[trigger] q[m] != q[m + 2]
    &&& forall|m: int| 1 <= m < q.len() - 1 ==> #[trigger] q[m] != e
}
pub proof fn lemma_has_sym(g: AirwayGraph, a: int, i: int, j: int)
    requires g.wf(), 0 <= i < g.n(), 0 <= j < g.n(), g.has(a, i, j),
    ensures g.has(a, j, i),
{
    let m = g.at(a, i, j);
    assert(g.es(a, i)[m].to.0 == j);
    assert(g.awy(g.wname(a)) == Some(a));
    lemma_node(g, i); lemma_node(g, j);
    assert(g.rel(g.wname(a), g.key(i), g.key(j)) is Some);
    assert(g.rel(g.wname(a), g.key(j), g.key(i)) is Some);
}
/// at an interior waypoint of an unbranched walk the two neighbours are the previous and the next one
pub proof fn lemma_unbr_mid(g: AirwayGraph, a: int, s: int, e: int, q: Seq<int>, m: int)
    requires g.wf(), unbr(g, a, s, e, q), 1 <= m < q.len() - 1,
    ensures ({ let l = g.es(a, q[m]); l.len() == 2 && (l[0].to.0 == q[m - 1] && l[1].to.0 == q[m + 1] || l[1].to.0 == q[m - 1] && l[0].to.0 == q[m + 1]) && q[m + 1] != q[m - 1] }),
{
    assert(g.has(a, q[m - 1], q[m - 1 + 1]));
    lemma_has_sym(g, a, q[m - 1], q[m]);
    assert(g.has(a, q[m], q[m + 1]));
    let x = g.at(a, q[m], q[m - 1]); let y = g.at(a, q[m], q[m + 1]);
    assert(q[m - 1] != q[m - 1 + 2]);
    assert(g.es(a, q[m])[x].to.0 == q[m - 1] && g.es(a, q[m])[y].to.0 == q[m + 1]);
}
/// going round a cycle repeats it
pub proof fn lemma_cycle(g: AirwayGraph, a: int, s: int, e: int, q: Seq<int>, p: int, m: int)
    requires g.wf(), unbr(g, a, s, e, q), p >= 1, 0 <= m, m + p + 1 < q.len(), q[p] == q[0], q[p + 1] == q[1],
    ensures q[m + p] == q[m], q[m + p + 1] == q[m + 1],
    decreases m
{
    if m > 0 {
        lemma_cycle(g, a, s, e, q, p, m - 1);
        lemma_unbr_mid(g, a, s, e, q, m);
        lemma_unbr_mid(g, a, s, e, q, m + p);
    }
}
pub proof fn lemma_unbr_distinct(g: AirwayGraph, a: int, s: int, e: int, q: Seq<int>, y: int)
    requires g.wf(), unbr(g, a, s, e, q), 1 <= y < q.len(),
    ensures forall|i: int, j: int| 1 <= i < j <= y ==> #[trigger] q[i] != #[trigger] q[j],
    decreases y
{
    if y > 1 {
        lemma_unbr_distinct(g, a, s, e, q, y - 1);
        assert forall|x: int| 1 <= x < y implies #[trigger] q[x] != q[y] by {
            if q[x] == q[y] {
                let last = q.len() - 1;
                assert(q[x] != e);
                lemma_unbr_mid(g, a, s, e, q, x);
                lemma_unbr_mid(g, a, s, e, q, y);
                // q[y-1] is one of q[x-1], q[x+1]
                if q[y - 1] == q[x + 1] {
                    assert(q[x + 1] != q[x]);
                    if x + 1 == y - 1 { assert(q[x] != q[x + 2]); } else if x + 1 < y - 1 { assert(q[x + 1] != q[y - 1]); }
                } else {
                    assert(q[y - 1] == q[x - 1]);
                    if x > 1 { assert(q[x - 1] != q[y - 1]); }
                    else {
                        let p = y - 1;
                        assert(q[p + 1] == q[1] && q[p] == q[0]);
                        lemma_cycle(g, a, s, e, q, p, last - p - 1);
                        assert(q[last - p] == e);
                        assert(1 <= last - p < last);
                        assert(false);
                    }
                }
            }
        }
    }
}
pub proof fn lemma_unbr_len(g: AirwayGraph, a: int, s: int, e: int, q: Seq<int>)
    requires g.wf(), unbr(g, a, s, e, q),
    ensures q.len() - 1 <= g.n(),
{
    lemma_unbr_distinct(g, a, s, e, q, q.len() - 1);
    let t = q.skip(1);
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < j { assert(q[i + 1] != q[j + 1]); } else { assert(q[j + 1] != q[i + 1]); } } }
    t.unique_seq_to_set();
    let r = vstd::set_lib::set_int_range(0, g.n());
    vstd::set_lib::lemma_int_range(0, g.n());
    assert(t.to_set().subset_of(r)) by { assert forall|x: int| #[trigger] t.to_set().contains(x) implies r.contains(x) by { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(q[i + 1] == x); } }
    vstd::set_lib::lemma_len_subset(t.to_set(), r);
}
pub open spec fn added(g1: AirwayGraph, g2: AirwayGraph, name: Seq<char>, p: Point) -> bool {
    let k = g1.n();
    &&& g2.fixes@.len() == k + 1 && g2.fix_name_by_id@.len() == g1.fix_name_by_id@.len() + 1
    &&& forall|i: int| 0 <= i < k ==> #[trigger] g2.fixes@[i] == g1.fixes@[i]
    &&& forall|i: int| 0 <= i < g1.fix_name_by_id@.len() ==> #[trigger] g2.fix_name_by_id@[i] == g1.fix_name_by_id@[i]
    &&& g2.fixes@[k].position.0 == p && g2.fixes@[k].edges@ == Map::<int, Vec<AirwayEdge>>::empty()
    &&& g2.fix_name_by_id@[g1.fix_name_by_id@.len() as int]@ == name
    &&& forall|w: Seq<char>| w != name ==> #[trigger] g2.ids(w) == g1.ids(w)
    &&& g2.ids(name) == g1.ids(name).push(FixId(k as usize))
    &&& g2.airway_id_by_name == g1.airway_id_by_name && g2.airway_name_by_id == g1.airway_name_by_id
}
pub proof fn lemma_added(g1: AirwayGraph, g2: AirwayGraph, name: Seq<char>, p: Point)
    requires g1.wf0(), g1.node(pt_key(name, p)) is None, added(g1, g2, name, p), g1.n() < usize::MAX,
    ensures g2.wf0(), g2.key(g1.n()) == pt_key(name, p), node_kept(g1, g2), rel_kept(g1, g2),
{
    let k = g1.n();
    assert forall|w: Seq<char>, m: int| #![trigger g2.ids(w)[m]] 0 <= m < g2.ids(w).len() implies 0 <= g2.ids(w)[m].0 < g2.n() && g2.fix_name_by_id@[g2.ids(w)[m].0 as int]@ == w by {
        if w == name && m == g1.ids(name).len() { } else { assert(g2.ids(w)[m] == g1.ids(w)[m]); }
    }
    assert forall|i: int| 0 <= i < g2.n() implies #[trigger] g2.listed(i) by {
        if i == k { assert(g2.ids(name)[g1.ids(name).len() as int].0 == k); }
        else {
            assert(g1.listed(i));
            let w = g1.fix_name_by_id@[i]@;
            let m = choose|m: int| 0 <= m < g1.ids(w).len() && (#[trigger] g1.ids(w)[m]).0 == i;
            assert(g2.ids(w)[m].0 == i);
        }
    }
    assert forall|i: int, j: int| 0 <= i < g2.n() && 0 <= j < g2.n() && #[trigger] g2.key(i) == #[trigger] g2.key(j) implies i == j by {
        lemma_not_node(g1, pt_key(name, p));
        if i < k { assert(g2.key(i) == g1.key(i)); }
        if j < k { assert(g2.key(j) == g1.key(j)); }
    }
    assert forall|a: int, i: int| 0 <= i < g2.n() implies #[trigger] g2.es(a, i) == (if i < k { g1.es(a, i) } else { Seq::empty() }) by { }
    assert(g2.wf0());
    assert forall|i: int| 0 <= i < k implies #[trigger] g2.key(i) == g1.key(i) by { }
    lemma_kept(g1, g2);
    assert(g2.key(k) == pt_key(name, p));
    lemma_node(g2, k);
}
/// nodes keep their keys and edges, new nodes have no edges: nothing recorded changes
pub proof fn lemma_kept(g1: AirwayGraph, g2: AirwayGraph)
    requires g1.wf0(), g2.wf0(), g1.n() <= g2.n(),
        forall|i: int| 0 <= i < g1.n() ==> #[trigger] g2.key(i) == g1.key(i),
        forall|a: int, i: int| 0 <= i < g2.n() ==> #[trigger] g2.es(a, i) == (if i < g1.n() { g1.es(a, i) } else { Seq::empty() }),
        forall|w: Seq<char>| g1.awy(w) is Some ==> #[trigger] g2.awy(w) == g1.awy(w),
        forall|w: Seq<char>| g1.awy(w) is None && g2.awy(w) is Some ==> #[trigger] g2.awy(w).unwrap() >= g1.airway_name_by_id@.len(),
    ensures node_kept(g1, g2), rel_kept(g1, g2),
{
    assert forall|k: Key| g1.node(k) is Some implies #[trigger] g2.node(k) == g1.node(k) by { lemma_listed(g1, k); let i = g1.node(k).unwrap(); assert(g2.key(i) == k); lemma_node(g2, i); }
    assert forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] g2.rel(w, k1, k2) == g1.rel(w, k1, k2) by {
        lemma_listed(g1, k1); lemma_listed(g1, k2); lemma_listed(g2, k1); lemma_listed(g2, k2);
        lemma_not_node(g1, k1); lemma_not_node(g1, k2);
        assert(g1.node(k1) is Some ==> g2.node(k1) == g1.node(k1));
        assert(g1.node(k2) is Some ==> g2.node(k2) == g1.node(k2));
        if let (Some(a), Some(i), Some(j)) = (g2.awy(w), g2.node(k1), g2.node(k2)) {
            assert(g2.es(a, i) == (if i < g1.n() { g1.es(a, i) } else { Seq::empty() }));
            if g2.has(a, i, j) {
                let m = g2.at(a, i, j);
                assert(i < g1.n());
                assert(g1.es(a, i)[m].to.0 == j);
                assert(g2.key(i) == g1.key(i) && g2.key(j) == g1.key(j));
            }
        }
    }
}

pub proof fn lemma_all_listed(g: AirwayGraph, name: Seq<char>)
    requires g.wf_names(),
    ensures forall|i: int| 0 <= i < g.n() && (#[trigger] g.key(i)).0 == name ==> exists|m: int| 0 <= m < g.ids(name).len() && (#[trigger] g.ids(name)[m]).0 == i,
{
    assert forall|i: int| 0 <= i < g.n() && (#[trigger] g.key(i)).0 == name implies exists|m: int| 0 <= m < g.ids(name).len() && (#[trigger] g.ids(name)[m]).0 == i by {
        lemma_node(g, i); lemma_listed(g, g.key(i));
    }
}

pub proof fn lemma_same_fixes(g1: AirwayGraph, g2: AirwayGraph)
    requires g1.wf0(), g2.fixes == g1.fixes, g2.fix_id_by_name == g1.fix_id_by_name, g2.fix_name_by_id == g1.fix_name_by_id, g1.airway_name_by_id@.len() <= g2.airway_name_by_id@.len(),
        g2.wf_awys(),
        forall|w: Seq<char>| g1.awy(w) is Some ==> #[trigger] g2.awy(w) == g1.awy(w),
        forall|w: Seq<char>| g1.awy(w) is None && g2.awy(w) is Some ==> #[trigger] g2.awy(w).unwrap() >= g1.airway_name_by_id@.len(),
    ensures g2.wf0(), node_kept(g1, g2), rel_kept(g1, g2),
{
    assert forall|i: int| 0 <= i < g2.n() implies #[trigger] g2.listed(i) by { assert(g1.listed(i)); let w = g1.fix_name_by_id@[i]@; let m = choose|m: int| 0 <= m < g1.ids(w).len() && (#[trigger] g1.ids(w)[m]).0 == i; assert(g2.ids(w)[m].0 == i); }
    assert forall|w: Seq<char>, m: int| #![trigger g2.ids(w)[m]] 0 <= m < g2.ids(w).len() implies 0 <= g2.ids(w)[m].0 < g2.n() && g2.fix_name_by_id@[g2.ids(w)[m].0 as int]@ == w by { assert(g2.ids(w)[m] == g1.ids(w)[m]); }
    assert forall|i: int, j: int| 0 <= i < g2.n() && 0 <= j < g2.n() && #[trigger] g2.key(i) == #[trigger] g2.key(j) implies i == j by { assert(g2.key(i) == g1.key(i)); assert(g2.key(j) == g1.key(j)); }
    assert forall|a: int, i: int| #[trigger] g2.es(a, i) == g1.es(a, i) by { }
    assert forall|i: int| 0 <= i < g1.n() implies #[trigger] g2.key(i) == g1.key(i) by { }
    lemma_kept(g1, g2);
}

/// one edge list of one node changed: an edge appended, or one merged with the new one
pub open spec fn edge_upd(g1: AirwayGraph, g2: AirwayGraph, a: int, f: int, e: AirwayEdge) -> bool {
    let l1 = g1.es(a, f);
    &&& g2.fixes@.len() == g1.fixes@.len() && g2.fix_id_by_name == g1.fix_id_by_name && g2.fix_name_by_id == g1.fix_name_by_id
    &&& g2.airway_id_by_name == g1.airway_id_by_name && g2.airway_name_by_id == g1.airway_name_by_id
    &&& forall|i: int| 0 <= i < g1.n() && i != f ==> #[trigger] g2.fixes@[i] == g1.fixes@[i]
    &&& g2.fixes@[f].position == g1.fixes@[f].position
    &&& g2.fixes@[f].edges@.contains_key(a)
    &&& forall|b: int| b != a ==> #[trigger] g2.es(b, f) == g1.es(b, f) && g2.fixes@[f].edges@.contains_key(b) == g1.fixes@[f].edges@.contains_key(b)
    &&& {
        ||| g2.es(a, f) == l1.push(e) && forall|m: int| 0 <= m < l1.len() ==> (#[trigger] l1[m]).to != e.to
        ||| g2.es(a, f).len() == l1.len() && exists|q: int| 0 <= q < l1.len() && (#[trigger] l1[q]).to == e.to && g2.es(a, f)[q].to == e.to
            && g2.es(a, f)[q].valid_direction == (l1[q].valid_direction || e.valid_direction) && g2.es(a, f)[q].minimum_level == min_lvl(l1[q].minimum_level, e.minimum_level)
            && forall|m: int| 0 <= m < l1.len() && m != q ==> #[trigger] g2.es(a, f)[m] == l1[m]
    }
}

pub open spec fn edge_pre(g1: AirwayGraph, g2: AirwayGraph, a: int, f: int, e: AirwayEdge) -> bool {
    g1.wf0() && edge_upd(g1, g2, a, f, e) && 0 <= f < g1.n() && 0 <= a < g1.airway_name_by_id@.len() && e.to.0 < g1.n()
}
pub proof fn lemma_edge_keys(g1: AirwayGraph, g2: AirwayGraph, a: int, f: int, e: AirwayEdge)
    requires edge_pre(g1, g2, a, f, e),
    ensures g2.wf_names(), g2.wf_awys(), node_kept(g1, g2), forall|k: Key| #[trigger] g2.node(k) == g1.node(k),
{
    assert forall|i: int| 0 <= i < g2.n() implies #[trigger] g2.key(i) == g1.key(i) by { if i != f { assert(g2.fixes@[i] == g1.fixes@[i]); } }
    assert forall|i: int| 0 <= i < g2.n() implies #[trigger] g2.listed(i) by { assert(g1.listed(i)); let w = g1.fix_name_by_id@[i]@; let m = choose|m: int| 0 <= m < g1.ids(w).len() && (#[trigger] g1.ids(w)[m]).0 == i; assert(g2.ids(w)[m].0 == i); }
    assert forall|w: Seq<char>, m: int| #![trigger g2.ids(w)[m]] 0 <= m < g2.ids(w).len() implies 0 <= g2.ids(w)[m].0 < g2.n() && g2.fix_name_by_id@[g2.ids(w)[m].0 as int]@ == w by { assert(g2.ids(w)[m] == g1.ids(w)[m]); }
    assert forall|i: int, j: int| 0 <= i < g2.n() && 0 <= j < g2.n() && #[trigger] g2.key(i) == #[trigger] g2.key(j) implies i == j by { assert(g2.key(i) == g1.key(i)); assert(g2.key(j) == g1.key(j)); }
    assert forall|k: Key| #[trigger] g2.node(k) == g1.node(k) by {
        lemma_listed(g1, k); lemma_listed(g2, k); lemma_not_node(g1, k); lemma_not_node(g2, k);
        if let Some(i) = g1.node(k) { lemma_node(g2, i); }
        if let Some(i) = g2.node(k) { lemma_node(g1, i); }
    }
}
pub proof fn lemma_edge_lists(g1: AirwayGraph, g2: AirwayGraph, a: int, f: int, e: AirwayEdge)
    requires edge_pre(g1, g2, a, f, e),
    ensures g2.wf_edges(), forall|b: int, i: int| 0 <= i < g2.n() && (i != f || b != a) ==> #[trigger] g2.es(b, i) == g1.es(b, i),
{
    assert forall|b: int, i: int| 0 <= i < g2.n() && (i != f || b != a) implies #[trigger] g2.es(b, i) == g1.es(b, i) by { if i != f { assert(g2.fixes@[i] == g1.fixes@[i]); } }
    let l1 = g1.es(a, f); let l2 = g2.es(a, f);
    assert forall|m: int| 0 <= m < l1.len() implies (#[trigger] l2[m]).to == l1[m].to by { }
    assert forall|b: int, i: int, m: int| #![trigger g2.es(b, i)[m]] 0 <= i < g2.n() && 0 <= m < g2.es(b, i).len() implies 0 <= b < g2.airway_name_by_id@.len() && 0 <= g2.es(b, i)[m].to.0 < g2.n() by {
        if i == f && b == a { if m < l1.len() { assert(l2[m].to == l1[m].to); assert(g1.es(b, i)[m].to.0 < g1.n()); } } else { assert(g2.es(b, i) == g1.es(b, i)); assert(g1.es(b, i)[m].to.0 < g1.n()); }
    }
    assert forall|b: int, i: int, m: int, m2: int| #![trigger g2.es(b, i)[m], g2.es(b, i)[m2]] 0 <= i < g2.n() && 0 <= m < g2.es(b, i).len() && 0 <= m2 < g2.es(b, i).len() && g2.es(b, i)[m].to == g2.es(b, i)[m2].to implies m == m2 by {
        if i == f && b == a {
            if m < l1.len() && m2 < l1.len() { assert(l2[m].to == l1[m].to && l2[m2].to == l1[m2].to); assert(g1.es(b, i)[m].to == g1.es(b, i)[m2].to); }
            else if m < l1.len() { assert(l2[m].to == l1[m].to); } else if m2 < l1.len() { assert(l2[m2].to == l1[m2].to); }
        } else { assert(g2.es(b, i) == g1.es(b, i)); assert(g1.es(b, i)[m].to == g1.es(b, i)[m2].to); }
    }
    assert forall|b: int, i: int| #![trigger g2.fixes@[i].edges@.contains_key(b)] 0 <= i < g2.n() && g2.fixes@[i].edges@.contains_key(b) implies g2.es(b, i).len() > 0 by {
        if i == f { if b != a { assert(g2.es(b, f) == g1.es(b, f)); assert(g1.fixes@[f].edges@.contains_key(b)); } } else { assert(g2.fixes@[i] == g1.fixes@[i]); assert(g1.fixes@[i].edges@.contains_key(b)); assert(g2.es(b, i) == g1.es(b, i)); }
    }
}
pub proof fn lemma_edge_ev(g1: AirwayGraph, g2: AirwayGraph, a: int, f: int, e: AirwayEdge)
    requires edge_pre(g1, g2, a, f, e), g2.wf_edges(),
    ensures forall|j: int| #[trigger] g2.ev(a, f, j) == (if j == e.to.0 { merge(g1.ev(a, f, j), e.valid_direction, e.minimum_level) } else { g1.ev(a, f, j) }),
{
    let l1 = g1.es(a, f); let l2 = g2.es(a, f);
    assert forall|m: int| 0 <= m < l1.len() implies (#[trigger] l2[m]).to == l1[m].to by { }
    assert forall|j: int| #[trigger] g2.ev(a, f, j) == (if j == e.to.0 { merge(g1.ev(a, f, j), e.valid_direction, e.minimum_level) } else { g1.ev(a, f, j) }) by {
        if g1.has(a, f, j) { let m = g1.at(a, f, j); assert(l1[m].to.0 == j); assert(l2[m].to.0 == j); assert(g2.has(a, f, j)); assert(l2[g2.at(a, f, j)].to.0 == j); assert(g2.es(a, f)[g2.at(a, f, j)].to == g2.es(a, f)[m].to); assert(g2.at(a, f, j) == m); }
        if g2.has(a, f, j) { let m = g2.at(a, f, j); assert(l2[m].to.0 == j); if m < l1.len() { assert(l1[m].to.0 == j); assert(g1.has(a, f, j)); } }
        if l2.len() == l1.len() + 1 { assert(l2[l1.len() as int] == e); if j == e.to.0 { assert(g2.has(a, f, j)); assert(l2[g2.at(a, f, j)].to == e.to); assert(g2.es(a, f)[g2.at(a, f, j)].to == g2.es(a, f)[l1.len() as int].to); } }
    }
}
pub proof fn lemma_edge_upd(g1: AirwayGraph, g2: AirwayGraph, a: int, f: int, e: AirwayEdge)
    requires edge_pre(g1, g2, a, f, e),
    ensures g2.wf0(), node_kept(g1, g2),
        forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] g2.rel(w, k1, k2) == (
            if w == g1.wname(a) && k1 == g1.key(f) && k2 == g1.key(e.to.0 as int) { merge(g1.rel(w, k1, k2), e.valid_direction, e.minimum_level) }
            else { g1.rel(w, k1, k2) }),
{
    lemma_node(g1, f); lemma_node(g1, e.to.0 as int); assert(g1.awy(g1.wname(a)) == Some(a));
    lemma_edge_keys(g1, g2, a, f, e); lemma_edge_lists(g1, g2, a, f, e); lemma_edge_ev(g1, g2, a, f, e);
    assert forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] g2.rel(w, k1, k2) == (
            if w == g1.wname(a) && k1 == g1.key(f) && k2 == g1.key(e.to.0 as int) { merge(g1.rel(w, k1, k2), e.valid_direction, e.minimum_level) }
            else { g1.rel(w, k1, k2) }) by {
        lemma_listed(g1, k1); lemma_listed(g1, k2);
        assert(g2.node(k1) == g1.node(k1) && g2.node(k2) == g1.node(k2) && g2.awy(w) == g1.awy(w));
        if let (Some(b), Some(i), Some(j)) = (g1.awy(w), g1.node(k1), g1.node(k2)) {
            if b == a && i == f { let _ = g2.ev(a, f, j); } else { assert(g2.es(b, i) == g1.es(b, i)); assert(g2.ev(b, i, j) == g1.ev(b, i, j)); }
        }
    }
}
// ---- the property over histories: any sequence of inserted segments ----
pub struct SegIn { pub awy: Seq<char>, pub kf: Key, pub kt: Key, pub valid: bool, pub lvl: Option<u32> }
/// the directed edge after a history of insertions, by the contract of insert_or_update_segment
pub open spec fn after(h: Seq<SegIn>, w: Seq<char>, k1: Key, k2: Key) -> Option<EV>
    decreases h.len()
{
    if h.len() == 0 { None } else { let x = h.last(); seg_upd(after(h.drop_last(), w, k1, k2), x.awy, x.kf, x.kt, x.valid, x.lvl, w, k1, k2) }
}
pub open spec fn joins(x: SegIn, w: Seq<char>, k1: Key, k2: Key) -> bool { x.awy == w && (x.kf == k1 && x.kt == k2 || x.kf == k2 && x.kt == k1) }
pub open spec fn allows(x: SegIn, w: Seq<char>, k1: Key, k2: Key) -> bool { x.awy == w && x.kf == k1 && x.kt == k2 && x.valid }
/// C01: neighbours exactly if some segment joined them, both ways; valid exactly if some segment allowed it; the lowest stated level
pub open spec fn records(h: Seq<SegIn>, w: Seq<char>, k1: Key, k2: Key, o: Option<EV>) -> bool {
    &&& o is Some <==> exists|i: int| 0 <= i < h.len() && joins(#[trigger] h[i], w, k1, k2)
    &&& o matches Some((v, l)) ==> {
        &&& v <==> exists|i: int| 0 <= i < h.len() && allows(#[trigger] h[i], w, k1, k2)
        &&& l is None <==> forall|i: int| 0 <= i < h.len() && joins(#[trigger] h[i], w, k1, k2) ==> h[i].lvl is None
        &&& l matches Some(x) ==> (exists|i: int| 0 <= i < h.len() && joins(#[trigger] h[i], w, k1, k2) && h[i].lvl == Some(x))
            && forall|i: int| 0 <= i < h.len() && joins(#[trigger] h[i], w, k1, k2) && h[i].lvl is Some ==> x <= h[i].lvl.unwrap()
    }
}
pub proof fn theorem_history(h: Seq<SegIn>, w: Seq<char>, k1: Key, k2: Key)
    ensures records(h, w, k1, k2, after(h, w, k1, k2)),
    decreases h.len()
{
    if h.len() > 0 {
        let p = h.drop_last(); let x = h.last(); let n = h.len() - 1;
        theorem_history(p, w, k1, k2);
        let o = after(p, w, k1, k2); let r = after(h, w, k1, k2);
        assert(h[n] == x);
        assert forall|i: int| 0 <= i < n implies p[i] == h[i] by { }
        assert(forall|i: int| 0 <= i < n ==> #[trigger] p[i] == h[i]);
        if o is Some { let i = choose|i: int| 0 <= i < p.len() && joins(#[trigger] p[i], w, k1, k2); assert(joins(h[i], w, k1, k2)); 
            if o.unwrap().0 { let i = choose|i: int| 0 <= i < p.len() && allows(#[trigger] p[i], w, k1, k2); assert(allows(h[i], w, k1, k2)); }
            if let Some(l) = o.unwrap().1 { let i = choose|i: int| 0 <= i < p.len() && joins(#[trigger] p[i], w, k1, k2) && p[i].lvl == Some(l); assert(joins(h[i], w, k1, k2) && h[i].lvl == Some(l)); }
        }
        assert(joins(x, w, k1, k2) ==> joins(h[n], w, k1, k2));
        assert(allows(x, w, k1, k2) ==> joins(x, w, k1, k2));
        if joins(x, w, k1, k2) { assert(r is Some); }
        assert forall|i: int| 0 <= i < h.len() && joins(#[trigger] h[i], w, k1, k2) implies (r is Some) && (h[i].lvl is Some ==> r.unwrap().1 is Some && r.unwrap().1.unwrap() <= h[i].lvl.unwrap()) by { if i < n { assert(joins(p[i], w, k1, k2)); } }
        assert forall|i: int| 0 <= i < h.len() && allows(#[trigger] h[i], w, k1, k2) implies r is Some && r.unwrap().0 by { if i < n { assert(allows(p[i], w, k1, k2)); assert(joins(p[i], w, k1, k2)); } }
    }
}
/// both ends see the neighbourhood, and the graph a history starts from is well formed and empty
pub proof fn theorem_symmetric(h: Seq<SegIn>, w: Seq<char>, k1: Key, k2: Key)
    ensures after(h, w, k1, k2) is Some ==> after(h, w, k2, k1) is Some,
    decreases h.len()
{ if h.len() > 0 { theorem_symmetric(h.drop_last(), w, k1, k2); } }
pub proof fn theorem_empty(g: AirwayGraph, w: Seq<char>, k1: Key, k2: Key)
    requires g.fixes@.len() == 0, g.fix_name_by_id@.len() == 0, g.airway_name_by_id@.len() == 0, g.fix_id_by_name@ == Map::<Seq<char>, Vec<FixId>>::empty(), g.airway_id_by_name@ == Map::<Seq<char>, AirwayId>::empty(),
    ensures g.wf(), g.rel(w, k1, k2) == after(Seq::empty(), w, k1, k2),
{
    assert forall|w: Seq<char>, k1: Key, k2: Key| #[trigger] g.rel(w, k1, k2) is None by { }
}
/// no unbranched way to the end starts towards e0
pub open spec fn unled(g: AirwayGraph, a: int, s: int, e: int, e0: int) -> bool { forall|q: Seq<int>| #[trigger] unbr(g, a, s, e, q) ==> q[1] != e0 }
/// every unbranched way to the end that starts towards e0 continues after c steps with the edge from prev to next
pub open spec fn sofar(g: AirwayGraph, a: int, s: int, e: int, e0: int, c: int, prev: int, next: int) -> bool {
    forall|q: Seq<int>| #[trigger] unbr(g, a, s, e, q) && q[1] == e0 ==> c + 1 < q.len() && q[c] == prev && q[c + 1] == next
}
pub proof fn lemma_sofar_start(g: AirwayGraph, a: int, s: int, e: int, e0: int) ensures sofar(g, a, s, e, e0, 0, s, e0) { }
/// how the traversal goes on: it gives up, or takes the only other edge
pub proof fn lemma_sofar(g: AirwayGraph, a: int, s: int, e: int, e0: int, c: int, prev: int, next: int)
    requires g.wf(), sofar(g, a, s, e, e0, c, prev, next), c >= 0,
    ensures c >= g.n() ==> unled(g, a, s, e, e0),
        next != e && g.es(a, next).len() != 2 ==> unled(g, a, s, e, e0),
        next != e && (forall|m: int| 0 <= m < g.es(a, next).len() ==> (#[trigger] g.es(a, next)[m]).to.0 == prev) ==> unled(g, a, s, e, e0),
        next != e ==> forall|m: int| 0 <= m < g.es(a, next).len() && (#[trigger] g.es(a, next)[m]).to.0 != prev ==> sofar(g, a, s, e, e0, c + 1, next, g.es(a, next)[m].to.0 as int),
{
    let l = g.es(a, next);
    assert forall|q: Seq<int>| #[trigger] unbr(g, a, s, e, q) && q[1] == e0 implies q.len() - 1 <= g.n() && c + 1 < q.len() && q[c] == prev && q[c + 1] == next
        && (next != e ==> c + 2 < q.len() && l.len() == 2 && (l[0].to.0 == prev && l[1].to.0 == q[c + 2] || l[1].to.0 == prev && l[0].to.0 == q[c + 2]) && q[c + 2] != prev) by {
        lemma_unbr_len(g, a, s, e, q);
        if next != e { lemma_unbr_mid(g, a, s, e, q, c + 1); }
    }
    if next != e {
        assert forall|m: int| 0 <= m < l.len() && (#[trigger] l[m]).to.0 != prev implies sofar(g, a, s, e, e0, c + 1, next, l[m].to.0 as int) by {
            assert forall|q: Seq<int>| #[trigger] unbr(g, a, s, e, q) && q[1] == e0 implies c + 2 < q.len() && q[c + 1] == next && q[c + 2] == l[m].to.0 by { }
        }
        if forall|m: int| 0 <= m < l.len() ==> (#[trigger] l[m]).to.0 == prev {
            assert forall|q: Seq<int>| #[trigger] unbr(g, a, s, e, q) implies q[1] != e0 by { if q[1] == e0 { assert(l[0].to.0 == prev); assert(l[1].to.0 == prev); } }
        }
    }
}
