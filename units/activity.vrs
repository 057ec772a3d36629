//@ source src/topsky/map/active.rs
//@ source src/topsky/mod.rs
//@ source src/adaptation/maps/active.rs
//@ use base
//@ use pest
//@ use digits
//@ use read
//@ item RunwayIdentifier noclone
//@ item ActiveIds noclone
//@ item ActiveRunways noclone
//@ item ActiveAreas noclone
//@ item ActiveMapOperator noclone
//@ item Active noclone
//@ itersrc into_inner
//@ grammar TopskyParser maps
//@ prelude
/// a text is determined by its characters
pub axiom fn axiom_str_all() ensures forall|a: &str, b: &str| #![trigger a@, b@] a@ == b@ ==> a == b;
// ---- what a condition names, as the grammar delivers it ----
pub open spec fn texts(k: Seq<Pair<Rule>>) -> Seq<Seq<char>> { Seq::new(k.len(), |i: int| k[i].text()) }
/// a list of names, or `*` for any
pub open spec fn listed(p: Pair<Rule>) -> Option<Seq<Seq<char>>> { if p.rule() is wildcard { None } else { Some(texts(p.kids())) } }
pub struct RwyV { pub icao: Seq<char>, pub designator: Seq<char> }
pub open spec fn rwy_of(p: Pair<Rule>) -> RwyV { RwyV { icao: p.kids()[0].text(), designator: p.kids()[1].text() } }
pub open spec fn runways_of(k: Seq<Pair<Rule>>) -> Seq<RwyV> { Seq::new(k.len(), |i: int| rwy_of(k[i])) }
pub open spec fn runways(p: Pair<Rule>) -> Option<Seq<RwyV>> { if p.rule() is wildcard { None } else { Some(runways_of(p.kids())) } }
pub struct IdsV { pub own: Option<Seq<Seq<char>>>, pub not_own: Option<Seq<Seq<char>>>, pub online: Option<Seq<Seq<char>>>, pub not_online: Option<Seq<Seq<char>>> }
pub struct RwysV { pub arr: Option<Seq<RwyV>>, pub not_arr: Option<Seq<RwyV>>, pub dep: Option<Seq<RwyV>>, pub not_dep: Option<Seq<RwyV>> }
pub enum ActV { True, Schedule, Aup(Seq<Seq<char>>), Notam(Seq<char>, Seq<Seq<char>>), Area(Seq<Seq<char>>, Option<Seq<Seq<char>>>), Id(IdsV), Callsign(IdsV), Runway(RwysV), Map(bool, Seq<char>, Seq<char>) }
pub open spec fn ids_of(p: Pair<Rule>) -> IdsV { let k = p.kids(); IdsV { own: listed(k[0]), not_own: listed(k[1]), online: listed(k[2]), not_online: listed(k[3]) } }
/// the condition a token states
pub open spec fn stated(p: Pair<Rule>) -> ActV {
    let k = p.kids();
    match p.rule() {
        Rule::active_always => ActV::True,
        Rule::active_sched => ActV::Schedule,
        Rule::active_id => ActV::Id(ids_of(p)),
        Rule::active_callsign => ActV::Callsign(ids_of(p)),
        Rule::active_aup => ActV::Aup(texts(k[0].kids())),
        Rule::active_notam => ActV::Notam(k[0].text(), texts(k[1].kids())),
        Rule::active_area => ActV::Area(texts(k[0].kids()), None),
        Rule::active_area_with_excludes => ActV::Area(texts(k[0].kids()), Some(texts(k[1].kids()))),
        Rule::active_rwy => ActV::Runway(RwysV { arr: runways(k[0]), not_arr: None, dep: runways(k[1]), not_dep: None }),
        Rule::active_rwy_with_excludes => ActV::Runway(RwysV { arr: runways(k[0]), not_arr: runways(k[1]), dep: runways(k[2]), not_dep: runways(k[3]) }),
        _ => ActV::Map(k[0].text() == "!"@, k[1].text(), k[2].text()),
    }
}
// ---- the tokens, as the grammar has them ----
pub open spec fn list_ok(p: Pair<Rule>) -> bool { p.rule() is wildcard || g_names(p) }
pub open spec fn rwys_ok(p: Pair<Rule>) -> bool { p.rule() is wildcard || g_runways(p) }
// ---- the values of the result ----
pub open spec fn strs_opt(o: Option<Vec<String>>) -> Option<Seq<Seq<char>>> { match o { Some(v) => Some(strs(v@)), None => None } }
pub open spec fn rv(r: RunwayIdentifier) -> RwyV { RwyV { icao: r.icao@, designator: r.designator@ } }
pub open spec fn rvs(v: Seq<RunwayIdentifier>) -> Seq<RwyV> { Seq::new(v.len(), |i: int| rv(v[i])) }
pub open spec fn rvs_opt(o: Option<Vec<RunwayIdentifier>>) -> Option<Seq<RwyV>> { match o { Some(v) => Some(rvs(v@)), None => None } }
pub open spec fn ids(a: ActiveIds) -> IdsV { IdsV { own: strs_opt(a.own), not_own: strs_opt(a.own_excludes), online: strs_opt(a.online), not_online: strs_opt(a.online_excludes) } }
pub open spec fn act(a: Active) -> ActV {
    match a {
        Active::True => ActV::True, Active::Schedule => ActV::Schedule, Active::Aup(v) => ActV::Aup(strs(v@)), Active::Notam(i, v) => ActV::Notam(i@, strs(v@)),
        Active::Area(a) => ActV::Area(strs(a.areas@), strs_opt(a.area_excludes)), Active::Id(a) => ActV::Id(ids(a)), Active::Callsign(a) => ActV::Callsign(ids(a)),
        Active::Runway(a) => ActV::Runway(RwysV { arr: rvs_opt(a.arrival), not_arr: rvs_opt(a.arrival_excludes), dep: rvs_opt(a.departure), not_dep: rvs_opt(a.departure_excludes) }),
        Active::Map(o, f, n) => ActV::Map(o is Opposite, f@, n@),
    }
}
//@ fn RunwayIdentifier::parse
//@ spec
requires g_runway(pair),
ensures rv(ret) == rwy_of(pair),
//@ fn ActiveIds::parse_value  loops=1
//@ type acc0 Vec<String>
//@ spec
requires list_ok(pair),
ensures strs_opt(ret) == listed(pair),
//@ loop 0
    acc0@.len() == it0.pos(), forall|i: int| 0 <= i < it0.pos() ==> (#[trigger] acc0@[i])@ == g0[i].text(),
//@ at loop0.after
proof { assert(strs(acc0@) =~= texts(it0@)); }
//@ fn ActiveIds::parse
//@ spec
requires g_active_id(pair) || g_active_callsign(pair),
ensures ids(ret) == ids_of(pair),
//@ fn ActiveRunways::parse_value  loops=1
//@ type acc0 Vec<RunwayIdentifier>
//@ spec
requires rwys_ok(pair),
ensures rvs_opt(ret) == runways(pair),
//@ loop 0
    acc0@.len() == it0.pos(), pair.rule() is runways, g_runways(pair), g0 == pair.kids(), forall|i: int| 0 <= i < it0.pos() ==> rv(#[trigger] acc0@[i]) == rwy_of(g0[i]),
//@ at loop0.after
proof { assert(rvs(acc0@) =~= runways_of(it0@)); }
//@ fn ActiveRunways::parse
//@ spec
requires g_active_rwy(pair),
ensures rvs_opt(ret.arrival) == runways(pair.kids()[0]), ret.arrival_excludes is None, rvs_opt(ret.departure) == runways(pair.kids()[1]), ret.departure_excludes is None,
//@ fn ActiveRunways::parse_with_excludes
//@ spec
requires g_active_rwy_with_excludes(pair),
ensures rvs_opt(ret.arrival) == runways(pair.kids()[0]), rvs_opt(ret.arrival_excludes) == runways(pair.kids()[1]), rvs_opt(ret.departure) == runways(pair.kids()[2]), rvs_opt(ret.departure_excludes) == runways(pair.kids()[3]),
//@ fn ActiveAreas::parse  loops=1
//@ type acc0 Vec<String>
//@ spec
requires g_active_area(pair),
ensures strs(ret.areas@) == texts(pair.kids()[0].kids()), ret.area_excludes is None,
//@ loop 0
    acc0@.len() == it0.pos(), forall|i: int| 0 <= i < it0.pos() ==> (#[trigger] acc0@[i])@ == g0[i].text(),
//@ at loop0.after
proof { assert(strs(acc0@) =~= texts(it0@)); }
//@ fn ActiveAreas::parse_with_excludes  loops=2
//@ type acc0 Vec<String>
//@ type acc1 Vec<String>
//@ spec
requires g_active_area_with_excludes(pair),
ensures strs(ret.areas@) == texts(pair.kids()[0].kids()), strs_opt(ret.area_excludes) == Some(texts(pair.kids()[1].kids())),
//@ loop 0
    acc0@.len() == it0.pos(), forall|i: int| 0 <= i < it0.pos() ==> (#[trigger] acc0@[i])@ == g0[i].text(),
//@ at loop0.after
proof { assert(strs(acc0@) =~= texts(it0@)); }
//@ loop 1
    acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> (#[trigger] acc1@[i])@ == g1[i].text(),
//@ at loop1.after
proof { assert(strs(acc1@) =~= texts(it1@)); }
//@ fn Active::parse  loops=2
//@ type acc0 Vec<String>
//@ type acc1 Vec<String>
//@ spec
requires g_active(pair) || g_andactive(pair),
ensures act(ret) == stated(pair.kids()[0]),
//@ at start
proof { axiom_str_all(); reveal_strlit("!"); reveal_strlit("="); assert("!"@ =~= seq!['!']); assert("="@ =~= seq!['=']); assert("!"@ != "="@) by { assert("!"@[0] != "="@[0]); } }
//@ loop 0
    acc0@.len() == it0.pos(), forall|i: int| 0 <= i < it0.pos() ==> (#[trigger] acc0@[i])@ == g0[i].text(),
//@ at loop0.after
proof { assert(strs(acc0@) =~= texts(it0@)); }
//@ loop 1
    acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> (#[trigger] acc1@[i])@ == g1[i].text(),
//@ at loop1.after
proof { assert(strs(acc1@) =~= texts(it1@)); }
