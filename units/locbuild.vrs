//@ source src/adaptation/locations/mod.rs
//@ source src/adaptation/icao.rs
//@ source src/navdata_airports.rs
//@ use base
//@ use map
//@ use multimap
//@ rename clone .vx_dup
//@ rename get_or_insert .vx_get_or_insert
//@ stubbed Locations::convert_designator
//@ item Fix noclone
//@ item NDB noclone
//@ item VOR noclone
//@ item Runway noclone
//@ item src/sct.rs#Airport noclone sub=Airport:SctAirport
//@ item src/sct.rs#Sct noclone sub=Airport:SctAirport
//@ item src/adaptation/locations/mod.rs#Airport noclone
//@ item IcaoAirport noclone
//@ item NavdataAirport noclone
//@ item src/ese.rs#SID noclone sub=SID:EseSid
//@ item src/ese.rs#STAR noclone sub=STAR:EseStar
//@ item src/ese.rs#SidStar noclone sub=SID:EseSid sub=STAR:EseStar
//@ item src/ese.rs#Ese noclone
//@ item src/adaptation/locations/mod.rs#SID noclone
//@ item src/adaptation/locations/mod.rs#STAR noclone
//@ item Locations noclone
//@ prelude
#[verifier::external_body] pub struct Point { v: f64 }
#[verifier::external_body] pub struct AirwayGraph { v: u8 }
// parts of the files this function does not look at
#[verifier::external_body] pub struct SctInfo { v: u8 }
#[verifier::external_body] pub struct Colour { v: u8 }
#[verifier::external_body] pub struct Sid { v: u8 }
#[verifier::external_body] pub struct Star { v: u8 }
#[verifier::external_body] pub struct Artcc { v: u8 }
#[verifier::external_body] pub struct Airway { v: u8 }
#[verifier::external_body] pub struct Region { v: u8 }
#[verifier::external_body] pub struct Label { v: u8 }
#[verifier::external_body] pub struct Geo { v: u8 }
#[verifier::external_body] pub struct Position { v: u8 }
#[verifier::external_body] pub struct Sector { v: u8 }
#[verifier::external_body] pub struct Constraint { v: u8 }
pub type Wp = (Seq<char>, Point);
pub open spec fn wp(f: Fix) -> Wp { (f.designator@, f.coordinate) }
/// the tables names are looked up in
pub struct Tables { pub fixes: Map<Seq<char>, Seq<Fix>>, pub vors: Map<Seq<char>, Seq<VOR>>, pub ndbs: Map<Seq<char>, Seq<NDB>>, pub airports: Map<Seq<char>, Airport> }
pub open spec fn tables(l: Locations) -> Tables { Tables { fixes: l.fixes@, vors: l.vors@, ndbs: l.ndbs@, airports: l.airports@ } }
/// the waypoint a name stands for (C03)
pub uninterp spec fn resolve(t: Tables, name: Seq<char>) -> Option<Wp>;
impl Locations {
    #[verifier::external_body]
    pub fn convert_designator(&self, designator: &str) -> (r: Option<Fix>) ensures match r { Some(f) => resolve(tables(*self), designator@) == Some(wp(f)), None => resolve(tables(*self), designator@) is None } { unimplemented!() }
}
// ---- tables by name: every record in file order under its own name ----
pub trait Named { spec fn named(self) -> Seq<char>; }
impl Named for Fix { open spec fn named(self) -> Seq<char> { self.designator@ } }
impl Named for VOR { open spec fn named(self) -> Seq<char> { self.designator@ } }
impl Named for NDB { open spec fn named(self) -> Seq<char> { self.designator@ } }
pub open spec fn all_of<V>(m: Map<Seq<char>, Seq<V>>, k: Seq<char>) -> Seq<V> { if m.contains_key(k) { m[k] } else { seq![] } }
pub open spec fn put<V>(m: Map<Seq<char>, Seq<V>>, k: Seq<char>, v: V) -> Map<Seq<char>, Seq<V>> { m.insert(k, all_of(m, k).push(v)) }
pub open spec fn by_name<V: Named>(s: Seq<V>, n: int) -> Map<Seq<char>, Seq<V>> decreases n { if n <= 0 { Map::empty() } else { put(by_name(s, n - 1), s[n - 1].named(), s[n - 1]) } }
/// the records of one name, in file order
pub open spec fn with_name<V: Named>(s: Seq<V>, k: Seq<char>, n: int) -> Seq<V> decreases n { if n <= 0 { seq![] } else if s[n - 1].named() == k { with_name(s, k, n - 1).push(s[n - 1]) } else { with_name(s, k, n - 1) } }
// ---- airports ----
/// the runways of an aerodrome, in file order
pub open spec fn runways_of(r: Seq<Runway>, k: Seq<char>, n: int) -> Seq<Runway> decreases n { if n <= 0 { seq![] } else if r[n - 1].aerodrome@ == k { runways_of(r, k, n - 1).push(r[n - 1]) } else { runways_of(r, k, n - 1) } }
pub open spec fn in_sct(a: Seq<SctAirport>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).designator@ == k }
/// ap stands where a sector file airport of that name stands, with its runways
pub open spec fn from_sct(ap: Airport, a: Seq<SctAirport>, r: Seq<Runway>, k: Seq<char>) -> bool {
    &&& exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).designator@ == k && ap.coordinate == a[i].coordinate
    &&& ap.designator@ == k && ap.runways@ == runways_of(r, k, r.len() as int)
}
pub open spec fn sct_airports(m: Map<Seq<char>, Airport>, a: Seq<SctAirport>, r: Seq<Runway>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> in_sct(a, k)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> from_sct(m[k], a, r, k) && m[k].name is None && m[k].country is None
}
pub open spec fn opt_text(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
/// where an airport is and what its runways are: from the sector file, else from navigation data
pub open spec fn placed(ap: Airport, a: Seq<SctAirport>, r: Seq<Runway>, nav: Map<Seq<char>, NavdataAirport>, k: Seq<char>) -> bool {
    if in_sct(a, k) { from_sct(ap, a, r, k) } else { nav.contains_key(k) && ap.designator@ == k && ap.coordinate == nav[k].location && ap.runways@.len() == 0 }
}
pub open spec fn nav_name(nav: Map<Seq<char>, NavdataAirport>, k: Seq<char>) -> Option<Seq<char>> { if nav.contains_key(k) { Some(nav[k].name@) } else { None } }
/// name: navigation data before ICAO data; country: ICAO data
pub open spec fn name_of(nav: Map<Seq<char>, NavdataAirport>, icao: Map<Seq<char>, IcaoAirport>, k: Seq<char>) -> Option<Seq<char>> { if nav.contains_key(k) { Some(nav[k].name@) } else if icao.contains_key(k) { Some(icao[k].name@) } else { None } }
pub open spec fn country_of(icao: Map<Seq<char>, IcaoAirport>, k: Seq<char>) -> Option<Seq<char>> { if icao.contains_key(k) { Some(icao[k].country@) } else { None } }
pub open spec fn merged(m: Map<Seq<char>, Airport>, a: Seq<SctAirport>, r: Seq<Runway>, nav: Map<Seq<char>, NavdataAirport>, icao: Map<Seq<char>, IcaoAirport>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) <==> in_sct(a, k) || nav.contains_key(k)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> placed(m[k], a, r, nav, k) && opt_text(m[k].name) == name_of(nav, icao, k) && opt_text(m[k].country) == country_of(icao, k)
}
/// the entries already seen in a walk over a map
pub open spec fn seen<V>(e: Seq<(String, V)>, n: int) -> Map<Seq<char>, V> decreases n { if n <= 0 { Map::empty() } else { seen(e, n - 1).insert(e[n - 1].0@, e[n - 1].1) } }
// ---- departure and arrival routes ----
pub struct RouteV { pub name: Seq<char>, pub airport: Seq<char>, pub runway: Option<Seq<char>>, pub waypoints: Seq<Wp> }
pub open spec fn wps(v: Seq<Fix>) -> Seq<Wp> { Seq::new(v.len(), |i: int| wp(v[i])) }
pub open spec fn sid_v(s: SID) -> RouteV { RouteV { name: s.name@, airport: s.airport@, runway: opt_text(s.runway), waypoints: wps(s.waypoints@) } }
pub open spec fn star_v(s: STAR) -> RouteV { RouteV { name: s.name@, airport: s.airport@, runway: opt_text(s.runway), waypoints: wps(s.waypoints@) } }
/// the waypoints of a list that resolve, in order
pub open spec fn known(t: Tables, s: Seq<String>, n: int) -> Seq<Wp> decreases n { if n <= 0 { seq![] } else { match resolve(t, s[n - 1]@) { Some(w) => known(t, s, n - 1).push(w), None => known(t, s, n - 1) } } }
pub type Routes = Map<Seq<char>, Map<Seq<char>, Seq<RouteV>>>;
pub open spec fn put_route(m: Routes, v: RouteV) -> Routes { m.insert(v.airport, put(if m.contains_key(v.airport) { m[v.airport] } else { Map::empty() }, v.name, v)) }
pub open spec fn sids(t: Tables, s: Seq<SidStar>, n: int) -> Routes decreases n { if n <= 0 { Map::empty() } else { match s[n - 1] { SidStar::Sid(x) => put_route(sids(t, s, n - 1), RouteV { name: x.name@, airport: x.airport@, runway: opt_text(x.runway), waypoints: known(t, x.waypoints@, x.waypoints@.len() as int) }), SidStar::Star(_) => sids(t, s, n - 1) } } }
pub open spec fn stars(t: Tables, s: Seq<SidStar>, n: int) -> Routes decreases n { if n <= 0 { Map::empty() } else { match s[n - 1] { SidStar::Star(x) => put_route(stars(t, s, n - 1), RouteV { name: x.name@, airport: x.airport@, runway: opt_text(x.runway), waypoints: known(t, x.waypoints@, x.waypoints@.len() as int) }), SidStar::Sid(_) => stars(t, s, n - 1) } } }
pub open spec fn sid_list(s: Seq<SID>) -> Seq<RouteV> { Seq::new(s.len(), |i: int| sid_v(s[i])) }
pub open spec fn star_list(s: Seq<STAR>) -> Seq<RouteV> { Seq::new(s.len(), |i: int| star_v(s[i])) }
pub open spec fn sid_names(m: Map<Seq<char>, Seq<SID>>) -> Map<Seq<char>, Seq<RouteV>> { Map::new(m.dom(), |k: Seq<char>| sid_list(m[k])) }
pub open spec fn star_names(m: Map<Seq<char>, Seq<STAR>>) -> Map<Seq<char>, Seq<RouteV>> { Map::new(m.dom(), |k: Seq<char>| star_list(m[k])) }
pub open spec fn sid_view(m: Map<Seq<char>, MultiMap<String, SID>>) -> Routes { Map::new(m.dom(), |k: Seq<char>| sid_names(m[k]@)) }
pub open spec fn star_view(m: Map<Seq<char>, MultiMap<String, STAR>>) -> Routes { Map::new(m.dom(), |k: Seq<char>| star_names(m[k]@)) }
/// an airport built from a sector file airport
pub open spec fn built(e: (String, Airport), a: SctAirport, r: Seq<Runway>) -> bool {
    e.0@ == a.designator@ && e.1.designator@ == a.designator@ && e.1.coordinate == a.coordinate && e.1.runways@ == runways_of(r, a.designator@, r.len() as int) && e.1.name is None && e.1.country is None
}
/// every record under its own name, in file order, and nothing else
pub open spec fn tabled<V: Named>(m: Map<Seq<char>, Seq<V>>, s: Seq<V>) -> bool { forall|k: Seq<char>| #![trigger m.contains_key(k)] all_of(m, k) == with_name(s, k, s.len() as int) && (m.contains_key(k) ==> m[k].len() > 0) }
//@ fn Airport::from_sct_airports  loops=2
//@ sig fn from_sct_airports(airports: Vec<SctAirport>, runways: &[Runway]) -> (ret: HashMap<String, Airport>)
//@ type acc0 Vec<(String, Airport)>
//@ type acc1 Vec<Runway>
//@ spec
ensures sct_airports(ret@, airports@, runways@),
//@ loop 0
    g0 == airports@, acc0@.len() == it0.pos(), forall|i: int| 0 <= i < acc0@.len() ==> built(#[trigger] acc0@[i], airports@[i], runways@),
//@ loop 1
    g1 == seq_refs(runways@), acc1@ == runways_of(runways@, ap.designator@, it1.pos()),
//@ at loop0.after
proof { lemma_map_of(acc0@);
    let m = map_of(acc0@);
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies from_sct(m[k], airports@, runways@, k) && m[k].name is None && m[k].country is None && in_sct(airports@, k) by {
        let i = choose|i: int| 0 <= i < acc0@.len() && (#[trigger] acc0@[i]).0@ == k && m[k] == acc0@[i].1;
        assert(built(acc0@[i], airports@[i], runways@)); assert(airports@[i].designator@ == k);
    }
    assert forall|k: Seq<char>| in_sct(airports@, k) implies #[trigger] m.contains_key(k) by { let i = choose|i: int| 0 <= i < airports@.len() && (#[trigger] airports@[i]).designator@ == k; assert(built(acc0@[i], airports@[i], runways@)); }
}
//@ fn Locations::from_euroscope  loops=8
//@ type acc0 MultiMap<String, Fix>
//@ type acc1 MultiMap<String, VOR>
//@ type acc2 MultiMap<String, NDB>
//@ type acc3 HashMap<String, Airport>
//@ type acc4 HashMap<String, Airport>
//@ type acc6 Vec<Fix>
//@ type acc7 Vec<Fix>
//@ spec
ensures
    tabled(ret.fixes@, sct.fixes@), tabled(ret.vors@, sct.vors@), tabled(ret.ndbs@, sct.ndbs@),
    merged(ret.airports@, sct.airports@, sct.runways@, navdata_airports@, icao_airports@),
    ret.airways == airways,
    sid_view(ret.sids@) == sids(tables(ret), ese.sids_stars@, ese.sids_stars@.len() as int),
    star_view(ret.stars@) == stars(tables(ret), ese.sids_stars@, ese.sids_stars@.len() as int),
//@ loop 0
    g0 == sct.fixes@, acc0@ == by_name(g0, it0.pos()),
//@ loop 1
    g1 == sct.vors@, acc1@ == by_name(g1, it1.pos()),
//@ loop 2
    g2 == sct.ndbs@, acc2@ == by_name(g2, it2.pos()),
//@ at loop0.after
proof { lemma_tabled(sct.fixes@); }
//@ at loop1.after
proof { lemma_tabled(sct.vors@); }
//@ at loop2.after
proof { lemma_tabled(sct.ndbs@); }
//@ loop 3
    lists(g3, navdata_airports@), merged(acc3@, sct.airports@, sct.runways@, seen(g3, it3.pos()), Map::empty()),
//@ at loop3.pre
proof { broadcast use axiom_entries; assert(merged(acc3@, sct.airports@, sct.runways@, Map::empty(), Map::empty())); }
//@ at loop3.start
let ghost m3 = acc3@;
//@ at loop3.end
proof { lemma_nav(m3, acc3@, sct.airports@, sct.runways@, g3, it3.pos() - 1); }
//@ at loop3.after
proof { lemma_seen_all(it3@, navdata_airports@); }
//@ loop 4
    lists(g4, icao_airports@), merged(acc4@, sct.airports@, sct.runways@, navdata_airports@, seen(g4, it4.pos())),
//@ at loop4.pre
proof { broadcast use axiom_entries; }
//@ at loop4.start
let ghost m4 = acc4@;
//@ at loop4.end
proof { lemma_icao(m4, acc4@, sct.airports@, sct.runways@, navdata_airports@, g4, it4.pos() - 1); }
//@ at loop4.after
proof { lemma_seen_all(it4@, icao_airports@); }
//@ loop 5
    g5 == ese.sids_stars@, tables(locations) == t0, locations.airways == airways,
    sid_view(locations.sids@) == sids(t0, g5, it5.pos()), star_view(locations.stars@) == stars(t0, g5, it5.pos()),
//@ at loop5.pre
let ghost t0 = tables(locations);
proof { assert(sid_view(locations.sids@) =~= sids(t0, ese.sids_stars@, 0)); assert(star_view(locations.stars@) =~= stars(t0, ese.sids_stars@, 0)); }
//@ at loop5.start
let ghost s5 = locations.sids@;
let ghost r5 = locations.stars@;
//@ at loop5.end
proof {
    broadcast use lemma_mm_built_one;
    match g5[it5.pos() - 1] {
        SidStar::Sid(x) => {
            let mm = locations.sids@[x.airport@];
            assert(locations.sids@ =~= s5.insert(x.airport@, mm));
            let l = all_of(mm@, x.name@);
            lemma_put_sid(s5, locations.sids@, mm, l.last(), RouteV { name: x.name@, airport: x.airport@, runway: opt_text(x.runway), waypoints: known(t0, x.waypoints@, x.waypoints@.len() as int) });
        }
        SidStar::Star(x) => {
            let mm = locations.stars@[x.airport@];
            assert(locations.stars@ =~= r5.insert(x.airport@, mm));
            let l = all_of(mm@, x.name@);
            lemma_put_star(r5, locations.stars@, mm, l.last(), RouteV { name: x.name@, airport: x.airport@, runway: opt_text(x.runway), waypoints: known(t0, x.waypoints@, x.waypoints@.len() as int) });
        }
    }
}
//@ loop 6
    tables(locations) == t0, locations.airways == airways, g6 == sid.waypoints@, wps(acc6@) == known(t0, g6, it6.pos()),
//@ at loop6.start
let ghost a6 = acc6@;
//@ at loop6.end
proof { if acc6@.len() > a6.len() { assert(wps(acc6@) =~= wps(a6).push(wp(acc6@.last()))); } }
//@ at loop6.pre
proof { assert(wps(acc6@) =~= seq![]); }
//@ loop 7
    tables(locations) == t0, locations.airways == airways, g7 == star.waypoints@, wps(acc7@) == known(t0, g7, it7.pos()),
//@ at loop7.start
let ghost a7 = acc7@;
//@ at loop7.end
proof { if acc7@.len() > a7.len() { assert(wps(acc7@) =~= wps(a7).push(wp(acc7@.last()))); } }
//@ at loop7.pre
proof { assert(wps(acc7@) =~= seq![]); }
//@ lemmas
pub proof fn lemma_map_of<V>(s: Seq<(String, V)>)
    ensures forall|k: Seq<char>| #[trigger] map_of(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k && map_of(s)[k] == s[i].1,
        forall|i: int| 0 <= i < s.len() ==> map_of(s).contains_key((#[trigger] s[i]).0@),
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        lemma_map_of(d);
        assert forall|k: Seq<char>| #[trigger] map_of(s).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0@ == k && map_of(s)[k] == s[i].1 by {
            if k == s.last().0@ { assert(s[s.len() - 1].0@ == k); } else { assert(map_of(d).contains_key(k)); let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0@ == k && map_of(d)[k] == d[i].1; assert(s[i] == d[i]); }
        }
        assert forall|i: int| 0 <= i < s.len() implies map_of(s).contains_key((#[trigger] s[i]).0@) by { if i < d.len() { assert(d[i] == s[i]); } }
    }
}
pub proof fn lemma_by_name_at<V: Named>(s: Seq<V>, n: int, k: Seq<char>) requires 0 <= n <= s.len()
    ensures all_of(by_name(s, n), k) == with_name(s, k, n), by_name(s, n).contains_key(k) ==> by_name(s, n)[k].len() > 0,
    decreases n,
{
    if n > 0 {
        lemma_by_name_at(s, n - 1, k);
        let j = s[n - 1].named(); let m = by_name(s, n - 1);
        let l = all_of(m, j).push(s[n - 1]);
        assert(by_name(s, n) == m.insert(j, l));
        if k == j { assert(by_name(s, n)[k] == l); } else { assert(by_name(s, n).contains_key(k) == m.contains_key(k)); }
    } else { assert(by_name(s, n) == Map::<Seq<char>, Seq<V>>::empty()); }
}
pub proof fn lemma_by_name<V: Named>(s: Seq<V>, n: int) requires 0 <= n <= s.len()
    ensures forall|k: Seq<char>| #![trigger by_name(s, n).contains_key(k)] all_of(by_name(s, n), k) == with_name(s, k, n) && (by_name(s, n).contains_key(k) ==> by_name(s, n)[k].len() > 0),
{
    assert forall|k: Seq<char>| #![trigger by_name(s, n).contains_key(k)] all_of(by_name(s, n), k) == with_name(s, k, n) && (by_name(s, n).contains_key(k) ==> by_name(s, n)[k].len() > 0) by { lemma_by_name_at(s, n, k); }
}
pub proof fn lemma_tabled<V: Named>(s: Seq<V>) ensures tabled(by_name(s, s.len() as int), s) { lemma_by_name(s, s.len() as int); }
pub proof fn lemma_seen<V>(e: Seq<(String, V)>, m: Map<Seq<char>, V>, n: int)
    requires lists(e, m), 0 <= n <= e.len(),
    ensures forall|k: Seq<char>| #[trigger] seen(e, n).contains_key(k) ==> m.contains_key(k) && seen(e, n)[k] == m[k] && exists|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k,
        forall|i: int| 0 <= i < n ==> seen(e, n).contains_key((#[trigger] e[i]).0@),
        n < e.len() ==> !seen(e, n).contains_key(e[n].0@),
    decreases n,
{
    if n > 0 { lemma_seen(e, m, n - 1); assert(m.contains_key(e[n - 1].0.vkey()));
        assert forall|k: Seq<char>| #[trigger] seen(e, n).contains_key(k) implies m.contains_key(k) && seen(e, n)[k] == m[k] && exists|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == k by {
            if k == e[n - 1].0@ { } else { assert(seen(e, n - 1).contains_key(k)); }
        }
    }
    if n < e.len() && seen(e, n).contains_key(e[n].0@) { let i = choose|i: int| 0 <= i < n && (#[trigger] e[i]).0@ == e[n].0@; assert(e[i].0.vkey() != e[n].0.vkey()); }
}
pub proof fn lemma_seen_all<V>(e: Seq<(String, V)>, m: Map<Seq<char>, V>) requires lists(e, m) ensures seen(e, e.len() as int) == m
{ lemma_seen(e, m, e.len() as int);
    assert forall|k: Seq<char>| m.contains_key(k) implies #[trigger] seen(e, e.len() as int).contains_key(k) by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == k; }
    assert(seen(e, e.len() as int) =~= m); }
/// one step of the walk over navigation data
pub open spec fn nav_step(m: Map<Seq<char>, Airport>, m2: Map<Seq<char>, Airport>, x: (String, NavdataAirport)) -> bool {
    let k = x.0@;
    m2.dom() =~= m.dom().insert(k) && (forall|j: Seq<char>| #[trigger] m.contains_key(j) && j != k ==> m2[j] == m[j])
        && m2[k].designator@ == (if m.contains_key(k) { m[k].designator@ } else { k }) && m2[k].coordinate == (if m.contains_key(k) { m[k].coordinate } else { x.1.location })
        && m2[k].runways@ =~= (if m.contains_key(k) { m[k].runways@ } else { seq![] }) && opt_text(m2[k].country) == (if m.contains_key(k) { opt_text(m[k].country) } else { None })
        && opt_text(m2[k].name) == (if m.contains_key(k) && m[k].name is Some { opt_text(m[k].name) } else { Some(x.1.name@) })
}
pub proof fn lemma_nav(m: Map<Seq<char>, Airport>, m2: Map<Seq<char>, Airport>, a: Seq<SctAirport>, r: Seq<Runway>, e: Seq<(String, NavdataAirport)>, n: int)
    requires 0 <= n < e.len(), exists|v: Map<Seq<char>, NavdataAirport>| lists(e, v), merged(m, a, r, seen(e, n), Map::empty()), nav_step(m, m2, e[n]),
    ensures merged(m2, a, r, seen(e, n + 1), Map::empty()),
{
    let v = choose|v: Map<Seq<char>, NavdataAirport>| lists(e, v);
    lemma_seen(e, v, n);
    let s = seen(e, n); let s2 = seen(e, n + 1); let k = e[n].0@;
    assert forall|j: Seq<char>| #[trigger] m2.contains_key(j) implies placed(m2[j], a, r, s2, j) && opt_text(m2[j].name) == name_of(s2, Map::empty(), j) && opt_text(m2[j].country) == country_of(Map::empty(), j) by {
        if m.contains_key(j) { assert(placed(m[j], a, r, s, j)); }
        if j == k { assert(!s.contains_key(k)); if m.contains_key(k) { assert(in_sct(a, k)); assert(opt_text(m[k].name) == name_of(s, Map::empty(), k)); assert(m[k].name is None); } }
    }
    assert forall|j: Seq<char>| #[trigger] m2.contains_key(j) <==> in_sct(a, j) || s2.contains_key(j) by { assert(m.contains_key(j) <==> in_sct(a, j) || s.contains_key(j)); }
}
pub open spec fn icao_step(m: Map<Seq<char>, Airport>, m2: Map<Seq<char>, Airport>, x: (String, IcaoAirport)) -> bool {
    let k = x.0@;
    m2.dom() =~= m.dom() && (forall|j: Seq<char>| #[trigger] m.contains_key(j) && j != k ==> m2[j] == m[j])
        && (m.contains_key(k) ==> m2[k].designator@ == m[k].designator@ && m2[k].coordinate == m[k].coordinate && m2[k].runways@ == m[k].runways@
            && opt_text(m2[k].name) == (if m[k].name is Some { opt_text(m[k].name) } else { Some(x.1.name@) }) && opt_text(m2[k].country) == (if m[k].country is Some { opt_text(m[k].country) } else { Some(x.1.country@) }))
}
pub proof fn lemma_icao(m: Map<Seq<char>, Airport>, m2: Map<Seq<char>, Airport>, a: Seq<SctAirport>, r: Seq<Runway>, nav: Map<Seq<char>, NavdataAirport>, e: Seq<(String, IcaoAirport)>, n: int)
    requires 0 <= n < e.len(), exists|v: Map<Seq<char>, IcaoAirport>| lists(e, v), merged(m, a, r, nav, seen(e, n)), icao_step(m, m2, e[n]),
    ensures merged(m2, a, r, nav, seen(e, n + 1)),
{
    let v = choose|v: Map<Seq<char>, IcaoAirport>| lists(e, v);
    lemma_seen(e, v, n);
    let s = seen(e, n); let s2 = seen(e, n + 1); let k = e[n].0@;
    assert forall|j: Seq<char>| #[trigger] m2.contains_key(j) implies placed(m2[j], a, r, nav, j) && opt_text(m2[j].name) == name_of(nav, s2, j) && opt_text(m2[j].country) == country_of(s2, j) by {
        assert(m.contains_key(j)); assert(placed(m[j], a, r, nav, j)); assert(opt_text(m[j].name) == name_of(nav, s, j)); assert(opt_text(m[j].country) == country_of(s, j));
        if j == k { assert(!s.contains_key(k)); }
    }
    assert forall|j: Seq<char>| #[trigger] m2.contains_key(j) <==> in_sct(a, j) || nav.contains_key(j) by { assert(m.contains_key(j) <==> in_sct(a, j) || nav.contains_key(j)); }
}
pub proof fn lemma_put_sid(m: Map<Seq<char>, MultiMap<String, SID>>, m2: Map<Seq<char>, MultiMap<String, SID>>, mm: MultiMap<String, SID>, s: SID, v: RouteV)
    requires m2 == m.insert(v.airport, mm), mm@ == put(if m.contains_key(v.airport) { m[v.airport]@ } else { Map::empty() }, v.name, s), sid_v(s) == v,
    ensures sid_view(m2) == put_route(sid_view(m), v),
{
    let o = if m.contains_key(v.airport) { m[v.airport]@ } else { Map::empty() };
    let ov = if sid_view(m).contains_key(v.airport) { sid_view(m)[v.airport] } else { Map::<Seq<char>, Seq<RouteV>>::empty() };
    assert(ov =~= sid_names(o));
    assert(sid_list(all_of(o, v.name).push(s)) =~= sid_list(all_of(o, v.name)).push(v));
    assert(sid_list(all_of(o, v.name)) =~= all_of(ov, v.name));
    assert(sid_names(mm@) =~= put(ov, v.name, v));
    assert(sid_view(m2) =~= put_route(sid_view(m), v));
}
pub proof fn lemma_put_star(m: Map<Seq<char>, MultiMap<String, STAR>>, m2: Map<Seq<char>, MultiMap<String, STAR>>, mm: MultiMap<String, STAR>, s: STAR, v: RouteV)
    requires m2 == m.insert(v.airport, mm), mm@ == put(if m.contains_key(v.airport) { m[v.airport]@ } else { Map::empty() }, v.name, s), star_v(s) == v,
    ensures star_view(m2) == put_route(star_view(m), v),
{
    let o = if m.contains_key(v.airport) { m[v.airport]@ } else { Map::empty() };
    let ov = if star_view(m).contains_key(v.airport) { star_view(m)[v.airport] } else { Map::<Seq<char>, Seq<RouteV>>::empty() };
    assert(ov =~= star_names(o));
    assert(star_list(all_of(o, v.name).push(s)) =~= star_list(all_of(o, v.name)).push(v));
    assert(star_list(all_of(o, v.name)) =~= all_of(ov, v.name));
    assert(star_names(mm@) =~= put(ov, v.name, v));
    assert(star_view(m2) =~= put_route(star_view(m), v));
}
