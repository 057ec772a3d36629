//@ source src/sct.rs
//@ source src/adaptation/locations/mod.rs
//@ source src/topsky/map/mod.rs
//@ source src/lib.rs
//@ source src/adaptation/colours.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ rename parse vx_parse
//@ rename clone .vx_dup
//@ rename into .vx_into
//@ callrename SctInfo::default info_default
//@ callrename DegMinSec::default dms_default
//@ itersrc into_inner
//@ results read_to_string
//@ stubbed read_to_string parse_coordinate parse_coordinate_part parse_line_groups Colour::from_euroscope
//@ item Sign
//@ item DegMinSec
//@ item Location noclone
//@ item Colour
//@ item MapLine noclone
//@ item Fix
//@ item NDB noclone
//@ item VOR noclone
//@ item src/adaptation/locations/mod.rs#Runway noclone
//@ item src/sct.rs#Airport noclone
//@ item Airway noclone
//@ item Region noclone
//@ item src/sct.rs#Label noclone
//@ item ColouredLines noclone
//@ item Geo noclone
//@ item Sid noclone
//@ item Star noclone
//@ item Artcc noclone
//@ item Sct noclone
//@ item SctInfo noclone
//@ item Section noclone
//@ item SectionName noclone
//@ item SctResult
//@ grammar SctParser sct
//@ prelude
broadcast use crate::rd::reads;
/// geo types
#[derive(Clone, Copy)]
pub struct Coord { pub x: f64, pub y: f64 }
#[derive(Clone, Copy)]
pub struct Point(pub Coord);
impl Coord { pub fn vx_into(self) -> (r: Point) ensures r == Point(self) { Point(self) } }
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum SctError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for SctError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for SctError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_sct(tree(s)->0);
pub struct SctParser { }
impl SctParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
pub open spec fn file(content: Seq<u8>) -> Option<Seq<Pair<Rule>>> { match text_of(content) { Some(t) => match tree(t) { Some(p) => Some(p[0].kids()), None => None }, None => None } }
impl VKey for SectionName { type KV = SectionName; open spec fn vkey(&self) -> SectionName { *self } }
/// the pair a search stopped at: a coordinate, just passed
pub open spec fn found(r: Option<Pair<Rule>>, k: Seq<Pair<Rule>>, n: int) -> bool { match r { Some(x) => n > 0 && x == k[n - 1] && x.rule() is sct_coordinate, None => true } }
/// the text value with these characters
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub axiom fn axiom_string_of() ensures forall|s: String| #[trigger] string_of(s@) == s;
/// degrees, minutes and seconds, and the coordinate two of them make (under contract in the unit dms)
pub uninterp spec fn part_of(p: Pair<Rule>) -> DegMinSec;
pub uninterp spec fn position(lat: DegMinSec, lng: DegMinSec) -> Coord;
pub open spec fn coord_of(p: Pair<Rule>) -> Coord { position(part_of(p.kids()[0]), part_of(p.kids()[1])) }
#[verifier::external_body]
pub fn parse_coordinate_part(pair: Pair<Rule>) -> (r: DegMinSec) requires g_sct_coord_part(pair) ensures r == part_of(pair) { unimplemented!() }
#[verifier::external_body]
pub fn parse_coordinate(pair: Pair<Rule>) -> (r: Coord) requires g_sct_coordinate(pair) ensures r == coord_of(pair) { unimplemented!() }
impl Point { #[verifier::external_body] pub fn from_deg_min_sec(lat: DegMinSec, lng: DegMinSec) -> (r: Point) ensures r.0 == position(lat, lng) { unimplemented!() } }
#[verifier::external_body]
pub fn dms_default() -> DegMinSec { unimplemented!() }
/// the lines of an entry joined into polylines (under contract in the unit polylines)
pub uninterp spec fn joins(v: Seq<ColouredLines>, k: Seq<Pair<Rule>>) -> bool;
#[verifier::external_body]
pub fn parse_line_groups(lines: VxIter<Pair<Rule>>) -> (r: Vec<ColouredLines>) requires 0 <= lines.pos() <= lines@.len(), forall|i: int| lines.pos() <= i < lines@.len() ==> g_coloured_line(#[trigger] lines@[i]) ensures joins(r@, lines@.skip(lines.pos())) { unimplemented!() }
/// a packed colour, if it is one (under contract in the unit colourcode)
pub uninterp spec fn packed_colour(n: i32) -> Option<Colour>;
#[verifier::external_body]
pub struct TryFromIntError { v: u8 }
impl Colour { #[verifier::external_body] pub fn from_euroscope(n: i32) -> (r: Result<Colour, TryFromIntError>) ensures r.ok() == packed_colour(n) { unimplemented!() } }
/// the derived default
pub open spec fn blank(i: SctInfo) -> bool { i.name@.len() == 0 && i.default_callsign@.len() == 0 && i.default_airport@.len() == 0 && i.scale_factor == 0.0f64 && i.miles_per_deg_lat == 0.0f64 && i.miles_per_deg_lng == 0.0f64 && i.magnetic_variation == 0.0f64 }
#[verifier::external_body]
pub fn info_default() -> (r: SctInfo) ensures blank(r) { unimplemented!() }
// ---- what the lines say ----
pub open spec fn loc_of(p: Pair<Rule>) -> Location { if p.rule() is sct_coordinate { Location::Coordinate(Point(coord_of(p))) } else { Location::Fix(string_of(p.kids()[0].text())) } }
pub open spec fn says_airport(x: Airport, p: Pair<Rule>) -> bool { let k = p.kids(); x.designator@ == k[0].text() && x.coordinate == Point(coord_of(k[k.len() - 2])) && x.ctr_airspace@ == k.last().text() }
pub open spec fn says_fix(x: Fix, p: Pair<Rule>) -> bool { let k = p.kids(); x.designator@ == k[0].text() && x.coordinate == Point(coord_of(k[1])) }
pub open spec fn says_ndb(x: NDB, p: Pair<Rule>) -> bool { let k = p.kids(); x.designator@ == k[0].text() && x.frequency@ == k[1].text() && x.coordinate == Point(coord_of(k[2])) }
pub open spec fn says_vor(x: VOR, p: Pair<Rule>) -> bool { let k = p.kids(); x.designator@ == k[0].text() && x.frequency@ == k[1].text() && x.coordinate == Point(coord_of(k[2])) }
pub open spec fn says_runway(x: Runway, p: Pair<Rule>) -> bool {
    let k = p.kids();
    x.designators.0@ == k[0].text() && x.designators.1@ == k[1].text() && Some(x.headings.0) == read_u32(k[2].text()) && Some(x.headings.1) == read_u32(k[3].text())
        && x.location.0 == Point(coord_of(k[4])) && x.location.1 == Point(coord_of(k[5])) && x.aerodrome@ == k[6].text()
}
pub open spec fn says_airway(x: Airway, p: Pair<Rule>) -> bool { let k = p.kids(); x.designator@ == k[0].text() && x.start == loc_of(k[1]) && x.end == loc_of(k[2]) }
pub open spec fn says_region(x: Region, p: Pair<Rule>) -> bool { let k = p.kids(); x.name@ == k[0].text() && x.colour_name@ == k[1].text() && x.polygon@ == Seq::new((k.len() - 2) as nat, |i: int| coord_of(k[i + 2])) }
pub open spec fn says_label(x: Label, p: Pair<Rule>) -> bool { let k = p.kids(); x.name@ == k[0].text() && x.coordinate == Location::Coordinate(Point(coord_of(k[1]))) && x.colour_name@ == k[2].text() }
pub open spec fn says_sid(x: Sid, p: Pair<Rule>) -> bool { x.name@ == p.kids()[0].text() && joins(x.line_groups@, p.kids().skip(1)) }
pub open spec fn says_star(x: Star, p: Pair<Rule>) -> bool { x.name@ == p.kids()[0].text() && joins(x.line_groups@, p.kids().skip(1)) }
pub open spec fn says_artcc(x: Artcc, p: Pair<Rule>) -> bool { x.name@ == p.kids()[0].text() && joins(x.line_groups@, p.kids().skip(1)) }
pub open spec fn says_geo(x: Geo, p: Pair<Rule>) -> bool { x.name@ == p.kids()[0].text() && joins(x.line_groups@, p.kids().skip(1)) }
/// the entries of a section: what is neither a colour definition nor a line that makes no sense
pub open spec fn entry(p: Pair<Rule>) -> bool { !(p.rule() is colour_definition) && !(p.rule() is broken) }
pub open spec fn listed(k: Seq<Pair<Rule>>, n: int) -> Seq<Pair<Rule>> decreases n { if n <= 0 { seq![] } else if entry(k[n - 1]) { listed(k, n - 1).push(k[n - 1]) } else { listed(k, n - 1) } }
pub open spec fn all_listed(p: Pair<Rule>) -> Seq<Pair<Rule>> { listed(p.kids(), p.kids().len() as int) }
pub open spec fn airport_list(v: Seq<Airport>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_airport(#[trigger] v[i], k[i]) }
pub open spec fn fix_list(v: Seq<Fix>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_fix(#[trigger] v[i], k[i]) }
pub open spec fn ndb_list(v: Seq<NDB>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_ndb(#[trigger] v[i], k[i]) }
pub open spec fn vor_list(v: Seq<VOR>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_vor(#[trigger] v[i], k[i]) }
pub open spec fn runway_list(v: Seq<Runway>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_runway(#[trigger] v[i], k[i]) }
pub open spec fn sid_list(v: Seq<Sid>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_sid(#[trigger] v[i], k[i]) }
pub open spec fn star_list(v: Seq<Star>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_star(#[trigger] v[i], k[i]) }
pub open spec fn artcc_list(v: Seq<Artcc>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_artcc(#[trigger] v[i], k[i]) }
pub open spec fn airway_list(v: Seq<Airway>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_airway(#[trigger] v[i], k[i]) }
pub open spec fn region_list(v: Seq<Region>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_region(#[trigger] v[i], k[i]) }
pub open spec fn label_list(v: Seq<Label>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_label(#[trigger] v[i], k[i]) }
pub open spec fn geo_list(v: Seq<Geo>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_geo(#[trigger] v[i], k[i]) }
/// the lines of the information section come after any colour definitions at its start
pub open spec fn says_info(x: SctInfo, p: Pair<Rule>) -> bool {
    let k = p.kids(); let h = lead(k, Rule::colour_definition);
    x.name@ == k[h].text() && x.default_callsign@ == k[h + 1].text() && x.default_airport@ == k[h + 2].text() && x.centre_point.0 == position(part_of(k[h + 3]), part_of(k[h + 4]))
        && Some(x.miles_per_deg_lat) == read_f64(k[h + 5].text()) && Some(x.miles_per_deg_lng) == read_f64(k[h + 6].text()) && Some(x.magnetic_variation) == read_f64(k[h + 7].text())
        && (if k.len() > h + 8 && k[h + 8].rule() is decimal { Some(x.scale_factor) == read_f64(k[h + 8].text()) } else { x.scale_factor == 0.0f64 })
}
/// how many lines of information there are, and how many of them are among the first n pairs
pub open spec fn lines(k: Seq<Pair<Rule>>) -> int { let h = lead(k, Rule::colour_definition); if k.len() > h + 8 && k[h + 8].rule() is decimal { 9 } else { 8 } }
pub open spec fn place(k: Seq<Pair<Rule>>, n: int) -> int { let h = lead(k, Rule::colour_definition); if n <= h { 0 } else if n - h <= lines(k) { n - h } else { lines(k) } }
pub open spec fn shape(k: Seq<Pair<Rule>>) -> bool {
    let h = lead(k, Rule::colour_definition);
    0 <= h && h + 8 <= k.len() && forall|i: int| 0 <= i < k.len() ==> ((#[trigger] k[i]).rule() is colour_definition) == (i < h || i >= h + lines(k)) && in_info(k, i, h)
}
pub open spec fn in_info(k: Seq<Pair<Rule>>, i: int, h: int) -> bool { if i < h || i >= h + lines(k) { g_colour_definition(k[i]) } else if i == h + 3 || i == h + 4 { g_sct_coord_part(k[i]) } else if i >= h + 5 { g_decimal(k[i]) } else { true } }
pub open spec fn filled(x: SctInfo, y: DegMinSec, k: Seq<Pair<Rule>>, n: int) -> bool {
    let h = lead(k, Rule::colour_definition); let i = place(k, n);
    &&& i > 0 ==> x.name@ == k[h].text()
    &&& i > 1 ==> x.default_callsign@ == k[h + 1].text()
    &&& i > 2 ==> x.default_airport@ == k[h + 2].text()
    &&& i > 3 ==> y == part_of(k[h + 3])
    &&& i > 4 ==> x.centre_point.0 == position(part_of(k[h + 3]), part_of(k[h + 4]))
    &&& i > 5 ==> Some(x.miles_per_deg_lat) == read_f64(k[h + 5].text())
    &&& i > 6 ==> Some(x.miles_per_deg_lng) == read_f64(k[h + 6].text())
    &&& i > 7 ==> Some(x.magnetic_variation) == read_f64(k[h + 7].text())
    &&& if i > 8 { Some(x.scale_factor) == read_f64(k[h + 8].text()) } else { x.scale_factor == 0.0f64 }
}
/// a colour definition whose number is a colour
pub open spec fn defined(p: Pair<Rule>) -> Option<Colour> { match read_i32(p.kids()[1].text()) { Some(n) => packed_colour(n), None => None } }
pub open spec fn learn1(m: Map<Seq<char>, Colour>, p: Pair<Rule>) -> Map<Seq<char>, Colour> { if p.rule() is colour_definition && defined(p) is Some { m.insert(p.kids()[0].text(), defined(p)->0) } else { m } }
pub open spec fn learn(m: Map<Seq<char>, Colour>, k: Seq<Pair<Rule>>, n: int) -> Map<Seq<char>, Colour> decreases n { if n <= 0 { m } else { learn1(learn(m, k, n - 1), k[n - 1]) } }
pub open spec fn learn_in(m: Map<Seq<char>, Colour>, p: Pair<Rule>) -> Map<Seq<char>, Colour> { learn(m, p.kids(), p.kids().len() as int) }
/// the colours of a file: wherever they are defined, the last definition of a name counts
pub open spec fn palette(k: Seq<Pair<Rule>>, n: int) -> Map<Seq<char>, Colour> decreases n { if n <= 0 { Map::empty() } else if k[n - 1].rule() is colour_definition { learn1(palette(k, n - 1), k[n - 1]) } else { learn_in(palette(k, n - 1), k[n - 1]) } }
/// which section it is
pub open spec fn kind(p: Pair<Rule>) -> SectionName { match p.rule() { Rule::info_section => SectionName::Info, Rule::airport_section => SectionName::Airport, Rule::fixes_section => SectionName::Fixes, Rule::ndb_section => SectionName::NDBs, Rule::vor_section => SectionName::VORs, Rule::runway_section => SectionName::Runways, Rule::sid_section => SectionName::Sid, Rule::star_section => SectionName::Star, Rule::artcc_high_section => SectionName::ArtccHigh, Rule::artcc_section => SectionName::Artcc, Rule::artcc_low_section => SectionName::ArtccLow, Rule::high_airway_section => SectionName::HighAirway, Rule::low_airway_section => SectionName::LowAirway, Rule::region_section => SectionName::Regions, Rule::labels_section => SectionName::Labels, Rule::geo_section => SectionName::Geo, _ => SectionName::Unsupported } }
pub open spec fn says(s: Section, p: Pair<Rule>) -> bool {
    match kind(p) {
        SectionName::Info => s is Info && says_info(s->Info_0, p),
        SectionName::Airport => s is Airport && airport_list(s->Airport_0@, all_listed(p)),
        SectionName::Fixes => s is Fixes && fix_list(s->Fixes_0@, all_listed(p)),
        SectionName::NDBs => s is NDBs && ndb_list(s->NDBs_0@, all_listed(p)),
        SectionName::VORs => s is VORs && vor_list(s->VORs_0@, all_listed(p)),
        SectionName::Runways => s is Runways && runway_list(s->Runways_0@, all_listed(p)),
        SectionName::Sid => s is Sid && sid_list(s->Sid_0@, all_listed(p)),
        SectionName::Star => s is Star && star_list(s->Star_0@, all_listed(p)),
        SectionName::ArtccHigh => s is ArtccHigh && artcc_list(s->ArtccHigh_0@, all_listed(p)),
        SectionName::Artcc => s is Artcc && artcc_list(s->Artcc_0@, all_listed(p)),
        SectionName::ArtccLow => s is ArtccLow && artcc_list(s->ArtccLow_0@, all_listed(p)),
        SectionName::HighAirway => s is HighAirways && airway_list(s->HighAirways_0@, all_listed(p)),
        SectionName::LowAirway => s is LowAirways && airway_list(s->LowAirways_0@, all_listed(p)),
        SectionName::Regions => s is Regions && region_list(s->Regions_0@, all_listed(p)),
        SectionName::Labels => s is Labels && label_list(s->Labels_0@, all_listed(p)),
        SectionName::Geo => s is Geo && geo_list(s->Geo_0@, all_listed(p)),
        SectionName::Unsupported => s is Unsupported,
    }
}
/// the section of that kind: the last one
pub open spec fn last(k: Seq<Pair<Rule>>, n: int, s: SectionName) -> Option<int> decreases n { if n <= 0 { None } else if !(k[n - 1].rule() is colour_definition) && kind(k[n - 1]) == s { Some(n - 1) } else { last(k, n - 1, s) } }
pub open spec fn sections_are(m: Map<SectionName, Section>, k: Seq<Pair<Rule>>, n: int) -> bool { forall|s: SectionName| match #[trigger] last(k, n, s) { Some(i) => 0 <= i < k.len() && kind(k[i]) == s && m.contains_key(s) && says(m[s], k[i]), None => !m.contains_key(s) } }
pub open spec fn section(k: Seq<Pair<Rule>>, s: SectionName) -> Seq<Pair<Rule>> { match last(k, k.len() as int, s) { Some(i) => all_listed(k[i]), None => seq![] } }
pub open spec fn contents(x: Sct, k: Seq<Pair<Rule>>) -> bool {
    &&& match last(k, k.len() as int, SectionName::Info) { Some(i) => says_info(x.info, k[i]), None => blank(x.info) }
    &&& x.colours@ == palette(k, k.len() as int)
    &&& airport_list(x.airports@, section(k, SectionName::Airport))
    &&& fix_list(x.fixes@, section(k, SectionName::Fixes))
    &&& ndb_list(x.ndbs@, section(k, SectionName::NDBs))
    &&& vor_list(x.vors@, section(k, SectionName::VORs))
    &&& runway_list(x.runways@, section(k, SectionName::Runways))
    &&& sid_list(x.sids@, section(k, SectionName::Sid))
    &&& star_list(x.stars@, section(k, SectionName::Star))
    &&& artcc_list(x.artccs_high@, section(k, SectionName::ArtccHigh))
    &&& artcc_list(x.artccs@, section(k, SectionName::Artcc))
    &&& artcc_list(x.artccs_low@, section(k, SectionName::ArtccLow))
    &&& airway_list(x.high_airways@, section(k, SectionName::HighAirway))
    &&& airway_list(x.low_airways@, section(k, SectionName::LowAirway))
    &&& region_list(x.regions@, section(k, SectionName::Regions))
    &&& label_list(x.labels@, section(k, SectionName::Labels))
    &&& geo_list(x.geo@, section(k, SectionName::Geo))
}
//@ fn parse_airport  loops=1
//@ spec
requires g_aerodrome(pair),
ensures says_airport(ret, pair),
//@ loop 0
    g_aerodrome(pair), g0 == pair.kids().skip(1), found(r0, g0, it0.pos()), forall|j: int| 0 <= j < (if r0 is Some { it0.pos() - 1 } else { it0.pos() }) ==> !((#[trigger] g0[j]).rule() is sct_coordinate)
//@ at loop0.after
proof { let k = pair.kids(); assert(g0[0] == k[1] && g0[1] == k[2] && g0.len() == k.len() - 1); }
//@ fn parse_location
//@ spec
requires g_sct_coordinate(pair) || g_airway_fix(pair),
ensures ret == loc_of(pair),
//@ at start
proof { axiom_string_of(); }
//@ fn parse_airway
//@ spec
requires g_airway(pair),
ensures ret is Some, says_airway(ret->0, pair),
//@ fn parse_fix
//@ spec
requires g_fix(pair) || g_broken(pair),
ensures match ret { Some(x) => pair.rule() is fix && says_fix(x, pair), None => pair.rule() is broken },
//@ fn parse_ndb
//@ spec
requires g_location(pair) || g_broken(pair),
ensures match ret { Some(x) => pair.rule() is location && says_ndb(x, pair), None => pair.rule() is broken },
//@ fn parse_region  loops=1
//@ spec
requires g_region(pair),
ensures says_region(ret, pair),
//@ loop 0
    g_region(pair), g0 == pair.kids().skip(2), acc0@ == Seq::new(it0.pos() as nat, |i: int| coord_of(pair.kids()[i + 2])),
//@ at loop0.start
proof { assert(g_sct_coordinate(pair.kids()[it0.pos() - 1 + 2])); }
//@ fn parse_label
//@ spec
requires g_label(pair),
ensures says_label(ret, pair),
//@ fn parse_sid
//@ spec
requires g_coloured_lines(pair),
ensures says_sid(ret, pair),
//@ fn parse_star
//@ spec
requires g_coloured_lines(pair),
ensures says_star(ret, pair),
//@ fn parse_artcc
//@ spec
requires g_coloured_lines(pair),
ensures says_artcc(ret, pair),
//@ fn parse_geo
//@ spec
requires g_coloured_lines(pair),
ensures says_geo(ret, pair),
//@ fn parse_vor
//@ spec
requires g_location(pair),
ensures says_vor(ret, pair),
//@ fn parse_runway
//@ spec
requires g_runway(pair),
ensures says_runway(ret, pair),
//@ fn parse_info_section  loops=1
//@ spec
requires g_info_section(pair),
ensures says_info(ret, pair), final(colours)@ == learn_in(old(colours)@, pair),
//@ at start
proof { let k = pair.kids(); let h = lead(k, Rule::colour_definition); lemma_lead(k, Rule::colour_definition); let s = k.skip(h);
    assert forall|i: int| 0 <= i < k.len() implies ((#[trigger] k[i]).rule() is colour_definition) == (i < h || i >= h + lines(k)) && in_info(k, i, h) by { if i >= h { assert(s[i - h] == k[i]); } }
    assert(s[0] == k[h]); if k.len() > h + 8 { assert(s[8] == k[h + 8]); } }
//@ loop 0
    g_info_section(pair), g0 == pair.kids(), colours@ == learn(old(colours)@, g0, it0.pos()), shape(g0),
    i as int == place(g0, it0.pos()),
    filled(sct_info, y, g0, it0.pos()),
//@ at loop0.start
proof { assert(in_info(g0, it0.pos() - 1, lead(g0, Rule::colour_definition))); }
//@ fn parse_colour_definition
//@ spec
requires g_colour_definition(pair),
ensures match ret { Some(x) => x.0@ == pair.kids()[0].text() && Some(x.1) == defined(pair), None => defined(pair) is None },
//@ fn store_colour
//@ spec
requires g_colour_definition(pair),
ensures final(colours)@ == learn1(old(colours)@, pair),
//@ fn parse_independent_section  loops=15
//@ spec
requires in_sct(pair), !(pair.rule() is colour_definition),
ensures ret.0 == kind(pair), says(ret.1, pair), final(colours)@ == learn_in(old(colours)@, pair),
//@ loop 0
    g_airport_section(pair), g0 == pair.kids(), airport_list(acc0@, listed(g0, it0.pos())), colours@ == learn(old(colours)@, g0, it0.pos()),
//@ at loop0.start
let ghost before = acc0@;
proof { assert(in_airport_section(g0[it0.pos() - 1])); }
//@ at loop0.end
proof { let n = it0.pos() - 1; assert forall|i: int| 0 <= i < acc0@.len() implies says_airport(#[trigger] acc0@[i], listed(g0, n + 1)[i]) by { if i < before.len() { assert(acc0@[i] == before[i]); } } }
//@ loop 1
    g_fixes_section(pair), g1 == pair.kids(), fix_list(acc1@, listed(g1, it1.pos())), colours@ == learn(old(colours)@, g1, it1.pos()),
//@ at loop1.start
let ghost before = acc1@;
proof { assert(in_fixes_section(g1[it1.pos() - 1])); }
//@ at loop1.end
proof { let n = it1.pos() - 1; assert forall|i: int| 0 <= i < acc1@.len() implies says_fix(#[trigger] acc1@[i], listed(g1, n + 1)[i]) by { if i < before.len() { assert(acc1@[i] == before[i]); } } }
//@ loop 2
    g_ndb_section(pair), g2 == pair.kids(), ndb_list(acc2@, listed(g2, it2.pos())), colours@ == learn(old(colours)@, g2, it2.pos()),
//@ at loop2.start
let ghost before = acc2@;
proof { assert(in_ndb_section(g2[it2.pos() - 1])); }
//@ at loop2.end
proof { let n = it2.pos() - 1; assert forall|i: int| 0 <= i < acc2@.len() implies says_ndb(#[trigger] acc2@[i], listed(g2, n + 1)[i]) by { if i < before.len() { assert(acc2@[i] == before[i]); } } }
//@ loop 3
    g_vor_section(pair), g3 == pair.kids(), vor_list(acc3@, listed(g3, it3.pos())), colours@ == learn(old(colours)@, g3, it3.pos()),
//@ at loop3.start
let ghost before = acc3@;
proof { assert(in_vor_section(g3[it3.pos() - 1])); }
//@ at loop3.end
proof { let n = it3.pos() - 1; assert forall|i: int| 0 <= i < acc3@.len() implies says_vor(#[trigger] acc3@[i], listed(g3, n + 1)[i]) by { if i < before.len() { assert(acc3@[i] == before[i]); } } }
//@ loop 4
    g_runway_section(pair), g4 == pair.kids(), runway_list(acc4@, listed(g4, it4.pos())), colours@ == learn(old(colours)@, g4, it4.pos()),
//@ at loop4.start
let ghost before = acc4@;
proof { assert(in_runway_section(g4[it4.pos() - 1])); }
//@ at loop4.end
proof { let n = it4.pos() - 1; assert forall|i: int| 0 <= i < acc4@.len() implies says_runway(#[trigger] acc4@[i], listed(g4, n + 1)[i]) by { if i < before.len() { assert(acc4@[i] == before[i]); } } }
//@ loop 5
    g_sid_section(pair), g5 == pair.kids(), sid_list(acc5@, listed(g5, it5.pos())), colours@ == learn(old(colours)@, g5, it5.pos()),
//@ at loop5.start
let ghost before = acc5@;
proof { assert(in_sid_section(g5[it5.pos() - 1])); }
//@ at loop5.end
proof { let n = it5.pos() - 1; assert forall|i: int| 0 <= i < acc5@.len() implies says_sid(#[trigger] acc5@[i], listed(g5, n + 1)[i]) by { if i < before.len() { assert(acc5@[i] == before[i]); } } }
//@ loop 6
    g_star_section(pair), g6 == pair.kids(), star_list(acc6@, listed(g6, it6.pos())), colours@ == learn(old(colours)@, g6, it6.pos()),
//@ at loop6.start
let ghost before = acc6@;
proof { assert(in_star_section(g6[it6.pos() - 1])); }
//@ at loop6.end
proof { let n = it6.pos() - 1; assert forall|i: int| 0 <= i < acc6@.len() implies says_star(#[trigger] acc6@[i], listed(g6, n + 1)[i]) by { if i < before.len() { assert(acc6@[i] == before[i]); } } }
//@ loop 7
    g_artcc_high_section(pair), g7 == pair.kids(), artcc_list(acc7@, listed(g7, it7.pos())), colours@ == learn(old(colours)@, g7, it7.pos()),
//@ at loop7.start
let ghost before = acc7@;
proof { assert(in_artcc_high_section(g7[it7.pos() - 1])); }
//@ at loop7.end
proof { let n = it7.pos() - 1; assert forall|i: int| 0 <= i < acc7@.len() implies says_artcc(#[trigger] acc7@[i], listed(g7, n + 1)[i]) by { if i < before.len() { assert(acc7@[i] == before[i]); } } }
//@ loop 8
    g_artcc_section(pair), g8 == pair.kids(), artcc_list(acc8@, listed(g8, it8.pos())), colours@ == learn(old(colours)@, g8, it8.pos()),
//@ at loop8.start
let ghost before = acc8@;
proof { assert(in_artcc_section(g8[it8.pos() - 1])); }
//@ at loop8.end
proof { let n = it8.pos() - 1; assert forall|i: int| 0 <= i < acc8@.len() implies says_artcc(#[trigger] acc8@[i], listed(g8, n + 1)[i]) by { if i < before.len() { assert(acc8@[i] == before[i]); } } }
//@ loop 9
    g_artcc_low_section(pair), g9 == pair.kids(), artcc_list(acc9@, listed(g9, it9.pos())), colours@ == learn(old(colours)@, g9, it9.pos()),
//@ at loop9.start
let ghost before = acc9@;
proof { assert(in_artcc_low_section(g9[it9.pos() - 1])); }
//@ at loop9.end
proof { let n = it9.pos() - 1; assert forall|i: int| 0 <= i < acc9@.len() implies says_artcc(#[trigger] acc9@[i], listed(g9, n + 1)[i]) by { if i < before.len() { assert(acc9@[i] == before[i]); } } }
//@ loop 10
    g_high_airway_section(pair), g10 == pair.kids(), airway_list(acc10@, listed(g10, it10.pos())), colours@ == learn(old(colours)@, g10, it10.pos()),
//@ at loop10.start
let ghost before = acc10@;
proof { assert(in_high_airway_section(g10[it10.pos() - 1])); }
//@ at loop10.end
proof { let n = it10.pos() - 1; assert forall|i: int| 0 <= i < acc10@.len() implies says_airway(#[trigger] acc10@[i], listed(g10, n + 1)[i]) by { if i < before.len() { assert(acc10@[i] == before[i]); } } }
//@ loop 11
    g_low_airway_section(pair), g11 == pair.kids(), airway_list(acc11@, listed(g11, it11.pos())), colours@ == learn(old(colours)@, g11, it11.pos()),
//@ at loop11.start
let ghost before = acc11@;
proof { assert(in_low_airway_section(g11[it11.pos() - 1])); }
//@ at loop11.end
proof { let n = it11.pos() - 1; assert forall|i: int| 0 <= i < acc11@.len() implies says_airway(#[trigger] acc11@[i], listed(g11, n + 1)[i]) by { if i < before.len() { assert(acc11@[i] == before[i]); } } }
//@ loop 12
    g_region_section(pair), g12 == pair.kids(), region_list(acc12@, listed(g12, it12.pos())), colours@ == learn(old(colours)@, g12, it12.pos()),
//@ at loop12.start
let ghost before = acc12@;
proof { assert(in_region_section(g12[it12.pos() - 1])); }
//@ at loop12.end
proof { let n = it12.pos() - 1; assert forall|i: int| 0 <= i < acc12@.len() implies says_region(#[trigger] acc12@[i], listed(g12, n + 1)[i]) by { if i < before.len() { assert(acc12@[i] == before[i]); } } }
//@ loop 13
    g_labels_section(pair), g13 == pair.kids(), label_list(acc13@, listed(g13, it13.pos())), colours@ == learn(old(colours)@, g13, it13.pos()),
//@ at loop13.start
let ghost before = acc13@;
proof { assert(in_labels_section(g13[it13.pos() - 1])); }
//@ at loop13.end
proof { let n = it13.pos() - 1; assert forall|i: int| 0 <= i < acc13@.len() implies says_label(#[trigger] acc13@[i], listed(g13, n + 1)[i]) by { if i < before.len() { assert(acc13@[i] == before[i]); } } }
//@ loop 14
    g_geo_section(pair), g14 == pair.kids(), geo_list(acc14@, listed(g14, it14.pos())), colours@ == learn(old(colours)@, g14, it14.pos()),
//@ at loop14.start
let ghost before = acc14@;
proof { assert(in_geo_section(g14[it14.pos() - 1])); }
//@ at loop14.end
proof { let n = it14.pos() - 1; assert forall|i: int| 0 <= i < acc14@.len() implies says_geo(#[trigger] acc14@[i], listed(g14, n + 1)[i]) by { if i < before.len() { assert(acc14@[i] == before[i]); } } }
//@ fn Sct::parse  loops=1
//@ spec
ensures match ret { Ok(x) => file(content@) is Some && contents(x, file(content@)->0), Err(_) => file(content@) is None },
//@ at start
proof { if text_of(content@) is Some { axiom_tree(text_of(content@)->0); } }
//@ loop 0
    file(content@) is Some, g0 == file(content@)->0, root_sct(tree(text_of(content@)->0)->0), colours@ == palette(g0, it0.pos()), sections_are(map_of(acc0@), g0, it0.pos()),
//@ at loop0.start
let ghost before = acc0@;
proof { assert(in_sct(g0[it0.pos() - 1])); }
//@ at loop0.end
proof { let n = it0.pos() - 1;
    if acc0@.len() > before.len() { assert(acc0@.drop_last() =~= before); }
    assert forall|s: SectionName| match #[trigger] last(g0, n + 1, s) { Some(i) => 0 <= i < g0.len() && kind(g0[i]) == s && map_of(acc0@).contains_key(s) && says(map_of(acc0@)[s], g0[i]), None => !map_of(acc0@).contains_key(s) } by { let _ = last(g0, n, s); }
}
//@ lemmas
pub proof fn lemma_lead(k: Seq<Pair<Rule>>, r: Rule) ensures 0 <= lead(k, r) <= k.len(), forall|i: int| 0 <= i < lead(k, r) ==> (#[trigger] k[i]).rule() == r decreases k.len()
{ if k.len() > 0 && k[0].rule() == r { lemma_lead(k.drop_first(), r); assert forall|i: int| 0 <= i < lead(k, r) implies (#[trigger] k[i]).rule() == r by { if i > 0 { assert(k[i] == k.drop_first()[i - 1]); } } } }
