//@ source src/ese.rs
//@ source src/lib.rs
//@ source src/adaptation/maps/active.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ use text
//@ rename parse vx_parse
//@ rename starts_with .vx_starts
//@ rename clone .vx_dup
//@ callrename Sign::from sign_from
//@ itersrc into_inner
//@ results read_to_string
//@ stubbed read_to_string
//@ item Position noclone
//@ item SectorLine
//@ item CircleSectorLine
//@ item SectorSubsetting
//@ item Sector noclone
//@ item Constraint noclone
//@ item MSAW noclone
//@ item SID noclone
//@ item STAR noclone
//@ item SidStar noclone
//@ item SectorRule noclone
//@ item Section noclone
//@ item SectionName noclone
//@ item Ese noclone
//@ item SectorsLinesBorders
//@ item EseResult
//@ item DegMinSec
//@ item Sign
//@ item RunwayIdentifier
//@ grammar EseParser ese
//@ callrename DegMinSec::default dms_default
//@ prelude
broadcast use crate::rd::reads;
/// src: settings::CoordinationTiming, never filled by the parser
#[verifier::external_body]
pub struct CoordinationTiming { v: u8 }
#[derive(Clone, Copy)]
pub struct Coord { pub x: f64, pub y: f64 }
pub struct LineString(pub Vec<Coord>);
/// degrees, minutes and seconds as an angle, latitude and longitude each (C16)
pub uninterp spec fn angle(d: DegMinSec) -> f64;
impl Coord { #[verifier::external_body] pub fn from_deg_min_sec(lat: DegMinSec, lng: DegMinSec) -> (r: Coord) ensures r.y == angle(lat), r.x == angle(lng) { unimplemented!() } }
#[verifier::external_body]
pub fn dms_default() -> DegMinSec { unimplemented!() }
impl VxFrom<Coord> for LineString { open spec fn vx_is(s: Seq<Coord>, r: Self) -> bool { r.0@ == s } fn vx_from(v: Vec<Coord>) -> (r: Self) { LineString(v) } }
impl VKey for SectionName { type KV = SectionName; open spec fn vkey(&self) -> SectionName { *self } }
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum EseError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for EseError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for EseError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Seq<char>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures r matches Ok(t) ==> t@ == text_of(s@) { unimplemented!() }
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_ese(tree(s)->0);
pub struct EseParser { }
impl EseParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_any<T>() -> T { unimplemented!() }

pub trait HemiFrom: Sized { fn from_hemi(hemi: &str) -> (ret: Self) requires sign_of(hemi@) is Some; }
pub open spec fn letter(s: Seq<char>, c: char) -> bool { s.len() == 1 && s[0] == c }
pub open spec fn sign_of(s: Seq<char>) -> Option<Sign> {
    if letter(s, 'N') || letter(s, 'E') || letter(s, 'n') || letter(s, 'e') { Some(Sign::Pos) } else if letter(s, 'S') || letter(s, 'W') || letter(s, 's') || letter(s, 'w') { Some(Sign::Neg) } else { None }
}
// ---- what the grammar builds (g_.. is generated from it) ----
pub open spec fn part_ok(p: Pair<Rule>) -> bool { g_coord_part(p) }
pub open spec fn coord_ok(p: Pair<Rule>) -> bool { g_coordinate(p) }
pub open spec fn line_ok(p: Pair<Rule>) -> bool { g_sectorline(p) }
pub open spec fn sub_ok(p: Pair<Rule>) -> bool {
    match p.rule() { Rule::owner => g_owner(p), Rule::border => g_border(p), Rule::guest => g_guest(p), Rule::depapt => g_depapt(p), Rule::arrapt => g_arrapt(p), Rule::altowner => g_altowner(p), Rule::active => g_active(p), _ => false }
}
pub open spec fn sector_ok(p: Pair<Rule>) -> bool { g_sector(p) }
pub open spec fn wild_ok(p: Pair<Rule>) -> bool { p.rule() == Rule::wildcard || p.rule() == Rule::colon_delimited_text || p.rule() == Rule::designator }
pub open spec fn level_ok(p: Pair<Rule>) -> bool { p.rule() == Rule::wildcard || p.rule() == Rule::integer }
pub open spec fn cop_ok(p: Pair<Rule>) -> bool { g_cop(p) || g_fir_cop(p) }
pub open spec fn circle_ok(p: Pair<Rule>) -> bool { g_circle_sectorline(p) }
pub open spec fn msaw_ok(p: Pair<Rule>) -> bool { g_msaw(p) }
pub open spec fn block_ok(p: Pair<Rule>) -> bool {
    match p.rule() { Rule::sectorline => line_ok(p), Rule::sector => sector_ok(p), Rule::cop => g_cop(p), Rule::fir_cop => g_fir_cop(p), Rule::display_sectorline => g_display_sectorline(p), Rule::circle_sectorline => circle_ok(p), Rule::msaw => msaw_ok(p), _ => false }
}
pub open spec fn route_ok(p: Pair<Rule>) -> bool { g_sid(p) || g_star(p) }
pub open spec fn section_ok(p: Pair<Rule>) -> bool {
    match p.rule() { Rule::position_section => g_position_section(p), Rule::airspace_section => g_airspace_section(p), Rule::sidsstars_section => g_sidsstars_section(p), Rule::unparsed_section => g_unparsed_section(p), Rule::EOI => true, _ => false }
}
// ---- positions ----
pub open spec fn has_range(k: Seq<Pair<Rule>>) -> bool { k.len() > 9 && k[9].rule() == Rule::squawk_range }
pub open spec fn range_ok(p: Pair<Rule>) -> bool { g_squawk_range(p) }
pub open spec fn position_ok(p: Pair<Rule>) -> bool { g_position(p) }
#[verifier::ext_equal]
pub struct PosV { pub name: Seq<char>, pub callsign: Seq<char>, pub frequency: Seq<char>, pub identifier: Seq<char>, pub prefix: Seq<char>, pub middle: Seq<char>, pub suffix: Seq<char>, pub squawks: Option<(u16, u16)>, pub points: Seq<Coord> }
pub open spec fn first_point(k: Seq<Pair<Rule>>) -> int { if has_range(k) { 10 } else { 9 } }
pub open spec fn sight(k: Seq<Pair<Rule>>) -> Seq<Coord> { Seq::new((k.len() - first_point(k)) as nat, |i: int| coord_of(k[i + first_point(k)])) }
pub open spec fn range_of(k: Seq<Pair<Rule>>) -> Option<(u16, u16)> { if has_range(k) { range_in(k[9]) } else { None } }
/// both ends, if both are numbers a squawk code can have
pub open spec fn range_in(p: Pair<Rule>) -> Option<(u16, u16)> { match (read_u16(p.kids()[0].text()), read_u16(p.kids()[1].text())) { (Some(a), Some(b)) => Some((a, b)), _ => None } }
/// a position as its line states it: the range and the points only where it has them
pub open spec fn position_of(p: Pair<Rule>) -> PosV { let k = p.kids(); PosV { name: k[0].text(), callsign: k[1].text(), frequency: k[2].text(), identifier: k[3].text(), middle: k[4].text(), prefix: k[5].text(), suffix: k[6].text(), squawks: range_of(k), points: sight(k) } }
pub open spec fn posv(p: Position) -> PosV { PosV { name: p.name@, callsign: p.callsign@, frequency: p.frequency@, identifier: p.identifier@, prefix: p.prefix@, middle: p.middle@, suffix: p.suffix@, squawks: p.squawk_range, points: p.visibility_points@ } }
/// the last line of an identifier
pub open spec fn last_position(k: Seq<Pair<Rule>>, id: Seq<char>) -> Option<PosV>
    decreases k.len()
{ if k.len() == 0 { None } else if k.last().kids()[3].text() == id { Some(position_of(k.last())) } else { last_position(k.drop_last(), id) } }
pub open spec fn positions_are(m: Map<Seq<char>, Position>, k: Seq<Pair<Rule>>) -> bool { forall|id: Seq<char>| #[trigger] m.contains_key(id) == (last_position(k, id) is Some) && (m.contains_key(id) ==> Some(posv(m[id])) == last_position(k, id)) }
/// the last position section of a file
pub open spec fn position_lines(s: Seq<Pair<Rule>>) -> Seq<Pair<Rule>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last().rule() == Rule::position_section { s.last().kids() } else { position_lines(s.drop_last()) } }
/// a SID or STAR line
#[verifier::ext_equal]
pub struct RouteV { pub sid: bool, pub name: Seq<char>, pub airport: Seq<char>, pub runway: Option<Seq<char>>, pub waypoints: Seq<Seq<char>> }
pub open spec fn route_of(p: Pair<Rule>) -> RouteV { let k = p.kids(); RouteV { sid: p.rule() == Rule::sid, name: k[2].text(), airport: k[0].text(), runway: if k[1].rule() == Rule::none { None } else { Some(k[1].text()) }, waypoints: texts(k[3].kids()) } }
pub open spec fn routes_of(k: Seq<Pair<Rule>>) -> Seq<RouteV> { Seq::new(k.len(), |i: int| route_of(k[i])) }
pub open spec fn routev(s: SidStar) -> RouteV {
    match s { SidStar::Sid(x) => RouteV { sid: true, name: x.name@, airport: x.airport@, runway: optv(x.runway), waypoints: strs(x.waypoints@) }, SidStar::Star(x) => RouteV { sid: false, name: x.name@, airport: x.airport@, runway: optv(x.runway), waypoints: strs(x.waypoints@) } }
}
pub open spec fn routevs(s: Seq<SidStar>) -> Seq<RouteV> { Seq::new(s.len(), |i: int| routev(s[i])) }
/// the last SID/STAR section of a file
pub open spec fn route_lines(s: Seq<Pair<Rule>>) -> Seq<Pair<Rule>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last().rule() == Rule::sidsstars_section { s.last().kids() } else { route_lines(s.drop_last()) } }
// ---- what they mean ----
pub open spec fn part_of(p: Pair<Rule>) -> f64 {
    let q = p.kids()[0]; let k = q.kids();
    if q.rule() == Rule::decimal { read_f64(q.text())->0 } else { angle((sign_of(k[0].text())->0, read_u16(k[1].text())->0, read_u8(k[2].text())->0, read_f64(k[3].text())->0)) }
}
pub open spec fn coord_of(p: Pair<Rule>) -> Coord { Coord { y: part_of(p.kids()[0]), x: part_of(p.kids()[1]) } }
/// a level; what is below zero is on the ground, what is too large as high as can be
pub open spec fn level_in(s: Seq<char>) -> u32 { match read_u32(s) { Some(n) => n, None => if s.len() > 0 && s[0] == '-' { 0 } else { u32::MAX } } }
pub open spec fn non_display(k: Seq<Pair<Rule>>) -> Seq<Pair<Rule>>
    decreases k.len()
{ if k.len() == 0 { Seq::empty() } else if k.last().rule() == Rule::display { non_display(k.drop_last()) } else { non_display(k.drop_last()).push(k.last()) } }
/// the points of a line, in order
pub open spec fn points_of(p: Pair<Rule>) -> Seq<Coord> { let n = non_display(p.kids().skip(1)); Seq::new(n.len(), |i: int| coord_of(n[i])) }
pub enum SubV { Owner(Seq<Seq<char>>), Alt, Border(Seq<Seq<char>>), Active(Seq<char>, Seq<char>), Dep(Seq<Seq<char>>), Arr(Seq<Seq<char>>), Guest }
pub open spec fn texts(s: Seq<Pair<Rule>>) -> Seq<Seq<char>> { Seq::new(s.len(), |i: int| s[i].text()) }
pub open spec fn sub_of(p: Pair<Rule>) -> SubV {
    match p.rule() { Rule::owner => SubV::Owner(texts(p.kids())), Rule::border => SubV::Border(texts(p.kids())), Rule::active => SubV::Active(p.kids()[0].text(), p.kids()[1].text()), Rule::depapt => SubV::Dep(texts(p.kids())), Rule::arrapt => SubV::Arr(texts(p.kids())), Rule::guest => SubV::Guest, _ => SubV::Alt }
}
pub open spec fn subv(s: SectorSubsetting) -> SubV {
    match s { SectorSubsetting::Owner(v) => SubV::Owner(strs(v@)), SectorSubsetting::AlternativeOwner(_, _) => SubV::Alt, SectorSubsetting::Border(v) => SubV::Border(strs(v@)), SectorSubsetting::Active(a, b) => SubV::Active(a@, b@), SectorSubsetting::DepartureAirports(v) => SubV::Dep(strs(v@)), SectorSubsetting::ArrivalAirports(v) => SubV::Arr(strs(v@)), SectorSubsetting::Guest => SubV::Guest }
}
pub open spec fn subvs(s: Seq<SectorSubsetting>) -> Seq<SubV> { Seq::new(s.len(), |i: int| subv(s[i])) }
pub enum Kind { Owner, Border, Dep, Arr }
pub open spec fn pick(v: SubV, k: Kind) -> Option<Seq<Seq<char>>> {
    match (v, k) { (SubV::Owner(x), Kind::Owner) => Some(x), (SubV::Border(x), Kind::Border) => Some(x), (SubV::Dep(x), Kind::Dep) => Some(x), (SubV::Arr(x), Kind::Arr) => Some(x), _ => None }
}
/// the first setting of a kind
pub open spec fn first(s: Seq<SubV>, k: Kind) -> Option<Seq<Seq<char>>>
    decreases s.len()
{ if s.len() == 0 { None } else { match pick(s[0], k) { Some(x) => Some(x), None => first(s.skip(1), k) } } }
pub open spec fn listed(s: Seq<SubV>, k: Kind) -> Seq<Seq<char>> { match first(s, k) { Some(x) => x, None => Seq::empty() } }
pub open spec fn actives(s: Seq<SubV>) -> Seq<(Seq<char>, Seq<char>)>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { match s.last() { SubV::Active(a, b) => actives(s.drop_last()).push((a, b)), _ => actives(s.drop_last()) } } }
pub open spec fn rwys(s: Seq<RunwayIdentifier>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(s.len(), |i: int| (s[i].icao@, s[i].designator@)) }
pub open spec fn subs_of(p: Pair<Rule>) -> Seq<SubV> { Seq::new((p.kids().len() - 3) as nat, |i: int| sub_of(p.kids()[i + 3])) }
/// a sector as its own block states it, borders aside
pub open spec fn stated(s: Sector, p: Pair<Rule>) -> bool {
    &&& s.id@ == p.kids()[0].text()
    &&& s.bottom == level_in(p.kids()[1].text())
    &&& s.top == level_in(p.kids()[2].text())
    &&& strs(s.owner_priority@) == listed(subs_of(p), Kind::Owner)
    &&& strs(s.departure_airports@) == listed(subs_of(p), Kind::Dep)
    &&& strs(s.arrival_airports@) == listed(subs_of(p), Kind::Arr)
    &&& rwys(s.runway_filter@) == actives(subs_of(p))
}
pub open spec fn wild_of(p: Pair<Rule>) -> Option<Seq<char>> { if p.rule() == Rule::wildcard { None } else { Some(p.text()) } }
pub open spec fn level_of(p: Pair<Rule>) -> Option<u32> { if p.rule() == Rule::wildcard { None } else { Some(level_in(p.text())) } }
pub open spec fn optv(s: Option<String>) -> Option<Seq<char>> { match s { Some(x) => Some(x@), None => None } }
pub open spec fn cop_is(c: Constraint, p: Pair<Rule>) -> bool {
    let k = p.kids();
    &&& optv(c.previous_fix) == wild_of(k[0]) && optv(c.departure_runway) == wild_of(k[1]) && optv(c.fix) == wild_of(k[2]) && optv(c.subsequent_fix) == wild_of(k[3]) && optv(c.arrival_runway) == wild_of(k[4])
    &&& c.exit_sector@ == k[5].text() && c.entry_sector@ == k[6].text()
    &&& c.climb_level == level_of(k[7]) && c.descent_level == level_of(k[8]) && c.description@ == k[9].text() && c.coord_timing is None
}
/// the last line / sector block of an airspace section with an identifier
pub open spec fn last_block(b: Seq<Pair<Rule>>, rule: Rule, id: Seq<char>) -> Option<Pair<Rule>>
    decreases b.len()
{ if b.len() == 0 { None } else if b.last().rule() == rule && b.last().kids()[0].text() == id { Some(b.last()) } else { last_block(b.drop_last(), rule, id) } }
/// the points of the defined ones among the named lines, in order
pub open spec fn border_lines(b: Seq<Pair<Rule>>, names: Seq<Seq<char>>) -> Seq<Seq<Coord>>
    decreases names.len()
{ if names.len() == 0 { Seq::empty() } else { match last_block(b, Rule::sectorline, names.last()) { Some(l) => border_lines(b, names.drop_last()).push(points_of(l)), None => border_lines(b, names.drop_last()) } } }
pub open spec fn line_points(s: Seq<SectorLine>) -> Seq<Seq<Coord>> { Seq::new(s.len(), |i: int| s[i].points.0@) }
pub open spec fn is_cop(p: Pair<Rule>) -> bool { p.rule() == Rule::cop || p.rule() == Rule::fir_cop }
pub open spec fn cops(b: Seq<Pair<Rule>>) -> Seq<Pair<Rule>>
    decreases b.len()
{ if b.len() == 0 { Seq::empty() } else if is_cop(b.last()) { cops(b.drop_last()).push(b.last()) } else { cops(b.drop_last()) } }
pub open spec fn cops_are(c: Seq<Constraint>, b: Seq<Pair<Rule>>) -> bool { c.len() == cops(b).len() && forall|i: int| 0 <= i < c.len() ==> cop_is(#[trigger] c[i], cops(b)[i]) }
/// what has been collected from the blocks read so far
pub open spec fn collected(a: SectorsLinesBorders, b: Seq<Pair<Rule>>) -> bool {
    &&& forall|id: Seq<char>| #![trigger a.0@.contains_key(id)] #![trigger a.3@.contains_key(id)] a.0@.contains_key(id) == (last_block(b, Rule::sector, id) is Some) && a.3@.contains_key(id) == (last_block(b, Rule::sector, id) is Some)
    &&& forall|id: Seq<char>| #[trigger] a.0@.contains_key(id) ==> stated(a.0@[id], last_block(b, Rule::sector, id)->0) && a.0@[id].id@ == id && strs(a.3@[id]@) == listed(subs_of(last_block(b, Rule::sector, id)->0), Kind::Border)
    &&& forall|id: Seq<char>| #[trigger] a.2@.contains_key(id) == (last_block(b, Rule::sectorline, id) is Some)
    &&& forall|id: Seq<char>| #[trigger] a.2@.contains_key(id) ==> a.2@[id].points.0@ == points_of(last_block(b, Rule::sectorline, id)->0)
    &&& cops_are(a.4@, b)
}
/// the sectors of an airspace section
pub open spec fn sectors_are(m: Map<Seq<char>, Sector>, b: Seq<Pair<Rule>>) -> bool {
    &&& forall|id: Seq<char>| #[trigger] m.contains_key(id) == (last_block(b, Rule::sector, id) is Some)
    &&& forall|id: Seq<char>| #[trigger] m.contains_key(id) ==> ({ let p = last_block(b, Rule::sector, id)->0; stated(m[id], p) && m[id].id@ == id && line_points(m[id].border@) == border_lines(b, listed(subs_of(p), Kind::Border)) })
}
pub open spec fn rule_is(r: SectorRule, p: Pair<Rule>) -> bool {
    match p.rule() {
        Rule::sectorline => match r { SectorRule::SectorLine((id, l)) => id@ == p.kids()[0].text() && l.points.0@ == points_of(p), _ => false },
        Rule::sector => match r { SectorRule::Sector((b, s)) => strs(b@) == listed(subs_of(p), Kind::Border) && stated(s, p), _ => false },
        Rule::cop => match r { SectorRule::Cop(c) => cop_is(c, p), _ => false },
        Rule::fir_cop => match r { SectorRule::FirCop(c) => cop_is(c, p), _ => false },
        _ => r is CircleSectorLine || r is DisplaySectorline || r is Msaw,
    }
}
/// the last airspace section of a file
pub open spec fn airspace(s: Seq<Pair<Rule>>) -> Seq<Pair<Rule>>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.last().rule() == Rule::airspace_section { s.last().kids() } else { airspace(s.drop_last()) } }
pub open spec fn last_routes(m: Map<SectionName, Section>, s: Seq<Pair<Rule>>) -> bool {
    if m.contains_key(SectionName::SidsStars) { match m[SectionName::SidsStars] { Section::SidsStars(x) => routevs(x@) == routes_of(route_lines(s)), _ => false } } else { route_lines(s).len() == 0 }
}
pub open spec fn last_positions(m: Map<SectionName, Section>, s: Seq<Pair<Rule>>) -> bool {
    if m.contains_key(SectionName::Position) { match m[SectionName::Position] { Section::Positions(x) => positions_are(x@, position_lines(s)), _ => false } } else { position_lines(s).len() == 0 }
}
/// the lines named, out of a table
pub open spec fn found_lines(m: Map<Seq<char>, SectorLine>, names: Seq<Seq<char>>) -> Seq<Seq<Coord>>
    decreases names.len()
{ if names.len() == 0 { Seq::empty() } else if m.contains_key(names.last()) { found_lines(m, names.drop_last()).push(m[names.last()].points.0@) } else { found_lines(m, names.drop_last()) } }
/// the same sector up to its border
pub open spec fn resaved(a: Sector, b: Sector) -> bool { a == (Sector { border: a.border, ..b }) }
/// what a table of sections holds for the airspace
pub open spec fn last_airspace(m: Map<SectionName, Section>, s: Seq<Pair<Rule>>) -> bool {
    if m.contains_key(SectionName::Airspace) { match m[SectionName::Airspace] { Section::Sectors(x) => sectors_are(x.0@, airspace(s)) && cops_are(x.1@, airspace(s)), _ => false } } else { airspace(s).len() == 0 }
}
pub fn sign_from(h: &str) -> (r: Sign) requires sign_of(h@) is Some, ensures Some(r) == sign_of(h@) { <Sign as HemiFrom>::from_hemi(h) }
//@ fn Sign as From::from  trait=HemiFrom
//@ sig fn from_hemi(hemi: &str) -> (ret: Self)
//@ spec
ensures Some(ret) == sign_of(hemi@),
//@ at start
proof { reveal_strlit("N"); assert("N"@ =~= seq!['N']); axiom_str_ext(hemi, "N"); reveal_strlit("E"); assert("E"@ =~= seq!['E']); axiom_str_ext(hemi, "E"); reveal_strlit("n"); assert("n"@ =~= seq!['n']); axiom_str_ext(hemi, "n"); reveal_strlit("e"); assert("e"@ =~= seq!['e']); axiom_str_ext(hemi, "e"); reveal_strlit("S"); assert("S"@ =~= seq!['S']); axiom_str_ext(hemi, "S"); reveal_strlit("W"); assert("W"@ =~= seq!['W']); axiom_str_ext(hemi, "W"); reveal_strlit("s"); assert("s"@ =~= seq!['s']); axiom_str_ext(hemi, "s"); reveal_strlit("w"); assert("w"@ =~= seq!['w']); axiom_str_ext(hemi, "w");
    assert forall|c: char| letter(hemi@, c) implies hemi@ == seq![c] by { assert(hemi@ =~= seq![c]); } }
//@ fn parse_coordinate_part
//@ spec
requires part_ok(pair),
ensures ret == part_of(pair),
//@ fn parse_coordinate
//@ spec
requires coord_ok(pair),
ensures ret == coord_of(pair),
//@ fn SectorLine::parse
//@ spec
requires line_ok(pair),
ensures ret.0@ == pair.kids()[0].text(), ret.1.points.0@ == points_of(pair),
//@ loop 0
    g0 == pair.kids().skip(1), pb0@ == non_display(g0.take(it0.pos())), line_ok(pair),
    forall|i: int| 0 <= i < pb0@.len() ==> coord_ok(#[trigger] pb0@[i]),
//@ at loop0.end
proof { let n = it0.pos() - 1; assert(g0.take(n + 1).drop_last() =~= g0.take(n)); assert(g0.take(n + 1).last() == g0[n]); assert(g0[n] == pair.kids()[n + 1]); }
//@ at loop0.after
proof { assert(g0.take(it0.pos()) =~= g0); }
//@ loop 1
    forall|i: int| 0 <= i < g1.len() ==> coord_ok(#[trigger] g1[i]), g1 == non_display(pair.kids().skip(1)),
    acc1@ == Seq::new(it1.pos() as nat, |i: int| coord_of(g1[i])),
//@ at loop1.end
proof { assert(acc1@ =~= Seq::new(it1.pos() as nat, |i: int| coord_of(g1[i]))); }
//@ fn CircleSectorLine::parse
//@ spec
requires circle_ok(pair),
//@ fn MSAW::parse
//@ spec
requires msaw_ok(pair),
//@ loop 0
    g0 == pair.kids().skip(2), msaw_ok(pair),
//@ at loop0.start
proof { assert(vx_x0 == pair.kids()[it0.pos() + 1]); }
//@ fn Sector::parse
//@ type r1 Option<Vec<String>>
//@ type r2 Option<Vec<String>>
//@ type r3 Option<Vec<String>>
//@ type r4 Option<Vec<String>>
//@ type acc5 Vec<RunwayIdentifier>
//@ type acc0 Vec<SectorSubsetting>
//@ spec
requires sector_ok(pair),
ensures stated(ret.1, pair), strs(ret.0@) == listed(subs_of(pair), Kind::Border),
//@ loop 0
    sector_ok(pair), g0 == pair.kids().skip(3), acc0@.len() == it0.pos(), forall|i: int| 0 <= i < acc0@.len() ==> subv(#[trigger] acc0@[i]) == sub_of(pair.kids()[i + 3]),
//@ at loop0.start
proof { assert(vx_x0 == pair.kids()[it0.pos() + 2]); }
//@ at loop0.after
proof { assert(subvs(acc0@) =~= subs_of(pair)); }
//@ loop 1
    g1 == seq_refs(subsettings@), subvs(subsettings@) == subs_of(pair),
    r1 is None ==> first(subs_of(pair), Kind::Owner) == first(subs_of(pair).skip(it1.pos()), Kind::Owner),
    r1 is Some ==> first(subs_of(pair), Kind::Owner) == Some(strs(r1->0@)),
//@ at loop1.before
proof { assert(subs_of(pair).skip(0) =~= subs_of(pair)); }
//@ at loop1.start
proof { let s = subs_of(pair); let n = it1.pos() - 1; assert(s.skip(n).skip(1) =~= s.skip(n + 1)); assert(s.skip(n)[0] == s[n]); assert(s[n] == subv(*vx_x1)); }
//@ at loop1.after
proof { assert(strs(Seq::<String>::empty()) =~= Seq::empty()); }
//@ loop 2
    g2 == seq_refs(subsettings@), subvs(subsettings@) == subs_of(pair),
    r2 is None ==> first(subs_of(pair), Kind::Dep) == first(subs_of(pair).skip(it2.pos()), Kind::Dep),
    r2 is Some ==> first(subs_of(pair), Kind::Dep) == Some(strs(r2->0@)),
//@ at loop2.before
proof { assert(subs_of(pair).skip(0) =~= subs_of(pair)); }
//@ at loop2.start
proof { let s = subs_of(pair); let n = it2.pos() - 1; assert(s.skip(n).skip(1) =~= s.skip(n + 1)); assert(s.skip(n)[0] == s[n]); assert(s[n] == subv(*vx_x2)); }
//@ at loop2.after
proof { assert(strs(Seq::<String>::empty()) =~= Seq::empty()); }
//@ loop 3
    g3 == seq_refs(subsettings@), subvs(subsettings@) == subs_of(pair),
    r3 is None ==> first(subs_of(pair), Kind::Arr) == first(subs_of(pair).skip(it3.pos()), Kind::Arr),
    r3 is Some ==> first(subs_of(pair), Kind::Arr) == Some(strs(r3->0@)),
//@ at loop3.before
proof { assert(subs_of(pair).skip(0) =~= subs_of(pair)); }
//@ at loop3.start
proof { let s = subs_of(pair); let n = it3.pos() - 1; assert(s.skip(n).skip(1) =~= s.skip(n + 1)); assert(s.skip(n)[0] == s[n]); assert(s[n] == subv(*vx_x3)); }
//@ at loop3.after
proof { assert(strs(Seq::<String>::empty()) =~= Seq::empty()); }
//@ loop 4
    g4 == seq_refs(subsettings@), subvs(subsettings@) == subs_of(pair),
    r4 is None ==> first(subs_of(pair), Kind::Border) == first(subs_of(pair).skip(it4.pos()), Kind::Border),
    r4 is Some ==> first(subs_of(pair), Kind::Border) == Some(strs(r4->0@)),
//@ at loop4.before
proof { assert(subs_of(pair).skip(0) =~= subs_of(pair)); }
//@ at loop4.start
proof { let s = subs_of(pair); let n = it4.pos() - 1; assert(s.skip(n).skip(1) =~= s.skip(n + 1)); assert(s.skip(n)[0] == s[n]); assert(s[n] == subv(*vx_x4)); }
//@ at loop4.after
proof { assert(strs(Seq::<String>::empty()) =~= Seq::empty()); }
//@ loop 5
    g5 == seq_refs(subsettings@), subvs(subsettings@) == subs_of(pair), rwys(acc5@) == actives(subs_of(pair).take(it5.pos())),
//@ at loop5.before
proof { assert(rwys(acc5@) =~= Seq::empty()); }
//@ at loop5.start
let ghost before = acc5@;
proof { let s = subs_of(pair); let n = it5.pos() - 1; assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]); assert(s[n] == subv(*vx_x5)); }
//@ at loop5.end
proof { if subs_of(pair)[it5.pos() - 1] is Active { assert(rwys(acc5@) =~= rwys(before).push((acc5@.last().icao@, acc5@.last().designator@))); } }
//@ at loop5.after
proof { assert(subs_of(pair).take(it5.pos()) =~= subs_of(pair)); }
//@ fn Sector::parse_subsettings
//@ type acc0 Vec<String>
//@ type acc1 Vec<String>
//@ type acc2 Vec<String>
//@ type acc3 Vec<String>
//@ type acc4 Vec<String>
//@ spec
requires sub_ok(pair),
ensures subv(ret) == sub_of(pair),
//@ loop 0
    g0 == pair.kids(), acc0@.len() == it0.pos(), forall|i: int| 0 <= i < acc0@.len() ==> (#[trigger] acc0@[i])@ == g0[i].text(),
//@ at loop0.after
proof { assert(strs(acc0@) =~= texts(pair.kids())); }
//@ loop 1
    acc1@.len() == it1.pos(), forall|i: int| 0 <= i < acc1@.len() ==> (#[trigger] acc1@[i])@ == g1[i].text(),
//@ loop 2
    g2 == pair.kids(), acc2@.len() == it2.pos(), forall|i: int| 0 <= i < acc2@.len() ==> (#[trigger] acc2@[i])@ == g2[i].text(),
//@ at loop2.after
proof { assert(strs(acc2@) =~= texts(pair.kids())); }
//@ loop 3
    g3 == pair.kids(), acc3@.len() == it3.pos(), forall|i: int| 0 <= i < acc3@.len() ==> (#[trigger] acc3@[i])@ == g3[i].text(),
//@ at loop3.after
proof { assert(strs(acc3@) =~= texts(pair.kids())); }
//@ loop 4
    g4 == pair.kids(), acc4@.len() == it4.pos(), forall|i: int| 0 <= i < acc4@.len() ==> (#[trigger] acc4@[i])@ == g4[i].text(),
//@ at loop4.after
proof { assert(strs(acc4@) =~= texts(pair.kids())); }
//@ fn parse_wildcard_string
//@ spec
requires wild_ok(*pair),
ensures optv(ret) == wild_of(*pair),
//@ fn parse_level
//@ spec
ensures ret == level_in(pair.text()),
//@ fn parse_wildcard_u32
//@ spec
requires level_ok(*pair),
ensures ret == level_of(*pair),
//@ fn Constraint::parse
//@ spec
requires cop_ok(pair),
ensures cop_is(ret, pair),
//@ fn parse_airspace
//@ spec
requires block_ok(pair),
ensures rule_is(ret, pair),
//@ fn collect_sectors
//@ spec
ensures forall|b: Seq<Pair<Rule>>, p: Pair<Rule>| #![trigger rule_is(rule, p), collected(vx_p0, b)] rule_is(rule, p) && collected(vx_p0, b) && block_ok(p) ==> collected(ret, b.push(p)),
//@ at tail
proof {
    assert forall|b: Seq<Pair<Rule>>, p: Pair<Rule>| #![trigger rule_is(rule, p), collected(vx_p0, b)] rule_is(rule, p) && collected(vx_p0, b) && block_ok(p) implies collected(vx_ret, b.push(p)) by {
        assert(b.push(p).drop_last() =~= b); assert(b.push(p).last() == p);
    }
}
//@ fn combine_sectors_with_borders
//@ spec
ensures forall|b: Seq<Pair<Rule>>| #[trigger] collected(vx_p0, b) ==> sectors_are(ret.0@, b) && cops_are(ret.1@, b),
//@ type acc0 Vec<(String, Sector)>
//@ type acc1 Vec<SectorLine>
//@ at start
broadcast use axiom_entries;
//@ loop 0
    g0 == entries(vx_p0.0), lines == vx_p0.2, borders == vx_p0.3,
    acc0@.len() == it0.pos(),
    forall|i: int| 0 <= i < acc0@.len() ==> (#[trigger] acc0@[i]).0 == g0[i].0 && resaved(acc0@[i].1, g0[i].1) && line_points(acc0@[i].1.border@) == found_lines(vx_p0.2@, if vx_p0.3@.contains_key(g0[i].0@) { strs(vx_p0.3@[g0[i].0@]@) } else { Seq::empty() }),
//@ loop 1
    g1 == seq_refs(border@), lines == vx_p0.2, line_points(acc1@) == found_lines(vx_p0.2@, strs(border@).take(it1.pos())),
//@ at loop1.before
proof { assert(line_points(acc1@) =~= Seq::empty()); }
//@ at loop1.start
let ghost before = acc1@;
proof { let s = strs(border@); let n = it1.pos() - 1; assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]); assert(s[n] == vx_x1@); }
//@ at loop1.end
proof { if vx_p0.2@.contains_key(vx_x1@) { assert(line_points(acc1@) =~= line_points(before).push(acc1@.last().points.0@)); } }
//@ at loop1.after
proof { assert(strs(border@).take(it1.pos()) =~= strs(border@)); }
//@ at loop0.after
proof { collected_sectors(vx_p0, acc0@); }
//@ fn parse_squawk_range
//@ spec
requires maybe_pair is Some && maybe_pair->0.rule() == Rule::squawk_range ==> range_ok(maybe_pair->0),
ensures ret == (match maybe_pair { Some(p) => if p.rule() == Rule::squawk_range { range_in(p) } else { None }, None => None }),
//@ fn parse_position
//@ type acc0 Vec<Pair<Rule>>
//@ type acc1 Vec<Coord>
//@ spec
requires position_ok(pair),
ensures posv(ret.1) == position_of(pair), ret.0@ == pair.kids()[3].text(),
//@ loop 0
    position_ok(pair), g0 == pair.kids().skip(9), acc0@ == g0.take(it0.pos()),
//@ at loop0.before
proof { assert(g0 =~= pair.kids().skip(9)); }
//@ at loop0.after
proof { assert(acc0@ =~= pair.kids().skip(9)); }
//@ loop 1
    position_ok(pair), g1 == pair.kids().skip(first_point(pair.kids())), acc1@.len() == it1.pos(), forall|i: int| 0 <= i < acc1@.len() ==> #[trigger] acc1@[i] == coord_of(g1[i]),
//@ at loop1.before
proof { assert(g1 =~= pair.kids().skip(first_point(pair.kids()))); }
//@ at loop1.start
proof { assert(vx_x1 == pair.kids()[first_point(pair.kids()) + it1.pos() - 1]); }
//@ at loop1.after
proof { assert(acc1@ =~= sight(pair.kids())); }
//@ fn parse_sid_star
//@ type acc0 Vec<String>
//@ spec
requires route_ok(pair),
ensures routev(ret) == route_of(pair),
//@ loop 0
    g0 == pair.kids()[3].kids(), acc0@.len() == it0.pos(), forall|i: int| 0 <= i < acc0@.len() ==> (#[trigger] acc0@[i])@ == g0[i].text(),
//@ at loop0.after
proof { assert(strs(acc0@) =~= texts(pair.kids()[3].kids())); }
//@ fn parse_section
//@ spec
requires section_ok(pair),
ensures pair.rule() == Rule::airspace_section ==> ret.0 == SectionName::Airspace && (ret.1 matches Section::Sectors(s) && sectors_are(s.0@, pair.kids()) && cops_are(s.1@, pair.kids())),
    pair.rule() != Rule::airspace_section ==> ret.0 != SectionName::Airspace,
    pair.rule() == Rule::position_section ==> ret.0 == SectionName::Position && (ret.1 matches Section::Positions(m) && positions_are(m@, pair.kids())),
    pair.rule() != Rule::position_section ==> ret.0 != SectionName::Position,
    pair.rule() == Rule::sidsstars_section ==> ret.0 == SectionName::SidsStars && (ret.1 matches Section::SidsStars(s) && routevs(s@) == routes_of(pair.kids())),
    pair.rule() != Rule::sidsstars_section ==> ret.0 != SectionName::SidsStars,
//@ type acc0 Vec<(String, Position)>
//@ type acc1 SectorsLinesBorders
//@ loop 0
    section_ok(pair), pair.rule() == Rule::position_section, g0 == pair.kids(), acc0@.len() == it0.pos(), positions_are(map_of(acc0@), g0.take(it0.pos())),
//@ at loop0.start
let ghost before = acc0@;
proof { let n = it0.pos() - 1; assert(vx_x0 == pair.kids()[n]); assert(g0.take(n + 1).drop_last() =~= g0.take(n)); assert(g0.take(n + 1).last() == g0[n]); }
//@ at loop0.end
proof { assert(acc0@.drop_last() =~= before); }
//@ at loop0.after
proof { assert(g0.take(it0.pos()) =~= g0); }
//@ loop 1
    section_ok(pair), pair.rule() == Rule::airspace_section, g1 == pair.kids(), collected(acc1, g1.take(it1.pos())),
//@ at loop1.before
proof { assert(collected(acc1, g1.take(0))); }
//@ at loop1.start
let ghost before = acc1;
proof { assert(vx_x1 == pair.kids()[it1.pos() - 1]); assert(g1.take(it1.pos()) =~= g1.take(it1.pos() - 1).push(vx_x1)); }
//@ at loop1.after
proof { assert(g1.take(it1.pos()) =~= g1); }
//@ type acc2 Vec<SidStar>
//@ loop 2
    section_ok(pair), pair.rule() == Rule::sidsstars_section, g2 == pair.kids(), acc2@.len() == it2.pos(), forall|i: int| 0 <= i < acc2@.len() ==> routev(#[trigger] acc2@[i]) == route_of(g2[i]),
//@ at loop2.start
proof { assert(vx_x2 == pair.kids()[it2.pos() - 1]); }
//@ at loop2.after
proof { assert(routevs(acc2@) =~= routes_of(pair.kids())); }
//@ fn Ese::parse
//@ spec
ensures ret matches Ok(e) ==> ({ let b = airspace(tree(text_of(content@))->0[0].kids()); tree(text_of(content@)) is Some && sectors_are(e.sectors@, b) && cops_are(e.constraints@, b) && routevs(e.sids_stars@) == routes_of(route_lines(tree(text_of(content@))->0[0].kids())) && positions_are(e.positions@, position_lines(tree(text_of(content@))->0[0].kids())) }),
//@ type acc0 Vec<(SectionName, Section)>
//@ loop 0
    g0 == tree(text_of(content@))->0[0].kids(), forall|i: int| 0 <= i < g0.len() ==> section_ok(#[trigger] g0[i]),
    last_airspace(map_of(acc0@), g0.take(it0.pos())), last_routes(map_of(acc0@), g0.take(it0.pos())), last_positions(map_of(acc0@), g0.take(it0.pos())),
//@ at start
proof { axiom_tree(text_of(content@)); }
//@ at loop0.before
proof { assert(last_airspace(map_of(acc0@), g0.take(0))); assert(last_routes(map_of(acc0@), g0.take(0))); assert(last_positions(map_of(acc0@), g0.take(0))); }
//@ at loop0.start
let ghost before = acc0@;
proof { let n = it0.pos() - 1; assert(g0.take(n + 1).drop_last() =~= g0.take(n)); assert(g0.take(n + 1).last() == g0[n]); }
//@ at loop0.end
proof { assert(acc0@.drop_last() =~= before); }
//@ at loop0.after
proof { assert(g0.take(it0.pos()) =~= g0); }
//@ at tail
proof { let t = tree(text_of(content@))->0[0].kids(); if vx_ret is Ok { let e = vx_ret->Ok_0; if e.sids_stars@.len() == 0 { assert(routes_of(route_lines(t)).len() == 0 ==> routevs(e.sids_stars@) =~= routes_of(route_lines(t))); } } }
//@ lemmas
pub proof fn found_is_border(m: Map<Seq<char>, SectorLine>, b: Seq<Pair<Rule>>, names: Seq<Seq<char>>)
    requires
        forall|id: Seq<char>| #[trigger] m.contains_key(id) == (last_block(b, Rule::sectorline, id) is Some),
        forall|id: Seq<char>| #[trigger] m.contains_key(id) ==> m[id].points.0@ == points_of(last_block(b, Rule::sectorline, id)->0),
    ensures found_lines(m, names) == border_lines(b, names),
    decreases names.len()
{ if names.len() > 0 { assert(m.contains_key(names.last()) == (last_block(b, Rule::sectorline, names.last()) is Some)); found_is_border(m, b, names.drop_last()); } }
pub proof fn collected_sectors(a: SectorsLinesBorders, acc: Seq<(String, Sector)>)
    requires
        acc.len() == entries(a.0).len(),
        forall|i: int| 0 <= i < acc.len() ==> (#[trigger] acc[i]).0 == entries(a.0)[i].0 && resaved(acc[i].1, entries(a.0)[i].1) && line_points(acc[i].1.border@) == found_lines(a.2@, if a.3@.contains_key(entries(a.0)[i].0@) { strs(a.3@[entries(a.0)[i].0@]@) } else { Seq::empty() }),
    ensures forall|b: Seq<Pair<Rule>>| #[trigger] collected(a, b) ==> sectors_are(map_of(acc), b),
{
    let e = entries(a.0);
    axiom_entries(a.0);
    assert forall|i: int, j: int| 0 <= i < j < acc.len() implies (#[trigger] acc[i]).0.vkey() != (#[trigger] acc[j]).0.vkey() by { assert(e[i].0.vkey() != e[j].0.vkey()); }
    map_of_distinct(acc);
    assert forall|b: Seq<Pair<Rule>>| #[trigger] collected(a, b) implies sectors_are(map_of(acc), b) by {
        let m = map_of(acc);
        assert forall|id: Seq<char>| #[trigger] m.contains_key(id) implies a.0@.contains_key(id) && ({ let p = last_block(b, Rule::sector, id)->0; stated(m[id], p) && m[id].id@ == id && line_points(m[id].border@) == border_lines(b, listed(subs_of(p), Kind::Border)) }) by {
            let i = choose|i: int| 0 <= i < acc.len() && (#[trigger] acc[i]).0.vkey() == id;
            assert(acc[i].0 == e[i].0);
            assert(a.0@.contains_key(e[i].0.vkey()));
            let p = last_block(b, Rule::sector, id)->0;
            assert(stated(a.0@[id], p));
            found_is_border(a.2@, b, listed(subs_of(p), Kind::Border));
        }
        assert forall|id: Seq<char>| a.0@.contains_key(id) implies #[trigger] m.contains_key(id) by {
            let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == id;
            assert(acc[i].0 == e[i].0);
        }
        assert forall|id: Seq<char>| #[trigger] m.contains_key(id) == (last_block(b, Rule::sector, id) is Some) by { assert(a.0@.contains_key(id) == (last_block(b, Rule::sector, id) is Some)); }
    }
}
