//@ source src/topsky/map/mod.rs
//@ source src/topsky/mod.rs
//@ source src/lib.rs
//@ use base
//@ use pest
//@ use digits
//@ use read
//@ rename parse vx_parse
//@ rename into .vx_into
//@ callrename Sign::from sign_from
//@ callrename DegMinSec::default dms_default
//@ item Sign
//@ item DegMinSec
//@ item Location noclone
//@ item CoordinatePart noclone
//@ grammar TopskyParser maps
//@ prelude
broadcast use crate::rd::reads;
#[derive(Clone, Copy)]
pub struct Coord { pub x: f64, pub y: f64 }
#[derive(Clone, Copy)]
pub struct Point(pub Coord);
impl Coord { pub fn vx_into(self) -> (r: Point) ensures r == Point(self) { Point(self) } }
/// degrees, minutes and seconds as an angle, latitude and longitude each (C16, unit dms)
pub uninterp spec fn angle(d: DegMinSec) -> f64;
impl Coord { #[verifier::external_body] pub fn from_deg_min_sec(lat: DegMinSec, lng: DegMinSec) -> (r: Coord) ensures r.y == angle(lat), r.x == angle(lng) { unimplemented!() } }
#[verifier::external_body]
pub fn dms_default() -> DegMinSec { unimplemented!() }
pub trait HemiFrom: Sized { fn from_hemi(hemi: &str) -> (ret: Self) requires sign_of(hemi@) is Some; }
pub open spec fn letter(s: Seq<char>, c: char) -> bool { s.len() == 1 && s[0] == c }
pub open spec fn sign_of(s: Seq<char>) -> Option<Sign> {
    if letter(s, 'N') || letter(s, 'E') || letter(s, 'n') || letter(s, 'e') { Some(Sign::Pos) } else if letter(s, 'S') || letter(s, 'W') || letter(s, 's') || letter(s, 'w') { Some(Sign::Neg) } else { None }
}
pub fn sign_from(h: &str) -> (r: Sign) requires sign_of(h@) is Some, ensures Some(r) == sign_of(h@) { <Sign as HemiFrom>::from_hemi(h) }
/// the text value with these characters
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub axiom fn axiom_string_of() ensures forall|s: String| #[trigger] string_of(s@) == s;
pub open spec fn dms_of(p: Pair<Rule>) -> DegMinSec { let k = p.kids(); (sign_of(k[0].text())->0, read_u16(k[1].text())->0, read_u8(k[2].text())->0, read_f64(k[3].text())->0) }
/// latitude or longitude: decimal degrees as they stand, or degrees, minutes and seconds
pub open spec fn part_of(p: Pair<Rule>) -> f64 { let q = p.kids()[0]; if q.rule() is decimal { read_f64(q.text())->0 } else { angle(dms_of(q)) } }
pub open spec fn coord_of(p: Pair<Rule>) -> Coord { Coord { y: part_of(p.kids()[0]), x: part_of(p.kids()[1]) } }
/// a position as it is written, or the name of a waypoint
pub open spec fn place(p: Pair<Rule>) -> Location { if p.rule() is coordinate { Location::Coordinate(Point(coord_of(p))) } else { Location::Fix(string_of(p.text())) } }
//@ fn Sign as From::from  trait=HemiFrom
//@ sig fn from_hemi(hemi: &str) -> (ret: Self)
//@ spec
ensures Some(ret) == sign_of(hemi@),
//@ at start
proof { reveal_strlit("N"); assert("N"@ =~= seq!['N']); axiom_str_ext(hemi, "N"); reveal_strlit("E"); assert("E"@ =~= seq!['E']); axiom_str_ext(hemi, "E"); reveal_strlit("n"); assert("n"@ =~= seq!['n']); axiom_str_ext(hemi, "n"); reveal_strlit("e"); assert("e"@ =~= seq!['e']); axiom_str_ext(hemi, "e"); reveal_strlit("S"); assert("S"@ =~= seq!['S']); axiom_str_ext(hemi, "S"); reveal_strlit("W"); assert("W"@ =~= seq!['W']); axiom_str_ext(hemi, "W"); reveal_strlit("s"); assert("s"@ =~= seq!['s']); axiom_str_ext(hemi, "s"); reveal_strlit("w"); assert("w"@ =~= seq!['w']); axiom_str_ext(hemi, "w");
    assert forall|c: char| letter(hemi@, c) implies hemi@ == seq![c] by { assert(hemi@ =~= seq![c]); } }
//@ fn CoordinatePart::parse
//@ spec
requires g_coord_part(pair),
ensures match ret { CoordinatePart::Decimal(d) => pair.kids()[0].rule() is decimal && Some(d) == read_f64(pair.kids()[0].text()), CoordinatePart::DegMinSec(d) => pair.kids()[0].rule() is sct_coord_part && d == dms_of(pair.kids()[0]) },
//@ fn parse_coord
//@ spec
requires g_coordinate(pair),
ensures ret == coord_of(pair),
//@ fn Location::parse
//@ spec
requires g_coordinate(pair) || g_colon_delimited_text(pair),
ensures ret == place(pair),
//@ at start
proof { axiom_string_of(); }
