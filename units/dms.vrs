//@ source src/lib.rs
//@ source src/sct.rs
//@ use base
//@ use pest
//@ use digits
//@ use read
//@ use farith
//@ use decimal
//@ concat_formats
//@ callrename Sign::from sign_from
//@ callrename f64::from vx_f64_from
//@ rename abs .vx_abs
//@ rename round .vx_round
//@ rename is_sign_negative .vx_is_neg
//@ rename parse vx_parse
//@ rename into .vx_into
//@ item Sign
//@ item DegMinSec
//@ grammar SctParser sct
//@ prelude
broadcast use crate::rd::reads;
#[verifier::allow(undeclared_external_trait)]
pub assume_specification<T, E, F: FnOnce(&E) + core::marker::Destruct>[Result::<T, E>::inspect_err](r: Result<T, E>, f: F) -> (o: Result<T, E>) ensures o == r;
/// geo types
#[derive(Clone, Copy)]
pub struct Coord { pub x: f64, pub y: f64 }
#[derive(Clone, Copy)]
pub struct Point(pub Coord);
impl Coord { pub fn vx_into(self) -> (r: Point) ensures r == Point(self) { Point(self) } }
impl VxShow for char { open spec fn shown(&self) -> Seq<char> { seq![*self] } }
pub trait HemiFrom: Sized { fn from_hemi(hemi: &str) -> (ret: Self) requires sign_of(hemi@) is Some; }
pub open spec fn letter(s: Seq<char>, c: char) -> bool { s.len() == 1 && s[0] == c }
pub open spec fn sign_of(s: Seq<char>) -> Option<Sign> {
    if letter(s, 'N') || letter(s, 'E') || letter(s, 'n') || letter(s, 'e') { Some(Sign::Pos) } else if letter(s, 'S') || letter(s, 'W') || letter(s, 's') || letter(s, 'w') { Some(Sign::Neg) } else { None }
}
/// degrees + minutes / 60 + seconds / 3600, with the hemisphere's sign (f64 arithmetic)
pub open spec fn worth(d: DegMinSec) -> f64 {
    fmul(fadd(fadd(f_of(d.1 as int), fdiv(f_of(d.2 as int), 60.0f64)), fdiv(d.3, 3600.0f64)), f_of(match d.0 { Sign::Pos => 1int, Sign::Neg => -1int }))
}
/// a decimal coordinate in whole thousandths of a second, away from zero
pub open spec fn thousandths(x: f64) -> nat { f_as_u64(fround(fmul(fabs(x), 3600000.0f64))) as nat }
pub open spec fn hemisphere(x: f64, lat: bool) -> char { if lat { if fnegative(x) { 'S' } else { 'N' } } else { if fnegative(x) { 'W' } else { 'E' } } }
/// what is printed for `t` thousandths of a second
pub open spec fn printed(t: nat, h: char) -> Seq<char> {
    seq![h] + pad(t / 3600000, 3) + seq!['.'] + pad(t / 60000 % 60, 2) + seq!['.'] + pad(t % 60000 / 1000, 2) + seq!['.'] + pad(t % 60000 % 1000, 3)
}
pub trait VCoord { spec fn coord(&self) -> Coord; }
impl VCoord for Coord { open spec fn coord(&self) -> Coord { *self } }
impl VCoord for Point { open spec fn coord(&self) -> Coord { self.0 } }
pub trait DegMinSecExt: VCoord + Sized {
    fn from_deg_min_sec(lat: DegMinSec, lng: DegMinSec) -> (ret: Self) ensures ret.coord() == (Coord { x: worth(lng), y: worth(lat) });
    fn lat_deg_min_sec_fmt(&self) -> (ret: String) ensures ret@ == printed(thousandths(self.coord().y), hemisphere(self.coord().y, true));
    fn lng_deg_min_sec_fmt(&self) -> (ret: String) ensures ret@ == printed(thousandths(self.coord().x), hemisphere(self.coord().x, false));
}
pub open spec fn part_of(p: Pair<Rule>) -> DegMinSec { let k = p.kids(); (sign_of(k[0].text())->0, read_u16(k[1].text())->0, read_u8(k[2].text())->0, read_f64(k[3].text())->0) }
pub fn sign_from(h: &str) -> (r: Sign) requires sign_of(h@) is Some, ensures Some(r) == sign_of(h@) { <Sign as HemiFrom>::from_hemi(h) }
//@ fn Sign::sign
//@ spec
ensures ret == (match self { Sign::Pos => 1i8, Sign::Neg => -1i8 }),
//@ fn Sign as From::from  trait=HemiFrom
//@ sig fn from_hemi(hemi: &str) -> (ret: Self)
//@ spec
ensures Some(ret) == sign_of(hemi@),
//@ at start
proof { reveal_strlit("N"); assert("N"@ =~= seq!['N']); axiom_str_ext(hemi, "N"); reveal_strlit("E"); assert("E"@ =~= seq!['E']); axiom_str_ext(hemi, "E"); reveal_strlit("n"); assert("n"@ =~= seq!['n']); axiom_str_ext(hemi, "n"); reveal_strlit("e"); assert("e"@ =~= seq!['e']); axiom_str_ext(hemi, "e"); reveal_strlit("S"); assert("S"@ =~= seq!['S']); axiom_str_ext(hemi, "S"); reveal_strlit("W"); assert("W"@ =~= seq!['W']); axiom_str_ext(hemi, "W"); reveal_strlit("s"); assert("s"@ =~= seq!['s']); axiom_str_ext(hemi, "s"); reveal_strlit("w"); assert("w"@ =~= seq!['w']); axiom_str_ext(hemi, "w");
    assert forall|c: char| letter(hemi@, c) implies hemi@ == seq![c] by { assert(hemi@ =~= seq![c]); } }
//@ fn decimal_to_dms
//@ floats
//@ spec
ensures ret.0 as nat == thousandths(decimal) / 3600000, ret.1 as nat == thousandths(decimal) / 60000 % 60, ret.2 as nat == thousandths(decimal) % 60000, ret.3 == hemisphere(decimal, is_latitude),
//@ fn Coord as DegMinSecExt::from_deg_min_sec
//@ floats
//@ fn Coord as DegMinSecExt::lat_deg_min_sec_fmt
//@ at start
proof { reveal_strlit("."); assert("."@ =~= seq!['.']); }
//@ at tail
proof { assert(Seq::<char>::empty() + seq![hemi] =~= seq![hemi]); }
//@ fn Coord as DegMinSecExt::lng_deg_min_sec_fmt
//@ at start
proof { reveal_strlit("."); assert("."@ =~= seq!['.']); }
//@ at tail
proof { assert(Seq::<char>::empty() + seq![hemi] =~= seq![hemi]); }
//@ fn Point as DegMinSecExt::from_deg_min_sec
//@ fn Point as DegMinSecExt::lat_deg_min_sec_fmt
//@ fn Point as DegMinSecExt::lng_deg_min_sec_fmt
//@ fn parse_coordinate_part
//@ spec
requires g_sct_coord_part(pair),
ensures ret == part_of(pair),
//@ fn parse_coordinate
//@ spec
requires g_sct_coordinate(pair),
ensures ret == (Coord { y: worth(part_of(pair.kids()[0])), x: worth(part_of(pair.kids()[1])) }),
//@ lemmas
/// minutes and seconds stay below 60, and the printed numbers spell exactly the rounded coordinate
proof fn theorem_printed(t: nat)
    ensures
        t / 60000 % 60 < 60, t % 60000 / 1000 < 60,
        pad(t / 60000 % 60, 2).len() == 2, pad(t % 60000 / 1000, 2).len() == 2, pad(t % 60000 % 1000, 3).len() == 3,
        t < 1000 * 3600000 ==> pad(t / 3600000, 3).len() == 3,
        all_digits(pad(t / 3600000, 3)), all_digits(pad(t / 60000 % 60, 2)), all_digits(pad(t % 60000 / 1000, 2)), all_digits(pad(t % 60000 % 1000, 3)),
        val(pad(t / 3600000, 3)) * 3600000 + val(pad(t / 60000 % 60, 2)) * 60000 + val(pad(t % 60000 / 1000, 2)) * 1000 + val(pad(t % 60000 % 1000, 3)) == t,
{
    let (d, m, s, f) = (t / 3600000, t / 60000 % 60, t % 60000 / 1000, t % 60000 % 1000);
    lemma_pad(d, 3); lemma_pad(m, 2); lemma_pad(s, 2); lemma_pad(f, 3);
    assert(pow10(1) == 10) by (compute); assert(pow10(2) == 100) by (compute); assert(pow10(3) == 1000) by (compute);
    lemma_pad_len(m, 2); lemma_pad_len(s, 2); lemma_pad_len(f, 3);
    if t < 1000 * 3600000 { lemma_pad_len(d, 3); }
    assert(d * 3600000 + m * 60000 + s * 1000 + f == t) by (nonlinear_arith)
        requires d == t / 3600000, m == t / 60000 % 60, s == t % 60000 / 1000, f == t % 60000 % 1000;
}
