//@ source src/adaptation/locations/mod.rs
//@ source src/adaptation/mod.rs
//@ itersrc flatten
//@ source src/lib.rs
//@ use base
//@ use map
//@ use geo
//@ use quant
//@ use multimap
//@ use text
//@ use farith
//@ use fmath
//@ literal src/adaptation/locations/mod.rs Regex::new(r"^([0-9]{1,6})(N|S)([0-9]{2,7})(E|W)$")
//@ literal src/adaptation/locations/mod.rs Regex::new(r"^([0-9A-Z]{2,5})([0-9]{3})([0-9]{3})$")
//@ stubbed quantize coord_regex range_bearing_regex
//@ concat_formats
//@ indexfn captures vx_group
//@ rename parse .vx_parse
//@ rename len .vx_blen
//@ rename split_at_checked .vx_split_at
//@ rename starts_with .vx_starts
//@ results vx_parse
//@ item Fix
//@ item GraphPosition
//@ item NDB noclone
//@ item VOR noclone
//@ item Runway noclone
//@ item Airport noclone
//@ item Location noclone
//@ item Locations noclone
//@ prelude
#[verifier::external_body]
pub struct AirwayGraph { v: u8 }
#[verifier::external_body]
pub struct SID { v: u8 }
#[verifier::external_body]
pub struct STAR { v: u8 }
// ---- geodesy (opaque) ----
pub trait LengthUnit { spec fn unit() -> int; }
pub struct nautical_mile;
pub struct meter;
impl LengthUnit for nautical_mile { open spec fn unit() -> int { 1852 } }
impl LengthUnit for meter { open spec fn unit() -> int { 1 } }
#[verifier::external_body]
pub struct Length { v: f64 }
pub uninterp spec fn length_of(unit: int, x: f64) -> Length;
pub uninterp spec fn length_in(unit: int, l: Length) -> f64;
impl Length {
    #[verifier::external_body]
    pub fn new<U: LengthUnit>(x: f64) -> (r: Length) ensures r == length_of(U::unit(), x) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<U: LengthUnit>(&self) -> (r: f64) ensures r == length_in(U::unit(), *self) { unimplemented!() }
}
pub struct Geodesic;
/// the point reached from p along a bearing for a distance in metres
pub uninterp spec fn destination(p: Point, bearing: f64, metres: f64) -> Point;
impl Geodesic {
    #[verifier::external_body]
    pub fn destination(&self, p: Point, bearing: f64, metres: f64) -> (r: Point) ensures r == destination(p, bearing, metres) { unimplemented!() }
}
pub uninterp spec fn point_xy(x: f64, y: f64) -> Point;
#[verifier::external_body]
pub fn vx_point(x: f64, y: f64) -> (r: Point) ensures r == point_xy(x, y) { unimplemented!() }

// ---- regular expressions (meaning of the pinned patterns is trusted) ----
#[verifier::external_body]
pub struct Captures { v: u8 }
impl Captures { pub uninterp spec fn view(&self) -> Seq<Seq<char>>; }
#[verifier::external_body]
pub fn vx_group(c: &Captures, i: usize) -> (r: &str) requires i < c@.len() ensures r@ == c@[i as int] { unimplemented!() }
#[verifier::external_body]
pub struct CoordRegex { v: u8 }
#[verifier::external_body]
pub struct RangeBearingRegex { v: u8 }
/// s spells latitude digits, N or S, longitude digits, E or W
pub open spec fn coord_form(s: Seq<char>, a: Seq<char>, h: Seq<char>, b: Seq<char>, w: Seq<char>) -> bool {
    &&& s == a + h + b + w
    &&& digits(a) && 1 <= a.len() <= 6 && digits(b) && 2 <= b.len() <= 7
    &&& h.len() == 1 && (h[0] == 'N' || h[0] == 'S') && w.len() == 1 && (w[0] == 'E' || w[0] == 'W')
}
pub open spec fn name_char(c: char) -> bool { '0' <= c <= '9' || 'A' <= c <= 'Z' }
pub open spec fn rb_form(s: Seq<char>, f: Seq<char>, b: Seq<char>, d: Seq<char>) -> bool {
    &&& s == f + b + d
    &&& 2 <= f.len() <= 5 && (forall|i: int| 0 <= i < f.len() ==> name_char(#[trigger] f[i]))
    &&& digits(b) && b.len() == 3 && digits(d) && d.len() == 3
}
impl CoordRegex {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Captures>)
        ensures match r { Some(c) => c@.len() == 5 && coord_form(s@, c@[1], c@[2], c@[3], c@[4]), None => forall|a: Seq<char>, h: Seq<char>, b: Seq<char>, w: Seq<char>| !coord_form(s@, a, h, b, w) },
    { unimplemented!() }
}
impl RangeBearingRegex {
    #[verifier::external_body]
    pub fn captures(&self, s: &str) -> (r: Option<Captures>)
        ensures match r { Some(c) => c@.len() == 4 && rb_form(s@, c@[1], c@[2], c@[3]), None => forall|f: Seq<char>, b: Seq<char>, d: Seq<char>| !rb_form(s@, f, b, d) },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn coord_regex() -> (r: &'static CoordRegex) { unimplemented!() }
#[verifier::external_body]
pub fn range_bearing_regex() -> (r: &'static RangeBearingRegex) { unimplemented!() }

// ---- what names mean ----
/// name and position
pub type Wp = (Seq<char>, Point);
pub open spec fn wp(f: Fix) -> Wp { (f.designator@, f.coordinate) }
pub open spec fn opt(f: Option<Fix>) -> Option<Wp> { match f { Some(f) => Some(wp(f)), None => None } }
pub open spec fn either<T>(a: Option<T>, b: Option<T>) -> Option<T> { match a { Some(x) => Some(x), None => b } }
/// the padded form of coordinate digits; None if an abbreviated part starts with a zero
pub open spec fn padded(a: Seq<char>, short: bool) -> Option<Seq<char>> { if !short { Some(a) } else if a[0] == '0' { None } else { Some(seq!['0'] + a) } }
pub open spec fn lat_digits(a: Seq<char>) -> Option<Seq<char>> { padded(a, a.len() % 2 == 1) }
pub open spec fn lng_digits(b: Seq<char>) -> Option<Seq<char>> { padded(b, b.len() % 2 == 0) }
/// degrees of n digits, then optional minutes and seconds of two digits
pub open spec fn dms(s: Seq<char>, n: int) -> f64 {
    if s.len() == n { fnum(s) }
    else if s.len() == n + 2 { fadd(fnum(s.subrange(0, n)), fdiv(fnum(s.subrange(n, n + 2)), 60.0f64)) }
    else { fadd(fadd(fnum(s.subrange(0, n)), fdiv(fnum(s.subrange(n, n + 2)), 60.0f64)), fdiv(fnum(s.subrange(n + 2, n + 4)), 3600.0f64)) }
}
pub open spec fn one(positive: bool) -> f64 { if positive { 1.0f64 } else { -1.0f64 } }
pub open spec fn coord_of(a: Seq<char>, h: Seq<char>, b: Seq<char>, w: Seq<char>) -> Option<Wp> {
    match (lat_digits(a), lng_digits(b)) {
        (Some(x), Some(y)) => if y.len() == x.len() + 1 { Some((x + h + y + w, point_xy(fmul(one(w[0] == 'E'), dms(y, 3)), fmul(one(h[0] == 'N'), dms(x, 2))))) } else { None },
        _ => None,
    }
}
/// the coordinate a text spells
pub open spec fn coordinate(s: Seq<char>) -> Option<Wp> {
    if exists|a: Seq<char>, h: Seq<char>, b: Seq<char>, w: Seq<char>| coord_form(s, a, h, b, w) {
        let (a, h, b, w) = choose|a: Seq<char>, h: Seq<char>, b: Seq<char>, w: Seq<char>| coord_form(s, a, h, b, w);
        coord_of(a, h, b, w)
    } else { None }
}
pub open spec fn rwy_hit(ad: Seq<char>, r: Runway, d: Seq<char>) -> Option<Wp> {
    if r.designators.0@ == d { Some((ad + d, r.location.0)) } else if r.designators.1@ == d { Some((ad + d, r.location.1)) } else { None }
}
pub open spec fn rwy_first(ad: Seq<char>, rs: Seq<Runway>, d: Seq<char>) -> Option<Wp> decreases rs.len()
{ if rs.len() == 0 { None } else { either(rwy_hit(ad, rs[0], d), rwy_first(ad, rs.skip(1), d)) } }
impl Locations {
    pub open spec fn wf(&self) -> bool { true }
    pub open spec fn threshold(&self, s: Seq<char>) -> Option<Wp> {
        if 6 <= blen(s) <= 7 {
            match split_at(s, 4) {
                Some((a, d)) => if self.airports@.contains_key(a) { let ap = self.airports@[a]; rwy_first(ap.designator@, ap.runways@, d) } else { None },
                None => None,
            }
        } else { None }
    }
    pub open spec fn named(&self, s: Seq<char>) -> Option<Wp> {
        if self.vors@.contains_key(s) { Some((self.vors@[s][0].designator@, self.vors@[s][0].coordinate)) }
        else if self.ndbs@.contains_key(s) { Some((self.ndbs@[s][0].designator@, self.ndbs@[s][0].coordinate)) }
        else if self.fixes@.contains_key(s) { Some(wp(self.fixes@[s][0])) }
        else if self.airports@.contains_key(s) { Some((self.airports@[s].designator@, self.airports@[s].coordinate)) }
        else { self.threshold(s) }
    }
    pub open spec fn from_known(&self, s: Seq<char>) -> Option<Wp> {
        if exists|f: Seq<char>, b: Seq<char>, d: Seq<char>| rb_form(s, f, b, d) {
            let (f, b, d) = choose|f: Seq<char>, b: Seq<char>, d: Seq<char>| rb_form(s, f, b, d);
            match self.named(f) { Some(p) => Some((s, destination(p.1, fnum(b), length_in(1, length_of(1852, fnum(d)))))), None => None }
        } else { None }
    }
    pub open spec fn resolve(&self, s: Seq<char>) -> Option<Wp> { either(either(self.named(s), coordinate(s)), self.from_known(s)) }
}
//@ lemmas
/// a text has at most one reading as a coordinate
pub proof fn lemma_coord_unique(s: Seq<char>, a: Seq<char>, h: Seq<char>, b: Seq<char>, w: Seq<char>, a2: Seq<char>, h2: Seq<char>, b2: Seq<char>, w2: Seq<char>)
    requires coord_form(s, a, h, b, w), coord_form(s, a2, h2, b2, w2),
    ensures a == a2, h == h2, b == b2, w == w2,
{
    assert(!digit(s[a.len() as int])) by { assert(s[a.len() as int] == h[0]); }
    assert(!digit(s[a2.len() as int])) by { assert(s[a2.len() as int] == h2[0]); }
    if a.len() < a2.len() { assert(s[a.len() as int] == a2[a.len() as int]); assert(digit(a2[a.len() as int])); }
    if a2.len() < a.len() { assert(s[a2.len() as int] == a[a2.len() as int]); assert(digit(a[a2.len() as int])); }
    assert(a.len() == a2.len());
    assert(s.len() == a.len() + 1 + b.len() + 1);
    assert(s.len() == a2.len() + 1 + b2.len() + 1);
    assert(a =~= s.subrange(0, a.len() as int)); assert(a2 =~= s.subrange(0, a.len() as int));
    assert(h =~= s.subrange(a.len() as int, a.len() as int + 1)); assert(h2 =~= s.subrange(a.len() as int, a.len() as int + 1));
    assert(b =~= s.subrange(a.len() as int + 1, s.len() - 1)); assert(b2 =~= s.subrange(a.len() as int + 1, s.len() - 1));
    assert(w =~= s.subrange(s.len() - 1, s.len() as int)); assert(w2 =~= s.subrange(s.len() - 1, s.len() as int));
}
pub proof fn lemma_coordinate(s: Seq<char>, a: Seq<char>, h: Seq<char>, b: Seq<char>, w: Seq<char>)
    requires coord_form(s, a, h, b, w),
    ensures coordinate(s) == coord_of(a, h, b, w),
{
    let (a2, h2, b2, w2) = choose|a: Seq<char>, h: Seq<char>, b: Seq<char>, w: Seq<char>| coord_form(s, a, h, b, w);
    lemma_coord_unique(s, a, h, b, w, a2, h2, b2, w2);
}
pub proof fn lemma_from_known(l: Locations, s: Seq<char>, f: Seq<char>, b: Seq<char>, d: Seq<char>)
    requires rb_form(s, f, b, d),
    ensures l.from_known(s) == (match l.named(f) { Some(p) => Some((s, destination(p.1, fnum(b), length_in(1, length_of(1852, fnum(d)))))), None => None }),
{
    let (f2, b2, d2) = choose|f: Seq<char>, b: Seq<char>, d: Seq<char>| rb_form(s, f, b, d);
    assert(s.len() == f.len() + 6 && s.len() == f2.len() + 6);
    assert(f2.len() == f.len());
    assert(f =~= s.subrange(0, f.len() as int)); assert(f2 =~= s.subrange(0, f.len() as int));
    assert(b =~= s.subrange(f.len() as int, f.len() as int + 3)); assert(b2 =~= s.subrange(f.len() as int, f.len() as int + 3));
    assert(d =~= s.subrange(f.len() as int + 3, f.len() as int + 6)); assert(d2 =~= s.subrange(f.len() as int + 3, f.len() as int + 6));
}
pub proof fn lemma_pad(a: Seq<char>)
    ensures digits(a) ==> digits(seq!['0'] + a), (seq!['0'] + a).len() == a.len() + 1, Seq::<char>::empty() + seq!['0'] + a == seq!['0'] + a,
{
    if digits(a) { assert forall|i: int| 0 <= i < a.len() + 1 implies digit(#[trigger] (seq!['0'] + a)[i]) by { if i > 0 { assert((seq!['0'] + a)[i] == a[i - 1]); } } }
    assert(Seq::<char>::empty() + seq!['0'] + a =~= seq!['0'] + a);
}
/// the hemispheres and precisions of the rule: a coordinate is what its padded digits spell, with both parts in the same precision
proof fn theorem_padding(a: Seq<char>, h: Seq<char>, b: Seq<char>, w: Seq<char>)
    requires coord_form(a + h + b + w, a, h, b, w), coord_of(a, h, b, w) is Some,
    ensures ({ let x = lat_digits(a)->0; let y = lng_digits(b)->0;
        &&& (x.len() == 2 && y.len() == 3) || (x.len() == 4 && y.len() == 5) || (x.len() == 6 && y.len() == 7)
        &&& digits(x) && digits(y)
        &&& (coord_of(a, h, b, w)->0).0 == x + h + y + w
        // the designator spells the same coordinate again
        &&& coord_of(x, h, y, w) == coord_of(a, h, b, w) }),
{
    let x = lat_digits(a)->0; let y = lng_digits(b)->0;
    assert forall|i: int| 0 <= i < x.len() implies digit(#[trigger] x[i]) by { if x.len() > a.len() { if i > 0 { assert(x[i] == a[i - 1]); } } else { assert(x[i] == a[i]); } }
    assert forall|i: int| 0 <= i < y.len() implies digit(#[trigger] y[i]) by { if y.len() > b.len() { if i > 0 { assert(y[i] == b[i - 1]); } } else { assert(y[i] == b[i]); } }
    assert(x.len() % 2 == 0 && y.len() % 2 == 1);
    assert(2 <= x.len() <= 6);
}
/// names reported known are exactly those that resolve by name or runway
proof fn theorem_known_resolves(l: Locations, s: Seq<char>)
    ensures l.named(s) is Some ==> l.resolve(s) == l.named(s), l.named(s) is None ==> l.resolve(s) == either(coordinate(s), l.from_known(s)),
{ }
//@ fn Locations::convert_location
//@ spec
ensures ret == (match *loc { Location::Coordinate(p) => Some(p), Location::Fix(n) => match self.resolve(n@) { Some(w) => Some(w.1), None => None } }),
//@ fn Locations::convert_range_bearing
//@ floats
//@ spec
ensures opt(ret) == self.from_known(designator@),
//@ at let:captures
proof { lemma_from_known(*self, designator@, captures@[1], captures@[2], captures@[3]); }
//@ fn Locations::convert_coordinate
//@ floats
//@ spec
ensures opt(ret) == coordinate(designator@),
//@ at let:captures
proof { lemma_coordinate(designator@, captures@[1], captures@[2], captures@[3], captures@[4]); lemma_blen(captures@[1]); lemma_blen(captures@[3]); reveal_strlit("0"); reveal_strlit("N"); reveal_strlit("E"); assert("0"@ =~= seq!['0']); assert("N"@ =~= seq!['N']); assert("E"@ =~= seq!['E']); }
//@ at let:normalised_lat_str
proof { lemma_pad(captures@[1]); lemma_blen(normalised_lat_str@); assert(Some(normalised_lat_str@) == lat_digits(captures@[1])); }
//@ at let:normalised_lng_str
proof { lemma_pad(captures@[3]); lemma_blen(normalised_lng_str@); assert(Some(normalised_lng_str@) == lng_digits(captures@[3])); }
//@ at let:w_e
proof { axiom_str_ext(w_e, "E"); axiom_str_ext(n_s, "N"); assert((w_e@ == seq!['E']) == (w_e@[0] == 'E')) by { if w_e@[0] == 'E' { assert(w_e@ =~= seq!['E']); } } assert((n_s@ == seq!['N']) == (n_s@[0] == 'N')) by { if n_s@[0] == 'N' { assert(n_s@ =~= seq!['N']); } } }
//@ fn Locations::convert_rwy  loops=1
//@ spec
ensures opt(ret) == self.threshold(designator@),
//@ at loop0.before
proof { assert(airport.runways@.skip(0) =~= airport.runways@); }
//@ loop 0
    g0 == seq_refs(airport.runways@),
    rwy_first(airport.designator@, airport.runways@, rwy_designator@) == either(opt(r0), rwy_first(airport.designator@, airport.runways@.skip(it0.pos()), rwy_designator@)),
//@ at loop0.start
broadcast use group_string_eq;
let ghost rest = airport.runways@.skip(it0.pos() - 1);
proof { assert(rest[0] == airport.runways@[it0.pos() - 1]); assert(rest.skip(1) =~= airport.runways@.skip(it0.pos())); }
//@ at loop0.end
proof { let a = airport.designator@; let d = rwy_designator@;
    assert(Seq::<char>::empty() + a =~= a);
    let r = rest[0];
    assert(a + d =~= Seq::<char>::empty() + a + d);
    assert(opt(r0) == rwy_hit(a, r, d)); }
//@ fn Locations::convert_fix
//@ spec
ensures opt(ret) == self.named(designator@),
//@ fn Locations::convert_designator
//@ spec
ensures opt(ret) == self.resolve(designator@),
//@ fn Locations::contains_designator
//@ spec
ensures ret == (self.named(designator@) is Some),
//@ fn Locations::contains_nav_element  loops=3
//@ spec
ensures
    ret == {
        let d = designator@; let q = position.0.quant();
        ||| exists|i: int| 0 <= i < self.vors.all(d).len() && (#[trigger] self.vors.all(d)[i]).coordinate.quant() == q
        ||| exists|i: int| 0 <= i < self.ndbs.all(d).len() && (#[trigger] self.ndbs.all(d)[i]).coordinate.quant() == q
        ||| exists|i: int| 0 <= i < self.fixes.all(d).len() && (#[trigger] self.fixes.all(d)[i]).coordinate.quant() == q
    },
//@ at loop0.before
proof { broadcast use lemma_flat_one; assert(g0 =~= seq_refs(self.vors.all(designator@))); }
//@ loop 0
    g0 == seq_refs(self.vors.all(designator@)), other@ == position.0.quant(),
    r0 == exists|i: int| 0 <= i < it0.pos() && (#[trigger] self.vors.all(designator@)[i]).coordinate.quant() == position.0.quant(),
//@ at loop0.start
proof { assert(g0[it0.pos() - 1] == &self.vors.all(designator@)[it0.pos() - 1]); }
//@ at loop1.before
proof { broadcast use lemma_flat_one; assert(g1 =~= seq_refs(self.ndbs.all(designator@))); }
//@ loop 1
    g1 == seq_refs(self.ndbs.all(designator@)), other@ == position.0.quant(),
    r1 == exists|i: int| 0 <= i < it1.pos() && (#[trigger] self.ndbs.all(designator@)[i]).coordinate.quant() == position.0.quant(),
//@ at loop1.start
proof { assert(g1[it1.pos() - 1] == &self.ndbs.all(designator@)[it1.pos() - 1]); }
//@ at loop2.before
proof { broadcast use lemma_flat_one; assert(g2 =~= seq_refs(self.fixes.all(designator@))); }
//@ loop 2
    g2 == seq_refs(self.fixes.all(designator@)), other@ == position.0.quant(),
    r2 == exists|i: int| 0 <= i < it2.pos() && (#[trigger] self.fixes.all(designator@)[i]).coordinate.quant() == position.0.quant(),
//@ at loop2.start
proof { assert(g2[it2.pos() - 1] == &self.fixes.all(designator@)[it2.pos() - 1]); }
