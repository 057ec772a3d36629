//@ source src/adaptation/sct_items.rs
//@ source src/sct.rs
//@ source src/lib.rs
//@ source src/topsky/map/mod.rs
//@ use base
//@ use map
//@ use multimap
//@ use set
//@ use text
//@ concat_formats
//@ rename clone .vx_dup
//@ tyrename crate::sct::ColouredLines SctLines
//@ item src/lib.rs#Location noclone
//@ item Airway noclone
//@ item src/adaptation/colours.rs#Colour
//@ item MapLine noclone
//@ item src/sct.rs#ColouredLines noclone sub=ColouredLines:SctLines
//@ item Sid noclone sub=ColouredLines:SctLines
//@ item Star noclone sub=ColouredLines:SctLines
//@ item Artcc noclone sub=ColouredLines:SctLines
//@ item Geo noclone sub=ColouredLines:SctLines
//@ item src/sct.rs#Region noclone
//@ item src/sct.rs#Label noclone
//@ item Sct noclone
//@ item src/adaptation/sct_items.rs#ColouredLines noclone
//@ item SctItems noclone
//@ stubbed Colours::get Locations::convert_location
//@ prelude
#[derive(Clone, Copy)] pub struct Coord { pub x: f64, pub y: f64 }
#[derive(Clone, Copy)] pub struct Point(pub Coord);
#[derive(Clone, Copy)] pub struct Line { pub start: Coord, pub end: Coord }
pub struct LineString(pub Vec<Coord>);
pub struct MultiLineString(pub Vec<LineString>);
impl Line { pub fn new(a: Point, b: Point) -> (r: Line) ensures r == (Line { start: a.0, end: b.0 }) { Line { start: a.0, end: b.0 } } }
impl LineString { pub fn new(v: Vec<Coord>) -> (r: Self) ensures r.0 == v { LineString(v) } }
impl MultiLineString { pub fn new(v: Vec<LineString>) -> (r: Self) ensures r.0 == v { MultiLineString(v) } }
// parts of the file these functions do not look at
#[verifier::external_body] pub struct SctInfo { v: u8 }
#[verifier::external_body] pub struct Airport { v: u8 }
#[verifier::external_body] pub struct Fix { v: u8 }
#[verifier::external_body] pub struct NDB { v: u8 }
#[verifier::external_body] pub struct VOR { v: u8 }
#[verifier::external_body] pub struct Runway { v: u8 }
#[verifier::external_body] pub struct Settings { v: u8 }
pub struct MapColours { pub sid: Colour }
pub struct Colours { pub map: MapColours, pub v: u8 }
impl Colours {
    /// the colour of a name (C14)
    pub uninterp spec fn of(&self, name: Seq<char>, s: Settings) -> Option<Colour>;
    #[verifier::external_body] pub fn get(&self, name: &str, s: &Settings) -> (r: Option<Colour>) ensures r == self.of(name@, *s) { unimplemented!() }
}
/// are two positions equal as numbers?
pub uninterp spec fn same_pt(a: Point, b: Point) -> bool;
/// Itertools::dedup: no element equal to the one kept before it
pub open spec fn deduped(s: Seq<Point>, n: int) -> Seq<Point> decreases n { if n <= 0 { seq![] } else { let d = deduped(s, n - 1); if d.len() > 0 && same_pt(d.last(), s[n - 1]) { d } else { d.push(s[n - 1]) } } }
impl VxIter<Point> { #[verifier::external_body] pub fn vx_dedup(self) -> (r: VxIter<Point>) ensures r.pos() == 0, r@ == deduped(self@, self@.len() as int) { unimplemented!() } }
pub open spec fn coords(s: Seq<Point>) -> Seq<Coord> { Seq::new(s.len(), |i: int| s[i].0) }
impl VxFrom<Point> for LineString { open spec fn vx_is(s: Seq<Point>, r: Self) -> bool { r.0@ == coords(s) } #[verifier::external_body] fn vx_from(v: Vec<Point>) -> (r: Self) { unimplemented!() } }
impl VxFrom<LineString> for MultiLineString { open spec fn vx_is(s: Seq<LineString>, r: Self) -> bool { r.0@ == s } fn vx_from(v: Vec<LineString>) -> (r: Self) { MultiLineString(v) } }
impl LineString { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0) { unimplemented!() } }
impl MultiLineString { #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).0@.len() == 0) { unimplemented!() } }
#[verifier::external_body] pub struct Locations { v: u8 }
impl Locations {
    /// where a location lies, if it resolves (C03)
    pub uninterp spec fn at(&self, l: Location) -> Option<Point>;
    #[verifier::external_body] pub fn convert_location(&self, l: &Location) -> (r: Option<Point>) ensures r == self.at(*l) { unimplemented!() }
}
/// decimal text with that many digits after the point: it has no letters x and y
pub uninterp spec fn fixed(v: f64, n: int) -> Seq<char>;
pub axiom fn axiom_fixed(v: f64, n: int) ensures forall|i: int| 0 <= i < fixed(v, n).len() ==> #[trigger] fixed(v, n)[i] != 'x' && fixed(v, n)[i] != 'y';
#[verifier::external_body]
pub fn vx_push_fixed(s: &mut String, v: &f64, n: usize) ensures final(s)@ == old(s)@ + fixed(*v, n as int) { unimplemented!() }
/// the place a coordinate stands for: its six-decimal text
pub open spec fn ck(c: Coord) -> Seq<char> { (seq!['x'] + fixed(c.x, 6)) + (seq!['y'] + fixed(c.y, 6)) }
pub open spec fn lk(l: Line) -> Seq<char> { ck(l.start) + ck(l.end) }
pub proof fn lemma_ck(c: Coord) ensures ck(c).len() >= 2, ck(c)[0] == 'x', forall|i: int| 1 <= i < ck(c).len() ==> #[trigger] ck(c)[i] != 'x'
{
    axiom_fixed(c.x, 6); axiom_fixed(c.y, 6);
    let (p, q) = (fixed(c.x, 6), fixed(c.y, 6));
    assert forall|i: int| 1 <= i < ck(c).len() implies #[trigger] ck(c)[i] != 'x' by {
        if i < 1 + p.len() { assert(ck(c)[i] == p[i - 1]); } else if i == 1 + p.len() { assert(ck(c)[i] == 'y'); } else { assert(ck(c)[i] == q[i - 2 - p.len()]); }
    }
}
/// the text of a line tells its ends
pub proof fn lemma_lk(a: Coord, b: Coord, c: Coord, d: Coord) requires ck(a) + ck(b) == ck(c) + ck(d) ensures ck(a) == ck(c), ck(b) == ck(d)
{
    lemma_ck(a); lemma_ck(b); lemma_ck(c); lemma_ck(d);
    let s = ck(a) + ck(b); let t = ck(c) + ck(d); let (m, n) = (ck(a).len() as int, ck(c).len() as int);
    if m < n { assert(s[m] == ck(b)[0]); assert(t[m] == ck(c)[m]); }
    if n < m { assert(t[n] == ck(d)[0]); assert(s[n] == ck(a)[n]); }
    assert(ck(a) =~= s.subrange(0, m)); assert(ck(c) =~= t.subrange(0, m));
    assert(ck(b) =~= s.subrange(m, s.len() as int)); assert(ck(d) =~= t.subrange(m, s.len() as int));
}
/// the polyline has that line (given by its text) as its i-th segment, in either direction
pub open spec fn shown(p: Seq<Coord>, i: int, h: Seq<char>) -> bool { 0 <= i < p.len() - 1 && (h == ck(p[i]) + ck(p[i + 1]) || h == ck(p[i + 1]) + ck(p[i])) }
pub open spec fn listed(m: Map<Seq<char>, Seq<Line>>, h: Seq<char>) -> bool { exists|k: Seq<char>, j: int| m.contains_key(k) && 0 <= j < m[k].len() && lk(#[trigger] m[k][j]) == h }
pub open spec fn covers(u: Set<Seq<char>>, m: Map<Seq<char>, Seq<Line>>) -> bool { forall|h: Seq<char>| #[trigger] listed(m, h) ==> u.contains(h) }
/// each line is listed at both its ends
pub open spec fn adjacent(m: Map<Seq<char>, Seq<Line>>) -> bool {
    (exists|u: Set<Seq<char>>| covers(u, m)) && forall|k: Seq<char>, j: int| m.contains_key(k) && 0 <= j < m[k].len() ==> ck((#[trigger] m[k][j]).start) == k || ck(m[k][j].end) == k
}
pub open spec fn universe(m: Map<Seq<char>, Seq<Line>>) -> Set<Seq<char>> { choose|u: Set<Seq<char>>| covers(u, m) }
/// every line that became visited is on the path
pub open spec fn walked(p: Seq<Coord>, v: Set<Seq<char>>, w: Set<Seq<char>>) -> bool { v.subset_of(w) && forall|h: Seq<char>| #[trigger] w.contains(h) && !v.contains(h) ==> exists|i: int| #[trigger] shown(p, i, h) }
/// every segment of the path is a line of the table
pub open spec fn on_file(p: Seq<Coord>, i: int, m: Map<Seq<char>, Seq<Line>>) -> bool { exists|h: Seq<char>| #[trigger] shown(p, i, h) && listed(m, h) }
pub open spec fn real(p: Seq<Coord>, m: Map<Seq<char>, Seq<Line>>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] on_file(p, i, m) }
/// a path with one more line before it
pub proof fn lemma_front(p: Seq<Coord>, q: Seq<Coord>, c: Coord, l: Line, m: Map<Seq<char>, Seq<Line>>, v: Set<Seq<char>>, w: Set<Seq<char>>)
    requires p.len() >= 1, q =~= seq![c] + p, walked(p, v.insert(lk(l)), w), real(p, m), listed(m, lk(l)), ck(l.start) == ck(c) && ck(l.end) == ck(p[0]) || ck(l.end) == ck(c) && ck(l.start) == ck(p[0]),
    ensures walked(q, v, w), real(q, m), shown(q, 0, lk(l)),
{
    assert(shown(q, 0, lk(l)));
    assert forall|h: Seq<char>| #[trigger] w.contains(h) && !v.contains(h) implies exists|i: int| #[trigger] shown(q, i, h) by {
        if h != lk(l) { let i = choose|i: int| #[trigger] shown(p, i, h); assert(q[i + 1] == p[i] && q[i + 2] == p[i + 1]); assert(shown(q, i + 1, h)); }
    }
    assert forall|i: int| 0 <= i < q.len() - 1 implies #[trigger] on_file(q, i, m) by {
        if i > 0 { assert(on_file(p, i - 1, m)); let h = choose|h: Seq<char>| #[trigger] shown(p, i - 1, h) && listed(m, h); assert(q[i] == p[i - 1] && q[i + 1] == p[i]); assert(shown(q, i, h)); }
    }
    assert forall|h: Seq<char>| #[trigger] v.contains(h) implies w.contains(h) by { assert(v.insert(lk(l)).contains(h)); }
}
pub proof fn lemma_less(m: Map<Seq<char>, Seq<Line>>, v: Set<Seq<char>>, h: Seq<char>) requires adjacent(m), listed(m, h), !v.contains(h)
    ensures universe(m).difference(v.insert(h)).len() < universe(m).difference(v).len()
{
    let u = universe(m);
    assert(u.contains(h));
    assert(u.difference(v.insert(h)) =~= u.difference(v).remove(h));
}
/// the line of an airway segment, if both its ends resolve
pub open spec fn line_of(l: Locations, a: Airway) -> Option<Line> { match (l.at(a.start), l.at(a.end)) { (Some(s), Some(e)) => Some(Line { start: s.0, end: e.0 }), _ => None } }
pub open spec fn lines_of(l: Locations, s: Seq<Airway>, n: int) -> Seq<Line> decreases n { if n <= 0 { seq![] } else { match line_of(l, s[n - 1]) { Some(x) => lines_of(l, s, n - 1).push(x), None => lines_of(l, s, n - 1) } } }
pub open spec fn between(p: Seq<Coord>, i: int, l: Line) -> bool { 0 <= i < p.len() - 1 && (ck(p[i]) == ck(l.start) && ck(p[i + 1]) == ck(l.end) || ck(p[i]) == ck(l.end) && ck(p[i + 1]) == ck(l.start)) }
/// every line is a segment of some polyline, and every segment is a line
pub open spec fn draws(r: Seq<LineString>, l: Seq<Line>) -> bool {
    &&& forall|j: int| 0 <= j < l.len() ==> drawn_line(r, #[trigger] l[j])
    &&& forall|n: int| 0 <= n < r.len() ==> only((#[trigger] r[n]).0@, l) && r[n].0@.len() >= 2
}
pub open spec fn drawn_line(r: Seq<LineString>, x: Line) -> bool { exists|n: int, i: int| 0 <= n < r.len() && #[trigger] between(r[n].0@, i, x) }
pub open spec fn covered(p: Seq<Coord>, i: int, l: Seq<Line>) -> bool { exists|j: int| 0 <= j < l.len() && between(p, i, #[trigger] l[j]) }
pub open spec fn only(p: Seq<Coord>, l: Seq<Line>) -> bool { forall|i: int| 0 <= i < p.len() - 1 ==> #[trigger] covered(p, i, l) }
pub open spec fn paired(p: Seq<(String, Line)>, l: Seq<Line>, n: int) -> bool { p.len() >= 2 * n && forall|i: int| 0 <= i < n ==> #[trigger] l[i] == p[2 * i].1 && p[2 * i].0@ == ck(l[i].start) && p[2 * i + 1].0@ == ck(l[i].end) && p[2 * i + 1].1 == l[i] }
/// the table lists exactly those lines
pub open spec fn held(m: Map<Seq<char>, Seq<Line>>, l: Seq<Line>) -> bool { (forall|h: Seq<char>| #[trigger] listed(m, h) ==> exists|j: int| 0 <= j < l.len() && lk(#[trigger] l[j]) == h) && forall|j: int| 0 <= j < l.len() ==> listed(m, lk(#[trigger] l[j])) }
pub open spec fn seen(r: Seq<LineString>, h: Seq<char>) -> bool { exists|n: int, i: int| 0 <= n < r.len() && #[trigger] shown(r[n].0@, i, h) }
/// what is drawn after the first n lines
pub open spec fn draws_so_far(r: Seq<LineString>, v: Set<Seq<char>>, m: Map<Seq<char>, Seq<Line>>, l: Seq<Line>, n: int) -> bool {
    &&& forall|h: Seq<char>| #[trigger] v.contains(h) ==> seen(r, h)
    &&& forall|j: int| 0 <= j < n ==> v.contains(lk(#[trigger] l[j]))
    &&& forall|k: int| 0 <= k < r.len() ==> real((#[trigger] r[k]).0@, m) && r[k].0@.len() >= 2
}
pub proof fn lemma_adjacent(p: Seq<(String, Line)>, l: Seq<Line>) requires paired(p, l, l.len() as int), p.len() == 2 * l.len() ensures adjacent(mm_built(p)), held(mm_built(p), l)
{
    let m = mm_built(p); lemma_mm_holds(p);
    assert forall|i: int| 0 <= i < p.len() implies (ck((#[trigger] p[i]).1.start) == p[i].0@ || ck(p[i].1.end) == p[i].0@) && p[i].1 == l[i / 2] by { let j = i / 2; assert(l[j] == p[2 * j].1); assert(i == 2 * j || i == 2 * j + 1); }
    assert forall|h: Seq<char>| #[trigger] listed(m, h) implies exists|j: int| 0 <= j < l.len() && lk(#[trigger] l[j]) == h by {
        let (k, j) = choose|k: Seq<char>, j: int| m.contains_key(k) && 0 <= j < m[k].len() && lk(#[trigger] m[k][j]) == h;
        assert(mm_pair(p, k, m[k][j])); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0.vkey() == k && p[i].1 == m[k][j]; assert(lk(l[i / 2]) == h);
    }
    assert forall|j: int| 0 <= j < l.len() implies listed(m, lk(#[trigger] l[j])) by { let i = 2 * j; assert(l[j] == p[i].1); let k = p[i].0.vkey(); assert(m[k].contains(p[i].1)); let q = choose|q: int| 0 <= q < m[k].len() && m[k][q] == p[i].1; assert(lk(m[k][q]) == lk(l[j])); }
    assert forall|k: Seq<char>, j: int| m.contains_key(k) && 0 <= j < m[k].len() implies ck((#[trigger] m[k][j]).start) == k || ck(m[k][j].end) == k by { assert(mm_pair(p, k, m[k][j])); let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0.vkey() == k && p[i].1 == m[k][j]; }
    let t = l.map_values(|x: Line| lk(x)); let u = t.to_set();
    assert forall|h: Seq<char>| #[trigger] listed(m, h) implies u.contains(h) by { let j = choose|j: int| 0 <= j < l.len() && lk(#[trigger] l[j]) == h; assert(t[j] == h); assert(t.contains(h)); }
    assert(covers(u, m));
}
pub proof fn lemma_draw(r: Seq<LineString>, r2: Seq<LineString>, p: Seq<Coord>, v: Set<Seq<char>>, w: Set<Seq<char>>, m: Map<Seq<char>, Seq<Line>>, l: Seq<Line>, n: int)
    requires draws_so_far(r, v, m, l, n), 0 <= n < l.len(), r2.len() == r.len() + 1, r2.drop_last() =~= r, r2.last().0@ =~= seq![l[n].start] + p, p.len() >= 1, p[0] == l[n].end, walked(p, v.insert(lk(l[n])), w), real(p, m), held(m, l),
    ensures draws_so_far(r2, w, m, l, n + 1),
{
    let q = r2.last().0@; let x = l[n];
    lemma_front(p, q, x.start, x, m, v, w);
    assert forall|h: Seq<char>| #[trigger] w.contains(h) implies seen(r2, h) by {
        if v.contains(h) { let (k, i) = choose|k: int, i: int| 0 <= k < r.len() && #[trigger] shown(r[k].0@, i, h); assert(r2[k] == r2.drop_last()[k]); assert(shown(r2[k].0@, i, h)); }
        else { let i = choose|i: int| #[trigger] shown(q, i, h); assert(shown(r2[r.len() as int].0@, i, h)); }
    }
    assert(v.insert(lk(x)).contains(lk(x)));
    assert forall|j: int| 0 <= j < n + 1 implies w.contains(lk(#[trigger] l[j])) by { if j < n { assert(v.contains(lk(l[j]))); } }
    assert forall|k: int| 0 <= k < r2.len() implies real((#[trigger] r2[k]).0@, m) && r2[k].0@.len() >= 2 by { if k < r.len() { assert(r2.drop_last()[k] == r[k]); } }
}
pub proof fn lemma_draws(r: Seq<LineString>, v: Set<Seq<char>>, m: Map<Seq<char>, Seq<Line>>, l: Seq<Line>) requires draws_so_far(r, v, m, l, l.len() as int), held(m, l) ensures draws(r, l)
{
    assert forall|j: int| 0 <= j < l.len() implies drawn_line(r, #[trigger] l[j]) by {
        let h = lk(l[j]); assert(v.contains(h)); assert(seen(r, h)); let (n, i) = choose|n: int, i: int| 0 <= n < r.len() && #[trigger] shown(r[n].0@, i, h); lemma_between(r[n].0@, i, l[j]);
    }
    assert forall|n: int| 0 <= n < r.len() implies only((#[trigger] r[n]).0@, l) by {
        let p = r[n].0@; 
        assert forall|i: int| 0 <= i < p.len() - 1 implies #[trigger] covered(p, i, l) by { assert(on_file(p, i, m)); let h = choose|h: Seq<char>| #[trigger] shown(p, i, h) && listed(m, h); let j = choose|j: int| 0 <= j < l.len() && lk(#[trigger] l[j]) == h; lemma_between(p, i, l[j]); }
    }
}
pub proof fn lemma_between(p: Seq<Coord>, i: int, l: Line) requires shown(p, i, lk(l)) ensures between(p, i, l)
{ if lk(l) == ck(p[i]) + ck(p[i + 1]) { lemma_lk(l.start, l.end, p[i], p[i + 1]); } else { lemma_lk(l.start, l.end, p[i + 1], p[i]); } }
// ---- the other drawings ----
/// the places of a line that resolve
pub open spec fn places(l: Locations, s: Seq<Location>, n: int) -> Seq<Point> decreases n { if n <= 0 { seq![] } else { match l.at(s[n - 1]) { Some(p) => places(l, s, n - 1).push(p), None => places(l, s, n - 1) } } }
pub open spec fn poly(l: Locations, m: MapLine) -> Seq<Coord> { let p = places(l, m.points@, m.points@.len() as int); coords(deduped(p, p.len() as int)) }
pub open spec fn polys(l: Locations, s: Seq<MapLine>, n: int) -> Seq<Seq<Coord>> decreases n { if n <= 0 { seq![] } else if poly(l, s[n - 1]).len() == 0 { polys(l, s, n - 1) } else { polys(l, s, n - 1).push(poly(l, s[n - 1])) } }
/// a group of lines: its colour and its polylines
pub struct GV { pub colour: Colour, pub lines: Seq<Seq<Coord>> }
pub open spec fn views(s: Seq<LineString>) -> Seq<Seq<Coord>> { Seq::new(s.len(), |i: int| s[i].0@) }
pub open spec fn gv(c: ColouredLines) -> GV { GV { colour: c.colour, lines: views(c.lines.0@) } }
pub open spec fn colour_v(c: Colours, s: Settings, n: Option<String>) -> Colour { match n { Some(x) => match c.of(x@, s) { Some(y) => y, None => c.map.sid }, None => c.map.sid } }
pub open spec fn group_v(l: Locations, c: Colours, s: Settings, g: SctLines) -> Option<GV> { let p = polys(l, g.lines@, g.lines@.len() as int); if p.len() == 0 { None } else { Some(GV { colour: colour_v(c, s, g.colour_name), lines: p }) } }
// ---- collected by name ----
pub trait Titled: Sized { spec fn title(self) -> Seq<char>; }
impl Titled for Airway { open spec fn title(self) -> Seq<char> { self.designator@ } }
impl Titled for Region { open spec fn title(self) -> Seq<char> { self.name@ } }
impl Titled for Label { open spec fn title(self) -> Seq<char> { self.name@ } }
impl Titled for Sid { open spec fn title(self) -> Seq<char> { self.name@ } }
impl Titled for Star { open spec fn title(self) -> Seq<char> { self.name@ } }
impl Titled for Artcc { open spec fn title(self) -> Seq<char> { self.name@ } }
impl Titled for Geo { open spec fn title(self) -> Seq<char> { self.name@ } }
pub trait Drawing: Titled { spec fn groups(self) -> Seq<SctLines>; }
impl Drawing for Sid { open spec fn groups(self) -> Seq<SctLines> { self.line_groups@ } }
impl Drawing for Star { open spec fn groups(self) -> Seq<SctLines> { self.line_groups@ } }
impl Drawing for Artcc { open spec fn groups(self) -> Seq<SctLines> { self.line_groups@ } }
impl Drawing for Geo { open spec fn groups(self) -> Seq<SctLines> { self.line_groups@ } }
/// the records of one name, in file order
pub open spec fn of_title<T: Titled>(s: Seq<T>, k: Seq<char>, n: int) -> Seq<T> decreases n { if n <= 0 { seq![] } else if s[n - 1].title() == k { of_title(s, k, n - 1).push(s[n - 1]) } else { of_title(s, k, n - 1) } }
/// every record under its name
pub open spec fn by_title<T: Titled>(m: Map<Seq<char>, Seq<T>>, s: Seq<T>) -> bool { forall|k: Seq<char>| #![trigger m.contains_key(k)] #![trigger of_title(s, k, s.len() as int)] m.contains_key(k) == (of_title(s, k, s.len() as int).len() > 0) && (m.contains_key(k) ==> m[k] == of_title(s, k, s.len() as int)) }
pub open spec fn titled<T: Titled>(p: Seq<(String, T)>, s: Seq<T>, n: int) -> bool { p.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] p[i]).0@ == s[i].title() && p[i].1 == s[i] }
pub proof fn lemma_titled_at<T: Titled>(p: Seq<(String, T)>, s: Seq<T>, k: Seq<char>, n: int) requires titled(p, s, s.len() as int), 0 <= n <= s.len() ensures mm_with(p, k, n) == of_title(s, k, n) decreases n { if n > 0 { lemma_titled_at(p, s, k, n - 1); assert(p[n - 1].0.vkey() == p[n - 1].0@); } }
pub proof fn lemma_titled<T: Titled>(p: Seq<(String, T)>, s: Seq<T>) requires titled(p, s, s.len() as int) ensures by_title(mm_built(p), s)
{ let m = mm_built(p); assert forall|k: Seq<char>| #![trigger m.contains_key(k)] m.contains_key(k) == (of_title(s, k, s.len() as int).len() > 0) && (m.contains_key(k) ==> m[k] == of_title(s, k, s.len() as int)) by { lemma_mm_with(p, k); lemma_titled_at(p, s, k, s.len() as int); } }
/// a group under a name
pub struct PV { pub name: Seq<char>, pub g: GV }
pub open spec fn pvs(p: Seq<(String, ColouredLines)>) -> Seq<PV> { Seq::new(p.len(), |i: int| PV { name: p[i].0@, g: gv(p[i].1) }) }
pub open spec fn gvs(p: Seq<ColouredLines>) -> Seq<GV> { Seq::new(p.len(), |i: int| gv(p[i])) }
/// the drawn groups of an entry, in order, under its name
pub open spec fn entry_pvs(l: Locations, c: Colours, s: Settings, k: Seq<char>, e: Seq<SctLines>, n: int) -> Seq<PV> decreases n { if n <= 0 { seq![] } else { match group_v(l, c, s, e[n - 1]) { Some(g) => entry_pvs(l, c, s, k, e, n - 1).push(PV { name: k, g }), None => entry_pvs(l, c, s, k, e, n - 1) } } }
pub open spec fn all_pvs<E: Drawing>(l: Locations, c: Colours, s: Settings, e: Seq<E>, n: int) -> Seq<PV> decreases n { if n <= 0 { seq![] } else { all_pvs(l, c, s, e, n - 1) + entry_pvs(l, c, s, e[n - 1].title(), e[n - 1].groups(), e[n - 1].groups().len() as int) } }
pub open spec fn pv_with(p: Seq<PV>, k: Seq<char>, n: int) -> Seq<GV> decreases n { if n <= 0 { seq![] } else if p[n - 1].name == k { pv_with(p, k, n - 1).push(p[n - 1].g) } else { pv_with(p, k, n - 1) } }
/// every drawable group of every entry under its entry's name, in file order, and nothing else
pub open spec fn drawings(m: Map<Seq<char>, Seq<ColouredLines>>, p: Seq<PV>) -> bool { forall|k: Seq<char>| #![trigger m.contains_key(k)] #![trigger pv_with(p, k, p.len() as int)] m.contains_key(k) == (pv_with(p, k, p.len() as int).len() > 0) && (m.contains_key(k) ==> gvs(m[k]) == pv_with(p, k, p.len() as int)) }
pub proof fn lemma_pv_with(a: Seq<(String, ColouredLines)>, k: Seq<char>, n: int) requires 0 <= n <= a.len() ensures gvs(mm_with(a, k, n)) == pv_with(pvs(a), k, n) decreases n
{ if n > 0 { lemma_pv_with(a, k, n - 1); assert(a[n - 1].0.vkey() == a[n - 1].0@); if a[n - 1].0@ == k { assert(gvs(mm_with(a, k, n)) =~= gvs(mm_with(a, k, n - 1)).push(gv(a[n - 1].1))); } } else { assert(gvs(mm_with(a, k, n)) =~= seq![]); } }
pub proof fn lemma_drawings(a: Seq<(String, ColouredLines)>) ensures drawings(mm_built(a), pvs(a))
{ let m = mm_built(a); let p = pvs(a); assert forall|k: Seq<char>| #![trigger m.contains_key(k)] m.contains_key(k) == (pv_with(p, k, p.len() as int).len() > 0) && (m.contains_key(k) ==> gvs(m[k]) == pv_with(p, k, p.len() as int)) by { lemma_mm_with(a, k); lemma_pv_with(a, k, a.len() as int); assert(gvs(mm_with(a, k, a.len() as int)).len() == mm_with(a, k, a.len() as int).len()); } }
/// each airway is drawn once, under its name, from all its segments
pub open spec fn airways_drawn(m: Map<Seq<char>, Seq<MultiLineString>>, l: Locations, s: Seq<Airway>) -> bool {
    forall|k: Seq<char>| #![trigger m.contains_key(k)] #![trigger of_title(s, k, s.len() as int)] m.contains_key(k) == (of_title(s, k, s.len() as int).len() > 0)
        && (m.contains_key(k) ==> m[k].len() == 1 && ({ let a = of_title(s, k, s.len() as int); draws(m[k][0].0@, lines_of(l, a, a.len() as int)) }))
}
pub open spec fn each_drawn(a: Seq<(String, MultiLineString)>, l: Locations, e: Seq<(String, Vec<Airway>)>, n: int) -> bool { a.len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] a[i]).0@ == e[i].0@ && draws(a[i].1.0@, lines_of(l, e[i].1@, e[i].1@.len() as int)) }
pub proof fn lemma_with_one<V>(a: Seq<(String, V)>, j: int, n: int) requires 0 <= j < a.len(), 0 <= n <= a.len(), forall|i: int| 0 <= i < a.len() && i != j ==> (#[trigger] a[i]).0@ != a[j].0@
    ensures mm_with(a, a[j].0@, n) == (if j < n { seq![a[j].1] } else { seq![] }) decreases n
{ if n > 0 { lemma_with_one(a, j, n - 1); assert(a[n - 1].0.vkey() == a[n - 1].0@); if n - 1 == j { assert(mm_with(a, a[j].0@, n) =~= seq![a[j].1]); } } }
pub proof fn lemma_with_none<V>(a: Seq<(String, V)>, k: Seq<char>, n: int) requires 0 <= n <= a.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).0@ != k ensures mm_with(a, k, n).len() == 0 decreases n
{ if n > 0 { lemma_with_none(a, k, n - 1); assert(a[n - 1].0.vkey() == a[n - 1].0@); } }
pub proof fn lemma_airways(p: Seq<(String, Airway)>, s: Seq<Airway>, e: Seq<(String, Vec<Airway>)>, a: Seq<(String, MultiLineString)>, l: Locations)
    requires titled(p, s, s.len() as int), mm_lists(e, mm_built(p)), each_drawn(a, l, e, e.len() as int),
    ensures airways_drawn(mm_built(a), l, s),
{
    lemma_titled(p, s);
    let m = mm_built(a); let q = mm_built(p);
    assert forall|k: Seq<char>| #![trigger m.contains_key(k)] m.contains_key(k) == (of_title(s, k, s.len() as int).len() > 0)
        && (m.contains_key(k) ==> m[k].len() == 1 && ({ let x = of_title(s, k, s.len() as int); draws(m[k][0].0@, lines_of(l, x, x.len() as int)) })) by {
        lemma_mm_with(a, k);
        assert(q.contains_key(k) == (of_title(s, k, s.len() as int).len() > 0));
        assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0@ == e[i].0.vkey() && q.contains_key(e[i].0.vkey()) by { assert(e[i].0.vkey() == e[i].0@); }
        if q.contains_key(k) {
            let j = lemma_mm_find(e, q, k);
            assert(a[j].0@ == k);
            assert forall|i: int| 0 <= i < a.len() && i != j implies (#[trigger] a[i]).0@ != a[j].0@ by { assert(e[i].0.vkey() != e[j].0.vkey()) by { if i < j { assert(e[i].0.vkey() != e[j].0.vkey()); } else { assert(e[j].0.vkey() != e[i].0.vkey()); } } }
            lemma_with_one(a, j, a.len() as int);
            assert(m[k] == seq![a[j].1]); assert(e[j].1@ == q[k]);
        } else { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).0@ != k by { } lemma_with_none(a, k, a.len() as int); }
    }
}
//@ fn line_hash
//@ spec
ensures ret@ == lk(line),
//@ at tail
proof { reveal_strlit("x"); reveal_strlit("y"); assert("x"@ =~= seq!['x']); assert("y"@ =~= seq!['y']); assert(vx_ret@ =~= lk(line)); }
//@ fn coord_hash
//@ spec
ensures ret@ == ck(c),
//@ at tail
proof { reveal_strlit("x"); reveal_strlit("y"); assert("x"@ =~= seq!['x']); assert("y"@ =~= seq!['y']); assert(vx_ret@ =~= ck(c)); }
//@ fn build_linestring
//@ type r0 Option<&Line>
//@ spec
requires adjacent(adjacency@),
ensures ret.0.0@.len() >= 1, ret.0.0@[0] == point, walked(ret.0.0@, visited@, ret.1@), real(ret.0.0@, adjacency@),
decreases universe(adjacency@).difference(visited@).len()
//@ loop 0
invariant
    g0 == seq_refs(connected_lines@), r0 matches Some(x) ==> !visited@.contains(lk(*x)) && exists|j: int| 0 <= j < connected_lines@.len() && connected_lines@[j] == *x,
//@ at let:next_point
proof {
    let k = ck(point); let j = choose|j: int| 0 <= j < adjacency@[k].len() && adjacency@[k][j] == *next_line;
    assert(lk(adjacency@[k][j]) == lk(*next_line)); assert(listed(adjacency@, lk(*next_line)));
    lemma_less(adjacency@, visited@, lk(*next_line));
}
//@ at call:insert#1.after
proof { lemma_front(p0, path.0@, point, *next_line, adjacency@, visited@, new_visited@); }
//@ at call:insert#1.before
let ghost p0 = path.0@;
//@ fn airway_to_multi_line_string
//@ type adjacency MultiMap<String, Line>
//@ type acc0 Vec<Line>
//@ type acc1 Vec<(String, Line)>
//@ spec
ensures draws(ret.0@, lines_of(*locations, airways@, airways@.len() as int)),
//@ loop 0
invariant
    g0 == seq_refs(airways@), acc0@ == lines_of(*locations, airways@, it0.pos()),
//@ loop 1
invariant
    g1 == seq_refs(lines@), paired(acc1@, lines@, it1.pos()), acc1@.len() == 2 * it1.pos(),
//@ loop 2
invariant
    g1 == seq_refs(lines@), 1 <= it1.pos() <= lines@.len(), it1@ == g1, vx_x1 == &lines@[it1.pos() - 1],
    paired(acc1@, lines@, it1.pos() - 1), acc1@.len() == 2 * (it1.pos() - 1) + it2.pos(), g2.len() == 2,
    g2[0].0@ == ck(vx_x1.start), g2[1].0@ == ck(vx_x1.end), g2[0].1 == *vx_x1, g2[1].1 == *vx_x1,
    forall|i: int| 0 <= i < it2.pos() ==> #[trigger] acc1@[2 * (it1.pos() - 1) + i] == g2[i],
//@ at start
let ghost mut pairs: Seq<(String, Line)> = Seq::empty();
let ghost mut path: Seq<Coord> = Seq::empty();
//@ at loop1.after
proof { pairs = acc1@; }
//@ at loop2.after
proof { assert(acc1@[2 * (it1.pos() - 1) + 0] == g2[0]); assert(acc1@[2 * (it1.pos() - 1) + 1] == g2[1]); }
//@ at let:adjacency
proof { lemma_adjacent(pairs, lines@); }
//@ at loop3.before
let ghost m = adjacency@;
proof { assert(draws_so_far(acc3.0.0@, acc3.1@, m, lines@, 0)); }
//@ loop 3
invariant
    g3 == seq_refs(lines@), m == adjacency@, adjacent(m), held(m, lines@), draws_so_far(acc3.0.0@, acc3.1@, m, lines@, it3.pos()),
//@ at loop3.start
let ghost r0 = acc3.0.0@; let ghost v0 = acc3.1@;
//@ at call:insert#1.before
proof { path = linestring.0@; }
//@ at loop3.end
proof { if v0.contains(lk(*vx_x3)) { } else { lemma_draw(r0, acc3.0.0@, path, v0, acc3.1@, m, lines@, it3.pos() - 1); } }
//@ at loop3.after
proof { lemma_draws(acc3.0.0@, acc3.1@, m, lines@); }
//@ fn ColouredLines::from_location_coloured_lines
//@ type acc0 Vec<LineString>
//@ spec
ensures match ret { Some(r) => group_v(*locations, *colours, *settings, *line_group) == Some(gv(r)), None => group_v(*locations, *colours, *settings, *line_group) is None },
//@ loop 0
invariant
    g0 == seq_refs(line_group.lines@), views(acc0@) == polys(*locations, line_group.lines@, it0.pos()), forall|i: int| 0 <= i < acc0@.len() ==> (#[trigger] acc0@[i]).0@.len() > 0,
//@ at loop0.start
let ghost l0 = acc0@;
//@ loop 1
invariant
    g1 == seq_refs(loc_line.points@), acc1b@ == places(*locations, loc_line.points@, it1.pos()),
//@ loop 2
invariant
    acc1@ == g2.take(it2.pos()),
//@ at loop2.after
proof { assert(acc1@ =~= g2); }
//@ at loop0.end
proof { if acc0@.len() > l0.len() { assert(acc0@ =~= l0.push(acc0@.last())); assert(views(acc0@) =~= views(l0).push(acc0@.last().0@)); } }
//@ at tail
proof { assert(views(lines.0@).len() == lines.0@.len()); if lines.0@.len() > 0 { assert(lines.0@[0].0@.len() > 0); } }
//@ fn SctItems::from_sct
//@ type acc0 Vec<(String, ColouredLines)>
//@ type acc1 Vec<(String, ColouredLines)>
//@ type acc3 Vec<(String, ColouredLines)>
//@ type acc4 Vec<(String, ColouredLines)>
//@ type acc10 Vec<(String, ColouredLines)>
//@ type acc11 Vec<(String, ColouredLines)>
//@ type acc13 Vec<(String, ColouredLines)>
//@ type acc14 Vec<(String, ColouredLines)>
//@ type acc16 Vec<(String, ColouredLines)>
//@ type acc17 Vec<(String, ColouredLines)>
//@ type acc19 Vec<(String, ColouredLines)>
//@ type acc20 Vec<(String, ColouredLines)>
//@ spec
ensures
    drawings(ret.sids@, all_pvs(*locations, *colours, *settings, sct.sids@, sct.sids@.len() as int)),
    drawings(ret.stars@, all_pvs(*locations, *colours, *settings, sct.stars@, sct.stars@.len() as int)),
    drawings(ret.artccs_high@, all_pvs(*locations, *colours, *settings, sct.artccs_high@, sct.artccs_high@.len() as int)),
    drawings(ret.artccs@, all_pvs(*locations, *colours, *settings, sct.artccs@, sct.artccs@.len() as int)),
    drawings(ret.artccs_low@, all_pvs(*locations, *colours, *settings, sct.artccs_low@, sct.artccs_low@.len() as int)),
    drawings(ret.geo@, all_pvs(*locations, *colours, *settings, sct.geo@, sct.geo@.len() as int)),
    airways_drawn(ret.high_airways@, *locations, sct.high_airways@), airways_drawn(ret.low_airways@, *locations, sct.low_airways@),
    by_title(ret.regions@, sct.regions@), by_title(ret.labels@, sct.labels@),
//@ at start
broadcast use axiom_mm_entries;
let ghost (l, c, s) = (*locations, *colours, *settings);
let ghost mut high: Seq<(String, Airway)> = Seq::empty();
let ghost mut low: Seq<(String, Airway)> = Seq::empty();
//@ loop 0
invariant
    g0 == sct.sids@, l == *locations, c == *colours, s == *settings, pvs(acc0@) == all_pvs(l, c, s, sct.sids@, it0.pos()),
//@ at loop0.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ at loop0.start
let ghost b0 = acc0@;
//@ at loop1.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ loop 1
invariant
    g1 == seq_refs(sid.line_groups@), l == *locations, c == *colours, s == *settings, pvs(acc1@) == entry_pvs(l, c, s, sid.name@, sid.line_groups@, it1.pos()),
//@ at loop1.start
let ghost b1 = acc1@;
//@ at loop1.end
proof { if acc1@.len() > b1.len() { assert(pvs(acc1@) =~= pvs(b1).push(PV { name: acc1@.last().0@, g: gv(acc1@.last().1) })); } }
//@ loop 2
invariant
    acc0@ == b0 + g2.take(it2.pos()),
//@ at loop2.after
proof { assert(acc0@ =~= b0 + g2); assert(pvs(acc0@) =~= pvs(b0) + pvs(g2)); }
//@ at loop0.after
proof { lemma_drawings(acc0@); }
//@ loop 3
invariant
    g3 == sct.stars@, l == *locations, c == *colours, s == *settings, pvs(acc3@) == all_pvs(l, c, s, sct.stars@, it3.pos()),
//@ at loop3.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ at loop3.start
let ghost b3 = acc3@;
//@ at loop4.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ loop 4
invariant
    g4 == seq_refs(star.line_groups@), l == *locations, c == *colours, s == *settings, pvs(acc4@) == entry_pvs(l, c, s, star.name@, star.line_groups@, it4.pos()),
//@ at loop4.start
let ghost b4 = acc4@;
//@ at loop4.end
proof { if acc4@.len() > b4.len() { assert(pvs(acc4@) =~= pvs(b4).push(PV { name: acc4@.last().0@, g: gv(acc4@.last().1) })); } }
//@ loop 5
invariant
    acc3@ == b3 + g5.take(it5.pos()),
//@ at loop5.after
proof { assert(acc3@ =~= b3 + g5); assert(pvs(acc3@) =~= pvs(b3) + pvs(g5)); }
//@ at loop3.after
proof { lemma_drawings(acc3@); }
//@ loop 10
invariant
    g10 == sct.artccs_high@, l == *locations, c == *colours, s == *settings, pvs(acc10@) == all_pvs(l, c, s, sct.artccs_high@, it10.pos()),
//@ at loop10.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ at loop10.start
let ghost b10 = acc10@;
//@ at loop11.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ loop 11
invariant
    g11 == seq_refs(artcc.line_groups@), l == *locations, c == *colours, s == *settings, pvs(acc11@) == entry_pvs(l, c, s, artcc.name@, artcc.line_groups@, it11.pos()),
//@ at loop11.start
let ghost b11 = acc11@;
//@ at loop11.end
proof { if acc11@.len() > b11.len() { assert(pvs(acc11@) =~= pvs(b11).push(PV { name: acc11@.last().0@, g: gv(acc11@.last().1) })); } }
//@ loop 12
invariant
    acc10@ == b10 + g12.take(it12.pos()),
//@ at loop12.after
proof { assert(acc10@ =~= b10 + g12); assert(pvs(acc10@) =~= pvs(b10) + pvs(g12)); }
//@ at loop10.after
proof { lemma_drawings(acc10@); }
//@ loop 13
invariant
    g13 == sct.artccs@, l == *locations, c == *colours, s == *settings, pvs(acc13@) == all_pvs(l, c, s, sct.artccs@, it13.pos()),
//@ at loop13.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ at loop13.start
let ghost b13 = acc13@;
//@ at loop14.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ loop 14
invariant
    g14 == seq_refs(artcc.line_groups@), l == *locations, c == *colours, s == *settings, pvs(acc14@) == entry_pvs(l, c, s, artcc.name@, artcc.line_groups@, it14.pos()),
//@ at loop14.start
let ghost b14 = acc14@;
//@ at loop14.end
proof { if acc14@.len() > b14.len() { assert(pvs(acc14@) =~= pvs(b14).push(PV { name: acc14@.last().0@, g: gv(acc14@.last().1) })); } }
//@ loop 15
invariant
    acc13@ == b13 + g15.take(it15.pos()),
//@ at loop15.after
proof { assert(acc13@ =~= b13 + g15); assert(pvs(acc13@) =~= pvs(b13) + pvs(g15)); }
//@ at loop13.after
proof { lemma_drawings(acc13@); }
//@ loop 16
invariant
    g16 == sct.artccs_low@, l == *locations, c == *colours, s == *settings, pvs(acc16@) == all_pvs(l, c, s, sct.artccs_low@, it16.pos()),
//@ at loop16.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ at loop16.start
let ghost b16 = acc16@;
//@ at loop17.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ loop 17
invariant
    g17 == seq_refs(artcc.line_groups@), l == *locations, c == *colours, s == *settings, pvs(acc17@) == entry_pvs(l, c, s, artcc.name@, artcc.line_groups@, it17.pos()),
//@ at loop17.start
let ghost b17 = acc17@;
//@ at loop17.end
proof { if acc17@.len() > b17.len() { assert(pvs(acc17@) =~= pvs(b17).push(PV { name: acc17@.last().0@, g: gv(acc17@.last().1) })); } }
//@ loop 18
invariant
    acc16@ == b16 + g18.take(it18.pos()),
//@ at loop18.after
proof { assert(acc16@ =~= b16 + g18); assert(pvs(acc16@) =~= pvs(b16) + pvs(g18)); }
//@ at loop16.after
proof { lemma_drawings(acc16@); }
//@ loop 19
invariant
    g19 == sct.geo@, l == *locations, c == *colours, s == *settings, pvs(acc19@) == all_pvs(l, c, s, sct.geo@, it19.pos()),
//@ at loop19.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ at loop19.start
let ghost b19 = acc19@;
//@ at loop20.pre
proof { assert(pvs(Seq::empty()) =~= Seq::<PV>::empty()); }
//@ loop 20
invariant
    g20 == seq_refs(geo.line_groups@), l == *locations, c == *colours, s == *settings, pvs(acc20@) == entry_pvs(l, c, s, geo.name@, geo.line_groups@, it20.pos()),
//@ at loop20.start
let ghost b20 = acc20@;
//@ at loop20.end
proof { if acc20@.len() > b20.len() { assert(pvs(acc20@) =~= pvs(b20).push(PV { name: acc20@.last().0@, g: gv(acc20@.last().1) })); } }
//@ loop 21
invariant
    acc19@ == b19 + g21.take(it21.pos()),
//@ at loop21.after
proof { assert(acc19@ =~= b19 + g21); assert(pvs(acc19@) =~= pvs(b19) + pvs(g21)); }
//@ at loop19.after
proof { lemma_drawings(acc19@); }
//@ loop 6
invariant
    g6 == sct.high_airways@, titled(acc6@, sct.high_airways@, it6.pos()),
//@ at loop6.after
proof { high = acc6@; }
//@ loop 7
invariant
    l == *locations, each_drawn(acc6@, l, g7, it7.pos()),
//@ at loop7.after
proof { lemma_airways(high, sct.high_airways@, g7, acc6@, l); }
//@ loop 8
invariant
    g8 == sct.low_airways@, titled(acc8@, sct.low_airways@, it8.pos()),
//@ at loop8.after
proof { low = acc8@; }
//@ loop 9
invariant
    l == *locations, each_drawn(acc8@, l, g9, it9.pos()),
//@ at loop9.after
proof { lemma_airways(low, sct.low_airways@, g9, acc8@, l); }
//@ loop 22
invariant
    g22 == sct.regions@, titled(acc22@, sct.regions@, it22.pos()),
//@ at loop22.after
proof { lemma_titled(acc22@, sct.regions@); }
//@ loop 23
invariant
    g23 == sct.labels@, titled(acc23@, sct.labels@, it23.pos()),
//@ at loop23.after
proof { lemma_titled(acc23@, sct.labels@); }
