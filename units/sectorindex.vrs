//@ source src/adaptation/sector_index.rs
//@ source src/adaptation/sectors.rs
//@ source src/adaptation/mod.rs
//@ source src/adaptation/maps/active.rs
//@ use base
//@ use map
//@ use set
//@ stubbed contains
//@ rename clone .vx_dup
//@ mutlet cell
//@ tyrename Entry BoxEntry
//@ tyrename f64 Deg
//@ itersrc locate_all_at_point locate_in_envelope_intersecting volumes_at volumes_near_line
//@ prelude
use core::marker::PhantomData;
/// f64 (only moved around here)
#[verifier::external_body]
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Deg { v: f64 }
// ---- geo and rstar: positions, borders, boxes, and a tree of boxed entries as the set of its entries ----
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Coord { pub x: Deg, pub y: Deg }
#[verifier::external_body]
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Point { v: Deg }
impl Point {
    pub uninterp spec fn at(self) -> (Deg, Deg);
    #[verifier::external_body] pub fn x(self) -> (r: Deg) ensures r == self.at().0 { unimplemented!() }
    #[verifier::external_body] pub fn y(self) -> (r: Deg) ensures r == self.at().1 { unimplemented!() }
}
#[verifier::external_body]
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Rect { v: Deg }
impl Rect {
    pub uninterp spec fn lo(self) -> Coord;
    pub uninterp spec fn hi(self) -> Coord;
    #[verifier::external_body] pub fn min(self) -> (r: Coord) ensures r == self.lo() { unimplemented!() }
    #[verifier::external_body] pub fn max(self) -> (r: Coord) ensures r == self.hi() { unimplemented!() }
}
#[verifier::external_body]
pub struct Polygon { v: Deg }
/// geo's containment
pub uninterp spec fn inside(p: Polygon, c: Point) -> bool;
impl Polygon {
    pub uninterp spec fn rect(self) -> Option<Rect>;
    #[verifier::external_body] pub fn bounding_rect(&self) -> (r: Option<Rect>) ensures r == self.rect() { unimplemented!() }
    #[verifier::external_body] pub fn contains(&self, c: &Point) -> (r: bool) ensures r == inside(*self, *c) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Line { v: Deg }
impl Line {
    pub uninterp spec fn rect(self) -> Rect;
    #[verifier::external_body] pub fn bounding_rect(&self) -> (r: Rect) ensures r == self.rect() { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(P)]
pub struct Rectangle<P> { p: PhantomData<P> }
#[verifier::external_body]
#[verifier::accept_recursive_types(P)]
pub struct AABB<P> { p: PhantomData<P> }
pub type Box2 = Rectangle<[Deg; 2]>;
pub uninterp spec fn box_of(x0: Deg, y0: Deg, x1: Deg, y1: Deg) -> Box2;
pub uninterp spec fn frame_of(x0: Deg, y0: Deg, x1: Deg, y1: Deg) -> AABB<[Deg; 2]>;
impl Rectangle<[Deg; 2]> { #[verifier::external_body] pub fn from_corners(a: [Deg; 2], b: [Deg; 2]) -> (r: Self) ensures r == box_of(a@[0], a@[1], b@[0], b@[1]) { unimplemented!() } }
impl AABB<[Deg; 2]> { #[verifier::external_body] pub fn from_corners(a: [Deg; 2], b: [Deg; 2]) -> (r: Self) ensures r == frame_of(a@[0], a@[1], b@[0], b@[1]) { unimplemented!() } }
pub struct GeomWithData<R, T> { pub geom: R, pub data: T }
impl<R, T> GeomWithData<R, T> { pub fn new(geom: R, data: T) -> (r: Self) ensures r.geom == geom, r.data == data { GeomWithData { geom, data } } }
/// the position is in the box; the box and the frame meet
pub uninterp spec fn covers(b: Box2, x: Deg, y: Deg) -> bool;
pub uninterp spec fn meets(b: Box2, f: AABB<[Deg; 2]>) -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RTree<T> { p: PhantomData<T> }
impl<T> RTree<T> {
    pub uninterp spec fn has(self, e: T) -> bool;
    #[verifier::external_body] pub fn bulk_load(v: Vec<T>) -> (r: Self) ensures forall|e: T| #[trigger] r.has(e) == v@.contains(e) { unimplemented!() }
}
pub open spec fn listed<T>(s: Seq<&T>, x: T) -> bool { exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == x }
impl<D> RTree<GeomWithData<Box2, D>> {
    #[verifier::external_body] pub fn locate_all_at_point(&self, p: [Deg; 2]) -> (r: VxIter<&GeomWithData<Box2, D>>)
        ensures r.pos() == 0, forall|e: GeomWithData<Box2, D>| #[trigger] listed(r@, e) == (self.has(e) && covers(e.geom, p@[0], p@[1])) { unimplemented!() }
    #[verifier::external_body] pub fn locate_in_envelope_intersecting(&self, f: AABB<[Deg; 2]>) -> (r: VxIter<&GeomWithData<Box2, D>>)
        ensures r.pos() == 0, forall|e: GeomWithData<Box2, D>| #[trigger] listed(r@, e) == (self.has(e) && meets(e.geom, f)) { unimplemented!() }
}
pub open spec fn box_around(r: Rect) -> Box2 { box_of(r.lo().x, r.lo().y, r.hi().x, r.hi().y) }
pub open spec fn frame_around(r: Rect) -> AABB<[Deg; 2]> { frame_of(r.lo().x, r.lo().y, r.hi().x, r.hi().y) }
/// geo: a polygon lies in its bounding box
pub broadcast axiom fn axiom_inside(p: Polygon, c: Point)
    ensures #[trigger] inside(p, c) ==> p.rect() is Some && covers(box_around(p.rect()->0), c.at().0, c.at().1);
/// the line touches the polygon
pub uninterp spec fn touches(p: Polygon, l: Line) -> bool;
pub broadcast axiom fn axiom_touches(p: Polygon, l: Line)
    ensures #[trigger] touches(p, l) ==> p.rect() is Some && meets(box_around(p.rect()->0), frame_around(l.rect()));
/// OnceLock: its content when the function under contract is entered (each looks at it once)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct OnceLock<T> { p: PhantomData<T> }
impl<T> OnceLock<T> {
    pub uninterp spec fn view(&self) -> Option<T>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ is None { unimplemented!() }
    #[verifier::external_body] pub fn get(&self) -> (r: Option<&T>) ensures match r { Some(t) => self@ == Some(*t), None => self@ is None } { unimplemented!() }
    #[verifier::external_body] pub fn vx_get(&self) -> (r: Option<&T>) ensures match r { Some(t) => self@ == Some(*t), None => self@ is None } { unimplemented!() }
    #[verifier::external_body] pub fn vx_store(&self, t: T) -> (r: &T) requires self@ is None ensures *r == t { unimplemented!() }
    #[verifier::external_body] pub fn set(&mut self, t: T) -> (r: Result<(), T>) ensures final(self)@ == (if old(self)@ is None { Some(t) } else { old(self)@ }) { unimplemented!() }
}
//@ item RunwayIdentifier noclone
//@ item Volume noclone
//@ item Sector noclone
//@ item Sectors noclone
//@ item SectorVolumeIndex noclone
//@ prelude
pub type BoxEntry = GeomWithData<Box2, (String, Volume)>;
pub struct Adaptation { pub sectors: Sectors, pub volumes: HashMap<String, Volume>, pub sector_index: SectorVolumeIndex }
impl Sectors { pub fn vx_iter(&self) -> (r: VxIter<(&String, &Sector)>) ensures r.pos() == 0, r@ == entry_refs(entries(self.0)) { self.0.vx_iter() } }
/// the elements of a set in its iteration order, whatever that is
pub uninterp spec fn elements<K: VKey>(s: HashSet<K>) -> Seq<K>;
pub broadcast axiom fn axiom_elements<K: VKey>(s: HashSet<K>) ensures #[trigger] set_of(elements(s), s@);
impl<K: VKey> HashSet<K> { #[verifier::external_body] pub fn vx_iter(&self) -> (r: VxIter<&K>) ensures r.pos() == 0, r@ == seq_refs(elements(*self)) { unimplemented!() } }
/// the order of identifiers
pub uninterp spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool;
pub axiom fn axiom_str_le(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures str_le(a, a), str_le(a, b) || str_le(b, a), str_le(a, b) && str_le(b, c) ==> str_le(a, c);
#[verifier::external_body]
pub fn vx_lt(a: &&str, b: &&str) -> (r: bool) ensures r == !str_le((**b)@, (**a)@) { unimplemented!() }
/// f32 comparisons
pub uninterp spec fn f_le(a: f32, b: f32) -> bool;
pub uninterp spec fn f_lt(a: f32, b: f32) -> bool;
pub uninterp spec fn f_of(a: u32) -> f32;
#[verifier::external_body] pub fn vx_as_f32(a: u32) -> (r: f32) ensures r == f_of(a) { unimplemented!() }
#[verifier::external_body] pub fn vx_cle(a: &f32, b: &f32) -> (r: bool) ensures r == f_le(*a, *b) { unimplemented!() }
#[verifier::external_body] pub fn vx_clt(a: &f32, b: &f32) -> (r: bool) ensures r == f_lt(*a, *b) { unimplemented!() }
/// (identifier, volume) of sector k with an owner
pub open spec fn owns(s: Map<Seq<char>, Sector>, v: Map<Seq<char>, Volume>, k: Seq<char>, w: Seq<char>, x: (String, Volume)) -> bool {
    &&& s.contains_key(k) && s[k].position_priority@.len() > 0 && s[k].id == x.0
    &&& s[k].volumes@.contains(w) && v.contains_key(w) && v[w] == x.1
}
pub open spec fn staffed(s: Map<Seq<char>, Sector>, v: Map<Seq<char>, Volume>, x: (String, Volume)) -> bool { exists|k: Seq<char>, w: Seq<char>| #[trigger] owns(s, v, k, w, x) }
pub open spec fn entry_for(s: Map<Seq<char>, Sector>, v: Map<Seq<char>, Volume>, e: BoxEntry) -> bool { staffed(s, v, e.data) && e.data.1.lateral_border.rect() is Some && e.geom == box_around(e.data.1.lateral_border.rect()->0) }
pub open spec fn tree_ok(t: RTree<BoxEntry>, s: Map<Seq<char>, Sector>, v: Map<Seq<char>, Volume>) -> bool { forall|e: BoxEntry| #[trigger] t.has(e) == entry_for(s, v, e) }
/// nothing cached, or built from these data
pub open spec fn ready(i: SectorVolumeIndex, s: Sectors, v: HashMap<String, Volume>) -> bool { match i.0@ { Some(t) => tree_ok(t, s.0@, v@), None => true } }
pub open spec fn here(s: Map<Seq<char>, Sector>, v: Map<Seq<char>, Volume>, c: Point, x: (String, Volume)) -> bool { staffed(s, v, x) && inside(x.1.lateral_border, c) }
pub open spec fn at_answer(s: Map<Seq<char>, Sector>, v: Map<Seq<char>, Volume>, c: Point, r: Seq<&(String, Volume)>) -> bool { forall|x: (String, Volume)| #[trigger] listed(r, x) == here(s, v, c, x) }
/// all that touch the line, and only staffed ones
pub open spec fn near_answer(s: Map<Seq<char>, Sector>, v: Map<Seq<char>, Volume>, l: Line, r: Seq<&(String, Volume)>) -> bool {
    forall|x: (String, Volume)| (#[trigger] listed(r, x) ==> staffed(s, v, x)) && (staffed(s, v, x) && touches(x.1.lateral_border, l) ==> listed(r, x))
}
pub open spec fn band(v: Volume, l: f32) -> bool { f_le(f_of(v.lower_level), l) && f_lt(l, f_of(v.upper_level)) }
pub open spec fn found(s: Map<Seq<char>, Sector>, v: Map<Seq<char>, Volume>, c: Point, l: f32, r: Option<&str>) -> bool {
    match r {
        Some(id) => (exists|x: (String, Volume)| #[trigger] here(s, v, c, x) && band(x.1, l) && x.0@ == id@) && (forall|x: (String, Volume)| #[trigger] here(s, v, c, x) && band(x.1, l) ==> str_le(id@, x.0@)),
        None => forall|x: (String, Volume)| #[trigger] here(s, v, c, x) ==> !band(x.1, l),
    }
}
/// the data of the first n entries (that the border of contains c)
pub open spec fn among(g: Seq<&BoxEntry>, n: int, x: (String, Volume)) -> bool { exists|j: int| 0 <= j < n && (#[trigger] g[j]).data == x }
pub proof fn push_listed<T>(s: Seq<&T>, a: &T, x: T) ensures listed(s.push(a), x) == (listed(s, x) || *a == x)
{
    if listed(s, x) { let i = choose|i: int| 0 <= i < s.len() && *#[trigger] s[i] == x; assert(s.push(a)[i] == s[i]); }
    if *a == x { assert(*s.push(a)[s.len() as int] == x); }
    if listed(s.push(a), x) { let i = choose|i: int| 0 <= i < s.push(a).len() && *#[trigger] s.push(a)[i] == x; if i < s.len() { assert(*s[i] == x); } }
}
pub proof fn step_among(g: Seq<&BoxEntry>, n: int, x: (String, Volume)) requires 0 <= n < g.len() ensures among(g, n + 1, x) == (among(g, n, x) || g[n].data == x)
{
    if among(g, n, x) { let j = choose|j: int| 0 <= j < n && (#[trigger] g[j]).data == x; assert(g[j].data == x && j < n + 1); }
    if among(g, n + 1, x) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] g[j]).data == x; assert(g[j].data == x); }
    if g[n].data == x { assert(g[n].data == x && n < n + 1); }
}
/// the entry built for x
pub open spec fn boxed(x: (String, Volume)) -> BoxEntry { GeomWithData { geom: box_around(x.1.lateral_border.rect()->0), data: x } }
pub proof fn all_among(g: Seq<&BoxEntry>, x: (String, Volume)) 
    ensures among(g, g.len() as int, x) == exists|e: BoxEntry| #[trigger] listed(g, e) && e.data == x
{
    if among(g, g.len() as int, x) { let j = choose|j: int| 0 <= j < g.len() && (#[trigger] g[j]).data == x; assert(listed(g, *g[j])); }
    if exists|e: BoxEntry| #[trigger] listed(g, e) && e.data == x { let e = choose|e: BoxEntry| #[trigger] listed(g, e) && e.data == x; let i = choose|i: int| 0 <= i < g.len() && *#[trigger] g[i] == e; assert(g[i].data == x); }
}
pub open spec fn via(sec: Sector, v: Map<Seq<char>, Volume>, w: Seq<char>, x: (String, Volume)) -> bool { v.contains_key(w) && v[w] == x.1 && sec.id == x.0 }
pub open spec fn via_some(sec: Sector, v: Map<Seq<char>, Volume>, g: Seq<&String>, n: int, x: (String, Volume)) -> bool { exists|j: int| 0 <= j < n && via(sec, v, (#[trigger] g[j])@, x) }
pub open spec fn of_sector(sec: Sector, v: Map<Seq<char>, Volume>, x: (String, Volume)) -> bool { sec.position_priority@.len() > 0 && exists|w: Seq<char>| #[trigger] sec.volumes@.contains(w) && via(sec, v, w, x) }
pub open spec fn of_some(g: Seq<(&String, &Sector)>, v: Map<Seq<char>, Volume>, n: int, x: (String, Volume)) -> bool { exists|i: int| 0 <= i < n && of_sector(*(#[trigger] g[i]).1, v, x) }
pub open spec fn fits(e: BoxEntry) -> bool { e.data.1.lateral_border.rect() is Some && e.geom == box_around(e.data.1.lateral_border.rect()->0) }
pub open spec fn firsts(g: Seq<(String, Volume)>, n: int, x: (String, Volume)) -> bool { exists|j: int| 0 <= j < n && #[trigger] g[j] == x }
pub proof fn step_via(sec: Sector, v: Map<Seq<char>, Volume>, g: Seq<&String>, n: int, x: (String, Volume)) requires 0 <= n < g.len() ensures via_some(sec, v, g, n + 1, x) == (via_some(sec, v, g, n, x) || via(sec, v, g[n]@, x))
{
    if via_some(sec, v, g, n, x) { let j = choose|j: int| 0 <= j < n && via(sec, v, (#[trigger] g[j])@, x); assert(via(sec, v, g[j]@, x) && j < n + 1); }
    if via_some(sec, v, g, n + 1, x) { let j = choose|j: int| 0 <= j < n + 1 && via(sec, v, (#[trigger] g[j])@, x); assert(via(sec, v, g[j]@, x)); }
    if via(sec, v, g[n]@, x) { assert(via(sec, v, g[n]@, x) && n < n + 1); }
}
pub proof fn step_of(g: Seq<(&String, &Sector)>, v: Map<Seq<char>, Volume>, n: int, x: (String, Volume)) requires 0 <= n < g.len() ensures of_some(g, v, n + 1, x) == (of_some(g, v, n, x) || of_sector(*g[n].1, v, x))
{
    if of_some(g, v, n, x) { let j = choose|j: int| 0 <= j < n && of_sector(*(#[trigger] g[j]).1, v, x); assert(of_sector(*g[j].1, v, x) && j < n + 1); }
    if of_some(g, v, n + 1, x) { let j = choose|j: int| 0 <= j < n + 1 && of_sector(*(#[trigger] g[j]).1, v, x); assert(of_sector(*g[j].1, v, x)); }
    if of_sector(*g[n].1, v, x) { assert(of_sector(*g[n].1, v, x) && n < n + 1); }
}
pub proof fn step_firsts(g: Seq<(String, Volume)>, n: int, x: (String, Volume)) requires 0 <= n < g.len() ensures firsts(g, n + 1, x) == (firsts(g, n, x) || g[n] == x)
{
    if firsts(g, n, x) { let j = choose|j: int| 0 <= j < n && #[trigger] g[j] == x; assert(g[j] == x && j < n + 1); }
    if firsts(g, n + 1, x) { let j = choose|j: int| 0 <= j < n + 1 && #[trigger] g[j] == x; assert(g[j] == x); }
    if g[n] == x { assert(g[n] == x && n < n + 1); }
}
pub proof fn push_has<T>(s: Seq<T>, a: T, x: T) ensures s.push(a).contains(x) == (s.contains(x) || a == x)
{
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(s.push(a)[i] == x); }
    if a == x { assert(s.push(a)[s.len() as int] == x); }
    if s.push(a).contains(x) { let i = choose|i: int| 0 <= i < s.push(a).len() && s.push(a)[i] == x; if i < s.len() { assert(s[i] == x); } }
}
pub proof fn all_via(sec: Sector, v: Map<Seq<char>, Volume>, x: (String, Volume))
    ensures via_some(sec, v, seq_refs(elements(sec.volumes)), elements(sec.volumes).len() as int, x) == exists|w: Seq<char>| #[trigger] sec.volumes@.contains(w) && via(sec, v, w, x)
{
    broadcast use axiom_elements;
    let g = seq_refs(elements(sec.volumes));
    assert(set_of(elements(sec.volumes), sec.volumes@));
    if via_some(sec, v, g, g.len() as int, x) { let j = choose|j: int| 0 <= j < g.len() && via(sec, v, (#[trigger] g[j])@, x); assert(elements(sec.volumes)[j].vkey() == g[j]@); assert(sec.volumes@.contains(g[j]@)); }
    if exists|w: Seq<char>| #[trigger] sec.volumes@.contains(w) && via(sec, v, w, x) {
        let w = choose|w: Seq<char>| #[trigger] sec.volumes@.contains(w) && via(sec, v, w, x);
        let j = choose|j: int| 0 <= j < elements(sec.volumes).len() && (#[trigger] elements(sec.volumes)[j]).vkey() == w;
        assert(via(sec, v, g[j]@, x));
    }
}
pub proof fn all_of(s: HashMap<String, Sector>, v: Map<Seq<char>, Volume>, x: (String, Volume))
    ensures of_some(entry_refs(entries(s)), v, entries(s).len() as int, x) == staffed(s@, v, x)
{
    broadcast use axiom_entries;
    let e = entries(s);
    let g = entry_refs::<String, Sector>(e);
    assert(lists(e, s@));
    if of_some(g, v, g.len() as int, x) {
        let i = choose|i: int| 0 <= i < g.len() && of_sector(*(#[trigger] g[i]).1, v, x);
        let sec = e[i].1;
        assert(*g[i].1 == sec);
        assert(s@.contains_key(e[i].0.vkey()) && s@[e[i].0.vkey()] == sec);
        let w = choose|w: Seq<char>| #[trigger] sec.volumes@.contains(w) && via(sec, v, w, x);
        assert(owns(s@, v, e[i].0.vkey(), w, x));
    }
    if staffed(s@, v, x) {
        let (k, w) = choose|k: Seq<char>, w: Seq<char>| #[trigger] owns(s@, v, k, w, x);
        let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == k;
        assert(*g[i].1 == s@[k]);
        assert(s@[k].volumes@.contains(w) && via(s@[k], v, w, x));
        assert(of_sector(*g[i].1, v, x));
    }
}
//@ fn rectangle_for
//@ spec
ensures ret == (match volume.lateral_border.rect() { Some(r) => Some(box_around(r)), None => None }),
//@ fn build_tree
//@ spec
ensures tree_ok(ret, sectors.0@, volumes@),
//@ type acc0 Vec<BoxEntry>
//@ type acc1 Vec<(String, Volume)>
//@ loop 0
g0 == entry_refs(entries(sectors.0)),
forall|e: BoxEntry| #[trigger] acc0@.contains(e) == (fits(e) && of_some(g0, volumes@, it0.pos(), e.data)),
//@ at loop0.start
let ghost a0 = acc0@;
let ghost n0 = it0.pos() - 1;
//@ loop 1
*sector == *g0[n0].1, g1 == seq_refs(elements(sector.volumes)),
forall|x: (String, Volume)| #[trigger] acc1@.contains(x) == via_some(*sector, volumes@, g1, it1.pos(), x),
//@ at loop1.start
let ghost a1 = acc1@;
//@ at loop1.end
proof { assert forall|x: (String, Volume)| #[trigger] acc1@.contains(x) == via_some(*sector, volumes@, g1, it1.pos(), x) by {
    step_via(*sector, volumes@, g1, it1.pos() - 1, x);
    assert(a1.contains(x) == via_some(*sector, volumes@, g1, it1.pos() - 1, x));
    if volumes@.contains_key(vx_x1@) { push_has(a1, (sector.id, volumes@[vx_x1@]), x); assert(acc1@ == a1.push((sector.id, volumes@[vx_x1@]))); }
} }
//@ loop 2
forall|e: BoxEntry| #[trigger] acc0@.contains(e) == (a0.contains(e) || fits(e) && firsts(g2, it2.pos(), e.data)),
//@ at loop2.start
let ghost a2 = acc0@;
//@ at loop2.end
proof { assert forall|e: BoxEntry| #[trigger] acc0@.contains(e) == (a0.contains(e) || fits(e) && firsts(g2, it2.pos(), e.data)) by {
    step_firsts(g2, it2.pos() - 1, e.data);
    assert(a2.contains(e) == (a0.contains(e) || fits(e) && firsts(g2, it2.pos() - 1, e.data)));
    if g2[it2.pos() - 1].1.lateral_border.rect() is Some { push_has(a2, boxed(g2[it2.pos() - 1]), e); assert(acc0@ =~= a2.push(boxed(g2[it2.pos() - 1]))); }
} }
//@ at loop0.end
proof { assert forall|e: BoxEntry| #[trigger] acc0@.contains(e) == (fits(e) && of_some(g0, volumes@, it0.pos(), e.data)) by {
    step_of(g0, volumes@, n0, e.data);
    all_via(*g0[n0].1, volumes@, e.data);
    assert(a0.contains(e) == (fits(e) && of_some(g0, volumes@, n0, e.data)));
} }
//@ at loop2.after
proof { assert forall|e: BoxEntry| #[trigger] acc0@.contains(e) == (a0.contains(e) || fits(e) && of_sector(*g0[n0].1, volumes@, e.data)) by {
    all_via(*g0[n0].1, volumes@, e.data);
    if firsts(g2, g2.len() as int, e.data) { let j = choose|j: int| 0 <= j < g2.len() && #[trigger] g2[j] == e.data; assert(g2.contains(e.data)); }
    if g2.contains(e.data) { let j = choose|j: int| 0 <= j < g2.len() && g2[j] == e.data; assert(g2[j] == e.data); assert(firsts(g2, g2.len() as int, e.data)); }
} }
//@ at tail
proof { assert forall|e: BoxEntry| #[trigger] entries@.contains(e) == entry_for(sectors.0@, volumes@, e) by { all_of(sectors.0, volumes@, e.data); } }
//@ fn SectorVolumeIndex as Clone::clone
//@ spec
ensures ret.0@ == self.0@,
//@ fn SectorVolumeIndex::get_or_build
//@ spec
ensures ready(*self, *sectors, *volumes) ==> tree_ok(*ret, sectors.0@, volumes@), self.0@ is Some ==> self.0@ == Some(*ret),
//@ fn SectorVolumeIndex::rebuild
//@ spec
ensures final(self).0@ is Some, ready(*final(self), *sectors, *volumes),
//@ fn SectorVolumeIndex::volumes_at
//@ spec
ensures ready(*self, *sectors, *volumes) ==> at_answer(sectors.0@, volumes@, coordinate, ret@),
//@ loop 0
forall|x: (String, Volume)| #[trigger] listed(acc0@, x) == (among(g0, it0.pos(), x) && inside(x.1.lateral_border, coordinate)),
//@ at loop0.start
let ghost a0 = acc0@;
//@ at loop0.end
proof { assert forall|x: (String, Volume)| #[trigger] listed(acc0@, x) == (among(g0, it0.pos(), x) && inside(x.1.lateral_border, coordinate)) by { assert(listed(a0, x) == (among(g0, it0.pos() - 1, x) && inside(x.1.lateral_border, coordinate))); step_among(g0, it0.pos() - 1, x); push_listed(a0, &vx_x0.data, x); } }
//@ at loop0.after
proof {
    broadcast use axiom_inside;
    if ready(*self, *sectors, *volumes) {
        assert forall|x: (String, Volume)| #[trigger] listed(acc0@, x) == here(sectors.0@, volumes@, coordinate, x) by {
            all_among(g0, x);
            if here(sectors.0@, volumes@, coordinate, x) { assert(entry_for(sectors.0@, volumes@, boxed(x))); assert(listed(g0, boxed(x))); }
        }
    }
}
//@ fn SectorVolumeIndex::volumes_near_line
//@ spec
ensures ready(*self, *sectors, *volumes) ==> near_answer(sectors.0@, volumes@, line, ret@),
//@ loop 0
forall|x: (String, Volume)| #[trigger] listed(acc0@, x) == among(g0, it0.pos(), x),
//@ at loop0.start
let ghost a0 = acc0@;
//@ at loop0.end
proof { assert forall|x: (String, Volume)| #[trigger] listed(acc0@, x) == among(g0, it0.pos(), x) by { assert(listed(a0, x) == among(g0, it0.pos() - 1, x)); step_among(g0, it0.pos() - 1, x); push_listed(a0, &vx_x0.data, x); } }
//@ at loop0.after
proof {
    broadcast use axiom_touches;
    if ready(*self, *sectors, *volumes) {
        assert forall|x: (String, Volume)| (#[trigger] listed(acc0@, x) ==> staffed(sectors.0@, volumes@, x)) && (staffed(sectors.0@, volumes@, x) && touches(x.1.lateral_border, line) ==> listed(acc0@, x)) by {
            all_among(g0, x);
            if staffed(sectors.0@, volumes@, x) && touches(x.1.lateral_border, line) { assert(entry_for(sectors.0@, volumes@, boxed(x))); assert(listed(g0, boxed(x))); }
        }
    }
}
//@ fn SectorVolumeIndex::find_sector
//@ fcmp
//@ type r0 Option<&(String, Volume)>
//@ spec
ensures ready(*self, *sectors, *volumes) ==> found(sectors.0@, volumes@, coordinate, level_ft, ret),
//@ loop 0
match r0 {
    Some(x) => (exists|j: int| 0 <= j < it0.pos() && *#[trigger] g0[j] == *x) && band(x.1, level_ft) && forall|j: int| 0 <= j < it0.pos() && band((#[trigger] g0[j]).1, level_ft) ==> str_le(x.0@, g0[j].0@),
    None => forall|j: int| 0 <= j < it0.pos() ==> !band((#[trigger] g0[j]).1, level_ft),
},
//@ at loop0.start
let ghost b0 = r0;
//@ at loop0.end
proof {
    let n = it0.pos() - 1;
    assert(*g0[n] == *vx_x0);
    axiom_str_le(vx_x0.0@, vx_x0.0@, vx_x0.0@);
    match b0 { Some(x) => { axiom_str_le(x.0@, vx_x0.0@, x.0@); assert forall|j: int| 0 <= j < it0.pos() && band((#[trigger] g0[j]).1, level_ft) implies str_le((r0->0).0@, g0[j].0@) by { axiom_str_le(vx_x0.0@, x.0@, g0[j].0@); } }, None => {} }
}
//@ at loop0.after
proof {
    if ready(*self, *sectors, *volumes) {
        assert(at_answer(sectors.0@, volumes@, coordinate, g0));
        match r0 {
            Some(y) => {
                let j = choose|j: int| 0 <= j < g0.len() && *#[trigger] g0[j] == *y;
                assert(listed(g0, *y));
                assert(here(sectors.0@, volumes@, coordinate, *y));
                assert forall|x: (String, Volume)| #[trigger] here(sectors.0@, volumes@, coordinate, x) && band(x.1, level_ft) implies str_le(y.0@, x.0@) by { assert(listed(g0, x)); }
            }
            None => { assert forall|x: (String, Volume)| #[trigger] here(sectors.0@, volumes@, coordinate, x) implies !band(x.1, level_ft) by { assert(listed(g0, x)); } }
        }
    }
}
//@ fn Adaptation::rebuild_sector_index
//@ spec
ensures final(self).sectors == old(self).sectors, final(self).volumes == old(self).volumes, final(self).sector_index.0@ is Some, ready(final(self).sector_index, final(self).sectors, final(self).volumes),
//@ fn Adaptation::find_sector
//@ spec
ensures ready(self.sector_index, self.sectors, self.volumes) ==> found(self.sectors.0@, self.volumes@, coordinate, level_ft, ret),
//@ fn Adaptation::volumes_at
//@ spec
ensures ready(self.sector_index, self.sectors, self.volumes) ==> at_answer(self.sectors.0@, self.volumes@, coordinate, ret@),
//@ loop 0
acc0@ == g0.take(it0.pos()),
//@ at loop0.end
proof { assert(g0.take(it0.pos()) =~= g0.take(it0.pos() - 1).push(g0[it0.pos() - 1])); }
//@ at loop0.after
proof { assert(g0.take(it0.pos()) =~= g0); }
//@ fn Adaptation::volumes_near_line
//@ spec
ensures ready(self.sector_index, self.sectors, self.volumes) ==> near_answer(self.sectors.0@, self.volumes@, line, ret@),
//@ loop 0
acc0@ == g0.take(it0.pos()),
//@ at loop0.end
proof { assert(g0.take(it0.pos()) =~= g0.take(it0.pos() - 1).push(g0[it0.pos() - 1])); }
//@ at loop0.after
proof { assert(g0.take(it0.pos()) =~= g0); }
