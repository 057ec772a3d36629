//@ source src/adaptation/sectors.rs
//@ source src/adaptation/maps/active.rs
//@ use base
//@ use map
//@ use multimap
//@ use set
//@ stubbed quantize
//@ itersrc lines
//@ rename clone .vx_dup
//@ tyrename ese::Sector EseSector
//@ exprcall degrees(c) = Coord::from((c.x as f64, c.y as f64)) / 1_000_000.0
//@ prelude
/// geo's plain types; positions in whole millionths of a degree are pairs of integers
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Coord<T = f64> { pub x: T, pub y: T }
#[verifier::allow(autoderive_clone_without_spec)]
#[derive(Clone, Copy)]
pub struct Line<T = f64> { pub start: Coord<T>, pub end: Coord<T> }
pub struct LineString(pub Vec<Coord>);
pub type Q = (int, int);
impl Coord<i64> { pub open spec fn q(self) -> Q { (self.x as int, self.y as int) } }
impl VKey for Coord<i64> { type KV = Q; open spec fn vkey(&self) -> Q { self.q() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Coord<i64> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self.x == o.x && self.y == o.y } }
impl PartialEq for Coord<i64> { fn eq(&self, o: &Self) -> (r: bool) { self.x == o.x && self.y == o.y } }
impl Coord {
    /// the position to a millionth of a degree (C17)
    pub uninterp spec fn quant(self) -> Coord<i64>;
    #[verifier::external_body]
    pub fn quantize(&self) -> (r: Coord<i64>) ensures r == self.quant() { unimplemented!() }
}
impl<T> Line<T> { pub fn new(start: Coord<T>, end: Coord<T>) -> (r: Line<T>) ensures r.start == start, r.end == end { Line { start, end } } }
/// geo: the segments between consecutive points
pub open spec fn segs(s: Seq<Coord>) -> Seq<Line> { Seq::new(if s.len() == 0 { 0 } else { (s.len() - 1) as nat }, |i: int| Line { start: s[i], end: s[i + 1] }) }
impl LineString { #[verifier::external_body] pub fn lines(&self) -> (r: VxIter<Line>) ensures r.pos() == 0, r@ == segs(self.0@) { unimplemented!() } }
/// millionths of a degree as degrees
pub uninterp spec fn deg(c: Coord<i64>) -> Coord;
#[verifier::external_body]
pub fn degrees(c: &Coord<i64>) -> (r: Coord) ensures r == deg(*c) { unimplemented!() }
impl VxFrom<Coord> for LineString { open spec fn vx_is(s: Seq<Coord>, r: Self) -> bool { r.0@ == s } fn vx_from(v: Vec<Coord>) -> (r: Self) { LineString(v) } }
pub struct SectorLine { pub points: LineString }
pub struct Polygon { p: core::marker::PhantomData<()> }
/// the ring turned counter-clockwise, and the polygon of a ring without holes (geo)
pub uninterp spec fn ccw(r: LineString) -> LineString;
pub uninterp spec fn polygon(r: LineString) -> Polygon;
impl LineString { #[verifier::external_body] pub fn make_ccw_winding(&mut self) ensures *final(self) == ccw(*old(self)) { unimplemented!() } }
impl Polygon { #[verifier::external_body] pub fn new(r: LineString, holes: Vec<LineString>) -> (p: Polygon) ensures holes@.len() == 0 ==> p == polygon(r) { unimplemented!() } }
use core::marker::PhantomData;
//@ item RunwayIdentifier noclone
//@ item Volume noclone
//@ item Sector noclone
//@ item Sectors noclone
//@ prelude
/// ese::Sector
pub struct EseSector {
    pub id: String,
    pub bottom: u32,
    pub top: u32,
    pub border: Vec<SectorLine>,
    pub owner_priority: Vec<String>,
    pub departure_airports: Vec<String>,
    pub arrival_airports: Vec<String>,
    pub runway_filter: Vec<RunwayIdentifier>,
}
pub struct Ese { pub sectors: HashMap<String, EseSector> }
#[verifier::reject_recursive_types(K1)]
#[verifier::reject_recursive_types(K2)]
pub struct TwoKeyMultiMap<K1, K2, V>(pub MultiMap<(K1, K2), V>);
impl VKey for RunwayIdentifier { type KV = (Seq<char>, Seq<char>); open spec fn vkey(&self) -> (Seq<char>, Seq<char>) { (self.icao@, self.designator@) } }
impl<T: VKey> VKey for Vec<T> { type KV = Seq<T::KV>; open spec fn vkey(&self) -> Seq<T::KV> { Seq::new(self@.len(), |i: int| self@[i].vkey()) } }
/// a line between two points, to a millionth of a degree
pub type E = (Q, Q);
pub open spec fn e_of(l: Line<i64>) -> E { (l.start.q(), l.end.q()) }
pub open spec fn qseg(l: Line) -> Line<i64> { Line { start: l.start.quant(), end: l.end.quant() } }
pub open spec fn qsegs(s: Seq<Line>) -> Seq<Line<i64>> { Seq::new(s.len(), |i: int| qseg(s[i])) }
/// all segments of a border, in order
pub open spec fn border_lines(b: Seq<SectorLine>) -> Seq<Line<i64>> decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { border_lines(b.drop_last()) + qsegs(segs(b.last().points.0@)) } }
pub open spec fn es(l: Seq<Line<i64>>) -> Seq<E> { Seq::new(l.len(), |i: int| e_of(l[i])) }
pub open spec fn joins(e: E, a: Q, b: Q) -> bool { e == (a, b) || e == (b, a) }
/// c walks along the lines p[0], p[1], .. of e, each once
pub open spec fn walks(e: Seq<E>, c: Seq<Q>, p: Seq<int>) -> bool {
    &&& c.len() == p.len() + 1
    &&& forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < e.len() && joins(e[p[k]], c[k], c[k + 1])
    &&& forall|k: int, j: int| 0 <= k < j < p.len() ==> #[trigger] p[k] != #[trigger] p[j]
}
/// c is one closed walk over every line exactly once
pub open spec fn circuit(e: Seq<E>, c: Seq<Q>, p: Seq<int>) -> bool { e.len() > 0 && walks(e, c, p) && p.len() == e.len() && c[0] == c.last() }
pub open spec fn qs(s: Seq<Coord<i64>>) -> Seq<Q> { Seq::new(s.len(), |i: int| s[i].q()) }
pub open spec fn b2n(b: bool) -> int { if b { 1 } else { 0 } }
/// how often a line leads from u to v (a loop counts twice)
pub open spec fn ways(e: E, u: Q, v: Q) -> int { b2n(e == (u, v)) + b2n(e == (v, u)) }
/// sum of f over the marked indices below k
pub open spec fn tally(f: spec_fn(int) -> int, rem: Seq<bool>, k: int) -> int decreases k
{ if k <= 0 { 0 } else { tally(f, rem, k - 1) + (if rem[k - 1] { f(k - 1) } else { 0 }) } }
pub open spec fn fw(e: Seq<E>, u: Q, v: Q) -> spec_fn(int) -> int { |i: int| ways(e[i], u, v) }
pub open spec fn fd(e: Seq<E>, v: Q) -> spec_fn(int) -> int { |i: int| b2n(e[i].0 == v) + b2n(e[i].1 == v) }
pub open spec fn f1() -> spec_fn(int) -> int { |i: int| 1int }
/// lines from u to v, and line ends at v, among the marked ones
pub open spec fn cnt(e: Seq<E>, rem: Seq<bool>, k: int, u: Q, v: Q) -> int { tally(fw(e, u, v), rem, k) }
pub open spec fn dg(e: Seq<E>, rem: Seq<bool>, k: int, v: Q) -> int { tally(fd(e, v), rem, k) }
pub open spec fn left(rem: Seq<bool>, k: int) -> int { tally(f1(), rem, k) }
pub open spec fn full(n: nat) -> Seq<bool> { Seq::new(n, |i: int| true) }
pub open spec fn occ(s: Seq<Coord<i64>>, v: Q) -> int decreases s.len()
{ if s.len() == 0 { 0 } else { occ(s.drop_last(), v) + b2n(s.last().q() == v) } }
pub open spec fn adj_at(m: Map<Q, Vec<Coord<i64>>>, u: Q) -> Seq<Coord<i64>> { if m.contains_key(u) { m[u]@ } else { Seq::empty() } }
/// the neighbour lists are those of the remaining lines
pub open spec fn adj_ok(m: Map<Q, Vec<Coord<i64>>>, e: Seq<E>, rem: Seq<bool>) -> bool {
    forall|u: Q, v: Q| #[trigger] occ(adj_at(m, u), v) == cnt(e, rem, e.len() as int, u, v)
}
/// the border can be walked as one closed circuit
pub open spec fn valid(s: EseSector) -> bool { exists|c: Seq<Q>, p: Seq<int>| #[trigger] circuit(es(border_lines(s.border@)), c, p) }
/// owners and runway condition
pub type GK = (Seq<Seq<char>>, Seq<(Seq<char>, Seq<char>)>);
pub open spec fn gk(s: EseSector) -> GK { (s.owner_priority.vkey(), s.runway_filter.vkey()) }
pub open spec fn in_group(m: Map<Seq<char>, EseSector>, g: GK, v: Seq<char>) -> bool { m.contains_key(v) && valid(m[v]) && gk(m[v]) == g }
/// the order of identifiers
pub uninterp spec fn str_le(a: Seq<char>, b: Seq<char>) -> bool;
pub axiom fn axiom_str_le(a: Seq<char>, b: Seq<char>) ensures str_le(a, b) && str_le(b, a) ==> a == b;
impl<'a> VxIter<&'a String> {
    #[verifier::external_body]
    pub fn vx_min(self) -> (r: Option<&'a String>)
        requires self.pos() == 0
        ensures match r { Some(x) => (exists|i: int| 0 <= i < self@.len() && #[trigger] self@[i] == x) && (forall|i: int| 0 <= i < self@.len() ==> str_le(x@, (#[trigger] self@[i])@)), None => self@.len() == 0 }
    { unimplemented!() }
}
pub open spec fn key_of(s: Sector) -> GK { (s.position_priority.vkey(), s.runway_filter@[0].vkey()) }
pub open spec fn has(s: Seq<String>, a: Seq<char>) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == a }
pub open spec fn ports(s: EseSector, dep: bool) -> Seq<String> { if dep { s.departure_airports@ } else { s.arrival_airports@ } }
pub open spec fn group_has(m: Map<Seq<char>, EseSector>, g: GK, dep: bool, a: Seq<char>) -> bool { exists|v: Seq<char>| #[trigger] in_group(m, g, v) && has(ports(m[v], dep), a) }
/// s is the sector of the volumes of group g
pub open spec fn sector_of(m: Map<Seq<char>, EseSector>, s: Sector, g: GK) -> bool {
    &&& s.runway_filter@.len() == 1
    &&& s.position_priority.vkey() == g.0 && s.runway_filter@[0].vkey() == g.1
    &&& in_group(m, g, s.id@) && forall|v: Seq<char>| #[trigger] in_group(m, g, v) ==> str_le(s.id@, v)
    &&& forall|v: Seq<char>| #[trigger] s.volumes@.contains(v) == in_group(m, g, v)
    &&& forall|a: Seq<char>| #[trigger] s.departure_aerodromes@.contains(a) == group_has(m, g, true, a)
    &&& forall|a: Seq<char>| #[trigger] s.arrival_aerodromes@.contains(a) == group_has(m, g, false, a)
}
/// v is in some sector; no volume is in two sectors
pub open spec fn covered(secs: Map<Seq<char>, Sector>, v: Seq<char>) -> bool { exists|k: Seq<char>| #[trigger] secs.contains_key(k) && secs[k].volumes@.contains(v) }
pub open spec fn apart(secs: Map<Seq<char>, Sector>) -> bool { forall|v: Seq<char>, k: Seq<char>, l: Seq<char>| #[trigger] secs.contains_key(k) && #[trigger] secs.contains_key(l) && #[trigger] secs[k].volumes@.contains(v) && secs[l].volumes@.contains(v) ==> k == l }
pub open spec fn volume_of(v: Volume, id: Seq<char>, s: EseSector) -> bool {
    &&& v.id@ == id && v.lower_level == s.bottom && v.upper_level == s.top
    &&& exists|r: LineString| v.lateral_border == polygon(ccw(r)) && #[trigger] is_ring(es(border_lines(s.border@)), r)
}
/// r walks once along every line of e
pub open spec fn is_ring(e: Seq<E>, r: LineString) -> bool { exists|c: Seq<Coord<i64>>, p: Seq<int>| #[trigger] circuit(e, qs(c), p) && r.0@ == Seq::new(c.len(), |i: int| deg(c[i])) }
pub open spec fn named(s: Seq<(String, EseSector)>, v: Seq<char>) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0@ == v }
/// every list holds volumes of its group
pub open spec fn groups_of(m: Map<Seq<char>, EseSector>, mm: Map<GK, Seq<(String, EseSector)>>) -> bool {
    forall|g: GK| #[trigger] mm.contains_key(g) ==> mm[g].len() > 0 && (forall|j: int| 0 <= j < mm[g].len() ==> in_group(m, g, (#[trigger] mm[g][j]).0@) && mm[g][j].1 == m[mm[g][j].0@])
}
#[verifier::opaque]
pub open spec fn keyed(acc: Map<Seq<char>, Sector>, g: GK) -> bool { exists|k: Seq<char>| #[trigger] acc.contains_key(k) && key_of(acc[k]) == g }
pub open spec fn air(s: Seq<EseSector>, dep: bool) -> Seq<String> decreases s.len() { if s.len() == 0 { Seq::empty() } else { air(s.drop_last(), dep) + ports(s.last(), dep) } }
impl Sectors { pub fn vx_iter(&self) -> (r: VxIter<(&String, &Sector)>) ensures r.pos() == 0, r@ == entry_refs(entries(self.0)) { self.0.vx_iter() } }
//@ fn polygon_from_ese  loops=8
//@ attr verifier::loop_isolation(false)
//@ rlimit 200
//@ spec
ensures
    ({ let e = es(border_lines(sector.border@));
       &&& ret matches Some(ring) ==> is_ring(e, ring)
       &&& ret is None ==> forall|c: Seq<Q>, p: Seq<int>| !#[trigger] circuit(e, c, p) }),
//@ at start
let ghost b = sector.border@;
let ghost e = es(border_lines(b));
let ghost n = e.len() as int;
let ghost mut rem: Seq<bool> = full(e.len());
let ghost mut si: Seq<int> = Seq::empty();
let ghost mut ri: Seq<int> = Seq::empty();
let ghost mut pe: int = 0;
let ghost mut an: Q = (0, 0);
let ghost mut rgc: Seq<Coord<i64>> = Seq::empty();
let ghost mut adj_e: Map<Q, Vec<Coord<i64>>> = Map::empty();
//@ loop 0
invariant b == sector.border@, g0 == seq_refs(b), acc0@ == border_lines(b.take(it0.pos())),
//@ at loop0.start
let ghost n0 = it0.pos() - 1;
let ghost a0 = acc0@;
proof { assert(b.take(n0 + 1).drop_last() =~= b.take(n0)); }
//@ loop 1
invariant g1 == segs(b[n0].points.0@), acc1@ == qsegs(g1).take(it1.pos()),
//@ at loop1.end
proof { assert(acc1@ =~= qsegs(g1).take(it1.pos())); }
//@ at loop1.after
proof { assert(qsegs(g1).take(it1.pos()) =~= qsegs(g1)); }
//@ loop 2
invariant g2 == qsegs(segs(b[n0].points.0@)), acc0@ == a0 + g2.take(it2.pos()),
//@ at loop2.end
proof { assert(acc0@ =~= a0 + g2.take(it2.pos())); }
//@ at loop2.after
proof { assert(g2.take(it2.pos()) =~= g2); assert(acc0@ == border_lines(b.take(n0 + 1))); }
//@ at loop0.after
proof { assert(b.take(it0.pos()) =~= b); }
//@ loop 3
invariant
    g3 == seq_refs(lines@), lines@ == border_lines(b), e == es(lines@), n == e.len(),
    forall|u: Q, v: Q| #[trigger] occ(adj_at(acc3.0@, u), v) == cnt(e, full(e.len()), it3.pos(), u, v),
    forall|v: Q| #[trigger] acc3.1@.contains_key(v) == acc3.0@.contains_key(v),
    forall|v: Q| #[trigger] acc3.1@.contains_key(v) ==> acc3.1@[v] == acc3.0@[v]@.len(),
    forall|i: int| 0 <= i < it3.pos() ==> acc3.0@.contains_key((#[trigger] e[i]).0) && acc3.0@.contains_key(e[i].1),
    forall|v: Q| #[trigger] adj_at(acc3.0@, v).len() == dg(e, full(e.len()), it3.pos(), v),
//@ at loop3.start
let ghost n3 = it3.pos() - 1;
let ghost m3 = acc3.0@;
let ghost mut m31 = acc3.0@;
let ghost mut m32 = acc3.0@;
let ghost s3 = vx_x3.start.q();
let ghost t3 = vx_x3.end.q();
//@ at call:entry#1.before
proof { m31 = adj_list@; }
//@ at call:entry#2.before
proof {
    m32 = adj_list@;
    assert(m32[s3]@.len() <= usize::MAX && m32[t3]@.len() <= usize::MAX) by { let _ = (m32[s3].len(), m32[t3].len()); }
}
//@ at loop3.end
proof {
    assert(e[n3] == (s3, t3));
    let (l_s, l_e) = (vx_x3.start, vx_x3.end);
    assert forall|u: Q| #[trigger] adj_at(m31, u) == (if u == s3 { adj_at(m3, u).push(l_e) } else { adj_at(m3, u) }) by {}
    assert forall|u: Q| #[trigger] adj_at(m32, u) == (if u == t3 { adj_at(m31, u).push(l_s) } else { adj_at(m31, u) }) by {}
    assert forall|u: Q, v: Q| #[trigger] occ(adj_at(m32, u), v) == cnt(e, full(e.len()), it3.pos(), u, v) by {
        lemma_occ_push(adj_at(m3, u), l_e, v);
        lemma_occ_push(adj_at(m31, u), l_s, v);
        assert(occ(adj_at(m3, u), v) == cnt(e, full(e.len()), n3, u, v));
    }
    assert forall|v: Q| #[trigger] adj_at(m32, v).len() == dg(e, full(e.len()), it3.pos(), v) by {
        assert(adj_at(m3, v).len() == dg(e, full(e.len()), n3, v));
    }
}
//@ loop 4
invariant
    g4 == Seq::new(entries(edge_count).len(), |i: int| &entries(edge_count)[i].1),
    r4 ==> forall|i: int| 0 <= i < it4.pos() ==> *(#[trigger] g4[i]) % 2 == 0,
    !r4 ==> exists|i: int| 0 <= i < g4.len() && *(#[trigger] g4[i]) % 2 == 1,
//@ at loop4.after
proof {
    broadcast use axiom_entries;
    adj_e = adj_list@;
    let en = entries(edge_count);
    if r4 {
        assert forall|v: Q| #[trigger] adj_at(adj_list@, v).len() % 2 == 0 by {
            if adj_list@.contains_key(v) {
                assert(edge_count@.contains_key(v));
                let i = choose|i: int| 0 <= i < en.len() && (#[trigger] en[i]).0.vkey() == v;
                assert(*g4[i] % 2 == 0);
                assert(edge_count@[v] == en[i].1);
            }
        }
    } else {
        let i = choose|i: int| 0 <= i < g4.len() && *(#[trigger] g4[i]) % 2 == 1;
        let v = en[i].0.vkey();
        assert(edge_count@.contains_key(v) && edge_count@[v] == en[i].1);
        assert(adj_at(adj_list@, v).len() % 2 == 1);
        assert(dg(e, full(e.len()), n, v) % 2 == 1);
        assert forall|c: Seq<Q>, p: Seq<int>| !#[trigger] circuit(e, c, p) by { if circuit(e, c, p) { lemma_circuit_even(e, c, p, v); } }
    }
}
//@ at loop5.before
let ghost start = current.q();
proof {
    assert(e[0].0 == start);
    rem = full(e.len()); si = Seq::empty(); ri = Seq::empty(); an = start;
    lemma_left_full(e.len(), n);
    assert(qs(stack@).skip(1).push(start) =~= seq![start]);
    assert(qs(line_ring@) =~= Seq::<Q>::empty());
    assert(qs(stack@) =~= seq![start]);
}
//@ loop 5
invariant
    n == e.len(), n > 0, rem.len() == n, e == es(lines@), start == e[0].0,
    adj_ok(adj_list@, e, rem),
    forall|i: int| 0 <= i < n ==> adj_list@.contains_key((#[trigger] e[i]).0) && adj_list@.contains_key(e[i].1),
    adj_list@.contains_key(current.q()),
    forall|i: int| 0 <= i < stack@.len() ==> adj_list@.contains_key(#[trigger] qs(stack@)[i]),
    forall|v: Q| #[trigger] adj_at(adj_list@, v).len() % 2 == (if (v == an) != (v == current.q()) { 1int } else { 0int }),
    stack@.len() > 0 ==> qs(stack@)[0] == start && walks(e, qs(stack@).skip(1).push(current.q()), si) && qs(stack@).skip(1).push(current.q())[0] == start,
    stack@.len() == 0 ==> current.q() == start && si.len() == 0 && line_ring@.len() > 0 && qs(line_ring@).last() == start,
    line_ring@.len() > 0 ==> walks(e, qs(line_ring@), ri) && qs(line_ring@)[0] == start,
    line_ring@.len() == 0 ==> ri.len() == 0 && an == start,
    line_ring@.len() > 0 && stack@.len() > 0 ==> 0 <= pe < n && joins(e[pe], an, qs(line_ring@).last()) && !rem[pe] && !si.contains(pe) && !ri.contains(pe),
    forall|k: int| 0 <= k < si.len() ==> 0 <= #[trigger] si[k] < n && !rem[si[k]],
    forall|k: int| 0 <= k < ri.len() ==> 0 <= #[trigger] ri[k] < n && !rem[ri[k]],
    forall|a: int, c: int| 0 <= a < si.len() && 0 <= c < ri.len() ==> #[trigger] si[a] != #[trigger] ri[c],
    left(rem, n) + si.len() + ri.len() + (if line_ring@.len() > 0 && stack@.len() > 0 { 1int } else { 0int }) == n,
    forall|k: int| 0 <= k < line_ring@.len() ==> adj_at(adj_list@, #[trigger] qs(line_ring@)[k]).len() == 0,
    forall|j: int| 0 <= j < n && !#[trigger] rem[j] ==> seen(qs(line_ring@), qs(stack@), current.q(), e[j].0) && seen(qs(line_ring@), qs(stack@), current.q(), e[j].1),
decreases 2 * left(rem, n) + stack@.len()
//@ at loop5.start
let ghost m5 = adj_list@;
let ghost mut m51 = adj_list@;
let ghost st = qs(stack@);
let ghost rg = qs(line_ring@);
let ghost cu = current.q();
let ghost mut ix: int = 0;
let ghost mut px: int = 0;
let ghost mut nx: Q = cu;
//@ at call:get_mut#1.before
proof {
    nx = next.q();
    m51 = adj_list@;
    ix = lemma_step(e, rem, m5, m51, cu, nx);
}
//@ loop 6
invariant
    g6 == seq_refs(rev_neighbours@),
    r6 is None ==> forall|i: int| 0 <= i < it6.pos() ==> (#[trigger] rev_neighbours@[i]).q() != cu,
    r6 matches Some(q) ==> rev_neighbours@[q as int].q() == cu,
//@ at loop6.after
proof {
    if r6 is None { lemma_occ_none(rev_neighbours@, cu); }
    px = r6->0 as int;
}
//@ at loop5.end
proof {
    lemma_left_max(rem, n);
    assert(qs(stack@).len() == stack@.len() && qs(line_ring@).len() == line_ring@.len());
    if adj_at(m5, cu).len() == 0 {
        assert(adj_list@ =~= m5);
        assert(adj_at(m5, cu).len() % 2 == 0);
        assert(an == cu);
        let k = st.len() - 1;
        let w0 = st.skip(1).push(cu);
        let act = rg.len() > 0;
        assert(qs(stack@) =~= st.drop_last());
        assert(qs(line_ring@) =~= rg.push(cu));
        assert(current.q() == st.last());
        let (si0, ri0, pe0) = (si, ri, pe);
        if act { ri = ri.push(pe); }
        if k > 0 {
            assert(si.len() == k);
            assert(joins(e[si0[k - 1]], w0[k - 1], w0[k]));
            assert(w0[k] == cu && w0[k - 1] == st.last());
            pe = si.last();
            si = si.drop_last();
            assert(qs(stack@).skip(1).push(current.q()) =~= w0.drop_last());
            assert(!rem[si0[k - 1]]);
            assert(!si.contains(pe)) by { if si.contains(pe) { let j = choose|j: int| 0 <= j < si.len() && si[j] == pe; assert(si0[j] == si0[k - 1]); } }
            assert(!ri.contains(pe)) by { if ri.contains(pe) { let j = choose|j: int| 0 <= j < ri.len() && ri[j] == pe; if j == ri0.len() { assert(si0.contains(pe)) by { assert(si0[k - 1] == pe); } } else { assert(si0[k - 1] != ri0[j]); } } }
        } else {
            assert(w0.len() == 1 && cu == w0[0]);
        }
        an = current.q();
        assert(walks(e, qs(line_ring@), ri)) by {
            if act {
                assert forall|a: int, c: int| 0 <= a < c < ri.len() implies #[trigger] ri[a] != #[trigger] ri[c] by { if c == ri0.len() { assert(ri0.contains(ri0[a])); } }
            }
        }
        assert forall|a: int, c: int| 0 <= a < si.len() && 0 <= c < ri.len() implies #[trigger] si[a] != #[trigger] ri[c] by { assert(si[a] == si0[a]); if c == ri0.len() { assert(si0.contains(si0[a])); } }
        assert forall|j: int| 0 <= j < n && !#[trigger] rem[j] implies seen(qs(line_ring@), qs(stack@), current.q(), e[j].0) && seen(qs(line_ring@), qs(stack@), current.q(), e[j].1) by {
            lemma_seen_pop(rg, st, cu, e[j].0); lemma_seen_pop(rg, st, cu, e[j].1);
        }
    } else {
        lemma_taken(e, rem, m5, m51, adj_list@, cu, nx, ix, px);
        assert(qs(stack@) =~= st.push(cu));
        assert(qs(line_ring@) =~= rg);
        let (rem0, si0) = (rem, si);
        lemma_tally_update(f1(), rem, ix, false, n);
        rem = rem.update(ix, false);
        lemma_left_max(rem, n);
        si = si.push(ix);
        let w0 = st.skip(1).push(cu);
        assert(qs(stack@).skip(1).push(nx) =~= w0.push(nx));
        assert(walks(e, w0.push(nx), si)) by {
            assert forall|k: int| 0 <= k < si.len() implies 0 <= #[trigger] si[k] < e.len() && joins(e[si[k]], w0.push(nx)[k], w0.push(nx)[k + 1]) by { if k < si0.len() { assert(si[k] == si0[k]); } }
            assert forall|a: int, c: int| 0 <= a < c < si.len() implies #[trigger] si[a] != #[trigger] si[c] by { assert(!rem0[si0[a]]); }
        }
        assert forall|a: int, c: int| 0 <= a < si.len() && 0 <= c < ri.len() implies #[trigger] si[a] != #[trigger] ri[c] by { assert(!rem0[ri[c]]); if a < si0.len() { assert(si[a] == si0[a]); } }
        if rg.len() > 0 { assert(!si.contains(pe)) by { if si.contains(pe) { let j = choose|j: int| 0 <= j < si.len() && si[j] == pe; if j < si0.len() { assert(si0[j] == pe); assert(si0.contains(pe)); } } } }
        assert forall|j: int| 0 <= j < n && !#[trigger] rem[j] implies seen(qs(line_ring@), qs(stack@), current.q(), e[j].0) && seen(qs(line_ring@), qs(stack@), current.q(), e[j].1) by {
            lemma_seen_push(rg, st, cu, nx, e[j].0); lemma_seen_push(rg, st, cu, nx, e[j].1);
            if j != ix { assert(!rem0[j]); }
        }
        assert forall|i: int| 0 <= i < stack@.len() implies adj_list@.contains_key(#[trigger] qs(stack@)[i]) by { if i < st.len() { assert(m5.contains_key(st[i])); } }
        assert forall|k: int| 0 <= k < line_ring@.len() implies adj_at(adj_list@, #[trigger] qs(line_ring@)[k]).len() == 0 by { assert(adj_at(m5, rg[k]).len() == 0); }
    }
}
//@ at loop5.after
proof {
    rgc = line_ring@; adj_e = adj_list@;
    assert(qs(rgc)[rgc.len() - 1] == start);
    assert forall|j: int| 0 <= j < n && !#[trigger] rem[j] implies qs(rgc).contains(e[j].0) && qs(rgc).contains(e[j].1) by { assert(qs(stack@) =~= Seq::<Q>::empty()); }
}
//@ loop 7
invariant g7 == seq_refs(rgc), acc5@.len() == it7.pos(), forall|i: int| 0 <= i < it7.pos() ==> #[trigger] acc5@[i] == deg(rgc[i]),
//@ at loop7.after
proof { axiom_vec_max(&lines); assert(acc5@ =~= Seq::new(rgc.len(), |i: int| deg(rgc[i]))); }
//@ at tail
proof {
    lemma_left_max(rem, n);
    if rgc.len() == n + 1 {
        assert(circuit(e, qs(rgc), ri));
    } else {
        assert forall|c: Seq<Q>, p: Seq<int>| !#[trigger] circuit(e, c, p) by { if circuit(e, c, p) { lemma_leftover(e, rem, adj_e, qs(rgc), e[0].0, c, p); } }
    }
}
//@ fn Volume::new
//@ spec
ensures ret.id == id, ret.lower_level == lower_level, ret.upper_level == upper_level, ret.lateral_border == polygon(ccw(lateral_border)),
//@ fn Sectors::from_ese  loops=8
//@ type acc1 HashMap<String, Sector>
//@ attr verifier::loop_isolation(false)
//@ rlimit 200
//@ spec
ensures
    ({ let m = ese.sectors@;
       let (vols, secs) = (ret.0@, ret.1.0@);
       &&& forall|v: Seq<char>| #[trigger] vols.contains_key(v) == (m.contains_key(v) && valid(m[v]))
       &&& forall|v: Seq<char>| #[trigger] vols.contains_key(v) ==> volume_of(vols[v], v, m[v])
       &&& forall|k: Seq<char>| #[trigger] secs.contains_key(k) ==> secs[k].id@ == k && sector_of(m, secs[k], key_of(secs[k]))
       &&& forall|v: Seq<char>| m.contains_key(v) && valid(m[v]) ==> #[trigger] covered(secs, v)
       &&& apart(secs) }),
//@ at start
broadcast use axiom_entries, axiom_mm_entries;
let ghost m = ese.sectors@;
let ghost en = entries(ese.sectors);
let ghost mut mm: Map<GK, Seq<(String, EseSector)>> = Map::empty();
let ghost mut me: Seq<((Vec<String>, Vec<RunwayIdentifier>), Vec<(String, EseSector)>)> = Seq::empty();
//@ loop 0
invariant
    m == ese.sectors@, g0 == entry_refs(en), lists(en, m),
    groups_of(m, acc0.0.0@),
    forall|i: int| 0 <= i < it0.pos() && valid(#[trigger] en[i].1) ==> acc0.0.0@.contains_key(gk(en[i].1)) && named(acc0.0.0@[gk(en[i].1)], en[i].0@),
    forall|v: Seq<char>| #[trigger] acc0.1@.contains_key(v) ==> m.contains_key(v) && valid(m[v]) && volume_of(acc0.1@[v], v, m[v]),
    forall|i: int| 0 <= i < it0.pos() && valid(#[trigger] en[i].1) ==> acc0.1@.contains_key(en[i].0@),
//@ at loop0.start
let ghost n0 = it0.pos() - 1;
let ghost mm0 = acc0.0.0@;
let ghost vo0 = acc0.1@;
proof { assert(*vx_x0.0 == en[n0].0 && *vx_x0.1 == en[n0].1); assert(m.contains_key(en[n0].0.vkey()) && m[en[n0].0.vkey()] == en[n0].1); }
//@ at loop0.end
proof {
    let mm = acc0.0.0@;
    let (id, sec) = en[n0];
    if valid(sec) {
        let g = gk(sec);
        let before = if mm0.contains_key(g) { mm0[g] } else { Seq::empty() };
        assert(mm == mm0.insert(g, before.push((id, sec))));
        assert(mm[g][before.len() as int].0@ == id@);
        assert forall|i: int| 0 <= i < it0.pos() && valid(#[trigger] en[i].1) implies mm.contains_key(gk(en[i].1)) && named(mm[gk(en[i].1)], en[i].0@) by {
            if i < n0 && gk(en[i].1) == g { let j = choose|j: int| 0 <= j < mm0[g].len() && (#[trigger] mm0[g][j]).0@ == en[i].0@; assert(mm[g][j].0@ == en[i].0@); }
        }
        assert forall|h: GK| #[trigger] mm.contains_key(h) implies mm[h].len() > 0 && (forall|j: int| 0 <= j < mm[h].len() ==> in_group(m, h, (#[trigger] mm[h][j]).0@) && mm[h][j].1 == m[mm[h][j].0@]) by {
            if h == g {
                assert forall|j: int| 0 <= j < mm[h].len() implies in_group(m, h, (#[trigger] mm[h][j]).0@) && mm[h][j].1 == m[mm[h][j].0@] by { if j < before.len() { assert(mm[h][j] == mm0[g][j]); } }
            }
        }
    }
}
//@ at loop0.after
let ghost vols = acc0.1@;
proof {
    mm = acc0.0.0@;
    me = mm_entries(acc0.0.0);
    assert(mm_lists(me, mm));
    assert forall|v: Seq<char>| #[trigger] vols.contains_key(v) == (m.contains_key(v) && valid(m[v])) by {
        if m.contains_key(v) && valid(m[v]) { let i = choose|i: int| 0 <= i < en.len() && (#[trigger] en[i]).0.vkey() == v; assert(valid(en[i].1)); }
    }
    assert forall|g: GK, v: Seq<char>| #[trigger] in_group(m, g, v) implies mm.contains_key(g) && named(mm[g], v) by {
        let i = choose|i: int| 0 <= i < en.len() && (#[trigger] en[i]).0.vkey() == v; assert(valid(en[i].1));
    }
}
//@ loop 1
invariant
    m == ese.sectors@, g1 == me, mm_lists(me, mm), groups_of(m, mm),
    forall|g: GK, v: Seq<char>| #[trigger] in_group(m, g, v) ==> mm.contains_key(g) && named(mm[g], v),
    forall|k: Seq<char>| #[trigger] acc1@.contains_key(k) ==> acc1@[k].id@ == k && sector_of(m, acc1@[k], key_of(acc1@[k])) && (exists|i: int| 0 <= i < it1.pos() && (#[trigger] me[i]).0.vkey() == key_of(acc1@[k])),
    forall|i: int| 0 <= i < it1.pos() ==> keyed(acc1@, (#[trigger] me[i]).0.vkey()),
//@ at loop1.start
let ghost n1 = it1.pos() - 1;
let ghost g = vx_x1.0.vkey();
let ghost vs = vx_x1.1@;
let ghost ac0 = acc1@;
let ghost mut va: Seq<String> = Seq::empty();
let ghost mut sb: Seq<EseSector> = Seq::empty();
proof { assert(vx_x1 == me[n1]); assert(mm.contains_key(me[n1].0.vkey()) && mm[me[n1].0.vkey()] == me[n1].1@); }
//@ loop 2
invariant g2 == vs, ua2@.len() == it2.pos(), ub2@.len() == it2.pos(), forall|i: int| 0 <= i < it2.pos() ==> #[trigger] ua2@[i] == vs[i].0, forall|i: int| 0 <= i < it2.pos() ==> #[trigger] ub2@[i] == vs[i].1,
//@ at loop2.after
proof { va = ua2@; sb = ub2@; }
//@ loop 3
invariant g3 == va, acc3@ == va.take(it3.pos()),
//@ at loop3.after
proof { assert(va.take(it3.pos()) =~= va); }
//@ loop 4
invariant g4 == seq_refs(sb), acc4@ == air(sb.take(it4.pos()), true),
//@ at loop4.start
let ghost n4 = it4.pos() - 1;
let ghost a4 = acc4@;
proof { assert(sb.take(n4 + 1).drop_last() =~= sb.take(n4)); }
//@ loop 5
invariant g5 == seq_refs(sb[n4].departure_airports@), acc4@ == a4 + sb[n4].departure_airports@.take(it5.pos()),
//@ at loop5.end
proof { assert(acc4@ =~= a4 + sb[n4].departure_airports@.take(it5.pos())); }
//@ at loop5.after
proof { assert(sb[n4].departure_airports@.take(it5.pos()) =~= sb[n4].departure_airports@); }
//@ at loop4.after
proof { assert(sb.take(it4.pos()) =~= sb); }
//@ loop 6
invariant g6 == seq_refs(sb), acc6@ == air(sb.take(it6.pos()), false),
//@ at loop6.start
let ghost n6 = it6.pos() - 1;
let ghost a6 = acc6@;
proof { assert(sb.take(n6 + 1).drop_last() =~= sb.take(n6)); }
//@ loop 7
invariant g7 == seq_refs(sb[n6].arrival_airports@), acc6@ == a6 + sb[n6].arrival_airports@.take(it7.pos()),
//@ at loop7.end
proof { assert(acc6@ =~= a6 + sb[n6].arrival_airports@.take(it7.pos())); }
//@ at loop7.after
proof { assert(sb[n6].arrival_airports@.take(it7.pos()) =~= sb[n6].arrival_airports@); }
//@ at loop6.after
proof { assert(sb.take(it6.pos()) =~= sb); }
//@ at call:insert#2.before
let ghost gid = id@;
//@ at call:insert#2.after
proof {
    assert(seq_refs(va).len() == va.len());
    let i = choose|i: int| 0 <= i < seq_refs(va).len() && (#[trigger] seq_refs(va)[i])@ == gid;
    assert(va[i]@ == gid);
    assert forall|i: int| 0 <= i < va.len() implies str_le(gid, (#[trigger] va[i])@) by { assert(str_le(gid, seq_refs(va)[i]@)); }
    lemma_new_group(m, mm, me, n1, ac0, acc@, gid, acc@[gid], g, vs, va, sb);
}
//@ at tail
proof {
    lemma_partition(m, mm, me, sectors@);
}
//@ fn Sectors::find_id_by_volume  loops=1
//@ type r0 Option<&String>
//@ spec
ensures match ret {
    Some(k) => self.0@.contains_key(k@) && self.0@[k@].volumes@.contains(vol@),
    None => forall|k: Seq<char>| #[trigger] self.0@.contains_key(k) ==> !self.0@[k].volumes@.contains(vol@) },
//@ at start
broadcast use axiom_entries;
let ghost en = entries(self.0);
//@ loop 0
invariant
    lists(en, self.0@), g0 == entry_refs(en),
    r0 is None ==> forall|i: int| 0 <= i < it0.pos() ==> !(#[trigger] en[i]).1.volumes@.contains(vol@),
    r0 matches Some(k) ==> self.0@.contains_key(k@) && self.0@[k@].volumes@.contains(vol@),
//@ at loop0.start
let ghost n0 = it0.pos() - 1;
proof { assert(self.0@.contains_key(en[n0].0.vkey()) && self.0@[en[n0].0.vkey()] == en[n0].1); }
//@ at loop0.after
proof {
    if r0 is None { assert forall|k: Seq<char>| #[trigger] self.0@.contains_key(k) implies !self.0@[k].volumes@.contains(vol@) by { let i = choose|i: int| 0 <= i < en.len() && (#[trigger] en[i]).0.vkey() == k; assert(!en[i].1.volumes@.contains(vol@)); } }
}
//@ lemmas
proof fn lemma_keyed(acc: Map<Seq<char>, Sector>, g: GK) -> (k: Seq<char>) requires keyed(acc, g) ensures acc.contains_key(k), key_of(acc[k]) == g { reveal(keyed); choose|k: Seq<char>| #[trigger] acc.contains_key(k) && key_of(acc[k]) == g }
/// the sector of one more group is added
proof fn lemma_new_group(m: Map<Seq<char>, EseSector>, mm: Map<GK, Seq<(String, EseSector)>>, me: Seq<((Vec<String>, Vec<RunwayIdentifier>), Vec<(String, EseSector)>)>, n1: int, ac0: Map<Seq<char>, Sector>, ac1: Map<Seq<char>, Sector>, gid: Seq<char>, sec: Sector, g: GK, vs: Seq<(String, EseSector)>, va: Seq<String>, sb: Seq<EseSector>)
    requires
        0 <= n1 < me.len(), me[n1].0.vkey() == g, mm.contains_key(g) && mm[g] == vs,
        mm_lists(me, mm), groups_of(m, mm),
        forall|g: GK, v: Seq<char>| #[trigger] in_group(m, g, v) ==> mm.contains_key(g) && named(mm[g], v),
        forall|k: Seq<char>| #[trigger] ac0.contains_key(k) ==> ac0[k].id@ == k && sector_of(m, ac0[k], key_of(ac0[k])) && (exists|i: int| 0 <= i < n1 && (#[trigger] me[i]).0.vkey() == key_of(ac0[k])),
        forall|i: int| 0 <= i < n1 ==> keyed(ac0, (#[trigger] me[i]).0.vkey()),
        ac1 == ac0.insert(gid, sec), sec.id@ == gid,
        va.len() == vs.len() && sb.len() == vs.len(), forall|i: int| 0 <= i < vs.len() ==> #[trigger] va[i] == vs[i].0, forall|i: int| 0 <= i < vs.len() ==> #[trigger] sb[i] == vs[i].1,
        sec.runway_filter@.len() == 1, sec.position_priority.vkey() == g.0 && sec.runway_filter@[0].vkey() == g.1,
        set_of(va, sec.volumes@), set_of(air(sb, true), sec.departure_aerodromes@), set_of(air(sb, false), sec.arrival_aerodromes@),
        exists|i: int| 0 <= i < va.len() && (#[trigger] va[i])@ == gid, forall|i: int| 0 <= i < va.len() ==> str_le(gid, (#[trigger] va[i])@),
    ensures
        forall|k: Seq<char>| #[trigger] ac1.contains_key(k) ==> ac1[k].id@ == k && sector_of(m, ac1[k], key_of(ac1[k])) && (exists|i: int| 0 <= i < n1 + 1 && (#[trigger] me[i]).0.vkey() == key_of(ac1[k])),
        forall|i: int| 0 <= i < n1 + 1 ==> keyed(ac1, (#[trigger] me[i]).0.vkey()),
{
    
    assert(va.len() == vs.len() && sb.len() == vs.len());
    assert forall|v: Seq<char>| #[trigger] in_group(m, g, v) implies has(va, v) by { let j = choose|j: int| 0 <= j < vs.len() && (#[trigger] vs[j]).0@ == v; assert(va[j]@ == v); }
    assert forall|j: int| 0 <= j < vs.len() implies in_group(m, g, (#[trigger] va[j])@) && sb[j] == m[va[j]@] by { assert(in_group(m, g, mm[g][j].0@)); }
    assert forall|v: Seq<char>| #[trigger] sec.volumes@.contains(v) == in_group(m, g, v) by {
        if sec.volumes@.contains(v) { let i = choose|i: int| 0 <= i < va.len() && (#[trigger] va[i]).vkey() == v; assert(in_group(m, g, va[i]@)); }
        if in_group(m, g, v) { let j = choose|j: int| 0 <= j < va.len() && (#[trigger] va[j])@ == v; assert(sec.volumes@.contains(va[j].vkey())); }
    }
    assert forall|v: Seq<char>| #[trigger] in_group(m, g, v) implies str_le(gid, v) by { let j = choose|j: int| 0 <= j < va.len() && (#[trigger] va[j])@ == v; assert(str_le(gid, va[j]@)); }
    lemma_group_air(m, g, va, sb, sec.departure_aerodromes@, true);
    lemma_group_air(m, g, va, sb, sec.arrival_aerodromes@, false);
    assert(in_group(m, g, gid)) by { let i = choose|i: int| 0 <= i < va.len() && (#[trigger] va[i])@ == gid; assert(in_group(m, g, va[i]@)); }
    assert(sector_of(m, sec, g));
    assert(key_of(sec) == g);
    assert(!ac0.contains_key(gid)) by {
        if ac0.contains_key(gid) {
            let h = key_of(ac0[gid]);
            assert(in_group(m, h, gid));
            let i = choose|i: int| 0 <= i < n1 && (#[trigger] me[i]).0.vkey() == h;
            assert(me[i].0.vkey() == me[n1].0.vkey());
        }
    }
    assert forall|k: Seq<char>| #[trigger] ac1.contains_key(k) implies ac1[k].id@ == k && sector_of(m, ac1[k], key_of(ac1[k])) && (exists|i: int| 0 <= i < n1 + 1 && (#[trigger] me[i]).0.vkey() == key_of(ac1[k])) by {
        if k == gid { assert(me[n1].0.vkey() == g); }
        else { assert(ac0.contains_key(k)); let i = choose|i: int| 0 <= i < n1 && (#[trigger] me[i]).0.vkey() == key_of(ac0[k]); assert(me[i].0.vkey() == key_of(ac1[k])); }
    }
    assert forall|i: int| 0 <= i < n1 + 1 implies keyed(ac1, (#[trigger] me[i]).0.vkey()) by {
        reveal(keyed);
        if i == n1 { assert(ac1.contains_key(gid)); }
        else { assert(keyed(ac0, me[i].0.vkey())); let k = choose|k: Seq<char>| #[trigger] ac0.contains_key(k) && key_of(ac0[k]) == me[i].0.vkey(); assert(ac1.contains_key(k) && ac1[k] == ac0[k]); }
    }
}
/// every volume is in exactly one sector
proof fn lemma_partition(m: Map<Seq<char>, EseSector>, mm: Map<GK, Seq<(String, EseSector)>>, me: Seq<((Vec<String>, Vec<RunwayIdentifier>), Vec<(String, EseSector)>)>, secs: Map<Seq<char>, Sector>)
    requires
        mm_lists(me, mm), groups_of(m, mm),
        forall|g: GK, v: Seq<char>| #[trigger] in_group(m, g, v) ==> mm.contains_key(g) && named(mm[g], v),
        forall|k: Seq<char>| #[trigger] secs.contains_key(k) ==> secs[k].id@ == k && sector_of(m, secs[k], key_of(secs[k])) && (exists|i: int| 0 <= i < me.len() && (#[trigger] me[i]).0.vkey() == key_of(secs[k])),
        forall|i: int| 0 <= i < me.len() ==> keyed(secs, (#[trigger] me[i]).0.vkey()),
    ensures
        forall|v: Seq<char>| m.contains_key(v) && valid(m[v]) ==> #[trigger] covered(secs, v),
        apart(secs),
{
    assert forall|v: Seq<char>| m.contains_key(v) && valid(m[v]) implies #[trigger] covered(secs, v) by {
        let g = gk(m[v]);
        assert(in_group(m, g, v));
        let i = lemma_mm_find(me, mm, g);
        assert(keyed(secs, me[i].0.vkey()));
        let k = lemma_keyed(secs, g);
        assert(secs[k].volumes@.contains(v));
    }
    assert forall|v: Seq<char>, k: Seq<char>, l: Seq<char>| #[trigger] secs.contains_key(k) && #[trigger] secs.contains_key(l) && #[trigger] secs[k].volumes@.contains(v) && secs[l].volumes@.contains(v) implies k == l by {
        assert(in_group(m, key_of(secs[k]), v) && in_group(m, key_of(secs[l]), v));
        assert(in_group(m, key_of(secs[k]), k) && in_group(m, key_of(secs[l]), l));
        axiom_str_le(k, l);
    }
}
proof fn lemma_air(s: Seq<EseSector>, dep: bool, a: Seq<char>)
    ensures has(air(s, dep), a) == exists|k: int| 0 <= k < s.len() && has(ports(#[trigger] s[k], dep), a)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_air(t, dep, a);
        let (x, y) = (air(t, dep), ports(s.last(), dep));
        if has(air(s, dep), a) {
            let j = choose|j: int| 0 <= j < air(s, dep).len() && (#[trigger] air(s, dep)[j])@ == a;
            if j < x.len() { assert(x[j]@ == a); assert(has(x, a)); let k = choose|k: int| 0 <= k < t.len() && has(ports(#[trigger] t[k], dep), a); assert(has(ports(s[k], dep), a)); }
            else { assert(y[j - x.len()]@ == a); assert(has(ports(s[s.len() - 1], dep), a)); }
        }
        if exists|k: int| 0 <= k < s.len() && has(ports(#[trigger] s[k], dep), a) {
            let k = choose|k: int| 0 <= k < s.len() && has(ports(#[trigger] s[k], dep), a);
            if k < t.len() { assert(has(ports(t[k], dep), a)); assert(has(x, a)); let j = choose|j: int| 0 <= j < x.len() && (#[trigger] x[j])@ == a; assert((x + y)[j]@ == a); }
            else { let j = choose|j: int| 0 <= j < y.len() && (#[trigger] y[j])@ == a; assert((x + y)[x.len() + j]@ == a); }
        }
    }
}
proof fn lemma_group_air(m: Map<Seq<char>, EseSector>, g: GK, va: Seq<String>, sb: Seq<EseSector>, r: Set<Seq<char>>, dep: bool)
    requires va.len() == sb.len(), set_of(air(sb, dep), r),
        forall|v: Seq<char>| #[trigger] in_group(m, g, v) ==> has(va, v),
        forall|j: int| 0 <= j < va.len() ==> in_group(m, g, (#[trigger] va[j])@) && sb[j] == m[va[j]@],
    ensures forall|a: Seq<char>| #[trigger] r.contains(a) == group_has(m, g, dep, a)
{
    assert forall|a: Seq<char>| #[trigger] r.contains(a) == group_has(m, g, dep, a) by {
        lemma_air(sb, dep, a);
        let x = air(sb, dep);
        if r.contains(a) {
            let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i]).vkey() == a;
            assert(x[i]@ == a);
            let k = choose|k: int| 0 <= k < sb.len() && has(ports(#[trigger] sb[k], dep), a);
            assert(in_group(m, g, va[k]@));
        }
        if group_has(m, g, dep, a) {
            let v = choose|v: Seq<char>| #[trigger] in_group(m, g, v) && has(ports(m[v], dep), a);
            let j = choose|j: int| 0 <= j < va.len() && (#[trigger] va[j])@ == v;
            assert(has(ports(sb[j], dep), a));
            let i = choose|i: int| 0 <= i < x.len() && (#[trigger] x[i])@ == a;
            assert(r.contains(x[i].vkey()));
        }
    }
}
/// a vector of non-zero-sized elements has fewer than usize::MAX of them (it fits into isize::MAX bytes)
pub axiom fn axiom_vec_max(v: &Vec<Line<i64>>) ensures v@.len() < usize::MAX;
pub open spec fn seen(rg: Seq<Q>, st: Seq<Q>, cu: Q, v: Q) -> bool { rg.contains(v) || st.contains(v) || v == cu }
proof fn lemma_seen_pop(rg: Seq<Q>, st: Seq<Q>, cu: Q, v: Q) requires st.len() > 0, seen(rg, st, cu, v) ensures seen(rg.push(cu), st.drop_last(), st.last(), v)
{
    let r1 = rg.push(cu);
    if rg.contains(v) { let j = choose|j: int| 0 <= j < rg.len() && rg[j] == v; assert(r1[j] == v); }
    else if v == cu { assert(r1[rg.len() as int] == v); }
    else { let j = choose|j: int| 0 <= j < st.len() && st[j] == v; if j < st.len() - 1 { assert(st.drop_last()[j] == v); } }
}
proof fn lemma_seen_push(rg: Seq<Q>, st: Seq<Q>, cu: Q, nx: Q, v: Q) ensures seen(rg, st, cu, v) || v == nx ==> seen(rg, st.push(cu), nx, v)
{
    let s1 = st.push(cu);
    if v == cu { assert(s1[st.len() as int] == v); }
    else if st.contains(v) { let j = choose|j: int| 0 <= j < st.len() && st[j] == v; assert(s1[j] == v); }
}
proof fn lemma_occ_push(s: Seq<Coord<i64>>, x: Coord<i64>, v: Q) ensures occ(s.push(x), v) == occ(s, v) + b2n(x.q() == v)
{ assert(s.push(x).drop_last() =~= s); }
proof fn lemma_occ_none(s: Seq<Coord<i64>>, v: Q) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).q() != v ensures occ(s, v) == 0 decreases s.len()
{ if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i]).q() != v by { assert(s.drop_last()[i] == s[i]); } lemma_occ_none(s.drop_last(), v); } }
proof fn lemma_occ_update(s: Seq<Coord<i64>>, i: int, x: Coord<i64>, v: Q) requires 0 <= i < s.len() ensures occ(s.update(i, x), v) == occ(s, v) - b2n(s[i].q() == v) + b2n(x.q() == v) decreases s.len()
{
    let t = s.update(i, x);
    if i == s.len() - 1 { assert(t.drop_last() =~= s.drop_last()); }
    else { assert(t.drop_last() =~= s.drop_last().update(i, x)); lemma_occ_update(s.drop_last(), i, x, v); }
}
proof fn lemma_occ_nonneg(s: Seq<Coord<i64>>, v: Q) ensures occ(s, v) >= 0 decreases s.len() { if s.len() > 0 { lemma_occ_nonneg(s.drop_last(), v); } }
proof fn lemma_tally_update(f: spec_fn(int) -> int, rem: Seq<bool>, i: int, b: bool, k: int)
    requires 0 <= i < rem.len(), k <= rem.len()
    ensures tally(f, rem.update(i, b), k) == tally(f, rem, k) + (if i < k { (if b { f(i) } else { 0 }) - (if rem[i] { f(i) } else { 0 }) } else { 0 })
    decreases k
{ if k > 0 { lemma_tally_update(f, rem, i, b, k - 1); } }
proof fn lemma_tally_nonneg(f: spec_fn(int) -> int, rem: Seq<bool>, k: int) requires forall|i: int| 0 <= i < k ==> #[trigger] f(i) >= 0 ensures tally(f, rem, k) >= 0 decreases k
{ if k > 0 { lemma_tally_nonneg(f, rem, k - 1); assert(f(k - 1) >= 0); } }
proof fn lemma_tally_pos(f: spec_fn(int) -> int, rem: Seq<bool>, k: int) -> (i: int)
    requires tally(f, rem, k) > 0 ensures 0 <= i < k, rem[i], f(i) > 0 || (exists|j: int| 0 <= j < k && #[trigger] f(j) < 0) decreases k
{
    if rem[k - 1] && f(k - 1) > 0 { k - 1 } else if rem[k - 1] && f(k - 1) < 0 { k - 1 } else { let i = lemma_tally_pos(f, rem, k - 1); if f(i) <= 0 { let j = choose|j: int| 0 <= j < k - 1 && #[trigger] f(j) < 0; assert(0 <= j < k && f(j) < 0); } i }
}
proof fn lemma_tally_zero(f: spec_fn(int) -> int, rem: Seq<bool>, k: int, i: int)
    requires forall|i: int| 0 <= i < k ==> #[trigger] f(i) >= 0, tally(f, rem, k) == 0, 0 <= i < k, rem[i] ensures f(i) == 0 decreases k
{ lemma_tally_nonneg(f, rem, k - 1); assert(f(k - 1) >= 0); if i < k - 1 { lemma_tally_zero(f, rem, k - 1, i); } }
proof fn lemma_left_full(n: nat, k: int) requires 0 <= k <= n ensures left(full(n), k) == k decreases k { if k > 0 { lemma_left_full(n, k - 1); } }
proof fn lemma_left_max(rem: Seq<bool>, k: int) requires 0 <= k ensures 0 <= left(rem, k) <= k, left(rem, k) == k ==> forall|i: int| 0 <= i < k ==> rem[i] decreases k { if k > 0 { lemma_left_max(rem, k - 1); } }
/// the last neighbour of u belongs to a remaining line, whose other entry is still there
proof fn lemma_step(e: Seq<E>, rem: Seq<bool>, m0: Map<Q, Vec<Coord<i64>>>, m1: Map<Q, Vec<Coord<i64>>>, u: Q, w: Q) -> (i: int)
    requires rem.len() == e.len(), adj_ok(m0, e, rem), m0.contains_key(u), m0[u]@.len() > 0, m0[u]@.last().q() == w,
        m1.contains_key(u), m1 == m0.insert(u, m1[u]), m1[u]@ == m0[u]@.drop_last(),
        forall|i: int| 0 <= i < e.len() ==> m0.contains_key((#[trigger] e[i]).0) && m0.contains_key(e[i].1),
    ensures 0 <= i < e.len(), rem[i], joins(e[i], u, w), m1.contains_key(w), occ(m1[w]@, u) > 0
{
    let n = e.len() as int;
    lemma_occ_nonneg(m0[u]@.drop_last(), w);
    assert(occ(adj_at(m0, u), w) == cnt(e, rem, n, u, w));
    let i = lemma_tally_pos(fw(e, u, w), rem, n);
    assert(fw(e, u, w)(i) == ways(e[i], u, w));
    assert forall|j: int| 0 <= j < n implies #[trigger] fw(e, u, w)(j) >= 0 by {}
    assert(joins(e[i], u, w));
    assert(m0.contains_key(e[i].0) && m0.contains_key(e[i].1));
    assert(occ(adj_at(m0, w), u) == cnt(e, rem, n, w, u));
    lemma_tally_update(fw(e, w, u), rem, i, false, n);
    assert forall|j: int| 0 <= j < n implies #[trigger] fw(e, w, u)(j) >= 0 by {}
    lemma_tally_nonneg(fw(e, w, u), rem.update(i, false), n);
    assert(fw(e, w, u)(i) == ways(e[i], w, u));
    if u == w { assert(ways(e[i], w, u) == 2); } else { assert(m1[w] == m0[w]); }
    i
}
/// taking the line out of both lists leaves the lists of the lines still remaining
proof fn lemma_taken(e: Seq<E>, rem: Seq<bool>, m0: Map<Q, Vec<Coord<i64>>>, m1: Map<Q, Vec<Coord<i64>>>, m2: Map<Q, Vec<Coord<i64>>>, u: Q, w: Q, i: int, pos: int)
    requires rem.len() == e.len(), adj_ok(m0, e, rem), m0.contains_key(u), m0[u]@.len() > 0, m0[u]@.last().q() == w,
        m1.contains_key(u), m1 == m0.insert(u, m1[u]), m1[u]@ == m0[u]@.drop_last(),
        m1.contains_key(w), 0 <= pos < m1[w]@.len(), m1[w]@[pos].q() == u,
        m2.contains_key(w), m2 == m1.insert(w, m2[w]), m2[w]@ == m1[w]@.update(pos, m1[w]@.last()).drop_last(),
        0 <= i < e.len(), rem[i], joins(e[i], u, w),
    ensures adj_ok(m2, e, rem.update(i, false)), forall|v: Q| m2.contains_key(v) == m0.contains_key(v),
        forall|v: Q| #[trigger] adj_at(m2, v).len() == adj_at(m0, v).len() - b2n(v == u) - b2n(v == w),
{
    let n = e.len() as int;
    assert forall|a: Q, c: Q| #[trigger] occ(adj_at(m2, a), c) == cnt(e, rem.update(i, false), n, a, c) by {
        assert(occ(adj_at(m0, a), c) == cnt(e, rem, n, a, c));
        lemma_tally_update(fw(e, a, c), rem, i, false, n);
        assert(fw(e, a, c)(i) == ways(e[i], a, c));
        assert(adj_at(m1, a) == (if a == u { adj_at(m0, a).drop_last() } else { adj_at(m0, a) }));
        assert(occ(adj_at(m1, a), c) == occ(adj_at(m0, a), c) - b2n(a == u && c == w));
        if a == w {
            let t = m1[w]@;
            lemma_occ_update(t, pos, t.last(), c);
            assert(t.update(pos, t.last()).last() == t.last());
            assert(occ(adj_at(m2, a), c) == occ(adj_at(m1, a), c) - b2n(c == u));
        } else { assert(adj_at(m2, a) == adj_at(m1, a)); }
        assert(ways(e[i], a, c) == b2n(a == u && c == w) + b2n(a == w && c == u));
    }
}
/// the lines among the first k of p
pub open spec fn mark(n: nat, p: Seq<int>, k: int) -> Seq<bool> decreases k { if k <= 0 { Seq::new(n, |i: int| false) } else { mark(n, p, k - 1).update(p[k - 1], true) } }
proof fn lemma_mark(n: nat, p: Seq<int>, k: int)
    requires 0 <= k <= p.len(), forall|k: int| 0 <= k < p.len() ==> 0 <= #[trigger] p[k] < n, forall|k: int, j: int| 0 <= k < j < p.len() ==> #[trigger] p[k] != #[trigger] p[j]
    ensures mark(n, p, k).len() == n, left(mark(n, p, k), n as int) == k, forall|i: int| 0 <= i < n && #[trigger] mark(n, p, k)[i] ==> exists|j: int| 0 <= j < k && p[j] == i
    decreases k
{
    if k > 0 {
        lemma_mark(n, p, k - 1);
        let m = mark(n, p, k - 1);
        assert(!m[p[k - 1]]);
        lemma_tally_update(f1(), m, p[k - 1], true, n as int);
        assert forall|i: int| 0 <= i < n && #[trigger] mark(n, p, k)[i] implies exists|j: int| 0 <= j < k && p[j] == i by {
            if i == p[k - 1] { assert(p[k - 1] == i); } else { assert(m[i]); }
        }
    } else { lemma_tally_none(f1(), mark(n, p, k), n as int); }
}
proof fn lemma_tally_none(f: spec_fn(int) -> int, rem: Seq<bool>, k: int) requires k <= rem.len(), forall|i: int| 0 <= i < rem.len() ==> !rem[i] ensures tally(f, rem, k) == 0 decreases k { if k > 0 { lemma_tally_none(f, rem, k - 1); } }
/// every line is on the circuit
proof fn lemma_onto(e: Seq<E>, c: Seq<Q>, p: Seq<int>, i: int) -> (k: int) requires circuit(e, c, p), 0 <= i < e.len() ensures 0 <= k < p.len(), p[k] == i
{
    let n = e.len();
    lemma_mark(n, p, n as int);
    lemma_left_max(mark(n, p, n as int), n as int);
    assert(mark(n, p, n as int)[i]);
    choose|j: int| 0 <= j < n && p[j] == i
}
/// every point of a circuit has an even number of line ends
proof fn lemma_circuit_even(e: Seq<E>, c: Seq<Q>, p: Seq<int>, v: Q) requires circuit(e, c, p) ensures dg(e, full(e.len()), e.len() as int, v) % 2 == 0
{
    let n = e.len();
    lemma_walk_ends(e, c, p, v, n as int);
    lemma_mark(n, p, n as int);
    lemma_left_max(mark(n, p, n as int), n as int);
    assert(mark(n, p, n as int) =~= full(n));
    assert(c[n as int] == c.last());
}
proof fn lemma_walk_ends(e: Seq<E>, c: Seq<Q>, p: Seq<int>, v: Q, k: int) requires walks(e, c, p), 0 <= k <= p.len() ensures (dg(e, mark(e.len(), p, k), e.len() as int, v) + b2n(c[0] == v) + b2n(c[k] == v)) % 2 == 0 decreases k
{
    let n = e.len() as int;
    if k > 0 {
        lemma_walk_ends(e, c, p, v, k - 1);
        lemma_mark(e.len(), p, k - 1);
        let m = mark(e.len(), p, k - 1);
        assert(!m[p[k - 1]]);
        lemma_tally_update(fd(e, v), m, p[k - 1], true, n);
        assert(joins(e[p[k - 1]], c[k - 1], c[k - 1 + 1]));
    } else { lemma_tally_none(fd(e, v), mark(e.len(), p, k), n); }
}
/// a finished walk that misses a line: there is no circuit
proof fn lemma_leftover(e: Seq<E>, rem: Seq<bool>, m: Map<Q, Vec<Coord<i64>>>, rg: Seq<Q>, start: Q, c: Seq<Q>, p: Seq<int>)
    requires circuit(e, c, p), rem.len() == e.len(), adj_ok(m, e, rem), left(rem, e.len() as int) > 0, start == e[0].0, rg.contains(start),
        forall|k: int| 0 <= k < rg.len() ==> adj_at(m, #[trigger] rg[k]).len() == 0,
        forall|j: int| 0 <= j < e.len() && !#[trigger] rem[j] ==> rg.contains(e[j].0) && rg.contains(e[j].1),
    ensures false
{
    let n = e.len() as int;
    let i0 = lemma_tally_pos(f1(), rem, n);
    let k0 = lemma_onto(e, c, p, i0);
    let k1 = lemma_onto(e, c, p, 0);
    assert forall|j: int| 0 <= j < n && (rg.contains((#[trigger] e[j]).0) || rg.contains(e[j].1)) implies !rem[j] by {
        if rem[j] {
            let (u, w) = if rg.contains(e[j].0) { (e[j].0, e[j].1) } else { (e[j].1, e[j].0) };
            let q = choose|q: int| 0 <= q < rg.len() && rg[q] == u;
            assert(adj_at(m, rg[q]).len() == 0);
            assert(occ(adj_at(m, u), w) == cnt(e, rem, n, u, w));
            assert forall|x: int| 0 <= x < n implies #[trigger] fw(e, u, w)(x) >= 0 by {}
            lemma_tally_zero(fw(e, u, w), rem, n, j);
            assert(fw(e, u, w)(j) == ways(e[j], u, w));
        }
    }
    lemma_along(e, c, p, rg, rem, k0);
    lemma_along(e, c, p, rg, rem, k1);
    lemma_along(e, c, p, rg, rem, k1 + 1);
    assert(joins(e[p[k0]], c[k0], c[k0 + 1]));
    assert(joins(e[p[k1]], c[k1], c[k1 + 1]));
}
proof fn lemma_along(e: Seq<E>, c: Seq<Q>, p: Seq<int>, rg: Seq<Q>, rem: Seq<bool>, k: int)
    requires walks(e, c, p), 0 <= k < c.len(),
        forall|j: int| 0 <= j < e.len() && (rg.contains((#[trigger] e[j]).0) || rg.contains(e[j].1)) ==> !rem[j],
        forall|j: int| 0 <= j < e.len() && !#[trigger] rem[j] ==> rg.contains(e[j].0) && rg.contains(e[j].1),
    ensures rg.contains(c[k]) == rg.contains(c[0]) decreases k
{ if k > 0 { lemma_along(e, c, p, rg, rem, k - 1); assert(joins(e[p[k - 1]], c[k - 1], c[k - 1 + 1])); assert(e[p[k - 1]] == e[p[k - 1]]); let j = p[k - 1]; assert(0 <= j < e.len()); } }
