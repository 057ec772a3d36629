// ---- common/polylines.rs: consecutive segments drawn as polylines ----
/// are two ends the same place? (equality of names, or of coordinates as numbers)
pub uninterp spec fn same(a: Location, b: Location) -> bool;
/// places are compared by name or by numbers that are not NaN, so equality is an equivalence
pub axiom fn axiom_same() ensures forall|a: Location| same(a, a), forall|a: Location, b: Location| same(a, b) == same(b, a), forall|a: Location, b: Location, c: Location| #![trigger same(a, b), same(b, c)] same(a, b) && same(b, c) ==> same(a, c);
impl vstd::std_specs::cmp::PartialEqSpecImpl for Location { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { same(*self, *o) } }
impl PartialEq for Location { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
pub trait VxLastMut<T> { fn vx_last_mut(&mut self) -> Option<&mut T>; }
impl<T> VxLastMut<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && *x == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)), None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    { unimplemented!() }
}
/// one segment of the file: where it starts, where it ends, its colour
pub struct SegV { pub a: Location, pub b: Location, pub colour: Option<Seq<char>> }
/// segment i continues where the segment before it ended, in the same colour
pub open spec fn joined(s: Seq<SegV>, i: int) -> bool { i > 0 && s[i - 1].colour == s[i].colour && same(s[i - 1].b, s[i].a) }
/// polylines d with one more segment
pub open spec fn step(d: Seq<Seq<Location>>, joined: bool, g: SegV) -> Seq<Seq<Location>> {
    if joined { if same(g.a, g.b) { d } else { d.update(d.len() - 1, d.last().push(g.b)) } }
    else { d.push(if same(g.a, g.b) { seq![g.a] } else { seq![g.a, g.b] }) }
}
/// the polylines the first n segments are drawn as
pub open spec fn drawn(s: Seq<SegV>, n: int) -> Seq<Seq<Location>> decreases n { if n <= 0 { seq![] } else { step(drawn(s, n - 1), joined(s, n - 1), s[n - 1]) } }
pub open spec fn edges(p: Seq<Location>, m: int) -> Seq<(Location, Location)> decreases m { if m <= 1 { seq![] } else { edges(p, m - 1).push((p[m - 2], p[m - 1])) } }
/// the segments a list of polylines shows, in order
pub open spec fn shown_edges(v: Seq<Seq<Location>>) -> Seq<(Location, Location)> decreases v.len() { if v.len() == 0 { seq![] } else { shown_edges(v.drop_last()) + edges(v.last(), v.last().len() as int) } }
/// the segments of the file that are not a single point, in order
pub open spec fn real(s: Seq<SegV>, n: int) -> Seq<(Location, Location)> decreases n { if n <= 0 { seq![] } else if same(s[n - 1].a, s[n - 1].b) { real(s, n - 1) } else { real(s, n - 1).push((s[n - 1].a, s[n - 1].b)) } }
/// the same segments in the same order and direction
pub open spec fn same_edges(x: Seq<(Location, Location)>, y: Seq<(Location, Location)>) -> bool { x.len() == y.len() && forall|i: int| 0 <= i < x.len() ==> same((#[trigger] x[i]).0, y[i].0) && x[i].1 == y[i].1 }
pub proof fn edges_prefix(p: Seq<Location>, q: Seq<Location>, m: int)
    requires m <= p.len(), m <= q.len(), forall|i: int| 0 <= i < m ==> p[i] == q[i], ensures edges(p, m) == edges(q, m), decreases m
{ if m > 1 { edges_prefix(p, q, m - 1); } }
/// what is drawn is exactly what the file lists
pub proof fn drawn_exactly(s: Seq<SegV>, n: int)
    requires 0 <= n <= s.len(),
    ensures same_edges(shown_edges(drawn(s, n)), real(s, n)),
        n == 0 ==> drawn(s, n).len() == 0,
        n > 0 ==> drawn(s, n).len() > 0 && drawn(s, n).last().len() > 0 && same(drawn(s, n).last().last(), s[n - 1].b),
    decreases n
{
    if n > 0 {
        axiom_same();
        drawn_exactly(s, n - 1);
        let d = drawn(s, n - 1);
        let g = s[n - 1];
        let e = drawn(s, n);
        if joined(s, n - 1) {
            if !same(g.a, g.b) {
                let p = d.last(); let q = p.push(g.b);
                assert(e == d.update(d.len() - 1, q));
                assert(e.drop_last() =~= d.drop_last()); assert(e.last() == q);
                edges_prefix(q, p, p.len() as int);
                assert(edges(q, q.len() as int) == edges(p, p.len() as int).push((p.last(), g.b)));
                assert(shown_edges(e) =~= shown_edges(d).push((p.last(), g.b)));
            }
        } else {
            let l = e.last();
            assert(e.drop_last() =~= d);
            if same(g.a, g.b) { assert(edges(l, 1) =~= seq![]); assert(shown_edges(e) =~= shown_edges(d)); }
            else { assert(edges(l, 1) =~= seq![]); assert(edges(l, 2) =~= seq![(g.a, g.b)]); assert(shown_edges(e) =~= shown_edges(d).push((g.a, g.b))); }
        }
    }
}
