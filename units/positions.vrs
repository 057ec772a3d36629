//@ source src/adaptation/mod.rs
//@ use base
//@ use map
//@ rename clone .vx_dup
//@ callrename Point::from vx_point
//@ item src/ese.rs#Position noclone sub=Position:EsePosition
//@ item src/adaptation/mod.rs#Position noclone
//@ tyrename ese::Position EsePosition
//@ prelude
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Coord { v: f64 }
pub struct Point(pub Coord);
pub fn vx_point(c: Coord) -> (r: Point) ensures r.0 == c { Point(c) }
pub open spec fn coords(s: Seq<Point>) -> Seq<Coord> { Seq::new(s.len(), |i: int| s[i].0) }
/// the same position, field by field
pub open spec fn kept(p: Position, e: EsePosition) -> bool { p.id@ == e.identifier@ && p.name@ == e.name@ && p.frequency@ == e.frequency@ && p.prefix@ == e.prefix@ && p.suffix@ == e.suffix@ && coords(p.visibility_points@) == e.visibility_points@ }
pub open spec fn all_kept(m: Map<Seq<char>, Position>, e: Map<Seq<char>, EsePosition>) -> bool { m.dom() == e.dom() && forall|k: Seq<char>| #[trigger] e.contains_key(k) ==> kept(m[k], e[k]) }
//@ fn Position::from_ese_positions
//@ type acc0 Vec<(String, Position)>
//@ type acc1 Vec<Point>
//@ spec
ensures all_kept(ret@, positions@),
//@ at start
broadcast use axiom_entries;
//@ loop 0
    g0 == entries(positions), acc0@.len() == it0.pos(), forall|i: int| 0 <= i < acc0@.len() ==> (#[trigger] acc0@[i]).0 == g0[i].0 && kept(acc0@[i].1, g0[i].1),
//@ loop 1
    g1 == pos.visibility_points@, coords(acc1@) == g1.take(it1.pos()),
//@ at loop1.before
proof { assert(coords(acc1@) =~= Seq::empty()); }
//@ at loop1.start
let ghost before = acc1@;
proof { assert(g1.take(it1.pos()) =~= g1.take(it1.pos() - 1).push(vx_x1)); }
//@ at loop1.end
proof { assert(coords(acc1@) =~= coords(before).push(vx_x1)); }
//@ at loop1.after
proof { assert(coords(acc1@) =~= pos.visibility_points@); }
//@ at loop0.after
proof { lemma_kept(positions, acc0@); }
//@ lemmas
pub proof fn lemma_kept(a: HashMap<String, EsePosition>, acc: Seq<(String, Position)>)
    requires acc.len() == entries(a).len(), forall|i: int| 0 <= i < acc.len() ==> (#[trigger] acc[i]).0 == entries(a)[i].0 && kept(acc[i].1, entries(a)[i].1),
    ensures all_kept(map_of(acc), a@),
{
    let e = entries(a); let m = map_of(acc);
    axiom_entries(a);
    assert forall|i: int, j: int| 0 <= i < j < acc.len() implies (#[trigger] acc[i]).0.vkey() != (#[trigger] acc[j]).0.vkey() by { assert(e[i].0.vkey() != e[j].0.vkey()); }
    map_of_distinct(acc);
    assert forall|k: Seq<char>| #[trigger] a@.contains_key(k) implies m.contains_key(k) && kept(m[k], a@[k]) by { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == k; assert(acc[i].0 == e[i].0); }
    assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies a@.contains_key(k) by { let i = choose|i: int| 0 <= i < acc.len() && (#[trigger] acc[i]).0.vkey() == k; assert(a@.contains_key(e[i].0.vkey())); }
    assert(m.dom() =~= a@.dom());
}
