//@ source src/adaptation/locations/mod.rs
//@ source src/adaptation/mod.rs
//@ use base
//@ literal src/adaptation/mod.rs const FACTOR: f64 = 1e6;
//@ literal src/adaptation/mod.rs fn q(x: f64) -> i64 { (x * Self::FACTOR).round() as i64 }
//@ item Fix noclone
//@ item GraphPosition
//@ rename hash .vx_hash
//@ stubbed q
//@ prelude
/// geo types
#[derive(Clone, Copy)]
pub struct Coord { pub x: f64, pub y: f64 }
#[derive(Clone, Copy)]
pub struct Point(pub Coord);
/// a coordinate rounded to a millionth of a degree: (x * 1e6).round() as i64
pub uninterp spec fn qq(x: f64) -> i64;
pub trait Quantize {
    /// body pinned by the unit; f64 arithmetic is outside the verifier's theory
    #[verifier::external_body]
    fn q(x: f64) -> (r: i64) ensures r == qq(x) { unimplemented!() }
    fn quantize(&self) -> (ret: (i64, i64));
}
pub open spec fn cell(p: Point) -> (i64, i64) { (qq(p.0.x), qq(p.0.y)) }
/// std::hash::Hasher: what it has been fed
pub enum Fed { Text(Seq<char>), Int(i64) }
#[verifier::external_body]
pub struct Hasher { v: u8 }
impl Hasher { pub uninterp spec fn fed(&self) -> Seq<Fed>; }
pub trait VxHash { spec fn feeds(&self) -> Fed; fn vx_hash(&self, state: &mut Hasher) ensures final(state).fed() == old(state).fed().push(self.feeds()); }
impl VxHash for String { open spec fn feeds(&self) -> Fed { Fed::Text(self@) } #[verifier::external_body] fn vx_hash(&self, state: &mut Hasher) { unimplemented!() } }
impl VxHash for i64 { open spec fn feeds(&self) -> Fed { Fed::Int(*self) } #[verifier::external_body] fn vx_hash(&self, state: &mut Hasher) { unimplemented!() } }
pub trait Hash { fn hash(&self, state: &mut Hasher); }
/// what a fix is known by
pub open spec fn known_by(f: Fix) -> (Seq<char>, (i64, i64)) { (f.designator@, cell(f.coordinate)) }
/// what Fix::eq answers
pub open spec fn same(a: Fix, b: Fix) -> bool { known_by(a) == known_by(b) }
pub open spec fn fix_feed(f: Fix) -> Seq<Fed> { seq![Fed::Text(f.designator@), Fed::Int(cell(f.coordinate).0), Fed::Int(cell(f.coordinate).1)] }
impl vstd::std_specs::cmp::PartialEqSpecImpl for Fix { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { same(*self, *o) } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for GraphPosition { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { cell(self.0) == cell(o.0) } }
//@ fn Coord as Quantize::quantize
//@ spec
ensures ret == (qq(self.x), qq(self.y)),
//@ fn Point as Quantize::quantize
//@ spec
ensures ret == cell(*self),
//@ fn Fix as Hash::hash
//@ sig fn hash(&self, state: &mut Hasher)
//@ spec
ensures final(state).fed() == old(state).fed() + fix_feed(*self),
//@ at end
proof { assert(state.fed() =~= old(state).fed() + fix_feed(*self)); }
//@ fn Fix as PartialEq::eq
//@ spec
ensures ret == same(*self, *other),
//@ fn GraphPosition as PartialEq::eq
//@ spec
ensures ret == (cell(self.0) == cell(other.0)),
//@ lemmas
/// equality is an equivalence relation, and equal fixes feed a hasher the same
proof fn theorem_equivalence(a: Fix, b: Fix, c: Fix)
    ensures same(a, a), same(a, b) == same(b, a), same(a, b) && same(b, c) ==> same(a, c), same(a, b) ==> fix_feed(a) == fix_feed(b),
        !same(a, b) ==> fix_feed(a) != fix_feed(b),
{
    assert(fix_feed(a)[0] == Fed::Text(a.designator@) && fix_feed(a)[1] == Fed::Int(cell(a.coordinate).0) && fix_feed(a)[2] == Fed::Int(cell(a.coordinate).1));
    assert(fix_feed(b)[0] == Fed::Text(b.designator@) && fix_feed(b)[1] == Fed::Int(cell(b.coordinate).0) && fix_feed(b)[2] == Fed::Int(cell(b.coordinate).1));
}
