//@ source src/topsky/map/mod.rs
//@ source src/topsky/mod.rs
//@ source src/lib.rs
//@ use base
//@ use pest
//@ use digits
//@ use read
//@ item Location noclone
//@ item MapLine noclone
//@ itersrc into_inner
//@ rename last_mut .vx_last_mut
//@ stubbed Location::parse
//@ use polylines
//@ grammar TopskyParser maps
//@ prelude
#[verifier::external_body]
pub struct Point { v: f64 }
/// the place a token of the file names (a function of the token; Location::parse is not looked into)
pub uninterp spec fn loc_of(p: Pair<Rule>) -> Location;
impl Location {
    #[verifier::external_body]
    pub fn parse(p: Pair<Rule>) -> (r: Location) requires g_coordinate(p) || g_colon_delimited_text(p) ensures r == loc_of(p) { unimplemented!() }
}
pub open spec fn segs(k: Seq<Pair<Rule>>) -> Seq<SegV> { Seq::new(k.len(), |i: int| SegV { a: loc_of(k[i].kids()[0]), b: loc_of(k[i].kids()[1]), colour: None }) }
pub open spec fn points(v: Seq<MapLine>) -> Seq<Seq<Location>> { Seq::new(v.len(), |i: int| v[i].points@) }
//@ fn MapLine::parse  loops=1
//@ type acc0 Vec<MapLine>
//@ spec
requires g_mapline(pair),
ensures
    points(ret@) == drawn(segs(pair.kids()), pair.kids().len() as int),
    same_edges(shown_edges(points(ret@)), real(segs(pair.kids()), pair.kids().len() as int)),
//@ loop 0
    g0 == pair.kids(), g_mapline(pair),
    points(acc0@) =~~= drawn(segs(g0), it0.pos()),
    it0.pos() == 0 ==> acc0@.len() == 0,
    it0.pos() > 0 ==> acc0@.len() > 0 && acc0@.last().points@.len() > 0 && same(acc0@.last().points@.last(), segs(g0)[it0.pos() - 1].b),
//@ at loop0.start
proof { axiom_same(); }
//@ at tail
proof { drawn_exactly(segs(pair.kids()), pair.kids().len() as int); }
