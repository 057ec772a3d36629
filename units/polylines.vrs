//@ source src/sct.rs
//@ source src/topsky/map/mod.rs
//@ source src/lib.rs
//@ use base
//@ use pest
//@ use digits
//@ use read
//@ item Location noclone
//@ item MapLine noclone
//@ item ColouredLines noclone
//@ item Geo noclone
//@ item Sid noclone
//@ item Star noclone
//@ item Artcc noclone
//@ itersrc into_inner
//@ rename last_mut .vx_last_mut
//@ stubbed parse_coordinate
//@ use polylines
//@ grammar SctParser sct
//@ prelude
#[verifier::external_body]
pub struct Point { v: f64 }
#[verifier::external_body]
pub struct Coord { v: f64 }
/// the position a coordinate token stands for (C04 proves parse_coordinate)
pub uninterp spec fn coord_of(p: Pair<Rule>) -> Point;
#[verifier::external_body]
pub fn parse_coordinate(p: Pair<Rule>) -> (r: Coord) requires g_sct_coordinate(p) ensures point_of(r) == coord_of(p) { unimplemented!() }
pub uninterp spec fn point_of(c: Coord) -> Point;
impl Coord { #[verifier::external_body] pub fn into(self) -> (r: Point) ensures r == point_of(self) { unimplemented!() } }
/// texts are compared by their characters
pub axiom fn axiom_string_eq() ensures <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(), forall|a: String, b: String| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
/// a text is determined by its characters
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub axiom fn axiom_string_of() ensures forall|s: String| #[trigger] string_of(s@) == s;
/// the place a token of the file names
pub open spec fn loc_of(p: Pair<Rule>) -> Location { if p.rule() is sct_coordinate { Location::Coordinate(coord_of(p)) } else { Location::Fix(string_of(p.kids()[0].text())) } }
pub open spec fn loc_ok(p: Pair<Rule>) -> bool { g_sct_coordinate(p) || g_airway_fix(p) }
/// a line of the file as the grammar delivers it: two places, perhaps a colour name
pub open spec fn line_ok(p: Pair<Rule>) -> bool { g_coloured_line(p) }
pub open spec fn seg_of(p: Pair<Rule>) -> SegV { SegV { a: loc_of(p.kids()[0]), b: loc_of(p.kids()[1]), colour: if p.kids().len() >= 3 { Some(p.kids()[2].text()) } else { None } } }
pub open spec fn segs(k: Seq<Pair<Rule>>) -> Seq<SegV> { Seq::new(k.len(), |i: int| seg_of(k[i])) }
pub open spec fn points(v: Seq<MapLine>) -> Seq<Seq<Location>> { Seq::new(v.len(), |i: int| v[i].points@) }
pub open spec fn okey(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub struct GroupV { pub colour: Option<Seq<char>>, pub lines: Seq<Seq<Location>> }
pub open spec fn views(v: Seq<ColouredLines>) -> Seq<GroupV> { Seq::new(v.len(), |i: int| GroupV { colour: okey(v[i].colour_name), lines: points(v[i].lines@) }) }
/// the polylines of the first n segments, a new group at each change of colour
pub open spec fn grouped(s: Seq<SegV>, n: int) -> Seq<GroupV> decreases n {
    if n <= 0 { seq![] } else {
        let d = grouped(s, n - 1);
        let g = s[n - 1];
        if n >= 2 && s[n - 2].colour == g.colour { d.update(d.len() - 1, GroupV { colour: g.colour, lines: step(d.last().lines, joined(s, n - 1), g) }) }
        else { d.push(GroupV { colour: g.colour, lines: step(seq![], false, g) }) }
    }
}
pub open spec fn flat(v: Seq<GroupV>) -> Seq<Seq<Location>> decreases v.len() { if v.len() == 0 { seq![] } else { flat(v.drop_last()) + v.last().lines } }
/// what a list of coloured groups must be for the segments of an entry
pub open spec fn joins(v: Seq<ColouredLines>, k: Seq<Pair<Rule>>) -> bool {
    &&& views(v) == grouped(segs(k), k.len() as int)
    &&& flat(views(v)) == drawn(segs(k), k.len() as int)
    &&& same_edges(shown_edges(flat(views(v))), real(segs(k), k.len() as int))
    &&& forall|i: int| 0 < i < v.len() ==> okey(v[i - 1].colour_name) != okey((#[trigger] v[i]).colour_name)
}
pub open spec fn entry_ok(p: Pair<Rule>) -> bool { g_coloured_lines(p) }
//@ fn parse_location
//@ spec
requires loc_ok(pair),
ensures ret == loc_of(pair),
//@ at start
proof { axiom_string_of(); }
//@ fn parse_line_groups  loops=1
//@ type acc0 Vec<ColouredLines>
//@ spec
requires 0 <= lines.pos() <= lines@.len(), forall|i: int| lines.pos() <= i < lines@.len() ==> line_ok(#[trigger] lines@[i]),
ensures joins(ret@, lines@.skip(lines.pos())),
//@ loop 0
    g0 == lines@.skip(lines.pos()), forall|i: int| 0 <= i < g0.len() ==> line_ok(#[trigger] g0[i]),
    views(acc0@) =~~= grouped(segs(g0), it0.pos()),
    it0.pos() == 0 ==> acc0@.len() == 0,
    it0.pos() > 0 ==> acc0@.len() > 0 && okey(acc0@.last().colour_name) == segs(g0)[it0.pos() - 1].colour && acc0@.last().lines@.len() > 0 && acc0@.last().lines@.last().points@.len() > 0 && same(acc0@.last().lines@.last().points@.last(), segs(g0)[it0.pos() - 1].b),
//@ at loop0.start
proof { axiom_same(); axiom_string_eq(); }
let ghost before = views(acc0@);
let ghost acc_before = acc0@;
//@ at loop0.end
proof {
    let n = it0.pos(); let s = segs(g0); let g = s[n - 1]; let after = views(acc0@);
    assert(g == seg_of(g0[n - 1]));
    if n >= 2 && s[n - 2].colour == g.colour {
        assert(after.len() == before.len());
        assert(after.last().lines =~~= step(before.last().lines, joined(s, n - 1), g));
        assert(after =~= before.update(before.len() - 1, GroupV { colour: g.colour, lines: step(before.last().lines, joined(s, n - 1), g) }));
    } else {
        assert(after.last().lines =~~= step(seq![], false, g));
        assert(after =~= before.push(GroupV { colour: g.colour, lines: step(seq![], false, g) }));
    }
}
//@ at loop0.after
proof {
    grouped_exactly(segs(g0), g0.len() as int); drawn_exactly(segs(g0), g0.len() as int);
    assert forall|i: int| 0 < i < acc0@.len() implies okey(acc0@[i - 1].colour_name) != okey((#[trigger] acc0@[i]).colour_name) by { assert(views(acc0@)[i - 1].colour != views(acc0@)[i].colour); }
    assert(joins(acc0@, g0));
}
//@ fn parse_geo
//@ spec
requires entry_ok(pair),
ensures ret.name@ == pair.kids()[0].text(), joins(ret.line_groups@, pair.kids().skip(1)),
//@ fn parse_sid
//@ spec
requires entry_ok(pair),
ensures ret.name@ == pair.kids()[0].text(), joins(ret.line_groups@, pair.kids().skip(1)),
//@ fn parse_star
//@ spec
requires entry_ok(pair),
ensures ret.name@ == pair.kids()[0].text(), joins(ret.line_groups@, pair.kids().skip(1)),
//@ fn parse_artcc
//@ spec
requires entry_ok(pair),
ensures ret.name@ == pair.kids()[0].text(), joins(ret.line_groups@, pair.kids().skip(1)),
//@ lemmas
pub proof fn grouped_exactly(s: Seq<SegV>, n: int)
    requires 0 <= n <= s.len(),
    ensures flat(grouped(s, n)) == drawn(s, n), n > 0 ==> grouped(s, n).len() > 0 && grouped(s, n).last().colour == s[n - 1].colour && (grouped(s, n).last().lines.len() > 0),
        forall|i: int| 0 < i < grouped(s, n).len() ==> grouped(s, n)[i - 1].colour != (#[trigger] grouped(s, n)[i]).colour,
    decreases n
{
    if n > 0 {
        grouped_exactly(s, n - 1);
        let d = grouped(s, n - 1);
        let e = grouped(s, n);
        assert(e.drop_last() =~= if n >= 2 && s[n - 2].colour == s[n - 1].colour { d.drop_last() } else { d });
        assert(flat(e) =~= drawn(s, n));
    }
}
