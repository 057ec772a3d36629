//@ source src/symbology.rs
//@ source src/adaptation/mod.rs
//@ source src/adaptation/colours.rs
//@ source src/adaptation/line_styles.rs
//@ source src/adaptation/symbols.rs
//@ source src/lib.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ use farith
//@ use steps
//@ rename parse vx_parse
//@ rename clone .vx_dup
//@ rename abs .vx_abs
//@ callrename f64::EPSILON VX_EPSILON
//@ callrename u8::try_from vx_u8_try
//@ itersrc into_inner
//@ results read_to_string vx_u8_try
//@ stubbed read_to_string
//@ item Colour eq
//@ item Item noclone
//@ item SymbolType
//@ item SymbolRule noclone
//@ item LineStyle noclone
//@ consts LineStyle
//@ item HorizontalAlignment
//@ item VerticalAlignment
//@ item Alignment
//@ item Symbology noclone
//@ item SymbologyResult
//@ grammar SymbologyParser symbology
//@ prelude
broadcast use crate::rd::reads;
#[verifier::external_body]
pub struct TryFromIntError { v: u8 }
#[verifier::external_body]
pub fn vx_u8_try(x: i32) -> (r: Result<u8, TryFromIntError>)
    ensures match r { Ok(v) => 0 <= x < 256 && v == x, Err(_) => !(0 <= x < 256) },
{ unimplemented!() }
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum SymbologyError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for SymbologyError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for SymbologyError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_symbology(tree(s)->0);
pub struct SymbologyParser { }
impl SymbologyParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(V)]
pub struct TwoKeyMap<A, B, V>(pub HashMap<(A, B), V>);
impl Copy for SymbolType { }
impl VKey for SymbolType { type KV = SymbolType; open spec fn vkey(&self) -> SymbolType { *self } }
pub open spec fn place(t: SymbolType) -> u32 { t as u32 }
/// num_derive: the variant with this discriminant
impl SymbolType { #[verifier::external_body] pub fn from_u32(n: u32) -> (r: Option<SymbolType>) ensures match r { Some(t) => place(t) == n, None => forall|t: SymbolType| #[trigger] place(t) != n } { unimplemented!() } }
/// the text value with these characters
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub axiom fn axiom_string_of() ensures forall|s: String| #[trigger] string_of(s@) == s;
pub open spec fn file(content: Seq<u8>) -> Option<Seq<Pair<Rule>>> { match text_of(content) { Some(t) => match tree(t) { Some(p) => Some(p[0].kids()), None => None }, None => None } }
/// the symbol a number stands for
pub open spec fn symbol_type(n: u32) -> Option<SymbolType> { match n { 0 => Some(SymbolType::Airport), 1 => Some(SymbolType::NDB), 2 => Some(SymbolType::VOR), 3 => Some(SymbolType::Fix), 4 => Some(SymbolType::AircraftStandby), 5 => Some(SymbolType::AircraftPrimaryOnly), 6 => Some(SymbolType::AircraftCorrAlphaCharlieSecondaryOnly), 7 => Some(SymbolType::AircraftCorrModeSierraSecondaryOnly), 8 => Some(SymbolType::AircraftCorrModeAlphaCharlie), 9 => Some(SymbolType::AircraftCorrModeSierra), 10 => Some(SymbolType::AircraftCorrModeAlphaCharlieIdent), 11 => Some(SymbolType::AircraftCorrModeSierraIdent), 12 => Some(SymbolType::AircraftFlightPlanTrack), 13 => Some(SymbolType::AircraftCoasting), 14 => Some(SymbolType::HistoryDot), 15 => Some(SymbolType::GroundAircraft), 16 => Some(SymbolType::AircraftUncorrModeAlphaCharlieSecondaryOnly), 17 => Some(SymbolType::AircraftUncorrModeSierraSecondaryOnly), 18 => Some(SymbolType::AircraftUncorrModeAlphaCharlie), 19 => Some(SymbolType::AircraftUncorrModeSierra), 20 => Some(SymbolType::AircraftUncorrModeAlphaCharlieIdent), 21 => Some(SymbolType::AircraftUncorrModeSierraIdent), 22 => Some(SymbolType::GroundVehicle), 23 => Some(SymbolType::GroundRotorcraft), _ => None } }
pub proof fn lemma_types(n: u32) ensures forall|t: SymbolType| #[trigger] place(t) == n ==> symbol_type(n) == Some(t), match symbol_type(n) { Some(t) => place(t) == n, None => true } { }
pub open spec fn one(t: Seq<char>, c: char) -> bool { t == seq![c] }
pub open spec fn two(t: Seq<char>, c: char) -> bool { t == seq!['1', c] }
pub open spec fn style(t: Seq<char>) -> Seq<char> { if one(t, '0') { "SOLID"@ } else if one(t, '1') { "DASH"@ } else if one(t, '2') { "DOT"@ } else if one(t, '3') { "DASHDOT"@ } else { "DASHDOTDOT"@ } }
/// left, centre and right by sixes; top, centre and bottom by ones
pub open spec fn alignment_of(t: Seq<char>) -> Alignment {
    Alignment {
        horizontal: if one(t, '0') || one(t, '1') || one(t, '2') { HorizontalAlignment::Left } else if one(t, '6') || one(t, '7') || one(t, '8') { HorizontalAlignment::Center } else { HorizontalAlignment::Right },
        vertical: if one(t, '0') || one(t, '6') || two(t, '2') { VerticalAlignment::Top } else if one(t, '1') || one(t, '7') || two(t, '3') { VerticalAlignment::Center } else { VerticalAlignment::Bottom },
    }
}
pub open spec fn teen(c: char) -> Seq<char> { seq!['1', c] }
/// a digit and the number it spells
pub proof fn lemma_digit_texts()
    ensures forall|c: char| '0' <= c <= '9' ==> #[trigger] read_u8(seq![c]) == Some(((c as u32) - 48) as u8), read_u8(seq!['1', '2']) == Some(12u8), read_u8(seq!['1', '3']) == Some(13u8), read_u8(seq!['1', '4']) == Some(14u8),
{
    reveal(read_u8);
    assert forall|c: char| '0' <= c <= '9' implies #[trigger] read_u8(seq![c]) == Some(((c as u32) - 48) as u8) by { reveal_with_fuel(val, 3); assert(body(seq![c]) =~= seq![c]); assert(seq![c].drop_last() =~= Seq::<char>::empty()); }
    assert forall|c: char| '0' <= c <= '9' implies val(#[trigger] teen(c)) == 10 + ((c as int) - 48) && body(seq!['1', c]) == seq!['1', c] && all_digits(seq!['1', c]) by { reveal_with_fuel(val, 4); assert(body(seq!['1', c]) =~= seq!['1', c]); assert(seq!['1', c].drop_last() =~= seq!['1']); assert(seq!['1'].drop_last() =~= Seq::<char>::empty()); }
    assert(teen('2') == seq!['1', '2'] && teen('3') == seq!['1', '3'] && teen('4') == seq!['1', '4']);
}
pub open spec fn packed(c: Colour) -> int { c.r + 256 * c.g + 65536 * c.b }
/// the opaque colour a packed number stands for
pub open spec fn colour_of(n: i32) -> Option<Colour> { if 0 <= n < 0x100_0000 { Some(Colour { r: (n % 256) as u8, g: (n / 256 % 256) as u8, b: (n / 65536) as u8, a: 255 }) } else { None } }
/// what an item line says, if its colour is one
pub open spec fn item_of(p: Pair<Rule>) -> Option<Item> {
    let k = p.kids();
    match read_i32(k[2].text()) {
        Some(n) => match colour_of(n) {
            Some(c) => Some(Item { folder: string_of(k[0].text()), name: string_of(k[1].text()), colour: c, font_size_symbol_scale: read_f32(k[3].text())->0, line_style: string_of(style(k[4].text())), line_weight: match read_i32(k[5].text()) { Some(w) => w, None => 1 }, text_alignment: alignment_of(k[6].text()) }),
            None => None,
        },
        None => None,
    }
}
/// a symbol is drawn by its lines, in order
pub open spec fn drawn(v: Seq<SymbolRule>, p: Pair<Rule>) -> bool { v.len() == p.kids().len() - 1 && forall|i: int| 0 <= i < v.len() ==> step(#[trigger] v[i], p.kids()[i + 1]) }
pub open spec fn symbol_of(p: Pair<Rule>) -> Option<SymbolType> { match read_u32(p.kids()[0].text()) { Some(n) => symbol_type(n), None => None } }
/// the first n lines: of an item given twice the later one counts
pub open spec fn items(k: Seq<Pair<Rule>>, n: int) -> Map<(Seq<char>, Seq<char>), Item>
    decreases n
{ if n <= 0 { Map::empty() } else { let m = items(k, n - 1); if k[n - 1].rule() is item { match item_of(k[n - 1]) { Some(i) => m.insert((i.folder@, i.name@), i), None => m } } else { m } } }
/// the line that says how a symbol is drawn: the last one
pub open spec fn last(k: Seq<Pair<Rule>>, n: int, t: SymbolType) -> Option<int>
    decreases n
{ if n <= 0 { None } else if k[n - 1].rule() is symbol && symbol_of(k[n - 1]) == Some(t) { Some(n - 1) } else { last(k, n - 1, t) } }
pub open spec fn symbols(m: Map<SymbolType, Vec<SymbolRule>>, k: Seq<Pair<Rule>>, n: int) -> bool {
    forall|t: SymbolType| match #[trigger] last(k, n, t) { Some(i) => m.contains_key(t) && drawn(m[t]@, k[i]), None => !m.contains_key(t) }
}
//@ fn Colour::from_rgb
//@ spec
ensures ret == (Colour { r, g, b, a: 255 }),
//@ fn Colour::from_euroscope
//@ spec
ensures match ret { Ok(c) => colour_of(colour_num) == Some(c), Err(_) => colour_of(colour_num) is None },
//@ fn parse_linestyle
//@ spec
requires g_line_style(*pair),
ensures ret@ == style(pair.text()),
//@ at start
proof { lemma_digit_texts(); }
//@ fn parse_alignment
//@ spec
requires g_alignment(*pair),
ensures ret == alignment_of(pair.text()),
//@ at start
proof { lemma_digit_texts(); }
//@ fn Item::parse
//@ spec
requires g_item(pair),
ensures ret == item_of(pair),
//@ at start
proof { axiom_string_of(); }
//@ fn parse_point
//@ spec
requires g_symbol_rule_point(pair),
ensures ret == at(pair),
//@ fn parse_symbol_rules  loops=2
//@ floats
//@ fcmp
//@ spec
requires g_symbol(pair),
ensures match ret { Some(x) => symbol_of(pair) == Some(x.0) && drawn(x.1@, pair), None => symbol_of(pair) is None },
//@ at start
proof { if read_u32(pair.kids()[0].text()) is Some { lemma_types(read_u32(pair.kids()[0].text())->0); } }
//@ loop 0
    g_symbol(pair), g0 == pair.kids().skip(1), acc0@.len() == it0.pos(), forall|i: int| 0 <= i < acc0@.len() ==> step(#[trigger] acc0@[i], g0[i]),
//@ loop 1
    g_polygon(vx_x0), g1 == vx_x0.kids(), acc1@.len() == it1.pos(), forall|i: int| 0 <= i < acc1@.len() ==> #[trigger] acc1@[i] == at(g1[i]),
//@ fn Symbology::parse  loops=1
//@ type acc0 (HashMap<(String, String), Item>, HashMap<SymbolType, Vec<SymbolRule>>)
//@ spec
ensures match ret { Ok(s) => file(content@) is Some && s.items.0@ == items(file(content@)->0, file(content@)->0.len() as int) && symbols(s.symbols@, file(content@)->0, file(content@)->0.len() as int), Err(_) => file(content@) is None },
//@ at start
proof { axiom_string_of(); if text_of(content@) is Some { axiom_tree(text_of(content@)->0); } }
//@ loop 0
    file(content@) is Some, g0 == file(content@)->0, root_symbology(tree(text_of(content@)->0)->0), acc0.0@ == items(g0, it0.pos()), symbols(acc0.1@, g0, it0.pos()),
//@ at loop0.start
let ghost before = acc0;
//@ at loop0.end
proof { let n = it0.pos() - 1; axiom_string_of(); assert(acc0.0@ =~= items(g0, n + 1));
    assert forall|t: SymbolType| match #[trigger] last(g0, n + 1, t) { Some(i) => acc0.1@.contains_key(t) && drawn(acc0.1@[t]@, g0[i]), None => !acc0.1@.contains_key(t) } by { let _ = last(g0, n, t); } }
//@ lemmas
