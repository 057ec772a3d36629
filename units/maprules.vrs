//@ source src/topsky/map/mod.rs
//@ source src/topsky/mod.rs
//@ source src/adaptation/line_styles.rs
//@ source src/lib.rs
//@ use base
//@ use pest
//@ use digits
//@ use read
//@ item Location noclone
//@ item LineStyle noclone
//@ item MapLine noclone
//@ item Label noclone
//@ item MapSymbol noclone
//@ item Text noclone
//@ item FontSize noclone
//@ item MapRule noclone
//@ item OverrideSct noclone
//@ item MapDef noclone
//@ itersrc into_inner
//@ rename parse vx_parse
//@ rename to_uppercase .vx_upper
//@ stubbed Location::parse MapLine::parse Active::parse
//@ grammar TopskyParser maps
//@ prelude
broadcast use crate::rd::reads;
#[verifier::external_body]
pub struct Point { v: f64 }
#[verifier::external_body]
pub struct Active { v: f64 }
#[verifier::external_body]
pub struct Alignment { v: f64 }
/// the place a token names, the lines of a token, the condition of a token (C04 and the units maplines and activity look into these)
pub uninterp spec fn loc_of(p: Pair<Rule>) -> Location;
impl Location { #[verifier::external_body] pub fn parse(p: Pair<Rule>) -> (r: Location) requires g_coordinate(p) || g_colon_delimited_text(p) ensures r == loc_of(p) { unimplemented!() } }
pub uninterp spec fn lines_of(p: Pair<Rule>) -> Vec<MapLine>;
impl MapLine { #[verifier::external_body] pub fn parse(p: Pair<Rule>) -> (r: Vec<MapLine>) requires g_mapline(p) ensures r == lines_of(p) { unimplemented!() } }
pub uninterp spec fn active_of(p: Pair<Rule>) -> Active;
impl Active { #[verifier::external_body] pub fn parse(p: Pair<Rule>) -> (r: Active) requires g_active(p) || g_andactive(p) ensures r == active_of(p) { unimplemented!() } }
pub open spec fn point_of(p: Pair<Rule>) -> (f64, f64) { (read_f64(p.kids()[0].text())->0, read_f64(p.kids()[1].text())->0) }
pub uninterp spec fn upper(t: Seq<char>) -> Seq<char>;
pub trait VxUpper { fn vx_upper(&self) -> String; }
impl VxUpper for str { #[verifier::external_body] fn vx_upper(&self) -> (r: String) ensures r@ == upper(self@) { unimplemented!() } }
/// a text is determined by its characters
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub axiom fn axiom_string_of() ensures forall|s: String| #[trigger] string_of(s@) == s;
pub axiom fn axiom_str_all() ensures forall|a: &str, b: &str| #![trigger a@, b@] a@ == b@ ==> a == b;
pub open spec fn texts(k: Seq<Pair<Rule>>) -> Seq<Seq<char>> { Seq::new(k.len(), |i: int| k[i].text()) }
pub open spec fn listed(p: Pair<Rule>) -> Option<Seq<Seq<char>>> { if p.rule() is wildcard { None } else { Some(texts(p.kids())) } }
pub open spec fn strs_opt(o: Option<Vec<String>>) -> Option<Seq<Seq<char>>> { match o { Some(v) => Some(strs(v@)), None => None } }
/// the tokens of a SYMBOL or TEXT line after an alignment, if it has one
pub open spec fn named(k: Seq<Pair<Rule>>) -> Seq<Pair<Rule>> { if k[0].rule() is textalign_config { k.skip(1) } else { k } }
pub open spec fn says_symbol(m: MapSymbol, p: Pair<Rule>) -> bool {
    let k = named(p.kids());
    m.name@ == k[0].text() && m.location == loc_of(k[1]) && match m.label { Some(l) => k.len() >= 3 && l.text@ == k[2].kids()[0].text() && l.pos == point_of(k[2].kids()[1]), None => k.len() == 2 }
}
pub open spec fn says_text(t: Text, p: Pair<Rule>) -> bool { let k = named(p.kids()); t.location == loc_of(k[0]) && t.content@ == k[1].text() }
pub open spec fn size_of(k: Seq<Pair<Rule>>) -> FontSize {
    let x = read_f32(k[1].text())->0;
    if k[0].rule() is fontsize_default { FontSize::Default } else if k[0].text() == "="@ { FontSize::Exact(x) } else if k[0].text() == "+"@ { FontSize::Add(x) } else if k[0].text() == "-"@ { FontSize::Subtract(x) } else { FontSize::Multiply(x) }
}
pub open spec fn style_of(k: Seq<Pair<Rule>>) -> LineStyle { LineStyle { width: if k.len() >= 2 { match read_i32(k[1].text()) { Some(w) => w, None => 1 } } else { 1 }, style: string_of(upper(k[0].text())) } }
/// rules that say something about the map (the others are not supported and left out)
pub open spec fn kept(p: Pair<Rule>) -> bool { match p.rule() { Rule::circle | Rule::fontstyle | Rule::textalign | Rule::override_sct | Rule::sctfiledata | Rule::sctdata | Rule::coord_af | Rule::coord_hm | Rule::coord_pbd => false, _ => true } }
/// a line of a map, as the grammar has it
pub open spec fn shape(p: Pair<Rule>) -> bool {
    match p.rule() {
        Rule::folder => g_folder(p), Rule::colour => g_colour(p), Rule::coordpoly => g_coordpoly(p), Rule::coord => g_coord(p), Rule::asrdata => g_asrdata(p),
        Rule::layer => g_layer(p), Rule::zoom => g_zoom(p), Rule::mapsymbol => g_mapsymbol(p), Rule::fontsize => g_fontsize(p), Rule::style => g_style(p), Rule::text => g_text(p),
        Rule::active => g_active(p), Rule::andactive => g_andactive(p), Rule::mapline => g_mapline(p),
        Rule::screen_specific | Rule::global | Rule::hidden | Rule::coordline => true,
        _ => !kept(p),
    }
}
/// the rule r is what the token p says
pub open spec fn says(r: MapRule, p: Pair<Rule>) -> bool {
    let k = p.kids();
    match p.rule() {
        Rule::folder => r is Folder && r->Folder_0@ == k[0].text(),
        Rule::colour => r is Colour && r->Colour_0@ == k[0].text(),
        Rule::asrdata => r is AsrData && strs_opt(r->AsrData_0) == listed(k[0]),
        Rule::active => r == MapRule::Active(active_of(p)),
        Rule::andactive => r == MapRule::AndActive(active_of(p)),
        Rule::layer => r == MapRule::Layer(read_f32(k[0].text())->0),
        Rule::zoom => r == MapRule::Zoom(read_f32(k[0].text())->0),
        Rule::mapsymbol => r is Symbol && says_symbol(r->Symbol_0, p),
        Rule::fontsize => r == MapRule::FontSize(size_of(k)),
        Rule::style => r == MapRule::LineStyle(style_of(k)),
        Rule::mapline => r == MapRule::Line(lines_of(p)),
        Rule::text => r is Text && says_text(r->Text_0, p),
        Rule::screen_specific => r is ScreenSpecific, Rule::global => r is Global, Rule::hidden => r is Hidden, Rule::coordline => r is CoordLine,
        Rule::coord => r == MapRule::Coord(loc_of(k[0])),
        Rule::coordpoly => r is CoordPoly && r->CoordPoly_0@ == k[0].text(),
        _ => false,
    }
}
pub open spec fn keep(k: Seq<Pair<Rule>>, n: int) -> Seq<Pair<Rule>> decreases n { if n <= 0 { seq![] } else if kept(k[n - 1]) { keep(k, n - 1).push(k[n - 1]) } else { keep(k, n - 1) } }
pub open spec fn says_all(v: Seq<MapRule>, k: Seq<Pair<Rule>>, n: int) -> bool { v.len() == keep(k, n).len() && forall|i: int| 0 <= i < v.len() ==> says(#[trigger] v[i], keep(k, n)[i]) }
//@ fn parse_point
//@ spec
requires g_point(pair),
ensures ret == point_of(pair),
//@ fn MapSymbol::parse
//@ spec
requires g_mapsymbol(pair),
ensures says_symbol(ret, pair),
//@ fn Text::parse
//@ spec
requires g_text(pair),
ensures says_text(ret, pair),
//@ fn FontSize::parse
//@ spec
requires g_fontsize(pair),
ensures ret == size_of(pair.kids()),
//@ at start
proof { axiom_str_all(); reveal_strlit("="); reveal_strlit("+"); reveal_strlit("-"); reveal_strlit("*");
    assert("="@ =~= seq!['='] && "+"@ =~= seq!['+'] && "-"@ =~= seq!['-'] && "*"@ =~= seq!['*']); assert("="@[0] == '=' && "+"@[0] == '+' && "-"@[0] == '-' && "*"@[0] == '*'); }
//@ fn LineStyle::parse
//@ spec
requires g_style(pair),
ensures ret == style_of(pair.kids()),
//@ at start
proof { axiom_string_of(); }
//@ fn MapRule::parse  loops=2
//@ type acc0 Vec<MapRule>
//@ type acc1 Vec<String>
//@ spec
requires 0 <= pairs.pos() <= pairs@.len(), forall|i: int| pairs.pos() <= i < pairs@.len() ==> shape(#[trigger] pairs@[i]),
ensures says_all(ret@, pairs@.skip(pairs.pos()), pairs@.len() - pairs.pos()),
//@ loop 0
    g0 == pairs@.skip(pairs.pos()), forall|i: int| 0 <= i < g0.len() ==> shape(#[trigger] g0[i]),
    says_all(acc0@, g0, it0.pos()),
//@ loop 1
    acc1@.len() == it1.pos(), forall|i: int| 0 <= i < it1.pos() ==> (#[trigger] acc1@[i])@ == g1[i].text(),
//@ at loop1.after
proof { assert(strs(acc1@) =~= texts(it1@)); }
//@ fn parse_map
//@ spec
requires pair.rule() is EOI || g_map(pair),
ensures match ret { Some(m) => pair.rule() is map && m.name@ == pair.kids()[0].text() && says_all(m.rules@, pair.kids().skip(1), pair.kids().len() - 1), None => pair.rule() is EOI },
//@ fn parse_override
//@ spec
requires pair.rule() is EOI || g_override_sct(pair),
ensures match ret { Some(o) => pair.rule() is override_sct && o.folder@ == pair.kids()[0].text() && (match o.name { Some(n) => pair.kids().len() >= 2 && n@ == pair.kids()[1].text(), None => pair.kids().len() == 1 }), None => pair.rule() is EOI },
