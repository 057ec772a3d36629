//@ source src/topsky/map/mod.rs
//@ source src/topsky/mod.rs
//@ source src/topsky/symbol.rs
//@ source src/adaptation/colours.rs
//@ source src/lib.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ rename parse vx_parse
//@ rename clone .vx_dup
//@ callrename fs_err::read fs_read
//@ itersrc into_inner
//@ results read_to_string read fs_read parse_topsky_settings parse_topsky_symbols
//@ stubbed read_to_string parse_map parse_symbol parse_topsky_symbols parse_topsky_settings
//@ item Colour
//@ item src/topsky/map/mod.rs#ColourDef noclone
//@ item LineStyleDef noclone
//@ item OverrideSct noclone
//@ item MapDefinition noclone
//@ item ParseMapResult
//@ item Topsky noclone
//@ item TopskyResult
//@ grammar TopskyParser symbols maps
//@ prelude
broadcast use crate::rd::reads;
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
#[verifier::external_body]
pub struct SettingsError { v: u8 }
pub enum TopskyError { Parse(PestError), FileRead(IoError), ParseSettings(SettingsError) }
impl From<PestError> for TopskyError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for TopskyError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
impl From<SettingsError> for TopskyError { #[verifier::external_body] fn from(e: SettingsError) -> Self { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_maps(tree(s)->0);
pub struct TopskyParser { }
impl TopskyParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
pub open spec fn file(content: Seq<u8>) -> Option<Seq<Pair<Rule>>> { match text_of(content) { Some(t) => match tree(t) { Some(p) => Some(p[0].kids()), None => None }, None => None } }
/// what a map line or a symbol line says (under contract in the units maprules and topskysymbols)
#[verifier::external_body]
pub struct MapDef { v: u8 }
#[verifier::external_body]
pub struct SymbolRule { v: u8 }
pub struct SymbolDef { pub name: String, pub rules: Vec<SymbolRule> }
pub uninterp spec fn map_says(d: MapDef, p: Pair<Rule>) -> bool;
pub uninterp spec fn drawn(v: Vec<SymbolRule>, p: Pair<Rule>) -> bool;
pub open spec fn symbol_says(d: SymbolDef, p: Pair<Rule>) -> bool { d.name@ == p.kids()[0].text() && drawn(d.rules, p) }
#[verifier::external_body]
pub fn parse_map(pair: Pair<Rule>) -> (r: Option<MapDef>) requires g_map(pair) || pair.rule() is EOI ensures match r { Some(d) => !(pair.rule() is EOI) && map_says(d, pair), None => pair.rule() is EOI } { unimplemented!() }
#[verifier::external_body]
pub fn parse_symbol(pair: Pair<Rule>) -> (r: Option<SymbolDef>) requires g_symbol(pair) || g_symboldef(pair) || pair.rule() is EOI ensures match r { Some(d) => !(pair.rule() is EOI) && symbol_says(d, pair), None => pair.rule() is EOI } { unimplemented!() }
// ---- the files of a profile's plugin folder ----
#[verifier::external_body]
pub struct Path { v: u8 }
#[verifier::external_body]
pub struct PathBuf { v: u8 }
/// what is on disk under a name in a folder, if it can be read
pub uninterp spec fn folder(p: &Path) -> Map<Seq<char>, Seq<u8>>;
impl PathBuf { pub uninterp spec fn held(&self) -> Option<Seq<u8>>; }
impl Path { #[verifier::external_body] pub fn join(&self, n: &str) -> (r: PathBuf) ensures r.held() == (if folder(self).contains_key(n@) { Some(folder(self)[n@]) } else { None }) { unimplemented!() } }
#[verifier::external_body]
pub fn fs_read(p: PathBuf) -> (r: Result<Vec<u8>, IoError>) ensures match r { Ok(v) => p.held() == Some(v@), Err(_) => p.held() is None } { unimplemented!() }
#[verifier::external_body]
pub struct Settings { v: u8 }
/// the settings file and the symbols file (C14, C32)
pub uninterp spec fn settings_say(t: Seq<char>, c: Map<Seq<char>, ColourDef>, s: Settings) -> bool;
pub uninterp spec fn settings_ok(t: Seq<char>) -> bool;
#[verifier::external_body]
pub fn parse_topsky_settings(s: &str) -> (r: Result<(HashMap<String, ColourDef>, Settings), SettingsError>) ensures match r { Ok(x) => settings_ok(s@) && settings_say(s@, x.0@, x.1), Err(_) => !settings_ok(s@) } { unimplemented!() }
pub uninterp spec fn symbols_say(b: Seq<u8>, m: Map<Seq<char>, SymbolDef>) -> bool;
pub uninterp spec fn symbols_ok(b: Seq<u8>) -> bool;
#[verifier::external_body]
pub fn parse_topsky_symbols(b: &[u8]) -> (r: Result<HashMap<String, SymbolDef>, TopskyError>) ensures match r { Ok(x) => symbols_ok(b@) && symbols_say(b@, x@), Err(_) => !symbols_ok(b@) } { unimplemented!() }
impl<K: VKey, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn extend(&mut self, o: HashMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
}
// ---- what the lines say ----
pub open spec fn colour_of(p: Pair<Rule>) -> Option<Colour> { let k = p.kids(); match (read_u8(k[1].text()), read_u8(k[2].text()), read_u8(k[3].text())) { (Some(r), Some(g), Some(b)) => Some(Colour { r, g, b, a: 255 }), _ => None } }
pub open spec fn says_colour(d: ColourDef, p: Pair<Rule>) -> bool { d.name@ == p.kids()[0].text() && Some(d.colour) == colour_of(p) }
pub open spec fn says_style(d: LineStyleDef, p: Pair<Rule>) -> bool {
    let k = p.kids();
    d.name@ == k[0].text() && d.brush@ == k[1].text() && d.hatch@ == k[2].text() && d.dash_lengths@.len() == k.len() - 3 && forall|i: int| 0 <= i < k.len() - 3 ==> #[trigger] d.dash_lengths@[i] == read_f32(k[i + 3].text())->0
}
pub open spec fn says_override(d: OverrideSct, p: Pair<Rule>) -> bool { let k = p.kids(); d.folder@ == k[0].text() && match d.name { Some(n) => k.len() == 2 && n@ == k[1].text(), None => k.len() == 1 } }
/// does the line define something: a colour needs three components up to 255
pub open spec fn defines(p: Pair<Rule>, r: Rule) -> bool { p.rule() == r && (r is colourdef ==> colour_of(p) is Some) }
/// the line of that kind that defines a name: the last one
pub open spec fn last(k: Seq<Pair<Rule>>, n: int, r: Rule, t: Seq<char>) -> Option<int>
    decreases n
{ if n <= 0 { None } else if defines(k[n - 1], r) && k[n - 1].kids()[0].text() == t { Some(n - 1) } else { last(k, n - 1, r, t) } }
pub open spec fn of_kind(k: Seq<Pair<Rule>>, n: int, r: Rule) -> Seq<Pair<Rule>> decreases n { if n <= 0 { seq![] } else if k[n - 1].rule() == r { of_kind(k, n - 1, r).push(k[n - 1]) } else { of_kind(k, n - 1, r) } }
pub open spec fn maps_are(v: Seq<MapDef>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> map_says(#[trigger] v[i], k[i]) }
pub open spec fn overrides_are(v: Seq<OverrideSct>, k: Seq<Pair<Rule>>) -> bool { v.len() == k.len() && forall|i: int| 0 <= i < v.len() ==> says_override(#[trigger] v[i], k[i]) }
pub open spec fn symbols_are(m: Map<Seq<char>, SymbolDef>, k: Seq<Pair<Rule>>, n: int) -> bool { forall|t: Seq<char>| match #[trigger] last(k, n, Rule::symboldef, t) { Some(i) => m.contains_key(t) && symbol_says(m[t], k[i]), None => !m.contains_key(t) } }
pub open spec fn colours_are(m: Map<Seq<char>, ColourDef>, k: Seq<Pair<Rule>>, n: int) -> bool { forall|t: Seq<char>| match #[trigger] last(k, n, Rule::colourdef, t) { Some(i) => m.contains_key(t) && says_colour(m[t], k[i]), None => !m.contains_key(t) } }
pub open spec fn styles_are(m: Map<Seq<char>, LineStyleDef>, k: Seq<Pair<Rule>>, n: int) -> bool { forall|t: Seq<char>| match #[trigger] last(k, n, Rule::linestyledef, t) { Some(i) => m.contains_key(t) && says_style(m[t], k[i]), None => !m.contains_key(t) } }
/// everything the first n lines define
pub open spec fn contents(m: Seq<MapDef>, s: Map<Seq<char>, SymbolDef>, c: Map<Seq<char>, ColourDef>, l: Map<Seq<char>, LineStyleDef>, o: Seq<OverrideSct>, k: Seq<Pair<Rule>>, n: int) -> bool {
    maps_are(m, of_kind(k, n, Rule::map)) && symbols_are(s, k, n) && colours_are(c, k, n) && styles_are(l, k, n) && overrides_are(o, of_kind(k, n, Rule::override_sct))
}
pub open spec fn settings_file() -> Seq<char> { seq!['T', 'o', 'p', 'S', 'k', 'y', 'S', 'e', 't', 't', 'i', 'n', 'g', 's', '.', 't', 'x', 't'] }
pub open spec fn symbols_file() -> Seq<char> { seq!['T', 'o', 'p', 'S', 'k', 'y', 'S', 'y', 'm', 'b', 'o', 'l', 's', '.', 't', 'x', 't'] }
pub open spec fn maps_file() -> Seq<char> { seq!['T', 'o', 'p', 'S', 'k', 'y', 'M', 'a', 'p', 's', '.', 't', 'x', 't'] }
/// a folder that can be read: settings and maps are needed, symbols may be missing
pub open spec fn readable(d: Map<Seq<char>, Seq<u8>>) -> bool {
    d.contains_key(settings_file()) && text_of(d[settings_file()]) is Some && settings_ok(text_of(d[settings_file()])->0)
        && (d.contains_key(symbols_file()) ==> symbols_ok(d[symbols_file()])) && d.contains_key(maps_file()) && file(d[maps_file()]) is Some
}
/// what was read from the three files; definitions in the maps file go before those of the others
pub open spec fn read_from(t: Topsky, d: Map<Seq<char>, Seq<u8>>) -> bool {
    let k = file(d[maps_file()])->0;
    exists|s0: Map<Seq<char>, SymbolDef>, c0: Map<Seq<char>, ColourDef>, s1: Map<Seq<char>, SymbolDef>, c1: Map<Seq<char>, ColourDef>|
        settings_say(text_of(d[settings_file()])->0, c0, t.settings) && (if d.contains_key(symbols_file()) { symbols_say(d[symbols_file()], s0) } else { s0 == Map::<Seq<char>, SymbolDef>::empty() })
        && #[trigger] contents(t.maps@, s1, c1, t.line_styles@, t.overrides@, k, k.len() as int) && t.symbols@ == #[trigger] s0.union_prefer_right(s1) && t.colours@ == #[trigger] c0.union_prefer_right(c1)
}
//@ fn parse_linestyle  loops=1
//@ spec
requires g_linestyledef(pair) || pair.rule() is EOI,
ensures match ret { Some(d) => !(pair.rule() is EOI) && says_style(d, pair), None => pair.rule() is EOI },
//@ loop 0
    g_linestyledef(pair), g0 == pair.kids().skip(3), acc0@.len() == it0.pos(), forall|i: int| 0 <= i < acc0@.len() ==> #[trigger] acc0@[i] == read_f32(pair.kids()[i + 3].text())->0,
//@ at loop0.start
proof { assert(g_integer(pair.kids()[it0.pos() - 1 + 3])); }
//@ fn parse_colour
//@ spec
requires g_colourdef(pair) || pair.rule() is EOI,
ensures match ret { Some(d) => !(pair.rule() is EOI) && says_colour(d, pair), None => pair.rule() is EOI || colour_of(pair) is None },
//@ fn parse_override
//@ spec
requires g_override_sct(pair) || pair.rule() is EOI,
ensures match ret { Some(d) => !(pair.rule() is EOI) && says_override(d, pair), None => pair.rule() is EOI },
//@ fn parse_topsky_maps  loops=1
//@ type acc0 (Vec<MapDef>, HashMap<String, SymbolDef>, HashMap<String, ColourDef>, HashMap<String, LineStyleDef>, Vec<OverrideSct>)
//@ spec
ensures match ret { Ok(r) => file(file_contents@) is Some && contents(r.0@, r.1@, r.2@, r.3@, r.4@, file(file_contents@)->0, file(file_contents@)->0.len() as int), Err(_) => file(file_contents@) is None },
//@ at start
proof { if text_of(file_contents@) is Some { axiom_tree(text_of(file_contents@)->0); } }
//@ loop 0
    file(file_contents@) is Some, g0 == file(file_contents@)->0, root_maps(tree(text_of(file_contents@)->0)->0), contents(acc0.0@, acc0.1@, acc0.2@, acc0.3@, acc0.4@, g0, it0.pos()),
//@ at loop0.start
let ghost before = acc0;
proof { assert(in_maps(g0[it0.pos() - 1])); }
//@ at loop0.end
proof { let n = it0.pos() - 1;
    assert(of_kind(g0, n + 1, Rule::map).len() >= of_kind(g0, n, Rule::map).len());
    assert forall|i: int| 0 <= i < acc0.0@.len() implies map_says(#[trigger] acc0.0@[i], of_kind(g0, n + 1, Rule::map)[i]) by { if i < before.0@.len() { assert(acc0.0@[i] == before.0@[i]); } }
    assert forall|i: int| 0 <= i < acc0.4@.len() implies says_override(#[trigger] acc0.4@[i], of_kind(g0, n + 1, Rule::override_sct)[i]) by { if i < before.4@.len() { assert(acc0.4@[i] == before.4@[i]); } }
    assert forall|t: Seq<char>| match #[trigger] last(g0, n + 1, Rule::symboldef, t) { Some(i) => acc0.1@.contains_key(t) && symbol_says(acc0.1@[t], g0[i]), None => !acc0.1@.contains_key(t) } by { let _ = last(g0, n, Rule::symboldef, t); }
    assert forall|t: Seq<char>| match #[trigger] last(g0, n + 1, Rule::colourdef, t) { Some(i) => acc0.2@.contains_key(t) && says_colour(acc0.2@[t], g0[i]), None => !acc0.2@.contains_key(t) } by { let _ = last(g0, n, Rule::colourdef, t); }
    assert forall|t: Seq<char>| match #[trigger] last(g0, n + 1, Rule::linestyledef, t) { Some(i) => acc0.3@.contains_key(t) && says_style(acc0.3@[t], g0[i]), None => !acc0.3@.contains_key(t) } by { let _ = last(g0, n, Rule::linestyledef, t); }
}
//@ fn Topsky::parse
//@ spec
ensures match ret { Ok(t) => readable(folder(path)) && read_from(t, folder(path)), Err(_) => !readable(folder(path)) },
//@ at start
proof { reveal_strlit("TopSkySettings.txt"); reveal_strlit("TopSkySymbols.txt"); reveal_strlit("TopSkyMaps.txt");
    assert("TopSkySettings.txt"@ =~= settings_file() && "TopSkySymbols.txt"@ =~= symbols_file() && "TopSkyMaps.txt"@ =~= maps_file()); }
//@ at let:symbols
let ghost s0 = symbols@; let ghost c0 = colours@;
//@ at call:extend#0.before
let ghost s1 = mapsymbols@; let ghost c1 = mapcolours@;
//@ at tail
proof { if vx_ret is Ok { let t = vx_ret->Ok_0; let k = file(folder(path)[maps_file()])->0; assert(contents(t.maps@, s1, c1, t.line_styles@, t.overrides@, k, k.len() as int)); assert(t.symbols@ == s0.union_prefer_right(s1) && t.colours@ == c0.union_prefer_right(c1)); } }
