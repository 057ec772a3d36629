//@ source src/topsky/settings.rs
//@ source src/adaptation/settings/track.rs
//@ source src/adaptation/colours.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ rename parse vx_parse
//@ itersrc into_inner
//@ item Colour
//@ item Settings noclone
//@ item Setting
//@ item HistoryDotsSettings noclone
//@ item VectorSettings noclone
//@ item DEFAULT_VECTOR_LENGTH
//@ item DEFAULT_HISTORY_DOTS_COUNT
//@ grammar TopskySettingsParser settings
//@ prelude
broadcast use crate::rd::reads;
pub trait Default: Sized { fn default() -> (ret: Self); }
pub struct ColourDef { pub name: String, pub colour: Colour }
pub struct Topsky { pub settings: Settings }
/// topsky::TopskyError, pest::error::Error
#[verifier::external_body]
pub struct TopskyError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
impl From<PestError> for TopskyError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
pub struct TopskySettingsParser { }
/// the tree pest builds for a text, if it accepts it
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
impl TopskySettingsParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_settings(tree(s)->0);
/// an entry of the file, as the grammar has it
pub open spec fn shaped(p: Pair<Rule>) -> bool { g_colour_setting(p) || g_other_setting(p) || p.rule() is section || p.rule() is EOI }
pub open spec fn rgb_of(p: Pair<Rule>) -> Option<Colour> {
    match (read_u8(p.kids()[0].text()), read_u8(p.kids()[1].text()), read_u8(p.kids()[2].text())) {
        (Some(r), Some(g), Some(b)) => Some(Colour { r, g, b, a: 255 }),
        _ => None,
    }
}
/// what one general entry contributes: a well-formed colour, or a key with its value
pub enum Entry1 { Colour(Seq<char>, Colour), Other(Seq<char>, Seq<char>) }
pub open spec fn entry_of(p: Pair<Rule>) -> Option<Entry1> {
    match p.rule() {
        Rule::colour_setting => if p.kids().len() == 2 { match rgb_of(p.kids()[1]) { Some(c) => Some(Entry1::Colour(p.kids()[0].text(), c)), None => None } } else { None },
        Rule::other_setting => Some(Entry1::Other(p.kids()[0].text(), p.kids()[1].text())),
        _ => None,
    }
}
/// the last value given for a key
pub open spec fn last_value(s: Seq<Pair<Rule>>, key: Seq<char>) -> Option<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { None } else { match entry_of(s.last()) { Some(Entry1::Other(k, v)) => if k == key { Some(v) } else { last_value(s.drop_last(), key) }, _ => last_value(s.drop_last(), key) } }
}
pub open spec fn last_colour(s: Seq<Pair<Rule>>, key: Seq<char>) -> Option<Colour>
    decreases s.len()
{
    if s.len() == 0 { None } else { match entry_of(s.last()) { Some(Entry1::Colour(k, v)) => if k == key { Some(v) } else { last_colour(s.drop_last(), key) }, _ => last_colour(s.drop_last(), key) } }
}
pub open spec fn value_in(m: HashMap<String, String>, key: Seq<char>) -> Option<Seq<char>> { if m@.contains_key(key) { Some(m@[key]@) } else { None } }
pub open spec fn colour_in(m: HashMap<String, ColourDef>, key: Seq<char>) -> Option<Colour> { if m@.contains_key(key) { Some(m@[key].colour) } else { None } }
/// a setting's value if present and readable, else the default
pub open spec fn lookup<T: FromStr>(s: Settings, key: Seq<char>, default: T) -> T {
    match value_in(s.0, key) { Some(v) => match T::reads(v) { Some(t) => t, None => default }, None => default }
}
/// f32 comparison is a function of its operands (IEEE-754; assumed)
pub uninterp spec fn f_eq(x: f32, y: f32) -> bool;
pub broadcast axiom fn axiom_f_eq(x: f32, y: f32, o: bool) ensures #[trigger] vstd::std_specs::cmp::eq_ensures::<f32>(x, y, o) ==> o == f_eq(x, y);
pub open spec fn is_zero(x: f32) -> bool { f_eq(x, 0.0f32) }
//@ fn Settings::parse_with_default
//@ spec
ensures ret == lookup(*self, key@, default),
//@ fn Colour::from_rgb
//@ spec
ensures ret == (Colour { r, g, b, a: 255 }),
//@ fn parse_colour
//@ spec
requires g_colour_setting_rgb(pair),
ensures ret.ok() == rgb_of(pair),
//@ fn parse_setting
//@ spec
requires shaped(pair),
ensures match entry_of(pair) {
    Some(Entry1::Colour(n, c)) => match ret { Some(Setting::Colour(d)) => d.name@ == n && d.colour == c, _ => false },
    Some(Entry1::Other(k, v)) => match ret { Some(Setting::Other(a, b)) => a@ == k && b@ == v, _ => false },
    None => ret is None },
//@ fn parse_topsky_settings  loops=1
//@ type acc0 (HashMap<String, ColourDef>, Settings)
//@ spec
ensures
    ret is Ok <==> tree(contents@) is Some,
    ret matches Ok(r) ==> {
        let kids = tree(contents@)->0[0].kids();
        &&& forall|k: Seq<char>| #![trigger value_in(r.1.0, k)] value_in(r.1.0, k) == last_value(kids, k)
        &&& forall|k: Seq<char>| #![trigger colour_in(r.0, k)] colour_in(r.0, k) == last_colour(kids, k) },
//@ at start
proof { axiom_tree(contents@); }
//@ loop 0
invariant
    forall|i: int| 0 <= i < g0.len() ==> shaped(#[trigger] g0[i]),
    forall|k: Seq<char>| #![trigger value_in(acc0.1.0, k)] value_in(acc0.1.0, k) == last_value(g0.take(it0.pos()), k),
    forall|k: Seq<char>| #![trigger colour_in(acc0.0, k)] colour_in(acc0.0, k) == last_colour(g0.take(it0.pos()), k),
//@ at loop0.start
let ghost before = acc0;
proof { assert(g0.take(it0.pos()).drop_last() =~= g0.take(it0.pos() - 1)); assert(g0.take(it0.pos()).last() == g0[it0.pos() - 1]); }
//@ at loop0.end
proof {
    let s = g0.take(it0.pos());
    assert forall|k: Seq<char>| #![trigger value_in(acc0.1.0, k)] value_in(acc0.1.0, k) == last_value(s, k) by { assert(value_in(before.1.0, k) == last_value(s.drop_last(), k)); }
    assert forall|k: Seq<char>| #![trigger colour_in(acc0.0, k)] colour_in(acc0.0, k) == last_colour(s, k) by { assert(colour_in(before.0, k) == last_colour(s.drop_last(), k)); }
}
//@ at loop0.after
proof { assert(g0.take(it0.pos()) =~= g0); }
//@ fn HistoryDotsSettings as Default::default
//@ fn VectorSettings as Default::default
//@ fn HistoryDotsSettings::from_topsky
//@ spec
ensures ({ let c = lookup(topsky.settings, "Track_HistoryDots"@, 6u32);
    &&& ret.count == (if c == 0 { 6u32 } else { c })
    &&& ret.enabled == (c != 0) }),
//@ fn VectorSettings::from_topsky
//@ spec
ensures ({ let c = lookup(topsky.settings, "Track_PredictionLine"@, 1.0f32);
    &&& ret.length == (if is_zero(c) { 1.0f32 } else { c })
    &&& ret.enabled == !is_zero(c) }),
//@ at start
broadcast use axiom_f_eq;
