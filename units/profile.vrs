//@ source src/prf.rs
//@ use base
//@ use map
//@ use pest
//@ rename clone .vx_dup
//@ rename trim_end vx_trim_end
//@ rename replace vx_replace
//@ rename strip_prefix .vx_strip_prefix
//@ itersrc into_inner
//@ results read_to_string
//@ stubbed read_to_string current_dir
//@ concat_formats
//@ item Prf noclone
//@ item PrfResult
//@ grammar PrfParser prf
//@ prelude
#[verifier::external_body]
pub struct IoError { v: u8 }
#[verifier::external_body]
pub struct PestError { v: u8 }
pub enum PrfError { Parse(PestError), FileRead(IoError) }
impl From<PestError> for PrfError { #[verifier::external_body] fn from(e: PestError) -> Self { unimplemented!() } }
impl From<IoError> for PrfError { #[verifier::external_body] fn from(e: IoError) -> Self { unimplemented!() } }
#[verifier::external]
impl core::fmt::Debug for IoError { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
/// the text of a file (C24)
pub uninterp spec fn text_of(s: Seq<u8>) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn read_to_string(s: &[u8]) -> (r: Result<String, IoError>) ensures match r { Ok(t) => text_of(s@) == Some(t@), Err(_) => text_of(s@) is None } { unimplemented!() }
pub uninterp spec fn tree(s: Seq<char>) -> Option<Seq<Pair<Rule>>>;
/// pest builds the trees its grammar describes
pub axiom fn axiom_tree(s: Seq<char>) ensures tree(s) is Some ==> root_prf(tree(s)->0);
pub struct PrfParser { }
impl PrfParser {
    #[verifier::external_body]
    pub fn parse(rule: Rule, s: &str) -> (r: Result<VxIter<Pair<Rule>>, PestError>)
        ensures match r { Ok(p) => p.pos() == 0 && tree(s@) == Some(p@) && p@.len() >= 1, Err(_) => tree(s@) is None },
    { unimplemented!() }
}
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::reject_recursive_types(V)]
pub struct TwoKeyMap<A, B, V>(pub HashMap<(A, B), V>);
// ---- paths: what std::path computes of their texts is left open ----
pub uninterp spec fn joined(p: Seq<char>, t: Seq<char>) -> Seq<char>;
pub uninterp spec fn parent_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn name_of(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn with_ext(p: Seq<char>, t: Seq<char>) -> Seq<char>;
pub uninterp spec fn with_name(p: Seq<char>, t: Seq<char>) -> Seq<char>;
pub uninterp spec fn canonical(p: Seq<char>) -> Option<Seq<char>>;
pub uninterp spec fn cwd() -> Seq<char>;
pub trait PText { spec fn ptext(&self) -> Seq<char>; }
impl PText for String { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl PText for str { open spec fn ptext(&self) -> Seq<char> { self@ } }
impl<T: PText + ?Sized> PText for &T { open spec fn ptext(&self) -> Seq<char> { (**self).ptext() } }
impl PText for PathBuf { open spec fn ptext(&self) -> Seq<char> { self@ } }
#[verifier::external_body] pub struct PathBuf { v: u8 }
pub type Path = PathBuf;
#[verifier::external_body] pub struct OsStr { v: u8 }
impl OsStr { pub uninterp spec fn view(&self) -> Seq<char>; #[verifier::external_body] pub fn new(s: &str) -> (r: &OsStr) ensures r@ == s@ { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for OsStr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { self@ == o@ } }
impl PartialEq for OsStr { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<char>;
    #[verifier::external_body] pub fn join<T: PText>(&self, t: T) -> (r: PathBuf) ensures r@ == joined(self@, t.ptext()) { unimplemented!() }
    #[verifier::external_body] pub fn parent(&self) -> (r: Option<&Path>) ensures match r { Some(p) => parent_of(self@) == Some(p@), None => parent_of(self@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn file_name(&self) -> (r: Option<&OsStr>) ensures match r { Some(p) => name_of(self@) == Some(p@), None => name_of(self@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn with_extension(&self, t: &str) -> (r: PathBuf) ensures r@ == with_ext(self@, t@) { unimplemented!() }
    #[verifier::external_body] pub fn with_file_name(&self, t: &str) -> (r: PathBuf) ensures r@ == with_name(self@, t@) { unimplemented!() }
    #[verifier::external_body] pub fn canonicalize(&self) -> (r: Result<PathBuf, IoError>) ensures match r { Ok(p) => canonical(self@) == Some(p@), Err(_) => canonical(self@) is None } { unimplemented!() }
    #[verifier::external_body] pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
}
/// the working directory exists
#[verifier::external_body] pub fn current_dir() -> (r: Result<PathBuf, IoError>) ensures r matches Ok(p) && p@ == cwd() { unimplemented!() }
/// the text value with these characters
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub axiom fn axiom_string_of() ensures forall|s: String| #[trigger] string_of(s@) == s;
/// text without blanks at its end
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] pub fn vx_trim_end(s: &str) -> (r: &str) ensures r@ == trimmed(s@) { unimplemented!() }
/// every backslash as a separator
pub open spec fn slashed(s: Seq<char>, c: char, by: char) -> Seq<char> { Seq::new(s.len(), |i: int| if s[i] == c { by } else { s[i] }) }
#[verifier::external_body] pub fn vx_replace(s: &str, c: char, by: &str) -> (r: String) requires by@.len() == 1 ensures r@ == slashed(s@, c, by@[0]) { unimplemented!() }
pub trait VxStrip { fn vx_strip_prefix(&self, c: char) -> (r: Option<&str>); }
impl VxStrip for String { #[verifier::external_body] fn vx_strip_prefix(&self, c: char) -> (r: Option<&str>) ensures match r { Some(x) => self@.len() > 0 && self@[0] == c && x@ == self@.skip(1), None => self@.len() == 0 || self@[0] != c } { unimplemented!() } }
// ---- what a profile says ----
/// where a value leads: from the profile's folder if it starts with a separator, else from the working directory
pub open spec fn place(p: Prf, v: Seq<char>) -> Seq<char> { let t = slashed(trimmed(v), '\\', '/'); if t.len() > 0 && t[0] == '/' { joined(home(p), t.skip(1)) } else { joined(cwd(), t) } }
pub open spec fn home(p: Prf) -> Seq<char> { parent_of(p.path@)->0 }
pub open spec fn housed(p: Prf) -> bool { parent_of(p.path@) is Some }
pub open spec fn setting(p: Prf, c: Seq<char>, k: Seq<char>) -> Option<Seq<char>> { if p.settings.0@.contains_key((c, k)) { Some(p.settings.0@[(c, k)]@) } else { None } }
pub open spec fn has(p: Prf, k: Seq<char>) -> bool { housed(p) && setting(p, "Settings"@, k) is Some }
pub open spec fn named(p: Prf, k: Seq<char>) -> Seq<char> { place(p, setting(p, "Settings"@, k)->0) }
/// does that setting name the file?
pub open spec fn names(p: Prf, k: (Seq<char>, Seq<char>), file: Seq<char>) -> bool { p.settings.0@.contains_key(k) && name_of(place(p, p.settings.0@[k]@)) == Some(file) && parent_of(place(p, p.settings.0@[k]@)) is Some }
/// the order of settings by category and key
pub uninterp spec fn key_le(a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)) -> bool;
pub axiom fn axiom_key_le(a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>), c: (Seq<char>, Seq<char>)) ensures key_le(a, a), key_le(a, b) || key_le(b, a), key_le(a, b) && key_le(b, a) ==> a == b, key_le(a, b) && key_le(b, c) ==> key_le(a, c);
pub open spec fn least(p: Prf, k: (Seq<char>, Seq<char>), file: Seq<char>) -> bool { names(p, k, file) && forall|o: (Seq<char>, Seq<char>)| #[trigger] names(p, o, file) ==> key_le(k, o) }
/// the folder of the file as the least setting naming it states
pub open spec fn plugin(p: Prf, file: Seq<char>) -> Option<Seq<char>> { if exists|k: (Seq<char>, Seq<char>)| #[trigger] least(p, k, file) { parent_of(place(p, p.settings.0@[choose|k: (Seq<char>, Seq<char>)| #[trigger] least(p, k, file)]@)) } else { None } }
#[verifier::external_body]
pub fn vx_lt(a: &&(String, String), b: &&(String, String)) -> (r: bool) ensures r == !key_le((**b).vkey(), (**a).vkey()) { unimplemented!() }
/// a number in decimal
pub uninterp spec fn digits(n: u8) -> Seq<char>;
impl VxShow for u8 { open spec fn shown(&self) -> Seq<char> { digits(*self) } }
/// the least of the first n settings naming the file
pub open spec fn best(p: Prf, g: Seq<((String, String), String)>, n: int, file: Seq<char>, key: Option<(Seq<char>, Seq<char>)>) -> bool {
    match key {
        None => forall|i: int| 0 <= i < n ==> !names(p, (#[trigger] g[i]).0.vkey(), file),
        Some(k) => names(p, k, file) && forall|i: int| 0 <= i < n && names(p, (#[trigger] g[i]).0.vkey(), file) ==> key_le(k, g[i].0.vkey()),
    }
}
pub open spec fn key_of(r: Option<(&(String, String), PathBuf)>) -> Option<(Seq<char>, Seq<char>)> { match r { Some(x) => Some((*x.0).vkey()), None => None } }
pub proof fn lemma_best(p: Prf, file: Seq<char>, key: Option<(Seq<char>, Seq<char>)>)
    requires best(p, entries(p.settings.0), entries(p.settings.0).len() as int, file, key)
    ensures match key { Some(k) => plugin(p, file) == parent_of(place(p, p.settings.0@[k]@)), None => plugin(p, file) is None }
{
    let g = entries(p.settings.0); axiom_entries(p.settings.0);
    assert forall|o: (Seq<char>, Seq<char>)| #[trigger] names(p, o, file) implies key matches Some(k) && key_le(k, o) by { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).0.vkey() == o; assert(g[i].0.vkey() == o); }
    match key {
        Some(k) => { assert(least(p, k, file)); let c = choose|c: (Seq<char>, Seq<char>)| #[trigger] least(p, c, file); assert(names(p, c, file)); axiom_key_le(k, c, c); }
        None => { if exists|k: (Seq<char>, Seq<char>)| #[trigger] least(p, k, file) { let c = choose|c: (Seq<char>, Seq<char>)| #[trigger] least(p, c, file); assert(names(p, c, file)); } }
    }
}
pub proof fn lemma_order() ensures forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)| #[trigger] key_le(a, b) || key_le(b, a), forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>), c: (Seq<char>, Seq<char>)| #[trigger] key_le(a, b) && #[trigger] key_le(b, c) ==> key_le(a, c)
{
    assert forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)| #[trigger] key_le(a, b) || key_le(b, a) by { axiom_key_le(a, b, b); }
    assert forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>), c: (Seq<char>, Seq<char>)| #[trigger] key_le(a, b) && #[trigger] key_le(b, c) implies key_le(a, c) by { axiom_key_le(a, b, c); }
}
/// the settings of the first n entries of a profile: the last one of a category and key counts
pub open spec fn settings_of(ps: Seq<Pair<Rule>>, n: int) -> Map<(Seq<char>, Seq<char>), String> decreases n {
    if n <= 0 { Map::empty() } else { let m = settings_of(ps, n - 1); let p = ps[n - 1]; match p.rule() { Rule::setting => m.insert((p.kids()[0].text(), p.kids()[1].text()), string_of(p.kids()[2].text())), _ => m } }
}
pub open spec fn wf_setting(p: Pair<Rule>) -> bool { g_setting(p) || p.rule() is EOI }
//@ fn parse_setting
//@ spec
requires wf_setting(pair),
ensures match ret { Some(x) => pair.rule() is setting && x.0.vkey() == (pair.kids()[0].text(), pair.kids()[1].text()) && x.1@ == pair.kids()[2].text(), None => pair.rule() is EOI },
//@ fn Prf::parse
//@ spec
ensures match ret {
    Ok(p) => text_of(contents@) matches Some(t) && tree(t) matches Some(ps) && canonical(path@) == Some(p.path@) && p.settings.0@ == settings_of(ps[0].kids(), ps[0].kids().len() as int),
    Err(_) => text_of(contents@) is None || tree(text_of(contents@)->0) is None || canonical(path@) is None },
//@ at start
proof { axiom_string_of(); if text_of(contents@) is Some { axiom_tree(text_of(contents@)->0); } }
//@ loop 0
    text_of(contents@) == Some(file_contents@), tree(file_contents@) matches Some(ps) && g0 == ps[0].kids() && root_prf(ps),
    forall|s: String| #[trigger] string_of(s@) == s,
    map_of(acc0@) == settings_of(g0, it0.pos()),
//@ type acc0 Vec<((String, String), String)>
//@ at loop0.start
let ghost before = acc0@;
proof { assert(wf_setting(g0[it0.pos() - 1])); }
//@ at loop0.end
proof { let p = g0[it0.pos() - 1]; if p.rule() is setting { assert(acc0@.drop_last() =~= before); assert(acc0@.last().1 == string_of(p.kids()[2].text())); assert(map_of(acc0@) =~= settings_of(g0, it0.pos())); } else { assert(acc0@ =~= before); } }
//@ fn Prf::join_settings_path
//@ spec
requires housed(*self),
ensures ret@ == place(*self, path@),
//@ at start
proof { reveal_strlit("/"); }
//@ fn Prf::sct_path
//@ spec
requires has(*self, "sector"@),
ensures ret@ == named(*self, "sector"@),
//@ fn Prf::ese_path
//@ spec
requires has(*self, "sector"@),
ensures ret@ == with_ext(named(*self, "sector"@), "ese"@),
//@ fn Prf::airways_path
//@ spec
requires has(*self, "airways"@),
ensures ret@ == named(*self, "airways"@),
//@ fn Prf::isec_path
//@ spec
requires has(*self, "airways"@),
ensures ret@ == with_name(named(*self, "airways"@), "isec.txt"@),
//@ fn Prf::navdata_airports_path
//@ spec
requires has(*self, "airportcoords"@),
ensures ret@ == named(*self, "airportcoords"@),
//@ fn Prf::airlines_path
//@ spec
requires has(*self, "airlines"@),
ensures ret@ == named(*self, "airlines"@),
//@ fn Prf::aircraft_path
//@ spec
requires has(*self, "aircraft"@),
ensures ret@ == named(*self, "aircraft"@),
//@ fn Prf::airports_path
//@ spec
requires has(*self, "airports"@),
ensures ret@ == named(*self, "airports"@),
//@ fn Prf::symbology_path
//@ spec
requires has(*self, "SettingsfileSYMBOLOGY"@),
ensures ret@ == named(*self, "SettingsfileSYMBOLOGY"@),
//@ fn Prf::recent_path
//@ spec
requires housed(*self),
ensures match ret { Some(p) => setting(*self, "RecentFiles"@, "Recent"@ + digits(num)) matches Some(v) && p@ == place(*self, v), None => setting(*self, "RecentFiles"@, "Recent"@ + digits(num)) is None },
//@ fn Prf::topsky_path
//@ spec
requires housed(*self),
ensures match ret { Some(p) => plugin(*self, "TopSky.dll"@) matches Some(d) && p@ == joined(home(*self), d), None => plugin(*self, "TopSky.dll"@) is None },
//@ type r0 Option<(&(String, String), PathBuf)>
//@ at start
proof { lemma_order(); }
//@ loop 0
    g0 == entry_refs(entries(self.settings.0)), housed(*self), best(*self, entries(self.settings.0), it0.pos(), "TopSky.dll"@, key_of(r0)),
    forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)| #[trigger] key_le(a, b) || key_le(b, a), forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>), c: (Seq<char>, Seq<char>)| #[trigger] key_le(a, b) && #[trigger] key_le(b, c) ==> key_le(a, c),
    r0 matches Some(x) ==> ({ let k = x.0.vkey(); x.1@ == parent_of(place(*self, self.settings.0@[k]@))->0 }),
//@ at loop0.start
proof { let e = entries(self.settings.0); axiom_entries(self.settings.0); assert(lists(e, self.settings.0@)); let k = e[it0.pos() - 1].0.vkey(); assert(self.settings.0@[k] == e[it0.pos() - 1].1); assert(vx_x0 == (&e[it0.pos() - 1].0, &e[it0.pos() - 1].1)); }
//@ at loop0.after
proof { lemma_best(*self, "TopSky.dll"@, key_of(r0)); }
//@ fn Prf::squawks_path
//@ spec
requires housed(*self),
ensures match ret { Some(p) => plugin(*self, "Squawks.dll"@) matches Some(d) && p@ == joined(home(*self), joined(d, "squawks.json"@)), None => plugin(*self, "Squawks.dll"@) is None },
//@ type r0 Option<(&(String, String), PathBuf)>
//@ at start
proof { lemma_order(); }
//@ loop 0
    g0 == entry_refs(entries(self.settings.0)), housed(*self), best(*self, entries(self.settings.0), it0.pos(), "Squawks.dll"@, key_of(r0)),
    forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>)| #[trigger] key_le(a, b) || key_le(b, a), forall|a: (Seq<char>, Seq<char>), b: (Seq<char>, Seq<char>), c: (Seq<char>, Seq<char>)| #[trigger] key_le(a, b) && #[trigger] key_le(b, c) ==> key_le(a, c),
    r0 matches Some(x) ==> ({ let k = x.0.vkey(); x.1@ == joined(parent_of(place(*self, self.settings.0@[k]@))->0, "squawks.json"@) }),
//@ at loop0.start
proof { let e = entries(self.settings.0); axiom_entries(self.settings.0); assert(lists(e, self.settings.0@)); let k = e[it0.pos() - 1].0.vkey(); assert(self.settings.0@[k] == e[it0.pos() - 1].1); assert(vx_x0 == (&e[it0.pos() - 1].0, &e[it0.pos() - 1].1)); }
//@ at loop0.after
proof { lemma_best(*self, "Squawks.dll"@, key_of(r0)); }
