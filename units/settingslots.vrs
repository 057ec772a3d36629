//@ source src/adaptation/settings/mod.rs
//@ source src/adaptation/line_styles.rs
//@ source src/adaptation/mod.rs
//@ source src/topsky/settings.rs
//@ use base
//@ use map
//@ use pest
//@ use digits
//@ use read
//@ item LineStyle noclone
//@ item LineSettings noclone
//@ item LabelSettings noclone
//@ item MapsSettings noclone
//@ item Settings noclone
//@ item Alignment
//@ item HorizontalAlignment
//@ item VerticalAlignment
//@ item EUROSCOPE_FONT_SIZE_FACTOR
//@ consts LineStyle
//@ consts LineSettings
//@ consts LabelSettings
//@ consts MapsSettings
//@ rename parse vx_parse
//@ rename unwrap_or_default .vx_or_default
//@ prelude
pub trait Default: Sized { fn default() -> (ret: Self); }
#[verifier::external_body]
pub struct PathBuf { v: u8 }
pub struct Item { pub line_style: String, pub line_weight: i32, pub font_size_symbol_scale: f32, pub text_alignment: Alignment }
/// TwoKeyMap: a map with pairs of texts as keys
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::accept_recursive_types(V)]
pub struct TwoKeyMap<A, B, V>(pub HashMap<(A, B), V>);
impl TwoKeyMap<String, String, Item> {
    /// through Deref
    pub fn get(&self, k: &(String, String)) -> (r: Option<&Item>)
        ensures match r { Some(v) => self.0@.contains_key((k.0@, k.1@)) && *v == self.0@[(k.0@, k.1@)], None => !self.0@.contains_key((k.0@, k.1@)) },
    { self.0.get(k) }
}
pub struct Symbology { pub items: TwoKeyMap<String, String, Item> }
pub struct Topsky { pub settings: Settings }
pub open spec fn item(s: Symbology, folder: Seq<char>, name: Seq<char>) -> Option<Item> {
    if s.items.0@.contains_key((folder, name)) { Some(s.items.0@[(folder, name)]) } else { None }
}
pub open spec fn is_line(l: LineStyle, i: Option<Item>) -> bool {
    match i { Some(i) => l.width == i.line_weight && l.style@ == i.line_style@, None => l.width == 1 && l.style@ == "SOLID"@ }
}
pub open spec fn centred() -> Alignment { Alignment { horizontal: HorizontalAlignment::Center, vertical: VerticalAlignment::Center } }
impl VxDefault for Alignment { open spec fn vx_isdef(r: Self) -> bool { r == centred() } fn vx_default() -> (r: Self) { Alignment::default() } }
pub open spec fn alignment(i: Option<Item>) -> Alignment { match i { Some(i) => i.text_alignment, None => centred() } }
/// f32 multiplication is a function of its operands (IEEE-754; assumed)
pub uninterp spec fn f_mul(x: f32, y: f32) -> f32;
#[verifier::external_body]
pub fn vx_fmul(a: f32, b: f32) -> (r: f32) ensures r == f_mul(a, b) { a * b }
pub open spec fn scale(i: Option<Item>) -> f32 { match i { Some(i) => i.font_size_symbol_scale, None => 3.0f32 } }
pub open spec fn value_in(m: HashMap<String, String>, key: Seq<char>) -> Option<Seq<char>> { if m@.contains_key(key) { Some(m@[key]@) } else { None } }
pub open spec fn lookup<T: FromStr>(s: Settings, key: Seq<char>, default: T) -> T {
    match value_in(s.0, key) { Some(v) => match T::reads(v) { Some(t) => t, None => default }, None => default }
}
pub open spec fn lines_ok(ret: LineSettings, symbology: Symbology) -> bool {
    &&& is_line(ret.runway_centreline, item(symbology, "Runways"@, "centerline"@))
    &&& is_line(ret.geo, item(symbology, "Geo"@, "line"@))
    &&& is_line(ret.sid, item(symbology, "Sids"@, "line"@))
    &&& is_line(ret.star, item(symbology, "Stars"@, "line"@))
    &&& is_line(ret.high_airways, item(symbology, "High airways"@, "line"@))
    &&& is_line(ret.low_airways, item(symbology, "Low airways"@, "line"@))
    &&& is_line(ret.artcc_low, item(symbology, "ARTCC low boundary"@, "line"@))
    &&& is_line(ret.artcc, item(symbology, "ARTCC boundary"@, "line"@))
    &&& is_line(ret.artcc_high, item(symbology, "ARTCC high boundary"@, "line"@))
}
pub open spec fn labels_ok(ret: LabelSettings, symbology: Symbology) -> bool {
    &&& ret.fix_alignment == alignment(item(symbology, "Fixes"@, "name"@))
    &&& ret.fix_font_size == f_mul(scale(item(symbology, "Fixes"@, "name"@)), 3.5f32)
    &&& ret.airport_alignment == alignment(item(symbology, "Airports"@, "name"@))
    &&& ret.airport_font_size == f_mul(scale(item(symbology, "Airports"@, "name"@)), 3.5f32)
    &&& ret.runway_alignment == alignment(item(symbology, "Runways"@, "name"@))
    &&& ret.runway_font_size == f_mul(scale(item(symbology, "Runways"@, "name"@)), 3.5f32)
    &&& ret.vor_alignment == alignment(item(symbology, "VORs"@, "name"@))
    &&& ret.vor_font_size == f_mul(scale(item(symbology, "VORs"@, "name"@)), 3.5f32)
    &&& ret.ndb_alignment == alignment(item(symbology, "NDBs"@, "name"@))
    &&& ret.ndb_font_size == f_mul(scale(item(symbology, "NDBs"@, "name"@)), 3.5f32)
}
//@ fn HorizontalAlignment as Default::default
//@ spec
ensures ret == HorizontalAlignment::Center,
//@ fn VerticalAlignment as Default::default
//@ spec
ensures ret == VerticalAlignment::Center,
//@ fn Alignment as Default::default
//@ spec
ensures ret == centred(),
//@ fn Settings::parse_with_default
//@ spec
ensures ret == lookup(*self, key@, default),
//@ fn LineSettings::from_euroscope
//@ spec
ensures
    is_line(ret.runway_centreline, item(*symbology, "Runways"@, "centerline"@)),
    is_line(ret.geo, item(*symbology, "Geo"@, "line"@)),
    is_line(ret.sid, item(*symbology, "Sids"@, "line"@)),
    is_line(ret.star, item(*symbology, "Stars"@, "line"@)),
    is_line(ret.high_airways, item(*symbology, "High airways"@, "line"@)),
    is_line(ret.low_airways, item(*symbology, "Low airways"@, "line"@)),
    is_line(ret.artcc_low, item(*symbology, "ARTCC low boundary"@, "line"@)),
    is_line(ret.artcc, item(*symbology, "ARTCC boundary"@, "line"@)),
    is_line(ret.artcc_high, item(*symbology, "ARTCC high boundary"@, "line"@)),
//@ fn LineSettings as Default::default
//@ spec
ensures
    is_line(ret.runway_centreline, None),
    is_line(ret.geo, None),
    is_line(ret.sid, None),
    is_line(ret.star, None),
    is_line(ret.high_airways, None),
    is_line(ret.low_airways, None),
    is_line(ret.artcc_low, None),
    is_line(ret.artcc, None),
    is_line(ret.artcc_high, None),
//@ fn LabelSettings::from_euroscope
//@ floats
//@ spec
ensures
    ret.fix_alignment == alignment(item(*symbology, "Fixes"@, "name"@)),
    ret.fix_font_size == f_mul(scale(item(*symbology, "Fixes"@, "name"@)), 3.5f32),
    ret.airport_alignment == alignment(item(*symbology, "Airports"@, "name"@)),
    ret.airport_font_size == f_mul(scale(item(*symbology, "Airports"@, "name"@)), 3.5f32),
    ret.runway_alignment == alignment(item(*symbology, "Runways"@, "name"@)),
    ret.runway_font_size == f_mul(scale(item(*symbology, "Runways"@, "name"@)), 3.5f32),
    ret.vor_alignment == alignment(item(*symbology, "VORs"@, "name"@)),
    ret.vor_font_size == f_mul(scale(item(*symbology, "VORs"@, "name"@)), 3.5f32),
    ret.ndb_alignment == alignment(item(*symbology, "NDBs"@, "name"@)),
    ret.ndb_font_size == f_mul(scale(item(*symbology, "NDBs"@, "name"@)), 3.5f32),
//@ fn LabelSettings as Default::default
//@ spec
ensures
    ret.fix_alignment == centred(),
    ret.airport_alignment == centred(),
    ret.runway_alignment == centred(),
    ret.vor_alignment == centred(),
    ret.ndb_alignment == centred(),
//@ fn MapsSettings as Default::default
//@ spec
ensures ret.auto_folder@ == "AUTO"@, ret.font_size == 12.0f32, ret.font is None, ret.layer == 1.0f32, ret.label_offset == (3.0f64, 3.0f64),
//@ fn MapsSettings::from_euroscope
//@ spec
ensures
    ret.font_size == (match topsky { Some(t) => lookup(t.settings, "Maps_FontSize"@, 12.0f32), None => 12.0f32 }),
    lines_ok(ret.line_styles, *symbology),
    labels_ok(ret.labels, *symbology),
    ret.auto_folder@ == "AUTO"@, ret.font is None, ret.layer == 1.0f32, ret.label_offset == (3.0f64, 3.0f64),
