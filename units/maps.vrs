//@ source src/adaptation/maps/mod.rs
//@ source src/topsky/map/mod.rs
//@ source src/adaptation/line_styles.rs
//@ source src/adaptation/colours.rs
//@ source src/lib.rs
//@ use base
//@ use map
//@ use digits
//@ use decimal
//@ item Location noclone
//@ item Colour
//@ item LineStyle noclone
//@ item MapLine noclone
//@ item src/topsky/map/mod.rs#Label noclone sub=Label:SymbolLabel
//@ item src/topsky/map/mod.rs#MapSymbol noclone sub=Label:SymbolLabel
//@ item Text noclone
//@ item FontSize noclone
//@ item MapRule noclone
//@ item MapDef noclone
//@ item OverrideSct noclone
//@ item MapGroup noclone
//@ tyrename Map TopMap
//@ item Map noclone sub=Map:TopMap
//@ item Folder noclone
//@ item MapFolders
//@ item src/adaptation/maps/mod.rs#Label noclone
//@ item Symbol noclone
//@ consts LineStyle
//@ stubbed Colours::get
//@ concat_formats
//@ rename clone .vx_dup
//@ rename unwrap_or_default .vx_or_default
//@ rename contains .vx_contains
//@ rename last_mut .vx_last_mut
//@ prelude
pub trait Default: Sized { fn default() -> (ret: Self); }
// ---- types of other crates and of other parts of this one, seen only through what is said here ----
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Point { v: f64 }
#[verifier::external_body]
pub struct Active { v: f64 }
#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Alignment { v: f64 }
pub uninterp spec fn centred() -> Alignment;
impl VxDefault for Alignment { open spec fn vx_isdef(r: Self) -> bool { r == centred() } #[verifier::external_body] fn vx_default() -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct LineString { v: f64 }
impl LineString { pub uninterp spec fn pts(&self) -> Seq<Point>; }
impl VxFrom<Point> for LineString { open spec fn vx_is(s: Seq<Point>, r: Self) -> bool { r.pts() == s } #[verifier::external_body] fn vx_from(v: Vec<Point>) -> (r: Self) { unimplemented!() } }
pub struct MultiLineString(pub Vec<LineString>);
impl MultiLineString { pub fn new(v: Vec<LineString>) -> (r: Self) ensures r.0 == v { MultiLineString(v) } }
#[verifier::external_body]
pub struct Polygon { v: f64 }
/// the ring a polygon makes of the points it is given (it closes them)
pub uninterp spec fn closed(s: Seq<Point>) -> Seq<Point>;
impl Polygon { pub uninterp spec fn ring(&self) -> Seq<Point>;
    pub uninterp spec fn holes(&self) -> Seq<Seq<Point>>;
    #[verifier::external_body] pub fn new(outer: LineString, holes: Vec<LineString>) -> (r: Self) ensures r.ring() == closed(outer.pts()), r.holes() == Seq::new(holes@.len(), |i: int| holes@[i].pts()) { unimplemented!() } }
pub trait VxLastMut<T> { fn vx_last_mut(&mut self) -> Option<&mut T>; }
impl<T> VxLastMut<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_last_mut(&mut self) -> (r: Option<&mut T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && *x == old(self)@.last() && final(self)@ == old(self)@.update(old(self)@.len() - 1, *final(x)), None => old(self)@.len() == 0 && final(self)@ == old(self)@ },
    { unimplemented!() }
}
pub trait VxExtendWith<T> { fn vx_extend(&mut self, v: Vec<T>); }
impl<T> VxExtendWith<T> for Vec<T> { #[verifier::external_body] fn vx_extend(&mut self, v: Vec<T>) ensures final(self)@ == old(self)@ + v@ { unimplemented!() } }
impl VxShow for i32 { open spec fn shown(&self) -> Seq<char> { if *self >= 0 { dec(*self as nat) } else { seq!['-'] + dec((-*self) as nat) } } }
impl<K: VKey, V> HashMap<K, V> { #[verifier::external_body] pub fn from<const N: usize>(a: [(K, V); N]) -> (r: Self) ensures r@ == map_of(a@), N == 1 ==> r@ == Map::<K::KV, V>::empty().insert(a@[0].0.vkey(), a@[0].1) { unimplemented!() } }
// texts are compared by their characters; a text is determined by its characters
pub axiom fn axiom_string_eq() ensures <String as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(), forall|a: String, b: String| #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
pub uninterp spec fn string_of(c: Seq<char>) -> String;
pub axiom fn axiom_string_of() ensures forall|s: String| #[trigger] string_of(s@) == s;
/// f32 arithmetic
pub uninterp spec fn fadd(a: f32, b: f32) -> f32;
pub uninterp spec fn fsub(a: f32, b: f32) -> f32;
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub trait F32: Sized { spec fn f(self) -> f32; }
impl F32 for f32 { open spec fn f(self) -> f32 { self } }
impl F32 for &f32 { open spec fn f(self) -> f32 { *self } }
#[verifier::external_body] pub fn vx_fadd<A: F32, B: F32>(a: A, b: B) -> (r: f32) ensures r == fadd(a.f(), b.f()) { unimplemented!() }
#[verifier::external_body] pub fn vx_fsub<A: F32, B: F32>(a: A, b: B) -> (r: f32) ensures r == fsub(a.f(), b.f()) { unimplemented!() }
#[verifier::external_body] pub fn vx_fmul<A: F32, B: F32>(a: A, b: B) -> (r: f32) ensures r == fmul(a.f(), b.f()) { unimplemented!() }
pub open spec fn plain_line() -> LineStyle { LineStyle { width: 1, style: string_of("SOLID"@) } }
// ---- what the other parts of the crate answer ----
pub struct MapsSettings { pub font_size: f32, pub layer: f32, pub auto_folder: String, pub label_offset: (f64, f64) }
pub struct Settings { pub maps: MapsSettings }
pub struct Topsky { pub maps: Vec<MapDef>, pub overrides: Vec<OverrideSct> }
#[verifier::external_body]
pub struct Locations { v: f64 }
#[verifier::external_body]
pub struct Colours { v: f64 }
/// where a place is, if it is known (units `locations` and `waypoint` prove this lookup)
pub uninterp spec fn place(l: Locations, loc: Location) -> Option<Point>;
impl Locations { #[verifier::external_body] pub fn convert_location(&self, loc: &Location) -> (r: Option<Point>) ensures r == place(*self, *loc) { unimplemented!() } }
/// the colour of a name, if it is defined (C13)
pub uninterp spec fn colour_of(k: Colours, name: Seq<char>, s: Settings) -> Option<Colour>;
impl Colours { #[verifier::external_body] pub fn get(&self, name: &str, settings: &Settings) -> (r: Option<Colour>) ensures r == colour_of(*self, name@, *settings) { unimplemented!() } }
/// `Vec::contains` with the derived equality
pub trait VxContains { fn vx_contains(&self, o: &OverrideSct) -> bool; }
pub open spec fn same_override(a: OverrideSct, b: OverrideSct) -> bool { a.folder@ == b.folder@ && match (a.name, b.name) { (Some(x), Some(y)) => x@ == y@, (None, None) => true, _ => false } }
impl VxContains for Vec<OverrideSct> { #[verifier::external_body] fn vx_contains(&self, o: &OverrideSct) -> (r: bool) ensures r == (exists|i: int| 0 <= i < self@.len() && same_override(#[trigger] self@[i], *o)) { unimplemented!() } }

// ---- what a map is to look like ----
/// what the rules of a map are read with: settings, places, colours, and the colour the map starts in
pub struct Ctx { pub s: Settings, pub l: Locations, pub k: Colours, pub colour: Colour }
pub struct Style { pub colour: Colour, pub font: f32, pub layer: f32, pub asr: Option<Vec<String>>, pub zoom: Option<f32>, pub line: LineStyle }
#[verifier::ext_equal]
pub enum Item { Line(Seq<Point>), Text(Label), Mark(Symbol), Area(Seq<Point>, Seq<Seq<Point>>) }
pub enum Kind { Line, Text, Mark, Area }
#[verifier::ext_equal]
pub struct GroupV { pub style: Style, pub lines: Seq<Item>, pub texts: Seq<Item>, pub marks: Seq<Item>, pub areas: Seq<Item> }
pub open spec fn of(g: GroupV, k: Kind) -> Seq<Item> { match k { Kind::Line => g.lines, Kind::Text => g.texts, Kind::Mark => g.marks, Kind::Area => g.areas } }
pub open spec fn empty_group(st: Style) -> GroupV { GroupV { style: st, lines: seq![], texts: seq![], marks: seq![], areas: seq![] } }
pub open spec fn blank(g: GroupV) -> bool { g.lines.len() == 0 && g.texts.len() == 0 && g.marks.len() == 0 && g.areas.len() == 0 }
/// the settings a map starts with
pub open spec fn style0(c: Ctx) -> Style { Style { colour: c.colour, font: c.s.maps.font_size, layer: c.s.maps.layer, asr: None, zoom: None, line: plain_line() } }
pub open spec fn sized(f: FontSize, now: f32, usual: f32) -> f32 { match f { FontSize::Exact(x) => x, FontSize::Add(x) => fadd(now, x), FontSize::Subtract(x) => fsub(now, x), FontSize::Multiply(x) => fmul(now, x), FontSize::Default => usual } }
/// does this rule change the settings?
pub open spec fn sets(c: Ctx, r: MapRule) -> bool { match r { MapRule::Colour(n) => colour_of(c.k, n@, c.s) is Some, MapRule::AsrData(_) | MapRule::Layer(_) | MapRule::Zoom(_) | MapRule::FontSize(_) | MapRule::LineStyle(_) => true, _ => false } }
/// the settings after this rule
pub open spec fn after(c: Ctx, st: Style, r: MapRule) -> Style {
    match r {
        MapRule::Colour(n) => match colour_of(c.k, n@, c.s) { Some(k) => Style { colour: k, ..st }, None => st },
        MapRule::AsrData(a) => Style { asr: a, ..st },
        MapRule::Layer(x) => Style { layer: x, ..st },
        MapRule::Zoom(x) => Style { zoom: Some(x), ..st },
        MapRule::FontSize(f) => Style { font: sized(f, st.font, c.s.maps.font_size), ..st },
        MapRule::LineStyle(l) => Style { line: l, ..st },
        _ => st,
    }
}
/// the settings in force after the first n rules
pub open spec fn style_at(c: Ctx, rules: Seq<MapRule>, n: int) -> Style decreases n { if n <= 0 { style0(c) } else { after(c, style_at(c, rules, n - 1), rules[n - 1]) } }
/// the coordinates collected since the last shape was drawn from them
pub open spec fn buffer(rules: Seq<MapRule>, n: int) -> Seq<Location> decreases n {
    if n <= 0 { seq![] } else { match rules[n - 1] { MapRule::Coord(l) => buffer(rules, n - 1).push(l), MapRule::CoordLine | MapRule::CoordPoly(_) => seq![], _ => buffer(rules, n - 1) } }
}
/// the points of the first n of a list of places, leaving out the unknown ones
pub open spec fn known(l: Locations, s: Seq<Location>, n: int) -> Seq<Point> decreases n {
    if n <= 0 { seq![] } else { match place(l, s[n - 1]) { Some(p) => known(l, s, n - 1).push(p), None => known(l, s, n - 1) } }
}
pub open spec fn points(l: Locations, s: Seq<Location>) -> Seq<Point> { known(l, s, s.len() as int) }
pub open spec fn mark_of(s: Settings, m: MapSymbol, p: Point) -> Symbol {
    Symbol { name: m.name, coordinate: p, label: match m.label { Some(l) => Some(l.text), None => None }, label_alignment: match m.label_alignment { Some(a) => a, None => centred() }, label_offset: match m.label { Some(l) => l.pos, None => s.maps.label_offset } }
}
pub open spec fn text_of(t: Text, p: Point) -> Label { Label { coordinate: p, alignment: match t.alignment { Some(a) => a, None => centred() }, text: t.content } }
pub open spec fn drawn_text(l: Locations, t: Text) -> Seq<Item> { match place(l, t.location) { Some(p) => seq![Item::Text(text_of(t, p))], None => seq![] } }
pub open spec fn line_items(l: Locations, v: Seq<MapLine>) -> Seq<Item> { Seq::new(v.len(), |i: int| Item::Line(points(l, v[i].points@))) }
/// the elements of kind k this rule draws, given the coordinates collected before it
pub open spec fn draws(s: Settings, l: Locations, buf: Seq<Location>, r: MapRule, k: Kind) -> Seq<Item> {
    match (k, r) {
        (Kind::Line, MapRule::Line(v)) => line_items(l, v@),
        (Kind::Line, MapRule::CoordLine) => seq![Item::Line(points(l, buf))],
        (Kind::Area, MapRule::CoordPoly(_)) => seq![Item::Area(closed(points(l, buf)), seq![])],
        (Kind::Mark, MapRule::Symbol(m)) => match place(l, m.location) { Some(p) => seq![Item::Mark(mark_of(s, m, p))], None => seq![] },
        (Kind::Text, MapRule::Text(t)) => drawn_text(l, t),
        _ => seq![],
    }
}
pub open spec fn with(s: Settings, l: Locations, g: GroupV, buf: Seq<Location>, r: MapRule) -> GroupV {
    GroupV { style: g.style, lines: g.lines + draws(s, l, buf, r, Kind::Line), texts: g.texts + draws(s, l, buf, r, Kind::Text), marks: g.marks + draws(s, l, buf, r, Kind::Mark), areas: g.areas + draws(s, l, buf, r, Kind::Area) }
}
/// a group with nothing drawn in it yet takes the new settings, otherwise a new group starts
pub open spec fn restyle(d: Seq<GroupV>, st: Style) -> Seq<GroupV> { if blank(d.last()) { d.update(d.len() - 1, GroupV { style: st, ..d.last() }) } else { d.push(empty_group(st)) } }
pub open spec fn step(c: Ctx, d: Seq<GroupV>, buf: Seq<Location>, r: MapRule) -> Seq<GroupV> {
    if sets(c, r) { restyle(d, after(c, d.last().style, r)) } else { d.update(d.len() - 1, with(c.s, c.l, d.last(), buf, r)) }
}
/// the groups after the first n rules
pub open spec fn drawn(c: Ctx, rules: Seq<MapRule>, n: int) -> Seq<GroupV> decreases n {
    if n <= 0 { seq![empty_group(style0(c))] } else { step(c, drawn(c, rules, n - 1), buffer(rules, n - 1), rules[n - 1]) }
}
/// elements as drawn: group by group, each with the settings of its group
pub open spec fn tagged(st: Style, s: Seq<Item>) -> Seq<(Style, Item)> { Seq::new(s.len(), |i: int| (st, s[i])) }
pub open spec fn shown(d: Seq<GroupV>, k: Kind) -> Seq<(Style, Item)> decreases d.len() { if d.len() == 0 { seq![] } else { shown(d.drop_last(), k) + tagged(d.last().style, of(d.last(), k)) } }
/// elements as the rules list them: in order, each with the settings in force where it stands
pub open spec fn listed(c: Ctx, rules: Seq<MapRule>, n: int, k: Kind) -> Seq<(Style, Item)> decreases n {
    if n <= 0 { seq![] } else { listed(c, rules, n - 1, k) + tagged(style_at(c, rules, n - 1), draws(c.s, c.l, buffer(rules, n - 1), rules[n - 1], k)) }
}
pub open spec fn actives(rules: Seq<MapRule>, n: int) -> Seq<Seq<Active>> decreases n {
    if n <= 0 { seq![] } else {
        let d = actives(rules, n - 1);
        match rules[n - 1] { MapRule::Active(a) => d.push(seq![a]), MapRule::AndActive(a) => if d.len() > 0 { d.update(d.len() - 1, d.last().push(a)) } else { d }, _ => d }
    }
}
pub open spec fn folder_at(c: Ctx, rules: Seq<MapRule>, n: int) -> Seq<char> decreases n { if n <= 0 { c.s.maps.auto_folder@ } else { match rules[n - 1] { MapRule::Folder(f) => f@, _ => folder_at(c, rules, n - 1) } } }
pub open spec fn hidden_at(rules: Seq<MapRule>, n: int) -> bool { exists|i: int| 0 <= i < n && #[trigger] rules[i] is Hidden }
/// the first colour of the map that is defined
pub open spec fn colour_rule(k: Colours, s: Settings, r: MapRule) -> Option<Colour> { match r { MapRule::Colour(n) => colour_of(k, n@, s), _ => None } }
pub open spec fn first_colour(k: Colours, s: Settings, rules: Seq<MapRule>, n: int) -> Option<Colour> decreases n { if n <= 0 { None } else { match first_colour(k, s, rules, n - 1) { Some(x) => Some(x), None => colour_rule(k, s, rules[n - 1]) } } }
// ---- the values of the result ----
pub open spec fn style_of(g: MapGroup) -> Style { Style { colour: g.colour, font: g.font_size, layer: g.layer, asr: g.asr_data, zoom: g.zoom, line: g.line_style } }
pub open spec fn lines_of(v: Seq<LineString>) -> Seq<Item> { Seq::new(v.len(), |i: int| Item::Line(v[i].pts())) }
pub open spec fn texts_of(v: Seq<Label>) -> Seq<Item> { Seq::new(v.len(), |i: int| Item::Text(v[i])) }
pub open spec fn marks_of(v: Seq<Symbol>) -> Seq<Item> { Seq::new(v.len(), |i: int| Item::Mark(v[i])) }
pub open spec fn areas_of(v: Seq<Polygon>) -> Seq<Item> { Seq::new(v.len(), |i: int| Item::Area(v[i].ring(), v[i].holes())) }
pub open spec fn gv(g: MapGroup) -> GroupV { GroupV { style: style_of(g), lines: lines_of(g.lines.0@), texts: texts_of(g.labels@), marks: marks_of(g.symbols@), areas: areas_of(g.polygons@) } }
pub open spec fn gvs(v: Seq<MapGroup>) -> Seq<GroupV> { Seq::new(v.len(), |i: int| gv(v[i])) }
pub open spec fn avs(v: Seq<Vec<Active>>) -> Seq<Seq<Active>> { Seq::new(v.len(), |i: int| v[i]@) }
#[verifier::ext_equal]
pub struct MapV { pub name: Seq<char>, pub folder: Seq<char>, pub groups: Seq<GroupV>, pub hidden: bool, pub active: Seq<Seq<Active>> }
pub open spec fn mv(m: TopMap) -> MapV { MapV { name: m.name@, folder: m.folder@, groups: gvs(m.map_groups@), hidden: m.hidden, active: avs(m.active@) } }
/// the map of one definition
pub open spec fn map_of_def(c: Ctx, d: MapDef) -> MapV { map_part(c, d, d.rules@.len() as int) }
pub open spec fn map_part(c: Ctx, d: MapDef, n: int) -> MapV { MapV { name: d.name@, folder: folder_at(c, d.rules@, n), groups: drawn(c, d.rules@, n), hidden: hidden_at(d.rules@, n), active: actives(d.rules@, n) } }
// ---- how maps are sorted into folders ----
pub open spec fn sfx(own: Seq<char>, k: int) -> Seq<char> { own + seq!['_'] + dec(k as nat) }
/// k is the smallest number from 2 on whose suffixed name is not taken
pub open spec fn first_free(taken: Set<Seq<char>>, own: Seq<char>, k: int) -> bool { k >= 2 && !taken.contains(sfx(own, k)) && forall|j: int| 2 <= j < k ==> taken.contains(#[trigger] sfx(own, j)) }
pub open spec fn free_name(taken: Set<Seq<char>>, own: Seq<char>) -> Seq<char> { if taken.contains(own) { sfx(own, choose|k: int| first_free(taken, own, k)) } else { own } }
#[verifier::ext_equal]
pub struct FolderV { pub name: Seq<char>, pub hidden: bool, pub maps: Map<Seq<char>, MapV> }
pub open spec fn mvs(m: Map<Seq<char>, TopMap>) -> Map<Seq<char>, MapV> { Map::new(m.dom(), |k: Seq<char>| mv(m[k])) }
pub open spec fn fv(f: Folder) -> FolderV { FolderV { name: f.name@, hidden: f.hidden, maps: mvs(f.maps@) } }
pub open spec fn fvs(m: Map<Seq<char>, Folder>) -> Map<Seq<char>, FolderV> { Map::new(m.dom(), |k: Seq<char>| fv(m[k])) }
/// is the whole folder hidden?
pub open spec fn folder_hidden(s: Settings, o: Seq<OverrideSct>, f: Seq<char>) -> bool { f == s.maps.auto_folder@ || exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).folder@ == f && o[i].name is None }
pub struct World { pub s: Settings, pub k: Colours, pub l: Locations, pub o: Seq<OverrideSct> }
pub open spec fn start_colour(w: World, d: MapDef) -> Option<Colour> { first_colour(w.k, w.s, d.rules@, d.rules@.len() as int) }
pub open spec fn ctx(w: World, colour: Colour) -> Ctx { Ctx { s: w.s, l: w.l, k: w.k, colour } }
pub open spec fn def_map(w: World, d: MapDef) -> MapV { map_of_def(ctx(w, start_colour(w, d)->0), d) }
/// the name a map gets in folders p
pub open spec fn name_in(p: Map<Seq<char>, FolderV>, v: MapV) -> Seq<char> { if p.contains_key(v.folder) { free_name(p[v.folder].maps.dom(), v.name) } else { v.name } }
pub open spec fn file(w: World, p: Map<Seq<char>, FolderV>, v: MapV) -> Map<Seq<char>, FolderV> {
    let v1 = MapV { name: name_in(p, v), ..v };
    if p.contains_key(v.folder) { p.insert(v.folder, FolderV { maps: p[v.folder].maps.insert(v1.name, v1), ..p[v.folder] }) }
    else { p.insert(v.folder, FolderV { name: v.folder, hidden: folder_hidden(w.s, w.o, v.folder), maps: Map::empty().insert(v1.name, v1) }) }
}
/// the folders after the first n definitions
pub open spec fn sorted(w: World, d: Seq<MapDef>, n: int) -> Map<Seq<char>, FolderV> decreases n {
    if n <= 0 { Map::empty() } else if start_colour(w, d[n - 1]) is Some { file(w, sorted(w, d, n - 1), def_map(w, d[n - 1])) } else { sorted(w, d, n - 1) }
}
pub open spec fn name_at(w: World, d: Seq<MapDef>, i: int) -> Seq<char> { name_in(sorted(w, d, i), def_map(w, d[i])) }
pub open spec fn here(p: Map<Seq<char>, FolderV>, f: Seq<char>, name: Seq<char>) -> bool { p.contains_key(f) && p[f].maps.contains_key(name) }
/// no map is lost, overwritten or made up; names that are taken get the smallest free suffix
pub open spec fn each_once(w: World, d: Seq<MapDef>, n: int) -> bool {
    let p = sorted(w, d, n);
    &&& forall|i: int| 0 <= i < n && start_colour(w, #[trigger] d[i]) is Some ==> here(p, def_map(w, d[i]).folder, name_at(w, d, i)) && p[def_map(w, d[i]).folder].maps[name_at(w, d, i)] == (MapV { name: name_at(w, d, i), ..def_map(w, d[i]) })
    &&& forall|i: int, j: int| 0 <= i < j < n && start_colour(w, #[trigger] d[i]) is Some && start_colour(w, #[trigger] d[j]) is Some && def_map(w, d[i]).folder == def_map(w, d[j]).folder ==> name_at(w, d, i) != name_at(w, d, j)
    &&& forall|f: Seq<char>, m: Seq<char>| #[trigger] here(p, f, m) ==> exists|i: int| 0 <= i < n && start_colour(w, #[trigger] d[i]) is Some && def_map(w, d[i]).folder == f && name_at(w, d, i) == m
    &&& forall|f: Seq<char>| #[trigger] p.contains_key(f) ==> p[f].name == f && p[f].hidden == folder_hidden(w.s, w.o, f) && p[f].maps.dom().len() <= n && exists|m: Seq<char>| #[trigger] here(p, f, m)
    &&& forall|i: int| 0 <= i < n && start_colour(w, #[trigger] d[i]) is Some ==> named(sorted(w, d, i), def_map(w, d[i]), name_at(w, d, i))
}
pub open spec fn named(p: Map<Seq<char>, FolderV>, v: MapV, name: Seq<char>) -> bool {
    if here(p, v.folder, v.name) { exists|k: int| name == #[trigger] sfx(v.name, k) && first_free(p[v.folder].maps.dom(), v.name, k) } else { name == v.name }
}
/// every element of every map is drawn in order with the settings in force where it stands
pub open spec fn as_listed(w: World, d: Seq<MapDef>) -> bool {
    forall|i: int, k: Kind| 0 <= i < d.len() && start_colour(w, #[trigger] d[i]) is Some ==> #[trigger] shown(def_map(w, d[i]).groups, k) == listed(ctx(w, start_colour(w, d[i])->0), d[i].rules@, d[i].rules@.len() as int, k)
}
//@ fn LineStyle as Default::default
//@ spec
ensures ret == plain_line(),
//@ at start
proof { axiom_string_of(); }
//@ fn MapGroup::default_from_settings
//@ spec
ensures gv(ret) == empty_group(Style { colour, font: settings.maps.font_size, layer: settings.maps.layer, asr: None, zoom: None, line: plain_line() }),
//@ at tail
proof { assert(gv(vx_ret) =~~= empty_group(Style { colour, font: settings.maps.font_size, layer: settings.maps.layer, asr: None, zoom: None, line: plain_line() })); }
//@ fn MapGroup::add_topsky_symbol
//@ spec
ensures gv(*final(self)) == with(*settings, *locations, gv(*old(self)), seq![], MapRule::Symbol(*symbol)),
//@ at end
proof { assert(gv(*self) =~~= with(*settings, *locations, gv(*old(self)), seq![], MapRule::Symbol(*symbol))); }
//@ fn MapGroup::add_topsky_lines  loops=2
//@ type acc0 Vec<LineString>
//@ spec
ensures gv(*final(self)) == (GroupV { lines: gv(*old(self)).lines + line_items(*locations, lines@), ..gv(*old(self)) }),
//@ loop 0
    g0 == seq_refs(lines@), acc0@.len() == it0.pos(), forall|i: int| 0 <= i < it0.pos() ==> (#[trigger] acc0@[i]).pts() == points(*locations, lines@[i].points@),
//@ loop 1
    g1 == seq_refs(line.points@), acc1@ == known(*locations, line.points@, it1.pos()),
//@ at end
proof { assert(gv(*self) =~~= (GroupV { lines: gv(*old(self)).lines + line_items(*locations, lines@), ..gv(*old(self)) })); }
//@ fn MapGroup::add_topsky_polygon  loops=1
//@ spec
ensures gv(*final(self)) == (GroupV { areas: gv(*old(self)).areas.push(Item::Area(closed(points(*locations, coords@)), seq![])), ..gv(*old(self)) }),
//@ loop 0
    g0 == seq_refs(coords@), acc0@ == known(*locations, coords@, it0.pos()),
//@ at end
proof { assert(gv(*self) =~~= (GroupV { areas: gv(*old(self)).areas.push(Item::Area(closed(points(*locations, coords@)), seq![])), ..gv(*old(self)) })); }
//@ fn MapGroup::add_topsky_text
//@ spec
ensures gv(*final(self)) == (GroupV { texts: gv(*old(self)).texts + drawn_text(*locations, *text), ..gv(*old(self)) }),
//@ at end
proof { assert(gv(*self) =~~= GroupV { texts: gv(*old(self)).texts + drawn_text(*locations, *text), ..gv(*old(self)) }); }
//@ fn from_topsky  loops=4
//@ floats
//@ type acc0 MapFolders
//@ spec
requires topsky.maps@.len() < 0x7fff_fff0,
ensures
    fvs(ret@) == sorted(World { s: *settings, k: *colours, l: *locations, o: topsky.overrides@ }, topsky.maps@, topsky.maps@.len() as int),
    each_once(World { s: *settings, k: *colours, l: *locations, o: topsky.overrides@ }, topsky.maps@, topsky.maps@.len() as int),
    as_listed(World { s: *settings, k: *colours, l: *locations, o: topsky.overrides@ }, topsky.maps@),
//@ at start
let ghost w = World { s: *settings, k: *colours, l: *locations, o: topsky.overrides@ };
proof { axiom_string_eq(); }
//@ loop 0
    w == (World { s: *settings, k: *colours, l: *locations, o: topsky.overrides@ }),
    g0 == seq_refs(topsky.maps@), topsky.maps@.len() < 0x7fff_fff0,
    fvs(acc0@) == sorted(w, topsky.maps@, it0.pos()),
    each_once(w, topsky.maps@, it0.pos()),
//@ loop 1
    g1 == seq_refs(topsky_map.rules@),
    w == (World { s: *settings, k: *colours, l: *locations, o: topsky.overrides@ }),
    r1 == first_colour(w.k, w.s, topsky_map.rules@, it1.pos()),
//@ loop 2
    g2 == seq_refs(topsky_map.rules@),
    w == (World { s: *settings, k: *colours, l: *locations, o: topsky.overrides@ }),
    mv(acc2.0) == map_part(ctx(w, colour), *topsky_map, it2.pos()),
    acc2.0.map_groups@.len() > 0,
    acc2.1@ == buffer(topsky_map.rules@, it2.pos()),
//@ at loop2.start
let ghost before = acc2;
//@ at loop2.end
proof {
    let n = it2.pos(); let c = ctx(w, colour); let rules = topsky_map.rules@;
    let d0 = gvs(before.0.map_groups@); let d1 = gvs(acc2.0.map_groups@); let r = rules[n - 1];
    assert(d0 == drawn(c, rules, n - 1));
    assert(d0.last() == gv(before.0.map_groups@.last()));
    assert(d1.last() == gv(acc2.0.map_groups@.last()));
    if sets(c, r) { assert(d1.last() =~~= restyle(d0, after(c, d0.last().style, r)).last()); assert(d1 =~= restyle(d0, after(c, d0.last().style, r))); }
    else { assert(d1.last() =~~= with(c.s, c.l, d0.last(), before.1@, r)); assert(d1 =~= d0.update(d0.len() - 1, with(c.s, c.l, d0.last(), before.1@, r))); }
    assert(avs(acc2.0.active@) =~= actives(rules, n));
    assert(acc2.0.hidden == hidden_at(rules, n));
}
//@ loop 3
    2 <= i, i - 2 <= folder.maps@.dom().len() < 0x7fff_fff0,
    forall|j: int| 2 <= j < i ==> folder.maps@.dom().contains(#[trigger] sfx(map.name@, j)),
decreases folder.maps@.dom().len() + 2 - i,
//@ at loop3.start
proof { reveal_strlit("_"); assert(Seq::<char>::empty() + map.name@ + "_"@ + i.shown() =~= sfx(map.name@, i as int)); pigeons(folder.maps@.dom(), map.name@, i as int); assert(folder.maps@.dom().contains(sfx(map.name@, i as int))); let ghost k = i + 1;
    assert forall|j: int| 2 <= j < i + 1 implies folder.maps@.dom().contains(#[trigger] sfx(map.name@, j)) by { if j == i { } }
    pigeons(folder.maps@.dom(), map.name@, i + 1); }
//@ at loop3.after
proof { reveal_strlit("_"); assert(Seq::<char>::empty() + map.name@ + "_"@ + i.shown() =~= sfx(map.name@, i as int)); assert(first_free(folder.maps@.dom(), map.name@, i as int)); one_first_free(folder.maps@.dom(), map.name@, i as int); }
//@ at loop1.after
proof { first_stays(w.k, w.s, topsky_map.rules@, it1.pos(), topsky_map.rules@.len() as int); }
//@ at loop0.start
let ghost before = acc0@;
//@ at loop0.end
proof {
    let n = it0.pos(); let d = topsky.maps@[n - 1];
    if start_colour(w, d) is Some {
        let p = fvs(before); let v = def_map(w, d); let nm = name_in(p, v); let v1 = MapV { name: nm, ..v };
        let f1 = acc0@[v.folder];
        assert(acc0@.contains_key(v.folder));
        assert(acc0@ == before.insert(v.folder, f1));
        if p.contains_key(v.folder) {
            let f0 = before[v.folder];
            assert(p[v.folder].maps.dom() =~= f0.maps@.dom());
            assert(f1.name == f0.name && f1.hidden == f0.hidden);
            assert(f1.maps@.contains_key(nm));
            assert(mv(f1.maps@[nm]) == v1);
            assert(f1.maps@ == f0.maps@.insert(nm, f1.maps@[nm]));
            assert(mvs(f1.maps@) =~= mvs(f0.maps@).insert(nm, v1));
            assert(fv(f1) == FolderV { maps: p[v.folder].maps.insert(nm, v1), ..p[v.folder] });
        } else {
            assert(f1.name@ == v.folder);
            assert(f1.hidden == folder_hidden(w.s, w.o, v.folder));
            assert(mvs(f1.maps@) =~= Map::<Seq<char>, MapV>::empty().insert(nm, v1));
        }
        assert(fvs(acc0@) =~= file(w, p, v));
    }
    sorted_step(w, topsky.maps@, n);
}
//@ at tail
proof {
    let d = topsky.maps@;
    assert forall|i: int, k: Kind| 0 <= i < d.len() && start_colour(w, #[trigger] d[i]) is Some implies #[trigger] shown(def_map(w, d[i]).groups, k) == listed(ctx(w, start_colour(w, d[i])->0), d[i].rules@, d[i].rules@.len() as int, k) by {
        drawn_as_listed(ctx(w, start_colour(w, d[i])->0), d[i].rules@, d[i].rules@.len() as int, k);
    }
}
//@ lemmas
pub open spec fn suffixed(own: Seq<char>, i: int) -> Set<Seq<char>> decreases i { if i <= 2 { Set::empty() } else { suffixed(own, i - 1).insert(sfx(own, i - 1)) } }
pub proof fn sfx_differ(own: Seq<char>, i: int, j: int) requires 0 <= i, 0 <= j, i != j ensures sfx(own, i) != sfx(own, j)
{
    lemma_dec(i as nat); lemma_dec(j as nat);
    let n = own.len() as int + 1;
    assert(sfx(own, i).skip(n) =~= dec(i as nat)); assert(sfx(own, j).skip(n) =~= dec(j as nat));
}
pub proof fn suffixed_len(own: Seq<char>, i: int)
    ensures suffixed(own, i).len() == (if i <= 2 { 0 } else { i - 2 }), forall|x: Seq<char>| #[trigger] suffixed(own, i).contains(x) ==> exists|j: int| 2 <= j < i && x == #[trigger] sfx(own, j),
    decreases i
{
    if i > 2 {
        suffixed_len(own, i - 1);
        if suffixed(own, i - 1).contains(sfx(own, i - 1)) { let j = choose|j: int| 2 <= j < i - 1 && sfx(own, i - 1) == #[trigger] sfx(own, j); sfx_differ(own, i - 1, j); }
        assert forall|x: Seq<char>| #[trigger] suffixed(own, i).contains(x) implies exists|j: int| 2 <= j < i && x == #[trigger] sfx(own, j) by { if x == sfx(own, i - 1) { } else { assert(suffixed(own, i - 1).contains(x)); } }
    }
}
/// as many names are taken as were tried
pub proof fn pigeons(taken: Set<Seq<char>>, own: Seq<char>, i: int)
    requires i >= 2, forall|j: int| 2 <= j < i ==> taken.contains(#[trigger] sfx(own, j)),
    ensures i - 2 <= taken.len(),
{
    suffixed_len(own, i);
    assert(suffixed(own, i).subset_of(taken));
    vstd::set_lib::lemma_len_subset(suffixed(own, i), taken);
}
pub proof fn drawn_as_listed(c: Ctx, rules: Seq<MapRule>, n: int, k: Kind)
    requires 0 <= n <= rules.len(),
    ensures drawn(c, rules, n).len() > 0, drawn(c, rules, n).last().style == style_at(c, rules, n), shown(drawn(c, rules, n), k) == listed(c, rules, n, k),
    decreases n
{
    if n == 0 {
        let d = drawn(c, rules, 0);
        assert(d.drop_last() =~= seq![]);
        assert(shown(d.drop_last(), k) =~= seq![]);
        assert(shown(d, k) =~= seq![]);
    } else {
        drawn_as_listed(c, rules, n - 1, k);
        let d = drawn(c, rules, n - 1);
        let e = drawn(c, rules, n);
        let r = rules[n - 1];
        let buf = buffer(rules, n - 1);
        if sets(c, r) {
            if blank(d.last()) { assert(e.drop_last() =~= d.drop_last()); assert(shown(e, k) =~= shown(d, k)); }
            else { assert(e.drop_last() =~= d); assert(shown(e, k) =~= shown(d, k)); }
            assert(draws(c.s, c.l, buf, r, k) =~= seq![]);
        } else {
            assert(e.drop_last() =~= d.drop_last());
            assert(of(e.last(), k) =~= of(d.last(), k) + draws(c.s, c.l, buf, r, k));
            assert(tagged(d.last().style, of(e.last(), k)) =~= tagged(d.last().style, of(d.last(), k)) + tagged(d.last().style, draws(c.s, c.l, buf, r, k)));
        }
        assert(shown(e, k) =~= listed(c, rules, n, k));
    }
}
pub proof fn first_stays(k: Colours, s: Settings, rules: Seq<MapRule>, n: int, m: int)
    requires n <= m, first_colour(k, s, rules, n) is Some || n == m,
    ensures first_colour(k, s, rules, m) == first_colour(k, s, rules, n),
    decreases m - n
{ if n < m { first_stays(k, s, rules, n, m - 1); } }
pub proof fn one_first_free(taken: Set<Seq<char>>, own: Seq<char>, k: int)
    requires first_free(taken, own, k),
    ensures (choose|k: int| first_free(taken, own, k)) == k,
{
    let c = choose|k: int| first_free(taken, own, k);
    assert(first_free(taken, own, c));
    if c < k { assert(taken.contains(sfx(own, c))); } else if k < c { assert(taken.contains(sfx(own, k))); }
}
/// a free suffix exists
pub proof fn some_free(taken: Set<Seq<char>>, own: Seq<char>, k: int)
    requires k >= 2, forall|j: int| 2 <= j < k ==> taken.contains(#[trigger] sfx(own, j)),
    ensures exists|k: int| first_free(taken, own, k),
    decreases taken.len() + 2 - k
{
    pigeons(taken, own, k);
    if taken.contains(sfx(own, k)) {
        assert forall|j: int| 2 <= j < k + 1 implies taken.contains(#[trigger] sfx(own, j)) by { if j == k { } }
        pigeons(taken, own, k + 1);
        some_free(taken, own, k + 1);
    } else { assert(first_free(taken, own, k)); }
}
pub proof fn sorted_step(w: World, d: Seq<MapDef>, n: int)
    requires 0 < n <= d.len(), each_once(w, d, n - 1),
    ensures each_once(w, d, n),
{
    let p = sorted(w, d, n - 1);
    let q = sorted(w, d, n);
    if start_colour(w, d[n - 1]) is Some {
        let v = def_map(w, d[n - 1]);
        let name = name_at(w, d, n - 1);
        if here(p, v.folder, v.name) {
            some_free(p[v.folder].maps.dom(), v.name, 2);
            let k = choose|k: int| first_free(p[v.folder].maps.dom(), v.name, k);
            assert(name == sfx(v.name, k));
        }
        assert(!here(p, v.folder, name));
        assert(named(p, v, name));
        assert(here(q, v.folder, name));
        assert forall|f: Seq<char>, m: Seq<char>| #[trigger] here(q, f, m) implies here(p, f, m) || (f == v.folder && m == name) by { }
        assert forall|f: Seq<char>, m: Seq<char>| #[trigger] here(p, f, m) implies here(q, f, m) && q[f].maps[m] == p[f].maps[m] by { }
        assert forall|i: int| 0 <= i < n && start_colour(w, #[trigger] d[i]) is Some implies here(q, def_map(w, d[i]).folder, name_at(w, d, i)) && q[def_map(w, d[i]).folder].maps[name_at(w, d, i)] == (MapV { name: name_at(w, d, i), ..def_map(w, d[i]) }) by {
            if i < n - 1 { assert(here(p, def_map(w, d[i]).folder, name_at(w, d, i))); }
        }
        assert forall|i: int, j: int| 0 <= i < j < n && start_colour(w, #[trigger] d[i]) is Some && start_colour(w, #[trigger] d[j]) is Some && def_map(w, d[i]).folder == def_map(w, d[j]).folder implies name_at(w, d, i) != name_at(w, d, j) by {
            if j == n - 1 { assert(here(p, def_map(w, d[i]).folder, name_at(w, d, i))); }
        }
        assert forall|f: Seq<char>, m: Seq<char>| #[trigger] here(q, f, m) implies exists|i: int| 0 <= i < n && start_colour(w, #[trigger] d[i]) is Some && def_map(w, d[i]).folder == f && name_at(w, d, i) == m by {
            if here(p, f, m) { let i = choose|i: int| 0 <= i < n - 1 && start_colour(w, #[trigger] d[i]) is Some && def_map(w, d[i]).folder == f && name_at(w, d, i) == m; assert(start_colour(w, d[i]) is Some); } else { assert(start_colour(w, d[n - 1]) is Some); }
        }
        assert forall|f: Seq<char>| #[trigger] q.contains_key(f) implies q[f].name == f && q[f].hidden == folder_hidden(w.s, w.o, f) && q[f].maps.dom().len() <= n && exists|m: Seq<char>| #[trigger] here(q, f, m) by {
            if f == v.folder { assert(here(q, f, name)); if p.contains_key(f) { } else { } } else { assert(p.contains_key(f)); let m = choose|m: Seq<char>| #[trigger] here(p, f, m); assert(here(q, f, m)); }
        }
        assert forall|i: int| 0 <= i < n && start_colour(w, #[trigger] d[i]) is Some implies named(sorted(w, d, i), def_map(w, d[i]), name_at(w, d, i)) by { }
    } else {
        assert(q == p);
        assert forall|f: Seq<char>, m: Seq<char>| #[trigger] here(q, f, m) implies exists|i: int| 0 <= i < n && start_colour(w, #[trigger] d[i]) is Some && def_map(w, d[i]).folder == f && name_at(w, d, i) == m by {
            let i = choose|i: int| 0 <= i < n - 1 && start_colour(w, #[trigger] d[i]) is Some && def_map(w, d[i]).folder == f && name_at(w, d, i) == m; assert(start_colour(w, d[i]) is Some);
        }
    }
}
