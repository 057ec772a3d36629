//@ source src/adaptation/colours.rs
//@ use base
//@ use map
//@ item Colour
//@ item MapColours noclone
//@ item SectorColours noclone
//@ item TrackColours noclone
//@ item UIColours noclone
//@ item Colours noclone
//@ consts MapColours
//@ consts SectorColours
//@ consts TrackColours
//@ consts UIColours
//@ itersrc into_iter iter
//@ rename clone .vx_dup
//@ rename unwrap_or_default .vx_or_default
//@ prelude
pub trait Default: Sized { fn default() -> (ret: Self); }
pub struct Item { pub colour: Colour }
/// TwoKeyMap: a map with pairs of texts as keys
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(B)]
#[verifier::accept_recursive_types(V)]
pub struct TwoKeyMap<A, B, V>(pub HashMap<(A, B), V>);
pub struct Symbology { pub items: TwoKeyMap<String, String, Item> }
pub struct Settings { pub coopans: bool }
pub struct Sct { pub colours: HashMap<String, Colour> }
pub struct ColourDef { pub colour: Colour }
pub struct Topsky { pub colours: HashMap<String, ColourDef> }
pub type Rgb = (u8, u8, u8);
/// topsky::DEFAULT_COLOURS: a constant table; its content is compared entry by entry by the search
#[verifier::external_body]
pub struct Table { v: u8 }
impl Table {
    pub uninterp spec fn view(&self) -> Map<Seq<char>, (Option<Rgb>, Option<Rgb>)>;
    #[verifier::external_body]
    pub fn get(&self, key: &str) -> (r: Option<&(Option<Rgb>, Option<Rgb>)>)
        ensures match r { Some(v) => self@.contains_key(key@) && *v == self@[key@], None => !self@.contains_key(key@) },
    { unimplemented!() }
}
pub uninterp spec fn the_table() -> Table;
#[verifier::external_body]
pub fn vx_table() -> (r: &'static Table) ensures *r == the_table() { unimplemented!() }
pub open spec fn rgb(r: u8, g: u8, b: u8) -> Colour { Colour { r, g, b, a: 255 } }
/// the colour configured in the radar client for this very slot, else the slot's constant
pub open spec fn slot(s: Symbology, folder: Seq<char>, name: Seq<char>, d: Colour) -> Colour {
    if s.items.0@.contains_key((folder, name)) { s.items.0@[(folder, name)].colour } else { d }
}
/// the plugin manual's default for the active mode
pub open spec fn documented(coopans: bool, name: Seq<char>) -> Option<Colour> {
    if the_table()@.contains_key(name) {
        match (if coopans { the_table()@[name].1 } else { the_table()@[name].0 }) { Some(c) => Some(rgb(c.0, c.1, c.2)), None => None }
    } else { None }
}
pub open spec fn plugged(m: HashMap<String, Colour>, s: Settings, name: Seq<char>, d: Colour) -> Colour {
    match look(m@, name) { Some(c) => c, None => match documented(s.coopans, name) { Some(c) => c, None => d } }
}
/// the plugin's own definition, else its default for the active mode, else the slot's constant
pub open spec fn plugin_colour(t: Option<Topsky>, name: Seq<char>) -> Option<Colour> {
    match t { Some(t) => if t.colours@.contains_key(name) { Some(t.colours@[name].colour) } else { None }, None => None }
}
pub open spec fn chosen(t: Option<Topsky>, s: Settings, name: Seq<char>, d: Colour) -> Colour {
    match plugin_colour(t, name) { Some(c) => c, None => match documented(s.coopans, name) { Some(c) => c, None => d } }
}
pub open spec fn look(m: Map<Seq<char>, Colour>, name: Seq<char>) -> Option<Colour> { if m.contains_key(name) { Some(m[name]) } else { None } }
/// every slot of the radar client's colours
pub open spec fn map_ok(ret: MapColours, symbology: Symbology) -> bool {
    &&& ret.fix_symbol == slot(symbology, "Fixes"@, "symbol"@, rgb(0, 0, 0))
    &&& ret.fix_name == slot(symbology, "Fixes"@, "name"@, rgb(0, 0, 0))
    &&& ret.airport_symbol == slot(symbology, "Airports"@, "symbol"@, rgb(0, 0, 0))
    &&& ret.airport_name == slot(symbology, "Airports"@, "name"@, rgb(0, 0, 0))
    &&& ret.ndb_symbol == slot(symbology, "NDBs"@, "symbol"@, rgb(0, 0, 0))
    &&& ret.ndb_name == slot(symbology, "NDBs"@, "name"@, rgb(0, 0, 0))
    &&& ret.ndb_frequency == slot(symbology, "NDBs"@, "frequency"@, rgb(0, 0, 0))
    &&& ret.vor_symbol == slot(symbology, "VORs"@, "symbol"@, rgb(0, 0, 0))
    &&& ret.vor_name == slot(symbology, "VORs"@, "name"@, rgb(0, 0, 0))
    &&& ret.vor_frequency == slot(symbology, "VORs"@, "frequency"@, rgb(0, 0, 0))
    &&& ret.low_airway_line == slot(symbology, "Low airways"@, "line"@, rgb(0, 0, 0))
    &&& ret.low_airway_name == slot(symbology, "Low airways"@, "name"@, rgb(0, 0, 0))
    &&& ret.high_airway_line == slot(symbology, "High airways"@, "line"@, rgb(0, 0, 0))
    &&& ret.high_airway_name == slot(symbology, "High airways"@, "name"@, rgb(0, 0, 0))
    &&& ret.sid == slot(symbology, "Sids"@, "line"@, rgb(0, 0, 0))
    &&& ret.star == slot(symbology, "Stars"@, "line"@, rgb(0, 0, 0))
    &&& ret.artcc_boundary == slot(symbology, "ARTCC boundary"@, "line"@, rgb(0, 0, 0))
    &&& ret.artcc_low_boundary == slot(symbology, "ARTCC low boundary"@, "line"@, rgb(0, 0, 0))
    &&& ret.artcc_high_boundary == slot(symbology, "ARTCC high boundary"@, "line"@, rgb(0, 0, 0))
    &&& ret.geo == slot(symbology, "Geo"@, "line"@, rgb(0, 0, 0))
    &&& ret.runway_centreline == slot(symbology, "Runways"@, "centerline"@, rgb(0, 0, 0))
    &&& ret.runway_extended_centreline == slot(symbology, "Runways"@, "extended centerline"@, rgb(0, 0, 0))
    &&& ret.runway_name == slot(symbology, "Runways"@, "name"@, rgb(0, 0, 0))
    &&& ret.free_text == slot(symbology, "Other"@, "freetext"@, rgb(0, 0, 0))
}
pub open spec fn sector_ok(ret: SectorColours, symbology: Symbology) -> bool {
    &&& ret.active_background == slot(symbology, "Sector"@, "active sector background"@, rgb(200, 200, 200))
    &&& ret.inactive_background == slot(symbology, "Sector"@, "inactive sector background"@, rgb(200, 200, 200))
}
pub open spec fn track_ok(ret: TrackColours, topsky: Option<Topsky>, settings: Settings) -> bool {
    &&& ret.assumed == chosen(topsky, settings, "Assumed"@, rgb(0, 0, 0))
    &&& ret.advanced == chosen(topsky, settings, "Concerned"@, rgb(0, 0, 255))
    &&& ret.concerned == chosen(topsky, settings, "Redundant"@, rgb(0, 0, 255))
    &&& ret.unconcerned == chosen(topsky, settings, "Unconcerned"@, rgb(255, 255, 255))
    &&& ret.vfr == chosen(topsky, settings, "VFR"@, rgb(180, 150, 95))
    &&& ret.flight_leg == chosen(topsky, settings, "Flight_Leg"@, rgb(0, 0, 0))
    &&& ret.predicted_alert == chosen(topsky, settings, "Warning"@, rgb(255, 255, 0))
    &&& ret.current_alert == chosen(topsky, settings, "Urgency"@, rgb(255, 0, 0))
    &&& ret.reaction == chosen(topsky, settings, "Proposition_In"@, rgb(230, 185, 184))
    &&& ret.cleared == chosen(topsky, settings, "Rwy_Locked"@, rgb(34, 139, 34))
}
pub open spec fn ui_ok(ret: UIColours, topsky: Option<Topsky>, settings: Settings) -> bool {
    &&& ret.armed == chosen(topsky, settings, "Arm"@, rgb(160, 160, 160))
    &&& ret.background == chosen(topsky, settings, "Background"@, rgb(192, 192, 192))
    &&& ret.foreground == chosen(topsky, settings, "Foreground"@, rgb(0, 0, 0))
    &&& ret.window_title_background_selected == chosen(topsky, settings, "Background"@, rgb(192, 192, 192))
    &&& ret.warning == chosen(topsky, settings, "Warning"@, rgb(255, 255, 0))
    &&& ret.alert == chosen(topsky, settings, "Urgency"@, rgb(255, 0, 0))
    &&& ret.text_input == chosen(topsky, settings, "Field_Highlight"@, rgb(170, 224, 224))
}
//@ exprcall vx_table() = DEFAULT_COLOURS
//@ fn Colour::from_rgb
//@ spec
ensures ret == rgb(r, g, b),
//@ fn Colour::from_symbology
//@ spec
ensures ret == slot(*symbology, key.0@, key.1@, default),
//@ fn Colour::from_topsky_default
//@ spec
ensures ret == documented(settings.coopans, key@),
//@ fn MapColours::from_euroscope
//@ spec
ensures
    ret.fix_symbol == slot(*symbology, "Fixes"@, "symbol"@, rgb(0, 0, 0)),
    ret.fix_name == slot(*symbology, "Fixes"@, "name"@, rgb(0, 0, 0)),
    ret.airport_symbol == slot(*symbology, "Airports"@, "symbol"@, rgb(0, 0, 0)),
    ret.airport_name == slot(*symbology, "Airports"@, "name"@, rgb(0, 0, 0)),
    ret.ndb_symbol == slot(*symbology, "NDBs"@, "symbol"@, rgb(0, 0, 0)),
    ret.ndb_name == slot(*symbology, "NDBs"@, "name"@, rgb(0, 0, 0)),
    ret.ndb_frequency == slot(*symbology, "NDBs"@, "frequency"@, rgb(0, 0, 0)),
    ret.vor_symbol == slot(*symbology, "VORs"@, "symbol"@, rgb(0, 0, 0)),
    ret.vor_name == slot(*symbology, "VORs"@, "name"@, rgb(0, 0, 0)),
    ret.vor_frequency == slot(*symbology, "VORs"@, "frequency"@, rgb(0, 0, 0)),
    ret.low_airway_line == slot(*symbology, "Low airways"@, "line"@, rgb(0, 0, 0)),
    ret.low_airway_name == slot(*symbology, "Low airways"@, "name"@, rgb(0, 0, 0)),
    ret.high_airway_line == slot(*symbology, "High airways"@, "line"@, rgb(0, 0, 0)),
    ret.high_airway_name == slot(*symbology, "High airways"@, "name"@, rgb(0, 0, 0)),
    ret.sid == slot(*symbology, "Sids"@, "line"@, rgb(0, 0, 0)),
    ret.star == slot(*symbology, "Stars"@, "line"@, rgb(0, 0, 0)),
    ret.artcc_boundary == slot(*symbology, "ARTCC boundary"@, "line"@, rgb(0, 0, 0)),
    ret.artcc_low_boundary == slot(*symbology, "ARTCC low boundary"@, "line"@, rgb(0, 0, 0)),
    ret.artcc_high_boundary == slot(*symbology, "ARTCC high boundary"@, "line"@, rgb(0, 0, 0)),
    ret.geo == slot(*symbology, "Geo"@, "line"@, rgb(0, 0, 0)),
    ret.runway_centreline == slot(*symbology, "Runways"@, "centerline"@, rgb(0, 0, 0)),
    ret.runway_extended_centreline == slot(*symbology, "Runways"@, "extended centerline"@, rgb(0, 0, 0)),
    ret.runway_name == slot(*symbology, "Runways"@, "name"@, rgb(0, 0, 0)),
    ret.free_text == slot(*symbology, "Other"@, "freetext"@, rgb(0, 0, 0)),
//@ fn MapColours as Default::default
//@ spec
ensures
    ret.fix_symbol == rgb(0, 0, 0),
    ret.fix_name == rgb(0, 0, 0),
    ret.airport_symbol == rgb(0, 0, 0),
    ret.airport_name == rgb(0, 0, 0),
    ret.ndb_symbol == rgb(0, 0, 0),
    ret.ndb_name == rgb(0, 0, 0),
    ret.ndb_frequency == rgb(0, 0, 0),
    ret.vor_symbol == rgb(0, 0, 0),
    ret.vor_name == rgb(0, 0, 0),
    ret.vor_frequency == rgb(0, 0, 0),
    ret.low_airway_line == rgb(0, 0, 0),
    ret.low_airway_name == rgb(0, 0, 0),
    ret.high_airway_line == rgb(0, 0, 0),
    ret.high_airway_name == rgb(0, 0, 0),
    ret.sid == rgb(0, 0, 0),
    ret.star == rgb(0, 0, 0),
    ret.artcc_boundary == rgb(0, 0, 0),
    ret.artcc_low_boundary == rgb(0, 0, 0),
    ret.artcc_high_boundary == rgb(0, 0, 0),
    ret.geo == rgb(0, 0, 0),
    ret.runway_centreline == rgb(0, 0, 0),
    ret.runway_extended_centreline == rgb(0, 0, 0),
    ret.runway_name == rgb(0, 0, 0),
    ret.free_text == rgb(0, 0, 0),
//@ fn SectorColours::from_euroscope
//@ spec
ensures
    ret.active_background == slot(*symbology, "Sector"@, "active sector background"@, rgb(200, 200, 200)),
    ret.inactive_background == slot(*symbology, "Sector"@, "inactive sector background"@, rgb(200, 200, 200)),
//@ fn SectorColours as Default::default
//@ spec
ensures
    ret.active_background == rgb(200, 200, 200),
    ret.inactive_background == rgb(200, 200, 200),
//@ fn TrackColours::from_euroscope
//@ spec
ensures
    ret.assumed == plugged(*topsky_colours, *settings, "Assumed"@, rgb(0, 0, 0)),
    ret.advanced == plugged(*topsky_colours, *settings, "Concerned"@, rgb(0, 0, 255)),
    ret.concerned == plugged(*topsky_colours, *settings, "Redundant"@, rgb(0, 0, 255)),
    ret.unconcerned == plugged(*topsky_colours, *settings, "Unconcerned"@, rgb(255, 255, 255)),
    ret.vfr == plugged(*topsky_colours, *settings, "VFR"@, rgb(180, 150, 95)),
    ret.flight_leg == plugged(*topsky_colours, *settings, "Flight_Leg"@, rgb(0, 0, 0)),
    ret.predicted_alert == plugged(*topsky_colours, *settings, "Warning"@, rgb(255, 255, 0)),
    ret.current_alert == plugged(*topsky_colours, *settings, "Urgency"@, rgb(255, 0, 0)),
    ret.reaction == plugged(*topsky_colours, *settings, "Proposition_In"@, rgb(230, 185, 184)),
    ret.cleared == plugged(*topsky_colours, *settings, "Rwy_Locked"@, rgb(34, 139, 34)),
//@ fn TrackColours as Default::default
//@ spec
ensures
    ret.assumed == rgb(0, 0, 0),
    ret.advanced == rgb(0, 0, 255),
    ret.concerned == rgb(0, 0, 255),
    ret.unconcerned == rgb(255, 255, 255),
    ret.vfr == rgb(180, 150, 95),
    ret.flight_leg == rgb(0, 0, 0),
    ret.predicted_alert == rgb(255, 255, 0),
    ret.current_alert == rgb(255, 0, 0),
    ret.reaction == rgb(230, 185, 184),
    ret.cleared == rgb(34, 139, 34),
//@ fn UIColours::from_euroscope
//@ spec
ensures
    ret.armed == plugged(*topsky_colours, *settings, "Arm"@, rgb(160, 160, 160)),
    ret.background == plugged(*topsky_colours, *settings, "Background"@, rgb(192, 192, 192)),
    ret.foreground == plugged(*topsky_colours, *settings, "Foreground"@, rgb(0, 0, 0)),
    ret.window_title_background_selected == plugged(*topsky_colours, *settings, "Background"@, rgb(192, 192, 192)),
    ret.warning == plugged(*topsky_colours, *settings, "Warning"@, rgb(255, 255, 0)),
    ret.alert == plugged(*topsky_colours, *settings, "Urgency"@, rgb(255, 0, 0)),
    ret.text_input == plugged(*topsky_colours, *settings, "Field_Highlight"@, rgb(170, 224, 224)),
//@ fn UIColours as Default::default
//@ spec
ensures
    ret.armed == rgb(160, 160, 160),
    ret.background == rgb(192, 192, 192),
    ret.foreground == rgb(0, 0, 0),
    ret.window_title_background_selected == rgb(192, 192, 192),
    ret.warning == rgb(255, 255, 0),
    ret.alert == rgb(255, 0, 0),
    ret.text_input == rgb(170, 224, 224),
//@ fn Colours::get
//@ spec
ensures ret == (if self.other@.contains_key(name@) { Some(self.other@[name@]) } else { documented(settings.coopans, name@) }),
//@ fn Colours::from_euroscope  loops=2
//@ type acc0 Vec<(String, Colour)>
//@ type acc1 Vec<(String, Colour)>
//@ type topsky_colours HashMap<String, Colour>
//@ spec
ensures
    map_ok(ret.map, *symbology),
    sector_ok(ret.sector, *symbology),
    track_ok(ret.track, *topsky, *settings),
    ui_ok(ret.ui, *topsky, *settings),
    forall|n: Seq<char>| #![trigger look(ret.other@, n)] look(ret.other@, n) == (match plugin_colour(*topsky, n) { Some(c) => Some(c), None => look(sct.colours@, n) }),
//@ loop 0
    acc0@.len() == it0.pos(), g0 == entry_refs(entries(t.colours)),
    forall|i: int| 0 <= i < acc0@.len() ==> (#[trigger] acc0@[i]).0 == entries(t.colours)[i].0 && acc0@[i].1 == entries(t.colours)[i].1.colour,
//@ loop 1
    acc1@ == g1.take(it1.pos()),
//@ at loop1.after
proof { assert(g1.take(it1.pos()) =~= g1); }
//@ at loop0.after
proof { collected(acc0@, t.colours); }
//@ at tail
proof {
    two_tables(sct.colours, topsky_colours);
    assert forall|n: Seq<char>| #![trigger look(topsky_colours@, n)] look(topsky_colours@, n) == plugin_colour(*topsky, n) by {}
}
//@ lemmas
pub proof fn collected(v: Seq<(String, Colour)>, m: HashMap<String, ColourDef>)
    requires v.len() == entries(m).len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == entries(m)[i].0 && v[i].1 == entries(m)[i].1.colour,
    ensures forall|n: Seq<char>| #![trigger look(map_of(v), n)] look(map_of(v), n) == (if m@.contains_key(n) { Some(m@[n].colour) } else { None }),
{
    broadcast use axiom_entries;
    let e = entries(m);
    assert(lists(e, m@));
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0.vkey() != (#[trigger] v[j]).0.vkey() by { assert(e[i].0.vkey() != e[j].0.vkey()); }
    map_of_distinct(v);
    assert forall|n: Seq<char>| #![trigger look(map_of(v), n)] look(map_of(v), n) == (if m@.contains_key(n) { Some(m@[n].colour) } else { None }) by {
        if m@.contains_key(n) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == n; assert(v[i].0.vkey() == n); assert(map_of(v).contains_key(v[i].0.vkey())); }
        if map_of(v).contains_key(n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0.vkey() == n; assert(e[i].0.vkey() == n); assert(m@.contains_key(e[i].0.vkey())); }
    }
}
pub proof fn two_tables(a: HashMap<String, Colour>, b: HashMap<String, Colour>)
    ensures forall|n: Seq<char>| #![trigger look(map_of(entries(a) + entries(b)), n)] look(map_of(entries(a) + entries(b)), n) == (match look(b@, n) { Some(c) => Some(c), None => look(a@, n) }),
{
    map_of_entries(a); map_of_entries(b); map_of_two(entries(a), entries(b));
    let m = map_of(entries(a) + entries(b));
    assert forall|n: Seq<char>| #![trigger look(m, n)] look(m, n) == (match look(b@, n) { Some(c) => Some(c), None => look(a@, n) }) by {
        assert(m.contains_key(n) == (map_of(entries(b)).contains_key(n) || map_of(entries(a)).contains_key(n)));
        assert(b@.contains_key(n) ==> map_of(entries(b))[n] == b@[n]);
        assert(a@.contains_key(n) ==> map_of(entries(a))[n] == a@[n]);
    }
}
