//! C14: every visual setting reads its own key and falls back in order.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vatsim_parser::adaptation::colours::{Colour, Colours};
use vatsim_parser::adaptation::settings::{LabelSettings, LineSettings, MapsSettings};
use vatsim_parser::adaptation::symbols::{SymbolRule, Symbols};

type Rgb = (u8, u8, u8);
/// the plugin manual's default colours: (normal mode, COOPANS mode)
const DOCUMENTED: &[(&str, Option<Rgb>, Option<Rgb>)] = &[
    ("ACF_Via_CFL", Some((82,190,115)), Some((82,190,115))),
    ("Active_Map", Some((70,90,135)), Some((198,174,58))),
    ("Active_Map_Type_1", Some((1,1,1)), Some((87,87,164))),
    ("Active_Map_Type_2", Some((90,90,90)), Some((80,162,74))),
    ("Active_Map_Type_3", Some((220,205,121)), Some((179,180,180))),
    ("Active_Map_Type_4", Some((121,66,133)), Some((200,53,18))),
    ("Active_Map_Type_5", Some((51,102,152)), Some((198,174,58))),
    ("Active_Map_Type_6", Some((114,69,58)), Some((114,69,58))),
    ("Active_Map_Type_7", Some((138,20,12)), Some((138,20,12))),
    ("Active_Map_Type_8", Some((195,186,69)), Some((195,186,69))),
    ("Active_Map_Type_9", Some((220,125,25)), Some((220,125,25))),
    ("Active_Map_Type_10", Some((255,255,255)), Some((255,255,255))),
    ("Active_Map_Type_11", Some((51,134,49)), Some((51,134,49))),
    ("Active_Map_Type_12", Some((41,102,255)), Some((41,102,255))),
    ("Active_Map_Type_13", Some((100,160,100)), Some((100,160,100))),
    ("Active_Map_Type_14", Some((141,184,236)), Some((141,184,236))),
    ("Active_Map_Type_15", Some((227,213,29)), Some((227,213,29))),
    ("Active_Map_Type_16", Some((60,60,60)), Some((60,60,60))),
    ("Active_Map_Type_17", Some((155,155,155)), Some((155,155,155))),
    ("Active_Map_Type_18", Some((183,26,19)), Some((183,26,19))),
    ("Active_Map_Type_19", Some((120,91,65)), Some((120,91,65))),
    ("Active_Map_Type_20", Some((138,69,58)), Some((138,69,58))),
    ("Active_RD_Infill_Map", Some((165,160,160)), Some((90,90,90))),
    ("Active_RD_Map", Some((124,20,13)), Some((150,41,43))),
    ("Active_Sector", Some((153,154,149)), Some((52,58,62))),
    ("Active_Text_Map", Some((210,211,211)), Some((190,190,190))),
    ("AIW_Intrusion", Some((255,152,0)), Some((255,152,0))),
    ("Arm", Some((97,97,97)), Some((97,97,97))),
    ("Assumed", Some((1,0,1)), Some((220,220,220))),
    ("Background", Some((162,163,156)), Some((74,80,85))),
    ("Border", Some((51,51,52)), Some((51,51,52))),
    ("BottomShadow", Some((66,66,66)), Some((70,70,70))),
    ("CARD_Mark_All", None, Some((255,125,125))),
    ("CARD_Mark_Own", None, Some((255,124,125))),
    ("CARD_Min_Sep", Some((209,207,211)), Some((61,61,61))),
    ("CARD_Reminder", None, Some((170,231,198))),
    ("CARD_Symbol_Fg", Some((0,1,0)), Some((9,10,11))),
    ("CARD_Time_Vector", Some((95,95,95)), Some((171,231,197))),
    ("COL_Above_Threshold", None, Some((239,225,41))),
    ("COL_Under_Threshold", None, Some((220,220,221))),
    ("Concerned", Some((124,1,124)), Some((111,153,110))),
    ("Conflict_Ack", Some((110,98,98)), Some((135,127,118))),
    ("Conflict_Ack_FL", Some((110,98,98)), Some((135,127,117))),
    ("Coordination", Some((0,0,185)), Some((150,215,150))),
    ("CPDLC_Controller_Late", Some((235,225,108)), Some((170,78,39))),
    ("CPDLC_Discarded", Some((141,141,141)), Some((128,128,128))),
    ("CPDLC_DM_Request", Some((205,252,254)), Some((30,250,250))),
    ("CPDLC_Failed", Some((169,8,9)), Some((170,78,39))),
    ("CPDLC_Pilot_Late", Some((246,164,96)), Some((170,78,40))),
    ("CPDLC_Standby", Some((170,248,87)), Some((170,78,39))),
    ("CPDLC_UM_Clearance", Some((2,2,2)), Some((30,251,250))),
    ("CPDLC_Unable", Some((247,164,96)), Some((170,77,39))),
    ("CPDLC_Urgency", Some((237,229,108)), Some((226,25,25))),
    ("Datalink_Logged_On", Some((120,120,120)), Some((145,145,145))),
    ("Deselected", Some((127,127,127)), Some((95,95,96))),
    ("East_NAT_Map", Some((180,180,1)), Some((180,180,1))),
    ("Field_Highlight", Some((209,207,211)), Some((72,72,73))),
    ("Flight_Highlight", Some((190,190,185)), Some((36,41,45))),
    ("Flight_Leg", Some((205,252,255)), Some((170,231,197))),
    ("Foreground", Some((0,1,0)), Some((200,200,200))),
    ("FPLSEP_Tool_1", Some((255,170,46)), None),
    ("FPLSEP_Tool_2", Some((204,122,0)), None),
    ("FPLSEP_Tool_3", Some((255,195,75)), None),
    ("FPLSEP_Tool_4", Some((223,143,1)), None),
    ("FPLSEP_Tool_5", Some((170,102,0)), None),
    ("Freq_Indicator", Some((209,207,211)), Some((114,136,255))),
    ("Global_Menu_Highlight", Some((211,211,211)), Some((1,165,219))),
    ("Heading_Vector", Some((200,200,200)), Some((170,232,197))),
    ("Info_Coord", Some((244,164,96)), Some((1,255,255))),
    ("Information", Some((169,249,86)), Some((40,210,40))),
    ("Information_FL", Some((0,200,1)), Some((41,245,41))),
    ("Informed", Some((25,109,25)), Some((175,125,175))),
    ("Informed_2", Some((25,109,25)), Some((104,163,195))),
    ("Informed_3", Some((25,109,25)), Some((147,124,108))),
    ("LatLong_Info", None, Some((169,231,197))),
    ("Map_1", Some((121,66,133)), Some((80,95,95))),
    ("Map_2", Some((115,115,112)), Some((44,44,44))),
    ("Map_3", Some((213,241,155)), Some((100,108,111))),
    ("Map_4", Some((164,164,157)), Some((52,58,62))),
    ("Map_Auto_Label", Some((115,115,112)), Some((159,159,160))),
    ("Map_Auto_Symbol", Some((115,115,112)), Some((159,159,160))),
    ("Map_Border", Some((117,117,117)), Some((134,134,135))),
    ("Map_Hotspot", Some((72,72,70)), Some((87,139,200))),
    ("Map_Info", Some((217,217,216)), Some((150,150,150))),
    ("Map_Land", Some((133,133,138)), Some((140,140,0))),
    ("Map_Symbol", Some((55,55,55)), Some((110,130,140))),
    ("MQDM", None, Some((155,140,115))),
    ("Negotiation_In", None, Some((220,125,175))),
    ("Negotiation_Out", None, Some((220,125,175))),
    ("Normal_Load", Some((1,50,1)), Some((75,75,78))),
    ("Oceanic_Level_Highlight", Some((240,225,42)), Some((240,225,41))),
    ("Overflown", Some((169,249,86)), Some((82,105,146))),
    ("Overload", Some((255,128,1)), Some((224,26,25))),
    ("Potential", Some((41,40,216)), Some((41,40,216))),
    ("Potential_FL", Some((40,41,216)), Some((40,41,216))),
    ("Preactive_Map", Some((116,115,112)), Some((154,138,128))),
    ("Preactive_Text_Map", Some((210,211,212)), Some((155,147,138))),
    ("Predisplay_Map", Some((190,190,190)), Some((175,130,130))),
    ("Proposition_Accepted", Some((255,255,0)), Some((255,255,0))),
    ("Proposition_In", Some((254,255,255)), Some((220,125,175))),
    ("Proposition_Out", Some((254,255,255)), Some((220,125,175))),
    ("QDM", Some((200,200,200)), Some((215,190,163))),
    ("Radar_Win_Bg", Some((164,164,157)), Some((67,73,76))),
    ("Raw_Video1", Some((55,85,115)), Some((55,85,115))),
    ("Raw_Video2", Some((50,80,110)), Some((50,80,110))),
    ("Raw_Video3", Some((45,75,105)), Some((45,75,105))),
    ("Raw_Video4", Some((40,70,100)), Some((40,70,100))),
    ("Raw_Video5", Some((35,65,95)), Some((35,65,95))),
    ("Raw_Video6", Some((30,60,90)), Some((30,60,90))),
    ("Raw_Video7", Some((25,55,85)), Some((25,55,85))),
    ("Redundant", Some((156,96,59)), Some((185,140,89))),
    ("Reminder", None, Some((165,145,225))),
    ("Runway", Some((200,200,160)), Some((116,200,71))),
    ("Rwy_App_Line_Inuse", Some((220,220,220)), Some((82,190,115))),
    ("Rwy_App_Line_Not_Inuse", Some((220,205,121)), Some((135,135,70))),
    ("Rwy_Locked", Some((124,1,124)), Some((41,210,41))),
    ("Select", Some((97,97,97)), Some((151,215,150))),
    ("Selected", Some((210,210,210)), Some((61,121,148))),
    ("Selected_Group", Some((226,210,210)), None),
    ("Selected_Period", Some((220,40,70)), Some((255,255,41))),
    ("SEP_Tool_1", Some((205,252,255)), Some((153,217,234))),
    ("SEP_Tool_2", Some((25,210,230)), Some((255,153,184))),
    ("SEP_Tool_3", Some((120,245,250)), Some((255,209,143))),
    ("SEP_Tool_4", Some((185,240,244)), Some((197,64,212))),
    ("SEP_Tool_5", Some((25,180,210)), Some((140,140,255))),
    ("SEP_Tool_6", None, Some((95,170,140))),
    ("SEP_Tool_7", None, Some((185,130,85))),
    ("SEP_Vert", None, Some((160,150,135))),
    ("Sid_Star_Allocation", Some((124,1,124)), Some((15,185,15))),
    ("SMW_Highlight", Some((255,255,255)), Some((253,255,255))),
    ("SMW_Level_Band", Some((169,249,86)), Some((24,209,114))),
    ("SMW_Overflight", Some((236,228,108)), Some((254,152,1))),
    ("SMW_Overlap", Some((168,7,8)), Some((224,25,25))),
    ("SMW_Overlap_Box", Some((0,1,0)), Some((207,207,207))),
    ("SMW_Overshoot", Some((236,228,108)), Some((239,224,40))),
    ("Standard_Line_RDF", Some((91,134,76)), Some((91,134,76))),
    ("Standard_RDF", Some((11,12,19)), Some((11,12,19))),
    ("Suite_Highlight", Some((236,228,108)), Some((0,220,255))),
    ("System_Calculated_TOC", None, Some((170,230,197))),
    ("System_Calculated_TOD", None, Some((170,231,197))),
    ("Temp_Track_Highlight", Some((0,164,220)), Some((0,164,220))),
    ("Text_Notes", Some((0,0,0)), Some((255,0,0))),
    ("TopShadow", Some((130,130,130)), Some((155,158,159))),
    ("Track_Default", Some((188,188,188)), Some((210,210,210))),
    ("Track_Highlight", Some((255,255,255)), Some((0,165,219))),
    ("Trough", Some((97,97,97)), Some((97,99,97))),
    ("TSA_Active", Some((220,205,120)), Some((93,138,195))),
    ("TSA_Border_Highlight", Some((255,254,255)), Some((255,254,255))),
    ("TSA_Filter", Some((255,253,255)), None),
    ("TSA_Preactive", Some((80,80,80)), Some((132,142,139))),
    ("Unconcerned", Some((110,98,98)), Some((135,128,118))),
    ("Unknown", Some((237,228,108)), Some((239,224,42))),
    ("Urgency", Some((236,32,0)), Some((225,25,26))),
    ("Urgency_FL", Some((166,11,1)), Some((225,25,25))),
    ("VAW_Profile", Some((130,204,240)), Some((152,202,172))),
    ("VAW_Sector_Limits", Some((190,190,185)), Some((145,95,30))),
    ("VAW_Track_Position", Some((190,190,185)), Some((219,219,219))),
    ("VFR", Some((110,1,10)), Some((110,1,10))),
    ("Warning", Some((236,228,108)), Some((240,225,41))),
    ("Warning_FL", Some((235,228,108)), Some((240,226,41))),
    ("Weather_Map", Some((99,99,98)), Some((0,0,86))),
    ("West_NAT_Map", Some((40,140,255)), Some((40,140,255))),
    ("WM_Active_Fg", Some((230,230,231)), Some((255,254,254))),
    ("WM_Bg", Some((147,147,145)), Some((100,100,105))),
    ("WM_Border", Some((50,50,50)), Some((88,95,99))),
    ("WM_Fg", Some((1,1,1)), Some((180,184,181))),
    ("WM_Frame", Some((1,1,0)), Some((88,95,99))),
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Item { folder: String, name: String, colour: i32, size: String, style: u8, weight: i32, align: u8 }
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Plugin { coopans: Option<String>, font: Option<String>, colours: Vec<(String, u32, u32, u32)>, symbols: Vec<(String, i32)>, map_symbols: Vec<(String, i32)>, map_colours: Vec<(String, u8, u8, u8)>, styles: Vec<(String, Vec<u32>)> }
#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Case { items: Vec<Item>, symbols: Vec<(u32, i32)>, plugin: Option<Plugin>, defines: Vec<(String, i32)> }

/// slot, folder, name, default
const MAP: [(&str, &str, &str); 24] = [
    ("fix_symbol", "Fixes", "symbol"), ("fix_name", "Fixes", "name"), ("airport_symbol", "Airports", "symbol"), ("airport_name", "Airports", "name"),
    ("ndb_symbol", "NDBs", "symbol"), ("ndb_name", "NDBs", "name"), ("ndb_frequency", "NDBs", "frequency"),
    ("vor_symbol", "VORs", "symbol"), ("vor_name", "VORs", "name"), ("vor_frequency", "VORs", "frequency"),
    ("low_airway_line", "Low airways", "line"), ("low_airway_name", "Low airways", "name"), ("high_airway_line", "High airways", "line"), ("high_airway_name", "High airways", "name"),
    ("sid", "Sids", "line"), ("star", "Stars", "line"), ("artcc_boundary", "ARTCC boundary", "line"), ("artcc_low_boundary", "ARTCC low boundary", "line"), ("artcc_high_boundary", "ARTCC high boundary", "line"),
    ("geo", "Geo", "line"), ("runway_centreline", "Runways", "centerline"), ("runway_extended_centreline", "Runways", "extended centerline"), ("runway_name", "Runways", "name"), ("free_text", "Other", "freetext"),
];
const SECTOR: [(&str, &str, &str); 2] = [("active_background", "Sector", "active sector background"), ("inactive_background", "Sector", "inactive sector background")];
const TRACK: [(&str, &str, Rgb); 10] = [
    ("assumed", "Assumed", (0, 0, 0)), ("advanced", "Concerned", (0, 0, 255)), ("concerned", "Redundant", (0, 0, 255)), ("unconcerned", "Unconcerned", (255, 255, 255)), ("vfr", "VFR", (180, 150, 95)),
    ("flight_leg", "Flight_Leg", (0, 0, 0)), ("predicted_alert", "Warning", (255, 255, 0)), ("current_alert", "Urgency", (255, 0, 0)), ("reaction", "Proposition_In", (230, 185, 184)), ("cleared", "Rwy_Locked", (34, 139, 34)),
];
const UI: [(&str, &str, Rgb); 7] = [
    ("armed", "Arm", (160, 160, 160)), ("background", "Background", (192, 192, 192)), ("foreground", "Foreground", (0, 0, 0)), ("window_title_background_selected", "Background", (192, 192, 192)),
    ("warning", "Warning", (255, 255, 0)), ("alert", "Urgency", (255, 0, 0)), ("text_input", "Field_Highlight", (170, 224, 224)),
];
/// slot, plugin name, radar client symbol number
const SYM: [(&str, &str, u32); 9] = [("history_dot", "HISTORY", 14), ("fix", "FIX", 3), ("ndb", "NDB", 1), ("vor", "VOR", 2), ("airport", "AIRPORT", 0), ("primary", "PRIMARY", 5), ("coasted", "COASTED", 13), ("uncontrolled", "UNCONTROLLED", 18), ("controlled", "DAPS", 9)];
const LINES: [(&str, &str, &str); 9] = [("runway_centreline", "Runways", "centerline"), ("geo", "Geo", "line"), ("sid", "Sids", "line"), ("star", "Stars", "line"), ("high_airways", "High airways", "line"), ("low_airways", "Low airways", "line"), ("artcc_low", "ARTCC low boundary", "line"), ("artcc", "ARTCC boundary", "line"), ("artcc_high", "ARTCC high boundary", "line")];
const LABELS: [(&str, &str); 5] = [("fix", "Fixes"), ("airport", "Airports"), ("runway", "Runways"), ("vor", "VORs"), ("ndb", "NDBs")];
const STYLES: [&str; 5] = ["SOLID", "DASH", "DOT", "DASHDOT", "DASHDOTDOT"];
const ALIGN: [u8; 9] = [0, 1, 2, 6, 7, 8, 12, 13, 14];
const BUILTIN: [(&str, &[(f32, f32)]); 6] = [("SOLID", &[]), ("DOT", &[(1.0, 1.0)]), ("ALTERNATE", &[(1.0, 1.0)]), ("DASH", &[(3.0, 3.0)]), ("DASHDOT", &[(3.0, 3.0), (1.0, 3.0)]), ("DASHDOTDOT", &[(3.0, 3.0), (1.0, 3.0), (1.0, 3.0)])];

fn built_in_symbol(slot: &str) -> Vec<SymbolRule> {
    let m = |x: i32, y: i32| SymbolRule::Move((x.into(), y.into()));
    let l = |x: i32, y: i32| SymbolRule::Line((x.into(), y.into()));
    match slot {
        "history_dot" => vec![SymbolRule::Polygon(vec![(-1.0, -1.0), (1.0, -1.0), (1.0, 1.0), (-1.0, 1.0)])],
        "fix" => vec![m(-5, 5), l(0, -5), l(5, 5), l(-5, 5)],
        "ndb" => vec![SymbolRule::Pixel((0.0, 0.0)), SymbolRule::Arc((0.0, 0.0), 1.0, 0, 360), SymbolRule::Arc((0.0, 0.0), 3.0, 0, 360), SymbolRule::Arc((0.0, 0.0), 5.0, 0, 360)],
        "vor" => vec![m(-6, 0), l(-2, -5), l(2, -5), l(6, 0), l(2, 5), l(-2, 5), l(-6, 0), m(-6, -5), l(-6, 5), l(6, 5), l(6, -5), l(-6, -5)],
        "airport" => vec![m(-3, -3), l(3, -3), l(3, 3), l(-3, 3), l(-3, -3), m(5, 0), l(-6, 0), m(0, 5), l(0, -6)],
        "primary" => vec![m(-3, -3), l(4, 4), m(-3, 3), l(4, -4)],
        "controlled" => vec![m(-5, 0), l(0, -5), l(5, 0), l(0, 5), l(-5, 0)],
        "uncontrolled" => vec![m(-4, 3), l(0, -4), l(3, 3), l(-4, 3)],
        _ => vec![m(-4, -4), l(-4, 4), l(4, 4), l(4, -4)],
    }
}
fn slot_symbol(s: &Symbols, slot: &str) -> Vec<SymbolRule> {
    match slot { "history_dot" => &s.history_dot, "fix" => &s.fix, "ndb" => &s.ndb, "vor" => &s.vor, "airport" => &s.airport, "primary" => &s.primary, "coasted" => &s.coasted, "uncontrolled" => &s.uncontrolled, _ => &s.controlled }.clone()
}
fn drawn(v: i32) -> Vec<SymbolRule> { vec![SymbolRule::Move((f64::from(v), 1.0)), SymbolRule::Line((2.0, f64::from(v)))] }

fn slot_keys() -> Vec<(String, String)> {
    let mut v: Vec<(String, String)> = vec![];
    for (_, a, b) in MAP.iter().chain(SECTOR.iter()).chain(LINES.iter()) { let k = (a.to_string(), b.to_string()); if !v.contains(&k) { v.push(k); } }
    v
}
fn item(r: &mut Rng) -> Item {
    let ks = slot_keys();
    let (mut folder, mut name) = r.pick(&ks).clone();
    if r.chance(1, 6) { name = r.pick(&ks).1.clone(); }
    if r.chance(1, 12) { folder = r.pick(&["fixes", "Fixes ", "Sid", "Airport", "Sectors"]).to_string(); }
    Item { folder, name, colour: if r.chance(1, 12) { *r.pick(&[-1, 0x100_0000, i32::MAX, 0, 0xFF_FFFF]) } else { r.below(0x100_0000) as i32 }, size: r.pick(&["0.5", "1", "2.0", "3.0", "3.5", "10"]).to_string(), style: r.below(5) as u8, weight: r.below(6) as i32, align: *r.pick(&ALIGN) }
}
fn colour_name(r: &mut Rng) -> String {
    match r.below(4) {
        0 => r.pick(&TRACK).1.to_string(),
        1 => r.pick(&UI).1.to_string(),
        2 => r.pick(DOCUMENTED).0.to_string(),
        _ => r.pick(&["land", "water", "Map_Land", "Active_Map", "assumed", "WARNING"]).to_string(),
    }
}
fn text(c: &Case) -> Files {
    let mut sy = String::from("SYMBOLOGY\nSYMBOLSIZE\nzz:zz:0:1.0:0:0:7\n");
    for i in &c.items { sy += &format!("{}:{}:{}:{}:{}:{}:{}\n", i.folder, i.name, i.colour, i.size, i.style, i.weight, i.align); }
    sy += "SYMBOL:4\nSYMBOLITEM:MOVETO 0 0\n";
    for (t, v) in &c.symbols { sy += &format!("SYMBOL:{t}\nSYMBOLITEM:MOVETO {v} 1\nSYMBOLITEM:LINETO 2 {v}\n"); }
    sy += "m_ClipArea:0\nEND\n";
    let mut sct = INFO.to_string();
    for (n, v) in &c.defines { sct += &format!("#define {n} {v}\n"); }
    let mut f = Files { symbology: Some(sy), sct: Some(sct), ..Default::default() };
    if let Some(p) = &c.plugin {
        let mut s = String::from("Zz=1\n");
        if let Some(v) = &p.coopans { s += &format!("Setup_COOPANS={v}\n"); }
        if let Some(v) = &p.font { s += &format!("Maps_FontSize={v}\n"); }
        for (n, a, b, d) in &p.colours { s += &format!("Color_{n}={a},{b},{d}\n"); }
        f.settings = Some(s);
        f.symbols = (!p.symbols.is_empty()).then(|| p.symbols.iter().map(|(n, v)| format!("SYMBOL:{n}\nMOVETO:{v}:1\nLINETO:2:{v}\n")).collect());
        let mut m = String::from("SCTFILEPATH:x\n");
        for (n, v) in &p.map_symbols { m += &format!("SYMBOLDEF:{n}\nMOVETO:{v}:1\nLINETO:2:{v}\n"); }
        for (n, a, b, d) in &p.map_colours { m += &format!("COLORDEF:{n}:{a}:{b}:{d}\n"); }
        for (n, d) in &p.styles { m += &format!("LINESTYLEDEF:{n}:solid:none{}\n", if d.is_empty() { String::new() } else { format!(":{}", d.iter().map(u32::to_string).collect::<Vec<_>>().join(",")) }); }
        f.maps = Some(m);
    }
    f
}
fn bgr(v: i32) -> Option<Colour> { (0..=0xFF_FFFF).contains(&v).then(|| Colour::from_rgb((v & 255) as u8, (v >> 8 & 255) as u8, (v >> 16) as u8)) }
fn rgb(c: Rgb) -> Colour { Colour::from_rgb(c.0, c.1, c.2) }
macro_rules! fields { ($v:expr; $($f:ident)*) => { [$((stringify!($f), $v.$f)),*] } }
fn map_slots(c: &Colours) -> Vec<(&'static str, Colour)> { let m = &c.map; fields!(m; fix_symbol fix_name airport_symbol airport_name ndb_symbol ndb_name ndb_frequency vor_symbol vor_name vor_frequency low_airway_line low_airway_name high_airway_line high_airway_name sid star artcc_boundary artcc_low_boundary artcc_high_boundary geo runway_centreline runway_extended_centreline runway_name free_text).to_vec() }
fn track_slots(c: &Colours) -> Vec<(&'static str, Colour)> { let m = &c.track; fields!(m; assumed advanced concerned unconcerned vfr flight_leg predicted_alert current_alert reaction cleared).to_vec() }
fn ui_slots(c: &Colours) -> Vec<(&'static str, Colour)> { let m = &c.ui; fields!(m; armed background foreground window_title_background_selected warning alert text_input).to_vec() }
fn sector_slots(c: &Colours) -> Vec<(&'static str, Colour)> { let m = &c.sector; fields!(m; active_background inactive_background).to_vec() }
fn line_slots(m: &LineSettings) -> Vec<(&'static str, &vatsim_parser::adaptation::line_styles::LineStyle)> { vec![("runway_centreline", &m.runway_centreline), ("geo", &m.geo), ("sid", &m.sid), ("star", &m.star), ("high_airways", &m.high_airways), ("low_airways", &m.low_airways), ("artcc_low", &m.artcc_low), ("artcc", &m.artcc), ("artcc_high", &m.artcc_high)] }
fn label_slots(m: &LabelSettings) -> Vec<(&'static str, vatsim_parser::adaptation::Alignment, f32)> { vec![("fix", m.fix_alignment, m.fix_font_size), ("airport", m.airport_alignment, m.airport_font_size), ("runway", m.runway_alignment, m.runway_font_size), ("vor", m.vor_alignment, m.vor_font_size), ("ndb", m.ndb_alignment, m.ndb_font_size)] }
fn find<T>(v: &[(&'static str, T)], k: &str) -> T where T: Copy { v.iter().find(|x| x.0 == k).unwrap().1 }
fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: &T, want: &T) -> Result<(), String> { if got == want { Ok(()) } else { Err(format!("{what}: {got:?}, expected {want:?}")) } }
fn aligned(code: Option<u8>) -> vatsim_parser::adaptation::Alignment {
    use vatsim_parser::adaptation::{Alignment, HorizontalAlignment as H, VerticalAlignment as V};
    let c = code.unwrap_or(7);
    Alignment { horizontal: match c / 6 { 0 => H::Left, 1 => H::Center, _ => H::Right }, vertical: match c % 6 { 0 => V::Top, 1 => V::Center, _ => V::Bottom } }
}
fn built_ins() -> Result<(), String> {
    let c = Colours::default();
    for (s, ..) in MAP { eq(&format!("built-in map colour {s}"), &find(&map_slots(&c), s), &rgb((0, 0, 0)))?; }
    for (s, ..) in SECTOR { eq(&format!("built-in sector colour {s}"), &find(&sector_slots(&c), s), &rgb((200, 200, 200)))?; }
    for (s, _, d) in TRACK { eq(&format!("built-in track colour {s}"), &find(&track_slots(&c), s), &rgb(d))?; }
    for (s, _, d) in UI { eq(&format!("built-in window colour {s}"), &find(&ui_slots(&c), s), &rgb(d))?; }
    let sy = Symbols::default();
    for (s, ..) in SYM { eq(&format!("built-in symbol {s}"), &slot_symbol(&sy, s), &built_in_symbol(s))?; }
    let m = MapsSettings::default();
    for (s, l) in line_slots(&m.line_styles) { eq(&format!("built-in line style {s}"), &(l.width, l.style.as_str()), &(1, "SOLID"))?; }
    for (s, a, _) in label_slots(&m.labels) { eq(&format!("built-in alignment {s}"), &a, &aligned(None))?; }
    eq("built-in map font size", &m.font_size, &12.0)
}

pub struct C14;
impl Prop for C14 {
    const ID: &'static str = "C14";
    const RULE: &'static str = "profiles whose symbology, plugin and sector file define any subset of the keys (each key alone, each key absent, all with different values, and drawn at random with repeated, similar and invalid ones), in both modes and without plugin; every slot, every line style and every colour and symbol name looked up";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        let ks = slot_keys();
        let n = ks.len() as u64;
        let it = |k: usize, v: i32| Item { folder: ks[k].0.clone(), name: ks[k].1.clone(), colour: v, size: "2.0".into(), style: (1 + k % 4) as u8, weight: 2 + k as i32 % 4, align: ALIGN[k % 9] };
        let all = || (0..n as usize).map(|k| it(k, 1000 + 77 * k as i32)).collect::<Vec<_>>();
        let plug = |m: u64| Plugin { coopans: [None, Some("0"), Some("1"), Some("2")][m as usize % 4].map(str::to_string), ..Default::default() };
        let mut i = i;
        if i == 0 { return Some(Case { items: all(), ..Default::default() }); } i -= 1;
        if i < n { return Some(Case { items: vec![it(i as usize, 4711)], ..Default::default() }); } i -= n;
        if i < n { let mut v = all(); v.remove(i as usize); return Some(Case { items: v, ..Default::default() }); } i -= n;
        if i < 4 { return Some(Case { plugin: Some(plug(i)), ..Default::default() }); } i -= 4;
        // plugin colours, one at a time, in each mode
        let names: Vec<&str> = TRACK.iter().map(|x| x.1).chain(UI.iter().map(|x| x.1)).collect();
        let k = names.len() as u64 * 4;
        if i < k { return Some(Case { plugin: Some(Plugin { colours: vec![(names[(i / 4) as usize].into(), 7, 8, 9)], ..plug(i) }), ..Default::default() }); } i -= k;
        // symbols: each source alone, and the others everywhere
        if i < 36 { let s = SYM[(i / 4) as usize]; let mut c = Case { plugin: Some(plug(i)), ..Default::default() };
            match i % 4 { 0 => c.symbols.push((s.2, 11)), 1 => c.plugin.as_mut().unwrap().symbols.push((s.1.into(), 12)), 2 => c.plugin.as_mut().unwrap().map_symbols.push((s.1.into(), 13)), _ => { c.symbols.push((s.2, 11)); c.plugin.as_mut().unwrap().symbols.push((s.1.into(), 12)); } }
            return Some(c); } i -= 36;
        if i < 24 { return Some(Case { symbols: (0..24).filter(|t| *t != i as u32).map(|t| (t, 100 + t as i32)).collect(), plugin: Some(Plugin { symbols: SYM.iter().enumerate().filter(|(k, _)| *k as u64 != i % 9 && i > 9).map(|(k, s)| (s.1.into(), 50 + k as i32)).collect(), ..plug(i) }), ..Default::default() }); }
        None
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        let n = r.below(s + 1);
        let mut c = Case { items: (0..n).map(|_| item(r)).collect(), ..Default::default() };
        let n = r.below(6);
        c.symbols = (0..n).map(|_| (if r.chance(1, 6) { 24 + r.below(9) as u32 } else { r.below(24) as u32 }, r.range(-9, 9) as i32)).collect();
        if r.chance(2, 3) { c.symbols.retain(|x| x.0 != 4); }
        let n = r.below(4);
        c.defines = (0..n).map(|_| (colour_name(r), if r.chance(1, 8) { 0x100_0000 + r.below(99) as i32 } else { r.below(0x100_0000) as i32 })).collect();
        if r.chance(3, 4) {
            let mut p = Plugin { coopans: r.pick(&[None, Some("0"), Some("1"), Some(""), Some("true")]).map(str::to_string), font: r.pick(&[None, Some("9"), Some("14.5"), Some("x"), Some("0")]).map(str::to_string), ..Default::default() };
            let n = r.below(s.min(8) + 1);
            p.colours = (0..n).map(|_| (colour_name(r), r.below(256) as u32, r.below(256) as u32, if r.chance(1, 9) { 256 } else { r.below(256) as u32 })).collect();
            let sym = |r: &mut Rng| (if r.chance(1, 5) { r.pick(&["fix", "OTHER", "DAP", "HIST"]).to_string() } else { r.pick(&SYM).1.to_string() }, r.range(-9, 9) as i32);
            let n = r.below(4); p.symbols = (0..n).map(|_| sym(r)).collect();
            let n = r.below(3); p.map_symbols = (0..n).map(|_| sym(r)).collect();
            let n = r.below(3); p.map_colours = (0..n).map(|_| (colour_name(r), r.below(256) as u8, r.below(256) as u8, r.below(256) as u8)).collect();
            let n = r.below(4); p.styles = (0..n).map(|_| { let k = r.below(7); (r.pick(&["mine", "Mine", "long dash", "DASH2", "dash", "Solid", "x"]).to_string(), (0..k).map(|_| r.below(9) as u32).collect()) }).collect();
            c.plugin = Some(p);
        }
        c
    }
    fn check(c: &Case) -> Res {
        built_ins()?;
        let a = match adaptation(&text(c)) { Ok(a) => a, Err(e) => return Err(format!("files do not read: {e}")) };
        // what each file configures: the last valid definition of a name
        let it = |f: &str, n: &str| c.items.iter().rev().find(|i| i.folder == f && i.name == n && bgr(i.colour).is_some());
        let none = Plugin::default();
        let p = c.plugin.as_ref().unwrap_or(&none);
        let pc = |n: &str| p.map_colours.iter().rev().find(|x| x.0 == n).map(|x| rgb((x.1, x.2, x.3)))
            .or_else(|| p.colours.iter().rev().find(|x| x.0 == n && x.1 < 256 && x.2 < 256 && x.3 < 256).map(|x| rgb((x.1 as u8, x.2 as u8, x.3 as u8))));
        let coopans = p.coopans.as_deref() != Some("0");
        eq("COOPANS mode", &a.settings.coopans, &coopans)?;
        let doc = |n: &str| DOCUMENTED.iter().find(|d| d.0 == n).and_then(|d| if coopans { d.2 } else { d.1 }).map(rgb);
        let ps = |n: &str| p.map_symbols.iter().rev().find(|x| x.0 == n).or_else(|| p.symbols.iter().rev().find(|x| x.0 == n)).map(|x| drawn(x.1));
        for (s, f, n) in MAP { eq(&format!("map colour {s}"), &find(&map_slots(&a.colours), s), &it(f, n).and_then(|i| bgr(i.colour)).unwrap_or(rgb((0, 0, 0))))?; }
        for (s, f, n) in SECTOR { eq(&format!("sector colour {s}"), &find(&sector_slots(&a.colours), s), &it(f, n).and_then(|i| bgr(i.colour)).unwrap_or(rgb((200, 200, 200))))?; }
        for (s, n, d) in TRACK { eq(&format!("track colour {s}"), &find(&track_slots(&a.colours), s), &pc(n).or(doc(n)).unwrap_or(rgb(d)))?; }
        for (s, n, d) in UI { eq(&format!("window colour {s}"), &find(&ui_slots(&a.colours), s), &pc(n).or(doc(n)).unwrap_or(rgb(d)))?; }
        // named colours
        for n in DOCUMENTED.iter().map(|d| d.0.to_string()).chain(c.defines.iter().map(|d| d.0.clone())).chain(p.colours.iter().map(|d| d.0.clone())).chain(p.map_colours.iter().map(|d| d.0.clone())).chain(["nowhere".into(), "background".into(), "Map_5".into()]) {
            let sct = c.defines.iter().rev().find(|x| x.0 == n && bgr(x.1).is_some()).and_then(|x| bgr(x.1));
            eq(&format!("colour named {n}"), &a.colours.get(&n, &a.settings), &pc(&n).or(sct).or(doc(&n)))?;
        }
        for (s, n, t) in SYM {
            let own = c.symbols.iter().rev().find(|x| x.0 == t).map(|x| drawn(x.1));
            eq(&format!("symbol {s}"), &slot_symbol(&a.symbols, s), &ps(n).or(own).unwrap_or_else(|| built_in_symbol(s)))?;
        }
        for n in p.symbols.iter().chain(&p.map_symbols).map(|x| x.0.as_str()).chain(["nowhere", "FIX", "VOR"]) { eq(&format!("symbol named {n}"), &a.symbols.get(n).map(<[_]>::to_vec), &ps(n))?; }
        let m = &a.settings.maps;
        for (s, f, n) in LINES { let i = it(f, n); let l = line_slots(&m.line_styles).into_iter().find(|x| x.0 == s).unwrap().1; eq(&format!("line style {s}"), &(l.width, l.style.as_str()), &i.map_or((1, "SOLID"), |i| (i.weight, STYLES[i.style as usize])))?; }
        for (s, f) in LABELS { let i = it(f, "name"); let l = label_slots(&m.labels).into_iter().find(|x| x.0 == s).unwrap(); eq(&format!("label alignment {s}"), &l.1, &aligned(i.map(|i| i.align)))?; eq(&format!("label size {s}"), &l.2, &(i.map_or(3.0, |i| i.size.parse::<f32>().unwrap()) * 3.5))?; }
        eq("map font size", &m.font_size, &p.font.as_deref().and_then(|x| x.parse().ok()).unwrap_or(12.0))?;
        eq("automatic folder", &m.auto_folder.as_str(), &"AUTO")?;
        eq("map layer", &m.layer, &1.0)?;
        eq("label offset", &m.label_offset, &(3.0, 3.0))?;
        // line styles
        let mut own: HashMap<String, Vec<Vec<(f32, f32)>>> = HashMap::new();
        let last: Vec<&(String, Vec<u32>)> = p.styles.iter().enumerate().filter(|(k, s)| !p.styles[k + 1..].iter().any(|o| o.0 == s.0)).map(|x| x.1).collect();
        for (n, d) in last { own.entry(n.to_uppercase()).or_default().push(d.chunks_exact(2).map(|x| (x[0] as f32, x[1] as f32)).collect()); }
        let got: HashMap<&str, Vec<(f32, f32)>> = a.line_styles.iter().map(|(n, d)| (n.as_str(), d.as_ref().map_or(vec![], |d| d.iter().map(|x| (x.length, x.gap)).collect()))).collect();
        for (n, d) in BUILTIN { eq(&format!("line style {n}"), &got.get(n), &Some(&d.to_vec()))?; }
        // two names that differ in case only share an entry; either definition is one of theirs
        for (n, d) in &own { if BUILTIN.iter().all(|b| b.0 != n) { let g = got.get(n.as_str()); if !g.is_some_and(|g| d.contains(g)) { return Err(format!("line style {n}: {g:?}, expected {d:?}")); } } }
        for n in got.keys() { if !own.contains_key(*n) && BUILTIN.iter().all(|b| b.0 != *n) { return Err(format!("line style {n} is not defined anywhere")); } }
        Ok(if c.items.is_empty() && c.symbols.is_empty() && c.plugin.is_none() { Out::Trivial } else { Out::Ok })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o: Vec<Case> = drop_one(&c.items).into_iter().map(|x| Case { items: x, ..c.clone() }).collect();
        o.extend(drop_one(&c.symbols).into_iter().map(|x| Case { symbols: x, ..c.clone() }));
        o.extend(drop_one(&c.defines).into_iter().map(|x| Case { defines: x, ..c.clone() }));
        if let Some(p) = &c.plugin {
            o.push(Case { plugin: None, ..c.clone() });
            let w = |q: Plugin| Case { plugin: Some(q), ..c.clone() };
            o.extend(drop_one(&p.colours).into_iter().map(|x| w(Plugin { colours: x, ..p.clone() })));
            o.extend(drop_one(&p.symbols).into_iter().map(|x| w(Plugin { symbols: x, ..p.clone() })));
            o.extend(drop_one(&p.map_symbols).into_iter().map(|x| w(Plugin { map_symbols: x, ..p.clone() })));
            o.extend(drop_one(&p.map_colours).into_iter().map(|x| w(Plugin { map_colours: x, ..p.clone() })));
            o.extend(drop_one(&p.styles).into_iter().map(|x| w(Plugin { styles: x, ..p.clone() })));
            if p.font.is_some() { o.push(w(Plugin { font: None, ..p.clone() })); }
        }
        o
    }
}
