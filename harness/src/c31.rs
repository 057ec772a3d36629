//! C31: display settings (.asr).
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vatsim_parser::asr::{Asr, AsrMap, AsrMapAirwayType, AsrMapFixType, AsrMapGroundNetworkType, AsrMapNavaidType, AsrMapRunwayType, DisplayType, Leader, SimulationMode};

/// a kind of line (by its head) and its parts
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Line { head: String, parts: Vec<String> }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { lines: Vec<Line>, crlf: bool, open: bool, lead: bool }
const BOOLS: [&str; 8] = ["DISABLEPANNING", "DISABLEZOOMING", "DisplayTypeGeoReferenced", "DisplayTypeNeedRadarContent", "SHOWLEADER", "SHOWC", "SHOWSB", "TURNLEADER"];
const NUMS: [&str; 5] = ["ABOVE", "BELOW", "LEADER", "HISTORY_DOTS", "SIMULATION_MODE"];
const NAMED: [&str; 7] = ["Airports", "Fixes", "NDBs", "VORs", "Low airways", "High airways", "Ground Network"];
const PLAIN: [&str; 6] = ["Sids", "Stars", "Geo", "ARTCC boundary", "ARTCC low boundary", "ARTCC high boundary"];
fn ways(h: &str) -> &'static [&'static str] { match h { "Airports" | "Fixes" => &["symbol", "name"], "NDBs" | "VORs" => &["symbol", "name", "frequency"], "Ground Network" => &["exit", "taxiway", "terminal taxiway"], _ => &["line", "name"] } }
const TEXTS: [&str; 14] = ["EDDM", "x", "TopSky plugin", "a b", "", "Matias (built in)", "Standard ES radar screen", "Ground Radar display", "\\edmm.sct", "name", "symbol", "ä 1", "EDDM Taxi", "0"];
fn text(l: &Line) -> String {
    let p = &l.parts;
    match l.head.as_str() {
        "Runways" => format!("Runways:{} {}-{}:{}", p[0], p[1], p[2], p[3]),
        "Free Text" => format!("Free Text:{}\\{}:freetext", p[0], p[1]),
        "Regions" => format!("Regions:{}:polygon", p[0]),
        h if PLAIN.contains(&h) => format!("{h}:{}:", p[0]),
        h => format!("{h}:{}", p.join(":")),
    }
}
fn coord(s: &str) -> f64 {
    match s.strip_prefix(['N', 'S', 'E', 'W']) {
        None => s.parse().unwrap(),
        Some(r) => {
            let v: Vec<&str> = r.splitn(3, '.').collect();
            let x: f64 = v[0].parse::<f64>().unwrap() + v[1].parse::<f64>().unwrap() / 60.0 + v[2].parse::<f64>().unwrap() / 3600.0;
            if s.starts_with(['S', 'W']) { -x } else { x }
        }
    }
}
pub struct C31;
impl Prop for C31 {
    const ID: &'static str = "C31";
    const RULE: &'static str = "display settings of up to 40 lines of every kind the grammar knows, repeated kinds, numbers in and out of range of their field (negative, zero, too many digits), window areas in decimal and sexagesimal coordinates, plugin settings with repeated keys, every kind of map element with every way to show it, either line ending, empty lines";
    type Case = Case;
    fn gen(r: &mut Rng, s: usize) -> Case {
        let few = r.chance(1, 2);
        let nice = |r: &mut Rng| r.pick(&TEXTS).replace(['\\', ':'], "x");
        let lines = (0..r.below(s.min(40)) + 1).map(|_| {
            let (h, p): (&str, Vec<String>) = match r.below(if few { 6 } else { 13 }) {
                0 => (*r.pick(&BOOLS), vec![r.below(2).to_string()]),
                1 | 2 => (*r.pick(&NUMS), vec![match r.below(8) { 0 => r.pick(&["0", "-0", "00", "255", "256", "127", "128", "-128", "-129", "4294967295", "4294967296", "99999999999999999999999"]).to_string(), 1 => (-(r.below(200) as i64)).to_string(), 2 | 3 => r.below(300).to_string(), 4 => r.below(70000).to_string(), _ => r.below(6).to_string() }]),
                3 => (*r.pick(&["SECTORFILE", "SECTORTITLE", "TAGFAMILY", "DisplayTypeName", "DisplayTypeName"]), vec![r.pick(&TEXTS).to_string()]),
                4 => if r.chance(1, 2) { ("DisplayRotation", vec![r.pick(&["0", "-12.5", "90.00000", "359.999", "0012"]).to_string()]) } else {
                    ("WINDOWAREA", (0..4).map(|i| if r.chance(1, 3) { format!("{}{:03}.{:02}.{:02}.{:03}", if i % 2 == 0 { r.pick(&["N", "S"]) } else { r.pick(&["E", "W"]) }, r.below(180), r.below(60), r.below(60), r.below(1000)) } else { format!("{:.6}", r.f() * 100.0 - 50.0) }).collect()) },
                5 => ("PLUGIN", vec![r.pick(&["TopSky plugin", "x", "GRplugin"]).to_string(), r.pick(&["HideMapData", "k", "AUTORUN", ""]).to_string(), r.pick(&TEXTS).to_string()]),
                6 => ("Runways", vec![r.pick(&["EDDM Munchen", "EDDF", "ED DM", "x", "EDDM 0"]).to_string(), r.pick(&["08L", "26", "07C"]).to_string(), r.pick(&["26R", "08", "25G"]).to_string(), r.pick(&["centerline", "name", "extended centerline 1", "extended centerline 2 left ticks", "name"]).to_string()]),
                7 => ("Free Text", vec![nice(r), nice(r)]),
                8 => ("Regions", vec![nice(r)]),
                9 => (*r.pick(&PLAIN), vec![nice(r)]),
                _ => { let h = *r.pick(&NAMED); (h, vec![nice(r), r.pick(ways(h)).to_string()]) }
            };
            Line { head: h.to_string(), parts: p }
        }).collect();
        Case { lines, crlf: r.chance(1, 3), open: r.chance(1, 4), lead: r.chance(1, 6) }
    }
    fn check(c: &Case) -> Res {
        let nl = if c.crlf { "\r\n" } else { "\n" };
        let t = format!("{}{}{}", if c.lead { nl } else { "" }, c.lines.iter().enumerate().map(|(i, l)| if i % 7 == 6 { format!("{nl}{}", text(l)) } else { text(l) }).collect::<Vec<_>>().join(nl), if c.open { "" } else { nl });
        let a = Asr::parse(t.as_bytes()).map_err(|e| format!("display settings do not read: {e}"))?;
        let first = |h: &str| c.lines.iter().find(|l| l.head == h).map(|l| l.parts[0].as_str());
        fn num<T: std::str::FromStr>(c: &Case, h: &str) -> Option<T> { c.lines.iter().filter(|l| l.head == h).find_map(|l| l.parts[0].parse().ok()) }
        macro_rules! same { ($($w:literal, $g:expr, $e:expr;)*) => { $( let (g, e) = ($g, $e); if g != e { return Err(format!("{} is {g:?}, the file says {e:?}", $w)); } )* } }
        let flag = |h: &str, d: bool| first(h).map_or(d, |v| v == "1");
        let limit = |h: &str| num::<u32>(c, h).filter(|n| *n != 0);
        same! {
            "the upper filter", a.above, limit("ABOVE");
            "the lower filter", a.below, limit("BELOW");
            "disabled panning", a.disable_panning, flag("DISABLEPANNING", false);
            "disabled zooming", a.disable_zooming, flag("DISABLEZOOMING", false);
            "the rotation", a.display_rotation, first("DisplayRotation").map_or(0.0, |v| v.parse().unwrap());
            "the display type", a.display_type, if first("DisplayTypeName") == Some("Ground Radar display") { DisplayType::GroundRadar } else { DisplayType::Radar };
            "geo reference", a.display_type_geo_referenced, flag("DisplayTypeGeoReferenced", true);
            "radar content", a.display_type_need_radar_content, flag("DisplayTypeNeedRadarContent", true);
            "history dots", a.history_dots, num::<u8>(c, "HISTORY_DOTS").unwrap_or(5);
            "the leader", a.leader, num::<i8>(c, "LEADER").map_or(Leader::Minutes(3), |n| if n > 0 { Leader::Miles(n as u8) } else { Leader::Minutes((-i32::from(n)) as u8) });
            "the sector file", a.sector_file.as_str(), first("SECTORFILE").unwrap_or("");
            "the sector title", a.sector_title.as_str(), first("SECTORTITLE").unwrap_or("");
            "shown leader", a.show_leader, flag("SHOWLEADER", false);
            "shown C", a.show_c, flag("SHOWC", true);
            "shown standby", a.show_standby, flag("SHOWSB", false);
            "the simulation mode", a.simulation_mode, if first("SIMULATION_MODE") == Some("4") { SimulationMode::Ground } else { SimulationMode::Radar };
            "the tag family", a.tag_family.as_str(), first("TAGFAMILY").unwrap_or("Matias (built in)");
            "the turn leader", a.turn_leader, flag("TURNLEADER", false);
        }
        if let Some(l) = c.lines.iter().find(|l| l.head == "WINDOWAREA") {
            let w: Vec<f64> = l.parts.iter().map(|p| coord(p)).collect();
            let g = [a.window_area.0.y, a.window_area.0.x, a.window_area.1.y, a.window_area.1.x];
            if g.iter().zip(&w).any(|(x, y)| (x - y).abs() > 1e-9) { return Err(format!("the window area (lat, lng, lat, lng) is {g:?}, the file says {w:?}")); }
        }
        let mut set: BTreeMap<(&str, &str), &str> = BTreeMap::new();
        for l in c.lines.iter().filter(|l| l.head == "PLUGIN") { set.insert((&l.parts[0], &l.parts[1]), &l.parts[2]); }
        let got: BTreeMap<(&str, &str), &str> = a.plugin_settings.0.iter().map(|((p, k), v)| ((p.as_str(), k.as_str()), v.as_str())).collect();
        if got != set { return Err(format!("the plugin settings are {got:?}, the file says {set:?}")); }
        let mut m = AsrMap::default();
        let (fix, nav, way, net) = (|s: &str| if s == "name" { AsrMapFixType::Name } else { AsrMapFixType::Symbol }, |s: &str| match s { "name" => AsrMapNavaidType::Name, "symbol" => AsrMapNavaidType::Symbol, _ => AsrMapNavaidType::Frequency }, |s: &str| if s == "name" { AsrMapAirwayType::Name } else { AsrMapAirwayType::Line }, |s: &str| match s { "exit" => AsrMapGroundNetworkType::Exit, "taxiway" => AsrMapGroundNetworkType::Taxiway, _ => AsrMapGroundNetworkType::TerminalTaxiway });
        for l in &c.lines {
            let p = &l.parts;
            let n = || p[0].clone();
            match l.head.as_str() {
                "Runways" => match p[3].as_str() { "centerline" => m.runways.push((n(), p[1].clone(), p[2].clone(), AsrMapRunwayType::Centreline)), "name" => m.runways.push((n(), p[1].clone(), p[2].clone(), AsrMapRunwayType::Name)), _ => {} },
                "Airports" => m.airports.push((n(), fix(&p[1]))), "Fixes" => m.fixes.push((n(), fix(&p[1]))),
                "VORs" => m.vors.push((n(), nav(&p[1]))), "NDBs" => m.ndbs.push((n(), nav(&p[1]))),
                "Low airways" => m.low_airways.push((n(), way(&p[1]))), "High airways" => m.high_airways.push((n(), way(&p[1]))),
                "Ground Network" => m.ground_network.push((n(), net(&p[1]))),
                "Sids" => m.sids.push(n()), "Stars" => m.stars.push(n()), "Geo" => m.geo.push(n()), "Regions" => m.regions.push(n()),
                "ARTCC boundary" => m.artcc_boundary.push(n()), "ARTCC low boundary" => m.artcc_low_boundary.push(n()), "ARTCC high boundary" => m.artcc_high_boundary.push(n()),
                "Free Text" => m.free_text.push((n(), p[1].clone())),
                _ => {}
            }
        }
        if a.map != m { return Err(format!("the map elements are {:?}, the file says {m:?}", a.map)); }
        Ok(if c.lines.len() > 1 { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in drop_one(&c.lines) { if !s.is_empty() { v.push(Case { lines: s, ..c.clone() }); } }
        if c.crlf || c.open || c.lead { v.push(Case { crlf: false, open: false, lead: false, ..c.clone() }); }
        v
    }
}
