//! C18: reference tables and the merge of airport data.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vatsim_parser::adaptation::icao::{AircraftType, EngineType, Wtc};

/// a record: key and four texts (their meaning depends on the table)
pub type Rec = (String, String, String, String);
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Line { Rec(Rec), Comment(String), Blank, More(String) }
/// designator, latitude and longitude in degrees
type Spot = (String, i32, i32);
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { aircraft: Vec<Line>, airlines: Vec<Line>, airports: Vec<Line>, navdata: Vec<Line>, sct: Vec<Spot>, runways: Vec<(String, String, String)>, crlf: bool, open: bool, full: bool }

const AC: [&str; 7] = ["A320", "B738", "A32", "A388", "ZZZZ", "1", "C172"];
const AL: [&str; 5] = ["DLH", "BAW", "AAA", "DLA", "ABC"];
const AP: [&str; 8] = ["EDDM", "EDDF", "EDD", "EDDN", "LOWW", "XX12", "ED01", "EDDMX"];
const TX: [&str; 12] = ["MUNICH", "Germany", "A320", "x  y", "München", "a;b", "(C98, U27)", "OOSTENDE BRUGGE/OOSTENDE", "-", "EDDM", "a//b", "1.5"];
const CODE: [&str; 12] = ["L2J", "L4J", "S1P", "A2T", "H1T", "T2T", "G1P", "L1E", "L1R", "LCT", "---", "L9J"];
fn desc(r: &mut Rng) -> String { format!("{}{}", r.pick(&["L", "M", "H", "J", "-"]), r.pick(&CODE)) }
fn dec(r: &mut Rng, max: i64) -> String { let d = r.range(-max, max); match r.below(4) { 0 => format!("{d}"), 1 => format!("{d}.5"), 2 => format!("{d}.1234560"), _ => format!("{d}.0") } }
fn lines(r: &mut Rng, s: usize, more: bool, mut rec: impl FnMut(&mut Rng) -> Rec) -> Vec<Line> {
    let n = r.below(s) + 1;
    let mut v: Vec<Line> = (0..n).map(|_| match r.below(12) { 0 => Line::Comment(format!("{}{}", r.pick(&[";", "//", ";="]), r.pick(&TX))), 1 => Line::Blank, 2 if more => Line::More(format!("{} continued", r.pick(&TX))), _ => Line::Rec(rec(r)) }).collect();
    if !v.iter().any(|l| matches!(l, Line::Rec(_))) { v.push(Line::Rec(rec(r))); }
    // a continued name follows a record
    if matches!(v[0], Line::More(_)) { v.remove(0); }
    v
}
fn text(v: &[Line], c: &Case, rec: impl Fn(&Rec) -> String) -> String {
    let nl = if c.crlf { "\r\n" } else { "\n" };
    let t = v.iter().map(|l| match l { Line::Rec(r) => rec(r), Line::Comment(t) | Line::More(t) => t.clone(), Line::Blank => String::new() }).collect::<Vec<_>>().join(nl);
    if c.open { t } else { t + nl }
}
/// the first record of every key
fn first(v: &[Line]) -> HashMap<&str, &Rec> { let mut m = HashMap::new(); for l in v { if let Line::Rec(r) = l { m.entry(r.0.as_str()).or_insert(r); } } m }
fn same<V>(what: &str, got: &HashMap<String, V>, want: &HashMap<&str, &Rec>, eq: impl Fn(&V, &Rec) -> bool, show: impl Fn(&V) -> String) -> Result<(), String> {
    for (k, w) in want { match got.get(*k) { None => return Err(format!("{what} {k} of the file is missing")), Some(g) => if !eq(g, w) { return Err(format!("{what} {k} reads {}, its first record is {w:?}", show(g))); } } }
    for k in got.keys() { if !want.contains_key(k.as_str()) { return Err(format!("{what} {k:?} is not in the file")); } }
    Ok(())
}
fn sct_text(c: &Case) -> String {
    let p = |la: i32, lo: i32| format!("{}{:03}.00.00.000 {}{:03}.00.00.000", if la < 0 { "S" } else { "N" }, la.abs(), if lo < 0 { "W" } else { "E" }, lo.abs());
    let mut t = INFO.to_string();
    if !c.sct.is_empty() { t += "[AIRPORT]\n"; for s in &c.sct { t += &format!("{} 000.000 {} D\n", s.0, p(s.1, s.2)); } }
    if !c.runways.is_empty() { t += "[RUNWAY]\n"; for (i, r) in c.runways.iter().enumerate() { t += &format!("{} {} 080 260 {} {} {} x\n", r.1, r.2, p(i as i32, 1), p(i as i32, 2), r.0); } }
    t
}
pub struct C18;
impl Prop for C18 {
    const ID: &'static str = "C18";
    const RULE: &'static str = "aircraft, airline, airport and navigation-data files of up to 12 lines over few keys (duplicates with different data, comments, blank and continued lines, either line ending, with and without a final one), alone and merged with sector files naming airports and runways in every combination of the sources";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        // every combination of the three sources for two airports
        if i >= 64 { return None; }
        let ap = ["EDDM", "EDDF"];
        let rec = |k: &str, n: &str| Line::Rec((k.into(), format!("{n} {k}"), "Land".into(), String::new()));
        let bit = |b: u64| i >> b & 1 == 1;
        let some = |b: u64, n: &str| { let mut v: Vec<Line> = (0..2).filter(|k| bit(b + k)).map(|k| rec(ap[k as usize], n)).collect(); v.push(rec("ZZZZ", n)); v };
        let nav = (0..2).filter(|k| bit(2 + k)).map(|k| Line::Rec((ap[k as usize].into(), "10.5".into(), "-20.25".into(), format!("NAV {}", ap[k as usize])))).chain([Line::Comment("; x".into())]).collect();
        Some(Case { aircraft: vec![Line::Rec(("A320".into(), "ML2J".into(), "AIRBUS".into(), "A-320".into()))], airlines: vec![Line::Rec(("DLH".into(), "L".into(), "H".into(), "G".into()))], airports: some(4, "ICAO"), navdata: nav,
            sct: (0..2).filter(|k| bit(*k)).map(|k| (ap[k as usize].to_string(), 48 + k as i32, -11)).collect(), runways: vec![("EDDM".into(), "08L".into(), "26R".into()), ("EDDF".into(), "07".into(), "25".into()), ("EDDM".into(), "08R".into(), "26L".into())], crlf: false, open: false, full: true })
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        let s = s.min(12);
        let t = |r: &mut Rng| r.pick(&TX).to_string();
        let aircraft = lines(r, s, true, |r| (r.pick(&AC).to_string(), desc(r), t(r), t(r)));
        let airlines = lines(r, s, false, |r| (r.pick(&AL).to_string(), t(r), t(r), t(r)));
        let airports = lines(r, s, false, |r| (r.pick(&AP).to_string(), t(r), t(r), String::new()));
        let navdata = lines(r, s, false, |r| (r.pick(&AP).to_string(), dec(r, 89), dec(r, 179), t(r)));
        let mut sct: Vec<Spot> = (0..r.below(s + 1)).map(|_| (r.pick(&AP[..5]).to_string(), r.range(-89, 89) as i32, r.range(-179, 179) as i32)).collect();
        sct.retain(|x| x.0.len() == 4);
        let runways = (0..r.below(6)).map(|_| (r.pick(&["EDDM", "EDDF", "EDDN", "LOWW", "KJFK"]).to_string(), r.pick(&["08L", "08R", "07"]).to_string(), r.pick(&["26R", "26L", "25"]).to_string())).collect();
        Case { aircraft, airlines, airports, navdata, sct, runways, crlf: r.chance(1, 4), open: r.chance(1, 4), full: r.chance(1, 3) }
    }
    fn check(c: &Case) -> Res {
        let ac = text(&c.aircraft, c, |r| format!("{}\t{}\t{}\t{}", r.0, r.1, r.2, r.3));
        let al = text(&c.airlines, c, |r| format!("{}\t{}\t{}\t{}", r.0, r.1, r.2, r.3));
        let ap = text(&c.airports, c, |r| format!("{}\t{}\t{}", r.0, r.1, r.2));
        let nv = text(&c.navdata, c, |r| format!("{}\t{}  {}    {}", r.0, r.1, r.2, r.3));
        let (wac, wal, wap, wnv) = (first(&c.aircraft), first(&c.airlines), first(&c.airports), first(&c.navdata));
        let gac = vatsim_parser::icao_aircraft::parse_aircraft(ac.as_bytes()).map_err(|e| format!("aircraft file does not read: {e}"))?;
        let gal = vatsim_parser::icao_airlines::parse_airlines(al.as_bytes()).map_err(|e| format!("airline file does not read: {e}"))?;
        let gap = vatsim_parser::icao_airports::parse_airports(ap.as_bytes()).map_err(|e| format!("airport file does not read: {e}"))?;
        let gnv = vatsim_parser::navdata_airports::parse_navdata_airports(nv.as_bytes()).map_err(|e| format!("navigation data does not read: {e}"))?;
        let eq_ac = |g: &vatsim_parser::adaptation::icao::Aircraft, w: &Rec| {
            let b = w.1.as_bytes();
            g.designator == w.0 && g.manufacturer == w.2 && g.name == w.3
                && g.wtc == match b[0] { b'L' => Wtc::LIGHT, b'M' => Wtc::MEDIUM, b'H' => Wtc::HEAVY, b'J' => Wtc::SUPER, _ => Wtc::UNKNOWN }
                && g.aircrafttype == match b[1] { b'L' => AircraftType::LANDPLANE, b'S' => AircraftType::SEAPLANE, b'A' => AircraftType::AMPHIBIAN, b'G' => AircraftType::GYROCOPTER, b'H' => AircraftType::HELICOPTER, b'T' => AircraftType::TILTROTOR, _ => AircraftType::UNKNOWN }
                && g.num_engines == if b[2].is_ascii_digit() { b[2] - b'0' } else { 0 }
                && g.enginetype == match b[3] { b'J' => EngineType::JET, b'T' => EngineType::TURBOPROP, b'P' => EngineType::PISTON, b'E' => EngineType::ELECTRIC, b'R' => EngineType::ROCKET, _ => EngineType::UNKNOWN }
        };
        let eq_al = |g: &vatsim_parser::icao_airlines::Airline, w: &Rec| g.designator == w.0 && g.name == w.1 && g.callsign == w.2 && g.country == w.3;
        same("aircraft", &gac.0, &wac, eq_ac, |g| format!("{g:?}"))?;
        same("airline", &gal, &wal, eq_al, |g| format!("{g:?}"))?;
        same("airport", &gap, &wap, |g, w| g.designator == w.0 && g.name == w.1 && g.country == w.2, |g| format!("{g:?}"))?;
        let at = |w: &Rec| (w.1.parse::<f64>().unwrap(), w.2.parse::<f64>().unwrap());
        same("navigation airport", &gnv, &wnv, |g, w| g.designator == w.0 && g.name == w.3 && (g.location.y(), g.location.x()) == at(w), |g| format!("{g:?}"))?;
        if !c.full { return Ok(Out::Ok); }
        let a = adaptation(&Files { sct: Some(sct_text(c)), aircraft: Some(ac), airlines: Some(al), airports: Some(ap), navdata: Some(nv), ..Files::default() })?;
        same("aircraft of the adaptation", &a.aircraft.0, &wac, eq_ac, |g| format!("{g:?}"))?;
        same("airline of the adaptation", &a.airlines, &wal, eq_al, |g| format!("{g:?}"))?;
        for k in a.locations.airports.keys() { if !c.sct.iter().any(|s| s.0 == *k) && !wnv.contains_key(k.as_str()) { return Err(format!("airport {k} is in no source with positions")); } }
        for k in c.sct.iter().map(|s| s.0.as_str()).chain(wnv.keys().copied()) {
            let Some(g) = a.locations.airports.get(k) else { return Err(format!("airport {k} is missing")); };
            let at_sct: Vec<(f64, f64)> = c.sct.iter().filter(|s| s.0 == k).map(|s| (f64::from(s.1), f64::from(s.2))).collect();
            let here = (g.coordinate.y(), g.coordinate.x());
            if g.designator != k { return Err(format!("airport {k} is called {}", g.designator)); }
            if at_sct.is_empty() { if here != at(wnv[k]) { return Err(format!("airport {k} is at {here:?}, the navigation data says {:?}", at(wnv[k]))); } }
            else if !at_sct.contains(&here) { return Err(format!("airport {k} is at {here:?}, the sector file says {at_sct:?}")); }
            let rw: Vec<(f64, &str, &str)> = g.runways.iter().map(|r| (r.location.0.y(), r.designators.0.as_str(), r.designators.1.as_str())).collect();
            let want: Vec<(f64, &str, &str)> = c.runways.iter().enumerate().filter(|(_, r)| r.0 == k && !at_sct.is_empty()).map(|(i, r)| (i as f64, r.1.as_str(), r.2.as_str())).collect();
            if rw != want { return Err(format!("airport {k} has the runways {rw:?}, the sector file says {want:?}")); }
            let name = wnv.get(k).map(|w| w.3.as_str()).or(wap.get(k).map(|w| w.1.as_str()));
            if g.name.as_deref() != name { return Err(format!("airport {k} is named {:?}, expected {name:?}", g.name)); }
            let country = wap.get(k).map(|w| w.2.as_str());
            if g.country.as_deref() != country { return Err(format!("airport {k} is in {:?}, expected {country:?}", g.country)); }
        }
        Ok(Out::Ok)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o = vec![];
        if c.full { o.push(Case { full: false, ..c.clone() }); }
        if c.crlf { o.push(Case { crlf: false, ..c.clone() }); }
        if c.open { o.push(Case { open: false, ..c.clone() }); }
        let ok = |v: &Vec<Line>| v.iter().any(|l| matches!(l, Line::Rec(_))) && !matches!(v[0], Line::More(_));
        for v in drop_one(&c.aircraft) { if ok(&v) { o.push(Case { aircraft: v, ..c.clone() }); } }
        for v in drop_one(&c.airlines) { if ok(&v) { o.push(Case { airlines: v, ..c.clone() }); } }
        for v in drop_one(&c.airports) { if ok(&v) { o.push(Case { airports: v, ..c.clone() }); } }
        for v in drop_one(&c.navdata) { if ok(&v) { o.push(Case { navdata: v, ..c.clone() }); } }
        for v in drop_one(&c.sct) { o.push(Case { sct: v, ..c.clone() }); }
        for v in drop_one(&c.runways) { o.push(Case { runways: v, ..c.clone() }); }
        o
    }
}
