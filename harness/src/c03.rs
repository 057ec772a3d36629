//! C03: what a waypoint name stands for.
use crate::c04::spell;
use crate::ctx::*;
use geo::{Coord, Destination as _, Geodesic, Point};
use serde::{Deserialize, Serialize};
use vatsim_parser::adaptation::locations::{Airport, Fix, GraphPosition, Locations, Runway, NDB, VOR};
use vatsim_parser::Location;

/// milliseconds of arc: latitude, longitude
type P = (i32, i32);
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { vors: Vec<(String, P)>, ndbs: Vec<(String, P)>, fixes: Vec<(String, P)>, airports: Vec<(String, P)>, runways: Vec<(String, String, String, P, P)>, file: bool, ask: Vec<String>, near: Vec<(String, P)> }
fn pt(p: P) -> Point { Point(Coord { x: f64::from(p.1) / 3_600_000.0, y: f64::from(p.0) / 3_600_000.0 }) }
fn text(p: P) -> String { let f = |v: i32, n, s| { let a = v.abs(); format!("{}{:03}.{:02}.{:02}.{:03}", if v < 0 { s } else { n }, a / 3_600_000, a / 60_000 % 60, a / 1000 % 60, a % 1000) }; format!("{} {}", f(p.0, 'N', 'S'), f(p.1, 'E', 'W')) }
const NAMES: [&str; 15] = ["AAA", "BBB", "EDDM", "EDDF", "EDDM08L", "EDDM26", "EDDF08", "EDDF08L", "12N012E", "48N012E", "AAA090010", "BB", "EDDMX", "BBBAAA", "A1B2C3000"];
const RWY: [&str; 6] = ["08L", "26", "08", "26R", "09", "27"];
fn build(c: &Case) -> Result<Locations, String> {
    if c.file {
        let mut t = INFO.to_string();
        let mut sec = |n: &str, ls: Vec<String>| { if !ls.is_empty() { t.push_str(&format!("[{n}]\n")); for l in ls { t.push_str(&l); t.push('\n'); } } };
        sec("VOR", c.vors.iter().map(|(n, p)| format!("{n} 110.000 {}", text(*p))).collect());
        sec("NDB", c.ndbs.iter().map(|(n, p)| format!("{n} 350.000 {}", text(*p))).collect());
        sec("FIXES", c.fixes.iter().map(|(n, p)| format!("{n} {}", text(*p))).collect());
        sec("AIRPORT", c.airports.iter().map(|(n, p)| format!("{n} 000.000 {} D", text(*p))).collect());
        sec("RUNWAY", c.runways.iter().map(|(a, x, y, p, q)| format!("{x} {y} 080 260 {} {} {a} x", text(*p), text(*q))).collect());
        return adaptation(&Files { sct: Some(t), ..Files::default() }).map(|a| a.locations);
    }
    let mut l = Locations::default();
    for (n, p) in &c.vors { l.vors.insert(n.clone(), VOR { designator: n.clone(), frequency: String::new(), coordinate: pt(*p) }); }
    for (n, p) in &c.ndbs { l.ndbs.insert(n.clone(), NDB { designator: n.clone(), frequency: String::new(), coordinate: pt(*p) }); }
    for (n, p) in &c.fixes { l.fixes.insert(n.clone(), Fix { designator: n.clone(), coordinate: pt(*p) }); }
    for (n, p) in &c.airports {
        let runways = c.runways.iter().filter(|r| r.0 == *n).map(|r| Runway { designators: (r.1.clone(), r.2.clone()), headings: (80, 260), location: (pt(r.3), pt(r.4)), aerodrome: n.clone() }).collect();
        l.airports.insert(n.clone(), Airport { designator: n.clone(), coordinate: pt(*p), name: None, country: None, runways });
    }
    Ok(l)
}
fn known(c: &Case, q: &str) -> Option<Point> {
    for set in [&c.vors, &c.ndbs, &c.fixes, &c.airports] { if let Some(e) = set.iter().find(|e| e.0 == q) { return Some(pt(e.1)); } }
    if !(6..=7).contains(&q.len()) || !q.is_char_boundary(4) { return None; }
    let (a, d) = q.split_at(4);
    if !c.airports.iter().any(|x| x.0 == a) { return None; }
    c.runways.iter().filter(|r| r.0 == a).find_map(|r| if r.1 == d { Some(pt(r.3)) } else if r.2 == d { Some(pt(r.4)) } else { None })
}
fn resolve(c: &Case, q: &str) -> Option<(String, Point)> {
    if let Some(p) = known(c, q) { return Some((q.to_string(), p)); }
    if let Some((n, la, lo)) = spell(q) { return Some((n, Point(Coord { x: lo, y: la }))); }
    let ok = |t: &str| t.bytes().all(|b| b.is_ascii_digit());
    if (8..=11).contains(&q.len()) && q.bytes().all(|b| b.is_ascii_digit() || b.is_ascii_uppercase()) && ok(&q[q.len() - 6..]) {
        let base = known(c, &q[..q.len() - 6])?;
        let bearing: f64 = q[q.len() - 6..q.len() - 3].parse().unwrap();
        let range: f64 = q[q.len() - 3..].parse().unwrap();
        return Some((q.to_string(), Geodesic.destination(base, bearing, range * 1852.0)));
    }
    None
}
fn pos(r: &mut Rng, old: &mut Vec<P>) -> P {
    if !old.is_empty() && r.chance(1, 2) { let p = *r.pick(old); return match r.below(5) { 0 => (p.0 + 1, p.1), 1 => (p.0, p.1 + 4), 2 => (p.0 + 4, p.1), 3 => (p.1 / 2, p.0), _ => p }; }
    let p = (r.range(-80 * 3_600_000, 80 * 3_600_000) as i32, r.range(-170 * 3_600_000, 170 * 3_600_000) as i32);
    old.push(p); p
}
fn close(a: Point, b: Point, e: f64) -> bool { (a.x() - b.x()).abs() <= e && (a.y() - b.y()).abs() <= e }
pub struct C03;
impl Prop for C03 {
    const ID: &'static str = "C03";
    const RULE: &'static str = "sets of VORs, NDBs, fixes, airports and runways drawn from few names (names that look like thresholds, coordinates and range/bearings, and duplicates at equal, near and different places), given directly or through a sector file; every name, threshold, range/bearing, coordinate and near miss is asked for";
    type Case = Case;
    fn gen(r: &mut Rng, size: usize) -> Case {
        let mut old = vec![];
        let set = |r: &mut Rng, old: &mut Vec<P>| -> Vec<(String, P)> { (0..r.below(size.min(6) + 1)).map(|_| (r.pick(&NAMES).to_string(), pos(r, old))).collect() };
        let (vors, ndbs, fixes) = (set(r, &mut old), set(r, &mut old), set(r, &mut old));
        let mut airports = set(r, &mut old);
        let mut seen = vec![];
        airports.retain(|a| { let n = !seen.contains(&a.0); seen.push(a.0.clone()); n });
        let runways: Vec<_> = (0..r.below(5)).map(|_| (r.pick(&["EDDM", "EDDF", "BB"]).to_string(), r.pick(&RWY).to_string(), r.pick(&RWY).to_string(), pos(r, &mut old), pos(r, &mut old))).collect();
        let mut ask: Vec<String> = NAMES.map(String::from).to_vec();
        for _ in 0..12 {
            let n = r.pick(&NAMES).to_string();
            ask.push(match r.below(8) {
                0 | 1 => format!("{}{}", r.pick(&["EDDM", "EDDF", "EDDK", "AAA", "ED"]), r.pick(&RWY)),
                2 | 3 => { let m = if r.chance(1, 6) { 1000 } else { 361 }; format!("{n}{:03}{:03}", r.below(m), r.below(1000)) }
                4 => format!("{:02}{}{:03}{}", r.below(100), r.pick(&["N", "S"]), r.below(200), r.pick(&["E", "W"])),
                5 => n.to_lowercase(),
                6 => r.pick(&["EDDÜ08", "EDÜ08L", "", "Ü", "AAA٠٩٠٠١٠", "EDDM08L ", "AAA 090010", "AAA09001", "AAA0900100", "EDDMÜ8", "EDDM0", "EDDM08LR"]).to_string(),
                _ => { let k = r.below(n.len()); format!("{}{}", &n[..k], &n[k + 1..]) }
            });
        }
        let all: Vec<(String, P)> = vors.iter().chain(&ndbs).chain(&fixes).chain(&airports).cloned().collect();
        let near = (0..10).map(|_| { let n = r.pick(&NAMES).to_string(); if all.is_empty() || r.chance(1, 4) { (n, pos(r, &mut old)) } else { let e = r.pick(&all).clone(); match r.below(4) { 0 => (n, e.1), 1 => (e.0, pos(r, &mut old)), _ => e } } }).collect();
        Case { vors, ndbs, fixes, airports, runways, file: r.chance(1, 8), ask, near }
    }
    fn check(c: &Case) -> Res {
        let l = build(c).map_err(|e| format!("sector file does not read: {e}"))?;
        let mut seen = false;
        for q in &c.ask {
            let want = resolve(c, q);
            let got = l.convert_designator(q);
            match (&got, &want) {
                (None, None) => {}
                (Some(f), Some((n, p))) if f.designator == *n && close(f.coordinate, *p, 1e-9) => { seen = true; }
                _ => return Err(format!("{q:?} resolves to {got:?}, expected {want:?}")),
            }
            let k = known(c, q).is_some();
            if l.contains_designator(q) != k { return Err(format!("{q:?} reported known: {}, expected {k}", !k)); }
            let by = l.convert_location(&Location::Fix(q.clone()));
            if by != got.as_ref().map(|f| f.coordinate) { return Err(format!("location {q:?} lies at {by:?}, but the name resolves to {got:?}")); }
        }
        for (n, p) in &c.near {
            let cell = |p: &Point| ((p.x() * 1e6).round() as i64, (p.y() * 1e6).round() as i64);
            let want = [&c.vors, &c.ndbs, &c.fixes].iter().any(|s| s.iter().any(|e| e.0 == *n && cell(&pt(e.1)) == cell(&pt(*p))));
            if l.contains_nav_element(n, GraphPosition(pt(*p))) != want && !(c.file) { return Err(format!("{n:?} at {p:?} reported: {}, expected {want}", !want)); }
            // through a file the position is off by the last bits of its decimal value
            let same = [&c.vors, &c.ndbs, &c.fixes].iter().any(|s| s.iter().any(|e| e == &(n.clone(), *p)));
            if c.file && same && [-1e-9, 0.0, 1e-9].iter().all(|d| [-1e-9, 0.0, 1e-9].iter().all(|e| !l.contains_nav_element(n, GraphPosition(Point(Coord { x: pt(*p).x() + d, y: pt(*p).y() + e }))))) { return Err(format!("{n:?} at {p:?} not reported, expected")); }
            if l.convert_location(&Location::Coordinate(pt(*p))) != Some(pt(*p)) { return Err(format!("coordinate location {p:?} moved")); }
        }
        Ok(if seen { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o = vec![];
        for v in drop_one(&c.ask) { o.push(Case { ask: v, ..c.clone() }); }
        for v in drop_one(&c.near) { o.push(Case { near: v, ..c.clone() }); }
        for v in drop_one(&c.vors) { o.push(Case { vors: v, ..c.clone() }); }
        for v in drop_one(&c.ndbs) { o.push(Case { ndbs: v, ..c.clone() }); }
        for v in drop_one(&c.fixes) { o.push(Case { fixes: v, ..c.clone() }); }
        for v in drop_one(&c.airports) { o.push(Case { airports: v, ..c.clone() }); }
        for v in drop_one(&c.runways) { o.push(Case { runways: v, ..c.clone() }); }
        o
    }
}
