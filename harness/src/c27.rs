//! C27: SID and STAR routes of the ESE file.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vatsim_parser::adaptation::locations::Fix;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Route { sid: bool, airport: String, runway: Option<String>, name: String, points: Vec<String>, before: String }
/// name, minutes of arc north and east, table
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { routes: Vec<Route>, spots: Vec<(String, i32, i32, u8)>, crlf: bool, open: bool }
const AIRPORTS: [&str; 6] = ["EDDM", "EDDF", "EDDMX", "LOWW", "EDM", "9999"];
const NAMES: [&str; 10] = ["BETOS1A", "BETOS 1A", "betos1a", "BETOS1AX", "x/y", "INPUD1S", "ÄÖ", "1", "SID", "BETOS1A;1"];
const RWYS: [&str; 7] = ["08L", "26R", "08", "26", "08R", "17C", "04G"];
const POINTS: [&str; 16] = ["AAA", "BBB", "BETOS", "DM061", "EDDM", "EDDF", "EDDM08L", "NOPE", "4810N01135E", "AAA090020", "BETO", "EDDK", "B-1", "48N012E", "99N012E", "NOP090020"];

fn dms(v: i32, p: char, n: char) -> String { format!("{}{:03}.{:02}.00.000", if v < 0 { n } else { p }, v.abs() / 60, v.abs() % 60) }
fn files(c: &Case) -> Files {
    let mut t = INFO.to_string();
    for (k, h) in [(0u8, "[VOR]"), (1, "[NDB]"), (2, "[FIXES]"), (3, "[AIRPORT]")] {
        let s: Vec<_> = c.spots.iter().filter(|s| s.3 == k).collect();
        if s.is_empty() { continue; }
        t += &format!("{h}\n");
        for s in s { let p = format!("{} {}", dms(s.1, 'N', 'S'), dms(s.2, 'E', 'W')); t += &match k { 0 | 1 => format!("{} 110.000 {p}\n", s.0), 2 => format!("{} {p}\n", s.0), _ => format!("{} 000.000 {p} D\n", s.0) }; }
    }
    if c.spots.iter().any(|s| s.0 == "EDDM" && s.3 == 3) { t += "[RUNWAY]\n08L 26R 080 260 N048.20.00.000 E011.40.00.000 N048.20.30.000 E011.45.00.000 EDDM x\n"; }
    let nl = if c.crlf { "\r\n" } else { "\n" };
    let mut e = format!("[SIDSSTARS]{nl}");
    for r in &c.routes {
        e += &r.before.replace('\n', nl);
        e += &format!("{}:{}:{}:{}:{}{nl}", if r.sid { "SID" } else { "STAR" }, r.airport, r.runway.as_deref().unwrap_or(""), r.name, r.points.join(" "));
    }
    if c.open { while e.ends_with(['\r', '\n']) { e.pop(); } e += nl; }
    Files { sct: Some(t), ese: Some(e), ..Files::default() }
}
type View = BTreeMap<(String, String), Vec<(Option<String>, Vec<Fix>)>>;
fn show(v: &[(Option<String>, Vec<Fix>)]) -> String { format!("{:?}", v.iter().map(|r| (&r.0, r.1.iter().map(|f| (f.designator.as_str(), f.coordinate.x(), f.coordinate.y())).collect::<Vec<_>>())).collect::<Vec<_>>()) }
fn exact(a: &[(Option<String>, Vec<Fix>)], b: &[(Option<String>, Vec<Fix>)]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.0 == y.0 && x.1.len() == y.1.len() && x.1.iter().zip(&y.1).all(|(p, q)| p.designator == q.designator && p.coordinate == q.coordinate)) }
pub struct C27;
impl Prop for C27 {
    const ID: &'static str = "C27";
    const RULE: &'static str = "ESE files of up to 10 SID and STAR lines over few airports, runways and names (several routes of a name, names of both kinds, routes without runway or points, comments and blank lines between, either line ending), their points drawn from names of all four tables, coordinates, thresholds, range/bearings and unknown names, with sector files defining random subsets of them";
    type Case = Case;
    fn gen(r: &mut Rng, size: usize) -> Case {
        let few = r.chance(1, 2);
        let routes = (0..r.below(size.min(10)) + 1).map(|_| Route {
            sid: r.chance(1, 2), airport: if few { AIRPORTS[r.below(2)] } else { r.pick(&AIRPORTS) }.to_string(), runway: if r.chance(1, 4) { None } else { Some(r.pick(&RWYS).to_string()) },
            name: if few { NAMES[r.below(3)] } else { r.pick(&NAMES) }.to_string(),
            points: (0..r.below(7)).map(|_| r.pick(&POINTS).to_string()).collect(),
            before: match r.below(8) { 0 => "\n".into(), 1 => "; SID:EDDM:08L:X:AAA\n".into(), 2 => "\n\n ;x\n".into(), _ => String::new() },
        }).map(|mut x| { if x.name.contains(';') { x.name = "B_1".into(); } x }).collect();
        let spots = (0..r.below(10)).map(|_| { let k = r.below(4) as u8; (r.pick(if k == 3 { &["EDDM", "EDDF", "EDDK"] as &[&str] } else { &["AAA", "BBB", "BETOS", "DM061", "EDDM", "BETO"] }).to_string(), r.range(-80 * 60, 80 * 60) as i32, r.range(-170 * 60, 170 * 60) as i32, k) }).collect();
        Case { routes, spots, crlf: r.chance(1, 4), open: r.chance(1, 4) }
    }
    fn check(c: &Case) -> Res {
        let a = adaptation(&files(c)).map_err(|e| format!("the files are not accepted: {e}"))?;
        let l = &a.locations;
        let mut full = 0;
        for sid in [true, false] {
            let mut want: View = BTreeMap::new();
            for r in c.routes.iter().filter(|r| r.sid == sid) {
                let w: Vec<Fix> = r.points.iter().filter_map(|p| l.convert_designator(p)).collect();
                // a name of a table stands for itself
                for p in &r.points { if c.spots.iter().any(|s| s.0 == *p) && !w.iter().any(|f| f.designator == *p) { return Err(format!("{p} is in the sector file, but no waypoint")); } }
                if w.len() > 1 { full += 1; }
                want.entry((r.airport.clone(), r.name.clone())).or_default().push((r.runway.clone(), w));
            }
            let mut got: View = BTreeMap::new();
            let mut own = |ap: &String, n: &String, airport: &String, name: &String, runway: &Option<String>, w: &Vec<Fix>| { got.entry((ap.clone(), n.clone())).or_default().push((runway.clone(), w.clone())); if ap != airport || n != name { Err(format!("route {name} of {airport} is listed under {n} of {ap}")) } else { Ok(()) } };
            if sid { for (ap, m) in &l.sids { for (n, v) in m.iter_all() { for s in v { own(ap, n, &s.airport, &s.name, &s.runway, &s.waypoints)?; } } } }
            else { for (ap, m) in &l.stars { for (n, v) in m.iter_all() { for s in v { own(ap, n, &s.airport, &s.name, &s.runway, &s.waypoints)?; } } } }
            let kind = if sid { "SID" } else { "STAR" };
            for (k, w) in &want {
                match got.get(k) { None => return Err(format!("{kind} {} of {} is missing", k.1, k.0)), Some(g) => if !exact(g, w) { return Err(format!("{kind} {} of {} reads {}, the file says {}", k.1, k.0, show(g), show(w))); } }
            }
            for k in got.keys() { if !want.contains_key(k) { return Err(format!("{kind} {} of {} is not in the file", k.1, k.0)); } }
        }
        Ok(if full > 0 { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in drop_one(&c.routes) { v.push(Case { routes: s, ..c.clone() }); }
        for s in drop_one(&c.spots) { v.push(Case { spots: s, ..c.clone() }); }
        for (i, r) in c.routes.iter().enumerate() { for p in drop_one(&r.points) { let mut n = c.clone(); n.routes[i].points = p; v.push(n); } if !r.before.is_empty() { let mut n = c.clone(); n.routes[i].before.clear(); v.push(n); } }
        if c.crlf { v.push(Case { crlf: false, ..c.clone() }); }
        v
    }
}
