//! C29: controller positions of the ESE file.
use crate::c26::{coord, value, Dms};
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vatsim_parser::ese::Ese;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Pos { name: String, callsign: String, frequency: String, id: String, middle: String, prefix: String, suffix: String, unused: (String, String), squawks: Option<(u16, u16)>, points: Vec<(Dms, Dms)>, before: String }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { lines: Vec<Pos>, ahead: bool, after: bool, crlf: bool, whole: bool }
const IDS: [&str; 8] = ["MX", "ALB", "TEG", "A", "alb", "AL B", "", "Ä"];
const TEXTS: [&str; 9] = ["EDMM", "CTR", "", "ALB", "-", "Muenchen Radar", "EDMM_ALB_CTR", "N", "0000"];
const FREQS: [&str; 6] = ["129.100", "118.305", "199.998", "121.5", "122", "0.5"];
fn dms(r: &mut Rng, lat: bool) -> Dms { (r.chance(1, 3), r.below(if lat { 90 } else { 180 }) as u16, r.below(60) as u8, r.below(60000) as u32) }
fn text(c: &Case) -> String {
    let mut t: Vec<String> = vec![];
    if c.ahead { t.extend(["[AIRSPACE]", "SECTORLINE:L1", "COORD:N048.00.00.000:E011.00.00.000", ""].map(String::from)); }
    t.push("[POSITIONS]".into());
    for p in &c.lines {
        if !p.before.is_empty() { t.push(p.before.clone()); }
        let s = match p.squawks { Some((a, b)) => format!("{a:04}:{b:04}"), None => ":".to_string() };
        let mut l = [&p.name, &p.callsign, &p.frequency, &p.id, &p.middle, &p.prefix, &p.suffix, &p.unused.0, &p.unused.1].map(|s| s.as_str()).join(":") + ":" + &s;
        for q in &p.points { l += ":"; l += &coord(q); }
        t.push(l);
    }
    if c.after { t.extend(["", "[SIDSSTARS]", "SID:EDDM:26R:GIVMI1N:DM060 DM063 GIVMI", "[OTHER]", "A:B:118.000:MX:::::::"].map(String::from)); }
    t.join(if c.crlf { "\r\n" } else { "\n" }) + "\n"
}
fn want(p: &Pos) -> Vec<(f64, f64)> { p.points.iter().map(|q| (value(&q.0), value(&q.1))).collect() }
fn near(got: &[(f64, f64)], want: &[(f64, f64)]) -> bool { got.len() == want.len() && got.iter().zip(want).all(|(a, b)| (a.0 - b.0).abs() < 1e-9 && (a.1 - b.1).abs() < 1e-9) }
pub struct C29;
impl Prop for C29 {
    const ID: &'static str = "C29";
    const RULE: &'static str = "ESE files of up to 10 position lines over few identifiers (redefined, empty, similar), texts that look like other fields, with and without squawk range, with none to four visibility points, comments between, other sections around, either line ending; directly and through a whole adaptation";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        // one position: squawk range or not, every number of points, empty fields or not
        // (the grammar has room for three points where no range is given)
        if i >= 40 { return None; }
        if i % 2 == 1 && i / 2 % 5 == 4 { return Self::small(i - 1); }
        let e = i / 10 % 2 == 1;
        let t = |s: &str| if e { String::new() } else { s.to_string() };
        let p = |a: u16| ((false, 40 + a, 1, 500), (true, a, 2, 59999));
        Some(Case { lines: vec![Pos { name: t("EDMM_ALB_CTR"), callsign: t("Radar"), frequency: "129.100".into(), id: "ALB".into(), middle: t("A"), prefix: t("EDMM"), suffix: t("CTR"), unused: (t("-"), t("-")), squawks: if i % 2 == 0 { Some((2354, 2367)) } else { None }, points: (0..(i / 2 % 5) as u16).map(p).collect(), before: String::new() }], ahead: false, after: i >= 20, crlf: false, whole: true })
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        let n = r.below(s.min(10)) + 1;
        Case { lines: (0..n).map(|_| { let mut p = Pos {
            name: r.pick(&TEXTS).to_string(), callsign: r.pick(&TEXTS).to_string(), frequency: r.pick(&FREQS).to_string(), id: r.pick(&IDS).to_string(), middle: r.pick(&TEXTS).to_string(), prefix: r.pick(&TEXTS).to_string(), suffix: r.pick(&TEXTS).to_string(),
            unused: (r.pick(&["-", "", "EDDM"]).to_string(), r.pick(&["-", "", "08L"]).to_string()), squawks: if r.chance(1, 3) { None } else { Some((r.below(7778) as u16, r.below(7778) as u16)) }, points: (0..r.below(5)).map(|_| (dms(r, true), dms(r, false))).collect(),
            before: match r.below(8) { 0 => "; A:B:118.000:MX:::::::".into(), _ => String::new() },
        }; if p.squawks.is_none() { p.points.truncate(3); } p }).collect(), ahead: r.chance(1, 3), after: r.chance(1, 2), crlf: r.chance(1, 4), whole: r.chance(1, 3) }
    }
    fn check(c: &Case) -> Res {
        let t = text(c);
        let ese = Ese::parse(t.as_bytes()).map_err(|e| format!("file does not read: {e}"))?;
        let mut last: BTreeMap<&str, &Pos> = BTreeMap::new();
        for p in &c.lines { last.insert(&p.id, p); }
        for (id, p) in &last {
            let g = ese.positions.get(*id).ok_or(format!("position {id:?} is missing"))?;
            let pts: Vec<_> = g.visibility_points.iter().map(|q| (q.y, q.x)).collect();
            if [&g.name, &g.callsign, &g.frequency, &g.identifier, &g.middle, &g.prefix, &g.suffix] != [&p.name, &p.callsign, &p.frequency, &p.id, &p.middle, &p.prefix, &p.suffix] || g.squawk_range != p.squawks || !near(&pts, &want(p)) { return Err(format!("position {id:?} reads {g:?}, its line states {p:?}")); }
        }
        if ese.positions.len() != last.len() { return Err(format!("{} positions read, {} defined", ese.positions.len(), last.len())); }
        if c.whole {
            let a = adaptation(&Files { ese: Some(t), ..Files::default() })?;
            for (id, p) in &last {
                let g = a.positions.get(*id).ok_or(format!("position {id:?} is missing from the adaptation"))?;
                let pts: Vec<_> = g.visibility_points.iter().map(|q| (q.y(), q.x())).collect();
                if [&g.id, &g.name, &g.frequency, &g.prefix, &g.suffix] != [&p.id, &p.name, &p.frequency, &p.prefix, &p.suffix] || !near(&pts, &want(p)) { return Err(format!("position {id:?} is {g:?} in the adaptation, its line states {p:?}")); }
            }
            if a.positions.len() != last.len() { return Err(format!("{} positions in the adaptation, {} defined", a.positions.len(), last.len())); }
        }
        Ok(Out::Ok)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in drop_one(&c.lines) { v.push(Case { lines: s, ..c.clone() }); }
        for (i, p) in c.lines.iter().enumerate() { for q in drop_one(&p.points) { let mut n = c.clone(); n.lines[i].points = q; v.push(n); } if !p.before.is_empty() { let mut n = c.clone(); n.lines[i].before.clear(); v.push(n); } }
        if c.ahead || c.after || c.crlf || c.whole { v.push(Case { ahead: false, after: false, crlf: false, whole: false, ..c.clone() }); }
        v
    }
}
