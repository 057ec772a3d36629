//! C33: intersection files (isec.txt).
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vatsim_parser::isec::parse_isec_txt;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Line { name: String, lat: String, lng: String }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { lines: Vec<Line>, crlf: bool, tab: bool }
pub struct C33;
impl Prop for C33 {
    const ID: &'static str = "C33";
    const RULE: &'static str = "intersection files of up to 40 lines over few designators (repeated with the same and with other positions), coordinates of either sign with up to 12 decimals, tabs or blanks, either line ending";
    type Case = Case;
    fn gen(r: &mut Rng, s: usize) -> Case {
        let num = |r: &mut Rng, m: f64| { let x = (r.f() * 2.0 - 1.0) * m; match r.below(5) { 0 => format!("{x:.0}.0"), 1 => format!("{x:.12}"), 2 => format!("{}{:06.3}", if r.chance(1, 2) { "-" } else { "" }, x.abs()), _ => format!("{x:.6}") } };
        let lines = (0..1 + r.below(s.min(40))).map(|_| Line { name: r.pick(&["ASPAT", "DEBHI", "8900E", "X", "5030N", "ERNAS", "A1"]).to_string(), lat: num(r, 90.0), lng: num(r, 180.0) }).collect();
        Case { lines, crlf: r.chance(1, 3), tab: r.chance(1, 2) }
    }
    fn check(c: &Case) -> Res {
        let (nl, sep) = (if c.crlf { "\r\n" } else { "\n" }, if c.tab { "\t" } else { "  " });
        let t: String = c.lines.iter().map(|l| format!("{}{sep}{}{sep}{}{sep}15{nl}", l.name, l.lat, l.lng)).collect();
        let g = parse_isec_txt(t.as_bytes()).map_err(|e| format!("the file does not read: {e}"))?;
        let mut w: BTreeMap<&str, Vec<(f64, f64)>> = BTreeMap::new();
        for l in &c.lines { w.entry(&l.name).or_default().push((l.lat.parse().unwrap(), l.lng.parse().unwrap())); }
        if g.keys().count() != w.len() { return Err(format!("{} designators, the file has {}", g.keys().count(), w.len())); }
        for (n, p) in w {
            let v: Vec<_> = g.get_vec(n).ok_or(format!("{n} is missing"))?.iter().map(|f| (f.designator.as_str(), f.coordinate.y(), f.coordinate.x())).collect();
            let e: Vec<_> = p.iter().map(|(y, x)| (n, *y, *x)).collect();
            if v != e { return Err(format!("under {n} are {v:?}, the file says {e:?}")); }
        }
        Ok(if c.lines.len() > 1 { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in drop_one(&c.lines) { if !s.is_empty() { v.push(Case { lines: s, ..c.clone() }); } }
        if c.crlf || c.tab { v.push(Case { crlf: false, tab: false, ..c.clone() }); }
        v
    }
}
