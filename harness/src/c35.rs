//! C35: sector files, section by section.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vatsim_parser::sct::{ColouredLines, Sct};
use vatsim_parser::Location;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Item { Def(u8, u64), Entry { n: u8, a: u8, b: u8, x: u8 }, Broken }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { sections: Vec<(u8, Vec<Item>)>, info: Option<(u8, bool)>, crlf: bool, noise: bool, upper: bool }

const HEAD: [&str; 16] = ["[AIRPORT]", "[FIXES]", "[NDB]", "[VOR]", "[RUNWAY]", "[SID]", "[STAR]", "[ARTCC HIGH]", "[ARTCC]", "[ARTCC LOW]", "[HIGH AIRWAY]", "[LOW AIRWAY]", "[REGIONS]", "[LABELS]", "[GEO]", ""];
const C: [(&str, f64, f64); 6] = [("N048.21.13.618 E011.47.09.909", 48.0 + 21.0 / 60.0 + 13.618 / 3600.0, 11.0 + 47.0 / 60.0 + 9.909 / 3600.0), ("S000.00.00.500 W179.59.59.999", -(0.5 / 3600.0), -(179.0 + 59.0 / 60.0 + 59.999 / 3600.0)), ("n89.1.2 e8.35.20.451", 89.0 + 1.0 / 60.0 + 2.0 / 3600.0, 8.0 + 35.0 / 60.0 + 20.451 / 3600.0), ("N000.00.00.000 E000.00.00.000", 0.0, 0.0), ("N050.02.44.210\tE008.35.20.451", 50.0 + 2.0 / 60.0 + 44.21 / 3600.0, 8.0 + 35.0 / 60.0 + 20.451 / 3600.0), ("N047.59.59.999 W000.00.00.001", 47.0 + 59.0 / 60.0 + 59.999 / 3600.0, -(0.001 / 3600.0))];
const NAME: [&str; 6] = ["EDDM", "MUN", "RAVSA", "X1", "8", "RTT"];
const FIXN: [&str; 6] = ["EDDM", "R/W-1", "RAVSA!", "A(B)", "8_X.1", "RTT"];
const COL: [&str; 5] = ["colour_Stopbar", "red", "red2", "A-1", "7"];
const TEXT: [&str; 5] = ["EDDM Apron 1", "Ümlaut (x)", "LOWI SID 08C RTTxQ", "EDMM_ALB_CTR", "a: b"];
const FREQ: [&str; 3] = ["120.500", "327", "114.35"];
const NUM: [&str; 4] = ["60", "40.25", "-2.5", ".5"];
const HDG: [&str; 4] = ["083", "0", "360", "7"];
const RWY: [&str; 4] = ["08L", "26R", "09", "36C"];
pub struct C35;
fn at(i: u8) -> (f64, f64) { (C[i as usize].1, C[i as usize].2) }
fn near(p: geo::Point, i: u8) -> bool { (p.y() - at(i).0).abs() < 1e-9 && (p.x() - at(i).1).abs() < 1e-9 }
fn place(i: u8, f: bool) -> String { if f { format!("{0} {0}", NAME[i as usize]) } else { C[i as usize].0.to_string() } }
fn is(l: &Location, i: u8, f: bool) -> bool { match l { Location::Fix(n) => f && n == NAME[i as usize], Location::Coordinate(p) => !f && near(*p, i) } }
fn text(k: u8, n: u8, a: u8, b: u8, x: u8, nl: &str) -> String {
    let (ca, cb) = (C[a as usize].0, C[b as usize].0);
    let y = x as usize;
    match k {
        0 => format!("{} {} {ca} {}", NAME[n as usize], ["120.500", ".", ""][y % 3], ["A", "D", "G"][y % 3]),
        1 => format!("{} {ca}", FIXN[n as usize]),
        2 | 3 => format!("{} {} {ca}", NAME[n as usize], FREQ[y % 3]),
        4 => format!("{} {} {} {} {ca} {cb} {}{}", RWY[y % 4], RWY[y / 4 % 4], HDG[y % 4], HDG[y / 2 % 4], NAME[n as usize], ["", " Muenchen"][y % 2]),
        5..=9 | 14 => { let col = if y % 2 == 0 { String::new() } else { format!(" {}", COL[y % 5]) };
            let second = if y % 3 == 0 { format!("{nl}          {} {}{col}", place(b, y % 4 > 1), place(n, y % 4 > 1)) } else { String::new() };
            format!("{}    {} {}{col}{second}", TEXT[n as usize % 5], place(a, y % 4 > 1), place(b, y % 4 > 1)) }
        10 | 11 => format!("{} {} {}", FIXN[n as usize], place(a, y % 2 == 1), place(b, y % 3 == 1)),
        12 => format!("REGIONNAME {}{nl}{}   {ca}{nl}    {cb}{}", TEXT[n as usize % 5], COL[y % 5], (0..y).map(|_| format!("{nl}   {ca}")).collect::<String>()),
        _ => format!("\"{}\" {ca} {}", TEXT[n as usize % 5], COL[y % 5]),
    }
}
fn drawing(g: &[ColouredLines], n: u8, a: u8, b: u8, x: u8) -> bool {
    let f = x % 4 > 1;
    let want: Vec<u8> = if x % 3 == 0 { vec![a, b, n] } else { vec![a, b] };
    let mut w = vec![want[0]]; for i in &want[1..] { if w.last() != Some(i) { w.push(*i); } }
    let col = if x % 2 == 0 { None } else { Some(COL[x as usize % 5]) };
    g.len() == 1 && g[0].colour_name.as_deref() == col && g[0].lines.len() == 1 && g[0].lines[0].points.len() == w.len() && g[0].lines[0].points.iter().zip(&w).all(|(l, i)| is(l, *i, f))
}
fn colour(n: u64) -> Option<(u8, u8, u8)> { if n < 0x100_0000 { Some(((n & 255) as u8, (n >> 8 & 255) as u8, (n >> 16) as u8)) } else { None } }
/// is the i-th listed entry of section k what the line says; the number of entries is compared by the caller
fn entry(s: &Sct, k: u8, i: usize, n: u8, a: u8, b: u8, x: u8) -> bool {
    let (nm, y) = (NAME[n as usize], x as usize);
    match k {
        0 => { let e = &s.airports[i]; e.designator == nm && near(e.coordinate, a) && e.ctr_airspace == ["A", "D", "G"][y % 3] }
        1 => { let e = &s.fixes[i]; e.designator == FIXN[n as usize] && near(e.coordinate, a) }
        2 => { let e = &s.ndbs[i]; e.designator == nm && e.frequency == FREQ[y % 3] && near(e.coordinate, a) }
        3 => { let e = &s.vors[i]; e.designator == nm && e.frequency == FREQ[y % 3] && near(e.coordinate, a) }
        4 => { let e = &s.runways[i]; e.designators == (RWY[y % 4].into(), RWY[y / 4 % 4].into()) && e.headings == (HDG[y % 4].parse().unwrap(), HDG[y / 2 % 4].parse().unwrap()) && near(e.location.0, a) && near(e.location.1, b) && e.aerodrome == nm }
        5 => s.sids[i].name == TEXT[n as usize % 5] && drawing(&s.sids[i].line_groups, n, a, b, x),
        6 => s.stars[i].name == TEXT[n as usize % 5] && drawing(&s.stars[i].line_groups, n, a, b, x),
        7 => s.artccs_high[i].name == TEXT[n as usize % 5] && drawing(&s.artccs_high[i].line_groups, n, a, b, x),
        8 => s.artccs[i].name == TEXT[n as usize % 5] && drawing(&s.artccs[i].line_groups, n, a, b, x),
        9 => s.artccs_low[i].name == TEXT[n as usize % 5] && drawing(&s.artccs_low[i].line_groups, n, a, b, x),
        14 => s.geo[i].name == TEXT[n as usize % 5] && drawing(&s.geo[i].line_groups, n, a, b, x),
        10 | 11 => { let e = if k == 10 { &s.high_airways[i] } else { &s.low_airways[i] }; e.designator == FIXN[n as usize] && is(&e.start, a, y % 2 == 1) && is(&e.end, b, y % 3 == 1) }
        12 => { let e = &s.regions[i]; e.name == TEXT[n as usize % 5] && e.colour_name == COL[y % 5] && e.polygon.len() == 2 + y && e.polygon.iter().enumerate().all(|(j, c)| near((*c).into(), if j == 1 { b } else { a })) }
        _ => { let e = &s.labels[i]; e.name == TEXT[n as usize % 5] && is(&e.coordinate, a, false) && e.colour_name == COL[y % 5] }
    }
}
fn count(s: &Sct, k: u8) -> usize { [s.airports.len(), s.fixes.len(), s.ndbs.len(), s.vors.len(), s.runways.len(), s.sids.len(), s.stars.len(), s.artccs_high.len(), s.artccs.len(), s.artccs_low.len(), s.high_airways.len(), s.low_airways.len(), s.regions.len(), s.labels.len(), s.geo.len()][k as usize] }
impl Prop for C35 {
    const ID: &'static str = "C35";
    const RULE: &'static str = "sector files of any sections in any order (one may come twice), up to 30 entries each of its own form, colour definitions (valid, out of range, repeated) before, between and after sections and entries, unreadable fix and beacon lines, comments and blank lines, either line ending; an information section with or without scale";
    type Case = Case;
    fn gen(r: &mut Rng, s: usize) -> Case {
        let mut sections = vec![];
        for k in 0..16u8 {
            let times = if k < 15 && r.chance(1, 12) { 2 } else { usize::from(r.chance(2, 5)) };
            for _ in 0..times {
                let v = (0..r.below(s.min(30) + 1)).map(|_| match r.below(10) {
                    0 | 1 => Item::Def(r.below(5) as u8, *r.pick(&[0, 255, 65280, 16711680, 16777215, 16777216, 8421504, 2147483647, 2147483648, 99999999999])),
                    2 if k == 1 || k == 2 => Item::Broken,
                    _ => Item::Entry { n: r.below(6) as u8, a: r.below(6) as u8, b: r.below(6) as u8, x: r.below(16) as u8 },
                }).filter(|i| k < 15 || matches!(i, Item::Def(..))).collect();
                sections.push((k, v));
            }
        }
        for i in (1..sections.len()).rev() { let j = r.below(i + 1); sections.swap(i, j); }
        Case { sections, info: if r.chance(2, 3) { Some((r.below(16) as u8, r.chance(2, 3))) } else { None }, crlf: r.chance(1, 3), noise: r.chance(1, 3), upper: r.chance(1, 2) }
    }
    fn check(c: &Case) -> Res {
        let nl = if c.crlf { "\r\n" } else { "\n" };
        let mut t = String::new();
        let mut colours: BTreeMap<&str, (u8, u8, u8)> = BTreeMap::new();
        let mut last: BTreeMap<u8, usize> = BTreeMap::new();
        if let Some((x, scale)) = c.info {
            let y = x as usize;
            t += &format!("[INFO]{nl}{}{nl}EDMM_CTR{nl}{}{nl}{}{nl}{}{nl}{}{nl}{}{nl}{}{nl}{}", ["EDMM (AIRAC 2401)", "x"][y % 2], NAME[y % 6], C[y % 6].0.split_whitespace().next().unwrap(), C[y % 6].0.split_whitespace().nth(1).unwrap(), NUM[y % 4], NUM[y / 2 % 4], NUM[y / 4 % 4], if scale { format!("{}{nl}", NUM[y / 3 % 4]) } else { String::new() });
        }
        for (j, (k, v)) in c.sections.iter().enumerate() {
            if *k < 15 { let h = HEAD[*k as usize]; t += if h == "[REGIONS]" && !c.upper { "[Regions]" } else { h }; t += nl; last.insert(*k, j); }
            for (m, i) in v.iter().enumerate() {
                if c.noise && m % 3 == 1 { t += &format!("; a comment{nl}{nl}"); }
                match i {
                    Item::Def(n, x) => { t += &format!("#define {} {x}{nl}", COL[*n as usize]); if let Some(y) = colour(*x) { colours.insert(COL[*n as usize], y); } }
                    Item::Broken => t += &format!("MU C 5 {}{nl}", C[0].0),
                    Item::Entry { n, a, b, x } => { t += &text(*k, *n, *a, *b, *x, nl); t += nl; }
                }
            }
        }
        let s = Sct::parse(t.as_bytes()).map_err(|e| format!("the file does not read: {e}\n{t}"))?;
        for k in 0..15u8 {
            let w: Vec<&Item> = last.get(&k).map_or(vec![], |j| c.sections[*j].1.iter().filter(|i| matches!(i, Item::Entry { .. })).collect());
            if count(&s, k) != w.len() { return Err(format!("{} has {} entries, the file says {}\n{t}", HEAD[k as usize], count(&s, k), w.len())); }
            for (i, e) in w.iter().enumerate() { if let Item::Entry { n, a, b, x } = e { if !entry(&s, k, i, *n, *a, *b, *x) { return Err(format!("entry {i} of {} is not what its line says: {}\n{:?}", HEAD[k as usize], text(k, *n, *a, *b, *x, " / "), s)); } } }
        }
        let got: BTreeMap<&str, (u8, u8, u8)> = s.colours.iter().map(|(n, c)| (n.as_str(), (c.r, c.g, c.b))).collect();
        if got != colours { return Err(format!("colours {got:?}, the file defines {colours:?}")); }
        let i = &s.info;
        let f = |x: &str| x.parse::<f64>().unwrap();
        match c.info {
            Some((x, scale)) => { let y = x as usize;
                if i.name != ["EDMM (AIRAC 2401)", "x"][y % 2] || i.default_callsign != "EDMM_CTR" || i.default_airport != NAME[y % 6] || !near(i.centre_point, (y % 6) as u8) || i.miles_per_deg_lat != f(NUM[y % 4]) || i.miles_per_deg_lng != f(NUM[y / 2 % 4]) || i.magnetic_variation != f(NUM[y / 4 % 4]) || i.scale_factor != (if scale { f(NUM[y / 3 % 4]) } else { 0.0 }) { return Err(format!("information {i:?}\n{t}")); } }
            None => if !i.name.is_empty() || i.scale_factor != 0.0 { return Err(format!("information {i:?} out of nothing")); }
        }
        Ok(if last.len() > 1 { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in drop_one(&c.sections) { v.push(Case { sections: s, ..c.clone() }); }
        for j in 0..c.sections.len() { for s in drop_one(&c.sections[j].1) { let mut d = c.clone(); d.sections[j].1 = s; v.push(d); } }
        if c.crlf || c.noise { v.push(Case { crlf: false, noise: false, ..c.clone() }); }
        if c.info.is_some() { v.push(Case { info: None, ..c.clone() }); }
        v
    }
}
