//! C26: sectors of the ESE file and the border lines they name.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vatsim_parser::ese::Ese;

/// (south, west?, degrees, minutes, milliseconds) for latitude and longitude
pub type Dms = (bool, u16, u8, u32);
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Sub { Owner(Vec<String>), Alt(String, Vec<String>), Border(Vec<String>), Active(String, String), Dep(Vec<String>), Arr(Vec<String>), Guest }
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Block { Line(String, Vec<Option<(Dms, Dms)>>), Circle(String), Display, Sector(String, u32, u32, Vec<Sub>), Cop, Msaw(String), Comment }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { blocks: Vec<Block>, before: bool, after: bool, crlf: bool }

const IDS: [&str; 8] = ["L1", "L2", "L3", "152", "a b", "EDMM·ALB·105·135", "L", "l1"];
const SECTS: [&str; 6] = ["S1", "S2", "EDMM·ALB·105·135", "S", "s1", "L1"];
const OWN: [&str; 5] = ["ALB", "TEG", "A", "", "B1"];
const APT: [&str; 4] = ["EDDM", "EDDN", "EDMO", "K-1"];
fn dms(r: &mut Rng, lat: bool) -> Dms { (r.chance(1, 3), r.below(if lat { 90 } else { 180 }) as u16, r.below(60) as u8, r.below(60000) as u32) }
fn names(r: &mut Rng, from: &[&str], max: usize) -> Vec<String> { let n = r.below(max) + 1; (0..n).map(|_| r.pick(from).to_string()).collect() }
fn sub(r: &mut Rng) -> Sub {
    match r.below(12) { 0..=2 => Sub::Owner(names(r, &OWN, 4)), 3..=5 => Sub::Border(names(r, &IDS, 5)), 6 => Sub::Alt(r.pick(&OWN).to_string(), names(r, &OWN, 3)), 7 | 8 => Sub::Active(r.pick(&APT).to_string(), r.pick(&["08L", "26R", "08", "A"]).to_string()), 9 => Sub::Dep(names(r, &APT, 3)), 10 => Sub::Arr(names(r, &APT, 3)), _ => Sub::Guest }
}
fn block(r: &mut Rng) -> Block {
    match r.below(14) {
        0..=4 => { let n = r.below(4); Block::Line(r.pick(&IDS).to_string(), (0..n).map(|_| if r.chance(1, 5) { None } else { Some((dms(r, true), dms(r, false))) }).collect()) }
        5..=9 => { let n = r.below(6); Block::Sector(r.pick(&SECTS).to_string(), *r.pick(&[0, 1, 4500, 10500]), *r.pick(&[0, 13500, 66000, 4294967295]), (0..n).map(|_| sub(r)).collect()) }
        10 => Block::Circle(r.pick(&IDS).to_string()), 11 => Block::Cop, 12 => if r.chance(1, 2) { Block::Display } else { Block::Comment }, _ => Block::Msaw(r.pick(&SECTS).to_string()),
    }
}
pub fn coord(p: &(Dms, Dms)) -> String { let f = |d: &Dms, n: char, s: char| format!("{}{:03}.{:02}.{:02}.{:03}", if d.0 { s } else { n }, d.1, d.2, d.3 / 1000, d.3 % 1000); format!("{}:{}", f(&p.0, 'N', 'S'), f(&p.1, 'E', 'W')) }
pub fn value(d: &Dms) -> f64 { let v = f64::from(d.1) + f64::from(d.2) / 60.0 + f64::from(d.3) / 3_600_000.0; if d.0 { -v } else { v } }
fn text(c: &Case) -> String {
    let mut t: Vec<String> = vec![];
    if c.before { t.extend(["[POSITIONS]", "EDDM_ATIS:Muenchen ATIS:123.130:MX::EDDM:ATIS:::0000:0000", ""].map(String::from)); }
    t.push("[AIRSPACE]".into());
    for b in &c.blocks {
        match b {
            Block::Line(id, ps) => { t.push(format!("SECTORLINE:{id}")); for p in ps { t.push(match p { Some(p) => format!("COORD:{}", coord(p)), None => "DISPLAY:a:b:c".into() }); } t.push(String::new()); }
            Block::Circle(id) => { t.push(format!("CIRCLE_SECTORLINE:{id}:EDDM:5.5")); t.push("DISPLAY:a:b:c".into()); }
            Block::Display => t.push("DISPLAY_SECTORLINE:L1:a:b:c".into()),
            Block::Sector(id, lo, hi, subs) => {
                t.push(format!("SECTOR:{id}:{lo}:{hi}"));
                for s in subs { t.push(match s { Sub::Owner(o) => format!("OWNER:{}", o.join(":")), Sub::Alt(n, o) => format!("ALTOWNER:{n}:{}", o.join(":")), Sub::Border(b) => format!("BORDER:{}", b.join(":")), Sub::Active(a, b) => format!("ACTIVE:{a}:{b}"), Sub::Dep(a) => format!("DEPAPT:{}", a.join(":")), Sub::Arr(a) => format!("ARRAPT:{}", a.join(":")), Sub::Guest => "GUEST:ALB:*:EDDM".into() }); }
            }
            Block::Cop => t.push("COPX:*:*:UPALA:*:*:S1:S2:*:13000:UPALA".into()),
            Block::Msaw(s) => { t.push(format!("MSAW:{s}:4000")); t.push("COORD:N048.00.00.000:E011.00.00.000".into()); }
            Block::Comment => t.push("; SECTOR:none:0:1".into()),
        }
    }
    if c.after { t.extend(["[SIDSSTARS]", "SID:EDDM:26R:GIVMI1N:DM060 DM063 GIVMI", "[OTHER]", "SECTOR:S1:1:2"].map(String::from)); }
    t.join(if c.crlf { "\r\n" } else { "\n" }) + "\n"
}
pub struct C26;
impl Prop for C26 {
    const ID: &'static str = "C26";
    const RULE: &'static str = "ESE files of up to 40 interleaved line, circle, sector, COPX, MSAW and comment blocks over few identifiers (redefined, undefined, repeated references; empty lines; every kind of sector setting repeated or missing), with sections around the airspace section";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        // one sector and two lines in every order, every border over them of length 0..=3
        let orders = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]];
        let borders: Vec<Vec<String>> = (0..40).map(|k: usize| { let (n, mut v, mut k) = if k == 0 { (0, vec![], 0) } else if k < 4 { (1, vec![], k - 1) } else if k < 13 { (2, vec![], k - 4) } else { (3, vec![], k - 13) }; for _ in 0..n { v.push(["L1", "L2", "nope"][k % 3].to_string()); k /= 3; } v }).collect();
        if i >= 240 { return None; }
        let p = |a: u16| Some(((false, 40 + a, 1, 500), (true, a, 2, 59999)));
        let subs = if borders[(i % 40) as usize].is_empty() { vec![] } else { vec![Sub::Border(borders[(i % 40) as usize].clone()), Sub::Owner(vec!["A".into()])] };
        let b = [Block::Line("L1".into(), vec![p(1), p(2)]), Block::Line("L2".into(), vec![p(2), None, p(3)]), Block::Sector("S1".into(), 10, 20, subs)];
        Some(Case { blocks: orders[(i / 40) as usize].iter().map(|k: &usize| b[*k].clone()).collect(), before: i % 2 == 0, after: i % 3 == 0, crlf: false })
    }
    fn gen(r: &mut Rng, s: usize) -> Case { let n = r.below(s) + 1; Case { blocks: (0..n).map(|_| block(r)).collect(), before: r.chance(1, 2), after: r.chance(1, 2), crlf: r.chance(1, 4) } }
    fn check(c: &Case) -> Res {
        let ese = Ese::parse(text(c).as_bytes()).map_err(|e| format!("file does not read: {e}"))?;
        let mut lines: HashMap<&str, Vec<(f64, f64)>> = HashMap::new();
        let mut sectors: HashMap<&str, (u32, u32, &Vec<Sub>)> = HashMap::new();
        for b in &c.blocks { match b {
            Block::Line(id, ps) => { lines.insert(id, ps.iter().flatten().map(|p| (value(&p.0), value(&p.1))).collect()); }
            Block::Sector(id, lo, hi, s) => { sectors.insert(id, (*lo, *hi, s)); }
            _ => {}
        } }
        if ese.sectors.len() != sectors.len() { return Err(format!("{} sectors read, {} defined", ese.sectors.len(), sectors.len())); }
        for (id, (lo, hi, subs)) in &sectors {
            let Some(s) = ese.sectors.get(*id) else { return Err(format!("sector {id} is missing")) };
            if s.id != *id || s.bottom != *lo || s.top != *hi { return Err(format!("sector {id}: {} {} {}", s.id, s.bottom, s.top)); }
            let first = |f: fn(&Sub) -> Option<&Vec<String>>| subs.iter().find_map(f).cloned().unwrap_or_default();
            let owner = first(|s| if let Sub::Owner(o) = s { Some(o) } else { None });
            let dep = first(|s| if let Sub::Dep(o) = s { Some(o) } else { None });
            let arr = first(|s| if let Sub::Arr(o) = s { Some(o) } else { None });
            let border = first(|s| if let Sub::Border(o) = s { Some(o) } else { None });
            if s.owner_priority != owner { return Err(format!("sector {id}: owners {:?}, stated {owner:?}", s.owner_priority)); }
            if s.departure_airports != dep { return Err(format!("sector {id}: departure aerodromes {:?}, stated {dep:?}", s.departure_airports)); }
            if s.arrival_airports != arr { return Err(format!("sector {id}: arrival aerodromes {:?}, stated {arr:?}", s.arrival_airports)); }
            let active: Vec<(String, String)> = subs.iter().filter_map(|s| if let Sub::Active(a, b) = s { Some((a.clone(), b.clone())) } else { None }).collect();
            let got: Vec<(String, String)> = s.runway_filter.iter().map(|r| (r.icao.clone(), r.designator.clone())).collect();
            if got != active { return Err(format!("sector {id}: activity conditions {got:?}, stated {active:?}")); }
            let want: Vec<&Vec<(f64, f64)>> = border.iter().filter_map(|b| lines.get(b.as_str())).collect();
            let got: Vec<Vec<(f64, f64)>> = s.border.iter().map(|l| l.points.0.iter().map(|c| (c.y, c.x)).collect()).collect();
            let near = |a: &(f64, f64), b: &(f64, f64)| (a.0 - b.0).abs() < 1e-9 && (a.1 - b.1).abs() < 1e-9;
            if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g.len() != w.len() || g.iter().zip(w.iter()).any(|(a, b)| !near(a, b))) { return Err(format!("sector {id} with border {border:?}: lines {got:?}, defined {want:?}")); }
        }
        Ok(if sectors.is_empty() { Out::Trivial } else { Out::Ok })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o: Vec<Case> = drop_one(&c.blocks).into_iter().map(|blocks| Case { blocks, ..c.clone() }).collect();
        for (i, b) in c.blocks.iter().enumerate() {
            let mut put = |nb: Block| { let mut blocks = c.blocks.clone(); blocks[i] = nb; o.push(Case { blocks, ..c.clone() }); };
            match b { Block::Line(id, p) => for q in drop_one(p) { put(Block::Line(id.clone(), q)); }, Block::Sector(id, l, h, s) => for q in drop_one(s) { put(Block::Sector(id.clone(), *l, *h, q)); }, _ => {} }
        }
        if c.before { o.push(Case { before: false, ..c.clone() }); }
        if c.after { o.push(Case { after: false, ..c.clone() }); }
        if c.crlf { o.push(Case { crlf: false, ..c.clone() }); }
        o
    }
}
