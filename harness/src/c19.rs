//! C19: airways of the sector file as polylines; C28: the other drawings of the sector file.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vatsim_parser::adaptation::Adaptation;

/// known fixes (VOR, NDB, FIX, AIRPORT); the names after them do not resolve
const FIX: [(&str, i64, i64); 6] = [("RAVSA", 172_800_000, 39_600_000), ("LCE13", 172_800_001, 39_600_000), ("RTT", 174_600_000, 41_400_000), ("MIQ", -172_800_000, -3_600_000), ("NEA", 172_800_004, 39_600_000), ("EDDM", 0, 0)];
const LOST: [&str; 3] = ["QQQQQ", "XXX", "RAVSB"];
/// coordinates in thousandths of a second
const AT: [(i64, i64); 6] = [(172_800_000, 39_600_000), (172_800_001, 39_600_001), (172_803_600, 39_600_000), (0, 0), (-30_000_000, 646_200_000), (172_800_000, 39_600_002)];
const COL: [(&str, i32); 3] = [("red", 255), ("colour_X", 0x0012_3456), ("nocolour", -1)];
const NAME: [&str; 4] = ["UL607", "L607", "Z1", "T(1)"];
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum End { Fix(u8), Lost(u8), At(u8), Any(i32, i32) }
fn ms(v: i64, pos: char, neg: char) -> String { let a = v.abs(); format!("{}{:03}.{:02}.{:02}.{:03}", if v < 0 { neg } else { pos }, a / 3_600_000, a / 60_000 % 60, a / 1000 % 60, a % 1000) }
fn coord(p: (i64, i64)) -> String { format!("{} {}", ms(p.0, 'N', 'S'), ms(p.1, 'E', 'W')) }
fn place(e: &End) -> Option<(i64, i64)> { match e { End::Fix(i) => { let f = FIX[*i as usize % 6]; Some((f.1, f.2)) } End::Lost(_) => None, End::At(i) => Some(AT[*i as usize % 6]), End::Any(a, b) => Some((i64::from(*a), i64::from(*b))) } }
fn written(e: &End) -> String { match e { End::Fix(i) => { let f = FIX[*i as usize % 6].0; format!("{f} {f}") } End::Lost(i) => { let f = LOST[*i as usize % 3]; format!("{f} {f}") } _ => coord(place(e).unwrap()) } }
fn deg(p: (i64, i64)) -> (f64, f64) { (p.0 as f64 / 3_600_000.0, p.1 as f64 / 3_600_000.0) }
fn end(r: &mut Rng, prev: Option<&End>) -> End {
    match r.below(9) { 0 if prev.is_some() => prev.unwrap().clone(), 1 | 2 | 3 => End::Fix(r.below(6) as u8), 4 => End::Lost(r.below(3) as u8), 5..=7 => End::At(r.below(6) as u8), _ => End::Any(r.range(-89 * 3_600_000, 89 * 3_600_000) as i32, r.range(-179 * 3_600_000, 179 * 3_600_000) as i32) }
}
fn head() -> String {
    let mut t = INFO.to_string();
    t += &format!("[VOR]\n{} 112.300 {}\n[NDB]\n{} 345.000 {}\n[FIXES]\n", FIX[2].0, coord((FIX[2].1, FIX[2].2)), FIX[3].0, coord((FIX[3].1, FIX[3].2)));
    for f in [0, 1, 4] { t += &format!("{} {}\n", FIX[f].0, coord((FIX[f].1, FIX[f].2))); }
    t + &format!("[AIRPORT]\n{} 000.000 {} D\n", FIX[5].0, coord((FIX[5].1, FIX[5].2)))
}
/// within a millionth of a degree and rounding
fn near(a: (f64, f64), b: (f64, f64)) -> bool { (a.0 - b.0).abs() < 1.01e-6 && (a.1 - b.1).abs() < 1.01e-6 }
type Pt = (f64, f64);
type Line = (Pt, Pt);

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { low: Vec<(u8, End, End)>, high: Vec<(u8, End, End)> }
fn drawn_right(what: &str, segs: &[(u8, End, End)], got: &multimap::MultiMap<String, geo::MultiLineString>) -> Result<(), String> {
    let mut want: HashMap<&str, Vec<Line>> = HashMap::new();
    for s in segs { let v = want.entry(NAME[s.0 as usize % 4]).or_default(); if let (Some(a), Some(b)) = (place(&s.1), place(&s.2)) { v.push((deg(a), deg(b))); } }
    for (k, _) in got.iter_all() { if !want.contains_key(k.as_str()) { return Err(format!("{what} {k} is drawn but not in the file")); } }
    for (k, w) in &want {
        let lines: Vec<Vec<Pt>> = got.get_vec(*k).into_iter().flatten().flat_map(|m| m.0.iter().map(|l| l.0.iter().map(|c| (c.y, c.x)).collect())).collect();
        let drawn: Vec<Line> = lines.iter().flat_map(|l| l.windows(2).map(|x| (x[0], x[1]))).collect();
        let is = |a: &Line, b: &Line| near(a.0, b.0) && near(a.1, b.1) || near(a.0, b.1) && near(a.1, b.0);
        for l in w { if !(drawn.iter().any(|d| is(d, l)) || near(l.0, l.1) && lines.iter().flatten().any(|p| near(*p, l.0))) { return Err(format!("segment {l:?} of {what} {k} is not drawn: {lines:?}")); } }
        for d in &drawn { if !(w.iter().any(|l| is(d, l)) || near(d.0, d.1) && w.iter().any(|l| near(l.0, d.0) || near(l.1, d.0))) { return Err(format!("{what} {k} draws {d:?}, its segments are {w:?}")); } }
        for p in lines.iter().flatten() { if !w.iter().any(|l| near(l.0, *p) || near(l.1, *p)) { return Err(format!("{what} {k} draws {p:?}, its segments are {w:?}")); } }
    }
    Ok(())
}
fn adapt(sct: String) -> Result<Adaptation, String> { adaptation(&Files { sct: Some(sct), ..Files::default() }) }
pub struct C19;
impl Prop for C19 {
    const ID: &'static str = "C19";
    const RULE: &'static str = "every list of up to three segments over three places, one of them unresolvable; random high and low airways of up to 40 segments over six fixes (two of them less than a millionth of a degree apart), unresolvable names and coordinates, with branches, loops, repeated, reversed and zero-length segments";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        let e = [End::Fix(2), End::At(2), End::Lost(0)];
        let mut i = i;
        for n in 1..=3u32 {
            let k = 9u64.pow(n);
            if i < k { let mut v = vec![]; for _ in 0..n { let d = i % 9; i /= 9; v.push((0, e[(d % 3) as usize].clone(), e[(d / 3) as usize].clone())); } return Some(Case { low: if n % 2 == 0 { vec![] } else { v.clone() }, high: v }); }
            i -= k;
        }
        None
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        let list = |r: &mut Rng| { let n = r.below(s.min(40) + 1); let names = r.below(4) + 1; let mut v: Vec<(u8, End, End)> = vec![]; for _ in 0..n {
            let a = match v.last() { Some(l) if r.chance(1, 2) => l.2.clone(), _ => end(r, None) }; let b = end(r, Some(&a));
            v.push(match v.last() { Some(l) if r.chance(1, 12) => (l.0, l.2.clone(), l.1.clone()), Some(l) if r.chance(1, 12) => l.clone(), _ => (r.below(names) as u8, a, b) }); } v };
        Case { low: list(r), high: list(r) }
    }
    fn check(c: &Case) -> Res {
        let mut t = head();
        for (sec, v) in [("[HIGH AIRWAY]", &c.high), ("[LOW AIRWAY]", &c.low)] { if !v.is_empty() { t += sec; t += "\n"; for s in v { t += &format!("{:<10} {} {}\n", NAME[s.0 as usize % 4], written(&s.1), written(&s.2)); } } }
        let a = adapt(t)?;
        drawn_right("high airway", &c.high, &a.sct_items.high_airways)?;
        drawn_right("low airway", &c.low, &a.sct_items.low_airways)?;
        Ok(if c.high.is_empty() && c.low.is_empty() { Out::Trivial } else { Out::Ok })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o = vec![];
        for v in drop_one(&c.low) { o.push(Case { low: v, ..c.clone() }); }
        for v in drop_one(&c.high) { o.push(Case { high: v, ..c.clone() }); }
        o
    }
}

/// from, to, colour
type Seg = (End, End, Option<u8>);
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Drawn { section: u8, name: u8, segs: Vec<Seg> }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case28 { entries: Vec<Drawn>, regions: Vec<(u8, u8, Vec<u8>)>, labels: Vec<(u8, u8, u8)> }
const SECTION: [&str; 6] = ["[SID]", "[STAR]", "[ARTCC HIGH]", "[ARTCC]", "[ARTCC LOW]", "[GEO]"];
const ENTRY: [&str; 3] = ["EDDM 26L", "Sector One", "Upper-3"];
/// the polylines of an entry: groups of one colour, resolvable points without immediate repetitions
fn polylines(segs: &[Seg]) -> Vec<(Option<u8>, Vec<Vec<(i64, i64)>>)> {
    let mut g: Vec<(Option<u8>, Vec<Vec<&End>>)> = vec![];
    let same = |a: &End, b: &End| match (a, b) { (End::At(_) | End::Any(..), End::At(_) | End::Any(..)) => place(a) == place(b), _ => a == b };
    for (n, (a, b, c)) in segs.iter().enumerate() {
        let new_group = n == 0 || segs[n - 1].2 != *c;
        if new_group { g.push((*c, vec![])); }
        let lines = &mut g.last_mut().unwrap().1;
        if new_group || !same(&segs[n - 1].1, a) { lines.push(vec![a]); }
        lines.last_mut().unwrap().push(b);
    }
    g.into_iter().map(|(c, l)| (c, l.into_iter().map(|l| { let mut v: Vec<(i64, i64)> = l.into_iter().filter_map(place).collect(); v.dedup(); v }).filter(|l: &Vec<_>| !l.is_empty()).collect::<Vec<_>>())).filter(|(_, l)| !l.is_empty()).collect()
}
pub struct C28;
impl Prop for C28 {
    const ID: &'static str = "C28";
    const RULE: &'static str = "every entry of up to three segments over two places and an unresolvable name, one colour; random entries of up to 40 segments in all six line sections with known, unknown and no colours, entries of the same name, regions and labels";
    type Case = Case28;
    fn small(i: u64) -> Option<Case28> {
        let e = [End::Fix(2), End::Fix(0), End::Lost(0)];
        let mut i = i;
        for n in 1..=3u32 {
            let k = 18u64.pow(n);
            if i < k { let s = (k % 6) as u8; let mut v = vec![]; for _ in 0..n { let d = i % 18; i /= 18; v.push((e[(d % 3) as usize].clone(), e[(d / 3 % 3) as usize].clone(), if d >= 9 { Some(0) } else { None })); } return Some(Case28 { entries: vec![Drawn { section: s, name: 0, segs: v }], regions: vec![], labels: vec![] }); }
            i -= k;
        }
        None
    }
    fn gen(r: &mut Rng, s: usize) -> Case28 {
        let n = r.below(s.min(8) + 1);
        let entries = (0..n).map(|_| { let m = r.below(s.min(40)) + 1; let mut segs: Vec<Seg> = vec![]; for _ in 0..m {
            let a = match segs.last() { Some(l) if r.chance(2, 3) => l.1.clone(), _ => end(r, None) }; let mut b = end(r, Some(&a));
            // the first line of an entry is two fixes or two coordinates
            let fix = |e: &End| matches!(e, End::Fix(_) | End::Lost(_));
            if segs.is_empty() && fix(&a) != fix(&b) { b = a.clone(); }
            let c = match segs.last() { Some(l) if r.chance(3, 4) => l.2, _ => if r.chance(1, 3) { None } else { Some(r.below(3) as u8) } };
            segs.push((a, b, c)); } Drawn { section: r.below(6) as u8, name: r.below(3) as u8, segs } }).collect();
        let regions = (0..r.below(3)).map(|_| (r.below(3) as u8, r.below(3) as u8, (0..r.below(5) + 1).map(|_| r.below(6) as u8).collect())).collect();
        let labels = (0..r.below(4)).map(|_| (r.below(3) as u8, r.below(3) as u8, r.below(6) as u8)).collect();
        Case28 { entries, regions, labels }
    }
    fn check(c: &Case28) -> Res {
        let mut t = String::new();
        for col in &COL[..2] { t += &format!("#define {} {}\n", col.0, col.1); }
        t += &head();
        for (k, sec) in SECTION.iter().enumerate() {
            if !c.entries.iter().any(|e| e.section as usize == k) { continue; }
            t += sec; t += "\n";
            for e in c.entries.iter().filter(|e| e.section as usize == k) { for (i, s) in e.segs.iter().enumerate() { t += &format!("{:<12} {} {}{}\n", if i == 0 { ENTRY[e.name as usize % 3] } else { "" }, written(&s.0), written(&s.1), s.2.map_or(String::new(), |x| format!(" {}", COL[x as usize % 3].0))); } }
        }
        if !c.regions.is_empty() { t += "[REGIONS]\n"; for x in &c.regions { t += &format!("REGIONNAME {}\n", ENTRY[x.0 as usize % 3]); for (i, p) in x.2.iter().enumerate() { t += &format!("{} {}\n", if i == 0 { COL[x.1 as usize % 3].0 } else { "" }, coord(AT[*p as usize % 6])); } } }
        if !c.labels.is_empty() { t += "[LABELS]\n"; for x in &c.labels { t += &format!("\"{}\" {} {}\n", ENTRY[x.0 as usize % 3], coord(AT[x.2 as usize % 6]), COL[x.1 as usize % 3].0); } }
        let a = adapt(t)?;
        let it = &a.sct_items;
        let colour = |x: Option<u8>| match x { Some(x) if x < 2 => { let v = COL[x as usize].1; (v as u8, (v >> 8) as u8, (v >> 16) as u8) } _ => { let s = a.colours.map.sid; (s.r, s.g, s.b) } };
        for (k, m) in [&it.sids, &it.stars, &it.artccs_high, &it.artccs, &it.artccs_low, &it.geo].into_iter().enumerate() {
            let mut want: HashMap<&str, Vec<((u8, u8, u8), Vec<Vec<(i64, i64)>>)>> = HashMap::new();
            for e in c.entries.iter().filter(|e| e.section as usize == k) { for g in polylines(&e.segs) { want.entry(ENTRY[e.name as usize % 3]).or_default().push((colour(g.0), g.1)); } }
            for (n, _) in m.iter_all() { if !want.contains_key(n.as_str()) { return Err(format!("{} has {n:?}, which has no drawable line", SECTION[k])); } }
            for (n, w) in &want {
                let got: Vec<((u8, u8, u8), Vec<Vec<Pt>>)> = m.get_vec(*n).into_iter().flatten().map(|l| ((l.colour.r, l.colour.g, l.colour.b), l.lines.0.iter().map(|x| x.0.iter().map(|c| (c.y, c.x)).collect()).collect())).collect();
                let same = got.len() == w.len() && got.iter().zip(w).all(|(g, w)| g.0 == w.0 && g.1.len() == w.1.len() && g.1.iter().zip(&w.1).all(|(g, w)| g.len() == w.len() && g.iter().zip(w).all(|(g, w)| { let d = deg(*w); (g.0 - d.0).abs() < 1e-9 && (g.1 - d.1).abs() < 1e-9 })));
                if !same { return Err(format!("{} {n:?} is drawn as {got:?}, expected {w:?}", SECTION[k])); }
            }
        }
        for n in ENTRY {
            let got: Vec<(String, Vec<Pt>)> = it.regions.get_vec(n).into_iter().flatten().map(|x| (x.colour_name.clone(), x.polygon.iter().map(|p| (p.y, p.x)).collect())).collect();
            let want: Vec<(String, Vec<Pt>)> = c.regions.iter().filter(|x| ENTRY[x.0 as usize % 3] == n).map(|x| (COL[x.1 as usize % 3].0.to_string(), x.2.iter().map(|p| deg(AT[*p as usize % 6])).collect())).collect();
            if got.len() != want.len() || got.iter().zip(&want).any(|(g, w)| g.0 != w.0 || g.1.len() != w.1.len() || g.1.iter().zip(&w.1).any(|(a, b)| (a.0 - b.0).abs() > 1e-9 || (a.1 - b.1).abs() > 1e-9)) { return Err(format!("region {n:?}: {got:?}, the file says {want:?}")); }
            let got: Vec<String> = it.labels.get_vec(n).into_iter().flatten().map(|x| x.colour_name.clone()).collect();
            let want: Vec<String> = c.labels.iter().filter(|x| ENTRY[x.0 as usize % 3] == n).map(|x| COL[x.1 as usize % 3].0.to_string()).collect();
            if got != want { return Err(format!("label {n:?}: {got:?}, the file says {want:?}")); }
        }
        Ok(if c.entries.is_empty() && c.regions.is_empty() && c.labels.is_empty() { Out::Trivial } else { Out::Ok })
    }
    fn shrink(c: &Case28) -> Vec<Case28> {
        let mut o = vec![];
        for v in drop_one(&c.entries) { o.push(Case28 { entries: v, ..c.clone() }); }
        for v in drop_one(&c.regions) { o.push(Case28 { regions: v, ..c.clone() }); }
        for v in drop_one(&c.labels) { o.push(Case28 { labels: v, ..c.clone() }); }
        for (i, e) in c.entries.iter().enumerate() { for v in drop_one(&e.segs) { let fix = |e: &End| matches!(e, End::Fix(_) | End::Lost(_)); if v.first().is_none_or(|x| fix(&x.0) != fix(&x.1)) { continue; } let mut d = c.clone(); d.entries[i].segs = v; o.push(d); } }
        o
    }
}
