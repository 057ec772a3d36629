//! C05, C06: sector borders and the grouping of volumes, on Ese values built directly.
use crate::ctx::*;
use geo::{Coord, LineString};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use vatsim_parser::adaptation::{maps::active::RunwayIdentifier, sectors::Sectors};
use vatsim_parser::ese::{Ese, Sector, SectorLine};

/// a point in millionths of a degree, and how far off the exact value it is written (tenths of a millionth, |.| <= 4)
pub type Pt = (i64, i64, i8, i8);
pub type Border = Vec<Vec<Pt>>;
type Q = (i64, i64);
fn coord(p: &Pt) -> Coord { Coord { x: (p.0 as f64 + f64::from(p.2) / 10.0) / 1e6, y: (p.1 as f64 + f64::from(p.3) / 10.0) / 1e6 } }
pub fn lines(b: &Border) -> Vec<SectorLine> { b.iter().map(|l| SectorLine { points: LineString(l.iter().map(coord).collect()) }).collect() }
/// the border's segments
pub fn segments(b: &Border) -> Vec<(Q, Q)> { b.iter().flat_map(|l| l.windows(2).map(|w| ((w[0].0, w[0].1), (w[1].0, w[1].1))).collect::<Vec<_>>()).collect() }
fn und(e: &(Q, Q)) -> (Q, Q) { if e.0 <= e.1 { *e } else { (e.1, e.0) } }
fn bag(e: impl Iterator<Item = (Q, Q)>) -> BTreeMap<(Q, Q), usize> { let mut m = BTreeMap::new(); for x in e { *m.entry(und(&x)).or_insert(0) += 1; } m }
/// the segments can be walked as one closed circuit: there are some, every degree is even and they hang together
pub fn closable(s: &[(Q, Q)]) -> bool {
    if s.is_empty() { return false; }
    let mut deg: BTreeMap<Q, usize> = BTreeMap::new();
    for (a, b) in s { *deg.entry(*a).or_insert(0) += 1; *deg.entry(*b).or_insert(0) += 1; }
    if deg.values().any(|d| d % 2 == 1) { return false; }
    let mut seen = BTreeSet::from([s[0].0]);
    loop {
        let n = seen.len();
        for (a, b) in s { if seen.contains(a) || seen.contains(b) { seen.insert(*a); seen.insert(*b); } }
        if seen.len() == n { break; }
    }
    deg.keys().all(|v| seen.contains(v))
}
pub fn ring_is(b: &Border, ring: &LineString) -> Result<(), String> {
    let q: Vec<Q> = ring.0.iter().map(|c| ((c.x * 1e6).round() as i64, (c.y * 1e6).round() as i64)).collect();
    if q.first() != q.last() { return Err(format!("the ring {q:?} is not closed")); }
    if let Some(c) = ring.0.iter().zip(&q).find(|(c, q)| (c.x - q.0 as f64 / 1e6).abs() > 1e-12 * (1.0 + c.x.abs()) || (c.y - q.1 as f64 / 1e6).abs() > 1e-12 * (1.0 + c.y.abs())) { return Err(format!("the ring passes {c:?}")); }
    let (want, got) = (bag(segments(b).into_iter()), bag(q.windows(2).map(|w| (w[0], w[1]))));
    if want != got { return Err(format!("the ring {q:?} does not use every segment exactly once: segments {:?}", segments(b))); }
    Ok(())
}
fn sector(id: &str, b: &Border) -> Sector { Sector { id: id.into(), bottom: 0, top: 1, border: lines(b), owner_priority: vec![], departure_airports: vec![], arrival_airports: vec![], runway_filter: vec![] } }

const GRID: [i64; 4] = [0, 1, 11_000_000, -999_000_000];
pub fn vertex(r: &mut Rng, n: usize) -> Pt { let k = r.below(n); (GRID[k % 4], GRID[(k / 4) % 4] + (k / 16) as i64 * 7, 0, 0) }
/// a closed walk cut into lines, some of them turned round, in any order
pub fn cut(r: &mut Rng, walk: &[Pt]) -> Border {
    let mut b: Border = vec![];
    let mut i = 0;
    while i + 1 < walk.len() { let n = 1 + r.below(walk.len() - 1 - i).min(r.below(6)); let mut l = walk[i..=i + n].to_vec(); if r.chance(1, 2) { l.reverse(); } b.push(l); i += n; }
    for i in (1..b.len()).rev() { let j = r.below(i + 1); b.swap(i, j); }
    b
}
pub fn border(r: &mut Rng, s: usize) -> Border {
    let nv = r.below(s.min(18)) + 1;
    let n = r.below(s) + 1;
    let start = vertex(r, nv);
    let mut walk = vec![start];
    for _ in 0..n { walk.push(vertex(r, nv)); }
    if r.chance(9, 10) { walk.push(start); }
    let mut b = cut(r, &walk);
    if r.chance(1, 12) { let w = [start, vertex(r, nv), vertex(r, nv), start]; let w: Vec<Pt> = w.iter().map(|p| (p.0 + 500, p.1 + 500, 0, 0)).collect(); b.extend(cut(r, &w)); }
    match r.below(14) {
        0 if !b.is_empty() => { let k = r.below(b.len()); b.remove(k); }
        1 if !b.is_empty() => { let k = r.below(b.len()); let d = b[k].clone(); b.push(d); }
        2 => { let p = vertex(r, nv); b.push(vec![p, p]); }
        3 => b.push(vec![vertex(r, nv), vertex(r, nv)]),
        4 => { let k = r.below(b.len() + 1); let p = vertex(r, nv); b.insert(k, if r.chance(1, 2) { vec![] } else { vec![p] }); }
        5 if !b.is_empty() => { let k = r.below(b.len()); b[k].pop(); }
        _ => {}
    }
    if r.chance(1, 2) { for l in &mut b { for p in l { p.2 = r.range(-4, 4) as i8; p.3 = r.range(-4, 4) as i8; } } }
    b
}
pub struct C05;
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { border: Border }
impl Prop for C05 {
    const ID: &'static str = "C05";
    const RULE: &'static str = "all borders of up to 4 single-segment lines over 3 points (loops, repeats, both directions), then closed and open walks of up to 42 segments over up to 18 points, cut into turned and shuffled lines, with lines dropped, repeated, empty or degenerate, separate components and coordinates up to 0.4 millionths off; oracle: the segments can be walked as one circuit exactly if all degrees are even and they are connected";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        let p: [Pt; 3] = [(0, 0, 0, 0), (1, 0, 3, -4), (5_000_000, 7_000_000, 0, 0)];
        let (mut i, mut n) = (i, 0u32);
        while i >= 9u64.pow(n) { i -= 9u64.pow(n); n += 1; if n > 4 { return None; } }
        Some(Case { border: (0..n).map(|_| { let k = (i % 9) as usize; i /= 9; vec![p[k / 3], p[k % 3]] }).collect() })
    }
    fn gen(r: &mut Rng, s: usize) -> Case { Case { border: border(r, s) } }
    fn check(c: &Case) -> Res {
        let mut e = Ese::default();
        e.sectors.insert("S".into(), sector("S", &c.border));
        let (v, s) = Sectors::from_ese(&e);
        let seg = segments(&c.border);
        let ok = closable(&seg);
        if ok != v.contains_key("S") { return Err(format!("segments {seg:?} {} one closed circuit, but {}", if ok { "are" } else { "are not" }, if ok { "there is no polygon" } else { "a polygon is built" })); }
        if s.0.len() != usize::from(ok) || v.len() != usize::from(ok) { return Err(format!("{} sectors, {} volumes", s.0.len(), v.len())); }
        if let Some(v) = v.get("S") {
            ring_is(&c.border, v.lateral_border.exterior())?;
            if !v.lateral_border.interiors().is_empty() { return Err("the polygon has holes".into()); }
        }
        Ok(if seg.is_empty() { Out::Trivial } else { Out::Ok })
    }
    fn shrink(c: &Case) -> Vec<Case> { small_border(&c.border).into_iter().map(|border| Case { border }).collect() }
}
pub fn small_border(b: &Border) -> Vec<Border> {
    let mut o = drop_one(b);
    for (i, l) in b.iter().enumerate() { for m in drop_one(l) { let mut n = b.clone(); n[i] = m; o.push(n); } }
    if b.iter().flatten().any(|p| p.2 != 0 || p.3 != 0) { o.push(b.iter().map(|l| l.iter().map(|p| (p.0, p.1, 0, 0)).collect()).collect()); }
    o
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Vol { id: String, bottom: u32, top: u32, border: Border, owner: Vec<String>, dep: Vec<String>, arr: Vec<String>, rwy: Vec<(String, String)> }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Groups { vols: Vec<Vol> }
pub struct C06;
const IDS: [&str; 12] = ["a", "b", "A", "AA", "B", "EDMM\u{b7}ALB", "EDMM\u{b7}ALB\u{b7}105", "0", "10", "9", "", "z"];
fn few(r: &mut Rng, s: &[&str]) -> Vec<String> { (0..r.below(3)).map(|_| r.pick(s).to_string()).collect() }
impl Prop for C06 {
    const ID: &'static str = "C06";
    const RULE: &'static str = "up to 12 volumes over few owner lists, runway conditions (also reordered, repeated and empty ones) and aerodromes, closable and unclosable borders; each Ese value is read three times, so that an answer depending on hash order shows; oracle: the groups of equal (owners, runway condition) among the closable ones, each named after its smallest volume";
    type Case = Groups;
    fn gen(r: &mut Rng, s: usize) -> Groups {
        let n = r.below(s.min(12)) + 1;
        let mut vols: Vec<Vol> = vec![];
        for _ in 0..n {
            let id = r.pick(&IDS).to_string();
            if vols.iter().any(|v| v.id == id) { continue; }
            let b = if r.chance(1, 2) { border(r, 6) } else { let k = r.below(3) as i64; vec![vec![(k, 0, 0, 0), (k, 900, 0, 0), (k + 900, 900, 0, 0), (k, 0, 0, 0)]] };
            let owner: Vec<String> = match r.below(6) { 0 => vec![], 1 => vec!["A".into()], 2 => vec!["A".into(), "B".into()], 3 => vec!["B".into(), "A".into()], 4 => vec!["A".into(), "A".into()], _ => vec!["B".into()] };
            let rwy = match r.below(8) { 0..=3 => vec![], 4 => vec![("EDDM", "08L")], 5 => vec![("EDDM", "26R")], 6 => vec![("EDDM", "08L"), ("EDDM", "08R")], _ => vec![("EDDM", "08R"), ("EDDM", "08L")] };
            vols.push(Vol { id, bottom: r.below(3) as u32, top: *r.pick(&[0, 1, 66000, u32::MAX]), border: b, owner, dep: few(r, &["EDDM", "EDDN", "EDMO"]), arr: few(r, &["EDDM", "EDDN", "EDMO"]), rwy: rwy.into_iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() });
        }
        Groups { vols }
    }
    fn check(c: &Groups) -> Res {
        let mut seen = 0;
        for _ in 0..3 { seen = once(c)?; }
        Ok(if seen == 0 { Out::Trivial } else { Out::Ok })
    }
    fn shrink(c: &Groups) -> Vec<Groups> {
        let mut o: Vec<Groups> = drop_one(&c.vols).into_iter().map(|vols| Groups { vols }).collect();
        for (i, v) in c.vols.iter().enumerate() {
            let mut put = |n: Vol| { let mut vols = c.vols.clone(); vols[i] = n; o.push(Groups { vols }); };
            for b in small_border(&v.border) { put(Vol { border: b, ..v.clone() }); }
            for d in drop_one(&v.dep) { put(Vol { dep: d, ..v.clone() }); }
            for d in drop_one(&v.arr) { put(Vol { arr: d, ..v.clone() }); }
        }
        o
    }
}
fn once(c: &Groups) -> Result<usize, String> {
    let mut e = Ese::default();
    for v in &c.vols {
        e.sectors.insert(v.id.clone(), Sector { id: v.id.clone(), bottom: v.bottom, top: v.top, border: lines(&v.border), owner_priority: v.owner.clone(), departure_airports: v.dep.clone(), arrival_airports: v.arr.clone(), runway_filter: v.rwy.iter().map(|(a, b)| RunwayIdentifier { icao: a.clone(), designator: b.clone() }).collect() });
    }
    let (vols, secs) = Sectors::from_ese(&e);
    let valid: Vec<&Vol> = c.vols.iter().filter(|v| closable(&segments(&v.border))).collect();
    if vols.len() != valid.len() { return Err(format!("{} volumes, {} have a valid border", vols.len(), valid.len())); }
    for v in &valid {
        let Some(g) = vols.get(&v.id) else { return Err(format!("volume {} is missing", v.id)) };
        if g.id != v.id || g.lower_level != v.bottom || g.upper_level != v.top { return Err(format!("volume {}: {} {} {}", v.id, g.id, g.lower_level, g.upper_level)); }
        ring_is(&v.border, g.lateral_border.exterior()).map_err(|w| format!("volume {}: {w}", v.id))?;
    }
    let mut groups: HashMap<(Vec<String>, Vec<(String, String)>), Vec<&Vol>> = HashMap::new();
    for v in &valid { groups.entry((v.owner.clone(), v.rwy.clone())).or_default().push(v); }
    if secs.0.len() != groups.len() { return Err(format!("{} sectors, {} combinations of owners and condition", secs.0.len(), groups.len())); }
    for ((owner, rwy), vs) in &groups {
        let id = vs.iter().map(|v| &v.id).min().unwrap();
        let Some(s) = secs.0.get(id) else { return Err(format!("no sector named {id} for owners {owner:?}, condition {rwy:?}; there are {:?}", secs.0.keys().collect::<Vec<_>>())) };
        if &s.id != id || &s.position_priority != owner { return Err(format!("sector {id}: {} owners {:?}, expected {owner:?}", s.id, s.position_priority)); }
        let f: Vec<Vec<(String, String)>> = s.runway_filter.iter().map(|l| l.iter().map(|r| (r.icao.clone(), r.designator.clone())).collect()).collect();
        if f != vec![rwy.clone()] { return Err(format!("sector {id}: condition {f:?}, expected {rwy:?}")); }
        let set = |f: fn(&Vol) -> Vec<String>| vs.iter().flat_map(|v| f(v)).collect::<BTreeSet<String>>();
        let eq = |a: &std::collections::HashSet<String>, b: BTreeSet<String>| a.iter().cloned().collect::<BTreeSet<String>>() == b;
        if !eq(&s.volumes, set(|v| vec![v.id.clone()])) { return Err(format!("sector {id}: volumes {:?}", s.volumes)); }
        if !eq(&s.departure_aerodromes, set(|v| v.dep.clone())) { return Err(format!("sector {id}: departure aerodromes {:?}", s.departure_aerodromes)); }
        if !eq(&s.arrival_aerodromes, set(|v| v.arr.clone())) { return Err(format!("sector {id}: arrival aerodromes {:?}", s.arrival_aerodromes)); }
        for v in vs { if secs.find_id_by_volume(&v.id) != Some(id) { return Err(format!("volume {} is looked up in {:?}, it belongs to {id}", v.id, secs.find_id_by_volume(&v.id))); } }
    }
    for v in &c.vols { if !valid.iter().any(|w| w.id == v.id) && secs.find_id_by_volume(&v.id).is_some() { return Err(format!("volume {} without a border is in a sector", v.id)); } }
    Ok(valid.len())
}
