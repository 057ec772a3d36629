//! C01/C02: executable contracts of the airway graph, over airway.txt texts.
use crate::ctx::*;
use geo::Point;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use vatsim_parser::adaptation::locations::{airways::AirwayGraph, Fix, Locations};
use vatsim_parser::airway::parse_airway_txt;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Seg { awy: String, from: (String, usize), to: (String, usize), valid: bool, lvl: Option<u32> }
/// positions; 0 and 1 are the same to a millionth of a degree
const POS: [(f64, f64); 6] = [(50.0, 10.0), (50.0000001, 10.0000002), (50.000002, 10.0), (50.0, 10.000002), (-33.5, -179.25), (10.0, 50.0)];
type Key = (String, (i64, i64));
fn q(p: (f64, f64)) -> (i64, i64) { ((p.1 * 1e6).round() as i64, (p.0 * 1e6).round() as i64) }
fn qp(p: Point) -> (i64, i64) { ((p.x() * 1e6).round() as i64, (p.y() * 1e6).round() as i64) }
fn key(n: &(String, usize)) -> Key { (n.0.clone(), q(POS[n.1])) }
fn point(i: usize) -> Point { Point::new(POS[i].1, POS[i].0) }

pub fn text(s: &[Seg]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        let a = &s[i];
        // two neighbours share a line when they start at the same waypoint and airway
        let two = i + 1 < s.len() && s[i + 1].awy == a.awy && s[i + 1].from == a.from;
        let p = POS[a.from.1];
        o.push_str(&format!("{}\t{:.7}\t{:.7}\t14\t{}\tB", a.from.0, p.0, p.1, a.awy));
        let n = if two { 2 } else { 1 };
        for x in &s[i..i + n] {
            let t = POS[x.to.1];
            let l = match x.lvl { Some(l) => format!("{l:05}"), None => if x.valid { "NESTB".into() } else { String::new() } };
            o.push_str(&format!("\t{}\t{:.7}\t{:.7}\t{}\t{}", x.to.0, t.0, t.1, l, if x.valid { "Y" } else { "N" }));
        }
        if !two { o.push_str("\t0\t0\t0\t0\t0N"); }
        o.push_str("\r\n");
        i += n;
    }
    o
}

pub struct Model { pub rel: BTreeMap<(String, Key, Key), (bool, Option<u32>)>, pub nodes: BTreeSet<Key> }
fn model(s: &[Seg]) -> Model {
    let mut m = Model { rel: BTreeMap::new(), nodes: BTreeSet::new() };
    for x in s {
        let (f, t) = (key(&x.from), key(&x.to));
        m.nodes.insert(f.clone());
        m.nodes.insert(t.clone());
    }
    // straight from the statement: over all segments, no incremental state
    for a in s.iter().map(|x| x.awy.clone()).collect::<BTreeSet<_>>() {
        for k1 in &m.nodes {
            for k2 in &m.nodes {
                let join: Vec<&Seg> = s.iter().filter(|x| x.awy == a && (key(&x.from) == *k1 && key(&x.to) == *k2 || key(&x.from) == *k2 && key(&x.to) == *k1)).collect();
                if join.is_empty() { continue; }
                let valid = s.iter().any(|x| x.awy == a && x.valid && key(&x.from) == *k1 && key(&x.to) == *k2);
                let lvl = join.iter().filter_map(|x| x.lvl).min();
                m.rel.insert((a.clone(), k1.clone(), k2.clone()), (valid, lvl));
            }
        }
    }
    m
}
impl Model {
    fn nb(&self, a: &str, k: &Key) -> Vec<Key> { self.rel.keys().filter(|(w, k1, _)| w == a && k1 == k).map(|x| x.2.clone()).collect() }
    fn on(&self, a: &str, k: &Key) -> bool { self.rel.keys().any(|(w, k1, _)| w == a && k1 == k) }
}

pub fn gen_segs(r: &mut Rng, size: usize) -> Vec<Seg> {
    let names = ["A", "B", "C", "D", "E", "F1"];
    let awys = ["L1", "M2", "A"];
    let nn = 2 + r.below(names.len() - 1);
    let na = 1 + r.below(awys.len());
    let npos = if r.chance(1, 2) { 1 } else { POS.len() };
    let chain = r.chance(1, 2);
    let n = 1 + r.below(size.min(14));
    let mut v = vec![];
    for i in 0..n {
        let (f, t) = if chain && !r.chance(1, 6) { (i % nn, (i + 1) % nn) } else { (r.below(nn), r.below(nn)) };
        let mut s = Seg { awy: awys[r.below(na)].into(), from: (names[f].into(), r.below(npos)), to: (names[t].into(), r.below(npos)), valid: r.chance(2, 3), lvl: if r.chance(1, 3) { None } else { Some(*r.pick(&[0, 1000, 2450, 5000, 19500])) } };
        if r.chance(1, 3) { std::mem::swap(&mut s.from, &mut s.to); }
        v.push(s);
    }
    v
}
/// all sequences of up to two segments over two names, two positions
fn small_segs(i: u64) -> Option<Vec<Seg>> {
    const ONE: u64 = 4 * 4 * 2 * 3 * 2;
    let one = |mut k: u64| {
        let mut d = |n: u64| { let r = k % n; k /= n; r as usize };
        let nd = |x: usize| (["A", "B"][x % 2].to_string(), [0, 2][x / 2]);
        let (f, t, v, l, w) = (d(4), d(4), d(2), d(3), d(2));
        Seg { from: nd(f), to: nd(t), valid: v == 1, lvl: [None, Some(1000), Some(2000)][l], awy: ["L1", "M2"][w].into() }
    };
    if i == 0 { return None.or(Some(vec![one(0)])); }
    if i < ONE { return Some(vec![one(i)]); }
    let j = i - ONE;
    if j < ONE * ONE { return Some(vec![one(j / ONE), one(j % ONE)]); }
    None
}

fn check_graph(segs: &[Seg], g: &AirwayGraph, m: &Model) -> Result<(), String> {
    let j = serde_json::to_value(g).map_err(|e| e.to_string())?;
    // observed through the serialised graph, when it has the known shape
    let Some(seen) = (|| {
        let fixes = j["fixes"].as_array()?;
        let names = j["fix_name_by_id"].as_array()?;
        let awys = j["airway_name_by_id"].as_array()?;
        let mut rel: BTreeMap<(String, Key, Key), (bool, Option<u32>)> = BTreeMap::new();
        let mut dup = None;
        let k = |i: usize| -> Option<Key> {
            let p = &fixes.get(i)?["position"];
            let c: Point = serde_json::from_value(p.clone()).ok()?;
            Some((names.get(i)?.as_str()?.to_string(), qp(c)))
        };
        let mut nodes = vec![];
        for (i, f) in fixes.iter().enumerate() {
            nodes.push(k(i)?);
            for (a, es) in f["edges"].as_object()? {
                let an = awys.get(a.parse::<usize>().ok()?)?.as_str()?.to_string();
                for e in es.as_array()? {
                    let t = e["to"].as_u64()? as usize;
                    let v = (e["valid_direction"].as_bool()?, e["minimum_level"].as_u64().map(|x| x as u32));
                    let kk = (an.clone(), k(i)?, k(t)?);
                    if rel.insert(kk.clone(), v).is_some() { dup = Some(kk); }
                }
            }
        }
        Some((rel, nodes, dup))
    })() else { return Ok(()) };
    let (rel, nodes, dup) = seen;
    if let Some(d) = dup { return Err(format!("edge recorded twice: {d:?}")); }
    let set: BTreeSet<Key> = nodes.iter().cloned().collect();
    if set.len() != nodes.len() { return Err(format!("a waypoint is recorded twice: {nodes:?}")); }
    if set != m.nodes { return Err(format!("waypoints recorded {set:?}, inserted {:?}", m.nodes)); }
    for (k, v) in &m.rel { if rel.get(k) != Some(v) { return Err(format!("segment {k:?}: expected (valid, level) {v:?}, recorded {:?}; inserted {segs:?}", rel.get(k))); } }
    for (k, v) in &rel { if !m.rel.contains_key(k) { return Err(format!("recorded {k:?} {v:?}, never inserted")); } }
    Ok(())
}

fn check_expand(g: &AirwayGraph, m: &Model, loc: &Locations, internal: &BTreeSet<Key>, start: &(String, usize), end: &str, awy: &str) -> Result<bool, String> {
    let sf = Fix { designator: start.0.clone(), coordinate: point(start.1) };
    let r = g.expand_airway_segment(&sf, end, awy, loc);
    let sk = key(start);
    let starts: Vec<Key> = if m.nodes.contains(&sk) { if m.on(awy, &sk) { vec![sk] } else { vec![] } } else { m.nodes.iter().filter(|k| k.0 == start.0 && m.on(awy, k)).cloned().collect() };
    let ends: Vec<Key> = m.nodes.iter().filter(|k| k.0 == end && m.on(awy, k)).cloned().collect();
    let what = format!("expanding {} from {start:?} to {end}", awy);
    match r {
        Some(p) => {
            if p.is_empty() { return Err(format!("{what}: empty")); }
            let ks: Vec<Key> = p.iter().map(|x| (x.0.fix.designator.clone(), qp(x.0.fix.coordinate))).collect();
            let last = ks.last().unwrap();
            if !ends.contains(last) { return Err(format!("{what}: ends at {last:?}")); }
            if ks[..ks.len() - 1].contains(last) { return Err(format!("{what}: goes past the end")); }
            let ok = starts.iter().any(|s| {
                let full: Vec<Key> = std::iter::once(s.clone()).chain(ks.iter().cloned()).collect();
                (0..p.len()).all(|i| m.rel.get(&(awy.to_string(), full[i].clone(), full[i + 1].clone())) == Some(&(p[i].0.valid_direction, p[i].0.minimum_level)))
                    && (2..full.len()).all(|i| full[i] != full[i - 2])
            });
            if !ok { return Err(format!("{what}: {:?} is not a path along the airway with the flags of its segments (start candidates {starts:?})", p.iter().map(|x| (&x.0.fix.designator, x.0.fix.coordinate, x.0.valid_direction, x.0.minimum_level)).collect::<Vec<_>>())); }
            for (i, x) in p.iter().enumerate() { if x.1 != internal.contains(&ks[i]) { return Err(format!("{what}: {:?} reported internal={}", ks[i], x.1)); } }
            Ok(true)
        }
        None => {
            if starts.len() != 1 || ends.len() != 1 { return Ok(false); }
            let (s, e) = (&starts[0], &ends[0]);
            if m.nb(awy, s).len() > 2 { return Ok(true); }
            for first in m.nb(awy, s) {
                let mut prev = s.clone();
                let mut cur = first.clone();
                for _ in 0..=m.nodes.len() + 1 {
                    if cur == prev { break; }
                    if cur == *e { return Err(format!("{what}: nothing, although following the airway unbranched from the start by {first:?} reaches the end")); }
                    let nb = m.nb(awy, &cur);
                    if nb.len() > 2 { break; }
                    let next: Vec<Key> = nb.into_iter().filter(|k| *k != prev).collect();
                    if next.len() != 1 { break; }
                    prev = cur;
                    cur = next[0].clone();
                }
            }
            Ok(true)
        }
    }
}

pub struct C01;
pub struct C02;
fn both(segs: &[Seg], graph: bool) -> Res {
    if segs.is_empty() { return Ok(Out::Trivial); }
    let t = text(segs);
    let g = parse_airway_txt(t.as_bytes()).map_err(|e| format!("not parsed: {e}"))?;
    let m = model(segs);
    let mut loc = Locations::default();
    let mut internal = BTreeSet::new();
    for (i, k) in m.nodes.iter().enumerate() {
        if i % 2 == 0 && !internal.iter().any(|x: &Key| x.0 == k.0) {
            internal.insert(k.clone());
            loc.fixes.insert(k.0.clone(), Fix { designator: k.0.clone(), coordinate: Point::new(k.1 .0 as f64 / 1e6, k.1 .1 as f64 / 1e6) });
        }
    }
    if graph { check_graph(segs, &g, &m)?; }
    let mut any = false;
    let awys: BTreeSet<&str> = segs.iter().map(|s| s.awy.as_str()).chain(["ZZ9"]).collect();
    let mut points: Vec<(String, usize)> = segs.iter().flat_map(|s| [s.from.clone(), s.to.clone()]).collect();
    points.push((points[0].0.clone(), 4));
    points.push(("NOPE".into(), 0));
    points.sort();
    points.dedup();
    for a in awys { for s in &points { for e in points.iter().map(|p| p.0.as_str()).collect::<BTreeSet<_>>() { any |= check_expand(&g, &m, &loc, &internal, s, e, a)?; } } }
    Ok(if any { Out::Ok } else { Out::Trivial })
}
impl Prop for C01 {
    const ID: &'static str = "C01";
    const RULE: &'static str = "airway.txt texts: every sequence of up to two segments over two names x two positions x two airways x three levels x both directions, then random sequences of up to 14 segments over 6 names, 6 positions (two equal to 1e-6 degrees), 3 airways; the parsed graph is compared with the relation computed from the whole history. Non-trivial: at least one expansion query is decided.";
    type Case = Vec<Seg>;
    fn small(i: u64) -> Option<Vec<Seg>> { small_segs(i) }
    fn gen(r: &mut Rng, size: usize) -> Vec<Seg> { gen_segs(r, size) }
    fn check(c: &Vec<Seg>) -> Res { both(c, true) }
    fn shrink(c: &Vec<Seg>) -> Vec<Vec<Seg>> { drop_one(c) }
}
impl Prop for C02 {
    const ID: &'static str = "C02";
    const RULE: &'static str = "random airway.txt texts (as C01, chains and random joins), all (start, end, airway) queries over their waypoints plus unknown ones, checked against the path conditions on the relation computed from the history";
    type Case = Vec<Seg>;
    fn gen(r: &mut Rng, size: usize) -> Vec<Seg> { gen_segs(r, size) }
    fn check(c: &Vec<Seg>) -> Res { both(c, false) }
    fn shrink(c: &Vec<Seg>) -> Vec<Vec<Seg>> { drop_one(c) }
}
