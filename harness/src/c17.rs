//! C17: which fixes are the same waypoint.
use crate::ctx::*;
use geo::{Coord, Point};
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use vatsim_parser::adaptation::locations::{Fix, GraphPosition};

/// name and the bits of both coordinates
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct F(String, u64, u64);
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { fixes: Vec<F> }
/// x * 10^6 rounded half away from zero, exactly; None when within a billionth of a tie or out of range
fn cell(bits: u64) -> Option<i128> {
    let x = f64::from_bits(bits);
    if !x.is_finite() || x.abs() > 1e6 { return None; }
    let e = ((bits >> 52) & 0x7FF) as i32;
    let m = (bits & ((1 << 52) - 1)) as i128 | if e > 0 { 1 << 52 } else { 0 };
    let p = e.max(1) - 1075; // |x| = m * 2^p
    let n = m * 1_000_000; // < 2^73
    if p >= 0 { return Some(if x < 0.0 { -(n << p) } else { n << p }); }
    let s = -p as u32;
    if s > 100 { return Some(0); }
    let (q, r) = (n >> s, n & ((1i128 << s) - 1));
    let half = 1i128 << (s - 1);
    // the product is rounded to 53 bits before it is rounded to an integer
    let slack = ((n >> 50) + 1).max(1);
    if (r - half).abs() <= slack { return None; }
    let k = q + i128::from(r > half);
    Some(if x < 0.0 { -k } else { k })
}
fn fix(f: &F) -> Fix { Fix { designator: f.0.clone(), coordinate: Point(Coord { x: f64::from_bits(f.1), y: f64::from_bits(f.2) }) } }
fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn coord(r: &mut Rng, base: &mut Vec<f64>) -> f64 {
    if !base.is_empty() && r.chance(4, 5) {
        let b = *r.pick(base);
        let k = (b * 1e6).round();
        return match r.below(12) {
            0 => b,
            1 => -b,
            2 => f64::from_bits(b.to_bits().wrapping_add(1)),
            3 => f64::from_bits(b.to_bits().wrapping_sub(1)),
            4 => b + 1e-6,
            5 => b - 1e-6,
            6 => (k + 0.499) / 1e6,
            7 => (k - 0.499) / 1e6,
            8 => (k + 0.501) / 1e6,
            9 => (k - 0.501) / 1e6,
            10 => (k + 0.5) / 1e6,
            _ => (k + r.f() * 2.0 - 1.0) / 1e6,
        };
    }
    let v = match r.below(12) { 0 => 0.0, 1 => -0.0, 2 => f64::NAN, 3 => f64::INFINITY, 4 => 1e300, 5 => 4e-7, 6 => -4e-7, 7 => 5e-7, 8 => 180.0, _ => r.f() * 360.0 - 180.0 };
    base.push(v);
    v
}
pub struct C17;
impl Prop for C17 {
    const ID: &'static str = "C17";
    const RULE: &'static str = "groups of fixes whose coordinates lie at, just below, just above and opposite each other's millionth-of-a-degree cells (with zeros of both signs, swapped axes, non-finite values), names equal or nearly equal; pairs, triples and tables";
    type Case = Case;
    fn gen(r: &mut Rng, size: usize) -> Case {
        let n = 2 + r.below(size.min(8));
        let mut base = vec![];
        let mut fixes: Vec<F> = vec![];
        for _ in 0..n {
            let name = r.pick(&["AAA", "AAA", "AAA", "AAB", "aaa", "AAA ", "", "AA"]).to_string();
            if !fixes.is_empty() && r.chance(1, 4) { let o = r.pick(&fixes).clone(); fixes.push(match r.below(3) { 0 => F(o.0, o.2, o.1), 1 => F(name, o.1, o.2), _ => F(o.0, o.1, coord(r, &mut base).to_bits()) }); continue; }
            fixes.push(F(name, coord(r, &mut base).to_bits(), coord(r, &mut base).to_bits()));
        }
        Case { fixes }
    }
    fn check(c: &Case) -> Res {
        let v: Vec<Fix> = c.fixes.iter().map(fix).collect();
        let mut seen = false;
        for i in 0..v.len() {
            if v[i] != v[i] { return Err(format!("{:?} is not equal to itself", v[i])); }
            for j in 0..v.len() {
                let eq = v[i] == v[j];
                if eq != (v[j] == v[i]) { return Err(format!("{:?} and {:?}: equality is not symmetric", v[i], v[j])); }
                if eq == (v[i] != v[j]) { return Err(format!("{:?} and {:?}: == and != disagree", v[i], v[j])); }
                if eq && hash(&v[i]) != hash(&v[j]) { return Err(format!("{:?} equals {:?} but hashes differently", v[i], v[j])); }
                let pos = GraphPosition(v[i].coordinate) == GraphPosition(v[j].coordinate);
                if eq != (pos && v[i].designator == v[j].designator) { return Err(format!("{:?} == {:?} is {eq}, but names equal: {}, positions equal: {pos}", v[i], v[j], v[i].designator == v[j].designator)); }
                let (a, b) = (&c.fixes[i], &c.fixes[j]);
                let agree = |p: u64, q: u64| if p == q { Some(true) } else { match (cell(p), cell(q)) { (Some(x), Some(y)) => Some(x == y), _ => None } };
                let want = match (agree(a.1, b.1), agree(a.2, b.2)) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None };
                if let Some(w) = want {
                    if w != pos { return Err(format!("positions {:?} and {:?}: equal is {pos}, expected {w}", v[i].coordinate, v[j].coordinate)); }
                    if i != j { seen = true; }
                }
                for k in 0..v.len() { if eq && v[j] == v[k] && v[i] != v[k] { return Err(format!("{:?}, {:?}, {:?}: equality is not transitive", v[i], v[j], v[k])); } }
            }
        }
        let mut classes: Vec<usize> = vec![];
        for i in 0..v.len() { if !classes.iter().any(|&k| v[k] == v[i]) { classes.push(i); } }
        let set: HashSet<Fix> = v.iter().cloned().collect();
        if set.len() != classes.len() { return Err(format!("a set of {v:?} has {} keys, expected {}", set.len(), classes.len())); }
        let mut m: HashMap<Fix, usize> = HashMap::new();
        for (i, f) in v.iter().enumerate() { m.insert(f.clone(), i); }
        for f in &v { let last = (0..v.len()).rev().find(|&k| v[k] == *f).unwrap(); if m.get(f) != Some(&last) { return Err(format!("table lookup of {f:?}: {:?}, expected {last}", m.get(f))); } }
        Ok(if seen { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> { drop_one(&c.fixes).into_iter().map(|f| Case { fixes: f }).collect() }
}
