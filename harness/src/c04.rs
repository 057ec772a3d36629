//! C04: coordinate waypoints.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use vatsim_parser::adaptation::locations::Locations;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case(String);
/// the padded spelling, latitude and longitude a string stands for
pub fn spell(s: &str) -> Option<(String, f64, f64)> {
    let c: Vec<char> = s.chars().collect();
    let run = |from: usize| c[from..].iter().take_while(|x| ('0'..='9').contains(*x)).count();
    let a = run(0);
    if !(1..=6).contains(&a) || a >= c.len() { return None; }
    let south = match c[a] { 'N' => false, 'S' => true, _ => return None };
    let b = run(a + 1);
    if !(2..=7).contains(&b) || c.len() != a + b + 2 { return None; }
    let west = match c[a + 1 + b] { 'E' => false, 'W' => true, _ => return None };
    let part = |ds: &[char], full: [usize; 3]| -> Option<(String, usize, f64)> {
        let mut t: String = ds.iter().collect();
        if full.contains(&(t.len() + 1)) { if t.starts_with('0') { return None; } t.insert(0, '0'); }
        let k = full.iter().position(|&n| n == t.len())?;
        let n: u32 = t.parse().ok()?;
        let v = match k { 0 => f64::from(n), 1 => f64::from(n / 100) + f64::from(n % 100) / 60.0, _ => f64::from(n / 10_000) + f64::from(n / 100 % 100) / 60.0 + f64::from(n % 100) / 3600.0 };
        Some((t, k, v))
    };
    let (la, lk, lv) = part(&c[..a], [2, 4, 6])?;
    let (lo, ok, ov) = part(&c[a + 1..a + 1 + b], [3, 5, 7])?;
    if lk != ok { return None; }
    Some((format!("{la}{}{lo}{}", c[a], c[a + 1 + b]), if south { -lv } else { lv }, if west { -ov } else { ov }))
}
fn digits(r: &mut Rng, n: usize) -> String { (0..n).map(|_| *r.pick(&['0', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9'])).collect() }
pub struct C04;
impl Prop for C04 {
    const ID: &'static str = "C04";
    const RULE: &'static str = "every combination of 0..8 latitude and 0..9 longitude digits with leading zero or not, every hemisphere letter pair, then random literals mutated by inserted, dropped, repeated, swapped, lower-case, non-ASCII (including non-ASCII digits) and control characters and line breaks";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        let (h, i) = (i % 4, i / 4);
        let (z, i) = (i % 4, i / 4);
        let (v, i) = (i % 3, i / 3);
        let (a, b) = ((i % 9) as usize, (i / 9) as usize);
        if b > 9 { return None; }
        let d = |n: usize, zero: bool| -> String { (0..n).map(|k| if k == 0 { if zero { '0' } else { '7' } } else { char::from(b'0' + ((k as u64 * [3, 7, 5][v as usize] + v) % 10) as u8) }).collect() };
        Some(Case(format!("{}{}{}{}", d(a, z & 1 == 1), if h & 1 == 0 { 'N' } else { 'S' }, d(b, z & 2 == 2), if h & 2 == 0 { 'E' } else { 'W' })))
    }
    fn gen(r: &mut Rng, _size: usize) -> Case {
        let k = r.below(3);
        let short = (r.chance(1, 3) as usize, r.chance(1, 3) as usize);
        let (la, lo) = ([2, 4, 6][k] - short.0, [3, 5, 7][if r.chance(1, 8) { r.below(3) } else { k }] - short.1);
        let mut s: Vec<char> = format!("{}{}{}{}", digits(r, la), r.pick(&["N", "S"]), digits(r, lo), r.pick(&["E", "W"])).chars().collect();
        if r.chance(1, 3) {
            for _ in 0..=r.below(2) {
                let at = r.below(s.len() + 1);
                let x = *r.pick(&['0', '9', 'N', 'S', 'E', 'W', 'n', 'e', ' ', '\n', '\r', '\t', '.', '-', '+', '٣', '0', '𝟘', 'é', 'A', '\0']);
                match r.below(4) { 0 => s.insert(at, x), 1 => { if at < s.len() { s.remove(at); } } 2 => { if at < s.len() { s[at] = x; } } _ => { if at + 1 < s.len() { s.swap(at, at + 1); } } }
            }
        }
        Case(s.into_iter().collect())
    }
    fn check(c: &Case) -> Res {
        let l = Locations::default();
        let got = l.convert_designator(&c.0);
        let want = spell(&c.0);
        match (&got, &want) {
            (None, None) => {}
            (Some(f), Some((n, la, lo))) => {
                if f.designator != *n { return Err(format!("{:?} becomes {:?}, expected {n:?}", c.0, f.designator)); }
                if (f.coordinate.y() - la).abs() > 1e-9 || (f.coordinate.x() - lo).abs() > 1e-9 { return Err(format!("{:?} lies at {:?}, expected latitude {la}, longitude {lo}", c.0, f.coordinate)); }
                // the padded form spells the same position
                let again = l.convert_designator(n);
                if again.as_ref() != Some(f) { return Err(format!("padded form {n:?} of {:?} converts to {again:?}", c.0)); }
            }
            _ => return Err(format!("{:?} converts to {got:?}, expected {want:?}", c.0)),
        }
        Ok(if want.is_some() || c.0.len() > 3 { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> { drop_one(&c.0.chars().collect::<Vec<_>>()).into_iter().map(|v| Case(v.into_iter().collect())).collect() }
}
