//! C16: degrees, minutes, seconds to decimals and back.
use crate::c26::{coord, value};
use crate::ctx::*;
use geo::{Coord, Point};
use serde::{Deserialize, Serialize};
use vatsim_parser::adaptation::locations::Fix;
use vatsim_parser::ese::Ese;
use vatsim_parser::sct::Sct;
use vatsim_parser::{DegMinSecExt, Sign};

/// negative hemisphere, degrees, minutes, thousandths of a second
type D = (bool, u16, u8, u32);
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { dms: Vec<(D, D)>, lower: bool, print: Vec<(u64, u64)> }
fn tuple(d: &D) -> (Sign, u16, u8, f64) { (if d.0 { Sign::Neg } else { Sign::Pos }, d.1, d.2, f64::from(d.3) / 1000.0) }
/// hemisphere letter and whole thousandths of a second of a printed coordinate
fn read(s: &str, pos: char, neg: char) -> Result<(bool, u64), String> {
    let bad = || format!("{s:?} is not a coordinate");
    let h = s.chars().next().ok_or_else(bad)?;
    if h != pos && h != neg { return Err(format!("{s:?}: hemisphere {h}")); }
    let p: Vec<&str> = s[1..].split('.').collect();
    if p.len() != 4 || p.iter().any(|x| x.is_empty() || !x.bytes().all(|b| b.is_ascii_digit())) || p[3].len() != 3 { return Err(bad()); }
    let n: Vec<u64> = p.iter().map(|x| x.parse().unwrap()).collect();
    if n[1] >= 60 || n[2] >= 60 { return Err(format!("{s:?}: minutes and seconds must stay below 60")); }
    Ok((h == neg, n[0] * 3_600_000 + n[1] * 60_000 + n[2] * 1000 + n[3]))
}
/// is `t` thousandths within half a thousandth of |x| degrees (and float noise)?
fn near(t: u64, x: f64) -> bool { (x.abs() * 3_600_000.0 - t as f64).abs() <= 0.5 + 1e-6 }
fn printed(s: &str, x: f64, pos: char, neg: char) -> Result<(), String> {
    let (n, t) = read(s, pos, neg)?;
    if n != (x < 0.0) && x != 0.0 { return Err(format!("{x} is printed as {s:?}: wrong hemisphere")); }
    if !near(t, x) { return Err(format!("{x} is printed as {s:?}, which is {} thousandths of a second off", (x.abs() * 3_600_000.0 - t as f64).abs())); }
    Ok(())
}
fn back(got: f64, x: f64, what: &str) -> Result<(), String> { if (got - x).abs() * 3_600_000.0 <= 0.5 + 1e-5 && (got == 0.0 || x == 0.0 || (got < 0.0) == (x < 0.0) || got.abs() < 1e-12) { Ok(()) } else { Err(format!("{what}: {x} printed reads back as {got}")) } }
fn d(r: &mut Rng, max: i64) -> D {
    let s = match r.below(6) { 0 => 0, 1 => 59_999, 2 => r.below(60) as u32 * 1000, _ => r.below(60_000) as u32 };
    let m = match r.below(5) { 0 => 0, 1 => 59, _ => r.below(60) as u8 };
    let g = match r.below(6) { 0 => 0, 1 => max as u16, 2 => (max - 1) as u16, 3 => if r.chance(1, 4) { 999 } else { 1 }, _ => r.below(max as usize + 1) as u16 };
    (r.chance(1, 2), g, m, s)
}
fn dec(r: &mut Rng, max: i64) -> f64 {
    let g = match r.below(4) { 0 => r.range(0, 2), 1 => r.range(max - 2, max), _ => r.range(0, max) };
    let ms = match r.below(5) { 0 => 0, 1 => 60_000 * r.range(0, 59), 2 => 1000 * r.range(0, 3599), _ => r.range(0, 3_599_999) };
    let off = match r.below(8) { 0 | 1 => 0.0, 2 => -0.4999, 3 => 0.4999, 4 => -0.51, 5 => 0.51, 6 => -0.5, _ => r.f() * 2.0 - 1.0 };
    let mut x = (g as f64) + (ms as f64 + off) / 3_600_000.0;
    if r.chance(1, 6) { x = f64::from_bits(x.to_bits().wrapping_add(1)); }
    if r.chance(1, 6) && x > 0.0 { x = f64::from_bits(x.to_bits() - 1); }
    if r.chance(1, 40) { x = *r.pick(&[0.0, 1e-300, 1e-10, 1e-7, max as f64]); }
    let x = x.min(max as f64);
    if r.chance(1, 2) { -x } else { x }
}
pub struct C16;
impl Prop for C16 {
    const ID: &'static str = "C16";
    const RULE: &'static str = "degree/minute/second values with extremes in each field, both hemispheres, directly and through sector and ESE texts (upper and lower case); decimals at, just below and just above whole degrees, minutes, seconds, thousandths and half thousandths, printed, read back directly and through a printed and re-read sector file";
    type Case = Case;
    fn gen(r: &mut Rng, size: usize) -> Case {
        let n = 1 + r.below(size);
        Case { dms: (0..n).map(|_| (d(r, 89), d(r, 179))).collect(), lower: r.chance(1, 4), print: (0..n).map(|_| (dec(r, 90).to_bits(), dec(r, 180).to_bits())).collect() }
    }
    fn check(c: &Case) -> Res {
        let mut t = format!("{INFO}[FIXES]\n");
        let mut e = String::from("[AIRSPACE]\nSECTORLINE:L\n");
        for (i, p) in c.dms.iter().enumerate() {
            let want = (value(&p.0), value(&p.1));
            let ok = |y: f64, x: f64| (y - want.0).abs() < 1e-12 * (1.0 + want.0.abs()) && (x - want.1).abs() < 1e-12 * (1.0 + want.1.abs());
            let g = Coord::from_deg_min_sec(tuple(&p.0), tuple(&p.1));
            if !ok(g.y, g.x) { return Err(format!("{p:?} becomes {g:?}, expected {want:?}")); }
            let g = Point::from_deg_min_sec(tuple(&p.0), tuple(&p.1));
            if !ok(g.y(), g.x()) { return Err(format!("{p:?} becomes {g:?}, expected {want:?}")); }
            let w = if c.lower { coord(p).to_lowercase() } else { coord(p) };
            t.push_str(&format!("F{i:04} {}\n", w.replace(':', " ")));
            e.push_str(&format!("COORD:{w}\n"));
        }
        e.push_str("\nSECTOR:S:0:1\nBORDER:L\n");
        let mut sct = Sct::parse(t.as_bytes()).map_err(|e| format!("sector text does not read: {e}"))?;
        let ese = Ese::parse(e.as_bytes()).map_err(|e| format!("ESE text does not read: {e}"))?;
        let line = ese.sectors.get("S").and_then(|s| s.border.first()).map(|l| l.points.0.clone()).unwrap_or_default();
        if sct.fixes.len() != c.dms.len() || line.len() != c.dms.len() { return Err(format!("{} fixes and {} points read of {}", sct.fixes.len(), line.len(), c.dms.len())); }
        for (i, p) in c.dms.iter().enumerate() {
            let want = (value(&p.0), value(&p.1));
            for (y, x) in [(sct.fixes[i].coordinate.y(), sct.fixes[i].coordinate.x()), (line[i].y, line[i].x)] {
                if (y - want.0).abs() > 1e-11 || (x - want.1).abs() > 1e-11 { return Err(format!("{p:?} reads as {y} {x}, expected {want:?}")); }
            }
        }
        // printing
        sct.fixes.clear();
        for (i, (y, x)) in c.print.iter().enumerate() {
            let (y, x) = (f64::from_bits(*y), f64::from_bits(*x));
            let q = Coord { x, y };
            let (a, b) = (q.lat_deg_min_sec_fmt(), q.lng_deg_min_sec_fmt());
            printed(&a, y, 'N', 'S')?;
            printed(&b, x, 'E', 'W')?;
            if q.deg_min_sec_fmt() != format!("{a} {b}") { return Err(format!("{q:?} prints as {:?}, parts {a:?} {b:?}", q.deg_min_sec_fmt())); }
            let p = Point(q);
            if p.lat_deg_min_sec_fmt() != a || p.lng_deg_min_sec_fmt() != b || p.deg_min_sec_fmt() != q.deg_min_sec_fmt() { return Err(format!("{q:?} prints differently as a point: {:?}", p.deg_min_sec_fmt())); }
            sct.fixes.push(Fix { designator: format!("F{i:04}"), coordinate: p });
            sct.info.centre_point = p;
        }
        let text = sct.to_string();
        let again = Sct::parse(text.as_bytes()).map_err(|e| format!("printed sector file does not read: {e}"))?;
        if again.fixes.len() != c.print.len() { return Err(format!("{} of {} printed fixes read back", again.fixes.len(), c.print.len())); }
        for (f, g) in sct.fixes.iter().zip(&again.fixes) { back(g.coordinate.y(), f.coordinate.y(), "latitude")?; back(g.coordinate.x(), f.coordinate.x(), "longitude")?; }
        back(again.info.centre_point.y(), sct.info.centre_point.y(), "centre latitude")?;
        back(again.info.centre_point.x(), sct.info.centre_point.x(), "centre longitude")?;
        Ok(Out::Ok)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o: Vec<Case> = vec![Case { dms: vec![], ..c.clone() }, Case { print: vec![], ..c.clone() }].into_iter().filter(|n| n.dms.len() + n.print.len() < c.dms.len() + c.print.len()).collect();
        for v in drop_one(&c.dms) { o.push(Case { dms: v, ..c.clone() }); }
        for v in drop_one(&c.print) { o.push(Case { print: v, ..c.clone() }); }
        o
    }
}
