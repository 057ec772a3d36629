//! C07: sector lookup by position and level.
use crate::ctx::*;
use geo::{Intersects as _, Line, LineString, Point};
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use vatsim_parser::adaptation::{sector_index::SectorVolumeIndex, sectors::{Sector, Sectors, Volume}, Adaptation};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Vol { id: String, shape: Vec<(i32, i32)>, lower: u32, upper: u32 }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Data { sectors: Vec<(String, bool, Vec<String>)>, volumes: Vec<Vol> }
/// positions in halves
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { first: Data, second: Data, at: Vec<((i32, i32), f32)>, lines: Vec<((i32, i32), (i32, i32))>, overlay: bool }
const SHAPES: [&[(i32, i32)]; 5] = [&[(0, 0), (4, 0), (4, 4), (0, 4)], &[(0, 0), (6, 0), (0, 6)], &[(0, 0), (6, 0), (6, 2), (2, 2), (2, 6), (0, 6)], &[(2, 0), (4, 2), (2, 4), (0, 2)], &[(0, 0), (8, 0), (8, 8), (0, 8), (0, 6), (6, 6), (6, 2), (0, 2)]];
const SID: [&str; 6] = ["B", "A", "AA", "a", "10", "9"];
const VID: [&str; 6] = ["v0", "v1", "v2", "v3", "v4", "v5"];
const LVL: [u32; 7] = [0, 1, 9500, 10000, 13500, 66000, u32::MAX];
fn data(r: &mut Rng, s: usize) -> Data {
    let n = r.below(s.min(6)) + 1;
    let volumes = (0..n).map(|i| { let (dx, dy) = (r.range(-4, 4) as i32, r.range(-4, 4) as i32); let mut shape: Vec<_> = SHAPES[r.below(5)].iter().map(|p| (p.0 + dx, p.1 + dy)).collect(); if r.chance(1, 2) { shape.reverse(); } Vol { id: VID[i].into(), shape, lower: *r.pick(&LVL), upper: *r.pick(&LVL) } }).collect();
    let mut sectors: Vec<(String, bool, Vec<String>)> = vec![];
    for _ in 0..r.below(s.min(6)) + 1 {
        let id = r.pick(&SID).to_string();
        if sectors.iter().any(|x| x.0 == id) { continue; }
        let mut v: Vec<String> = (0..r.below(3) + 1).map(|_| r.pick(&VID).to_string()).collect();
        v.sort(); v.dedup();
        sectors.push((id, r.chance(4, 5), v));
    }
    Data { sectors, volumes }
}
fn build(d: &Data) -> (Sectors, HashMap<String, Volume>) {
    let v = d.volumes.iter().map(|v| { let mut l: Vec<(f64, f64)> = v.shape.iter().map(|p| (f64::from(p.0), f64::from(p.1))).collect(); l.push(l[0]); (v.id.clone(), Volume::new(v.id.clone(), v.lower, v.upper, LineString::from(l))) }).collect();
    let s = d.sectors.iter().map(|(id, staffed, vs)| (id.clone(), Sector { id: id.clone(), position_priority: if *staffed { vec!["P".into()] } else { vec![] }, runway_filter: vec![], volumes: vs.iter().cloned().collect(), departure_aerodromes: HashSet::new(), arrival_aerodromes: HashSet::new() })).collect();
    (Sectors(s), v)
}
/// strictly inside, by crossing parity, in halves
fn inside(shape: &[(i32, i32)], p: (i32, i32)) -> bool {
    let v: Vec<(i64, i64)> = shape.iter().map(|q| (i64::from(q.0) * 2, i64::from(q.1) * 2)).collect();
    let (x, y) = (i64::from(p.0), i64::from(p.1));
    let mut c = false;
    for i in 0..v.len() {
        let (a, b) = (v[i], v[(i + 1) % v.len()]);
        let cross = (b.0 - a.0) * (y - a.1) - (b.1 - a.1) * (x - a.0);
        if cross == 0 && x >= a.0.min(b.0) && x <= a.0.max(b.0) && y >= a.1.min(b.1) && y <= a.1.max(b.1) { return false; }
        if (a.1 > y) != (b.1 > y) && ((cross > 0) == (b.1 > a.1)) { c = !c; }
    }
    c
}
fn query(d: &Data, c: &Case, find: impl Fn(Point, f32) -> Option<String>, at: impl Fn(Point) -> Vec<(String, String)>, near: impl Fn(Line) -> Vec<(String, String)>, what: &str) -> Result<(), String> {
    let owned: Vec<(&String, &Vol)> = d.sectors.iter().filter(|s| s.1).flat_map(|s| s.2.iter().filter_map(|v| d.volumes.iter().find(|w| &w.id == v)).map(move |v| (&s.0, v))).collect();
    for (p, l) in &c.at {
        let pt = Point::new(f64::from(p.0) / 2.0, f64::from(p.1) / 2.0);
        let here: Vec<_> = owned.iter().filter(|(_, v)| inside(&v.shape, *p)).collect();
        let want = here.iter().filter(|(_, v)| *l >= v.lower as f32 && *l < v.upper as f32).map(|(s, _)| (*s).clone()).min();
        let got = find(pt, *l);
        if got != want { return Err(format!("{what}: sector at {pt:?} level {l} is {got:?}, expected {want:?}")); }
        let mut want: Vec<(String, String)> = here.iter().map(|(s, v)| ((*s).clone(), v.id.clone())).collect();
        let mut got = at(pt);
        want.sort(); got.sort();
        if got != want { return Err(format!("{what}: volumes at {pt:?} are {got:?}, expected {want:?}")); }
    }
    for (a, b) in &c.lines {
        let l = Line::new((f64::from(a.0) / 2.0, f64::from(a.1) / 2.0), (f64::from(b.0) / 2.0, f64::from(b.1) / 2.0));
        let got = near(l);
        for (s, v) in &owned {
            let mut r: Vec<(f64, f64)> = v.shape.iter().map(|p| (f64::from(p.0), f64::from(p.1))).collect();
            r.push(r[0]);
            if geo::Polygon::new(LineString::from(r), vec![]).intersects(&l) && !got.contains(&((*s).clone(), v.id.clone())) { return Err(format!("{what}: near {l:?} there are {got:?}, {s} {} is missing", v.id)); }
        }
        if let Some(x) = got.iter().find(|x| !owned.iter().any(|o| *o.0 == x.0 && o.1.id == x.1)) { return Err(format!("{what}: near {l:?} there is {x:?}")); }
    }
    Ok(())
}
thread_local! { static BASE: std::cell::RefCell<Option<Adaptation>> = const { std::cell::RefCell::new(None) }; }
pub struct C07;
impl Prop for C07 {
    const ID: &'static str = "C07";
    const RULE: &'static str = "up to 6 overlapping volumes of 5 shapes (also shared by sectors or referred to but missing) with equal, inverted and extreme level bands, up to 6 sectors with and without owners, queries on and next to borders and at the band limits, corridors; the same through an Adaptation whose data are then replaced and the index rebuilt; oracle: exact integer point-in-polygon and the stated minimum";
    type Case = Case;
    fn gen(r: &mut Rng, s: usize) -> Case {
        let pt = |r: &mut Rng| (r.range(-10, 24) as i32, r.range(-10, 24) as i32);
        let lv = |r: &mut Rng| match r.below(8) { 0 => -1.0, 1 => f32::NAN, 2 => f32::INFINITY, 3 => r.f() as f32 * 70000.0, _ => { let l = *r.pick(&LVL) as f32; match r.below(3) { 0 => l, 1 => l - 0.5, _ => l + 0.5 } } };
        let n = s.min(12);
        Case { overlay: r.chance(1, 200), first: data(r, s), second: data(r, s), at: (0..n).map(|_| (pt(r), lv(r))).filter(|x| !x.1.is_nan() && x.1.is_finite()).collect(), lines: (0..n / 2).map(|_| { let a = pt(r); (a, match r.below(4) { 0 => a, 1 => (a.0, pt(r).1), 2 => (pt(r).0, a.1), _ => pt(r) }) }).collect() }
    }
    fn check(c: &Case) -> Res {
        let pair = |e: &(String, Volume)| (e.0.clone(), e.1.id.clone());
        let (s, v) = build(&c.first);
        let ix = SectorVolumeIndex::default();
        query(&c.first, c, |p, l| ix.find_sector(&s, &v, p, l).map(str::to_string), |p| ix.volumes_at(&s, &v, p).map(pair).collect(), |l| ix.volumes_near_line(&s, &v, l).map(pair).collect(), "index")?;
        let (s3, v3) = build(&c.second);
        let mut iy = ix.clone();
        query(&c.first, c, |p, l| iy.find_sector(&s, &v, p, l).map(str::to_string), |p| iy.volumes_at(&s, &v, p).map(pair).collect(), |l| iy.volumes_near_line(&s, &v, l).map(pair).collect(), "clone")?;
        iy = SectorVolumeIndex::default().clone();
        query(&c.second, c, |p, l| iy.find_sector(&s3, &v3, p, l).map(str::to_string), |p| iy.volumes_at(&s3, &v3, p).map(pair).collect(), |l| iy.volumes_near_line(&s3, &v3, l).map(pair).collect(), "clone of an unused index")?;
        BASE.with(|b| {
            let mut b = b.borrow_mut();
            if b.is_none() { *b = Some(adaptation(&Files::default())?); }
            let a = b.as_mut().unwrap();
            a.sectors = s.clone(); a.volumes = v.clone();
            a.rebuild_sector_index();
            query(&c.first, c, |p, l| a.find_sector(p, l).map(str::to_string), |p| a.volumes_at(p).map(pair).collect(), |l| a.volumes_near_line(l).map(pair).collect(), "adaptation")?;
            let (s2, v2) = build(&c.second);
            a.sectors = s2; a.volumes = v2;
            a.rebuild_sector_index();
            query(&c.second, c, |p, l| a.find_sector(p, l).map(str::to_string), |p| a.volumes_at(p).map(pair).collect(), |l| a.volumes_near_line(l).map(pair).collect(), "after rebuild")?;
            let d = a.clone();
            query(&c.second, c, |p, l| d.find_sector(p, l).map(str::to_string), |p| d.volumes_at(p).map(pair).collect(), |l| d.volumes_near_line(l).map(pair).collect(), "clone of the adaptation")?;
            if c.overlay {
                let f = scratch().join("o.jsonnet");
                std::fs::write(&f, "{}").unwrap();
                let d = d.apply_jsonnet_overlays([f].iter()).map_err(|e| e.to_string())?;
                query(&c.second, c, |p, l| d.find_sector(p, l).map(str::to_string), |p| d.volumes_at(p).map(pair).collect(), |l| d.volumes_near_line(l).map(pair).collect(), "after an overlay")?;
            }
            Ok::<(), String>(())
        })?;
        Ok(if c.at.is_empty() && c.lines.is_empty() { Out::Trivial } else { Out::Ok })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o: Vec<Case> = vec![];
        if c.overlay { o.push(Case { overlay: false, ..c.clone() }); }
        for at in drop_one(&c.at) { o.push(Case { at, ..c.clone() }); }
        for lines in drop_one(&c.lines) { o.push(Case { lines, ..c.clone() }); }
        for second in smaller(&c.second) { o.push(Case { second, ..c.clone() }); }
        for first in smaller(&c.first) { o.push(Case { first, ..c.clone() }); }
        o
    }
}
fn smaller(d: &Data) -> Vec<Data> {
    let mut o: Vec<Data> = drop_one(&d.sectors).into_iter().map(|sectors| Data { sectors, ..d.clone() }).collect();
    o.extend(drop_one(&d.volumes).into_iter().map(|volumes| Data { volumes, ..d.clone() }));
    o
}
