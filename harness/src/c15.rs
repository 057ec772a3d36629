//! C15: constraints of the ESE file, split by direction and keyed.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use vatsim_parser::ese::Constraint;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Row { fir: bool, prev: String, dep: String, fix: String, next: String, arr: String, exit: String, entry: String, climb: Option<u32>, descent: Option<u32>, text: String }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { rows: Vec<Row>, others: bool }
const FIX: [&str; 14] = ["*", "EDDM", "UPALA", "EDDN", "A", "B", "A#B", "#", "A#", "#B", "\\", "\\#", "A\\#B", ""];
const RWY: [&str; 5] = ["*", "08L", "26R", "A", "B"];
const SEC: [&str; 12] = ["S1", "S2", "A", "B", "A#B", "#B", "A#", "#", "EDMM·ALB·105·135", "A\\", "\\#B", "A#*"];
fn wild(s: &str) -> Option<String> { (s != "*").then(|| s.to_string()) }
fn model(r: &Row) -> Constraint {
    Constraint { previous_fix: wild(&r.prev), departure_runway: wild(&r.dep), subsequent_fix: wild(&r.next), arrival_runway: wild(&r.arr), fix: wild(&r.fix), exit_sector: r.exit.clone(), entry_sector: r.entry.clone(), climb_level: r.climb, descent_level: r.descent, description: r.text.clone(), coord_timing: None }
}
type Id = (Option<String>, Option<String>, Option<String>, Option<String>, Option<String>, String, String);
fn id(c: &Constraint) -> Id { (c.previous_fix.clone(), c.departure_runway.clone(), c.subsequent_fix.clone(), c.arrival_runway.clone(), c.fix.clone(), c.exit_sector.clone(), c.entry_sector.clone()) }
fn row(r: &mut Rng) -> Row {
    let hard = r.chance(1, 2);
    let (fl, sl) = if hard { (FIX.len(), SEC.len()) } else { (4, 2) };
    let lv = |r: &mut Rng| match r.below(4) { 0 | 1 => None, 2 => Some(r.below(3) as u32 * 1000), _ => Some(*r.pick(&[0, 1, 10000, 66000, 4294967295])) };
    Row { fir: r.chance(1, 3), prev: r.pick(&FIX[..fl]).to_string(), dep: r.pick(&RWY).to_string(), fix: r.pick(&FIX[..fl]).to_string(), next: r.pick(&FIX[..fl]).to_string(), arr: r.pick(&RWY).to_string(), exit: r.pick(&SEC[..sl]).to_string(), entry: r.pick(&SEC[..sl]).to_string(), climb: lv(r), descent: lv(r), text: r.pick(&["", "UPALA", "x"]).to_string() }
}
pub struct C15;
impl Prop for C15 {
    const ID: &'static str = "C15";
    const RULE: &'static str = "ESE files of up to 40 (FIR_)COPX rows over few names (wildcards, empty names, names containing the key separator or its escape), levels present or absent, repeated rows; whole adaptation read from files; keys compared pairwise";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        // one row with all level combinations, then pairs differing in exactly one field
        let base = Row { fir: false, prev: "*".into(), dep: "*".into(), fix: "UPALA".into(), next: "*".into(), arr: "*".into(), exit: "S1".into(), entry: "S2".into(), climb: None, descent: Some(1000), text: "x".into() };
        if i < 8 { return Some(Case { rows: vec![Row { fir: i & 1 > 0, climb: (i & 2 > 0).then_some(9000), descent: (i & 4 > 0).then_some(8000), ..base }], others: false }); }
        let (k, j) = ((i - 8) / 14, ((i - 8) % 14) as usize);
        let mut b = Row { text: "y".into(), ..base.clone() };
        match k { 0 => b.prev = FIX[j].into(), 1 => b.dep = RWY[j % 5].into(), 2 => b.fix = FIX[j].into(), 3 => b.next = FIX[j].into(), 4 => b.arr = RWY[j % 5].into(), 5 => b.exit = SEC[j % 12].into(), 6 => b.entry = SEC[j % 12].into(), 7 => b.climb = Some(7000), 8 => { b.climb = Some(5); b.descent = None; } , 
            // every value of two neighbouring fields at once
            9 => return (j < 4).then(|| { let mut rows = vec![];
                let (xs, ys): (&[&str], &[&str]) = match j { 0 => (&SEC, &SEC), 1 => (&FIX, &SEC), 2 => (&FIX, &FIX), _ => (&FIX, &RWY) };
                for x in xs { for y in ys { let mut b = base.clone(); match j { 0 => { b.exit = x.to_string(); b.entry = y.to_string(); } 1 => { b.fix = x.to_string(); b.exit = y.to_string(); } 2 => { b.prev = x.to_string(); b.next = y.to_string(); } _ => { b.next = x.to_string(); b.arr = y.to_string(); } } rows.push(b); } }
                Case { rows, others: false } }),
            _ => return None }
        Some(Case { rows: vec![base, b], others: true })
    }
    fn gen(r: &mut Rng, s: usize) -> Case { let n = r.below(s) + 1; let mut rows: Vec<Row> = (0..n).map(|_| row(r)).collect(); if r.chance(1, 2) { let k = r.below(n); let mut c = rows[k].clone(); c.text = "again".into(); if r.chance(1, 2) { c.descent = Some(77); } rows.push(c); } 
        if r.chance(1, 2) { let b = rows[0].clone(); for x in rows.iter_mut().skip(1) { *x = Row { text: x.text.clone(), exit: x.exit.clone(), entry: x.entry.clone(), fix: x.fix.clone(), ..b.clone() }; } }
        Case { rows, others: r.chance(1, 2) } }
    fn check(c: &Case) -> Res {
        let lv = |l: Option<u32>| l.map_or("*".to_string(), |v| v.to_string());
        let mut t = String::from("[AIRSPACE]\n");
        for (i, r) in c.rows.iter().enumerate() {
            if c.others && i % 2 == 1 { t += "SECTORLINE:l\nCOORD:N048.00.00.000:E011.00.00.000\n"; }
            t += &format!("{}COPX:{}:{}:{}:{}:{}:{}:{}:{}:{}:{}\n", if r.fir { "FIR_" } else { "" }, r.prev, r.dep, r.fix, r.next, r.arr, r.exit, r.entry, lv(r.climb), lv(r.descent), r.text);
        }
        let a = adaptation(&Files { ese: Some(t.clone()), ..Default::default() })?;
        for dep in [true, false] {
            let m = if dep { &a.departure_constraints } else { &a.destination_constraints };
            let want: Vec<Constraint> = c.rows.iter().map(model).filter(|x| (x.climb_level.is_some() || x.descent_level.is_some()) && x.climb_level.is_some() == dep).collect();
            let mut last: Vec<(Id, &Constraint)> = vec![];
            for w in &want { let k = id(w); match last.iter_mut().find(|x| x.0 == k) { Some(x) => x.1 = w, None => last.push((k, w)) } }
            let dir = if dep { "departure" } else { "destination" };
            for (_, w) in &last { if m.get(&w.key()) != Some(*w) { return Err(format!("{dir} constraint {w:?} is not found under its key {:?}: {:?}", w.key(), m.get(&w.key()))); } }
            if m.len() != last.len() { return Err(format!("{} {dir} constraints, {} distinct rows", m.len(), last.len())); }
            for (k, v) in m.iter() { if *k != v.key() || !last.iter().any(|x| x.1 == v) { return Err(format!("{dir} table holds {v:?} under {k:?}")); } }
        }
        Ok(if c.rows.iter().any(|r| r.climb.is_some() || r.descent.is_some()) { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o: Vec<Case> = drop_one(&c.rows).into_iter().map(|rows| Case { rows, ..c.clone() }).collect();
        if c.others { o.push(Case { others: false, ..c.clone() }); }
        o
    }
}
