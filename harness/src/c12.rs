//! C12: segments of the sector file and lines of plugin maps joined into polylines.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use vatsim_parser::sct::{ColouredLines, Sct};
use vatsim_parser::topsky::map::{MapLine, MapRule};
use vatsim_parser::Location;

/// index into the places (0..=5 coordinates, 6..=9 fixes), colour
pub type Seg = (u8, u8, Option<u8>);
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Rule { Lines(Vec<(u8, u8)>), Other(u8) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case { Sct(Vec<(u8, Vec<Vec<Seg>>)>, bool), Map(Vec<Vec<Rule>>) }

const COORD: [(&str, &str, f64, f64); 6] = [
    ("N048.00.00.000", "E011.00.00.000", 48.0, 11.0), ("N048.30.00.000", "E011.00.00.000", 48.5, 11.0), ("N048.00.00.000", "E011.30.00.000", 48.0, 11.5),
    ("N000.00.00.000", "W000.00.00.000", 0.0, 0.0), ("S048.15.00.000", "W179.45.00.000", -48.25, -179.75), ("N048.00.00.001", "E011.00.00.000", 48.0 + 0.001 / 3600.0, 11.0),
];
const FIX: [&str; 4] = ["RAVSA", "LCE13", "RTT", "A"];
const COL: [&str; 3] = ["red", "colour_X", "red2"];
const SECTION: [&str; 6] = ["[SID]", "[STAR]", "[ARTCC HIGH]", "[ARTCC]", "[ARTCC LOW]", "[GEO]"];
fn loc(i: u8, map: bool) -> String { if i < 6 { let c = COORD[i as usize]; format!("{}{}{}", c.0, if map { ":" } else { " " }, c.1) } else { let f = FIX[i as usize - 6]; if map { f.to_string() } else { format!("{f} {f}") } } }
fn is(l: &Location, i: u8) -> bool {
    match l { Location::Fix(n) => i >= 6 && n == FIX[i as usize - 6], Location::Coordinate(p) => i < 6 && (p.y() - COORD[i as usize].2).abs() < 1e-9 && (p.x() - COORD[i as usize].3).abs() < 1e-9 }
}
/// what must be drawn: groups of one colour, polylines of at least two points
fn drawn(s: &[Seg]) -> Vec<(Option<u8>, Vec<Vec<u8>>)> {
    let mut g: Vec<(Option<u8>, Vec<Vec<u8>>)> = vec![];
    for (n, (a, b, c)) in s.iter().enumerate() {
        let new_group = n == 0 || s[n - 1].2 != *c;
        if new_group { g.push((*c, vec![])); }
        let lines = &mut g.last_mut().unwrap().1;
        if new_group || s[n - 1].1 != *a { lines.push(vec![*a]); }
        if a != b { lines.last_mut().unwrap().push(*b); }
    }
    for x in &mut g { x.1.retain(|l| l.len() > 1); }
    g.retain(|x| !x.1.is_empty());
    g
}
fn same_lines(got: &[MapLine], want: &[Vec<u8>]) -> bool {
    let got: Vec<&MapLine> = got.iter().filter(|l| l.points.len() > 1).collect();
    got.len() == want.len() && got.iter().zip(want).all(|(g, w)| g.points.len() == w.len() && g.points.iter().zip(w).all(|(p, i)| is(p, *i)))
}
fn same(got: &[ColouredLines], s: &[Seg]) -> Result<(), String> {
    let want = drawn(s);
    let g: Vec<&ColouredLines> = got.iter().filter(|x| x.lines.iter().any(|l| l.points.len() > 1)).collect();
    if g.len() != want.len() || g.iter().zip(&want).any(|(g, w)| g.colour_name.as_deref() != w.0.map(|c| COL[c as usize]) || !same_lines(&g.lines, &w.1)) { return Err(format!("segments {s:?} should give {want:?}, give {got:?}")); }
    Ok(())
}
fn line(s: &Seg) -> String { format!("{} {}{}", loc(s.0, false), loc(s.1, false), s.2.map_or(String::new(), |c| format!(" {}", COL[c as usize]))) }
fn seg(r: &mut Rng, prev: Option<&Seg>) -> Seg {
    let k = if r.chance(1, 2) { 10 } else { 3 };
    let a = match prev { Some(p) if r.chance(2, 3) => p.1, _ => r.below(k) as u8 };
    let b = if r.chance(1, 6) { a } else { r.below(k) as u8 };
    let b = if prev.is_none() && (a < 6) != (b < 6) { a } else { b };
    let c = match prev { Some(p) if r.chance(3, 4) => p.2, _ => if r.chance(1, 3) { None } else { Some(r.below(3) as u8) } };
    (a, b, c)
}
pub struct C12;
impl Prop for C12 {
    const ID: &'static str = "C12";
    const RULE: &'static str = "every list of up to four segments over two places and two colours; random entries of up to 60 segments over six coordinates, four fixes and three colours in all six line sections of a sector file; random plugin maps whose LINE runs are cut by other rules";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        // up to four segments, each over {A, B} x {A, B} x {none, red}
        let mut i = i;
        for n in 1..=4u32 {
            let k = 8u64.pow(n);
            if i < k { let mut v = vec![]; for _ in 0..n { let d = i % 8; i /= 8; v.push(((d & 1) as u8, (d >> 1 & 1) as u8, if d >> 2 == 1 { Some(0) } else { None })); } return Some(Case::Sct(vec![((k % 6) as u8, vec![v.clone()]), (5, vec![v])], false)); }
            i -= k;
        }
        for n in 1..=4u32 {
            let k = 9u64.pow(n);
            if i < k { let mut v = vec![]; for _ in 0..n { let d = i % 9; i /= 9; v.push(((d % 3) as u8, (d / 3) as u8)); } return Some(Case::Map(vec![vec![Rule::Lines(v)]])); }
            i -= k;
        }
        None
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        if r.chance(1, 2) {
            let mut sec: Vec<(u8, Vec<Vec<Seg>>)> = vec![];
            for k in 0..6u8 { if r.chance(1, 2) { let n = r.below(3) + 1; sec.push((k, (0..n).map(|_| { let mut v: Vec<Seg> = vec![]; for _ in 0..r.below(s) + 1 { let x = seg(r, v.last()); v.push(x); } v }).collect())); } }
            Case::Sct(sec, r.chance(1, 4))
        } else {
            let n = r.below(3) + 1;
            Case::Map((0..n).map(|_| { let m = r.below(6) + 1; (0..m).map(|_| if r.chance(2, 3) { let mut v: Vec<(u8, u8)> = vec![]; for _ in 0..r.below(s) + 1 { let x = seg(r, v.last().map(|p| (p.0, p.1, None)).as_ref()); let b = if (x.0 < 6) == (x.1 < 6) { x.1 } else { x.0 }; v.push((x.0, b)); } Rule::Lines(v) } else { Rule::Other(r.below(4) as u8) }).collect() }).collect())
        }
    }
    fn check(c: &Case) -> Res {
        match c {
            Case::Sct(sec, crlf) => {
                let mut t = INFO.to_string();
                // the grammar finds the end of a name only before two coordinates or two fixes
                if sec.iter().any(|(_, es)| es.iter().any(|e| (e[0].0 < 6) != (e[0].1 < 6))) { return Ok(Out::Trivial); }
                for (k, es) in sec {
                    t += &format!("\n{}\n", SECTION[*k as usize]);
                    for (n, e) in es.iter().enumerate() { for (m, s) in e.iter().enumerate() { t += &if m == 0 { format!("{:<40} {}\n", format!("EDDM {n} name"), line(s)) } else { format!("{:<40} {}\n", "", line(s)) }; } }
                }
                t += "\n[LABELS]\n";
                if *crlf { t = t.replace('\n', "\r\n"); }
                let sct = Sct::parse(t.as_bytes()).map_err(|e| format!("file does not read: {e}\n{t}"))?;
                let got: [Vec<&Vec<ColouredLines>>; 6] = [
                    sct.sids.iter().map(|x| &x.line_groups).collect(), sct.stars.iter().map(|x| &x.line_groups).collect(), sct.artccs_high.iter().map(|x| &x.line_groups).collect(),
                    sct.artccs.iter().map(|x| &x.line_groups).collect(), sct.artccs_low.iter().map(|x| &x.line_groups).collect(), sct.geo.iter().map(|x| &x.line_groups).collect(),
                ];
                for k in 0..6u8 {
                    let want: Vec<&Vec<Seg>> = sec.iter().filter(|x| x.0 == k).last().map(|x| x.1.iter().collect()).unwrap_or_default();
                    if sec.iter().filter(|x| x.0 == k).count() > 1 { continue; }
                    let g = &got[k as usize];
                    if g.len() != want.len() { return Err(format!("{}: {} entries read, {} written", SECTION[k as usize], g.len(), want.len())); }
                    for (a, b) in g.iter().zip(&want) { same(a, b).map_err(|e| format!("{}: {e}", SECTION[k as usize]))?; }
                }
                Ok(if sec.is_empty() { Out::Trivial } else { Out::Ok })
            }
            Case::Map(maps) => {
                let mut t = String::new();
                for (n, m) in maps.iter().enumerate() {
                    t += &format!("MAP:m{n}\nFOLDER:F\n");
                    for r in m { match r { Rule::Lines(v) => for (a, b) in v { t += &format!("LINE:{}:{}\n", loc(*a, true), loc(*b, true)); }, Rule::Other(k) => t += ["COLOR:red\n", "ZOOM:5\n", "SYMBOL:NDB:RTT\n", "HIDDEN\n"][*k as usize] } }
                }
                let ts = topsky("A=1\n", None, &t).map_err(|e| format!("file does not read: {e}\n{t}"))?;
                if ts.maps.len() != maps.len() { return Err(format!("{} maps read, {} written", ts.maps.len(), maps.len())); }
                let mut any = false;
                for (g, w) in ts.maps.iter().zip(maps) {
                    // runs of lines with nothing between them are one run
                    let mut runs: Vec<Vec<Seg>> = vec![]; let mut open = false;
                    for r in w { match r { Rule::Lines(v) => { if !open { runs.push(vec![]); } open = true; runs.last_mut().unwrap().extend(v.iter().map(|x| (x.0, x.1, None))); } Rule::Other(_) => open = false } }
                    any |= !runs.is_empty();
                    let got: Vec<&Vec<MapLine>> = g.rules.iter().filter_map(|r| if let MapRule::Line(l) = r { Some(l) } else { None }).collect();
                    if got.len() != runs.len() { return Err(format!("{} runs of lines read, {} written in {w:?}", got.len(), runs.len())); }
                    for (a, s) in got.iter().zip(&runs) {
                        let want = drawn(s).pop().map(|x| x.1).unwrap_or_default();
                        if !same_lines(a, &want) { return Err(format!("lines {s:?} should give {want:?}, give {a:?}")); }
                    }
                }
                Ok(if any { Out::Ok } else { Out::Trivial })
            }
        }
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o = vec![];
        match c {
            Case::Sct(s, cr) => {
                if *cr { o.push(Case::Sct(s.clone(), false)); }
                for x in drop_one(s) { o.push(Case::Sct(x, *cr)); }
                for (i, (k, es)) in s.iter().enumerate() {
                    if es.len() > 1 { for e in drop_one(es) { let mut t = s.clone(); t[i] = (*k, e); o.push(Case::Sct(t, *cr)); } }
                    for (j, e) in es.iter().enumerate() { if e.len() > 1 { for x in drop_one(e) { let mut t = s.clone(); t[i].1[j] = x; o.push(Case::Sct(t, *cr)); } } }
                }
            }
            Case::Map(m) => {
                for x in drop_one(m) { if !x.is_empty() { o.push(Case::Map(x)); } }
                for (i, r) in m.iter().enumerate() {
                    for x in drop_one(r) { let mut t = m.clone(); t[i] = x; o.push(Case::Map(t)); }
                    for (j, l) in r.iter().enumerate() { if let Rule::Lines(v) = l { if v.len() > 1 { for x in drop_one(v) { let mut t = m.clone(); t[i][j] = Rule::Lines(x); o.push(Case::Map(t)); } } } }
                }
            }
        }
        o
    }
}
