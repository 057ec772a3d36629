//! C32: symbols and symbology items.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use vatsim_parser::{adaptation::{symbols::SymbolRule, HorizontalAlignment as H, VerticalAlignment as V}, symbology::{SymbolType as S, Symbology}};

/// a drawing line: its keyword and numbers
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Step { word: String, nums: Vec<String> }
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Sym { name: String, steps: Vec<Step>, map: bool }
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct It { folder: String, name: String, colour: String, size: String, style: u8, weight: String, align: u8 }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { items: Vec<It>, syms: Vec<Sym>, crlf: bool, space: bool }
fn table() -> [S; 24] {
    [S::Airport, S::NDB, S::VOR, S::Fix, S::AircraftStandby, S::AircraftPrimaryOnly, S::AircraftCorrAlphaCharlieSecondaryOnly, S::AircraftCorrModeSierraSecondaryOnly, S::AircraftCorrModeAlphaCharlie, S::AircraftCorrModeSierra, S::AircraftCorrModeAlphaCharlieIdent, S::AircraftCorrModeSierraIdent,
     S::AircraftFlightPlanTrack, S::AircraftCoasting, S::HistoryDot, S::GroundAircraft, S::AircraftUncorrModeAlphaCharlieSecondaryOnly, S::AircraftUncorrModeSierraSecondaryOnly, S::AircraftUncorrModeAlphaCharlie, S::AircraftUncorrModeSierra, S::AircraftUncorrModeAlphaCharlieIdent, S::AircraftUncorrModeSierraIdent, S::GroundVehicle, S::GroundRotorcraft]
}
fn want(s: &Step) -> SymbolRule {
    let f = |i: usize| s.nums[i].parse::<f64>().unwrap();
    let a = |i: usize| { let n: i128 = s.nums[i].parse().unwrap(); (n % 360) as i64 };
    let at = || (f(0), f(1));
    let round = |x: f64, y: f64| (x - y).abs() < f64::EPSILON;
    match (s.word.as_str(), s.nums.len()) {
        ("MOVETO", _) => SymbolRule::Move(at()), ("LINETO", _) => SymbolRule::Line(at()), ("SETPIXEL", _) => SymbolRule::Pixel(at()),
        ("ARC", 5) => SymbolRule::Arc(at(), f(2), a(3), a(4)),
        ("ARC", _) => if round(f(2), f(3)) { SymbolRule::Arc(at(), f(2), a(4), a(5)) } else { SymbolRule::EllipticArc(at(), f(2), f(3), a(4), a(5)) },
        ("FILLARC", 5) => SymbolRule::FilledArc(at(), f(2), a(3), a(4)),
        ("FILLARC", _) => if round(f(2), f(3)) { SymbolRule::FilledArc(at(), f(2), a(4), a(5)) } else { SymbolRule::FilledEllipticArc(at(), f(2), f(3), a(4), a(5)) },
        ("ELLIPSE", 3) => SymbolRule::FilledArc(at(), f(2), 0, 0), ("ELLIPSE", _) => SymbolRule::FilledEllipticArc(at(), f(2), f(3), 0, 0),
        ("FILLRECT", _) => SymbolRule::Polygon(vec![(f(0), f(1)), (f(2), f(1)), (f(2), f(3)), (f(0), f(3))]),
        _ => SymbolRule::Polygon((0..s.nums.len() / 2).map(|i| (f(2 * i), f(2 * i + 1))).collect()),
    }
}
fn lines(s: &Sym, head: &str, item: &str, nl: &str, sep: &str) -> String { format!("{head}:{}{nl}{}", s.name, s.steps.iter().map(|p| format!("{item}{}{sep}{}{nl}", p.word, p.nums.join(sep))).collect::<String>()) }
pub struct C32;
impl Prop for C32 {
    const ID: &'static str = "C32";
    const RULE: &'static str = "a symbology file and plugin symbol and map files with up to 8 items (colours in and out of range, every style and alignment, repeated names, line weights that do not fit) and up to 12 symbols (every number from 0 to 25 and larger, or names; repeated, in the symbol file, the map file or both) of up to 8 drawing lines of every kind, radii equal and not, angles of up to 18 digits and either sign, both separators";
    type Case = Case;
    fn gen(r: &mut Rng, s: usize) -> Case {
        let dec = |r: &mut Rng| match r.below(6) { 0 => format!("-{}.{}", r.below(30), r.below(100)), 1 => format!(".{}", r.below(100)), 2 => format!("+{}", r.below(9)), 3 => format!("{}.0", r.below(4)), _ => r.below(4).to_string() };
        let ang = |r: &mut Rng| match r.below(6) { 0 => format!("-{}", r.below(1000)), 1 => "999999999999999999".to_string(), 2 => format!("+{}", r.below(720)), 3 => r.pick(&["0", "360", "-360", "359", "361"]).to_string(), _ => r.below(800).to_string() };
        let items = (0..1 + r.below(s.min(8))).map(|_| It {
            folder: r.pick(&["Fixes", "Airports", "Low airways", "x"]).to_string(), name: r.pick(&["name", "symbol", "line", "a b"]).to_string(),
            colour: match r.below(6) { 0 => r.pick(&["16777215", "16777216", "-1", "255", "256", "65535", "65536", "2147483648", "999999999999999999", "0", "+7", "-0"]).to_string(), _ => r.below(1 << 24).to_string() },
            size: dec(r), style: r.below(5) as u8, weight: match r.below(5) { 0 => r.pick(&["2147483647", "2147483648", "-3", "99999999999999999"]).to_string(), _ => r.below(9).to_string() }, align: *r.pick(&[0, 1, 2, 6, 7, 8, 12, 13, 14]),
        }).collect();
        let syms = (0..1 + r.below(s.min(12))).map(|_| Sym {
            name: match r.below(12) { 0 => r.pick(&["24", "25", "-1", "4294967296", "4294967295", "007", "+3"]).to_string(), n if n < 5 => r.below(4).to_string(), _ => r.below(24).to_string() },
            map: r.chance(1, 3),
            steps: (0..1 + r.below(8)).map(|_| {
                let w = *r.pick(&["MOVETO", "LINETO", "SETPIXEL", "ARC", "FILLARC", "ELLIPSE", "POLYGON", "FILLRECT"]);
                let mut n = vec![dec(r), dec(r)];
                match w {
                    "ARC" | "FILLARC" => { n.push(dec(r)); if r.chance(1, 2) { let d = if r.chance(1, 2) { n[2].clone() } else { dec(r) }; n.push(d); } n.push(ang(r)); n.push(ang(r)); }
                    "ELLIPSE" => { n.push(dec(r)); if r.chance(1, 2) { n.push(dec(r)); } }
                    "FILLRECT" => { n.push(dec(r)); n.push(dec(r)); }
                    "POLYGON" => for _ in 0..2 * r.below(5) { n.push(dec(r)); },
                    _ => {}
                }
                Step { word: w.to_string(), nums: n }
            }).collect(),
        }).collect();
        Case { items, syms, crlf: r.chance(1, 3), space: r.chance(1, 4) }
    }
    fn check(c: &Case) -> Res {
        let nl = if c.crlf { "\r\n" } else { "\n" };
        let sep = if c.space { " " } else { ":" };
        if c.items.is_empty() || c.syms.is_empty() { return Ok(Out::Trivial); }
        let t = format!("SYMBOLOGY{nl}SYMBOLSIZE{nl}{}{}m_ClipArea:5{nl}END{nl}", c.items.iter().map(|i| format!("{}:{}:{}:{}:{}:{}:{}{nl}", i.folder, i.name, i.colour, i.size, i.style, i.weight, i.align)).collect::<String>(), c.syms.iter().map(|s| lines(s, "SYMBOL", "SYMBOLITEM:", nl, sep)).collect::<String>());
        let g = Symbology::parse(t.as_bytes()).map_err(|e| format!("the symbology does not read: {e}"))?;
        let mut its: BTreeMap<(&str, &str), (&It, u32)> = BTreeMap::new();
        for i in &c.items { if let Ok(n) = i.colour.parse::<u32>() { if n < 1 << 24 { its.insert((&i.folder, &i.name), (i, n)); } } else if i.colour == "-0" { its.insert((&i.folder, &i.name), (i, 0)); } }
        if g.items.0.len() != its.len() { return Err(format!("{} items, the file has {}", g.items.0.len(), its.len())); }
        for ((f, n), (i, col)) in &its {
            let x = g.items.0.get(&(f.to_string(), n.to_string())).ok_or(format!("item {f}:{n} is missing"))?;
            let ok = x.folder == *f && x.name == *n && (u32::from(x.colour.r), u32::from(x.colour.g), u32::from(x.colour.b), x.colour.a) == (col % 256, col / 256 % 256, col / 65536, 255) && x.font_size_symbol_scale == i.size.parse::<f32>().unwrap()
                && x.line_style == ["SOLID", "DASH", "DOT", "DASHDOT", "DASHDOTDOT"][i.style as usize] && x.line_weight == i.weight.parse().unwrap_or(1)
                && x.text_alignment.horizontal == [H::Left, H::Center, H::Right][i.align as usize / 6] && x.text_alignment.vertical == [V::Top, V::Center, V::Bottom][i.align as usize % 6];
            if !ok { return Err(format!("item {f}:{n} is {x:?}, the file says {i:?}")); }
        }
        let mut sy: HashMap<S, Vec<SymbolRule>> = HashMap::new();
        for s in &c.syms { if let Ok(n) = s.name.parse::<u32>() { if n < 24 { sy.insert(table()[n as usize].clone(), s.steps.iter().map(want).collect()); } } }
        if g.symbols != sy { return Err(format!("the symbols are {:?}, the file says {sy:?}", g.symbols)); }
        let (a, b) = (c.syms.iter().filter(|s| !s.map).collect::<Vec<_>>(), c.syms.iter().filter(|s| s.map).collect::<Vec<_>>());
        let file = |v: &[&Sym], h: &str| v.iter().map(|s| lines(s, h, "", nl, sep)).collect::<String>();
        let ts = topsky("A=1\n", (!a.is_empty()).then(|| file(&a, "SYMBOL")).as_deref(), &format!("COLORDEF:x:1:2:3{nl}{}", file(&b, "SYMBOLDEF"))).map_err(|e| format!("the plugin files do not read: {e}"))?;
        let mut w: BTreeMap<&str, &Sym> = BTreeMap::new();
        for s in a.iter().chain(&b) { w.insert(&s.name, s); }
        if ts.symbols.len() != w.len() { return Err(format!("the plugin has {} symbols, its files say {}", ts.symbols.len(), w.len())); }
        for (n, s) in w {
            let g = ts.symbols.get(n).ok_or(format!("plugin symbol {n} is missing"))?;
            let e: Vec<SymbolRule> = s.steps.iter().map(want).collect();
            if g.name != n || g.rules != e { return Err(format!("plugin symbol {n} is {g:?}, its file says {e:?}")); }
        }
        Ok(Out::Ok)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in drop_one(&c.items) { v.push(Case { items: s, ..c.clone() }); }
        for s in drop_one(&c.syms) { v.push(Case { syms: s, ..c.clone() }); }
        for i in 0..c.syms.len() { for s in drop_one(&c.syms[i].steps) { if !s.is_empty() { let mut d = c.clone(); d.syms[i].steps = s; v.push(d); } } }
        if c.crlf || c.space { v.push(Case { crlf: false, space: false, ..c.clone() }); }
        v
    }
}
