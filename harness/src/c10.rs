//! C10: map elements drawn with the settings in force; C11: maps sorted into folders.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vatsim_parser::adaptation::maps::{active::{Active, ActiveAreas, ActiveIds, ActiveMapOperator, ActiveRunways, RunwayIdentifier}, from_topsky, Map, MapFolders};
use vatsim_parser::adaptation::{colours::Colour, line_styles::LineStyle, Adaptation, Alignment};
use vatsim_parser::topsky::map::{FontSize, Label, MapDef, MapLine, MapRule, MapSymbol, OverrideSct, Text};
use vatsim_parser::topsky::Topsky;
use vatsim_parser::Location;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum R { Folder(u8), Hidden, Colour(u8), Asr(Option<Vec<u8>>), Active(u8), And(u8), Layer(i8), Zoom(u8), Font(u8, u8), Style(u8, u8), Symbol(u8, u8, Option<u8>), Lines(Vec<Vec<u8>>), Text(u8, u8), Poly, CoordLine, Coord(u8), Global, Screen }
/// maps (name, rules), overrides (folder, name), through the text of the plugin's file
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { maps: Vec<(u8, Vec<R>)>, over: Vec<(u8, Option<u8>)>, text: bool }

const FOLD: [&str; 5] = ["AUTO", "F", "G", "F_2", "Airspace"];
const NAME: [&str; 7] = ["M", "M_2", "M_3", "M_2_2", "N", "M_4", "M_10"];
// the last two name no colour
const COL: [&str; 6] = ["red", "green", "Active_Map_Type_1", "blue", "nope", "Red"];
// coordinates 0..5, fixes 5..8, unknown 8, 9
const PT: [(f64, f64); 5] = [(11.0, 48.0), (11.5, 48.5), (-170.25, -10.0), (0.0, 0.0), (11.0, 48.5)];
const FIX: [&str; 5] = ["RAVSA", "LCE13", "RTT", "NOFIX", "XXX"];
const STYLE: [&str; 4] = ["SOLID", "DASH", "CUSTOM_1", "DOT"];
const WORD: [&str; 4] = ["EDDM", "a b", "X", "AUP"];
const ZOOM: [f32; 4] = [0.0, 1.0, 5.0, 12.5];
const SIZE: [f32; 4] = [1.0, 0.5, 3.0, 1.5];
const OFF: [(f64, f64); 3] = [(0.0, 0.0), (-3.5, 10.0), (5.0, 5.0)];

thread_local! { static BASE: (Adaptation, Topsky) = (adaptation(&files(None)).unwrap(), topsky("A=1\n", None, "COLORDEF:red:255:0:0\nCOLORDEF:blue:0:0:255\n").unwrap()); }
fn files(maps: Option<String>) -> Files {
    Files { sct: Some(format!("#define green 65280\n{INFO}\n[FIXES]\nRAVSA N047.00.00.000 E012.00.00.000\nLCE13 N046.30.00.000 E012.15.00.000\nRTT S001.00.00.000 W012.00.00.000\n")), maps: Some(maps.unwrap_or_else(|| "COLORDEF:red:255:0:0\nCOLORDEF:blue:0:0:255\n".into())), ..Files::default() }
}
fn colour(i: u8) -> Option<Colour> { match i { 0 => Some(Colour::from_rgb(255, 0, 0)), 1 => Some(Colour::from_rgb(0, 255, 0)), 2 => Some(Colour::from_rgb(87, 87, 164)), 3 => Some(Colour::from_rgb(0, 0, 255)), _ => None } }
fn place(i: u8) -> Option<(f64, f64)> { match i { 0..=4 => Some(PT[i as usize]), 5 => Some((12.0, 47.0)), 6 => Some((12.25, 46.5)), 7 => Some((-12.0, -1.0)), _ => None } }
fn loc(i: u8) -> Location { if i < 5 { Location::Coordinate(PT[i as usize].into()) } else { Location::Fix(FIX[i as usize - 5].into()) } }
fn dms(v: f64, pos: char, neg: char) -> String { let a = v.abs(); format!("{}{:03}.{:02}.00.000", if v < 0.0 { neg } else { pos }, a.trunc() as u32, (a.fract() * 60.0).round() as u32) }
fn loc_text(i: u8) -> String { if i < 5 { format!("{}:{}", dms(PT[i as usize].1, 'N', 'S'), dms(PT[i as usize].0, 'E', 'W')) } else { FIX[i as usize - 5].into() } }
const ACTIVE: u8 = 17;
fn strs(v: &[&str]) -> Vec<String> { v.iter().map(|s| s.to_string()).collect() }
fn ids(a: Option<&[&str]>, b: Option<&[&str]>, c: Option<&[&str]>, d: Option<&[&str]>) -> ActiveIds { ActiveIds { own: a.map(strs), own_excludes: b.map(strs), online: c.map(strs), online_excludes: d.map(strs) } }
fn rwys(v: &[(&str, &str)]) -> Option<Vec<RunwayIdentifier>> { Some(v.iter().map(|(i, d)| RunwayIdentifier { icao: i.to_string(), designator: d.to_string() }).collect()) }
fn active(i: u8) -> Active {
    match i {
        0 => Active::True, 1 => Active::Aup(strs(&["A1"])), 2 => Active::Aup(strs(&["A2", "A3"])), 3 => Active::Notam("EDDM".into(), strs(&["N3"])), 4 => Active::Notam("LOWI".into(), strs(&["N4", "N5", "N3"])),
        5 => Active::Area(ActiveAreas { areas: strs(&["R1", "R2"]), area_excludes: None }), 6 => Active::Area(ActiveAreas { areas: strs(&["R1"]), area_excludes: Some(strs(&["R3", "R4"])) }),
        7 => Active::Id(ids(None, None, None, None)), 8 => Active::Id(ids(Some(&["A", "B"]), None, Some(&["C"]), Some(&["D", "E", "F"]))), 9 => Active::Id(ids(None, Some(&["B"]), None, Some(&["F"]))),
        10 => Active::Callsign(ids(Some(&["EDMM_CTR"]), Some(&["X", "Y"]), None, None)), 11 => Active::Callsign(ids(None, None, Some(&["X"]), None)),
        12 => Active::Runway(ActiveRunways { arrival: rwys(&[("EDDM", "26L"), ("LOWI", "08")]), arrival_excludes: None, departure: None, departure_excludes: None }),
        13 => Active::Runway(ActiveRunways { arrival: None, arrival_excludes: rwys(&[("EDDM", "26R")]), departure: rwys(&[("EDDM", "08L")]), departure_excludes: None }),
        14 => Active::Map(ActiveMapOperator::Same, "F".into(), "M".into()), 15 => Active::Map(ActiveMapOperator::Opposite, "a b".into(), "N_2".into()), _ => Active::Schedule,
    }
}
fn active_text(i: u8) -> &'static str {
    ["1", "AUP:A1", "AUP:A2,A3", "NOTAM:EDDM:N3", "NOTAM:LOWI:N4,N5,N3", "AREA:R1,R2", "AREA:R1:R3,R4", "ID:*:*:*:*", "ID:A,B:*:C:D,E,F", "ID:*:B:*:F", "CALLSIGN:EDMM_CTR:X,Y:*:*", "CALLSIGN:*:*:X:*",
     "RWY:ARR:EDDM26L,LOWI08:DEP:*", "RWY:ARR:*:EDDM26R:DEP:EDDM08L:*", "MAP:=:F\\M", "MAP:!:a b\\N_2", "0101:1231:1234567:0000:2359"][i as usize]
}
fn font(k: u8, v: u8) -> FontSize { let s = SIZE[v as usize]; match k { 0 => FontSize::Exact(s), 1 => FontSize::Add(s), 2 => FontSize::Subtract(s), 3 => FontSize::Multiply(s), _ => FontSize::Default } }
fn rule(r: &R) -> MapRule {
    match r {
        R::Folder(f) => MapRule::Folder(FOLD[*f as usize].into()), R::Hidden => MapRule::Hidden, R::Colour(c) => MapRule::Colour(COL[*c as usize].into()),
        R::Asr(a) => MapRule::AsrData(a.as_ref().map(|v| v.iter().map(|i| WORD[*i as usize].into()).collect())), R::Active(i) => MapRule::Active(active(*i)), R::And(i) => MapRule::AndActive(active(*i)),
        R::Layer(l) => MapRule::Layer(f32::from(*l)), R::Zoom(z) => MapRule::Zoom(ZOOM[*z as usize]), R::Font(k, v) => MapRule::FontSize(font(*k, *v)),
        R::Style(s, w) => MapRule::LineStyle(LineStyle { width: i32::from(*w), style: STYLE[*s as usize].into() }),
        R::Symbol(n, l, t) => MapRule::Symbol(MapSymbol { name: WORD[*n as usize].into(), location: loc(*l), label: t.map(|t| Label { text: WORD[t as usize].into(), pos: OFF[t as usize % 3] }), label_alignment: None }),
        R::Lines(v) => MapRule::Line(v.iter().map(|p| MapLine { points: p.iter().map(|i| loc(*i)).collect() }).collect()),
        R::Text(l, t) => MapRule::Text(Text { location: loc(*l), content: WORD[*t as usize].into(), alignment: None }),
        R::Poly => MapRule::CoordPoly("15".into()), R::CoordLine => MapRule::CoordLine, R::Coord(l) => MapRule::Coord(loc(*l)), R::Global => MapRule::Global, R::Screen => MapRule::ScreenSpecific,
    }
}
fn rule_text(r: &R) -> String {
    match r {
        R::Folder(f) => format!("FOLDER:{}", FOLD[*f as usize]), R::Hidden => "HIDDEN".into(), R::Colour(c) => format!("COLOR:{}", COL[*c as usize]),
        R::Asr(None) => "ASRDATA:*".into(), R::Asr(Some(v)) => format!("ASRDATA:{}", v.iter().map(|i| WORD[*i as usize]).collect::<Vec<_>>().join(",")),
        R::Active(i) => format!("ACTIVE:{}", active_text(*i)), R::And(i) => format!("AND_ACTIVE:{}", active_text(*i)), R::Layer(l) => format!("LAYER:{l}"), R::Zoom(z) => format!("ZOOM:{}", ZOOM[*z as usize]),
        R::Font(k, v) => if *k < 4 { format!("FONTSIZE:{}:{}", ['=', '+', '-', '*'][*k as usize], SIZE[*v as usize]) } else { "FONTSIZE:0".into() },
        R::Style(s, w) => format!("STYLE:{}:{}", STYLE[*s as usize], w),
        R::Symbol(n, l, t) => format!("SYMBOL:{}:{}{}", WORD[*n as usize], loc_text(*l), t.map_or(String::new(), |t| format!(":{}:{}:{}", WORD[t as usize], OFF[t as usize % 3].0, OFF[t as usize % 3].1))),
        R::Lines(v) => v.iter().flat_map(|p| p.windows(2).map(|w| format!("LINE:{}:{}", loc_text(w[0]), loc_text(w[1])))).collect::<Vec<_>>().join("\n"),
        R::Text(l, t) => format!("TEXT:{}:{}", loc_text(*l), WORD[*t as usize]), R::Poly => "COORDPOLY:15".into(), R::CoordLine => "COORDLINE".into(), R::Coord(l) => format!("COORD:{}", loc_text(*l)), R::Global => "GLOBAL".into(), R::Screen => "SCREEN-SPECIFIC".into(),
    }
}
/// lines that the file format can express: one polyline per run, between other rules, no repeated or mixed places
fn expressible(rules: &[R]) -> bool {
    !rules.is_empty() && rules.iter().all(|r| match r { R::Lines(v) => v.len() == 1 && v[0].len() >= 2 && v[0].windows(2).all(|w| w[0] != w[1] && (w[0] < 5) == (w[1] < 5)), R::Asr(Some(v)) => !v.is_empty(), R::Layer(l) => *l >= 0, _ => true })
        && rules.windows(2).all(|w| !matches!((&w[0], &w[1]), (R::Lines(_), R::Lines(_))))
}
fn produce(c: &Case) -> Result<MapFolders, String> {
    if c.text {
        let mut t = String::from("COLORDEF:red:255:0:0\nCOLORDEF:blue:0:0:255\n");
        for (n, rules) in &c.maps { t += &format!("MAP:{}\n", NAME[*n as usize]); for r in rules { t += &rule_text(r); t.push('\n'); } }
        // a rule of a map may end with an override too: place them where they belong to the file
        let o: String = c.over.iter().map(|(f, n)| format!("OVERRIDE_SCT_MAP:{}{}\n", FOLD[*f as usize], n.map_or(String::new(), |n| format!("\\{}", NAME[n as usize])))).collect();
        let t = format!("{o}{t}");
        return adaptation(&files(Some(t.clone()))).map(|a| a.maps).map_err(|e| format!("file does not read: {e}\n{t}"));
    }
    BASE.with(|(a, t)| {
        let mut t = t.clone();
        t.maps = c.maps.iter().map(|(n, rules)| MapDef { name: NAME[*n as usize].into(), rules: rules.iter().map(rule).collect() }).collect();
        t.overrides = c.over.iter().map(|(f, n)| OverrideSct { folder: FOLD[*f as usize].into(), name: n.map(|n| NAME[n as usize].into()) }).collect();
        Ok(from_topsky(&t, &a.settings, &a.colours, &a.locations))
    })
}
/// folder -> (map name -> index of its definition)
fn sorted(c: &Case) -> HashMap<String, HashMap<String, usize>> {
    let mut f: HashMap<String, HashMap<String, usize>> = HashMap::new();
    for (k, (n, rules)) in c.maps.iter().enumerate() {
        if !rules.iter().any(|r| matches!(r, R::Colour(c) if colour(*c).is_some())) { continue; }
        let folder = rules.iter().rev().find_map(|r| if let R::Folder(f) = r { Some(FOLD[*f as usize]) } else { None }).unwrap_or("AUTO");
        let m = f.entry(folder.into()).or_default();
        let own = NAME[*n as usize].to_string();
        let name = if m.contains_key(&own) { (2u32..).map(|i| format!("{own}_{i}")).find(|x| !m.contains_key(x)).unwrap() } else { own };
        m.insert(name, k);
    }
    f
}
#[derive(Clone, Debug, PartialEq)]
struct Look { colour: Colour, font: f32, layer: f32, asr: Option<Vec<String>>, zoom: Option<f32>, style: String }
#[derive(Clone, Debug, PartialEq)]
enum El { Line(Vec<(f64, f64)>), Poly(Vec<(f64, f64)>), Text((f64, f64), String), Symbol((f64, f64), String, Option<String>, (f64, f64)) }
fn kind(e: &El) -> usize { match e { El::Line(_) => 0, El::Poly(_) => 1, El::Text(..) => 2, El::Symbol(..) => 3 } }
fn expected(rules: &[R]) -> Vec<(El, Look)> {
    let base = rules.iter().find_map(|r| if let R::Colour(c) = r { colour(*c) } else { None }).unwrap();
    let mut l = Look { colour: base, font: 12.0, layer: 1.0, asr: None, zoom: None, style: format!("{:?}", LineStyle::default()) };
    let mut out = vec![];
    let mut buf: Vec<u8> = vec![];
    let pts = |v: &[u8]| v.iter().filter_map(|i| place(*i)).collect::<Vec<_>>();
    for r in rules {
        match r {
            R::Colour(c) => if let Some(c) = colour(*c) { l.colour = c },
            R::Asr(a) => l.asr = a.as_ref().map(|v| v.iter().map(|i| WORD[*i as usize].into()).collect()),
            R::Layer(x) => l.layer = f32::from(*x), R::Zoom(z) => l.zoom = Some(ZOOM[*z as usize]),
            R::Font(k, v) => { let s = SIZE[*v as usize]; l.font = match k { 0 => s, 1 => l.font + s, 2 => l.font - s, 3 => l.font * s, _ => 12.0 } }
            R::Style(s, w) => l.style = format!("{:?}", LineStyle { width: i32::from(*w), style: STYLE[*s as usize].into() }),
            R::Lines(v) => for p in v { out.push((El::Line(pts(p)), l.clone())); },
            R::Text(p, t) => if let Some(p) = place(*p) { out.push((El::Text(p, WORD[*t as usize].into()), l.clone())); },
            R::Symbol(n, p, t) => if let Some(p) = place(*p) { out.push((El::Symbol(p, WORD[*n as usize].into(), t.map(|t| WORD[t as usize].into()), t.map_or((3.0, 3.0), |t| OFF[t as usize % 3])), l.clone())); },
            R::Coord(p) => buf.push(*p),
            R::CoordLine => { out.push((El::Line(pts(&buf)), l.clone())); buf.clear(); }
            R::Poly => { let mut p = pts(&buf); if p.first() != p.last() { p.push(p[0]); } out.push((El::Poly(p), l.clone())); buf.clear(); }
            _ => {}
        }
    }
    // a line or an area none of whose places is known shows nothing
    out.retain(|(e, _)| !matches!(e, El::Line(p) | El::Poly(p) if p.is_empty()));
    out
}
fn near(a: (f64, f64), b: (f64, f64)) -> bool { (a.0 - b.0).abs() < 1e-9 && (a.1 - b.1).abs() < 1e-9 }
fn all_near(a: &[(f64, f64)], b: &[(f64, f64)]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y)) }
fn same(a: &El, b: &El) -> bool { match (a, b) { (El::Line(x), El::Line(y)) | (El::Poly(x), El::Poly(y)) => all_near(x, y), (El::Text(x, t), El::Text(y, u)) => near(*x, *y) && t == u, (El::Symbol(x, a, b, c), El::Symbol(y, d, e, f)) => near(*x, *y) && a == d && b == e && near(*c, *f), _ => false } }
fn check_map(m: &Map, rules: &[R]) -> Result<bool, String> {
    let want = expected(rules);
    let mut got: [Vec<(El, Look, usize)>; 4] = Default::default();
    for (n, g) in m.map_groups.iter().enumerate() {
        let l = Look { colour: g.colour, font: g.font_size, layer: g.layer, asr: g.asr_data.clone(), zoom: g.zoom, style: format!("{:?}", g.line_style) };
        got[0].extend(g.lines.0.iter().map(|x| (El::Line(x.0.iter().map(|c| (c.x, c.y)).collect()), l.clone(), n)).filter(|x| x.0 != El::Line(vec![])));
        got[1].extend(g.polygons.iter().map(|x| (El::Poly(x.exterior().0.iter().map(|c| (c.x, c.y)).collect()), l.clone(), n)).filter(|x| x.0 != El::Poly(vec![])));
        if g.polygons.iter().any(|p| !p.interiors().is_empty()) { return Err("a polygon has holes".into()); }
        if g.labels.iter().any(|x| x.alignment != Alignment::default()) || g.symbols.iter().any(|x| x.label_alignment != Alignment::default()) { return Err("alignment differs".into()); }
        got[2].extend(g.labels.iter().map(|x| (El::Text((x.coordinate.x(), x.coordinate.y()), x.text.clone()), l.clone(), n)));
        got[3].extend(g.symbols.iter().map(|x| (El::Symbol((x.coordinate.x(), x.coordinate.y()), x.name.clone(), x.label.clone(), x.label_offset), l.clone(), n)));
    }
    let mut at = [0usize; 4];
    let mut group = 0;
    for (k, (e, l)) in want.iter().enumerate() {
        let i = kind(e);
        let Some((ge, gl, n)) = got[i].get(at[i]) else { return Err(format!("element {k} ({e:?}) is missing from {:?}", m.map_groups)) };
        at[i] += 1;
        if !same(ge, e) { return Err(format!("element {k} should be {e:?}, is {ge:?}")); }
        if gl != l { return Err(format!("element {k} ({e:?}) should be drawn with {l:?}, is drawn with {gl:?}")); }
        if *n < group { return Err(format!("element {k} ({e:?}) is drawn before the one preceding it")); }
        group = *n;
    }
    if (0..4).any(|i| at[i] != got[i].len()) { return Err(format!("elements are drawn that the map does not list: {:?}", m.map_groups)); }
    let mut act: Vec<Vec<Active>> = vec![];
    for r in rules { match r { R::Active(i) => act.push(vec![active(*i)]), R::And(i) => if let Some(l) = act.last_mut() { l.push(active(*i)) }, _ => {} } }
    if m.active != act { return Err(format!("activity should be {act:?}, is {:?}", m.active)); }
    if m.hidden != rules.contains(&R::Hidden) { return Err(format!("hidden is {}", m.hidden)); }
    Ok(!want.is_empty())
}
fn check(c: &Case, look: bool) -> Res {
    if c.text && !c.maps.iter().all(|m| expressible(&m.1)) { return Ok(Out::Trivial); }
    if c.text && c.maps.is_empty() && c.over.is_empty() { return Ok(Out::Trivial); }
    let got = produce(c)?;
    let want = sorted(c);
    let mut names: Vec<&String> = got.keys().collect(); names.sort();
    let mut keys: Vec<&String> = want.keys().collect(); keys.sort();
    if names != keys { return Err(format!("folders should be {keys:?}, are {names:?}")); }
    let mut any = false;
    for (f, maps) in &want {
        let g = &got[f];
        let mut a: Vec<&String> = g.maps.keys().collect(); a.sort();
        let mut b: Vec<&String> = maps.keys().collect(); b.sort();
        if a != b { return Err(format!("folder {f} should hold {b:?}, holds {a:?}")); }
        if g.name != *f { return Err(format!("folder {f} calls itself {}", g.name)); }
        let hide = f == "AUTO" || c.over.iter().any(|(o, n)| FOLD[*o as usize] == f && n.is_none());
        if g.hidden != hide { return Err(format!("folder {f}: hidden is {}", g.hidden)); }
        for (n, k) in maps {
            let m = &g.maps[n];
            if m.name != *n || m.folder != *f { return Err(format!("map {n} in {f} calls itself {} in {}", m.name, m.folder)); }
            any |= !look;
            any |= check_map(m, &c.maps[*k].1).map_err(|e| format!("map {n} in folder {f}, definition {k}: {e}"))?;
        }
    }
    Ok(if any { Out::Ok } else { Out::Trivial })
}
fn gen_rule(r: &mut Rng) -> R {
    let n = |r: &mut Rng, k: usize| r.below(k) as u8;
    match r.below(22) {
        0 => R::Folder(n(r, 5)), 1 => R::Hidden, 2 | 3 => R::Colour(n(r, 6)), 4 => R::Asr(if r.chance(1, 3) { None } else { Some((0..r.below(3) + 1).map(|_| n(r, 4)).collect()) }), 5 => R::Active(n(r, ACTIVE as usize)), 6 => R::And(n(r, ACTIVE as usize)),
        7 => R::Layer(r.range(-3, 9) as i8), 8 => R::Zoom(n(r, 4)), 9 => R::Font(n(r, 5), n(r, 4)), 10 => R::Style(n(r, 4), n(r, 3)), 11 | 12 => R::Symbol(n(r, 4), n(r, 10), if r.chance(1, 2) { Some(n(r, 4)) } else { None }),
        13 => R::Lines((0..r.below(3) + 1).map(|_| (0..r.below(4) + 1).map(|_| n(r, 10)).collect()).collect()), 14 => { let k = if r.chance(1, 2) { (0, 5) } else { (5, 5) }; R::Lines(vec![(0..r.below(4) + 2).map(|_| k.0 + n(r, k.1)).collect()]) }
        15 => R::Text(n(r, 10), n(r, 4)), 16 => R::Poly, 17 => R::CoordLine, 18 | 19 => R::Coord(n(r, 10)), 20 => R::Global, _ => R::Screen,
    }
}
fn tidy(c: &mut Case) {
    if c.text { for m in &mut c.maps {
        let mut v: Vec<R> = vec![];
        for r in m.1.drain(..) { if expressible(&[r.clone()]) && !matches!((v.last(), &r), (Some(R::Lines(_)), R::Lines(_))) { v.push(r); } }
        if v.is_empty() { v.push(R::Global); }
        m.1 = v;
    } }
}
fn shrinks(c: &Case) -> Vec<Case> {
    let mut v: Vec<Case> = drop_one(&c.maps).into_iter().map(|maps| Case { maps, ..c.clone() }).collect();
    v.extend(drop_one(&c.over).into_iter().map(|over| Case { over, ..c.clone() }));
    for (i, m) in c.maps.iter().enumerate() { for rules in drop_one(&m.1) { let mut d = c.clone(); d.maps[i].1 = rules; v.push(d); } }
    v
}
const UNIT: [fn() -> R; 16] = [|| R::Colour(0), || R::Colour(1), || R::Colour(4), || R::Layer(3), || R::Zoom(2), || R::Font(1, 0), || R::Style(1, 1), || R::Asr(Some(vec![0])), || R::Symbol(0, 0, None), || R::Lines(vec![vec![0, 1]]), || R::Text(1, 0), || R::Coord(1), || R::Poly, || R::CoordLine, || R::Active(1), || R::And(2)];
pub struct C10;
impl Prop for C10 {
    const ID: &'static str = "C10";
    const RULE: &'static str = "every sequence of up to four rules over sixteen representative ones; random maps of up to 80 rules over eighteen kinds, six colour names, ten places (two unknown), directly and through TopSkyMaps.txt";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        let mut i = i;
        for n in 1..=4u32 {
            let k = 16u64.pow(n);
            if i < k { let mut v = vec![]; for _ in 0..n { v.push(UNIT[(i % 16) as usize]()); i /= 16; } v.push(R::Coord(2)); v.push(R::Poly); v.push(R::Text(3, 1)); v.push(R::Colour(3)); return Some(Case { maps: vec![(0, v)], over: vec![], text: false }); }
            i -= k;
        }
        None
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        let n = if r.chance(1, 4) { 2 } else { 1 };
        let mut c = Case { maps: (0..n).map(|_| { let k = r.below(2 * s) + 1; let mut v: Vec<R> = (0..k).map(|_| gen_rule(r)).collect(); if r.chance(5, 6) { let at = r.below(v.len() + 1); v.insert(at, R::Colour(r.below(4) as u8)); } (r.below(7) as u8, v) }).collect(), over: vec![], text: r.chance(1, 4) };
        tidy(&mut c);
        c
    }
    fn check(c: &Case) -> Res { check(c, true) }
    fn shrink(c: &Case) -> Vec<Case> { shrinks(c) }
}
pub struct C11;
impl Prop for C11 {
    const ID: &'static str = "C11";
    const RULE: &'static str = "random files of up to 60 map definitions over seven names that collide with each other's numbered forms, five folders including the automatic one, maps without a usable colour, several folder rules in one map, overrides of whole folders and of single maps; directly and through TopSkyMaps.txt";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        // up to five maps over three names, in one folder
        let mut i = i;
        for n in 1..=6u32 {
            let k = 3u64.pow(n);
            if i < k { let mut maps = vec![]; for j in 0..n { maps.push(((i % 3) as u8, vec![R::Colour(0), R::Folder((j == 3) as u8), R::Text(0, (j % 4) as u8)])); i /= 3; } return Some(Case { maps, over: vec![((k % 3) as u8, None)], text: false }); }
            i -= k;
        }
        None
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        let folders = 1 + r.below(5); let names = 1 + r.below(7);
        let mut c = Case { maps: (0..r.below(s * 2) + 1).map(|_| { let mut v: Vec<R> = vec![]; if r.chance(9, 10) { v.push(R::Colour(r.below(6) as u8)); } for _ in 0..r.below(3) { v.push(R::Folder(r.below(folders) as u8)); } if r.chance(1, 3) { v.push(R::Text(r.below(10) as u8, r.below(4) as u8)); } if r.chance(1, 6) { v.push(R::Hidden); } if r.chance(1, 4) { v.push(R::Colour(r.below(6) as u8)); } (r.below(names) as u8, v) }).collect(),
            over: (0..r.below(3)).map(|_| (r.below(5) as u8, if r.chance(1, 2) { None } else { Some(r.below(7) as u8) })).collect(), text: r.chance(1, 4) };
        tidy(&mut c);
        c
    }
    fn check(c: &Case) -> Res { check(c, false) }
    fn shrink(c: &Case) -> Vec<Case> { shrinks(c) }
}
