//! C23: plugin settings.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use vatsim_parser::adaptation::colours::Colour;
use vatsim_parser::adaptation::settings::track::TrackSettings;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum L { Set(String, String), Col(String, u32, u32, u32), ColNone(String), Note, Blank }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { general: Vec<L>, sections: Vec<(String, Vec<L>)>, crlf: bool }
const KEYS: [&str; 8] = ["Track_HistoryDots", "Track_PredictionLine", "Maps_FontSize", "Setup_COOPANS", "A", "Track_HistoryDot", "Track_History", "track_historydots"];
const VALS: [&str; 22] = ["0", "6", "3", "9", "-1", "+5", "4294967295", "4294967296", "1.5", "0.0", "-0.0", "1e3", "NaN", "inf", "abc", "", "true", "255", "256", "5 6", "007", "0x1"];
const CKEYS: [&str; 4] = ["Active_Map", "Active_Map_Type_1", "X", "Foreground"];
fn line(r: &mut Rng) -> L {
    match r.below(10) {
        0..=5 => L::Set(r.pick(&KEYS).to_string(), r.pick(&VALS).to_string()),
        6 | 7 => { let mut c = || if r.chance(1, 5) { 256 + r.below(1000) as u32 } else { r.below(256) as u32 }; let (a, b, d) = (c(), c(), c()); L::Col(r.pick(&CKEYS).to_string(), a, b, d) }
        8 => L::ColNone(r.pick(&CKEYS).to_string()),
        _ => if r.chance(1, 2) { L::Note } else { L::Blank },
    }
}
fn text(c: &Case) -> String {
    let mut v: Vec<String> = vec![];
    let f = |l: &L| match l { L::Set(k, x) => format!("{k}={x}"), L::Col(k, a, b, d) => format!("Color_{k}={a},{b},{d}"), L::ColNone(k) => format!("Color_{k}"), L::Note => "// a note=1".into(), L::Blank => String::new() };
    for l in &c.general { v.push(f(l)); }
    for (s, ls) in &c.sections { v.push(format!("[{s}]")); for l in ls { v.push(f(l)); } }
    v.join(if c.crlf { "\r\n" } else { "\n" })
}
pub struct C23;
impl Prop for C23 {
    const ID: &'static str = "C23";
    const RULE: &'static str = "settings files of general lines and sections with repeated, similar and malformed keys, values and colours; every pair of (history dots, prediction line) values; look-ups as u8, u32, i32, f32, bool and text of every key used and of absent ones";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        let n = VALS.len() as u64;
        if i >= n * n * 2 { return None; }
        let (a, b, s) = (VALS[(i % n) as usize], VALS[(i / n % n) as usize], i / n / n);
        let one = |k: &str, v: &str| L::Set(k.into(), v.into());
        Some(if s == 0 { Case { general: vec![one(KEYS[0], a), one(KEYS[1], b)], sections: vec![], crlf: false } }
             else { Case { general: vec![one(KEYS[0], a), one(KEYS[0], b)], sections: vec![("_APP".into(), vec![one(KEYS[0], "4")])], crlf: false } })
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        let n = r.below(s.min(12)) + 1;
        let m = r.below(3);
        Case { general: (0..n).map(|_| line(r)).collect(), sections: (0..m).map(|_| { let k = r.below(4); (r.pick(&["EDMM_", "_APP", "EDGG"]).to_string(), (0..k).map(|_| line(r)).collect()) }).collect(), crlf: r.chance(1, 4) }
    }
    fn check(c: &Case) -> Res {
        let t = topsky(&text(c), None, "SCTFILEPATH:x\n");
        let t = match t {
            Ok(t) => t,
            // which layouts the grammar accepts is not part of this property, but a plain list of settings reads
            Err(e) if c.sections.is_empty() && !c.general.is_empty() && c.general.iter().all(|l| matches!(l, L::Set(..) | L::Col(..))) => return Err(format!("settings file does not read: {e}")),
            Err(_) => return Ok(Out::Trivial),
        };
        let last = |k: &str| c.general.iter().rev().find_map(|l| match l { L::Set(a, v) if a == k => Some(v.as_str()), _ => None });
        fn same<T: std::str::FromStr + PartialEq + std::fmt::Debug + Copy>(k: &str, v: Option<&str>, d: T, t: &vatsim_parser::topsky::settings::Settings) -> Result<(), String> {
            let want = v.and_then(|v| v.parse::<T>().ok()).unwrap_or(d);
            let got = t.parse_with_default(k, d);
            if got != want && format!("{got:?}") != format!("{want:?}") { return Err(format!("{k} reads as {got:?}, expected {want:?} (value {v:?})")); }
            Ok(())
        }
        for k in KEYS.iter().chain(["absent", ""].iter()) {
            let v = last(k);
            same::<u32>(k, v, 77, &t.settings)?; same::<u8>(k, v, 200, &t.settings)?; same::<i32>(k, v, -3, &t.settings)?; same::<f32>(k, v, 2.25, &t.settings)?; same::<bool>(k, v, true, &t.settings)?;
            let (got, want) = (t.settings.parse_with_default(k, "dflt".to_string()), v.unwrap_or("dflt"));
            if got != want { return Err(format!("{k} reads as {got:?}, expected {want:?}")); }
            if t.settings.get(*k).map(String::as_str) != v { return Err(format!("stored value of {k}: {:?}, expected {v:?}", t.settings.get(*k))); }
        }
        let stored = t.settings.len();
        let want = KEYS.iter().filter(|k| last(k).is_some()).count();
        if stored != want { return Err(format!("{stored} settings stored, {want} given")); }
        for k in CKEYS {
            let w = c.general.iter().rev().find_map(|l| match l { L::Col(a, r, g, b) if a == k && *r < 256 && *g < 256 && *b < 256 => Some(Colour::from_rgb(*r as u8, *g as u8, *b as u8)), _ => None });
            let got = t.colours.get(k).map(|x| x.colour);
            if got != w { return Err(format!("colour {k} is {got:?}, expected {w:?}")); }
        }
        let tr = TrackSettings::from_topsky(&t);
        let h = last(KEYS[0]).and_then(|v| v.parse::<u32>().ok()).unwrap_or(6);
        let p = last(KEYS[1]).and_then(|v| v.parse::<f32>().ok()).unwrap_or(1.0);
        let wh = (h != 0, if h == 0 { 6 } else { h });
        if (tr.history_dots.enabled, tr.history_dots.count) != wh { return Err(format!("history dots {:?}, expected {wh:?}", tr.history_dots)); }
        let wp = (p != 0.0, if p == 0.0 { 1.0 } else { p });
        if tr.vector.enabled != wp.0 || (tr.vector.length != wp.1 && !(tr.vector.length.is_nan() && wp.1.is_nan())) { return Err(format!("vector {:?}, expected {wp:?}", tr.vector)); }
        Ok(if c.general.iter().any(|l| matches!(l, L::Set(..))) { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o: Vec<Case> = drop_one(&c.general).into_iter().map(|general| Case { general, ..c.clone() }).collect();
        o.extend(drop_one(&c.sections).into_iter().map(|sections| Case { sections, ..c.clone() }));
        o
    }
}
