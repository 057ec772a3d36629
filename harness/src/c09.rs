//! C09: special-use squawk codes.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vatsim_parser::{adaptation::{colours::Colour, settings::SsrSettings}, squawks::{parse_squawks_json, Range, SquawkDef, SquawksJson}};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Def { code: Option<String>, range: Option<(String, String)>, message: String }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { defs: Vec<Def>, non_discrete: Vec<String>, json: bool }
/// octal digits with a value below 2^16; a leading plus sign is left open
fn octal(s: &str) -> Option<u32> {
    if s.is_empty() || !s.bytes().all(|b| (b'0'..=b'7').contains(&b)) { return None; }
    let mut n = 0u64;
    for b in s.bytes() { n = (n * 8 + (b - b'0') as u64).min(1 << 20); }
    (n < 65536).then_some(n as u32)
}
fn open(s: &str) -> bool { s.starts_with('+') }
fn digits(n: u32) -> String {
    let mut v = vec![];
    let mut x = n;
    while x > 0 || v.len() < 4 { v.push((b'0' + (x % 8) as u8) as char); x /= 8; }
    v.iter().rev().collect()
}
fn text(r: &mut Rng) -> String {
    match r.below(16) {
        0 => r.pick(&["", "8", "0008", "777x", " 12", "12 ", "-1", "+12", "+", "200000", "1777777", "0o12", "٣", "99999999999999999999", "12.0", "1_0"]).to_string(),
        1 => r.pick(&["177777", "177776", "177770", "0", "0000", "00000", "7777", "10000", "000000012", "7", "07", "7000"]).to_string(),
        2 => format!("{:o}", r.below(65536)),
        3 => format!("{:06o}", r.below(64)),
        _ => format!("{:04o}", [0usize, 1, 7, 8, 63, 64, 511, 512, 1024, 4094][r.below(10)] + r.below(3)),
    }
}
pub struct C09;
impl Prop for C09 {
    const ID: &'static str = "C09";
    const RULE: &'static str = "lists of definitions with codes, ranges (ordered, reversed, single, full 0..177777, past the end), both or neither, non-octal texts and overlapping messages, given as values and as JSON text";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        let m = |s: &str| s.to_string();
        let d = |code: Option<&str>, range: Option<(&str, &str)>, message: &str| Def { code: code.map(m), range: range.map(|r| (m(r.0), m(r.1))), message: m(message) };
        let lists: Vec<Vec<Def>> = vec![
            vec![d(None, Some(("0", "177777")), "all")],
            vec![d(None, Some(("0", "177777")), "all"), d(Some("7700"), None, "EMG")],
            vec![d(Some("7700"), None, "EMG"), d(None, Some(("0", "177777")), "all")],
            vec![d(None, Some(("177777", "177777")), "top")],
            vec![d(None, Some(("177776", "177777")), "top")],
            vec![d(None, Some(("0", "0")), "zero")],
            vec![d(None, Some(("7", "10")), "carry")],
            vec![d(None, Some(("10", "7")), "reversed")],
            vec![d(None, Some(("177777", "0")), "reversed")],
            vec![d(Some("7700"), Some(("7700", "7701")), "both")],
            vec![d(None, None, "none")],
            vec![d(Some("200000"), None, "over"), d(None, Some(("7770", "200000")), "over")],
            vec![d(Some("8"), None, "bad"), d(Some("1000"), None, "good"), d(None, Some(("x", "7")), "bad"), d(None, Some(("7", "x")), "bad")],
            vec![d(Some("1000"), None, "a"), d(Some("1000"), None, "b"), d(None, Some(("0777", "1001")), "c"), d(Some("1001"), None, "d")],
            vec![d(Some("12"), None, "short"), d(Some("00012"), None, "long")],
        ];
        let n = lists.len() as u64;
        lists.get((i % n) as usize).filter(|_| i < 2 * n).map(|l| Case { defs: l.clone(), non_discrete: vec![m("2000")], json: i >= n })
    }
    fn gen(r: &mut Rng, size: usize) -> Case {
        let n = r.below(size.min(12) + 1);
        let defs = (0..n).map(|_| {
            let kind = r.below(12);
            let code = (kind < 5 || kind == 11).then(|| text(r));
            let range = (kind >= 5 && kind != 10).then(|| {
                let a = text(r);
                match (r.below(4), octal(&a)) { (0, _) => (a, text(r)), (1, Some(x)) => (a, format!("{:o}", x + r.below(20) as u32)), (2, Some(x)) => (a, format!("{:04o}", x.saturating_sub(r.below(20) as u32))), (_, Some(x)) => (a, format!("{:06o}", (x + r.below(600) as u32).min(65535))), (_, None) => (a, text(r)) }
            });
            Def { code, range, message: r.pick(&["VFR", "EMG", "", "müll", "VFR"]).to_string() + &r.below(4).to_string() }
        }).collect();
        Case { defs, non_discrete: (0..r.below(3)).map(|_| text(r)).collect(), json: r.chance(1, 3) }
    }
    fn check(c: &Case) -> Res {
        let col = Colour::from_rgb(1, 2, 3);
        let sq = if c.json {
            let defs: Vec<serde_json::Value> = c.defs.iter().map(|d| serde_json::json!({"code": d.code, "range": d.range.as_ref().map(|r| serde_json::json!({"start": r.0, "end": r.1})), "message": d.message, "color": "#010203"})).collect();
            let t = serde_json::json!({"NonDiscreteColor": "#010203", "NonDiscreteMessage": "x", "NonDiscrete": c.non_discrete, "Squawks": defs});
            parse_squawks_json(t.to_string().as_bytes()).map_err(|e| format!("squawks.json does not read: {e}"))?
        } else {
            SquawksJson { non_discrete_color: col, non_discrete_message: "x".into(), non_discrete: c.non_discrete.clone(), squawks: c.defs.iter().map(|d| SquawkDef { code: d.code.clone(), range: d.range.as_ref().map(|r| Range { start: r.0.clone(), end: r.1.clone() }), message: d.message.clone(), color: col }).collect() }
        };
        let got = SsrSettings::from_squawks_json(&sq).special_use_codes;
        if c.defs.iter().any(|d| d.code.as_deref().is_some_and(open) || d.range.as_ref().is_some_and(|r| open(&r.0) || open(&r.1))) { return Ok(Out::Trivial); }
        let mut want: HashMap<String, String> = HashMap::new();
        for d in &c.defs {
            match (&d.code, &d.range) {
                (Some(x), None) => { if let Some(n) = octal(x) { want.insert(digits(n), d.message.clone()); } }
                (None, Some((a, b))) => { if let (Some(a), Some(b)) = (octal(a), octal(b)) { for n in a..=b { want.insert(digits(n), d.message.clone()); } } }
                _ => {}
            }
        }
        if got != want {
            let mut keys: Vec<&String> = got.keys().chain(want.keys()).collect();
            keys.sort();
            let k = keys.iter().find(|k| got.get(**k) != want.get(**k)).unwrap();
            return Err(format!("code {k}: {:?}, expected {:?} ({} codes, expected {})", got.get(*k), want.get(*k), got.len(), want.len()));
        }
        Ok(if want.is_empty() { Out::Trivial } else { Out::Ok })
    }
    fn shrink(c: &Case) -> Vec<Case> { drop_one(&c.defs).into_iter().map(|d| Case { defs: d, ..c.clone() }).collect() }
}
