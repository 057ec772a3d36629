//! C22: aircraft type letters and lookup.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use vatsim_parser::adaptation::icao::{Aircraft, AircraftMap, AircraftType, EngineType, Wtc};

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { text: String, map: Vec<(String, u8)>, query: Option<String> }
fn w(i: u8) -> Wtc { [Wtc::LIGHT, Wtc::MEDIUM, Wtc::HEAVY, Wtc::SUPER, Wtc::UNKNOWN][i as usize % 5] }
const EXTRA: [&str; 12] = ["", "L ", " L", "LL", "ä", "–", "\u{ff2c}", "L\0", "--", "HJ", "?", "L1P"];
pub struct C22;
impl Prop for C22 {
    const ID: &'static str = "C22";
    const RULE: &'static str = "every one-character text up to U+0200, odd texts, then random texts; tables of up to 4 aircraft with known, unknown and missing queries";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        if i >= 0x200 + 12 { return None; }
        let text = if i < 0x200 { char::from_u32(i as u32).unwrap().to_string() } else { EXTRA[i as usize - 0x200].to_string() };
        Some(Case { text, map: vec![("B738".into(), (i % 5) as u8)], query: match i % 3 { 0 => None, 1 => Some("B738".into()), _ => Some("b738".into()) } })
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        let al = ['L', 'M', 'H', 'J', '-', 'S', 'A', 'G', 'T', 'P', 'E', 'R', '?', 'l', 'ä', ' '];
        let n = r.below(3);
        let names = ["B738", "A388", "C172", "", "b738"];
        Case { text: (0..n).map(|_| *r.pick(&al)).collect(), map: (0..r.below(s.min(5))).map(|_| (r.pick(&names).to_string(), r.below(5) as u8)).collect(), query: if r.chance(1, 5) { None } else { Some(r.pick(&names).to_string()) } }
    }
    fn check(c: &Case) -> Res {
        let t = c.text.as_str();
        let ww = match t { "L" => Some(Wtc::LIGHT), "M" => Some(Wtc::MEDIUM), "H" => Some(Wtc::HEAVY), "J" => Some(Wtc::SUPER), "-" => Some(Wtc::UNKNOWN), _ => None };
        let wa = match t { "L" => Some(AircraftType::LANDPLANE), "S" => Some(AircraftType::SEAPLANE), "A" => Some(AircraftType::AMPHIBIAN), "G" => Some(AircraftType::GYROCOPTER), "H" => Some(AircraftType::HELICOPTER), "T" => Some(AircraftType::TILTROTOR), "-" => Some(AircraftType::UNKNOWN), _ => None };
        let we = match t { "J" => Some(EngineType::JET), "T" => Some(EngineType::TURBOPROP), "P" => Some(EngineType::PISTON), "E" => Some(EngineType::ELECTRIC), "R" => Some(EngineType::ROCKET), "-" => Some(EngineType::UNKNOWN), _ => None };
        if t.parse::<Wtc>().ok() != ww { return Err(format!("{t:?} decodes to wake category {:?}, expected {ww:?}", t.parse::<Wtc>())); }
        if t.parse::<AircraftType>().ok() != wa { return Err(format!("{t:?} decodes to airframe {:?}, expected {wa:?}", t.parse::<AircraftType>())); }
        if t.parse::<EngineType>().ok() != we { return Err(format!("{t:?} decodes to engine {:?}, expected {we:?}", t.parse::<EngineType>())); }
        for x in [Wtc::LIGHT, Wtc::MEDIUM, Wtc::HEAVY, Wtc::SUPER] {
            if x.to_string().parse() != Ok(x) { return Err(format!("{x:?} prints as {x} which does not decode back")); }
        }
        let mut m = HashMap::new();
        for (k, v) in &c.map { m.insert(k.clone(), Aircraft { designator: k.clone(), wtc: w(*v), aircrafttype: AircraftType::LANDPLANE, num_engines: 2, enginetype: EngineType::JET, manufacturer: String::new(), name: String::new() }); }
        let want = c.query.as_ref().and_then(|q| c.map.iter().rev().find(|x| x.0 == *q)).map_or(Wtc::UNKNOWN, |x| w(x.1));
        let got = AircraftMap(m).wtc(c.query.as_deref());
        if got != want { return Err(format!("category of {:?} is {got:?}, expected {want:?}", c.query)); }
        Ok(if c.query.is_some() || ww.is_some() || wa.is_some() || we.is_some() { Out::Ok } else { Out::Trivial })
    }
}
