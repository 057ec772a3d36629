//! C34: what a plugin folder's settings and map files define.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use vatsim_parser::topsky::map::MapRule;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum L { Map(String, String, usize), Colour(String, [String; 3]), Symbol(String, String), Style(String, String, String, Vec<String>), Over(String, Option<String>), Sct(String) }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { lines: Vec<L>, settings: Vec<(String, [String; 3])>, crlf: bool, blank: usize }
pub struct C34;
fn rgb(c: &[String; 3]) -> Option<(u8, u8, u8)> { let n = |i: usize| { let v: i128 = c[i].trim_start_matches('+').parse().ok()?; if c[i].starts_with('-') { None } else { u8::try_from(v).ok() } }; Some((n(0)?, n(1)?, n(2)?)) }
impl Prop for C34 {
    const ID: &'static str = "C34";
    const RULE: &'static str = "a settings file with up to 4 colours and a map file with up to 14 lines of every kind (maps with a folder, layer and buffer; colours in and out of range; symbols; line styles with up to 5 lengths; overrides of folders and of maps; sector file paths), names repeated and shared between kinds and files, blank lines, both line ends";
    type Case = Case;
    fn gen(r: &mut Rng, s: usize) -> Case {
        let name = |r: &mut Rng| r.pick(&["A", "B", "Active_Map", "x y", "Ü1", "a.b-c", "B"]).to_string();
        let comp = |r: &mut Rng| match r.below(14) { 0 => r.pick(&["256", "-1", "+5", "007", "999999999999999999", "-0", "260"]).to_string(), _ => r.below(256).to_string() };
        let lines = (0..1 + r.below(s.min(14))).map(|_| match r.below(7) {
            0 | 1 => L::Map(name(r), name(r), r.below(3)),
            2 => L::Colour(name(r), [comp(r), comp(r), comp(r)]),
            3 => L::Symbol(name(r), r.below(20).to_string()),
            4 => L::Style(name(r), name(r), name(r), (0..r.below(6)).map(|_| match r.below(5) { 0 => format!("-{}", r.below(9)), 1 => format!("+{}", r.below(9)), 2 => "123456789012345678".to_string(), _ => r.below(40).to_string() }).collect()),
            5 => L::Over(r.pick(&["F", "Regions", "f g"]).to_string(), r.chance(2, 3).then(|| name(r))),
            _ => L::Sct(name(r)),
        }).collect();
        let settings = (0..r.below(5)).map(|_| (r.pick(&["A", "B", "Active_Map", "Q"]).to_string(), [r.below(256).to_string(), r.below(256).to_string(), r.below(256).to_string()])).collect();
        Case { lines, settings, crlf: r.chance(1, 3), blank: r.below(4) }
    }
    fn check(c: &Case) -> Res {
        if c.lines.is_empty() { return Ok(Out::Trivial); }
        let nl = if c.crlf { "\r\n" } else { "\n" };
        let mut t = String::new();
        for (i, l) in c.lines.iter().enumerate() {
            t += &match l {
                L::Map(n, f, k) => format!("MAP:{n}{nl}FOLDER:{f}{nl}{}", (0..*k).map(|j| format!("LAYER:{j}{nl}")).collect::<String>()),
                L::Colour(n, c) => format!("COLORDEF:{n}:{}:{}:{}{nl}", c[0], c[1], c[2]),
                L::Symbol(n, x) => format!("SYMBOLDEF:{n}{nl}MOVETO:{x}:0{nl}"),
                L::Style(n, b, h, d) => format!("LINESTYLEDEF:{n}:{b}:{h}{}{}{nl}", if d.is_empty() { "" } else { ":" }, d.join(",")),
                L::Over(f, n) => format!("OVERRIDE_SCT_MAP:{f}{}{nl}", n.as_ref().map_or(String::new(), |n| format!("\\{n}"))),
                L::Sct(n) => format!("SCTFILEPATH:{n}{nl}"),
            };
            if c.blank > 0 && i % 4 < c.blank { t += nl; }
        }
        let st = format!("A=1\n{}", c.settings.iter().map(|(n, v)| format!("Color_{n}={},{},{}\n", v[0], v[1], v[2])).collect::<String>());
        let g = topsky(&st, None, &t).map_err(|e| format!("the plugin files do not read: {e}"))?;
        // a line of a map may follow its settings: an override right after a map is one of them
        let mut maps: Vec<(&str, &str, usize)> = vec![];
        let (mut cols, mut syms, mut styles): (BTreeMap<&str, (u8, u8, u8)>, BTreeMap<&str, f64>, BTreeMap<&str, (&str, &str, Vec<f32>)>) = Default::default();
        let mut overs: Vec<(&str, Option<&str>)> = vec![];
        for (n, v) in &c.settings { if let Some(x) = rgb(v) { cols.insert(n, x); } }
        let mut inmap = false;
        for l in &c.lines {
            match l {
                L::Map(n, f, k) => { maps.push((n, f, *k)); inmap = true; continue; }
                L::Over(..) if inmap => continue,
                L::Over(f, n) => overs.push((f, n.as_deref())),
                L::Colour(n, v) => if let Some(x) = rgb(v) { cols.insert(n, x); },
                L::Symbol(n, x) => { syms.insert(n, x.parse().unwrap()); }
                L::Style(n, b, h, d) => { styles.insert(n, (b, h, d.iter().map(|x| x.parse().unwrap()).collect())); }
                L::Sct(_) => {}
            }
            inmap = false;
        }
        let gm: Vec<(&str, &str, usize)> = g.maps.iter().map(|m| (m.name.as_str(), match m.rules.first() { Some(MapRule::Folder(f)) => f.as_str(), _ => "?" }, m.rules.len().wrapping_sub(1))).collect();
        if gm != maps { return Err(format!("the maps are {gm:?}, the file says {maps:?}")); }
        let go: Vec<(&str, Option<&str>)> = g.overrides.iter().map(|o| (o.folder.as_str(), o.name.as_deref())).collect();
        if go != overs { return Err(format!("the overrides are {go:?}, the file says {overs:?}")); }
        let gc: BTreeMap<&str, (u8, u8, u8)> = g.colours.iter().map(|(k, d)| (k.as_str(), (d.colour.r, d.colour.g, d.colour.b))).collect();
        if gc != cols || g.colours.iter().any(|(k, d)| *k != d.name || d.colour.a != 255) { return Err(format!("the colours are {gc:?}, the files say {cols:?}")); }
        let gs: BTreeMap<&str, f64> = g.symbols.iter().map(|(k, d)| (k.as_str(), match d.rules.as_slice() { [vatsim_parser::adaptation::symbols::SymbolRule::Move((x, _))] => *x, _ => f64::NAN })).collect();
        if gs != syms || g.symbols.iter().any(|(k, d)| *k != d.name) { return Err(format!("the symbols are {gs:?}, the file says {syms:?}")); }
        let gl: BTreeMap<&str, (&str, &str, Vec<f32>)> = g.line_styles.iter().map(|(k, d)| (k.as_str(), (d.brush.as_str(), d.hatch.as_str(), d.dash_lengths.clone()))).collect();
        if gl != styles || g.line_styles.iter().any(|(k, d)| *k != d.name) { return Err(format!("the line styles are {gl:?}, the file says {styles:?}")); }
        Ok(Out::Ok)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in drop_one(&c.lines) { v.push(Case { lines: s, ..c.clone() }); }
        for s in drop_one(&c.settings) { v.push(Case { settings: s, ..c.clone() }); }
        if c.crlf || c.blank > 0 { v.push(Case { crlf: false, blank: 0, ..c.clone() }); }
        v
    }
}
