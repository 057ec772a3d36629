//! C20: no input makes a parser panic or run forever. Texts are derived at random from the grammars in /repo themselves (every
//! alternative, every repetition, numbers of every length), then possibly damaged.
use crate::ctx::*;
use pest_meta::ast::{Expr, Rule as ARule, RuleType};
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::sync::OnceLock;
use vatsim_parser::{airway, asr::Asr, ese::Ese, icao_aircraft, icao_airlines, icao_airports, isec, navdata_airports, prf::Prf, sct::Sct, squawks, symbology::Symbology, topsky::Topsky};

/// (parser, grammar files, start rule)
const PARSERS: [(&str, &[&str], &str); 15] = [
    ("sct", &["base", "sct"], "sct"), ("ese", &["base", "ese"], "ese"), ("topsky maps", &["base", "symbol_rule", "topsky"], "maps"), ("topsky symbols", &["base", "symbol_rule", "topsky"], "symbols"),
    ("topsky settings", &["topsky_settings"], "settings"), ("symbology", &["base", "symbol_rule", "symbology"], "symbology"), ("asr", &["asr"], "asr"), ("prf", &["prf"], "prf"), ("airway", &["airway"], "airways"),
    ("isec", &["isec"], "wpts"), ("icao_aircraft", &["base", "icao_aircraft"], "aircraft"), ("icao_airlines", &["base", "icao_airlines"], "airlines"), ("icao_airports", &["base", "icao_airports"], "aircraft"),
    ("navdata_airports", &["base", "navdata_airports"], "airports"), ("squawks", &[], ""),
];
type G = HashMap<String, ARule>;
fn grammar(i: usize) -> &'static G {
    static C: OnceLock<Vec<G>> = OnceLock::new();
    &C.get_or_init(|| PARSERS.iter().map(|(_, fs, _)| {
        let t: String = fs.iter().map(|f| std::fs::read_to_string(format!("{}/src/pest/{f}.pest", std::env::var("VP_REPO").unwrap_or_else(|_| "/repo".into()))).unwrap_or_default() + "\n").collect();
        let p = pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, &t).expect("grammar");
        pest_meta::parser::consume_rules(p).expect("rules").into_iter().map(|r| (r.name.clone(), r)).collect()
    }).collect())[i]
}
struct Gen<'a> { g: &'a G, goal: &'a std::collections::HashSet<String>, r: &'a mut Rng, out: String, stack: Vec<String>, atomic: bool, wild: bool, budget: usize }
const ODD: [char; 24] = ['ä', 'Ω', '٣', '²', '\u{a0}', '"', '\\', ':', '.', '-', '+', '/', ';', '[', '#', '*', ',', '\t', ' ', '{', '=', '０', '𝟗', '\u{feff}'];
/// the rules through which a rule can be reached
fn towards(g: &G, t: &str) -> std::collections::HashSet<String> {
    let mut o = std::collections::HashSet::from([t.to_string()]);
    loop { let n = o.len(); for (k, r) in g { if mentions(&r.expr, &o) { o.insert(k.clone()); } } if o.len() == n { return o; } }
}
fn mentions(e: &Expr, o: &std::collections::HashSet<String>) -> bool {
    match e {
        Expr::Ident(n) => o.contains(n),
        Expr::Seq(a, b) | Expr::Choice(a, b) => mentions(a, o) || mentions(b, o),
        Expr::Opt(a) | Expr::Rep(a) | Expr::RepOnce(a) | Expr::RepExact(a, _) | Expr::RepMin(a, _) | Expr::RepMax(a, _) | Expr::RepMinMax(a, _, _) | Expr::Push(a) => mentions(a, o),
        _ => false,
    }
}
impl Gen<'_> {
    fn sep(&mut self) {
        if self.atomic { return; }
        let n = if self.g.contains_key("WHITESPACE") { match self.r.below(6) { 0 => 0, 1 => 2, _ => 1 } } else { 0 };
        for _ in 0..n { self.out.push(if self.r.chance(1, 8) { '\t' } else { ' ' }); }
        if self.g.contains_key("COMMENT") && self.r.chance(1, 400) { self.out.push_str("; x 1"); }
    }
    fn digits(&mut self) -> String {
        let n = match self.r.below(12) { 0 => 5 + self.r.below(40), 1 => 0, 2..=4 => 3 + self.r.below(3), _ => 1 + self.r.below(3) };
        (0..n.max(1)).map(|_| (b'0' + self.r.below(10) as u8) as char).collect()
    }
    fn ident(&mut self, n: &str) {
        match n {
            "SOI" | "EOI" => {}
            "NEWLINE" => { let x = *self.r.pick(&["\n", "\r\n", "\n", "\r"]); self.out.push_str(x) }
            "ANY" => { let c = if self.r.chance(1, 5) { *self.r.pick(&ODD) } else { (b'!' + self.r.below(94) as u8) as char }; let c = if !self.wild && ":\t\\\";/".contains(c) { 'x' } else { c }; self.out.push(c) }
            "ASCII_DIGIT" => { let c = (b'0' + self.r.below(10) as u8) as char; self.out.push(c) }
            "ASCII_ALPHA" => { let c = (if self.r.chance(1, 2) { b'a' } else { b'A' } + self.r.below(26) as u8) as char; self.out.push(c) }
            "ASCII_ALPHA_UPPER" => { let c = (b'A' + self.r.below(26) as u8) as char; self.out.push(c) }
            "ASCII_ALPHANUMERIC" => { let c = *self.r.pick(&['a', 'Z', '0', '9', 'N', 'E']); self.out.push(c) }
            "LETTER" => { let c = *self.r.pick(&['a', 'Z', 'ä', 'Ω', 'N', 'E', 'q']); self.out.push(c) }
            "NUMBER" => { let c = *self.r.pick(&['0', '1', '9', '٣', '²', 'Ⅷ', '0']); self.out.push(c) }
            "POP" | "POP_ALL" => { let s = self.stack.pop().unwrap_or_default(); self.out.push_str(&s) }
            "PEEK" => { let s = self.stack.last().cloned().unwrap_or_default(); self.out.push_str(&s) }
            _ => if let Some(r) = self.g.get(n) {
                let (a, r) = (self.atomic, r.clone());
                match r.ty { RuleType::Atomic | RuleType::CompoundAtomic => self.atomic = true, RuleType::NonAtomic => self.atomic = false, _ => {} }
                self.expr(&r.expr);
                self.atomic = a;
            },
        }
    }
    fn rep(&mut self, e: &Expr, lo: usize, hi: usize) {
        if matches!(e, Expr::Ident(n) if n == "ASCII_DIGIT") && hi > 9 { let d = self.digits(); if lo > 0 || self.r.chance(3, 4) { self.out.push_str(&d) } return; }
        let max = hi.min(lo + 4);
        let n = (lo + self.r.below(max - lo + 1)).max(usize::from(mentions(e, self.goal)));
        for i in 0..n { if self.budget == 0 && i >= lo { break; } self.budget = self.budget.saturating_sub(1); if i > 0 { self.sep(); } self.expr(e); }
    }
    fn expr(&mut self, e: &Expr) {
        match e {
            Expr::Str(s) | Expr::Insens(s) => { if self.wild && self.r.chance(1, 200) { let t = s.to_lowercase(); self.out.push_str(&t) } else { self.out.push_str(s) } }
            Expr::Range(a, b) => { let (a, b) = (a.chars().next().unwrap() as u32, b.chars().next().unwrap() as u32); let c = char::from_u32(a + self.r.below((b - a + 1) as usize) as u32).unwrap_or('x'); self.out.push(c) }
            Expr::Ident(n) => self.ident(&n.clone()),
            Expr::PosPred(_) | Expr::NegPred(_) => {}
            Expr::Seq(a, b) => { self.expr(a); if !matches!(**a, Expr::PosPred(_) | Expr::NegPred(_)) { self.sep(); } self.expr(b) }
            Expr::Choice(..) => {
                let mut alts = vec![]; let mut c = e;
                while let Expr::Choice(a, b) = c { alts.push(&**a); c = b; }
                alts.push(c);
                let good: Vec<&Expr> = alts.iter().copied().filter(|a| mentions(a, self.goal)).collect();
                if !good.is_empty() && self.r.chance(4, 5) { let i = self.r.below(good.len()); return self.expr(good[i]); }
                let i = self.r.below(alts.len()); self.expr(alts[i])
            }
            Expr::Opt(a) => if self.r.chance(1, 2) || mentions(a, self.goal) { self.expr(a) },
            Expr::Rep(a) => self.rep(a, 0, usize::MAX),
            Expr::RepOnce(a) => self.rep(a, 1, usize::MAX),
            Expr::RepExact(a, n) => self.rep(a, *n as usize, *n as usize),
            Expr::RepMin(a, n) => self.rep(a, *n as usize, usize::MAX),
            Expr::RepMax(a, n) => self.rep(a, 0, *n as usize),
            Expr::RepMinMax(a, n, m) => self.rep(a, *n as usize, *m as usize),
            Expr::Push(a) => { let i = self.out.len(); self.expr(a); let s = self.out[i..].to_string(); self.stack.push(s) }
            _ => {}
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { parser: usize, file: Vec<u8> }
fn read(parser: usize, t: &[u8]) -> bool {
    match PARSERS[parser].0 {
        "sct" => Sct::parse(t).is_ok(),
        "ese" => Ese::parse(t).is_ok(),
        "topsky maps" | "topsky symbols" | "topsky settings" => {
            let d = scratch().join("c20"); let _ = std::fs::create_dir_all(&d);
            let k = PARSERS[parser].0;
            std::fs::write(d.join("TopSkySettings.txt"), if k == "topsky settings" { t } else { b"A=1\n" }).unwrap();
            std::fs::write(d.join("TopSkySymbols.txt"), if k == "topsky symbols" { t } else { b"SYMBOL:A\nMOVETO:0:0\n" }).unwrap();
            std::fs::write(d.join("TopSkyMaps.txt"), if k == "topsky maps" { t } else { b"MAP:A\nCOLOR:x\n" }).unwrap();
            Topsky::parse(&d).is_ok()
        }
        "symbology" => Symbology::parse(t).is_ok(),
        "asr" => Asr::parse(t).is_ok(),
        "prf" => Prf::parse(std::path::Path::new("/"), t).is_ok(),
        "airway" => airway::parse_airway_txt(t).is_ok(),
        "isec" => isec::parse_isec_txt(t).is_ok(),
        "icao_aircraft" => icao_aircraft::parse_aircraft(t).is_ok(),
        "icao_airlines" => icao_airlines::parse_airlines(t).is_ok(),
        "icao_airports" => icao_airports::parse_airports(t).is_ok(),
        "navdata_airports" => navdata_airports::parse_navdata_airports(t).is_ok(),
        _ => squawks::parse_squawks_json(t).is_ok(),
    }
}
pub struct C20;
impl Prop for C20 {
    const ID: &'static str = "C20";
    const RULE: &'static str = "texts derived at random from the grammar files of /repo for each of the 15 parsers (all alternatives and repetitions, digit runs of up to 45 digits, signs, Unicode letters and digits), half of them damaged afterwards (bytes deleted, doubled, exchanged, high or control bytes put in, lines moved, file cut, byte order marks)";
    type Case = Case;
    fn gen(r: &mut Rng, s: usize) -> Case {
        let parser = r.below(PARSERS.len());
        if PARSERS[parser].1.is_empty() {
            let col = |r: &mut Rng| if r.chance(1, 10) { format!("\"{}\"", r.pick(&["#1", "", "red", "#gg0000", "#é1234", "#1234567"])) } else { format!("\"#{:06x}\"", r.below(1 << 24)) };
            let code = |r: &mut Rng| format!("\"{}\"", r.pick(&["1000", "7777", "0-7", "²", "", "99999999999999999999", "88"]));
            let mut defs = vec![];
            for _ in 0..r.below(4) { let mut d = format!("{{\"message\":\"x\",\"color\":{}", col(r)); if r.chance(1, 2) { d += &format!(",\"code\":{}", code(r)); } if r.chance(1, 2) { d += &format!(",\"range\":{{\"start\":{},\"end\":{}}}", code(r), code(r)); } defs.push(d + "}"); }
            let non: Vec<String> = (0..r.below(4)).map(|_| code(r)).collect();
            let t = format!("{{\"NonDiscreteColor\":{},\"NonDiscreteMessage\":\"m\",\"NonDiscrete\":[{}],\"Squawks\":[{}]}}", col(r), non.join(","), defs.join(","));
            let mut f = t.into_bytes(); if r.chance(1, 2) { damage(r, &mut f); }
            return Case { parser, file: f };
        }
        let wild = r.chance(1, 4);
        let gr = grammar(parser); let mut names: Vec<&String> = gr.keys().collect(); names.sort(); let goal = towards(gr, names[r.below(names.len())]);
        let mut g = Gen { g: gr, goal: &goal, r, out: String::new(), stack: vec![], atomic: false, wild, budget: s * 3 };
        g.ident(PARSERS[parser].2);
        let mut file = g.out.into_bytes();
        if r.chance(1, 4) { damage(r, &mut file); }
        Case { parser, file }
    }
    fn check(c: &Case) -> Res { Ok(if read(c.parser, &c.file) { Out::Ok } else { Out::Trivial }) }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o = vec![];
        let ls: Vec<&[u8]> = c.file.split_inclusive(|b| *b == b'\n').collect();
        if ls.len() > 1 { for w in drop_one(&ls) { o.push(Case { file: w.concat(), ..c.clone() }) } }
        if c.file.len() <= 400 { for i in 0..c.file.len() { let mut f = c.file.clone(); f.remove(i); o.push(Case { file: f, ..c.clone() }) } }
        o
    }
}
fn damage(r: &mut Rng, f: &mut Vec<u8>) {
    for _ in 0..1 + r.below(4) {
        if f.is_empty() { return; }
        let i = r.below(f.len());
        match r.below(9) {
            0 => { f.remove(i); }
            1 => { let b = f[i]; f.insert(i, b); }
            2 => f[i] = r.below(256) as u8,
            3 => f.insert(i, *r.pick(b"\n\r\t :;.,-+0N\xe4\xff\x00\"\\[")),
            4 => f.truncate(i),
            5 => { let j = r.below(f.len()); f.swap(i, j) }
            6 => { let (a, b) = (i.min(f.len()), (i + r.below(20)).min(f.len())); f.drain(a..b); }
            7 => { let mut ls: Vec<Vec<u8>> = f.split_inclusive(|b| *b == b'\n').map(<[u8]>::to_vec).collect(); let j = r.below(ls.len()); let k = r.below(ls.len()); ls.swap(j, k); *f = ls.concat() }
            _ => { let m: &[u8] = r.pick(&[&b"\xef\xbb\xbf"[..], &b"\xff\xfe"[..], &b"\xfe\xff"[..]]); let mut g = m.to_vec(); g.extend_from_slice(f); *f = g }
        }
    }
}
pub fn scan(n: usize) {
    use std::collections::BTreeMap; use std::sync::Mutex;
    static LOC: Mutex<String> = Mutex::new(String::new());
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default(); *LOC.lock().unwrap() = l; }));
    let mut r = Rng(7); let mut m: BTreeMap<String, (usize, Vec<u8>)> = BTreeMap::new(); let mut ok = [[0usize; 3]; 15];
    for _ in 0..n {
        let c = C20::gen(&mut r, 8);
        match guarded::<C20>(&c) { Ok(Out::Ok) => ok[c.parser][0] += 1, Ok(_) => ok[c.parser][1] += 1, Err(w) => { ok[c.parser][2] += 1; let k = format!("{} {} {w}", PARSERS[c.parser].0, LOC.lock().unwrap()); let e = m.entry(k).or_insert((0, c.file.clone())); e.0 += 1; if c.file.len() < e.1.len() { e.1 = c.file } } }
    }
    for (p, o) in PARSERS.iter().zip(ok) { println!("{:18} ok {} err {} panic {}", p.0, o[0], o[1], o[2]); }
    for (k, (n, f)) in m { println!("{n:6} {k} {:?}", String::from_utf8_lossy(&f).chars().take(160).collect::<String>()); }
}
