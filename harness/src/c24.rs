//! C24: how file bytes become text, seen through every parser that takes bytes.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use vatsim_parser::{adaptation::icao, airway, asr::Asr, ese::Ese, icao_aircraft, icao_airlines, icao_airports, isec, navdata_airports, prf::Prf, sct::Sct, symbology::Symbology, topsky::Topsky};

/// Windows-1252, upper half (unassigned bytes are the control characters of that number)
const HIGH: [u16; 32] = [0x20AC, 0x81, 0x201A, 0x0192, 0x201E, 0x2026, 0x2020, 0x2021, 0x02C6, 0x2030, 0x0160, 0x2039, 0x0152, 0x8D, 0x017D, 0x8F, 0x90, 0x2018, 0x2019, 0x201C, 0x201D, 0x2022, 0x2013, 0x2014, 0x02DC, 0x2122, 0x0161, 0x203A, 0x0153, 0x9D, 0x017E, 0x0178];
fn cp(b: &[u8]) -> String { b.iter().map(|&x| char::from_u32(if (0x80..0xA0).contains(&x) { HIGH[x as usize - 0x80] as u32 } else { x as u32 }).unwrap()).collect() }
/// well-formed UTF-8 by the table of the standard
fn utf8(b: &[u8]) -> Option<String> {
    let (mut o, mut i) = (String::new(), 0);
    let cont = |i: usize, lo: u8, hi: u8| b.get(i).copied().filter(|x| (lo..=hi).contains(x));
    while i < b.len() {
        let x = b[i];
        let (n, lo, hi) = match x { 0..=0x7F => (1, 0, 0), 0xC2..=0xDF => (2, 0x80, 0xBF), 0xE0 => (3, 0xA0, 0xBF), 0xED => (3, 0x80, 0x9F), 0xE1..=0xEF => (3, 0x80, 0xBF), 0xF0 => (4, 0x90, 0xBF), 0xF4 => (4, 0x80, 0x8F), 0xF1..=0xF3 => (4, 0x80, 0xBF), _ => return None };
        let mut c = if n == 1 { x as u32 } else { (x as u32) & (0x7F >> n) };
        for k in 1..n { let y = if k == 1 { cont(i + 1, lo, hi)? } else { cont(i + k, 0x80, 0xBF)? }; c = c << 6 | (y as u32 & 0x3F); }
        o.push(char::from_u32(c)?);
        i += n;
    }
    Some(o)
}
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { kind: u8, fields: Vec<Vec<u8>>, pad: usize, bom: bool, ctrl: Vec<u8> }
const KINDS: u8 = 18;
/// bytes that structure one file format or another
fn free(b: u8) -> bool { !b"\t\n\r :;\"/\\,|".contains(&b) }
fn join(fs: &[&[u8]]) -> Vec<u8> { fs.concat() }
fn f(c: &Case, i: usize) -> Vec<u8> { let mut v = b"x".to_vec(); v.extend(c.fields[i % c.fields.len()].iter().copied().filter(|b| free(*b))); v.push(b'x'); v }
fn file(c: &Case) -> (Vec<u8>, Vec<Vec<u8>>) {
    let (a, b) = (f(c, 0), f(c, 1));
    let pad = vec![b'y'; c.pad];
    let fs = vec![a.clone(), if c.kind >= 15 { b[..b.len() - 1].to_vec() } else { b.clone() }];
    let t = match c.kind {
        0 => join(&[b"; ", &pad, b"\nAAA\t", &a, b"\tCALL\t", &b, b"\n"]),
        1 => join(&[b"AAA\tN\t", &a, b"\t", &b, b"\n;", &pad, b"\n"]),
        2 => join(&[b"; ", &pad, b"\nEDDM\t", &a, b"\t", &b, b"\n"]),
        3 => join(&[b"; ", &pad, b"\nA320\tML2J\t", &a, b"\t", &b, b"\n"]),
        4 => join(&[b"; ", &pad, b"\nEDDM 48.1 11.5 ", &a, b"\nEDDN 48.1 11.5 ", &b, b"\n"]),
        5 => join(&[b"Settings\tairlines\t", &a, b"\nSettings\tairports\t", &b, b"\nSettings\tx\ty", &pad, b"\n"]),
        6 => join(&[b"SECTORFILE:", &a, b"\nSECTORTITLE:", &b, b"\nTAGFAMILY:", &pad, b"\n"]),
        7 => join(&[b"SYMBOLOGY\nSYMBOLSIZE\n", &a, b":", &b, b":32768:2.0:0:2:7\n", b"z", &pad, b":z:1:1.0:0:2:7\nSYMBOL:0\nSYMBOLITEM:MOVETO 0 0\nm_ClipArea:0\nEND\n"]),
        8 => join(&[b"[INFO]\nNAME", &pad, b"\nAAA_CTR\nEDDM\nN048.00.00.000\nE011.00.00.000\n60\n40\n3\n1\n[LABELS]\n\"", &a, b"\" N048.00.00.000 E011.00.00.000 col\n\"", &b, b"\" N048.00.00.000 E011.00.00.000 col\n"]),
        9 => join(&[b"[POSITIONS]\n", &a, b":NAME", &pad, b":122.800:", &b, b":A:B:C:D:E:1000:1007\n"]),
        10 => join(&[b";", &pad, &a, &b, b"\nABC 48.1 11.5 15\n"]),
        14 => join(&[b";", &pad, &a, &b, b"\nRIXED\t49.000000\t13.000000\t14\tZ1\tB\t0\t\t\t\tN\t0\t\t\t\tN\n"]),
        11 => join(&[b"A=", &a, b"\nB=", &b, b"\nC=", &pad, b"\n"]),
        // the last field ends the file
        15 => join(&[b"A=", &a, b"\nC=", &pad, b"\nB=", &b[..b.len() - 1]]),
        16 => join(&[b"SECTORFILE:", &a, b"\nTAGFAMILY:", &pad, b"\nSECTORTITLE:", &b[..b.len() - 1]]),
        17 => join(&[b"Settings\tairlines\t", &a, b"\nSettings\tx\ty", &pad, b"\nSettings\tairports\t", &b[..b.len() - 1]]),
        12 => join(&[b"SYMBOL:", &a, b"\nMOVETO:0:0\nSYMBOL:", &b, b"\nMOVETO:0:0\nSYMBOL:", &pad, b"\nMOVETO:0:0\n"]),
        _ => join(&[b"MAP:", &a, b"\nFOLDER:", &b, b"\nCOLOR:x\nMAP:", &pad, b"\nCOLOR:x\n"]),
    };
    (t, fs)
}
fn seen(c: &Case, t: &[u8]) -> Result<Vec<String>, String> {
    let e = |x: &dyn std::fmt::Display| format!("file does not read: {}", x.to_string().chars().take(300).collect::<String>());
    Ok(match c.kind {
        0 => { let m = icao_airlines::parse_airlines(t).map_err(|x| e(&x))?; let a = m.get("AAA").ok_or("AAA missing")?; vec![a.name.clone(), a.country.clone()] }
        1 => { let m = icao_airlines::parse_airlines(t).map_err(|x| e(&x))?; let a = m.get("AAA").ok_or("AAA missing")?; vec![a.callsign.clone(), a.country.clone()] }
        2 => { let m = icao_airports::parse_airports(t).map_err(|x| e(&x))?; let a: &icao::IcaoAirport = m.get("EDDM").ok_or("EDDM missing")?; vec![a.name.clone(), a.country.clone()] }
        3 => { let m = icao_aircraft::parse_aircraft(t).map_err(|x| e(&x))?; let a = m.0.get("A320").ok_or("A320 missing")?; vec![a.manufacturer.clone(), a.name.clone()] }
        4 => { let m = navdata_airports::parse_navdata_airports(t).map_err(|x| e(&x))?; vec![m.get("EDDM").ok_or("EDDM missing")?.name.clone(), m.get("EDDN").ok_or("EDDN missing")?.name.clone()] }
        5 | 17 => {
            let m = Prf::parse(std::path::Path::new("/"), t).map_err(|x| e(&x))?;
            let v = serde_json::to_value(&m).unwrap();
            let g = |k: &str| v["settings"][format!("Settings:{k}")].as_str().map(str::to_string).ok_or(format!("{k} missing"));
            vec![g("airlines")?, g("airports")?]
        }
        6 | 16 => { let m = Asr::parse(t).map_err(|x| e(&x))?; vec![m.sector_file, m.sector_title] }
        7 => { let m = Symbology::parse(t).map_err(|x| e(&x))?; let i = m.items.0.values().find(|i| i.folder != "z" && !i.folder.starts_with("zy")).ok_or("item missing")?; vec![i.folder.clone(), i.name.clone()] }
        8 => { let m = Sct::parse(t).map_err(|x| e(&x))?; if m.labels.len() != 2 { return Err(format!("{} labels", m.labels.len())); } vec![m.labels[0].name.clone(), m.labels[1].name.clone()] }
        9 => { let m = Ese::parse(t).map_err(|x| e(&x))?; let p = m.positions.values().next().ok_or("position missing")?; vec![p.name.clone(), p.identifier.clone()] }
        10 => { let m = isec::parse_isec_txt(t).map_err(|x| e(&x))?; return if m.contains_key("ABC") { Ok(vec![]) } else { Err("ABC missing".into()) }; }
        14 => { airway::parse_airway_txt(t).map_err(|x| e(&x))?; return Ok(vec![]); }
        11 | 15 => { let m = plugin(Some(t), None, None).map_err(|x| e(&x))?; let g = |k: &str| m.settings.get(k).cloned().ok_or(format!("{k} missing")); vec![g("A")?, g("B")?] }
        12 => { let m = plugin(None, Some(t), None).map_err(|x| e(&x))?; let mut v: Vec<String> = m.symbols.values().map(|s| s.name.clone()).filter(|n| n.starts_with('x')).collect(); v.sort(); v }
        _ => { let m = plugin(None, None, Some(t)).map_err(|x| e(&x))?; let d = m.maps.first().ok_or("map missing")?; vec![d.name.clone(), d.rules.iter().find_map(|r| match r { vatsim_parser::topsky::map::MapRule::Folder(f) => Some(f.clone()), _ => None }).unwrap_or_default()] }
    })
}
fn plugin(s: Option<&[u8]>, sy: Option<&[u8]>, m: Option<&[u8]>) -> vatsim_parser::topsky::TopskyResult {
    let d = scratch();
    std::fs::write(d.join("TopSkySettings.txt"), s.unwrap_or(b"A=1\n")).unwrap();
    let p = d.join("TopSkySymbols.txt");
    match sy { Some(x) => std::fs::write(&p, x).unwrap(), None => { let _ = std::fs::remove_file(&p); } }
    std::fs::write(d.join("TopSkyMaps.txt"), m.unwrap_or(b"SCTFILEPATH:x\n")).unwrap();
    Topsky::parse(&d)
}
pub struct C24;
impl Prop for C24 {
    const ID: &'static str = "C24";
    const RULE: &'static str = "every single byte and every pair of bytes inside a text field, then random byte strings (UTF-8 text, near-UTF-8, Windows-1252 text, mixed over two fields of one file, files up to 70 kB), (also at the very end of a file) through 17 files of every parser that takes bytes; oracle: the UTF-8 well-formedness table and a hard-coded Windows-1252 table";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        let c = |fields: Vec<Vec<u8>>, kind: u64| Case { kind: kind as u8, fields, pad: 3, bom: false, ctrl: vec![] };
        let k = KINDS as u64;
        if i < 256 * k { return Some(c(vec![vec![(i / k) as u8]], i % k)); }
        let i = i - 256 * k;
        // pairs: lead byte and follower; only those with a high byte are interesting
        if i < 128 * 256 { return Some(c(vec![vec![128 + (i / 256) as u8, (i % 256) as u8]], [0, 2, 5][(i % 3) as usize])); }
        None
    }
    fn gen(r: &mut Rng, s: usize) -> Case {
        let field = |r: &mut Rng| -> Vec<u8> {
            let n = r.below(s.min(12)) + 1;
            let mode = r.below(5);
            let mut v = vec![];
            for _ in 0..n {
                match mode {
                    0 => v.push(r.below(256) as u8),
                    1 => v.push(0x80 + r.below(128) as u8),
                    2 => { let c = *r.pick(&['ä', 'ß', '€', 'é', '漢', '\u{1F6EB}', 'a', '\u{feff}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{fffd}', '\u{a0}']); v.extend(c.to_string().bytes()); }
                    3 => { let b: &[u8] = *r.pick(&[&b"\xC0\x80"[..], b"\xC1\xBF", b"\xED\xA0\x80", b"\xED\xBF\xBF", b"\xE0\x80\x80", b"\xF0\x80\x80\x80", b"\xF4\x90\x80\x80", b"\xF5\x80\x80\x80", b"\xE2\x82", b"\xF0\x9F\x98", b"\x80", b"\xFF", b"\xFE\xFF", b"\xEF\xBB\xBF", b"\xC3"]); v.extend(b); }
                    _ => v.push(b'!' + r.below(90) as u8),
                }
            }
            v
        };
        let n = r.below(2) + 1;
        let pad = match r.below(12) { 0 => 4090 + r.below(12), 1 => r.below(70000), 2 => 1020 + r.below(8), _ => r.below(20) };
        Case { kind: r.below(KINDS as usize) as u8, fields: (0..n).map(|_| field(r)).collect(), pad, bom: r.chance(1, 10), ctrl: vec![] }
    }
    fn check(c: &Case) -> Res {
        let (mut t, fs) = file(c);
        let whole = utf8(&t);
        // only the sector file's grammar tolerates a leading U+FEFF; there the content must read the same
        if c.bom && c.kind == 8 && whole.is_some() { let mut u = b"\xEF\xBB\xBF".to_vec(); u.extend(&t); t = u; }
        let mut want: Vec<String> = fs.iter().map(|b| if whole.is_some() { utf8(b).unwrap() } else { cp(b) }).collect();
        if c.kind == 10 || c.kind == 14 { want.clear(); }
        if c.kind == 12 { want.sort(); want.dedup(); }
        let got = seen(c, &t).map_err(|e| format!("{e} (file {:?})", String::from_utf8_lossy(&t).chars().take(200).collect::<String>()))?;
        if got != want { return Err(format!("text read as {got:?}, expected {want:?}")); }
        Ok(Out::Ok)
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut o = vec![];
        if c.pad > 0 { o.push(Case { pad: c.pad / 2, ..c.clone() }); o.push(Case { pad: c.pad - 1, ..c.clone() }); }
        for (i, f) in c.fields.iter().enumerate() { for g in drop_one(f) { if !g.is_empty() { let mut n = c.clone(); n.fields[i] = g; o.push(n); } } }
        if c.fields.len() > 1 { o.push(Case { fields: c.fields[..1].to_vec(), ..c.clone() }); }
        o
    }
}
