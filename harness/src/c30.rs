//! C30: the files a profile names.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::PathBuf;
use vatsim_parser::prf::Prf;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Line { category: String, key: String, value: String, tab: bool, trail: String }
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { lines: Vec<Line>, crlf: bool, open: bool, folder: String, recent: u8 }
const KEYS: [(&str, &str); 10] = [("Settings", "sector"), ("Settings", "airways"), ("Settings", "airportcoords"), ("Settings", "airlines"), ("Settings", "aircraft"), ("Settings", "airports"), ("Settings", "SettingsfileSYMBOLOGY"), ("Settings", "SettingsfilePROFILE"), ("Settings", "Sector"), ("LastSession", "sector")];
const VALUES: [&str; 16] = ["\\EDMM.sct", "EDMM.sct", "\\a\\b\\c.txt", "a\\b c\\d.sct", "/x/y.sct", "\\.\\x.sct", "\\..\\x.ese", "x", "\\x y.z.sct", "\\ICAO\\airway.txt", "NavData/icao.txt", "C:\\x\\y.sct", "\\Ä\\ö.sct", "\\.sct", "a.b\\c", "\\Plugins\\TopSky\\TopSky.dll.txt"];
const PLUGS: [&str; 12] = ["\\Plugins\\TopSky\\TopSky.dll", "\\Plugins\\TopSky2\\TopSky.dll", "Plugins\\TopSky\\TopSky.dll", "\\TopSky.dll", "TopSky.dll", "\\Plugins\\Squawks\\Squawks.dll", "\\Squawks.dll", "Sq\\Squawks.dll", "\\Plugins\\CCAMS.dll", "\\Plugins\\TopSky\\TopSky.dll.bak", "\\Plugins\\xTopSky.dll", "\\TopSky.dll\\y.dll"];
fn text(c: &Case) -> String {
    let nl = if c.crlf { "\r\n" } else { "\n" };
    let t = c.lines.iter().map(|l| { let s = if l.tab { "\t" } else { " " }; format!("{}{s}{}{s}{}{}", l.category, l.key, l.value, l.trail) }).collect::<Vec<_>>().join(nl);
    if c.open { t } else { t + nl }
}
pub struct C30;
impl Prop for C30 {
    const ID: &'static str = "C30";
    const RULE: &'static str = "profiles of up to 20 settings over the named file settings, similar keys, recent files and plugins (repeated keys, several plugin entries of the same name, near-miss names; either separator, with and without a leading one, blanks at the end, folders above, tabs or blanks, either line ending), in folders of a scratch directory, read twice";
    type Case = Case;
    fn gen(r: &mut Rng, s: usize) -> Case {
        let lines = (0..r.below(s.min(20)) + 1).map(|_| {
            let (c, k, v) = match r.below(8) {
                0 | 1 => ("Plugins".to_string(), format!("Plugin{}", r.below(12)), r.pick(&PLUGS).to_string()),
                2 => ("RecentFiles".to_string(), format!("Recent{}", r.below(4)), r.pick(&VALUES).to_string()),
                3 => ("Plugins".to_string(), format!("Plugin{}Display0", r.below(3)), r.pick(&["Standard", "TopSky", "x y"]).to_string()),
                _ => { let k = r.pick(&KEYS); (k.0.to_string(), k.1.to_string(), r.pick(&VALUES).to_string()) }
            };
            Line { category: c, key: k, value: v, tab: r.chance(2, 3), trail: r.pick(&["", "", "", " ", "\t", "  \t"]).to_string() }
        }).collect();
        Case { lines, crlf: r.chance(1, 3), open: r.chance(1, 4), folder: r.pick(&["", "a", "a/b c"]).to_string(), recent: r.below(5) as u8 }
    }
    fn check(c: &Case) -> Res {
        let d = scratch().join("prf").join(&c.folder);
        std::fs::create_dir_all(&d).unwrap();
        let f = d.join("p.prf");
        std::fs::write(&f, text(c)).unwrap();
        let home = d.canonicalize().unwrap();
        let read = || Prf::parse(&f, text(c).as_bytes()).map_err(|e| format!("profile does not read: {e}"));
        let p = read()?;
        let mut last: BTreeMap<(&str, &str), &str> = BTreeMap::new();
        for l in &c.lines { last.insert((&l.category, &l.key), &l.value); }
        let place = |v: &str| -> PathBuf { let v = v.replace('\\', "/"); match v.strip_prefix('/') { Some(x) => home.join(x), None => std::env::current_dir().unwrap().join(v) } };
        let mut seen = 0;
        let mut eq = |what: &str, got: PathBuf, want: PathBuf| { seen += 1; if got.as_os_str() == want.as_os_str() || got == want { Ok(()) } else { Err(format!("{what} is {got:?}, the profile says {want:?}")) } };
        let get = |k: &str| last.get(&("Settings", k)).map(|v| place(v));
        if let Some(w) = get("sector") {
            eq("the sector file", p.sct_path(), w.clone())?;
            if w.file_name().is_some() { let mut e = w.clone(); let stem = w.file_stem().unwrap().to_os_string(); let mut n = stem; n.push(".ese"); e.pop(); e.push(n); eq("the ESE file", p.ese_path(), e)?; }
        }
        if let Some(w) = get("airways") { eq("the airway file", p.airways_path(), w.clone())?; let mut e = w; e.pop(); e.push("isec.txt"); eq("the intersection file", p.isec_path(), e)?; }
        if let Some(w) = get("airportcoords") { eq("the navigation airport file", p.navdata_airports_path(), w)?; }
        if let Some(w) = get("airlines") { eq("the airline file", p.airlines_path(), w)?; }
        if let Some(w) = get("aircraft") { eq("the aircraft file", p.aircraft_path(), w)?; }
        if let Some(w) = get("airports") { eq("the airport file", p.airports_path(), w)?; }
        if let Some(w) = get("SettingsfileSYMBOLOGY") { eq("the symbology file", p.symbology_path(), w)?; }
        let recent = format!("Recent{}", c.recent);
        let (g, w) = (p.recent_path(c.recent), last.get(&("RecentFiles", recent.as_str())).map(|v| place(v)));
        match (g, w) { (Some(g), Some(w)) => eq("the recent file", g, w)?, (None, None) => {}, (g, w) => return Err(format!("recent file {} is {g:?}, the profile says {w:?}", c.recent)) }
        let plug = |n: &str| last.iter().find_map(|(_, v)| { let w = place(v); if v.replace('\\', "/").rsplit('/').next() == Some(n) { w.parent().map(PathBuf::from) } else { None } });
        let (ts, sq) = (plug("TopSky.dll"), plug("Squawks.dll").map(|d| d.join("squawks.json")));
        for _ in 0..4 {
            let p = read()?;
            if p.topsky_path() != ts { return Err(format!("the TopSky folder is {:?}, the profile says {ts:?}", p.topsky_path())); }
            if p.squawks_path() != sq { return Err(format!("the squawk file is {:?}, the profile says {sq:?}", p.squawks_path())); }
        }
        Ok(if seen > 0 || ts.is_some() { Out::Ok } else { Out::Trivial })
    }
    fn shrink(c: &Case) -> Vec<Case> {
        let mut v = vec![];
        for s in drop_one(&c.lines) { if !s.is_empty() { v.push(Case { lines: s, ..c.clone() }); } }
        if c.crlf || c.open || !c.folder.is_empty() { v.push(Case { crlf: false, open: false, folder: String::new(), ..c.clone() }); }
        v
    }
}
