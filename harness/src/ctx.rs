//! Runs one property's executable contract over generated cases.
use serde::{de::DeserializeOwned, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % ((b - a + 1) as u64)) as i64 }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { &s[self.below(s.len())] }
    pub fn f(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
}

/// What one case showed: trivial cases exercise nothing the property speaks about.
pub enum Out { Trivial, Ok, Known(String) }
pub type Res = Result<Out, String>;

pub trait Prop {
    const ID: &'static str;
    const RULE: &'static str;
    type Case: Serialize + DeserializeOwned + Clone + Send + Sync + 'static;
    /// the i-th systematically enumerated case (small scope), None when exhausted
    fn small(_i: u64) -> Option<Self::Case> { None }
    fn gen(r: &mut Rng, size: usize) -> Self::Case;
    fn check(c: &Self::Case) -> Res;
    /// smaller variants to try when a case fails
    fn shrink(_c: &Self::Case) -> Vec<Self::Case> { vec![] }
    /// share of the time budget
    fn weight() -> f64 { 1.0 }
}

pub struct Stats { pub evaluations: u64, pub nontrivial: u64, pub small: u64, pub small_exhausted: bool, pub samples: Vec<serde_json::Value>, pub known: Vec<(String, serde_json::Value)>, pub failure: Option<(serde_json::Value, String)>, pub rule: String }

pub fn guarded<P: Prop>(c: &P::Case) -> Res {
    match catch_unwind(AssertUnwindSafe(|| P::check(c))) {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| (*s).to_string())).unwrap_or_default();
            Err(format!("panic: {m}"))
        }
    }
}

/// the case being evaluated, for the watchdog and for --trace
pub static CURRENT: Mutex<Option<(Instant, Arc<dyn Fn() -> serde_json::Value + Send + Sync>)>> = Mutex::new(None);
pub static TRACE: Mutex<Option<std::path::PathBuf>> = Mutex::new(None);
pub const CASE_SECONDS: u64 = 20;
pub const CASE_MEMORY: u64 = 6 << 30;
fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096
}
/// calls `stop` with the case that neither returns nor stays within its memory
pub fn watchdog(stop: impl Fn(serde_json::Value, String) + Send + 'static) {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(20));
        let c = CURRENT.lock().unwrap().clone();
        if let Some((t, f)) = c {
            if t.elapsed() > Duration::from_secs(CASE_SECONDS) { stop(f(), format!("no answer within {CASE_SECONDS} s")); }
            else if t.elapsed() > Duration::from_millis(300) && rss() > CASE_MEMORY { stop(f(), format!("no answer within {} GB of memory", CASE_MEMORY >> 30)); }
        }
    });
}
fn watched<P: Prop>(c: &P::Case) -> Res {
    let k = c.clone();
    let f: Arc<dyn Fn() -> serde_json::Value + Send + Sync> = Arc::new(move || serde_json::to_value(&k).unwrap_or(serde_json::Value::Null));
    if let Some(p) = &*TRACE.lock().unwrap() { let _ = std::fs::write(p, f().to_string()); }
    *CURRENT.lock().unwrap() = Some((Instant::now(), f));
    let r = guarded::<P>(c);
    *CURRENT.lock().unwrap() = None;
    r
}

fn hash_of(v: &str) -> u64 { let mut h = DefaultHasher::new(); v.hash(&mut h); h.finish() }

pub fn run<P: Prop>(seed: u64, budget: f64, max: u64) -> Stats {
    let mut st = Stats { evaluations: 0, nontrivial: 0, small: 0, small_exhausted: false, samples: vec![], known: vec![], failure: None, rule: P::RULE.into() };
    let t0 = Instant::now();
    let limit = Duration::from_secs_f64(budget * P::weight());
    let mut seen: HashSet<u64> = HashSet::new();
    let mut rng = Rng(seed ^ hash_of(P::ID));
    let mut i = 0u64;
    let mut k = 0u64;
    loop {
        // the small scope takes at most 70% of the budget
        let case = if !st.small_exhausted {
            match P::small(i) {
                Some(c) if t0.elapsed() < limit.mul_f64(0.7) => { i += 1; st.small = i; c }
                Some(_) => { st.small_exhausted = true; st.small = i; k += 1; P::gen(&mut rng, 3) }
                None => { st.small_exhausted = true; continue; }
            }
        } else {
            k += 1;
            let size = 2 + (k % 40) as usize;
            P::gen(&mut rng, size)
        };
        st.evaluations += 1;
        match watched::<P>(&case) {
            Ok(Out::Trivial) => {}
            Ok(o) => {
                let s = serde_json::to_string(&case).unwrap();
                if seen.insert(hash_of(&s)) { st.nontrivial += 1; }
                if st.samples.len() < 3 && st.evaluations % 7 == 0 { st.samples.push(trim(serde_json::to_value(&case).unwrap())); }
                if let Out::Known(w) = o { if !st.known.iter().any(|x| x.0 == w) { st.known.push((w, serde_json::to_value(&case).unwrap())); } }
            }
            Err(mut why) => {
                let mut best = case.clone();
                let t1 = Instant::now();
                'sh: loop {
                    for c in P::shrink(&best) {
                        if t1.elapsed() > Duration::from_secs(10) { break 'sh; }
                        if let Err(w) = watched::<P>(&c) { best = c; why = w; continue 'sh; }
                    }
                    break;
                }
                st.failure = Some((serde_json::to_value(&best).unwrap(), why));
                break;
            }
        }
        if st.evaluations >= max || t0.elapsed() > limit { break; }
    }
    if st.samples.is_empty() { let c = P::gen(&mut rng, 4); st.samples.push(trim(serde_json::to_value(&c).unwrap())); }
    st
}

fn trim(v: serde_json::Value) -> serde_json::Value {
    let s = v.to_string();
    if s.len() > 2000 { serde_json::Value::String(s.chars().take(2000).collect()) } else { v }
}

pub fn replay<P: Prop>(v: &serde_json::Value) -> Result<Res, String> {
    let c: P::Case = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
    Ok(watched::<P>(&c))
}
/// remove one element at a time
pub fn drop_one<T: Clone>(v: &[T]) -> Vec<Vec<T>> { let mut o = vec![]; if v.len() > 4 { o.push(v[..v.len() / 2].to_vec()); o.push(v[v.len() / 2..].to_vec()); } for i in 0..v.len() { let mut w = v.to_vec(); w.remove(i); o.push(w); } o }

/// a scratch directory of this process, removed when the process ends normally
pub fn scratch() -> std::path::PathBuf {
    let p = std::env::temp_dir().join(format!("vxh-{}", std::process::id()));
    if !p.exists() { std::fs::create_dir_all(&p).unwrap(); }
    p
}
pub fn scratch_end() { let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("vxh-{}", std::process::id()))); }
/// the plugin's files, parsed by the real parser
pub fn topsky(settings: &str, symbols: Option<&str>, maps: &str) -> vatsim_parser::topsky::TopskyResult {
    let d = scratch();
    std::fs::write(d.join("TopSkySettings.txt"), settings).unwrap();
    let sy = d.join("TopSkySymbols.txt");
    match symbols { Some(s) => std::fs::write(&sy, s).unwrap(), None => { let _ = std::fs::remove_file(&sy); } }
    std::fs::write(d.join("TopSkyMaps.txt"), maps).unwrap();
    vatsim_parser::topsky::Topsky::parse(&d)
}

/// the files a profile refers to; None leaves a minimal valid one (or no plugin / squawk file)
#[derive(Default, Clone)]
pub struct Files { pub sct: Option<String>, pub ese: Option<String>, pub airway: Option<String>, pub symbology: Option<String>, pub settings: Option<String>, pub symbols: Option<String>, pub maps: Option<String>, pub navdata: Option<String>, pub airports: Option<String>, pub aircraft: Option<String>, pub airlines: Option<String>, pub squawks: Option<String> }
pub const INFO: &str = "[INFO]\nNAME\nAAA_CTR\nEDDM\nN048.00.00.000\nE011.00.00.000\n60\n40\n3\n1\n";
pub const SYMBOLOGY: &str = "SYMBOLOGY\nSYMBOLSIZE\nzz:zz:0:1.0:0:0:7\nSYMBOL:0\nSYMBOLITEM:MOVETO 0 0\nm_ClipArea:0\nEND\n";
thread_local! { static WROTE: std::cell::RefCell<std::collections::HashMap<String, Option<String>>> = Default::default(); }
/// the whole adaptation, read by the real code from a profile in a scratch directory
pub fn adaptation(f: &Files) -> Result<vatsim_parser::adaptation::Adaptation, String> {
    let d = scratch().join("full");
    if !d.exists() { std::fs::create_dir_all(d.join("ts")).unwrap(); WROTE.with(|w| w.borrow_mut().clear()); }
    let put = |n: &str, v: Option<&str>| WROTE.with(|w| {
        let mut w = w.borrow_mut();
        if w.get(n).is_some_and(|x| x.as_deref() == v) { return; }
        match v { Some(t) => std::fs::write(d.join(n), t).unwrap(), None => { let _ = std::fs::remove_file(d.join(n)); } }
        w.insert(n.into(), v.map(str::to_string));
    });
    put("s.sct", Some(f.sct.as_deref().unwrap_or(INFO)));
    put("s.ese", Some(f.ese.as_deref().unwrap_or("[POSITIONS]\n")));
    put("airway.txt", Some(f.airway.as_deref().unwrap_or("QQQQQ\t10.000000\t10.000000\t14\tZZ999\tB\t0\t\t\t\tN\t0\t\t\t\tN\n")));
    put("symb.txt", Some(f.symbology.as_deref().unwrap_or(SYMBOLOGY)));
    put("icao.txt", Some(f.navdata.as_deref().unwrap_or("; none\n")));
    put("airports.txt", Some(f.airports.as_deref().unwrap_or("ZZZZ\tN\tC\n")));
    put("aircraft.txt", Some(f.aircraft.as_deref().unwrap_or("ZZZZ\t----\t-\tx\n")));
    put("airlines.txt", Some(f.airlines.as_deref().unwrap_or("ZZZ\tN\tC\tX\n")));
    let plugin = f.settings.is_some() || f.symbols.is_some() || f.maps.is_some();
    if plugin {
        put("ts/TopSkySettings.txt", Some(f.settings.as_deref().unwrap_or("A=1\n")));
        put("ts/TopSkySymbols.txt", f.symbols.as_deref());
        put("ts/TopSkyMaps.txt", Some(f.maps.as_deref().unwrap_or("SCTFILEPATH:x\n")));
    }
    if let Some(s) = &f.squawks { put("squawks.json", Some(s)); }
    let prf = format!("Settings\tsector\t\\s.sct\nSettings\tairways\t\\airway.txt\nSettings\tairportcoords\t\\icao.txt\nSettings\tairlines\t\\airlines.txt\nSettings\taircraft\t\\aircraft.txt\nSettings\tairports\t\\airports.txt\nSettings\tSettingsfileSYMBOLOGY\t\\symb.txt\n{}{}",
        if plugin { "Plugins\tPlugin1\t\\ts\\TopSky.dll\n" } else { "" }, if f.squawks.is_some() { "Plugins\tPlugin7\t\\Squawks.dll\n" } else { "" });
    put("p.prf", Some(&prf));
    let p = d.join("p.prf");
    let prf = vatsim_parser::prf::Prf::parse(&p, prf.as_bytes()).map_err(|e| format!("profile does not read: {e}"))?;
    vatsim_parser::adaptation::Adaptation::from_prf(&prf).map_err(|e| e.to_string().chars().take(400).collect())
}
