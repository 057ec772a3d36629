//! harness run ID --seed N --budget SECS --out FILE.json | harness replay FILE
mod ctx;
mod c01;
mod c08;
mod c15;
mod c22;
mod c23;
mod c24;
mod c26;
mod c13;
mod c09;
mod c17;
mod c03;
mod c04;
mod c16;
mod c05;
mod c07;
mod c14;
mod c12;
mod c10;
mod c18;
mod c19;
mod c27;
mod c29;
mod c30;
mod c20;
mod c31;
mod c32;
mod c33;
mod c34;
mod c35;
use ctx::*;

macro_rules! props { ($($t:ty),* $(,)?) => {
    fn run_id(id: &str, seed: u64, budget: f64, max: u64) -> Option<Stats> { $( if <$t as Prop>::ID == id { return Some(run::<$t>(seed, budget, max)); } )* None }
    fn replay_id(id: &str, v: &serde_json::Value) -> Option<Result<Res, String>> { $( if <$t as Prop>::ID == id { return Some(replay::<$t>(v)); } )* None }
} }
props!(c01::C01, c01::C02, c08::C08, c15::C15, c22::C22, c23::C23, c24::C24, c26::C26, c13::C13, c09::C09, c17::C17, c03::C03, c04::C04, c16::C16, c05::C05, c05::C06, c07::C07, c14::C14, c12::C12, c10::C10, c10::C11, c18::C18, c19::C19, c19::C28, c27::C27, c29::C29, c30::C30, c20::C20, c31::C31, c32::C32, c33::C33, c34::C34, c35::C35);

struct End;
impl Drop for End { fn drop(&mut self) { scratch_end(); } }
fn main() {
    let _end = End;
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    match a[1].as_str() {
        "run" => {
            let id = a[2].as_str();
            let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
            let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(20.0);
            let max = get("--max").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX);
            let id2 = id.to_string();
            if let Some(t) = get("--trace") { *TRACE.lock().unwrap() = Some(t.into()); }
            let (id3, out3) = (id2.clone(), get("--out").unwrap());
            watchdog(move |c, why| {
                let j = serde_json::json!({ "property": id3, "evaluations": 1, "distinct_nontrivial": 1, "small_scope": 0, "rule": "", "samples": [c], "known": [], "failure": {"case": c, "why": why} });
                std::fs::write(&out3, j.to_string()).unwrap();
                scratch_end();
                std::process::exit(0);
            });
            let st = std::thread::Builder::new().stack_size(256 << 20).spawn(move || run_id(&id2, seed, budget, max)).unwrap().join().unwrap().expect("unknown property");
            let j = serde_json::json!({ "property": id, "evaluations": st.evaluations, "distinct_nontrivial": st.nontrivial, "small_scope": st.small, "rule": st.rule, "samples": st.samples,
                "known": st.known, "failure": st.failure.as_ref().map(|(c, w)| serde_json::json!({"case": c, "why": w})) });
            std::fs::write(get("--out").unwrap(), serde_json::to_string_pretty(&j).unwrap()).unwrap();
        }
        "scan" => c20::scan(a[2].parse().unwrap()),
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let id = v["property"].as_str().unwrap();
            watchdog(|_, why| { println!("the property fails: {why}"); scratch_end(); std::process::exit(1); });
            match replay_id(id, &v["case"]).expect("unknown property") {
                Ok(Ok(Out::Known(w))) => println!("known finding: {w}"),
                Ok(Ok(_)) => println!("the property holds on this case"),
                Ok(Err(w)) => { println!("property {id} fails: {w}"); scratch_end(); std::process::exit(1); }
                Err(e) => { println!("not a case: {e}"); std::process::exit(2); }
            }
        }
        _ => std::process::exit(2),
    }
}
