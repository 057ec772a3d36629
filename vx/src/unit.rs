//! Parser of unit files.
//!
//! Lines starting with `//@` open a section:
//!   //@ source PATH              source file under /repo (repeatable)
//!   //@ use COMMON               include units/common/COMMON.rs
//!   //@ rawuse TEXT              a `use` line outside verus!
//!   //@ item NAME [opaque] [sub=A:B ..]  extract a struct/enum/type (with the type A renamed to B)
//!   //@ literal FILE TEXT        TEXT must occur in FILE (up to white space): a trusted contract depends on it
//!   //@ exprcall CALL = EXPR      every expression written exactly EXPR becomes CALL, a stub with an assumed contract; it must occur
//!   //@ indexfn NAME FN          NAME[i] is (*FN(&NAME, i))
//!   //@ consts TYPE              extract associated consts
//!   //@ grammar PARSER START..   the Rule enum and the shapes g_RULE of the pairs of PARSER's grammar (see grammar.rs)
//!   //@ itersrc NAME...          methods/functions that yield iterators
//!   //@ stubbed NAME...          callees with a contract in the prelude
//!   //@ boolmethods / rename A B method rename
//!   //@ prelude                  verus text before the items' functions
//!   //@ lemmas                   verus text after the functions
//!   //@ fn KEY [loops=N] [trait=T]
//!   //@ attr TEXT                attribute on the current fn
//!   //@ ret NAME                 name of the return value (default `ret`)
//!   //@ floats                   every + - * / and unary - of the current fn is on f64 (checked by the types of vx_fadd ..)
//!   //@ spec                     requires / ensures of the current fn
//!   //@ loop K                   invariant / decreases of loop K
//!   //@ at ANCHOR                proof text at an anchor
//!   //@ rlimit N
use std::collections::BTreeMap;

#[derive(Default, Clone)]
pub struct FnSpec {
    pub key: String,
    pub attrs: Vec<String>,
    pub ret: String,
    pub spec: String,
    pub nloops: Option<usize>,
    pub loops: BTreeMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub trait_override: Option<String>,
    pub external_body: bool,
    pub floats: bool,
    pub fcmp: bool,
    pub sigtext: Option<String>,
    pub typed: Vec<(String, String)>,
}

#[derive(Default)]
pub struct Unit {
    pub sources: Vec<String>,
    pub commons: Vec<String>,
    pub raw_uses: Vec<(usize, String)>,
    pub items: Vec<String>,
    pub item_attrs: BTreeMap<String, String>,
    pub consts: Vec<String>,
    pub grammars: Vec<(String, Vec<String>)>,
    pub indexfns: Vec<(String, String)>,
    pub exprcalls: Vec<(String, String)>,
    pub literals: Vec<(String, String)>,
    pub itersrc: Vec<String>,
    pub stubbed: Vec<String>,
    pub results: Vec<String>,
    pub keep_methods: Vec<String>,
    pub renames: Vec<(String, String)>,
    pub tyrenames: Vec<(String, String)>,
    pub concat_formats: bool,
    pub mutlets: Vec<String>,
    pub callrenames: Vec<(String, String)>,
    pub prelude: Vec<String>,
    pub lemmas: Vec<String>,
    pub fns: Vec<FnSpec>,
    pub rlimit: Option<f64>,
}

enum Sec { None, Prelude, Lemmas, Spec, Loop(usize), At(String) }

pub fn parse(text: &str) -> Result<Unit, String> {
    let mut u = Unit::default();
    let mut sec = Sec::None;
    let mut buf = String::new();
    fn flush(u: &mut Unit, sec: &mut Sec, buf: &mut String) {
        let t = std::mem::take(buf);
        match std::mem::replace(sec, Sec::None) {
            Sec::None => {}
            Sec::Prelude => u.prelude.push(t),
            Sec::Lemmas => u.lemmas.push(t),
            Sec::Spec => u.fns.last_mut().unwrap().spec.push_str(&t),
            Sec::Loop(k) => u.fns.last_mut().unwrap().loops.entry(k).or_default().push_str(&t),
            Sec::At(a) => u.fns.last_mut().unwrap().hints.push((a, t)),
        }
    }
    for (n, line) in text.lines().enumerate() {
        if let Some(rest) = line.strip_prefix("//@") {
            flush(&mut u, &mut sec, &mut buf);
            let rest = rest.trim();
            let (cmd, arg) = rest.split_once(char::is_whitespace).unwrap_or((rest, ""));
            let arg = arg.trim();
            match cmd {
                "source" => u.sources.push(arg.into()),
                "use" => u.commons.push(arg.into()),
                "rawuse" => u.raw_uses.push((n, arg.into())),
                "item" => {
                    let mut it = arg.split_whitespace();
                    let name = it.next().unwrap().to_string();
                    let rest: Vec<&str> = it.collect();
                    if !rest.is_empty() { u.item_attrs.insert(name.clone(), rest.join(" ")); }
                    u.items.push(name);
                }
                "indexfn" => { let (a, b) = arg.split_once(' ').unwrap(); u.indexfns.push((a.into(), b.trim().into())); }
                "exprcall" => { let (a, b) = arg.split_once(" = ").unwrap(); u.exprcalls.push((a.trim().into(), b.trim().into())); }
                "literal" => { let (a, b) = arg.split_once(' ').unwrap(); u.literals.push((a.into(), b.trim().into())); }
                "grammar" => { let mut it = arg.split_whitespace().map(String::from); let p = it.next().unwrap(); u.grammars.push((p, it.collect())); }
                "consts" => u.consts.push(arg.into()),
                "itersrc" => u.itersrc.extend(arg.split_whitespace().map(String::from)),
                "stubbed" => u.stubbed.extend(arg.split_whitespace().map(String::from)),
                "results" => u.results.extend(arg.split_whitespace().map(String::from)),
                "keep" => u.keep_methods.extend(arg.split_whitespace().map(String::from)),
                "rename" => { let (a, b) = arg.split_once(' ').unwrap(); u.renames.push((a.into(), b.trim().into())); }
                "callrename" => { let (a, b) = arg.split_once(' ').unwrap(); u.callrenames.push((a.into(), b.trim().into())); }
                "mutlet" => u.mutlets.extend(arg.split_whitespace().map(String::from)),
                "concat_formats" => u.concat_formats = true,
                "tyrename" => { let (a, b) = arg.split_once(' ').unwrap(); u.tyrenames.push((a.into(), b.trim().into())); }
                "prelude" => sec = Sec::Prelude,
                "lemmas" => sec = Sec::Lemmas,
                "rlimit" => u.rlimit = Some(arg.parse().map_err(|_| format!("line {n}: rlimit"))?),
                "fn" => {
                    let mut f = FnSpec { ret: "ret".into(), ..Default::default() };
                    let mut parts: Vec<&str> = arg.split("  ").map(str::trim).filter(|s| !s.is_empty()).collect();
                    f.key = parts.remove(0).to_string();
                    for p in parts {
                        if let Some(v) = p.strip_prefix("loops=") { f.nloops = Some(v.parse().unwrap()); }
                        if let Some(v) = p.strip_prefix("trait=") { f.trait_override = Some(v.into()); }
                    }
                    u.fns.push(f);
                }
                "attr" => u.fns.last_mut().unwrap().attrs.push(arg.into()),
                "ret" => u.fns.last_mut().unwrap().ret = arg.into(),
                "sig" => u.fns.last_mut().unwrap().sigtext = Some(arg.into()),
                "type" => { let (a, b) = arg.split_once(' ').unwrap(); u.fns.last_mut().unwrap().typed.push((a.into(), b.trim().into())); }
                "external_body" => u.fns.last_mut().unwrap().external_body = true,
                "fcmp" => u.fns.last_mut().unwrap().fcmp = true,
                "floats" => u.fns.last_mut().unwrap().floats = true,
                "spec" => sec = Sec::Spec,
                "loop" => sec = Sec::Loop(arg.parse().map_err(|_| format!("line {n}: loop number"))?),
                "at" => sec = Sec::At(arg.into()),
                "#" | "" => {}
                _ => return Err(format!("line {}: unknown directive {cmd}", n + 1)),
            }
        } else {
            buf.push_str(line);
            buf.push('\n');
        }
    }
    flush(&mut u, &mut sec, &mut buf);
    Ok(u)
}
