//! C08: effective coordination timing.
use crate::ctx::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use uom::si::f32::Time;
use uom::si::time::second;
use vatsim_parser::adaptation::settings::{CoordinationSettings, CoordinationTiming};

type T3 = (Option<u32>, Option<u32>, Option<u32>);
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case { global: (u32, u32, u32), firs: Vec<(String, T3)>, fir: Option<String>, constraint: Option<T3> }
fn t(x: u32) -> Time { Time::new::<second>(x as f32) }
fn timing(x: &T3) -> CoordinationTiming { CoordinationTiming { act_time: x.0.map(t), abi_time: x.1.map(t), rev_time: x.2.map(t) } }
pub struct C08;
impl Prop for C08 {
    const ID: &'static str = "C08";
    const RULE: &'static str = "all combinations of present/absent constraint, FIR override and global values for the three times, then random values and FIR tables; distinct numbers at every level";
    type Case = Case;
    fn small(i: u64) -> Option<Case> {
        // constraint: None or 3 bits; FIR: absent, unknown, or 3 bits
        let (c, f) = (i % 9, i / 9);
        if f >= 10 { return None; }
        let bits = |b: u64, base: u32| ((b & 1 != 0).then_some(base + 1), (b & 2 != 0).then_some(base + 2), (b & 4 != 0).then_some(base + 3));
        Some(Case {
            global: (1, 2, 3),
            firs: if f < 8 { vec![("EDMM".into(), bits(f, 10)), ("LOVV".into(), bits(7, 30))] } else { vec![("LOVV".into(), bits(7, 30))] },
            fir: if f == 8 { None } else { Some("EDMM".into()) },
            constraint: if c == 8 { None } else { Some(bits(c, 20)) },
        })
    }
    fn gen(r: &mut Rng, _s: usize) -> Case {
        let names = ["EDMM", "LOVV", "EDGG", "edmm", ""];
        let o = |r: &mut Rng| -> T3 { let mut f = || if r.chance(1, 2) { Some(r.below(3600) as u32) } else { None }; (f(), f(), f()) };
        let n = r.below(4);
        let firs = (0..n).map(|_| (r.pick(&names).to_string(), o(r))).collect();
        Case { global: (r.below(3600) as u32, r.below(3600) as u32, r.below(3600) as u32), firs, fir: if r.chance(1, 4) { None } else { Some(r.pick(&names).to_string()) }, constraint: if r.chance(1, 3) { None } else { Some(o(r)) } }
    }
    fn check(c: &Case) -> Res {
        let mut fir_overrides = HashMap::new();
        for (k, v) in &c.firs { fir_overrides.insert(k.clone(), timing(v)); }
        let s = CoordinationSettings { act_time: t(c.global.0), abi_time: t(c.global.1), rev_time: t(c.global.2), lam_timeout: t(99), fir_overrides };
        let ct = c.constraint.as_ref().map(timing);
        let got = s.resolve(c.fir.as_deref(), ct.as_ref());
        let f = c.fir.as_ref().and_then(|f| c.firs.iter().rev().find(|x| x.0 == *f).map(|x| x.1));
        let pick = |a: Option<Option<u32>>, b: Option<Option<u32>>, d: u32| t(a.flatten().or(b.flatten()).unwrap_or(d));
        let want = (pick(c.constraint.map(|x| x.0), f.map(|x| x.0), c.global.0), pick(c.constraint.map(|x| x.1), f.map(|x| x.1), c.global.1), pick(c.constraint.map(|x| x.2), f.map(|x| x.2), c.global.2));
        if (got.act_time, got.abi_time, got.rev_time) != want { return Err(format!("resolved {got:?}, expected act/abi/rev {want:?}")); }
        Ok(if c.constraint.is_some() || c.fir.is_some() { Out::Ok } else { Out::Trivial })
    }
}
