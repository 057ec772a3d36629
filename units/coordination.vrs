//@ source src/adaptation/settings/mod.rs
//@ use base
//@ use map
//@ prelude
/// uom time: an opaque copyable value
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Time { v: f32 }
//@ item CoordinationTiming
//@ item ResolvedCoordinationTiming
//@ item CoordinationSettings noclone
//@ prelude
pub open spec fn first3<T>(a: Option<T>, b: Option<T>, d: T) -> T { match a { Some(x) => x, None => match b { Some(y) => y, None => d } } }
/// the partner FIR's override, if the FIR is known
pub open spec fn fir_of(s: CoordinationSettings, fir: Option<&str>) -> Option<CoordinationTiming> {
    match fir { Some(f) => if s.fir_overrides@.contains_key(f@) { Some(s.fir_overrides@[f@]) } else { None }, None => None }
}
//@ fn CoordinationSettings::resolve  loops=0
//@ spec
ensures
    ({ let c = constraint_timing; let f = fir_of(*self, fir);
       &&& ret.act_time == first3(match c { Some(c) => c.act_time, None => None }, match f { Some(f) => f.act_time, None => None }, self.act_time)
       &&& ret.abi_time == first3(match c { Some(c) => c.abi_time, None => None }, match f { Some(f) => f.abi_time, None => None }, self.abi_time)
       &&& ret.rev_time == first3(match c { Some(c) => c.rev_time, None => None }, match f { Some(f) => f.rev_time, None => None }, self.rev_time) }),
