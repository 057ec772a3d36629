//@ source src/adaptation/symbols.rs
//@ source src/symbology.rs
//@ use base
//@ use map
//@ item SymbolRule noclone
//@ item Symbol
//@ item Symbols noclone
//@ item SymbolType noclone
//@ rename clone .vx_dup
//@ rename cloned .vx_dupd
//@ rename unwrap_or_default .vx_or_default
//@ itersrc into_iter iter
//@ prelude
pub trait Default: Sized { fn default() -> (ret: Self); }
impl VKey for SymbolType { type KV = SymbolType; open spec fn vkey(&self) -> SymbolType { *self } }
pub struct Symbology { pub symbols: HashMap<SymbolType, Vec<SymbolRule>> }
pub struct SymbolDef { pub name: String, pub rules: Vec<SymbolRule> }
pub struct Topsky { pub symbols: HashMap<String, SymbolDef> }
/// the plugin's drawing of that name
pub open spec fn plugged(t: Option<Topsky>, name: Seq<char>) -> Option<Symbol> {
    match t { Some(t) => if t.symbols@.contains_key(name) { Some(t.symbols@[name].rules) } else { None }, None => None }
}
/// plugin drawing, else the one of the radar client's own symbol set
pub open spec fn drawn(t: Option<Topsky>, s: Symbology, name: Seq<char>, ty: SymbolType) -> Option<Symbol> {
    match plugged(t, name) { Some(r) => Some(r), None => if s.symbols@.contains_key(ty) { Some(s.symbols@[ty]) } else { None } }
}
pub open spec fn standard_history_dot(v: Symbol) -> bool { v@.len() == 1 && match v@[0] { SymbolRule::Polygon(p) => p@ =~= seq![(-1.0f64, -1.0f64), (1.0f64, -1.0f64), (1.0f64, 1.0f64), (-1.0f64, 1.0f64)], _ => false } }
pub open spec fn standard_fix(v: Symbol) -> bool { v@ =~= seq![SymbolRule::Move((-5.0f64, 5.0f64)), SymbolRule::Line((0.0f64, -5.0f64)), SymbolRule::Line((5.0f64, 5.0f64)), SymbolRule::Line((-5.0f64, 5.0f64))] }
pub open spec fn standard_ndb(v: Symbol) -> bool { v@ =~= seq![SymbolRule::Pixel((0.0f64, 0.0f64)), SymbolRule::Arc((0.0f64, -0.0f64), 1.0f64, 0i64, 360i64), SymbolRule::Arc((0.0f64, -0.0f64), 3.0f64, 0i64, 360i64), SymbolRule::Arc((0.0f64, -0.0f64), 5.0f64, 0i64, 360i64)] }
pub open spec fn standard_vor(v: Symbol) -> bool { v@ =~= seq![SymbolRule::Move((-6.0f64, 0.0f64)), SymbolRule::Line((-2.0f64, -5.0f64)), SymbolRule::Line((2.0f64, -5.0f64)), SymbolRule::Line((6.0f64, 0.0f64)), SymbolRule::Line((2.0f64, 5.0f64)), SymbolRule::Line((-2.0f64, 5.0f64)), SymbolRule::Line((-6.0f64, 0.0f64)), SymbolRule::Move((-6.0f64, -5.0f64)), SymbolRule::Line((-6.0f64, 5.0f64)), SymbolRule::Line((6.0f64, 5.0f64)), SymbolRule::Line((6.0f64, -5.0f64)), SymbolRule::Line((-6.0f64, -5.0f64))] }
pub open spec fn standard_airport(v: Symbol) -> bool { v@ =~= seq![SymbolRule::Move((-3.0f64, -3.0f64)), SymbolRule::Line((3.0f64, -3.0f64)), SymbolRule::Line((3.0f64, 3.0f64)), SymbolRule::Line((-3.0f64, 3.0f64)), SymbolRule::Line((-3.0f64, -3.0f64)), SymbolRule::Move((5.0f64, 0.0f64)), SymbolRule::Line((-6.0f64, 0.0f64)), SymbolRule::Move((0.0f64, 5.0f64)), SymbolRule::Line((0.0f64, -6.0f64))] }
pub open spec fn standard_primary(v: Symbol) -> bool { v@ =~= seq![SymbolRule::Move((-3.0f64, -3.0f64)), SymbolRule::Line((4.0f64, 4.0f64)), SymbolRule::Move((-3.0f64, 3.0f64)), SymbolRule::Line((4.0f64, -4.0f64))] }
pub open spec fn standard_coasted(v: Symbol) -> bool { v@ =~= seq![SymbolRule::Move((-4.0f64, -4.0f64)), SymbolRule::Line((-4.0f64, 4.0f64)), SymbolRule::Line((4.0f64, 4.0f64)), SymbolRule::Line((4.0f64, -4.0f64))] }
pub open spec fn standard_uncontrolled(v: Symbol) -> bool { v@ =~= seq![SymbolRule::Move((-4.0f64, 3.0f64)), SymbolRule::Line((0.0f64, -4.0f64)), SymbolRule::Line((3.0f64, 3.0f64)), SymbolRule::Line((-4.0f64, 3.0f64))] }
pub open spec fn standard_controlled(v: Symbol) -> bool { v@ =~= seq![SymbolRule::Move((-5.0f64, 0.0f64)), SymbolRule::Line((0.0f64, -5.0f64)), SymbolRule::Line((5.0f64, 0.0f64)), SymbolRule::Line((0.0f64, 5.0f64)), SymbolRule::Line((-5.0f64, 0.0f64))] }
//@ fn default_history_dot
//@ spec
ensures standard_history_dot(*ret),
//@ fn default_fix
//@ spec
ensures standard_fix(*ret),
//@ fn default_ndb
//@ spec
ensures standard_ndb(*ret),
//@ fn default_vor
//@ spec
ensures standard_vor(*ret),
//@ fn default_airport
//@ spec
ensures standard_airport(*ret),
//@ fn default_primary
//@ spec
ensures standard_primary(*ret),
//@ fn default_coasted
//@ spec
ensures standard_coasted(*ret),
//@ fn default_uncontrolled
//@ spec
ensures standard_uncontrolled(*ret),
//@ fn default_controlled
//@ spec
ensures standard_controlled(*ret),
//@ fn Symbols::get
//@ spec
ensures match ret { Some(r) => self.other@.contains_key(name@) && r@ == self.other@[name@]@, None => !self.other@.contains_key(name@) },
//@ fn Symbols::from_euroscope  loops=1
//@ type acc0 Vec<(String, Symbol)>
//@ type topsky_symbols HashMap<String, Symbol>
//@ spec
ensures
    match drawn(*topsky, *symbology, "HISTORY"@, SymbolType::HistoryDot) { Some(d) => ret.history_dot == d, None => standard_history_dot(ret.history_dot) },
    match drawn(*topsky, *symbology, "FIX"@, SymbolType::Fix) { Some(d) => ret.fix == d, None => standard_fix(ret.fix) },
    match drawn(*topsky, *symbology, "NDB"@, SymbolType::NDB) { Some(d) => ret.ndb == d, None => standard_ndb(ret.ndb) },
    match drawn(*topsky, *symbology, "VOR"@, SymbolType::VOR) { Some(d) => ret.vor == d, None => standard_vor(ret.vor) },
    match drawn(*topsky, *symbology, "AIRPORT"@, SymbolType::Airport) { Some(d) => ret.airport == d, None => standard_airport(ret.airport) },
    match drawn(*topsky, *symbology, "PRIMARY"@, SymbolType::AircraftPrimaryOnly) { Some(d) => ret.primary == d, None => standard_primary(ret.primary) },
    match drawn(*topsky, *symbology, "COASTED"@, SymbolType::AircraftCoasting) { Some(d) => ret.coasted == d, None => standard_coasted(ret.coasted) },
    match drawn(*topsky, *symbology, "UNCONTROLLED"@, SymbolType::AircraftUncorrModeAlphaCharlie) { Some(d) => ret.uncontrolled == d, None => standard_uncontrolled(ret.uncontrolled) },
    match drawn(*topsky, *symbology, "DAPS"@, SymbolType::AircraftCorrModeSierra) { Some(d) => ret.controlled == d, None => standard_controlled(ret.controlled) },
    forall|n: Seq<char>| #![trigger look(ret.other@, n)] look(ret.other@, n) == plugged(*topsky, n),
//@ loop 0
    acc0@.len() == it0.pos(), g0 == entry_refs(entries(t.symbols)),
    forall|i: int| 0 <= i < acc0@.len() ==> (#[trigger] acc0@[i]).0 == entries(t.symbols)[i].0 && acc0@[i].1 == entries(t.symbols)[i].1.rules,
//@ at loop0.after
proof { collected(acc0@, t.symbols); }
//@ fn Symbols as Default::default
//@ spec
ensures
    standard_history_dot(ret.history_dot),
    standard_fix(ret.fix),
    standard_ndb(ret.ndb),
    standard_vor(ret.vor),
    standard_airport(ret.airport),
    standard_primary(ret.primary),
    standard_coasted(ret.coasted),
    standard_uncontrolled(ret.uncontrolled),
    standard_controlled(ret.controlled),
    ret.other@ == Map::<Seq<char>, Symbol>::empty(),
//@ lemmas
pub open spec fn look(m: Map<Seq<char>, Symbol>, name: Seq<char>) -> Option<Symbol> { if m.contains_key(name) { Some(m[name]) } else { None } }
pub proof fn collected(v: Seq<(String, Symbol)>, m: HashMap<String, SymbolDef>)
    requires v.len() == entries(m).len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == entries(m)[i].0 && v[i].1 == entries(m)[i].1.rules,
    ensures forall|n: Seq<char>| #![trigger look(map_of(v), n)] look(map_of(v), n) == (if m@.contains_key(n) { Some(m@[n].rules) } else { None }),
{
    broadcast use axiom_entries;
    let e = entries(m);
    assert(lists(e, m@));
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0.vkey() != (#[trigger] v[j]).0.vkey() by { assert(e[i].0.vkey() != e[j].0.vkey()); }
    map_of_distinct(v);
    assert forall|n: Seq<char>| #![trigger look(map_of(v), n)] look(map_of(v), n) == (if m@.contains_key(n) { Some(m@[n].rules) } else { None }) by {
        if m@.contains_key(n) { let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == n; assert(v[i].0.vkey() == n); assert(map_of(v).contains_key(v[i].0.vkey())); }
        if map_of(v).contains_key(n) { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0.vkey() == n; assert(e[i].0.vkey() == n); assert(m@.contains_key(e[i].0.vkey())); }
    }
}
