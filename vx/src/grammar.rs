//! From a pest grammar (the files named in the `#[grammar = ..]` attributes of a parser struct) to Verus text: the `Rule` enum
//! pest_derive declares, and for every rule reachable from the start rules a predicate `g_RULE(pair)` saying which inner pairs and
//! which text a pair of that rule can have. Predicates (`&x`, `!x`) and the order of choices are ignored, so that the predicate holds
//! of every tree the grammar can build and of some it cannot.
//!
//! Inner pairs: silent rules are inlined, atomic rules have none; the remaining expression is a regular expression over rule names.
//! From its position automaton come the number of inner pairs, the rules possible at each of the first places and from there on, at the
//! last place, and what follows a rule where that is less than what the place allows.
//! Text (of rules without inner pairs): the expression as a regular expression over characters, of which inclusion in the languages of
//! Rust's number parsers, finite languages and fixed lengths are decided by automata.
use pest_meta::ast::{Expr, Rule, RuleType};
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::fmt::Write;

type G = HashMap<String, Rule>;
#[derive(Clone, Debug)]
enum Rx<S> { Eps, Sym(S), Seq(Box<Rx<S>>, Box<Rx<S>>), Alt(Box<Rx<S>>, Box<Rx<S>>), Star(Box<Rx<S>>) }
use Rx::*;
fn seq<S>(a: Rx<S>, b: Rx<S>) -> Rx<S> { match (a, b) { (Eps, b) => b, (a, Eps) => a, (a, b) => Seq(a.into(), b.into()) } }
fn alt<S>(a: Rx<S>, b: Rx<S>) -> Rx<S> { Alt(a.into(), b.into()) }
fn rep<S: Clone>(a: Rx<S>, sep: Rx<S>, lo: u32, hi: Option<u32>) -> Rx<S> {
    if matches!(a, Eps) && matches!(sep, Eps) { return Eps; }
    let mut o = Eps;
    for i in 0..lo { o = seq(o, if i == 0 { a.clone() } else { seq(sep.clone(), a.clone()) }); }
    match hi {
        None => if lo == 0 { alt(Eps, seq(a.clone(), Star(seq(sep, a).into()))) } else { seq(o, Star(seq(sep, a).into())) },
        Some(h) => { let mut t = Eps; for i in (lo..h).rev() { t = alt(Eps, seq(if i == 0 { a.clone() } else { seq(sep.clone(), a.clone()) }, t)); } seq(o, t) }
    }
}
/// position automaton
struct Auto<S> { sym: Vec<S>, first: BTreeSet<usize>, last: BTreeSet<usize>, follow: Vec<BTreeSet<usize>>, null: bool }
impl<S: Clone> Auto<S> {
    fn new(r: &Rx<S>) -> Self {
        let mut a = Auto { sym: vec![], first: BTreeSet::new(), last: BTreeSet::new(), follow: vec![], null: false };
        let (n, f, l) = a.go(r);
        a.null = n; a.first = f; a.last = l; a
    }
    fn go(&mut self, r: &Rx<S>) -> (bool, BTreeSet<usize>, BTreeSet<usize>) {
        match r {
            Eps => (true, BTreeSet::new(), BTreeSet::new()),
            Sym(s) => { self.sym.push(s.clone()); self.follow.push(BTreeSet::new()); let p = BTreeSet::from([self.sym.len() - 1]); (false, p.clone(), p) }
            Seq(x, y) => {
                let (nx, fx, lx) = self.go(x); let (ny, fy, ly) = self.go(y);
                for p in &lx { self.follow[*p].extend(&fy); }
                let f = if nx { &fx | &fy } else { fx }; let l = if ny { &lx | &ly } else { ly };
                (nx && ny, f, l)
            }
            Alt(x, y) => { let (nx, fx, lx) = self.go(x); let (ny, fy, ly) = self.go(y); (nx || ny, &fx | &fy, &lx | &ly) }
            Star(x) => { let (_, f, l) = self.go(x); for p in &l { self.follow[*p].extend(&f); } (true, f, l) }
        }
    }
    fn step(&self, s: &BTreeSet<usize>) -> BTreeSet<usize> { s.iter().flat_map(|p| self.follow[*p].iter().copied()).collect() }
}
// ------------------------------------------------------------------ characters: ASCII, and one class for all others
type Cs = [bool; 129];
fn cs(f: impl Fn(u8) -> bool, other: bool) -> Cs { let mut c = [false; 129]; for i in 0..128u8 { c[i as usize] = f(i); } c[128] = other; c }
fn one(c: char) -> Cs { if c.is_ascii() { cs(|b| b as char == c, false) } else { cs(|_| false, true) } }
fn any() -> Rx<Cs> { Sym(cs(|_| true, true)) }
fn lit(s: &str) -> Rx<Cs> { s.chars().fold(Eps, |r, c| seq(r, Sym(one(c)))) }
struct Gr<'a> { g: &'a G, skip: Rx<Cs> }
const BUILTIN: [&str; 4] = ["SOI", "EOI", "ANY", "NEWLINE"];
impl Gr<'_> {
    fn children(&self, e: &Expr, depth: usize) -> Result<Rx<String>, String> {
        if depth > 60 { return Err("recursive".into()); }
        let k = |e: &Expr| self.children(e, depth + 1);
        Ok(match e {
            Expr::Str(_) | Expr::Insens(_) | Expr::Range(..) | Expr::PosPred(_) | Expr::NegPred(_) | Expr::PeekSlice(..) | Expr::Skip(_) => Eps,
            Expr::Ident(n) => match self.g.get(n) {
                Some(r) if r.ty == RuleType::Silent => k(&r.expr)?,
                Some(r) if n == "WHITESPACE" || n == "COMMENT" => return Err(format!("{} with pairs", r.name)),
                Some(_) => Sym(n.clone()),
                None if n == "EOI" => Sym("EOI".into()),
                None => Eps,
            },
            Expr::Seq(a, b) => seq(k(a)?, k(b)?),
            Expr::Choice(a, b) => { let (a, b) = (k(a)?, k(b)?); if matches!((&a, &b), (Eps, Eps)) { Eps } else { alt(a, b) } }
            Expr::Opt(a) => { let a = k(a)?; if matches!(a, Eps) { Eps } else { alt(Eps, a) } }
            Expr::Rep(a) => rep(k(a)?, Eps, 0, None),
            Expr::RepOnce(a) => rep(k(a)?, Eps, 1, None),
            Expr::RepExact(a, n) => rep(k(a)?, Eps, *n, Some(*n)),
            Expr::RepMin(a, n) => rep(k(a)?, Eps, *n, None),
            Expr::RepMax(a, n) => rep(k(a)?, Eps, 0, Some(*n)),
            Expr::RepMinMax(a, n, m) => rep(k(a)?, Eps, *n, Some(*m)),
            Expr::Push(a) => k(a)?,
            #[allow(unreachable_patterns)]
            _ => return Err("expression".into()),
        })
    }
    fn text(&self, e: &Expr, atomic: bool, depth: usize) -> Result<Rx<Cs>, String> {
        if depth > 60 { return Err("recursive".into()); }
        let k = |e: &Expr| self.text(e, atomic, depth + 1);
        let sep = || if atomic { Eps } else { self.skip.clone() };
        Ok(match e {
            Expr::Str(s) => lit(s),
            Expr::Insens(s) => s.chars().fold(Eps, |r, c| seq(r, Sym(cs(|b| (b as char).eq_ignore_ascii_case(&c), !c.is_ascii())))),
            Expr::Range(a, b) => { let (a, b) = (a.chars().next().ok_or("range")?, b.chars().next().ok_or("range")?); Sym(cs(|c| a <= c as char && c as char <= b, !b.is_ascii())) }
            Expr::PosPred(_) | Expr::NegPred(_) => Eps,
            Expr::Skip(_) | Expr::PeekSlice(..) => Star(any().into()),
            Expr::Ident(n) => match n.as_str() {
                "SOI" | "EOI" => Eps,
                "ANY" => any(),
                "NEWLINE" => alt(lit("\n"), alt(lit("\r\n"), lit("\r"))),
                "ASCII_DIGIT" => Sym(cs(|c| c.is_ascii_digit(), false)),
                "ASCII_NONZERO_DIGIT" => Sym(cs(|c| c.is_ascii_digit() && c != b'0', false)),
                "ASCII_ALPHA" => Sym(cs(|c| c.is_ascii_alphabetic(), false)),
                "ASCII_ALPHA_UPPER" => Sym(cs(|c| c.is_ascii_uppercase(), false)),
                "ASCII_ALPHA_LOWER" => Sym(cs(|c| c.is_ascii_lowercase(), false)),
                "ASCII_ALPHANUMERIC" => Sym(cs(|c| c.is_ascii_alphanumeric(), false)),
                "LETTER" => Sym(cs(|c| c.is_ascii_alphabetic(), true)),
                "NUMBER" => Sym(cs(|c| c.is_ascii_digit(), true)),
                _ => match self.g.get(n) {
                    Some(r) => self.text(&r.expr, match r.ty { RuleType::Atomic | RuleType::CompoundAtomic => true, RuleType::NonAtomic => false, _ => atomic }, depth + 1)?,
                    None if ["PEEK", "PEEK_ALL", "POP", "POP_ALL", "DROP"].contains(&n.as_str()) => Star(any().into()),
                    None => any(),
                },
            },
            Expr::Seq(a, b) => { let (x, y) = (k(a)?, k(b)?); if matches!(**a, Expr::PosPred(_) | Expr::NegPred(_)) { seq(x, y) } else { seq(seq(x, sep()), y) } }
            Expr::Choice(a, b) => alt(k(a)?, k(b)?),
            Expr::Opt(a) => alt(Eps, k(a)?),
            Expr::Rep(a) => rep(k(a)?, sep(), 0, None),
            Expr::RepOnce(a) => rep(k(a)?, sep(), 1, None),
            Expr::RepExact(a, n) => rep(k(a)?, sep(), *n, Some(*n)),
            Expr::RepMin(a, n) => rep(k(a)?, sep(), *n, None),
            Expr::RepMax(a, n) => rep(k(a)?, sep(), 0, Some(*n)),
            Expr::RepMinMax(a, n, m) => rep(k(a)?, sep(), *n, Some(*m)),
            Expr::Push(a) => k(a)?,
            #[allow(unreachable_patterns)]
            _ => return Err("expression".into()),
        })
    }
}
/// L(a) included in L(b)
fn included(a: &Auto<Cs>, b: &Auto<Cs>) -> bool {
    if a.null && !b.null { return false; }
    // states: position of a (None at the start), positions of b (None at the start)
    let mut seen: BTreeSet<(Option<usize>, Option<BTreeSet<usize>>)> = BTreeSet::from([(None, None)]);
    let mut todo = VecDeque::from([(None, None)]);
    while let Some((p, q)) = todo.pop_front() {
        let ps: &BTreeSet<usize> = match p { None => &a.first, Some(p) => &a.follow[p] };
        let qs: BTreeSet<usize> = match &q { None => b.first.clone(), Some(q) => b.step(q) };
        for np in ps { for c in 0..129 { if a.sym[*np][c] {
            let nq: BTreeSet<usize> = qs.iter().copied().filter(|x| b.sym[*x][c]).collect();
            if a.last.contains(np) && nq.is_disjoint(&b.last) { return false; }
            let n = (Some(*np), Some(nq));
            if seen.len() > 20000 { return false; }
            if seen.insert(n.clone()) { todo.push_back(n); }
        } } }
    }
    true
}
/// all words, if there are at most 16 and all are ASCII
fn finite(a: &Auto<Cs>) -> Option<BTreeSet<String>> {
    let mut o = BTreeSet::new();
    if a.null { o.insert(String::new()); }
    let mut todo: Vec<(String, usize)> = a.first.iter().map(|p| (String::new(), *p)).collect();
    while let Some((w, p)) = todo.pop() {
        if w.len() > 80 || todo.len() > 400 || a.sym[p][128] { return None; }
        for c in 0..128u8 { if a.sym[p][c as usize] {
            let mut v = w.clone(); v.push(c as char);
            if a.last.contains(&p) { o.insert(v.clone()); }
            if o.len() > 16 { return None; }
            for q in &a.follow[p] { todo.push((v.clone(), *q)); }
        } }
    }
    Some(o)
}
/// all words of rules, if there are at most 16
fn words(a: &Auto<String>) -> Option<BTreeSet<Vec<String>>> {
    let mut o = BTreeSet::new();
    if a.null { o.insert(vec![]); }
    let mut todo: Vec<(Vec<String>, usize)> = a.first.iter().map(|p| (vec![], *p)).collect();
    while let Some((mut w, p)) = todo.pop() {
        if w.len() > 12 || todo.len() > 200 { return None; }
        w.push(a.sym[p].clone());
        for q in &a.follow[p] { todo.push((w.clone(), *q)); }
        if a.last.contains(&p) { o.insert(w); }
        if o.len() > 16 { return None; }
    }
    Some(o)
}
fn digit() -> Rx<Cs> { Sym(cs(|c| c.is_ascii_digit(), false)) }
fn sign(s: &str) -> Rx<Cs> { let s = s.to_string(); alt(Eps, Sym(cs(move |c| s.contains(c as char), false))) }
fn digits(lo: u32, hi: Option<u32>) -> Rx<Cs> { rep(digit(), Eps, lo, hi) }
fn text_facts(rx: &Rx<Cs>) -> Vec<String> {
    let a = Auto::new(rx);
    let mut o = vec![];
    if let Some(ws) = finite(&a) {
        let l: Vec<String> = ws.iter().map(|w| if w.is_empty() { "t.len() == 0".into() } else { format!("t == seq![{}]", w.chars().map(|c| format!("{c:?}")).collect::<Vec<_>>().join(", ")) }).collect();
        if !l.is_empty() { o.push(format!("({})", l.join(" || "))); }
        return o;
    }
    for n in 1..=12 { if included(&a, &Auto::new(&digits(n, Some(n)))) { o.push(format!("t_digits(t, {n})")); break; } }
    let ints = [("t_uint", "+"), ("t_int", "+-")];
    let mut num = false;
    'found: for (f, s) in ints {
        if !included(&a, &Auto::new(&seq(sign(s), digits(1, None)))) { continue; }
        for n in 1..=20 { if included(&a, &Auto::new(&seq(sign(s), digits(1, Some(n))))) { o.push(format!("{f}(t, {n})")); num = true; break 'found; } }
    }
    // Rust's float syntax: digits with an optional point, at least one digit
    let fl = seq(sign("+-"), alt(seq(digits(1, None), alt(Eps, seq(lit("."), digits(0, None)))), seq(lit("."), digits(1, None))));
    if included(&a, &Auto::new(&fl)) { o.push("t_float(t)".into()); }
    else if !num && !a.null { o.push("t.len() >= 1".into()); }
    o
}
fn set(k: &str, s: &BTreeSet<String>) -> String {
    if s.len() == 1 { return format!("g_{}({k})", s.first().unwrap()); }
    format!("(match {k}.rule() {{ {}, _ => false }})", s.iter().map(|n| format!("Rule::{} => g_{n}({k})", id(n))).collect::<Vec<_>>().join(", "))
}
fn rules_in(k: &str, s: &BTreeSet<String>) -> String { format!("({})", s.iter().map(|n| format!("{k}.rule() is {}", id(n))).collect::<Vec<_>>().join(" || ")) }
fn id(n: &str) -> String { match n { "type" | "ref" | "match" | "move" | "loop" | "static" | "use" | "mod" | "fn" | "in" | "if" | "else" | "for" => format!("r#{n}"), _ => n.into() } }
/// `x* rest` where rest does not start with x: x and rest
fn leading(r: &Rx<String>) -> Option<(String, Rx<String>)> {
    let (a, b) = match r { Seq(a, b) => (a, b), _ => return None };
    if let Some((x, rest)) = leading(a) { return Some((x, seq(rest, (**b).clone()))); }
    let x = match &**a { Alt(e, t) if matches!(**e, Eps) => match &**t { Seq(h, s) => match (&**h, &**s) { (Sym(x), Star(y)) if matches!(&**y, Sym(z) if z == x) => x.clone(), _ => return None }, _ => return None }, _ => return None };
    let rest = Auto::new(b);
    if rest.null || rest.first.iter().any(|p| rest.sym[*p] == x) { return None; }
    Some((x, (**b).clone()))
}
/// facts about the inner pairs of rule n; what any of unboundedly many can be gets a name of its own
fn kid_facts(n: &str, rx: &Rx<String>, named: &mut String) -> Vec<String> {
    let a = Auto::new(rx);
    let names = |s: &BTreeSet<usize>| -> BTreeSet<String> { s.iter().map(|p| a.sym[*p].clone()).collect() };
    let mut o = vec![];
    // sets of positions by index, up to where they repeat
    let mut sets: Vec<BTreeSet<usize>> = vec![];
    let mut s = a.first.clone();
    let (mut cyc, mut min) = (None, if a.null { Some(0) } else { None });
    while !s.is_empty() {
        if let Some(j) = sets.iter().position(|x| *x == s) { cyc = Some(j); break; }
        if min.is_none() && !s.is_disjoint(&a.last) { min = Some(sets.len() + 1); }
        let n = a.step(&s); sets.push(s); s = n;
    }
    o.push(match (cyc, min.unwrap_or(0)) { (None, m) if m == sets.len() => format!("k.len() == {m}"), (None, m) => format!("{m} <= k.len() <= {}", sets.len()), (_, m) => format!("k.len() >= {m}") });
    // from b on: one set of rules
    let mut b = sets.len();
    let mut tail: BTreeSet<String> = BTreeSet::new();
    if let Some(j) = cyc {
        for s in &sets[j..] { tail.extend(names(s)); }
        b = j;
        while b > 0 && names(&sets[b - 1]) == tail { b -= 1; }
    }
    for (i, s) in sets.iter().enumerate().take(b) { o.push(format!("{}{}", if i < min.unwrap_or(0) { String::new() } else { format!("k.len() > {i} ==> ") }, set(&format!("k[{i}]"), &names(s)))); }
    let every: BTreeSet<String> = a.sym.iter().cloned().collect();
    if !tail.is_empty() && every.len() > 1 {
        let _ = writeln!(named, "pub open spec fn in_{n}(p: Pair<Rule>) -> bool {{ {} }}", set("p", &every));
        o.push(format!("forall|i: int| 0 <= i < k.len() ==> in_{n}(#[trigger] k[i])"));
    }
    if !tail.is_empty() && (tail != every || every.len() == 1) { o.push(format!("forall|i: int| {b} <= i < k.len() ==> {}", set("(#[trigger] k[i])", &tail))); }
    // what a rule says about the next place
    for (i, s) in sets.iter().enumerate().take(b) {
        let ns = names(s);
        let next = sets.get(i + 1).map(&names).unwrap_or_default();
        for x in &ns {
            let t: BTreeSet<usize> = s.iter().copied().filter(|p| a.sym[*p] == *x).collect();
            let f = names(&a.step(&t));
            let ends = !t.is_disjoint(&a.last);
            let cond = if ns.len() > 1 { format!("k[{i}].rule() is {} && ", id(x)) } else { String::new() };
            let here = format!("{cond}k.len() > {i}");
            if !ends && min.unwrap_or(0) <= i + 1 && !f.is_empty() { o.push(format!("({here}) ==> k.len() > {}", i + 1)); }
            if f.is_empty() && sets.len() > i + 1 { o.push(format!("({here}) ==> k.len() == {}", i + 1)); }
            else if f != next && !f.is_empty() && ns.len() > 1 { o.push(format!("({cond}k.len() > {}) ==> {}", i + 1, rules_in(&format!("k[{}]", i + 1), &f))); }
        }
        // a longer tuple than this place's shortest one is as long as its longest
    }
    // where one rule at one place can go on in different ways: the words themselves, if they are few
    let split = sets.iter().any(|s| names(s).iter().any(|x| {
        let mut ways = s.iter().filter(|p| a.sym[**p] == *x).map(|p| (names(&a.follow[*p]), a.last.contains(p)));
        let w = ways.next(); ways.any(|v| Some(v) != w)
    }));
    if cyc.is_none() && split {
        if let Some(ws) = words(&a) {
            let l: Vec<String> = ws.iter().map(|w| format!("(k.len() == {}{})", w.len(), w.iter().enumerate().map(|(i, r)| format!(" && k[{i}].rule() is {}", id(r))).collect::<String>())).collect();
            o.push(format!("({})", l.join(" || ")));
        }
    }
    // the last place
    let all: BTreeSet<String> = a.sym.iter().cloned().collect();
    let l = names(&a.last);
    if l != all && !tail.is_subset(&l) && cyc.is_some() {
        o.push(format!("k.len() >= 1 ==> {}", rules_in("k.last()", &l)));
        let inner: BTreeSet<String> = (0..a.sym.len()).filter(|p| !a.follow[*p].is_empty()).map(|p| a.sym[p].clone()).collect();
        if inner != all && !inner.is_empty() { o.push(format!("forall|i: int| 0 <= i < k.len() - 1 ==> {}", rules_in("(#[trigger] k[i])", &inner))); }
    }
    o
}
pub fn emit(repo: &str, files: &[String], starts: &[String]) -> Result<String, String> {
    let mut text = String::new();
    for f in files { text += &std::fs::read_to_string(format!("{repo}/src/{f}")).map_err(|e| format!("lost-anchor: grammar {f}: {e}"))?; text.push('\n'); }
    let pairs = pest_meta::parser::parse(pest_meta::parser::Rule::grammar_rules, &text).map_err(|e| format!("grammar: {e}"))?;
    let rules = pest_meta::parser::consume_rules(pairs).map_err(|e| format!("grammar: {e:?}"))?;
    let order: Vec<String> = rules.iter().map(|r| r.name.clone()).collect();
    let g: G = rules.into_iter().map(|r| (r.name.clone(), r)).collect();
    let mut gr = Gr { g: &g, skip: Eps };
    let mut skip: Option<Rx<Cs>> = None;
    for n in ["WHITESPACE", "COMMENT"] { if let Some(r) = g.get(n) {
        if r.ty != RuleType::Silent { return Err(format!("lost-anchor: {n} is not silent")); }
        let x = gr.text(&r.expr, true, 0)?;
        skip = Some(match skip { None => x, Some(y) => alt(y, x) });
    } }
    if let Some(x) = skip { gr.skip = Star(x.into()); }
    let mut o = String::from("// ---- generated from the grammar of this run ----\n");
    let _ = writeln!(o, "#[derive(Clone, Copy)]\npub enum Rule {{ EOI, {} }}", order.iter().map(|n| id(n)).collect::<Vec<_>>().join(", "));
    o.push_str("impl vstd::std_specs::cmp::PartialEqSpecImpl for Rule { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }\nimpl PartialEq for Rule { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { unimplemented!() } }\n");
    o.push_str("/// how many pairs of a rule a list starts with\npub open spec fn lead(k: Seq<Pair<Rule>>, r: Rule) -> int decreases k.len() { if k.len() > 0 && k[0].rule() == r { 1 + lead(k.drop_first(), r) } else { 0 } }\n");
    o.push_str("pub open spec fn g_EOI(p: Pair<Rule>) -> bool { p.rule() is EOI && p.kids().len() == 0 }\n");
    let mut done: BTreeMap<String, ()> = BTreeMap::new();
    let mut todo: Vec<String> = starts.to_vec();
    while let Some(n) = todo.pop() {
        if n == "EOI" || done.insert(n.clone(), ()).is_some() { continue; }
        let r = g.get(&n).ok_or(format!("lost-anchor: grammar rule {n} not found"))?;
        if r.ty == RuleType::Silent { return Err(format!("lost-anchor: grammar rule {n} is silent")); }
        let kids = if r.ty == RuleType::Atomic { Eps } else { gr.children(&r.expr, 0)? };
        let mut facts = vec![];
        let mut head = String::new();
        if matches!(kids, Eps) {
            facts.push("p.kids().len() == 0".to_string());
            let t = gr.text(&r.expr, matches!(r.ty, RuleType::Atomic | RuleType::CompoundAtomic), 0)?;
            let tf = text_facts(&t);
            if !tf.is_empty() { head.push_str("let t = p.text(); "); facts.extend(tf); }
        } else {
            if let Some((x, rest)) = leading(&kids) {
                let _ = write!(head, "let h = lead(p.kids(), Rule::{}); let k = p.kids().skip(h); ", id(&x));
                facts.push(format!("0 <= h <= p.kids().len()"));
                facts.push(format!("forall|i: int| 0 <= i < h ==> g_{x}(#[trigger] p.kids()[i])"));
                facts.extend(kid_facts(&n, &rest, &mut o));
            } else {
                head.push_str("let k = p.kids(); ");
                facts.extend(kid_facts(&n, &kids, &mut o));
            }
            let a = Auto::new(&kids);
            todo.extend(a.sym.iter().cloned());
            // the text of a rule without skipped parts
            if r.ty == RuleType::CompoundAtomic {
                if let Ok(t) = gr.text(&r.expr, true, 0) { let tf = text_facts(&t); if !tf.is_empty() { head.push_str("let t = p.text(); "); facts.extend(tf); } }
            }
        }
        let _ = writeln!(o, "pub open spec fn g_{n}(p: Pair<Rule>) -> bool {{ p.rule() is {} && ({{ {head}{} }}) }}", id(&n), facts.iter().map(|f| format!("({f})")).collect::<Vec<_>>().join(" && "));
    }
    for s in starts { let _ = writeln!(o, "/// what the parser yields for the start rule {s}\npub open spec fn root_{s}(k: Seq<Pair<Rule>>) -> bool {{ k.len() == 1 && g_{s}(k[0]) }}"); }
    let _ = BUILTIN;
    Ok(o)
}
