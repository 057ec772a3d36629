//@ source src/adaptation/line_styles.rs
//@ use base
//@ use map
//@ item Dash noclone
//@ item LineStyle noclone
//@ consts LineStyle
//@ rename to_uppercase .vx_upper
//@ rename unwrap_or_default .vx_or_default
//@ rename chunks_exact .vx_chunks
//@ itersrc into_iter iter chunks_exact
//@ prelude
pub trait Default: Sized { fn default() -> (ret: Self); }
pub struct LineStyleDef { pub name: String, pub dash_lengths: Vec<f32> }
pub struct Topsky { pub line_styles: HashMap<String, LineStyleDef> }
/// the upper-case form of a name (a function of the name alone)
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub trait VxUpper { fn vx_upper(&self) -> String; }
impl VxUpper for String { #[verifier::external_body] fn vx_upper(&self) -> (r: String) ensures r@ == upper(self@) { unimplemented!() } }
pub trait VxChunks<T> { fn vx_chunks(&self, n: usize) -> VxIter<&[T]>; }
impl<T> VxChunks<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_chunks(&self, n: usize) -> (r: VxIter<&[T]>)
        ensures n > 0 ==> r.pos() == 0 && r@.len() == self@.len() / (n as nat) && forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self@.subrange(i * n, i * n + n),
    { unimplemented!() }
}
pub type Pattern = Option<Vec<Dash>>;
pub open spec fn look(m: Map<Seq<char>, Pattern>, name: Seq<char>) -> Option<Pattern> { if m.contains_key(name) { Some(m[name]) } else { None } }
/// the drawing pattern the plugin file gives for a style: its lengths pairwise as dash and gap
pub open spec fn pattern(l: Seq<f32>, p: Pattern) -> bool {
    match p {
        Some(d) => l.len() > 1 && d@.len() == l.len() / 2 && forall|i: int| 0 <= i < d@.len() ==> (#[trigger] d@[i]).length == l[2 * i] && d@[i].gap == l[2 * i + 1],
        None => l.len() <= 1,
    }
}
pub open spec fn builtin(n: Seq<char>) -> bool { n == "SOLID"@ || n == "DOT"@ || n == "ALTERNATE"@ || n == "DASH"@ || n == "DASHDOT"@ || n == "DASHDOTDOT"@ }
pub open spec fn dash(l: f32, g: f32) -> Dash { Dash { length: l, gap: g } }
/// the radar client's own styles
pub open spec fn standard(n: Seq<char>, p: Pattern) -> bool {
    &&& n == "SOLID"@ ==> p is None
    &&& n == "DOT"@ ==> p is Some && p->0@ =~= seq![dash(1.0f32, 1.0f32)]
    &&& n == "ALTERNATE"@ ==> p is Some && p->0@ =~= seq![dash(1.0f32, 1.0f32)]
    &&& n == "DASH"@ ==> p is Some && p->0@ =~= seq![dash(3.0f32, 3.0f32)]
    &&& n == "DASHDOT"@ ==> p is Some && p->0@ =~= seq![dash(3.0f32, 3.0f32), dash(1.0f32, 3.0f32)]
    &&& n == "DASHDOTDOT"@ ==> p is Some && p->0@ =~= seq![dash(3.0f32, 3.0f32), dash(1.0f32, 3.0f32), dash(1.0f32, 3.0f32)]
}
pub open spec fn styles_ok(ret: HashMap<String, Pattern>, topsky: Option<Topsky>) -> bool {
    &&& forall|n: Seq<char>| #![trigger look(ret@, n)] builtin(n) ==> look(ret@, n) is Some && standard(n, look(ret@, n)->0)
    &&& forall|n: Seq<char>| #![trigger look(ret@, n)] !builtin(n) ==> match look(ret@, n) {
            Some(p) => topsky is Some && exists|k: Seq<char>| #[trigger] topsky->0.line_styles@.contains_key(k) && upper(k) == n && pattern(topsky->0.line_styles@[k].dash_lengths@, p),
            None => topsky is Some ==> forall|k: Seq<char>| #[trigger] topsky->0.line_styles@.contains_key(k) ==> upper(k) != n,
        }
}
pub open spec fn named(v: Seq<(String, Pattern)>, e: Seq<(String, LineStyleDef)>, n: int) -> bool {
    v.len() == n && n <= e.len() && forall|i: int| 0 <= i < n ==> (#[trigger] v[i]).0@ == upper(e[i].0@) && pattern(e[i].1.dash_lengths@, v[i].1)
}
pub open spec fn listed(v: Seq<(String, Pattern)>, topsky: Option<Topsky>) -> bool {
    match topsky { Some(t) => named(v, entries(t.line_styles), entries(t.line_styles).len() as int), None => v.len() == 0 }
}
pub open spec fn own(b: Seq<(String, Pattern)>) -> bool {
    b.len() == 6 && b[0].0@ == "SOLID"@ && b[1].0@ == "DOT"@ && b[2].0@ == "ALTERNATE"@ && b[3].0@ == "DASH"@ && b[4].0@ == "DASHDOT"@ && b[5].0@ == "DASHDOTDOT"@
        && standard(b[0].0@, b[0].1) && standard(b[1].0@, b[1].1) && standard(b[2].0@, b[2].1) && standard(b[3].0@, b[3].1) && standard(b[4].0@, b[4].1) && standard(b[5].0@, b[5].1)
}
//@ fn line_styles_from_topsky  loops=3
//@ type acc0 Vec<(String, Pattern)>
//@ type acc1 Vec<Dash>
//@ spec
ensures styles_ok(ret, *topsky),
//@ loop 0
    g0 == entry_refs(entries(t.line_styles)), named(acc0@, entries(t.line_styles), it0.pos()),
//@ loop 1
    acc1@.len() == it1.pos(), g1.len() == style.dash_lengths@.len() / 2,
    forall|i: int| 0 <= i < g1.len() ==> (#[trigger] g1[i])@ == style.dash_lengths@.subrange(i * 2, i * 2 + 2),
    forall|i: int| 0 <= i < acc1@.len() ==> (#[trigger] acc1@[i]).length == style.dash_lengths@[2 * i] && acc1@[i].gap == style.dash_lengths@[2 * i + 1],
//@ loop 2
    acc0@ == g2.take(it2.pos()), g2.len() >= 6, listed(g2.take(g2.len() - 6), *topsky), own(g2.skip(g2.len() - 6)),
//@ at loop2.before
let ghost first = it2@.take(it2@.len() - 6);
let ghost last = it2@.skip(it2@.len() - 6);
proof {
    assert(last.len() == 6);
    names_differ();
    assert(own(last));
    assert(listed(first, *topsky)) by { match *topsky { Some(t) => { assert(named(first, entries(t.line_styles), entries(t.line_styles).len() as int)); }, None => {} } }
}
//@ at loop1.start
proof { let i = it1.pos() - 1; let l = style.dash_lengths@; assert(vx_x1 == g1[i]); assert(vx_x1@ == l.subrange(i * 2, i * 2 + 2)); assert(i * 2 + 2 <= l.len()); assert(vx_x1@.len() == 2); assert(vx_x1@[0] == l[2 * i] && vx_x1@[1] == l[2 * i + 1]); }
//@ at loop2.after
proof {
    let n = g2.len() - 6;
    assert(acc0@ =~= g2.take(n) + g2.skip(n));
    combined(g2.take(n), g2.skip(n), *topsky);
}
//@ lemmas
/// which keys a collected list has, and where their values come from
pub proof fn map_of_members<K: VKey, V>(s: Seq<(K, V)>)
    ensures forall|k: K::KV| #[trigger] map_of(s).contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vkey() == k && map_of(s)[k] == s[i].1,
        forall|i: int| 0 <= i < s.len() ==> map_of(s).contains_key((#[trigger] s[i]).0.vkey()),
    decreases s.len()
{
    if s.len() > 0 {
        let d = s.drop_last();
        map_of_members(d);
        assert forall|k: K::KV| #[trigger] map_of(s).contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.vkey() == k && map_of(s)[k] == s[i].1 by {
            if k == s.last().0.vkey() { assert(s[s.len() - 1].0.vkey() == k); } else {
                assert(map_of(d).contains_key(k));
                let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).0.vkey() == k && map_of(d)[k] == d[i].1; assert(s[i] == d[i]);
            }
        }
        assert forall|i: int| 0 <= i < s.len() implies map_of(s).contains_key((#[trigger] s[i]).0.vkey()) by { if i < d.len() { assert(d[i] == s[i]); assert(map_of(d).contains_key(d[i].0.vkey())); } }
    }
}
pub proof fn combined(a: Seq<(String, Pattern)>, b: Seq<(String, Pattern)>, topsky: Option<Topsky>)
    requires listed(a, topsky), own(b),
    ensures
        forall|n: Seq<char>| #![trigger look(map_of(a + b), n)] builtin(n) ==> look(map_of(a + b), n) is Some && standard(n, look(map_of(a + b), n)->0),
        forall|n: Seq<char>| #![trigger look(map_of(a + b), n)] !builtin(n) ==> match look(map_of(a + b), n) {
            Some(p) => topsky is Some && exists|k: Seq<char>| #[trigger] topsky->0.line_styles@.contains_key(k) && upper(k) == n && pattern(topsky->0.line_styles@[k].dash_lengths@, p),
            None => topsky is Some ==> forall|k: Seq<char>| #[trigger] topsky->0.line_styles@.contains_key(k) ==> upper(k) != n,
        },
{
    broadcast use axiom_entries;
    map_of_two(a, b); map_of_members(a); map_of_members(b);
    let m = map_of(a + b);
    assert forall|n: Seq<char>| #![trigger look(m, n)] builtin(n) implies look(m, n) is Some && standard(n, look(m, n)->0) by {
        assert(map_of(b).contains_key(b[0].0.vkey()) && map_of(b).contains_key(b[1].0.vkey()) && map_of(b).contains_key(b[2].0.vkey()) && map_of(b).contains_key(b[3].0.vkey()) && map_of(b).contains_key(b[4].0.vkey()) && map_of(b).contains_key(b[5].0.vkey()));
        assert(map_of(b).contains_key(n)); assert(m.contains_key(n)); assert(m[n] == map_of(b)[n]);
        let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0.vkey() == n && map_of(b)[n] == b[i].1;
        assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5);
        assert(standard(b[i].0@, b[i].1));
    }
    assert forall|n: Seq<char>| #![trigger look(m, n)] !builtin(n) implies match look(m, n) {
            Some(p) => topsky is Some && exists|k: Seq<char>| #[trigger] topsky->0.line_styles@.contains_key(k) && upper(k) == n && pattern(topsky->0.line_styles@[k].dash_lengths@, p),
            None => topsky is Some ==> forall|k: Seq<char>| #[trigger] topsky->0.line_styles@.contains_key(k) ==> upper(k) != n,
        } by {
        if map_of(b).contains_key(n) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0.vkey() == n && map_of(b)[n] == b[i].1; assert(i == 0 || i == 1 || i == 2 || i == 3 || i == 4 || i == 5); assert(builtin(n)); }
        assert(m.contains_key(n) == map_of(a).contains_key(n));
        match topsky {
            Some(t) => {
                let e = entries(t.line_styles);
                assert(lists(e, t.line_styles@));
                if m.contains_key(n) {
                    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.vkey() == n && map_of(a)[n] == a[i].1;
                    assert(t.line_styles@.contains_key(e[i].0.vkey()));
                    assert(t.line_styles@.contains_key(e[i].0@) && upper(e[i].0@) == n && pattern(t.line_styles@[e[i].0@].dash_lengths@, m[n]));
                } else {
                    assert forall|k: Seq<char>| #[trigger] t.line_styles@.contains_key(k) implies upper(k) != n by {
                        let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.vkey() == k;
                        assert(map_of(a).contains_key(a[i].0.vkey()));
                    }
                }
            }
            None => { if m.contains_key(n) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.vkey() == n && map_of(a)[n] == a[i].1; } }
        }
    }
}
pub proof fn names_differ()
    ensures "SOLID"@ != "DOT"@, "SOLID"@ != "ALTERNATE"@, "SOLID"@ != "DASH"@, "SOLID"@ != "DASHDOT"@, "SOLID"@ != "DASHDOTDOT"@, "DOT"@ != "ALTERNATE"@, "DOT"@ != "DASH"@, "DOT"@ != "DASHDOT"@, "DOT"@ != "DASHDOTDOT"@, "ALTERNATE"@ != "DASH"@, "ALTERNATE"@ != "DASHDOT"@, "ALTERNATE"@ != "DASHDOTDOT"@, "DASH"@ != "DASHDOT"@, "DASH"@ != "DASHDOTDOT"@, "DASHDOT"@ != "DASHDOTDOT"@,
{
    reveal_strlit("SOLID"); reveal_strlit("DOT"); reveal_strlit("ALTERNATE"); reveal_strlit("DASH"); reveal_strlit("DASHDOT"); reveal_strlit("DASHDOTDOT");
    assert("SOLID"@.len() != "DOT"@.len());
    assert("SOLID"@.len() != "ALTERNATE"@.len());
    assert("SOLID"@.len() != "DASH"@.len());
    assert("SOLID"@.len() != "DASHDOT"@.len());
    assert("SOLID"@.len() != "DASHDOTDOT"@.len());
    assert("DOT"@.len() != "ALTERNATE"@.len());
    assert("DOT"@.len() != "DASH"@.len());
    assert("DOT"@.len() != "DASHDOT"@.len());
    assert("DOT"@.len() != "DASHDOTDOT"@.len());
    assert("ALTERNATE"@.len() != "DASH"@.len());
    assert("ALTERNATE"@.len() != "DASHDOT"@.len());
    assert("ALTERNATE"@.len() != "DASHDOTDOT"@.len());
    assert("DASH"@.len() != "DASHDOT"@.len());
    assert("DASH"@.len() != "DASHDOTDOT"@.len());
    assert("DASHDOT"@.len() != "DASHDOTDOT"@.len());
}
