//@ source src/adaptation/constraints.rs
//@ source src/ese.rs
//@ use base
//@ use map
//@ concat_formats
//@ rename replace vx_replace
//@ rename as_deref .vx_as_deref
//@ item Constraint eq
//@ itersrc constraints
//@ prelude
pub struct Ese { pub constraints: Vec<Constraint> }
/// src: settings::CoordinationTiming, carried along unchanged
#[verifier::external_body]
pub struct CoordinationTiming { v: u8 }
/// str::replace with a single-character pattern (std)
pub open spec fn replaced(s: Seq<char>, c: char, by: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { (if s[0] == c { by } else { seq![s[0]] }) + replaced(s.skip(1), c, by) }
}
pub trait VxReplace { spec fn vx_txt(&self) -> Seq<char>; fn vx_repl(&self, c: char, by: &str) -> (r: String) ensures r@ == replaced(self.vx_txt(), c, by@); }
impl VxReplace for str { open spec fn vx_txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_repl(&self, c: char, by: &str) -> String { unimplemented!() } }
impl VxReplace for String { open spec fn vx_txt(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_repl(&self, c: char, by: &str) -> String { unimplemented!() } }
impl<T: VxReplace + ?Sized> VxReplace for &T { open spec fn vx_txt(&self) -> Seq<char> { (**self).vx_txt() } #[verifier::external_body] fn vx_repl(&self, c: char, by: &str) -> String { unimplemented!() } }
pub fn vx_replace<T: VxReplace>(x: T, c: char, by: &str) -> (r: String) ensures r@ == replaced(x.vx_txt(), c, by@) { x.vx_repl(c, by) }

/// a field that may be a wildcard
pub open spec fn fld(o: Option<String>) -> Seq<char> { match o { Some(s) => s@, None => seq!['*'] } }
/// what makes two constraints different rows: aerodrome, runway, fix, sector
pub open spec fn fields(c: Constraint) -> Seq<Seq<char>> {
    seq![fld(c.previous_fix), fld(c.departure_runway), fld(c.subsequent_fix), fld(c.arrival_runway), fld(c.fix), c.exit_sector@, c.entry_sector@]
}
pub open spec fn kept(c: Constraint) -> bool { c.climb_level is Some || c.descent_level is Some }
pub open spec fn departure(c: Constraint) -> bool { c.climb_level is Some }
/// the last kept constraint of one direction with a given row
pub open spec fn last_of(s: Seq<Constraint>, dep: bool, row: Seq<Seq<char>>) -> Option<Constraint>
    decreases s.len()
{
    if s.len() == 0 { None } else if kept(s.last()) && departure(s.last()) == dep && fields(s.last()) == row { Some(s.last()) } else { last_of(s.drop_last(), dep, row) }
}
/// no separator survives within a field
pub open spec fn esc(s: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { (if s[0] == '\\' { seq!['\\', '\\'] } else if s[0] == '#' { seq!['\\', '#'] } else { seq![s[0]] }) + esc(s.skip(1)) }
}
pub open spec fn key_text(r: Seq<Seq<char>>) -> Seq<char> {
    let h = seq!['#'];
    Seq::<char>::empty() + esc(r[0]) + h + esc(r[1]) + h + esc(r[2]) + h + esc(r[3]) + h + esc(r[4]) + h + esc(r[5]) + h + esc(r[6])
}
pub open spec fn key_right(r: Seq<Seq<char>>) -> Seq<char> {
    esc(r[0]) + (seq!['#'] + (esc(r[1]) + (seq!['#'] + (esc(r[2]) + (seq!['#'] + (esc(r[3]) + (seq!['#'] + (esc(r[4]) + (seq!['#'] + (esc(r[5]) + (seq!['#'] + esc(r[6]))))))))))))
}
/// the constraints of one direction, in order
pub open spec fn sel(s: Seq<Constraint>, dep: bool) -> Seq<Constraint>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { let r = sel(s.drop_last(), dep); if kept(s.last()) && departure(s.last()) == dep { r.push(s.last()) } else { r } }
}
pub open spec fn keyed(s: Seq<Constraint>) -> Map<Seq<char>, Constraint>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { keyed(s.drop_last()).insert(key_text(fields(s.last())), s.last()) }
}
//@ lemmas
proof fn replaced_cat(a: Seq<char>, b: Seq<char>, c: char, by: Seq<char>)
    ensures replaced(a + b, c, by) == replaced(a, c, by) + replaced(b, c, by),
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(replaced(a, c, by) + replaced(b, c, by) =~= replaced(b, c, by)); }
    else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        replaced_cat(a.skip(1), b, c, by);
        let h = if a[0] == c { by } else { seq![a[0]] };
        assert(h + (replaced(a.skip(1), c, by) + replaced(b, c, by)) =~= (h + replaced(a.skip(1), c, by)) + replaced(b, c, by));
    }
}
proof fn replaced_one(x: char, c: char, by: Seq<char>)
    ensures replaced(seq![x], c, by) == (if x == c { by } else { seq![x] }),
{
    assert(seq![x].skip(1) =~= Seq::<char>::empty());
    assert(replaced(seq![x].skip(1), c, by) =~= Seq::<char>::empty());
    assert((if x == c { by } else { seq![x] }) + Seq::<char>::empty() =~= (if x == c { by } else { seq![x] }));
}
proof fn replaced_twice(s: Seq<char>)
    ensures replaced(replaced(s, '\\', seq!['\\', '\\']), '#', seq!['\\', '#']) == esc(s),
    decreases s.len()
{
    let b = seq!['\\', '\\'];
    let h = seq!['\\', '#'];
    if s.len() > 0 {
        replaced_twice(s.skip(1));
        let x = if s[0] == '\\' { b } else { seq![s[0]] };
        replaced_cat(x, replaced(s.skip(1), '\\', b), '#', h);
        if s[0] == '\\' {
            assert(b =~= seq!['\\'] + seq!['\\']);
            replaced_cat(seq!['\\'], seq!['\\'], '#', h);
            replaced_one('\\', '#', h);
        } else { replaced_one(s[0], '#', h); }
    }
}
/// a field ends where its separator is
proof fn esc_split(a: Seq<char>, b: Seq<char>, x: Seq<char>, y: Seq<char>)
    requires esc(a) + (seq!['#'] + x) == esc(b) + (seq!['#'] + y),
    ensures a == b, x == y,
    decreases a.len()
{
    let l = esc(a) + (seq!['#'] + x);
    let r = esc(b) + (seq!['#'] + y);
    if a.len() == 0 && b.len() == 0 {
        assert(a =~= b);
        assert(l =~= seq!['#'] + x && r =~= seq!['#'] + y);
        assert(x =~= l.skip(1) && y =~= r.skip(1));
    } else if a.len() == 0 {
        assert(l[0] == '#');
        assert(r[0] == esc(b)[0]);
        assert(false);
    } else if b.len() == 0 {
        assert(r[0] == '#');
        assert(l[0] == esc(a)[0]);
        assert(false);
    } else {
        let ha = if a[0] == '\\' { seq!['\\', '\\'] } else if a[0] == '#' { seq!['\\', '#'] } else { seq![a[0]] };
        let hb = if b[0] == '\\' { seq!['\\', '\\'] } else if b[0] == '#' { seq!['\\', '#'] } else { seq![b[0]] };
        let ra = esc(a.skip(1)) + (seq!['#'] + x);
        let rb = esc(b.skip(1)) + (seq!['#'] + y);
        assert(l =~= ha + ra);
        assert(r =~= hb + rb);
        assert(l[0] == ha[0] && r[0] == hb[0]);
        if ha[0] == '\\' { assert(l[1] == ha[1] && r[1] == hb[1]); }
        assert(a[0] == b[0]);
        assert(ra =~= l.skip(ha.len() as int));
        assert(rb =~= r.skip(hb.len() as int));
        esc_split(a.skip(1), b.skip(1), x, y);
        assert(a =~= seq![a[0]] + a.skip(1));
        assert(b =~= seq![b[0]] + b.skip(1));
    }
}
proof fn cat3(a: Seq<char>, h: Seq<char>, b: Seq<char>, t: Seq<char>) ensures (a + h + b) + t == a + (h + (b + t)) { assert((a + h + b) + t =~= a + (h + (b + t))); }
proof fn cats(a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, f: Seq<char>, g: Seq<char>, h: Seq<char>)
    ensures Seq::<char>::empty() + a + h + b + h + c + h + d + h + e + h + f + h + g == a + (h + (b + (h + (c + (h + (d + (h + (e + (h + (f + (h + g))))))))))),
{
    let z = Seq::<char>::empty();
    assert(z + a =~= a);
    let x1 = a + h + b;
    let x2 = x1 + h + c;
    let x3 = x2 + h + d;
    let x4 = x3 + h + e;
    let x5 = x4 + h + f;
    let t5 = h + g;
    assert(x5 + h + g =~= x5 + t5);
    cat3(x4, h, f, t5);
    let t4 = h + (f + t5);
    cat3(x3, h, e, t4);
    let t3 = h + (e + t4);
    cat3(x2, h, d, t3);
    let t2 = h + (d + t3);
    cat3(x1, h, c, t2);
    let t1 = h + (c + t2);
    cat3(a, h, b, t1);
}
/// rows that differ in any field have different keys
pub proof fn theorem_keys_differ(p: Seq<Seq<char>>, q: Seq<Seq<char>>)
    requires p.len() == 7, q.len() == 7, key_text(p) == key_text(q),
    ensures p == q,
{
    assert(key_text(p) == key_right(p)) by { cats(esc(p[0]), esc(p[1]), esc(p[2]), esc(p[3]), esc(p[4]), esc(p[5]), esc(p[6]), seq!['#']); }
    assert(key_text(q) == key_right(q)) by { cats(esc(q[0]), esc(q[1]), esc(q[2]), esc(q[3]), esc(q[4]), esc(q[5]), esc(q[6]), seq!['#']); }
    let e6 = |r: Seq<Seq<char>>| esc(r[6]);
    let e5 = |r: Seq<Seq<char>>| esc(r[5]) + (seq!['#'] + e6(r));
    let e4 = |r: Seq<Seq<char>>| esc(r[4]) + (seq!['#'] + e5(r));
    let e3 = |r: Seq<Seq<char>>| esc(r[3]) + (seq!['#'] + e4(r));
    let e2 = |r: Seq<Seq<char>>| esc(r[2]) + (seq!['#'] + e3(r));
    let e1 = |r: Seq<Seq<char>>| esc(r[1]) + (seq!['#'] + e2(r));
    assert(key_right(p) == esc(p[0]) + (seq!['#'] + e1(p)));
    assert(key_right(q) == esc(q[0]) + (seq!['#'] + e1(q)));
    esc_split(p[0], q[0], e1(p), e1(q));
    esc_split(p[1], q[1], e2(p), e2(q));
    esc_split(p[2], q[2], e3(p), e3(q));
    esc_split(p[3], q[3], e4(p), e4(q));
    esc_split(p[4], q[4], e5(p), e5(q));
    esc_split(p[5], q[5], e6(p), e6(q));
    esc_split(p[6], q[6], Seq::empty(), Seq::empty());
    assert(p =~= q);
}
proof fn map_of_keyed(v: Seq<(String, Constraint)>, s: Seq<Constraint>)
    requires v.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> (#[trigger] v[i]).0@ == key_text(fields(s[i])) && v[i].1 == s[i],
    ensures map_of(v) == keyed(s),
    decreases s.len()
{
    if s.len() > 0 { map_of_keyed(v.drop_last(), s.drop_last()); }
}
/// looking a row up in a direction's table gives its last constraint, unchanged
pub proof fn theorem_lookup(s: Seq<Constraint>, dep: bool, row: Seq<Seq<char>>)
    requires row.len() == 7,
    ensures
        last_of(s, dep, row) is Some ==> keyed(sel(s, dep)).contains_key(key_text(row)) && keyed(sel(s, dep))[key_text(row)] == last_of(s, dep, row)->0,
        last_of(s, dep, row) is None ==> !keyed(sel(s, dep)).contains_key(key_text(row)),
    decreases s.len()
{
    if s.len() > 0 {
        theorem_lookup(s.drop_last(), dep, row);
        let c = s.last();
        if kept(c) && departure(c) == dep {
            let r = sel(s.drop_last(), dep);
            assert(r.push(c).drop_last() =~= r);
            if key_text(fields(c)) == key_text(row) { theorem_keys_differ(fields(c), row); }
        }
    }
}
/// every kept constraint is found under its own key in its own direction, unless a later one has the same row
pub proof fn theorem_kept(s: Seq<Constraint>, i: int)
    requires 0 <= i < s.len(), kept(s[i]), forall|j: int| i < j < s.len() && kept(#[trigger] s[j]) && departure(s[j]) == departure(s[i]) ==> fields(s[j]) != fields(s[i]),
    ensures keyed(sel(s, departure(s[i]))).contains_key(key_text(fields(s[i]))), keyed(sel(s, departure(s[i])))[key_text(fields(s[i]))] == s[i],
    decreases s.len()
{
    let d = departure(s[i]);
    let row = fields(s[i]);
    last_is(s, i, s.len() as int);
    assert(s.take(s.len() as int) =~= s);
    theorem_lookup(s, d, row);
}
proof fn last_is(s: Seq<Constraint>, i: int, n: int)
    requires 0 <= i < n <= s.len(), kept(s[i]), forall|j: int| i < j < s.len() && kept(#[trigger] s[j]) && departure(s[j]) == departure(s[i]) ==> fields(s[j]) != fields(s[i]),
    ensures last_of(s.take(n), departure(s[i]), fields(s[i])) == Some(s[i]),
    decreases n
{
    assert(s.take(n).last() == s[n - 1]);
    assert(s.take(n).drop_last() =~= s.take(n - 1));
    if n - 1 > i { last_is(s, i, n - 1); }
}
//@ fn Constraint::key
//@ spec
    ensures ret@ == key_text(fields(*self)),
//@ at start
    hide(replaced); hide(esc);
    proof {
        reveal_strlit("*"); reveal_strlit("\\\\"); reveal_strlit("#"); reveal_strlit("\\#");
        assert("\\\\"@ =~= seq!['\\', '\\']); assert("\\#"@ =~= seq!['\\', '#']); assert("#"@ =~= seq!['#']); assert("*"@ =~= seq!['*']);
        let r = fields(*self);
        replaced_twice(r[0]); replaced_twice(r[1]); replaced_twice(r[2]); replaced_twice(r[3]); replaced_twice(r[4]); replaced_twice(r[5]); replaced_twice(r[6]);
    }
//@ at tail
    proof { assert(vx_ret@ =~= key_text(fields(*self))); }
//@ fn extract_constraints  loops=3
//@ type acc1 Vec<(String, Constraint)>
//@ type acc2 Vec<(String, Constraint)>
//@ spec
    ensures
        ret.0@ == keyed(sel(ese.constraints@, true)),
        ret.1@ == keyed(sel(ese.constraints@, false)),
//@ loop 0
    g0 == seq_refs(ese.constraints@), pa0@ == sel(ese.constraints@.take(it0.pos()), true), pb0@ == sel(ese.constraints@.take(it0.pos()), false),
//@ at loop0.end
    proof {
        let n = it0.pos() - 1;
        assert(ese.constraints@.take(n + 1).drop_last() =~= ese.constraints@.take(n));
        assert(ese.constraints@.take(n + 1).last() == ese.constraints@[n]);
        assert(*vx_x0 == ese.constraints@[n]);
    }
//@ at loop0.after
    proof { assert(ese.constraints@.take(it0.pos()) =~= ese.constraints@); }
//@ loop 1
    g1 == sel(ese.constraints@, true), acc1@.len() == it1.pos(), forall|i: int| 0 <= i < acc1@.len() ==> (#[trigger] acc1@[i]).0@ == key_text(fields(g1[i])) && acc1@[i].1 == g1[i],
//@ at loop1.after
    proof { map_of_keyed(acc1@, g1); }
//@ loop 2
    g2 == sel(ese.constraints@, false), acc2@.len() == it2.pos(), forall|i: int| 0 <= i < acc2@.len() ==> (#[trigger] acc2@[i]).0@ == key_text(fields(g2[i])) && acc2@[i].1 == g2[i],
//@ at loop2.after
    proof { map_of_keyed(acc2@, g2); }
