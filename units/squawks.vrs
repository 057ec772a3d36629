//@ source src/adaptation/settings/mod.rs
//@ source src/squawks.rs
//@ use base
//@ use map
//@ item Range noclone
//@ item SquawkDef noclone
//@ item SquawksJson noclone
//@ item SsrSettings noclone
//@ callrename u16::from_str_radix vx_u16_radix
//@ results vx_u16_radix
//@ prelude
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct Colour { v: u8 }
#[verifier::external_body]
pub struct ParseIntError { v: u8 }
/// what u16::from_str_radix(_, 8) reads
pub uninterp spec fn octal(s: Seq<char>) -> Option<u16>;
#[verifier::external_body]
pub fn vx_u16_radix<S: VKey<KV = Seq<char>> + ?Sized>(s: &S, radix: u32) -> (r: Result<u16, ParseIntError>)
    ensures radix == 8 ==> r.ok() == octal(s.vkey()),
{ unimplemented!() }
pub open spec fn code_text(n: int) -> Seq<char> { fmt1("{:04o}"@, n) }
pub type Kv = (Seq<char>, Seq<char>);
/// the codes one definition contributes
pub open spec fn codes(d: SquawkDef) -> Seq<Kv> {
    match (d.code, d.range) {
        (Some(c), None) => match octal(c@) { Some(n) => seq![(code_text(n as int), d.message@)], None => Seq::empty() },
        (None, Some(r)) => match (octal(r.start@), octal(r.end@)) {
            (Some(a), Some(b)) => Seq::new((if a <= b { b - a + 1 } else { 0 }) as nat, |i: int| (code_text(a + i), d.message@)),
            _ => Seq::empty(),
        },
        _ => Seq::empty(),
    }
}
pub open spec fn all_codes(s: Seq<SquawkDef>) -> Seq<Kv> decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { all_codes(s.drop_last()) + codes(s.last()) } }
pub open spec fn kvs(s: Seq<(String, String)>) -> Seq<Kv> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@)) }
/// the table a list of codes makes: the later one wins
pub open spec fn table(s: Seq<Kv>) -> Map<Seq<char>, Seq<char>> decreases s.len()
{ if s.len() == 0 { Map::empty() } else { table(s.drop_last()).insert(s.last().0, s.last().1) } }
pub open spec fn texts(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { Map::new(m.dom(), |k: Seq<char>| m[k]@) }
pub proof fn lemma_table(s: Seq<(String, String)>)
    ensures texts(map_of(s)) == table(kvs(s)),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_table(s.drop_last());
        assert(kvs(s).drop_last() =~= kvs(s.drop_last()));
        assert(texts(map_of(s)) =~= texts(map_of(s.drop_last())).insert(s.last().0@, s.last().1@));
    } else { assert(texts(map_of(s)) =~= table(kvs(s))); }
}
//@ fn SsrSettings::from_squawks_json  loops=3
//@ spec
ensures
    texts(ret.special_use_codes@) == table(all_codes(squawks.squawks@)),
//@ loop 0
    g0 == seq_refs(squawks.squawks@),
    kvs(acc0@) == all_codes(squawks.squawks@.take(it0.pos())),
//@ at loop0.start
let ghost n0 = it0.pos() - 1;
let ghost a0 = acc0@;
//@ at loop1.before
proof { assert(kvs(acc1@) =~= Seq::empty()); }
//@ loop 1
    octal(range.start@) == Some(start), octal(range.end@) == Some(end), g1 == range_seq(start, end as int + 1),
    kvs(acc1@) == Seq::new(it1.pos() as nat, |i: int| (code_text(start + i), sq.message@)),
//@ at loop1.start
let ghost b1 = acc1@;
//@ at loop1.end
proof { let p = it1.pos() - 1; assert(kvs(b1).len() == p); assert(b1.len() == p); assert(start + p <= end); assert(g1[p] == u16::of_int(start + p)); assert(g1[p] == start + p); assert(acc1@[p].0@ == code_text(start + p)); assert(acc1@[p].1@ == sq.message@);
    assert(acc1@.drop_last() =~= b1); assert forall|i: int| 0 <= i < p implies kvs(acc1@)[i] == (code_text(start + i), sq.message@) by { assert(kvs(b1)[i] == (code_text(start + i), sq.message@)); }
    assert(kvs(acc1@) =~= Seq::new(it1.pos() as nat, |i: int| (code_text(start + i), sq.message@))); }
//@ at loop2.before
proof { assert(kvs(g2) =~= codes(squawks.squawks@[n0])); assert(acc0@ =~= a0 + g2.take(0)); }
//@ loop 2
    acc0@ == a0 + g2.take(it2.pos()),
//@ at loop2.end
proof { assert(g2.take(it2.pos()) =~= g2.take(it2.pos() - 1).push(g2[it2.pos() - 1])); assert(acc0@ =~= a0 + g2.take(it2.pos())); }
//@ at loop2.after
proof {
    assert(g2.take(g2.len() as int) =~= g2);
    assert(squawks.squawks@.take(n0 + 1).drop_last() =~= squawks.squawks@.take(n0));
    assert(kvs(acc0@) =~= all_codes(squawks.squawks@.take(n0 + 1)));
}
//@ at loop0.after
proof { assert(squawks.squawks@.take(g0.len() as int) =~= squawks.squawks@); lemma_table(acc0@); }
