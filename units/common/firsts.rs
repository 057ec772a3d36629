// ---- common/firsts.rs: a table built from records: for every key the data of its first record (the unit defines record, key and says) ----
/// record i is the first one with its key
pub open spec fn is_first(k: Seq<Pair<Rule>>, i: int) -> bool { 0 <= i < k.len() && record(k[i]) && forall|j: int| 0 <= j < i && record(#[trigger] k[j]) ==> key(k[j]) != key(k[i]) }
/// the entry of a key is what its first record says
pub open spec fn from_first(v: Entry1, k: Seq<Pair<Rule>>, n: int, t: Seq<char>) -> bool { exists|i: int| i < n && #[trigger] is_first(k, i) && key(k[i]) == t && says(v, k[i]) }
pub open spec fn firsts(m: Map<Seq<char>, Entry1>, k: Seq<Pair<Rule>>, n: int) -> bool {
    &&& forall|i: int| 0 <= i < n && record(#[trigger] k[i]) ==> m.contains_key(key(k[i]))
    &&& forall|t: Seq<char>| #[trigger] m.contains_key(t) ==> from_first(m[t], k, n, t)
}
/// one entry per distinct key, holding the data of the first record with that key, and no record's key is lost
pub open spec fn first_of_each(m: Map<Seq<char>, Entry1>, k: Seq<Pair<Rule>>) -> bool { firsts(m, k, k.len() as int) }
pub proof fn firsts_none(m: Map<Seq<char>, Entry1>, k: Seq<Pair<Rule>>) requires m =~= Map::<Seq<char>, Entry1>::empty() ensures firsts(m, k, 0) { }
pub proof fn firsts_skip(m: Map<Seq<char>, Entry1>, k: Seq<Pair<Rule>>, n: int)
    requires 0 <= n < k.len(), firsts(m, k, n), !record(k[n]),
    ensures firsts(m, k, n + 1),
{ assert forall|t: Seq<char>| #[trigger] m.contains_key(t) implies from_first(m[t], k, n + 1, t) by { assert(from_first(m[t], k, n, t)); } }
pub proof fn firsts_add(m: Map<Seq<char>, Entry1>, m2: Map<Seq<char>, Entry1>, k: Seq<Pair<Rule>>, n: int)
    requires 0 <= n < k.len(), firsts(m, k, n), record(k[n]), m2.dom() =~= m.dom().insert(key(k[n])),
        forall|t: Seq<char>| #[trigger] m.contains_key(t) ==> m2[t] == m[t],
        !m.contains_key(key(k[n])) ==> says(m2[key(k[n])], k[n]),
    ensures firsts(m2, k, n + 1),
{
    assert forall|t: Seq<char>| #[trigger] m2.contains_key(t) implies from_first(m2[t], k, n + 1, t) by {
        if m.contains_key(t) { assert(from_first(m[t], k, n, t)); }
        else { assert(t == key(k[n])); assert(is_first(k, n)) by { assert forall|j: int| 0 <= j < n && record(#[trigger] k[j]) implies key(k[j]) != key(k[n]) by { assert(m.contains_key(key(k[j]))); } } }
    }
}
