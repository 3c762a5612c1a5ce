// ---------------------------------------------------------------------------------------------
// TRUSTED: std items vstd has no contract for
// ---------------------------------------------------------------------------------------------
pub mod vxstd {
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use vstd::std_specs::convert::*;
use crate::vxmap::*;
/// `char` to String through Display
pub broadcast axiom fn axiom_display_char(c: &char, r: String)
    ensures #[trigger] to_string_from_display_ensures::<char>(c, r) ==> r@ == seq![*c];
/// `String: From<&str>`
pub broadcast axiom fn axiom_string_from_str(s: &str)
    ensures #[trigger] <String as FromSpec<&str>>::from_spec(s) == mk(s@);
pub broadcast axiom fn axiom_string_from_str_obeys()
    ensures #[trigger] <String as FromSpec<&str>>::obeys_from_spec();
/// clones of plain values are the values
pub broadcast axiom fn axiom_cloned_usize(a: usize, b: usize)
    ensures #[trigger] vstd::pervasive::cloned::<usize>(a, b) ==> a == b;
pub broadcast axiom fn axiom_cloned_string(a: String, b: String)
    ensures #[trigger] vstd::pervasive::cloned::<String>(a, b) ==> a == b;

/// the map a sequence of pairs collects into
pub open spec fn seq_map<K, V>(s: Seq<(K, V)>) -> Map<K, V>
    decreases s.len()
{
    if s.len() == 0 { Map::empty() } else { seq_map(s.drop_last()).insert(s.last().0, s.last().1) }
}
pub broadcast axiom fn axiom_collect_btree<K: std::cmp::Ord, V>(s: Seq<(K, V)>, m: std::collections::BTreeMap<K, V>)
    ensures #[trigger] <std::collections::BTreeMap<K, V> as FromIteratorSpec<(K, V)>>::from_iter_ensures(s, m) ==> m@ == seq_map(s);
pub proof fn lemma_seq_map<K, V>(s: Seq<(K, V)>)
    ensures
        forall|k: K| #[trigger] seq_map(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0) ==> forall|i: int| 0 <= i < s.len() ==> seq_map(s)[(#[trigger] s[i]).0] == s[i].1,
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        lemma_seq_map(t);
        assert forall|k: K| #[trigger] seq_map(s).contains_key(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k by {
            assert(seq_map(s) == seq_map(t).insert(s.last().0, s.last().1));
            if seq_map(s).contains_key(k) {
                if k == s.last().0 { assert(s[s.len() - 1].0 == k); }
                else {
                    assert(seq_map(t).contains_key(k));
                    let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k;
                    assert(0 <= i < t.len() && t[i].0 == k);
                    assert(s[i].0 == k);
                }
            }
            if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k {
                let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
                if i < s.len() - 1 { assert(t[i] == s[i] && t[i].0 == k); assert(seq_map(t).contains_key(k)); }
                assert(seq_map(s) == seq_map(t).insert(s.last().0, s.last().1));
                assert(seq_map(s).contains_key(k));
            }
        }
        if forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0 {
            assert forall|i: int, j: int| 0 <= i < j < t.len() implies (#[trigger] t[i]).0 != (#[trigger] t[j]).0 by { assert(s[i].0 != s[j].0); }
            assert forall|i: int| 0 <= i < s.len() implies seq_map(s)[(#[trigger] s[i]).0] == s[i].1 by {
                if i < s.len() - 1 { assert(t[i] == s[i]); assert(s[i].0 != s[s.len() - 1].0); }
            }
        }
    }
}
/// what collecting pairs into a map means, key by key
pub broadcast proof fn lemma_collect_btree<K: std::cmp::Ord, V>(s: Seq<(K, V)>, m: std::collections::BTreeMap<K, V>)
    requires #[trigger] <std::collections::BTreeMap<K, V> as FromIteratorSpec<(K, V)>>::from_iter_ensures(s, m),
    ensures
        forall|k: K| #[trigger] m@.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k,
        forall|i: int| 0 <= i < s.len() ==> m@.contains_key((#[trigger] s[i]).0),
        (forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0) ==> forall|i: int| 0 <= i < s.len() ==> m@[(#[trigger] s[i]).0] == s[i].1,
{
    axiom_collect_btree(s, m);
    lemma_seq_map(s);
}
/// the entries of a map iterator have pairwise different keys
pub broadcast proof fn lemma_iter_keys<'a, K, V>(s: Seq<(&'a K, &'a V)>, m: Map<K, V>)
    requires #[trigger] s.no_duplicates(), forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1,
    ensures forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0, (#[trigger] m.kv_pairs()) == m.kv_pairs(),
{
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0 by { assert(s[i] != s[j]); }
}
/// `map_postcondition` with the trigger on the inner iterator
pub broadcast proof fn lemma_map_inner<I: Iterator, F: FnMut<(I::Item,)>>(i: I, f: F, r: std::iter::Map<I, F>)
    requires i.obeys_prophetic_iter_laws(), #[trigger] map_post(i, f, r),
    ensures forall|k: int| 0 <= k < IteratorSpec::remaining(&r).len() ==> call_ensures(f, (#[trigger] i.remaining()[k],), IteratorSpec::remaining(&r)[k]),
{
    map_postcondition(i, f, r);
}

// str::char_indices: byte offset and character, in order
#[verifier::external_type_specification]
#[verifier::external_body]
pub struct ExCharIndices<'a>(std::str::CharIndices<'a>);
pub open spec fn ci_seq(t: Seq<char>) -> Seq<(usize, char)> {
    Seq::new(t.len(), |i: int| (encode_utf8(t.take(i)).len() as usize, t[i]))
}
pub assume_specification [str::char_indices] (s: &str) -> (r: std::str::CharIndices<'_>)
    ensures r.obeys_prophetic_iter_laws(), r.remaining() == ci_seq(s@), r.decrease() is Some;

/// `&s[i]`: exactly what `SliceIndex::index` guarantees
pub assume_specification<I: std::slice::SliceIndex<str>> [<str as std::ops::Index<I>>::index] (s: &str, i: I) -> (r: &<I as std::slice::SliceIndex<str>>::Output)
    ensures call_ensures(<I as std::slice::SliceIndex<str>>::index, (i, s), r);

/// a byte length always fits in usize
pub broadcast axiom fn axiom_str_len(s: &str)
    ensures #[trigger] s.spec_bytes().len() <= usize::MAX, s.spec_bytes() == encode_utf8(s@);
/// a panic: does not return
#[verifier::external_body]
pub fn vx_diverge() -> !
    ensures false
{ panic!() }
pub broadcast group group_std { axiom_str_len, axiom_display_char, axiom_string_from_str, axiom_string_from_str_obeys, axiom_cloned_usize, axiom_cloned_string, lemma_collect_btree, lemma_map_inner, lemma_iter_keys }
}
pub use vxstd::*;
