pub mod vxmap {
use vstd::prelude::*;
// ---------------------------------------------------------------------------------------------
// TRUSTED: BTreeMap keyed by String or char, looked up through &str; Entry API
// ---------------------------------------------------------------------------------------------
/// the String with the given characters
pub uninterp spec fn mk(t: Seq<char>) -> String;
/// a String is determined by its characters
pub broadcast axiom fn axiom_mk_string(s: String)
    ensures mk(#[trigger] s@) == s;
pub broadcast axiom fn axiom_mk_str(s: &str)
    ensures #[trigger] mk(s@)@ == s@;
pub broadcast axiom fn axiom_obeys_cmp_string()
    ensures #[trigger] vstd::laws_cmp::obeys_cmp::<String>();
pub broadcast axiom fn axiom_obeys_cmp_char()
    ensures #[trigger] vstd::laws_cmp::obeys_cmp::<char>();
pub broadcast axiom fn axiom_borrow_ord_str()
    ensures #[trigger] vstd::std_specs::btree::borrowed_key_ordering_matches::<String, str>();
pub broadcast axiom fn axiom_contains_str<V>(m: Map<String, V>, k: &str)
    ensures #[trigger] vstd::std_specs::btree::contains_borrowed_key::<String, V, str>(m, k) <==> m.contains_key(mk(k@));
pub broadcast axiom fn axiom_maps_str<V>(m: Map<String, V>, k: &str, v: V)
    ensures #[trigger] vstd::std_specs::btree::maps_borrowed_key_to_value::<String, V, str>(m, k, v) <==> m.contains_key(mk(k@)) && m[mk(k@)] == v;
pub broadcast axiom fn axiom_removed_str<V>(m: Map<String, V>, n: Map<String, V>, k: &str)
    ensures #[trigger] vstd::std_specs::btree::borrowed_key_removed::<String, V, str>(m, n, k) <==> n == m.remove(mk(k@));
/// a value changed in place through `get_mut(&str)`: nothing else changes
pub broadcast proof fn lemma_mutated_str<V>(m: Map<String, V>, n: Map<String, V>, k: &str, v: V, w: V)
    requires #[trigger] vstd::std_specs::btree::borrowed_key_mutated::<String, V, str>(m, n, k, v, w),
    ensures m.contains_key(mk(k@)), m[mk(k@)] == v, n == m.insert(mk(k@), w),
{
    axiom_maps_str::<V>(m, k, v);
    axiom_maps_str::<V>(n, k, w);
    let q = choose|q: Map<String, V>| vstd::std_specs::btree::borrowed_key_removed::<String, V, str>(m, q, k) && vstd::std_specs::btree::borrowed_key_removed::<String, V, str>(n, q, k);
    axiom_removed_str::<V>(m, q, k);
    axiom_removed_str::<V>(n, q, k);
    assert(n =~= m.insert(mk(k@), w)) by {
        assert forall|s: String| n.contains_key(s) == m.insert(mk(k@), w).contains_key(s) by { assert(q.contains_key(s) == m.remove(mk(k@)).contains_key(s)); assert(q.contains_key(s) == n.remove(mk(k@)).contains_key(s)); }
        assert forall|s: String| n.contains_key(s) implies n[s] == m.insert(mk(k@), w)[s] by { if s != mk(k@) { assert(q[s] == m.remove(mk(k@))[s]); assert(q[s] == n.remove(mk(k@))[s]); } }
    }
}
/// entries of a map occupy memory, so there are fewer of them than usize or i64 can count
pub broadcast axiom fn axiom_map_fits<V>(m: std::collections::BTreeMap<String, V>)
    ensures #[trigger] m@.len() < i64::MAX, m@.len() < usize::MAX;
pub broadcast group group_map {
    axiom_mk_string, axiom_mk_str, axiom_obeys_cmp_string, axiom_obeys_cmp_char, axiom_borrow_ord_str, axiom_contains_str, axiom_maps_str, axiom_removed_str, lemma_mutated_str, axiom_map_fits,
}

#[verifier::external_type_specification]
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::accept_recursive_types(K)]
#[verifier::reject_recursive_types(A)]
pub struct ExEntry<'a, K: 'a, V: 'a, A: std::alloc::Allocator + std::clone::Clone>(std::collections::btree_map::Entry<'a, K, V, A>);

pub uninterp spec fn entry_key<'a, K, V, A: std::alloc::Allocator + std::clone::Clone>(e: std::collections::btree_map::Entry<'a, K, V, A>) -> K;
pub uninterp spec fn entry_cur<'a, K, V, A: std::alloc::Allocator + std::clone::Clone>(e: std::collections::btree_map::Entry<'a, K, V, A>) -> Map<K, V>;
#[verifier::prophetic]
pub uninterp spec fn entry_fin<'a, K, V, A: std::alloc::Allocator + std::clone::Clone>(e: std::collections::btree_map::Entry<'a, K, V, A>) -> Map<K, V>;

pub assume_specification<K, V, A> [std::collections::BTreeMap::<K, V, A>::entry] (m: &mut std::collections::BTreeMap<K, V, A>, k: K) -> (r: std::collections::btree_map::Entry<'_, K, V, A>)
          where
          A: std::alloc::Allocator + std::clone::Clone,
          K: std::cmp::Ord,
    ensures entry_key(r) == k, entry_cur(r) == old(m)@, final(m)@ == entry_fin(r);

pub assume_specification<'a, K, V, A> [std::collections::btree_map::Entry::<'a, K, V, A>::or_insert] (e: std::collections::btree_map::Entry<'a, K, V, A>, v: V) -> (r: &'a mut V)
          where
          A: std::alloc::Allocator + std::clone::Clone,
          K: std::cmp::Ord
    ensures *r == (if entry_cur(e).contains_key(entry_key(e)) { entry_cur(e)[entry_key(e)] } else { v }),
      entry_fin(e) == entry_cur(e).insert(entry_key(e), *final(r));

pub assume_specification<'a, K, V, A, F: FnOnce() -> V> [std::collections::btree_map::Entry::<'a, K, V, A>::or_insert_with] (e: std::collections::btree_map::Entry<'a, K, V, A>, f: F) -> (r: &'a mut V)
          where
          A: std::alloc::Allocator + std::clone::Clone,
          K: std::cmp::Ord
    requires !entry_cur(e).contains_key(entry_key(e)) ==> f.requires(()),
    ensures entry_cur(e).contains_key(entry_key(e)) ==> *r == entry_cur(e)[entry_key(e)],
      !entry_cur(e).contains_key(entry_key(e)) ==> f.ensures((), *r),
      entry_fin(e) == entry_cur(e).insert(entry_key(e), *final(r));

pub assume_specification<'a, K, V, A> [std::collections::btree_map::Entry::<'a, K, V, A>::or_default] (e: std::collections::btree_map::Entry<'a, K, V, A>) -> (r: &'a mut V)
          where
          A: std::alloc::Allocator + std::clone::Clone,
          K: std::cmp::Ord,
          V: std::default::Default,
    ensures entry_cur(e).contains_key(entry_key(e)) ==> *r == entry_cur(e)[entry_key(e)],
      !entry_cur(e).contains_key(entry_key(e)) ==> call_ensures(V::default, (), *r),
      entry_fin(e) == entry_cur(e).insert(entry_key(e), *final(r));
}
pub use vxmap::*;
