#![feature(allocator_api)]
#![feature(slice_index_methods, fn_traits)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use std::collections::BTreeMap;
verus! {
broadcast use { vstd::utf8::group_utf8_lib, vxmap::group_map, vxstd::group_std, vstd::std_specs::btree::group_btree_axioms };
//@include ext_map.vx
//@include ext_opt.vx
//@include ext_std.vx
//@struct src/document_store.rs DocumentStore
//@include store_spec.vx

impl DocumentStore {
//@fn src/document_store.rs DocumentStore::new
//@spec
    ensures r.save == save, swf(r), forall|d: String| !#[trigger] stored(r, d), forall|d: String, f: String| #[trigger] kept(r, d, f) is None,
//@end
//@fn src/document_store.rs DocumentStore::len
//@spec
    requires swf(*self),
    ensures r == self.docs@.len(),
//@end
//@fn src/document_store.rs DocumentStore::is_empty
//@spec
    requires swf(*self),
    ensures r == (self.docs@.len() == 0),
//@end
//@fn src/document_store.rs DocumentStore::is_stored
//@spec
    ensures r == self.save,
//@end
//@fn src/document_store.rs DocumentStore::has_doc
//@spec
    ensures r == stored(*self, mk(doc_ref@)),
//@end
//@fn src/document_store.rs DocumentStore::add_doc
//@spec
    requires swf(*old(self)),
    ensures doc_added(*old(self), *final(self), mk(doc_ref@), doc@), swf(*final(self)),
//@end
//@fn src/document_store.rs DocumentStore::get_doc
//@spec
    ensures r.is_some() <==> stored(*self, mk(doc_ref@)), r.is_some() ==> r.unwrap()@ == content(*self, mk(doc_ref@)),
//@end
//@fn src/document_store.rs DocumentStore::remove_doc
//@spec
    requires swf(*old(self)),
    ensures doc_removed(*old(self), *final(self), mk(doc_ref@)), swf(*final(self)),
//@end
//@fn src/document_store.rs DocumentStore::add_field_length
//@spec
    requires swf(*old(self)),
    ensures len_added(*old(self), *final(self), mk(doc_ref@), mk(field@), length), swf(*final(self)),
//@end
//@fn src/document_store.rs DocumentStore::get_field_length
//@spec
    ensures r == (if stored(*self, mk(doc_ref@)) { kept(*self, mk(doc_ref@), mk(field@)).unwrap_or(0) } else { 0 }),
//@closure 0
types &BTreeMap<String, usize>
-> (o: Option<&usize>) ensures o.is_some() <==> e@.contains_key(mk(field@)), o.is_some() ==> *o.unwrap() == e@[mk(field@)]
//@end
}

// ---------------------------------------------------------------------------------------------
// every history of additions, replacements and removals (C04, C05, C06)
// ---------------------------------------------------------------------------------------------
pub enum Op { Doc(String, Map<String, String>), Drop(String), Len(String, String, usize) }
pub open spec fn step(a: DocumentStore, op: Op, b: DocumentStore) -> bool {
    match op {
        Op::Doc(d, m) => doc_added(a, b, d, m) && swf(b),
        Op::Drop(d) => doc_removed(a, b, d) && swf(b),
        Op::Len(d, f, n) => len_added(a, b, d, f, n) && swf(b),
    }
}
pub open spec fn history(s: Seq<DocumentStore>, ops: Seq<Op>) -> bool {
    &&& s.len() == ops.len() + 1
    &&& swf(s[0]) && (forall|d: String| !#[trigger] stored(s[0], d)) && (forall|d: String, f: String| #[trigger] kept(s[0], d, f) is None)
    &&& forall|i: int| 0 <= i < ops.len() ==> step(#[trigger] s[i], ops[i], s[i + 1])
}
/// the document last stored under d and not removed since
pub open spec fn last_doc(ops: Seq<Op>, d: String) -> Option<Map<String, String>>
    decreases ops.len()
{
    if ops.len() == 0 { None }
    else {
        let rest = ops.drop_last();
        match ops.last() {
            Op::Doc(e, m) => if e == d { Some(m) } else { last_doc(rest, d) },
            Op::Drop(e) => if e == d { None } else { last_doc(rest, d) },
            Op::Len(_, _, _) => last_doc(rest, d),
        }
    }
}
/// the field length last recorded for (d, f) and not discarded by a removal of the stored d since
pub open spec fn last_len(ops: Seq<Op>, d: String, f: String) -> Option<usize>
    decreases ops.len()
{
    if ops.len() == 0 { None }
    else {
        let rest = ops.drop_last();
        match ops.last() {
            Op::Doc(_, _) => last_len(rest, d, f),
            Op::Drop(e) => if e == d && last_doc(rest, d) is Some { None } else { last_len(rest, d, f) },
            Op::Len(e, g, n) => if e == d && g == f { Some(n) } else { last_len(rest, d, f) },
        }
    }
}
pub proof fn lemma_history_prefix(s: Seq<DocumentStore>, ops: Seq<Op>)
    requires history(s, ops), ops.len() > 0,
    ensures history(s.drop_last(), ops.drop_last()), step(s[ops.len() - 1], ops.last(), s.last()), s.drop_last().last() == s[ops.len() - 1], s.drop_last()[0] == s[0],
{
    let (u, o) = (s.drop_last(), ops.drop_last());
    assert forall|i: int| 0 <= i < o.len() implies step(#[trigger] u[i], o[i], u[i + 1]) by { assert(step(s[i], ops[i], s[i + 1])); }
    assert(step(s[ops.len() - 1], ops[ops.len() - 1], s[ops.len() as int]));
}
/// C04: stored exactly when added and not removed since; the lengths agree
pub proof fn theorem_store(s: Seq<DocumentStore>, ops: Seq<Op>, d: String)
    requires history(s, ops),
    ensures
        stored(s.last(), d) <==> last_doc(ops, d) is Some,
        s.last().length == s.last().docs@.dom().len(),
    decreases ops.len(),
{
    if ops.len() > 0 { lemma_history_prefix(s, ops); theorem_store(s.drop_last(), ops.drop_last(), d); }
    assert(swf(s.last()));
}
/// C05: content is the last stored fields, or empty everywhere; the saving mode never changes
pub proof fn theorem_content(s: Seq<DocumentStore>, ops: Seq<Op>, d: String)
    requires history(s, ops), stored(s.last(), d),
    ensures
        s.last().save == s[0].save,
        last_doc(ops, d) is Some,
        content(s.last(), d) == if s[0].save { last_doc(ops, d).unwrap() } else { Map::empty() },
    decreases ops.len(),
{
    theorem_store(s, ops, d);
    theorem_save(s, ops);
    if ops.len() > 0 {
        lemma_history_prefix(s, ops);
        if stored(s.drop_last().last(), d) { theorem_content(s.drop_last(), ops.drop_last(), d); }
    }
}
pub proof fn theorem_save(s: Seq<DocumentStore>, ops: Seq<Op>)
    requires history(s, ops),
    ensures s.last().save == s[0].save,
    decreases ops.len(),
{
    if ops.len() > 0 { lemma_history_prefix(s, ops); theorem_save(s.drop_last(), ops.drop_last()); }
}
/// C06: the length kept for a pair is the last one recorded, and a removed document keeps none
pub proof fn theorem_lengths(s: Seq<DocumentStore>, ops: Seq<Op>, d: String, f: String)
    requires history(s, ops),
    ensures kept(s.last(), d, f) == last_len(ops, d, f),
    decreases ops.len(),
{
    if ops.len() > 0 {
        lemma_history_prefix(s, ops);
        theorem_lengths(s.drop_last(), ops.drop_last(), d, f);
        theorem_store(s.drop_last(), ops.drop_last(), d);
        theorem_store(s.drop_last(), ops.drop_last(), f);
    }
}
}
fn main() {}
