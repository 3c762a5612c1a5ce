#![feature(allocator_api)]
#![feature(slice_index_methods, fn_traits)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use std::collections::BTreeMap;
verus! {
broadcast use { vstd::utf8::group_utf8_lib, vxmap::group_map, vxstd::group_std, vstd::std_specs::btree::group_btree_axioms };
//@include ext_map.vx
//@include ext_opt.vx
//@include ext_std.vx

//@struct src/inverted_index.rs TermFrequency attr=derive(Clone,Copy)
//@struct src/inverted_index.rs IndexItem
//@struct src/inverted_index.rs InvertedIndex
//@include trie_spec.vx

pub proof fn lemma_node_append(n: IndexItem, p: Seq<char>, s: Seq<char>)
    ensures node(n, p + s) == (match node(n, p) { Some(x) => node(x, s), None => None::<IndexItem> }),
    decreases p.len()
{
    if p.len() == 0 { assert(p + s =~= s); }
    else {
        assert((p + s)[0] == p[0]);
        assert((p + s).drop_first() =~= p.drop_first() + s);
        if n.children@.contains_key(p[0]) { lemma_node_append(n.children@[p[0]], p.drop_first(), s); }
    }
}
pub proof fn lemma_node_step(n: IndexItem, t: Seq<char>)
    requires t.len() > 0,
    ensures node(n, t) == (if n.children@.contains_key(t[0]) { node(n.children@[t[0]], t.drop_first()) } else { None }),
{ }

/// the cursor `x` stands at path `p` of `a` (a fresh empty node where `a` has none)
pub open spec fn at_cursor(a: IndexItem, p: Seq<char>, x: IndexItem) -> bool {
    match node(a, p) { Some(y) => y == x, None => empty_item(x) }
}
/// `b` is `a` with the node at path `p` replaced by `x` (and the path to it created)
pub open spec fn upd(a: IndexItem, p: Seq<char>, x: IndexItem, b: IndexItem) -> bool {
    &&& forall|s: Seq<char>| #[trigger] node(b, p + s) == node(x, s)
    &&& forall|t: Seq<char>| prefix(t, p) && t != p ==> present(b, t)
    &&& forall|t: Seq<char>| !prefix(p, t) && !prefix(t, p) ==> #[trigger] present(b, t) == present(a, t)
    &&& forall|t: Seq<char>| !prefix(p, t) ==> #[trigger] tdocs(b, t) == tdocs(a, t)
    &&& forall|t: Seq<char>| !prefix(p, t) ==> #[trigger] tdf(b, t) == tdf(a, t)
}
pub proof fn lemma_upd_start(a: IndexItem, x: IndexItem)
    ensures upd(a, Seq::empty(), x, x), at_cursor(a, Seq::empty(), a),
{
    assert forall|s: Seq<char>| #[trigger] node(x, Seq::<char>::empty() + s) == node(x, s) by { assert(Seq::<char>::empty() + s =~= s); }
    assert forall|t: Seq<char>| prefix(Seq::empty(), t) by { assert(t.take(0) =~= Seq::empty()); }
}
/// one step of the cursor: the node at `p` is `cur`; its child `c` becomes `y`
pub proof fn lemma_upd_step(a: IndexItem, p: Seq<char>, cur: IndexItem, fin: IndexItem, b: IndexItem, c: char, child: IndexItem, y: IndexItem)
    requires
        at_cursor(a, p, cur), upd(a, p, fin, b),
        fin.docs == cur.docs, fin.doc_freq == cur.doc_freq, fin.children@ == cur.children@.insert(c, y),
        cur.children@.contains_key(c) ==> child == cur.children@[c], !cur.children@.contains_key(c) ==> empty_item(child),
    ensures
        at_cursor(a, p.push(c), child), upd(a, p.push(c), y, b),
{
    let q = p.push(c);
    let one = seq![c];
    assert(q =~= p + one);
    lemma_node_append(a, p, one);
    assert(one.drop_first() =~= Seq::<char>::empty());
    lemma_node_step(cur, one);
    assert(at_cursor(a, q, child)) by {
        if node(a, p) is Some { if cur.children@.contains_key(c) { assert(node(cur.children@[c], Seq::<char>::empty()) == Some(child)); } }
    }
    assert forall|s: Seq<char>| #[trigger] node(b, q + s) == node(y, s) by {
        let r = one + s;
        assert(q + s =~= p + r);
        assert(node(b, p + r) == node(fin, r));
        assert(r[0] == c && r.drop_first() =~= s);
    }
    assert forall|t: Seq<char>| prefix(t, q) && t != q implies present(b, t) by {
        if t.len() == q.len() { assert(t =~= q.take(t.len() as int)); assert(q.take(q.len() as int) =~= q); assert(false); }
        assert(q.take(t.len() as int) =~= p.take(t.len() as int));
        assert(prefix(t, p));
        if t == p { assert(p + Seq::<char>::empty() =~= p); assert(node(b, p + Seq::<char>::empty()) == node(fin, Seq::empty())); }
    }
    assert forall|t: Seq<char>| !prefix(q, t) implies tdocs(b, t) == tdocs(a, t) && tdf(b, t) == tdf(a, t) && (!prefix(t, q) ==> present(b, t) == present(a, t)) by {
        if prefix(p, t) {
            let s = t.skip(p.len() as int);
            assert(t =~= p + s);
            assert(node(b, p + s) == node(fin, s));
            lemma_node_append(a, p, s);
            if s.len() == 0 {
                assert(t =~= p);
                assert(q.take(t.len() as int) =~= p);
                assert(prefix(t, q));
            } else {
                if s[0] == c { assert(t.take(q.len() as int) =~= q); assert(prefix(q, t)); }
                assert(node(fin, s) == node(cur, s)) by { lemma_node_step(fin, s); lemma_node_step(cur, s); }
            }
        } else {
            if prefix(t, p) { assert(q.take(t.len() as int) =~= p.take(t.len() as int)); }
        }
    }
}
/// the insertion is complete: the node at `token` was updated in place
pub proof fn lemma_upd_added(a: IndexItem, token: Seq<char>, cur: IndexItem, fin: IndexItem, b: IndexItem, doc: String, tf: f64)
    requires token.len() > 0, at_cursor(a, token, cur), upd(a, token, fin, b), fin.children == cur.children,
        fin.docs@ == cur.docs@.insert(doc, TermFrequency { term_freq: tf }),
    ensures added(a, b, doc, token, tf), tdf(a, token) == cur.doc_freq, tdocs(a, token) == cur.docs@, tdf(b, token) == fin.doc_freq, tdocs(b, token) == fin.docs@,
{
    let e = Seq::<char>::empty();
    assert(token + e =~= token);
    assert(node(b, token + e) == node(fin, e));
    assert(token.take(token.len() as int) =~= token);
    assert forall|t: Seq<char>| #[trigger] present(b, t) <==> present(a, t) || prefix(t, token) by {
        if prefix(token, t) {
            let s = t.skip(token.len() as int);
            assert(t =~= token + s);
            assert(node(b, token + s) == node(fin, s));
            lemma_node_append(a, token, s);
            if s.len() > 0 { lemma_node_step(fin, s); lemma_node_step(cur, s); assert(t.len() > token.len()); }
            else { assert(t =~= token); }
        } else if prefix(t, token) { assert(t != token); }
    }
    assert forall|t: Seq<char>| t != token implies tdocs(b, t) == tdocs(a, t) && tdf(b, t) == tdf(a, t) by {
        if prefix(token, t) {
            let s = t.skip(token.len() as int);
            assert(t =~= token + s);
            assert(node(b, token + s) == node(fin, s));
            lemma_node_append(a, token, s);
            if s.len() == 0 { assert(t =~= token); }
            lemma_node_step(fin, s); lemma_node_step(cur, s);
        }
    }
}
pub proof fn lemma_added_wf(a: IndexItem, b: IndexItem, doc: String, token: Seq<char>, tf: f64)
    requires added(a, b, doc, token, tf), wf(a), token.len() > 0, tdf(b, token) == tdf(a, token) + (if tdocs(a, token).contains_key(doc) { 0int } else { 1 }),
    ensures wf(b),
{
    assert forall|t: Seq<char>| #[trigger] tdf(b, t) == tdocs(b, t).len() by {
        assert(tdf(a, t) == tdocs(a, t).len());
        assert(t == token || tdocs(b, t) == tdocs(a, t));
    }
}
/// `removed` at one path
pub open spec fn removed_at(a: IndexItem, b: IndexItem, doc: String, token: Seq<char>, t: Seq<char>) -> bool {
    &&& present(b, t) <==> present(a, t)
    &&& t == token && token.len() > 0 ==> tdocs(b, t) == tdocs(a, t).remove(doc)
    &&& t != token || token.len() == 0 ==> tdocs(b, t) == tdocs(a, t) && tdf(b, t) == tdf(a, t)
}
pub proof fn lemma_removed_each(a: IndexItem, b: IndexItem, doc: String, token: Seq<char>)
    requires forall|t: Seq<char>| #[trigger] removed_at(a, b, doc, token, t),
    ensures removed(a, b, doc, token),
{
    assert forall|t: Seq<char>| #[trigger] present(b, t) <==> present(a, t) by { assert(removed_at(a, b, doc, token, t)); }
    assert forall|t: Seq<char>| t == token && token.len() > 0 implies #[trigger] tdocs(b, t) == tdocs(a, t).remove(doc) by { assert(removed_at(a, b, doc, token, t)); }
    assert forall|t: Seq<char>| t != token || token.len() == 0 implies #[trigger] tdocs(b, t) == tdocs(a, t) by { assert(removed_at(a, b, doc, token, t)); }
    assert forall|t: Seq<char>| t != token || token.len() == 0 implies #[trigger] tdf(b, t) == tdf(a, t) by { assert(removed_at(a, b, doc, token, t)); }
}
/// removal inside the child `c`
pub proof fn lemma_removed_child(a: IndexItem, b: IndexItem, c: char, x: IndexItem, y: IndexItem, doc: String, token: Seq<char>)
    requires
        token.len() > 0, token[0] == c, a.children@.contains_key(c), a.children@[c] == x, b.docs == a.docs, b.doc_freq == a.doc_freq, b.children@ == a.children@.insert(c, y),
        token.len() > 1 ==> removed(x, y, doc, token.drop_first()),
        token.len() == 1 ==> y.children == x.children && y.docs@ == x.docs@.remove(doc),
    ensures removed(a, b, doc, token),
        tdf(b, token) == tdf(y, token.drop_first()), tdf(a, token) == tdf(x, token.drop_first()),
        tdocs(b, token) == tdocs(y, token.drop_first()), tdocs(a, token) == tdocs(x, token.drop_first()),
{
    let tail = token.drop_first();
    assert(token =~= seq![c] + tail);
    lemma_node_step(a, token); lemma_node_step(b, token);
    assert forall|t: Seq<char>| #[trigger] removed_at(a, b, doc, token, t) by {
        if t.len() > 0 {
            lemma_node_step(a, t); lemma_node_step(b, t);
            if t[0] == c {
                let s = t.drop_first();
                assert(t =~= seq![c] + s);
                assert((t == token) <==> (s == tail));
                if token.len() > 1 {
                    assert(present(y, s) <==> present(x, s));
                    if s == tail { assert(tdocs(y, s) == tdocs(x, s).remove(doc)); }
                    else { assert(tdocs(y, s) == tdocs(x, s)); assert(tdf(y, s) == tdf(x, s)); }
                } else if s.len() > 0 { lemma_node_step(y, s); lemma_node_step(x, s); }
                else { assert(s =~= tail); }
            }
        }
    }
    lemma_removed_each(a, b, doc, token);
}
pub proof fn lemma_child_wf(a: IndexItem, c: char)
    requires wf(a), a.children@.contains_key(c),
    ensures wf(a.children@[c]),
{
    let x = a.children@[c];
    assert forall|t: Seq<char>| #[trigger] tdf(x, t) == tdocs(x, t).len() by {
        let u = seq![c] + t;
        assert(u.drop_first() =~= t);
        lemma_node_step(a, u);
        assert(tdf(a, u) == tdocs(a, u).len());
    }
}
pub proof fn lemma_removed_wf(a: IndexItem, b: IndexItem, doc: String, token: Seq<char>)
    requires removed(a, b, doc, token), wf(a), token.len() > 0 ==> tdf(b, token) == tdocs(b, token).len(),
    ensures wf(b),
{
    assert forall|t: Seq<char>| #[trigger] tdf(b, t) == tdocs(b, t).len() by {
        assert(tdf(a, t) == tdocs(a, t).len());
        assert(t == token || tdocs(b, t) == tdocs(a, t));
    }
}
/// nothing to remove
pub proof fn lemma_removed_same(a: IndexItem, b: IndexItem, doc: String, token: Seq<char>)
    requires token.len() == 0 || !tdocs(a, token).contains_key(doc), b.docs == a.docs, b.doc_freq == a.doc_freq, b.children@ == a.children@,
    ensures removed(a, b, doc, token), wf(a) ==> wf(b),
{
    assert forall|t: Seq<char>| #[trigger] removed_at(a, b, doc, token, t) && tdocs(b, t) == tdocs(a, t) && tdf(b, t) == tdf(a, t) by {
        if t.len() > 0 { lemma_node_step(a, t); lemma_node_step(b, t); }
        if t == token { assert(tdocs(a, t) =~= tdocs(a, t).remove(doc) || t.len() == 0); }
    }
    lemma_removed_each(a, b, doc, token);
    if wf(a) { assert forall|t: Seq<char>| #[trigger] tdf(b, t) == tdocs(b, t).len() by { assert(removed_at(a, b, doc, token, t)); assert(tdf(a, t) == tdocs(a, t).len()); } }
}
/// the second character starts where the first one ends
pub proof fn lemma_second_char(t: Seq<char>)
    requires t.len() > 1, encode_utf8(t).len() <= usize::MAX,
    ensures
        ci_seq(t).len() == t.len(), ci_seq(t)[0].1 == t[0],
        ({ let k = ci_seq(t)[1].0 as int; 0 <= k <= encode_utf8(t).len() && is_char_boundary(encode_utf8(t), k) && encode_utf8(t).subrange(k, encode_utf8(t).len() as int) == encode_utf8(t.drop_first()) }),
{
    let h = t.take(1);
    let r = t.drop_first();
    assert(t =~= h + r);
    encode_utf8_concat(h, r);
    let k = ci_seq(t)[1].0 as int;
    assert(k == encode_utf8(h).len());
    assert(encode_utf8(t).subrange(k, encode_utf8(t).len() as int) =~= encode_utf8(r));
}

/// equal bytes, equal text
pub proof fn lemma_utf8_inj(a: Seq<char>, b: Seq<char>)
    requires encode_utf8(a) == encode_utf8(b),
    ensures a == b,
{ encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }

//@default src/inverted_index.rs IndexItem
//@spec
    ensures empty_item(r),
//@end
impl IndexItem {
//@fn src/inverted_index.rs IndexItem::add_token
//@spec
    requires wf(*old(self)),
    ensures added(*old(self), *final(self), mk(doc_ref@), token@, term_freq), wf(*final(self)),
//@at begin
    let ghost a = *old(self); let ghost doc = mk(doc_ref@); let ghost mut done = Seq::<char>::empty();
//@at before-loop 0
    let ghost b = *after_borrow(self);
    proof {
        lemma_upd_start(a, b);
        lemma_upd_step(a, done, a, b, b, token@[0], *$asg0, *final($asg0));
        done = done.push(token@[0]);
    }
//@loop 0 for
    invariant it0.seq() == token@.drop_first(), 0 <= it0.index() <= it0.seq().len(), token@.len() > 0,
        done == token@.take(it0.index() + 1),
        at_cursor(a, done, *$asg0), upd(a, done, *final($asg0), b),
//@at in-loop 0
    let ghost cur0 = *$asg0; let ghost fin0 = *final($asg0);
//@at end-loop 0
    proof {
        lemma_upd_step(a, done, cur0, fin0, b, $pat0, *$asg0, *final($asg0));
        done = done.push($pat0);
    }
//@at after-loop 0
    let ghost cur = *$asg0; let ghost fin = *final($asg0);
    proof {
        assert(done =~= token@);
        assert(tdf(a, done) == tdocs(a, done).len());
        assert(cur.doc_freq == cur.docs@.len());
    }
//@at block-end 0
    proof {
        lemma_upd_added(a, token@, cur, fin, b, doc, term_freq);
        lemma_added_wf(a, b, doc, token@, term_freq);
    }
//@end
//@alt src/inverted_index.rs IndexItem::add_token
//@at begin
    let ghost a = *old(self); let ghost doc = mk(doc_ref@); let ghost mut done = Seq::<char>::empty(); let ghost b0 = *final(self);
    proof { lemma_upd_start(a, *final(self)); }
//@loop 0 for
    invariant it0.seq() == token@, 0 <= it0.index() <= it0.seq().len(), token@.len() > 0,
        done == token@.take(it0.index() as int),
        at_cursor(a, done, *$asg0), upd(a, done, *final($asg0), b0),
//@at in-loop 0
    let ghost cur0 = *$asg0; let ghost fin0 = *final($asg0);
//@at end-loop 0
    proof {
        lemma_upd_step(a, done, cur0, fin0, b0, $pat0, *$asg0, *final($asg0));
        done = done.push($pat0);
    }
//@at after-loop 0
    let ghost cur = *$asg0; let ghost fin = *final($asg0);
    proof {
        assert(done =~= token@);
        assert(tdf(a, done) == tdocs(a, done).len());
        assert(cur.doc_freq == cur.docs@.len());
    }
//@at block-end 0
    proof {
        lemma_upd_added(a, token@, cur, fin, b0, doc, term_freq);
        lemma_added_wf(a, b0, doc, token@, term_freq);
    }
//@end

//@fn src/inverted_index.rs IndexItem::get_node
//@spec
    ensures r.is_some() ==> node(*self, token@) == Some(*r.unwrap()),
        r.is_none() ==> node(*self, token@) is None,
//@loop 0 for
    invariant it0.seq() == token@, 0 <= it0.index() <= token@.len(), node(*self, token@.take(it0.index() as int)) == Some(*$asg0),
//@at in-loop 0
    proof {
        let k = it0.index() as int;
        lemma_node_append(*self, token@.take(k), token@.skip(k));
        assert(token@ =~= token@.take(k) + token@.skip(k));
        lemma_node_append(*self, token@.take(k), seq![$pat0]);
        assert(token@.take(k + 1) =~= token@.take(k) + seq![$pat0]);
        lemma_node_step(*$asg0, token@.skip(k));
        lemma_node_step(*$asg0, seq![$pat0]);
        assert(seq![$pat0].drop_first() =~= Seq::<char>::empty());
    }
//@at after-loop 0
    proof { assert(token@.take(token@.len() as int) =~= token@); }
//@end

//@fn src/inverted_index.rs IndexItem::remove_token
//@spec
    requires wf(*old(self)),
    ensures removed(*old(self), *final(self), mk(doc_ref@), token@), wf(*final(self)),
    decreases token@.len(),
//@at begin
    let ghost a = *old(self); let ghost doc = mk(doc_ref@);
    proof {
        assert(token.spec_bytes().len() <= usize::MAX);
        
        if token@.len() > 1 { lemma_second_char(token@); }
        let tail = token@.drop_first();
        assert forall|u: &str| (#[trigger] u.spec_bytes()) == encode_utf8(tail) implies u@ == tail by { lemma_utf8_inj(u@, tail); }
        assert(token@.len() > 0 ==> a.children@.contains_key(token@[0]) || tdocs(a, token@) == Map::<String, TermFrequency>::empty());
        assert(tdf(a, token@) == tdocs(a, token@).len());
        assert forall|c: char| #[trigger] a.children@.contains_key(c) implies wf(a.children@[c]) && a.children@[c].doc_freq == a.children@[c].docs@.len() by {
            lemma_child_wf(a, c);
            assert(tdf(a.children@[c], Seq::empty()) == tdocs(a.children@[c], Seq::empty()).len());
        }
    }
//@at end
    proof {
        let b = *self;
        if token@.len() > 0 && a.children@.contains_key(token@[0]) {
            let c = token@[0];
            let x = a.children@[c]; let y = b.children@[c];
            assert(b.docs == a.docs && b.doc_freq == a.doc_freq);
            assert(b.children@ =~= a.children@.insert(c, y));
            if token@.len() == 1 {
               assert(y.children == x.children);
               assert(y.docs@ =~= x.docs@.remove(doc));
               assert(token@.drop_first() =~= Seq::<char>::empty());
               assert(tdf(x, Seq::empty()) == tdocs(x, Seq::empty()).len());
            } else { assert(tdf(y, token@.drop_first()) == tdocs(y, token@.drop_first()).len()); }
            lemma_removed_child(a, b, c, x, y, doc, token@);
            lemma_removed_wf(a, b, doc, token@);
        } else {
            lemma_removed_same(a, b, doc, token@);
        }
    }
//@end
}

// ---------------------------------------------------------------------------------------------
// the public type
// ---------------------------------------------------------------------------------------------
/// the value reported for (token, document)
pub open spec fn tfreq(n: IndexItem, doc: String, t: Seq<char>) -> f64 {
    if tdocs(n, t).contains_key(doc) { tdocs(n, t)[doc].term_freq } else { 0f64 }
}
/// the listing of a token's documents
pub open spec fn freqs(m: Map<String, f64>, d: Map<String, TermFrequency>) -> bool {
    &&& forall|k: String| #[trigger] m.contains_key(k) <==> d.contains_key(k)
    &&& forall|k: String| d.contains_key(k) ==> #[trigger] m[k] == d[k].term_freq
}
//@default src/inverted_index.rs InvertedIndex
//@spec
    ensures empty_item(r.root), wf(r.root),
//@at wrap
    proof { assert(empty_item(r.root)); lemma_empty_wf(r.root); }
//@end
pub proof fn lemma_empty_wf(n: IndexItem)
    requires empty_item(n),
    ensures wf(n), forall|t: Seq<char>| #[trigger] present(n, t) <==> t.len() == 0, forall|t: Seq<char>| #[trigger] tdocs(n, t) == Map::<String, TermFrequency>::empty(),
{
    assert forall|t: Seq<char>| t.len() > 0 implies (#[trigger] node(n, t)) is None by { lemma_node_step(n, t); }
}
impl InvertedIndex {
//@fn src/inverted_index.rs InvertedIndex::new
//@spec
    ensures empty_item(r.root), wf(r.root),
//@end
//@fn src/inverted_index.rs InvertedIndex::add_token
//@spec
    requires wf(old(self).root),
    ensures added(old(self).root, final(self).root, mk(doc_ref@), token@, term_freq), wf(final(self).root),
//@end
//@fn src/inverted_index.rs InvertedIndex::remove_token
//@spec
    requires wf(old(self).root),
    ensures removed(old(self).root, final(self).root, mk(doc_ref@), token@), wf(final(self).root),
//@end
//@fn src/inverted_index.rs InvertedIndex::has_token
//@spec
    ensures r == present(self.root, token@),
//@closure 0
types &IndexItem
-> (b: bool) ensures b
//@end
//@fn src/inverted_index.rs InvertedIndex::get_docs
//@spec
    ensures r.is_some() <==> present(self.root, token@),
        r.is_some() ==> freqs(r.unwrap()@, tdocs(self.root, token@)),
//@closure 0
types &IndexItem
-> (m: BTreeMap<String, f64>) ensures freqs(m@, node.docs@)
//@closure 1
types (&String, &TermFrequency)
-> (p: (String, f64)) ensures p == (*__c1_0.0, (*__c1_0.1).term_freq)
//@end
//@fn src/inverted_index.rs InvertedIndex::get_term_frequency
//@spec
    ensures r == tfreq(self.root, mk(doc_ref@), token@),
//@closure 0
types &IndexItem
-> (o: Option<&TermFrequency>) ensures o.is_some() <==> node.docs@.contains_key(mk(doc_ref@)), o.is_some() ==> *o.unwrap() == node.docs@[mk(doc_ref@)]
//@closure 1
types &TermFrequency
-> (x: f64) ensures x == docs.term_freq
//@end
//@fn src/inverted_index.rs InvertedIndex::get_doc_frequency
//@spec
    ensures r == tdf(self.root, token@),
//@closure 0
types &IndexItem
-> (x: i64) ensures x == node.doc_freq
//@end
}

// ---------------------------------------------------------------------------------------------
// every history of insertions and removals (C01, C02, C03)
// ---------------------------------------------------------------------------------------------
pub enum Op { Add(String, Seq<char>, f64), Remove(String, Seq<char>) }
/// one call, exactly as the contracts of InvertedIndex::add_token and ::remove_token describe it
pub open spec fn step(a: IndexItem, op: Op, b: IndexItem) -> bool {
    match op {
        Op::Add(d, t, x) => added(a, b, d, t, x) && wf(b),
        Op::Remove(d, t) => removed(a, b, d, t) && wf(b),
    }
}
pub open spec fn history(s: Seq<IndexItem>, ops: Seq<Op>) -> bool {
    &&& s.len() == ops.len() + 1
    &&& empty_item(s[0]) && wf(s[0])
    &&& forall|i: int| 0 <= i < ops.len() ==> step(#[trigger] s[i], ops[i], s[i + 1])
}
/// what the most recent operation on (d, t) recorded; None: nothing, or a removal
pub open spec fn last_op(ops: Seq<Op>, d: String, t: Seq<char>) -> Option<f64>
    decreases ops.len()
{
    if ops.len() == 0 { None }
    else {
        match ops.last() {
            Op::Add(d2, t2, x) => if d2 == d && t2 == t { Some(x) } else { last_op(ops.drop_last(), d, t) },
            Op::Remove(d2, t2) => if d2 == d && t2 == t { None } else { last_op(ops.drop_last(), d, t) },
        }
    }
}
pub open spec fn inserted_under(op: Op, t: Seq<char>) -> bool {
    match op { Op::Add(_, u, _) => prefix(t, u), Op::Remove(_, _) => false }
}
pub proof fn lemma_history_prefix(s: Seq<IndexItem>, ops: Seq<Op>)
    requires history(s, ops), ops.len() > 0,
    ensures history(s.drop_last(), ops.drop_last()), step(s[ops.len() - 1], ops.last(), s.last()), s.drop_last().last() == s[ops.len() - 1],
{
    let (u, o) = (s.drop_last(), ops.drop_last());
    assert forall|i: int| 0 <= i < o.len() implies step(#[trigger] u[i], o[i], u[i + 1]) by { assert(step(s[i], ops[i], s[i + 1])); }
    assert(step(s[ops.len() - 1], ops[ops.len() - 1], s[ops.len() as int]));
}
/// C01: an exact map from (token, document) to the frequency recorded last
pub proof fn theorem_exact_map(s: Seq<IndexItem>, ops: Seq<Op>, d: String, t: Seq<char>)
    requires history(s, ops),
    ensures
        t.len() == 0 ==> tdocs(s.last(), t) == Map::<String, TermFrequency>::empty(),
        t.len() > 0 ==> (tdocs(s.last(), t).contains_key(d) <==> last_op(ops, d, t) is Some),
        t.len() > 0 && last_op(ops, d, t) is Some ==> tfreq(s.last(), d, t) == last_op(ops, d, t).unwrap(),
        t.len() == 0 || last_op(ops, d, t) is None ==> tfreq(s.last(), d, t) == 0f64,
    decreases ops.len(),
{
    if ops.len() == 0 { lemma_empty_wf(s[0]); }
    else {
        lemma_history_prefix(s, ops);
        theorem_exact_map(s.drop_last(), ops.drop_last(), d, t);
        let a = s[ops.len() - 1]; let b = s.last();
        match ops.last() {
            Op::Add(d2, t2, x) => { assert(tdocs(b, t) == if t == t2 && t.len() > 0 { tdocs(a, t).insert(d2, TermFrequency { term_freq: x }) } else { tdocs(a, t) }); }
            Op::Remove(d2, t2) => { assert(tdocs(b, t) == if t == t2 && t.len() > 0 { tdocs(a, t).remove(d2) } else { tdocs(a, t) }); }
        }
    }
}
/// C02: document frequency is the number of listed documents
pub proof fn theorem_doc_frequency(s: Seq<IndexItem>, ops: Seq<Op>, t: Seq<char>)
    requires history(s, ops),
    ensures tdf(s.last(), t) == tdocs(s.last(), t).len(), !present(s.last(), t) ==> tdf(s.last(), t) == 0,
    decreases ops.len(),
{
    if ops.len() > 0 { lemma_history_prefix(s, ops); }
    assert(wf(s.last()));
    assert(tdf(s.last(), t) == tdocs(s.last(), t).len());
}
/// C03: presence is prefix-of-an-insertion, and what is absent is empty
pub proof fn theorem_presence(s: Seq<IndexItem>, ops: Seq<Op>, t: Seq<char>)
    requires history(s, ops),
    ensures
        present(s.last(), t) <==> t.len() == 0 || exists|i: int| 0 <= i < ops.len() && inserted_under(#[trigger] ops[i], t),
        !present(s.last(), t) ==> tdf(s.last(), t) == 0 && forall|d: String| #[trigger] tfreq(s.last(), d, t) == 0f64,
    decreases ops.len(),
{
    if ops.len() == 0 { lemma_empty_wf(s[0]); }
    else {
        lemma_history_prefix(s, ops);
        let (u, o) = (s.drop_last(), ops.drop_last());
        theorem_presence(u, o, t);
        let a = s[ops.len() - 1]; let b = s.last();
        assert(present(b, t) <==> present(a, t) || inserted_under(ops.last(), t));
        if present(b, t) && t.len() > 0 {
            if present(a, t) {
                let i = choose|i: int| 0 <= i < o.len() && inserted_under(#[trigger] o[i], t);
                assert(o[i] == ops[i]);
            }
            assert(exists|i: int| 0 <= i < ops.len() && inserted_under(#[trigger] ops[i], t));
        }
        if exists|i: int| 0 <= i < ops.len() && inserted_under(#[trigger] ops[i], t) {
            let i = choose|i: int| 0 <= i < ops.len() && inserted_under(#[trigger] ops[i], t);
            if i < o.len() { assert(o[i] == ops[i]); }
        }
    }
}
}
fn main() {}
