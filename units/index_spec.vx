// ---------------------------------------------------------------------------------------------
// what a builder and an index mean
// ---------------------------------------------------------------------------------------------
pub open spec fn has_field(fs: Seq<String>, f: Seq<char>) -> bool { fs.contains(mk(f)) }
/// the builder's invariant: no field twice, one tokenizer slot per field
pub open spec fn bwf(b: IndexBuilder) -> bool { b.fields@.no_duplicates() && b.field_tokenizers@.len() == b.fields@.len() }
pub open spec fn field_added(a: IndexBuilder, b: IndexBuilder, f: Seq<char>, t: Tokenizer) -> bool {
    &&& b.fields@ == a.fields@.push(mk(f))
    &&& b.field_tokenizers@ == a.field_tokenizers@.push(t)
    &&& b.save == a.save && b.ref_field == a.ref_field && b.pipeline == a.pipeline && b.language == a.language
}
/// the index's invariant
pub open spec fn iwf(x: Index) -> bool {
    &&& x.fields@.no_duplicates()
    &&& x.field_tokenizers@.len() == x.fields@.len()
    &&& forall|f: String| #[trigger] x.index@.contains_key(f) <==> x.fields@.contains(f)
    &&& forall|f: String| #[trigger] x.index@.contains_key(f) ==> wf(x.index@[f].root)
    &&& swf(x.document_store)
}
/// what `build` makes
pub open spec fn built(b: IndexBuilder, x: Index) -> bool {
    &&& x.fields == b.fields && x.field_tokenizers == b.field_tokenizers && x.ref_field == b.ref_field && x.lang == b.language
    &&& x.version@ == "0.9.5"@
    &&& match b.pipeline { Some(p) => x.pipeline == p, None => b.language.lpipe(x.pipeline.queue@) }
    &&& x.document_store.save == b.save
    &&& empty_index(x)
}
/// the texts a value yields when iterated
pub open spec fn texts<I: IntoIterator>(d: I) -> Seq<Seq<char>> where I::Item: AsRef<str> {
    items(d).map_values(|x: I::Item| x.as_ref_spec()@)
}
pub open spec fn fields_added(a: IndexBuilder, b: IndexBuilder, fs: Seq<Seq<char>>) -> bool {
    &&& b.fields@ == a.fields@ + fs.map_values(|f: Seq<char>| mk(f))
    &&& b.field_tokenizers@ == a.field_tokenizers@ + Seq::new(fs.len(), |i: int| None::<TokenizerFn>)
    &&& b.save == a.save && b.ref_field == a.ref_field && b.pipeline == a.pipeline && b.language == a.language
}
pub open spec fn fresh_builder(b: IndexBuilder) -> bool {
    b.save && b.fields@.len() == 0 && b.field_tokenizers@.len() == 0 && b.ref_field@ == "id"@ && b.pipeline is None
}
/// a new index with the given fields and otherwise default settings
pub open spec fn index_of(x: Index, fs: Seq<Seq<char>>) -> bool {
    &&& x.fields@ == fs.map_values(|f: Seq<char>| mk(f))
    &&& x.field_tokenizers@ == Seq::new(fs.len(), |i: int| None::<TokenizerFn>)
    &&& x.ref_field@ == "id"@ && x.version@ == "0.9.5"@ && x.document_store.save
    &&& x.lang.lpipe(x.pipeline.queue@)
    &&& empty_index(x)
}
pub open spec fn empty_index(x: Index) -> bool {
    &&& forall|f: String| #[trigger] x.index@.contains_key(f) <==> x.fields@.contains(f)
    &&& forall|f: String| #[trigger] x.index@.contains_key(f) ==> empty_item(x.index@[f].root)
    &&& forall|d: String| !#[trigger] stored(x.document_store, d)
    &&& forall|d: String, f: String| #[trigger] kept(x.document_store, d, f) is None
}
pub open spec fn occ(ys: Seq<Seq<char>>, t: Seq<char>) -> nat
    decreases ys.len()
{ if ys.len() == 0 { 0 } else { occ(ys.drop_last(), t) + if ys.last() == t { 1nat } else { 0nat } } }
pub open spec fn tf_of(n: nat) -> TermFrequency { TermFrequency { term_freq: sqrt_f64(f64_of(n as int)) } }
/// what tokens `ys` of document d do to a field's trie
pub open spec fn tallied(x: IndexItem, y: IndexItem, d: String, ys: Seq<Seq<char>>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] tdocs(y, t) == if t.len() > 0 && occ(ys, t) > 0 { tdocs(x, t).insert(d, tf_of(occ(ys, t))) } else { tdocs(x, t) }
    &&& forall|t: Seq<char>| #[trigger] present(y, t) <==> present(x, t) || exists|s: Seq<char>| occ(ys, s) > 0 && #[trigger] prefix(t, s)
}
/// the index can turn field i's text into tokens `ys`
pub open spec fn yields(x: Index, i: int, text: Seq<char>, ys: Seq<Seq<char>>) -> bool {
    exists|ts: Seq<Seq<char>>| #[trigger] pipe_yields(x.pipeline.queue@, ts, ys) && match x.field_tokenizers@[i] { Some(f) => tokrel(f, text, ts), None => x.lang.ltok(text, ts) }
}
pub open spec fn same_settings(a: Index, b: Index) -> bool {
    b.fields == a.fields && b.field_tokenizers == a.field_tokenizers && b.pipeline == a.pipeline && b.ref_field == a.ref_field && b.version == a.version && b.lang == a.lang && b.document_store.save == a.document_store.save
}
/// what the tokens `ys` of the texts supplied for the first fields do to the tries and lengths
pub open spec fn fields_indexed(a: Index, b: Index, d: String, vals: Seq<Seq<char>>, ys: Seq<Seq<Seq<char>>>) -> bool {
    &&& ys.len() == vals.len()
    &&& forall|f: String| #[trigger] b.index@.contains_key(f) <==> a.index@.contains_key(f)
    &&& forall|i: int| 0 <= i < a.fields@.len() ==> if i < vals.len() && a.fields@[i] != a.ref_field {
            &&& yields(a, i, vals[i], ys[i])
            &&& tallied(a.index@[a.fields@[i]].root, b.index@[a.fields@[i]].root, d, ys[i])
            &&& kept(b.document_store, d, a.fields@[i]) == Some(ys[i].len() as usize)
            &&& ys[i].len() <= usize::MAX
        } else { b.index@[(#[trigger] a.fields@[i])] == a.index@[a.fields@[i]] }
    &&& forall|e: String, f: String| e != d || f == a.ref_field || !a.fields@.take(vals.len() as int).contains(f) ==> #[trigger] kept(b.document_store, e, f) == kept(a.document_store, e, f)
}
/// the stored form of a document: the reference, then each field's text
pub open spec fn doc_fields(r: String, d: String, fs: Seq<String>, vals: Seq<Seq<char>>) -> Map<String, String>
    decreases vals.len()
{
    if vals.len() == 0 || vals.len() > fs.len() { Map::empty().insert(r, d) } else { doc_fields(r, d, fs, vals.drop_last()).insert(fs[vals.len() - 1], mk(vals.last())) }
}
pub open spec fn doc_stored(a: Index, b: Index, d: String, vals: Seq<Seq<char>>) -> bool {
    &&& stored(b.document_store, d)
    &&& content(b.document_store, d) == if a.document_store.save { doc_fields(a.ref_field, d, a.fields@, vals) } else { Map::empty() }
    &&& other_docs_same(a.document_store, b.document_store, d)
}
/// entries of the count table seen so far
pub open spec fn keyed(s: Seq<(&String, &u64)>, t: Seq<char>) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0@ == t }
pub open spec fn part(x: IndexItem, y: IndexItem, d: String, m: Map<String, u64>, s: Seq<(&String, &u64)>) -> bool {
    &&& forall|t: Seq<char>| #[trigger] tdocs(y, t) == if t.len() > 0 && keyed(s, t) { tdocs(x, t).insert(d, tf_of(m[mk(t)] as nat)) } else { tdocs(x, t) }
    &&& forall|t: Seq<char>| #[trigger] present(y, t) <==> present(x, t) || exists|u: Seq<char>| keyed(s, u) && #[trigger] prefix(t, u)
}
pub open spec fn counts(m: Map<String, u64>, ys: Seq<Seq<char>>) -> bool {
    &&& forall|s: String| #[trigger] m.contains_key(s) <==> occ(ys, s@) > 0
    &&& forall|s: String| #[trigger] m.contains_key(s) ==> m[s] == occ(ys, s@)
}
pub proof fn lemma_occ_le(ys: Seq<Seq<char>>, t: Seq<char>)
    ensures occ(ys, t) <= ys.len(),
    decreases ys.len(),
{ if ys.len() > 0 { lemma_occ_le(ys.drop_last(), t); } }
pub proof fn lemma_occ_index(v: Seq<String>, t: Seq<char>) -> (i: int)
    requires occ(views(v), t) > 0,
    ensures 0 <= i < v.len(), v[i]@ == t,
    decreases v.len(),
{
    assert(views(v).drop_last() =~= views(v.drop_last()));
    if v.last()@ == t { v.len() - 1 } else { lemma_occ_index(v.drop_last(), t) }
}
pub proof fn lemma_part_step(x: IndexItem, y: IndexItem, z: IndexItem, d: String, m: Map<String, u64>, s: Seq<(&String, &u64)>, k: int)
    requires 0 <= k < s.len(), part(x, y, d, m, s.take(k)), m[*s[k].0] == *s[k].1,
        added(y, z, d, s[k].0@, sqrt_f64(f64_of(*s[k].1 as int))),
    ensures part(x, z, d, m, s.take(k + 1)),
{
    let (a, b) = (s.take(k), s.take(k + 1));
    let w = s[k].0@;
    assert(mk(w) == *s[k].0);
    assert forall|t: Seq<char>| #[trigger] keyed(b, t) <==> keyed(a, t) || t == w by {
        if keyed(a, t) { let j = choose|j: int| 0 <= j < a.len() && (#[trigger] a[j]).0@ == t; assert(b[j].0@ == t); }
        if t == w { assert(b[k].0@ == t); }
        if keyed(b, t) { let j = choose|j: int| 0 <= j < b.len() && (#[trigger] b[j]).0@ == t; if j < k { assert(a[j].0@ == t); } }
    }
    assert forall|t: Seq<char>| #[trigger] tdocs(z, t) == if t.len() > 0 && keyed(b, t) { tdocs(x, t).insert(d, tf_of(m[mk(t)] as nat)) } else { tdocs(x, t) } by {
        assert(tdocs(y, t) == if t.len() > 0 && keyed(a, t) { tdocs(x, t).insert(d, tf_of(m[mk(t)] as nat)) } else { tdocs(x, t) });
        if t == w && keyed(a, t) && t.len() > 0 { assert(tdocs(x, t).insert(d, tf_of(m[mk(t)] as nat)).insert(d, tf_of(m[mk(t)] as nat)) =~= tdocs(x, t).insert(d, tf_of(m[mk(t)] as nat))); }
    }
    assert forall|t: Seq<char>| #[trigger] present(z, t) <==> present(x, t) || exists|u: Seq<char>| keyed(b, u) && #[trigger] prefix(t, u) by {
        assert(present(y, t) <==> present(x, t) || exists|u: Seq<char>| keyed(a, u) && #[trigger] prefix(t, u));
        if exists|u: Seq<char>| keyed(a, u) && #[trigger] prefix(t, u) { let u = choose|u: Seq<char>| keyed(a, u) && #[trigger] prefix(t, u); assert(keyed(b, u) && prefix(t, u)); }
        if prefix(t, w) { assert(keyed(b, w) && prefix(t, w)); }
        if exists|u: Seq<char>| keyed(b, u) && #[trigger] prefix(t, u) { let u = choose|u: Seq<char>| keyed(b, u) && #[trigger] prefix(t, u); if u != w { assert(keyed(a, u)); } }
    }
}
pub proof fn lemma_part_done(x: IndexItem, y: IndexItem, d: String, m: Map<String, u64>, s: Seq<(&String, &u64)>, v: Seq<String>)
    requires part(x, y, d, m, s), counts(m, views(v)),
        forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0),
        forall|k: String| #[trigger] m.contains_key(k) ==> s.contains((&k, &m[k])),
    ensures tallied(x, y, d, views(v)),
{
    let ys = views(v);
    assert forall|t: Seq<char>| #[trigger] keyed(s, t) <==> occ(ys, t) > 0 by {
        if keyed(s, t) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0@ == t; assert(m.contains_key(*s[j].0)); }
        if occ(ys, t) > 0 {
            let i = lemma_occ_index(v, t);
            let k = v[i];
            assert(m.contains_key(k));
            let j = choose|j: int| 0 <= j < s.len() && s[j] == (&k, &m[k]);
            assert(s[j].0@ == t);
            assert(s.contains((&k, &m[k])));
        }
    }
}
pub proof fn lemma_part_none(x: IndexItem, d: String, m: Map<String, u64>, v: Seq<String>)
    requires m.dom().finite(), m.len() == 0, counts(m, views(v)),
    ensures tallied(x, x, d, views(v)),
{
    assert(m.dom() =~= Set::<String>::empty());
    assert forall|t: Seq<char>| #[trigger] occ(views(v), t) == 0 by { if occ(views(v), t) > 0 { let i = lemma_occ_index(v, t); assert(m.contains_key(v[i])); } }
}
/// the last entry
pub proof fn lemma_part_end(x: IndexItem, y: IndexItem, d: String, m: Map<String, u64>, s: Seq<(&String, &u64)>, e: int, v: Seq<String>)
    requires 0 <= e < s.len(), part(x, y, d, m, s.take(e + 1)), counts(m, views(v)),
        forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0),
        forall|k: String| #[trigger] m.contains_key(k) ==> s.contains((&k, &m[k])),
    ensures e + 1 == s.len() ==> tallied(x, y, d, views(v)),
{
    if e + 1 == s.len() { assert(s.take(e + 1) =~= s); lemma_part_done(x, y, d, m, s, v); }
}
pub proof fn lemma_fields_step(a: IndexBuilder, vs: Seq<Seq<char>>, k: int, c: IndexBuilder)
    requires 0 <= k < vs.len(),
        exists|b: IndexBuilder| fields_added(a, b, vs.take(k)) && #[trigger] field_added(b, c, vs[k], None),
    ensures fields_added(a, c, vs.take(k + 1)),
{
    let g = |f: Seq<char>| mk(f);
    assert(vs.take(k + 1) =~= vs.take(k).push(vs[k]));
    assert(vs.take(k + 1).map_values(g) =~= vs.take(k).map_values(g).push(mk(vs[k])));
    let n = |i: int| None::<TokenizerFn>;
    assert(Seq::new((k + 1) as nat, n) =~= Seq::new(k as nat, n).push(None));
    let b = choose|b: IndexBuilder| fields_added(a, b, vs.take(k)) && #[trigger] field_added(b, c, vs[k], None);
    assert(c.fields@ =~= a.fields@ + vs.take(k + 1).map_values(g));
    assert(c.field_tokenizers@ =~= a.field_tokenizers@ + Seq::new((k + 1) as nat, n));
}
pub proof fn lemma_doc_step(r: String, d: String, fs: Seq<String>, vals: Seq<Seq<char>>, k: int)
    requires 0 <= k < vals.len() <= fs.len(),
    ensures doc_fields(r, d, fs, vals.take(k + 1)) == doc_fields(r, d, fs, vals.take(k)).insert(fs[k], mk(vals[k])),
{
    assert(vals.take(k + 1).drop_last() =~= vals.take(k));
}
/// nothing indexed yet
pub proof fn lemma_index_start(a: Index, b: Index, d: String, vals: Seq<Seq<char>>)
    requires a == b, vals.len() == 0,
    ensures fields_indexed(a, b, d, vals, Seq::empty()), doc_fields(a.ref_field, d, a.fields@, vals) == Map::<String, String>::empty().insert(a.ref_field, d),
{ }
/// the reference field is stored but not indexed
pub proof fn lemma_field_skip(a: Index, b: Index, d: String, vals: Seq<Seq<char>>, k: int, ys: Seq<Seq<Seq<char>>>, y: Seq<Seq<char>>)
    requires 0 <= k < vals.len() <= a.fields@.len(), fields_indexed(a, b, d, vals.take(k), ys), a.fields@[k] == a.ref_field,
    ensures fields_indexed(a, b, d, vals.take(k + 1), ys.push(y)),
{
    let (v, w, zs) = (vals.take(k), vals.take(k + 1), ys.push(y));
    assert forall|i: int| 0 <= i < a.fields@.len() implies (if i < w.len() && a.fields@[i] != a.ref_field {
            &&& yields(a, i, w[i], zs[i])
            &&& tallied(a.index@[a.fields@[i]].root, b.index@[a.fields@[i]].root, d, zs[i])
            &&& kept(b.document_store, d, a.fields@[i]) == Some(zs[i].len() as usize)
            &&& zs[i].len() <= usize::MAX
        } else { b.index@[(#[trigger] a.fields@[i])] == a.index@[a.fields@[i]] }) by {
        if i < k { assert(w[i] == v[i] && zs[i] == ys[i]); }
    }
    assert forall|e: String, f: String| e != d || f == a.ref_field || !a.fields@.take(w.len() as int).contains(f) implies #[trigger] kept(b.document_store, e, f) == kept(a.document_store, e, f) by {
        if a.fields@.take(v.len() as int).contains(f) {
            let i = choose|i: int| 0 <= i < v.len() && a.fields@.take(v.len() as int)[i] == f;
            assert(a.fields@.take(w.len() as int)[i] == f);
        }
    }
}
/// one more field indexed
pub proof fn lemma_field_done(a: Index, b: Index, c: Index, d: String, vals: Seq<Seq<char>>, k: int, ys: Seq<Seq<Seq<char>>>, y: Seq<Seq<char>>)
    requires 0 <= k < vals.len() <= a.fields@.len(), a.fields@.no_duplicates(), fields_indexed(a, b, d, vals.take(k), ys), a.fields@[k] != a.ref_field,
        yields(a, k, vals[k], y), y.len() <= usize::MAX,
        tallied(b.index@[a.fields@[k]].root, c.index@[a.fields@[k]].root, d, y),
        forall|g: String| #[trigger] c.index@.contains_key(g) <==> b.index@.contains_key(g),
        forall|g: String| g != a.fields@[k] ==> #[trigger] c.index@[g] == b.index@[g],
        len_added(b.document_store, c.document_store, d, a.fields@[k], y.len() as usize),
    ensures fields_indexed(a, c, d, vals.take(k + 1), ys.push(y)),
{
    let (v, w, zs) = (vals.take(k), vals.take(k + 1), ys.push(y));
    let fs = a.fields@;
    assert(b.index@[fs[k]] == a.index@[fs[k]]);
    assert forall|i: int| 0 <= i < fs.len() implies (if i < w.len() && fs[i] != a.ref_field {
            &&& yields(a, i, w[i], zs[i])
            &&& tallied(a.index@[fs[i]].root, c.index@[fs[i]].root, d, zs[i])
            &&& kept(c.document_store, d, fs[i]) == Some(zs[i].len() as usize)
            &&& zs[i].len() <= usize::MAX
        } else { c.index@[(#[trigger] fs[i])] == a.index@[fs[i]] }) by {
        if i != k { assert(fs[i] != fs[k]); assert(c.index@[fs[i]] == b.index@[fs[i]]); }
        if i < k { assert(w[i] == v[i] && zs[i] == ys[i]); assert(kept(c.document_store, d, fs[i]) == kept(b.document_store, d, fs[i])); }
        if i == k { assert(kept(c.document_store, d, fs[k]) == Some(y.len() as usize)); }
    }
    assert forall|e: String, f: String| e != d || f == a.ref_field || !fs.take(w.len() as int).contains(f) implies #[trigger] kept(c.document_store, e, f) == kept(a.document_store, e, f) by {
        if fs.take(v.len() as int).contains(f) {
            let i = choose|i: int| 0 <= i < v.len() && fs.take(v.len() as int)[i] == f;
            assert(fs.take(w.len() as int)[i] == f);
        }
        assert(fs.take(w.len() as int)[k] == fs[k]);
        assert(kept(c.document_store, e, f) == kept(b.document_store, e, f));
    }
}
/// storing the document's fields afterwards
pub proof fn lemma_index_end(a: Index, m: Index, b: Index, d: String, vals: Seq<Seq<char>>, ys: Seq<Seq<Seq<char>>>)
    requires fields_indexed(a, m, d, vals, ys), b.index == m.index, same_lengths(m.document_store, b.document_store),
    ensures fields_indexed(a, b, d, vals, ys),
{
    assert forall|i: int| 0 <= i < a.fields@.len() implies (if i < vals.len() && a.fields@[i] != a.ref_field {
            &&& yields(a, i, vals[i], ys[i])
            &&& tallied(a.index@[a.fields@[i]].root, b.index@[a.fields@[i]].root, d, ys[i])
            &&& kept(b.document_store, d, a.fields@[i]) == Some(ys[i].len() as usize)
            &&& ys[i].len() <= usize::MAX
        } else { b.index@[(#[trigger] a.fields@[i])] == a.index@[a.fields@[i]] }) by {
        assert(kept(b.document_store, d, a.fields@[i]) == kept(m.document_store, d, a.fields@[i]));
    }
}
/// the whole call: every value handled, then the fields stored
pub proof fn lemma_doc_end(a: Index, m: Index, b: Index, d: String, vals: Seq<Seq<char>>, ys: Seq<Seq<Seq<char>>>)
    requires iwf(m), same_settings(a, m), m.document_store.docs == a.document_store.docs, fields_indexed(a, m, d, vals, ys),
        same_settings(m, b), b.index == m.index, swf(b.document_store),
        doc_added(m.document_store, b.document_store, d, doc_fields(a.ref_field, d, a.fields@, vals)),
    ensures iwf(b), same_settings(a, b), doc_stored(a, b, d, vals), fields_indexed(a, b, d, vals, ys),
{
    lemma_index_end(a, m, b, d, vals, ys);
    let (x, y, z) = (a.document_store, m.document_store, b.document_store);
    assert forall|e: String| e != d implies (#[trigger] stored(z, e) <==> stored(x, e)) && (stored(x, e) ==> content(z, e) == content(x, e)) by {
        assert(stored(z, e) <==> stored(y, e));
        assert(stored(y, e) <==> stored(x, e));
        assert(stored(y, e) ==> content(y, e) == content(x, e));
    }
    assert(other_docs_same(x, z, d));
    assert(y.save == x.save);
    assert(stored(z, d));
    assert(content(z, d) == if x.save { doc_fields(a.ref_field, d, a.fields@, vals) } else { Map::empty() });
}
