// ---------------------------------------------------------------------------------------------
// C25: histories of added documents
// ---------------------------------------------------------------------------------------------
/// one added document: its reference, the texts supplied for the first fields, the tokens they were turned into
pub ghost struct Rec { pub d: String, pub vals: Seq<Seq<char>>, pub ys: Seq<Seq<Seq<char>>> }
/// what Index::add_doc's contract says about adding it
pub open spec fn did(a: Index, b: Index, r: Rec) -> bool {
    iwf(b) && same_settings(a, b) && r.vals.len() <= a.fields@.len() && doc_stored(a, b, r.d, r.vals) && fields_indexed(a, b, r.d, r.vals, r.ys)
}
/// `x` is `x0` after adding the documents of `h`, in order
pub open spec fn ran(x0: Index, h: Seq<Rec>, x: Index) -> bool
    decreases h.len()
{
    if h.len() == 0 { x == x0 } else { exists|y: Index| ran(x0, h.drop_last(), y) && #[trigger] did(y, x, h.last()) }
}
/// field i of the document is tokenised
pub open spec fn uses(fs: Seq<String>, rf: String, r: Rec, i: int) -> bool { 0 <= i < fs.len() && i < r.vals.len() && fs[i] != rf }
pub open spec fn hits(fs: Seq<String>, rf: String, r: Rec, i: int, t: Seq<char>) -> bool { uses(fs, rf, r, i) && t.len() > 0 && occ(r.ys[i], t) > 0 }
pub open spec fn touches(fs: Seq<String>, rf: String, r: Rec, i: int, t: Seq<char>) -> bool { uses(fs, rf, r, i) && exists|s: Seq<char>| occ(r.ys[i], s) > 0 && #[trigger] prefix(t, s) }
/// the documents of token t in field i, and whether it is present
pub open spec fn posts(fs: Seq<String>, rf: String, h: Seq<Rec>, i: int, t: Seq<char>) -> Map<String, TermFrequency>
    decreases h.len()
{
    if h.len() == 0 { Map::empty() } else if hits(fs, rf, h.last(), i, t) { posts(fs, rf, h.drop_last(), i, t).insert(h.last().d, tf_of(occ(h.last().ys[i], t))) } else { posts(fs, rf, h.drop_last(), i, t) }
}
pub open spec fn there(fs: Seq<String>, rf: String, h: Seq<Rec>, i: int, t: Seq<char>) -> bool { t.len() == 0 || exists|k: int| 0 <= k < h.len() && touches(fs, rf, #[trigger] h[k], i, t) }
/// the stored documents
pub open spec fn doc_form(fs: Seq<String>, rf: String, save: bool, r: Rec) -> Map<String, String> { if save { doc_fields(rf, r.d, fs, r.vals) } else { Map::empty() } }
pub open spec fn docs_of(fs: Seq<String>, rf: String, save: bool, h: Seq<Rec>) -> Map<String, Map<String, String>>
    decreases h.len()
{
    if h.len() == 0 { Map::empty() } else { docs_of(fs, rf, save, h.drop_last()).insert(h.last().d, doc_form(fs, rf, save, h.last())) }
}
/// the length of field i of document d
pub open spec fn len_of(fs: Seq<String>, rf: String, h: Seq<Rec>, d: String, i: int) -> Option<usize>
    decreases h.len()
{
    if h.len() == 0 { None } else if h.last().d == d && uses(fs, rf, h.last(), i) { Some(h.last().ys[i].len() as usize) } else { len_of(fs, rf, h.drop_last(), d, i) }
}
/// everything the index says is what its documents say
pub open spec fn says(x: Index, fs: Seq<String>, rf: String, save: bool, h: Seq<Rec>) -> bool {
    &&& x.fields@ == fs && x.ref_field == rf && x.document_store.save == save && iwf(x)
    &&& forall|i: int, t: Seq<char>| 0 <= i < fs.len() ==> #[trigger] tdocs(x.index@[fs[i]].root, t) == posts(fs, rf, h, i, t)
    &&& forall|i: int, t: Seq<char>| 0 <= i < fs.len() ==> (#[trigger] present(x.index@[fs[i]].root, t) <==> there(fs, rf, h, i, t))
    &&& forall|d: String| #[trigger] stored(x.document_store, d) <==> docs_of(fs, rf, save, h).contains_key(d)
    &&& forall|d: String| #[trigger] stored(x.document_store, d) ==> content(x.document_store, d) == docs_of(fs, rf, save, h)[d]
    &&& forall|d: String, i: int| 0 <= i < fs.len() ==> #[trigger] kept(x.document_store, d, fs[i]) == len_of(fs, rf, h, d, i)
    &&& forall|d: String, g: String| !fs.contains(g) ==> #[trigger] kept(x.document_store, d, g) is None
}
/// one more document
pub proof fn lemma_says_step(a: Index, b: Index, fs: Seq<String>, rf: String, save: bool, h: Seq<Rec>, r: Rec)
    requires says(a, fs, rf, save, h), did(a, b, r),
    ensures says(b, fs, rf, save, h.push(r)),
{
    let g = h.push(r);
    assert(g.drop_last() =~= h && g.last() == r);
    let n = r.vals.len() as int;
    assert forall|i: int, t: Seq<char>| 0 <= i < fs.len() implies #[trigger] tdocs(b.index@[fs[i]].root, t) == posts(fs, rf, g, i, t) by {
        assert(tdocs(a.index@[fs[i]].root, t) == posts(fs, rf, h, i, t));
        assert(a.fields@[i] == fs[i]);
    }
    assert forall|i: int, t: Seq<char>| 0 <= i < fs.len() implies (#[trigger] present(b.index@[fs[i]].root, t) <==> there(fs, rf, g, i, t)) by {
        assert(present(a.index@[fs[i]].root, t) <==> there(fs, rf, h, i, t));
        assert(a.fields@[i] == fs[i]);
        assert(g[h.len() as int] == r);
        if there(fs, rf, h, i, t) && t.len() > 0 { let k = choose|k: int| 0 <= k < h.len() && touches(fs, rf, #[trigger] h[k], i, t); assert(g[k] == h[k]); }
        if there(fs, rf, g, i, t) && t.len() > 0 { let k = choose|k: int| 0 <= k < g.len() && touches(fs, rf, #[trigger] g[k], i, t); if k < h.len() { assert(h[k] == g[k]); } }
    }
    assert forall|d: String| (#[trigger] stored(b.document_store, d) <==> docs_of(fs, rf, save, g).contains_key(d)) && (stored(b.document_store, d) ==> content(b.document_store, d) == docs_of(fs, rf, save, g)[d]) by {
        assert(stored(a.document_store, d) <==> docs_of(fs, rf, save, h).contains_key(d));
    }
    assert forall|d: String, i: int| 0 <= i < fs.len() implies #[trigger] kept(b.document_store, d, fs[i]) == len_of(fs, rf, g, d, i) by {
        assert(kept(a.document_store, d, fs[i]) == len_of(fs, rf, h, d, i));
        assert(a.fields@[i] == fs[i]);
        let head = a.fields@.take(n);
        if !(d == r.d && uses(fs, rf, r, i)) && head.contains(fs[i]) {
            let k = choose|k: int| 0 <= k < head.len() && head[k] == fs[i];
            assert(fs[k] == fs[i]); assert(k == i);
        }
    }
    assert forall|d: String, f: String| !fs.contains(f) implies #[trigger] kept(b.document_store, d, f) is None by {
        assert(kept(a.document_store, d, f) is None);
        if a.fields@.take(n).contains(f) { let k = choose|k: int| 0 <= k < n && a.fields@.take(n)[k] == f; assert(fs[k] == f); }
    }
}
/// C25: after any sequence of added documents, every posting, presence, stored document and field length is what they say
pub proof fn theorem_history(x0: Index, h: Seq<Rec>, x: Index)
    requires iwf(x0), empty_index(x0), ran(x0, h, x),
    ensures says(x, x0.fields@, x0.ref_field, x0.document_store.save, h), same_settings(x0, x),
        forall|i: int, t: Seq<char>| 0 <= i < x0.fields@.len() ==> #[trigger] tdf(x.index@[x0.fields@[i]].root, t) == posts(x0.fields@, x0.ref_field, h, i, t).len(),
    decreases h.len(),
{
    let (fs, rf, save) = (x0.fields@, x0.ref_field, x0.document_store.save);
    if h.len() == 0 {
        assert forall|i: int, t: Seq<char>| 0 <= i < fs.len() implies #[trigger] tdocs(x.index@[fs[i]].root, t) == posts(fs, rf, h, i, t) by {
            assert(x.index@.contains_key(fs[i]));
            assert(empty_item(x.index@[fs[i]].root));
        }
        assert forall|i: int, t: Seq<char>| 0 <= i < fs.len() implies (#[trigger] present(x.index@[fs[i]].root, t) <==> there(fs, rf, h, i, t)) by {
            assert(x.index@.contains_key(fs[i]));
            assert(empty_item(x.index@[fs[i]].root));
        }
        assert forall|d: String| !(#[trigger] stored(x.document_store, d)) && !docs_of(fs, rf, save, h).contains_key(d) by { }
        assert forall|d: String, i: int| 0 <= i < fs.len() implies #[trigger] kept(x.document_store, d, fs[i]) == len_of(fs, rf, h, d, i) by { assert(kept(x.document_store, d, fs[i]) is None); }
        assert forall|d: String, g: String| !fs.contains(g) implies #[trigger] kept(x.document_store, d, g) is None by { }
        assert(says(x, fs, rf, save, h));
    } else {
        let y = choose|y: Index| ran(x0, h.drop_last(), y) && #[trigger] did(y, x, h.last());
        theorem_history(x0, h.drop_last(), y);
        lemma_says_step(y, x, fs, rf, save, h.drop_last(), h.last());
        assert(h.drop_last().push(h.last()) =~= h);
    }
    assert forall|i: int, t: Seq<char>| 0 <= i < fs.len() implies #[trigger] tdf(x.index@[fs[i]].root, t) == posts(fs, rf, h, i, t).len() by {
        assert(x.index@.contains_key(fs[i])); assert(wf(x.index@[fs[i]].root)); assert(tdocs(x.index@[fs[i]].root, t) == posts(fs, rf, h, i, t));
    }
}
/// the same postings, presence, document frequencies, stored documents and lengths
pub open spec fn alike(x: Index, y: Index) -> bool {
    &&& x.fields@ == y.fields@ && x.ref_field == y.ref_field && x.document_store.save == y.document_store.save && x.document_store.length == y.document_store.length
    &&& forall|f: String| #[trigger] x.index@.contains_key(f) <==> y.index@.contains_key(f)
    &&& forall|f: String, t: Seq<char>| x.index@.contains_key(f) ==> #[trigger] tdocs(x.index@[f].root, t) == tdocs(y.index@[f].root, t)
    &&& forall|f: String, t: Seq<char>| x.index@.contains_key(f) ==> #[trigger] tdf(x.index@[f].root, t) == tdf(y.index@[f].root, t)
    &&& forall|f: String, t: Seq<char>| x.index@.contains_key(f) ==> (#[trigger] present(x.index@[f].root, t) <==> present(y.index@[f].root, t))
    &&& forall|d: String| #[trigger] stored(x.document_store, d) <==> stored(y.document_store, d)
    &&& forall|d: String| #[trigger] stored(x.document_store, d) ==> content(x.document_store, d) == content(y.document_store, d)
    &&& forall|d: String, g: String| #[trigger] kept(x.document_store, d, g) == kept(y.document_store, d, g)
}
/// every reference stands for one document
pub open spec fn one_each(h: Seq<Rec>) -> bool { forall|j: int, k: int| 0 <= j < h.len() && 0 <= k < h.len() && (#[trigger] h[j]).d == (#[trigger] h[k]).d ==> h[j] == h[k] }
pub proof fn lemma_posts(fs: Seq<String>, rf: String, h: Seq<Rec>, i: int, t: Seq<char>, k: int)
    requires one_each(h), 0 <= k < h.len(),
    ensures posts(fs, rf, h, i, t).contains_key(h[k].d) <==> hits(fs, rf, h[k], i, t),
        hits(fs, rf, h[k], i, t) ==> posts(fs, rf, h, i, t)[h[k].d] == tf_of(occ(h[k].ys[i], t)),
    decreases h.len(),
{
    let g = h.drop_last();
    assert(forall|j: int| 0 <= j < g.len() ==> g[j] == h[j]);
    assert(one_each(g));
    if h.last().d != h[k].d { lemma_posts(fs, rf, g, i, t, k); }
    else {
        assert(h[k] == h[h.len() - 1]);
        if !hits(fs, rf, h[k], i, t) { if exists|j: int| 0 <= j < g.len() && g[j].d == h[k].d { let j = choose|j: int| 0 <= j < g.len() && g[j].d == h[k].d; assert(h[j] == h[k]); lemma_posts(fs, rf, g, i, t, j); } else { lemma_posts_none(fs, rf, g, i, t, h[k].d); } }
    }
}
pub proof fn lemma_posts_none(fs: Seq<String>, rf: String, h: Seq<Rec>, i: int, t: Seq<char>, d: String)
    requires forall|j: int| 0 <= j < h.len() ==> (#[trigger] h[j]).d != d,
    ensures !posts(fs, rf, h, i, t).contains_key(d),
    decreases h.len(),
{ if h.len() > 0 { let g = h.drop_last(); assert(forall|j: int| 0 <= j < g.len() ==> g[j] == h[j]); assert(h[h.len() - 1].d != d); lemma_posts_none(fs, rf, g, i, t, d); } }
pub proof fn lemma_docs(fs: Seq<String>, rf: String, save: bool, h: Seq<Rec>, d: String)
    requires one_each(h),
    ensures docs_of(fs, rf, save, h).contains_key(d) <==> exists|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d,
        forall|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d ==> docs_of(fs, rf, save, h)[d] == doc_form(fs, rf, save, h[k]),
    decreases h.len(),
{
    if h.len() > 0 {
        let g = h.drop_last();
        assert(forall|j: int| 0 <= j < g.len() ==> g[j] == h[j]);
        assert(one_each(g));
        lemma_docs(fs, rf, save, g, d);
        assert(h[h.len() - 1] == h.last());
        if docs_of(fs, rf, save, g).contains_key(d) { let k = choose|k: int| 0 <= k < g.len() && (#[trigger] g[k]).d == d; assert(h[k].d == d); }
        if exists|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d { let k = choose|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d; if k < g.len() { assert(g[k].d == d); } }
        assert forall|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d implies docs_of(fs, rf, save, h)[d] == doc_form(fs, rf, save, h[k]) by { if h.last().d != d { assert(k < g.len()); assert(g[k].d == d); } }
    }
}
pub proof fn lemma_lens(fs: Seq<String>, rf: String, h: Seq<Rec>, d: String, i: int)
    requires one_each(h),
    ensures
        len_of(fs, rf, h, d, i) is Some <==> exists|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d && uses(fs, rf, h[k], i),
        forall|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d && uses(fs, rf, h[k], i) ==> len_of(fs, rf, h, d, i) == Some(h[k].ys[i].len() as usize),
    decreases h.len(),
{
    if h.len() > 0 {
        let g = h.drop_last();
        assert(forall|j: int| 0 <= j < g.len() ==> g[j] == h[j]);
        assert(one_each(g));
        lemma_lens(fs, rf, g, d, i);
        assert(h[h.len() - 1] == h.last());
        if len_of(fs, rf, g, d, i) is Some { let k = choose|k: int| 0 <= k < g.len() && (#[trigger] g[k]).d == d && uses(fs, rf, g[k], i); assert(h[k].d == d); }
        if exists|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d && uses(fs, rf, h[k], i) { let k = choose|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d && uses(fs, rf, h[k], i); if k < g.len() { assert(g[k].d == d); } }
        assert forall|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d && uses(fs, rf, h[k], i) implies len_of(fs, rf, h, d, i) == Some(h[k].ys[i].len() as usize) by { if h.last().d != d { assert(k < g.len()); assert(g[k].d == d); } }
    }
}
/// two histories with the same documents say the same
pub open spec fn same_docs(h: Seq<Rec>, g: Seq<Rec>) -> bool {
    (forall|k: int| 0 <= k < h.len() ==> g.contains(#[trigger] h[k])) && (forall|k: int| 0 <= k < g.len() ==> h.contains(#[trigger] g[k]))
}
pub proof fn lemma_same_history(fs: Seq<String>, rf: String, save: bool, h: Seq<Rec>, g: Seq<Rec>, d: String, i: int, t: Seq<char>)
    requires one_each(h), one_each(g), same_docs(h, g),
    ensures
        posts(fs, rf, h, i, t).contains_key(d) ==> posts(fs, rf, g, i, t).contains_key(d) && posts(fs, rf, g, i, t)[d] == posts(fs, rf, h, i, t)[d],
        there(fs, rf, h, i, t) ==> there(fs, rf, g, i, t),
        docs_of(fs, rf, save, h).contains_key(d) ==> docs_of(fs, rf, save, g).contains_key(d) && docs_of(fs, rf, save, g)[d] == docs_of(fs, rf, save, h)[d],
        len_of(fs, rf, h, d, i) is Some ==> len_of(fs, rf, g, d, i) == len_of(fs, rf, h, d, i),
{
    lemma_docs(fs, rf, save, h, d); lemma_docs(fs, rf, save, g, d); lemma_lens(fs, rf, h, d, i); lemma_lens(fs, rf, g, d, i);
    if exists|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d {
        let k = choose|k: int| 0 <= k < h.len() && (#[trigger] h[k]).d == d;
        let m = choose|m: int| 0 <= m < g.len() && g[m] == h[k];
        assert(g.contains(h[k]));
        assert(g[m].d == d);
        lemma_posts(fs, rf, h, i, t, k); lemma_posts(fs, rf, g, i, t, m);
        if len_of(fs, rf, h, d, i) is Some { let q = choose|q: int| 0 <= q < h.len() && (#[trigger] h[q]).d == d && uses(fs, rf, h[q], i); assert(h[q] == h[k]); assert(uses(fs, rf, g[m], i)); }
    } else { lemma_posts_none(fs, rf, h, i, t, d); }
    if there(fs, rf, h, i, t) && t.len() > 0 {
        let k = choose|k: int| 0 <= k < h.len() && touches(fs, rf, #[trigger] h[k], i, t);
        assert(g.contains(h[k]));
        let m = choose|m: int| 0 <= m < g.len() && g[m] == h[k];
        assert(touches(fs, rf, g[m], i, t));
    }
}
pub proof fn lemma_same_all(fs: Seq<String>, rf: String, save: bool, h: Seq<Rec>, g: Seq<Rec>)
    requires one_each(h), one_each(g), same_docs(h, g),
    ensures
        forall|i: int, t: Seq<char>| #[trigger] posts(fs, rf, h, i, t) == posts(fs, rf, g, i, t),
        forall|i: int, t: Seq<char>| #[trigger] there(fs, rf, h, i, t) <==> there(fs, rf, g, i, t),
        docs_of(fs, rf, save, h) == docs_of(fs, rf, save, g),
        forall|d: String, i: int| #[trigger] len_of(fs, rf, h, d, i) == len_of(fs, rf, g, d, i),
{
    assert(same_docs(g, h));
    assert forall|i: int, t: Seq<char>| #[trigger] posts(fs, rf, h, i, t) == posts(fs, rf, g, i, t) by {
        let (p, q) = (posts(fs, rf, h, i, t), posts(fs, rf, g, i, t));
        assert forall|d: String| (#[trigger] p.contains_key(d) <==> q.contains_key(d)) && (p.contains_key(d) ==> p[d] == q[d]) by { lemma_same_history(fs, rf, save, h, g, d, i, t); lemma_same_history(fs, rf, save, g, h, d, i, t); }
        assert(p =~= q);
    }
    assert forall|i: int, t: Seq<char>| #[trigger] there(fs, rf, h, i, t) <==> there(fs, rf, g, i, t) by { lemma_same_history(fs, rf, save, h, g, rf, i, t); lemma_same_history(fs, rf, save, g, h, rf, i, t); }
    let (p, q) = (docs_of(fs, rf, save, h), docs_of(fs, rf, save, g));
    assert forall|d: String| (#[trigger] p.contains_key(d) <==> q.contains_key(d)) && (p.contains_key(d) ==> p[d] == q[d]) by { lemma_same_history(fs, rf, save, h, g, d, 0, Seq::empty()); lemma_same_history(fs, rf, save, g, h, d, 0, Seq::empty()); }
    assert(p =~= q);
    assert forall|d: String, i: int| #[trigger] len_of(fs, rf, h, d, i) == len_of(fs, rf, g, d, i) by { lemma_same_history(fs, rf, save, h, g, d, i, Seq::empty()); lemma_same_history(fs, rf, save, g, h, d, i, Seq::empty()); }
}
/// C25: two indexes set up alike that were given the same documents, in whatever order and however often, are alike
pub proof fn theorem_order(x0: Index, h: Seq<Rec>, x: Index, y0: Index, g: Seq<Rec>, y: Index)
    requires iwf(x0), empty_index(x0), ran(x0, h, x), iwf(y0), empty_index(y0), ran(y0, g, y),
        x0.fields@ == y0.fields@, x0.ref_field == y0.ref_field, x0.document_store.save == y0.document_store.save,
        one_each(h), one_each(g), same_docs(h, g),
    ensures alike(x, y),
{
    let (fs, rf, save) = (x0.fields@, x0.ref_field, x0.document_store.save);
    theorem_history(x0, h, x); theorem_history(y0, g, y);
    lemma_same_all(fs, rf, save, h, g);
    assert forall|f: String, t: Seq<char>| x.index@.contains_key(f) implies #[trigger] tdocs(x.index@[f].root, t) == tdocs(y.index@[f].root, t) && tdf(x.index@[f].root, t) == tdf(y.index@[f].root, t) && (present(x.index@[f].root, t) <==> present(y.index@[f].root, t)) by {
        let i = choose|i: int| 0 <= i < fs.len() && fs[i] == f;
        assert(fs.contains(f));
        assert(tdocs(x.index@[fs[i]].root, t) == posts(fs, rf, h, i, t));
        assert(tdocs(y.index@[fs[i]].root, t) == posts(fs, rf, g, i, t));
        assert(present(x.index@[fs[i]].root, t) <==> there(fs, rf, h, i, t));
        assert(present(y.index@[fs[i]].root, t) <==> there(fs, rf, g, i, t));
        assert(tdf(x.index@[fs[i]].root, t) == posts(fs, rf, h, i, t).len());
        assert(tdf(y.index@[fs[i]].root, t) == posts(fs, rf, g, i, t).len());
    }
    assert forall|d: String, f: String| #[trigger] kept(x.document_store, d, f) == kept(y.document_store, d, f) by {
        if fs.contains(f) { let i = choose|i: int| 0 <= i < fs.len() && fs[i] == f; assert(kept(x.document_store, d, fs[i]) == len_of(fs, rf, h, d, i)); assert(kept(y.document_store, d, fs[i]) == len_of(fs, rf, g, d, i)); }
        else { assert(kept(x.document_store, d, f) is None); assert(kept(y.document_store, d, f) is None); }
    }
    assert forall|d: String| (#[trigger] stored(x.document_store, d) <==> stored(y.document_store, d)) && (stored(x.document_store, d) ==> content(x.document_store, d) == content(y.document_store, d)) by { }
    assert(x.document_store.docs@.dom() =~= y.document_store.docs@.dom()) by {
        assert forall|d: String| x.document_store.docs@.dom().contains(d) <==> y.document_store.docs@.dom().contains(d) by { assert(stored(x.document_store, d) <==> stored(y.document_store, d)); }
    }
    assert forall|f: String| #[trigger] x.index@.contains_key(f) <==> y.index@.contains_key(f) by { }
}
/// C25: adding again, unchanged, a document that is there changes nothing
pub proof fn theorem_again(x0: Index, h: Seq<Rec>, x: Index, y: Index, r: Rec)
    requires iwf(x0), empty_index(x0), ran(x0, h, x), one_each(h), h.contains(r), did(x, y, r),
    ensures alike(x, y),
{
    let g = h.push(r);
    let k = choose|k: int| 0 <= k < h.len() && h[k] == r;
    assert(g.drop_last() =~= h && g.last() == r);
    assert(ran(x0, g, y));
    assert forall|j: int| 0 <= j < g.len() implies #[trigger] g[j] == (if j < h.len() { h[j] } else { h[k] }) by { }
    assert forall|j: int| 0 <= j < h.len() implies g.contains(#[trigger] h[j]) by { assert(g[j] == h[j]); }
    assert forall|j: int| 0 <= j < g.len() implies h.contains(#[trigger] g[j]) by { if j < h.len() { assert(h[j] == g[j]); } }
    assert(one_each(g));
    theorem_order(x0, h, x, x0, g, y);
}
