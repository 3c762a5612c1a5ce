pub mod textspec {
use super::*;
broadcast use { vxmap::group_map };
// ---------------------------------------------------------------------------------------------
// C09 C10: the trimmer's and the tokenizer's meaning
// ---------------------------------------------------------------------------------------------
/// completed non-empty runs of non-separators, and the run being read
pub open spec fn runs_rec(t: Seq<char>) -> (Seq<Seq<char>>, Seq<char>)
    decreases t.len()
{
    if t.len() == 0 { (Seq::empty(), Seq::empty()) }
    else {
        let (d, c) = runs_rec(t.drop_last());
        if sep(t.last()) { (if c.len() > 0 { d.push(c) } else { d }, Seq::empty()) } else { (d, c.push(t.last())) }
    }
}
/// the maximal runs of characters that are neither white space nor '-', in order
pub open spec fn runs(t: Seq<char>) -> Seq<Seq<char>> {
    let (d, c) = runs_rec(t);
    if c.len() > 0 { d.push(c) } else { d }
}
/// the tokens of a text: its runs, lowercased
pub open spec fn tokens(t: Seq<char>) -> Seq<Seq<char>> { runs(t).map_values(|x: Seq<char>| lc(x)) }
pub open spec fn no_sep(x: Seq<char>) -> bool { forall|i: int| 0 <= i < x.len() ==> !sep(#[trigger] x[i]) }
pub open spec fn nonempty(x: Seq<char>) -> bool { x.len() > 0 }
/// the elements kept, in order
pub open spec fn kept<A>(s: Seq<A>, keep: Seq<bool>) -> Seq<A>
    decreases s.len()
{
    if s.len() == 0 || keep.len() != s.len() { Seq::empty() }
    else { let k = kept(s.drop_last(), keep.drop_last()); if keep.last() { k.push(s.last()) } else { k } }
}
pub proof fn lemma_kept_index<A>(s: Seq<A>, keep: Seq<bool>, p: spec_fn(int) -> bool)
    requires keep.len() == s.len(), forall|j: int| 0 <= j < keep.len() ==> p(j) == #[trigger] keep[j],
    ensures s.filter_index(p) =~= kept(s, keep),
    decreases s.len(),
{
    reveal(Seq::filter_index);
    if s.len() > 0 {
        lemma_kept_index(s.drop_last(), keep.drop_last(), p);
        assert(p(s.len() - 1) == keep[s.len() - 1]);
    }
}
pub proof fn lemma_kept_pieces(ps: Seq<Seq<char>>, keep: Seq<bool>)
    requires keep.len() == ps.len(), forall|j: int| 0 <= j < keep.len() ==> #[trigger] keep[j] == (ps[j].len() > 0),
    ensures kept(ps, keep) =~= ps.filter(|x: Seq<char>| x.len() > 0),
    decreases ps.len(),
{
    reveal(Seq::filter);
    if ps.len() > 0 { lemma_kept_pieces(ps.drop_last(), keep.drop_last()); }
}
pub proof fn lemma_split_runs(t: Seq<char>, bs: Seq<bool>)
    requires bs.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> bs[i] == sep(#[trigger] t[i]),
    ensures split_rec(t, bs).0.filter(|x: Seq<char>| x.len() > 0) =~= runs_rec(t).0, split_rec(t, bs).1 =~= runs_rec(t).1,
        no_sep(runs_rec(t).1), forall|i: int| 0 <= i < runs_rec(t).0.len() ==> no_sep(#[trigger] runs_rec(t).0[i]) && runs_rec(t).0[i].len() > 0,
    decreases t.len(),
{
    reveal(Seq::filter);
    if t.len() > 0 {
        let n = t.len() - 1;
        let (d, c) = split_rec(t.drop_last(), bs.drop_last());
        assert forall|i: int| 0 <= i < t.drop_last().len() implies bs.drop_last()[i] == sep(#[trigger] t.drop_last()[i]) by { assert(bs[i] == sep(t[i])); }
        lemma_split_runs(t.drop_last(), bs.drop_last());
        assert(bs[n] == sep(t[n]));
        if bs.last() { assert(d.push(c).drop_last() =~= d); }
    } else {
        assert(split_rec(t, bs).0.filter(|x: Seq<char>| x.len() > 0) =~= Seq::empty());
    }
}
pub proof fn lemma_split_tokens(t: Seq<char>, bs: Seq<bool>)
    requires bs.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> bs[i] == sep(#[trigger] t[i]),
    ensures split_by(t, bs).filter(|x: Seq<char>| x.len() > 0) =~= runs(t),
        forall|i: int| 0 <= i < runs(t).len() ==> no_sep(#[trigger] runs(t)[i]) && runs(t)[i].len() > 0,
{
    reveal(Seq::filter);
    lemma_split_runs(t, bs);
    let (d, c) = split_rec(t, bs);
    assert(d.push(c).drop_last() =~= d);
}
pub proof fn lemma_kept_views(s: Seq<&str>, keep: Seq<bool>)
    requires keep.len() == s.len(),
    ensures str_views(kept(s, keep)) =~= kept(str_views(s), keep),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_kept_views(s.drop_last(), keep.drop_last());
        assert(str_views(s).drop_last() =~= str_views(s.drop_last()));
    }
}
pub proof fn lemma_strip_none(t: Seq<char>, bs: Seq<bool>)
    requires bs.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> !#[trigger] bs[i],
    ensures strip(t, bs) == t,
{}
/// trimming changes nothing where there is no white space
pub broadcast proof fn lemma_strip_clean(x: Seq<char>, b: Seq<bool>)
    requires b == marks(x, |c: char| is_ws(c)),
    ensures no_sep(x) ==> #[trigger] strip(x, b) == x,
{
    if no_sep(x) {
        assert forall|j: int| 0 <= j < x.len() implies !#[trigger] b[j] by { assert(!sep(x[j])); }
        lemma_strip_none(x, b);
    }
}
/// split, filter, map: the tokens
pub broadcast proof fn lemma_tokenize<'a, P: Fn(char) -> bool, F: FnMut(&&'a str) -> bool, G: FnMut(&'a str) -> String>(
    t: Seq<char>, p: P, bs: Seq<bool>, s: VxSplit<'a>, f: F, flt: std::iter::Filter<VxSplit<'a>, F>, g: G, m: std::iter::Map<std::iter::Filter<VxSplit<'a>, F>, G>)
    requires
        #[trigger] answers(p, t, bs),
        str_views(IteratorSpec::remaining(&s)) == split_by(t, bs), IteratorSpec::obeys_prophetic_iter_laws(&s), IteratorSpec::decrease(&s) is Some,
        forall|x: &&'a str| #[trigger] call_requires(f, (x,)),
        #[trigger] filter_post(s, f, flt), #[trigger] map_post(flt, g, m), IteratorSpec::will_return_none(&m),
        forall|c: char, b: bool| #[trigger] call_ensures(p, (c,), b) ==> b == sep(c),
        forall|x: &&'a str, b: bool| #[trigger] call_ensures(f, (x,), b) ==> b == (x@.len() > 0),
        forall|x: &'a str, y: String| #[trigger] call_ensures(g, (x,), y) ==> (no_sep(x@) ==> y@ == lc(x@)),
    ensures views(IteratorSpec::remaining(&m)) == tokens(t),
{
    filter_postcondition(s, f, flt);
    map_postcondition(flt, g, m);
    let keep = filter_keep(flt);
    assert(keep.len() == IteratorSpec::remaining(&s).len());
    let ss = IteratorSpec::remaining(&s);
    assert(ss.take(keep.len() as int) =~= ss);
    lemma_kept_index(ss, keep, |j: int| keep[j]);
    assert(IteratorSpec::remaining(&flt) == kept(ss, keep));
    lemma_kept_views(ss, keep);
    assert forall|j: int| 0 <= j < keep.len() implies #[trigger] keep[j] == (split_by(t, bs)[j].len() > 0) by {
        assert(str_views(ss)[j] == ss[j]@);
        assert(call_ensures(f, (&ss[j],), keep[j]));
    }
    lemma_kept_pieces(split_by(t, bs), keep);
    assert forall|i: int| 0 <= i < t.len() implies bs[i] == sep(#[trigger] t[i]) by { assert(call_ensures(p, (t[i],), bs[i])); }
    lemma_split_tokens(t, bs);
    let fr = IteratorSpec::remaining(&flt);
    assert(str_views(fr) == runs(t));
    assert(IteratorSpec::remaining(&m).len() == fr.len());
    assert forall|i: int| 0 <= i < fr.len() implies #[trigger] views(IteratorSpec::remaining(&m))[i] == tokens(t)[i] by {
        assert(call_ensures(g, (fr[i],), IteratorSpec::remaining(&m)[i]));
        let x = fr[i]@;
        assert(str_views(fr)[i] == x);
        assert(no_sep(runs(t)[i]));
    }
    assert(views(IteratorSpec::remaining(&m)) =~= tokens(t));
}
/// every token is non-empty and free of white space and hyphens
pub proof fn theorem_tokens(t: Seq<char>)
    ensures forall|i: int| 0 <= i < tokens(t).len() ==> (#[trigger] tokens(t)[i]).len() > 0 && no_sep(tokens(t)[i]),
{
    broadcast use axiom_lc;
    let bs = marks(t, |c: char| sep(c));
    lemma_split_tokens(t, bs);
    assert forall|i: int| 0 <= i < tokens(t).len() implies (#[trigger] tokens(t)[i]).len() > 0 && no_sep(tokens(t)[i]) by {
        assert(no_sep(runs(t)[i]));
    }
}
/// no character of the text outside separators is lost: the runs spell the text without its separators
pub open spec fn flat(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
pub open spec fn no_seps(t: Seq<char>) -> Seq<char> { t.filter(|c: char| !sep(c)) }
pub proof fn theorem_nothing_lost(t: Seq<char>)
    ensures flat(runs(t)) =~= no_seps(t), flat(runs_rec(t).0) + runs_rec(t).1 =~= no_seps(t),
    decreases t.len(),
{
    reveal(Seq::filter);
    let (d, c) = runs_rec(t);
    if t.len() > 0 {
        theorem_nothing_lost(t.drop_last());
        let (d0, c0) = runs_rec(t.drop_last());
        assert(d0.push(c0).drop_last() =~= d0);
        assert(flat(d0.push(c0)) =~= flat(d0) + c0);
    } else { assert(no_seps(t) =~= Seq::empty()); }
    if c.len() > 0 { assert(d.push(c).drop_last() =~= d); }
}
}
pub use textspec::*;
