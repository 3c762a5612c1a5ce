// ---------------------------------------------------------------------------------------------
// pipeline functions as relations; chains; what the built-in ones do
// ---------------------------------------------------------------------------------------------
pub mod langspec {
use super::*;
pub open spec fn keep(t: Seq<char>) -> Option<Seq<char>> { if t.len() == 0 { None } else { Some(t) } }
/// `[0-9A-Za-z_]`
pub open spec fn en_word_char(c: char) -> bool { ascii_digit(c) || ascii_alpha(c) || c == '_' }
pub open spec fn en_trim(t: Seq<char>) -> Seq<char> { strip(t, marks(t, |c: char| !en_word_char(c))) }
/// `t` without the leading and trailing characters outside the regex class `[w]`
pub open spec fn script_trim(w: Seq<char>, t: Seq<char>) -> Seq<char> { strip(t, marks(t, |c: char| !in_class(w, c))) }
pub open spec fn has_word(ws: Seq<Seq<char>>, t: Seq<char>) -> bool { ws.contains(t) }
pub open spec fn lit_views(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|x: &str| x@) }
pub open spec fn same_words(a: Seq<Seq<char>>, b: Seq<Seq<char>>) -> bool { forall|w: Seq<char>| #[trigger] a.contains(w) <==> #[trigger] b.contains(w) }
pub open spec fn drop_words(ws: Seq<Seq<char>>, t: Seq<char>) -> Option<Seq<char>> { if ws.contains(t) { None } else { Some(t) } }

/// no token comes out of `q` empty
pub open spec fn never_empty(q: Seq<Box<dyn PipelineFn>>) -> bool {
    forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] chain(q, t, o) ==> match o { None => true, Some(x) => x.len() > 0 }
}
pub open spec fn fnames(q: Seq<Box<dyn PipelineFn>>) -> Seq<Seq<char>> { q.map_values(|f: Box<dyn PipelineFn>| f.fname()) }
/// the last function of a queue saw some token that the ones before it let through
pub proof fn lemma_chain_last(q: Seq<Box<dyn PipelineFn>>, t: Seq<char>, x: Seq<char>) -> (m: Seq<char>)
    requires chain(q, t, Some(x)), q.len() > 0,
    ensures chain(q.drop_last(), t, Some(m)), q.last().fpost(m, Some(x)),
{
    let mm = choose|m: Option<Seq<char>>| chain(q.drop_last(), t, m) && #[trigger] step(q.last(), m, Some(x));
    mm->Some_0
}
/// a function that drops every empty token and turns no other into an empty one
pub open spec fn drops_empty(f: Box<dyn PipelineFn>) -> bool { forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] f.fpost(t, o) ==> o != Some(Seq::<char>::empty()) }
pub open spec fn keeps_nonempty(f: Box<dyn PipelineFn>) -> bool { forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] f.fpost(t, o) && t.len() > 0 ==> o != Some(Seq::<char>::empty()) }
/// names an implementation, so that what is known about it is stated before the function that boxes it
pub proof fn lemma_impl<T: PipelineFn>() {}
/// ... from position k on, nothing makes a token empty; before or at k, one function drops empties
pub proof fn lemma_never_empty(q: Seq<Box<dyn PipelineFn>>, k: int)
    requires 0 <= k < q.len(), drops_empty(q[k]), forall|i: int| k < i < q.len() ==> keeps_nonempty(#[trigger] q[i]),
    ensures never_empty(q),
    decreases q.len() - k,
{
    assert forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] chain(q, t, o) implies (match o { None => true, Some(x) => x.len() > 0 }) by {
        if o is Some { lemma_ne(q, k, t, o->Some_0); }
    }
}
pub proof fn lemma_ne(q: Seq<Box<dyn PipelineFn>>, k: int, t: Seq<char>, x: Seq<char>)
    requires 0 <= k < q.len(), drops_empty(q[k]), forall|i: int| k < i < q.len() ==> keeps_nonempty(#[trigger] q[i]), chain(q, t, Some(x)),
    ensures x.len() > 0,
    decreases q.len(),
{
    let m = lemma_chain_last(q, t, x);
    if k == q.len() - 1 {
        assert(q.last() == q[k]);
        if x.len() == 0 { assert(x =~= Seq::<char>::empty()); }
    } else {
        let p = q.drop_last();
        assert(p[k] == q[k]);
        assert forall|i: int| k < i < p.len() implies keeps_nonempty(#[trigger] p[i]) by { assert(p[i] == q[i]); }
        lemma_ne(p, k, t, m);
        assert(keeps_nonempty(q[q.len() - 1]));
        if x.len() == 0 { assert(x =~= Seq::<char>::empty()); }
    }
}
/// the answers of a predicate value that means "not an English word character"
pub broadcast proof fn lemma_en_answers<F: Fn(char) -> bool>(f: F, t: Seq<char>, bs: Seq<bool>)
    requires #[trigger] answers(f, t, bs), forall|c: char, b: bool| #[trigger] call_ensures(f, (c,), b) ==> b == !en_word_char(c),
    ensures strip(t, bs) == en_trim(t),
{
    let m = marks(t, |c: char| !en_word_char(c));
    assert forall|i: int| 0 <= i < t.len() implies bs[i] == m[i] by { assert(call_ensures(f, (t[i],), bs[i])); }
    assert(bs =~= m);
}
pub open spec fn words_of(a: Seq<&&str>) -> Seq<Seq<char>> { a.map_values(|x: &&str| x@) }
/// collecting the words of a list as Strings
pub broadcast proof fn lemma_map_words<'a, 'b, G: FnMut(&'a &'b str) -> String>(i: std::slice::Iter<'a, &'b str>, g: G, m: std::iter::Map<std::slice::Iter<'a, &'b str>, G>)
    requires
        #[trigger] map_post(i, g, m), IteratorSpec::obeys_prophetic_iter_laws(&i), IteratorSpec::will_return_none(&m),
        forall|x: &'a &'b str, y: String| #[trigger] call_ensures(g, (x,), y) ==> y@ == x@,
    ensures forall|s: String| #[trigger] IteratorSpec::remaining(&m).to_set().contains(s) <==> words_of(IteratorSpec::remaining(&i)).contains(s@),
{
    map_postcondition(i, g, m);
    let a = IteratorSpec::remaining(&i);
    let w = words_of(a);
    let b = IteratorSpec::remaining(&m);
    assert forall|s: String| #[trigger] b.to_set().contains(s) <==> w.contains(s@) by {
        if b.to_set().contains(s) {
            let k = choose|k: int| 0 <= k < b.len() && b[k] == s;
            assert(call_ensures(g, (a[k],), b[k]));
            assert(w[k] == s@);
        }
        if w.contains(s@) {
            let k = choose|k: int| 0 <= k < w.len() && w[k] == s@;
            assert(w[k] == a[k]@);
            assert(call_ensures(g, (a[k],), b[k]));
            axiom_mk_string(b[k]); axiom_mk_string(s);
            assert(b[k] == s);
            assert(b.contains(s));
        }
    }
}
broadcast use { vxmap::group_map };
pub broadcast group group_lang { lemma_en_answers, lemma_map_words }
}
pub use langspec::*;
