proof fn lemma_subst_add(a: Seq<char>, b: Seq<char>, p: spec_fn(char) -> bool, rep: Seq<char>)
    ensures subst_all(a + b, p, rep) =~= subst_all(a, p, rep) + subst_all(b, p, rep),
    decreases b.len(),
{
    if b.len() == 0 { assert(a + b =~= a); }
    else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_subst_add(a, b.drop_last(), p, rep);
    }
}
proof fn lemma_subst_none(t: Seq<char>, p: spec_fn(char) -> bool, rep: Seq<char>)
    requires t.filter(p).len() == 0,
    ensures subst_all(t, p, rep) =~= t,
    decreases t.len(),
{
    reveal(Seq::filter);
    if t.len() > 0 { lemma_subst_none(t.drop_last(), p, rep); }
}
proof fn lemma_subst_one(t: Seq<char>, p: spec_fn(char) -> bool, rep: Seq<char>)
    requires t.filter(p).len() <= 1,
    ensures subst_first(t, p, rep) =~= subst_all(t, p, rep),
    decreases t.len(),
{
    reveal(Seq::filter);
    if t.len() > 0 {
        let h = seq![t[0]];
        let r = t.skip(1);
        assert(t =~= h + r);
        Seq::filter_distributes_over_add(h, r, p);
        lemma_subst_add(h, r, p, rep);
        assert(h.drop_last() =~= Seq::<char>::empty());
        reveal_with_fuel(subst_all, 2);
        reveal_with_fuel(Seq::filter, 2);
        if p(t[0]) {
            assert(h.filter(p) =~= h);
            lemma_subst_none(r, p, rep);
            assert(subst_all(h, p, rep) =~= rep);
        } else {
            assert(h.filter(p) =~= Seq::<char>::empty());
            lemma_subst_one(r, p, rep);
            assert(subst_all(h, p, rep) =~= h);
        }
    }
}
/// removing the characters p keeps those of q, if no character is both
proof fn lemma_subst_count(t: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires forall|c: char| !(#[trigger] p(c) && q(c)),
    ensures subst_all(t, p, Seq::empty()).filter(q) =~= t.filter(q),
    decreases t.len(),
{
    reveal(Seq::filter);
    if t.len() > 0 {
        lemma_subst_count(t.drop_last(), p, q);
        let h = subst_all(t.drop_last(), p, Seq::empty());
        if p(t.last()) { assert(h + Seq::<char>::empty() =~= h); }
        else { assert(h.push(t.last()).drop_last() =~= h); }
    }
}
/// with at most one diacritic and one alef variant, treating the first of each is treating all
pub proof fn lemma_few(t: Seq<char>)
    ensures few(t) ==> ar_first(t) == ar_norm(t),
{
    if few(t) {
        let p = |c: char| is_dia(c);
        let q = |c: char| is_alef(c);
        reveal_strlit("");
        assert(""@ =~= Seq::<char>::empty());
        lemma_subst_one(t, p, ""@);
        lemma_subst_count(t, p, q);
        lemma_subst_one(subst_all(t, p, ""@), q, "\u{627}"@);
    }
}
/// the normal form has no tatweel, diacritic or alef variant left
proof fn lemma_subst_gone(t: Seq<char>, p: spec_fn(char) -> bool, rep: Seq<char>, q: spec_fn(char) -> bool)
    requires forall|i: int| 0 <= i < rep.len() ==> !q(#[trigger] rep[i]),
        forall|i: int| 0 <= i < t.len() ==> !q(#[trigger] t[i]) || p(t[i]),
    ensures forall|i: int| 0 <= i < subst_all(t, p, rep).len() ==> !q(#[trigger] subst_all(t, p, rep)[i]),
    decreases t.len(),
{
    if t.len() > 0 {
        assert forall|i: int| 0 <= i < t.drop_last().len() implies !q(#[trigger] t.drop_last()[i]) || p(t.drop_last()[i]) by { assert(t.drop_last()[i] == t[i]); }
        lemma_subst_gone(t.drop_last(), p, rep, q);
        assert(!q(t[t.len() - 1]) || p(t[t.len() - 1]));
        let h = subst_all(t.drop_last(), p, rep);
        let r = subst_all(t, p, rep);
        assert forall|i: int| 0 <= i < r.len() implies !q(#[trigger] r[i]) by {
            if i < h.len() { assert(r[i] == h[i]); }
            else if p(t.last()) { assert(r[i] == rep[i - h.len()]); }
            else { assert(r[i] == t.last()); }
        }
    }
}
pub proof fn theorem_ar_norm(t: Seq<char>)
    ensures forall|i: int| 0 <= i < ar_norm(t).len() ==> !is_dia(#[trigger] ar_norm(t)[i]) && !is_alef(ar_norm(t)[i]),
{
    let p = |c: char| is_dia(c);
    let q = |c: char| is_alef(c);
    let a = "\u{627}"@;
    reveal_strlit("");
    assert(""@ =~= Seq::<char>::empty());
    reveal_strlit("\u{627}");
    let d = subst_all(t, p, ""@);
    lemma_subst_gone(t, p, ""@, p);
    lemma_subst_gone(d, q, a, p);
    lemma_subst_gone(d, q, a, q);
    assert forall|i: int| 0 <= i < ar_norm(t).len() implies !is_dia(#[trigger] ar_norm(t)[i]) && !is_alef(ar_norm(t)[i]) by { assert(!p(ar_norm(t)[i]) && !q(ar_norm(t)[i])); }
}
