#![feature(allocator_api)]
#![feature(slice_index_methods)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens)]
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
verus! {
broadcast use vstd::utf8::group_utf8_lib;
//@include ext_opt.vx
//@include ext_str.vx
//@include porter_spec.vx

// -- lemmas -----------------------------------------------------------------------------------
pub proof fn lemma_cons_prefix(a: Seq<u8>, b: Seq<u8>, i: int)
    requires 0 <= i < a.len(), i < b.len(), forall|k: int| 0 <= k <= i ==> a[k] == b[k],
    ensures cons(a, i) == cons(b, i),
    decreases i
{
    if i > 0 { lemma_cons_prefix(a, b, i - 1); }
}
pub proof fn lemma_meas_prefix(a: Seq<u8>, b: Seq<u8>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> a[k] == b[k],
    ensures meas(a, n) == meas(b, n), forall|i: int| 0 <= i < n ==> #[trigger] cons(a, i) == cons(b, i),
    decreases n
{
    assert forall|i: int| 0 <= i < n implies #[trigger] cons(a, i) == cons(b, i) by { lemma_cons_prefix(a, b, i); }
    if n > 1 { lemma_meas_prefix(a, b, n - 1); }
}
/// the state of the stemmer agrees with every prefix of the word it stands for
pub broadcast proof fn lemma_prefix_meas(b: Seq<u8>, n: int)
    requires 0 <= n <= b.len(),
    ensures #![trigger b.subrange(0, n)]
        meas(b.subrange(0, n), n) == meas(b, n),
        forall|i: int| 0 <= i < n ==> #[trigger] cons(b.subrange(0, n), i) == cons(b, i),
        hasv(b.subrange(0, n)) <==> exists|i: int| 0 <= i < n && !#[trigger] cons(b, i),
{
    reveal(hasv);
    let s = b.subrange(0, n);
    lemma_meas_prefix(s, b, n);
    if exists|i: int| 0 <= i < n && !#[trigger] cons(b, i) {
        let i = choose|i: int| 0 <= i < n && !#[trigger] cons(b, i);
        assert(!cons(s, i));
    }
}

/// two words that end differently in the last or last-but-one byte cannot both be suffixes
pub proof fn lemma_has(w: Seq<u8>, s: Seq<u8>)
    ensures has(w, s) ==> w.len() >= s.len() && (s.len() >= 1 ==> w[w.len() - 1] == s[s.len() - 1]) && (s.len() >= 2 ==> w[w.len() - 2] == s[s.len() - 2]),
        has(w, s) ==> cut(w, s).len() == w.len() - s.len(),
{
    reveal(has); reveal(cut);
    if has(w, s) {
        let t = w.subrange(w.len() - s.len(), w.len() as int);
        assert(t =~= s);
        if s.len() >= 1 { assert(t[s.len() - 1] == s[s.len() - 1]); }
        if s.len() >= 2 { assert(t[s.len() - 2] == s[s.len() - 2]); }
    }
}
pub proof fn lemma_lit(s: &str)
    requires is_ascii_chars(s@),
    ensures sb(s).len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> #[trigger] sb(s)[i] == s@[i] as u8,
{
    reveal(sb);
    is_ascii_chars_encode_utf8(s@);
    assert forall|i: int| 0 <= i < s@.len() implies #[trigger] sb(s)[i] == s@[i] as u8 by { assert(s@[i] as u32 == sb(s)[i] as u32); }
}
pub proof fn lit_sses(w: Seq<u8>)
    ensures sb("sses").len() == 4 && sb("sses")[0] == 115u8 && sb("sses")[1] == 115u8 && sb("sses")[2] == 101u8 && sb("sses")[3] == 115u8,
        has(w, sb("sses")) ==> w.len() >= 4 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 101u8,
{ reveal_strlit("sses"); lemma_lit("sses"); lemma_has(w, sb("sses")); }
pub proof fn lit_ies(w: Seq<u8>)
    ensures sb("ies").len() == 3 && sb("ies")[0] == 105u8 && sb("ies")[1] == 101u8 && sb("ies")[2] == 115u8,
        has(w, sb("ies")) ==> w.len() >= 3 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 101u8,
{ reveal_strlit("ies"); lemma_lit("ies"); lemma_has(w, sb("ies")); }
pub proof fn lit_eed(w: Seq<u8>)
    ensures sb("eed").len() == 3 && sb("eed")[0] == 101u8 && sb("eed")[1] == 101u8 && sb("eed")[2] == 100u8,
        has(w, sb("eed")) ==> w.len() >= 3 && w[w.len() - 1] == 100u8 && w[w.len() - 2] == 101u8,
{ reveal_strlit("eed"); lemma_lit("eed"); lemma_has(w, sb("eed")); }
pub proof fn lit_ed(w: Seq<u8>)
    ensures sb("ed").len() == 2 && sb("ed")[0] == 101u8 && sb("ed")[1] == 100u8,
        has(w, sb("ed")) ==> w.len() >= 2 && w[w.len() - 1] == 100u8 && w[w.len() - 2] == 101u8,
{ reveal_strlit("ed"); lemma_lit("ed"); lemma_has(w, sb("ed")); }
pub proof fn lit_ing(w: Seq<u8>)
    ensures sb("ing").len() == 3 && sb("ing")[0] == 105u8 && sb("ing")[1] == 110u8 && sb("ing")[2] == 103u8,
        has(w, sb("ing")) ==> w.len() >= 3 && w[w.len() - 1] == 103u8 && w[w.len() - 2] == 110u8,
{ reveal_strlit("ing"); lemma_lit("ing"); lemma_has(w, sb("ing")); }
pub proof fn lit_at(w: Seq<u8>)
    ensures sb("at").len() == 2 && sb("at")[0] == 97u8 && sb("at")[1] == 116u8,
        has(w, sb("at")) ==> w.len() >= 2 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 97u8,
{ reveal_strlit("at"); lemma_lit("at"); lemma_has(w, sb("at")); }
pub proof fn lit_ate(w: Seq<u8>)
    ensures sb("ate").len() == 3 && sb("ate")[0] == 97u8 && sb("ate")[1] == 116u8 && sb("ate")[2] == 101u8,
        has(w, sb("ate")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 116u8,
{ reveal_strlit("ate"); lemma_lit("ate"); lemma_has(w, sb("ate")); }
pub proof fn lit_bl(w: Seq<u8>)
    ensures sb("bl").len() == 2 && sb("bl")[0] == 98u8 && sb("bl")[1] == 108u8,
        has(w, sb("bl")) ==> w.len() >= 2 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 98u8,
{ reveal_strlit("bl"); lemma_lit("bl"); lemma_has(w, sb("bl")); }
pub proof fn lit_ble(w: Seq<u8>)
    ensures sb("ble").len() == 3 && sb("ble")[0] == 98u8 && sb("ble")[1] == 108u8 && sb("ble")[2] == 101u8,
        has(w, sb("ble")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 108u8,
{ reveal_strlit("ble"); lemma_lit("ble"); lemma_has(w, sb("ble")); }
pub proof fn lit_iz(w: Seq<u8>)
    ensures sb("iz").len() == 2 && sb("iz")[0] == 105u8 && sb("iz")[1] == 122u8,
        has(w, sb("iz")) ==> w.len() >= 2 && w[w.len() - 1] == 122u8 && w[w.len() - 2] == 105u8,
{ reveal_strlit("iz"); lemma_lit("iz"); lemma_has(w, sb("iz")); }
pub proof fn lit_ize(w: Seq<u8>)
    ensures sb("ize").len() == 3 && sb("ize")[0] == 105u8 && sb("ize")[1] == 122u8 && sb("ize")[2] == 101u8,
        has(w, sb("ize")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 122u8,
{ reveal_strlit("ize"); lemma_lit("ize"); lemma_has(w, sb("ize")); }
pub proof fn lit_e(w: Seq<u8>)
    ensures sb("e").len() == 1 && sb("e")[0] == 101u8,
        has(w, sb("e")) ==> w.len() >= 1 && w[w.len() - 1] == 101u8,
{ reveal_strlit("e"); lemma_lit("e"); lemma_has(w, sb("e")); }
pub proof fn lit_ss(w: Seq<u8>)
    ensures sb("ss").len() == 2 && sb("ss")[0] == 115u8 && sb("ss")[1] == 115u8,
        has(w, sb("ss")) ==> w.len() >= 2 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
{ reveal_strlit("ss"); lemma_lit("ss"); lemma_has(w, sb("ss")); }
pub proof fn lit_i(w: Seq<u8>)
    ensures sb("i").len() == 1 && sb("i")[0] == 105u8,
        has(w, sb("i")) ==> w.len() >= 1 && w[w.len() - 1] == 105u8,
{ reveal_strlit("i"); lemma_lit("i"); lemma_has(w, sb("i")); }
pub proof fn lit_s(w: Seq<u8>)
    ensures sb("s").len() == 1 && sb("s")[0] == 115u8,
        has(w, sb("s")) ==> w.len() >= 1 && w[w.len() - 1] == 115u8,
{ reveal_strlit("s"); lemma_lit("s"); lemma_has(w, sb("s")); }
pub proof fn lit_ee(w: Seq<u8>)
    ensures sb("ee").len() == 2 && sb("ee")[0] == 101u8 && sb("ee")[1] == 101u8,
        has(w, sb("ee")) ==> w.len() >= 2 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 101u8,
{ reveal_strlit("ee"); lemma_lit("ee"); lemma_has(w, sb("ee")); }
pub proof fn lit_y(w: Seq<u8>)
    ensures sb("y").len() == 1 && sb("y")[0] == 121u8,
        has(w, sb("y")) ==> w.len() >= 1 && w[w.len() - 1] == 121u8,
{ reveal_strlit("y"); lemma_lit("y"); lemma_has(w, sb("y")); }
pub proof fn lit_ational(w: Seq<u8>)
    ensures sb("ational").len() == 7 && sb("ational")[0] == 97u8 && sb("ational")[1] == 116u8 && sb("ational")[2] == 105u8 && sb("ational")[3] == 111u8 && sb("ational")[4] == 110u8 && sb("ational")[5] == 97u8 && sb("ational")[6] == 108u8,
        has(w, sb("ational")) ==> w.len() >= 7 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
{ reveal_strlit("ational"); lemma_lit("ational"); lemma_has(w, sb("ational")); }
pub proof fn lit_tional(w: Seq<u8>)
    ensures sb("tional").len() == 6 && sb("tional")[0] == 116u8 && sb("tional")[1] == 105u8 && sb("tional")[2] == 111u8 && sb("tional")[3] == 110u8 && sb("tional")[4] == 97u8 && sb("tional")[5] == 108u8,
        has(w, sb("tional")) ==> w.len() >= 6 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
{ reveal_strlit("tional"); lemma_lit("tional"); lemma_has(w, sb("tional")); }
pub proof fn lit_tion(w: Seq<u8>)
    ensures sb("tion").len() == 4 && sb("tion")[0] == 116u8 && sb("tion")[1] == 105u8 && sb("tion")[2] == 111u8 && sb("tion")[3] == 110u8,
        has(w, sb("tion")) ==> w.len() >= 4 && w[w.len() - 1] == 110u8 && w[w.len() - 2] == 111u8,
{ reveal_strlit("tion"); lemma_lit("tion"); lemma_has(w, sb("tion")); }
pub proof fn lit_enci(w: Seq<u8>)
    ensures sb("enci").len() == 4 && sb("enci")[0] == 101u8 && sb("enci")[1] == 110u8 && sb("enci")[2] == 99u8 && sb("enci")[3] == 105u8,
        has(w, sb("enci")) ==> w.len() >= 4 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 99u8,
{ reveal_strlit("enci"); lemma_lit("enci"); lemma_has(w, sb("enci")); }
pub proof fn lit_ence(w: Seq<u8>)
    ensures sb("ence").len() == 4 && sb("ence")[0] == 101u8 && sb("ence")[1] == 110u8 && sb("ence")[2] == 99u8 && sb("ence")[3] == 101u8,
        has(w, sb("ence")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 99u8,
{ reveal_strlit("ence"); lemma_lit("ence"); lemma_has(w, sb("ence")); }
pub proof fn lit_anci(w: Seq<u8>)
    ensures sb("anci").len() == 4 && sb("anci")[0] == 97u8 && sb("anci")[1] == 110u8 && sb("anci")[2] == 99u8 && sb("anci")[3] == 105u8,
        has(w, sb("anci")) ==> w.len() >= 4 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 99u8,
{ reveal_strlit("anci"); lemma_lit("anci"); lemma_has(w, sb("anci")); }
pub proof fn lit_ance(w: Seq<u8>)
    ensures sb("ance").len() == 4 && sb("ance")[0] == 97u8 && sb("ance")[1] == 110u8 && sb("ance")[2] == 99u8 && sb("ance")[3] == 101u8,
        has(w, sb("ance")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 99u8,
{ reveal_strlit("ance"); lemma_lit("ance"); lemma_has(w, sb("ance")); }
pub proof fn lit_izer(w: Seq<u8>)
    ensures sb("izer").len() == 4 && sb("izer")[0] == 105u8 && sb("izer")[1] == 122u8 && sb("izer")[2] == 101u8 && sb("izer")[3] == 114u8,
        has(w, sb("izer")) ==> w.len() >= 4 && w[w.len() - 1] == 114u8 && w[w.len() - 2] == 101u8,
{ reveal_strlit("izer"); lemma_lit("izer"); lemma_has(w, sb("izer")); }
pub proof fn lit_bli(w: Seq<u8>)
    ensures sb("bli").len() == 3 && sb("bli")[0] == 98u8 && sb("bli")[1] == 108u8 && sb("bli")[2] == 105u8,
        has(w, sb("bli")) ==> w.len() >= 3 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
{ reveal_strlit("bli"); lemma_lit("bli"); lemma_has(w, sb("bli")); }
pub proof fn lit_alli(w: Seq<u8>)
    ensures sb("alli").len() == 4 && sb("alli")[0] == 97u8 && sb("alli")[1] == 108u8 && sb("alli")[2] == 108u8 && sb("alli")[3] == 105u8,
        has(w, sb("alli")) ==> w.len() >= 4 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
{ reveal_strlit("alli"); lemma_lit("alli"); lemma_has(w, sb("alli")); }
pub proof fn lit_al(w: Seq<u8>)
    ensures sb("al").len() == 2 && sb("al")[0] == 97u8 && sb("al")[1] == 108u8,
        has(w, sb("al")) ==> w.len() >= 2 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
{ reveal_strlit("al"); lemma_lit("al"); lemma_has(w, sb("al")); }
pub proof fn lit_entli(w: Seq<u8>)
    ensures sb("entli").len() == 5 && sb("entli")[0] == 101u8 && sb("entli")[1] == 110u8 && sb("entli")[2] == 116u8 && sb("entli")[3] == 108u8 && sb("entli")[4] == 105u8,
        has(w, sb("entli")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
{ reveal_strlit("entli"); lemma_lit("entli"); lemma_has(w, sb("entli")); }
pub proof fn lit_ent(w: Seq<u8>)
    ensures sb("ent").len() == 3 && sb("ent")[0] == 101u8 && sb("ent")[1] == 110u8 && sb("ent")[2] == 116u8,
        has(w, sb("ent")) ==> w.len() >= 3 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 110u8,
{ reveal_strlit("ent"); lemma_lit("ent"); lemma_has(w, sb("ent")); }
pub proof fn lit_eli(w: Seq<u8>)
    ensures sb("eli").len() == 3 && sb("eli")[0] == 101u8 && sb("eli")[1] == 108u8 && sb("eli")[2] == 105u8,
        has(w, sb("eli")) ==> w.len() >= 3 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
{ reveal_strlit("eli"); lemma_lit("eli"); lemma_has(w, sb("eli")); }
pub proof fn lit_ousli(w: Seq<u8>)
    ensures sb("ousli").len() == 5 && sb("ousli")[0] == 111u8 && sb("ousli")[1] == 117u8 && sb("ousli")[2] == 115u8 && sb("ousli")[3] == 108u8 && sb("ousli")[4] == 105u8,
        has(w, sb("ousli")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
{ reveal_strlit("ousli"); lemma_lit("ousli"); lemma_has(w, sb("ousli")); }
pub proof fn lit_ous(w: Seq<u8>)
    ensures sb("ous").len() == 3 && sb("ous")[0] == 111u8 && sb("ous")[1] == 117u8 && sb("ous")[2] == 115u8,
        has(w, sb("ous")) ==> w.len() >= 3 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 117u8,
{ reveal_strlit("ous"); lemma_lit("ous"); lemma_has(w, sb("ous")); }
pub proof fn lit_ization(w: Seq<u8>)
    ensures sb("ization").len() == 7 && sb("ization")[0] == 105u8 && sb("ization")[1] == 122u8 && sb("ization")[2] == 97u8 && sb("ization")[3] == 116u8 && sb("ization")[4] == 105u8 && sb("ization")[5] == 111u8 && sb("ization")[6] == 110u8,
        has(w, sb("ization")) ==> w.len() >= 7 && w[w.len() - 1] == 110u8 && w[w.len() - 2] == 111u8,
{ reveal_strlit("ization"); lemma_lit("ization"); lemma_has(w, sb("ization")); }
pub proof fn lit_ation(w: Seq<u8>)
    ensures sb("ation").len() == 5 && sb("ation")[0] == 97u8 && sb("ation")[1] == 116u8 && sb("ation")[2] == 105u8 && sb("ation")[3] == 111u8 && sb("ation")[4] == 110u8,
        has(w, sb("ation")) ==> w.len() >= 5 && w[w.len() - 1] == 110u8 && w[w.len() - 2] == 111u8,
{ reveal_strlit("ation"); lemma_lit("ation"); lemma_has(w, sb("ation")); }
pub proof fn lit_ator(w: Seq<u8>)
    ensures sb("ator").len() == 4 && sb("ator")[0] == 97u8 && sb("ator")[1] == 116u8 && sb("ator")[2] == 111u8 && sb("ator")[3] == 114u8,
        has(w, sb("ator")) ==> w.len() >= 4 && w[w.len() - 1] == 114u8 && w[w.len() - 2] == 111u8,
{ reveal_strlit("ator"); lemma_lit("ator"); lemma_has(w, sb("ator")); }
pub proof fn lit_alism(w: Seq<u8>)
    ensures sb("alism").len() == 5 && sb("alism")[0] == 97u8 && sb("alism")[1] == 108u8 && sb("alism")[2] == 105u8 && sb("alism")[3] == 115u8 && sb("alism")[4] == 109u8,
        has(w, sb("alism")) ==> w.len() >= 5 && w[w.len() - 1] == 109u8 && w[w.len() - 2] == 115u8,
{ reveal_strlit("alism"); lemma_lit("alism"); lemma_has(w, sb("alism")); }
pub proof fn lit_iveness(w: Seq<u8>)
    ensures sb("iveness").len() == 7 && sb("iveness")[0] == 105u8 && sb("iveness")[1] == 118u8 && sb("iveness")[2] == 101u8 && sb("iveness")[3] == 110u8 && sb("iveness")[4] == 101u8 && sb("iveness")[5] == 115u8 && sb("iveness")[6] == 115u8,
        has(w, sb("iveness")) ==> w.len() >= 7 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
{ reveal_strlit("iveness"); lemma_lit("iveness"); lemma_has(w, sb("iveness")); }
pub proof fn lit_ive(w: Seq<u8>)
    ensures sb("ive").len() == 3 && sb("ive")[0] == 105u8 && sb("ive")[1] == 118u8 && sb("ive")[2] == 101u8,
        has(w, sb("ive")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 118u8,
{ reveal_strlit("ive"); lemma_lit("ive"); lemma_has(w, sb("ive")); }
pub proof fn lit_fulness(w: Seq<u8>)
    ensures sb("fulness").len() == 7 && sb("fulness")[0] == 102u8 && sb("fulness")[1] == 117u8 && sb("fulness")[2] == 108u8 && sb("fulness")[3] == 110u8 && sb("fulness")[4] == 101u8 && sb("fulness")[5] == 115u8 && sb("fulness")[6] == 115u8,
        has(w, sb("fulness")) ==> w.len() >= 7 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
{ reveal_strlit("fulness"); lemma_lit("fulness"); lemma_has(w, sb("fulness")); }
pub proof fn lit_ful(w: Seq<u8>)
    ensures sb("ful").len() == 3 && sb("ful")[0] == 102u8 && sb("ful")[1] == 117u8 && sb("ful")[2] == 108u8,
        has(w, sb("ful")) ==> w.len() >= 3 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 117u8,
{ reveal_strlit("ful"); lemma_lit("ful"); lemma_has(w, sb("ful")); }
pub proof fn lit_ousness(w: Seq<u8>)
    ensures sb("ousness").len() == 7 && sb("ousness")[0] == 111u8 && sb("ousness")[1] == 117u8 && sb("ousness")[2] == 115u8 && sb("ousness")[3] == 110u8 && sb("ousness")[4] == 101u8 && sb("ousness")[5] == 115u8 && sb("ousness")[6] == 115u8,
        has(w, sb("ousness")) ==> w.len() >= 7 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
{ reveal_strlit("ousness"); lemma_lit("ousness"); lemma_has(w, sb("ousness")); }
pub proof fn lit_aliti(w: Seq<u8>)
    ensures sb("aliti").len() == 5 && sb("aliti")[0] == 97u8 && sb("aliti")[1] == 108u8 && sb("aliti")[2] == 105u8 && sb("aliti")[3] == 116u8 && sb("aliti")[4] == 105u8,
        has(w, sb("aliti")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
{ reveal_strlit("aliti"); lemma_lit("aliti"); lemma_has(w, sb("aliti")); }
pub proof fn lit_iviti(w: Seq<u8>)
    ensures sb("iviti").len() == 5 && sb("iviti")[0] == 105u8 && sb("iviti")[1] == 118u8 && sb("iviti")[2] == 105u8 && sb("iviti")[3] == 116u8 && sb("iviti")[4] == 105u8,
        has(w, sb("iviti")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
{ reveal_strlit("iviti"); lemma_lit("iviti"); lemma_has(w, sb("iviti")); }
pub proof fn lit_biliti(w: Seq<u8>)
    ensures sb("biliti").len() == 6 && sb("biliti")[0] == 98u8 && sb("biliti")[1] == 105u8 && sb("biliti")[2] == 108u8 && sb("biliti")[3] == 105u8 && sb("biliti")[4] == 116u8 && sb("biliti")[5] == 105u8,
        has(w, sb("biliti")) ==> w.len() >= 6 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
{ reveal_strlit("biliti"); lemma_lit("biliti"); lemma_has(w, sb("biliti")); }
pub proof fn lit_logi(w: Seq<u8>)
    ensures sb("logi").len() == 4 && sb("logi")[0] == 108u8 && sb("logi")[1] == 111u8 && sb("logi")[2] == 103u8 && sb("logi")[3] == 105u8,
        has(w, sb("logi")) ==> w.len() >= 4 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 103u8,
{ reveal_strlit("logi"); lemma_lit("logi"); lemma_has(w, sb("logi")); }
pub proof fn lit_log(w: Seq<u8>)
    ensures sb("log").len() == 3 && sb("log")[0] == 108u8 && sb("log")[1] == 111u8 && sb("log")[2] == 103u8,
        has(w, sb("log")) ==> w.len() >= 3 && w[w.len() - 1] == 103u8 && w[w.len() - 2] == 111u8,
{ reveal_strlit("log"); lemma_lit("log"); lemma_has(w, sb("log")); }
pub proof fn lit_icate(w: Seq<u8>)
    ensures sb("icate").len() == 5 && sb("icate")[0] == 105u8 && sb("icate")[1] == 99u8 && sb("icate")[2] == 97u8 && sb("icate")[3] == 116u8 && sb("icate")[4] == 101u8,
        has(w, sb("icate")) ==> w.len() >= 5 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 116u8,
{ reveal_strlit("icate"); lemma_lit("icate"); lemma_has(w, sb("icate")); }
pub proof fn lit_ic(w: Seq<u8>)
    ensures sb("ic").len() == 2 && sb("ic")[0] == 105u8 && sb("ic")[1] == 99u8,
        has(w, sb("ic")) ==> w.len() >= 2 && w[w.len() - 1] == 99u8 && w[w.len() - 2] == 105u8,
{ reveal_strlit("ic"); lemma_lit("ic"); lemma_has(w, sb("ic")); }
pub proof fn lit_ative(w: Seq<u8>)
    ensures sb("ative").len() == 5 && sb("ative")[0] == 97u8 && sb("ative")[1] == 116u8 && sb("ative")[2] == 105u8 && sb("ative")[3] == 118u8 && sb("ative")[4] == 101u8,
        has(w, sb("ative")) ==> w.len() >= 5 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 118u8,
{ reveal_strlit("ative"); lemma_lit("ative"); lemma_has(w, sb("ative")); }
pub proof fn lit_alize(w: Seq<u8>)
    ensures sb("alize").len() == 5 && sb("alize")[0] == 97u8 && sb("alize")[1] == 108u8 && sb("alize")[2] == 105u8 && sb("alize")[3] == 122u8 && sb("alize")[4] == 101u8,
        has(w, sb("alize")) ==> w.len() >= 5 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 122u8,
{ reveal_strlit("alize"); lemma_lit("alize"); lemma_has(w, sb("alize")); }
pub proof fn lit_iciti(w: Seq<u8>)
    ensures sb("iciti").len() == 5 && sb("iciti")[0] == 105u8 && sb("iciti")[1] == 99u8 && sb("iciti")[2] == 105u8 && sb("iciti")[3] == 116u8 && sb("iciti")[4] == 105u8,
        has(w, sb("iciti")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
{ reveal_strlit("iciti"); lemma_lit("iciti"); lemma_has(w, sb("iciti")); }
pub proof fn lit_ical(w: Seq<u8>)
    ensures sb("ical").len() == 4 && sb("ical")[0] == 105u8 && sb("ical")[1] == 99u8 && sb("ical")[2] == 97u8 && sb("ical")[3] == 108u8,
        has(w, sb("ical")) ==> w.len() >= 4 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
{ reveal_strlit("ical"); lemma_lit("ical"); lemma_has(w, sb("ical")); }
pub proof fn lit_ness(w: Seq<u8>)
    ensures sb("ness").len() == 4 && sb("ness")[0] == 110u8 && sb("ness")[1] == 101u8 && sb("ness")[2] == 115u8 && sb("ness")[3] == 115u8,
        has(w, sb("ness")) ==> w.len() >= 4 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
{ reveal_strlit("ness"); lemma_lit("ness"); lemma_has(w, sb("ness")); }
pub proof fn lit_empty(w: Seq<u8>)
    ensures sb("").len() == 0,
{ reveal_strlit(""); lemma_lit(""); lemma_has(w, sb("")); }
pub proof fn lit_er(w: Seq<u8>)
    ensures sb("er").len() == 2 && sb("er")[0] == 101u8 && sb("er")[1] == 114u8,
        has(w, sb("er")) ==> w.len() >= 2 && w[w.len() - 1] == 114u8 && w[w.len() - 2] == 101u8,
{ reveal_strlit("er"); lemma_lit("er"); lemma_has(w, sb("er")); }
pub proof fn lit_able(w: Seq<u8>)
    ensures sb("able").len() == 4 && sb("able")[0] == 97u8 && sb("able")[1] == 98u8 && sb("able")[2] == 108u8 && sb("able")[3] == 101u8,
        has(w, sb("able")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 108u8,
{ reveal_strlit("able"); lemma_lit("able"); lemma_has(w, sb("able")); }
pub proof fn lit_ible(w: Seq<u8>)
    ensures sb("ible").len() == 4 && sb("ible")[0] == 105u8 && sb("ible")[1] == 98u8 && sb("ible")[2] == 108u8 && sb("ible")[3] == 101u8,
        has(w, sb("ible")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 108u8,
{ reveal_strlit("ible"); lemma_lit("ible"); lemma_has(w, sb("ible")); }
pub proof fn lit_ant(w: Seq<u8>)
    ensures sb("ant").len() == 3 && sb("ant")[0] == 97u8 && sb("ant")[1] == 110u8 && sb("ant")[2] == 116u8,
        has(w, sb("ant")) ==> w.len() >= 3 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 110u8,
{ reveal_strlit("ant"); lemma_lit("ant"); lemma_has(w, sb("ant")); }
pub proof fn lit_ement(w: Seq<u8>)
    ensures sb("ement").len() == 5 && sb("ement")[0] == 101u8 && sb("ement")[1] == 109u8 && sb("ement")[2] == 101u8 && sb("ement")[3] == 110u8 && sb("ement")[4] == 116u8,
        has(w, sb("ement")) ==> w.len() >= 5 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 110u8,
{ reveal_strlit("ement"); lemma_lit("ement"); lemma_has(w, sb("ement")); }
pub proof fn lit_ment(w: Seq<u8>)
    ensures sb("ment").len() == 4 && sb("ment")[0] == 109u8 && sb("ment")[1] == 101u8 && sb("ment")[2] == 110u8 && sb("ment")[3] == 116u8,
        has(w, sb("ment")) ==> w.len() >= 4 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 110u8,
{ reveal_strlit("ment"); lemma_lit("ment"); lemma_has(w, sb("ment")); }
pub proof fn lit_ion(w: Seq<u8>)
    ensures sb("ion").len() == 3 && sb("ion")[0] == 105u8 && sb("ion")[1] == 111u8 && sb("ion")[2] == 110u8,
        has(w, sb("ion")) ==> w.len() >= 3 && w[w.len() - 1] == 110u8 && w[w.len() - 2] == 111u8,
{ reveal_strlit("ion"); lemma_lit("ion"); lemma_has(w, sb("ion")); }
pub proof fn lit_ou(w: Seq<u8>)
    ensures sb("ou").len() == 2 && sb("ou")[0] == 111u8 && sb("ou")[1] == 117u8,
        has(w, sb("ou")) ==> w.len() >= 2 && w[w.len() - 1] == 117u8 && w[w.len() - 2] == 111u8,
{ reveal_strlit("ou"); lemma_lit("ou"); lemma_has(w, sb("ou")); }
pub proof fn lit_ism(w: Seq<u8>)
    ensures sb("ism").len() == 3 && sb("ism")[0] == 105u8 && sb("ism")[1] == 115u8 && sb("ism")[2] == 109u8,
        has(w, sb("ism")) ==> w.len() >= 3 && w[w.len() - 1] == 109u8 && w[w.len() - 2] == 115u8,
{ reveal_strlit("ism"); lemma_lit("ism"); lemma_has(w, sb("ism")); }
pub proof fn lit_iti(w: Seq<u8>)
    ensures sb("iti").len() == 3 && sb("iti")[0] == 105u8 && sb("iti")[1] == 116u8 && sb("iti")[2] == 105u8,
        has(w, sb("iti")) ==> w.len() >= 3 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
{ reveal_strlit("iti"); lemma_lit("iti"); lemma_has(w, sb("iti")); }
pub proof fn lemma_lits_1(w: Seq<u8>)
    ensures
        sb("sses").len() == 4 && sb("sses")[0] == 115u8 && sb("sses")[1] == 115u8 && sb("sses")[2] == 101u8 && sb("sses")[3] == 115u8,
        has(w, sb("sses")) ==> w.len() >= 4 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 101u8,
        sb("ies").len() == 3 && sb("ies")[0] == 105u8 && sb("ies")[1] == 101u8 && sb("ies")[2] == 115u8,
        has(w, sb("ies")) ==> w.len() >= 3 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 101u8,
        sb("eed").len() == 3 && sb("eed")[0] == 101u8 && sb("eed")[1] == 101u8 && sb("eed")[2] == 100u8,
        has(w, sb("eed")) ==> w.len() >= 3 && w[w.len() - 1] == 100u8 && w[w.len() - 2] == 101u8,
        sb("ed").len() == 2 && sb("ed")[0] == 101u8 && sb("ed")[1] == 100u8,
        has(w, sb("ed")) ==> w.len() >= 2 && w[w.len() - 1] == 100u8 && w[w.len() - 2] == 101u8,
        sb("ing").len() == 3 && sb("ing")[0] == 105u8 && sb("ing")[1] == 110u8 && sb("ing")[2] == 103u8,
        has(w, sb("ing")) ==> w.len() >= 3 && w[w.len() - 1] == 103u8 && w[w.len() - 2] == 110u8,
        sb("at").len() == 2 && sb("at")[0] == 97u8 && sb("at")[1] == 116u8,
        has(w, sb("at")) ==> w.len() >= 2 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 97u8,
        sb("ate").len() == 3 && sb("ate")[0] == 97u8 && sb("ate")[1] == 116u8 && sb("ate")[2] == 101u8,
        has(w, sb("ate")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 116u8,
        sb("bl").len() == 2 && sb("bl")[0] == 98u8 && sb("bl")[1] == 108u8,
        has(w, sb("bl")) ==> w.len() >= 2 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 98u8,
        sb("ble").len() == 3 && sb("ble")[0] == 98u8 && sb("ble")[1] == 108u8 && sb("ble")[2] == 101u8,
        has(w, sb("ble")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 108u8,
        sb("iz").len() == 2 && sb("iz")[0] == 105u8 && sb("iz")[1] == 122u8,
        has(w, sb("iz")) ==> w.len() >= 2 && w[w.len() - 1] == 122u8 && w[w.len() - 2] == 105u8,
        sb("ize").len() == 3 && sb("ize")[0] == 105u8 && sb("ize")[1] == 122u8 && sb("ize")[2] == 101u8,
        has(w, sb("ize")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 122u8,
        sb("e").len() == 1 && sb("e")[0] == 101u8,
        has(w, sb("e")) ==> w.len() >= 1 && w[w.len() - 1] == 101u8,
        sb("ss").len() == 2 && sb("ss")[0] == 115u8 && sb("ss")[1] == 115u8,
        has(w, sb("ss")) ==> w.len() >= 2 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
        sb("i").len() == 1 && sb("i")[0] == 105u8,
        has(w, sb("i")) ==> w.len() >= 1 && w[w.len() - 1] == 105u8,
        sb("s").len() == 1 && sb("s")[0] == 115u8,
        has(w, sb("s")) ==> w.len() >= 1 && w[w.len() - 1] == 115u8,
        sb("ee").len() == 2 && sb("ee")[0] == 101u8 && sb("ee")[1] == 101u8,
        has(w, sb("ee")) ==> w.len() >= 2 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 101u8,
{ lit_sses(w); lit_ies(w); lit_eed(w); lit_ed(w); lit_ing(w); lit_at(w); lit_ate(w); lit_bl(w); lit_ble(w); lit_iz(w); lit_ize(w); lit_e(w); lit_ss(w); lit_i(w); lit_s(w); lit_ee(w); }
pub proof fn lemma_lits_1c(w: Seq<u8>)
    ensures
        sb("y").len() == 1 && sb("y")[0] == 121u8,
        has(w, sb("y")) ==> w.len() >= 1 && w[w.len() - 1] == 121u8,
{ lit_y(w); }
pub proof fn lemma_lits_2(w: Seq<u8>)
    ensures
        sb("ational").len() == 7 && sb("ational")[6] == 108u8 && sb("ational")[5] == 97u8,
        has(w, sb("ational")) ==> w.len() >= 7 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
        sb("ate").len() == 3 && sb("ate")[2] == 101u8 && sb("ate")[1] == 116u8,
        has(w, sb("ate")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 116u8,
        sb("tional").len() == 6 && sb("tional")[5] == 108u8 && sb("tional")[4] == 97u8,
        has(w, sb("tional")) ==> w.len() >= 6 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
        sb("tion").len() == 4 && sb("tion")[3] == 110u8 && sb("tion")[2] == 111u8,
        has(w, sb("tion")) ==> w.len() >= 4 && w[w.len() - 1] == 110u8 && w[w.len() - 2] == 111u8,
        sb("enci").len() == 4 && sb("enci")[3] == 105u8 && sb("enci")[2] == 99u8,
        has(w, sb("enci")) ==> w.len() >= 4 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 99u8,
        sb("ence").len() == 4 && sb("ence")[3] == 101u8 && sb("ence")[2] == 99u8,
        has(w, sb("ence")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 99u8,
        sb("anci").len() == 4 && sb("anci")[3] == 105u8 && sb("anci")[2] == 99u8,
        has(w, sb("anci")) ==> w.len() >= 4 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 99u8,
        sb("ance").len() == 4 && sb("ance")[3] == 101u8 && sb("ance")[2] == 99u8,
        has(w, sb("ance")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 99u8,
        sb("izer").len() == 4 && sb("izer")[3] == 114u8 && sb("izer")[2] == 101u8,
        has(w, sb("izer")) ==> w.len() >= 4 && w[w.len() - 1] == 114u8 && w[w.len() - 2] == 101u8,
        sb("ize").len() == 3 && sb("ize")[2] == 101u8 && sb("ize")[1] == 122u8,
        has(w, sb("ize")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 122u8,
        sb("bli").len() == 3 && sb("bli")[2] == 105u8 && sb("bli")[1] == 108u8,
        has(w, sb("bli")) ==> w.len() >= 3 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
        sb("ble").len() == 3 && sb("ble")[2] == 101u8 && sb("ble")[1] == 108u8,
        has(w, sb("ble")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 108u8,
        sb("alli").len() == 4 && sb("alli")[3] == 105u8 && sb("alli")[2] == 108u8,
        has(w, sb("alli")) ==> w.len() >= 4 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
        sb("al").len() == 2 && sb("al")[1] == 108u8 && sb("al")[0] == 97u8,
        has(w, sb("al")) ==> w.len() >= 2 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
        sb("entli").len() == 5 && sb("entli")[4] == 105u8 && sb("entli")[3] == 108u8,
        has(w, sb("entli")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
        sb("ent").len() == 3 && sb("ent")[2] == 116u8 && sb("ent")[1] == 110u8,
        has(w, sb("ent")) ==> w.len() >= 3 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 110u8,
        sb("eli").len() == 3 && sb("eli")[2] == 105u8 && sb("eli")[1] == 108u8,
        has(w, sb("eli")) ==> w.len() >= 3 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
        sb("e").len() == 1 && sb("e")[0] == 101u8,
        has(w, sb("e")) ==> w.len() >= 1 && w[w.len() - 1] == 101u8,
        sb("ousli").len() == 5 && sb("ousli")[4] == 105u8 && sb("ousli")[3] == 108u8,
        has(w, sb("ousli")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 108u8,
        sb("ous").len() == 3 && sb("ous")[2] == 115u8 && sb("ous")[1] == 117u8,
        has(w, sb("ous")) ==> w.len() >= 3 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 117u8,
        sb("ization").len() == 7 && sb("ization")[6] == 110u8 && sb("ization")[5] == 111u8,
        has(w, sb("ization")) ==> w.len() >= 7 && w[w.len() - 1] == 110u8 && w[w.len() - 2] == 111u8,
        sb("ation").len() == 5 && sb("ation")[4] == 110u8 && sb("ation")[3] == 111u8,
        has(w, sb("ation")) ==> w.len() >= 5 && w[w.len() - 1] == 110u8 && w[w.len() - 2] == 111u8,
        sb("ator").len() == 4 && sb("ator")[3] == 114u8 && sb("ator")[2] == 111u8,
        has(w, sb("ator")) ==> w.len() >= 4 && w[w.len() - 1] == 114u8 && w[w.len() - 2] == 111u8,
        sb("alism").len() == 5 && sb("alism")[4] == 109u8 && sb("alism")[3] == 115u8,
        has(w, sb("alism")) ==> w.len() >= 5 && w[w.len() - 1] == 109u8 && w[w.len() - 2] == 115u8,
        sb("iveness").len() == 7 && sb("iveness")[6] == 115u8 && sb("iveness")[5] == 115u8,
        has(w, sb("iveness")) ==> w.len() >= 7 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
        sb("ive").len() == 3 && sb("ive")[2] == 101u8 && sb("ive")[1] == 118u8,
        has(w, sb("ive")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 118u8,
        sb("fulness").len() == 7 && sb("fulness")[6] == 115u8 && sb("fulness")[5] == 115u8,
        has(w, sb("fulness")) ==> w.len() >= 7 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
        sb("ful").len() == 3 && sb("ful")[2] == 108u8 && sb("ful")[1] == 117u8,
        has(w, sb("ful")) ==> w.len() >= 3 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 117u8,
        sb("ousness").len() == 7 && sb("ousness")[6] == 115u8 && sb("ousness")[5] == 115u8,
        has(w, sb("ousness")) ==> w.len() >= 7 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
        sb("aliti").len() == 5 && sb("aliti")[4] == 105u8 && sb("aliti")[3] == 116u8,
        has(w, sb("aliti")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
        sb("iviti").len() == 5 && sb("iviti")[4] == 105u8 && sb("iviti")[3] == 116u8,
        has(w, sb("iviti")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
        sb("biliti").len() == 6 && sb("biliti")[5] == 105u8 && sb("biliti")[4] == 116u8,
        has(w, sb("biliti")) ==> w.len() >= 6 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
        sb("logi").len() == 4 && sb("logi")[3] == 105u8 && sb("logi")[2] == 103u8,
        has(w, sb("logi")) ==> w.len() >= 4 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 103u8,
        sb("log").len() == 3 && sb("log")[2] == 103u8 && sb("log")[1] == 111u8,
        has(w, sb("log")) ==> w.len() >= 3 && w[w.len() - 1] == 103u8 && w[w.len() - 2] == 111u8,
{ lit_ational(w); lit_ate(w); lit_tional(w); lit_tion(w); lit_enci(w); lit_ence(w); lit_anci(w); lit_ance(w); lit_izer(w); lit_ize(w); lit_bli(w); lit_ble(w); lit_alli(w); lit_al(w); lit_entli(w); lit_ent(w); lit_eli(w); lit_e(w); lit_ousli(w); lit_ous(w); lit_ization(w); lit_ation(w); lit_ator(w); lit_alism(w); lit_iveness(w); lit_ive(w); lit_fulness(w); lit_ful(w); lit_ousness(w); lit_aliti(w); lit_iviti(w); lit_biliti(w); lit_logi(w); lit_log(w); }
pub proof fn lemma_lits_3(w: Seq<u8>)
    ensures
        sb("icate").len() == 5 && sb("icate")[4] == 101u8 && sb("icate")[3] == 116u8,
        has(w, sb("icate")) ==> w.len() >= 5 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 116u8,
        sb("ic").len() == 2 && sb("ic")[1] == 99u8 && sb("ic")[0] == 105u8,
        has(w, sb("ic")) ==> w.len() >= 2 && w[w.len() - 1] == 99u8 && w[w.len() - 2] == 105u8,
        sb("ative").len() == 5 && sb("ative")[4] == 101u8 && sb("ative")[3] == 118u8,
        has(w, sb("ative")) ==> w.len() >= 5 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 118u8,
        sb("alize").len() == 5 && sb("alize")[4] == 101u8 && sb("alize")[3] == 122u8,
        has(w, sb("alize")) ==> w.len() >= 5 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 122u8,
        sb("al").len() == 2 && sb("al")[1] == 108u8 && sb("al")[0] == 97u8,
        has(w, sb("al")) ==> w.len() >= 2 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
        sb("iciti").len() == 5 && sb("iciti")[4] == 105u8 && sb("iciti")[3] == 116u8,
        has(w, sb("iciti")) ==> w.len() >= 5 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
        sb("ical").len() == 4 && sb("ical")[3] == 108u8 && sb("ical")[2] == 97u8,
        has(w, sb("ical")) ==> w.len() >= 4 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
        sb("ful").len() == 3 && sb("ful")[2] == 108u8 && sb("ful")[1] == 117u8,
        has(w, sb("ful")) ==> w.len() >= 3 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 117u8,
        sb("ness").len() == 4 && sb("ness")[3] == 115u8 && sb("ness")[2] == 115u8,
        has(w, sb("ness")) ==> w.len() >= 4 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 115u8,
        sb("").len() == 0,
{ lit_icate(w); lit_ic(w); lit_ative(w); lit_alize(w); lit_al(w); lit_iciti(w); lit_ical(w); lit_ful(w); lit_ness(w); lit_empty(w); }
pub proof fn lemma_lits_4(w: Seq<u8>)
    ensures
        sb("al").len() == 2 && sb("al")[1] == 108u8 && sb("al")[0] == 97u8,
        has(w, sb("al")) ==> w.len() >= 2 && w[w.len() - 1] == 108u8 && w[w.len() - 2] == 97u8,
        sb("ance").len() == 4 && sb("ance")[3] == 101u8 && sb("ance")[2] == 99u8,
        has(w, sb("ance")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 99u8,
        sb("ence").len() == 4 && sb("ence")[3] == 101u8 && sb("ence")[2] == 99u8,
        has(w, sb("ence")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 99u8,
        sb("er").len() == 2 && sb("er")[1] == 114u8 && sb("er")[0] == 101u8,
        has(w, sb("er")) ==> w.len() >= 2 && w[w.len() - 1] == 114u8 && w[w.len() - 2] == 101u8,
        sb("ic").len() == 2 && sb("ic")[1] == 99u8 && sb("ic")[0] == 105u8,
        has(w, sb("ic")) ==> w.len() >= 2 && w[w.len() - 1] == 99u8 && w[w.len() - 2] == 105u8,
        sb("able").len() == 4 && sb("able")[3] == 101u8 && sb("able")[2] == 108u8,
        has(w, sb("able")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 108u8,
        sb("ible").len() == 4 && sb("ible")[3] == 101u8 && sb("ible")[2] == 108u8,
        has(w, sb("ible")) ==> w.len() >= 4 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 108u8,
        sb("ant").len() == 3 && sb("ant")[2] == 116u8 && sb("ant")[1] == 110u8,
        has(w, sb("ant")) ==> w.len() >= 3 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 110u8,
        sb("ement").len() == 5 && sb("ement")[4] == 116u8 && sb("ement")[3] == 110u8,
        has(w, sb("ement")) ==> w.len() >= 5 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 110u8,
        sb("ment").len() == 4 && sb("ment")[3] == 116u8 && sb("ment")[2] == 110u8,
        has(w, sb("ment")) ==> w.len() >= 4 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 110u8,
        sb("ent").len() == 3 && sb("ent")[2] == 116u8 && sb("ent")[1] == 110u8,
        has(w, sb("ent")) ==> w.len() >= 3 && w[w.len() - 1] == 116u8 && w[w.len() - 2] == 110u8,
        sb("ion").len() == 3 && sb("ion")[2] == 110u8 && sb("ion")[1] == 111u8,
        has(w, sb("ion")) ==> w.len() >= 3 && w[w.len() - 1] == 110u8 && w[w.len() - 2] == 111u8,
        sb("ou").len() == 2 && sb("ou")[1] == 117u8 && sb("ou")[0] == 111u8,
        has(w, sb("ou")) ==> w.len() >= 2 && w[w.len() - 1] == 117u8 && w[w.len() - 2] == 111u8,
        sb("ism").len() == 3 && sb("ism")[2] == 109u8 && sb("ism")[1] == 115u8,
        has(w, sb("ism")) ==> w.len() >= 3 && w[w.len() - 1] == 109u8 && w[w.len() - 2] == 115u8,
        sb("ate").len() == 3 && sb("ate")[2] == 101u8 && sb("ate")[1] == 116u8,
        has(w, sb("ate")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 116u8,
        sb("iti").len() == 3 && sb("iti")[2] == 105u8 && sb("iti")[1] == 116u8,
        has(w, sb("iti")) ==> w.len() >= 3 && w[w.len() - 1] == 105u8 && w[w.len() - 2] == 116u8,
        sb("ous").len() == 3 && sb("ous")[2] == 115u8 && sb("ous")[1] == 117u8,
        has(w, sb("ous")) ==> w.len() >= 3 && w[w.len() - 1] == 115u8 && w[w.len() - 2] == 117u8,
        sb("ive").len() == 3 && sb("ive")[2] == 101u8 && sb("ive")[1] == 118u8,
        has(w, sb("ive")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 118u8,
        sb("ize").len() == 3 && sb("ize")[2] == 101u8 && sb("ize")[1] == 122u8,
        has(w, sb("ize")) ==> w.len() >= 3 && w[w.len() - 1] == 101u8 && w[w.len() - 2] == 122u8,
{ lit_al(w); lit_ance(w); lit_ence(w); lit_er(w); lit_ic(w); lit_able(w); lit_ible(w); lit_ant(w); lit_ement(w); lit_ment(w); lit_ent(w); lit_ion(w); lit_ou(w); lit_ism(w); lit_ate(w); lit_iti(w); lit_ous(w); lit_ive(w); lit_ize(w); }

/// facts about a word that is the first k bytes of the buffer, in the buffer's own terms
pub broadcast proof fn b_m(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(),
    ensures #[trigger] m(b.subrange(0, k)) == meas(b, k),
{ reveal(m); lemma_prefix_meas(b, k); }
pub broadcast proof fn b_dbl(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(),
    ensures #[trigger] dbl(b.subrange(0, k)) == (k >= 2 && b[k - 1] == b[k - 2] && b[k - 1] < 128 && cons(b, k - 1)),
{ reveal(dbl); lemma_prefix_meas(b, k); }
pub broadcast proof fn b_staro(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(),
    ensures #[trigger] staro(b.subrange(0, k)) == (k >= 3 && cons(b, k - 1) && !cons(b, k - 2) && cons(b, k - 3)
        && b[k - 1] != 119u8 && b[k - 1] != 120u8 && b[k - 1] != 121u8),
{ reveal(staro); lemma_prefix_meas(b, k); }
pub broadcast proof fn b_hasv(b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(),
    ensures #[trigger] hasv(b.subrange(0, k)) == exists|i: int| 0 <= i < k && !#[trigger] cons(b, i),
{ lemma_prefix_meas(b, k); }
pub broadcast proof fn b_drop(b: Seq<u8>, k: int)
    requires 1 <= k <= b.len(),
    ensures #[trigger] b.subrange(0, k).drop_last() == b.subrange(0, k - 1),
{ assert(b.subrange(0, k).drop_last() =~= b.subrange(0, k - 1)); }
/// suffix facts of step 1
pub broadcast proof fn b_short(w: Seq<u8>, s: Seq<u8>)
    ensures #![trigger has(w, s)]
        s.len() == 1 ==> has(w, s) == (w.len() >= 1 && w[w.len() - 1] == s[0]),
        s.len() == 2 ==> has(w, s) == (w.len() >= 2 && w[w.len() - 2] == s[0] && w[w.len() - 1] == s[1]),
{
    reveal(has);
    if s.len() == 1 && w.len() >= 1 { assert(w.subrange(w.len() - 1, w.len() as int) =~= seq![w[w.len() - 1]]); assert(s =~= seq![s[0]]); if has(w, s) { assert(seq![w[w.len() - 1]][0] == seq![s[0]][0]); } }
    if s.len() == 2 && w.len() >= 2 {
        let t = w.subrange(w.len() - 2, w.len() as int);
        assert(t[0] == w[w.len() - 2] && t[1] == w[w.len() - 1]);
        if has(w, s) { assert(t == s); }
    }
}
/// removing a suffix and putting back its beginning keeps a prefix of the word
pub broadcast proof fn b_keep(b: Seq<u8>, k: int, s: Seq<u8>, t: Seq<u8>)
    requires 0 <= k <= b.len(), has(b.subrange(0, k), s), t.len() <= s.len(), forall|i: int| 0 <= i < t.len() ==> t[i] == s[i],
    ensures #![trigger cut(b.subrange(0, k), s) + t] cut(b.subrange(0, k), s) + t == b.subrange(0, k - s.len() + t.len()),
{
    reveal(has); reveal(cut);
    let w = b.subrange(0, k);
    let z = w.subrange(w.len() - s.len(), w.len() as int);
    assert(z =~= s);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] w[w.len() - s.len() + i] == t[i] by { assert(z[i] == s[i]); }
    assert(cut(w, s) + t =~= b.subrange(0, k - s.len() + t.len()));
}
pub broadcast proof fn b_cut(b: Seq<u8>, k: int, s: Seq<u8>)
    requires 0 <= k <= b.len(), s.len() <= k,
    ensures #[trigger] cut(b.subrange(0, k), s) == b.subrange(0, k - s.len()),
{ reveal(cut); assert(cut(b.subrange(0, k), s) =~= b.subrange(0, k - s.len())); }
pub broadcast group group_word { b_m, b_dbl, b_staro, b_hasv, b_drop, b_short, b_keep, b_cut }

//@struct src/lang/en.rs PorterStemmer
impl PorterStemmer {
    pub open spec fn ok(&self) -> bool { self.k <= self.b.len() }
    pub open spec fn w(&self) -> Seq<u8> { self.b@.subrange(0, self.k as int) }

//@fn src/lang/en.rs PorterStemmer::new
//@spec
        ensures r.is_ok(), r.unwrap().ok(), r.unwrap().w() == lower(encode_utf8(word@)), r.unwrap().b@.len() == r.unwrap().k, valid_utf8(r.unwrap().w()),
//@at wrap
    proof { if r.is_ok() { assert(r.unwrap().w() =~= r.unwrap().b@); } }
//@end

//@fn src/lang/en.rs PorterStemmer::is_consonant
//@spec
        requires i < self.b.len(),
        ensures r == cons(self.b@, i as int),
        decreases i,
//@end

//@fn src/lang/en.rs PorterStemmer::measure
//@spec
        requires self.j <= self.b.len(),
        ensures r == meas(self.b@, self.j as int), r <= self.j,
//@loop 0 loop
            invariant_except_break
                i <= j || j == 0,
                forall|t: int| 0 <= t < i ==> cons(self.b@, t),
                meas(self.b@, i as int) == 0,
            invariant
                n == 0, j == self.j, j <= self.b.len(),
            ensures
                i < j, !cons(self.b@, i as int), meas(self.b@, i as int) == 0, meas(self.b@, i + 1) == 0,
            decreases j - i,
//@loop 1 loop
            invariant
                j == self.j, j <= self.b.len(),
                1 <= i <= j, n <= i,
                !cons(self.b@, i - 1),
                n == meas(self.b@, i as int),
            decreases j - i,
//@at in-loop 1
            let ghost i0 = i;
//@loop 2 loop
                invariant_except_break
                    1 <= i <= j,
                    !cons(self.b@, i - 1),
                    n == meas(self.b@, i as int),
                invariant
                    j == self.j, j <= self.b.len(), n <= i, i0 <= i,
                ensures
                    1 <= i < j, !cons(self.b@, i - 1), cons(self.b@, i as int), n == meas(self.b@, i as int), n <= i,
                decreases j - i,
//@loop 3 loop
                invariant_except_break
                    1 <= i <= j,
                    cons(self.b@, i - 1),
                    n == meas(self.b@, i as int),
                invariant
                    j == self.j, j <= self.b.len(), n <= i, i0 <= i,
                ensures
                    1 <= i < j, cons(self.b@, i - 1), !cons(self.b@, i as int), n == meas(self.b@, i as int), n <= i,
                decreases j - i,
//@end

//@fn src/lang/en.rs PorterStemmer::has_vowel
//@spec
        requires self.j <= self.b.len(),
        ensures r == exists|i: int| 0 <= i < self.j && !#[trigger] cons(self.b@, i),
//@loop 0 for
            invariant self.j <= self.b.len(), forall|t: int| 0 <= t < i ==> cons(self.b@, t),
//@end

//@fn src/lang/en.rs PorterStemmer::double_consonant
//@spec
        requires i < self.b.len(),
        ensures r == (i >= 1 && self.b@[i as int] == self.b@[i - 1] && self.b@[i as int] < 128 && cons(self.b@, i as int)),
//@end

//@fn src/lang/en.rs PorterStemmer::cvc
//@spec
        requires i < self.b.len(),
        ensures r == (i >= 2 && cons(self.b@, i as int) && !cons(self.b@, i - 1) && cons(self.b@, i - 2)
            && self.b@[i as int] != 119u8 && self.b@[i as int] != 120u8 && self.b@[i as int] != 121u8),
//@end

//@fn src/lang/en.rs PorterStemmer::ends
//@spec
        requires old(self).ok(),
        ensures
            final(self).b@ == old(self).b@, final(self).k == old(self).k,
            r == has(old(self).w(), sb(_s)),
            !r ==> final(self).j == old(self).j,
            r ==> {
                &&& final(self).j == old(self).k - sb(_s).len()
                &&& old(self).b@.subrange(0, final(self).j as int) == cut(old(self).w(), sb(_s))
                &&& meas(old(self).b@, final(self).j as int) == m(cut(old(self).w(), sb(_s)))
                &&& (sb(_s).len() >= 2 ==> old(self).b@[old(self).k - 2] == sb(_s)[sb(_s).len() - 2])
                &&& (sb(_s).len() >= 1 ==> old(self).b@[old(self).k - 1] == sb(_s)[sb(_s).len() - 1])
            },
//@at begin
        proof {
            reveal(has); reveal(cut); reveal(m); reveal(sb);
            if sb(_s).len() <= old(self).k {
                let n = old(self).k - sb(_s).len();
                assert(old(self).b@.subrange(0, n) =~= old(self).w().subrange(0, n));
                lemma_prefix_meas(old(self).b@, n);
            }
        }
//@end

//@fn src/lang/en.rs PorterStemmer::set_to
//@spec
        requires old(self).j + sb(s).len() <= old(self).b.len(),
        ensures
            final(self).ok(), final(self).j == old(self).j, final(self).k == old(self).j + sb(s).len(),
            final(self).b@.len() == old(self).b@.len(),
            final(self).w() == old(self).b@.subrange(0, old(self).j as int) + sb(s),
//@at begin
        proof { reveal(sb); }
//@end

//@fn src/lang/en.rs PorterStemmer::r
//@spec
        requires old(self).ok(), old(self).j + sb(s).len() <= old(self).b.len(),
        ensures
            final(self).ok(), final(self).b@.len() == old(self).b@.len(),
            meas(old(self).b@, old(self).j as int) == 0 ==> final(self).w() == old(self).w() && final(self).k == old(self).k,
            meas(old(self).b@, old(self).j as int) > 0 ==> final(self).w() == old(self).b@.subrange(0, old(self).j as int) + sb(s)
                && final(self).k == old(self).j + sb(s).len(),
//@end

//@fn src/lang/en.rs PorterStemmer::step1ab
//@attr #[verifier::rlimit(300)]
//@spec
        requires old(self).ok(), old(self).k >= 3,
        ensures final(self).ok(), final(self).b@.len() == old(self).b@.len(), 1 <= final(self).k <= old(self).k,
            final(self).w() == step1b(step1a(old(self).w())),
//@at begin
        proof { broadcast use group_word; lemma_lits_1(old(self).w());  }
//@end

//@fn src/lang/en.rs PorterStemmer::step1c
//@spec
        requires old(self).ok(), old(self).k >= 1,
        ensures final(self).ok(), final(self).b@.len() == old(self).b@.len(), 1 <= final(self).k <= old(self).k,
            final(self).w() == step1c(old(self).w()),
//@at begin
        proof { broadcast use group_word; lemma_lits_1c(old(self).w());  }
//@end

//@fn src/lang/en.rs PorterStemmer::step2
//@spec
        requires old(self).ok(), old(self).k >= 1,
        ensures final(self).ok(), final(self).b@.len() == old(self).b@.len(), 1 <= final(self).k <= old(self).k,
            final(self).w() == step2(old(self).w()),
//@at begin
        proof { lemma_lits_2(old(self).w());  }
//@end

//@fn src/lang/en.rs PorterStemmer::step3
//@spec
        requires old(self).ok(), old(self).k >= 1,
        ensures final(self).ok(), final(self).b@.len() == old(self).b@.len(), 1 <= final(self).k <= old(self).k,
            final(self).w() == step3(old(self).w()),
//@at begin
        proof { lemma_lits_3(old(self).w());  }
//@end

//@fn src/lang/en.rs PorterStemmer::step4
//@spec
        requires old(self).ok(), old(self).k >= 1,
        ensures final(self).ok(), final(self).b@.len() == old(self).b@.len(), 1 <= final(self).k <= old(self).k,
            final(self).w() == step4(old(self).w()),
//@at begin
        proof { lemma_lits_4(old(self).w());  }
//@end

//@fn src/lang/en.rs PorterStemmer::step5
//@spec
        requires old(self).ok(), old(self).k >= 1,
        ensures final(self).ok(), final(self).b@.len() == old(self).b@.len(), 1 <= final(self).k <= old(self).k,
            final(self).w() == step5b(step5a(old(self).w())),
//@at begin
        proof { broadcast use group_word; lemma_lits_1(old(self).w());  }
//@end

//@fn src/lang/en.rs PorterStemmer::get
//@spec
        requires self.ok(), valid_utf8(self.w()),
        ensures encode_utf8(r@) == self.w(),
//@at begin
        proof { broadcast use axiom_cloned_u8; assert forall|v: Vec<u8>| v@.len() == self.w().len() && (forall|i: int| 0 <= i < v@.len() ==> vstd::pervasive::cloned::<u8>(self.w()[i], #[trigger] v@[i])) implies #[trigger] v@ =~= self.w() by {} }
//@end
}

pub proof fn lemma_first_2()
    ensures sb("ational").len() > 0 && sb("ational")[0] < 128, sb("tional").len() > 0 && sb("tional")[0] < 128, sb("enci").len() > 0 && sb("enci")[0] < 128, sb("anci").len() > 0 && sb("anci")[0] < 128, sb("izer").len() > 0 && sb("izer")[0] < 128, sb("bli").len() > 0 && sb("bli")[0] < 128, sb("alli").len() > 0 && sb("alli")[0] < 128, sb("entli").len() > 0 && sb("entli")[0] < 128, sb("eli").len() > 0 && sb("eli")[0] < 128, sb("ousli").len() > 0 && sb("ousli")[0] < 128, sb("ization").len() > 0 && sb("ization")[0] < 128, sb("ation").len() > 0 && sb("ation")[0] < 128, sb("ator").len() > 0 && sb("ator")[0] < 128, sb("alism").len() > 0 && sb("alism")[0] < 128, sb("iveness").len() > 0 && sb("iveness")[0] < 128, sb("fulness").len() > 0 && sb("fulness")[0] < 128, sb("ousness").len() > 0 && sb("ousness")[0] < 128, sb("aliti").len() > 0 && sb("aliti")[0] < 128, sb("iviti").len() > 0 && sb("iviti")[0] < 128, sb("biliti").len() > 0 && sb("biliti")[0] < 128, sb("logi").len() > 0 && sb("logi")[0] < 128,
{ let w: Seq<u8> = Seq::empty(); lit_ational(w); lit_tional(w); lit_enci(w); lit_anci(w); lit_izer(w); lit_bli(w); lit_alli(w); lit_entli(w); lit_eli(w); lit_ousli(w); lit_ization(w); lit_ation(w); lit_ator(w); lit_alism(w); lit_iveness(w); lit_fulness(w); lit_ousness(w); lit_aliti(w); lit_iviti(w); lit_biliti(w); lit_logi(w); }
pub proof fn lemma_first_3()
    ensures sb("icate").len() > 0 && sb("icate")[0] < 128, sb("ative").len() > 0 && sb("ative")[0] < 128, sb("alize").len() > 0 && sb("alize")[0] < 128, sb("iciti").len() > 0 && sb("iciti")[0] < 128, sb("ical").len() > 0 && sb("ical")[0] < 128, sb("ful").len() > 0 && sb("ful")[0] < 128, sb("ness").len() > 0 && sb("ness")[0] < 128,
{ let w: Seq<u8> = Seq::empty(); lit_icate(w); lit_ative(w); lit_alize(w); lit_iciti(w); lit_ical(w); lit_ful(w); lit_ness(w); }
pub proof fn lemma_first_4()
    ensures sb("al").len() > 0 && sb("al")[0] < 128, sb("ance").len() > 0 && sb("ance")[0] < 128, sb("ence").len() > 0 && sb("ence")[0] < 128, sb("er").len() > 0 && sb("er")[0] < 128, sb("ic").len() > 0 && sb("ic")[0] < 128, sb("able").len() > 0 && sb("able")[0] < 128, sb("ible").len() > 0 && sb("ible")[0] < 128, sb("ant").len() > 0 && sb("ant")[0] < 128, sb("ement").len() > 0 && sb("ement")[0] < 128, sb("ment").len() > 0 && sb("ment")[0] < 128, sb("ent").len() > 0 && sb("ent")[0] < 128, sb("ion").len() > 0 && sb("ion")[0] < 128, sb("ou").len() > 0 && sb("ou")[0] < 128, sb("ism").len() > 0 && sb("ism")[0] < 128, sb("ate").len() > 0 && sb("ate")[0] < 128, sb("iti").len() > 0 && sb("iti")[0] < 128, sb("ous").len() > 0 && sb("ous")[0] < 128, sb("ive").len() > 0 && sb("ive")[0] < 128, sb("ize").len() > 0 && sb("ize")[0] < 128,
{ let w: Seq<u8> = Seq::empty(); lit_al(w); lit_ance(w); lit_ence(w); lit_er(w); lit_ic(w); lit_able(w); lit_ible(w); lit_ant(w); lit_ement(w); lit_ment(w); lit_ent(w); lit_ion(w); lit_ou(w); lit_ism(w); lit_ate(w); lit_iti(w); lit_ous(w); lit_ive(w); lit_ize(w); }
// -- UTF-8 safety of every step ------------------------------------------------------------------
pub proof fn lemma_ascii_boundary(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i < b.len(), b[i] < 128,
    ensures is_char_boundary(b, i),
    decreases b.len(),
{
    if i > 0 {
        let n = length_of_first_scalar(b);
        assert(i >= n);
        let t = pop_first_scalar(b);
        assert(t[i - n] == b[i]);
        lemma_ascii_boundary(t, i - n);
    }
}
pub proof fn lemma_valid_prefix(b: Seq<u8>, i: int)
    requires valid_utf8(b), 0 <= i <= b.len(), i < b.len() ==> b[i] < 128,
    ensures valid_utf8(b.subrange(0, i)),
{
    if i < b.len() { lemma_ascii_boundary(b, i); valid_utf8_split(b, i); }
    else { assert(b.subrange(0, i) =~= b); }
}
pub broadcast proof fn v_cut(w: Seq<u8>, s: Seq<u8>)
    requires valid_utf8(w), has(w, s), s.len() > 0 ==> s[0] < 128,
    ensures valid_utf8(#[trigger] cut(w, s)),
{
    reveal(has); reveal(cut);
    let z = w.subrange(w.len() - s.len(), w.len() as int);
    assert(z =~= s);
    if s.len() > 0 { assert(z[0] == s[0]); assert(w[w.len() - s.len()] == s[0]); }
    lemma_valid_prefix(w, w.len() - s.len());
}
pub broadcast proof fn v_app(w: Seq<u8>, s: &str)
    requires valid_utf8(w),
    ensures valid_utf8(#[trigger] (w + sb(s))),
{ reveal(sb); encode_utf8_valid_utf8(s@); valid_utf8_concat(w, sb(s)); }
pub proof fn v_drop(w: Seq<u8>)
    requires valid_utf8(w), w.len() > 0, w.last() < 128,
    ensures valid_utf8(w.drop_last()),
{ lemma_valid_prefix(w, w.len() - 1); assert(w.drop_last() =~= w.subrange(0, w.len() - 1)); }
pub broadcast group group_valid { v_cut, v_app }

pub proof fn valid_1a(w: Seq<u8>) requires valid_utf8(w), ensures valid_utf8(step1a(w)),
{ broadcast use group_valid; lemma_lits_1(w); }
pub proof fn valid_1b2(w: Seq<u8>) requires valid_utf8(w), ensures valid_utf8(step1b2(w)),
{ broadcast use group_valid; lemma_lits_1(w); reveal(dbl); if dbl(w) { v_drop(w); } }
pub proof fn valid_1b(w: Seq<u8>) requires valid_utf8(w), ensures valid_utf8(step1b(w)),
{
    broadcast use group_valid; lemma_lits_1(w);
    if has(w, sb("ed")) { valid_1b2(cut(w, sb("ed"))); }
    if has(w, sb("ing")) { valid_1b2(cut(w, sb("ing"))); }
}
pub proof fn valid_1c(w: Seq<u8>) requires valid_utf8(w), ensures valid_utf8(step1c(w)),
{
    broadcast use group_valid;
    if w.len() > 0 && w.last() == 121u8 { v_drop(w); lit_i(w); assert(w.drop_last() + sb("i") =~= w.drop_last().push(105u8)); }
}
pub proof fn valid_2(w: Seq<u8>) requires valid_utf8(w), ensures valid_utf8(step2(w)),
{ broadcast use group_valid; lemma_first_2(); }
pub proof fn valid_3(w: Seq<u8>) requires valid_utf8(w), ensures valid_utf8(step3(w)),
{ broadcast use group_valid; lemma_first_3(); }
pub proof fn valid_4(w: Seq<u8>) requires valid_utf8(w), ensures valid_utf8(step4(w)),
{ broadcast use group_valid; lemma_first_4(); }
pub proof fn valid_5(w: Seq<u8>) requires valid_utf8(w), ensures valid_utf8(step5b(step5a(w))),
{
    if w.len() > 0 && w.last() == 101u8 { v_drop(w); }
    let v = step5a(w);
    reveal(dbl);
    if dbl(v) { v_drop(v); }
}

//@fn src/lang/en.rs get
//@spec
    ensures
        r.is_ok(),
        encode_utf8(r.unwrap()@) == english_stem(encode_utf8(word@)),
        encode_utf8(r.unwrap()@).len() <= encode_utf8(word@).len(),
        encode_utf8(word@).len() > 0 ==> encode_utf8(r.unwrap()@).len() > 0,
//@at begin
    proof {
        broadcast use axiom_str_fits;
        let w = lower(encode_utf8(word@));
        if valid_utf8(w) {
            valid_1a(w); valid_1b(step1a(w)); valid_1c(step1b(step1a(w)));
            valid_2(step1c(step1b(step1a(w)))); valid_3(step2(step1c(step1b(step1a(w)))));
            valid_4(step3(step2(step1c(step1b(step1a(w)))))); valid_5(step4(step3(step2(step1c(step1b(step1a(w)))))));
        }
    }
//@end

//@struct src/lang/en.rs Stemmer
impl Stemmer {
//@fn src/lang/en.rs Stemmer::stem
//@spec
    ensures
        r.is_some(),
        encode_utf8(r.unwrap()@) == english_stem(encode_utf8(word@)),
        encode_utf8(r.unwrap()@).len() <= encode_utf8(word@).len(),
        encode_utf8(word@).len() > 0 ==> encode_utf8(r.unwrap()@).len() > 0,
//@end
//@fn src/lang/en.rs <PipelineFn for Stemmer>::filter
//@spec
    ensures
        r.is_some(),
        encode_utf8(r.unwrap()@) == english_stem(encode_utf8(token@)),
        encode_utf8(r.unwrap()@).len() <= encode_utf8(token@).len(),
        encode_utf8(token@).len() > 0 ==> encode_utf8(r.unwrap()@).len() > 0,
//@end
}

fn main() {}
} // verus!
