// ---------------------------------------------------------------------------------------------
// Porter (1980), over byte sequences. Written from the published algorithm, not from the code.
// ---------------------------------------------------------------------------------------------
pub open spec fn isv(c: u8) -> bool { c == 97 || c == 101 || c == 105 || c == 111 || c == 117 }

/// position i holds a consonant (y is a consonant at the start and after a vowel)
pub open spec fn cons(b: Seq<u8>, i: int) -> bool
    decreases i
{
    if isv(b[i]) { false } else if b[i] == 121u8 { if i <= 0 { true } else { !cons(b, i - 1) } } else { true }
}

/// m of [C](VC)^m[V]: number of vowel-to-consonant transitions in the first n letters
pub open spec fn meas(b: Seq<u8>, n: int) -> nat
    decreases n
{
    if n <= 1 { 0 } else { (meas(b, n - 1) + if !cons(b, n - 2) && cons(b, n - 1) { 1nat } else { 0nat }) as nat }
}

#[verifier::opaque]
pub open spec fn m(w: Seq<u8>) -> nat { meas(w, w.len() as int) }
#[verifier::opaque]
pub open spec fn hasv(w: Seq<u8>) -> bool { exists|i: int| 0 <= i < w.len() && !#[trigger] cons(w, i) }
/// *d, restricted to ASCII letters
#[verifier::opaque]
pub open spec fn dbl(w: Seq<u8>) -> bool {
    w.len() >= 2 && w[w.len() - 1] == w[w.len() - 2] && w[w.len() - 1] < 128 && cons(w, w.len() - 1)
}
/// *o
#[verifier::opaque]
pub open spec fn staro(w: Seq<u8>) -> bool {
    w.len() >= 3 && cons(w, w.len() - 1) && !cons(w, w.len() - 2) && cons(w, w.len() - 3)
        && w[w.len() - 1] != 119u8 && w[w.len() - 1] != 120u8 && w[w.len() - 1] != 121u8
}
/// bytes of a string
#[verifier::opaque]
pub open spec fn sb(s: &str) -> Seq<u8> { encode_utf8(s@) }
#[verifier::opaque]
pub open spec fn has(w: Seq<u8>, s: Seq<u8>) -> bool {
    s.len() <= w.len() && w.subrange(w.len() - s.len(), w.len() as int) =~= s
}
#[verifier::opaque]
pub open spec fn cut(w: Seq<u8>, s: Seq<u8>) -> Seq<u8> { w.subrange(0, w.len() - s.len()) }
/// (m > 0) suf -> rep
pub open spec fn m0(w: Seq<u8>, suf: &str, rep: &str) -> Seq<u8> {
    if m(cut(w, sb(suf))) > 0 { cut(w, sb(suf)) + sb(rep) } else { w }
}
pub open spec fn m1(w: Seq<u8>, suf: &str) -> Seq<u8> {
    if m(cut(w, sb(suf))) > 1 { cut(w, sb(suf)) } else { w }
}

pub open spec fn step1a(w: Seq<u8>) -> Seq<u8> {
    if has(w, sb("sses")) { cut(w, sb("sses")) + sb("ss") }
    else if has(w, sb("ies")) { cut(w, sb("ies")) + sb("i") }
    else if has(w, sb("ss")) { w }
    else if has(w, sb("s")) { cut(w, sb("s")) }
    else { w }
}
/// clean-up after -ed / -ing was removed
pub open spec fn step1b2(w: Seq<u8>) -> Seq<u8> {
    if has(w, sb("at")) { cut(w, sb("at")) + sb("ate") }
    else if has(w, sb("bl")) { cut(w, sb("bl")) + sb("ble") }
    else if has(w, sb("iz")) { cut(w, sb("iz")) + sb("ize") }
    else if dbl(w) {
        if w.last() == 108u8 || w.last() == 115u8 || w.last() == 122u8 { w } else { w.drop_last() }
    }
    else if m(w) == 1 && staro(w) { w + sb("e") }
    else { w }
}
pub open spec fn step1b(w: Seq<u8>) -> Seq<u8> {
    if has(w, sb("eed")) { if m(cut(w, sb("eed"))) > 0 { cut(w, sb("eed")) + sb("ee") } else { w } }
    else if has(w, sb("ed")) { if hasv(cut(w, sb("ed"))) { step1b2(cut(w, sb("ed"))) } else { w } }
    else if has(w, sb("ing")) { if hasv(cut(w, sb("ing"))) { step1b2(cut(w, sb("ing"))) } else { w } }
    else { w }
}
/// documented departure: elasticlunr.js rule ^(.+?[^aeiou])y$
pub open spec fn step1c(w: Seq<u8>) -> Seq<u8> {
    if w.len() > 2 && w.last() == 121u8 && !isv(w[w.len() - 2]) { w.drop_last().push(105u8) } else { w }
}
pub open spec fn step2(w: Seq<u8>) -> Seq<u8> {
    if has(w, sb("ational")) { m0(w, "ational", "ate") }
    else if has(w, sb("tional")) { m0(w, "tional", "tion") }
    else if has(w, sb("enci")) { m0(w, "enci", "ence") }
    else if has(w, sb("anci")) { m0(w, "anci", "ance") }
    else if has(w, sb("izer")) { m0(w, "izer", "ize") }
    else if has(w, sb("bli")) { m0(w, "bli", "ble") }      // departure
    else if has(w, sb("alli")) { m0(w, "alli", "al") }
    else if has(w, sb("entli")) { m0(w, "entli", "ent") }
    else if has(w, sb("eli")) { m0(w, "eli", "e") }
    else if has(w, sb("ousli")) { m0(w, "ousli", "ous") }
    else if has(w, sb("ization")) { m0(w, "ization", "ize") }
    else if has(w, sb("ation")) { m0(w, "ation", "ate") }
    else if has(w, sb("ator")) { m0(w, "ator", "ate") }
    else if has(w, sb("alism")) { m0(w, "alism", "al") }
    else if has(w, sb("iveness")) { m0(w, "iveness", "ive") }
    else if has(w, sb("fulness")) { m0(w, "fulness", "ful") }
    else if has(w, sb("ousness")) { m0(w, "ousness", "ous") }
    else if has(w, sb("aliti")) { m0(w, "aliti", "al") }
    else if has(w, sb("iviti")) { m0(w, "iviti", "ive") }
    else if has(w, sb("biliti")) { m0(w, "biliti", "ble") }
    else if has(w, sb("logi")) { m0(w, "logi", "log") }    // departure
    else { w }
}
pub open spec fn step3(w: Seq<u8>) -> Seq<u8> {
    if has(w, sb("icate")) { m0(w, "icate", "ic") }
    else if has(w, sb("ative")) { m0(w, "ative", "") }
    else if has(w, sb("alize")) { m0(w, "alize", "al") }
    else if has(w, sb("iciti")) { m0(w, "iciti", "ic") }
    else if has(w, sb("ical")) { m0(w, "ical", "ic") }
    else if has(w, sb("ful")) { m0(w, "ful", "") }
    else if has(w, sb("ness")) { m0(w, "ness", "") }
    else { w }
}
pub open spec fn step4(w: Seq<u8>) -> Seq<u8> {
    if has(w, sb("al")) { m1(w, "al") }
    else if has(w, sb("ance")) { m1(w, "ance") }
    else if has(w, sb("ence")) { m1(w, "ence") }
    else if has(w, sb("er")) { m1(w, "er") }
    else if has(w, sb("ic")) { m1(w, "ic") }
    else if has(w, sb("able")) { m1(w, "able") }
    else if has(w, sb("ible")) { m1(w, "ible") }
    else if has(w, sb("ant")) { m1(w, "ant") }
    else if has(w, sb("ement")) { m1(w, "ement") }
    else if has(w, sb("ment")) { m1(w, "ment") }
    else if has(w, sb("ent")) { m1(w, "ent") }
    else if has(w, sb("ion")) {
        if w.len() > 3 && (w[w.len() - 4] == 115u8 || w[w.len() - 4] == 116u8) { m1(w, "ion") } else { w }
    }
    else if has(w, sb("ou")) { m1(w, "ou") }
    else if has(w, sb("ism")) { m1(w, "ism") }
    else if has(w, sb("ate")) { m1(w, "ate") }
    else if has(w, sb("iti")) { m1(w, "iti") }
    else if has(w, sb("ous")) { m1(w, "ous") }
    else if has(w, sb("ive")) { m1(w, "ive") }
    else if has(w, sb("ize")) { m1(w, "ize") }
    else { w }
}
pub open spec fn step5a(w: Seq<u8>) -> Seq<u8> {
    if w.len() > 0 && w.last() == 101u8 && (m(w.drop_last()) > 1 || (m(w.drop_last()) == 1 && !staro(w.drop_last())))
    { w.drop_last() } else { w }
}
pub open spec fn step5b(w: Seq<u8>) -> Seq<u8> {
    if m(w) > 1 && dbl(w) && w.last() == 108u8 { w.drop_last() } else { w }
}
pub open spec fn porter(w: Seq<u8>) -> Seq<u8> {
    step5b(step5a(step4(step3(step2(step1c(step1b(step1a(w))))))))
}
/// what the English stemmer returns for the bytes of a token
pub open spec fn english_stem(w: Seq<u8>) -> Seq<u8> {
    if w.len() > 2 { porter(lower(w)) } else { w }
}
