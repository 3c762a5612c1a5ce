/// the names and codes of the supported languages (Dutch under "du")
pub open spec fn reg_name(i: int) -> Seq<char> {
    if i == 0 { "English"@ }
    else if i == 1 { "Arabic"@ }
    else if i == 2 { "Chinese"@ }
    else if i == 3 { "Danish"@ }
    else if i == 4 { "Dutch"@ }
    else if i == 5 { "Finnish"@ }
    else if i == 6 { "French"@ }
    else if i == 7 { "German"@ }
    else if i == 8 { "Hungarian"@ }
    else if i == 9 { "Italian"@ }
    else if i == 10 { "Japanese"@ }
    else if i == 11 { "Korean"@ }
    else if i == 12 { "Norwegian"@ }
    else if i == 13 { "Portuguese"@ }
    else if i == 14 { "Romanian"@ }
    else if i == 15 { "Russian"@ }
    else if i == 16 { "Spanish"@ }
    else if i == 17 { "Swedish"@ }
    else if i == 18 { "Turkish"@ }
    else { Seq::empty() }
}
pub open spec fn reg_code(i: int) -> Seq<char> {
    if i == 0 { "en"@ }
    else if i == 1 { "ar"@ }
    else if i == 2 { "zh"@ }
    else if i == 3 { "da"@ }
    else if i == 4 { "du"@ }
    else if i == 5 { "fi"@ }
    else if i == 6 { "fr"@ }
    else if i == 7 { "de"@ }
    else if i == 8 { "hu"@ }
    else if i == 9 { "it"@ }
    else if i == 10 { "ja"@ }
    else if i == 11 { "ko"@ }
    else if i == 12 { "no"@ }
    else if i == 13 { "pt"@ }
    else if i == 14 { "ro"@ }
    else if i == 15 { "ru"@ }
    else if i == 16 { "es"@ }
    else if i == 17 { "sv"@ }
    else if i == 18 { "tr"@ }
    else { Seq::empty() }
}
pub open spec fn is_reg(n: Seq<char>, c: Seq<char>, i: int) -> bool { 0 <= i < 19 && n == reg_name(i) && c == reg_code(i) }
/// some supported language has this name and this code
pub open spec fn registered(n: Seq<char>, c: Seq<char>) -> bool { exists|i: int| is_reg(n, c, i) }
pub open spec fn reg_has_name(n: Seq<char>) -> bool { exists|i: int| 0 <= i < 19 && n == #[trigger] reg_name(i) }
pub open spec fn reg_has_code(c: Seq<char>) -> bool { exists|i: int| 0 <= i < 19 && c == #[trigger] reg_code(i) }
proof fn lemma_reg_name_distinct()
    ensures forall|i: int, j: int| 0 <= i < 19 && 0 <= j < 19 && i != j ==> #[trigger] reg_name(i) != #[trigger] reg_name(j),
{
    reveal_strlit("English");
    reveal_strlit("Arabic");
    reveal_strlit("Chinese");
    reveal_strlit("Danish");
    reveal_strlit("Dutch");
    reveal_strlit("Finnish");
    reveal_strlit("French");
    reveal_strlit("German");
    reveal_strlit("Hungarian");
    reveal_strlit("Italian");
    reveal_strlit("Japanese");
    reveal_strlit("Korean");
    reveal_strlit("Norwegian");
    reveal_strlit("Portuguese");
    reveal_strlit("Romanian");
    reveal_strlit("Russian");
    reveal_strlit("Spanish");
    reveal_strlit("Swedish");
    reveal_strlit("Turkish");
    assert forall|i: int, j: int| 0 <= i < 19 && 0 <= j < 19 && i != j implies #[trigger] reg_name(i) != #[trigger] reg_name(j) by {
        let a = reg_name(i); let b = reg_name(j);
        assert(a.len() != b.len() || a[0] != b[0] || a[1] != b[1] || a[2] != b[2] || a[3] != b[3]);
    }
}
proof fn lemma_reg_code_distinct()
    ensures forall|i: int, j: int| 0 <= i < 19 && 0 <= j < 19 && i != j ==> #[trigger] reg_code(i) != #[trigger] reg_code(j),
{
    reveal_strlit("en");
    reveal_strlit("ar");
    reveal_strlit("zh");
    reveal_strlit("da");
    reveal_strlit("du");
    reveal_strlit("fi");
    reveal_strlit("fr");
    reveal_strlit("de");
    reveal_strlit("hu");
    reveal_strlit("it");
    reveal_strlit("ja");
    reveal_strlit("ko");
    reveal_strlit("no");
    reveal_strlit("pt");
    reveal_strlit("ro");
    reveal_strlit("ru");
    reveal_strlit("es");
    reveal_strlit("sv");
    reveal_strlit("tr");
    assert forall|i: int, j: int| 0 <= i < 19 && 0 <= j < 19 && i != j implies #[trigger] reg_code(i) != #[trigger] reg_code(j) by {
        let a = reg_code(i); let b = reg_code(j);
        assert(a.len() != b.len() || a[0] != b[0] || a[1] != b[1]);
    }
}
proof fn lemma_registered()
    ensures
        registered("English"@, "en"@),
        registered("Arabic"@, "ar"@),
        registered("Chinese"@, "zh"@),
        registered("Danish"@, "da"@),
        registered("Dutch"@, "du"@),
        registered("Finnish"@, "fi"@),
        registered("French"@, "fr"@),
        registered("German"@, "de"@),
        registered("Hungarian"@, "hu"@),
        registered("Italian"@, "it"@),
        registered("Japanese"@, "ja"@),
        registered("Korean"@, "ko"@),
        registered("Norwegian"@, "no"@),
        registered("Portuguese"@, "pt"@),
        registered("Romanian"@, "ro"@),
        registered("Russian"@, "ru"@),
        registered("Spanish"@, "es"@),
        registered("Swedish"@, "sv"@),
        registered("Turkish"@, "tr"@),
{
    assert(is_reg("English"@, "en"@, 0));
    assert(is_reg("Arabic"@, "ar"@, 1));
    assert(is_reg("Chinese"@, "zh"@, 2));
    assert(is_reg("Danish"@, "da"@, 3));
    assert(is_reg("Dutch"@, "du"@, 4));
    assert(is_reg("Finnish"@, "fi"@, 5));
    assert(is_reg("French"@, "fr"@, 6));
    assert(is_reg("German"@, "de"@, 7));
    assert(is_reg("Hungarian"@, "hu"@, 8));
    assert(is_reg("Italian"@, "it"@, 9));
    assert(is_reg("Japanese"@, "ja"@, 10));
    assert(is_reg("Korean"@, "ko"@, 11));
    assert(is_reg("Norwegian"@, "no"@, 12));
    assert(is_reg("Portuguese"@, "pt"@, 13));
    assert(is_reg("Romanian"@, "ro"@, 14));
    assert(is_reg("Russian"@, "ru"@, 15));
    assert(is_reg("Spanish"@, "es"@, 16));
    assert(is_reg("Swedish"@, "sv"@, 17));
    assert(is_reg("Turkish"@, "tr"@, 18));
}
pub open spec fn listed(v: Seq<Box<dyn Language>>, i: int) -> bool { registered(v[i].lname(), v[i].lcode()) }
pub open spec fn lists(v: Seq<Box<dyn Language>>, i: int, n: Seq<char>, c: Seq<char>) -> bool { 0 <= i < v.len() && v[i].lname() == n && v[i].lcode() == c }
pub open spec fn has_lang(v: Seq<Box<dyn Language>>, k: int) -> bool { has_nc(v, reg_name(k), reg_code(k)) }
pub open spec fn has_nc(v: Seq<Box<dyn Language>>, n: Seq<char>, c: Seq<char>) -> bool { exists|i: int| #[trigger] lists(v, i, n, c) }
//@fn src/lang/mod.rs languages
//@spec
    ensures
        r@.len() == 19,
        forall|i: int| 0 <= i < 19 ==> #[trigger] listed(r@, i),
        forall|k: int| 0 <= k < 19 ==> #[trigger] has_lang(r@, k),
//@at wrap
    proof {
        lemma_registered();
        assert(lists(r@, 0, r@[0].lname(), r@[0].lcode()));
        assert(lists(r@, 1, r@[1].lname(), r@[1].lcode()));
        assert(lists(r@, 2, r@[2].lname(), r@[2].lcode()));
        assert(lists(r@, 3, r@[3].lname(), r@[3].lcode()));
        assert(lists(r@, 4, r@[4].lname(), r@[4].lcode()));
        assert(lists(r@, 5, r@[5].lname(), r@[5].lcode()));
        assert(lists(r@, 6, r@[6].lname(), r@[6].lcode()));
        assert(lists(r@, 7, r@[7].lname(), r@[7].lcode()));
        assert(lists(r@, 8, r@[8].lname(), r@[8].lcode()));
        assert(lists(r@, 9, r@[9].lname(), r@[9].lcode()));
        assert(lists(r@, 10, r@[10].lname(), r@[10].lcode()));
        assert(lists(r@, 11, r@[11].lname(), r@[11].lcode()));
        assert(lists(r@, 12, r@[12].lname(), r@[12].lcode()));
        assert(lists(r@, 13, r@[13].lname(), r@[13].lcode()));
        assert(lists(r@, 14, r@[14].lname(), r@[14].lcode()));
        assert(lists(r@, 15, r@[15].lname(), r@[15].lcode()));
        assert(lists(r@, 16, r@[16].lname(), r@[16].lcode()));
        assert(lists(r@, 17, r@[17].lname(), r@[17].lcode()));
        assert(lists(r@, 18, r@[18].lname(), r@[18].lcode()));
        assert(has_nc(r@, "English"@, "en"@));
        assert(has_nc(r@, "Arabic"@, "ar"@));
        assert(has_nc(r@, "Chinese"@, "zh"@));
        assert(has_nc(r@, "Danish"@, "da"@));
        assert(has_nc(r@, "Dutch"@, "du"@));
        assert(has_nc(r@, "Finnish"@, "fi"@));
        assert(has_nc(r@, "French"@, "fr"@));
        assert(has_nc(r@, "German"@, "de"@));
        assert(has_nc(r@, "Hungarian"@, "hu"@));
        assert(has_nc(r@, "Italian"@, "it"@));
        assert(has_nc(r@, "Japanese"@, "ja"@));
        assert(has_nc(r@, "Korean"@, "ko"@));
        assert(has_nc(r@, "Norwegian"@, "no"@));
        assert(has_nc(r@, "Portuguese"@, "pt"@));
        assert(has_nc(r@, "Romanian"@, "ro"@));
        assert(has_nc(r@, "Russian"@, "ru"@));
        assert(has_nc(r@, "Spanish"@, "es"@));
        assert(has_nc(r@, "Swedish"@, "sv"@));
        assert(has_nc(r@, "Turkish"@, "tr"@));
        assert forall|k: int| 0 <= k < 19 implies #[trigger] has_lang(r@, k) by { assert(has_nc(r@, reg_name(k), reg_code(k))); }
    }
//@end
//@fn src/lang/mod.rs from_code
//@spec
    ensures
        r matches Some(l) ==> l.lcode() == ascii_lc(code@) && registered(l.lname(), l.lcode()),
        r is None ==> !reg_has_code(ascii_lc(code@)),
//@at begin
    proof { lemma_registered(); }
//@end
//@fn src/lang/mod.rs from_name
//@spec
    ensures
        r matches Some(l) ==> l.lname() == name@ && registered(l.lname(), l.lcode()),
        r is None ==> !reg_has_name(name@),
//@at begin
    proof { lemma_registered(); }
//@end
/// a language is determined by its name, and by its code
pub proof fn theorem_registry(n: Seq<char>, c: Seq<char>, n2: Seq<char>, c2: Seq<char>)
    requires registered(n, c), registered(n2, c2), n == n2 || c == c2,
    ensures n == n2 && c == c2, reg_has_name(n), reg_has_code(c), ascii_lc(c) == c,
{
    let i = choose|i: int| is_reg(n, c, i);
    let j = choose|j: int| is_reg(n2, c2, j);
    lemma_reg_name_distinct();
    lemma_reg_code_distinct();
    assert(i == j);
    reveal_strlit("en");
    reveal_strlit("ar");
    reveal_strlit("zh");
    reveal_strlit("da");
    reveal_strlit("du");
    reveal_strlit("fi");
    reveal_strlit("fr");
    reveal_strlit("de");
    reveal_strlit("hu");
    reveal_strlit("it");
    reveal_strlit("ja");
    reveal_strlit("ko");
    reveal_strlit("no");
    reveal_strlit("pt");
    reveal_strlit("ro");
    reveal_strlit("ru");
    reveal_strlit("es");
    reveal_strlit("sv");
    reveal_strlit("tr");
    assert(ascii_lc(c) =~= c);
}
/// the listed languages have pairwise distinct names and codes: 19 entries, all 19 registered pairs among them
pub proof fn theorem_listing(v: Seq<Box<dyn Language>>)
    requires v.len() == 19, forall|i: int| 0 <= i < 19 ==> #[trigger] listed(v, i), forall|k: int| 0 <= k < 19 ==> #[trigger] has_lang(v, k),
    ensures forall|i: int, j: int| 0 <= i < 19 && 0 <= j < 19 && i != j ==> (#[trigger] v[i]).lname() != (#[trigger] v[j]).lname() && v[i].lcode() != v[j].lcode(),
{
    lemma_reg_name_distinct();
    lemma_reg_code_distinct();
    // where each registered pair is listed: an injection of 19 into 19, so a bijection
    let at = Seq::new(19, |k: int| choose|i: int| #[trigger] lists(v, i, reg_name(k), reg_code(k)));
    assert forall|k: int| 0 <= k < 19 implies lists(v, #[trigger] at[k], reg_name(k), reg_code(k)) by { assert(has_lang(v, k)); }
    assert forall|i: int, j: int| 0 <= i < 19 && 0 <= j < 19 && i != j implies #[trigger] at[i] != #[trigger] at[j] by { assert(reg_name(i) != reg_name(j)); }
    let dom = vstd::set_lib::set_int_range(0, 19);
    let img = at.to_set();
    vstd::set_lib::lemma_int_range(0, 19);
    at.unique_seq_to_set();
    assert(img.subset_of(dom)) by { assert forall|x: int| img.contains(x) implies dom.contains(x) by { let k = choose|k: int| 0 <= k < at.len() && at[k] == x; assert(lists(v, at[k], reg_name(k), reg_code(k))); } }
    vstd::set_lib::lemma_subset_equality(img, dom);
    assert forall|i: int, j: int| 0 <= i < 19 && 0 <= j < 19 && i != j implies (#[trigger] v[i]).lname() != (#[trigger] v[j]).lname() && v[i].lcode() != v[j].lcode() by {
        assert(dom.contains(i) && dom.contains(j));
        let a = choose|k: int| 0 <= k < at.len() && at[k] == i;
        let b = choose|k: int| 0 <= k < at.len() && at[k] == j;
        assert(lists(v, at[a], reg_name(a), reg_code(a)) && lists(v, at[b], reg_name(b), reg_code(b)));
        assert(reg_name(a) != reg_name(b) && reg_code(a) != reg_code(b));
    }
}
