#![feature(allocator_api)]
#![feature(slice_index_methods, fn_traits)]
#![allow(unused_imports, unused_mut, unused_variables, dead_code, unused_braces, unused_parens, non_snake_case, non_camel_case_types)]
//! expand
use vstd::prelude::*;
use vstd::utf8::*;
use vstd::string::*;
use vstd::std_specs::iter::*;
use std::collections::BTreeMap;
use std::marker::PhantomData;
verus! {
broadcast use { vxmap::group_map, vxstd::group_std, vstd::std_specs::btree::group_btree_axioms };
//@include ext_map.vx
//@include ext_opt.vx
//@include ext_std.vx
//@include serde.vx
//@include serde_de.vx
//@struct src/config.rs SearchOptionsField attr=derive(Clone,Copy)
//@enum src/config.rs SearchBool attr=derive(Clone,Copy)
//@struct src/config.rs SearchOptions

pub proof fn lemma_keys()
    ensures "boost"@ != "bool"@, "boost"@ != "expand"@, "bool"@ != "expand"@, "bool"@ != "fields"@, "expand"@ != "fields"@,
        "OR"@ != "AND"@,
{
    reveal_strlit("boost"); reveal_strlit("bool"); reveal_strlit("expand"); reveal_strlit("fields"); reveal_strlit("OR"); reveal_strlit("AND");
    assert("boost"@[0] == 'b' && "expand"@[0] == 'e' && "fields"@[0] == 'f');
    assert("boost"@.len() == 5 && "bool"@.len() == 4 && "OR"@.len() == 2 && "AND"@.len() == 3);
    assert("expand"@[0] != "fields"@[0]);
}
pub open spec fn bool_text(b: SearchBool) -> Seq<char> { match b { SearchBool::Or => "OR"@, SearchBool::And => "AND"@ } }
/// a member that is there exactly when it is set
pub open spec fn opt_member<T: ToJson>(o: Map<Seq<char>, J>, k: Seq<char>, x: Option<T>) -> bool {
    match x { None => !o.contains_key(k), Some(v) => o.contains_key(k) && v.enc(o[k]) }
}
pub open spec fn only(o: Map<Seq<char>, J>, ks: Seq<Seq<char>>) -> bool { forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> ks.contains(k) }
impl ToJson for SearchBool {
    open spec fn enc(&self, j: J) -> bool { j == J::Str(bool_text(*self)) }
}
impl Serialize for SearchBool {
//@fn expanded <Serialize for SearchBool>::serialize
//@end
}
impl ToJson for SearchOptionsField {
    /// exactly the set options
    open spec fn enc(&self, j: J) -> bool {
        &&& j is Obj
        &&& opt_member(j->Obj_0, "boost"@, self.boost)
        &&& opt_member(j->Obj_0, "bool"@, self.bool)
        &&& opt_member(j->Obj_0, "expand"@, self.expand)
        &&& only(j->Obj_0, seq!["boost"@, "bool"@, "expand"@])
    }
}
impl Serialize for SearchOptionsField {
//@fn expanded <Serialize for SearchOptionsField>::serialize
//@at begin
    proof { lemma_keys(); let s = seq!["boost"@, "bool"@, "expand"@]; assert(s[0] == "boost"@ && s[1] == "bool"@ && s[2] == "expand"@); }
//@end
}
impl ToJson for SearchOptions {
    open spec fn enc(&self, j: J) -> bool {
        &&& j is Obj
        &&& j->Obj_0.contains_key("bool"@) && self.bool.enc(j->Obj_0["bool"@])
        &&& j->Obj_0.contains_key("expand"@) && self.expand.enc(j->Obj_0["expand"@])
        &&& j->Obj_0.contains_key("fields"@) && self.fields.enc(j->Obj_0["fields"@])
        &&& only(j->Obj_0, seq!["bool"@, "expand"@, "fields"@])
    }
}
impl Serialize for SearchOptions {
//@fn expanded <Serialize for SearchOptions>::serialize
//@at begin
    proof { lemma_keys(); let s = seq!["bool"@, "expand"@, "fields"@]; assert(s[0] == "bool"@ && s[1] == "expand"@ && s[2] == "fields"@); }
//@end
}
// ---- reading back
#[verifier::external_body]
pub exec const FIELDS: &'static [&'static str] ensures true { &[] }
#[verifier::external_body]
pub exec const VARIANTS: &'static [&'static str] ensures true { &[] }

//@local __Field BoolTag Deserialize for SearchBool
//@local __FieldVisitor BoolTagVisitor Deserialize for SearchBool
//@local __Visitor BoolVisitor Deserialize for SearchBool
pub open spec fn tag_of(s: Seq<char>) -> Option<BoolTag> { if s == "OR"@ { Some(BoolTag::__field@{src/config.rs SearchBool Or}) } else if s == "AND"@ { Some(BoolTag::__field@{src/config.rs SearchBool And}) } else { None } }
impl<'de> StrVisitor<'de> for BoolTagVisitor {
    type Value = BoolTag;
    open spec fn on_str(s: Seq<char>, r: Option<BoolTag>) -> bool { r == tag_of(s) }
//@fn expanded <Visitor for __FieldVisitor in Deserialize for SearchBool>::visit_str
//@rename __Field BoolTag
//@at begin
    proof { lemma_keys(); }
//@end
}
impl FromJson for BoolTag {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r == tag_of(j->Str_0) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for BoolTag {
//@fn expanded <Deserialize for __Field in Deserialize for SearchBool>::deserialize
//@rename __FieldVisitor BoolTagVisitor
//@end
}
pub open spec fn bool_of(s: Seq<char>) -> Option<SearchBool> { if s == "OR"@ { Some(SearchBool::Or) } else if s == "AND"@ { Some(SearchBool::And) } else { None } }
impl<'de> EnumVisitor<'de> for BoolVisitor<'de> {
    type Value = SearchBool;
    open spec fn on_tag(s: Seq<char>, r: Option<SearchBool>) -> bool { r == bool_of(s) }
//@fn expanded <Visitor for __Visitor in Deserialize for SearchBool>::visit_enum
//@rename __Field BoolTag
//@at begin
    proof { lemma_keys(); }
//@end
}
impl FromJson for SearchBool {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r == bool_of(j->Str_0) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for SearchBool {
//@fn expanded <Deserialize for SearchBool>::deserialize
//@rename __Visitor BoolVisitor
//@end
}

//@local __Field FieldKey Deserialize for SearchOptionsField
//@local __FieldVisitor FieldKeyVisitor Deserialize for SearchOptionsField
//@local __Visitor FieldVisitor Deserialize for SearchOptionsField
pub open spec fn field_key(s: Seq<char>) -> FieldKey { if s == "boost"@ { FieldKey::__field@{src/config.rs SearchOptionsField boost} } else if s == "bool"@ { FieldKey::__field@{src/config.rs SearchOptionsField bool} } else if s == "expand"@ { FieldKey::__field@{src/config.rs SearchOptionsField expand} } else { FieldKey::__ignore } }
impl<'de> StrVisitor<'de> for FieldKeyVisitor {
    type Value = FieldKey;
    open spec fn on_str(s: Seq<char>, r: Option<FieldKey>) -> bool { r == Some(field_key(s)) }
//@fn expanded <Visitor for __FieldVisitor in Deserialize for SearchOptionsField>::visit_str
//@rename __Field FieldKey
//@at begin
    proof { lemma_keys(); }
//@end
}
impl FromJson for FieldKey {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r == Some(field_key(j->Str_0)) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for FieldKey {
//@fn expanded <Deserialize for __Field in Deserialize for SearchOptionsField>::deserialize
//@rename __FieldVisitor FieldKeyVisitor
//@end
}
pub open spec fn field_dec(m: Map<Seq<char>, J>, r: Option<SearchOptionsField>) -> bool {
    match r {
        Some(v) => member_dec(m, "boost"@, Some(v.boost)) && member_dec(m, "bool"@, Some(v.bool)) && member_dec(m, "expand"@, Some(v.expand)),
        None => member_dec(m, "boost"@, None::<Option<u8>>) || member_dec(m, "bool"@, None::<Option<SearchBool>>) || member_dec(m, "expand"@, None::<Option<bool>>),
    }
}
impl<'de> MapVisitor<'de> for FieldVisitor<'de> {
    type Value = SearchOptionsField;
    open spec fn on_map(m: Map<Seq<char>, J>, r: Option<SearchOptionsField>) -> bool { field_dec(m, r) }
//@fn expanded <Visitor for __Visitor in Deserialize for SearchOptionsField>::visit_map
//@rename __Field FieldKey
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@at begin
    let ghost m0 = __map.rest();
    let ghost mut r0 = m0;
    proof { lemma_keys(); }
//@loop 0 while
    invariant __map.cur() is None, within(__map.rest(), m0),
        seen(m0, __map.rest(), "boost"@, __field@{src/config.rs SearchOptionsField boost}), seen(m0, __map.rest(), "bool"@, __field@{src/config.rs SearchOptionsField bool}), seen(m0, __map.rest(), "expand"@, __field@{src/config.rs SearchOptionsField expand}),
        r0 == __map.rest(),
    ensures __map.rest() == Map::<Seq<char>, J>::empty(),
    decreases __map.rest().len(),
//@at in-loop 0
    let ghost s = choose|s: Seq<char>| r0.contains_key(s) && #[trigger] FieldKey::dec(J::Str(s), Some(__key)) && __map.rest() == r0.remove(s) && __map.cur() == Some(r0[s]);
    proof { lemma_keys(); assert(m0.contains_key(s) && m0[s] == r0[s]); assert(__key == field_key(s)); }
//@at end-loop 0
    proof { r0 = __map.rest(); }
//@end
}
impl FromJson for SearchOptionsField {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Obj ==> field_dec(j->Obj_0, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for SearchOptionsField {
//@fn expanded <Deserialize for SearchOptionsField>::deserialize
//@rename __Visitor FieldVisitor
//@end
}
//@local __Field OptKey Deserialize for SearchOptions
//@local __FieldVisitor OptKeyVisitor Deserialize for SearchOptions
//@local __Visitor OptVisitor Deserialize for SearchOptions
pub open spec fn opt_key(s: Seq<char>) -> OptKey { if s == "bool"@ { OptKey::__field@{src/config.rs SearchOptions bool} } else if s == "expand"@ { OptKey::__field@{src/config.rs SearchOptions expand} } else if s == "fields"@ { OptKey::__field@{src/config.rs SearchOptions fields} } else { OptKey::__ignore } }
impl<'de> StrVisitor<'de> for OptKeyVisitor {
    type Value = OptKey;
    open spec fn on_str(s: Seq<char>, r: Option<OptKey>) -> bool { r == Some(opt_key(s)) }
//@fn expanded <Visitor for __FieldVisitor in Deserialize for SearchOptions>::visit_str
//@rename __Field OptKey
//@at begin
    proof { lemma_keys(); }
//@end
}
impl FromJson for OptKey {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r == Some(opt_key(j->Str_0)) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for OptKey {
//@fn expanded <Deserialize for __Field in Deserialize for SearchOptions>::deserialize
//@rename __FieldVisitor OptKeyVisitor
//@end
}
pub open spec fn opt_dec(m: Map<Seq<char>, J>, r: Option<SearchOptions>) -> bool {
    match r {
        Some(v) => member_dec(m, "bool"@, Some(v.bool)) && member_dec(m, "expand"@, Some(v.expand)) && member_dec(m, "fields"@, Some(v.fields)),
        None => member_dec(m, "bool"@, None::<SearchBool>) || member_dec(m, "expand"@, None::<bool>) || member_dec(m, "fields"@, None::<BTreeMap<String, SearchOptionsField>>),
    }
}
impl<'de> MapVisitor<'de> for OptVisitor<'de> {
    type Value = SearchOptions;
    open spec fn on_map(m: Map<Seq<char>, J>, r: Option<SearchOptions>) -> bool { opt_dec(m, r) }
//@fn expanded <Visitor for __Visitor in Deserialize for SearchOptions>::visit_map
//@rename __Field OptKey
//@attr #[verifier::loop_isolation(false)]
//@attr #[verifier::allow_complex_invariants]
//@at begin
    let ghost m0 = __map.rest();
    let ghost mut r0 = m0;
    proof { lemma_keys(); }
//@loop 0 while
    invariant __map.cur() is None, within(__map.rest(), m0),
        seen(m0, __map.rest(), "bool"@, __field@{src/config.rs SearchOptions bool}), seen(m0, __map.rest(), "expand"@, __field@{src/config.rs SearchOptions expand}), seen(m0, __map.rest(), "fields"@, __field@{src/config.rs SearchOptions fields}),
        r0 == __map.rest(),
    ensures __map.rest() == Map::<Seq<char>, J>::empty(),
    decreases __map.rest().len(),
//@at in-loop 0
    let ghost s = choose|s: Seq<char>| r0.contains_key(s) && #[trigger] OptKey::dec(J::Str(s), Some(__key)) && __map.rest() == r0.remove(s) && __map.cur() == Some(r0[s]);
    proof { lemma_keys(); assert(m0.contains_key(s) && m0[s] == r0[s]); assert(__key == opt_key(s)); }
//@at end-loop 0
    proof { r0 = __map.rest(); }
//@end
}
impl FromJson for SearchOptions {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Obj ==> opt_dec(j->Obj_0, r) }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<'de> Deserialize<'de> for SearchOptions {
//@fn expanded <Deserialize for SearchOptions>::deserialize
//@rename __Visitor OptVisitor
//@end
}

/// C22: reading back what a configuration serialises as gives an equal configuration, without an error
pub proof fn lemma_field_back(x: SearchOptionsField, j: J, r: Option<SearchOptionsField>)
    requires x.enc(j), SearchOptionsField::dec(j, r),
    ensures r == Some(x),
{
    lemma_keys();
    let o = j->Obj_0;
    if x.bool is Some { assert(x.bool.unwrap().enc(o["bool"@])); assert(bool_of(bool_text(x.bool.unwrap())) == x.bool); }
    assert(field_dec(o, r));
}
pub proof fn theorem_round_trip(x: SearchOptions, j: J, r: Option<SearchOptions>)
    requires x.enc(j), SearchOptions::dec(j, r),
    ensures r is Some, r.unwrap().bool == x.bool, r.unwrap().expand == x.expand, r.unwrap().fields@ == x.fields@,
{
    lemma_keys();
    let o = j->Obj_0;
    let fs = o["fields"@]->Obj_0;
    assert(opt_dec(o, r));
    assert(bool_of(bool_text(x.bool)) == Some(x.bool));
    assert(map_enc(x.fields@, fs));
    if r is None {
        assert(BTreeMap::<String, SearchOptionsField>::dec(o["fields"@], None));
        let k = choose|k: Seq<char>| fs.contains_key(k) && #[trigger] <SearchOptionsField as FromJson>::dec(fs[k], None);
        lemma_field_back(x.fields@[mk(k)], fs[k], None);
    } else {
        let m = r.unwrap().fields@;
        assert(map_dec(fs, m));
        assert forall|k: String| #[trigger] m.contains_key(k) implies x.fields@.contains_key(k) && m[k] == x.fields@[k] by {
            assert(mk(k@) == k);
            assert(fs.contains_key(k@));
            lemma_field_back(x.fields@[k], fs[k@], Some(m[k]));
        }
        assert forall|k: String| #[trigger] x.fields@.contains_key(k) implies m.contains_key(k) by { assert(fs.contains_key(k@)); }
        assert(m =~= x.fields@);
    }
}
}
fn main() {}
