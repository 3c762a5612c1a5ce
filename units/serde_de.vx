pub mod vxserde_de {
use vstd::prelude::*;
use super::vxmap::*;
use super::vxserde::*;
// ---------------------------------------------------------------------------------------------
// TRUSTED: reading a document back through serde. `input` is the document a deserializer stands at;
// `dec(j, r)`: reading document j as this type can give r (None: an error). The visitor methods are
// split over traits, one per shape of document. The texts read are well-formed JSON without duplicate keys.
// ---------------------------------------------------------------------------------------------
pub open spec fn okay<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(x) => Some(x), Err(_) => None } }
pub trait FromJson: Sized {
    spec fn dec(j: J, r: Option<Self>) -> bool;
    /// what serde takes for a struct field that is not there
    spec fn absent(r: Option<Self>) -> bool;
}
pub trait Error: Sized {
    fn duplicate_field(field: &'static str) -> Self;
    fn missing_field(field: &'static str) -> Self;
    fn custom<T>(msg: T) -> Self;
    fn unknown_variant(variant: &str, expected: &'static [&'static str]) -> Self;
}
pub trait StrVisitor<'de>: Sized {
    type Value;
    spec fn on_str(s: Seq<char>, r: Option<Self::Value>) -> bool;
    fn visit_str<E: Error>(self, value: &str) -> (r: Result<Self::Value, E>)
        ensures Self::on_str(value@, okay(r));
    /// a deserializer calls either: serde's own version of this one is `visit_str`
    fn visit_borrowed_str<E: Error>(self, value: &'de str) -> (r: Result<Self::Value, E>)
        ensures Self::on_str(value@, okay(r))
    { self.visit_str(value) }
}
/// a visitor that takes text only when it can be borrowed from the input (JSON text without escapes)
pub trait BorrowVisitor<'de>: Sized {
    type Value;
    spec fn on_text(s: Seq<char>, r: Option<Self::Value>) -> bool;
    fn visit_borrowed_str<E: Error>(self, v: &'de str) -> (r: Result<Self::Value, E>)
        ensures Self::on_text(v@, okay(r));
}
pub trait MapVisitor<'de>: Sized {
    type Value;
    spec fn on_map(m: Map<Seq<char>, J>, r: Option<Self::Value>) -> bool;
    fn visit_map<A: MapAccess<'de>>(self, map: A) -> (r: Result<Self::Value, A::Error>)
        requires map.cur() is None,
        ensures Self::on_map(map.rest(), okay(r));
}
pub trait EnumVisitor<'de>: Sized {
    type Value;
    spec fn on_tag(s: Seq<char>, r: Option<Self::Value>) -> bool;
    fn visit_enum<A: EnumAccess<'de>>(self, data: A) -> (r: Result<Self::Value, A::Error>)
        ensures Self::on_tag(data.tag(), okay(r));
}
pub trait MapAccess<'de>: Sized {
    type Error: Error;
    /// the members not read yet
    spec fn rest(&self) -> Map<Seq<char>, J>;
    /// the value of the key just read
    spec fn cur(&self) -> Option<J>;
    fn next_key<K: FromJson>(&mut self) -> (r: Result<Option<K>, Self::Error>)
        requires old(self).cur() is None,
        ensures match r {
            Ok(None) => old(self).rest() == Map::<Seq<char>, J>::empty() && final(self).rest() == old(self).rest() && final(self).cur() is None,
            Ok(Some(k)) => exists|s: Seq<char>| old(self).rest().contains_key(s) && #[trigger] K::dec(J::Str(s), Some(k))
                && final(self).rest() == old(self).rest().remove(s) && final(self).cur() == Some(old(self).rest()[s]),
            Err(_) => exists|s: Seq<char>| old(self).rest().contains_key(s) && #[trigger] K::dec(J::Str(s), None),
        };
    fn next_value<V: FromJson>(&mut self) -> (r: Result<V, Self::Error>)
        requires old(self).cur() is Some,
        ensures V::dec(old(self).cur().unwrap(), okay(r)), final(self).rest() == old(self).rest(), final(self).cur() is None;
    /// with serde's buffering seed: the value is kept as it stands
    fn next_value_seed(&mut self, seed: ContentVisitor<'de>) -> (r: Result<Content<'de>, Self::Error>)
        requires old(self).cur() is Some,
        ensures r.is_ok(), r->Ok_0.doc() == old(self).cur().unwrap(), final(self).rest() == old(self).rest(), final(self).cur() is None;
}
/// serde's buffer for a document read ahead
pub enum Content<'de> { Str(&'de str), String(String), Other(Buffered<'de>) }
#[verifier::external_body]
pub struct Buffered<'de> { lifetime: std::marker::PhantomData<&'de ()> }
impl<'de> Buffered<'de> { pub uninterp spec fn doc(&self) -> J; }
impl<'de> Content<'de> {
    pub open spec fn doc(&self) -> J { match self { Content::Str(s) => J::Str(s@), Content::String(s) => J::Str(s@), Content::Other(b) => b.doc() } }
}
pub struct ContentVisitor<'de> { pub lifetime: std::marker::PhantomData<&'de ()> }
impl<'de> ContentVisitor<'de> {
    pub fn new() -> Self { ContentVisitor { lifetime: std::marker::PhantomData } }
}
/// the buffered members of an object
pub open spec fn members<'de>(s: Seq<Option<(Content<'de>, Content<'de>)>>, o: Map<Seq<char>, J>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Some && s[i].unwrap().0.doc() is Str
        && o.contains_key(s[i].unwrap().0.doc()->Str_0) && o[s[i].unwrap().0.doc()->Str_0] == s[i].unwrap().1.doc()
    &&& forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).unwrap().0.doc() == J::Str(k)
}
/// `Deserialize::deserialize(FlatMapDeserializer(&mut entries, PhantomData))`: what is read from the object of the buffered members
#[verifier::external_body]
pub fn vx_unflatten<'de, T: FromJson, E: Error>(entries: &mut Vec<Option<(Content<'de>, Content<'de>)>>) -> (r: Result<T, E>)
    ensures forall|o: Map<Seq<char>, J>| #[trigger] members(old(entries)@, o) ==> T::dec(J::Obj(o), okay(r)),
{ unimplemented!() }
pub trait VariantAccess<'de>: Sized {
    type Error: Error;
    fn unit_variant(self) -> (r: Result<(), Self::Error>)
        ensures r.is_ok();
}
pub trait EnumAccess<'de>: Sized {
    type Error: Error;
    type Variant: VariantAccess<'de, Error = Self::Error>;
    spec fn tag(&self) -> Seq<char>;
    fn variant<V: FromJson>(self) -> (r: Result<(V, Self::Variant), Self::Error>)
        ensures V::dec(J::Str(self.tag()), match r { Ok(p) => Some(p.0), Err(_) => None });
}
pub trait Deserializer<'de>: Sized {
    type Error: Error;
    spec fn input(&self) -> J;
    fn deserialize_identifier<V: StrVisitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures self.input() is Str ==> V::on_str(self.input()->Str_0, okay(r));
    fn deserialize_struct<V: MapVisitor<'de>>(self, name: &'static str, fields: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures self.input() is Obj ==> V::on_map(self.input()->Obj_0, okay(r));
    fn deserialize_str<V: BorrowVisitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures self.input() is Str ==> V::on_text(self.input()->Str_0, okay(r));
    fn deserialize_map<V: MapVisitor<'de>>(self, visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures self.input() is Obj ==> V::on_map(self.input()->Obj_0, okay(r));
    fn deserialize_enum<V: EnumVisitor<'de>>(self, name: &'static str, variants: &'static [&'static str], visitor: V) -> (r: Result<V::Value, Self::Error>)
        ensures self.input() is Str ==> V::on_tag(self.input()->Str_0, okay(r));
}
pub trait Deserialize<'de>: FromJson {
    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> (r: Result<Self, D::Error>)
        ensures Self::dec(deserializer.input(), okay(r));
}
/// a struct field that is not in the document
#[verifier::external_body]
pub fn missing_field<V: FromJson, E: Error>(field: &'static str) -> (r: Result<V, E>)
    ensures V::absent(okay(r)),
{ unimplemented!() }

/// what reading a member of an object gives
pub open spec fn member_dec<T: FromJson>(m: Map<Seq<char>, J>, k: Seq<char>, r: Option<T>) -> bool {
    if m.contains_key(k) { T::dec(m[k], r) } else { T::absent(r) }
}
/// a member seen so far
pub open spec fn seen<T: FromJson>(m: Map<Seq<char>, J>, rest: Map<Seq<char>, J>, k: Seq<char>, x: Option<T>) -> bool {
    if m.contains_key(k) && !rest.contains_key(k) { x is Some && T::dec(m[k], x) } else { x is None }
}
pub open spec fn within(rest: Map<Seq<char>, J>, m: Map<Seq<char>, J>) -> bool { forall|k: Seq<char>| #[trigger] rest.contains_key(k) ==> m.contains_key(k) && m[k] == rest[k] }

// TRUSTED: serde's own Deserialize implementations for the types the crate's fields have
pub struct IgnoredAny;
impl FromJson for IgnoredAny { open spec fn dec(j: J, r: Option<Self>) -> bool { r is Some } open spec fn absent(r: Option<Self>) -> bool { r is None } }
impl FromJson for bool { open spec fn dec(j: J, r: Option<bool>) -> bool { j is Bool ==> r == Some(j->Bool_0) } open spec fn absent(r: Option<bool>) -> bool { r is None } }
impl FromJson for u8 { open spec fn dec(j: J, r: Option<u8>) -> bool { j is Int && 0 <= j->Int_0 < 256 ==> r == Some(j->Int_0 as u8) } open spec fn absent(r: Option<u8>) -> bool { r is None } }
impl FromJson for usize { open spec fn dec(j: J, r: Option<usize>) -> bool { j is Int && 0 <= j->Int_0 <= usize::MAX ==> r == Some(j->Int_0 as usize) } open spec fn absent(r: Option<usize>) -> bool { r is None } }
impl FromJson for i64 { open spec fn dec(j: J, r: Option<i64>) -> bool { j is Int && i64::MIN <= j->Int_0 <= i64::MAX ==> r == Some(j->Int_0 as i64) } open spec fn absent(r: Option<i64>) -> bool { r is None } }
impl FromJson for f64 { open spec fn dec(j: J, r: Option<f64>) -> bool { j is Float ==> r == Some(j->Float_0) } open spec fn absent(r: Option<f64>) -> bool { r is None } }
impl FromJson for String { open spec fn dec(j: J, r: Option<String>) -> bool { j is Str ==> r is Some && r.unwrap()@ == j->Str_0 } open spec fn absent(r: Option<String>) -> bool { r is None } }
impl FromJson for &'static str { open spec fn dec(j: J, r: Option<Self>) -> bool { j is Str ==> r is Some && r.unwrap()@ == j->Str_0 } open spec fn absent(r: Option<Self>) -> bool { r is None } }
impl<T: FromJson> FromJson for Vec<T> {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Arr ==> match r {
        Some(v) => v@.len() == j->Arr_0.len() && forall|i: int| 0 <= i < v@.len() ==> T::dec(j->Arr_0[i], Some(#[trigger] v@[i])),
        None => exists|i: int| 0 <= i < j->Arr_0.len() && #[trigger] T::dec(j->Arr_0[i], None),
    } }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
impl<T: FromJson> FromJson for Option<T> {
    open spec fn dec(j: J, r: Option<Option<T>>) -> bool { if j is Null { r == Some(None::<T>) } else { match r { None => T::dec(j, None), Some(None) => false, Some(Some(x)) => T::dec(j, Some(x)) } } }
    open spec fn absent(r: Option<Option<T>>) -> bool { r == Some(None::<T>) }
}
impl<V: FromJson> FromJson for std::collections::BTreeMap<String, V> {
    open spec fn dec(j: J, r: Option<Self>) -> bool { j is Obj ==> match r {
        Some(m) => map_dec(j->Obj_0, m@),
        None => exists|k: Seq<char>| j->Obj_0.contains_key(k) && #[trigger] V::dec(j->Obj_0[k], None),
    } }
    open spec fn absent(r: Option<Self>) -> bool { r is None }
}
pub open spec fn map_dec<V: FromJson>(o: Map<Seq<char>, J>, m: Map<String, V>) -> bool {
    &&& forall|k: String| #[trigger] m.contains_key(k) <==> o.contains_key(k@)
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> V::dec(o[k@], Some(m[k]))
}
}
pub use vxserde_de::*;
