pub mod vxserde {
use vstd::prelude::*;
use super::vxmap::*;
// ---------------------------------------------------------------------------------------------
// TRUSTED: the serde data model as the crate uses it. The traits have serde's method names and
// shapes; their contracts say which document a call adds to the output. `emitted` is the document a
// serializer value has produced when it returned `ok`; a `total` serializer reports no error of its own.
// Objects are maps: adding a key twice is not allowed.
// ---------------------------------------------------------------------------------------------
pub enum J { Null, Bool(bool), Int(int), Float(f64), Str(Seq<char>), Arr(Seq<J>), Obj(Map<Seq<char>, J>) }

/// the documents a value can serialise as (a separate trait, because Verus rejects serde's cycle
/// between Serialize and Serializer)
pub trait ToJson {
    spec fn enc(&self, j: J) -> bool;
}
/// what may be an object key
pub trait ToKey {
    spec fn key(&self) -> Seq<char>;
}
impl ToKey for str { open spec fn key(&self) -> Seq<char> { self@ } }
impl ToKey for String { open spec fn key(&self) -> Seq<char> { self@ } }

pub trait SerializeSeq: Sized {
    type Ok;
    type Error;
    spec fn done(&self) -> Seq<J>;
    spec fn total(&self) -> bool;
    spec fn emitted(&self, ok: Self::Ok) -> J;
    fn serialize_element<T: ToJson + ?Sized>(&mut self, value: &T) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> exists|v: J| #[trigger] value.enc(v) && final(self).done() == old(self).done().push(v),
            old(self).total() ==> r.is_ok() && final(self).total(),
            forall|ok: Self::Ok| #[trigger] final(self).emitted(ok) == old(self).emitted(ok);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r.is_ok() ==> self.emitted(r->Ok_0) == J::Arr(self.done()), self.total() ==> r.is_ok();
}
pub trait SerializeMap: Sized {
    type Ok;
    type Error;
    spec fn done(&self) -> Map<Seq<char>, J>;
    spec fn total(&self) -> bool;
    spec fn emitted(&self, ok: Self::Ok) -> J;
    fn serialize_entry<K: ToKey + ?Sized, V: ToJson + ?Sized>(&mut self, key: &K, value: &V) -> (r: Result<(), Self::Error>)
        requires !old(self).done().contains_key(key.key()),
        ensures r.is_ok() ==> exists|v: J| #[trigger] value.enc(v) && final(self).done() == old(self).done().insert(key.key(), v),
            old(self).total() ==> r.is_ok() && final(self).total(),
            forall|ok: Self::Ok| #[trigger] final(self).emitted(ok) == old(self).emitted(ok);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r.is_ok() ==> self.emitted(r->Ok_0) == J::Obj(self.done()), self.total() ==> r.is_ok();
}
pub trait SerializeStruct: Sized {
    type Ok;
    type Error;
    spec fn done(&self) -> Map<Seq<char>, J>;
    spec fn total(&self) -> bool;
    spec fn emitted(&self, ok: Self::Ok) -> J;
    fn serialize_field<T: ToJson + ?Sized>(&mut self, key: &'static str, value: &T) -> (r: Result<(), Self::Error>)
        requires !old(self).done().contains_key(key@),
        ensures r.is_ok() ==> exists|v: J| #[trigger] value.enc(v) && final(self).done() == old(self).done().insert(key@, v),
            old(self).total() ==> r.is_ok() && final(self).total(),
            forall|ok: Self::Ok| #[trigger] final(self).emitted(ok) == old(self).emitted(ok);
    fn skip_field(&mut self, key: &'static str) -> (r: Result<(), Self::Error>)
        ensures r.is_ok() ==> final(self).done() == old(self).done(),
            old(self).total() ==> r.is_ok() && final(self).total(),
            forall|ok: Self::Ok| #[trigger] final(self).emitted(ok) == old(self).emitted(ok);
    fn end(self) -> (r: Result<Self::Ok, Self::Error>)
        ensures r.is_ok() ==> self.emitted(r->Ok_0) == J::Obj(self.done()), self.total() ==> r.is_ok();
}
pub trait Serializer: Sized {
    type Ok;
    type Error;
    type SerializeSeq: SerializeSeq<Ok = Self::Ok, Error = Self::Error>;
    type SerializeMap: SerializeMap<Ok = Self::Ok, Error = Self::Error>;
    type SerializeStruct: SerializeStruct<Ok = Self::Ok, Error = Self::Error>;
    spec fn total(&self) -> bool;
    spec fn emitted(&self, ok: Self::Ok) -> J;
    fn serialize_str(self, v: &str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r.is_ok() ==> self.emitted(r->Ok_0) == J::Str(v@), self.total() ==> r.is_ok();
    fn serialize_unit_variant(self, name: &'static str, variant_index: u32, variant: &'static str) -> (r: Result<Self::Ok, Self::Error>)
        ensures r.is_ok() ==> self.emitted(r->Ok_0) == J::Str(variant@), self.total() ==> r.is_ok();
    fn serialize_seq(self, len: Option<usize>) -> (r: Result<Self::SerializeSeq, Self::Error>)
        ensures r.is_ok() ==> r->Ok_0.done() == Seq::<J>::empty() && forall|ok: Self::Ok| #[trigger] r->Ok_0.emitted(ok) == self.emitted(ok),
            self.total() ==> r.is_ok() && r->Ok_0.total();
    fn serialize_map(self, len: Option<usize>) -> (r: Result<Self::SerializeMap, Self::Error>)
        ensures r.is_ok() ==> r->Ok_0.done() == Map::<Seq<char>, J>::empty() && forall|ok: Self::Ok| #[trigger] r->Ok_0.emitted(ok) == self.emitted(ok),
            self.total() ==> r.is_ok() && r->Ok_0.total();
    fn serialize_struct(self, name: &'static str, len: usize) -> (r: Result<Self::SerializeStruct, Self::Error>)
        ensures r.is_ok() ==> r->Ok_0.done() == Map::<Seq<char>, J>::empty() && forall|ok: Self::Ok| #[trigger] r->Ok_0.emitted(ok) == self.emitted(ok),
            self.total() ==> r.is_ok() && r->Ok_0.total();
}
pub trait Serialize: ToJson {
    fn serialize<S: Serializer>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>)
        ensures r.is_ok() ==> self.enc(serializer.emitted(r->Ok_0)), serializer.total() ==> r.is_ok();
}
/// `Serialize::serialize(&value, FlatMapSerializer(map))`: the entries of the object `value` encodes as go into `map`
#[verifier::external_body]
pub fn vx_flatten<T: ToJson + ?Sized, M: SerializeMap>(value: &T, map: &mut M) -> (r: Result<(), M::Error>)
    requires forall|j: J| #[trigger] value.enc(j) ==> j is Obj && j->Obj_0.dom().disjoint(old(map).done().dom()),
    ensures r.is_ok() ==> exists|j: J| #[trigger] value.enc(j) && final(map).done() == old(map).done().union_prefer_right(j->Obj_0),
        old(map).total() ==> r.is_ok() && final(map).total(),
        forall|ok: M::Ok| #[trigger] final(map).emitted(ok) == old(map).emitted(ok),
{ unimplemented!() }

// TRUSTED: serde's own Serialize implementations for the types the crate's fields have
impl ToJson for String { open spec fn enc(&self, j: J) -> bool { j == J::Str(self@) } }
impl ToJson for str { open spec fn enc(&self, j: J) -> bool { j == J::Str(self@) } }
impl ToJson for bool { open spec fn enc(&self, j: J) -> bool { j == J::Bool(*self) } }
impl ToJson for u8 { open spec fn enc(&self, j: J) -> bool { j == J::Int(*self as int) } }
impl ToJson for i64 { open spec fn enc(&self, j: J) -> bool { j == J::Int(*self as int) } }
impl ToJson for u64 { open spec fn enc(&self, j: J) -> bool { j == J::Int(*self as int) } }
impl ToJson for usize { open spec fn enc(&self, j: J) -> bool { j == J::Int(*self as int) } }
impl ToJson for f64 { open spec fn enc(&self, j: J) -> bool { j == J::Float(*self) } }
impl<T: ToJson> ToJson for Option<T> { open spec fn enc(&self, j: J) -> bool { match self { None => j == J::Null, Some(x) => x.enc(j) } } }
impl<T: ToJson + ?Sized> ToJson for &T { open spec fn enc(&self, j: J) -> bool { (**self).enc(j) } }
impl<T: ToJson> ToJson for Vec<T> { open spec fn enc(&self, j: J) -> bool { j is Arr && j->Arr_0.len() == self@.len() && forall|i: int| 0 <= i < self@.len() ==> self@[i].enc(#[trigger] j->Arr_0[i]) } }
impl<V: ToJson> ToJson for std::collections::BTreeMap<String, V> { open spec fn enc(&self, j: J) -> bool { j is Obj && map_enc(self@, j->Obj_0) } }
/// an object with exactly the map's keys
pub open spec fn map_enc<V: ToJson>(m: Map<String, V>, o: Map<Seq<char>, J>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> mk(k)@ == k && m.contains_key(mk(k)) && m[mk(k)].enc(o[k])
    &&& forall|k: String| #[trigger] m.contains_key(k) ==> o.contains_key(k@)
}
}
pub use vxserde::*;
