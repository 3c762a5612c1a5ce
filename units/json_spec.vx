//@include json_parts.vx
pub open spec fn names_enc(q: Seq<Box<dyn PipelineFn>>, s: Seq<J>) -> bool {
    s.len() == q.len() && forall|i: int| 0 <= i < q.len() ==> #[trigger] s[i] == J::Str(q[i].fname())
}
impl ToJson for Pipeline {
    /// the names of the functions, in order
    open spec fn enc(&self, j: J) -> bool { j is Arr && names_enc(self.queue@, j->Arr_0) }
}
pub open spec fn index_keys() -> Seq<Seq<char>> { seq!["fields"@, "pipeline"@, "ref"@, "version"@, "index"@, "documentStore"@, "lang"@] }
pub proof fn lemma_index_keys()
    ensures index_keys().no_duplicates(), index_keys()[0] == "fields"@, index_keys()[1] == "pipeline"@, index_keys()[2] == "ref"@, index_keys()[3] == "version"@,
        index_keys()[4] == "index"@, index_keys()[5] == "documentStore"@, index_keys()[6] == "lang"@,
{
    reveal_strlit("fields"); reveal_strlit("pipeline"); reveal_strlit("ref"); reveal_strlit("version"); reveal_strlit("index"); reveal_strlit("documentStore"); reveal_strlit("lang");
    assert("fields"@.len() == 6 && "pipeline"@.len() == 8 && "ref"@.len() == 3 && "version"@.len() == 7 && "index"@.len() == 5 && "documentStore"@.len() == 13 && "lang"@.len() == 4);
}
impl ToJson for Index {
    open spec fn enc(&self, j: J) -> bool {
        &&& j matches J::Obj(o)
        &&& o.contains_key("fields"@) && self.fields.enc(o["fields"@])
        &&& o.contains_key("pipeline"@) && self.pipeline.enc(o["pipeline"@])
        &&& o.contains_key("ref"@) && self.ref_field.enc(o["ref"@])
        &&& o.contains_key("version"@) && self.version.enc(o["version"@])
        &&& o.contains_key("index"@) && self.index.enc(o["index"@])
        &&& o.contains_key("documentStore"@) && self.document_store.enc(o["documentStore"@])
        &&& o.contains_key("lang"@) && o["lang"@] == J::Str(self.lang.lname())
        &&& only(o, index_keys())
    }
}
