// ---------------------------------------------------------------------------------------------
// the documents an index and its parts serialise as
// ---------------------------------------------------------------------------------------------
pub trait VxUtf8: Sized {
    fn vx_encode_utf8<'a>(self, buf: &'a mut [u8; 4]) -> (r: &'a str)
        ensures r@ == self.as_one();
    spec fn as_one(&self) -> Seq<char>;
}
/// stands for `char::encode_utf8`: the one-character string
impl VxUtf8 for char {
    open spec fn as_one(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body]
    fn vx_encode_utf8<'a>(self, buf: &'a mut [u8; 4]) -> (r: &'a str) { self.encode_utf8(buf) }
}
pub open spec fn only(o: Map<Seq<char>, J>, ks: Seq<Seq<char>>) -> bool { forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> ks.contains(k) }
pub proof fn lemma_keys()
    ensures "docs"@ != "df"@, "docs"@.len() == 4, "df"@.len() == 2, seq!["tf"@][0] == "tf"@, seq!["root"@][0] == "root"@,
{ reveal_strlit("docs"); reveal_strlit("df"); assert("docs"@.len() == 4 && "df"@.len() == 2); }
pub open spec fn store_keys() -> Seq<Seq<char>> { seq!["save"@, "docs"@, "docInfo"@, "length"@] }
pub proof fn lemma_store_keys()
    ensures store_keys().no_duplicates(), store_keys()[0] == "save"@, store_keys()[1] == "docs"@, store_keys()[2] == "docInfo"@, store_keys()[3] == "length"@,
{
    reveal_strlit("save"); reveal_strlit("docs"); reveal_strlit("docInfo"); reveal_strlit("length");
    assert("save"@[0] == 's' && "docs"@[0] == 'd' && "docInfo"@.len() == 7 && "length"@.len() == 6 && "save"@.len() == 4 && "docs"@.len() == 4);
}
pub open spec fn tf_enc(t: TermFrequency, j: J) -> bool {
    j is Obj && j->Obj_0.contains_key("tf"@) && j->Obj_0["tf"@] == J::Float(t.term_freq) && only(j->Obj_0, seq!["tf"@])
}
impl ToJson for TermFrequency {
    open spec fn enc(&self, j: J) -> bool { tf_enc(*self, j) }
}
/// a node: its documents, their number, and one member per child under that child's character
pub open spec fn item_enc(n: IndexItem, j: J) -> bool
    decreases j
{
    &&& j matches J::Obj(o)
    &&& o.contains_key("docs"@) && n.docs.enc(o["docs"@])
    &&& o.contains_key("df"@) && o["df"@] == J::Int(n.doc_freq as int)
    &&& forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> k == "docs"@ || k == "df"@ || k.len() == 1 && n.children@.contains_key(k[0])
    &&& forall|c: char| #[trigger] n.children@.contains_key(c) ==> o.contains_key(seq![c]) && item_enc(n.children@[c], o[seq![c]])
}
impl ToJson for IndexItem {
    open spec fn enc(&self, j: J) -> bool { item_enc(*self, j) }
}
pub open spec fn children_enc(m: Map<char, IndexItem>, o: Map<Seq<char>, J>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> k.len() == 1 && m.contains_key(k[0])
    &&& forall|c: char| #[trigger] m.contains_key(c) ==> o.contains_key(seq![c]) && item_enc(m[c], o[seq![c]])
}
/// the entries of a child map written so far
pub open spec fn children_part(s: Seq<(&char, &IndexItem)>, o: Map<Seq<char>, J>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] o.contains_key(k) ==> k.len() == 1 && exists|i: int| 0 <= i < s.len() && k[0] == *(#[trigger] s[i]).0
    &&& forall|i: int| 0 <= i < s.len() ==> o.contains_key(seq![*(#[trigger] s[i]).0]) && item_enc(*s[i].1, o[seq![*s[i].0]])
}
/// one more child written
pub proof fn lemma_children_step(s: Seq<(&char, &IndexItem)>, k: int, m: Map<char, IndexItem>, a: Map<Seq<char>, J>, b: Map<Seq<char>, J>)
    requires 0 <= k < s.len(), children_part(s.take(k), a), s.no_duplicates(),
        exists|v: J| item_enc(*s[k].1, v) && b == #[trigger] a.insert(seq![*s[k].0], v),
        forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1,
        forall|q: char| #[trigger] m.contains_key(q) ==> s.contains((&q, &m[q])),
    ensures children_part(s.take(k + 1), b), k + 1 == s.len() ==> children_enc(m, b),
{
    let v = choose|v: J| item_enc(*s[k].1, v) && b == #[trigger] a.insert(seq![*s[k].0], v);
    let (p, q) = (s.take(k), s.take(k + 1));
    let c = *s[k].0;
    assert(forall|i: int| 0 <= i < k ==> p[i] == #[trigger] q[i]);
    assert(q[k] == s[k]);
    assert(seq![c][0] == c);
    assert forall|key: Seq<char>| #[trigger] b.contains_key(key) implies key.len() == 1 && exists|i: int| 0 <= i < q.len() && key[0] == *(#[trigger] q[i]).0 by {
        if key != seq![c] { let i = choose|i: int| 0 <= i < p.len() && key[0] == *(#[trigger] p[i]).0; assert(key[0] == *q[i].0); } else { assert(key[0] == *q[k].0); }
    }
    assert forall|i: int| 0 <= i < q.len() implies b.contains_key(seq![*(#[trigger] q[i]).0]) && item_enc(*q[i].1, b[seq![*q[i].0]]) by {
        if i < k {
            assert(p[i] == q[i]);
            assert(s[i] != s[k]);
            assert(*s[i].0 != c);
            assert(seq![*q[i].0][0] != seq![c][0]);
        }
    }
    if k + 1 == s.len() {
        assert(q =~= s);
        lemma_children_done(s, m, b);
    }
}
pub proof fn lemma_children_done(s: Seq<(&char, &IndexItem)>, m: Map<char, IndexItem>, b: Map<Seq<char>, J>)
    requires children_part(s, b),
        forall|i: int| 0 <= i < s.len() ==> m.contains_key(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1,
        forall|q: char| #[trigger] m.contains_key(q) ==> s.contains((&q, &m[q])),
    ensures children_enc(m, b),
{
    assert forall|c: char| #[trigger] m.contains_key(c) implies b.contains_key(seq![c]) && item_enc(m[c], b[seq![c]]) by {
        assert(s.contains((&c, &m[c])));
        let i = choose|i: int| 0 <= i < s.len() && s[i] == (&c, &m[c]);
        assert(*s[i].0 == c);
    }
}
pub proof fn lemma_children_none(m: Map<char, IndexItem>, b: Map<Seq<char>, J>)
    ensures m.len() == 0 && b == Map::<Seq<char>, J>::empty() ==> children_enc(m, b),
{ if m.len() == 0 { assert(m.dom() =~= Set::<char>::empty()); } }
impl ToJson for InvertedIndex {
    open spec fn enc(&self, j: J) -> bool { j is Obj && j->Obj_0.contains_key("root"@) && item_enc(self.root, j->Obj_0["root"@]) && only(j->Obj_0, seq!["root"@]) }
}
impl ToJson for DocumentStore {
    open spec fn enc(&self, j: J) -> bool {
        &&& j matches J::Obj(o)
        &&& o.contains_key("save"@) && self.save.enc(o["save"@])
        &&& o.contains_key("docs"@) && self.docs.enc(o["docs"@])
        &&& o.contains_key("docInfo"@) && self.doc_info.enc(o["docInfo"@])
        &&& o.contains_key("length"@) && self.length.enc(o["length"@])
        &&& only(o, store_keys())
    }
}

