pub trait Language {
    spec fn lname(&self) -> Seq<char>;
    spec fn lcode(&self) -> Seq<char>;
    spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool;
    spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool;
//@fn src/lang/mod.rs trait Language::name
//@spec
        ensures r@ == self.lname(),
//@end
//@fn src/lang/mod.rs trait Language::code
//@spec
        ensures r@ == self.lcode(),
//@end
//@fn src/lang/mod.rs trait Language::tokenize
//@spec
        ensures self.ltok(text@, views(r@)),
//@end
//@fn src/lang/mod.rs trait Language::make_pipeline
//@spec
        ensures self.lpipe(r.queue@),
//@end
}
