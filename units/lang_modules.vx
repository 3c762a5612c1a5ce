pub mod da {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/da.rs STOP_WORDS
//@struct src/lang/da.rs Danish
impl Danish {
//@fn src/lang/da.rs Danish::new
//@end
}
impl Language for Danish {
    open spec fn lname(&self) -> Seq<char> { "Danish"@ }
    open spec fn lcode(&self) -> Seq<char> { "da"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-da"@, "stopWordFilter-da"@, "stemmer-da"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Danish, t))
        &&& never_empty(q)
    }
//@fn src/lang/da.rs <Language for Danish>::name
//@end
//@fn src/lang/da.rs <Language for Danish>::code
//@end
//@fn src/lang/da.rs <Language for Danish>::tokenize
//@end
//@fn src/lang/da.rs <Language for Danish>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-da"@, "stopWordFilter-da"@, "stemmer-da"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use da::Danish;

pub mod du {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/du.rs STOP_WORDS
//@struct src/lang/du.rs Dutch
impl Dutch {
//@fn src/lang/du.rs Dutch::new
//@end
}
impl Language for Dutch {
    open spec fn lname(&self) -> Seq<char> { "Dutch"@ }
    open spec fn lcode(&self) -> Seq<char> { "du"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-du"@, "stopWordFilter-du"@, "stemmer-du"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Dutch, t))
        &&& never_empty(q)
    }
//@fn src/lang/du.rs <Language for Dutch>::name
//@end
//@fn src/lang/du.rs <Language for Dutch>::code
//@end
//@fn src/lang/du.rs <Language for Dutch>::tokenize
//@end
//@fn src/lang/du.rs <Language for Dutch>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-du"@, "stopWordFilter-du"@, "stemmer-du"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use du::Dutch;

pub mod fi {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/fi.rs STOP_WORDS
//@struct src/lang/fi.rs Finnish
impl Finnish {
//@fn src/lang/fi.rs Finnish::new
//@end
}
impl Language for Finnish {
    open spec fn lname(&self) -> Seq<char> { "Finnish"@ }
    open spec fn lcode(&self) -> Seq<char> { "fi"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-fi"@, "stopWordFilter-fi"@, "stemmer-fi"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Finnish, t))
        &&& never_empty(q)
    }
//@fn src/lang/fi.rs <Language for Finnish>::name
//@end
//@fn src/lang/fi.rs <Language for Finnish>::code
//@end
//@fn src/lang/fi.rs <Language for Finnish>::tokenize
//@end
//@fn src/lang/fi.rs <Language for Finnish>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-fi"@, "stopWordFilter-fi"@, "stemmer-fi"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use fi::Finnish;

pub mod fr {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/fr.rs STOP_WORDS
//@struct src/lang/fr.rs French
impl French {
//@fn src/lang/fr.rs French::new
//@end
}
impl Language for French {
    open spec fn lname(&self) -> Seq<char> { "French"@ }
    open spec fn lcode(&self) -> Seq<char> { "fr"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-fr"@, "stopWordFilter-fr"@, "stemmer-fr"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::French, t))
        &&& never_empty(q)
    }
//@fn src/lang/fr.rs <Language for French>::name
//@end
//@fn src/lang/fr.rs <Language for French>::code
//@end
//@fn src/lang/fr.rs <Language for French>::tokenize
//@end
//@fn src/lang/fr.rs <Language for French>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-fr"@, "stopWordFilter-fr"@, "stemmer-fr"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use fr::French;

pub mod de {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/de.rs STOP_WORDS
//@struct src/lang/de.rs German
impl German {
//@fn src/lang/de.rs German::new
//@end
}
impl Language for German {
    open spec fn lname(&self) -> Seq<char> { "German"@ }
    open spec fn lcode(&self) -> Seq<char> { "de"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-de"@, "stopWordFilter-de"@, "stemmer-de"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::German, t))
        &&& never_empty(q)
    }
//@fn src/lang/de.rs <Language for German>::name
//@end
//@fn src/lang/de.rs <Language for German>::code
//@end
//@fn src/lang/de.rs <Language for German>::tokenize
//@end
//@fn src/lang/de.rs <Language for German>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-de"@, "stopWordFilter-de"@, "stemmer-de"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use de::German;

pub mod hu {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/hu.rs STOP_WORDS
//@struct src/lang/hu.rs Hungarian
impl Hungarian {
//@fn src/lang/hu.rs Hungarian::new
//@end
}
impl Language for Hungarian {
    open spec fn lname(&self) -> Seq<char> { "Hungarian"@ }
    open spec fn lcode(&self) -> Seq<char> { "hu"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-hu"@, "stopWordFilter-hu"@, "stemmer-hu"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Hungarian, t))
        &&& never_empty(q)
    }
//@fn src/lang/hu.rs <Language for Hungarian>::name
//@end
//@fn src/lang/hu.rs <Language for Hungarian>::code
//@end
//@fn src/lang/hu.rs <Language for Hungarian>::tokenize
//@end
//@fn src/lang/hu.rs <Language for Hungarian>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-hu"@, "stopWordFilter-hu"@, "stemmer-hu"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use hu::Hungarian;

pub mod it {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/it.rs STOP_WORDS
//@struct src/lang/it.rs Italian
impl Italian {
//@fn src/lang/it.rs Italian::new
//@end
}
impl Language for Italian {
    open spec fn lname(&self) -> Seq<char> { "Italian"@ }
    open spec fn lcode(&self) -> Seq<char> { "it"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-it"@, "stopWordFilter-it"@, "stemmer-it"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Italian, t))
        &&& never_empty(q)
    }
//@fn src/lang/it.rs <Language for Italian>::name
//@end
//@fn src/lang/it.rs <Language for Italian>::code
//@end
//@fn src/lang/it.rs <Language for Italian>::tokenize
//@end
//@fn src/lang/it.rs <Language for Italian>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-it"@, "stopWordFilter-it"@, "stemmer-it"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use it::Italian;

pub mod no {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/no.rs STOP_WORDS
//@struct src/lang/no.rs Norwegian
impl Norwegian {
//@fn src/lang/no.rs Norwegian::new
//@end
}
impl Language for Norwegian {
    open spec fn lname(&self) -> Seq<char> { "Norwegian"@ }
    open spec fn lcode(&self) -> Seq<char> { "no"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-no"@, "stopWordFilter-no"@, "stemmer-no"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Norwegian, t))
        &&& never_empty(q)
    }
//@fn src/lang/no.rs <Language for Norwegian>::name
//@end
//@fn src/lang/no.rs <Language for Norwegian>::code
//@end
//@fn src/lang/no.rs <Language for Norwegian>::tokenize
//@end
//@fn src/lang/no.rs <Language for Norwegian>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-no"@, "stopWordFilter-no"@, "stemmer-no"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use no::Norwegian;

pub mod pt {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/pt.rs STOP_WORDS
//@struct src/lang/pt.rs Portuguese
impl Portuguese {
//@fn src/lang/pt.rs Portuguese::new
//@end
}
impl Language for Portuguese {
    open spec fn lname(&self) -> Seq<char> { "Portuguese"@ }
    open spec fn lcode(&self) -> Seq<char> { "pt"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-pt"@, "stopWordFilter-pt"@, "stemmer-pt"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Portuguese, t))
        &&& never_empty(q)
    }
//@fn src/lang/pt.rs <Language for Portuguese>::name
//@end
//@fn src/lang/pt.rs <Language for Portuguese>::code
//@end
//@fn src/lang/pt.rs <Language for Portuguese>::tokenize
//@end
//@fn src/lang/pt.rs <Language for Portuguese>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-pt"@, "stopWordFilter-pt"@, "stemmer-pt"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use pt::Portuguese;

pub mod ro {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/ro.rs STOP_WORDS
//@struct src/lang/ro.rs Romanian
impl Romanian {
//@fn src/lang/ro.rs Romanian::new
//@end
}
impl Language for Romanian {
    open spec fn lname(&self) -> Seq<char> { "Romanian"@ }
    open spec fn lcode(&self) -> Seq<char> { "ro"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-ro"@, "stopWordFilter-ro"@, "stemmer-ro"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Romanian, t))
        &&& never_empty(q)
    }
//@fn src/lang/ro.rs <Language for Romanian>::name
//@end
//@fn src/lang/ro.rs <Language for Romanian>::code
//@end
//@fn src/lang/ro.rs <Language for Romanian>::tokenize
//@end
//@fn src/lang/ro.rs <Language for Romanian>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-ro"@, "stopWordFilter-ro"@, "stemmer-ro"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use ro::Romanian;

pub mod ru {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/ru.rs STOP_WORDS
//@struct src/lang/ru.rs Russian
impl Russian {
//@fn src/lang/ru.rs Russian::new
//@end
}
impl Language for Russian {
    open spec fn lname(&self) -> Seq<char> { "Russian"@ }
    open spec fn lcode(&self) -> Seq<char> { "ru"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-ru"@, "stopWordFilter-ru"@, "stemmer-ru"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Cyrillic}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Russian, t))
        &&& never_empty(q)
    }
//@fn src/lang/ru.rs <Language for Russian>::name
//@end
//@fn src/lang/ru.rs <Language for Russian>::code
//@end
//@fn src/lang/ru.rs <Language for Russian>::tokenize
//@end
//@fn src/lang/ru.rs <Language for Russian>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-ru"@, "stopWordFilter-ru"@, "stemmer-ru"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use ru::Russian;

pub mod es {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/es.rs STOP_WORDS
//@struct src/lang/es.rs Spanish
impl Spanish {
//@fn src/lang/es.rs Spanish::new
//@end
}
impl Language for Spanish {
    open spec fn lname(&self) -> Seq<char> { "Spanish"@ }
    open spec fn lcode(&self) -> Seq<char> { "es"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-es"@, "stopWordFilter-es"@, "stemmer-es"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Spanish, t))
        &&& never_empty(q)
    }
//@fn src/lang/es.rs <Language for Spanish>::name
//@end
//@fn src/lang/es.rs <Language for Spanish>::code
//@end
//@fn src/lang/es.rs <Language for Spanish>::tokenize
//@end
//@fn src/lang/es.rs <Language for Spanish>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-es"@, "stopWordFilter-es"@, "stemmer-es"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use es::Spanish;

pub mod sv {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/sv.rs STOP_WORDS
//@struct src/lang/sv.rs Swedish
impl Swedish {
//@fn src/lang/sv.rs Swedish::new
//@end
}
impl Language for Swedish {
    open spec fn lname(&self) -> Seq<char> { "Swedish"@ }
    open spec fn lcode(&self) -> Seq<char> { "sv"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-sv"@, "stopWordFilter-sv"@, "stemmer-sv"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Swedish, t))
        &&& never_empty(q)
    }
//@fn src/lang/sv.rs <Language for Swedish>::name
//@end
//@fn src/lang/sv.rs <Language for Swedish>::code
//@end
//@fn src/lang/sv.rs <Language for Swedish>::tokenize
//@end
//@fn src/lang/sv.rs <Language for Swedish>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-sv"@, "stopWordFilter-sv"@, "stemmer-sv"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use sv::Swedish;

pub mod tr {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/tr.rs STOP_WORDS
//@struct src/lang/tr.rs Turkish
impl Turkish {
//@fn src/lang/tr.rs Turkish::new
//@end
}
impl Language for Turkish {
    open spec fn lname(&self) -> Seq<char> { "Turkish"@ }
    open spec fn lcode(&self) -> Seq<char> { "tr"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-tr"@, "stopWordFilter-tr"@, "stemmer-tr"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == keep(snowball(Algorithm::Turkish, t))
        &&& never_empty(q)
    }
//@fn src/lang/tr.rs <Language for Turkish>::name
//@end
//@fn src/lang/tr.rs <Language for Turkish>::code
//@end
//@fn src/lang/tr.rs <Language for Turkish>::tokenize
//@end
//@fn src/lang/tr.rs <Language for Turkish>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-tr"@, "stopWordFilter-tr"@, "stemmer-tr"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use tr::Turkish;

pub mod ko {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@constlist src/lang/ko.rs STOP_WORDS
//@struct src/lang/ko.rs Korean
impl Korean {
//@fn src/lang/ko.rs Korean::new
//@end
}
impl Language for Korean {
    open spec fn lname(&self) -> Seq<char> { "Korean"@ }
    open spec fn lcode(&self) -> Seq<char> { "ko"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-ko"@, "stopWordFilter-ko"@, "stemmer-ko"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Latin}\\p{Hangul}"@, t))
        &&& stops(q[1], STOP_WORDS__words())
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == Some(t)
        &&& never_empty(q)
    }
//@fn src/lang/ko.rs <Language for Korean>::name
//@end
//@fn src/lang/ko.rs <Language for Korean>::code
//@end
//@fn src/lang/ko.rs <Language for Korean>::tokenize
//@end
//@fn src/lang/ko.rs <Language for Korean>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-ko"@, "stopWordFilter-ko"@, "stemmer-ko"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
//@fn src/lang/ko.rs stemmer
//@spec
    ensures sview(r) == Some(token@),
//@end
}
pub use ko::Korean;

pub mod zh {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys, group_seg };
use {jieba_rs::*};
//@struct src/lang/zh.rs Chinese
impl Default for Chinese {
//@fn src/lang/zh.rs <Default for Chinese>::default
//@spec
    ensures jieba_std(r.jieba),
//@end
}
impl Chinese {
    pub closed spec fn std(&self) -> bool { jieba_std(self.jieba) }
//@fn src/lang/zh.rs Chinese::new
//@spec
    ensures r.std(),
//@end
    // a method of the type itself: Verus states the trait facts about its closure only after everything that depends on it
//@fn src/lang/zh.rs <Language for Chinese>::tokenize
//@as tokenize__v
//@spec
    ensures self.ltok(text@, views(r@)),
//@closure 0
types &&str
-> (q: String) ensures q@ == $0@
//@end
//@alt src/lang/zh.rs <Language for Chinese>::tokenize
//@closure 0
types &str
-> (q: String) ensures q@ == $0@
//@end
//@alt src/lang/zh.rs <Language for Chinese>::tokenize
//@loop 0 for
    invariant self.std() ==> str_views(it0.seq()) == zh_words(text@), 0 <= it0.index() <= it0.seq().len(),
        views($mut0@) == str_views(it0.seq().take(it0.index() as int)),
//@at end-loop 0
    proof {
        assert(views($mut0@) =~= views($mut0@.drop_last()).push($pat0@));
        assert(str_views(it0.seq().take(it0.index() as int + 1)) =~= str_views(it0.seq().take(it0.index() as int)).push($pat0@));
    }
//@at after-loop 0
    proof { if self.std() { assert(views($mut0@) =~= zh_words(text@)); } }
//@end
//@alt src/lang/zh.rs <Language for Chinese>::tokenize
//@loop 0 for
    invariant self.std() ==> refs_of(it0.seq()) == zh_words(text@), 0 <= it0.index() <= it0.seq().len(),
        views($mut0@) == refs_of(it0.seq().take(it0.index() as int)),
//@at end-loop 0
    proof {
        assert(views($mut0@) =~= views($mut0@.drop_last()).push($pat0@));
        assert(refs_of(it0.seq().take(it0.index() as int + 1)) =~= refs_of(it0.seq().take(it0.index() as int)).push($pat0@));
    }
//@at after-loop 0
    proof { if self.std() { assert(views($mut0@) =~= zh_words(text@)); } }
//@end
}

impl Language for Chinese {
    open spec fn lname(&self) -> Seq<char> { "Chinese"@ }
    open spec fn lcode(&self) -> Seq<char> { "zh"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { self.std() ==> out == zh_words(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 3 && fnames(q) == seq!["trimmer-zh"@, "stopWordFilter-zh"@, "stemmer-zh"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("\\p{Unified_Ideograph}\\p{Latin}"@, t))
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[1].fpost(t, o) ==> o == drop_words(seq!["的"@, "了"@], t)
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[2].fpost(t, o) ==> o == Some(t)
        &&& never_empty(q)
    }
//@fn src/lang/zh.rs <Language for Chinese>::name
//@end
//@fn src/lang/zh.rs <Language for Chinese>::code
//@end
    /// verified as tokenize__v against this contract
    #[verifier::external_body]
    fn tokenize(&self, text: &str) -> Vec<String> { unimplemented!() }
//@fn src/lang/zh.rs <Language for Chinese>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-zh"@, "stopWordFilter-zh"@, "stemmer-zh"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
//@fn src/lang/zh.rs stop_word_filter
//@spec
    ensures sview(r) == drop_words(seq!["的"@, "了"@], token@),
//@at begin
    proof { let s = seq!["的"@, "了"@]; assert(s[0] == "的"@ && s[1] == "了"@); }
//@end
//@fn src/lang/zh.rs stemmer
//@spec
    ensures sview(r) == Some(token@),
//@end
}
pub use zh::Chinese;

pub mod ja {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys, group_seg };
use {lindera::tokenizer::*, lindera_core::viterbi::*};
//@struct src/lang/ja.rs Japanese
impl Default for Japanese {
//@fn src/lang/ja.rs <Default for Japanese>::default
//@spec
    ensures ja_std(cfg_of(r.tokenizer)),
//@end
}
/// the shipped dictionary alone, with compound words taken apart
pub open spec fn ja_std(c: TokenizerConfig) -> bool { c.dictionary == ipadic() && c.user_dictionary is None && c.mode == Mode::Decompose(std_penalty()) }
impl Japanese {
    pub closed spec fn cfg(&self) -> TokenizerConfig { cfg_of(self.tokenizer) }
//@fn src/lang/ja.rs Japanese::new
//@spec
    ensures ja_std(r.cfg()),
//@end
//@fn src/lang/ja.rs Japanese::with_config
//@spec
    requires loads(config),
    ensures r.cfg() == config,
//@end
}
//@conststr src/lang/ja.rs WORD_CHARS

impl Language for Japanese {
    open spec fn lname(&self) -> Seq<char> { "Japanese"@ }
    open spec fn lcode(&self) -> Seq<char> { "ja"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == ja_words(lindera_cut(self.cfg(), text)) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 2 && fnames(q) == seq!["trimmer-ja"@, "stemmer-ja"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> o == keep(script_trim("0-9A-Za-z\\p{Hiragana}\\p{Katakana}\\p{Unified_Ideograph}"@, t))
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[1].fpost(t, o) ==> o == Some(t)
        &&& never_empty(q)
    }
//@fn src/lang/ja.rs <Language for Japanese>::name
//@end
//@fn src/lang/ja.rs <Language for Japanese>::code
//@end
//@fn src/lang/ja.rs <Language for Japanese>::tokenize
//@closure 0
types Token<'_>
-> (o: Option<String>) ensures sview(o) == ja_kept(tok_of($0))
//@closure 1
types &String
-> (q: &str) ensures q@ == $0@
//@end
//@alt src/lang/ja.rs <Language for Japanese>::tokenize
//@closure 0
types &String
-> (q: &str) ensures q@ == $0@
//@loop 0 for
    invariant toks_of(it0.seq()) == lindera_cut(self.cfg(), text@), 0 <= it0.index() <= it0.seq().len(),
        views($mut0@) == ja_words(toks_of(it0.seq().take(it0.index() as int))), it0.seq().take(it0.seq().len() as int) =~= it0.seq(),
//@at in-loop 0
    let ghost before = $mut0@; let ghost tok0 = $pat0;
//@at end-loop 0
    proof {
        lemma_ja_step(it0.seq().take(it0.index() as int), tok0);
        assert(it0.seq().take(it0.index() as int + 1) =~= it0.seq().take(it0.index() as int).push(tok0));
        if ja_left_out(tok_of(tok0).detail) { assert($mut0@ =~= before); } else { assert(views($mut0@) =~= views(before).push(tok0.text@)); }
    }
//@end
//@fn src/lang/ja.rs <Language for Japanese>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["trimmer-ja"@, "stemmer-ja"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
//@fn src/lang/ja.rs stemmer
//@spec
    ensures sview(r) == Some(token@),
//@end
}
pub use ja::Japanese;

pub mod ar {
use super::*;
broadcast use { vxmap::group_map, vxtext::group_text, regex::group_regex, axiom_string_from_str, axiom_string_from_str_obeys };
//@struct src/lang/ar.rs Stemmer
/// no tatweel or diacritic, every alef variant plain
pub open spec fn ar_norm(t: Seq<char>) -> Seq<char> { subst_all(subst_all(t, |c: char| is_dia(c), ""@), |c: char| is_alef(c), "\u{627}"@) }
/// known finding C24: only the first diacritic and the first alef variant are treated
pub open spec fn ar_first(t: Seq<char>) -> Seq<char> { subst_first(subst_first(t, |c: char| is_dia(c), ""@), |c: char| is_alef(c), "\u{627}"@) }
pub open spec fn count(t: Seq<char>, p: spec_fn(char) -> bool) -> nat { t.filter(p).len() }
pub open spec fn few(t: Seq<char>) -> bool { count(t, |c: char| is_dia(c)) <= 1 && count(t, |c: char| is_alef(c)) <= 1 }
pub open spec fn ar_post(t: Seq<char>, o: Option<Seq<char>>) -> bool {
    &&& few(t) ==> o == keep(ar_norm(t))
    &&& o == keep(ar_norm(t)) || o == keep(ar_first(t))
}
impl Stemmer {
    pub open spec fn wf(&self) -> bool { self.diacritics.pat() == pat_dia() && self.alefs.pat() == pat_alef() }
//@fn src/lang/ar.rs Stemmer::new
//@spec
    ensures r.wf(),
//@at begin
    proof { axiom_arabic_patterns(); }
//@end
}
impl PipelineFn for Stemmer {
    open spec fn fname(&self) -> Seq<char> { "stemmer-ar"@ }
    open spec fn fpost(&self, t: Seq<char>, o: Option<Seq<char>>) -> bool { self.wf() ==> ar_post(t, o) }
//@fn src/lang/ar.rs <PipelineFn for Stemmer>::name
//@end
//@fn src/lang/ar.rs <PipelineFn for Stemmer>::filter
//@at begin
    proof { axiom_arabic_patterns(); lemma_few(token@); }
//@end
}
//@include lang_ar.vx
//@struct src/lang/ar.rs Arabic
impl Arabic {
//@fn src/lang/ar.rs Arabic::new
//@end
}
impl Language for Arabic {
    open spec fn lname(&self) -> Seq<char> { "Arabic"@ }
    open spec fn lcode(&self) -> Seq<char> { "ar"@ }
    open spec fn ltok(&self, text: Seq<char>, out: Seq<Seq<char>>) -> bool { out == tokens(text) }
    open spec fn lpipe(&self, q: Seq<Box<dyn PipelineFn>>) -> bool {
        &&& q.len() == 1 && fnames(q) == seq!["stemmer-ar"@]
        &&& forall|t: Seq<char>, o: Option<Seq<char>>| #[trigger] q[0].fpost(t, o) ==> ar_post(t, o)
        &&& never_empty(q)
    }
//@fn src/lang/ar.rs <Language for Arabic>::name
//@end
//@fn src/lang/ar.rs <Language for Arabic>::code
//@end
//@fn src/lang/ar.rs <Language for Arabic>::tokenize
//@end
//@fn src/lang/ar.rs <Language for Arabic>::make_pipeline
//@at begin
    proof { axiom_classes(); axiom_arabic_patterns(); lemma_impl::<FnWrapper>(); lemma_impl::<RegexTrimmer>(); }
//@at wrap
    proof {
        assert(fnames(r.queue@) =~= seq!["stemmer-ar"@]);
        lemma_never_empty(r.queue@, 0);
    }
//@end
}
}
pub use ar::Arabic;
