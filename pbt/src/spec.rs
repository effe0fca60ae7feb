//! The vocabulary: names of all variants of the library's enums (so that the harness identifies
//! types by their own names, not by the library's string conversions), and the snapshot of the FoLiA
//! specification tables (spec/spec.json) that serves as the oracle.
use folia::*;
use serde::{Serialize,Deserialize};
use std::collections::{BTreeMap,HashMap};
use std::sync::OnceLock;

pub const ALL_ELEMENTTYPE: &[(&str,ElementType)] = &[
    ("ActorFeature",ElementType::ActorFeature), ("Alternative",ElementType::Alternative), ("AlternativeLayers",ElementType::AlternativeLayers), ("BegindatetimeFeature",ElementType::BegindatetimeFeature), ("Caption",ElementType::Caption), ("Cell",ElementType::Cell), ("Chunk",ElementType::Chunk), ("ChunkingLayer",ElementType::ChunkingLayer), ("Comment",ElementType::Comment), ("Content",ElementType::Content), ("CoreferenceChain",ElementType::CoreferenceChain), ("CoreferenceLayer",ElementType::CoreferenceLayer), ("CoreferenceLink",ElementType::CoreferenceLink), ("Correction",ElementType::Correction), ("Cue",ElementType::Cue), ("Current",ElementType::Current), ("Definition",ElementType::Definition), ("DependenciesLayer",ElementType::DependenciesLayer), ("Dependency",ElementType::Dependency), ("DependencyDependent",ElementType::DependencyDependent), ("Description",ElementType::Description), ("Division",ElementType::Division), ("DomainAnnotation",ElementType::DomainAnnotation), ("EnddatetimeFeature",ElementType::EnddatetimeFeature), ("EntitiesLayer",ElementType::EntitiesLayer), ("Entity",ElementType::Entity), ("Entry",ElementType::Entry), ("ErrorDetection",ElementType::ErrorDetection), ("Event",ElementType::Event), ("Example",ElementType::Example), ("External",ElementType::External), ("Feature",ElementType::Feature), ("Figure",ElementType::Figure), ("FontFeature",ElementType::FontFeature), ("ForeignData",ElementType::ForeignData), ("FunctionFeature",ElementType::FunctionFeature), ("Gap",ElementType::Gap), ("Head",ElementType::Head), ("HeadFeature",ElementType::HeadFeature), ("Headspan",ElementType::Headspan), ("Hiddenword",ElementType::Hiddenword), ("Hyphbreak",ElementType::Hyphbreak), ("Label",ElementType::Label), ("LangAnnotation",ElementType::LangAnnotation), ("LemmaAnnotation",ElementType::LemmaAnnotation), ("LevelFeature",ElementType::LevelFeature), ("Linebreak",ElementType::Linebreak), ("LinkReference",ElementType::LinkReference), ("List",ElementType::List), ("ListItem",ElementType::ListItem), ("Metric",ElementType::Metric), ("ModalitiesLayer",ElementType::ModalitiesLayer), ("Modality",ElementType::Modality), ("ModalityFeature",ElementType::ModalityFeature), ("Morpheme",ElementType::Morpheme), ("MorphologyLayer",ElementType::MorphologyLayer), ("New",ElementType::New), ("Note",ElementType::Note), ("Observation",ElementType::Observation), ("ObservationLayer",ElementType::ObservationLayer), ("Original",ElementType::Original), ("Paragraph",ElementType::Paragraph), ("Part",ElementType::Part), ("PhonContent",ElementType::PhonContent), ("Phoneme",ElementType::Phoneme), ("PhonologyLayer",ElementType::PhonologyLayer), ("PolarityFeature",ElementType::PolarityFeature), ("PosAnnotation",ElementType::PosAnnotation), ("Predicate",ElementType::Predicate), ("Quote",ElementType::Quote), ("Reference",ElementType::Reference), ("Relation",ElementType::Relation), ("Row",ElementType::Row), ("Scope",ElementType::Scope), ("SemanticRole",ElementType::SemanticRole), ("SemanticRolesLayer",ElementType::SemanticRolesLayer), ("SenseAnnotation",ElementType::SenseAnnotation), ("Sentence",ElementType::Sentence), ("Sentiment",ElementType::Sentiment), ("SentimentLayer",ElementType::SentimentLayer), ("SizeFeature",ElementType::SizeFeature), ("Source",ElementType::Source), ("SpanRelation",ElementType::SpanRelation), ("SpanRelationLayer",ElementType::SpanRelationLayer), ("Speech",ElementType::Speech), ("Statement",ElementType::Statement), ("StatementLayer",ElementType::StatementLayer), ("StatementRelation",ElementType::StatementRelation), ("StrengthFeature",ElementType::StrengthFeature), ("String",ElementType::String), ("StyleFeature",ElementType::StyleFeature), ("SubjectivityAnnotation",ElementType::SubjectivityAnnotation), ("Suggestion",ElementType::Suggestion), ("SynsetFeature",ElementType::SynsetFeature), ("SyntacticUnit",ElementType::SyntacticUnit), ("SyntaxLayer",ElementType::SyntaxLayer), ("Table",ElementType::Table), ("TableHead",ElementType::TableHead), ("Target",ElementType::Target), ("Term",ElementType::Term), ("Text",ElementType::Text), ("TextContent",ElementType::TextContent), ("TextMarkupCorrection",ElementType::TextMarkupCorrection), ("TextMarkupError",ElementType::TextMarkupError), ("TextMarkupGap",ElementType::TextMarkupGap), ("TextMarkupHSpace",ElementType::TextMarkupHSpace), ("TextMarkupLanguage",ElementType::TextMarkupLanguage), ("TextMarkupReference",ElementType::TextMarkupReference), ("TextMarkupString",ElementType::TextMarkupString), ("TextMarkupStyle",ElementType::TextMarkupStyle), ("TextMarkupWhitespace",ElementType::TextMarkupWhitespace), ("TimeFeature",ElementType::TimeFeature), ("TimeSegment",ElementType::TimeSegment), ("TimingLayer",ElementType::TimingLayer), ("Utterance",ElementType::Utterance), ("ValueFeature",ElementType::ValueFeature), ("Whitespace",ElementType::Whitespace), ("Word",ElementType::Word), ("WordReference",ElementType::WordReference)
];
pub const ALL_ELEMENTGROUP: &[(&str,ElementGroup)] = &[
    ("Layer",ElementGroup::Layer), ("Content",ElementGroup::Content), ("CorrectionChild",ElementGroup::CorrectionChild), ("HigherOrder",ElementGroup::HigherOrder), ("Inline",ElementGroup::Inline), ("Span",ElementGroup::Span), ("SpanRole",ElementGroup::SpanRole), ("Structure",ElementGroup::Structure), ("Subtoken",ElementGroup::Subtoken), ("TextMarkup",ElementGroup::TextMarkup), ("Feature",ElementGroup::Feature)
];
pub const ALL_ANNOTATIONTYPE: &[(&str,AnnotationType)] = &[
    ("TEXT",AnnotationType::TEXT), ("TOKEN",AnnotationType::TOKEN), ("DIVISION",AnnotationType::DIVISION), ("PARAGRAPH",AnnotationType::PARAGRAPH), ("HEAD",AnnotationType::HEAD), ("LIST",AnnotationType::LIST), ("FIGURE",AnnotationType::FIGURE), ("WHITESPACE",AnnotationType::WHITESPACE), ("LINEBREAK",AnnotationType::LINEBREAK), ("SENTENCE",AnnotationType::SENTENCE), ("POS",AnnotationType::POS), ("LEMMA",AnnotationType::LEMMA), ("DOMAIN",AnnotationType::DOMAIN), ("SENSE",AnnotationType::SENSE), ("SYNTAX",AnnotationType::SYNTAX), ("CHUNKING",AnnotationType::CHUNKING), ("ENTITY",AnnotationType::ENTITY), ("CORRECTION",AnnotationType::CORRECTION), ("ERRORDETECTION",AnnotationType::ERRORDETECTION), ("PHON",AnnotationType::PHON), ("SUBJECTIVITY",AnnotationType::SUBJECTIVITY), ("MORPHOLOGICAL",AnnotationType::MORPHOLOGICAL), ("EVENT",AnnotationType::EVENT), ("DEPENDENCY",AnnotationType::DEPENDENCY), ("TIMESEGMENT",AnnotationType::TIMESEGMENT), ("GAP",AnnotationType::GAP), ("QUOTE",AnnotationType::QUOTE), ("NOTE",AnnotationType::NOTE), ("REFERENCE",AnnotationType::REFERENCE), ("RELATION",AnnotationType::RELATION), ("SPANRELATION",AnnotationType::SPANRELATION), ("COREFERENCE",AnnotationType::COREFERENCE), ("SEMROLE",AnnotationType::SEMROLE), ("METRIC",AnnotationType::METRIC), ("LANG",AnnotationType::LANG), ("STRING",AnnotationType::STRING), ("TABLE",AnnotationType::TABLE), ("STYLE",AnnotationType::STYLE), ("PART",AnnotationType::PART), ("UTTERANCE",AnnotationType::UTTERANCE), ("ENTRY",AnnotationType::ENTRY), ("TERM",AnnotationType::TERM), ("DEFINITION",AnnotationType::DEFINITION), ("EXAMPLE",AnnotationType::EXAMPLE), ("PHONOLOGICAL",AnnotationType::PHONOLOGICAL), ("PREDICATE",AnnotationType::PREDICATE), ("OBSERVATION",AnnotationType::OBSERVATION), ("SENTIMENT",AnnotationType::SENTIMENT), ("STATEMENT",AnnotationType::STATEMENT), ("ALTERNATIVE",AnnotationType::ALTERNATIVE), ("RAWCONTENT",AnnotationType::RAWCONTENT), ("COMMENT",AnnotationType::COMMENT), ("DESCRIPTION",AnnotationType::DESCRIPTION), ("HYPHENATION",AnnotationType::HYPHENATION), ("HIDDENTOKEN",AnnotationType::HIDDENTOKEN), ("MODALITY",AnnotationType::MODALITY), ("EXTERNAL",AnnotationType::EXTERNAL), ("HSPACE",AnnotationType::HSPACE)
];
pub const ALL_ATTRIBTYPE: &[(&str,AttribType)] = &[
    ("NONE",AttribType::NONE), ("ID",AttribType::ID), ("SET",AttribType::SET), ("CLASS",AttribType::CLASS), ("ANNOTATOR",AttribType::ANNOTATOR), ("ANNOTATORTYPE",AttribType::ANNOTATORTYPE), ("CONFIDENCE",AttribType::CONFIDENCE), ("N",AttribType::N), ("DATETIME",AttribType::DATETIME), ("BEGINTIME",AttribType::BEGINTIME), ("ENDTIME",AttribType::ENDTIME), ("SRC",AttribType::SRC), ("SPEAKER",AttribType::SPEAKER), ("TEXTCLASS",AttribType::TEXTCLASS), ("METADATA",AttribType::METADATA), ("IDREF",AttribType::IDREF), ("SPACE",AttribType::SPACE), ("PROCESSOR",AttribType::PROCESSOR), ("HREF",AttribType::HREF), ("FORMAT",AttribType::FORMAT), ("SUBSET",AttribType::SUBSET), ("TEXT",AttribType::TEXT), ("TYPE",AttribType::TYPE), ("AUTH",AttribType::AUTH), ("OFFSET",AttribType::OFFSET), ("REF",AttribType::REF), ("ORIGINAL",AttribType::ORIGINAL), ("LINENR",AttribType::LINENR), ("PAGENR",AttribType::PAGENR), ("NEWPAGE",AttribType::NEWPAGE), ("XLINKTYPE",AttribType::XLINKTYPE), ("TAG",AttribType::TAG)
];

#[derive(Serialize,Deserialize,Debug,Clone,PartialEq,Default)]
pub struct TypeSpec {
    pub tag: String,
    pub annotationtype: Option<String>,
    ///accepted element types
    pub types: Vec<String>,
    ///accepted groups
    pub groups: Vec<String>,
    pub required_data: Vec<String>,
    pub required_attribs: Vec<String>,
    pub optional_attribs: Vec<String>,
    pub occurrences: u32,
    pub occurrences_per_set: u32,
    pub textdelimiter: Option<String>,
    pub printable: bool,
    pub speakable: bool,
    pub hidden: bool,
    pub xlink: bool,
    pub textcontainer: bool,
    pub phoncontainer: bool,
    pub subset: Option<String>,
    pub auth: bool,
    pub primaryelement: bool,
    pub auto_generate_id: bool,
    pub setonly: bool,
    pub wrefable: bool,
    pub label: String,
    pub xmltag: String,
}

#[derive(Serialize,Deserialize,Debug,Clone,PartialEq,Default)]
pub struct AnnSpec {
    pub name: String,
    pub elementtag: String,
    pub elementtype: String,
    pub layertype: Option<String>,
}

#[derive(Serialize,Deserialize,Debug,Clone,PartialEq,Default)]
pub struct Spec {
    pub types: BTreeMap<String,TypeSpec>,
    pub annotationtypes: BTreeMap<String,AnnSpec>,
    pub groups: BTreeMap<String,Vec<String>>,
    pub attribs: BTreeMap<String,String>,
}

///Name of the variant
pub fn et_name(et: ElementType) -> &'static str {
    ALL_ELEMENTTYPE.iter().find(|(_,t)| *t == et).map(|(n,_)| *n).unwrap_or("?")
}
pub fn et(name: &str) -> ElementType {
    static M: OnceLock<HashMap<&'static str,ElementType>> = OnceLock::new();
    *M.get_or_init(|| ALL_ELEMENTTYPE.iter().cloned().collect()).get(name).unwrap_or_else(|| panic!("unknown element type {}",name))
}
pub fn at(name: &str) -> AnnotationType {
    ALL_ANNOTATIONTYPE.iter().find(|(n,_)| *n == name).map(|(_,t)| *t).unwrap_or_else(|| panic!("unknown annotation type {}",name))
}
pub fn at_name(a: AnnotationType) -> &'static str {
    ALL_ANNOTATIONTYPE.iter().find(|(_,t)| *t == a).map(|(n,_)| *n).unwrap_or("?")
}
pub fn group(name: &str) -> ElementGroup {
    ALL_ELEMENTGROUP.iter().find(|(n,_)| *n == name).map(|(_,t)| *t).unwrap()
}
pub fn group_name(g: ElementGroup) -> &'static str {
    ALL_ELEMENTGROUP.iter().find(|(_,t)| *t == g).map(|(n,_)| *n).unwrap_or("?")
}
pub fn attribtype_name(a: AttribType) -> &'static str {
    ALL_ATTRIBTYPE.iter().find(|(_,t)| *t == a).map(|(n,_)| *n).unwrap_or("?")
}

fn accepted(data: &[AcceptedData]) -> (Vec<String>,Vec<String>) {
    let mut types = vec![]; let mut groups = vec![];
    for d in data {
        match d {
            AcceptedData::AcceptElementType(t) => types.push(et_name(*t).to_string()),
            AcceptedData::AcceptElementGroup(g) => groups.push(group_name(*g).to_string()),
        }
    }
    types.sort(); groups.sort();
    (types,groups)
}

///Reads one element type's entry from the library (to be compared with the snapshot)
pub fn read_type(t: ElementType) -> TypeSpec {
    let p = Properties::new(t);
    let (types,groups) = accepted(p.accepted_data);
    let (rt,rg) = accepted(p.required_data);
    let sorted = |a: &[AttribType]| { let mut v: Vec<String> = a.iter().map(|x| attribtype_name(*x).to_string()).collect(); v.sort(); v };
    TypeSpec {
        tag: t.as_str().to_string(),
        annotationtype: t.annotationtype().map(|a| at_name(a).to_string()),
        types, groups,
        required_data: rt.into_iter().chain(rg.into_iter()).collect(),
        required_attribs: sorted(p.required_attribs), optional_attribs: sorted(p.optional_attribs),
        occurrences: p.occurrences, occurrences_per_set: p.occurrences_per_set,
        textdelimiter: p.textdelimiter.map(|s| s.to_string()),
        printable: p.printable, speakable: p.speakable, hidden: p.hidden, xlink: p.xlink,
        textcontainer: p.textcontainer, phoncontainer: p.phoncontainer,
        subset: p.subset.map(|s| s.to_string()), auth: p.auth, primaryelement: p.primaryelement,
        auto_generate_id: p.auto_generate_id, setonly: p.setonly, wrefable: p.wrefable,
        label: p.label.to_string(), xmltag: p.xmltag.to_string(),
    }
}
pub fn read_ann(a: AnnotationType) -> AnnSpec {
    AnnSpec { name: a.as_str().to_string(), elementtag: a.as_element_str().to_string(), elementtype: et_name(a.elementtype()).to_string(), layertype: a.layertype().map(|t| et_name(t).to_string()) }
}
pub fn read_group(g: ElementGroup) -> Vec<String> {
    let mut v: Vec<String> = g.elementtypes().iter().map(|t| et_name(*t).to_string()).collect(); v.sort(); v
}
pub fn read_spec() -> Spec {
    Spec {
        types: ALL_ELEMENTTYPE.iter().map(|(n,t)| (n.to_string(),read_type(*t))).collect(),
        annotationtypes: ALL_ANNOTATIONTYPE.iter().map(|(n,t)| (n.to_string(),read_ann(*t))).collect(),
        groups: ALL_ELEMENTGROUP.iter().map(|(n,g)| (n.to_string(),read_group(*g))).collect(),
        attribs: ALL_ATTRIBTYPE.iter().map(|(n,a)| { let s: &str = (*a).into(); (n.to_string(),s.to_string()) }).collect(),
    }
}

///The snapshot
pub fn spec() -> &'static Spec {
    static S: OnceLock<Spec> = OnceLock::new();
    S.get_or_init(|| serde_json::from_str(include_str!("../spec/spec.json")).expect("spec.json"))
}
pub fn ts(name: &str) -> &'static TypeSpec {
    spec().types.get(name).unwrap_or_else(|| panic!("no spec for {}",name))
}
pub fn in_group(g: &str, t: &str) -> bool {
    spec().groups.get(g).map_or(false, |v| v.iter().any(|x| x == t))
}
pub fn accepts(parent: &str, child: &str) -> bool {
    let p = ts(parent);
    p.types.iter().any(|t| t == child) || p.groups.iter().any(|g| in_group(g,child))
}
pub fn tag(t: &str) -> &'static str { &ts(t).tag }
pub fn by_tag(tag: &str) -> Option<&'static str> {
    static M: OnceLock<HashMap<String,String>> = OnceLock::new();
    M.get_or_init(|| { let mut m = HashMap::new(); for (n,t) in spec().types.iter() { if !t.tag.is_empty() && !m.contains_key(&t.tag) { m.insert(t.tag.clone(), n.clone()); } } m }).get(tag).map(|s| s.as_str())
}
