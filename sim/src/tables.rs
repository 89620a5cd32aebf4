// Generated once by tools/gen_tables.py from the pinned commit; the oracle uses these facts, not /repo's.
use folia::{ElementType,AnnotationType};
use ElementType as E;
use AnnotationType as A;

pub struct Row { pub et: ElementType, pub name: &'static str, pub tag: &'static str, pub at: Option<AnnotationType>, pub delim: Option<&'static str>, pub printable: bool, pub hidden: bool, pub textcontainer: bool, pub phoncontainer: bool, pub wrefable: bool, pub space: bool, pub subset: Option<&'static str>, pub accepts: &'static [ElementType] }

pub static ROWS: &[Row] = &[
    Row { et: E::ActorFeature, name: "ActorFeature", tag: "actor", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("actor"), accepts: &[E::Comment,E::Description] },
    Row { et: E::Alternative, name: "Alternative", tag: "alt", at: Some(A::ALTERNATIVE), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Correction,E::Description,E::ForeignData,E::MorphologyLayer,E::PhonologyLayer] },
    Row { et: E::AlternativeLayers, name: "AlternativeLayers", tag: "altlayers", at: Some(A::ALTERNATIVE), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::Comment,E::Description,E::ForeignData] },
    Row { et: E::BegindatetimeFeature, name: "BegindatetimeFeature", tag: "begindatetime", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("begindatetime"), accepts: &[E::Comment,E::Description] },
    Row { et: E::Caption, name: "Caption", tag: "caption", at: None, delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Gap,E::Linebreak,E::Metric,E::Paragraph,E::Part,E::PhonContent,E::Quote,E::Reference,E::Relation,E::Sentence,E::String,E::TextContent,E::Whitespace] },
    Row { et: E::Cell, name: "Cell", tag: "cell", at: None, delim: Some(" | "), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Entry,E::Event,E::Example,E::External,E::Feature,E::Figure,E::ForeignData,E::Gap,E::Head,E::Hiddenword,E::Linebreak,E::List,E::Metric,E::Note,E::Paragraph,E::Part,E::Quote,E::Reference,E::Relation,E::Sentence,E::String,E::TextContent,E::Whitespace,E::Word] },
    Row { et: E::Chunk, name: "Chunk", tag: "chunk", at: Some(A::CHUNKING), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::ChunkingLayer, name: "ChunkingLayer", tag: "chunking", at: Some(A::CHUNKING), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Chunk,E::Comment,E::Correction,E::Description,E::ForeignData] },
    Row { et: E::Comment, name: "Comment", tag: "comment", at: Some(A::COMMENT), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description] },
    Row { et: E::Content, name: "Content", tag: "content", at: Some(A::RAWCONTENT), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description] },
    Row { et: E::CoreferenceChain, name: "CoreferenceChain", tag: "coreferencechain", at: Some(A::COREFERENCE), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::CoreferenceLink,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation] },
    Row { et: E::CoreferenceLayer, name: "CoreferenceLayer", tag: "coreferences", at: Some(A::COREFERENCE), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::CoreferenceChain,E::Correction,E::Description,E::ForeignData] },
    Row { et: E::CoreferenceLink, name: "CoreferenceLink", tag: "coreferencelink", at: Some(A::COREFERENCE), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::Headspan,E::LevelFeature,E::LinkReference,E::Metric,E::ModalityFeature,E::Relation,E::TimeFeature,E::WordReference] },
    Row { et: E::Correction, name: "Correction", tag: "correction", at: Some(A::CORRECTION), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Current,E::Description,E::ErrorDetection,E::Feature,E::ForeignData,E::Metric,E::New,E::Original,E::Suggestion] },
    Row { et: E::Cue, name: "Cue", tag: "cue", at: None, delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::Current, name: "Current", tag: "current", at: Some(A::CORRECTION), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Chunk,E::CoreferenceChain,E::Modality,E::Dependency,E::Entity,E::Observation,E::Predicate,E::SemanticRole,E::Sentiment,E::Statement,E::SyntacticUnit,E::TimeSegment,E::Caption,E::Cell,E::Definition,E::Division,E::Entry,E::Event,E::Example,E::Figure,E::Head,E::Hiddenword,E::Label,E::Linebreak,E::List,E::ListItem,E::Note,E::Paragraph,E::Part,E::Quote,E::Reference,E::Row,E::Sentence,E::Speech,E::Table,E::TableHead,E::Term,E::Text,E::Utterance,E::Whitespace,E::Word,E::Comment,E::Correction,E::Description,E::ForeignData,E::Metric,E::PhonContent,E::String,E::TextContent] },
    Row { et: E::Definition, name: "Definition", tag: "def", at: Some(A::DEFINITION), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::Figure,E::ForeignData,E::Hiddenword,E::Linebreak,E::List,E::Metric,E::Paragraph,E::Part,E::PhonContent,E::Reference,E::Relation,E::Sentence,E::String,E::Table,E::TextContent,E::Utterance,E::Whitespace,E::Word] },
    Row { et: E::DependenciesLayer, name: "DependenciesLayer", tag: "dependencies", at: Some(A::DEPENDENCY), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Dependency,E::Description,E::ForeignData] },
    Row { et: E::Dependency, name: "Dependency", tag: "dependency", at: Some(A::DEPENDENCY), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::DependencyDependent,E::Description,E::Feature,E::ForeignData,E::Headspan,E::LinkReference,E::Metric,E::Relation] },
    Row { et: E::DependencyDependent, name: "DependencyDependent", tag: "dep", at: None, delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::Description, name: "Description", tag: "desc", at: Some(A::DESCRIPTION), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description] },
    Row { et: E::Division, name: "Division", tag: "div", at: Some(A::DIVISION), delim: Some("\n\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Division,E::Entry,E::Event,E::Example,E::External,E::Feature,E::Figure,E::ForeignData,E::Gap,E::Head,E::Linebreak,E::List,E::Metric,E::Note,E::Paragraph,E::Part,E::PhonContent,E::Quote,E::Reference,E::Relation,E::Sentence,E::Table,E::TextContent,E::Utterance,E::Whitespace,E::Word] },
    Row { et: E::DomainAnnotation, name: "DomainAnnotation", tag: "domain", at: Some(A::DOMAIN), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::Metric] },
    Row { et: E::EnddatetimeFeature, name: "EnddatetimeFeature", tag: "enddatetime", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("enddatetime"), accepts: &[E::Comment,E::Description] },
    Row { et: E::EntitiesLayer, name: "EntitiesLayer", tag: "entities", at: Some(A::ENTITY), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::Entity,E::ForeignData] },
    Row { et: E::Entity, name: "Entity", tag: "entity", at: Some(A::ENTITY), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::Entry, name: "Entry", tag: "entry", at: Some(A::ENTRY), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Definition,E::Description,E::Example,E::External,E::Feature,E::ForeignData,E::Metric,E::Part,E::Relation,E::String,E::Term,E::TextContent] },
    Row { et: E::ErrorDetection, name: "ErrorDetection", tag: "errordetection", at: Some(A::ERRORDETECTION), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::Metric] },
    Row { et: E::Event, name: "Event", tag: "event", at: Some(A::EVENT), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::ActorFeature,E::Alternative,E::AlternativeLayers,E::BegindatetimeFeature,E::Comment,E::Correction,E::Description,E::Division,E::EnddatetimeFeature,E::Entry,E::Event,E::Example,E::External,E::Feature,E::Figure,E::ForeignData,E::Gap,E::Head,E::Hiddenword,E::Linebreak,E::List,E::Metric,E::Note,E::Paragraph,E::Part,E::PhonContent,E::Quote,E::Reference,E::Relation,E::Sentence,E::String,E::Table,E::TextContent,E::Utterance,E::Whitespace,E::Word] },
    Row { et: E::Example, name: "Example", tag: "ex", at: Some(A::EXAMPLE), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::Figure,E::ForeignData,E::Hiddenword,E::Linebreak,E::List,E::Metric,E::Paragraph,E::Part,E::PhonContent,E::Reference,E::Relation,E::Sentence,E::String,E::Table,E::TextContent,E::Utterance,E::Whitespace,E::Word] },
    Row { et: E::External, name: "External", tag: "external", at: Some(A::EXTERNAL), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[] },
    Row { et: E::Feature, name: "Feature", tag: "feat", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description] },
    Row { et: E::Figure, name: "Figure", tag: "figure", at: Some(A::FIGURE), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::Alternative,E::AlternativeLayers,E::Caption,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Linebreak,E::Metric,E::Part,E::Relation,E::String,E::TextContent] },
    Row { et: E::FontFeature, name: "FontFeature", tag: "font", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("font"), accepts: &[E::Comment,E::Description] },
    Row { et: E::ForeignData, name: "ForeignData", tag: "foreign-data", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description] },
    Row { et: E::FunctionFeature, name: "FunctionFeature", tag: "function", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("function"), accepts: &[E::Comment,E::Description] },
    Row { et: E::Gap, name: "Gap", tag: "gap", at: Some(A::GAP), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Content,E::Description,E::Feature,E::ForeignData,E::Metric,E::Part] },
    Row { et: E::Head, name: "Head", tag: "head", at: Some(A::HEAD), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Event,E::External,E::Feature,E::ForeignData,E::Gap,E::Hiddenword,E::Linebreak,E::Metric,E::Paragraph,E::Part,E::PhonContent,E::Reference,E::Relation,E::Sentence,E::String,E::TextContent,E::Whitespace,E::Word] },
    Row { et: E::HeadFeature, name: "HeadFeature", tag: "headfeature", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("head"), accepts: &[E::Comment,E::Description] },
    Row { et: E::Headspan, name: "Headspan", tag: "hd", at: None, delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::Hiddenword, name: "Hiddenword", tag: "hiddenw", at: Some(A::HIDDENTOKEN), delim: Some(" "), printable: true, hidden: true, textcontainer: false, phoncontainer: false, wrefable: true, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Metric,E::Part,E::PhonContent,E::Reference,E::Relation,E::String,E::TextContent] },
    Row { et: E::Hyphbreak, name: "Hyphbreak", tag: "t-hbr", at: Some(A::HYPHENATION), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::Label, name: "Label", tag: "label", at: None, delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Hiddenword,E::Linebreak,E::Metric,E::Part,E::PhonContent,E::Reference,E::Relation,E::String,E::TextContent,E::Whitespace,E::Word] },
    Row { et: E::LangAnnotation, name: "LangAnnotation", tag: "lang", at: Some(A::LANG), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::Metric] },
    Row { et: E::LemmaAnnotation, name: "LemmaAnnotation", tag: "lemma", at: Some(A::LEMMA), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::Metric] },
    Row { et: E::LevelFeature, name: "LevelFeature", tag: "level", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("level"), accepts: &[E::Comment,E::Description] },
    Row { et: E::Linebreak, name: "Linebreak", tag: "br", at: Some(A::LINEBREAK), delim: Some(""), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Metric,E::Part,E::Relation] },
    Row { et: E::LinkReference, name: "LinkReference", tag: "xref", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description] },
    Row { et: E::List, name: "List", tag: "list", at: Some(A::LIST), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Caption,E::Comment,E::Correction,E::Description,E::Event,E::External,E::Feature,E::ForeignData,E::Linebreak,E::ListItem,E::Metric,E::Note,E::Part,E::PhonContent,E::Reference,E::Relation,E::String,E::TextContent] },
    Row { et: E::ListItem, name: "ListItem", tag: "item", at: None, delim: Some("\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Event,E::External,E::Feature,E::ForeignData,E::Gap,E::Hiddenword,E::Label,E::Linebreak,E::List,E::Metric,E::Note,E::Paragraph,E::Part,E::PhonContent,E::Quote,E::Reference,E::Relation,E::Sentence,E::String,E::TextContent,E::Whitespace,E::Word] },
    Row { et: E::Metric, name: "Metric", tag: "metric", at: Some(A::METRIC), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::ValueFeature] },
    Row { et: E::ModalitiesLayer, name: "ModalitiesLayer", tag: "modalities", at: Some(A::MODALITY), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::Modality] },
    Row { et: E::Modality, name: "Modality", tag: "modality", at: Some(A::MODALITY), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Cue,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::PolarityFeature,E::Relation,E::Scope,E::Source,E::StrengthFeature,E::Target] },
    Row { et: E::ModalityFeature, name: "ModalityFeature", tag: "mod", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("mod"), accepts: &[E::Comment,E::Description] },
    Row { et: E::Morpheme, name: "Morpheme", tag: "morpheme", at: Some(A::MORPHOLOGICAL), delim: Some(""), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: true, space: false, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Feature,E::ForeignData,E::FunctionFeature,E::Metric,E::Morpheme,E::Part,E::PhonContent,E::Relation,E::String,E::TextContent] },
    Row { et: E::MorphologyLayer, name: "MorphologyLayer", tag: "morphology", at: Some(A::MORPHOLOGICAL), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::Morpheme] },
    Row { et: E::New, name: "New", tag: "new", at: Some(A::CORRECTION), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Chunk,E::CoreferenceChain,E::Modality,E::Dependency,E::Entity,E::Observation,E::Predicate,E::SemanticRole,E::Sentiment,E::Statement,E::SyntacticUnit,E::TimeSegment,E::Caption,E::Cell,E::Definition,E::Division,E::Entry,E::Event,E::Example,E::Figure,E::Head,E::Hiddenword,E::Label,E::Linebreak,E::List,E::ListItem,E::Note,E::Paragraph,E::Part,E::Quote,E::Reference,E::Row,E::Sentence,E::Speech,E::Table,E::TableHead,E::Term,E::Text,E::Utterance,E::Whitespace,E::Word,E::Comment,E::Correction,E::Description,E::ForeignData,E::Metric,E::PhonContent,E::String,E::TextContent] },
    Row { et: E::Note, name: "Note", tag: "note", at: Some(A::NOTE), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Example,E::External,E::Feature,E::Figure,E::ForeignData,E::Head,E::Hiddenword,E::Linebreak,E::List,E::Metric,E::Paragraph,E::Part,E::PhonContent,E::Reference,E::Relation,E::Sentence,E::String,E::Table,E::TextContent,E::Utterance,E::Whitespace,E::Word] },
    Row { et: E::Observation, name: "Observation", tag: "observation", at: Some(A::OBSERVATION), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::ObservationLayer, name: "ObservationLayer", tag: "observations", at: Some(A::OBSERVATION), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::Observation] },
    Row { et: E::Original, name: "Original", tag: "original", at: Some(A::CORRECTION), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Chunk,E::CoreferenceChain,E::Modality,E::Dependency,E::Entity,E::Observation,E::Predicate,E::SemanticRole,E::Sentiment,E::Statement,E::SyntacticUnit,E::TimeSegment,E::Caption,E::Cell,E::Definition,E::Division,E::Entry,E::Event,E::Example,E::Figure,E::Head,E::Hiddenword,E::Label,E::Linebreak,E::List,E::ListItem,E::Note,E::Paragraph,E::Part,E::Quote,E::Reference,E::Row,E::Sentence,E::Speech,E::Table,E::TableHead,E::Term,E::Text,E::Utterance,E::Whitespace,E::Word,E::Comment,E::Correction,E::Description,E::ForeignData,E::Metric,E::PhonContent,E::String,E::TextContent] },
    Row { et: E::Paragraph, name: "Paragraph", tag: "p", at: Some(A::PARAGRAPH), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Entry,E::Event,E::Example,E::External,E::Feature,E::Figure,E::ForeignData,E::Gap,E::Head,E::Hiddenword,E::Linebreak,E::List,E::Metric,E::Note,E::Part,E::PhonContent,E::Quote,E::Reference,E::Relation,E::Sentence,E::String,E::TextContent,E::Whitespace,E::Word] },
    Row { et: E::Part, name: "Part", tag: "part", at: Some(A::PART), delim: Some(" "), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Caption,E::Cell,E::Definition,E::Division,E::Entry,E::Event,E::Example,E::Figure,E::Head,E::Hiddenword,E::Label,E::Linebreak,E::List,E::ListItem,E::Note,E::Paragraph,E::Part,E::Quote,E::Reference,E::Row,E::Sentence,E::Speech,E::Table,E::TableHead,E::Term,E::Text,E::Utterance,E::Whitespace,E::Word,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Metric,E::PhonContent,E::Relation,E::TextContent] },
    Row { et: E::PhonContent, name: "PhonContent", tag: "ph", at: Some(A::PHON), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: true, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature] },
    Row { et: E::Phoneme, name: "Phoneme", tag: "phoneme", at: Some(A::PHONOLOGICAL), delim: Some(""), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: true, space: false, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Feature,E::ForeignData,E::FunctionFeature,E::Metric,E::Part,E::PhonContent,E::Phoneme,E::Relation,E::String,E::TextContent] },
    Row { et: E::PhonologyLayer, name: "PhonologyLayer", tag: "phonology", at: Some(A::PHONOLOGICAL), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::Phoneme] },
    Row { et: E::PolarityFeature, name: "PolarityFeature", tag: "polarity", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("polarity"), accepts: &[E::Comment,E::Description] },
    Row { et: E::PosAnnotation, name: "PosAnnotation", tag: "pos", at: Some(A::POS), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::HeadFeature,E::Metric] },
    Row { et: E::Predicate, name: "Predicate", tag: "predicate", at: Some(A::PREDICATE), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::SemanticRole,E::WordReference] },
    Row { et: E::Quote, name: "Quote", tag: "quote", at: Some(A::QUOTE), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Division,E::External,E::Feature,E::ForeignData,E::Gap,E::Hiddenword,E::Linebreak,E::Metric,E::Paragraph,E::Part,E::Quote,E::Reference,E::Relation,E::Sentence,E::String,E::TextContent,E::Utterance,E::Whitespace,E::Word] },
    Row { et: E::Reference, name: "Reference", tag: "ref", at: Some(A::REFERENCE), delim: Some(" "), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Hiddenword,E::Linebreak,E::Metric,E::Paragraph,E::Part,E::PhonContent,E::Quote,E::Relation,E::Sentence,E::String,E::TextContent,E::Utterance,E::Whitespace,E::Word] },
    Row { et: E::Relation, name: "Relation", tag: "relation", at: Some(A::RELATION), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric] },
    Row { et: E::Row, name: "Row", tag: "row", at: None, delim: Some("\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Cell,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Metric,E::Part,E::Relation] },
    Row { et: E::Scope, name: "Scope", tag: "scope", at: None, delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Cue,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::Source,E::Target,E::WordReference] },
    Row { et: E::SemanticRole, name: "SemanticRole", tag: "semrole", at: Some(A::SEMROLE), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::Headspan,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::SemanticRolesLayer, name: "SemanticRolesLayer", tag: "semroles", at: Some(A::SEMROLE), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::Predicate,E::SemanticRole] },
    Row { et: E::SenseAnnotation, name: "SenseAnnotation", tag: "sense", at: Some(A::SENSE), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::Metric,E::SynsetFeature] },
    Row { et: E::Sentence, name: "Sentence", tag: "s", at: Some(A::SENTENCE), delim: Some(" "), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Entry,E::Event,E::Example,E::External,E::Feature,E::ForeignData,E::Gap,E::Hiddenword,E::Linebreak,E::Metric,E::Note,E::Part,E::PhonContent,E::Quote,E::Reference,E::Relation,E::String,E::TextContent,E::Whitespace,E::Word] },
    Row { et: E::Sentiment, name: "Sentiment", tag: "sentiment", at: Some(A::SENTIMENT), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::Headspan,E::LinkReference,E::Metric,E::PolarityFeature,E::Relation,E::Source,E::StrengthFeature,E::Target,E::WordReference] },
    Row { et: E::SentimentLayer, name: "SentimentLayer", tag: "sentiments", at: Some(A::SENTIMENT), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::Sentiment] },
    Row { et: E::SizeFeature, name: "SizeFeature", tag: "size", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("size"), accepts: &[E::Comment,E::Description] },
    Row { et: E::Source, name: "Source", tag: "source", at: None, delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::SpanRelation, name: "SpanRelation", tag: "spanrelation", at: Some(A::SPANRELATION), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::Metric,E::Relation] },
    Row { et: E::SpanRelationLayer, name: "SpanRelationLayer", tag: "spanrelations", at: Some(A::SPANRELATION), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::SpanRelation] },
    Row { et: E::Speech, name: "Speech", tag: "speech", at: None, delim: Some("\n\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Division,E::Entry,E::Event,E::Example,E::External,E::Feature,E::ForeignData,E::Gap,E::Hiddenword,E::List,E::Metric,E::Note,E::Paragraph,E::Part,E::PhonContent,E::Quote,E::Reference,E::Relation,E::Sentence,E::String,E::TextContent,E::Utterance,E::Word] },
    Row { et: E::Statement, name: "Statement", tag: "statement", at: Some(A::STATEMENT), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::Headspan,E::LinkReference,E::Metric,E::Relation,E::Source,E::StatementRelation,E::WordReference] },
    Row { et: E::StatementLayer, name: "StatementLayer", tag: "statements", at: Some(A::STATEMENT), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::Statement] },
    Row { et: E::StatementRelation, name: "StatementRelation", tag: "rel", at: None, delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::StrengthFeature, name: "StrengthFeature", tag: "strength", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("strength"), accepts: &[E::Comment,E::Description] },
    Row { et: E::String, name: "String", tag: "str", at: Some(A::STRING), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Correction,E::Description,E::Feature,E::ForeignData,E::Metric,E::PhonContent,E::Relation,E::TextContent] },
    Row { et: E::StyleFeature, name: "StyleFeature", tag: "style", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("style"), accepts: &[E::Comment,E::Description] },
    Row { et: E::SubjectivityAnnotation, name: "SubjectivityAnnotation", tag: "subjectivity", at: Some(A::SUBJECTIVITY), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description,E::Feature,E::ForeignData,E::Metric] },
    Row { et: E::Suggestion, name: "Suggestion", tag: "suggestion", at: Some(A::CORRECTION), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Chunk,E::CoreferenceChain,E::Modality,E::Dependency,E::Entity,E::Observation,E::Predicate,E::SemanticRole,E::Sentiment,E::Statement,E::SyntacticUnit,E::TimeSegment,E::Caption,E::Cell,E::Definition,E::Division,E::Entry,E::Event,E::Example,E::Figure,E::Head,E::Hiddenword,E::Label,E::Linebreak,E::List,E::ListItem,E::Note,E::Paragraph,E::Part,E::Quote,E::Reference,E::Row,E::Sentence,E::Speech,E::Table,E::TableHead,E::Term,E::Text,E::Utterance,E::Whitespace,E::Word,E::Comment,E::Correction,E::Description,E::ForeignData,E::Metric,E::PhonContent,E::String,E::TextContent] },
    Row { et: E::SynsetFeature, name: "SynsetFeature", tag: "synset", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("synset"), accepts: &[E::Comment,E::Description] },
    Row { et: E::SyntacticUnit, name: "SyntacticUnit", tag: "su", at: Some(A::SYNTAX), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::SyntacticUnit,E::WordReference] },
    Row { et: E::SyntaxLayer, name: "SyntaxLayer", tag: "syntax", at: Some(A::SYNTAX), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::SyntacticUnit] },
    Row { et: E::Table, name: "Table", tag: "table", at: Some(A::TABLE), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Linebreak,E::Metric,E::Part,E::Relation,E::Row,E::TableHead] },
    Row { et: E::TableHead, name: "TableHead", tag: "tablehead", at: None, delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Metric,E::Part,E::Relation,E::Row] },
    Row { et: E::Target, name: "Target", tag: "target", at: None, delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Comment,E::Description,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::Term, name: "Term", tag: "term", at: Some(A::TERM), delim: Some("\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Event,E::External,E::Feature,E::Figure,E::ForeignData,E::Gap,E::Hiddenword,E::Linebreak,E::List,E::Metric,E::Paragraph,E::Part,E::PhonContent,E::Reference,E::Relation,E::Sentence,E::String,E::Table,E::TextContent,E::Utterance,E::Whitespace,E::Word] },
    Row { et: E::Text, name: "Text", tag: "text", at: None, delim: Some("\n\n\n"), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::Division,E::Entry,E::Event,E::Example,E::External,E::Feature,E::Figure,E::ForeignData,E::Gap,E::Hiddenword,E::Linebreak,E::List,E::Metric,E::Note,E::Paragraph,E::Part,E::PhonContent,E::Quote,E::Reference,E::Relation,E::Sentence,E::String,E::Table,E::TextContent,E::Whitespace,E::Word] },
    Row { et: E::TextContent, name: "TextContent", tag: "t", at: Some(A::TEXT), delim: None, printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::TextMarkupCorrection, name: "TextMarkupCorrection", tag: "t-correction", at: Some(A::CORRECTION), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::TextMarkupError, name: "TextMarkupError", tag: "t-error", at: Some(A::ERRORDETECTION), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::TextMarkupGap, name: "TextMarkupGap", tag: "t-gap", at: Some(A::GAP), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::TextMarkupHSpace, name: "TextMarkupHSpace", tag: "t-hspace", at: Some(A::HSPACE), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::TextMarkupLanguage, name: "TextMarkupLanguage", tag: "t-lang", at: Some(A::LANG), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::TextMarkupReference, name: "TextMarkupReference", tag: "t-ref", at: Some(A::REFERENCE), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::TextMarkupString, name: "TextMarkupString", tag: "t-str", at: Some(A::STRING), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::TextMarkupStyle, name: "TextMarkupStyle", tag: "t-style", at: Some(A::STYLE), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::FontFeature,E::Linebreak,E::SizeFeature] },
    Row { et: E::TextMarkupWhitespace, name: "TextMarkupWhitespace", tag: "t-whitespace", at: Some(A::WHITESPACE), delim: Some(""), printable: true, hidden: false, textcontainer: true, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage,E::Comment,E::Description,E::Feature,E::Linebreak] },
    Row { et: E::TimeFeature, name: "TimeFeature", tag: "time", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("time"), accepts: &[E::Comment,E::Description] },
    Row { et: E::TimeSegment, name: "TimeSegment", tag: "timesegment", at: Some(A::TIMESEGMENT), delim: None, printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::ActorFeature,E::BegindatetimeFeature,E::Comment,E::Description,E::EnddatetimeFeature,E::Feature,E::ForeignData,E::LinkReference,E::Metric,E::Relation,E::WordReference] },
    Row { et: E::TimingLayer, name: "TimingLayer", tag: "timing", at: Some(A::TIMESEGMENT), delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Correction,E::Description,E::ForeignData,E::TimeSegment] },
    Row { et: E::Utterance, name: "Utterance", tag: "utt", at: Some(A::UTTERANCE), delim: Some(" "), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Gap,E::Hiddenword,E::Metric,E::Note,E::Part,E::PhonContent,E::Quote,E::Reference,E::Relation,E::Sentence,E::String,E::TextContent,E::Word] },
    Row { et: E::ValueFeature, name: "ValueFeature", tag: "value", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: Some("value"), accepts: &[E::Comment,E::Description] },
    Row { et: E::Whitespace, name: "Whitespace", tag: "whitespace", at: Some(A::WHITESPACE), delim: Some(""), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Metric,E::Part,E::Relation] },
    Row { et: E::Word, name: "Word", tag: "w", at: Some(A::TOKEN), delim: Some(" "), printable: true, hidden: false, textcontainer: false, phoncontainer: false, wrefable: true, space: true, subset: None, accepts: &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer,E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation,E::Alternative,E::AlternativeLayers,E::Comment,E::Correction,E::Description,E::External,E::Feature,E::ForeignData,E::Metric,E::Part,E::PhonContent,E::Reference,E::Relation,E::String,E::TextContent] },
    Row { et: E::WordReference, name: "WordReference", tag: "wref", at: None, delim: None, printable: false, hidden: false, textcontainer: false, phoncontainer: false, wrefable: false, space: false, subset: None, accepts: &[E::Comment,E::Description] },
];

pub fn idx(et: ElementType) -> usize { match et {
    E::ActorFeature => 0,
    E::Alternative => 1,
    E::AlternativeLayers => 2,
    E::BegindatetimeFeature => 3,
    E::Caption => 4,
    E::Cell => 5,
    E::Chunk => 6,
    E::ChunkingLayer => 7,
    E::Comment => 8,
    E::Content => 9,
    E::CoreferenceChain => 10,
    E::CoreferenceLayer => 11,
    E::CoreferenceLink => 12,
    E::Correction => 13,
    E::Cue => 14,
    E::Current => 15,
    E::Definition => 16,
    E::DependenciesLayer => 17,
    E::Dependency => 18,
    E::DependencyDependent => 19,
    E::Description => 20,
    E::Division => 21,
    E::DomainAnnotation => 22,
    E::EnddatetimeFeature => 23,
    E::EntitiesLayer => 24,
    E::Entity => 25,
    E::Entry => 26,
    E::ErrorDetection => 27,
    E::Event => 28,
    E::Example => 29,
    E::External => 30,
    E::Feature => 31,
    E::Figure => 32,
    E::FontFeature => 33,
    E::ForeignData => 34,
    E::FunctionFeature => 35,
    E::Gap => 36,
    E::Head => 37,
    E::HeadFeature => 38,
    E::Headspan => 39,
    E::Hiddenword => 40,
    E::Hyphbreak => 41,
    E::Label => 42,
    E::LangAnnotation => 43,
    E::LemmaAnnotation => 44,
    E::LevelFeature => 45,
    E::Linebreak => 46,
    E::LinkReference => 47,
    E::List => 48,
    E::ListItem => 49,
    E::Metric => 50,
    E::ModalitiesLayer => 51,
    E::Modality => 52,
    E::ModalityFeature => 53,
    E::Morpheme => 54,
    E::MorphologyLayer => 55,
    E::New => 56,
    E::Note => 57,
    E::Observation => 58,
    E::ObservationLayer => 59,
    E::Original => 60,
    E::Paragraph => 61,
    E::Part => 62,
    E::PhonContent => 63,
    E::Phoneme => 64,
    E::PhonologyLayer => 65,
    E::PolarityFeature => 66,
    E::PosAnnotation => 67,
    E::Predicate => 68,
    E::Quote => 69,
    E::Reference => 70,
    E::Relation => 71,
    E::Row => 72,
    E::Scope => 73,
    E::SemanticRole => 74,
    E::SemanticRolesLayer => 75,
    E::SenseAnnotation => 76,
    E::Sentence => 77,
    E::Sentiment => 78,
    E::SentimentLayer => 79,
    E::SizeFeature => 80,
    E::Source => 81,
    E::SpanRelation => 82,
    E::SpanRelationLayer => 83,
    E::Speech => 84,
    E::Statement => 85,
    E::StatementLayer => 86,
    E::StatementRelation => 87,
    E::StrengthFeature => 88,
    E::String => 89,
    E::StyleFeature => 90,
    E::SubjectivityAnnotation => 91,
    E::Suggestion => 92,
    E::SynsetFeature => 93,
    E::SyntacticUnit => 94,
    E::SyntaxLayer => 95,
    E::Table => 96,
    E::TableHead => 97,
    E::Target => 98,
    E::Term => 99,
    E::Text => 100,
    E::TextContent => 101,
    E::TextMarkupCorrection => 102,
    E::TextMarkupError => 103,
    E::TextMarkupGap => 104,
    E::TextMarkupHSpace => 105,
    E::TextMarkupLanguage => 106,
    E::TextMarkupReference => 107,
    E::TextMarkupString => 108,
    E::TextMarkupStyle => 109,
    E::TextMarkupWhitespace => 110,
    E::TimeFeature => 111,
    E::TimeSegment => 112,
    E::TimingLayer => 113,
    E::Utterance => 114,
    E::ValueFeature => 115,
    E::Whitespace => 116,
    E::Word => 117,
    E::WordReference => 118,
} }

pub fn row(et: ElementType) -> &'static Row { &ROWS[idx(et)] }

pub static G_LAYER: &[ElementType] = &[E::ChunkingLayer,E::SpanRelationLayer,E::CoreferenceLayer,E::DependenciesLayer,E::EntitiesLayer,E::MorphologyLayer,E::ObservationLayer,E::PhonologyLayer,E::SemanticRolesLayer,E::SentimentLayer,E::StatementLayer,E::SyntaxLayer,E::TimingLayer,E::ModalitiesLayer];
pub static G_CONTENT: &[ElementType] = &[E::TextContent,E::PhonContent,E::Content];
pub static G_CORRECTIONCHILD: &[ElementType] = &[E::Current,E::New,E::Original,E::Suggestion];
pub static G_HIGHERORDER: &[ElementType] = &[E::Relation,E::Alternative,E::AlternativeLayers,E::SpanRelation,E::Correction,E::Comment,E::Description,E::External,E::Feature,E::Metric,E::String,E::ForeignData,E::Gap];
pub static G_INLINE: &[ElementType] = &[E::DomainAnnotation,E::ErrorDetection,E::LangAnnotation,E::LemmaAnnotation,E::PosAnnotation,E::SenseAnnotation,E::SubjectivityAnnotation];
pub static G_SPAN: &[ElementType] = &[E::Chunk,E::CoreferenceChain,E::Modality,E::Dependency,E::Entity,E::Observation,E::Predicate,E::SemanticRole,E::Sentiment,E::Statement,E::SyntacticUnit,E::TimeSegment];
pub static G_SPANROLE: &[ElementType] = &[E::CoreferenceLink,E::DependencyDependent,E::Headspan,E::StatementRelation,E::Source,E::Target,E::Cue,E::Scope];
pub static G_STRUCTURE: &[ElementType] = &[E::Caption,E::Cell,E::Definition,E::Division,E::Entry,E::Event,E::Example,E::Figure,E::Head,E::Hiddenword,E::Label,E::Linebreak,E::List,E::ListItem,E::Note,E::Paragraph,E::Part,E::Quote,E::Reference,E::Row,E::Sentence,E::Speech,E::Table,E::TableHead,E::Term,E::Text,E::Utterance,E::Whitespace,E::Word];
pub static G_SUBTOKEN: &[ElementType] = &[E::Morpheme,E::Phoneme];
pub static G_TEXTMARKUP: &[ElementType] = &[E::TextMarkupCorrection,E::TextMarkupError,E::TextMarkupGap,E::TextMarkupString,E::TextMarkupStyle,E::Hyphbreak,E::TextMarkupReference,E::TextMarkupWhitespace,E::TextMarkupHSpace,E::TextMarkupLanguage];
pub static G_FEATURE: &[ElementType] = &[E::ActorFeature,E::BegindatetimeFeature,E::EnddatetimeFeature,E::FunctionFeature,E::HeadFeature,E::LevelFeature,E::ModalityFeature,E::PolarityFeature,E::StrengthFeature,E::StyleFeature,E::SynsetFeature,E::TimeFeature,E::ValueFeature,E::FontFeature,E::SizeFeature];

pub struct ARow { pub at: AnnotationType, pub name: &'static str, pub et: ElementType, pub layer: Option<ElementType> }
pub static AROWS: &[ARow] = &[
    ARow { at: A::TEXT, name: "text", et: E::TextContent, layer: None },
    ARow { at: A::TOKEN, name: "token", et: E::Word, layer: None },
    ARow { at: A::DIVISION, name: "division", et: E::Division, layer: None },
    ARow { at: A::PARAGRAPH, name: "paragraph", et: E::Paragraph, layer: None },
    ARow { at: A::HEAD, name: "head", et: E::Head, layer: None },
    ARow { at: A::LIST, name: "list", et: E::List, layer: None },
    ARow { at: A::FIGURE, name: "figure", et: E::Figure, layer: None },
    ARow { at: A::WHITESPACE, name: "whitespace", et: E::Whitespace, layer: None },
    ARow { at: A::LINEBREAK, name: "linebreak", et: E::Linebreak, layer: None },
    ARow { at: A::SENTENCE, name: "sentence", et: E::Sentence, layer: None },
    ARow { at: A::POS, name: "pos", et: E::PosAnnotation, layer: None },
    ARow { at: A::LEMMA, name: "lemma", et: E::LemmaAnnotation, layer: None },
    ARow { at: A::DOMAIN, name: "domain", et: E::DomainAnnotation, layer: None },
    ARow { at: A::SENSE, name: "sense", et: E::SenseAnnotation, layer: None },
    ARow { at: A::SYNTAX, name: "syntax", et: E::SyntacticUnit, layer: Some(E::SyntaxLayer) },
    ARow { at: A::CHUNKING, name: "chunking", et: E::Chunk, layer: Some(E::ChunkingLayer) },
    ARow { at: A::ENTITY, name: "entity", et: E::Entity, layer: Some(E::EntitiesLayer) },
    ARow { at: A::CORRECTION, name: "correction", et: E::Correction, layer: None },
    ARow { at: A::ERRORDETECTION, name: "errordetection", et: E::ErrorDetection, layer: None },
    ARow { at: A::PHON, name: "phon", et: E::PhonContent, layer: None },
    ARow { at: A::SUBJECTIVITY, name: "subjectivity", et: E::SubjectivityAnnotation, layer: None },
    ARow { at: A::MORPHOLOGICAL, name: "morphological", et: E::Morpheme, layer: Some(E::MorphologyLayer) },
    ARow { at: A::EVENT, name: "event", et: E::Event, layer: None },
    ARow { at: A::DEPENDENCY, name: "dependency", et: E::Dependency, layer: Some(E::DependenciesLayer) },
    ARow { at: A::TIMESEGMENT, name: "timesegment", et: E::TimeSegment, layer: Some(E::TimingLayer) },
    ARow { at: A::GAP, name: "gap", et: E::Gap, layer: None },
    ARow { at: A::QUOTE, name: "quote", et: E::Quote, layer: None },
    ARow { at: A::NOTE, name: "note", et: E::Note, layer: None },
    ARow { at: A::REFERENCE, name: "reference", et: E::Reference, layer: None },
    ARow { at: A::RELATION, name: "relation", et: E::Relation, layer: None },
    ARow { at: A::SPANRELATION, name: "spanrelation", et: E::SpanRelation, layer: Some(E::SpanRelationLayer) },
    ARow { at: A::COREFERENCE, name: "coreference", et: E::CoreferenceChain, layer: Some(E::CoreferenceLayer) },
    ARow { at: A::SEMROLE, name: "semrole", et: E::SemanticRole, layer: Some(E::SemanticRolesLayer) },
    ARow { at: A::METRIC, name: "metric", et: E::Metric, layer: None },
    ARow { at: A::LANG, name: "lang", et: E::LangAnnotation, layer: None },
    ARow { at: A::STRING, name: "string", et: E::String, layer: None },
    ARow { at: A::TABLE, name: "table", et: E::Table, layer: None },
    ARow { at: A::STYLE, name: "style", et: E::TextMarkupStyle, layer: None },
    ARow { at: A::PART, name: "part", et: E::Part, layer: None },
    ARow { at: A::UTTERANCE, name: "utterance", et: E::Utterance, layer: None },
    ARow { at: A::ENTRY, name: "entry", et: E::Entry, layer: None },
    ARow { at: A::TERM, name: "term", et: E::Term, layer: None },
    ARow { at: A::DEFINITION, name: "definition", et: E::Definition, layer: None },
    ARow { at: A::EXAMPLE, name: "example", et: E::Example, layer: None },
    ARow { at: A::PHONOLOGICAL, name: "phonological", et: E::Phoneme, layer: Some(E::PhonologyLayer) },
    ARow { at: A::PREDICATE, name: "predicate", et: E::Predicate, layer: Some(E::SemanticRolesLayer) },
    ARow { at: A::OBSERVATION, name: "observation", et: E::Observation, layer: Some(E::ObservationLayer) },
    ARow { at: A::SENTIMENT, name: "sentiment", et: E::Sentiment, layer: Some(E::SentimentLayer) },
    ARow { at: A::STATEMENT, name: "statement", et: E::Statement, layer: Some(E::StatementLayer) },
    ARow { at: A::ALTERNATIVE, name: "alternative", et: E::Alternative, layer: None },
    ARow { at: A::RAWCONTENT, name: "rawcontent", et: E::Content, layer: None },
    ARow { at: A::COMMENT, name: "comment", et: E::Comment, layer: None },
    ARow { at: A::DESCRIPTION, name: "description", et: E::Description, layer: None },
    ARow { at: A::HYPHENATION, name: "hyphenation", et: E::Hyphbreak, layer: None },
    ARow { at: A::HIDDENTOKEN, name: "hiddentoken", et: E::Hiddenword, layer: None },
    ARow { at: A::MODALITY, name: "modality", et: E::Modality, layer: Some(E::ModalitiesLayer) },
    ARow { at: A::EXTERNAL, name: "external", et: E::External, layer: None },
    ARow { at: A::HSPACE, name: "hspace", et: E::TextMarkupHSpace, layer: None },
];

pub fn aidx(at: AnnotationType) -> usize { match at {
    A::TEXT => 0,
    A::TOKEN => 1,
    A::DIVISION => 2,
    A::PARAGRAPH => 3,
    A::HEAD => 4,
    A::LIST => 5,
    A::FIGURE => 6,
    A::WHITESPACE => 7,
    A::LINEBREAK => 8,
    A::SENTENCE => 9,
    A::POS => 10,
    A::LEMMA => 11,
    A::DOMAIN => 12,
    A::SENSE => 13,
    A::SYNTAX => 14,
    A::CHUNKING => 15,
    A::ENTITY => 16,
    A::CORRECTION => 17,
    A::ERRORDETECTION => 18,
    A::PHON => 19,
    A::SUBJECTIVITY => 20,
    A::MORPHOLOGICAL => 21,
    A::EVENT => 22,
    A::DEPENDENCY => 23,
    A::TIMESEGMENT => 24,
    A::GAP => 25,
    A::QUOTE => 26,
    A::NOTE => 27,
    A::REFERENCE => 28,
    A::RELATION => 29,
    A::SPANRELATION => 30,
    A::COREFERENCE => 31,
    A::SEMROLE => 32,
    A::METRIC => 33,
    A::LANG => 34,
    A::STRING => 35,
    A::TABLE => 36,
    A::STYLE => 37,
    A::PART => 38,
    A::UTTERANCE => 39,
    A::ENTRY => 40,
    A::TERM => 41,
    A::DEFINITION => 42,
    A::EXAMPLE => 43,
    A::PHONOLOGICAL => 44,
    A::PREDICATE => 45,
    A::OBSERVATION => 46,
    A::SENTIMENT => 47,
    A::STATEMENT => 48,
    A::ALTERNATIVE => 49,
    A::RAWCONTENT => 50,
    A::COMMENT => 51,
    A::DESCRIPTION => 52,
    A::HYPHENATION => 53,
    A::HIDDENTOKEN => 54,
    A::MODALITY => 55,
    A::EXTERNAL => 56,
    A::HSPACE => 57,
} }
pub fn arow(at: AnnotationType) -> &'static ARow { &AROWS[aidx(at)] }
