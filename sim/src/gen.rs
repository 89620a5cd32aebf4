//! Random documents, elements and processors.
use crate::model::*;
use crate::prng::Rng;
use crate::tables::*;
use folia::*;
use chrono::NaiveDate;
use std::collections::BTreeSet;

pub const TEXTS: [&str; 18] = ["tab\there", "cr\rlf\r\nx", "hello", "a b", " lead", "trail ", "<&>", "日本語", "\"q\" 'x'", "x\ny", "]] >", "&amp;", "ß", "two  spaces", "\u{1F600}", "e\u{301}", "1 < 2 && 3", "word"];
/// Text that is nothing but white space; only put inside text and phonetic content, where it counts.
pub const BLANKS: [&str; 6] = [" ", "  ", "\n ", "\t", " \n\n ", "\u{a0}"];
pub const CLASSES: [&str; 16] = ["a\tb\nc", "N", "V(x)", "a & b", "<c>", "\"q\"", "été", "it's", "日本", "N ", "current", "0", "class-with-a-rather-long-name", "n", "é", "e\u{301}t\u{e9}"];
pub const SUBSETS: [&str; 5] = ["gender", "number & case", "head", "level", "été"];
pub const STRS: [&str; 15] = ["a\tb", "l1\nl2\r", "x", "a b", "<&>\"'", "é日", "1", "http://a?b=1&c=2", "", "file.wav", "it's", "Ⅷ", " x", "x  ", "  "];
pub const COMMENTS: [&str; 12] = [" a comment ", "c", "<&>", " c ", "x & <y>", "é", "\nline\n", "\t.\t", "trail\n", "  lead", "a\r\nb", "x ]]> <?pi?> &amp; &lt;"];
pub const TCLASSES: [&str; 3] = ["current", "ocr", "a & b"];

#[derive(Clone, Debug)]
pub struct Knobs { pub id: u32, pub set: u32, pub class: u32, pub proc: u32, pub attr: u32, pub feat: u32, pub depth: usize, pub nsets: usize, pub nclasses: usize, pub comment: u32, pub spans: u32, pub texts: u32, pub rare: u32 }
impl Knobs {
    pub fn draw(r: &mut Rng) -> Knobs {
        Knobs {
            id: *r.pick(&[20, 60, 90]), set: *r.pick(&[10, 40, 80]), class: *r.pick(&[40, 80, 95]), proc: *r.pick(&[0, 10, 40]), attr: *r.pick(&[0, 10, 40]),
            feat: *r.pick(&[0, 2, 5]), depth: *r.pick(&[3, 4, 4, 5, 5, 7, 7, 14]), nsets: *r.pick(&[1, 1, 2, 2, 3, 3, 5, 5, 7, 30]), nclasses: *r.pick(&[2, 2, 5, 5, CLASSES.len(), CLASSES.len(), 2000]), comment: *r.pick(&[0, 1, 6]),
            spans: *r.pick(&[0, 2, 6]), texts: *r.pick(&[2, 5]), rare: *r.pick(&[0, 1, 3]),
        }
    }
}
pub struct Gen<'a> { pub r: &'a mut Rng, pub k: Knobs, pub next: &'a mut usize, pub procs: Vec<String> }

pub const OTHER_TEXT_SET: &str = "other texts";
pub fn sets_for(at: AnnotationType) -> Vec<String> {
    if at == AnnotationType::TEXT { return vec![DEFAULT_TEXT_SET.to_string(), OTHER_TEXT_SET.to_string()]; }
    vec![format!("https://example.org/sets/{}.foliaset.xml", arow(at).name), "shared set".to_string(), format!("{} & \"<s>\"", arow(at).name), "Shared set/".to_string(), "shared set/".to_string(), "shared set ".to_string(), format!("http://example.org/sets/{}.foliaset.xml", arow(at).name), format!("https://example.org/sets/{}.foliaset.xml#", arow(at).name)].into_iter().chain((0..25).map(|i| format!("set {}", i))).collect()
}
/// A string that fits no small buffer.
pub fn long(r: &mut Rng) -> String {
    let unit = *r.pick(&["x", "word ", "\u{e9}", "a&b<", "\u{65e5}\u{672c}", "]]>\u{1F600}"]);
    let n = *r.pick(&[100usize, 255, 256, 300, 1000, 4096, 9000]);
    let mut s = String::new();
    while s.len() < n { s.push_str(unit); }
    s.push('.');
    s
}
/// An alias for a set: a name of its own, or one that looks like a set of the same annotation type.
pub fn alias(r: &mut Rng, a: usize) -> String { if r.pct(50) { format!("al{}", a) } else { r.pick(&sets_for(AROWS[a].at)).clone() } }
pub fn excluded(et: ElementType) -> bool { et == ElementType::ForeignData || G_FEATURE.contains(&et) }
pub fn features_ok(s: &Spec) -> bool { row(s.et()).at.is_some() && (s.class.is_some() || s.set.is_some()) }

impl<'a> Gen<'a> {
    pub fn id(&mut self, et: ElementType) -> String {
        *self.next += 1;
        let n = *self.next;
        match self.r.below(22) { 20 => format!("{}ase.{}", if n % 2 == 0 { "c" } else { "C" }, n / 2), 21 if self.r.pct(10) => format!("{}{}", "x".repeat(300), n), 0 => format!("é-{}", n), 1 => format!("a&b.{}", n), 2 => format!("{}", n), _ => format!("doc.{}.{}", row(et).tag, n) }
    }
    pub fn text(&mut self) -> String {
        if self.r.below(250) == 0 { return long(self.r); }
        let mut t = self.r.pick(&TEXTS).to_string();
        if self.r.pct(20) { t.push_str(self.r.pick(&TEXTS)); }
        t
    }
    fn comment(&mut self) -> String { if self.r.below(200) == 0 { long(self.r).replace("--", "==") } else { self.r.pick(&COMMENTS).to_string() } }
    fn plain_text(&mut self) -> String { self.text() }
    pub fn class(&mut self) -> String {
        let n = self.r.below(self.k.nclasses);
        match CLASSES.get(n) { Some(c) => c.to_string(), None if n % 97 == 0 => long(self.r), None => format!("c{}", n) }
    }
    pub fn string(&mut self) -> String { if self.r.below(200) == 0 { long(self.r) } else { self.r.pick(&STRS).to_string() } }
    fn time(&mut self) -> chrono::NaiveDateTime {
        let y = match self.r.below(6) { 0 => self.r.range(1, 1969), 1 => self.r.range(2038, 9999), _ => self.r.range(1970, 2037) };
        let (m, d) = (self.r.range(1, 12) as u32, self.r.range(1, 31) as u32);
        NaiveDate::from_ymd_opt(y as i32, m, d).unwrap_or_else(|| NaiveDate::from_ymd(y as i32, m, 28)).and_hms(self.r.below(24) as u32, self.r.below(60) as u32, self.r.below(60) as u32)
    }
    pub fn attribute(&mut self, s: &mut Spec) {
        let st = self.string();
        let a = match self.r.below(23) {
            0 => Attribute::N(st), 1 => Attribute::Src(st), 2 => Attribute::Speaker(st), 3 => Attribute::BeginTime("00:01:02.345".into()), 4 => Attribute::EndTime(st),
            5 => Attribute::Textclass(st), 6 => Attribute::Metadata(st), 7 => Attribute::Href(st), 8 => Attribute::Format(st), 9 => Attribute::Type(st), 10 => Attribute::Auth("no".into()),
            11 => Attribute::Offset(self.r.below(65536) as u16), 12 => Attribute::Ref(st), 13 => Attribute::Original(st), 14 => Attribute::LineNr(self.r.below(65536) as u16), 15 => Attribute::PageNr(st),
            16 => Attribute::NewPage(self.r.pct(50)), 17 => Attribute::DateTime(self.time()), 18 => Attribute::Confidence(if self.r.pct(50) { *self.r.pick(&[0.0, 1.0, 0.5, 0.1, 0.30000000000000004, 1e-7, 0.999999]) } else { self.r.below(1 << 30) as f64 / (1u64 << 30) as f64 / [1.0, 3.0, 1e6][self.r.below(3)] }),
            19 => Attribute::Space(self.r.pct(30)), 20 => Attribute::Annotator(st), 21 => Attribute::AnnotatorType(*self.r.pick(&PTYPES)), _ => Attribute::XLinkType("simple".into()),
        };
        if !s.attrs.iter().any(|b| b.attribtype() == a.attribtype()) { s.attrs.push(a); }
    }
    /// The attributes of an element, without its contents.
    pub fn bare(&mut self, et: ElementType, in_span: bool) -> Spec {
        let r = row(et);
        let mut s = Spec::new(et);
        let idp = if r.wrefable { self.k.id.max(70) } else if is_structure(et) { self.k.id } else { self.k.id / 4 };
        if et != ElementType::WordReference && self.r.pct(idp) { s.id = Some(self.id(et)); }
        if let Some(at) = r.at {
            if at == AnnotationType::TEXT { if self.k.nsets == 2 && self.r.pct(40) { s.set = Some(self.r.pick(&sets_for(at)).clone()); } if self.r.pct(40) { s.class = Some(self.r.pick(&TCLASSES).to_string()); } }
            else {
                if self.r.pct(self.k.set) { let p = sets_for(at); s.set = Some(p[self.r.below(self.k.nsets.min(p.len()))].clone()); }
                if self.r.pct(self.k.class) { s.class = Some(self.class()); }
            }
            if self.r.pct(self.k.proc) { s.proc = Some(if self.procs.is_empty() || self.r.pct(4) { "no.such.processor".to_string() } else { self.r.pick(&self.procs.clone()).clone() }); }
        }
        if self.r.pct(self.k.attr) { self.attribute(&mut s); if self.r.pct(40) { self.attribute(&mut s); } }
        if r.space && self.r.pct(15) && !s.attrs.iter().any(|a| matches!(a, Attribute::Space(_))) { s.attrs.push(Attribute::Space(self.r.pct(25))); }
        if et == ElementType::WordReference { s.attrs.push(Attribute::Idref("?".into())); if self.r.pct(50) { s.attrs.push(Attribute::Text(self.string())); } }
        let _ = in_span;
        s
    }
    pub fn feature(&mut self, parent: ElementType) -> Spec {
        let mut f = Spec::new(ElementType::Feature);
        let typed: Vec<&str> = row(parent).accepts.iter().filter(|a| G_FEATURE.contains(a)).filter_map(|a| row(*a).subset).collect();
        if !typed.is_empty() && self.r.pct(50) {
            let sub = self.r.pick(&typed).to_string();
            let c = self.class();
            f.subset = Some(sub); f.class = Some(c.clone());
            return f.text(&c);
        }
        f.subset = Some(self.r.pick(&SUBSETS).to_string());
        if self.r.pct(92) { f.class = Some(self.class()); }
        // a set of its own does not count: a feature is in the set of its annotation
        if let (Some(at), true) = (row(parent).at, self.r.pct(8)) { let p = sets_for(at); f.set = Some(p[self.r.below(p.len())].clone()); }
        if self.r.pct(10) { f.items.push(SItem::El(Spec::new(ElementType::Description).text("why not"))); }
        f
    }
    pub fn weight(&self, parent: &Spec, c: ElementType, in_span: bool, depth: usize) -> u32 {
        use ElementType::*;
        if excluded(c) { return 0; }
        match c {
            WordReference => if in_span { 30 } else { 0 },
            Feature => if features_ok(parent) { self.k.feat * 3 } else { 0 },
            TextContent => self.k.texts * 3,
            PhonContent => self.k.texts.min(3),
            Comment | Description => 1,
            Word => if depth > 0 { 30 } else { 10 },
            Sentence | Paragraph => 12,
            Division | Head | Hiddenword => 5,
            _ if is_layer(c) => self.k.spans,
            _ if is_span(c) => 12,
            _ if G_SPANROLE.contains(&c) => 4,
            _ if is_structure(c) => 2,
            _ if G_INLINE.contains(&c) => 4,
            _ if G_TEXTMARKUP.contains(&c) => 3,
            _ => self.k.rare,
        }
    }
    pub fn element(&mut self, et: ElementType, depth: usize, budget: &mut i32, in_span: bool) -> Spec {
        let mut s = self.bare(et, in_span);
        *budget -= 1;
        self.fill(&mut s, depth, budget, in_span);
        s
    }
    pub fn fill(&mut self, s: &mut Spec, depth: usize, budget: &mut i32, in_span: bool) {
        let et = s.et();
        let r = row(et);
        if r.textcontainer || r.phoncontainer {
            let n = *self.r.pick(&[0, 1, 1, 2, 2, 3, 3, 5]);
            let mut last = false;
            for i in 0..n {
                last = !last && self.r.pct(if i == 0 { 80 } else { 60 });
                if last { let t = if self.r.pct(8) { let b = self.r.pick(&BLANKS).to_string(); if self.r.pct(10) { b.repeat(1 + self.r.below(400) as usize) } else { b } } else { self.text() }; s.items.push(SItem::Text(t)); }
                else {
                    let c: Vec<ElementType> = r.accepts.iter().copied().filter(|c| !excluded(*c) && *c != ElementType::WordReference && (*c != ElementType::Feature || features_ok(s))).collect();
                    if *budget > 0 && depth < self.k.depth + 3 && !c.is_empty() && self.r.pct(60) {
                        let et2 = *self.r.pick(&c);
                        let x = if et2 == ElementType::Feature { self.feature(et) } else { self.element(et2, depth + 1, budget, in_span) };
                        s.items.push(SItem::El(x));
                    } else { let t = self.comment(); s.items.push(SItem::Comment(t)); }
                }
            }
            return;
        }
        match et {
            ElementType::Description | ElementType::Comment | ElementType::Content => { let t = self.plain_text(); s.items.push(SItem::Text(t)); return; }
            ElementType::WordReference => return,
            _ => {}
        }
        let in_span = in_span || is_span(et);
        if depth >= self.k.depth + if is_layer(et) || in_span { 3 } else { 0 } || *budget <= 0 { return; }
        let cand: Vec<ElementType> = r.accepts.iter().copied().filter(|c| !is_layer(et) || row(*c).at == r.at || !is_span(*c)).collect();
        let w: Vec<u32> = cand.iter().map(|c| self.weight(s, *c, in_span, depth)).collect();
        if w.iter().sum::<u32>() == 0 { return; }
        let wide = self.r.below(80) == 0;
        let n = match self.r.below(8) { _ if wide => 40, 0 => 0, 1 | 2 => 1, 3 | 4 => 2, 5 => 3, 6 => 5, _ => 8 };
        let n = if wide { n } else if is_layer(et) || is_span(et) { n.max(1).min(4) } else if depth == 0 { n.max(2) } else { n };
        for _ in 0..n {
            if *budget <= 0 { break; }
            if self.r.pct(self.k.comment) { for _ in 0..if self.r.pct(15) { 3 } else { 1 } { let t = self.comment(); s.items.push(SItem::Comment(t)); } }
            let c = cand[self.r.weighted(&w)];
            let x = if c == ElementType::Feature { *budget -= 1; self.feature(et) } else { self.element(c, depth + 1, budget, in_span) };
            // attribute shortcuts come first
            let shortcut = c == ElementType::Feature && x.items.len() == 1 && matches!(x.items[0], SItem::Text(_));
            if shortcut && self.r.pct(70) { s.items.insert(0, SItem::El(x)); } else { s.items.push(SItem::El(x)); }
        }
        if self.r.pct(self.k.comment) { for _ in 0..1 + self.r.below(3) { let t = self.comment(); s.items.push(SItem::Comment(t)); } }
    }
    pub fn processor(&mut self, depth: usize) -> ProcSpec {
        *self.next += 1;
        let n = *self.next;
        let mut p = MProc { id: format!("proc.{}", n), name: self.r.pick(&["ucto", "frog", "a & b", "Maarten", "é"]).to_string(), ptype: self.r.below(4) as u8, ..Default::default() };
        if !self.procs.is_empty() && self.r.pct(4) { p.id = self.r.pick(&self.procs.clone()).clone(); }
        for f in [&mut p.version, &mut p.folia_version, &mut p.document_version, &mut p.command, &mut p.host, &mut p.user, &mut p.src, &mut p.format, &mut p.resourcelink] { if self.r.pct(30) { *f = self.string(); } }
        if self.r.pct(40) { p.begin = Some(self.time().format("%Y-%m-%dT%H:%M:%S").to_string()); }
        if self.r.pct(25) { p.end = Some(self.time().format("%Y-%m-%dT%H:%M:%S").to_string()); }
        if self.r.pct(15) && !self.procs.contains(&p.id) { p.meta = self.meta().data; }
        self.procs.push(p.id.clone());
        let n = if depth < 3 { *self.r.pick(&[0, 0, 0, 1, 2]) } else { 0 };
        let subs = (0..n).map(|_| self.processor(depth + 1)).collect();
        ProcSpec { p, subs, existing: vec![] }
    }
    pub fn meta(&mut self) -> MMeta {
        let mut m = MMeta::default();
        let n = *self.r.pick(&[0, 1, 2, 5]);
        for _ in 0..n {
            let k = self.r.pick(&["title", "author", "a & b", "é", "<k>", "empty", "language", "\"q\""]).to_string();
            let v = if self.r.pct(25) { String::new() } else { self.r.pick(&["x", "a & b", "<v>", "  padded ", "日本", "line\nline", " ", "\n\nblock\n", "\t", "]]", "'\"", "value", "cr\r\nlf", "one\rtwo"]).to_string() };
            m.data.insert(k, v);
        }
        if self.r.pct(30) { m.mtype = Some(self.r.pick(&["native", "imdi", "a & b", " x ", ""]).to_string()); }
        if self.r.pct(20) { m.src = Some(self.r.pick(&["meta.xml", "http://a?b&c", ""]).to_string()); }
        m
    }
    pub fn props(&mut self, loading: bool) -> Props {
        let mut p = Props::default_();
        p.autodeclare = !self.r.pct(15);
        let n = *self.r.pick(&[0, 0, 1, 3]);
        for _ in 0..n {
            let a = self.r.below(AROWS.len());
            if AROWS[a].at == AnnotationType::TEXT { continue; }
            let set = if self.r.pct(25) { None } else { let s = sets_for(AROWS[a].at); Some(s[self.r.below(self.k.nsets.min(s.len()))].clone()) };
            p.declare.push((a, set));
        }
        if self.r.pct(45) {
            p.proc = Some(if loading && !self.procs.is_empty() && self.r.pct(30) { ProcSpec { p: MProc { id: self.r.pick(&self.procs.clone()).clone(), name: "resumed".into(), ..Default::default() }, subs: vec![], existing: vec![] } } else { self.processor(1) });
        }
        p.speech = !loading && self.r.pct(20);
        p
    }
    pub fn file(&mut self, size: usize) -> LoadSpec {
        let mut f = LoadSpec { id: self.r.pick(&["example", "example", "é", "é", "doc-1", "doc-1", "a&b", "a&b", ""]).to_string(), ..Default::default() };
        let n = *self.r.pick(&[0, 1, 2, 4]);
        for _ in 0..n { let p = self.processor(0); f.procs.push(p); }
        f.meta = self.meta();
        let n = *self.r.pick(&[0, 0, 1, 3]);
        for i in 0..n { let m = self.meta(); f.sub.insert(self.r.pick(&[format!("sub.{}", i), format!("s&{}", i)]).clone(), m); }
        let mut budget = size as i32;
        let body = if self.r.pct(85) { ElementType::Text } else { ElementType::Speech };
        let mut b = self.bare(body, false);
        b.set = None; b.class = None; b.proc = None;
        self.fill(&mut b, 0, &mut budget, false);
        while budget > size as i32 / 2 && size > 4 {
            let before = budget;
            self.fill(&mut b, 0, &mut budget, false);
            if before == budget { break; }
        }
        f.body = b;
        let mut ids = vec![];
        f.body.walk(&mut |s| if row(s.et()).wrefable { if let Some(i) = &s.id { ids.push(i.clone()) } });
        assign_refs(&mut f.body, &ids, self.r);
        let mut ats: BTreeSet<usize> = BTreeSet::new();
        f.body.walk(&mut |s| if let Some(a) = row(s.et()).at { ats.insert(aidx(a)); });
        ats.insert(aidx(AnnotationType::TEXT));
        for _ in 0..self.r.below(3) { ats.insert(self.r.below(AROWS.len())); }
        for a in ats {
            let at = AROWS[a].at;
            let mut sets: Vec<Option<String>> = sets_for(at).into_iter().take(self.k.nsets.max(5)).map(Some).collect();
            if at == AnnotationType::TEXT { if self.k.nsets != 2 { sets.truncate(1); } else if self.r.pct(20) { sets.remove(0); } }
            if at != AnnotationType::TEXT { sets.push(None); self.r.shuffle(&mut sets); let n = *self.r.pick(&[0, 1, 1, 1, 2, 3]); sets.truncate(n.min(self.k.nsets)); if self.k.nsets > 10 && self.r.pct(50) { for s in sets_for(at) { if self.r.pct(60) && !sets.contains(&Some(s.clone())) { sets.push(Some(s)); } } } }
            for set in sets {
                let alias = if self.r.pct(12) { Some(alias(self.r, a)) } else { None };
                let format = if self.r.pct(10) { Some("text/x&y".to_string()) } else { None };
                let mut ann = vec![];
                let n = *self.r.pick(&[0, 0, 1, 1, 2]);
                for _ in 0..n { if !self.procs.is_empty() { let p = self.r.pick(&self.procs.clone()).clone(); if !ann.contains(&p) { ann.push(p); } } }
                f.decs.push((at, set, alias, format, ann));
            }
        }
        self.r.shuffle(&mut f.decs);
        if self.r.pct(6) { // hardly anything said about the document
            f.decs.clear();
            f.procs.clear();
            if self.r.pct(70) { f.meta.data.clear(); f.sub.clear(); }
        }
        f
    }
}
/// Points the references at existing words; drops them if there are none.
pub fn assign_refs(s: &mut Spec, ids: &[String], r: &mut Rng) {
    let contiguous = r.pct(60);
    let mut at = if ids.is_empty() { 0 } else { r.below(ids.len()) };
    refs(s, ids, r, contiguous, &mut at);
}
fn refs(s: &mut Spec, ids: &[String], r: &mut Rng, contiguous: bool, at: &mut usize) {
    if ids.is_empty() { s.items.retain(|i| !matches!(i, SItem::El(c) if c.et() == ElementType::WordReference)); }
    for i in s.items.iter_mut() {
        if let SItem::El(c) = i {
            if c.et() == ElementType::WordReference {
                let k = if contiguous { *at += 1; *at % ids.len() } else { r.below(ids.len()) };
                for a in c.attrs.iter_mut() { if let Attribute::Idref(x) = a { *x = ids[k].clone(); } }
            } else { refs(c, ids, r, contiguous, at); }
        }
    }
}
pub fn to_processor(p: &ProcSpec) -> Processor { to_processor_in(p, &|_| 60000) }
pub fn to_processor_in(p: &ProcSpec, key: &dyn Fn(&str) -> ProcKey) -> Processor {
    let x = &p.p;
    let t = |s: &Option<String>| s.as_ref().map(|s| chrono::NaiveDateTime::parse_from_str(s, "%Y-%m-%dT%H:%M:%S").unwrap());
    let mut q = Processor::new(x.name.clone()).with_id(x.id.clone()).with_type(PTYPES[x.ptype as usize]).with_version(x.version.clone()).with_folia_version(x.folia_version.clone())
        .with_document_version(x.document_version.clone()).with_command(x.command.clone()).with_host(x.host.clone()).with_user(x.user.clone()).with_src(x.src.clone()).with_format(x.format.clone()).with_resourcelink(x.resourcelink.clone());
    q.metadata.data = x.meta.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    if let Some(t) = t(&x.begin) { q = q.with_begindatetime(t); }
    if let Some(t) = t(&x.end) { q = q.with_enddatetime(t); }
    for e in &p.existing { q = q.with_existing_subprocessor(key(e)); }
    for s in &p.subs { q = q.with_new_subprocessor(to_processor_in(s, key)); }
    q
}
pub fn to_props(p: &Props) -> DocumentProperties {
    let mut q = DocumentProperties { bodytype: if p.speech { BodyType::Speech } else { BodyType::Text }, autodeclare: p.autodeclare, declare: vec![], processor: None };
    for (a, s) in &p.declare { q = q.with_declaration(AROWS[*a].at, s.clone()); }
    if let Some(x) = &p.proc { q = q.with_processor(to_processor(x)); }
    q
}
/// The element as a caller would build it: there are several ways, and their choice must not matter.
pub fn to_data(s: &Spec, m: &Model) -> ElementData {
    let mut r = crate::prng::Rng::new(crate::prng::hash_str(&format!("{:?}", s)));
    let mut attrs: Vec<Attribute> = vec![];
    if let Some(x) = &s.id { attrs.push(Attribute::Id(x.clone())); }
    if let Some(x) = &s.set { attrs.push(Attribute::Set(x.clone())); }
    if let Some(x) = &s.class { attrs.push(Attribute::Class(x.clone())); }
    if let Some(x) = &s.subset { attrs.push(Attribute::Subset(x.clone())); }
    if let Some(x) = &s.proc { attrs.push(Attribute::Processor(x.clone())); }
    attrs.extend(s.attrs.iter().cloned());
    if r.pct(50) { for i in (1..attrs.len()).rev() { let j = r.below(i + 1); attrs.swap(i, j); } }
    let mut e = ElementData::new(s.et());
    match r.below(4) {
        0 => {
            if r.pct(10) && !attrs.is_empty() { // stated twice, the last one counts
                let decoy = match r.pick(&attrs) {
                    Attribute::Id(_) => Some(Attribute::Id("decoy".into())),
                    Attribute::Set(_) => Some(Attribute::Set("decoy".into())),
                    Attribute::Class(_) => Some(Attribute::Class("decoy".into())),
                    Attribute::Subset(_) => Some(Attribute::Subset("decoy".into())),
                    Attribute::Processor(_) => Some(Attribute::Processor("decoy".into())),
                    Attribute::N(_) => Some(Attribute::N("decoy".into())),
                    _ => None,
                };
                if let Some(x) = decoy { attrs.insert(0, x); }
            }
            e = e.with_attribs(attrs)
        }
        1 => for a in attrs { e.set_attrib(a) },
        2 => { // first something else, then what it should be
            if let Some(a) = attrs.first() { let t = a.attribtype(); e = e.with_attrib(a.clone()); if r.pct(50) { e.del_attrib(t); } }
            for a in attrs { e = e.with_attrib(a); }
        }
        _ => for a in attrs { e = e.with_attrib(a) },
    }
    let wref = |c: &Spec| c.et() == ElementType::WordReference && c.attrs.len() == 1 && c.idref().is_some() && c.items.is_empty() && c.id.is_none();
    let plain = |c: &Spec| c.et() == ElementType::TextContent && c.attrs.is_empty() && c.id.is_none() && !c.encodable() && matches!(&c.items[..], [SItem::Text(_)]);
    let mut rest: &[SItem] = &s.items;
    while let Some(i) = rest.first() {
        let run = rest.iter().take_while(|i| matches!(i, SItem::El(c) if wref(c))).count();
        if run > 0 && r.pct(40) {
            let ids: Vec<&str> = rest[..run].iter().filter_map(|i| if let SItem::El(c) = i { c.idref() } else { None }).collect();
            e = e.with_span(&ids);
            rest = &rest[run..];
            continue;
        }
        let d = match i {
            SItem::El(c) if plain(c) && r.pct(40) => { if let SItem::Text(t) = &c.items[0] { e = e.with_text(t.clone()); } rest = &rest[1..]; continue; }
            SItem::El(c) if r.pct(60) => { e = e.add_element(to_data(c, m)); rest = &rest[1..]; continue; }
            SItem::El(c) => DataType::AddElement(to_data(c, m)),
            SItem::Text(t) => DataType::Text(t.clone()),
            SItem::Comment(t) => DataType::Comment(t.clone()),
            SItem::Existing(n) => DataType::Element(m.nodes.get(*n).and_then(|n| n.key).unwrap_or(999_999_999)),
        };
        match r.below(3) { 0 => e.push(d), 1 => e = e.with_children(vec![d]), _ => e = e.with(d) }
        rest = &rest[1..];
    }
    // where it ends up is decided by the call that adds it
    if r.pct(2) { e = e.with_parent_key(Some(r.below(40) as ElementKey)); }
    e
}
