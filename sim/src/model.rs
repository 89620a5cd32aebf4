//! The executable reference model: a FoLiA document as a plain tree, with the rules for encoding
//! sets/classes/processors, adding, moving, querying, text and reloading written down simply.
use crate::tables::*;
use folia::{AnnotationType, Attribute, ElementType, ProcessorType, DEFAULT_TEXT_SET};
use std::collections::{BTreeMap, BTreeSet};

pub type Nid = usize;
pub type R<T> = Result<T, String>;

/// An element to be: what a user hands to the library, or what stands in a file.
#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub et: Option<ElementType>,
    pub id: Option<String>,
    pub set: Option<String>,
    pub class: Option<String>,
    pub subset: Option<String>,
    pub proc: Option<String>,
    pub attrs: Vec<Attribute>,
    pub items: Vec<SItem>,
}
#[derive(Clone, Debug)]
pub enum SItem { El(Spec), Text(String), Comment(String), Existing(Nid) }

impl Spec {
    pub fn new(et: ElementType) -> Spec { Spec { et: Some(et), ..Default::default() } }
    pub fn et(&self) -> ElementType { self.et.unwrap() }
    pub fn attr(mut self, a: Attribute) -> Spec { self.attrs.push(a); self }
    pub fn child(mut self, c: Spec) -> Spec { self.items.push(SItem::El(c)); self }
    pub fn text(mut self, t: &str) -> Spec { self.items.push(SItem::Text(t.to_string())); self }
    pub fn encodable(&self) -> bool { self.set.is_some() || self.class.is_some() || self.subset.is_some() || self.proc.is_some() }
    pub fn idref(&self) -> Option<&str> { self.attrs.iter().find_map(|a| if let Attribute::Idref(s) = a { Some(s.as_str()) } else { None }) }
    pub fn count(&self) -> usize { 1 + self.items.iter().map(|i| if let SItem::El(s) = i { s.count() } else { 0 }).sum::<usize>() }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Spec)) { f(self); for i in &self.items { if let SItem::El(s) = i { s.walk(f); } } }
}

#[derive(Clone, Debug, PartialEq)]
pub enum MI { El(Nid), Text(String), Comment(String), Span(Nid) }

#[derive(Clone, Debug)]
pub struct MNode {
    pub et: ElementType,
    pub id: Option<String>,
    pub attrs: Vec<Attribute>,
    pub dec: Option<usize>,
    pub class: Option<String>,
    pub subset: Option<String>,
    pub proc: Option<usize>,
    pub items: Vec<MI>,
    pub parent: Option<Nid>,
    pub key: Option<u32>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct MDec {
    pub at: AnnotationType, pub set: Option<String>, pub alias: Option<String>, pub format: Option<String>,
    pub procs: Vec<usize>, pub classes: BTreeSet<String>, pub subsets: BTreeSet<String>, pub subclasses: BTreeSet<String>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MProc {
    pub id: String, pub name: String, pub ptype: u8, pub version: String, pub folia_version: String, pub document_version: String,
    pub command: String, pub host: String, pub user: String, pub begin: Option<String>, pub end: Option<String>,
    pub src: String, pub format: String, pub resourcelink: String, pub meta: BTreeMap<String, String>,
    pub subs: Vec<usize>, pub parent: Option<usize>,
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct MMeta { pub data: BTreeMap<String, String>, pub src: Option<String>, pub mtype: Option<String> }

pub const PTYPES: [ProcessorType; 4] = [ProcessorType::Auto, ProcessorType::Manual, ProcessorType::Generator, ProcessorType::DataSource];

#[derive(Clone, Debug, Default)]
pub struct Props { pub autodeclare: bool, pub declare: Vec<(usize, Option<String>)>, pub proc: Option<ProcSpec>, pub speech: bool }
impl Props { pub fn default_() -> Props { Props { autodeclare: true, declare: vec![(aidx(AnnotationType::TEXT), Some(DEFAULT_TEXT_SET.to_string()))], proc: None, speech: false } } }

#[derive(Clone, Debug, Default)]
pub struct ProcSpec { pub p: MProc, pub subs: Vec<ProcSpec>, /** processors of the document that come under it */ pub existing: Vec<String> }

/// What stands in a file.
#[derive(Clone, Debug, Default)]
pub struct LoadSpec {
    pub id: String,
    pub decs: Vec<(AnnotationType, Option<String>, Option<String>, Option<String>, Vec<String>)>,
    pub procs: Vec<ProcSpec>,
    pub meta: MMeta,
    pub sub: BTreeMap<String, MMeta>,
    pub body: Spec,
}

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub id: String,
    pub nodes: Vec<MNode>,
    pub ids: BTreeMap<String, Nid>,
    pub decs: Vec<MDec>,
    pub procs: Vec<MProc>,
    pub chain: Vec<usize>,
    pub meta: MMeta,
    pub sub: BTreeMap<String, MMeta>,
    pub active: Option<usize>,
    pub autodeclare: bool,
    pub filename: Option<String>,
}

fn acc(parent: ElementType, child: ElementType) -> bool { row(parent).accepts.contains(&child) }
pub fn is_layer(e: ElementType) -> bool { G_LAYER.contains(&e) }
pub fn is_span(e: ElementType) -> bool { G_SPAN.contains(&e) }
pub fn is_structure(e: ElementType) -> bool { G_STRUCTURE.contains(&e) }

/// Text without a class is current text.
fn known_classes(at: AnnotationType) -> BTreeSet<String> { if at == AnnotationType::TEXT { ["current".to_string()].into() } else { BTreeSet::new() } }
impl Model {
    // ------------------------------------------------------------ building
    pub fn new(id: &str, p: &Props) -> R<Model> {
        let mut m = Model { id: id.to_string(), autodeclare: p.autodeclare, ..Default::default() };
        m.push_node(&Spec::new(if p.speech { ElementType::Speech } else { ElementType::Text }), None);
        m.apply(p)?;
        Ok(m)
    }
    pub fn apply(&mut self, p: &Props) -> R<()> {
        self.autodeclare = p.autodeclare;
        if let Some(ps) = &p.proc { let k = self.add_processor(ps, None)?; self.active = Some(k); }
        for (a, set) in &p.declare {
            self.declare(AROWS[*a].at, set, &None, &None);
        }
        Ok(())
    }
    pub fn load(f: &LoadSpec, p: &Props) -> R<Model> {
        let mut m = Model { id: if f.id.is_empty() { "untitled".to_string() } else { f.id.clone() }, autodeclare: true, meta: f.meta.clone(), sub: f.sub.clone(), ..Default::default() };
        for (at, set, alias, format, _) in &f.decs { if m.dec_exact(*at, set).is_none() { m.add_dec(*at, set, alias, format); } }
        for ps in &f.procs { m.add_processor(ps, None)?; }
        for (at, set, _, _, ann) in &f.decs {
            let d = m.dec_exact(*at, set).unwrap();
            for a in ann { if let Some(k) = m.proc_by_id(a) { m.decs[d].procs.push(k); } }
        }
        let mut added = vec![];
        m.build(&f.body, None, &mut added)?;
        for n in &added { if m.nodes[*n].et != ElementType::WordReference { m.infer_layer_set(*n); } }
        for n in &added { if m.nodes[*n].et == ElementType::WordReference { m.back_reference(*n)?; } }
        m.apply(p)?;
        Ok(m)
    }
    fn push_node(&mut self, s: &Spec, parent: Option<Nid>) -> Nid {
        let n = self.nodes.len();
        self.nodes.push(MNode { et: s.et(), id: s.id.clone(), attrs: s.attrs.clone(), dec: None, class: None, subset: None, proc: None, items: vec![], parent, key: None });
        if let Some(id) = &s.id { self.ids.insert(id.clone(), n); }
        n
    }
    /// Encodes and adds, top-down.
    fn build(&mut self, s: &Spec, parent: Option<Nid>, added: &mut Vec<Nid>) -> R<Nid> {
        let (dec, class, subset, proc) = self.encode(s, parent)?;
        let n = self.push_node(s, parent);
        { let x = &mut self.nodes[n]; x.dec = dec; x.class = class; x.subset = subset; x.proc = proc; }
        if let Some(p) = parent { self.nodes[p].items.push(MI::El(n)); }
        for i in &s.items {
            match i {
                SItem::El(c) => { self.build(c, Some(n), added)?; }
                SItem::Text(t) => self.nodes[n].items.push(MI::Text(t.clone())),
                SItem::Comment(t) => self.nodes[n].items.push(MI::Comment(t.clone())),
                SItem::Existing(c) => self.attach(n, *c)?,
            }
        }
        added.push(n);
        Ok(n)
    }
    pub fn dec_exact(&self, at: AnnotationType, set: &Option<String>) -> Option<usize> { self.decs.iter().position(|d| d.at == at && d.set == *set) }
    pub fn dec_default(&self, at: AnnotationType) -> Option<usize> {
        let v: Vec<usize> = (0..self.decs.len()).filter(|i| self.decs[*i].at == at).collect();
        if v.len() == 1 { Some(v[0]) } else { None }
    }
    pub fn add_dec(&mut self, at: AnnotationType, set: &Option<String>, alias: &Option<String>, format: &Option<String>) -> usize {
        self.decs.push(MDec { at, set: set.clone(), alias: alias.clone(), format: format.clone(), procs: vec![], classes: known_classes(at), subsets: BTreeSet::new(), subclasses: BTreeSet::new() });
        self.decs.len() - 1
    }
    pub fn declare(&mut self, at: AnnotationType, set: &Option<String>, alias: &Option<String>, format: &Option<String>) -> usize {
        if let Some(d) = self.dec_exact(at, set) { return d; }
        let d = match self.dec_default(at) { Some(d) if set.is_none() => d, _ => self.add_dec(at, set, alias, format) };
        if let Some(p) = self.active { if !self.decs[d].procs.contains(&p) { self.decs[d].procs.push(p); } }
        d
    }
    /// As it is: no defaults, not associated with the active processor.
    pub fn add_declaration(&mut self, at: AnnotationType, set: &Option<String>, alias: &Option<String>, format: &Option<String>, procs: Vec<usize>) -> usize {
        self.dec_exact(at, set).unwrap_or_else(|| { let d = self.add_dec(at, set, alias, format); self.decs[d].procs = procs; d })
    }
    pub fn declared(&self, at: AnnotationType, set: &Option<String>) -> bool { self.dec_exact(at, set).is_some() || (set.is_none() && self.dec_default(at).is_some()) }

    fn encode(&mut self, s: &Spec, parent: Option<Nid>) -> R<(Option<usize>, Option<String>, Option<String>, Option<usize>)> {
        if !s.encodable() { return Ok((None, None, None, None)); }
        let mut proc = None;
        let (mut dec, mut class, mut subset) = (None, None, None);
        let mut associate = false;
        if let Some(at) = row(s.et()).at {
            let d = self.declare(at, &s.set, &None, &None);
            dec = Some(d);
            if let Some(c) = &s.class { self.decs[d].classes.insert(c.clone()); class = Some(c.clone()); }
            proc = if self.decs[d].procs.len() == 1 { Some(self.decs[d].procs[0]) } else { associate = true; self.active };
        } else if s.et() == ElementType::Feature {
            let p = parent.ok_or("feature without parent")?;
            let d = match self.nodes[p].dec {
                Some(d) => d,
                None => { let at = row(self.nodes[p].et).at.ok_or("feature under an element without annotation type")?; self.declare(at, &s.set, &None, &None) }
            };
            dec = Some(d);
            if let Some(x) = &s.subset { self.decs[d].subsets.insert(x.clone()); subset = Some(x.clone()); }
            if let Some(x) = &s.class { self.decs[d].subclasses.insert(x.clone()); class = Some(x.clone()); }
        }
        if let Some(p) = s.proc.as_ref().and_then(|p| self.proc_by_id(p)) { proc = Some(p); associate = true; }
        if let (true, Some(d), Some(p)) = (associate, dec, proc) { if !self.decs[d].procs.contains(&p) { self.decs[d].procs.push(p); } }
        Ok((dec, class, subset, proc))
    }
    pub fn infer_layer_set(&mut self, n: Nid) {
        if !is_layer(self.nodes[n].et) || self.nodes[n].dec.is_some() { return; }
        let at = row(self.nodes[n].et).at;
        let found = self.descendants(n).into_iter().find(|x| is_span(self.nodes[*x].et) && row(self.nodes[*x].et).at == at && self.nodes[*x].dec.is_some());
        if let Some(x) = found { self.nodes[n].dec = self.nodes[x].dec; }
    }
    fn back_reference(&mut self, n: Nid) -> R<()> {
        let id = self.idref(n).ok_or("wref without id")?.to_string();
        let span = self.ancestors(n).into_iter().find(|a| is_span(self.nodes[*a].et)).ok_or("wref outside a span")?;
        let target = *self.ids.get(&id).ok_or("unknown reference")?;
        self.nodes[target].items.push(MI::Span(span));
        Ok(())
    }
    pub fn idref(&self, n: Nid) -> Option<&str> { self.nodes[n].attrs.iter().find_map(|a| if let Attribute::Idref(s) = a { Some(s.as_str()) } else { None }) }
    pub fn attr_ref(&self, n: Nid, f: fn(&Attribute) -> bool) -> Option<&Attribute> { self.nodes[n].attrs.iter().find(|a| f(a)) }

    // ------------------------------------------------------------ provenance
    pub fn proc_by_id(&self, id: &str) -> Option<usize> { self.procs.iter().position(|p| p.id == id) }
    pub fn add_processor(&mut self, ps: &ProcSpec, parent: Option<usize>) -> R<usize> {
        let mut above = vec![];
        let mut a = match parent { Some(p) => Some(p), None => self.proc_by_id(&ps.p.id).and_then(|k| self.procs[k].parent) };
        while let Some(x) = a { above.push(self.procs[x].id.clone()); a = self.procs[x].parent; }
        fn cyclic(p: &ProcSpec, above: &mut Vec<String>) -> bool {
            if above.contains(&p.p.id) { return true; }
            above.push(p.p.id.clone());
            if p.existing.iter().any(|e| above.contains(e)) { return true; }
            let c = p.subs.iter().any(|s| cyclic(s, above));
            above.pop();
            c
        }
        fn unknown(m: &Model, p: &ProcSpec) -> bool { p.existing.iter().any(|e| m.proc_by_id(e).is_none()) || p.subs.iter().any(|s| unknown(m, s)) }
        if unknown(self, ps) { return Err("no such processor".into()); }
        if cyclic(ps, &mut above) { return Err("processor under itself".into()); }
        Ok(self.place_processor(ps, parent))
    }
    fn place_processor(&mut self, ps: &ProcSpec, parent: Option<usize>) -> usize {
        let k = match self.proc_by_id(&ps.p.id) {
            Some(k) => k,
            None => { let mut p = ps.p.clone(); p.subs = vec![]; p.parent = None; self.procs.push(p); self.procs.len() - 1 }
        };
        match parent {
            None => if self.procs[k].parent.is_none() && !self.chain.contains(&k) { self.chain.push(k) },
            Some(p) => { let _ = self.attach_proc(p, k); }
        }
        for e in &ps.existing { if let Some(x) = self.proc_by_id(e) { let _ = self.attach_proc(k, x); } }
        for s in &ps.subs { self.place_processor(s, Some(k)); }
        k
    }
    /// Takes over a processor the real document just registered.
    pub fn adopt_processor(&mut self, ps: &ProcSpec) { self.place_processor(ps, None); }
    pub fn attach_proc(&mut self, parent: usize, child: usize) -> R<()> {
        if parent >= self.procs.len() || child >= self.procs.len() { return Err("no such processor".into()); }
        let mut a = Some(parent);
        while let Some(x) = a { if x == child { return Err("cycle".into()); } a = self.procs[x].parent; }
        if let Some(old) = self.procs[child].parent { self.procs[old].subs.retain(|x| *x != child); }
        self.chain.retain(|x| *x != child);
        self.procs[child].parent = Some(parent);
        self.procs[parent].subs.push(child);
        Ok(())
    }

    // ------------------------------------------------------------ the tree
    pub fn children(&self, n: Nid) -> Vec<Nid> { self.nodes[n].items.iter().filter_map(|i| if let MI::El(c) = i { Some(*c) } else { None }).collect() }
    pub fn ancestors(&self, n: Nid) -> Vec<Nid> { let mut v = vec![]; let mut a = self.nodes[n].parent; while let Some(x) = a { v.push(x); a = self.nodes[x].parent; } v }
    pub fn descendants(&self, n: Nid) -> Vec<Nid> { let mut v = vec![]; self.desc(n, &mut v); v }
    fn desc(&self, n: Nid, v: &mut Vec<Nid>) { for c in self.children(n) { v.push(c); self.desc(c, v); } }
    pub fn reachable(&self) -> Vec<Nid> { let mut v = vec![0]; self.desc(0, &mut v); v }
    pub fn root_of(&self, n: Nid) -> Nid { *self.ancestors(n).last().unwrap_or(&n) }
    pub fn in_span(&self, n: Nid) -> bool { is_span(self.nodes[n].et) || self.ancestors(n).iter().any(|a| is_span(self.nodes[*a].et)) }

    pub fn attach(&mut self, parent: Nid, child: Nid) -> R<()> {
        if parent >= self.nodes.len() || child >= self.nodes.len() { return Err("no such element".into()); }
        if parent == child || self.ancestors(parent).contains(&child) { return Err("cycle".into()); }
        self.detach(child);
        self.nodes[child].parent = Some(parent);
        self.nodes[parent].items.push(MI::El(child));
        Ok(())
    }
    pub fn detach(&mut self, child: Nid) {
        if let Some(p) = self.nodes[child].parent.take() { self.nodes[p].items.retain(|i| *i != MI::El(child)); }
    }
    fn check(&self, s: &Spec, parent: Option<Nid>, in_span: bool, fctx: bool, ids: &mut BTreeSet<String>, refs: &mut Vec<String>) -> R<()> {
        if let Some(id) = &s.id { if self.ids.contains_key(id) || !ids.insert(id.clone()) { return Err("duplicate id".into()); } }
        let at = row(s.et()).at;
        if s.et() == ElementType::WordReference {
            if !in_span { return Err("wref outside a span".into()); }
            refs.push(s.idref().ok_or("wref without id")?.to_string());
        } else if s.encodable() {
            if let Some(at) = at { if !self.autodeclare && !self.declared(at, &s.set) { return Err("undeclared".into()); } }
            else if s.et() == ElementType::Feature && !fctx { return Err("feature outside an annotation".into()); }
        }
        let in_span = in_span || is_span(s.et());
        for i in &s.items {
            match i {
                SItem::El(c) => self.check(c, parent, in_span, at.is_some(), ids, refs)?,
                SItem::Existing(c) => {
                    if *c >= self.nodes.len() { return Err("no such element".into()); }
                    if let Some(p) = parent { if p == *c || self.ancestors(p).contains(c) { return Err("cycle".into()); } }
                }
                _ => {}
            }
        }
        Ok(())
    }
    pub fn add_to(&mut self, parent: Option<Nid>, s: &Spec) -> R<Nid> {
        let (mut ins, mut fctx) = (false, false);
        if let Some(p) = parent {
            if p >= self.nodes.len() { return Err("no such parent".into()); }
            ins = self.in_span(p);
            fctx = row(self.nodes[p].et).at.is_some() || self.nodes[p].dec.is_some();
        }
        let (mut ids, mut refs) = (BTreeSet::new(), vec![]);
        self.check(s, parent, ins, fctx, &mut ids, &mut refs)?;
        for r in refs { if !ids.contains(&r) && !self.ids.contains_key(&r) { return Err("unknown reference".into()); } }
        let mut added = vec![];
        let n = self.build(s, parent, &mut added)?;
        for a in added {
            if self.nodes[a].et == ElementType::WordReference { self.back_reference(a)?; } else { self.infer_layer_set(a); }
        }
        Ok(n)
    }
    pub fn annotate(&mut self, parent: Nid, s: &Spec) -> R<Nid> {
        if parent >= self.nodes.len() { return Err("no such parent".into()); }
        let pet = self.nodes[parent].et;
        if is_span(s.et()) && (row(pet).wrefable || is_structure(pet)) {
            let at = row(s.et()).at.unwrap();
            let layer = arow(at).layer.ok_or("no layer type")?;
            let set = match &s.set { Some(x) => Some(x.clone()), None => self.dec_default(at).and_then(|d| self.decs[d].set.clone()) };
            if set.is_none() { return Err("no set".into()); }
            let host = if row(pet).wrefable {
                let keys = self.span_keys(s);
                if keys.is_empty() { return Err("empty span".into()); }
                self.common_ancestors(&keys).into_iter().find(|a| is_structure(self.nodes[*a].et) && acc(self.nodes[*a].et, layer)).ok_or("no suitable ancestor")?
            } else { parent };
            let dec = row(layer).at.and_then(|a| self.dec_exact(a, &set));
            let existing = self.children(host).into_iter().find(|c| self.nodes[*c].et == layer && dec.is_some() && self.nodes[*c].dec == dec);
            if let Some(l) = existing {
                if !acc(layer, s.et()) { return Err("not accepted".into()); }
                return self.add_to(Some(l), s);
            }
            if !acc(self.nodes[host].et, layer) || !acc(layer, s.et()) { return Err("not accepted".into()); }
            let mut ls = Spec::new(layer);
            ls.set = set;
            let l = self.add_to(Some(host), &ls.child(s.clone()))?;
            return Ok(self.children(l)[0]);
        }
        if is_span(s.et()) && row(s.et()).at.and_then(|a| arow(a).layer).is_none() { return Err("no layer type".into()); }
        if !acc(pet, s.et()) { return Err("not accepted".into()); }
        self.add_to(Some(parent), s)
    }
    pub fn span_keys(&self, s: &Spec) -> Vec<Nid> {
        s.items.iter().flat_map(|i| match i {
            SItem::Existing(n) => vec![*n],
            SItem::El(c) if c.et() == ElementType::WordReference => c.idref().and_then(|r| self.ids.get(r).copied()).into_iter().collect(),
            SItem::El(c) => self.span_keys(c), // the roles and parts of a span: their words are its words
            _ => vec![],
        }).collect()
    }
    pub fn common_ancestors(&self, v: &[Nid]) -> Vec<Nid> {
        if v.is_empty() { return vec![]; }
        let rest: Vec<Vec<Nid>> = v[1..].iter().map(|x| self.ancestors(*x)).collect();
        self.ancestors(v[0]).into_iter().filter(|a| rest.iter().all(|r| r.contains(a))).collect()
    }

    // ------------------------------------------------------------ reading
    pub fn set(&self, n: Nid) -> Option<&str> { self.nodes[n].dec.and_then(|d| self.decs[d].set.as_deref()) }
    pub fn annotator(&self, n: Nid) -> Option<String> {
        match self.nodes[n].proc {
            Some(p) => Some(self.procs[p].name.clone()),
            None => self.nodes[n].attrs.iter().find_map(|a| if let Attribute::Annotator(s) = a { Some(s.clone()) } else { None }),
        }
    }
    pub fn annotatortype(&self, n: Nid) -> Option<ProcessorType> {
        match self.nodes[n].proc {
            Some(p) => Some(PTYPES[self.procs[p].ptype as usize]),
            None => self.nodes[n].attrs.iter().find_map(|a| if let Attribute::AnnotatorType(s) = a { Some(*s) } else { None }),
        }
    }
    pub fn confidence(&self, n: Nid) -> Option<f64> { self.nodes[n].attrs.iter().find_map(|a| if let Attribute::Confidence(f) = a { Some(*f) } else { None }) }
    /// The words a span refers to, in order, through its roles, but not those of nested spans.
    pub fn span_words(&self, span: Nid) -> Vec<Nid> {
        let mut v = vec![];
        for c in self.children(span) {
            if self.nodes[c].et == ElementType::WordReference { if let Some(t) = self.idref(c).and_then(|i| self.ids.get(i)) { v.push(*t); } }
            else if !is_span(self.nodes[c].et) { v.extend(self.span_words(c)); }
        }
        v
    }

    // ------------------------------------------------------------ text
    pub fn wanted_delim(&self, n: Nid, retain: bool) -> String {
        let r = row(self.nodes[n].et);
        match r.delim {
            None => match self.children(n).last() { Some(c) => self.wanted_delim(*c, retain), None => String::new() },
            Some(d) => {
                if r.space && !retain && self.nodes[n].attrs.iter().find_map(|a| if let Attribute::Space(b) = a { Some(*b) } else { None }) == Some(false) { String::new() } else { d.to_string() }
            }
        }
    }
    fn container_text(&self, n: Nid, d: usize, class: &str, retain: bool, following: &mut Vec<Nid>) -> String {
        let mut t = String::new();
        for i in &self.nodes[n].items {
            match i {
                MI::Text(s) => t += s,
                MI::El(c) if row(self.nodes[*c].et).printable => {
                    if !t.is_empty() { if let Some(d) = row(self.nodes[*c].et).delim { t += d; } }
                    if let Some(x) = self.text_in(*c, d, class, retain, following) { t += &x; }
                }
                _ => {}
            }
        }
        t
    }
    fn text_in(&self, n: Nid, d: usize, class: &str, retain: bool, following: &mut Vec<Nid>) -> Option<String> {
        let r = row(self.nodes[n].et);
        if r.textcontainer { return Some(self.container_text(n, d, class, retain, following)); }
        if !r.printable || r.hidden { return None; }
        let mut parts: Vec<(String, String)> = vec![]; // text, delimiter after it
        let mut own: Option<Nid> = None;
        for i in &self.nodes[n].items {
            let c = if let MI::El(c) = i { *c } else { continue };
            let et = self.nodes[c].et;
            let target = if is_structure(et) || et == ElementType::Correction || is_span(et) { Some(c) }
                else if et == ElementType::WordReference { self.idref(c).and_then(|i| self.ids.get(i)).copied().filter(|t| !following.contains(t)) }
                else { None };
            if let Some(t) = target {
                let wref = et == ElementType::WordReference;
                if wref { following.push(t); }
                if let Some(x) = self.text_in(t, d, class, retain, following) { parts.push((x, self.wanted_delim(t, retain))); }
                if wref { following.pop(); }
            } else if et == ElementType::TextContent && self.nodes[c].class.as_deref().unwrap_or("current") == class && self.nodes[c].dec.map_or(true, |x| x == d) { own = Some(c); }
        }
        let mut text = String::new();
        for (k, (t, _)) in parts.iter().enumerate() { if k > 0 { text += &parts[k - 1].1; } text += t; }
        if text.is_empty() { if let Some(o) = own { text = self.container_text(o, d, class, retain, following); } }
        if text.is_empty() { None } else { Some(text) }
    }
    /// None: an error is due
    pub fn text(&self, n: Nid, set: &Option<String>, class: Option<&str>, retain: bool) -> Option<String> {
        let d = match (self.dec_exact(AnnotationType::TEXT, set), set) { (Some(d), _) => d, (None, None) => self.dec_exact(AnnotationType::TEXT, &Some(DEFAULT_TEXT_SET.to_string()))?, _ => return None };
        let class = class.unwrap_or("current");
        if !self.decs[d].classes.contains(class) { return None; }
                self.text_in(n, d, class, retain, &mut vec![])
    }

    // ------------------------------------------------------------ restart
    /// What a document must look like after it was saved and loaded again. Everything stays, but
    /// for what the format cannot express: elements outside the tree are gone; an annotation
    /// without processor takes the sole one of its declaration; an element that carries nothing
    /// tying it to a declaration is not tied to it; layers take the set of what they contain.
    pub fn restart(&self, p: &Props) -> R<Model> {
        let mut m = Model { id: self.id.clone(), meta: self.meta.clone(), sub: self.sub.clone(), decs: self.decs.clone(), autodeclare: p.autodeclare, filename: self.filename.clone(), ..Default::default() };
        for d in m.decs.iter_mut() { d.classes = known_classes(d.at); d.subsets.clear(); d.subclasses.clear(); }
        // only processors in the chain are saved
        let mut map: BTreeMap<usize, usize> = BTreeMap::new();
        for c in &self.chain { let k = m.copy_proc(self, *c, None, &mut map); m.chain.push(k); }
        for d in m.decs.iter_mut() { d.procs = d.procs.iter().filter_map(|x| map.get(x).copied()).collect(); }
        let mut order = vec![];
        m.copy_node(self, 0, None, &map, &mut order);
        for n in 0..m.nodes.len() {
            let x = m.nodes[n].clone();
            if let Some(d) = x.dec {
                if m.decs[d].set.is_none() && x.class.is_none() && x.subset.is_none() && x.proc.is_none() { m.nodes[n].dec = None; continue; }
                if x.et == ElementType::Feature && x.class.is_none() && x.subset.is_none() && x.proc.is_none() { m.nodes[n].dec = None; continue; }
                if x.et != ElementType::Feature && x.proc.is_none() && m.decs[d].procs.len() == 1 { m.nodes[n].proc = Some(m.decs[d].procs[0]); }
                if let Some(s) = x.subset { m.decs[d].subsets.insert(s); if let Some(c) = x.class { m.decs[d].subclasses.insert(c); } }
                else if let Some(c) = x.class { m.decs[d].classes.insert(c); }
            }
        }
        for n in &order { if m.nodes[*n].et != ElementType::WordReference { m.infer_layer_set(*n); } }
        for n in &order { if m.nodes[*n].et == ElementType::WordReference { let _ = m.back_reference(*n); } }
        m.apply(p)?;
        Ok(m)
    }
    fn copy_proc(&mut self, o: &Model, k: usize, parent: Option<usize>, map: &mut BTreeMap<usize, usize>) -> usize {
        let mut p = o.procs[k].clone();
        p.parent = parent; p.subs = vec![];
        self.procs.push(p);
        let n = self.procs.len() - 1;
        map.insert(k, n);
        for s in &o.procs[k].subs { let x = self.copy_proc(o, *s, Some(n), map); self.procs[n].subs.push(x); }
        n
    }
    fn copy_node(&mut self, o: &Model, k: Nid, parent: Option<Nid>, map: &BTreeMap<usize, usize>, order: &mut Vec<Nid>) -> Nid {
        let src = &o.nodes[k];
        let n = self.nodes.len();
        let mut x = src.clone();
        x.items = vec![]; x.parent = parent; x.key = None;
        x.proc = src.proc.and_then(|p| map.get(&p).copied());
        self.nodes.push(x);
        if let Some(id) = &src.id { self.ids.insert(id.clone(), n); }
        let keeps_blank = row(src.et).textcontainer || row(src.et).phoncontainer;
        for i in &src.items {
            match i {
                MI::El(c) => { let c = self.copy_node(o, *c, Some(n), map, order); self.nodes[n].items.push(MI::El(c)); }
                MI::Text(t) => {
                    if t.is_empty() || (!keeps_blank && t.trim().is_empty()) { continue; }
                    if let Some(MI::Text(prev)) = self.nodes[n].items.last_mut() { prev.push_str(t); } else { self.nodes[n].items.push(MI::Text(t.clone())); }
                }
                MI::Comment(t) => self.nodes[n].items.push(MI::Comment(t.clone())),
                MI::Span(_) => {}
            }
        }
        order.push(n);
        n
    }
}
