//! Canonical views of a document (the real one, and the model's), line lists by kind, and their
//! comparison. Elements are named by their position in the tree, never by internal keys.
use crate::model::*;
use folia::*;
use std::collections::{BTreeMap, HashMap};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum K { Tree, Id, Index, Set, Class, Subset, Proc, Annot, Attr, AttrTime, Text, Comment, SpanRef, Decl, DeclProc, Prov, ProvTime, ProvMeta, Meta, SubMeta, DocId }
pub type Snap = BTreeMap<K, Vec<String>>;
#[derive(Clone, Debug)]
pub struct Diff { pub k: K, pub msg: String }

pub struct Real<'a> { pub d: &'a Document, pub order: Vec<ElementKey>, pub pos: HashMap<ElementKey, usize>, s: Snap }

fn put(s: &mut Snap, k: K, l: String) { s.entry(k).or_default().push(l) }

pub fn dt(t: &Option<chrono::NaiveDateTime>) -> Option<String> { t.as_ref().map(|t| t.format("%Y-%m-%dT%H:%M:%S").to_string()) }

impl<'a> Real<'a> {
    /// `roots`: key 0 and whatever is known to be detached.
    pub fn new(d: &'a Document, roots: &[ElementKey]) -> Real<'a> {
        let mut r = Real { d, order: vec![], pos: HashMap::new(), s: Snap::new() };
        for k in roots { r.number(*k, 0); }
        for i in 0..r.order.len() { r.element(i, roots); }
        r.document();
        r
    }
    pub fn snap(self) -> Snap { self.s }
    fn number(&mut self, k: ElementKey, depth: usize) {
        if self.pos.contains_key(&k) || depth > 2000 { put(&mut self.s, K::Tree, format!("element {} reached twice", k)); return; }
        self.pos.insert(k, self.order.len());
        self.order.push(k);
        if let Some(e) = self.d.get_element(k) {
            for i in 0..e.elementdata().len() { if let Some(DataType::Element(c)) = e.elementdata().get_data_at(i) { self.number(*c, depth + 1); } }
        }
    }
    fn name(&self, k: ElementKey) -> String { match self.pos.get(&k) { Some(p) => format!("#{}", p), None => "elsewhere".into() } }
    fn element(&mut self, i: usize, roots: &[ElementKey]) {
        let k = self.order[i];
        let d = self.d;
        let e = match d.get_element(k) { Some(e) => e, None => { put(&mut self.s, K::Tree, format!("#{} missing", i)); return; } };
        let parent = e.parent_key().map(|p| self.name(p)).unwrap_or_else(|| "none".into());
        if roots.contains(&k) && e.parent_key().is_some() { put(&mut self.s, K::Tree, format!("root #{} has a parent", i)); }
        let mut kids = vec![];
        let mut texts: Vec<(usize, String)> = vec![];
        let mut last_text = false;
        for x in 0..e.elementdata().len() {
            match e.elementdata().get_data_at(x) {
                Some(DataType::Element(c)) => { kids.push(self.name(*c)); last_text = false; }
                Some(DataType::Text(t)) => { if last_text { texts.last_mut().unwrap().1.push_str(t) } else { kids.push("T".into()); texts.push((kids.len() - 1, t.clone())); last_text = true; } }
                Some(DataType::Comment(t)) => { kids.push("C".into()); put(&mut self.s, K::Comment, format!("#{}.{} {:?}", i, kids.len() - 1, t)); last_text = false; }
                Some(DataType::SpanReference(_)) => {}
                Some(DataType::AddElement(_)) => kids.push("unborn".into()),
                None => kids.push("gone".into()),
            }
        }
        for (x, t) in texts { put(&mut self.s, K::Text, format!("#{}.{} {:?}", i, x, t)); }
        put(&mut self.s, K::Tree, format!("#{} {:?} in {} [{}]", i, e.elementtype(), parent, kids.join(" ")));
        if let Some(id) = e.id() {
            put(&mut self.s, K::Id, format!("#{} {:?}", i, id));
            let found = d.get_element_key_by_id(id).map(|k| self.name(k)).unwrap_or_else(|| "none".into());
            let byid = d.get_element_by_id(id).and_then(|e| e.key()).map(|k| self.name(k)).unwrap_or_else(|| "none".into());
            put(&mut self.s, K::Index, format!("{:?} -> {} {}", id, found, byid));
        }
        if let Some(x) = e.set() { put(&mut self.s, K::Set, format!("#{} {:?}", i, x)); }
        if let Some(x) = e.class() { put(&mut self.s, K::Class, format!("#{} {:?}", i, x)); }
        if let Some(x) = e.subset() { put(&mut self.s, K::Subset, format!("#{} {:?}", i, x)); }
        if let Some(x) = e.processor() { put(&mut self.s, K::Proc, format!("#{} {:?}", i, x)); }
        if e.annotator().is_some() || e.annotatortype().is_some() { put(&mut self.s, K::Annot, format!("#{} {:?} {:?}", i, e.annotator(), e.annotatortype())); }
        let mut a: Vec<String> = e.attribs().iter().filter(|a| attr_plain(a)).map(|a| format!("{:?}", a)).collect();
        a.sort();
        if let Some(t) = a.iter().find(|a| a.starts_with("DateTime")) { put(&mut self.s, K::AttrTime, format!("#{} {}", i, t)); }
        a.retain(|a| !a.starts_with("DateTime"));
        if !a.is_empty() { put(&mut self.s, K::Attr, format!("#{} {}", i, a.join(" "))); }
        let mut sp: Vec<String> = vec![];
        for x in 0..e.elementdata().len() { if let Some(DataType::SpanReference(c)) = e.elementdata().get_data_at(x) { sp.push(self.name(*c)); } }
        sp.sort();
        if !sp.is_empty() { put(&mut self.s, K::SpanRef, format!("#{} {}", i, sp.join(" "))); }
    }
    fn document(&mut self) {
        let d = self.d;
        put(&mut self.s, K::DocId, format!("{:?}", d.id()));
        let mut decl = vec![];
        let mut declp = vec![];
        for x in d.declarations().flatten() {
            decl.push(format!("{:?} {:?} {:?} {:?}", x.annotationtype, x.set, x.alias, x.format));
            let mut p: Vec<String> = x.processors.iter().map(|p| d.get_processor(*p).map(|p| p.id.clone()).unwrap_or_else(|| "missing".into())).collect();
            p.sort();
            if !p.is_empty() { declp.push(format!("{:?} {:?} {:?}", x.annotationtype, x.set, p)); }
        }
        decl.sort(); declp.sort();
        self.s.insert(K::Decl, decl); self.s.insert(K::DeclProc, declp);
        for k in d.provenancestore.chain.clone() { self.processor(k, "", 0); }
        let m = |x: &Metadata| MMeta { data: x.data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), src: x.src.clone(), mtype: x.metadatatype.clone() };
        put(&mut self.s, K::Meta, format!("{:?}", m(&d.metadata)));
        let sub: BTreeMap<&String, MMeta> = d.submetadata.iter().map(|(k, v)| (k, m(v))).collect();
        for (k, v) in sub { put(&mut self.s, K::SubMeta, format!("{:?}: {:?}", k, v)); }
    }
    fn processor(&mut self, k: ProcKey, path: &str, depth: usize) {
        if depth > 200 { put(&mut self.s, K::Prov, "endless".into()); return; }
        match self.d.get_processor(k) {
            None => put(&mut self.s, K::Prov, format!("{}/ missing", path)),
            Some(p) => {
                let path = format!("{}/{:?}", path, p.id);
                let idx = self.d.get_processor_key_by_id(&p.id).and_then(|k| self.d.get_processor(k)).map(|x| x.name == p.name);
                let parent = p.parent.and_then(|k| self.d.get_processor(k)).map(|p| p.id.clone());
                put(&mut self.s, K::Prov, format!("{} {:?} {:?} under {:?} found {:?}", path, [&p.name, &p.version, &p.folia_version, &p.document_version, &p.command, &p.host, &p.user, &p.src, &p.format, &p.resourcelink], p.processortype, parent, idx));
                let data: BTreeMap<&String, &String> = p.metadata.data.iter().collect();
                put(&mut self.s, K::ProvMeta, format!("{} {:?}", path, data));
                put(&mut self.s, K::ProvTime, format!("{} {:?} {:?}", path, dt(&p.begindatetime), dt(&p.enddatetime)));
                for s in p.processors.clone() { self.processor(s, &path, depth + 1); }
            }
        }
    }
}
pub fn attr_plain(a: &Attribute) -> bool { !a.encodable() && !a.decodable() && *a != Attribute::Ignore && !matches!(a, Attribute::Id(_)) }

pub fn model_roots(m: &Model) -> Vec<Nid> { let mut v = vec![0]; v.extend((1..m.nodes.len()).filter(|n| m.nodes[*n].parent.is_none())); v }

pub fn model_snap(m: &Model, roots: &[Nid]) -> Snap {
    let mut s = Snap::new();
    let mut order = vec![];
    for r in roots { order.push(*r); order.extend(m.descendants(*r)); }
    let pos: HashMap<Nid, usize> = order.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let name = |n: Nid| match pos.get(&n) { Some(p) => format!("#{}", p), None => "elsewhere".to_string() };
    for (i, n) in order.iter().enumerate() {
        let x = &m.nodes[*n];
        let mut kids = vec![];
        let mut texts: Vec<(usize, String)> = vec![];
        let mut last_text = false;
        let mut sp = vec![];
        for it in &x.items {
            match it {
                MI::El(c) => { kids.push(name(*c)); last_text = false; }
                MI::Text(t) => { if last_text { texts.last_mut().unwrap().1.push_str(t) } else { kids.push("T".into()); texts.push((kids.len() - 1, t.clone())); last_text = true; } }
                MI::Comment(t) => { kids.push("C".into()); put(&mut s, K::Comment, format!("#{}.{} {:?}", i, kids.len() - 1, t)); last_text = false; }
                MI::Span(t) => sp.push(name(*t)),
            }
        }
        for (x, t) in texts { put(&mut s, K::Text, format!("#{}.{} {:?}", i, x, t)); }
        put(&mut s, K::Tree, format!("#{} {:?} in {} [{}]", i, x.et, x.parent.map(name).unwrap_or_else(|| "none".into()), kids.join(" ")));
        if let Some(id) = &x.id {
            put(&mut s, K::Id, format!("#{} {:?}", i, id));
            let f = m.ids.get(id).map(|n| name(*n)).unwrap_or_else(|| "none".into());
            put(&mut s, K::Index, format!("{:?} -> {} {}", id, f, f));
        }
        if let Some(x) = m.set(*n) { put(&mut s, K::Set, format!("#{} {:?}", i, x)); }
        if let Some(x) = &x.class { put(&mut s, K::Class, format!("#{} {:?}", i, x)); }
        if let Some(x) = &x.subset { put(&mut s, K::Subset, format!("#{} {:?}", i, x)); }
        if let Some(x) = x.proc { put(&mut s, K::Proc, format!("#{} {:?}", i, m.procs[x].id)); }
        let (an, at) = (m.annotator(*n), m.annotatortype(*n));
        if an.is_some() || at.is_some() { put(&mut s, K::Annot, format!("#{} {:?} {:?}", i, an.as_deref(), at)); }
        let mut a: Vec<String> = x.attrs.iter().map(|a| format!("{:?}", a)).collect();
        a.sort();
        if let Some(t) = a.iter().find(|a| a.starts_with("DateTime")) { put(&mut s, K::AttrTime, format!("#{} {}", i, t)); }
        a.retain(|a| !a.starts_with("DateTime"));
        if !a.is_empty() { put(&mut s, K::Attr, format!("#{} {}", i, a.join(" "))); }
        sp.sort();
        if !sp.is_empty() { put(&mut s, K::SpanRef, format!("#{} {}", i, sp.join(" "))); }
    }
    put(&mut s, K::DocId, format!("{:?}", m.id));
    let mut decl = vec![];
    let mut declp = vec![];
    for x in &m.decs {
        decl.push(format!("{:?} {:?} {:?} {:?}", x.at, x.set, x.alias, x.format));
        let mut p: Vec<String> = x.procs.iter().map(|p| m.procs[*p].id.clone()).collect();
        p.sort();
        if !p.is_empty() { declp.push(format!("{:?} {:?} {:?}", x.at, x.set, p)); }
    }
    decl.sort(); declp.sort();
    s.insert(K::Decl, decl); s.insert(K::DeclProc, declp);
    for k in &m.chain { mproc(m, *k, "", &mut s); }
    put(&mut s, K::Meta, format!("{:?}", m.meta));
    for (k, v) in &m.sub { put(&mut s, K::SubMeta, format!("{:?}: {:?}", k, v)); }
    s
}
fn mproc(m: &Model, k: usize, path: &str, s: &mut Snap) {
    let p = &m.procs[k];
    let path = format!("{}/{:?}", path, p.id);
    put(s, K::Prov, format!("{} {:?} {:?} under {:?} found {:?}", path, [&p.name, &p.version, &p.folia_version, &p.document_version, &p.command, &p.host, &p.user, &p.src, &p.format, &p.resourcelink], PTYPES[p.ptype as usize], p.parent.map(|x| m.procs[x].id.clone()), Some(true)));
    put(s, K::ProvMeta, format!("{} {:?}", path, p.meta));
    put(s, K::ProvTime, format!("{} {:?} {:?}", path, p.begin, p.end));
    for x in &p.subs { mproc(m, *x, &path, s); }
}

pub fn diff(want: &Snap, got: &Snap) -> Vec<Diff> {
    let mut v = vec![];
    let empty = vec![];
    let mut kinds: Vec<K> = want.keys().chain(got.keys()).copied().collect();
    kinds.sort(); kinds.dedup();
    for k in kinds {
        let (w, g) = (want.get(&k).unwrap_or(&empty), got.get(&k).unwrap_or(&empty));
        if w != g {
            let i = (0..).find(|i| w.get(*i) != g.get(*i)).unwrap();
            v.push(Diff { k, msg: format!("{:?}: expected {} but found {}", k, w.get(i).map_or("nothing more", |s| s), g.get(i).map_or("nothing more", |s| s)) });
            if k == K::Tree { break; }
        }
    }
    v
}
/// Compares the real document with the model, and on agreement notes the keys of the elements.
pub fn compare(m: &mut Model, d: &Document) -> Vec<Diff> {
    let mut v = vec![];
    let roots: Vec<Nid> = model_roots(m).into_iter().filter(|n| *n == 0 || m.nodes[*n].key.is_some()).collect();
    let keys: Vec<ElementKey> = roots.iter().map(|n| if *n == 0 { 0 } else { m.nodes[*n].key.unwrap() }).collect();
    let r = Real::new(d, &keys);
    let order = r.order.clone();
    let got = r.snap();
    let want = model_snap(m, &roots);
    v.extend(diff(&want, &got));
    if !v.iter().any(|d| d.k == K::Tree) {
        let mut n = vec![];
        for r in &roots { n.push(*r); n.extend(m.descendants(*r)); }
        for (n, k) in n.iter().zip(order) {
            if let Some(old) = m.nodes[*n].key { if old != k { v.push(Diff { k: K::Tree, msg: format!("element {:?} changed its key", m.nodes[*n].id) }); } }
            m.nodes[*n].key = Some(k);
        }
    }
    if d.filename() != m.filename.as_deref() { v.push(Diff { k: K::DocId, msg: format!("filename: expected {:?} but found {:?}", m.filename, d.filename()) }); }
    v
}
/// Properties any document must have, whatever happened to it.
pub fn structural(d: &Document) -> Vec<Diff> {
    let mut v = vec![];
    let n = <Document as Store<ElementData, ElementKey>>::len(d) as ElementKey;
    let mut seen: HashMap<ElementKey, ElementKey> = HashMap::new();
    let mut ids: HashMap<String, ElementKey> = HashMap::new();
    let mut bad = |m: String| v.push(Diff { k: K::Tree, msg: m });
    for k in 0..n {
        let e = match d.get_element(k) { Some(e) => e, None => continue };
        if e.key() != Some(k) { bad(format!("element {} says its key is {:?}", k, e.key())); }
        for i in 0..e.elementdata().len() {
            if let Some(DataType::Element(c)) = e.elementdata().get_data_at(i) {
                if let Some(p) = seen.insert(*c, k) { bad(format!("element {} is listed under {} and (again) under {}", c, p, k)); }
                match d.get_element(*c) { None => bad(format!("child {} of {} does not exist", c, k)), Some(x) => if x.parent_key() != Some(k) { bad(format!("child {} of {} says its parent is {:?}", c, k, x.parent_key())) } }
            }
        }
        if let Some(id) = e.id() {
            if let Some(o) = ids.insert(id.to_string(), k) { bad(format!("elements {} and {} share the id {:?}", o, k, id)); }
            if d.get_element_key_by_id(id) != Some(k) { bad(format!("id {:?} of element {} leads to {:?}", id, k, d.get_element_key_by_id(id))); }
        }
    }
    for k in 0..n {
        let e = match d.get_element(k) { Some(e) => e, None => continue };
        if let Some(p) = e.parent_key() { if seen.get(&k) != Some(&p) { bad(format!("element {} has parent {} but is not listed there", k, p)); } }
        let (mut a, mut steps) = (e.parent_key(), 0);
        while let Some(x) = a { steps += 1; if x == k || steps > n as usize + 1 { bad(format!("element {} is its own ancestor", k)); break; } a = d.get_element(x).and_then(|e| e.parent_key()); }
    }
    v
}
