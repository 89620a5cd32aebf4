//! Filling the key spaces to their limits and beyond.
use crate::core::*;
use crate::prng::Rng;
use crate::scen::*;
use folia::*;
use std::fmt::Write;

const SPACE: usize = 65536;
fn nprocs(d: &Document) -> usize { Store::<Processor, ProcKey>::len(d) }
fn new(cx: &mut Cx) -> Option<Document> { match Document::new("full", DocumentProperties::default()) { Ok(d) => Some(d), Err(e) => { cx.fail(&["C19"], "new-refused", format!("{}", e)); None } } }
fn proc(id: String) -> Processor { Processor::new(format!("name of {}", id)).with_id(id) }

pub fn run(p: &Plan, cx: &mut Cx) {
    for (i, st) in p.steps.iter().enumerate() {
        now(cx, i + 1, &st.op);
        cx.count(&format!("op_{}", st.op));
        let mut r = Rng::new(st.seed);
        cx.state(st.seed);
        match st.op.as_str() { "procs" | "subprocs" => procs(&mut r, cx, st.op == "subprocs"), "decls" => decls(&mut r, cx), "subsets" => subsets(&mut r, cx), "loaddecls" => load(&mut r, cx, true), _ => load(&mut r, cx, false) }
        if cx.stopped() { return; }
    }
}
fn sample(r: &mut Rng, n: usize) -> Vec<usize> { let mut v: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1]; for _ in 0..40 { v.push(r.below(n)); } v }

fn procs(r: &mut Rng, cx: &mut Cx, nested: bool) {
    let mut d = match new(cx) { Some(d) => d, None => return };
    let base = nprocs(&d);
    let stop = SPACE - base;
    let spread = 1 + r.below(300);
    let mut keys: Vec<ProcKey> = vec![];
    let before = r.below(5) as isize - 2; // look around just below, at, and beyond the limit
    let total = (stop as isize + 4 + before.max(0)) as usize;
    let mut refused = 0;
    for i in 0..total {
        let id = format!("p{}", i);
        let under = if nested && i > 0 && i % spread != 0 { keys.get(r.below(keys.len().min(spread))).copied() } else { None };
        let res = match under { Some(u) => d.add_subprocessor(u, proc(id.clone())), None => d.add_processor(proc(id.clone())) };
        match (res, i < stop) {
            (Ok(k), true) => { if k as usize != base + i { cx.fail(&["C19"], "key", format!("processor {} got key {}", i, k)); return; } keys.push(k); }
            (Err(_), false) => { refused += 1; if d.get_processor_key_by_id(&id).is_some() { cx.fail(&["C19"], "ghost", format!("refused processor {} can be looked up", id)); return; } }
            (Ok(k), false) => { cx.fail(&["C19"], "accepted", format!("processor number {} was accepted, with key {}", i, k)); return; }
            (Err(e), true) => { cx.fail(&["C19"], "refused-early", format!("processor number {} was refused: {}", i, e)); return; }
        }
    }
    cx.add("fault_key_space_exhausted", refused);
    cx.ev(&format!("{} processors, {} refused", keys.len(), refused));
    if nprocs(&d) != SPACE { cx.fail(&["C19"], "count", format!("{} processors are stored", nprocs(&d))); return; }
    for i in sample(r, stop) {
        let id = format!("p{}", i);
        let ok = d.get_processor(keys[i]).map_or(false, |p| p.id == id && p.name == format!("name of {}", id)) && d.get_processor_by_id(&id).map_or(false, |p| p.id == id) && d.get_processor_key_by_id(&id) == Some(keys[i]);
        if !ok { cx.fail(&["C19"], "lost", format!("processor {} cannot be read back", id)); return; }
        match d.add_processor(proc(id.clone())) { Ok(k) if k == keys[i] => {} x => { cx.fail(&["C19"], "reuse", format!("registering {} again gave {:?}", id, x.ok())); return; } }
    }
    if !nested && d.provenancestore.chain.len() != SPACE { cx.fail(&["C19"], "chain", format!("the chain lists {} processors", d.provenancestore.chain.len())); return; }
    // existing entries are still of use
    let k = keys[r.below(keys.len())];
    d.activate_processor(k);
    let e = ElementData::new(ElementType::Paragraph).with_attrib(Attribute::Class("c".into()));
    match d.add_element_to(0, e) {
        Ok(x) => { let who = d.get_element(x).and_then(|e| e.processor().map(|s| s.to_string())); let want = d.get_processor(k).map(|p| p.id.clone()); if who != want { cx.fail(&["C19"], "use", format!("annotation attributed to {:?} instead of {:?}", who, want)); } }
        Err(e) => cx.fail(&["C19"], "use", format!("annotating with an existing processor: {}", e)),
    }
}
fn decls(r: &mut Rng, cx: &mut Cx) {
    let mut d = match new(cx) { Some(d) => d, None => return };
    let base = d.declarations().count();
    let stop = SPACE - base;
    let ats = [AnnotationType::POS, AnnotationType::ENTITY, AnnotationType::SENTENCE, AnnotationType::LEMMA];
    let per = 1 + r.below(4);
    let mut keys = vec![];
    let mut refused = 0;
    for i in 0..stop + 3 {
        let at = ats[i % per];
        let set = Some(format!("set{}", i));
        match (d.declare(at, &set, &None, &None), i < stop) {
            (Ok(k), true) => { if k as usize != base + i { cx.fail(&["C19"], "key", format!("declaration {} got key {}", i, k)); return; } keys.push(k); }
            (Err(_), false) => { refused += 1; if d.is_declared(at, set.as_deref()) { cx.fail(&["C19"], "ghost", format!("refused declaration {:?} counts as declared", set)); return; } }
            (Ok(k), false) => { cx.fail(&["C19"], "accepted", format!("declaration number {} was accepted, with key {}", i, k)); return; }
            (Err(e), true) => { cx.fail(&["C19"], "refused-early", format!("declaration number {} was refused: {}", i, e)); return; }
        }
    }
    cx.add("fault_key_space_exhausted", refused);
    cx.ev(&format!("{} declarations, {} refused", keys.len(), refused));
    // an annotation that would need one more
    let before = crate::session::len(&d);
    let e = ElementData::new(ElementType::Paragraph).with_attrib(Attribute::Set("one more".into())).with_attrib(Attribute::Class("c".into()));
    match d.annotate(0, e) { Ok(_) => { cx.fail(&["C19"], "accepted", "an annotation in one set too many was accepted".into()); return; } Err(_) => if crate::session::len(&d) != before { cx.fail(&["C19", "C07"], "refused-left-elements", "the refused annotation left elements behind".into()); return; } }
    let mut parent = None;
    for i in sample(r, stop) {
        let set = Some(format!("set{}", i));
        let at = ats[i % per];
        let ok = d.get_declaration(keys[i]).map_or(false, |x| x.annotationtype == at && x.set == set) && d.is_declared(at, set.as_deref());
        if !ok { cx.fail(&["C19"], "lost", format!("declaration {:?} cannot be read back", set)); return; }
        match d.declare(at, &set, &None, &None) { Ok(k) if k == keys[i] => {} x => { cx.fail(&["C19"], "reuse", format!("declaring {:?} again gave {:?}", set, x.ok())); return; } }
        if at == AnnotationType::SENTENCE {
            let e = ElementData::new(ElementType::Sentence).with_attrib(Attribute::Set(format!("set{}", i))).with_attrib(Attribute::Class(format!("c{}", i)));
            match d.annotate(0, e) { Ok(k) => { parent = Some(k); let x = d.get_element(k).map(|e| (e.set().map(|s| s.to_string()), e.class().map(|s| s.to_string()))); if x != Some((set.clone(), Some(format!("c{}", i)))) { cx.fail(&["C19"], "use", format!("annotation in {:?} reads back as {:?}", set, x)); return; } } Err(e) => { cx.fail(&["C19"], "use", format!("annotating in an existing set: {}", e)); return; } }
        }
    }
    let _ = parent;
    if d.declarations().count() != SPACE { cx.fail(&["C19"], "count", format!("{} declarations are stored", d.declarations().count())); }
}
fn subsets(r: &mut Rng, cx: &mut Cx) {
    let mut d = match new(cx) { Some(d) => d, None => return };
    let mut go = |d: &mut Document, e: ElementData, to: ElementKey, cx: &mut Cx| match d.add_element_to(to, e) { Ok(k) => Some(k), Err(e) => { cx.fail(&["C19"], "refused-early", format!("{}", e)); None } };
    let s = match go(&mut d, ElementData::new(ElementType::Sentence).with_attrib(Attribute::Id("s".into())), 0, cx) { Some(k) => k, None => return };
    let w = match go(&mut d, ElementData::new(ElementType::Word).with_attrib(Attribute::Id("w".into())), s, cx) { Some(k) => k, None => return };
    // a second declaration must not be affected
    let lemma = match go(&mut d, ElementData::new(ElementType::LemmaAnnotation).with_attrib(Attribute::Set("l".into())).with_attrib(Attribute::Class("x".into())), w, cx) { Some(k) => k, None => return };
    let each = 200 + r.below(2000);
    let mut pos = 0;
    let mut feats: Vec<ElementKey> = vec![];
    let mut refused = 0;
    for i in 0..SPACE + 3 {
        if i % each == 0 || i >= SPACE {
            let ww = match go(&mut d, ElementData::new(ElementType::Word), s, cx) { Some(k) => k, None => return };
            pos = match go(&mut d, ElementData::new(ElementType::PosAnnotation).with_attrib(Attribute::Set("p".into())).with_attrib(Attribute::Class(format!("c{}", i))), ww, cx) { Some(k) => k, None => return };
        }
        let f = ElementData::new(ElementType::Feature).with_attrib(Attribute::Subset(format!("sub{}", i))).with_attrib(Attribute::Class(format!("v{}", i % 70000)));
        let before = crate::session::len(&d);
        match (d.add_element_to(pos, f), i < SPACE) {
            (Ok(k), true) => feats.push(k),
            (Err(_), false) => { refused += 1; if crate::session::len(&d) != before { cx.fail(&["C19"], "refused-left-elements", "the refused feature left an element behind".into()); return; } }
            (Ok(k), false) => { let x = d.get_element(k).and_then(|e| e.subset().map(|s| s.to_string())); cx.fail(&["C19"], "accepted", format!("subset number {} was accepted; it reads back as {:?}", i, x)); return; }
            (Err(e), true) => { cx.fail(&["C19"], "refused-early", format!("subset number {} was refused: {}", i, e)); return; }
        }
    }
    cx.add("fault_key_space_exhausted", refused);
    cx.ev(&format!("{} subsets, {} refused", feats.len(), refused));
    for i in sample(r, SPACE) {
        let x = d.get_element(feats[i]).map(|e| (e.subset().map(|s| s.to_string()), e.class().map(|s| s.to_string())));
        if x != Some((Some(format!("sub{}", i)), Some(format!("v{}", i)))) { cx.fail(&["C19"], "lost", format!("feature {} reads back as {:?}", i, x)); return; }
        // an existing subset can still be used, on another annotation
        if i % 3 == 0 {
            match d.add_element_to(pos, ElementData::new(ElementType::Feature).with_attrib(Attribute::Subset(format!("sub{}", i))).with_attrib(Attribute::Class("again".into()))) {
                Ok(k) => { let x = d.get_element(k).map(|e| (e.subset().map(|s| s.to_string()), e.class().map(|s| s.to_string()))); if x != Some((Some(format!("sub{}", i)), Some("again".into()))) { cx.fail(&["C19"], "reuse", format!("subset {} reads back as {:?}", i, x)); return; } }
                Err(e) => { cx.fail(&["C19"], "use", format!("an existing subset: {}", e)); return; }
            }
        }
    }
    match d.add_element_to(lemma, ElementData::new(ElementType::Feature).with_attrib(Attribute::Subset("other".into())).with_attrib(Attribute::Class("y".into()))) {
        Ok(k) => if d.get_element(k).and_then(|e| e.subset().map(|s| s.to_string())).as_deref() != Some("other") { cx.fail(&["C19"], "use", "a subset of another set reads back wrongly".into()); },
        Err(e) => cx.fail(&["C19"], "use", format!("a subset of another set is refused: {}", e)),
    }
}
/// A file that has more than fit, or just as many.
fn load(r: &mut Rng, cx: &mut Cx, decls: bool) {
    let n = SPACE - 4 + r.below(8);
    let mut x = String::from("<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"full\" version=\"2.4.0\"><metadata><annotations>");
    if decls { for i in 0..n { let _ = write!(x, "<pos-annotation set=\"s{}\"/>", i); } }
    x.push_str("</annotations><provenance>");
    if !decls { for i in 0..n { let _ = write!(x, "<processor xml:id=\"p{}\" name=\"n{}\"/>", i, i); } }
    let (set, proc) = if decls { (format!("s{}", n - 1), String::new()) } else { ("s".into(), format!(" processor=\"p{}\"", n - 1)) };
    let _ = write!(x, "</provenance></metadata><text xml:id=\"t\"><s><w><pos xml:id=\"x\" set=\"{}\" class=\"c\"{}/></w></s></text></FoLiA>", set, proc);
    let props = DocumentProperties { bodytype: BodyType::Text, autodeclare: true, declare: vec![], processor: None };
    // the elements themselves need declarations too
    let need = if decls { n } else { n };
    match Document::from_str(&x, props) {
        Ok(d) => {
            cx.ev(&format!("a file with {} {}: loads", n, if decls { "declarations" } else { "processors" }));
            let have = if decls { d.declarations().count() } else { nprocs(&d) };
            if have < need || have > SPACE { cx.fail(&["C19"], "load-dropped", format!("a file with {} entries loads with {}", n, have)); return; }
            let e = d.get_element_by_id("x").map(|e| (e.set().map(|s| s.to_string()), e.class().map(|s| s.to_string()), e.processor().map(|s| s.to_string())));
            let want = (Some(set), Some("c".to_string()), if decls { None } else { Some(format!("p{}", n - 1)) });
            if e != Some(want.clone()) { cx.fail(&["C19"], "load-wrong", format!("the annotation reads {:?} instead of {:?}", e, want)); return; }
            for i in sample(r, n) {
                let ok = if decls { d.is_declared(AnnotationType::POS, Some(&format!("s{}", i))) } else { d.get_processor_by_id(&format!("p{}", i)).map_or(false, |p| p.name == format!("n{}", i)) };
                if !ok { cx.fail(&["C19"], "lost", format!("entry {} of the file is not there", i)); return; }
            }
        }
        Err(e) => {
            cx.ev(&format!("a file with {} {}: refused: {}", n, if decls { "declarations" } else { "processors" }, e));
            cx.count("fault_key_space_exhausted");
            if n <= SPACE - 4 { cx.fail(&["C19"], "refused-early", format!("a file with {} entries is refused: {}", n, e)); }
        }
    }
}
