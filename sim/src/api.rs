//! The other ways of asking: every reader and iterator that offers what another one offers must
//! say the same, and what the reference model says.
use crate::core::*;
use crate::model::*;
use crate::prng::Rng;
use crate::query::*;
use crate::tables::*;
use folia::*;
use std::collections::HashMap;

fn keys(m: &Model) -> HashMap<ElementKey, Nid> { m.nodes.iter().enumerate().filter_map(|(i, n)| n.key.map(|k| (k, i))).collect() }
fn squeeze(s: &str) -> String { s.chars().filter(|c| !c.is_ascii_whitespace()).collect() }

pub fn reads(d: &Document, m: &Model, cx: &mut Cx, r: &mut Rng) {
    let live = m.reachable();
    let n = *r.pick(&live);
    let key = |n: Nid| m.nodes[n].key.expect("a key");
    let km = keys(m);
    let nid = |e: &Element| e.key().and_then(|k| km.get(&k).copied()).unwrap_or(usize::MAX);
    let e = match d.get_element(key(n)) { Some(e) => e, None => { cx.fail(&["C06", "C08"], "gone", format!("element #{} is gone", n)); return; } };
    let x = &m.nodes[n];
    cx.count("api_reads");
    match r.below(8) {
        0 => { // the same selection asked for in every way there is
            let mut near = m.descendants(n);
            if near.is_empty() { near = live.clone(); }
            let cs: Vec<Crit> = (0..1 + r.below(2)).map(|_| Crit::draw(r, m, &near)).collect();
            let rec = Rec::draw(r, m, &near);
            let refs = r.pct(60);
            let start = if r.pct(30) { 0 } else { n };
            cx.ev(&format!("the same selection in every way: below #{} where {:?} {:?} {}", start, cs, rec, refs));
            let sel = |d: &Document| -> Option<Selector> { let mut v: Vec<Selector> = cs.iter().filter_map(|c| c.selector(d).ok()).collect(); let mut s = v.pop()?; while let Some(x) = v.pop() { s = x.and(s); } Some(s) };
            let s = match sel(d) { Some(s) => s, None => return };
            let it = |i: SelectItem| format!("{} {:?}", i.parent_key, i.data);
            let e = match d.get_element(key(start)) { Some(e) => e, None => return };
            let a: Vec<String> = d.select_data_by_key(key(start), s.clone(), rec.real(), false, refs).map(it).collect();
            let mut other: Vec<(&str, Vec<String>)> = vec![("Element::select_data_by_key", e.select_data_by_key(key(start), s.clone(), rec.real(), false, refs).map(it).collect()), ("Element::select_data", e.select_data(s.clone(), rec.real(), refs).map(it).collect())];
            if start == 0 { other.push(("Document::select_data", d.select_data(s.clone(), rec.real(), refs).map(it).collect())); }
            for (w, o) in &other { if *o != a { cx.fail(&["C08"], "api-select", format!("{} gives {} items, Document::select_data_by_key {}", w, o.len(), a.len())); return; } }
            let el = |e: SelectElementsItem| nid(&e);
            let a: Vec<Nid> = d.select_by_key(key(start), s.clone(), rec.real(), false, true).map(el).collect();
            let mut other: Vec<(&str, Vec<Nid>)> = vec![("Element::select_by_key", e.select_by_key(key(start), s.clone(), rec.real(), false, true).map(el).collect()), ("Element::select", e.select(s.clone(), rec.real()).map(el).collect())];
            if start == 0 { other.push(("Document::select", d.select(s.clone(), rec.real()).map(el).collect())); }
            for (w, o) in &other { if *o != a { cx.fail(&["C08"], "api-select", format!("{} gives {:?}, Document::select_by_key {:?}", w, o, a)); return; } }
        }
        1 => { // elements of a type, their first, ancestors of a type
            let below = m.descendants(n);
            if !below.is_empty() {
                let c = *r.pick(&below);
                let et = m.nodes[c].et;
                let set = match m.set(c) { Some(s) if r.pct(60) => Cmp::Is(s.to_string()), _ => Cmp::Any };
                let rec = Rec::draw(r, m, &below);
                let mut cr = Crit::any();
                cr.et = Some(et); cr.set = set.clone();
                if row(et).at.is_none() { cr.set = Cmp::Any; } // (a feature’s set is that of its context, which these do not ask for)
                cx.ev(&format!("elements {:?} {:?} below #{} {:?}", et, cr.set, n, rec));
                let (w, ws) = expected(m, n, &[cr.clone()], &rec, false, true);
                let got: Vec<Nid> = e.get_elements(et, cr.set.clone(), rec.real()).map(|x| nid(&x)).collect();
                let mut gs: Vec<Nid> = got.iter().copied().filter(|n| is_span(m.nodes[*n].et)).collect(); gs.sort();
                let g: Vec<Nid> = got.iter().copied().filter(|n| !is_span(m.nodes[*n].et)).collect();
                let w: Vec<Nid> = w.into_iter().filter_map(|h| if let Hit::El(n) = h { Some(n) } else { None }).collect();
                if g != w || gs != ws { cx.fail(&["C08"], "api-elements", format!("{:?} {:?} below #{}: expected {:?} {:?}, got {:?}", et, cr.set, n, w, ws, got)); return; }
                let first = e.get_element(et, cr.set.clone(), rec.real()).map(|x| nid(&x));
                if first != got.first().copied() { cx.fail(&["C08"], "api-elements", format!("the first {:?} below #{}: {:?} of {:?}", et, n, first, got)); return; }
            }
            let anc = m.ancestors(n);
            if !anc.is_empty() {
                let a = *r.pick(&anc);
                let et = m.nodes[a].et;
                let set = match m.set(a) { Some(s) if row(et).at.is_some() && r.pct(60) => Cmp::Is(s.to_string()), _ => Cmp::Any };
                let ok = |x: &Nid| m.nodes[*x].et == et && match &set { Cmp::Is(s) => m.set(*x) == Some(s.as_str()), _ => true };
                let want: Vec<Nid> = anc.iter().copied().filter(ok).collect();
                cx.ev(&format!("ancestors {:?} {:?} of #{}", et, set, n));
                let got: Vec<Nid> = e.get_ancestors(et, set.clone()).map(|x| nid(&x)).collect();
                if got != want { cx.fail(&["C08"], "api-ancestors", format!("{:?} {:?} of #{}: expected {:?}, got {:?}", et, set, n, want, got)); return; }
                let got = e.get_ancestor(et, set).map(|x| nid(&x));
                if got != want.first().copied() { cx.fail(&["C08"], "api-ancestors", format!("nearest {:?} of #{}: expected {:?}, got {:?}", et, n, want, got)); }
            }
        }
        2 => { // the keys behind what is read
            cx.ev(&format!("keys of #{}", n));
            let dec = e.declaration_key().and_then(|k| d.get_declaration(k));
            if dec.and_then(|x| x.set.as_deref()) != e.set() || dec.and_then(|x| x.set.as_deref()) != m.set(n) { cx.fail(&["C10"], "api-keys", format!("declaration of #{}: {:?}, set {:?}", n, dec.map(|x| &x.set), e.set())); return; }
            if let Some(dec) = dec {
                let id = Declaration::index_id(dec.annotationtype, &dec.set.as_deref());
                if d.get_declaration_key_by_id(&id) != e.declaration_key() || d.get_declaration_by_id(&id).map(|x| (x.annotationtype, &x.set)) != Some((dec.annotationtype, &dec.set)) { cx.fail(&["C10"], "api-keys", format!("declaration {:?} is found under {:?}", id, d.get_declaration_key_by_id(&id))); return; }
                if !d.is_declared(dec.annotationtype, dec.set.as_deref()) { cx.fail(&["C10"], "is-declared", format!("#{} uses {:?} {:?}, which is said not to be declared", n, dec.annotationtype, dec.set)); return; }
                if let Some(ck) = e.class_key() {
                    let (back, fwd) = if e.subset_key().is_some() { (dec.get_subclass(ck), x.class.as_ref().and_then(|c| dec.subclass_key(c))) } else { (dec.get_class(ck), x.class.as_ref().and_then(|c| dec.class_key(c))) };
                    if back != x.class.as_deref() || fwd != Some(ck) { cx.fail(&["C10"], "api-keys", format!("class of #{}: {:?} (key {} leads to {:?}, class to {:?})", n, x.class, ck, back, fwd)); return; }
                } else if x.class.is_some() { cx.fail(&["C10"], "api-keys", format!("#{} has no class key", n)); return; }
                if let Some(sk) = e.subset_key() { if dec.get_subset(sk) != x.subset.as_deref() || x.subset.as_ref().and_then(|s| dec.subset_key(s)) != Some(sk) { cx.fail(&["C10"], "api-keys", format!("subset of #{}: {:?}", n, x.subset)); return; } }
            }
            let p = e.processor_key().and_then(|k| d.get_processor(k)).map(|p| p.id.clone());
            if p != x.proc.map(|p| m.procs[p].id.clone()) { cx.fail(&["C11"], "api-keys", format!("processor key of #{} leads to {:?}", n, p)); return; }
            if e.processor_key() != p.as_ref().and_then(|p| d.get_processor_key_by_id(p)) { cx.fail(&["C11"], "api-keys", format!("processor {:?} of #{} has two keys", p, n)); return; }
            if let Some(p) = &p { if d.get_processor_by_id(p).map(|q| (&q.id, &q.name)) != e.get_processor().map(|q| (&q.id, &q.name)) { cx.fail(&["C11"], "api-keys", format!("processor {:?} by identifier is another one", p)); return; } }
        }
        3 => { // by itself
            let indent = *r.pick(&[0usize, 2, 4]);
            cx.ev(&format!("the XML of #{}", n));
            let (part, whole) = match (e.xml(indent), d.xml(key(n), indent)) { (Ok(a), Ok(b)) => (a, String::from_utf8_lossy(&b).into_owned()), (a, b) => { cx.fail(&["C01", "C13"], "save-refused", format!("element #{} by itself: {:?} {:?}", n, a.err(), b.err())); return; } };
            let (p, w) = (squeeze(&part), squeeze(&whole));
            if !w.contains(&p) || !p.starts_with(&format!("<{}", row(x.et).tag)) { cx.fail(&["C01", "C13"], "partial-save", format!("element #{} writes itself as {}, the document writes it as {}", n, part.chars().take(300).collect::<String>(), whole.chars().rev().take(300).collect::<String>().chars().rev().collect::<String>())); return; }
            if e.xml(indent).ok().as_ref() != Some(&part) { cx.fail(&["C13"], "save-differs", format!("element #{} written twice differs", n)); }
        }
        4 => { // its place
            cx.ev(&format!("the place of #{}", n));
            let p = e.get_parent().map(|p| nid(&p));
            if p != x.parent { cx.fail(&["C06"], "api-place", format!("the parent of #{}: expected {:?}, got {:?}", n, x.parent, p)); return; }
            if let Some(p) = x.parent {
                let pe = match d.get_element(key(p)) { Some(p) => p, None => return };
                let i = e.get_index();
                let at = i.and_then(|i| pe.elementdata().get_data_at(i));
                if at != Some(&DataType::Element(key(n))) || i != pe.elementdata().index(&DataType::Element(key(n))) { cx.fail(&["C06"], "api-place", format!("#{} is at {:?} of #{}, where there is {:?}", n, i, p, at)); return; }
                let before = (0..i.unwrap()).filter(|j| matches!(pe.elementdata().get_data_at(*j), Some(DataType::Element(_)))).count();
                if m.children(p).iter().position(|c| *c == n) != Some(before) { cx.fail(&["C06"], "api-place", format!("#{} is child {} of #{}, expected {:?}", n, before, p, m.children(p).iter().position(|c| *c == n))); return; }
            } else if e.get_index().is_some() { cx.fail(&["C06"], "api-place", format!("#{} has no parent but an index", n)); return; }
            let again = d.get_element(key(n));
            let other = *r.pick(&live);
            if again != Some(e) || (d.get_element(key(other)) == Some(e)) != (other == n) { cx.fail(&["C06"], "api-equal", format!("#{} equals another element", n)); return; }
            let gone = m.nodes.len() as ElementKey + 5_000_000;
            if d.get_element(gone).is_some() || d.get_element_by_id("no such element").is_some() || d.get_element_key_by_id("no such element").is_some() { cx.fail(&["C06"], "api-place", "an element that never was is found".into()); }
        }
        5 => { // its text, by keys
            let class = *r.pick(&["current", "current", "ocr", "a & b"]);
            let retain = r.pct(30);
            let n = if r.pct(50) { n } else { let st: Vec<Nid> = live.iter().copied().filter(|n| is_structure(m.nodes[*n].et)).collect(); *r.pick(&st) };
            let e = match d.get_element(key(n)) { Some(e) => e, None => return };
            cx.ev(&format!("the text of #{} by keys, {:?} {}", n, class, retain));
            let set = if r.pct(80) { DEFAULT_TEXT_SET } else { crate::gen::OTHER_TEXT_SET };
            let tp = TextParameters::new().set(set).textclass(class).retaintokenisation(retain);
            let want = m.text(n, &Some(set.to_string()), Some(class), retain);
            let got = e.text(&tp).ok();
            if got != want { cx.fail(&["C09"], "text", format!("of #{} {:?} (class {:?} retain {}): expected {:?}, got {:?}", n, m.nodes[n].et, class, retain, want, got)); return; }
            if let Some(dk) = d.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::TEXT, &Some(set))) {
                if let Some(ck) = d.get_declaration(dk).and_then(|x| x.class_key(class)) {
                    let by = d.text_by_key(key(n), dk, ck, true, retain).ok();
                    let by2 = e.text_by_key(dk, ck, true, retain, None).ok();
                    if by != want || by2 != want { cx.fail(&["C09"], "text", format!("of #{} by keys: {:?} and {:?} instead of {:?}", n, by, by2, want)); return; }
                } else if want.is_some() { cx.fail(&["C10"], "api-keys", format!("text class {:?} is unknown, though there is such text", class)); return; }
            }
            let dflt = m.text(n, &Some(DEFAULT_TEXT_SET.to_string()), Some("current"), false);
            use std::fmt::Write;
            let mut shown = String::new();
            let ok = write!(&mut shown, "{}", e).is_ok();
            if ok != dflt.is_some() || ok && Some(&shown) != dflt.as_ref() { cx.fail(&["C09"], "text-shown", format!("#{} displays as {:?}, its text is {:?}", n, shown, dflt)); return; }
            if d.text(m.nodes.len() as ElementKey + 5_000_000, &tp).is_ok() { cx.fail(&["C09"], "text", "an element that never was has text".into()); }
        }
        6 => { // layers
            let st: Vec<Nid> = live.iter().copied().filter(|n| m.children(*n).iter().any(|c| is_layer(m.nodes[*c].et) && m.set(*c).is_some())).collect();
            if st.is_empty() { return; }
            let n = *r.pick(&st);
            let ls: Vec<Nid> = m.children(n).into_iter().filter(|c| is_layer(m.nodes[*c].et) && m.set(*c).is_some()).collect();
            let l = *r.pick(&ls);
            let (at, set) = match (row(m.nodes[l].et).at, m.set(l)) { (Some(a), Some(s)) => (a, s.to_string()), _ => return };
            let set = if r.pct(80) { set } else { "no such set".to_string() };
            cx.ev(&format!("the {:?} layer {:?} of #{}", at, set, n));
            let lt = match arow(at).layer { Some(l) => l, None => return };
            let want = m.children(n).into_iter().find(|c| m.nodes[*c].et == lt && m.nodes[*c].dec.is_some() && m.dec_exact(row(lt).at.unwrap(), &Some(set.clone())) == m.nodes[*c].dec);
            match d.get_layer_key(key(n), at, Some(&set)) {
                Ok(g) => { let g = g.map(|k| km.get(&k).copied().unwrap_or(usize::MAX)); if g != want { cx.fail(&["C15"], "api-layer", format!("the {:?} layer {:?} of #{}: expected {:?}, got {:?}", at, set, n, want, g)); } }
                Err(e) => cx.fail(&["C15"], "api-layer", format!("{}", e)),
            }
        }
        _ => { // attributes
            cx.ev(&format!("attributes of #{}", n));
            for a in &x.attrs {
                let t = a.attribtype();
                if e.attrib(t) != Some(a) && format!("{:?}", e.attrib(t)) != format!("{:?}", Some(a)) { cx.fail(&["C01"], "api-attrib", format!("#{}: {:?} instead of {:?}", n, e.attrib(t), a)); return; }
                if !e.has_attrib(t) { cx.fail(&["C01"], "api-attrib", format!("#{} is said to have no {:?}", n, t)); return; }
            }
            if let Some(Attribute::Confidence(c)) = x.attrs.iter().find(|a| matches!(a, Attribute::Confidence(_))) { if e.elementdata().confidence() != Some(*c) { cx.fail(&["C01", "C08"], "api-attrib", format!("confidence of #{}: {:?}", n, e.elementdata().confidence())); return; } }
            if e.elementdata().id() != x.id.as_deref() { cx.fail(&["C06"], "api-attrib", format!("identifier of #{}: {:?}", n, e.elementdata().id())); return; }
            if e.elementdata().idref() != m.idref(n) { cx.fail(&["C15"], "api-attrib", format!("reference of #{}: {:?}", n, e.elementdata().idref())); }
        }
    }
}
