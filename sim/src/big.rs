//! Large documents of ordinary nesting on a small stack.
use crate::core::*;
use crate::prng::{hash_bytes, hash_str, Rng};
use crate::scen::*;
use crate::{snap, sys};
use folia::*;
use std::fmt::Write;

fn put(o: &mut String, s: &str) { o.push_str(s) }

/// A document of about n elements of one of several shapes; returns its text, and the number of words.
pub fn build(n: usize, r: &mut Rng) -> (String, usize, &'static str) {
    let mut o = String::with_capacity(n * 60);
    put(&mut o, "<?xml version=\"1.0\"?>\n<FoLiA xmlns=\"http://ilk.uvt.nl/folia\" xml:id=\"big\" version=\"2.4.0\"><metadata><annotations><token-annotation/><sentence-annotation/><paragraph-annotation/><text-annotation set=\"https://raw.githubusercontent.com/proycon/folia/master/setdefinitions/text.foliaset.ttl\"/><pos-annotation set=\"pos\"/><entity-annotation set=\"ner\"/><lemma-annotation set=\"lemma\"/></annotations></metadata><text xml:id=\"big.text\">");
    let mut words = 0;
    let shape = r.below(8);
    let name = match shape {
        0 => { put(&mut o, "<s xml:id=\"s\">"); while words < n / 2 { let _ = write!(o, "<w xml:id=\"w{}\"><t>x{}</t></w>", words, words); words += 1; } put(&mut o, "</s>"); "words in one sentence" }
        1 => { while words < n / 3 { let _ = write!(o, "<s xml:id=\"s{}\"><w xml:id=\"w{}\"><t>x</t></w></s>", words, words); words += 1; } "sentences" }
        2 => { put(&mut o, "<s><w xml:id=\"w0\"><t>x</t></w>"); for i in 0..n { let _ = write!(o, "<!-- comment {} -->", i); } put(&mut o, "<w xml:id=\"w1\"><t>y</t></w></s>"); words = 2; "comments" }
        3 => { put(&mut o, "<s xml:id=\"s\"><w xml:id=\"w0\"><t>x</t></w><entities>"); for i in 0..n / 2 { let _ = write!(o, "<entity xml:id=\"e{}\" class=\"c{}\"><wref id=\"w0\"/></entity>", i, i % 7); } put(&mut o, "</entities></s>"); words = 1; "spans over one word" }
        4 => { put(&mut o, "<s xml:id=\"s\">"); for i in 0..n / 4 { let _ = write!(o, "<w xml:id=\"w{}\"><t>x</t></w>", i); } words = n / 4; put(&mut o, "<entities><entity xml:id=\"e\" class=\"c\">"); for i in 0..n / 4 { let _ = write!(o, "<wref id=\"w{}\"/>", i); } put(&mut o, "</entity></entities></s>"); "one span over all words" }
        5 => { put(&mut o, "<p><s><t>"); for i in 0..n { let _ = write!(o, "<t-style class=\"b\">x{}</t-style> ", i); } put(&mut o, "</t></s></p>"); "markup in one text" }
        6 => { while words < n / 12 { let _ = write!(o, "<p xml:id=\"p{0}\"><s xml:id=\"s{0}\"><w xml:id=\"w{0}\" space=\"no\"><t>x{0}</t><pos class=\"N\" set=\"pos\"><feat subset=\"a\" class=\"b\"/></pos><lemma class=\"x\" set=\"lemma\"/></w><entities><entity class=\"c\"><wref id=\"w{0}\"/></entity></entities></s></p>", words); words += 1; } "paragraphs" }
        _ => { put(&mut o, "<s>"); while words < n / 2 { let _ = write!(o, "<!--c--><w xml:id=\"w{}\"/>", words); words += 1; } put(&mut o, "</s>"); "textless words" }
    };
    put(&mut o, "</text></FoLiA>");
    (o, words, name)
}

pub fn run(p: &Plan, cx: &mut Cx) {
    let mut r = Rng::new(p.seed ^ 0xb16);
    now(cx, 0, "load");
    let (x, words, shape) = build(p.size as usize, &mut r);
    cx.ev(&format!("{} bytes: {}; {} words; stack of {} KiB", x.len(), shape, words, stack_for("C18") >> 10));
    cx.count(&format!("shape_{}", shape.replace(' ', "_")));
    cx.state(hash_str(shape) ^ p.size);
    let d = if r.pct(50) { Document::from_str(&x, DocumentProperties::default()) } else { load_file(x.as_bytes(), sys::FilePlan { default_max: 4096, ..Default::default() }, "big") };
    let mut d = match d { Ok(d) => d, Err(e) => { cx.fail(&["C18"], "load-refused", format!("{}: {}", shape, e)); return; } };
    let total = crate::session::len(&d);
    let mut entities = x.matches("<entity ").count();
    drop(x);
    for (i, st) in p.steps.iter().enumerate() {
        now(cx, i + 1, &st.op);
        let mut r = Rng::new(st.seed);
        cx.count(&format!("op_{}", st.op));
        let note = match st.op.as_str() {
            "load" | "save" => {
                let b = match d.xml(0, *r.pick(&[0usize, 1, 4])) { Ok(b) => b, Err(e) => { cx.fail(&["C18"], "save-refused", format!("{}", e)); return; } };
                if st.op == "load" {
                    match load_file(&b, Default::default(), "again") { Ok(x) => { if crate::session::len(&x) != crate::session::len(&d) { cx.fail(&["C18"], "elements-lost", format!("{} elements, {} after a restart", crate::session::len(&d), crate::session::len(&x))); return; } d = x; } Err(e) => { cx.fail(&["C18"], "load-refused", format!("{}", e)); return; } }
                }
                format!("{:x}", hash_bytes(&b))
            }
            "query" => {
                let refs = r.pct(60);
                let which = r.below(10);
                let q = match which {
                    0 => Query::select().element(Cmp::Is(ElementType::Gap)),
                    1 => Query::select().element(Cmp::Is(ElementType::Word)),
                    2 => Query::select().element(Cmp::Is(ElementType::Entity)).set(Cmp::Is("ner".into())),
                    3 => Query::select().elementgroup(Cmp::Is(ElementGroup::Structure)),
                    4 => Query::select().element(Cmp::Is(ElementType::Entity)).set(Cmp::Is("no such set".into())),
                    5 => Query::select().class(Cmp::Some),
                    6 => Query::select().processor(Cmp::Some),
                    7 => Query::select().element(Cmp::Is(ElementType::TextContent)),
                    8 => Query::select().confidence(Cmp::Is(0.5)),
                    _ => Query::select().elementgroup(Cmp::Is(ElementGroup::Layer)),
                };
                let key = if r.pct(60) { 0 } else { r.below(total.min(50)) as ElementKey };
                let rec = if r.pct(80) { Recursion::Always } else { Recursion::No };
                match r.below(6) {
                    4 => format!("{} elements among all", d.select_by_key(key, Selector::all_data(), rec, true, refs).count()),
                    5 => format!("{} elements among texts", d.select_by_key(key, Selector::default().with_text(), rec, false, refs).count()),
                    0 => format!("{} items", d.select_data_by_key(key, Selector::all_data(), rec, true, refs).count()),
                    1 => format!("{} texts", d.select_data_by_key(key, Selector::default().with_text(), rec, false, refs).count()),
                    _ => match Selector::from_query(&d, &q) { Ok(s) => {
                        let n = d.select_by_key(key, s, rec.clone(), false, refs).count();
                        let want = match which { 0 | 4 | 8 => Some(0), 1 => Some(words), 2 => Some(entities), _ => None };
                        if let (0, Recursion::Always, Some(want)) = (key, &rec, want) { if n != want { cx.fail(&["C18", "C08"], "items-lost", format!("{} of {} elements found", n, want)); return; } }
                        format!("{} elements", n)
                    }, Err(e) => { cx.fail(&["C18"], "query-refused", format!("{}", e)); return; } },
                }
            }
            "text" => { let mut h = 0; for k in [0, 1, 2, total as ElementKey - 1].iter() { if let Ok(t) = d.text(*k, &TextParameters::default().retaintokenisation(r.pct(30))) { h ^= hash_str(&t); } } format!("{:x}", h) }
            "up" => {
                let mut n = 0;
                for _ in 0..300 { let k = r.below(total) as ElementKey; if let Some(e) = d.get_element(k) { n += e.ancestors(Selector::elements()).count(); n += e.get_annotations(AnnotationType::ENTITY, Cmp::Any, Recursion::Always).take(3).count(); let _ = e.resolve().is_some(); } }
                let keys: Vec<ElementKey> = (0..200).map(|_| r.below(total) as ElementKey).collect();
                n += d.common_ancestors(Selector::elements(), &keys).len();
                format!("{}", n)
            }
            _ => { // keep annotating
                let ids: Vec<String> = (0..50).map(|_| format!("w{}", r.below(words.max(1)))).collect();
                let mut n = 0;
                for (j, id) in ids.iter().enumerate() {
                    let k = match d.get_element_key_by_id(id) { Some(k) => k, None => continue };
                    let e = match j % 3 { 0 => ElementData::new(ElementType::PosAnnotation).with_attrib(Attribute::Set("pos".into())).with_attrib(Attribute::Class("V".into())), 1 => ElementData::new(ElementType::Description).with(DataType::Text("x".into())), _ => ElementData::new(ElementType::Entity).with_attrib(Attribute::Set("ner".into())).with_attrib(Attribute::Class("p".into())).add_element(ElementData::new(ElementType::WordReference).with_attrib(Attribute::Idref(id.clone()))) };
                    let res = if j % 3 == 2 { d.annotate_span(e) } else { d.annotate(k, e) };
                    if j % 3 == 2 && res.is_ok() { entities += 1; }
                    match res { Ok(_) => n += 1, Err(e) => { cx.fail(&["C18"], "edit-refused", format!("{}", e)); return; } }
                }
                format!("{} annotations", n)
            }
        };
        cx.ev(&format!("{}: {}", st.op, note));
    }
    now(cx, p.steps.len() + 1, "drop");
    let v = snap::structural(&d);
    if let Some(x) = v.first() { cx.fail(&["C18"], "structure", x.msg.clone()); }
    cx.add("elements", crate::session::len(&d) as u64);
}
