//! An independent writer of FoLiA XML with all the freedom the XML syntax gives.
use crate::model::*;
use crate::prng::Rng;
use crate::tables::*;
use folia::{Attribute, ElementType};

pub struct Style { prefix: &'static str, pretty: bool, tight: bool, r: Rng, odd: u64 }

fn esc(s: &str, attr: Option<char>, st: &mut Style) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str(if st.r.chance(st.odd, 100) { "&#38;" } else { "&amp;" }),
            '<' => o.push_str(if st.r.chance(st.odd, 100) { "&#x3c;" } else { "&lt;" }),
            '>' => o.push_str("&gt;"),
            '"' if attr == Some('"') || st.r.chance(st.odd, 100) => o.push_str("&quot;"),
            '\'' if attr == Some('\'') || st.r.chance(st.odd, 100) => o.push_str("&apos;"),
            '\t' | '\n' | '\r' if attr.is_some() => o.push_str(&format!("&#{};", c as u32)),
            '\r' => o.push_str("&#13;"),
            c if st.r.chance(st.odd, 1000) => o.push_str(&format!("&#x{:X};", c as u32)),
            c => o.push(c),
        }
    }
    o
}
fn at(o: &mut String, name: &str, v: &str, st: &mut Style) {
    let q = if st.r.chance(st.odd, 100) { '\'' } else { '"' };
    o.push_str(if st.r.chance(st.odd, 200) { "\n  " } else { " " });
    let eq = if st.r.chance(st.odd, 300) { " = " } else { "=" };
    let v = esc(v, Some(q), st);
    o.push_str(&format!("{}{}{}{}{}", name, eq, q, v, q));
}
/// What a reader of FoLiA has to pass over: attributes of other vocabularies, and old ones
fn alien(o: &mut String, old: &[&str], st: &mut Style) {
    if !st.r.chance(st.odd, 300) { return; }
    let k = st.r.below(4 + old.len());
    let n = if k < 4 { ["alien:thing", "xml:lang", "xml:space", "xlink:title"][k] } else { old[k - 4] };
    at(o, n, if n == "xml:space" { "preserve" } else { "nl" }, st);
}
fn nl(o: &mut String, depth: usize, st: &mut Style) {
    if st.pretty { o.push('\n'); for _ in 0..depth { o.push_str("  "); } }
    else if !st.tight && st.r.chance(1, 2) { o.push('\n'); }
}
fn open(o: &mut String, tag: &str, st: &Style) { o.push('<'); o.push_str(st.prefix); o.push_str(tag); }
fn close(o: &mut String, tag: &str, st: &mut Style) { o.push_str("</"); o.push_str(st.prefix); o.push_str(tag); if st.r.chance(st.odd, 500) { o.push(' '); } o.push('>'); }
fn noise(o: &mut String, st: &mut Style) {
    if !st.r.chance(st.odd, 400) { return; }
    match st.r.below(3) { 0 => o.push_str("<!-- <noise> & more -->"), 1 => o.push_str("<?pi some=\"thing\"?>"), _ => o.push_str("\n\t \n") }
}


fn processor(o: &mut String, p: &ProcSpec, depth: usize, st: &mut Style) {
    nl(o, depth, st);
    open(o, "processor", st);
    let x = &p.p;
    at(o, "xml:id", &x.id, st);
    at(o, "name", &x.name, st);
    if x.ptype != 0 || st.r.chance(1, 2) { at(o, "type", PTYPES[x.ptype as usize].as_str(), st); }
    let begin = x.begin.clone().unwrap_or_default();
    let end = x.end.clone().unwrap_or_default();
    for (n, v) in [("version", &x.version), ("folia_version", &x.folia_version), ("document_version", &x.document_version), ("command", &x.command), ("host", &x.host), ("user", &x.user), ("begindatetime", &begin), ("enddatetime", &end), ("src", &x.src), ("format", &x.format), ("resourcelink", &x.resourcelink)] {
        if !v.is_empty() { at(o, n, v, st); }
    }
    if p.subs.is_empty() && x.meta.is_empty() { if st.r.chance(1, 2) { o.push_str("/>"); } else { o.push('>'); close(o, "processor", st); } return; }
    o.push('>');
    let data = MMeta { data: x.meta.clone(), ..Default::default() };
    let at = st.r.below(p.subs.len() + 1); // among the subprocessors
    for (i, s) in p.subs.iter().enumerate() { if i == at { meta(o, &data, depth + 1, st); } processor(o, s, depth + 1, st); }
    if at == p.subs.len() { meta(o, &data, depth + 1, st); }
    nl(o, depth, st);
    close(o, "processor", st);
}
fn meta(o: &mut String, m: &MMeta, depth: usize, st: &mut Style) {
    for (k, v) in &m.data {
        nl(o, depth, st);
        noise(o, st);
        open(o, "meta", st);
        let early = st.r.chance(1, 2);
        if early { alien(o, &[], st); }
        at(o, if st.r.chance(st.odd, 400) { "xml:id" } else { "id" }, k, st);
        if !early { alien(o, &[], st); }
        if v.is_empty() && st.r.chance(1, 2) { o.push_str("/>"); continue; }
        o.push('>');
        text(o, v, true, st);
        close(o, "meta", st);
    }
}
fn text(o: &mut String, t: &str, parts: bool, st: &mut Style) {
    if st.r.chance(st.odd, 300) && !t.contains("]]>") && !t.is_empty() { o.push_str("<![CDATA["); o.push_str(t); o.push_str("]]>"); return; }
    let n = t.chars().count();
    if parts && n > 2 && st.r.chance(st.odd, 400) { // in three pieces
        let k = 1 + st.r.below(n - 2);
        let j = k + 1 + st.r.below(n - k - 1);
        let (a, b, c): (String, String, String) = (t.chars().take(k).collect(), t.chars().take(j).skip(k).collect(), t.chars().skip(j).collect());
        if !b.contains("]]>") && !a.trim().is_empty() && !b.trim().is_empty() && !c.trim().is_empty() { let (a, c) = (esc(&a, None, st), esc(&c, None, st)); o.push_str(&a); o.push_str("<![CDATA["); o.push_str(&b); o.push_str("]]>"); o.push_str(&c); return; }
    }
    if parts && n > 1 && st.r.chance(st.odd, 300) {
        let k = 1 + st.r.below(n - 1);
        let (a, b): (String, String) = (t.chars().take(k).collect(), t.chars().skip(k).collect());
        // a blank piece would count as layout where text is not mixed with elements
        if !a.contains("]]>") && !a.trim().is_empty() && !b.trim().is_empty() { o.push_str("<![CDATA["); o.push_str(&a); o.push_str("]]>"); o.push_str(&esc(&b, None, st)); return; }
    }
    o.push_str(&esc(t, None, st));
}
pub fn typed_feature(et: ElementType, subset: &str) -> bool { row(et).accepts.iter().any(|a| G_FEATURE.contains(a) && row(*a).subset == Some(subset)) }

fn element(o: &mut String, s: &Spec, depth: usize, mixed: bool, st: &mut Style) {
    let r = row(s.et());
    if !mixed { nl(o, depth, st); }
    open(o, r.tag, st);
    let mut attrs: Vec<(String, String)> = vec![];
    if let Some(x) = &s.id { attrs.push(("xml:id".into(), x.clone())); }
    for (n, v) in [("set", &s.set), ("class", &s.class), ("subset", &s.subset), ("processor", &s.proc)] { if let Some(v) = v { attrs.push((n.into(), v.clone())); } }
    for a in &s.attrs {
        let (n, mut v) = crate::xmlr::attr_pair(a);
        if let Attribute::Space(b) | Attribute::NewPage(b) = a { if st.r.chance(st.odd, 200) { v = if *b { "true".into() } else { "false".into() }; } }
        attrs.push((n, v));
    }
    // leading features that can be written as attributes
    let mut skip = 0;
    while let Some(SItem::El(f)) = s.items.get(skip) {
        let sub = match (&f.subset, f.et()) { (Some(x), ElementType::Feature) => x.clone(), _ => break };
        let class = match &f.class { Some(c) => c.clone(), None => break };
        let plain = f.id.is_none() && f.set.is_none() && f.proc.is_none() && f.attrs.is_empty();
        let one = f.items.len() == 1 && matches!(&f.items[0], SItem::Text(t) if *t == class);
        if !(plain && one && typed_feature(s.et(), &sub)) || attrs.iter().any(|a| a.0 == sub) || !st.r.chance(3, 4) { break; }
        attrs.push((sub, class));
        skip += 1;
    }
    let base = attrs.len() - skip;
    if st.r.chance(st.odd, 200) && base > 1 { let k = st.r.below(base); attrs[..base].rotate_left(k); }
    if st.r.chance(st.odd, 600) { attrs.push(("typegroup".into(), "structure".into())); }
    if st.r.chance(st.odd, 600) { attrs.push(("alien:thing".into(), "x".into())); }
    for (n, v) in &attrs { at(o, n, v, st); }
    let items = &s.items[skip..];
    if items.is_empty() { if st.r.chance(2, 3) { o.push_str("/>"); } else { o.push('>'); close(o, r.tag, st); } return; }
    o.push('>');
    let holds = r.textcontainer || r.phoncontainer || s.items.iter().any(|i| matches!(i, SItem::Text(_)));
    for i in items {
        match i {
            SItem::El(c) => element(o, c, depth + 1, holds, st),
            SItem::Text(t) => text(o, t, true, st),
            SItem::Comment(t) => { if !holds { nl(o, depth + 1, st); } o.push_str("<!--"); o.push_str(t); o.push_str("-->"); }
            SItem::Existing(_) => {}
        }
    }
    if !holds { nl(o, depth, st); }
    close(o, r.tag, st);
}

pub fn write(f: &LoadSpec, seed: u64) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let odd = *r.pick(&[0, 0, 20, 60]);
    let mut st = Style { prefix: if r.chance(1, 6) { "folia:" } else { "" }, pretty: r.chance(1, 2), tight: r.chance(1, 3), odd, r };
    let s = &mut st;
    let mut o = String::new();
    if s.r.chance(3, 4) { o.push_str("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n"); }
    noise(&mut o, s);
    open(&mut o, "FoLiA", s);
    let ns = if s.prefix.is_empty() { "xmlns" } else { "xmlns:folia" };
    let odd = std::mem::replace(&mut s.odd, 0); // the XML library takes namespaces verbatim
    at(&mut o, ns, "http://ilk.uvt.nl/folia", s);
    at(&mut o, "xmlns:xlink", "http://www.w3.org/1999/xlink", s);
    at(&mut o, "xmlns:alien", "urn:alien", s);
    s.odd = odd;
    if !f.id.is_empty() { at(&mut o, "xml:id", &f.id, s); }
    let version = *s.r.pick(&["2.4.0", "2.4.0", "2.4.0", "2.4", "2.0.3", "1.5.1", "2.5.0"]);
    at(&mut o, "version", version, s);
    alien(&mut o, &["generator"], s);
    o.push('>');
    nl(&mut o, 1, s);
    open(&mut o, "metadata", s);
    if let Some(x) = &f.meta.mtype { at(&mut o, "type", x, s); }
    if let Some(x) = &f.meta.src { at(&mut o, "src", x, s); }
    alien(&mut o, &[], s);
    let empty = f.decs.is_empty() && f.procs.is_empty() && f.meta.data.is_empty() && f.sub.is_empty();
    if empty && s.r.chance(1, 2) { o.push_str("/>"); }
    else {
        o.push('>');
        noise(&mut o, s);
        let (before, mut annotations, mut provenance) = (s.r.chance(1, 6), String::new(), String::new());
        if !f.decs.is_empty() || s.r.chance(1, 2) {
            nl(&mut annotations, 2, s);
            open(&mut annotations, "annotations", s); annotations.push('>');
            for (at_, set, alias, format, ann) in &f.decs {
                nl(&mut annotations, 3, s);
                noise(&mut annotations, s);
                let tag = format!("{}-annotation", arow(*at_).name);
                open(&mut annotations, &tag, s);
                if let Some(x) = set { at(&mut annotations, "set", x, s); }
                if let Some(x) = alias { at(&mut annotations, "alias", x, s); }
                if let Some(x) = format { at(&mut annotations, "format", x, s); }
                alien(&mut annotations, &["annotator", "annotatortype"], s);
                if ann.is_empty() { if s.r.chance(1, 2) { annotations.push_str("/>"); } else { annotations.push('>'); close(&mut annotations, &tag, s); } continue; }
                annotations.push('>');
                for a in ann { open(&mut annotations, "annotator", s); at(&mut annotations, "processor", a, s); alien(&mut annotations, &[], s); if s.r.chance(1, 4) { annotations.push('>'); close(&mut annotations, "annotator", s); } else { annotations.push_str("/>"); } }
                close(&mut annotations, &tag, s);
            }
            nl(&mut annotations, 2, s);
            close(&mut annotations, "annotations", s);
        }
        if !f.procs.is_empty() || s.r.chance(1, 2) {
            nl(&mut provenance, 2, s);
            open(&mut provenance, "provenance", s); provenance.push('>');
            for p in &f.procs { processor(&mut provenance, p, 3, s); }
            nl(&mut provenance, 2, s);
            close(&mut provenance, "provenance", s);
        }
        if before { o.push_str(&provenance); o.push_str(&annotations); } else { o.push_str(&annotations); o.push_str(&provenance); }
        let first = s.r.chance(1, 4);
        if !first { meta(&mut o, &f.meta, 2, s); }
        for (k, m) in &f.sub {
            nl(&mut o, 2, s);
            open(&mut o, "submetadata", s);
            at(&mut o, "xml:id", k, s);
            if let Some(x) = &m.mtype { at(&mut o, "type", x, s); }
            if let Some(x) = &m.src { at(&mut o, "src", x, s); }
            alien(&mut o, &[], s);
            if m.data.is_empty() && s.r.chance(1, 2) { o.push_str("/>"); continue; }
            o.push('>');
            meta(&mut o, m, 3, s);
            nl(&mut o, 2, s);
            close(&mut o, "submetadata", s);
        }
        if first { meta(&mut o, &f.meta, 2, s); }
        nl(&mut o, 1, s);
        close(&mut o, "metadata", s);
    }
    noise(&mut o, s);
    element(&mut o, &f.body, 1, false, s);
    nl(&mut o, 0, s);
    close(&mut o, "FoLiA", s);
    if s.r.chance(1, 2) { o.push('\n'); }
    o.into_bytes()
}
