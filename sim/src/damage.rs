//! What storage faults and faulty producers do to files; and using whatever still loads.
use crate::core::*;
use crate::prng::{hash_bytes, hash_str, mix2, Rng};
use crate::query::GROUPS;
use crate::snap::*;
use crate::tables::*;
use folia::*;

fn spans_of(b: &[u8], open: u8, close: u8) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let mut start = None;
    for (i, c) in b.iter().enumerate() { if *c == open { start = Some(i); } else if *c == close { if let Some(s) = start.take() { v.push((s, i + 1)); } } }
    v
}
fn tags(b: &[u8]) -> Vec<(usize, usize)> { spans_of(b, b'<', b'>') }
/// (start of name, end of name, start of value, end of value) of attributes
fn attrs(b: &[u8]) -> Vec<(usize, usize, usize, usize)> {
    let mut v = vec![];
    for (s, e) in tags(b) {
        let mut i = s;
        while i < e {
            if b[i] == b'=' && i + 1 < e && (b[i + 1] == b'"' || b[i + 1] == b'\'') {
                let q = b[i + 1];
                let mut n = i;
                while n > s && !b[n - 1].is_ascii_whitespace() { n -= 1; }
                let mut x = i + 2;
                while x < e && b[x] != q { x += 1; }
                if x < e { v.push((n, i, i + 2, x)); }
                i = x + 1;
            } else { i += 1; }
        }
    }
    v
}
fn splice(b: &mut Vec<u8>, s: usize, e: usize, with: &[u8]) { b.splice(s..e, with.iter().copied()); }

const JUNK: [&str; 30] = ["", " ", "-1", "65536", "99999999999999999999", "NaN", "inf", "1e999", "0x10", "é\u{301}", "&", "&amp;", "&nosuch;", "&#0;", "&#xD800;", "&#99999999;", "<", "]]>", "yes", "2020-13-45T99:99:99", "2020-01-01T00:00:00", "1969-12-31T23:59:60", "current", "manual", "\u{0}", "a b\tc\nd", "xml:id", "word", "https://example.org/s", "ﬀ"];
const ODD: [&str; 38] = ["<w>", "</w>", "<w/>", "<t>x</t>", "<t/>", "<s xml:id=\"x\"><w/></s>", "<nosuch/>", "<folia:w/>", "<wref id=\"?\"/>", "<wref/>", "<correction><new/><original/></correction>", "<!DOCTYPE x [<!ENTITY a \"b\">]>", "<![CDATA[x]]>", "<!-- -->", "<!--", "<?x y?>", "<?xml version=\"1.0\" encoding=\"latin1\"?>", "&", "&lt;", "&unknown;", "<metadata/>", "<annotations><pos-annotation/></annotations>", "<provenance><processor/></provenance>", "<feat/>", "<FoLiA>", "</FoLiA>", "<!-- a--b -->", "<!-- ends --->", "\r\n", "<w></w >", "<![CDATA[ ]]>", "<t>\n </t>", "<t>a<!-- c -->b</t>", "<comment>\n</comment>", "&#32;", "&#xD;", "<!DOCTYPE FoLiA>", "<t><![CDATA[<&]]></t>"];

const TYPED: [&[u8]; 12] = [b"offset", b"linenr", b"confidence", b"datetime", b"begindatetime", b"enddatetime", b"space", b"newpage", b"annotatortype", b"type", b"version", b"pagenr"];
/// Something odd, often legal, next to a tag.
pub fn oddity(b: &mut Vec<u8>, r: &mut Rng) -> String {
    let t = tags(b);
    if t.is_empty() { return "nothing".into(); }
    let (s, e) = *r.pick(&t);
    let x = *r.pick(&ODD);
    let at = if r.pct(50) { s } else { e };
    splice(b, at, at, x.as_bytes());
    format!("inserted {:?} next to a tag at {}", x, at)
}
/// One injury. The first word of the description names its kind.
pub fn damage(b: &mut Vec<u8>, r: &mut Rng) -> String {
    if b.is_empty() { b.push(r.below(256) as u8); return "byte into the empty file".into(); }
    let n = b.len();
    match r.below(28) {
        0 => { let k = 1 + r.below(4); for _ in 0..k { let i = r.below(n); b[i] ^= 1 << r.below(8); } format!("bitflip x{}", k) }
        1 => { let i = r.below(n); let c = r.below(256) as u8; b[i] = c; format!("byte {} := {:#x}", i, c) }
        2 => { let s = r.below(n); let e = (s + 1 + r.below(*r.clone().pick(&[1, 8, 64, 600]))).min(n); b.drain(s..e); format!("lost {}..{}", s, e) }
        3 => { let s = r.below(n); let e = (s + 1 + r.below(*r.clone().pick(&[8, 64, 600]))).min(n); let x = b[s..e].to_vec(); let at = if r.pct(50) { e } else { r.below(n) }; splice(b, at, at, &x); format!("duplicated {}..{} at {}", s, e, at) }
        4 => { let (s, l) = (r.below(n), 1 + r.below(200)); let e = (s + l).min(n); let t = r.below(n); let x: Vec<u8> = b.drain(s..e).collect(); let t = t.min(b.len()); splice(b, t, t, &x); format!("reordered {}..{} to {}", s, e, t) }
        5 => { let s = r.below(n) / 64 * 64; let e = (s + 64 * (1 + r.below(4))).min(n); for x in &mut b[s..e] { *x = 0; } format!("zeroed {}..{}", s, e) }
        6 => { let i = r.below(n + 1); let x: &[u8] = *r.pick(&[&b"\xff"[..], b"\xc3", b"\xed\xa0\x80", b"\xfe\xff", b"\x80\x80", b"\xf0\x9f\x98", b"\0"]); splice(b, i, i, x); format!("encoding at {}: {:x?}", i, x) }
        7 => { let i = r.below(n + 1); let x = *r.pick(&ODD); splice(b, i, i, x.as_bytes()); format!("inserted {:?} at {}", x, i) }
        8 | 9 => { let t = tags(b); if t.is_empty() { return "nothing".into(); } let (s, e) = *r.pick(&t); let x = *r.pick(&ODD); let at = if r.pct(50) { s } else { e }; splice(b, at, at, x.as_bytes()); format!("inserted {:?} next to a tag at {}", x, at) }
        10 => { let t = tags(b); if t.is_empty() { return "nothing".into(); } let (s, e) = *r.pick(&t); let x = String::from_utf8_lossy(&b[s..e]).into_owned(); b.drain(s..e); format!("tag lost {}", x) }
        11 => { let t = tags(b); if t.is_empty() { return "nothing".into(); } let (s, e) = *r.pick(&t); let x = b[s..e].to_vec(); splice(b, e, e, &x); format!("tag doubled {}", String::from_utf8_lossy(&x)) }
        12 => { let t = tags(b); if t.len() < 2 { return "nothing".into(); } let (s1, e1) = *r.pick(&t); let (s2, e2) = *r.pick(&t); let x = b[s1..e1].to_vec(); splice(b, s2, e2, &x); format!("tag overwritten {} by {}", s2, String::from_utf8_lossy(&x)) }
        13 | 14 => { // another name
            let t = tags(b);
            if t.is_empty() { return "nothing".into(); }
            let (s, e) = *r.pick(&t);
            let ns = if b[s + 1] == b'/' { s + 2 } else { s + 1 };
            let mut ne = ns;
            while ne < e && (b[ne].is_ascii_alphanumeric() || b[ne] == b'-' || b[ne] == b':') { ne += 1; }
            let old = b[ns..ne].to_vec();
            let new = if r.pct(85) { ROWS[r.below(ROWS.len())].tag.to_string() } else { r.pick(&["nosuch", "", "w w", "é", "metadata", "annotations", "FoLiA", "meta", "pos-annotation", "processor", "annotator"]).to_string() };
            // both tags, if it is the name of an element with an end tag close by
            let close = [b"</", &old[..], b">"].concat();
            splice(b, ns, ne, new.as_bytes());
            let mut both = false;
            if ns == s + 1 && r.pct(75) { if let Some(p) = b[s..].windows(close.len()).position(|w| w == &close[..]) { splice(b, s + p + 2, s + p + 2 + old.len(), new.as_bytes()); both = true; } }
            format!("renamed {} at {} to {}{}", String::from_utf8_lossy(&old), s, new, if both { " (both tags)" } else { "" })
        }
        15 => { let a = attrs(b); if a.is_empty() { return "nothing".into(); } let x = *r.pick(&a); let w = String::from_utf8_lossy(&b[x.0..x.1]).into_owned(); b.drain(x.0..x.3 + 1); format!("attribute lost {}", w) }
        16 => { let a = attrs(b); if a.is_empty() { return "nothing".into(); } let x = *r.pick(&a); let mut t = vec![b' ']; t.extend_from_slice(&b[x.0..x.3 + 1]); let w = String::from_utf8_lossy(&t).into_owned(); splice(b, x.3 + 1, x.3 + 1, &t); format!("attribute doubled{}", w) }
        17 | 18 | 19 => { let a = attrs(b); if a.is_empty() { return "nothing".into(); } let mut x = *r.pick(&a);
            // values that are not just text are worth more
            if r.pct(40) { let p: Vec<_> = a.iter().copied().filter(|x| TYPED.contains(&&b[x.0..x.1])).collect(); if !p.is_empty() { x = *r.pick(&p); } } let j = if r.pct(3) { "x".repeat(100_000) } else { r.pick(&JUNK).to_string() }; let w = String::from_utf8_lossy(&b[x.0..x.1]).into_owned(); splice(b, x.2, x.3, j.as_bytes()); format!("value of {} at {} := {:?}", w, x.0, &j[..j.len().min(40)].to_string()) }
        20 => { let a = attrs(b); if a.len() < 2 { return "nothing".into(); } let x = *r.pick(&a); let y = *r.pick(&a); let v = b[y.2..y.3].to_vec(); let w = String::from_utf8_lossy(&b[x.0..x.1]).into_owned(); splice(b, x.2, x.3, &v); format!("value of {} at {} := that of another, {:?}", w, x.0, String::from_utf8_lossy(&v)) }
        21 => { let a = attrs(b); if a.is_empty() { return "nothing".into(); } let x = *r.pick(&a); let t: &str = *r.pick(&["id", "xml:id", "set", "class", "subset", "processor", "space", "confidence", "datetime", "linenr", "offset", "annotatortype", "typegroup", "newpage", "version", "xmlns", "begindatetime", "type", "head", "é"]); let w = String::from_utf8_lossy(&b[x.0..x.1]).into_owned(); splice(b, x.0, x.1, t.as_bytes()); format!("attribute renamed {} at {} to {}", w, x.0, t) }
        22 => { // same kind of attribute: references and identifiers crossed
            let a = attrs(b);
            let ids: Vec<_> = a.iter().copied().filter(|x| b[x.0..x.1].ends_with(b"id")).collect();
            if ids.len() < 2 { return "nothing".into(); }
            let x = *r.pick(&ids); let y = *r.pick(&ids);
            let v = b[y.2..y.3].to_vec();
            splice(b, x.2, x.3, &v);
            format!("identifier at {} := {:?}", x.0, String::from_utf8_lossy(&v))
        }
        23 => { // a subtree moves elsewhere or is doubled
            let t = tags(b);
            if t.len() < 4 { return "nothing".into(); }
            let i = r.below(t.len());
            let (s, _) = t[i];
            let mut depth = 0i32;
            let mut e = None;
            for (ts, te) in &t[i..] { let x = &b[*ts..*te]; if x.starts_with(b"</") { depth -= 1; } else if !x.ends_with(b"/>") && !x.starts_with(b"<!") && !x.starts_with(b"<?") { depth += 1; } if depth <= 0 { e = Some(*te); break; } }
            let e = match e { Some(e) => e, None => return "nothing".into() };
            let x = b[s..e].to_vec();
            let keep = r.pct(50);
            if !keep { b.drain(s..e); }
            let t = tags(b);
            if t.is_empty() { return "nothing".into(); }
            let at = r.pick(&t).1;
            let mut y = x.clone();
            if keep && r.pct(70) { if let Some(p) = y.windows(7).position(|w| w == b"xml:id=") { y[p + 6] = b'='; let q = p + 8; if q < y.len() { y.insert(q, b'Z'); } } }
            splice(b, at, at, &y);
            format!("subtree {} of {} bytes {} to {}", s, x.len(), if keep { "copied" } else { "moved" }, at)
        }
        26 | 27 => { // an attribute more
            let t: Vec<_> = tags(b).into_iter().filter(|t| b[t.0 + 1].is_ascii_alphabetic()).collect();
            if t.is_empty() { return "nothing".into(); }
            let (s, e) = *r.pick(&t);
            let mut ne = s + 1;
            while ne < e - 1 && (b[ne].is_ascii_alphanumeric() || b[ne] == b'-' || b[ne] == b':') { ne += 1; }
            let n = if r.pct(70) { String::from_utf8_lossy(r.pick(&TYPED)).into_owned() } else { r.pick(&["id", "xml:id", "set", "class", "subset", "processor", "n", "head", "xlink:href", "typegroup", "src", "metadata"]).to_string() };
            let v = *r.pick(&JUNK);
            let x = format!(" {}=\"{}\"", n, v);
            splice(b, ne, ne, x.as_bytes());
            format!("attribute added {} at {}", x, ne)
        }
        24 => { // nesting
            let t = tags(b);
            if t.is_empty() { return "nothing".into(); }
            let (_, e) = *r.pick(&t);
            let mut k = *r.pick(&[10, 100, 100, 2_000, 2_000, 8_000]);
            let tag = *r.pick(&["w", "s", "div", "t-style", "su", "correction", "x", "entity", "processor", "metadata", "foreign-data"]);
            let named = tag == "processor" && r.pct(70);
            if named { k = k.min(4_000); }
            let mut x = if named { (0..k).map(|i| format!("<processor xml:id=\"deep.{}\" name=\"deep\">", i)).collect::<String>() } else { format!("<{}>", tag).repeat(k) };
            if r.pct(70) { x.push_str(&format!("</{}>", tag).repeat(k)); }
            splice(b, e, e, x.as_bytes());
            format!("nested <{}> {} deep at {}", tag, k, e)
        }
        _ => { // the file in another encoding
            let s = String::from_utf8_lossy(b).into_owned();
            match r.below(3) {
                0 => { *b = s.encode_utf16().flat_map(|u| u.to_le_bytes().to_vec()).collect(); "transcoded to UTF-16".into() }
                1 => { *b = s.chars().map(|c| if (c as u32) < 256 { c as u32 as u8 } else { b'?' }).collect(); "transcoded to Latin-1".into() }
                _ => { let mut x = vec![0xEF, 0xBB, 0xBF]; x.extend_from_slice(b); *b = x; "transcoded: byte order mark".into() }
            }
        }
    }
}

/// Reading, querying, text extraction and saving: none may fail to return.
pub fn exercise(d: &Document, cx: &mut Cx, r: &mut Rng) -> u64 {
    crate::scen::set_current("use");
    let real = Real::new(d, &[0]);
    let order = real.order.clone();
    let mut h = 0;
    for (k, v) in real.snap() { h = mix2(h, k as u64); for l in v { h = mix2(h, hash_str(&l)); } }
    crate::scen::set_current("select");
    let mut picks: Vec<ElementKey> = vec![0];
    for _ in 0..12 { picks.push(*r.pick(&order)); }
    let many = order.len() > 3000;
    let mut each = if many { order.len() / 12 } else { 1 };
    // Looking for text takes the library work quadratic in the nesting: deep documents are asked about few elements.
    let mut depth: std::collections::HashMap<ElementKey, usize> = Default::default();
    let mut deepest = 1;
    for k in &order {
        let x = d.get_element(*k).and_then(|e| e.get_parent().and_then(|p| p.key())).and_then(|p| depth.get(&p).cloned()).unwrap_or(0) + 1;
        if x > deepest { deepest = x; }
        depth.insert(*k, x);
    }
    let calls = std::cmp::max(2, 30_000_000 / (deepest * deepest));
    if order.len() / each > calls { each = order.len() / calls; }
    for (i, k) in picks.iter().enumerate() {
        if many && i > 1 { break; }
        for refs in [true, false].iter() {
            h = mix2(h, d.select_data_by_key(*k, Selector::all_data(), Recursion::Always, i % 2 == 0, *refs).count() as u64);
            h = mix2(h, d.select_by_key(*k, Selector::elements(), Recursion::No, false, *refs).count() as u64);
        }
        let g = *r.pick(&GROUPS);
        if let Ok(s) = Selector::from_query(d, &Query::select().elementgroup(Cmp::Is(g))) { h = mix2(h, d.select_by_key(*k, s, Recursion::Always, false, true).count() as u64); }
        for q in [Query::select().class(Cmp::Some), Query::select().processor(Cmp::Some), Query::select().annotator(Cmp::Some), Query::select().confidence(Cmp::Some), Query::select().subset(Cmp::Some), Query::select().set(Cmp::None)].iter() {
            if let Ok(s) = Selector::from_query(d, q) { h = mix2(h, d.select_by_key(*k, s, Recursion::Always, false, true).count() as u64); }
        }
    }
    crate::scen::set_current("accessors");
    for (i, k) in order.iter().enumerate() {
        if i % each != 0 { continue; }
        let e = match d.get_element(*k) { Some(e) => e, None => continue };
        let _ = (e.attrib(AttribType::CONFIDENCE).is_some(), e.attrib(AttribType::DATETIME).is_some(), e.resolve().is_some(), e.get_parent().is_some(), e.set(), e.class(), e.subset(), e.processor(), e.annotator(), e.annotatortype(), e.text(&TextParameters::default()).is_ok());
        h = mix2(h, e.ancestors(Selector::elements()).count() as u64);
        for a in [AnnotationType::POS, AnnotationType::ENTITY, AnnotationType::TOKEN].iter() { h = mix2(h, e.get_annotations(*a, Cmp::Any, Recursion::Always).take(5).count() as u64); }
        h = mix2(h, e.get_features(Cmp::Some).count() as u64);
    }
    crate::scen::set_current("text");
    for (i, k) in order.iter().enumerate() {
        if i % each != 0 { continue; }
        for p in [TextParameters::default(), TextParameters::default().textclass("ocr").retaintokenisation(true)].iter() { if let Ok(t) = d.text(*k, p) { h = mix2(h, hash_str(&t)); } }
    }
    crate::scen::set_current("save");
    for indent in [0usize, 4].iter() {
        match d.xml(0, *indent) { Ok(b) => h = mix2(h, hash_bytes(&b)), Err(e) => { cx.fail(&["C05"], "save-refused", format!("a document that was loaded cannot be saved: {}", e)); return h; } }
    }
    crate::scen::set_current("use");
    h
}
