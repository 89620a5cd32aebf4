//! An independent, strict reader of FoLiA XML: what a saved document says to anyone who reads it by
//! the rules of XML. Used to judge what the library writes without the library reading it.
use crate::model::*;
use crate::tables::*;
use folia::{Attribute, ElementType, ProcessorType};

pub const NS: &str = "http://ilk.uvt.nl/folia";
const XML: &str = "http://www.w3.org/XML/1998/namespace";
const XLINK: &str = "http://www.w3.org/1999/xlink";

pub struct El { ns: String, name: String, attrs: Vec<(String, String, String)>, kids: Vec<Kid> }
enum Kid { El(El), Text(String), Comment(String) }

struct P<'a> { s: &'a str, i: usize, scope: Vec<(String, String)> }

fn name_start(c: char) -> bool { c.is_alphabetic() || c == '_' || c == ':' || c as u32 > 0x7f }
fn name_char(c: char) -> bool { name_start(c) || c.is_numeric() || c == '-' || c == '.' }
fn xml_char(c: char) -> bool { matches!(c, '\t' | '\n' | '\r') || (c >= ' ' && c != '\u{fffe}' && c != '\u{ffff}') }

impl<'a> P<'a> {
    fn err<T>(&self, m: &str) -> R<T> { let mut a = self.i.saturating_sub(60); while !self.s.is_char_boundary(a) { a -= 1; } let mut b = (self.i + 40).min(self.s.len()); while !self.s.is_char_boundary(b) { b += 1; } Err(format!("{} at offset {}: …{}…", m, self.i, &self.s[a..b])) }
    fn at(&self, x: &str) -> bool { self.s[self.i..].starts_with(x) }
    fn take(&mut self, x: &str) -> bool { if self.at(x) { self.i += x.len(); true } else { false } }
    fn want(&mut self, x: &str) -> R<()> { if self.take(x) { Ok(()) } else { self.err(&format!("expected {:?}", x)) } }
    fn peek(&self) -> Option<char> { self.s[self.i..].chars().next() }
    fn space(&mut self) -> bool { let i = self.i; while let Some(c) = self.peek() { if matches!(c, ' ' | '\t' | '\n' | '\r') { self.i += 1 } else { break } } self.i > i }
    fn name(&mut self) -> R<String> {
        let i = self.i;
        match self.peek() { Some(c) if name_start(c) => self.i += c.len_utf8(), _ => return self.err("expected a name") }
        while let Some(c) = self.peek() { if name_char(c) { self.i += c.len_utf8() } else { break } }
        Ok(self.s[i..self.i].to_string())
    }
    fn until(&mut self, x: &str) -> R<&'a str> { match self.s[self.i..].find(x) { Some(n) => { let t = &self.s[self.i..self.i + n]; self.i += n + x.len(); Ok(t) } None => self.err(&format!("no {:?}", x)) } }
    fn reference(&mut self) -> R<char> {
        self.want("&")?;
        let at = self.i;
        let n = self.until(";")?;
        let c = match n {
            "lt" => Some('<'), "gt" => Some('>'), "amp" => Some('&'), "quot" => Some('"'), "apos" => Some('\''),
            n => if let Some(h) = n.strip_prefix("#x") { u32::from_str_radix(h, 16).ok().and_then(std::char::from_u32) } else if let Some(d) = n.strip_prefix('#') { d.parse().ok().and_then(std::char::from_u32) } else { None },
        };
        match c { Some(c) if xml_char(c) => Ok(c), _ => { self.i = at; self.err("no such reference") } }
    }
    fn comment(&mut self) -> R<String> {
        self.want("<!--")?;
        let c = self.until("-->")?;
        if c.contains("--") || c.ends_with('-') { return self.err("-- within a comment"); }
        Ok(c.to_string())
    }
    fn pi(&mut self) -> R<()> { self.want("<?")?; let n = self.name()?; if n.eq_ignore_ascii_case("xml") { return self.err("XML declaration in a strange place"); } self.until("?>")?; Ok(()) }
    fn resolve(&self, q: &str, attr: bool) -> R<(String, String)> {
        match q.split_once(':') {
            None if attr => Ok((String::new(), q.to_string())),
            None => Ok((self.scope.iter().rev().find(|s| s.0.is_empty()).map(|s| s.1.clone()).unwrap_or_default(), q.to_string())),
            Some(("xml", n)) => Ok((XML.to_string(), n.to_string())),
            Some((p, n)) => match self.scope.iter().rev().find(|s| s.0 == p) { Some(s) if !n.contains(':') => Ok((s.1.clone(), n.to_string())), _ => self.err(&format!("undeclared prefix {:?}", q)) },
        }
    }
    fn element(&mut self, depth: usize) -> R<El> {
        if depth > 3000 { return self.err("too deep"); }
        self.want("<")?;
        let q = self.name()?;
        let mark = self.scope.len();
        let mut raw: Vec<(String, String)> = vec![];
        let empty = loop {
            let sp = self.space();
            if self.take("/>") { break true; }
            if self.take(">") { break false; }
            if !sp { return self.err("expected white space"); }
            let n = self.name()?;
            self.space(); self.want("=")?; self.space();
            let quote = match self.peek() { Some(c @ '"') | Some(c @ '\'') => c, _ => return self.err("expected a quote") };
            self.i += 1;
            let mut v = String::new();
            loop {
                match self.peek() {
                    None => return self.err("unfinished attribute"),
                    Some(c) if c == quote => { self.i += 1; break }
                    Some('<') => return self.err("< within an attribute"),
                    Some('&') => v.push(self.reference()?),
                    Some(c) if !xml_char(c) => return self.err("not an XML character"),
                    Some(c) => { self.i += c.len_utf8(); v.push(c) /* not normalised: the library writes them as they are, and reads them so */ }
                }
            }
            if raw.iter().any(|x| x.0 == n) { return self.err(&format!("attribute {:?} twice", n)); }
            raw.push((n, v));
        };
        for (n, v) in &raw { if n == "xmlns" { self.scope.push((String::new(), v.clone())) } else if let Some(p) = n.strip_prefix("xmlns:") { self.scope.push((p.to_string(), v.clone())) } }
        let mut attrs = vec![];
        for (n, v) in raw { if n != "xmlns" && !n.starts_with("xmlns:") { let (ns, n) = self.resolve(&n, true)?; attrs.push((ns, n, v)); } }
        let (ns, name) = self.resolve(&q, false)?;
        let mut e = El { ns, name, attrs, kids: vec![] };
        while !empty {
            if self.at("</") { self.i += 2; let n = self.name()?; if n != q { return self.err(&format!("<{}> closed by </{}>", q, n)); } self.space(); self.want(">")?; break; }
            if self.at("<!--") { let c = self.comment()?; e.kids.push(Kid::Comment(c)); continue; }
            if self.at("<?") { self.pi()?; continue; }
            let piece = if self.take("<![CDATA[") { self.until("]]>")?.to_string() }
                else if self.at("<") { let k = self.element(depth + 1)?; e.kids.push(Kid::El(k)); continue; }
                else if self.at("&") { self.reference()?.to_string() }
                else {
                    let i = self.i;
                    while let Some(c) = self.peek() { if c == '<' || c == '&' { break } if !xml_char(c) { return self.err("not an XML character"); } self.i += c.len_utf8(); }
                    if self.i >= self.s.len() { return self.err(&format!("<{}> is not closed", q)); }
                    let t = &self.s[i..self.i];
                    if t.contains("]]>") { return self.err("]]> within text"); }
                    t.to_string() // line ends likewise
                };
            if let Some(Kid::Text(t)) = e.kids.last_mut() { t.push_str(&piece) } else { e.kids.push(Kid::Text(piece)) }
        }
        self.scope.truncate(mark);
        Ok(e)
    }
    fn misc(&mut self) -> R<()> { loop { self.space(); if self.at("<!--") { self.comment()?; } else if self.at("<?") { self.pi()?; } else { return Ok(()) } } }
}
pub fn parse(b: &[u8]) -> R<El> {
    let s = std::str::from_utf8(b).map_err(|e| format!("not UTF-8: {}", e))?;
    let mut p = P { s, i: 0, scope: vec![] };
    if p.at("<?xml ") { let d = p.until("?>")?; if d.contains("encoding") && !d.to_ascii_lowercase().contains("utf-8") { return p.err("declared in another encoding"); } }
    p.misc()?;
    let e = p.element(0)?;
    p.misc()?;
    if p.i < s.len() { return p.err("something after the root element"); }
    Ok(e)
}

impl El {
    fn get(&self, ns: &str, n: &str) -> Option<&str> { self.attrs.iter().find(|a| a.0 == ns && a.1 == n).map(|a| a.2.as_str()) }
    fn only(&self, known: &[&str]) -> R<()> {
        for (ns, n, _) in &self.attrs { let q = if ns == XML { format!("xml:{}", n) } else if ns.is_empty() { n.clone() } else { format!("{{{}}}{}", ns, n) }; if !known.contains(&q.as_str()) { return Err(format!("<{}> has an attribute {} it should not have", self.name, q)); } }
        Ok(())
    }
    /// Child elements, where nothing else but layout may stand.
    fn elements(&self) -> R<Vec<&El>> {
        let mut v = vec![];
        for k in &self.kids { match k { Kid::El(e) => { if e.ns != NS { return Err(format!("<{}> in <{}> is not a FoLiA element", e.name, self.name)); } v.push(e) } Kid::Text(t) if !t.trim().is_empty() => return Err(format!("text {:?} directly in <{}>", t, self.name)), _ => {} } }
        Ok(v)
    }
    fn text(&self) -> R<String> {
        let mut o = String::new();
        for k in &self.kids { match k { Kid::Text(t) => o += t, Kid::El(e) => return Err(format!("<{}> in <{}>", e.name, self.name)), _ => {} } }
        Ok(o)
    }
}
fn own(e: &El, n: &str) -> Option<String> { e.get("", n).map(|s| s.to_string()) }
fn ptype(s: &str) -> R<ProcessorType> { Ok(match s { "auto" => ProcessorType::Auto, "manual" => ProcessorType::Manual, "generator" => ProcessorType::Generator, "datasource" => ProcessorType::DataSource, x => return Err(format!("processor type {:?}", x)) }) }
fn processor(e: &El) -> R<ProcSpec> {
    e.only(&["xml:id", "name", "type", "version", "folia_version", "document_version", "command", "host", "user", "begindatetime", "enddatetime", "src", "format", "resourcelink"])?;
    let f = |n: &str| own(e, n).unwrap_or_default();
    let time = |n: &str| -> R<Option<String>> { match own(e, n) { None => Ok(None), Some(t) => if datetime(&t).is_some() { Ok(Some(t)) } else { Err(format!("{} {:?}", n, t)) } } };
    let t = ptype(own(e, "type").as_deref().unwrap_or("auto"))?;
    let mut data = MMeta::default();
    for c in e.elements()? { if c.name == "meta" { meta(c, &mut data)?; } }
    let p = MProc { id: e.get(XML, "id").ok_or("processor without id")?.to_string(), name: own(e, "name").ok_or("processor without name")?, ptype: PTYPES.iter().position(|x| *x == t).unwrap() as u8, version: f("version"), folia_version: f("folia_version"), document_version: f("document_version"), command: f("command"), host: f("host"), user: f("user"), begin: time("begindatetime")?, end: time("enddatetime")?, src: f("src"), format: f("format"), resourcelink: f("resourcelink"), meta: data.data, subs: vec![], parent: None };
    let mut subs = vec![];
    for c in e.elements()? { if c.name == "meta" { continue; } if c.name != "processor" { return Err(format!("<{}> in <processor>", c.name)); } subs.push(processor(c)?); }
    Ok(ProcSpec { p, subs, existing: vec![] })
}
pub fn datetime(t: &str) -> Option<chrono::NaiveDateTime> {
    let b = t.as_bytes();
    if b.len() != 19 || b[4] != b'-' || b[7] != b'-' || b[10] != b'T' || b[13] != b':' || b[16] != b':' { return None; }
    let n = |a: usize, z: usize| -> Option<u32> { if t[a..z].bytes().all(|c| c.is_ascii_digit()) { t[a..z].parse().ok() } else { None } };
    chrono::NaiveDate::from_ymd_opt(n(0, 4)? as i32, n(5, 7)?, n(8, 10)?)?.and_hms_opt(n(11, 13)?, n(14, 16)?, n(17, 19)?)
}
fn yes(s: &str) -> R<bool> { match s { "yes" | "true" => Ok(true), "no" | "false" => Ok(false), x => Err(format!("neither yes nor no: {:?}", x)) } }
fn attribute(ns: &str, n: &str, v: &str) -> R<Option<Attribute>> {
    let s = v.to_string();
    Ok(Some(match (ns, n) {
        ("", "annotator") => Attribute::Annotator(s), ("", "annotatortype") => Attribute::AnnotatorType(ptype(v)?), ("", "confidence") => Attribute::Confidence(v.parse().map_err(|_| format!("confidence {:?}", v))?),
        ("", "n") => Attribute::N(s), ("", "datetime") => Attribute::DateTime(datetime(v).ok_or(format!("datetime {:?}", v))?), ("", "begintime") => Attribute::BeginTime(s), ("", "endtime") => Attribute::EndTime(s),
        ("", "src") => Attribute::Src(s), ("", "speaker") => Attribute::Speaker(s), ("", "textclass") => Attribute::Textclass(s), ("", "metadata") => Attribute::Metadata(s), ("", "id") => Attribute::Idref(s),
        ("", "space") => Attribute::Space(yes(v)?), ("", "format") => Attribute::Format(s), ("", "t") => Attribute::Text(s), ("", "type") => Attribute::Type(s), ("", "auth") => Attribute::Auth(s),
        ("", "offset") => Attribute::Offset(v.parse().map_err(|_| format!("offset {:?}", v))?), ("", "ref") => Attribute::Ref(s), ("", "original") => Attribute::Original(s), ("", "linenr") => Attribute::LineNr(v.parse().map_err(|_| format!("linenr {:?}", v))?),
        ("", "pagenr") => Attribute::PageNr(s), ("", "newpage") => Attribute::NewPage(yes(v)?), (XLINK, "href") => Attribute::Href(s), (XLINK, "type") => Attribute::XLinkType(s),
        _ => return Ok(None),
    }))
}
/// The name and value under which an attribute is written.
pub fn attr_pair(a: &Attribute) -> (String, String) {
    let yn = |b: &bool| if *b { "yes".to_string() } else { "no".to_string() };
    let pt = |t: &ProcessorType| match t { ProcessorType::Auto => "auto", ProcessorType::Manual => "manual", ProcessorType::Generator => "generator", ProcessorType::DataSource => "datasource" }.to_string();
    let (n, v): (&str, String) = match a {
        Attribute::Annotator(s) => ("annotator", s.clone()), Attribute::AnnotatorType(t) => ("annotatortype", pt(t)), Attribute::Confidence(f) => ("confidence", format!("{}", f)), Attribute::N(s) => ("n", s.clone()),
        Attribute::DateTime(t) => ("datetime", t.format("%Y-%m-%dT%H:%M:%S").to_string()), Attribute::BeginTime(s) => ("begintime", s.clone()), Attribute::EndTime(s) => ("endtime", s.clone()), Attribute::Src(s) => ("src", s.clone()),
        Attribute::Speaker(s) => ("speaker", s.clone()), Attribute::Textclass(s) => ("textclass", s.clone()), Attribute::Metadata(s) => ("metadata", s.clone()), Attribute::Idref(s) => ("id", s.clone()), Attribute::Space(b) => ("space", yn(b)),
        Attribute::Text(s) => ("t", s.clone()), Attribute::Type(s) => ("type", s.clone()), Attribute::Auth(s) => ("auth", s.clone()), Attribute::Offset(n) => ("offset", n.to_string()), Attribute::Ref(s) => ("ref", s.clone()), Attribute::Original(s) => ("original", s.clone()),
        Attribute::LineNr(n) => ("linenr", n.to_string()), Attribute::PageNr(s) => ("pagenr", s.clone()), Attribute::NewPage(b) => ("newpage", yn(b)), Attribute::XLinkType(s) => ("xlink:type", s.clone()), Attribute::Href(s) => ("xlink:href", s.clone()), Attribute::Format(s) => ("format", s.clone()),
        _ => ("", String::new()),
    };
    (n.to_string(), v)
}
fn meta(e: &El, m: &mut MMeta) -> R<()> {
    e.only(&["id"])?;
    let k = own(e, "id").ok_or("meta without id")?;
    if m.data.insert(k.clone(), e.text()?).is_some() { return Err(format!("meta {:?} twice", k)); }
    Ok(())
}
fn element(e: &El) -> R<Spec> {
    if e.ns != NS { return Err(format!("<{}> is not a FoLiA element", e.name)); }
    let r = ROWS.iter().find(|r| r.tag == e.name).ok_or_else(|| format!("no element is called <{}>", e.name))?;
    let mut s = Spec::new(r.et);
    for (ns, n, v) in &e.attrs {
        match (ns.as_str(), n.as_str()) {
            (XML, "id") => s.id = Some(v.clone()),
            ("", "set") => s.set = Some(v.clone()),
            ("", "class") => s.class = Some(v.clone()),
            ("", "subset") => s.subset = Some(v.clone()),
            ("", "processor") => s.proc = Some(v.clone()),
            (ns, n) => match attribute(ns, n, v)? {
                Some(a) => s.attrs.push(a),
                None if ns.is_empty() && crate::xmlw::typed_feature(r.et, n) => { let mut f = Spec::new(ElementType::Feature); f.subset = Some(n.to_string()); f.class = Some(v.clone()); s.items.push(SItem::El(f.text(v))); }
                None => return Err(format!("<{}> has an attribute {:?} it should not have", e.name, n)),
            },
        }
    }
    let blank = !(r.textcontainer || r.phoncontainer);
    for k in &e.kids {
        match k {
            Kid::El(c) => s.items.push(SItem::El(element(c)?)),
            Kid::Comment(c) => s.items.push(SItem::Comment(c.clone())),
            Kid::Text(t) => if !(blank && t.trim().is_empty()) { s.items.push(SItem::Text(t.clone())) },
        }
    }
    Ok(s)
}
/// What a saved document says.
pub fn read(b: &[u8]) -> R<LoadSpec> {
    let root = parse(b)?;
    if root.ns != NS || root.name != "FoLiA" { return Err(format!("the root is {{{}}}{}", root.ns, root.name)); }
    root.only(&["xml:id", "version", "generator"])?;
    let mut f = LoadSpec { id: root.get(XML, "id").ok_or("no document id")?.to_string(), ..Default::default() };
    if own(&root, "version").is_none() { return Err("no version".into()); }
    let top = root.elements()?;
    if top.len() != 2 || top[0].name != "metadata" || !matches!(top[1].name.as_str(), "text" | "speech") { return Err(format!("the document consists of {:?}", top.iter().map(|e| &e.name).collect::<Vec<_>>())); }
    top[0].only(&["type", "src"])?;
    f.meta.mtype = own(top[0], "type");
    f.meta.src = own(top[0], "src");
    let (mut seen_a, mut seen_p) = (0, 0);
    for e in top[0].elements()? {
        match e.name.as_str() {
            "annotations" => { seen_a += 1; e.only(&[])?; for d in e.elements()? {
                let at = d.name.strip_suffix("-annotation").and_then(|n| AROWS.iter().find(|a| a.name == n)).ok_or_else(|| format!("<{}> among the declarations", d.name))?.at;
                d.only(&["set", "alias", "format"])?;
                let mut ann = vec![];
                for a in d.elements()? { if a.name != "annotator" { return Err(format!("<{}> in a declaration", a.name)); } a.only(&["processor"])?; ann.push(own(a, "processor").ok_or("annotator without processor")?); }
                let (set, alias, format) = (own(d, "set"), own(d, "alias"), own(d, "format"));
                if f.decs.iter().any(|x| x.0 == at && x.1 == set) { return Err(format!("{:?} {:?} declared twice", at, set)); }
                f.decs.push((at, set, alias, format, ann));
            } }
            "provenance" => { seen_p += 1; e.only(&[])?; for p in e.elements()? { if p.name != "processor" { return Err(format!("<{}> in <provenance>", p.name)); } f.procs.push(processor(p)?); } }
            "meta" => meta(e, &mut f.meta)?,
            "submetadata" => {
                e.only(&["xml:id", "type", "src"])?;
                let mut m = MMeta { mtype: own(e, "type"), src: own(e, "src"), ..Default::default() };
                for x in e.elements()? { if x.name != "meta" { return Err(format!("<{}> in <submetadata>", x.name)); } meta(x, &mut m)?; }
                let id = e.get(XML, "id").ok_or("submetadata without id")?.to_string();
                if f.sub.insert(id.clone(), m).is_some() { return Err(format!("submetadata {:?} twice", id)); }
            }
            x => return Err(format!("<{}> in <metadata>", x)),
        }
    }
    if seen_a > 1 || seen_p > 1 { return Err("several sections of annotations or provenance".into()); }
    f.body = element(top[1])?;
    Ok(f)
}
