//! One user's session with one document: operations resolved against the reference model,
//! performed on the real document, compared afterwards.
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::prng::{hash_bytes, hash_str, mix2, Rng};
use crate::snap::*;
use crate::sys;
use crate::tables::*;
use crate::scen::load_file;
use crate::{api, query, xmlr, xmlw};
use folia::*;

pub struct Session { pub d: Document, pub m: Model, pub k: Knobs, pub next: usize, pub procs: Vec<String>, pub restarts: u32, pub saved: Vec<u64>, pub name: String, pub roomy: bool, pub judged: std::cell::Cell<u64> }

pub fn len(d: &Document) -> usize { <Document as Store<ElementData, ElementKey>>::len(d) }

/// How the disk behaves while a file is read back: legal, if unhelpful.
pub fn benign_plan(r: &mut Rng) -> sys::FilePlan {
    let mut p = sys::FilePlan::default();
    match r.below(5) {
        0 => {}
        1 => p.default_max = *r.pick(&[1u32, 2, 3, 7, 64, 1000]),
        2 => p.intr_every = 1 + r.range(1, 6) as u32,
        3 => { for _ in 0..r.below(40) { p.script.push(if r.pct(25) { sys::Act::Intr } else { sys::Act::Max(1 + r.below(*r.clone().pick(&[1usize, 10, 200])) as u32) }); } p.default_max = *r.pick(&[0u32, 13, 512]); }
        _ => { p.default_max = 1 + r.below(300) as u32; p.intr_every = 2 + r.below(9) as u32; }
    }
    if r.pct(10) { p.open_errs.push(sys::EINTR); }
    p.pipe = r.pct(15);
    p
}

fn spec_of(m: &Model, n: Nid) -> Spec { let x = &m.nodes[n]; let mut s = Spec::new(x.et); s.class = x.class.clone(); s.set = m.set(n).map(|s| s.to_string()); s }
fn brief(s: &Spec) -> String {
    let mut o = format!("{:?}", s.et());
    for (n, v) in [("id", &s.id), ("set", &s.set), ("class", &s.class), ("subset", &s.subset), ("processor", &s.proc)] { if let Some(v) = v { o.push_str(&format!(" {}={:?}", n, v)); } }
    if !s.attrs.is_empty() { o.push_str(&format!(" {:?}", s.attrs)); }
    if !s.items.is_empty() {
        o.push_str(" [");
        for (i, x) in s.items.iter().enumerate() {
            if i > 0 { o.push_str(", "); }
            match x { SItem::El(c) => o.push_str(&brief(c)), SItem::Text(t) => o.push_str(&format!("{:?}", t)), SItem::Comment(t) => o.push_str(&format!("<!--{:?}-->", t)), SItem::Existing(n) => o.push_str(&format!("#{}", n)) }
        }
        o.push(']');
    }
    o
}
fn strip_refs(s: &mut Spec) { s.items.retain(|i| !matches!(i, SItem::El(c) if c.et() == ElementType::WordReference)); for i in s.items.iter_mut() { if let SItem::El(c) = i { strip_refs(c); } } }
fn has_refs(s: &Spec) -> bool { let mut f = false; s.walk(&mut |x| if x.et() == ElementType::WordReference { f = true; }); f }

pub enum Made { Yes(Session), No }

impl Session {
    pub fn create(cx: &mut Cx, seed: u64, size: u64, name: &str, loaded: bool) -> Option<Session> {
        let mut r = Rng::new(seed);
        let mut k = Knobs::draw(&mut r);
        if size >= 100_000 && r.pct(80) { k.spans = 6; }
        let mut next = 0;
        let mut gr = r.fork("document");
        let mut g = Gen { r: &mut gr, k: k.clone(), next: &mut next, procs: vec![] };
        let (d, m, procs) = if loaded {
            let f = g.file(size as usize);
            let p = g.props(true);
            let procs = g.procs.clone();
            let ws = r.next();
            let bytes = xmlw::write(&f, ws);
            cx.ev(&format!("load {} bytes ({:x}) with {:?}", bytes.len(), hash_bytes(&bytes), p));
            cx.note(&String::from_utf8_lossy(&bytes));
            let m = match Model::load(&f, &p) { Ok(m) => m, Err(e) => { cx.ev(&format!("model refuses the file: {}", e)); cx.count("unloadable_by_model"); return None; } };
            let real = if r.pct(50) {
                Document::from_str(std::str::from_utf8(&bytes).unwrap(), to_props(&p))
            } else {
                let path = format!("/simfs/{}.0.folia.xml", name);
                sys::disk_put(&path, &bytes, benign_plan(&mut r));
                let d = Document::from_file(&path, to_props(&p));
                sys::disk_del(&path);
                d.map(|d| { let ok = d.filename() == Some(path.as_str()); if !ok { cx.fail(&["C03"], "filename", format!("{:?} instead of {:?}", d.filename(), path)); } let mut d = d; d.filename = None; d })
            };
            match real {
                Ok(d) => (d, m, procs),
                Err(e) => { cx.fail(&["C01"], "load-refused", format!("a valid document was refused: {}", e)); return None; }
            }
        } else {
            let p = g.props(false);
            let procs = g.procs.clone();
            cx.ev(&format!("new document with {:?}", p));
            let m = match Model::new("example", &p) { Ok(m) => m, Err(_) => return None };
            match Document::new("example", to_props(&p)) { Ok(d) => (d, m, procs), Err(e) => { cx.fail(&["C06", "C01"], "new-refused", format!("{}", e)); return None; } }
        };
        if m.nodes.len() > 65_536 { cx.count("documents_over_65536_elements"); }
        let mut s = Session { d, m, k, next, procs, restarts: 0, saved: vec![], name: name.to_string(), roomy: false, judged: std::cell::Cell::new(0) };
        let v = compare(&mut s.m, &s.d);
        cx.diffs(&v, Sit::Load);
        s.invariants(cx);
        if cx.stopped() { None } else { Some(s) }
    }
    fn invariants(&mut self, cx: &mut Cx) { let v = structural(&self.d); for d in v.into_iter().take(3) { cx.fail(&["C06"], "structure", d.msg); } }
    fn check(&mut self, cx: &mut Cx, sit: Sit) {
        self.invariants(cx);
        let v = compare(&mut self.m, &self.d);
        cx.diffs(&v, sit);
        if cx.stopped() { return; }
        let h = self.shape();
        cx.state(h);
    }
    /// A digest of the state reached: tree shape, types, declarations, provenance.
    pub fn shape(&self) -> u64 {
        let mut h = 0;
        for n in self.m.reachable() { let x = &self.m.nodes[n]; h = mix2(h, x.et as u64 ^ (x.items.len() as u64) << 16 ^ (x.dec.map_or(0, |d| d as u64 + 1)) << 32 ^ (x.proc.map_or(0, |d| d as u64 + 1)) << 48); }
        for d in &self.m.decs { h = mix2(h, hash_str(&format!("{:?}{:?}{}", d.at, d.set, d.procs.len()))); }
        mix2(h, self.m.procs.len() as u64)
    }
    /// Digest of everything observable.
    pub fn digest(&self) -> u64 {
        let r = Real::new(&self.d, &[0]);
        let mut h = 0;
        for (k, v) in r.snap() { h = mix2(h, k as u64); for l in v { h = mix2(h, hash_str(&l)); } }
        h
    }
    fn rk(&self, n: Nid) -> ElementKey { self.m.nodes.get(n).and_then(|x| x.key).unwrap_or(999_999_999) }
    fn with_gen<T>(&mut self, r: &mut Rng, f: impl FnOnce(&mut Gen) -> T) -> T {
        let mut g = Gen { r, k: self.k.clone(), next: &mut self.next, procs: std::mem::take(&mut self.procs) };
        let t = f(&mut g);
        self.procs = std::mem::take(&mut g.procs);
        t
    }
    fn word_ids(&self) -> Vec<String> { self.m.reachable().into_iter().filter(|n| row(self.m.nodes[*n].et).wrefable).filter_map(|n| self.m.nodes[n].id.clone()).collect() }
    fn words(&self) -> Vec<Nid> { self.m.reachable().into_iter().filter(|n| row(self.m.nodes[*n].et).wrefable && self.m.nodes[*n].id.is_some()).collect() }

    /// May this subtree change place without any reference being left dangling or misattributed?
    fn movable(&self, n: Nid, changes_root: bool) -> bool {
        if n == 0 || self.m.nodes[n].et == ElementType::Feature { return false; }
        let sub: std::collections::BTreeSet<Nid> = std::iter::once(n).chain(self.m.descendants(n)).collect();
        for w in &sub {
            if self.m.nodes[*w].et != ElementType::WordReference { continue; }
            match self.m.ancestors(*w).into_iter().find(|a| is_span(self.m.nodes[*a].et)) { Some(s) if sub.contains(&s) => {} _ => return false }
            if changes_root { match self.m.idref(*w).and_then(|i| self.m.ids.get(i)) { Some(t) if sub.contains(t) => {} _ => return false } }
        }
        if changes_root {
            for s in &sub { for i in &self.m.nodes[*s].items { if let MI::Span(x) = i { if !sub.contains(x) { return false; } } } }
        }
        true
    }

    // ------------------------------------------------------------ performing edits
    fn refused_check(&mut self, cx: &mut Cx, before: &(Vec<u8>, usize), what: &str) {
        cx.count("edits_refused");
        if len(&self.d) != before.1 { cx.fail(&["C07", "C06"], "refused-left-elements", format!("{}: {} elements before, {} after the refused edit", what, before.1, len(&self.d))); }
        self.check(cx, Sit::Refused);
        if cx.stopped() { return; }
        match self.d.xml(0, 2) { Ok(b) => if b != before.0 { cx.fail(&["C07"], "refused-changed-bytes", format!("{}: the document saves differently after a refused edit", what)); }, Err(e) => cx.fail(&["C07", "C01"], "save-refused", format!("{}: {}", what, e)) }
    }
    fn before(&self, cx: &mut Cx) -> Option<(Vec<u8>, usize)> { match self.d.xml(0, 2) { Ok(b) => Some((b, len(&self.d))), Err(e) => { cx.fail(&["C01"], "save-refused", format!("{}", e)); None } } }

    /// Compares the outcomes of an edit, then the states. Returns whether the edit was accepted.
    fn settle<T>(&mut self, cx: &mut Cx, what: &str, real: Result<T, FoliaError>, model: R<()>, sit: Sit, own: &[&str], before: Option<(Vec<u8>, usize)>) -> Option<T> {
        match (real, model) {
            (Ok(t), Ok(())) => { cx.count("edits_accepted"); cx.ev(&format!("{}: done", what)); self.check(cx, sit); Some(t) }
            (Err(e), Err(w)) => { cx.ev(&format!("{}: refused ({})", what, w)); let _ = e; if let Some(b) = before { self.refused_check(cx, &b, what); } None }
            (Ok(_), Err(w)) => { let mut t = own.to_vec(); t.push("C07"); cx.fail(&t, "accepted", format!("{}: accepted although {}", what, w)); None }
            (Err(e), Ok(())) => { let mut t = own.to_vec(); t.push("C07"); cx.fail(&t, "refused", format!("{}: refused: {}", what, e)); None }
        }
    }
    fn op_add_to(&mut self, cx: &mut Cx, parent: Option<Nid>, s: &Spec, annotate: bool, sit: Sit, own: &[&str]) -> bool {
        let what = format!("{} {} to {}", if annotate { "annotate" } else { "add" }, brief(s), parent.map_or("nothing".into(), |p| format!("#{} {:?}", p, self.m.nodes.get(p).map(|n| n.et))));
        cx.ev(&what);
        let mut trial = self.m.clone();
        let model = match (annotate, parent) { (true, Some(p)) => trial.annotate(p, s), _ => trial.add_to(parent, s) };
        let before = if model.is_err() || cx.prop == "C07" { match self.before(cx) { Some(b) => Some(b), None => return false } } else { None };
        let data = to_data(s, &self.m);
        let real = match (annotate, parent) { (true, Some(p)) => self.d.annotate(self.rk(p), data), (_, Some(p)) => self.d.add_element_to(self.rk(p), data), _ => self.d.add_element(data) };
        if model.is_ok() { self.m = trial; }
        if let (Ok(k), Ok(n)) = (&real, &model) { self.m.nodes[*n].key = Some(*k); }
        let ok = model.is_ok();
        self.settle(cx, &what, real, model.map(|_| ()), sit, own, before);
        ok
    }
    fn op_span(&mut self, cx: &mut Cx, s: &Spec) -> bool {
        let what = format!("annotate_span {}", brief(s));
        cx.ev(&what);
        let mut trial = self.m.clone();
        let model = if !is_span(s.et()) { Err("not a span".to_string()) } else { match trial.span_keys(s).first().copied() { None => Err("empty span".to_string()), Some(p) => trial.annotate(p, s) } };
        let before = if model.is_err() || cx.prop == "C07" { match self.before(cx) { Some(b) => Some(b), None => return false } } else { None };
        let real = self.d.annotate_span(to_data(s, &self.m));
        if model.is_ok() { self.m = trial; }
        if let (Ok(k), Ok(n)) = (&real, &model) { self.m.nodes[*n].key = Some(*k); }
        let ok = model.is_ok();
        self.settle(cx, &what, real, model.map(|_| ()), Sit::Span, &["C15"], before);
        ok
    }
    fn op_attach(&mut self, cx: &mut Cx, p: Nid, c: Nid) {
        let what = format!("attach #{} {:?} to #{} {:?}", c, self.m.nodes.get(c).map(|n| n.et), p, self.m.nodes.get(p).map(|n| n.et));
        cx.ev(&what);
        let mut trial = self.m.clone();
        let model = trial.attach(p, c);
        let before = if model.is_err() { match self.before(cx) { Some(b) => Some(b), None => return } } else { None };
        let real = self.d.attach_element(self.rk(p), self.rk(c));
        if model.is_ok() { self.m = trial; }
        self.settle(cx, &what, real, model, Sit::Tree, &["C06"], before);
    }

    // ------------------------------------------------------------ one step
    pub fn step(&mut self, op: &str, seed: u64, cx: &mut Cx) {
        let mut r = Rng::new(seed);
        cx.count(&format!("op_{}", op));
        match op {
            "add" => { self.gen_add(cx, &mut r, None); }
            "span" => { if let Some((s, p)) = self.gen_span(&mut r) { match p { None => { self.op_span(cx, &s); } Some(p) => { self.op_add_to(cx, Some(p), &s, true, Sit::Span, &["C15"]); } } } }
            "bad" => self.gen_bad(cx, &mut r),
            "move" => self.gen_move(cx, &mut r),
            "detach" => self.gen_detach(cx, &mut r),
            "reattach" => self.gen_reattach(cx, &mut r),
            "orphan" => self.gen_add_orphan(cx, &mut r),
            "wrap" => self.gen_wrap(cx, &mut r),
            "proc" => self.gen_proc(cx, &mut r),
            "declare" => self.gen_declare(cx, &mut r),
            "meta" => self.gen_meta(cx, &mut r),
            "save" => self.gen_save(cx, &mut r),
            "restart" => self.gen_restart(cx, &mut r),
            "stable" => self.gen_stable(cx, &mut r),
            "query" => { query::select(&self.d, &self.m, cx, &mut r); }
            "up" => { query::convenience(&self.d, &self.m, cx, &mut r); }
            "spans" => { query::spans(&self.d, &self.m, cx, &mut r); }
            "text" => self.gen_text(cx, &mut r),
            "clock" => self.gen_clock(cx, &mut r),
            "read" => self.gen_read(cx, &mut r),
            "api" => { api::reads(&self.d, &self.m, cx, &mut r); }
            "touch" => self.gen_touch(cx, &mut r),
            _ => panic!("unknown operation {}", op),
        }
    }
    fn parents(&self) -> Vec<Nid> { self.m.reachable().into_iter().filter(|n| { let e = self.m.nodes[*n].et; !row(e).accepts.is_empty() && !matches!(e, ElementType::Feature | ElementType::WordReference) }).collect() }
    fn gen_add(&mut self, cx: &mut Cx, r: &mut Rng, force: Option<(Nid, Spec)>) -> bool {
        let (p, s) = match force {
            Some(x) => x,
            None => {
                let ps = self.parents();
                let p = if r.pct(15) { 0 } else if r.pct(15) { *ps.last().unwrap_or(&0) } else if r.pct(25) { let w: Vec<Nid> = ps.iter().copied().filter(|n| row(self.m.nodes[*n].et).wrefable || is_span(self.m.nodes[*n].et)).collect(); if w.is_empty() { 0 } else { *r.pick(&w) } } else { *r.pick(&ps) };
                match self.child_for(r, p) { Some(s) => (p, s), None => { cx.ev("nothing to add"); return false; } }
            }
        };
        let annotate = r.pct(60);
        self.op_add_to(cx, Some(p), &s, annotate, Sit::Tree, &["C06"])
    }
    /// A new element (with contents) that may go under p.
    fn child_for(&mut self, r: &mut Rng, p: Nid) -> Option<Spec> {
        let ps = spec_of(&self.m, p);
        let in_span = self.m.in_span(p);
        let pet = self.m.nodes[p].et;
        let ids = self.word_ids();
        let simple = r.pct(50);
        let mut s = self.with_gen(r, |g| {
            let rr = row(pet);
            let cand: Vec<ElementType> = rr.accepts.iter().copied().filter(|c| !is_layer(pet) || row(*c).at == rr.at || !is_span(*c)).collect();
            let w: Vec<u32> = cand.iter().map(|c| g.weight(&ps, *c, in_span, 2)).collect();
            if w.iter().sum::<u32>() == 0 { return None; }
            let c = cand[g.r.weighted(&w)];
            if c == ElementType::Feature { return Some(g.feature(pet)); }
            let mut budget = if simple { 1 } else if g.r.below(20) == 0 { 60 } else { 1 + g.r.below(12) as i32 };
            let depth = if simple { 9 } else { 2 };
            Some(g.element(c, depth, &mut budget, in_span))
        })?;
        let mut wrap = Spec::new(ElementType::Text).child(s);
        assign_refs(&mut wrap, &ids, r);
        s = match wrap.items.pop() { Some(SItem::El(s)) => s, _ => return None };
        Some(s)
    }
    fn gen_span(&mut self, r: &mut Rng) -> Option<(Spec, Option<Nid>)> {
        let words = self.words();
        if words.is_empty() { return None; }
        let ets: Vec<ElementType> = G_SPAN.iter().copied().filter(|e| row(*e).at.and_then(|a| arow(a).layer).is_some()).collect();
        let kinds = if self.k.nsets == 1 { 2 } else { ets.len() };
        let et = if r.pct(70) { ets[r.below(kinds.min(ets.len()))] } else { *r.pick(&ets) };
        let mut s = self.with_gen(r, |g| g.bare(et, true));
        let k = 1 + r.below(4);
        let at = r.below(words.len());
        let pick: Vec<Nid> = if r.pct(70) { (0..k).filter_map(|i| words.get(at + i).copied()).collect() } else { (0..k).map(|_| *r.pick(&words)).collect() };
        let mut roles: Vec<ElementType> = row(et).accepts.iter().copied().filter(|c| G_SPANROLE.contains(c) && row(*c).accepts.contains(&ElementType::WordReference)).collect();
        roles.truncate(2);
        let in_roles = *r.pick(&[5, 15, 15, 100]);
        // or in a nested span of the same type (a syntactic unit in another)
        let nested = row(et).accepts.contains(&et) && r.pct(30);
        for w in &pick {
            let wr = Spec::new(ElementType::WordReference).attr(Attribute::Idref(self.m.nodes[*w].id.clone().unwrap()));
            if !roles.is_empty() && r.pct(in_roles) { let role = *r.pick(&roles); s.items.push(SItem::El(Spec::new(role).child(wr))); }
            else if nested && r.pct(50) { s.items.push(SItem::El(Spec { items: vec![SItem::El(wr)], id: None, ..s.clone() })); }
            else { s.items.push(SItem::El(wr)); }
        }
        if features_ok(&s) && r.pct(15) { let f = self.with_gen(r, |g| g.feature(et)); s.items.push(SItem::El(f)); }
        let via = match r.below(3) {
            0 => None,
            1 => Some(*r.pick(&pick)),
            _ => {
                let layer = arow(row(et).at.unwrap()).layer.unwrap();
                let c: Vec<Nid> = self.m.ancestors(pick[0]).into_iter().filter(|a| is_structure(self.m.nodes[*a].et) && !row(self.m.nodes[*a].et).wrefable && (row(self.m.nodes[*a].et).accepts.contains(&layer) || r.pct(10))).collect();
                if c.is_empty() { None } else { Some(*r.pick(&c)) }
            }
        };
        Some((s, via))
    }
    /// Many children before whatever is wrong.
    fn pad(s: &mut Spec, r: &mut Rng) {
        for i in s.items.iter_mut() { if let SItem::El(c) = i { if r.pct(50) { Self::pad(c, r); } } }
        if !row(s.et()).accepts.contains(&ElementType::Description) { return; }
        let n = 17 + r.below(30);
        let mut pads: Vec<SItem> = (0..n).map(|i| SItem::El(Spec::new(ElementType::Description).text(&format!("d{}", i)))).collect();
        pads.append(&mut s.items);
        s.items = pads;
    }
    fn gen_bad(&mut self, cx: &mut Cx, r: &mut Rng) {
        let ps = self.parents();
        let p = *r.pick(&ps);
        let nowhere = self.m.nodes.len() + 7 + r.below(1000);
        let someid = self.m.ids.keys().nth(r.below(self.m.ids.len().max(1))).cloned();
        let wide = r.pct(15);
        match r.below(14) {
            0 | 1 => { // an identifier that exists already, possibly deep inside; then with another one
                let (mut s, id) = match (self.child_for(r, p), someid) { (Some(s), Some(id)) => (s, id), _ => return };
                if s.et() == ElementType::Feature || s.et() == ElementType::WordReference { return; }
                let good = s.clone();
                let total = s.count();
                let at = r.below(total);
                fn put(s: &mut Spec, at: usize, i: &mut usize, id: &str) { if *i == at && s.et() != ElementType::WordReference && s.et() != ElementType::Feature { s.id = Some(id.to_string()); } *i += 1; for x in s.items.iter_mut() { if let SItem::El(c) = x { put(c, at, i, id); } } }
                put(&mut s, at, &mut 0, &id);
                if r.pct(35) && total > 1 { // twice within what is added, while the document has no such identifier
                    s = good.clone();
                    let id = format!("twice.{}", r.below(1000));
                    put(&mut s, r.below(total), &mut 0, &id);
                    put(&mut s, r.below(total), &mut 0, &id);
                }
                if wide { Self::pad(&mut s, r); }
                if r.pct(20) { strip_refs(&mut s); self.op_add_to(cx, None, &s, false, Sit::Tree, &["C06"]); } // on its own
                else { self.op_add_to(cx, Some(p), &s, r.pct(60), Sit::Tree, &["C06"]); }
                if !cx.stopped() && r.pct(70) && !good_clash(&self.m, &good) { cx.ev("the same, corrected"); self.gen_add(cx, r, Some((p, good))); }
            }
            2 => { if let Some(s) = self.child_for(r, p) { self.op_add_to(cx, Some(nowhere), &s, r.pct(50), Sit::Tree, &["C06"]); if !cx.stopped() { self.gen_add(cx, r, Some((p, s))); } } }
            3 | 4 => { // a reference to nothing, possibly the last of several
                if let Some((mut s, via)) = self.gen_span(r) {
                    let good = s.clone();
                    let n = s.items.len();
                    let wrefs: Vec<usize> = (0..n).filter(|i| matches!(&s.items[*i], SItem::El(c) if c.et() == ElementType::WordReference)).collect();
                    if wrefs.is_empty() { return; }
                    let i = *r.pick(&wrefs);
                    if let SItem::El(c) = &mut s.items[i] { c.attrs = if r.pct(80) { vec![Attribute::Idref("no.such.word".into())] } else { vec![] }; }
                    if wide { Self::pad(&mut s, r); }
                    match via { None => { self.op_span(cx, &s); } Some(p) => { self.op_add_to(cx, Some(p), &s, true, Sit::Span, &["C15"]); } }
                    if cx.stopped() { return; }
                    cx.ev("the same, corrected");
                    match via { None => { self.op_span(cx, &good); } Some(p) => { self.op_add_to(cx, Some(p), &good, true, Sit::Span, &["C15"]); } }
                }
            }
            5 => { // an undeclared set, if that matters
                if let Some(mut s) = self.child_for(r, p) {
                    if row(s.et()).at.is_some() && row(s.et()).at != Some(AnnotationType::TEXT) { s.set = Some("https://example.org/never-declared".into()); if s.class.is_none() { s.class = Some("x".into()); } }
                    self.op_add_to(cx, Some(p), &s, r.pct(60), Sit::Tree, &["C06"]);
                }
            }
            6 => { // a word reference where there is no span
                let ids = self.word_ids();
                if ids.is_empty() { return; }
                let w = Spec::new(ElementType::WordReference).attr(Attribute::Idref(r.pick(&ids).clone()));
                let out: Vec<Nid> = ps.iter().copied().filter(|n| !self.m.in_span(*n)).collect();
                if out.is_empty() { return; }
                let mut s = if r.pct(50) { w } else { Spec::new(ElementType::Paragraph).child(Spec::new(ElementType::Sentence).child(w)) };
                if wide { Self::pad(&mut s, r); }
                self.op_add_to(cx, Some(*r.pick(&out)), &s, false, Sit::Tree, &["C06"]);
            }
            7 => { // a span of nothing
                if let Some((mut s, _)) = self.gen_span(r) { s.items.retain(|i| !matches!(i, SItem::El(c) if c.et() == ElementType::WordReference || G_SPANROLE.contains(&c.et()))); self.op_span(cx, &s); }
            }
            8 => { // something that does not belong there
                let et = ROWS[r.below(ROWS.len())].et;
                if excluded(et) || et == ElementType::WordReference || is_span(et) && row(et).at.and_then(|a| arow(a).layer).is_none() { return; }
                if row(self.m.nodes[p].et).accepts.contains(&et) { return; }
                let s = self.with_gen(r, |g| g.bare(et, false));
                let pet = self.m.nodes[p].et;
                if is_span(et) && (row(pet).wrefable || is_structure(pet)) { return; }
                self.op_add_to(cx, Some(p), &s, true, Sit::Tree, &["C06"]);
            }
            12 => { // a reference in something new that holds spans but is none
                let ids = self.word_ids();
                if ids.is_empty() { return; }
                let w = Spec::new(ElementType::WordReference).attr(Attribute::Idref(r.pick(&ids).clone()));
                let (a, layer) = { let v: Vec<_> = AROWS.iter().filter_map(|a| a.layer.map(|l| (a, l))).collect(); let x = r.pick(&v); (x.0, x.1) };
                let out: Vec<Nid> = ps.iter().copied().filter(|n| row(self.m.nodes[*n].et).accepts.contains(&layer) && !self.m.in_span(*n)).collect();
                if out.is_empty() { return; }
                let mut l = Spec::new(layer);
                if r.pct(50) { l.set = Some(r.pick(&sets_for(a.at)).clone()); }
                if let (true, Some((s, _))) = (r.pct(40), self.gen_span(r)) { if row(s.et()).at == Some(a.at) { l = l.child(s); } }
                let at = r.below(l.items.len() + 1);
                l.items.insert(at, SItem::El(w));
                if wide { Self::pad(&mut l, r); }
                self.op_add_to(cx, Some(*r.pick(&out)), &l, r.pct(50), Sit::Tree, &["C06"]);
            }
            13 => { // something new around something that is not there
                if let Some(mut s) = self.child_for(r, p) {
                    if s.et() == ElementType::Feature || s.et() == ElementType::WordReference { return; }
                    fn put(s: &mut Spec, n: Nid, r: &mut Rng) {
                        let subs: Vec<usize> = (0..s.items.len()).filter(|i| matches!(&s.items[*i], SItem::El(c) if c.et() != ElementType::WordReference && c.et() != ElementType::Feature)).collect();
                        if !subs.is_empty() && r.pct(60) { let i = *r.pick(&subs); if let SItem::El(c) = &mut s.items[i] { put(c, n, r); } return; }
                        let at = r.below(s.items.len() + 1);
                        s.items.insert(at, SItem::Existing(n));
                    }
                    put(&mut s, nowhere, r);
                    if wide { Self::pad(&mut s, r); }
                    if r.pct(20) { strip_refs(&mut s); self.op_add_to(cx, None, &s, false, Sit::Tree, &["C06"]); }
                    else { self.op_add_to(cx, Some(p), &s, r.pct(50), Sit::Tree, &["C06"]); }
                }
            }
            9 => { // under itself
                let live = self.m.reachable();
                let c = *r.pick(&live);
                let mut under = self.m.descendants(c);
                under.push(c);
                let p = *r.pick(&under);
                self.op_attach(cx, p, c);
            }
            10 => {
                let live = self.m.reachable();
                let c = *r.pick(&live);
                if r.pct(50) { self.op_attach(cx, nowhere, c); } else { self.op_attach(cx, c, nowhere); }
                if !cx.stopped() {
                    let b = self.before(cx);
                    let real = self.d.detach_element(999_999_999);
                    self.settle(cx, "detach nothing", real, Err("no such element".into()), Sit::Tree, &["C06"], b);
                }
            }
            _ => { // a processor under itself, or under nothing
                if self.m.procs.is_empty() { return; }
                let c = r.below(self.m.procs.len());
                let mut p = c;
                while r.pct(60) { match self.m.procs[p].subs.first() { Some(x) => p = *x, None => break } }
                let what = format!("attach processor {:?} to {:?}", self.m.procs[c].id, self.m.procs[p].id);
                cx.ev(&what);
                let b = self.before(cx);
                let (kp, kc) = (self.pk(p), self.pk(c));
                let real = self.d.attach_processor(kp, kc);
                let model = self.m.attach_proc(p, c);
                self.settle(cx, &what, real, model, Sit::Proc, &["C11"], b);
            }
        }
    }
    fn pk(&self, p: usize) -> ProcKey { self.d.get_processor_key_by_id(&self.m.procs[p].id).unwrap_or(60000) }
    fn gen_move(&mut self, cx: &mut Cx, r: &mut Rng) {
        let live = self.m.reachable();
        for _ in 0..8 {
            let c = *r.pick(&live);
            if c == 0 || !self.movable(c, false) { continue; }
            let et = self.m.nodes[c].et;
            let sub = self.m.descendants(c);
            let ps: Vec<Nid> = live.iter().copied().filter(|p| { let x = &self.m.nodes[*p]; *p != c && !sub.contains(p) && row(x.et).accepts.contains(&et) && (!is_layer(x.et) || row(x.et).at == row(et).at || !is_span(et)) }).collect();
            if ps.is_empty() { continue; }
            let p = if r.pct(20) && self.m.nodes[c].parent.map_or(false, |p| ps.contains(&p)) { self.m.nodes[c].parent.unwrap() } else { *r.pick(&ps) };
            self.op_attach(cx, p, c);
            return;
        }
    }
    fn gen_detach(&mut self, cx: &mut Cx, r: &mut Rng) {
        let live = self.m.reachable();
        for _ in 0..8 {
            let c = *r.pick(&live);
            if !self.movable(c, true) { continue; }
            self.detach(cx, c);
            return;
        }
    }
    fn detach(&mut self, cx: &mut Cx, c: Nid) {
        let what = format!("detach #{} {:?}", c, self.m.nodes[c].et);
        cx.ev(&what);
        let real = self.d.detach_element(self.rk(c));
        self.m.detach(c);
        self.settle(cx, &what, real, Ok(()), Sit::Tree, &["C06"], None);
    }
    fn gen_reattach(&mut self, cx: &mut Cx, r: &mut Rng) {
        let loose: Vec<Nid> = model_roots(&self.m).into_iter().filter(|n| *n != 0 && self.m.nodes[*n].key.is_some()).collect();
        if loose.is_empty() { return self.gen_detach(cx, r); }
        let c = *r.pick(&loose);
        if r.pct(10) { return self.detach(cx, c); } // again
        let et = self.m.nodes[c].et;
        let ps: Vec<Nid> = self.m.reachable().into_iter().filter(|p| row(self.m.nodes[*p].et).accepts.contains(&et) && (!is_layer(self.m.nodes[*p].et) || row(self.m.nodes[*p].et).at == row(et).at || !is_span(et))).collect();
        if ps.is_empty() { return; }
        self.op_attach(cx, *r.pick(&ps), c);
    }
    /// A loose layer with an annotation in it, put in its place; then another annotation for it.
    fn gen_add_layer(&mut self, cx: &mut Cx, r: &mut Rng) {
        let (s, _) = match self.gen_span(r) { Some(x) => x, None => return };
        let layer = arow(row(s.et()).at.unwrap()).layer.unwrap();
        let first = match self.m.span_keys(&s).first() { Some(w) => *w, None => return };
        let hosts: Vec<Nid> = self.m.ancestors(first).into_iter().filter(|a| is_structure(self.m.nodes[*a].et) && row(self.m.nodes[*a].et).accepts.contains(&layer)).collect();
        if hosts.is_empty() { return; }
        let mut l = Spec::new(layer).child(s.clone());
        if r.pct(30) { l.set = s.set.clone(); }
        let wrapped = r.pct(30);
        let old = model_roots(&self.m);
        let spec = if wrapped { Spec::new(ElementType::Sentence).child(l) } else { l };
        if !self.op_add_to(cx, None, &spec, false, Sit::Tree, &["C06"]) || cx.stopped() { return; }
        let host = if r.pct(70) { hosts[0] } else { *r.pick(&hosts) };
        if let Some(c) = model_roots(&self.m).into_iter().find(|c| !old.contains(c) && self.m.nodes[*c].key.is_some()) { let c = if wrapped { self.m.children(c)[0] } else { c }; self.op_attach(cx, host, c); }
        if cx.stopped() { return; }
        let mut again = s;
        fn clear(s: &mut Spec) { s.id = None; for x in s.items.iter_mut() { if let SItem::El(c) = x { clear(c); } } }
        clear(&mut again);
        self.op_span(cx, &again);
    }
    fn gen_add_orphan(&mut self, cx: &mut Cx, r: &mut Rng) {
        if r.pct(25) { self.gen_add_layer(cx, r); return; }
        // something new under what is loose
        let loose: Vec<Nid> = model_roots(&self.m).into_iter().filter(|n| *n != 0 && self.m.nodes[*n].key.is_some()).collect();
        if !loose.is_empty() && r.pct(40) {
            let top = *r.pick(&loose);
            let mut under = vec![top];
            if r.pct(50) { under.extend(self.m.descendants(top)); }
            let p = *r.pick(&under);
            if self.m.nodes[p].key.is_none() || matches!(self.m.nodes[p].et, ElementType::Feature | ElementType::WordReference) || is_span(self.m.nodes[p].et) || is_layer(self.m.nodes[p].et) || self.m.in_span(p) { return; }
            if let Some(mut s) = self.child_for(r, p) {
                strip_refs(&mut s);
                if is_span(s.et()) { return; }
                self.op_add_to(cx, Some(p), &s, r.pct(50), Sit::Tree, &["C06"]);
            }
            return;
        }
        let ps = self.parents();
        let p = *r.pick(&ps);
        if let Some(mut s) = self.child_for(r, p) {
            if s.et() == ElementType::Feature || s.et() == ElementType::WordReference { return; }
            // annotations that refer to words do not stay loose
            let join = r.pct(50);
            if !join { strip_refs(&mut s); }
            let old = model_roots(&self.m);
            self.op_add_to(cx, None, &s, false, Sit::Tree, &["C06"]);
            if join && !cx.stopped() {
                if let Some(c) = model_roots(&self.m).into_iter().find(|c| !old.contains(c) && self.m.nodes[*c].key.is_some()) { self.op_attach(cx, p, c); }
                return;
            }
            if !cx.stopped() && r.pct(40) { self.gen_reattach(cx, r); }
        }
    }
    /// A new element taking in existing ones.
    fn gen_wrap(&mut self, cx: &mut Cx, r: &mut Rng) {
        let live = self.m.reachable();
        let loose: Vec<Nid> = model_roots(&self.m).into_iter().filter(|n| *n != 0 && self.m.nodes[*n].key.is_some()).collect();
        let pool: Vec<Nid> = if !loose.is_empty() && r.pct(40) { loose } else { live.clone() };
        for _ in 0..8 {
            let c = *r.pick(&pool);
            if c == 0 || !self.movable(c, false) || is_span(self.m.nodes[c].et) { continue; }
            let et = self.m.nodes[c].et;
            let p = match self.m.nodes[c].parent { Some(p) if r.pct(70) => p, _ => *r.pick(&live) };
            if p == c || self.m.ancestors(p).contains(&c) || self.m.root_of(p) != 0 { continue; }
            let pet = self.m.nodes[p].et;
            let ws: Vec<ElementType> = row(pet).accepts.iter().copied().filter(|w| !excluded(*w) && !is_span(*w) && !is_layer(*w) && *w != ElementType::WordReference && row(*w).accepts.contains(&et) && !row(*w).textcontainer && !row(*w).phoncontainer).collect();
            if ws.is_empty() { continue; }
            let w = *r.pick(&ws);
            let mut s = self.with_gen(r, |g| g.bare(w, false));
            s.items.push(SItem::Existing(c));
            if r.pct(40) { // and a sibling or two
                for sib in self.m.nodes[c].parent.map(|p| self.m.children(p)).unwrap_or_default() {
                    if sib != c && sib != p && !self.m.ancestors(p).contains(&sib) && self.movable(sib, false) && row(w).accepts.contains(&self.m.nodes[sib].et) && !is_span(self.m.nodes[sib].et) && r.pct(50) { s.items.push(SItem::Existing(sib)); }
                }
            }
            if r.pct(30) { s.items.insert(0, SItem::Comment(" wrapped ".into())); }
            let a = r.pct(50);
            self.op_add_to(cx, Some(p), &s, a, Sit::Tree, &["C06"]);
            return;
        }
    }
    fn gen_proc(&mut self, cx: &mut Cx, r: &mut Rng) {
        let n = self.m.procs.len();
        match r.below(if n > 0 { 9 } else { 2 }) {
            0 | 1 | 2 => { // a new one, with subprocessors; or one that is there already
                let mut s = self.with_gen(r, |g| g.processor(1));
                if n > 0 && r.pct(20) { s.p.id = self.m.procs[r.below(n)].id.clone(); }
                self.existing_subs(&mut s, r);
                self.add_proc(cx, &s, None);
            }
            3 | 4 => { let mut s = self.with_gen(r, |g| g.processor(1)); if r.pct(25) { s.p.id = self.m.procs[r.below(n)].id.clone(); } self.existing_subs(&mut s, r); let p = r.below(n); self.add_proc(cx, &s, Some(p)); }
            5 => {
                let (p, c) = (r.below(n), r.below(n));
                let what = format!("attach processor {:?} to {:?}", self.m.procs[c].id, self.m.procs[p].id);
                cx.ev(&what);
                let b = self.before(cx);
                let (kp, kc) = (self.pk(p), self.pk(c));
                let real = self.d.attach_processor(kp, kc);
                let model = self.m.attach_proc(p, c);
                self.settle(cx, &what, real, model, Sit::Proc, &["C11"], b);
            }
            6 => { // registered outside the chain first, then put in its place
                let mut s = self.with_gen(r, |g| g.processor(3));
                s.subs.clear();
                if self.m.proc_by_id(&s.p.id).is_some() { return; }
                let p = r.below(n);
                let what = format!("add provenance {:?}, attach it to {:?}", s, self.m.procs[p].id);
                cx.ev(&what);
                let kp = self.pk(p);
                let real = self.d.add_provenance(to_processor(&s)).and_then(|k| self.d.attach_processor(kp, k));
                let model = self.m.add_processor(&s, Some(p)).map(|_| ());
                self.settle(cx, &what, real, model, Sit::Proc, &["C11"], None);
            }
            _ => { let p = r.below(n); cx.ev(&format!("activate processor {:?}", self.m.procs[p].id)); let k = self.pk(p); self.d.activate_processor(k); self.m.active = Some(p); self.check(cx, Sit::Proc); }
        }
    }
    /// Some processors of the document become subprocessors of the one that is about to be added.
    fn existing_subs(&self, s: &mut ProcSpec, r: &mut Rng) {
        if !r.pct(25) { return; }
        for _ in 0..r.range(1, 3) {
            let id = if self.m.procs.is_empty() || r.pct(8) { "no such processor".to_string() } else { self.m.procs[r.below(self.m.procs.len())].id.clone() };
            if !s.subs.is_empty() && r.pct(30) { let i = r.below(s.subs.len()); s.subs[i].existing.push(id); } else { s.existing.push(id); }
        }
    }
    fn add_proc(&mut self, cx: &mut Cx, s: &ProcSpec, parent: Option<usize>) {
        let what = format!("add processor {:?} under {:?}", s, parent.map(|p| self.m.procs[p].id.clone()));
        cx.ev(&what);
        let mut trial = self.m.clone();
        let model = trial.add_processor(s, parent);
        let b = if model.is_err() { self.before(cx) } else { None };
        let data = to_processor_in(s, &|id| self.d.get_processor_key_by_id(id).unwrap_or(60000));
        let real = match parent { None => self.d.add_processor(data), Some(p) => { let k = self.pk(p); self.d.add_subprocessor(k, data) } };
        if model.is_ok() { self.m = trial; }
        if let (Ok(k), Ok(_)) = (&real, &model) { if self.d.get_processor(*k).map(|p| p.id.as_str()) != Some(s.p.id.as_str()) { cx.fail(&["C11"], "processor-key", format!("{}: the key returned leads to {:?}", what, self.d.get_processor(*k).map(|p| &p.id))); return; } }
        self.settle(cx, &what, real, model.map(|_| ()), Sit::Proc, &["C11"], b);
    }
    fn gen_declare(&mut self, cx: &mut Cx, r: &mut Rng) {
        let a = if !self.m.decs.is_empty() && r.pct(40) { aidx(self.m.decs[r.below(self.m.decs.len())].at) } else { r.below(AROWS.len()) };
        let at = AROWS[a].at;
        if at == AnnotationType::TEXT && self.k.nsets != 2 { return; }
        if r.pct(8) { // other properties altogether
            let p = self.with_gen(r, |g| g.props(true));
            let what = format!("apply {:?}", p);
            cx.ev(&what);
            let mut trial = self.m.clone();
            let model = trial.apply(&p);
            let b = if model.is_err() { self.before(cx) } else { None };
            let real = self.d.apply_properties(to_props(&p));
            if model.is_ok() { self.m = trial; }
            self.settle(cx, &what, real, model, Sit::Decl, &["C10", "C11"], b);
            return;
        }
        if !self.m.decs.is_empty() && r.pct(20) { // classes and subsets that no annotation has yet
            let d = r.below(self.m.decs.len());
            let (at, set) = (self.m.decs[d].at, self.m.decs[d].set.clone());
            let names: Vec<String> = self.with_gen(r, |g| { let n = g.r.range(1, 3); (0..n).map(|_| g.class()).collect() });
            cx.ev(&format!("classes and subsets {:?} of {:?} {:?}", names, at, set));
            let key = self.d.get_declaration_key_by_id(&Declaration::index_id(at, &set.as_deref())).unwrap_or(60000);
            for n in names {
                let how = r.below(4);
                let real = match (how, self.d.get_mut_declaration(key)) {
                    (0, _) => self.d.add_class(key, &n).map(|_| ()),
                    (1, Some(x)) => x.add_class(n.as_str().into()).map(|_| ()),
                    (2, Some(x)) => x.add_subset(n.as_str().into()).map(|_| ()),
                    (_, Some(x)) => x.add_subclass(n.as_str().into()).map(|_| ()),
                    (_, None) => Err(FoliaError::InternalError("no such declaration".into())),
                };
                match how { 0 | 1 => self.m.decs[d].classes.insert(n), 2 => self.m.decs[d].subsets.insert(n), _ => self.m.decs[d].subclasses.insert(n) };
                self.settle(cx, "add class or subset", real, Ok(()), Sit::Decl, &["C10"], None);
                if cx.stopped() { return; }
            }
            return;
        }
        let ss = sets_for(at);
        let set = if r.pct(25) { None } else { Some(ss[r.below(self.k.nsets.min(ss.len()))].clone()) };
        let alias = if r.pct(20) { Some(alias(r, a)) } else { None };
        let format = if r.pct(15) { Some("text/x".to_string()) } else { None };
        let what = format!("declare {:?} {:?} {:?} {:?}", at, set, alias, format);
        cx.ev(&what);
        let mut trial = self.m.clone();
        let (real, d) = if r.pct(25) { // the low-level way: no defaults, and annotators of one's own
            let mut dec = Declaration::new(at, set.clone(), alias.clone(), format.clone());
            let mut ps = vec![];
            for _ in 0..r.below(3) { if !self.m.procs.is_empty() { let p = r.below(self.m.procs.len()); if !ps.contains(&p) { dec.processors.push(self.pk(p)); ps.push(p); } } }
            cx.ev(&format!("low-level, processors {:?}", ps));
            (self.d.add_declaration(dec), trial.add_declaration(at, &set, &alias, &format, ps))
        } else { (self.d.declare(at, &set, &alias, &format), trial.declare(at, &set, &alias, &format)) };
        self.m = trial;
        if let Ok(k) = &real {
            let x = self.d.get_declaration(*k);
            if x.map(|x| (x.annotationtype, x.set.clone())) != Some((self.m.decs[d].at, self.m.decs[d].set.clone())) { cx.fail(&["C10"], "declaration-key", format!("{}: the key returned leads to {:?} {:?}", what, x.map(|x| x.annotationtype), x.map(|x| &x.set))); return; }
        }
        self.settle(cx, &what, real, Ok(()), Sit::Decl, &["C10"], None);
        if cx.stopped() { return; }
        // what is declared, and which set is the default
        for a in AROWS.iter() {
            let want = self.m.dec_default(a.at).and_then(|d| self.m.decs[d].set.clone());
            if self.d.get_default_set(a.at) != want.as_deref() { cx.fail(&["C10"], "default-set", format!("of {:?}: {:?} instead of {:?}", a.at, self.d.get_default_set(a.at), want)); return; }
            let any = self.m.declared(a.at, &None);
            if self.d.is_declared(a.at, None) != any { cx.fail(&["C10"], "is-declared", format!("{:?}: {} instead of {}", a.at, !any, any)); return; }
        }
        let is = self.d.is_declared(at, set.as_deref());
        if is != self.m.declared(at, &set) { cx.fail(&["C10"], "is-declared", format!("{:?} {:?}: {}", at, set, is)); }
    }
    fn gen_meta(&mut self, cx: &mut Cx, r: &mut Rng) {
        let m = self.with_gen(r, |g| g.meta());
        let to = |x: &MMeta| Metadata { data: x.data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), src: x.src.clone(), metadatatype: x.mtype.clone() };
        match r.below(5) {
            0 => { cx.ev(&format!("metadata := {:?}", m)); self.d.metadata = to(&m); self.m.meta = m; }
            1 => { for (k, v) in &m.data { cx.ev(&format!("metadata {:?} := {:?}", k, v)); self.d.metadata.data.insert(k.clone(), v.clone()); self.m.meta.data.insert(k.clone(), v.clone()); } }
            2 => { let id = format!("sub.{}", r.below(4)); cx.ev(&format!("submetadata {:?} := {:?}", id, m)); self.d.submetadata.insert(id.clone(), to(&m)); self.m.sub.insert(id, m); }
            3 => { let k = self.m.meta.data.keys().next().cloned(); if let Some(k) = k { cx.ev(&format!("metadata {:?} removed", k)); self.d.metadata.data.remove(&k); self.m.meta.data.remove(&k); } }
            _ => { let id = self.m.sub.keys().next().cloned(); if let Some(id) = id { for (k, v) in &m.data { cx.ev(&format!("submetadata {:?} {:?} := {:?}", id, k, v)); if let Some(s) = self.d.submetadata.get_mut(&id) { s.data.insert(k.clone(), v.clone()); } self.m.sub.get_mut(&id).unwrap().data.insert(k.clone(), v.clone()); } } }
        }
        self.check(cx, Sit::Meta);
    }
    pub fn save(&self, cx: &mut Cx, indent: usize) -> Option<Vec<u8>> {
        match self.d.xml(0, indent) { Ok(b) => if self.judge(cx, &b) { Some(b) } else { None }, Err(e) => { cx.fail(&["C01", "C13"], "save-refused", format!("{}", e)); None } }
    }
    /// Does a saved document say, to an independent reader, what the document is?
    fn judge(&self, cx: &mut Cx, b: &[u8]) -> bool {
        let h = mix2(hash_bytes(b), self.shape());
        if self.judged.replace(h) == h { return true; }
        let all = ["C01", "C10", "C11", "C13", "C14", "C15", "C16"];
        let f = match xmlr::read(b) { Ok(f) => f, Err(e) => { cx.fail(&all, "saved-malformed", format!("the saved document is not well-formed FoLiA: {}", e)); return false; } };
        let p = Props { autodeclare: true, ..Default::default() };
        let (n, m) = match (Model::load(&f, &p), self.m.restart(&p)) { (Ok(n), Ok(m)) => (n, m), (Err(e), _) => { cx.fail(&all, "saved-unloadable", format!("the saved document cannot be loaded: {}", e)); return false; } (_, Err(_)) => return true };
        cx.count("saves_judged");
        let v = diff(&model_snap(&m, &[0]), &model_snap(&n, &[0]));
        if n.decs.len() != f.decs.len() { let d = &n.decs[f.decs.len()]; cx.fail(&["C10", "C01"], "saved-undeclared", format!("the saved document uses {:?} {:?}, which it does not declare", d.at, d.set)); return false; }
        let v: Vec<Diff> = v.into_iter().map(|d| Diff { k: d.k, msg: format!("in the saved bytes: {}", d.msg) }).collect();
        !cx.diffs(&v, Sit::Reload)
    }
    fn gen_save(&mut self, cx: &mut Cx, r: &mut Rng) {
        let indent = *r.pick(&[0usize, 0, 1, 2, 4, 8]);
        let a = match self.save(cx, indent) { Some(a) => a, None => return };
        cx.ev(&format!("save, indented by {}: {} bytes {:x}", indent, a.len(), hash_bytes(&a)));
        cx.count("saves");
        self.saved.push(hash_bytes(&a));
        if r.pct(50) { let _ = self.save(cx, *r.clone().pick(&[0usize, 4])); }
        let b = match self.save(cx, indent) { Some(a) => a, None => return };
        if a != b { cx.fail(&["C13"], "save-differs", format!("saving twice gave different bytes, first at {}", (0..).find(|i| a.get(*i) != b.get(*i)).unwrap_or(0))); return; }
        self.check(cx, Sit::Save);
        if cx.stopped() { return; }
        // a part of the document, or an element that is not in the tree
        let n = if r.pct(30) { let o: Vec<Nid> = (1..self.m.nodes.len()).filter(|n| self.m.nodes[*n].parent.is_none()).collect(); if o.is_empty() { return; } *r.pick(&o) } else { *r.pick(&self.m.reachable()) };
        let x = match self.d.xml(self.rk(n), 0) { Ok(b) => b, Err(e) => { cx.fail(&["C01", "C13"], "save-refused", format!("element #{} by itself: {}", n, e)); return; } };
        let bare = |b: &[u8]| -> Vec<u8> { let t = String::from_utf8_lossy(b).into_owned(); let i = t.find("</metadata>").map_or(0, |i| i + 11); let j = t.rfind("</FoLiA>").unwrap_or(t.len()); t[i..j].bytes().filter(|c| !c.is_ascii_whitespace()).collect() };
        let whole = if self.m.root_of(n) == 0 { self.save(cx, 0).map(|b| bare(&b)) } else { None };
        let part = bare(&x);
        cx.ev(&format!("element #{} {:?} by itself: {:x}", n, self.m.nodes[n].et, hash_bytes(&x)));
        cx.count("partial_saves");
        let tag = format!("<{}", row(self.m.nodes[n].et).tag);
        if !part.starts_with(tag.as_bytes()) { cx.fail(&["C01", "C08"], "partial-save", format!("saving #{} {:?} writes {}", n, self.m.nodes[n].et, String::from_utf8_lossy(&part[..part.len().min(200)]))); return; }
        if let Some(w) = whole { if !w.windows(part.len()).any(|x| x == &part[..]) { cx.fail(&["C01", "C13"], "partial-save", format!("saving #{} {:?} by itself writes what is not in the whole: {}", n, self.m.nodes[n].et, String::from_utf8_lossy(&part[..part.len().min(400)]))); } }
    }
    /// Save, lose everything in memory, read the file back.
    fn gen_restart(&mut self, cx: &mut Cx, r: &mut Rng) {
        let indent = *r.pick(&[0usize, 0, 1, 4, 4, 8]);
        let bytes = match self.save(cx, indent) { Some(b) => b, None => return };
        self.saved.push(hash_bytes(&bytes));
        let p = self.with_gen(r, |g| { let mut p = g.props(true); p.speech = false; p });
        self.restarts += 1;
        let path = format!("/simfs/{}.{}.folia.xml", self.name, self.restarts);
        let plan = benign_plan(r);
        cx.ev(&format!("restart: {} bytes {:x} (indented by {}), read with {:?}, properties {:?}", bytes.len(), hash_bytes(&bytes), indent, plan, p));
        cx.note(&String::from_utf8_lossy(&bytes));
        cx.count("restarts");
        sys::disk_put(&path, &bytes, plan);
        let real = Document::from_file(&path, to_props(&p));
        sys::disk_del(&path);
        let mut m = match self.m.restart(&p) { Ok(m) => m, Err(e) => { cx.ev(&format!("properties do not suit: {}", e)); if real.is_ok() { cx.fail(&["C11"], "accepted", e); } return; } };
        m.filename = Some(path);
        match real {
            Err(e) => cx.fail(&["C01", "C09", "C10", "C11", "C14", "C15", "C16"], "reload-refused", format!("the saved document cannot be loaded: {}", e)),
            Ok(d) => { self.d = d; self.m = m; self.check(cx, Sit::Reload); }
        }
    }
    /// load+save is a projection
    fn gen_stable(&mut self, cx: &mut Cx, r: &mut Rng) {
        let indent = *r.pick(&[0usize, 1, 4]);
        let b0 = match self.save(cx, *r.pick(&[0usize, 2])) { Some(b) => b, None => return };
        cx.ev("load and save, twice");
        cx.count("stability_checks");
        let mut last: Option<Vec<u8>> = None;
        let mut cur = b0;
        for round in 0..3 {
            let s = match String::from_utf8(cur) { Ok(s) => s, Err(_) => { cx.fail(&["C01", "C13"], "not-utf8", "the saved document is not UTF-8".into()); return; } };
            let d = if r.pct(50) { Document::from_str(&s, DocumentProperties::default()) } else { load_file(s.as_bytes(), benign_plan(r), &format!("stable{}.xml", r.below(3))) };
            let d = match d { Ok(d) => d, Err(e) => { cx.fail(&["C01"], "reload-refused", format!("round {}: {}", round, e)); return; } };
            let x = match d.xml(0, indent) { Ok(x) => x, Err(e) => { cx.fail(&["C01", "C13"], "save-refused", format!("round {}: {}", round, e)); return; } };
            if let Some(l) = &last { if *l != x { let i = (0..).find(|i| l.get(*i) != x.get(*i)).unwrap_or(0); let w = |v: &Vec<u8>| String::from_utf8_lossy(&v[i.saturating_sub(60).min(v.len())..(i + 60).min(v.len())]).into_owned(); cx.fail(&["C13", "C01"], "unstable", format!("loading and saving again changed the bytes at {}: …{}… became …{}…", i, w(l), w(&x))); return; } }
            // what is loaded next may have been laid out differently: that is no part of its content
            cur = if r.pct(50) { x.clone() } else { match d.xml(0, *r.pick(&[0usize, 1, 2, 4, 8])) { Ok(y) => y, Err(e) => { cx.fail(&["C01", "C13"], "save-refused", format!("round {}: {}", round, e)); return; } } };
            last = Some(x);
        }
    }
    fn gen_text(&mut self, cx: &mut Cx, r: &mut Rng) {
        let live = self.m.reachable();
        let holders: Vec<Nid> = live.iter().copied().filter(|n| m_printable(self.m.nodes[*n].et)).collect();
        if holders.is_empty() { return; }
        for _ in 0..4 {
            let n = match r.below(6) {
                0 => 0,
                1 => { let sp: Vec<Nid> = live.iter().copied().filter(|n| is_span(self.m.nodes[*n].et)).collect(); if sp.is_empty() { 0 } else { *r.pick(&sp) } }
                2 | 3 => { let st: Vec<Nid> = live.iter().copied().filter(|n| is_structure(self.m.nodes[*n].et)).collect(); *r.pick(&st) }
                4 => *r.pick(&live),
                _ => *r.pick(&holders),
            };
            let set = match r.below(20) { 0 => None, 1..=4 => Some(OTHER_TEXT_SET.to_string()), 5 if r.pct(20) => Some("no such set".to_string()), _ => Some(DEFAULT_TEXT_SET.to_string()) };
            let class = *r.pick(&["current", "current", "current", "ocr", "a & b", "nothing"]);
            let retain = r.pct(30);
            let mut tp = TextParameters::default();
            if let Some(s) = &set { tp = tp.set(s); } else { tp.set = None; }
            tp = tp.textclass(class).retaintokenisation(retain);
            let class = if r.pct(5) { tp.textclass = None; None } else { Some(class) };
            let want = self.m.text(n, &set, class, retain);
            let k = self.rk(n);
            let got = self.d.text(k, &tp).ok();
            cx.ev(&format!("text of #{} {:?} {:?} {:?} {}: {:?}", n, self.m.nodes[n].et, set, class, retain, got));
            cx.count("texts");
            if got.is_some() { cx.count("texts_found"); }
            if got != want { cx.fail(&["C09"], "text", format!("of #{} {:?} (set {:?} class {:?} retain {}): expected {:?}, got {:?}", n, self.m.nodes[n].et, set, class, retain, want, got)); return; }
            let by = self.d.get_element(k).and_then(|e| e.text(&tp).ok());
            if by != got { cx.fail(&["C09"], "text-element", format!("of #{}: {:?} through the element, {:?} through the document", n, by, got)); return; }
            if let (Some(s), Some(c)) = (&set, class) {
                let dk = self.d.get_declaration_key_by_id(&Declaration::index_id(AnnotationType::TEXT, &Some(s.as_str())));
                if let Some((dk, ck)) = dk.and_then(|dk| self.d.class_key(dk, c).ok().map(|ck| (dk, ck))) {
                    let by = self.d.text_by_key(k, dk, ck, r.pct(50), retain).ok();
                    if by != got { cx.fail(&["C09"], "text-by-key", format!("of #{}: {:?} by key, {:?} by name", n, by, got)); return; }
                } else if got.is_some() { cx.fail(&["C09"], "text-by-key", format!("#{} has text, but there is no such set or class", n)); return; }
            }
            let (want, got) = (self.m.wanted_delim(n, retain), self.d.get_element(k).and_then(|e| e.get_textdelimiter(retain).ok().map(|x| x.into_owned())));
            if got.as_ref() != Some(&want) { cx.fail(&["C09"], "delimiter", format!("of #{} {:?} (retain {}): expected {:?}, got {:?}", n, self.m.nodes[n].et, retain, want, got)); return; }
        }
    }
    /// Changes to an element where it stands: plain attributes, text pieces.
    fn gen_touch(&mut self, cx: &mut Cx, r: &mut Rng) {
        let live = self.m.reachable();
        for _ in 0..6 {
            let n = *r.pick(&live);
            let et = self.m.nodes[n].et;
            let key = self.rk(n);
            if n == 0 || et == ElementType::Feature { continue; }
            if row(et).textcontainer && r.pct(60) {
                // the last piece of text goes, or another one comes
                let last = self.m.nodes[n].items.iter().rposition(|i| matches!(i, MI::Text(_)));
                let e: &mut ElementData = match <Document as Store<ElementData, ElementKey>>::get_mut(&mut self.d, key) { Some(e) => e, None => { cx.fail(&["C06"], "gone", format!("element #{} is gone", n)); return; } };
                let single = |v: &[MI], i: usize| (i == 0 || !matches!(v[i - 1], MI::Text(_))) && !matches!(v.get(i + 1), Some(MI::Text(_)));
                match last {
                    Some(i) if r.pct(50) && single(&self.m.nodes[n].items, i) && (0..e.len()).filter(|j| matches!(e.get_data_at(*j), Some(DataType::Text(_)))).count() == self.m.nodes[n].items.iter().filter(|i| matches!(i, MI::Text(_))).count() => {
                        let j = (0..e.len()).rev().find(|j| matches!(e.get_data_at(*j), Some(DataType::Text(_)))).unwrap();
                        cx.ev(&format!("the last text of #{} {:?} is removed", n, et));
                        let was = e.remove(j);
                        if e.remove(100_000).is_some() { cx.fail(&["C06"], "removed", "something that is not there was removed".into()); return; }
                        let MI::Text(t) = self.m.nodes[n].items.remove(i) else { return };
                        if was != Some(DataType::Text(t.clone())) { cx.fail(&["C09", "C06"], "removed", format!("{:?} instead of {:?}", was, t)); return; }
                        // (an element without text still has its markup: text then looks past it)
                    }
                    _ => {
                        let t = r.pick(&["more", " & more", "<", "\u{e9}"]).to_string();
                        cx.ev(&format!("#{} {:?} gets more text: {:?}", n, et, t));
                        e.push(DataType::Text(t.clone()));
                        self.m.nodes[n].items.push(MI::Text(t));
                    }
                }
                self.check(cx, Sit::Touch);
                return;
            }
            let mut new: Vec<Attribute> = vec![];
            if row(et).at.is_some() && !row(et).textcontainer { new.push(Attribute::Confidence(*r.pick(&[0.0, 0.25, 0.5, 1.0]))); new.push(Attribute::N(r.pick(&["1", "2a", "x & y"]).to_string())); }
            if row(et).space { new.push(Attribute::Space(r.pct(50))); new.push(Attribute::Space(false)); }
            if new.is_empty() { continue; }
            let a = r.pick(&new).clone();
            let t = a.attribtype();
            let del = r.pct(25);
            cx.ev(&format!("#{} {:?}: {} {:?}", n, et, if del { "loses any" } else { "gets" }, a));
            let e: &mut ElementData = match <Document as Store<ElementData, ElementKey>>::get_mut(&mut self.d, key) { Some(e) => e, None => { cx.fail(&["C06"], "gone", format!("element #{} is gone", n)); return; } };
            let had = self.m.nodes[n].attrs.iter().find(|x| x.attribtype() == t).cloned();
            self.m.nodes[n].attrs.retain(|x| x.attribtype() != t);
            if del { let was = e.del_attrib(t); if format!("{:?}", was) != format!("{:?}", had) { cx.fail(&["C01", "C08"], "removed", format!("attribute {:?} instead of {:?}", was, had)); return; } }
            else { e.set_attrib(a.clone()); self.m.nodes[n].attrs.push(a); }
            self.check(cx, Sit::Touch);
            return;
        }
    }
    fn gen_clock(&mut self, cx: &mut Cx, r: &mut Rng) {
        let s = match r.below(8) { 0 => r.range(-62_000_000_000, -1), 1 => r.range(-100_000, 100_000), 2 => r.range(4_000_000_000, 250_000_000_000), 3 => *r.pick(&[0, -1, 1, 2_147_483_647, 2_147_483_648, 4_294_967_296, 951_782_400, 1_709_164_799]), _ => r.range(1_000_000_000, 2_000_000_000) };
        let n = *r.pick(&[0, 1, 500_000_000, 999_999_999]);
        sys::set_clock(s, n, 0);
        self.next += 1;
        let id = format!("auto.{}", self.next);
        cx.ev(&format!("the clock shows {}.{:09}; autofill {}", s, n, id));
        cx.count("clock_jumps");
        let mut args: Vec<String> = std::env::args_os().map(|a| a.to_string_lossy().into_owned()).collect();
        let p = Processor::new("auto".to_string()).with_id(id.clone()).autofill();
        let sub: Vec<Processor> = p.pending_processors.borrow().iter().cloned().collect();
        let fixed: Vec<String> = (0..sub.len()).map(|i| format!("{}.lib{}", id, i)).collect();
        let p2 = p.clone();
        let real = self.d.add_processor(p2);
        let key = match real { Ok(k) => k, Err(e) => { cx.fail(&["C14", "C11"], "refused", format!("{}", e)); return; } };
        let want = chrono::NaiveDateTime::from_timestamp(s, 0).format("%Y-%m-%dT%H:%M:%S").to_string();
        let q = match self.d.get_processor(key) { Some(q) => q, None => { cx.fail(&["C14", "C11"], "gone", id); return; } };
        let got = dt(&q.begindatetime);
        if got.as_deref() != Some(want.as_str()) { cx.fail(&["C14"], "begin", format!("clock {}.{:09}: expected {:?}, recorded {:?}", s, n, want, got)); return; }
        let cmd = args.join(" ");
        args.clear();
        if q.command != cmd || q.host != std::env::var("HOST").unwrap_or_default() || q.user != std::env::var("USER").unwrap_or_default() { cx.fail(&["C14"], "environment", format!("command {:?} host {:?} user {:?}", q.command, q.host, q.user)); return; }
        let _ = (sub, fixed);
        // into the model as found (identifiers of library subprocessors are random)
        let spec = from_real(&self.d, key);
        self.m.adopt_processor(&spec);
        if r.pct(50) { // an end time, via the public fields
            let e = chrono::NaiveDateTime::from_timestamp(s.saturating_add(r.range(0, 1_000_000)), 0);
            if let Some(q) = self.d.get_mut_processor(key) { q.enddatetime = Some(e); }
            let k = self.m.proc_by_id(&id).unwrap();
            self.m.procs[k].end = dt(&Some(e));
        }
        if r.pct(50) { self.d.activate_processor(key); self.m.active = self.m.proc_by_id(&id); }
        self.check(cx, Sit::Proc);
    }
    /// Reads through every accessor; comparing is the check.
    fn gen_read(&mut self, cx: &mut Cx, _r: &mut Rng) { cx.ev("read everything"); self.check(cx, Sit::Read); }
}
fn good_clash(m: &Model, s: &Spec) -> bool { let mut c = false; s.walk(&mut |x| if let Some(i) = &x.id { if m.ids.contains_key(i) { c = true; } }); c }
fn m_printable(e: ElementType) -> bool { row(e).printable || row(e).textcontainer }
fn from_real(d: &Document, k: ProcKey) -> ProcSpec {
    let q = d.get_processor(k).unwrap();
    let p = MProc { id: q.id.clone(), name: q.name.clone(), ptype: PTYPES.iter().position(|t| *t == q.processortype).unwrap_or(0) as u8, version: q.version.clone(), folia_version: q.folia_version.clone(), document_version: q.document_version.clone(), command: q.command.clone(), host: q.host.clone(), user: q.user.clone(), begin: dt(&q.begindatetime), end: dt(&q.enddatetime), src: q.src.clone(), format: q.format.clone(), resourcelink: q.resourcelink.clone(), meta: q.metadata.data.iter().map(|(k, v)| (k.clone(), v.clone())).collect(), subs: vec![], parent: None };
    ProcSpec { p, subs: q.processors.clone().into_iter().map(|s| from_real(d, s)).collect(), existing: vec![] }
}
