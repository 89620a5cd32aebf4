//! Queries: random criteria, the real thing, and what the reference model says they must return.
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::prng::Rng;
use crate::tables::*;
use folia::*;
use std::collections::HashMap;

pub const GROUPS: [ElementGroup; 11] = [ElementGroup::Layer, ElementGroup::Content, ElementGroup::CorrectionChild, ElementGroup::HigherOrder, ElementGroup::Inline, ElementGroup::Span, ElementGroup::SpanRole, ElementGroup::Structure, ElementGroup::Subtoken, ElementGroup::TextMarkup, ElementGroup::Feature];
pub fn in_group(g: ElementGroup, e: ElementType) -> bool {
    (match g {
        ElementGroup::Layer => G_LAYER, ElementGroup::Content => G_CONTENT, ElementGroup::CorrectionChild => G_CORRECTIONCHILD, ElementGroup::HigherOrder => G_HIGHERORDER, ElementGroup::Inline => G_INLINE,
        ElementGroup::Span => G_SPAN, ElementGroup::SpanRole => G_SPANROLE, ElementGroup::Structure => G_STRUCTURE, ElementGroup::Subtoken => G_SUBTOKEN, ElementGroup::TextMarkup => G_TEXTMARKUP, ElementGroup::Feature => G_FEATURE,
    }).contains(&e)
}

#[derive(Clone, Debug)]
pub struct Crit {
    pub et: Option<ElementType>, pub group: Option<ElementGroup>, pub ctx: Option<ElementType>,
    pub set: Cmp<String>, pub class: Cmp<String>, pub subset: Cmp<String>, pub proc: Cmp<String>,
    pub annotator: Cmp<String>, pub atype: Cmp<ProcessorType>, pub conf: Cmp<f64>,
    pub raw: bool, pub plain: u8, pub text: bool, pub comments: bool, pub elements: bool,
}
fn near<T: Clone + std::fmt::Debug>(r: &mut Rng, v: Option<T>, other: T) -> Cmp<T> {
    match (r.below(10), v) { (0, _) => Cmp::Some, (1, _) => Cmp::None, (2, _) => Cmp::Is(other), (_, Some(x)) => Cmp::Is(x), (_, None) => if r.pct(50) { Cmp::None } else { Cmp::Some } }
}
impl Crit {
    pub fn any() -> Crit { Crit { et: None, group: None, ctx: None, set: Cmp::Any, class: Cmp::Any, subset: Cmp::Any, proc: Cmp::Any, annotator: Cmp::Any, atype: Cmp::Any, conf: Cmp::Any, raw: false, plain: 0, text: false, comments: false, elements: true } }
    /// Criteria modelled on an element that exists, so that most queries have matches.
    pub fn draw(r: &mut Rng, m: &Model, around: &[Nid]) -> Crit {
        let mut c = Crit::any();
        if r.pct(8) { c.raw = true; c.elements = r.pct(60); c.text = r.pct(60); c.comments = r.pct(60); if !c.elements && !c.text && !c.comments { c.text = true; } return c; }
        if r.pct(25) { c.plain = 1 + r.below(3) as u8; }
        let n = *r.pick(around);
        let x = &m.nodes[n];
        if x.et == ElementType::Feature && x.dec.is_some() && r.pct(70) {
            let p = x.parent.unwrap_or(n);
            c.et = Some(ElementType::Feature);
            if let (Some(set), true) = (m.set(n), row(m.nodes[p].et).at.is_some()) {
                c.ctx = Some(m.nodes[p].et);
                c.set = Cmp::Is(set.to_string());
                c.subset = match r.below(6) { 0 => Cmp::Some, 1 => Cmp::Is("no such subset".into()), _ => x.subset.clone().map_or(Cmp::Some, Cmp::Is) };
                if r.pct(50) { c.class = near(r, x.class.clone(), "no such class".into()); }
                // classes of the annotations themselves are not classes of their features
                if let (Some(d), true) = (x.dec, r.pct(15)) { let v: Vec<&String> = m.decs[d].classes.iter().collect(); if !v.is_empty() { c.class = Cmp::Is((*r.pick(&v)).clone()); } }
            } else if r.pct(50) { c.subset = Cmp::Some; }
        } else {
            match r.below(5) { 0 => {} 1 | 2 => { let g: Vec<ElementGroup> = GROUPS.iter().copied().filter(|g| in_group(*g, x.et)).collect(); if !g.is_empty() { c.group = Some(*r.pick(&g)); } else { c.et = Some(x.et); } } 3 => { c.et = Some(x.et); if r.pct(10) { c.group = Some(*r.pick(&GROUPS)); } } _ => c.et = Some(x.et) }
            if c.et.is_some() {
                if r.pct(50) { match (m.set(n), r.below(8)) { (_, 0) => c.set = Cmp::Some, (_, 1) => c.set = Cmp::Is("no such set".into()), (Some(s), _) => c.set = Cmp::Is(s.to_string()), _ => {} } }
                if let Cmp::Is(_) = c.set {
                    if r.pct(50) { c.class = near(r, x.class.clone(), "no such class".into()); }
                    if let (Some(d), true) = (x.dec, r.pct(6)) { let v: Vec<&String> = m.decs[d].subclasses.iter().chain(m.decs[d].classes.iter()).collect(); if !v.is_empty() { c.class = Cmp::Is((*r.pick(&v)).clone()); } }
                } else if r.pct(15) { c.class = if r.pct(50) { Cmp::Some } else { Cmp::None }; }
            } else if r.pct(30) { c.set = Cmp::Some; }
            if r.pct(8) { c.subset = if r.pct(50) { Cmp::None } else { Cmp::Some }; }
        }
        if r.pct(20) { c.proc = near(r, x.proc.map(|p| m.procs[p].id.clone()), "no.such.processor".into()); }
        if r.pct(12) { c.annotator = near(r, m.annotator(n), "nobody".into()); }
        if r.pct(16) { let other = *r.pick(&PTYPES); c.atype = near(r, m.annotatortype(n), other); }
        if r.pct(10) { c.conf = near(r, m.confidence(n), 0.5); }
        c
    }
    pub fn selector(&self, d: &Document) -> Result<Selector, FoliaError> {
        if self.raw {
            let mut s = if self.elements { Selector::elements() } else { Selector::default() };
            if self.elements && self.text && self.comments { return Ok(Selector::all_data()); }
            if self.text { s = s.with_text(); }
            if self.comments { s = s.with_comments(); }
            return Ok(s);
        }
        let mut q = Query::select();
        if let Some(e) = self.et { q = q.element(Cmp::Is(e)); }
        if let Some(g) = self.group { q = q.elementgroup(Cmp::Is(g)); }
        if let Some(e) = self.ctx { q = q.contexttype(Cmp::Is(e)); }
        q = q.set(self.set.clone()).class(self.class.clone()).subset(self.subset.clone()).processor(self.proc.clone()).annotator(self.annotator.clone()).annotatortype(self.atype.clone()).confidence(self.conf.clone());
        // the same without a query, or spelled out
        let simple = self.ctx.is_none() && self.set == Cmp::Any && self.class == Cmp::Any && self.subset == Cmp::Any && self.proc == Cmp::Any && self.annotator == Cmp::Any && self.atype == Cmp::Any && self.conf == Cmp::Any;
        if self.plain % 2 == 1 && simple {
            let mut s = if self.plain == 1 { Selector::elements() } else { Selector::default() };
            if let Some(e) = self.et { s = s.element(Cmp::Is(e)); }
            if let Some(g) = self.group { s = s.elementgroup(Cmp::Is(g)); }
            return Ok(s);
        }
        let s = Selector::from_query(d, &q)?;
        Ok(if self.plain == 2 { s.with_elements() } else { s })
    }
    fn m(&self, m: &Model, n: Nid) -> bool {
        let x = &m.nodes[n];
        if !self.elements { return false; }
        if let Some(e) = self.et { if x.et != e { return false; } }
        if let Some(g) = self.group { if !in_group(g, x.et) { return false; } }
        let dec_ok = match &self.set {
            Cmp::Is(s) => { let at = self.ctx.or(self.et).and_then(|e| row(e).at); x.dec.is_some() && at.map_or(false, |at| m.dec_exact(at, &Some(s.clone())) == x.dec) }
            Cmp::Some => x.dec.is_some(), Cmp::None => x.dec.is_none(), _ => true,
        };
        dec_ok && cmp(&self.class, x.class.as_ref()) && cmp(&self.subset, x.subset.as_ref()) && cmp(&self.proc, x.proc.map(|p| m.procs[p].id.clone()).as_ref())
            && cmp(&self.annotator, m.annotator(n).as_ref()) && cmp(&self.atype, m.annotatortype(n).as_ref()) && cmp(&self.conf, m.confidence(n).as_ref())
    }
}
fn cmp<T: PartialEq>(c: &Cmp<T>, x: Option<&T>) -> bool where T: std::fmt::Debug {
    match c { Cmp::Any => true, Cmp::Is(v) => x == Some(v), Cmp::Some => x.is_some(), Cmp::None => x.is_none(), Cmp::Unmatchable => false }
}
pub fn matches(cs: &[Crit], m: &Model, n: Nid) -> bool { cs.iter().any(|c| c.m(m, n)) }

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Hit { El(Nid), Text(Nid, String), Comment(Nid, String), Ref(Nid) }

#[derive(Clone, Debug)]
pub enum Rec { No, Always, Only(Vec<ElementType>, Vec<ElementGroup>), Except(Vec<ElementType>, Vec<ElementGroup>) }
impl Rec {
    pub fn draw(r: &mut Rng, m: &Model, around: &[Nid]) -> Rec {
        let mut et = vec![];
        let mut g = vec![];
        for _ in 0..1 + r.below(3) { et.push(m.nodes[*r.pick(around)].et); }
        if r.pct(50) { for _ in 0..1 + r.below(4) / 3 { g.push(*r.pick(&GROUPS)); } if r.pct(35) { et.clear(); } }
        match r.below(10) { 0 | 1 => Rec::No, 2 | 3 => Rec::Only(et, g), 4 | 5 => Rec::Except(et, g), _ => Rec::Always }
    }
    pub fn real(&self) -> Recursion {
        let l = |e: &[ElementType], g: &[ElementGroup]| { let mut v: Vec<AcceptedData> = e.iter().map(|x| AcceptedData::AcceptElementType(*x)).collect(); v.extend(g.iter().map(|x| AcceptedData::AcceptElementGroup(*x))); v };
        match self { Rec::No => Recursion::No, Rec::Always => Recursion::Always, Rec::Only(e, g) => Recursion::LimitedTo(l(e, g)), Rec::Except(e, g) => Recursion::ExceptFor(l(e, g)) }
    }
    /// May the children of the direct items of an element of this type be looked at?
    fn into(&self, e: ElementType) -> bool {
        let hit = |t: &Vec<ElementType>, g: &Vec<ElementGroup>| t.contains(&e) || g.iter().any(|g| in_group(*g, e));
        match self { Rec::No => false, Rec::Always => true, Rec::Only(t, g) => hit(t, g), Rec::Except(t, g) => !hit(t, g) }
    }
}
fn visit(m: &Model, n: Nid, cs: &[Crit], rec: &Rec, refs: bool, out: &mut Vec<Hit>) {
    for i in &m.nodes[n].items {
        match i {
            MI::El(c) => { if matches(cs, m, *c) { out.push(Hit::El(*c)); } if rec.into(m.nodes[n].et) { visit(m, *c, cs, rec, refs, out); } }
            MI::Text(t) => if cs.iter().any(|c| c.text) { out.push(Hit::Text(n, t.clone())) },
            MI::Comment(t) => if cs.iter().any(|c| c.comments) { out.push(Hit::Comment(n, t.clone())) },
            MI::Span(s) => if refs && matches(cs, m, *s) { out.push(Hit::Ref(*s)) },
        }
    }
}
/// (hits in document order other than span annotations, span annotations as a sorted set)
pub fn expected(m: &Model, start: Nid, cs: &[Crit], rec: &Rec, inclusive: bool, refs: bool) -> (Vec<Hit>, Vec<Nid>) {
    let mut out = vec![];
    if inclusive && matches(cs, m, start) { out.push(Hit::El(start)); }
    visit(m, start, cs, rec, refs, &mut out);
    if !refs { return (out, vec![]); }
    let mut spans = vec![];
    out.retain(|h| match h { Hit::Ref(n) => { spans.push(*n); false } Hit::El(n) if is_span(m.nodes[*n].et) => { spans.push(*n); false } _ => true });
    spans.sort(); spans.dedup();
    (out, spans)
}

fn keymap(m: &Model) -> HashMap<ElementKey, Nid> { m.nodes.iter().enumerate().filter_map(|(i, n)| n.key.map(|k| (k, i))).collect() }
fn key(m: &Model, n: Nid) -> ElementKey { m.nodes[n].key.expect("every model element has a key") }

struct Running<'a> { it: SelectIterator<'a>, got: Vec<Hit>, done: bool }

fn pull(x: &mut Running, km: &HashMap<ElementKey, Nid>, start: Nid) -> Result<(), String> {
    match x.it.next() {
        None => { x.done = true; }
        Some(i) => {
            let p = km.get(&i.parent_key).copied().unwrap_or(usize::MAX);
            x.got.push(match i.data {
                DataType::Element(k) => Hit::El(km.get(k).copied().ok_or_else(|| format!("unknown element {}", k))?),
                DataType::SpanReference(k) => Hit::Ref(km.get(k).copied().ok_or_else(|| format!("unknown span {}", k))?),
                DataType::Text(t) => Hit::Text(p, t.clone()),
                DataType::Comment(t) => Hit::Comment(p, t.clone()),
                DataType::AddElement(_) => return Err("an unborn element was returned".into()),
            });
            let _ = start;
        }
    }
    if x.got.len() > 200_000 { return Err("endless".into()); }
    Ok(())
}
/// Text may be stored in any number of pieces.
fn joined(v: Vec<Hit>) -> Vec<Hit> {
    let mut a: Vec<Hit> = vec![];
    for h in v {
        if let (Hit::Text(n, t), Some(Hit::Text(k, u))) = (&h, a.last_mut()) { if n == k { u.push_str(t); continue; } }
        a.push(h);
    }
    a
}
fn tidy(m: &Model, got: &[Hit], refs: bool) -> Result<(Vec<Hit>, Vec<Nid>), String> {
    let mut a = vec![];
    let mut spans = vec![];
    for h in got {
        match h {
            Hit::Ref(n) => if refs { spans.push(*n) },
            Hit::El(n) if refs && is_span(m.nodes[*n].et) => spans.push(*n),
            h => a.push(h.clone()),
        }
    }
    let a = joined(a);
    let all = spans.len();
    spans.sort(); spans.dedup();
    if spans.len() != all { return Err("a span annotation was returned more than once".into()); }
    Ok((a, spans))
}
fn show(m: &Model, h: &[Hit]) -> String { h.iter().take(12).map(|h| match h { Hit::El(n) | Hit::Ref(n) => format!("{:?}#{}", m.nodes[*n].et, n), Hit::Text(n, t) => format!("text {:?} in #{}", t, n), Hit::Comment(n, t) => format!("comment {:?} in #{}", t, n) }).collect::<Vec<_>>().join(", ") }

/// One to three selections, advanced in an interleaved fashion.
pub fn select(d: &Document, m: &Model, cx: &mut Cx, r: &mut Rng) {
    let live = m.reachable();
    let n = *r.pick(&[1, 1, 2, 3]);
    let loose: Vec<Nid> = crate::snap::model_roots(m).into_iter().filter(|n| *n != 0 && m.nodes[*n].key.is_some()).collect();
    let mut jobs = vec![];
    for _ in 0..n {
        let huge = m.nodes.len() > 65536 && r.pct(60); // all there is in a document that 16 bits cannot number
        let start = if huge || r.pct(40) { 0 } else if r.pct(90) { *r.pick(&live) } else { r.below(m.nodes.len()) };
        // among what was detached as well
        let start = if !huge && !loose.is_empty() && r.pct(12) { *r.pick(&loose) } else { start };
        let mut near = m.descendants(start);
        if near.is_empty() || r.pct(15) { near = live.clone(); }
        let k = *r.pick(&[1, 1, 1, 1, 2, 2, 3, 4, 5]);
        let mut cs: Vec<Crit> = (0..k).map(|_| Crit::draw(r, m, &near)).collect();
        let mut rec = Rec::draw(r, m, &near);
        let inclusive = r.pct(if start != 0 && loose.contains(&start) { 60 } else { 20 });
        let mut refs = r.pct(60);
        if huge { let mut c = Crit::any(); if r.pct(50) { c.group = Some(ElementGroup::Span); } cs = vec![c]; rec = Rec::Always; refs = true; }
        jobs.push((start, cs, rec, inclusive, refs));
    }
    let km = keymap(m);
    let mut run = vec![];
    for (start, cs, rec, inclusive, refs) in &jobs {
        cx.ev(&format!("select below #{} {:?} where {:?} recursion {:?} inclusive {} spanreferences {}", start, m.nodes[*start].et, cs, rec, inclusive, refs));
        let mut parts = vec![];
        for c in cs {
            match c.selector(d) {
                Err(e) => { cx.fail(&["C08"], "query-refused", format!("{:?}: {}", c, e)); return; }
                Ok(s) => parts.push(s),
            }
        }
        let sel = union(parts, r);
        run.push(Running { it: d.select_data_by_key(key(m, *start), sel, rec.real(), *inclusive, *refs), got: vec![], done: false });
    }
    while run.iter().any(|x| !x.done) {
        let open: Vec<usize> = (0..run.len()).filter(|i| !run[*i].done).collect();
        let i = *r.pick(&open);
        for _ in 0..1 + r.below(6) { if !run[i].done { if let Err(e) = pull(&mut run[i], &km, jobs[i].0) { cx.fail(&["C08"], "query-result", e); return; } } }
    }
    for (x, (start, cs, rec, inclusive, refs)) in run.iter().zip(&jobs) {
        let mut want = expected(m, *start, cs, rec, *inclusive, *refs);
        want.0 = joined(want.0);
        cx.count("queries");
        if !want.0.is_empty() || !want.1.is_empty() { cx.count("queries_with_hits"); }
        match tidy(m, &x.got, *refs) {
            Err(e) => { cx.fail(&["C08"], "query-twice", format!("{} (below #{} where {:?})", e, start, cs)); return; }
            Ok(got) => if got != want {
                let w: Vec<Hit> = want.1.iter().map(|n| Hit::Ref(*n)).collect();
                let g: Vec<Hit> = got.1.iter().map(|n| Hit::Ref(*n)).collect();
                let i = (0..want.0.len().max(got.0.len())).find(|i| want.0.get(*i) != got.0.get(*i)).unwrap_or(0);
                cx.fail(&["C08"], "query-result", format!("below #{} where {:?} recursion {:?} inclusive {} spanreferences {}: expected {} items and {} spans, got {} and {}; from item {}: expected [{}], got [{}]; spans expected [{}], got [{}]", start, cs, rec, inclusive, refs,
                    want.0.len(), want.1.len(), got.0.len(), got.1.len(), i, show(m, &want.0[i.min(want.0.len())..]), show(m, &got.0[i.min(got.0.len())..]), show(m, &w), show(m, &g)));
                return;
            },
        }
    }
    // the elements-only iterator agrees
    let (start, cs, rec, inclusive, refs) = &jobs[0];
    let sel = union(cs.iter().filter_map(|c| c.selector(d).ok()).collect(), r);
    let got: Vec<Hit> = d.select_by_key(key(m, *start), sel, rec.real(), *inclusive, *refs).map(|e| e.key().and_then(|k| km.get(&k).copied()).map_or(Hit::El(usize::MAX), Hit::El)).collect();
    // (without following references it has each span annotation once, at its own place)
    let want: Vec<Hit> = run[0].got.iter().filter_map(|h| match h { Hit::Ref(_) if !*refs => None, Hit::El(n) | Hit::Ref(n) => Some(Hit::El(*n)), _ => None }).collect();
    if got != want { cx.fail(&["C08"], "query-elements", format!("the element iterator returned {} elements, the data iterator {}", got.len(), want.len())); }
}

/// The union of selectors, put together in any order of association.
fn union(mut parts: Vec<Selector>, r: &mut Rng) -> Selector {
    while parts.len() > 1 {
        let i = if r.pct(50) { 0 } else { r.below(parts.len() - 1) };
        let b = parts.remove(i + 1);
        let a = parts.remove(i);
        parts.insert(i, a.and(b));
    }
    parts.pop().expect("a selector")
}
/// The conveniences on elements, and the queries looking upwards.
pub fn convenience(d: &Document, m: &Model, cx: &mut Cx, r: &mut Rng) {
    let live = m.reachable();
    let n = *r.pick(&live);
    let km = keymap(m);
    let e = match d.get_element(key(m, n)) { Some(e) => e, None => { cx.fail(&["C08", "C06"], "gone", format!("element #{} is gone", n)); return; } };
    let nid = |e: &Element| e.key().and_then(|k| km.get(&k).copied()).unwrap_or(usize::MAX);
    match r.below(4) {
        0 => { // ancestors
            let anc = m.ancestors(n);
            if anc.is_empty() { return; }
            let c = Crit::draw(r, m, &anc);
            if c.raw || c.ctx.is_some() { return; }
            cx.ev(&format!("ancestors of #{} where {:?}", n, c));
            let sel = match c.selector(d) { Ok(s) => s, Err(e) => { cx.fail(&["C08"], "query-refused", format!("{}", e)); return; } };
            let want: Vec<Nid> = anc.iter().copied().filter(|a| matches(&[c.clone()], m, *a)).collect();
            let got: Vec<Nid> = e.ancestors(sel.clone()).map(|x| nid(&x)).collect();
            if got != want { cx.fail(&["C08"], "ancestors", format!("of #{} where {:?}: expected {:?}, got {:?}", n, c, want, got)); return; }
            let other = *r.pick(&live);
            let third = *r.pick(&live);
            let ks: Vec<Nid> = if r.pct(50) { vec![n, other] } else { vec![n, other, third] };
            let want: Vec<Nid> = m.common_ancestors(&ks).into_iter().filter(|a| matches(&[c.clone()], m, *a)).collect();
            let got: Vec<Nid> = d.common_ancestors(sel, &ks.iter().map(|k| key(m, *k)).collect::<Vec<_>>()).iter().map(|k| km.get(k).copied().unwrap_or(usize::MAX)).collect();
            cx.count("common_ancestor_queries");
            if got != want { cx.fail(&["C08"], "common-ancestors", format!("of {:?} where {:?}: expected {:?}, got {:?}", ks, c, want, got)); }
        }
        1 => { // nearest ancestor by type or group
            let anc = m.ancestors(n);
            if anc.is_empty() { return; }
            let a = m.nodes[*r.pick(&anc)].et;
            let got = e.get_ancestor(a, Cmp::Any).map(|x| nid(&x));
            let want = anc.iter().copied().find(|x| m.nodes[*x].et == a);
            cx.ev(&format!("nearest {:?} above #{}", a, n));
            if got != want { cx.fail(&["C08"], "ancestors", format!("nearest {:?} above #{}: expected {:?}, got {:?}", a, n, want, got)); return; }
            let g = *r.pick(&GROUPS);
            let got = e.get_ancestor_by_group(g, Cmp::Any).map(|x| nid(&x));
            let want = anc.iter().copied().find(|x| in_group(g, m.nodes[*x].et));
            if got != want { cx.fail(&["C08"], "ancestors", format!("nearest {:?} above #{}: expected {:?}, got {:?}", g, n, want, got)); return; }
            let got: Vec<Nid> = e.get_ancestors_by_group(g, Cmp::Any).map(|x| nid(&x)).collect();
            let want: Vec<Nid> = anc.iter().copied().filter(|x| in_group(g, m.nodes[*x].et)).collect();
            if got != want { cx.fail(&["C08"], "ancestors", format!("all {:?} above #{}: expected {:?}, got {:?}", g, n, want, got)); }
        }
        2 => { // annotations by type and set
            let below: Vec<Nid> = m.descendants(n).into_iter().filter(|x| row(m.nodes[*x].et).at.is_some() && AROWS.iter().any(|a| a.et == m.nodes[*x].et)).collect();
            if below.is_empty() { return; }
            let x = *r.pick(&below);
            let at = row(m.nodes[x].et).at.unwrap();
            if arow(at).et != m.nodes[x].et { return; }
            let set = match m.set(x) { Some(s) if r.pct(60) => Cmp::Is(s.to_string()), _ => Cmp::Any };
            let mut c = Crit::any();
            c.et = Some(m.nodes[x].et); c.set = set.clone();
            let rec = if r.pct(70) { Rec::Always } else { Rec::No };
            cx.ev(&format!("annotations {:?} {:?} below #{} {:?}", at, set, n, rec));
            let got: Vec<Hit> = e.get_annotations(at, set.clone(), rec.real()).map(|x| Hit::El(nid(&x))).collect();
            let want = expected(m, n, &[c], &rec, false, true);
            match tidy(m, &got, true) { Ok(g) if g == want => {} g => { cx.fail(&["C08"], "annotations", format!("{:?} {:?} below #{}: expected {:?}, got {:?}", at, set, n, want, g)); return; } }
            let first = e.get_annotation(at, set, rec.real()).map(|x| Hit::El(nid(&x)));
            if first != got.first().cloned() { cx.fail(&["C08"], "annotations", format!("the first {:?} below #{} differs: {:?}", at, n, first)); }
        }
        _ => { // features
            let with: Vec<Nid> = live.iter().copied().filter(|x| m.children(*x).iter().any(|c| m.nodes[*c].et == ElementType::Feature)).collect();
            if with.is_empty() { return; }
            let n = *r.pick(&with);
            let e = match d.get_element(key(m, n)) { Some(e) => e, None => return };
            let sub = if r.pct(70) { m.children(n).iter().find_map(|c| m.nodes[*c].subset.clone()).unwrap_or_default() } else { r.pick(&SUBSETS).to_string() };
            if m.nodes[n].dec.is_none() { return; }
            cx.ev(&format!("features {:?} of #{}", sub, n));
            let want: Vec<Nid> = m.children(n).into_iter().filter(|c| m.nodes[*c].et == ElementType::Feature && m.nodes[*c].dec == m.nodes[n].dec && m.nodes[*c].subset.as_deref() == Some(&sub)).collect();
            let got: Vec<Nid> = e.get_features(Cmp::Is(sub.clone())).map(|x| nid(&x)).collect();
            if got != want { cx.fail(&["C08", "C10"], "features", format!("{:?} of #{}: expected {:?}, got {:?}", sub, n, want, got)); return; }
            if let Some(f) = e.get_feature(Cmp::Is(sub.clone())) {
                let cl = f.class().map(|s| s.to_string());
                if cl != m.nodes[want[0]].class { cx.fail(&["C08", "C10"], "features", format!("{:?} of #{}: class {:?} instead of {:?}", sub, n, cl, m.nodes[want[0]].class)); }
            }
        }
    }
}

/// From spans to words and back.
pub fn spans(d: &Document, m: &Model, cx: &mut Cx, r: &mut Rng) {
    let live = m.reachable();
    let sp: Vec<Nid> = live.iter().copied().filter(|n| is_span(m.nodes[*n].et)).collect();
    if sp.is_empty() { return; }
    let n = *r.pick(&sp);
    let km = keymap(m);
    let nid = |e: &Element| e.key().and_then(|k| km.get(&k).copied()).unwrap_or(usize::MAX);
    cx.ev(&format!("words of span #{} {:?}", n, m.nodes[n].et));
    cx.count("span_lookups");
    let e = match d.get_element(key(m, n)) { Some(e) => e, None => { cx.fail(&["C15"], "span-gone", format!("span #{} is gone", n)); return; } };
    let want: Vec<Nid> = m.descendants(n).into_iter().filter(|x| m.nodes[*x].et == ElementType::WordReference).filter_map(|w| m.idref(w).and_then(|i| m.ids.get(i).copied())).collect();
    let mut got = vec![];
    for w in e.select(Selector::elements().element(Cmp::Is(ElementType::WordReference)), Recursion::Always) {
        got.push(w.resolve().map_or(usize::MAX, |x| nid(&x)));
    }
    if got != want { cx.fail(&["C15"], "span-words", format!("span #{}: words expected {:?}, resolved {:?}", n, want, got)); return; }
    // each word leads back to it
    for w in m.span_words(n) {
        let word = match d.get_element(key(m, w)) { Some(e) => e, None => { cx.fail(&["C15"], "word-gone", format!("word #{} is gone", w)); return; } };
        let mut c = Crit::any();
        c.et = Some(m.nodes[n].et);
        if let Some(s) = m.set(n) { c.set = Cmp::Is(s.to_string()); }
        let sel = match c.selector(d) { Ok(s) => s, Err(e) => { cx.fail(&["C08"], "query-refused", format!("{}", e)); return; } };
        let hits: Vec<Nid> = word.select(sel, if r.pct(50) { Recursion::No } else { Recursion::Always }).map(|x| nid(&x)).collect();
        if hits.iter().filter(|x| **x == n).count() != 1 { cx.fail(&["C15"], "word-span", format!("word #{} should lead to span #{} once, but gives {:?}", w, n, hits)); return; }
    }
}
