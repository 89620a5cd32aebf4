//! The scenarios: what a plan for each property does.
use crate::core::*;
use crate::gen::*;
use crate::json::J;
use crate::prng::{hash_bytes, hash_str, mix2, Rng};
use crate::session::*;
use crate::snap::*;
use crate::{cli, damage, sys, threads};
use folia::*;

pub const PROPS: [&str; 19] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"];

/// Mix of operations per property.
fn weights(prop: &str) -> &'static [(&'static str, u32)] {
    match prop {
        "C01" => &[("orphan", 2), ("touch", 3), ("api", 1), ("add", 20), ("span", 8), ("declare", 4), ("proc", 4), ("meta", 4), ("move", 4), ("detach", 2), ("reattach", 2), ("wrap", 3), ("clock", 1), ("restart", 16), ("stable", 4), ("save", 2)],
        "C06" => &[("api", 4), ("touch", 1), ("add", 20), ("span", 6), ("move", 16), ("detach", 10), ("reattach", 10), ("orphan", 6), ("wrap", 6), ("bad", 8), ("restart", 3)],
        "C07" => &[("touch", 1), ("bad", 28), ("add", 10), ("span", 8), ("proc", 4), ("declare", 2), ("move", 2), ("detach", 2), ("orphan", 2), ("restart", 2), ("save", 1)],
        "C08" => &[("orphan", 2), ("api", 8), ("touch", 3), ("add", 12), ("span", 8), ("move", 4), ("detach", 2), ("reattach", 1), ("restart", 2), ("proc", 2), ("query", 28), ("up", 12)],
        "C09" => &[("orphan", 2), ("touch", 10), ("api", 4), ("add", 16), ("move", 6), ("detach", 4), ("reattach", 2), ("restart", 4), ("text", 24), ("span", 6), ("wrap", 2)],
        "C10" => &[("orphan", 2), ("api", 4), ("add", 16), ("span", 6), ("declare", 12), ("restart", 10), ("wrap", 2), ("read", 1), ("up", 3), ("proc", 1)],
        "C11" => &[("orphan", 2), ("api", 3), ("proc", 16), ("add", 16), ("span", 4), ("restart", 10), ("clock", 2), ("declare", 2), ("bad", 1)],
        "C14" => &[("clock", 20), ("restart", 12), ("proc", 6), ("add", 6), ("save", 2)],
        "C15" => &[("orphan", 4), ("api", 3), ("span", 24), ("add", 8), ("restart", 8), ("spans", 12), ("bad", 3), ("move", 2), ("wrap", 2)],
        "C16" => &[("meta", 20), ("restart", 14), ("add", 3), ("stable", 2), ("declare", 1), ("proc", 1)],
        "C12" => &[("orphan", 1), ("api", 3), ("touch", 2), ("add", 14), ("span", 6), ("query", 6), ("up", 2), ("text", 4), ("spans", 2), ("move", 3), ("detach", 2), ("reattach", 1), ("proc", 3), ("declare", 3), ("meta", 2), ("save", 4), ("restart", 6), ("stable", 2), ("bad", 2)],
        "C13" => &[("orphan", 2), ("api", 3), ("touch", 2), ("add", 14), ("span", 6), ("proc", 4), ("declare", 4), ("meta", 8), ("move", 2), ("detach", 1), ("save", 12), ("restart", 6), ("stable", 8)],
        "C02" => &[("cut", 10), ("cutnear", 6), ("cuttag", 8), ("zero", 4), ("sweep", 1)],
        "C03" => &[("deliver", 1)],
        "C04" => &[("openfail", 2), ("readfail", 6), ("nthfail", 3), ("missing", 1), ("edit", 2)],
        "C05" => &[("damage", 1)],
        "C17" => &[("good", 8), ("damaged", 2), ("cut", 2), ("missing", 2), ("openfail", 2), ("readfail", 2), ("dir", 1), ("again", 2)],
        "C18" => &[("load", 4), ("save", 3), ("query", 6), ("text", 3), ("up", 2), ("edit", 2)],
        "C19" => &[("procs", 1), ("subprocs", 1), ("decls", 1), ("subsets", 1), ("loaddecls", 1), ("loadprocs", 1)],
        _ => &[],
    }
}
pub fn plan(prop: &str, master: u64, i: u64) -> Plan {
    let seed = mix2(mix2(master, hash_str(prop)), i);
    let mut r = Rng::new(seed);
    let w = weights(prop);
    let ws: Vec<u32> = w.iter().map(|x| x.1).collect();
    let mut size = *r.pick(&[4u64, 12, 12, 40, 40, 120, 300]);
    let mut n = *r.pick(&[3usize, 8, 15, 15, 30, 60]);
    match prop {
        "C02" | "C03" | "C04" => { n = 6 + r.below(12); }
        "C05" => { n = 10 + r.below(15); size = *r.pick(&[2u64, 6, 12, 40, 40, 100]); }
        "C12" => { n = *r.pick(&[4usize, 8, 16, 30]); size = *r.pick(&[4u64, 12, 40, 80]); }
        "C13" => { size = *r.pick(&[4u64, 12, 40, 120]); n = *r.pick(&[3usize, 8, 15, 25]); }
        "C17" => { n = 1 + r.below(6); size = *r.pick(&[2u64, 12, 40, 200]); }
        "C18" => { n = 2 + r.below(5); size = *r.pick(&[2_000u64, 5_000, 10_000, 20_000]); if r.pct(2) { size = 140_000; n = 3; } }
        "C19" => { n = 1; size = 0; }
        x if is_session(x) => {
            if r.pct(if x == "C01" { 4 } else { 2 }) { size = 2500; n = 6; }
            // more elements than 16 bits can tell apart
            else if r.chance(if x == "C08" { 30 } else { 15 }, 10_000) { size = 140_000; n = 5; }
        }
        _ => {}
    }
    // many threads at the same thing: each with a document of its own, most of the steps of one kind
    let crowd = if prop == "C12" && r.pct(40) { Some((3 + r.below(3), *r.pick(&["text", "text", "text", "query", "up", "spans", "save", "add", "restart"]))) } else { None };
    if let Some((k, _)) = crowd { n += 5 * k; }
    let steps = (0..n).map(|i| { let op = w[r.weighted(&ws)].0; let s = r.next(); Step { op: match crowd {
        Some((k, same)) => { let t = i % k; format!("{}/{}/{}", t, if i < k || r.pct(10) { op } else { same }, if r.pct(90) { t } else { r.below(k) }) }
        None if prop == "C12" => format!("{}/{}/{}", r.below(3), op, r.below(3)),
        None => op.to_string() }, seed: s } }).collect();
    Plan { prop: prop.to_string(), seed, size, steps, prelude: vec![], master }
}

/// Operations whose panicking breaks which properties; empty: all.
pub fn blame(op: &str) -> &'static [&'static str] {
    match op {
        "add" | "wrap" | "bad" | "move" | "detach" | "reattach" | "orphan" => &["C06", "C07", "C10", "C11"],
        "span" => &["C06", "C07", "C15", "C10", "C11"],
        "proc" => &["C11", "C07", "C14"],
        "touch" => &["C01", "C06", "C09"],
        "declare" => &["C10"],
        "meta" => &["C16"],
        "save" => &["C01", "C13", "C16", "C10", "C11", "C14", "C15"],
        "restart" | "stable" => &["C01", "C13", "C10", "C11", "C14", "C15", "C16", "C09"],
        "query" | "up" => &["C08"],
        "spans" => &["C15", "C08"],
        "text" => &["C09"],
        "clock" => &["C14", "C11"],
        "create" => &["C01", "C06", "C10", "C11", "C14", "C15", "C16"],
        _ => &[],
    }
}
pub fn is_session(prop: &str) -> bool { matches!(prop, "C01" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C14" | "C15" | "C16") }

pub fn stack_for(prop: &str) -> usize { match prop { "C18" => 256 << 10, "C05" => 2 << 20, _ => 8 << 20 } }

/// Runs inside the simulated thread.
pub fn body(p: &Plan, cx: &mut Cx) {
    match p.prop.as_str() {
        x if is_session(x) => { session(p, cx, 0); }
        "C13" => { session(p, cx, 0); }
        "C02" => torn(p, cx),
        "C03" => delivery(p, cx),
        "C04" => readfaults(p, cx),
        "C05" => damaged(p, cx),
        "C12" => unreachable!(),
        "C17" => cli::run(p, cx),
        "C18" => crate::big::run(p, cx),
        "C19" => crate::limits::run(p, cx),
        x => panic!("no scenario for {}", x),
    }
}
pub fn now(cx: &mut Cx, i: usize, op: &str) { cx.step = i; set_current(op); }
thread_local! { static CURRENT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
pub fn set_current(op: &str) { let _q = sys::quiet(); CURRENT.with(|c| { let mut c = c.borrow_mut(); c.clear(); c.push_str(op); }) }
pub fn current() -> String { CURRENT.with(|c| c.borrow().clone()) }

/// `variant` 0: as planned; otherwise the same with unrelated activity around it. Returns the digests of everything saved.
pub fn session(p: &Plan, cx: &mut Cx, variant: u64) -> Vec<u64> {
    let mut r = Rng::new(p.seed ^ 0x5e55);
    let loaded = r.pct(if p.prop == "C14" || p.prop == "C11" { 50 } else { 80 });
    now(cx, 0, "create");
    let other = if variant > 0 { Some(noise(p.seed ^ variant)) } else { None };
    let mut s = match Session::create(cx, p.seed ^ 0xd0c, p.size, "doc", loaded) { Some(s) => s, None => return vec![] };
    for (i, st) in p.steps.iter().enumerate() {
        now(cx, i + 1, &st.op);
        if variant > 0 { if i % 3 == 0 { let _ = noise(p.seed ^ variant ^ i as u64); } let _ = s.d.xml(0, 1 + i % 3); }
        s.step(&st.op, st.seed, cx);
        if cx.stopped() { break; }
    }
    if !cx.stopped() && matches!(p.prop.as_str(), "C01" | "C10" | "C11" | "C14" | "C15" | "C16") {
        now(cx, p.steps.len() + 1, "restart");
        s.step("restart", p.seed ^ 0xe4d, cx);
        if !cx.stopped() && p.prop == "C15" { now(cx, p.steps.len() + 2, "spans"); for k in 0..3 { s.step("spans", p.seed ^ k, cx); } }
    }
    let s2 = std::mem::take(&mut s.saved);
    drop(other);
    s2
}
/// Some other document's life.
fn noise(seed: u64) -> Option<Document> {
    let mut r = Rng::new(seed);
    let mut next = 0;
    let k = Knobs::draw(&mut r);
    let mut gr = r.fork("noise");
    let f = Gen { r: &mut gr, k, next: &mut next, procs: vec![] }.file(12);
    let b = crate::xmlw::write(&f, r.next());
    let d = Document::from_str(&String::from_utf8(b).ok()?, DocumentProperties::default()).ok()?;
    let _ = d.xml(0, 0);
    Some(d)
}

// ------------------------------------------------------------------ files and faults

/// The bytes of a document: written by the independent writer, or saved by the library.
pub fn document_bytes(seed: u64, size: u64, cx: &mut Cx) -> Option<Vec<u8>> {
    let mut r = Rng::new(seed);
    let mut next = 0;
    let mut k = Knobs::draw(&mut r);
    if r.pct(60) { k.texts = 8; }
    let mut gr = r.fork("document");
    let f = Gen { r: &mut gr, k, next: &mut next, procs: vec![] }.file(size as usize);
    let b = crate::xmlw::write(&f, r.next());
    if r.pct(50) { return Some(b); }
    let s = String::from_utf8(b.clone()).ok()?;
    match Document::from_str(&s, DocumentProperties::default()) {
        Ok(d) => match d.xml(0, *r.pick(&[0usize, 1, 4])) { Ok(x) => Some(x), Err(_) => { cx.diverted = Some("the base document cannot be saved".into()); None } },
        Err(_) => Some(b),
    }
}
pub type Outcome = Result<Snap, String>;
pub fn outcome(d: &Result<Document, FoliaError>) -> Outcome { match d { Ok(d) => Ok(Real::new(d, &[0]).snap()), Err(e) => Err(format!("{}", e)) } }
pub fn same(a: &Outcome, b: &Outcome) -> Option<String> {
    match (a, b) {
        (Ok(a), Ok(b)) => diff(a, b).into_iter().next().map(|d| d.msg),
        (Err(_), Err(_)) => None,
        (Ok(_), Err(e)) => Some(format!("one loads, the other is refused: {}", e)),
        (Err(e), Ok(_)) => Some(format!("one is refused, the other loads: {}", e)),
    }
}
pub fn load_file(bytes: &[u8], plan: sys::FilePlan, name: &str) -> Result<Document, FoliaError> {
    let path = format!("/simfs/{}", name);
    sys::disk_put(&path, bytes, plan);
    let d = Document::from_file(&path, DocumentProperties::default());
    sys::disk_del(&path);
    d
}
pub fn load_str(bytes: &[u8]) -> Option<Result<Document, FoliaError>> { std::str::from_utf8(bytes).ok().map(|s| Document::from_str(s, DocumentProperties::default())) }
fn around(b: &[u8], at: usize) -> String { String::from_utf8_lossy(&b[at.saturating_sub(50).min(b.len())..(at + 30).min(b.len())]).into_owned() }

fn torn(p: &Plan, cx: &mut Cx) {
    now(cx, 0, "load");
    let bytes = match document_bytes(p.seed ^ 0xd0c, p.size, cx) { Some(b) => b, None => return };
    let whole = outcome(&load_file(&bytes, Default::default(), "whole"));
    cx.ev(&format!("{} bytes {:x}", bytes.len(), hash_bytes(&bytes)));
    cx.note(&String::from_utf8_lossy(&bytes));
    if let Err(e) = &whole { cx.diverted = Some(format!("the base document is refused: {}", e)); return; }
    let tags: Vec<usize> = bytes.iter().enumerate().filter(|(_, b)| **b == b'>' || **b == b'<').map(|(i, _)| i).collect();
    for (i, st) in p.steps.iter().enumerate() {
        now(cx, i + 1, "load");
        let mut r = Rng::new(st.seed);
        let mut cuts = vec![];
        match st.op.as_str() {
            "cut" | "zero" => cuts.push(r.below(bytes.len())),
            "cutnear" => cuts.push(bytes.len() - 1 - r.below(bytes.len().min(60))),
            "cuttag" => { let t = *r.pick(&tags); cuts.push((t + r.below(2)).min(bytes.len() - 1)); }
            _ => { if bytes.len() < 20_000 { let step = 1 + bytes.len() / 150; cuts = (0..bytes.len()).step_by(step).map(|c| (c + st.seed as usize % step).min(bytes.len() - 1)).collect(); } }
        }
        for cut in cuts {
            let mut t = bytes[..cut].to_vec();
            if st.op == "zero" { // the file has its length, but the last blocks never arrived
                let cut = if r.pct(50) { cut / 512 * 512 } else { cut };
                t = bytes[..cut].to_vec();
                t.resize(bytes.len(), 0);
            }
            cx.count("torn_files");
            cx.count(&format!("fault_{}", if st.op == "zero" { "lost_tail_zeroed" } else { "torn_write" }));
            let d = if r.pct(40) { match load_str(&t) { Some(d) => d, None => load_file(&t, benign_plan(&mut r), "torn") } } else { load_file(&t, benign_plan(&mut r), "torn") };
            cx.state(mix2(p.seed, cut as u64 * 2 + (st.op == "zero") as u64));
            match outcome(&d) {
                Err(_) => cx.count("refused"),
                Ok(s) => {
                    cx.count("loaded_whole");
                    let diffs: Vec<Diff> = diff(whole.as_ref().unwrap(), &s);
                    if let Some(x) = diffs.first() { cx.fail(&["C02"], "partial", format!("cut to {} of {} bytes ({}; …{}…): loads as a different document: {}", cut, bytes.len(), st.op, around(&bytes, cut), x.msg)); return; }
                }
            }
            cx.ev(&format!("{} at {}: {}", st.op, cut, if d.is_ok() { "loads whole" } else { "refused" }));
        }
    }
}

fn delivery(p: &Plan, cx: &mut Cx) {
    now(cx, 0, "load");
    let mut r = Rng::new(p.seed ^ 1);
    let mut bytes = match document_bytes(p.seed ^ 0xd0c, p.size, cx) { Some(b) => b, None => return };
    match r.below(10) { 0 | 1 | 2 => { let what = damage::damage(&mut bytes, &mut r); cx.ev(&format!("damaged: {}", what)); } 3 | 4 | 5 => { for _ in 0..1 + r.below(3) { let what = damage::oddity(&mut bytes, &mut r); cx.ev(&format!("oddity: {}", what)); } } _ => {} }
    if r.pct(5) && std::str::from_utf8(&bytes).is_ok() { let mut x = vec![0xEF, 0xBB, 0xBF]; x.extend(bytes); bytes = x; }
    let d0 = load_file(&bytes, Default::default(), "plain");
    let want = outcome(&d0);
    drop(d0);
    cx.ev(&format!("{} bytes {:x}: {}", bytes.len(), hash_bytes(&bytes), if want.is_ok() { "loads" } else { "refused" }));
    cx.note(&String::from_utf8_lossy(&bytes));
    cx.count(if want.is_ok() { "bases_loading" } else { "bases_refused" });
    if let Some(d) = load_str(&bytes) {
        cx.count("from_memory");
        if let Some(m) = same(&want, &outcome(&d)) { cx.fail(&["C03"], "memory", format!("from a file versus from memory: {}", m)); return; }
        if let Ok(d) = &d { if d.filename().is_some() { cx.fail(&["C03"], "filename", format!("a document from memory claims to come from {:?}", d.filename())); return; } }
    }
    for (i, st) in p.steps.iter().enumerate() {
        now(cx, i + 1, "load");
        let mut r = Rng::new(st.seed);
        let mut plan = benign_plan(&mut r);
        if r.pct(35) { // boundaries inside tags, entities and characters
            plan = sys::FilePlan::default();
            let spots: Vec<usize> = bytes.iter().enumerate().filter(|(_, b)| **b >= 0x80 || b"<>&;\"=/!-?[]".contains(b)).map(|(i, _)| i).collect();
            let mut at: Vec<usize> = (0..1 + r.below(40)).filter_map(|_| if spots.is_empty() { None } else { Some(*r.pick(&spots) + r.below(2)) }).collect();
            at.sort(); at.dedup();
            let mut pos = 0;
            for a in at { if a > pos { if r.pct(20) { plan.script.push(sys::Act::Intr); } plan.script.push(sys::Act::Max((a - pos) as u32)); pos = a; } }
        }
        cx.state(mix2(p.seed, hash_str(&format!("{:?}", plan))));
        let name = format!("d{}.xml", r.below(1000));
        let d = load_file(&bytes, plan.clone(), &name);
        cx.ev(&format!("delivered with {:?}: {}", plan, if d.is_ok() { "loads" } else { "refused" }));
        cx.count("deliveries");
        if let Some(m) = same(&want, &outcome(&d)) { cx.fail(&["C03"], "delivery", format!("read in one piece versus {:?}: {}", plan, m)); return; }
        if let Ok(d) = &d { let path = format!("/simfs/{}", name); if d.filename() != Some(path.as_str()) { cx.fail(&["C03"], "filename", format!("a document loaded from {:?} says it comes from {:?}", path, d.filename())); return; } }
    }
}

/// The last offset at which a read must still succeed for the body to be known.
pub fn body_end(b: &[u8]) -> usize {
    let mut e = b.windows(2).rposition(|w| w == b"</").unwrap_or(0);
    loop {
        while e > 0 && b[e - 1].is_ascii_whitespace() { e -= 1; }
        let open: &[u8] = if b[..e].ends_with(b"-->") { b"<!--" } else if b[..e].ends_with(b"?>") { b"<?" } else { break };
        match b[..e].windows(open.len()).rposition(|w| w == open) { Some(x) => e = x, None => break }
    }
    e.saturating_sub(1)
}
fn readfaults(p: &Plan, cx: &mut Cx) {
    now(cx, 0, "load");
    let bytes = match document_bytes(p.seed ^ 0xd0c, p.size, cx) { Some(b) => b, None => return };
    let d0 = load_file(&bytes, Default::default(), "plain");
    let want = outcome(&d0);
    if want.is_err() { cx.diverted = Some("the base document is refused".into()); return; }
    // a fault that strikes behind the body need not be noticed: nothing there is part of the document
    let end = body_end(&bytes);
    let mut other = match Session::create(cx, p.seed ^ 0x0e, 12, "other", true) { Some(s) => s, None => return };
    let mut before = other.digest();
    let mut k = 0;
    for (i, st) in p.steps.iter().enumerate() {
        now(cx, i + 1, "load");
        let mut r = Rng::new(st.seed);
        k += 1;
        if st.op == "edit" { other.step(*r.clone().pick(&["add", "save", "meta", "span"]), r.next(), cx); if cx.stopped() { return; } before = other.digest(); continue; }
        let path = format!("/simfs/f{}", k);
        let mut plan = if r.pct(50) { benign_plan(&mut r) } else { Default::default() };
        plan.open_errs.clear();
        let e = *r.pick(&[5, 5, 13, 9, 21, 12, 116, 11, 110]); // EIO EACCES EBADF EISDIR ENOMEM ESTALE EAGAIN ETIMEDOUT
        let mut retries = 1;
        match st.op.as_str() {
            "openfail" => { retries = 1 + r.below(3); for _ in 0..retries { plan.open_errs.push(*r.pick(&[5, 13, 24, 23, 12, 2, 40, 116])); } }
            "readfail" => { let at = match r.below(5) { 0 => 0, 1 => end as u64, 2 => r.below(end.max(1).min(200)) as u64, 3 => ((r.below(end.max(1)) / 8192) * 8192) as u64, _ => r.below(end.max(1)) as u64 }; plan.err_at = Some((at, e)); }
            "nthfail" => { // the n-th read fails; reads are small enough for it to come
                let n = r.below(12);
                plan = Default::default();
                let each = (end / (n + 1)).max(1).min(4000) as u32;
                for _ in 0..n { if r.pct(20) { plan.script.push(sys::Act::Intr); } plan.script.push(sys::Act::Max(1 + r.below(each as usize) as u32)); }
                plan.script.push(sys::Act::Err(e));
            }
            _ => {}
        }
        if st.op != "missing" { sys::disk_put(&path, &bytes, plan.clone()); }
        for n in 0..retries {
            let d = Document::from_file(&path, DocumentProperties::default());
            cx.ev(&format!("{} attempt {} with {:?}: {}", st.op, n, plan, match &d { Ok(_) => "loads".to_string(), Err(e) => format!("refused: {}", e) }));
            cx.count("faulty_loads");
            cx.count(&format!("fault_{}", st.op));
            if let Ok(d) = &d {
                let s: Outcome = Ok(Real::new(d, &[0]).snap());
                cx.fail(&["C04"], "error-lost", format!("{} ({:?}; attempt {}): a document was returned although {} could not be read ({})", st.op, plan, n, path, match same(&want, &s) { None => "it is the complete one".into(), Some(m) => m }));
                return;
            }
            if sys::open_files() != 0 { cx.fail(&["C04"], "descriptor-leak", format!("{} files remain open after the failure", sys::open_files())); return; }
        }
        cx.state(mix2(p.seed, hash_str(&format!("{:?}", plan))));
        // the fault is gone
        let again = if st.op == "openfail" && r.pct(50) { Document::from_file(&path, DocumentProperties::default()) } else { sys::disk_put(&path, &bytes, if r.pct(50) { benign_plan(&mut r) } else { Default::default() }); Document::from_file(&path, DocumentProperties::default()) };
        if let Some(m) = same(&want, &outcome(&again)) { cx.fail(&["C04"], "retry", format!("after {} the same file, without the fault: {}", st.op, m)); return; }
        if sys::open_files() != 0 { cx.fail(&["C04"], "descriptor-leak", format!("{} files remain open", sys::open_files())); return; }
        sys::disk_del(&path);
        if other.digest() != before { cx.fail(&["C04"], "other-document", "a document in memory changed when loading another failed".into()); return; }
    }
    if let (Ok(d), Ok(w)) = (&d0, &want) { if diff(w, &Real::new(d, &[0]).snap()).len() > 0 { cx.fail(&["C04"], "other-document", "the first document changed while others failed to load".into()); } }
}

fn damaged(p: &Plan, cx: &mut Cx) {
    now(cx, 0, "load");
    let base = match document_bytes(p.seed ^ 0xd0c, p.size, cx) { Some(b) => b, None => return };
    cx.ev(&format!("{} bytes {:x}", base.len(), hash_bytes(&base)));
    for (i, st) in p.steps.iter().enumerate() {
        now(cx, i + 1, "load");
        let mut r = Rng::new(st.seed);
        let mut b = base.clone();
        let k = *r.pick(&[1, 1, 1, 2, 3, 6]);
        let mut what = vec![];
        for _ in 0..k { what.push(damage::damage(&mut b, &mut r)); }
        for w in &what { cx.count(&format!("fault_{}", w.split(' ').next().unwrap_or(""))); }
        cx.state(hash_bytes(&b));
        cx.ev(&format!("damage: {}", what.join("; ")));
        cx.note(&String::from_utf8_lossy(&b));
        cx.count("damaged_files");
        let d = if r.pct(50) { match load_str(&b) { Some(d) => d, None => load_file(&b, Default::default(), "damaged") } } else { load_file(&b, if r.pct(30) { benign_plan(&mut r) } else { Default::default() }, "damaged") };
        match d {
            Err(e) => { cx.count("refused"); let _ = format!("{} {:?}", e, e); cx.ev("refused"); }
            Ok(d) => {
                cx.count("loaded");
                let h = damage::exercise(&d, cx, &mut r);
                cx.ev(&format!("loaded and used: {:x}", h));
                if cx.stopped() { if let Some(v) = cx.viols.last_mut() { v.msg = format!("after {}: {}", what.join("; "), v.msg); } return; }
            }
        }
    }
}

/// Executes a plan in fresh simulated threads. `verbose` keeps the log.
pub fn exec(p: &Plan, verbose: bool) -> Cx {
    for i in &p.prelude { let q = plan(&p.prop, p.master, *i); let _ = exec_one(&q, false); }
    exec_one(p, verbose)
}
pub fn clock_for(seed: u64) -> (i64, i64) { let mut r = Rng::new(seed ^ 0xc10c); (r.range(1_000_000_000, 1_900_000_000), r.range(0, 999_999_999)) }

fn exec_one(p: &Plan, verbose: bool) -> Cx {
    sys::disk_reset();
    environment(p.seed);
    let mut cx = match p.prop.as_str() {
        "C12" => threads::run(p, verbose),
        "C13" => twice(p, verbose),
        _ => in_thread(p, verbose, mix2(p.seed, 0xe17), clock_for(p.seed), 0, body_v).0,
    };
    for (k, v) in sys::disk_stats() { cx.add(&format!("disk_{}", k), v); }
    cx
}
/// The environment variables the library looks at, set before the simulated threads start.
fn environment(seed: u64) {
    let mut r = Rng::new(seed ^ 0xe4f);
    for name in ["USER", "HOST", "HOSTNAME", "LOGNAME", "TZ", "LANG"].iter() {
        if r.pct(35) { std::env::remove_var(name); } else { std::env::set_var(name, *r.pick(&["me", "a & b", "", "\u{e9}lan", "host.example.org", "UTC", "nl_NL.UTF-8"])); }
    }
}
fn body_v(p: &Plan, cx: &mut Cx, _v: u64) -> Vec<u64> { body(p, cx); vec![] }
/// Runs `f` in a fresh thread under the given entropy and clock.
pub fn in_thread(p: &Plan, verbose: bool, entropy: u64, clock: (i64, i64), variant: u64, f: fn(&Plan, &mut Cx, u64) -> Vec<u64>) -> (Cx, Vec<u64>) {
    let q = p.clone();
    let h = std::thread::Builder::new().stack_size(stack_for(&p.prop)).spawn(move || {
        sys::enter(entropy, clock, 1_000_000);
        sys::mem_limit(2 << 30);
        let mut cx = Cx::new(&q.prop);
        cx.verbose = verbose;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&q, &mut cx, variant)));
        let out = match r { Ok(v) => v, Err(_) => { panicked(&mut cx); vec![] } };
        cx.add("clock_reads", sys::clock_reads());
        cx.add("entropy_reads", sys::entropy_reads());
        (cx, out)
    }).expect("thread");
    h.join().unwrap_or_else(|_| { let mut cx = Cx::new(&p.prop); cx.fail(&["*"], "panic", "while unwinding".into()); (cx, vec![]) })
}
/// Turns the panic just caught into a verdict.
pub fn panicked(cx: &mut Cx) {
    let (loc, msg) = crate::take_panic();
    let op = current();
    if loc.contains("/verif/sim/") || loc.starts_with("src/") && !loc.contains("repo") && crate::own(&loc) { cx.diverted = Some(format!("HARNESS {} {}", loc, msg)); cx.count("harness_panics"); return; }
    let b = blame(&op);
    let tags: Vec<&str> = if b.is_empty() || !(is_session(&cx.prop) || cx.prop == "C13") { vec!["*"] } else { b.to_vec() };
    cx.fail(&tags, &format!("panic {}", loc), format!("panic during {}: {} at {}", op, msg, loc));
}
/// The same history under different entropy, clock, and neighbours must save the same bytes.
fn twice(p: &Plan, verbose: bool) -> Cx {
    let (mut a, sa) = in_thread(p, verbose, mix2(p.seed, 1), clock_for(p.seed), 0, session);
    if a.stopped() { return a; }
    for v in 1..3u64 {
        sys::disk_reset();
        let (b, sb) = in_thread(p, false, mix2(p.seed, 77 * v), clock_for(p.seed ^ v), v, session);
        a.count("environment_changes");
        if b.stopped() || sa != sb {
            let m = match (&b.diverted, b.viols.first()) { (Some(d), _) => d.clone(), (_, Some(x)) => x.msg.clone(), _ => format!("save number {} differs in bytes", (0..).find(|i| sa.get(*i) != sb.get(*i)).unwrap_or(0)) };
            a.fail(&["C13"], "environment", format!("the same history under other hash seeds, clock and neighbouring documents: {}", m));
            return a;
        }
    }
    a
}
pub fn result(cx: &Cx) -> J {
    let v = cx.viols.iter().map(|v| J::obj().with("class", J::s(&v.class)).with("message", J::s(&v.msg)).with("step", J::u(v.step))).collect();
    let mut j = J::obj().with("violations", J::Arr(v)).with("trace", J::s(&format!("{:016x}", cx.trace)));
    if let Some(d) = &cx.diverted { j = j.with("diverted", J::s(d)); }
    j
}
