//! Several threads, each at work on its own document, handing documents over to each other; the
//! scheduler decides who runs.
use crate::core::*;
use crate::prng::{mix2, Rng};
use crate::scen::*;
use crate::session::*;
use crate::sys;
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

pub struct Probe<T>(PhantomData<T>);
impl<T: Send> Probe<T> { pub fn sendable(&self) -> bool { true } }
pub trait NotSendable { fn sendable(&self) -> bool; }
impl<T> NotSendable for &Probe<T> { fn sendable(&self) -> bool { false } }

pub struct Work { s: Option<Session>, cx: Cx, next: usize, ticks: Vec<u64> }
struct Hand(Work);
unsafe impl Send for Hand {} // whether it really may be is checked with Probe

struct Item { sess: usize, thread: usize, idx: usize, op: String, seed: u64 }

fn parse(p: &Plan) -> Vec<Item> {
    let mut n: BTreeMap<usize, usize> = BTreeMap::new();
    p.steps.iter().map(|s| {
        let x: Vec<&str> = s.op.split('/').collect();
        let sess: usize = x[0].parse().unwrap_or(0);
        let idx = n.entry(sess).or_insert(0);
        *idx += 1;
        Item { sess, thread: x[2].parse().unwrap_or(0), idx: *idx - 1, op: x[1].to_string(), seed: s.seed }
    }).collect()
}
fn perform(w: &mut Work, p: &Plan, it: &Item) {
    let a = sys::ticks();
    if it.idx == 0 { now(&mut w.cx, 0, "create"); let loaded = (p.seed >> it.sess) % 5 != 0; w.s = Session::create(&mut w.cx, mix2(p.seed ^ 0xd0c, it.sess as u64), p.size, &format!("doc{}", it.sess), loaded); }
    if let (Some(s), false) = (w.s.as_mut(), w.cx.stopped()) { now(&mut w.cx, it.idx + 1, &it.op); s.step(&it.op, it.seed, &mut w.cx); }
    w.next = it.idx + 1;
    w.ticks.push(sys::ticks().wrapping_sub(a));
}
fn guarded(w: &mut Work, p: &Plan, it: &Item) {
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(w, p, it))).is_err() { panicked(&mut w.cx); w.s = None; w.next = it.idx + 1; w.ticks.push(0); }
}
fn new_work(verbose: bool) -> Work { let mut cx = Cx::new("C12"); cx.verbose = verbose; Work { s: None, cx, next: 0, ticks: vec![] } }

pub fn run(p: &Plan, verbose: bool) -> Cx {
    let mut out = Cx::new("C12");
    out.verbose = verbose;
    if !Probe::<folia::Document>(PhantomData).sendable() { out.fail(&["C12"], "not-sendable", "a document cannot be handed to another thread: it is not Send".into()); return out; }
    let items = Arc::new(parse(p));
    let sessions: Vec<usize> = { let mut v: Vec<usize> = items.iter().map(|i| i.sess).collect(); v.sort(); v.dedup(); v };
    // alone
    let mut alone: BTreeMap<usize, Work> = BTreeMap::new();
    for s in &sessions {
        let (s, items, p2) = (*s, items.clone(), p.clone());
        let h = std::thread::Builder::new().stack_size(stack_for("C12")).spawn(move || {
            sys::enter(mix2(p2.seed, s as u64), clock_for(p2.seed), 0);
            let mut w = new_work(false);
            for it in items.iter().filter(|i| i.sess == s) { guarded(&mut w, &p2, it); }
            w.s = None;
            Hand(w)
        }).expect("thread");
        let w = h.join().map(|h| h.0).unwrap_or_else(|_| new_work(false));
        for (k, v) in &w.cx.stats { out.add(k, *v); }
        if w.cx.stopped() { out.diverted = Some(format!("a document on its own: {}", w.cx.viols.first().map(|v| v.msg.clone()).or(w.cx.diverted.clone()).unwrap_or_default())); return out; }
        alone.insert(s, w);
    }
    // together
    let mut r = Rng::new(p.seed ^ 0x5c4ed);
    let nthreads = 1 + items.iter().map(|i| i.thread).max().unwrap_or(0);
    // anywhere, or only while the commonest kind of operation goes on
    let common = { let mut n: BTreeMap<&str, usize> = BTreeMap::new(); for it in items.iter() { *n.entry(it.op.as_str()).or_insert(0) += 1; } n.into_iter().max_by_key(|x| x.1).map(|x| x.0.to_string()) };
    let crowd = common.as_ref().map_or(false, |c| 2 * items.iter().filter(|i| &i.op == c).count() >= items.len());
    let focus = r.pct(if crowd { 75 } else { 20 });
    let mut at = vec![0u64; nthreads];
    let mut windows: Vec<Vec<(u64, u64)>> = vec![vec![]; nthreads];
    for it in items.iter() {
        let k = alone[&it.sess].ticks.get(it.idx).copied().unwrap_or(0);
        if k > 0 && (!focus || common.as_deref() == Some(it.op.as_str())) { windows[it.thread].push((at[it.thread], k)); }
        at[it.thread] += k;
    }
    let points: Vec<Vec<(u64, usize)>> = windows.iter().map(|w| { let n = if w.is_empty() { 0 } else if focus { *r.pick(&[5usize, 40, 200, 1000, 1000]) } else { *r.pick(&[0usize, 5, 40, 200, 1000]) };
        let total: u64 = w.iter().map(|x| x.1).sum();
        // spread out, or in bursts
        let burst = r.pct(40);
        let mut v: Vec<(u64, usize)> = vec![];
        while v.len() < n {
            let mut x = r.below(total.max(1) as usize) as u64;
            let mut at = 1;
            for (from, k) in w { if x < *k { at = 1 + from + x; break; } x -= k; }
            let k = if burst { 1 + r.below(12) } else { 1 };
            for j in 0..k as u64 { v.push((at + j * (1 + r.below(3) as u64), r.below(nthreads))); }
        }
        v.sort(); v }).collect();
    out.ev(&format!("{} threads, {} documents, {:?} preemption points", nthreads, sessions.len(), points.iter().map(|p| p.len()).collect::<Vec<_>>()));
    let slots: Arc<Mutex<BTreeMap<usize, Option<Hand>>>> = Arc::new(Mutex::new(sessions.iter().map(|s| (*s, Some(Hand(new_work(verbose))))).collect()));
    sys::sched_start(nthreads, points);
    let hs: Vec<_> = (0..nthreads).map(|t| {
        let (items, p2, slots) = (items.clone(), p.clone(), slots.clone());
        std::thread::Builder::new().stack_size(stack_for("C12")).spawn(move || {
            sys::enter(mix2(p2.seed, 100 + t as u64), clock_for(p2.seed ^ t as u64), 0);
            sys::sched_join(t);
            let mut handed = 0u64;
            for it in items.iter().filter(|i| i.thread == t) {
                let mut spins = 0u64;
                let mut w = loop {
                    let got = { let _q = sys::quiet(); let mut g = slots.lock().unwrap_or_else(|e| e.into_inner()); let o = g.get_mut(&it.sess).unwrap(); if o.as_ref().map_or(false, |h| h.0.next == it.idx) { o.take() } else { None } };
                    match got { Some(h) => break h.0, None => { spins += 1; if spins > 10_000_000 { std::process::abort(); } sys::hand_over((t + 1) % nthreads_of(&items)); } }
                };
                if it.idx > 0 { handed += 1; }
                // the clock belongs to the thread, what it shows belongs to the plan
                guarded(&mut w, &p2, it);
                if !items.iter().any(|i| i.sess == it.sess && i.idx > it.idx) { w.s = None; }
                let _q = sys::quiet();
                *slots.lock().unwrap_or_else(|e| e.into_inner()).get_mut(&it.sess).unwrap() = Some(Hand(w));
            }
            sys::sched_leave();
            handed
        }).expect("thread")
    }).collect();
    let mut handed = 0;
    for h in hs { handed += h.join().unwrap_or(0); }
    let sc = sys::sched_finish();
    out.ev(&format!("{} switches, {} futex waits, schedule {:x}", sc.switches, sc.futex, sc.trace));
    out.add("thread_switches", sc.switches);
    out.add("futex_waits", sc.futex);
    out.add("operations_after_possible_handover", handed);
    out.state(sc.trace);
    let mut g = slots.lock().unwrap_or_else(|e| e.into_inner());
    for s in &sessions {
        let w = match g.get_mut(s).and_then(|o| o.take()) { Some(h) => h.0, None => { out.fail(&["C12"], "lost", format!("document {} was never given back", s)); continue; } };
        let a = &alone[s];
        out.log.extend(w.cx.log.iter().map(|l| format!("document {}: {}", s, l)));
        out.trace = mix2(out.trace, w.cx.trace);
        if w.cx.stopped() { let m = w.cx.viols.first().map(|v| v.msg.clone()).or(w.cx.diverted.clone()).unwrap_or_default(); out.step = w.cx.step; out.fail(&["C12"], "interference", format!("document {}, at its step {}, fine on its own: {}", s, w.cx.step, m)); }
        else if w.cx.trace != a.cx.trace { out.fail(&["C12"], "interference", format!("document {} went through its operations differently than on its own", s)); }
    }
    out
}
fn nthreads_of(items: &[Item]) -> usize { 1 + items.iter().map(|i| i.thread).max().unwrap_or(0) }
