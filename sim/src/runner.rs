//! The search: workers, confirmation, minimisation, replay files, evidence.
use crate::core::*;
use crate::json::J;
use crate::scen;
use crate::{known, prng};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub const WORKERS: u64 = 8;
fn root() -> std::path::PathBuf { std::env::var_os("FOLIA_VERIF").map(|s| s.into()).unwrap_or_else(|| std::path::PathBuf::from("/verif")) }
fn exe() -> std::path::PathBuf { std::env::current_exe().expect("own path") }
fn hang_limit(prop: &str) -> u64 { match prop { "C19" | "C18" => 120, _ => 40 } }
/// Processor seconds a process has used. Hangs are judged by this: the machine may be busy with other things.
fn cpu(pid: u32) -> f64 {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
    (f.get(11).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) + f.get(12).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0)) / 100.0
}
/// Spinning for `limit` seconds of processor time, or stuck without using any.
fn hangs(since: Instant, cpu0: f64, pid: u32, limit: u64) -> bool {
    let wall = since.elapsed().as_secs();
    if wall <= limit { return false; }
    let used = cpu(pid) - cpu0;
    used >= limit as f64 || wall > 2 * limit && used < limit as f64 / 4.0 || wall > 6 * limit
}
/// (runs, seconds) for the search.
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop { "C17" => 5000, "C18" => 1200, "C19" => 48, "C12" => 7000, "C13" => 3000, "C05" => 4000, "C02" | "C03" | "C04" => 8000, "C06" | "C07" | "C08" | "C09" | "C15" => 16000, _ => 9000 };
    if tier == "thorough" { (quick * 12, 540) } else { (quick, 100) }
}

pub fn one(prop: &str, i: u64) -> i32 {
    let p = scen::plan(prop, master(), i);
    let cx = scen::exec(&p, true);
    for l in &cx.log { println!("{}", l); }
    println!("{}", scen::result(&cx).pretty());
    0
}
fn master() -> u64 { std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1) }

/// worker <prop> <master> <from> <to> <stride> <seconds>
pub fn worker(prop: &str, a: &[String]) -> i32 {
    let n = |i: usize| a[i].parse::<u64>().unwrap_or(0);
    let (m, from, to, stride, secs) = (n(0), n(1), n(2), n(3), n(4));
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let mut i = from;
    while i < to {
        if t0.elapsed().as_secs() >= secs { break; }
        { let mut o = out.lock(); let _ = writeln!(o, "S {}", i); let _ = o.flush(); }
        let p = scen::plan(prop, m, i);
        let cx = scen::exec(&p, false);
        for (k, v) in &cx.stats { *stats.entry(k.clone()).or_insert(0) += v; }
        if states.len() < 60_000 { states.extend(cx.states.iter()); }
        *stats.entry("steps".into()).or_insert(0) += p.steps.len() as u64;
        let mut o = out.lock();
        let r = scen::result(&cx).with("states", J::u(cx.states.len()));
        let _ = writeln!(o, "D {} {}", i, r.dump());
        let _ = o.flush();
        i += stride;
    }
    let mut o = out.lock();
    let st: Vec<String> = states.iter().map(|s| format!("{:x}", s)).collect();
    let (edges, total) = crate::sys::edges();
    let ed: Vec<String> = edges.iter().map(|e| e.to_string()).collect();
    let _ = writeln!(o, "E {}\t{}\t{} {}", J::from_map(&stats).dump(), st.join(" "), total, ed.join(" "));
    let _ = o.flush();
    0
}
fn read_plan(f: &str) -> Option<Plan> { let s = std::fs::read_to_string(f).ok()?; let j = J::parse(&s)?; let j = if *j.get("plan") != J::Null { j.get("plan").clone() } else { j }; Some(Plan::from_json(&j)) }
pub fn run_plan(f: &str, verbose: bool) -> i32 {
    let p = match read_plan(f) { Some(p) => p, None => return 2 };
    let cx = scen::exec(&p, verbose);
    if verbose { for l in &cx.log { println!("{}", l); } }
    let mut r = scen::result(&cx);
    if std::env::var_os("FOLIA_SIM_LOG").is_some() { let c = scen::exec(&p, true); r = r.with("log", J::Arr(c.log.iter().map(|l| J::s(l)).collect())); }
    println!("R {}", r.dump());
    0
}
/// What became of a plan in a process of its own.
#[derive(Clone, Debug, Default)]
struct Fate { classes: Vec<(String, String)>, trace: String, diverted: Option<String>, log: Vec<String> }
fn death(status: &std::process::ExitStatus) -> String {
    use std::os::unix::process::ExitStatusExt;
    match (status.signal(), status.code()) { (Some(s), _) => format!("crash signal {}", s), (_, Some(77)) => "memory".into(), (_, Some(78)) => "deadlock".into(), (_, c) => format!("crash exit {:?}", c) }
}
fn fresh(p: &Plan, log: bool) -> Fate {
    let f = std::env::temp_dir().join(format!("folia-sim-plan.{}.{:x}.json", std::process::id(), prng::hash_str(&p.to_json().dump())));
    if std::fs::write(&f, p.to_json().dump()).is_err() { return Fate::default(); }
    let mut c = Command::new(exe());
    c.arg("sim").env("FOLIA_SIM_ARGS", format!("run-plan\u{1f}{}", f.display())).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null());
    if log { c.env("FOLIA_SIM_LOG", "1"); }
    let mut ch = match c.spawn() { Ok(c) => c, Err(_) => return Fate::default() };
    let so = ch.stdout.take().unwrap();
    let (tx, rx) = mpsc::channel();
    std::thread::spawn(move || { let mut s = String::new(); let _ = std::io::Read::read_to_string(&mut BufReader::new(so), &mut s); let _ = tx.send(s); });
    let limit = hang_limit(&p.prop) * (1 + p.prelude.len() as u64 / 20);
    let t0 = Instant::now();
    let out = loop { match rx.recv_timeout(Duration::from_millis(500)) { Err(mpsc::RecvTimeoutError::Timeout) if !hangs(t0, 0.0, ch.id(), limit) => continue, x => break x } };
    let hung = out.is_err();
    if hung { let _ = ch.kill(); }
    let st = ch.wait();
    let _ = std::fs::remove_file(&f);
    if hung { return Fate { classes: vec![("hang".into(), format!("no result within {} s", limit))], ..Default::default() }; }
    let line = out.unwrap_or_default();
    match line.lines().rev().find(|l| l.starts_with("R ")).and_then(|l| J::parse(&l[2..])) {
        Some(j) => Fate {
            classes: j.get("violations").arr().iter().map(|v| (v.get("class").str().to_string(), v.get("message").str().to_string())).collect(),
            trace: j.get("trace").str().into(), diverted: if let J::Str(s) = j.get("diverted") { Some(s.clone()) } else { None }, log: j.get("log").arr().iter().map(|s| s.str().to_string()).collect(),
        },
        None => { let d = st.map(|s| death(&s)).unwrap_or_else(|_| "crash".into()); Fate { classes: vec![(d.clone(), format!("the process died: {}", d))], ..Default::default() } }
    }
}
fn shows(p: &Plan, class: &str) -> bool { fresh(p, false).classes.iter().any(|c| c.0 == class) }

fn minimise(p: &Plan, class: &str, until: Instant) -> Plan {
    let mut best = p.clone();
    let mut tries = 0;
    // the prelude first
    let mut chunk = (best.prelude.len() + 1) / 2;
    while chunk > 0 && !best.prelude.is_empty() && Instant::now() < until {
        let mut i = 0;
        while i < best.prelude.len() && Instant::now() < until {
            let mut q = best.clone();
            let e = (i + chunk).min(q.prelude.len());
            q.prelude.drain(i..e);
            if shows(&q, class) { best = q; } else { i = e; }
        }
        if chunk == 1 { break; }
        chunk = (chunk + 1) / 2;
    }
    let mut chunk = (best.steps.len() + 1) / 2;
    while chunk > 0 && Instant::now() < until {
        let mut i = 0;
        let mut any = false;
        while i < best.steps.len() && Instant::now() < until {
            let mut q = best.clone();
            let e = (i + chunk).min(q.steps.len());
            q.steps.drain(i..e);
            tries += 1;
            if shows(&q, class) { best = q; any = true; } else { i = e; }
        }
        if chunk == 1 { if !any { break; } } else { chunk = (chunk + 1) / 2; }
    }
    let mut sizes: Vec<u64> = vec![0, 1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192];
    sizes.retain(|s| *s < best.size);
    for s in sizes { if Instant::now() >= until { break; } let mut q = best.clone(); q.size = s; tries += 1; if shows(&q, class) { best = q; break; } }
    let _ = tries;
    best
}
enum Ev { Start(u64, u64), Done(u64, u64, J), End(u64, J, Vec<u64>, Vec<u32>), Gone(u64) }
struct Wk { ch: Child, last: Instant, cpu: f64, running: Option<u64>, next: u64, ended: bool }

fn spawn(prop: &str, w: u64, gen: u64, m: u64, from: u64, to: u64, secs: u64, tx: &mpsc::Sender<(u64, Ev)>) -> std::io::Result<Child> {
    let mut ch = Command::new(exe()).arg("sim").env("FOLIA_SIM_ARGS", ["worker", prop, &m.to_string(), &from.to_string(), &to.to_string(), &WORKERS.to_string(), &secs.to_string()].join("\u{1f}")).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn()?;
    let so = ch.stdout.take().unwrap();
    let tx = tx.clone();
    std::thread::spawn(move || {
        for l in BufReader::new(so).lines() {
            let l = match l { Ok(l) => l, Err(_) => break };
            let ev = if let Some(x) = l.strip_prefix("S ") { Ev::Start(w, x.parse().unwrap_or(0)) }
                else if let Some(x) = l.strip_prefix("D ") { let k = x.find(' ').unwrap_or(0); match J::parse(&x[k + 1..]) { Some(j) => Ev::Done(w, x[..k].parse().unwrap_or(0), j), None => continue } }
                else if let Some(x) = l.strip_prefix("E ") { let mut it = x.split('\t'); match J::parse(it.next().unwrap_or("")) { Some(j) => Ev::End(w, j, it.next().unwrap_or("").split(' ').filter_map(|s| u64::from_str_radix(s, 16).ok()).collect(), it.next().unwrap_or("").split(' ').filter_map(|s| s.parse().ok()).collect()), None => continue } }
                else { continue };
            if tx.send((gen, ev)).is_err() { return; }
        }
        let _ = tx.send((gen, Ev::Gone(w)));
    });
    Ok(ch)
}

pub fn check(prop: &str, tier: &str) -> i32 {
    if !scen::PROPS.contains(&prop) || !["quick", "thorough"].contains(&tier) { eprintln!("unknown property or tier"); return 2; }
    let t0 = Instant::now();
    let m = master();
    let (runs, secs) = budget(prop, tier);
    let runs = std::env::var("FOLIA_SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(runs);
    let known = known::apart(prop);
    for l in &known { println!("{}", l); }
    let (tx, rx) = mpsc::channel();
    let mut wk: Vec<Wk> = vec![];
    let mut gens = vec![0u64; WORKERS as usize];
    for w in 0..WORKERS {
        match spawn(prop, w, 0, m, w, runs, secs, &tx) { Ok(ch) => wk.push(Wk { ch, last: Instant::now(), cpu: 0.0, running: None, next: w, ended: false }), Err(e) => { eprintln!("cannot start workers: {}", e); return 2; } }
    }
    let mut stats: BTreeMap<String, u64> = BTreeMap::new();
    let mut states: BTreeSet<u64> = BTreeSet::new();
    let (mut edges, mut edges_total): (BTreeSet<u32>, u32) = (BTreeSet::new(), 0);
    let mut traces: BTreeMap<u64, String> = BTreeMap::new();
    let mut toolong: Vec<u64> = vec![];
    let mut found: Vec<(u64, String, String)> = vec![]; // run, class, message
    let (mut done, mut nontrivial, mut diverted) = (0u64, 0u64, 0u64);
    let mut divs: BTreeMap<String, u64> = BTreeMap::new();
    let mut first_found: Option<Instant> = None;
    let mut crashes = 0;
    loop {
        if wk.iter().all(|w| w.ended) { break; }
        if let Some(t) = first_found { if t.elapsed() > Duration::from_secs(4) || found.len() > 200 { break; } }
        let ev = rx.recv_timeout(Duration::from_millis(500));
        for w in 0..wk.len() {
            if !wk[w].ended && hangs(wk[w].last, wk[w].cpu, wk[w].ch.id(), hang_limit(prop)) {
                if let Some(i) = wk[w].running { let _ = wk[w].ch.kill(); 
                    if scen::plan(prop, m, i).size >= 100_000 { toolong.push(i); } // slow is not wrong
                    else { found.push((i, "hang".into(), "no progress".into())); first_found.get_or_insert(Instant::now()); }
                     wk[w].last = Instant::now(); }
            }
        }
        let (g, ev) = match ev { Ok(x) => x, Err(_) => continue };
        match ev {
            Ev::Start(w, i) => { let k = &mut wk[w as usize]; k.running = Some(i); k.next = i + WORKERS; k.last = Instant::now(); k.cpu = cpu(k.ch.id()); }
            Ev::Done(w, i, j) => {
                let k = &mut wk[w as usize];
                k.running = None; k.last = Instant::now();
                done += 1;
                if j.get("states").int() > 0 { nontrivial += 1; }
                if traces.len() < 4000 { traces.insert(i, j.get("trace").str().to_string()); }
                if let J::Str(s) = j.get("diverted") { diverted += 1; let mut s = s.clone(); s.truncate(s.char_indices().nth(150).map_or(s.len(), |x| x.0)); *divs.entry(s).or_insert(0) += 1; }
                for v in j.get("violations").arr() { found.push((i, v.get("class").str().to_string(), v.get("message").str().to_string())); first_found.get_or_insert(Instant::now()); }
            }
            Ev::End(w, j, st, ed) => { if let Some((n, e)) = ed.split_first() { edges_total = *n; edges.extend(e); } wk[w as usize].ended = true; if let J::Obj(o) = &j { for (k, v) in o { *stats.entry(k.clone()).or_insert(0) += v.int() as u64; } } states.extend(st); }
            Ev::Gone(w) => {
                let k = &mut wk[w as usize];
                if k.ended || g != gens[w as usize] { continue; }
                let st = k.ch.wait();
                if let Some(i) = k.running.take() {
                    if !toolong.contains(&i) && !found.iter().any(|f| f.0 == i) { found.push((i, st.map(|s| death(&s)).unwrap_or_else(|_| "crash".into()), "the worker died".into())); first_found.get_or_insert(Instant::now()); }
                }
                crashes += 1;
                let left = secs.saturating_sub(t0.elapsed().as_secs());
                if crashes > 20 || left == 0 { k.ended = true; continue; }
                gens[w as usize] += 1;
                match spawn(prop, w, gens[w as usize], m, k.next, runs, left, &tx) { Ok(ch) => { k.ch = ch; k.last = Instant::now(); k.cpu = 0.0; } Err(_) => k.ended = true }
            }
        }
    }
    for w in wk.iter_mut() { let _ = w.ch.kill(); let _ = w.ch.wait(); }
    let search_s = t0.elapsed().as_secs_f64();
    // confirm, minimise, report
    found.sort_by_key(|f| f.0);
    let mut classes: Vec<String> = vec![];
    let mut reported = 0;
    let mut unconfirmed: Vec<String> = vec![];
    let mut slow: Vec<String> = toolong.iter().map(|i| format!("run {}", i)).collect(); // took too long once, but finishes by itself
    let deadline = t0 + Duration::from_secs(if tier == "thorough" { 780 } else { 420 });
    for (i, class, msg) in &found {
        if classes.contains(class) { continue; }
        if reported >= 3 || Instant::now() > deadline { break; }
        let p = scen::plan(prop, m, *i);
        let mut q = p.clone();
        let mut cl = class.clone();
        let mut seen = fresh(&q, false);
        if !seen.classes.iter().any(|c| c.0 == cl) {
            if let Some(c) = seen.classes.first() { cl = c.0.clone(); }
            else if class == "hang" && prop != "C12" { slow.push(format!("run {}", i)); continue; }
            else { // it may need what the process did before
                let mut all: Vec<u64> = (0..*i).filter(|x| x % WORKERS == i % WORKERS).collect();
                if all.len() > 400 { all = all.split_off(all.len() - 400); }
                let mut ok = false;
                let mut k = 1;
                while Instant::now() < deadline { q.prelude = all[all.len() - k.min(all.len())..].to_vec(); seen = fresh(&q, false); if !seen.classes.is_empty() { cl = seen.classes.iter().find(|c| c.0 == *class).unwrap_or(&seen.classes[0]).0.clone(); ok = true; break; } if k >= all.len() { break; } k *= 4; }
                if !ok && class == "hang" { slow.push(format!("run {}", i)); continue; }
                if !ok { unconfirmed.push(format!("run {}: {}: {}", i, class, msg)); continue; }
            }
        }
        if classes.contains(&cl) { continue; }
        classes.push(class.clone()); classes.push(cl.clone());
        let until = (Instant::now() + Duration::from_secs(if cl == "hang" { 150 } else { 75 })).min(deadline);
        let small = if std::env::var_os("FOLIA_SIM_NOMIN").is_some() { q.clone() } else { minimise(&q, &cl, until) };
        let fate = fresh(&small, true);
        let why = fate.classes.iter().find(|c| c.0 == cl).or(seen.classes.iter().find(|c| c.0 == cl)).map(|c| c.1.clone()).unwrap_or_else(|| msg.clone());
        let dir = root().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let name: String = cl.chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '-' }).collect();
        let f = dir.join(format!("{}-{}-{}.json", prop, i, name));
        let j = J::obj().with("property", J::s(prop)).with("class", J::s(&cl)).with("message", J::s(&why)).with("run", J::i(*i)).with("tier", J::s(tier)).with("trace", J::s(&fate.trace)).with("plan", small.to_json())
            .with("original_steps", J::u(p.steps.len())).with("minimised_steps", J::u(small.steps.len())).with("how_to_replay", J::s(&format!("bash /verif/check.sh replay {}", f.display()))).with("log", J::Arr(fate.log.iter().map(|l| J::s(l)).collect()));
        let _ = std::fs::write(&f, j.pretty());
        let mut short = why.clone(); if short.len() > 600 { let mut n = 600; while !short.is_char_boundary(n) { n -= 1; } short.truncate(n); }
        println!("{}: {} ({} of {} steps, run {})", cl, short, small.steps.len(), p.steps.len(), i);
        println!("VIOLATION property={} replay={}", prop, f.display());
        reported += 1;
    }
    // is a run still a function of its seed?
    let mut rechecked = 0;
    let mut unstable = 0;
    if reported == 0 && prop != "C19" && prop != "C18" {
        let ks: Vec<u64> = traces.keys().copied().collect();
        for k in ks.iter().step_by((ks.len() / 12).max(1)).take(12) { rechecked += 1; let f = fresh(&scen::plan(prop, m, *k), false); if f.trace != traces[k] { unstable += 1; } }
    }
    let harness = stats.get("harness_panics").copied().unwrap_or(0);
    let wall = t0.elapsed().as_secs_f64();
    evidence(prop, tier, m, done, nontrivial, diverted, &divs, &stats, states.len() as u64, search_s, wall, reported, rechecked, unstable, &known, &unconfirmed, (edges.len() as u64, edges_total as u64));
    println!("{} {}: {} runs in {:.1} s, {} diverted, {} distinct states, {} violations{}", prop, tier, done, wall, diverted, states.len(), reported, if unconfirmed.is_empty() && slow.is_empty() { String::new() } else { format!(", {} not reproduced, {} merely slow", unconfirmed.len(), slow.len()) });
    if reported > 0 { return 1; }
    if !unconfirmed.is_empty() { eprintln!("not reproducible: {:?}", unconfirmed); return 2; }
    if harness > 0 { eprintln!("the harness itself failed in {} runs: {:?}", harness, divs); return 2; }
    if unstable > 0 { eprintln!("{} of {} runs gave another trace in a fresh process", unstable, rechecked); return 2; }
    if done == 0 { eprintln!("nothing was run"); return 2; }
    0
}

#[allow(clippy::too_many_arguments)]
fn evidence(prop: &str, tier: &str, m: u64, done: u64, nontrivial: u64, diverted: u64, divs: &BTreeMap<String, u64>, stats: &BTreeMap<String, u64>, states: u64, search_s: f64, wall: f64, violations: u64, rechecked: u64, unstable: u64, known: &[String], unconfirmed: &[String], edges: (u64, u64)) {
    let mut samples = vec![];
    for i in [0u64, 1, 7].iter() { let p = scen::plan(prop, m, *i); samples.push(p.to_json()); }
    let faults: BTreeMap<String, u64> = stats.iter().filter(|(k, _)| k.starts_with("fault_") || k.starts_with("disk_") && (k.contains("short") || k.contains("eintr") || k.contains("error") || k.contains("enoent")) || k.starts_with("cli_") && !k.ends_with("_reads") || k.contains("switches") || k.contains("clock_jumps") || *k == "restarts" || k.contains("environment_changes")).map(|(k, v)| (k.clone(), *v)).collect();
    let (real, stub) = components(prop);
    let rate = done as f64 / search_s.max(0.001) * 3600.0;
    let cov = J::obj()
        .with("evaluations", J::i(done)).with("distinct_nontrivial", J::i(nontrivial.saturating_sub(diverted)))
        .with("rule", J::s(&format!("a run is a plan drawn from (VERIF_SEED, property, run number): a document or several, a list of operations and faults, entropy, clock and schedule. Seeds are distinct by construction; non-trivial: the run got as far as recording at least one state under the measure below and was not diverted by something that bears on another property. State measure: {}", measure(prop))))
        .with("runs_per_hour", J::Int(rate as i128)).with("seeds_per_hour", J::Int(rate as i128))
        .with("simulated_time", J::s(&format!("{} readings of the simulated clock; the library has no timers, so time passes only between readings (1 ms each) and in the jumps counted under faults", stats.get("clock_reads").copied().unwrap_or(0))))
        .with("faults_injected", J::from_map(&faults)).with("distinct_states", J::i(states)).with("counters", J::from_map(stats))
        .with("library_edges_reached", J::i(edges.0)).with("library_edges_total", J::i(edges.1)).with("diverted_runs", J::i(diverted)).with("diverted_why", J::from_map(divs))
        .with("determinism_rechecked_in_fresh_process", J::i(rechecked)).with("determinism_failures", J::i(unstable))
        .with("real_components", J::s(real)).with("stubbed_components", J::s(stub))
        .with("known_findings", J::Arr(known.iter().map(|k| J::s(k)).collect())).with("unconfirmed", J::Arr(unconfirmed.iter().map(|k| J::s(k)).collect()))
        .with("samples", J::Arr(samples));
    let e = J::obj().with("property", J::s(prop)).with("tier", J::s(tier)).with("seed", J::Int(m as i128)).with("level", J::s("exploration")).with("coverage", cov)
        .with("assumptions", J::Arr(vec![J::s("seeded sampling, not enumeration: a clean batch is evidence, not proof"), J::s("the generators' domain and the oracle are described in DESIGN.md; what they leave out is not covered")]))
        .with("wall_s", J::Num(wall)).with("violations", J::i(violations));
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(dir.join(format!("{}.json", prop)), e.pretty());
}
fn measure(prop: &str) -> &'static str {
    match prop {
        "C12" => "hash of the realised schedule (which thread was switched to which, at which tick: allocation or edge of the library's control flow)",
        "C02" => "distinct (document, crash point) pairs", "C03" => "distinct (document, delivery) pairs", "C04" => "distinct (document, fault) pairs", "C05" => "distinct damaged files",
        "C17" => "distinct (files, faults, output plan)", "C18" => "shape and size of the document", "C19" => "seed of the exhaustion history",
        _ => "hash of the document's tree shape, element types, declarations and provenance after each step",
    }
}
fn components(prop: &str) -> (&'static str, &'static str) {
    match prop {
        "C17" => ("the folialintr binary and the whole library, unmodified; the operating system's files and pipes", "open, read and write of the tool go through a preloaded shim that applies the plan"),
        _ => ("the whole folia library and its dependencies (quick-xml, chrono, std's file, hash map and random code), unmodified", "the disk (an in-memory one behind open/read/close), the wall clock, the kernel's entropy; in C12 also the choice of which thread runs"),
    }
}
pub fn replay(f: &str) -> i32 {
    let j = match std::fs::read_to_string(f).ok().and_then(|s| J::parse(&s)) { Some(j) => j, None => { eprintln!("cannot read {}", f); return 2; } };
    let p = match read_plan(f) { Some(p) => p, None => return 2 };
    let fate = fresh(&p, true);
    for l in &fate.log { println!("{}", l); }
    let class = j.get("class").str();
    println!("recorded: {} trace {}", class, j.get("trace").str());
    println!("now:      {:?} trace {}", fate.classes, fate.trace);
    if fate.classes.iter().any(|c| c.0 == class) { println!("reproduced{}", if fate.trace == j.get("trace").str() { ", identical trace" } else { ", another trace" }); println!("VIOLATION property={} replay={}", p.prop, f); 1 } else { println!("not reproduced"); 0 }
}
/// Runs many seeds twice in different processes and compares the traces.
pub fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    let mut total = 0;
    for prop in scen::PROPS.iter() {
        if *prop == "C19" || *prop == "C18" { continue; }
        let mut hs = vec![];
        for w in 0..WORKERS { let prop = prop.to_string(); hs.push(std::thread::spawn(move || { let mut b = vec![]; for i in (w..n).step_by(WORKERS as usize) { let p = scen::plan(&prop, 99, i); let a = fresh(&p, false); let c = fresh(&p, false); let mut q = p.clone(); q.prelude = vec![i + 1, i + 2]; let d = fresh(&q, false); if a.trace != c.trace || a.trace != d.trace { b.push(i); } } b })); }
        let v: Vec<u64> = hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect();
        total += n;
        println!("{}: {} of {} runs differ between processes {:?}", prop, v.len(), n, v.iter().take(5).collect::<Vec<_>>());
        bad += v.len();
    }
    println!("{} of {}", bad, total);
    if bad > 0 { 1 } else { 0 }
}
