//! The real command-line tool, its system calls under the plan's control.
use crate::core::*;
use crate::damage;
use crate::prng::{hash_bytes, mix2, Rng};
use crate::scen::*;
use crate::sys;
use folia::*;
use std::fmt::Write;
use std::io::Read;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};

pub fn run(p: &Plan, cx: &mut Cx) {
    let (bin, shim) = match (std::env::var("FOLIA_LINTR"), std::env::var("FOLIA_SHIM")) { (Ok(a), Ok(b)) => (a, b), _ => panic!("FOLIA_LINTR and FOLIA_SHIM are not set") };
    let mut r = Rng::new(p.seed ^ 0xc11);
    let dir = { let _q = sys::quiet(); let d = std::env::temp_dir().join(format!("folia-sim.{}.{:x}", std::process::id(), p.seed)); std::fs::create_dir_all(&d).expect("scratch directory"); d };
    let out = attempt(p, cx, &mut r, &bin, &shim, &dir);
    let _ = std::fs::remove_dir_all(&dir);
    out
}
fn attempt(p: &Plan, cx: &mut Cx, r: &mut Rng, bin: &str, shim: &str, dir: &std::path::Path) {
    now(cx, 0, "prepare");
    let mut plan = String::new();
    let mut args = vec![];
    let mut want: Vec<u8> = vec![];
    let mut bad = 0;
    let mut ends = vec![];
    let mut given = vec![];
    for (i, st) in p.steps.iter().enumerate() {
        now(cx, i + 1, &st.op);
        let mut fr = Rng::new(st.seed);
        if st.op == "again" { // a file named before
            if given.is_empty() { continue; }
            let (ps, loads): &(String, Option<Vec<u8>>) = fr.pick(&given);
            cx.count("file_again");
            cx.ev(&format!("again: {}", ps.rsplit('/').next().unwrap_or("")));
            match loads { Some(x) => { want.extend_from_slice(x); want.push(b'\n'); } None => bad += 1 }
            ends.push(want.len());
            args.push(ps.clone());
            continue;
        }
        let name = format!("f{}.xml", i);
        let path = dir.join(&name);
        let ps = path.to_str().unwrap().to_string();
        let mut b = document_bytes(fr.next(), p.size, cx).unwrap_or_default();
        cx.diverted = None;
        let mut fp = if fr.pct(60) { crate::session::benign_plan(&mut fr) } else { Default::default() };
        let mut fails = false;
        cx.count(&format!("file_{}", st.op));
        match st.op.as_str() {
            "good" => {}
            "damaged" => { damage::damage(&mut b, &mut fr); }
            "cut" => { let n = fr.below(b.len().max(1)); b.truncate(n); }
            "missing" => fails = true,
            "openfail" => { fp.open_errs = vec![*fr.pick(&[5, 13, 24, 2, 40])]; fails = true; }
            "readfail" => { let end = body_end(&b); fp.err_at = Some((fr.below(end.max(1)) as u64, *fr.pick(&[5, 5, 116, 12]))); fails = true; }
            _ => fails = true,
        }
        { let _q = sys::quiet(); match st.op.as_str() { "missing" => {} "dir" => std::fs::create_dir(&path).expect("directory"), _ => std::fs::write(&path, &b).expect("scratch file") } }
        let script: Vec<String> = fp.script.iter().take(200).map(|a| match a { sys::Act::Max(n) => (*n).min(1 << 30).to_string(), sys::Act::Intr => "0".into(), sys::Act::Err(e) => (-e).to_string() }).collect();
        let errs: Vec<String> = fp.open_errs.iter().map(|e| e.to_string()).collect();
        let _ = writeln!(plan, "f {} {} {} {} {} {} {} {} {}", ps, fp.default_max, fp.intr_every, fp.err_at.map_or(-1, |x| x.0 as i64), fp.err_at.map_or(0, |x| x.1), errs.len(), errs.join(" "), script.len(), script.join(" "));
        let loads = if fails { None } else { load_file(&b, Default::default(), &name).ok().and_then(|d| d.xml(0, 4).ok()) };
        cx.ev(&format!("{}: {} ({} bytes {:x}){}", name, st.op, b.len(), hash_bytes(&b), if loads.is_some() { "" } else { " not loadable" }));
        if st.op != "openfail" { given.push((ps.clone(), loads.clone())); }
        match loads { Some(x) => { want.extend_from_slice(&x); want.push(b'\n'); } None => bad += 1 }
        ends.push(want.len());
        args.push(ps);
    }
    now(cx, p.steps.len() + 1, "run");
    // the output
    let mode = r.below(6);
    let (mut max, mut every, mut at, mut err, mut once) = (0, 0, -1i64, 0, 0);
    if mode == 1 || mode == 3 { max = *r.pick(&[1i64, 7, 100, 1000]); if want.len() > 30_000 && max < 7 { max = 7; } }
    if mode == 2 || mode == 3 { every = 2 + r.below(5) as i64; }
    if mode >= 4 && !want.is_empty() {
        at = match r.below(4) { 0 => 0, 1 => *r.pick(&ends) as i64, 2 => want.len() as i64 - 1 - r.below(want.len().min(3)) as i64, _ => r.below(want.len()) as i64 };
        if at as usize >= want.len() { at = want.len() as i64 - 1; }
        err = *r.pick(&[28, 28, 5, 32, 27, 11]); // ENOSPC EIO EPIPE EFBIG EAGAIN
        if r.pct(40) { max = *r.pick(&[50i64, 4000]); }
        if r.pct(40) { once = 1; cx.count("output_fails_once"); } // and works again afterwards
    }
    let _ = writeln!(plan, "w {} {} {} {} {}", max, every, at, err, once);
    let pf = dir.join("plan");
    let sf = dir.join("stats");
    let _q = sys::quiet();
    std::fs::write(&pf, &plan).expect("plan file");
    let mut c = Command::new(bin).args(&args).env_clear().env("LD_PRELOAD", shim).env("FOLIA_SIM_PLAN", &pf).env("FOLIA_SIM_STATS", &sf).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("folialintr");
    let (mut so, mut se) = (c.stdout.take().unwrap(), c.stderr.take().unwrap());
    let h = std::thread::spawn(move || { let mut v = vec![]; let _ = se.read_to_end(&mut v); v });
    let mut got = vec![];
    let _ = so.read_to_end(&mut got);
    let errs = h.join().unwrap_or_default();
    let status = c.wait().expect("wait");
    drop(_q);
    let stats = std::fs::read_to_string(&sf).unwrap_or_default();
    for l in stats.lines() { let x: Vec<&str> = l.split(' ').collect(); if x.len() == 2 { cx.add(x[0], x[1].parse().unwrap_or(0)); } }
    cx.state(mix2(hash_bytes(plan.replace(dir.to_str().unwrap(), "").as_bytes()), hash_bytes(&want)));
    cx.count("tool_runs");
    cx.ev(&format!("output at most {} a write, interrupted every {}, failing at {} with {}: exit {:?} signal {:?}, {} of {} bytes {:x}", max, every, at, err, status.code(), status.signal(), got.len(), want.len(), hash_bytes(&got)));
    if cx.verbose { let e = String::from_utf8_lossy(&errs).replace(dir.to_str().unwrap(), ""); cx.log.push(format!("stderr: {}", e)); }
    if let Some(s) = status.signal() { cx.fail(&["C17"], "killed", format!("the tool died from signal {}", s)); return; }
    if at >= 0 {
        if status.success() && got != want { cx.fail(&["C17"], "output-lost", format!("writing failed with error {} at byte {} of {}, yet the tool exits successfully", err, at, want.len())); return; }
        if once == 0 && !want.starts_with(&got) { cx.fail(&["C17"], "output", format!("before the output failed at {}, it was already wrong", at)); }
        return;
    }
    if got != want {
        let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap_or(0);
        let f = ends.iter().position(|e| i < *e).unwrap_or(ends.len());
        cx.fail(&["C17"], "output", format!("{} bytes expected, {} printed; they differ at {} (file {}): …{}… instead of …{}…", want.len(), got.len(), i, f, String::from_utf8_lossy(&got[i.saturating_sub(20).min(got.len())..(i + 40).min(got.len())]), String::from_utf8_lossy(&want[i.saturating_sub(20).min(want.len())..(i + 40).min(want.len())])));
        return;
    }
    let lines = errs.split(|b| *b == b'\n').filter(|l| !l.is_empty()).count();
    if lines < bad { cx.fail(&["C17"], "error-unreported", format!("{} files could not be loaded, but only {} lines of errors were printed", bad, lines)); }
}
