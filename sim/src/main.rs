//! folia-sim: deterministic simulation of folia-rust.
//!   folia-sim check <property> <quick|thorough>     search; the registered check
//!   folia-sim replay <file>                         run a replay file again, verbosely
//!   folia-sim worker … / run-plan <file>            internal
#![allow(dead_code, deprecated, unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
mod prng; mod api; mod json; mod sys; mod tables; mod model; mod snap; mod xmlw; mod xmlr; mod gen; mod core; mod query; mod session; mod scen; mod damage; mod threads; mod big; mod limits; mod cli; mod known; mod runner;
use std::cell::RefCell;
use std::sync::Mutex;

#[global_allocator] static A: sys::SimAlloc = sys::SimAlloc;

thread_local! { static PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) }; }
static LAST: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));
/// Where and why the current thread last panicked.
pub fn take_panic() -> (String, String) { PANIC.with(|p| p.borrow().clone()) }
/// Is this location in the simulator itself?
pub fn own(loc: &str) -> bool { let f = loc.split(':').next().unwrap_or(""); ["src/main.rs", "src/runner.rs", "src/known.rs", "src/scen.rs", "src/session.rs", "src/model.rs", "src/snap.rs", "src/gen.rs", "src/xmlw.rs", "src/tables.rs", "src/core.rs", "src/damage.rs", "src/threads.rs", "src/big.rs", "src/limits.rs", "src/cli.rs", "src/sys.rs", "src/prng.rs", "src/json.rs"].contains(&f) || f == "src/query.rs" && !loc.contains("repo") }

fn main() {
    std::panic::set_hook(Box::new(|i| {
        let _q = sys::quiet();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if std::env::var_os("FOLIA_SIM_BACKTRACE").is_some() { eprintln!("{} {}\n{}", loc, msg, std::backtrace::Backtrace::force_capture()); }
        PANIC.with(|p| *p.borrow_mut() = (loc, msg));
    }));
    let mut a: Vec<String> = std::env::args().collect();
    // simulating processes all have the same command line (the library records it); their orders come in the environment
    if a.get(1).map(|s| s.as_str()) == Some("sim") { a.truncate(1); a.extend(std::env::var("FOLIA_SIM_ARGS").unwrap_or_default().split('\u{1f}').map(|s| s.to_string())); }
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => runner::check(arg(2), arg(3)),
        "worker" => runner::worker(arg(2), &a[3..]),
        "run-plan" => runner::run_plan(arg(2), false),
        "replay" => runner::replay(arg(2)),
        "one" => runner::one(arg(2), arg(3).parse().unwrap_or(0)),
        "known" => { for l in known::run(arg(2)) { println!("{}", l); } 0 }
        "selftest" => runner::selftest(arg(2).parse().unwrap_or(20)),
        _ => { eprintln!("usage: folia-sim check <property> <quick|thorough> | replay <file> | one <property> <run number> | selftest <n>"); 2 }
    };
    std::process::exit(code);
}
