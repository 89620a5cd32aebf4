//! The seams: libc symbols the library's standard library calls end up in are defined here, so the
//! simulator owns the disk (`/simfs/...`), the wall clock, all entropy (and thereby every hash
//! seed), and the points at which one simulated thread may be preempted by another (allocations,
//! edges of the library's control flow, yields and futex waits). Threads that are not simulated get the real thing.
#![allow(clippy::missing_safety_doc)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::arch::asm;
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicU8, Ordering};
use std::sync::{Condvar, Mutex, MutexGuard};

pub const EINTR: i32 = 4;
pub const EIO: i32 = 5;

extern "C" { fn __errno_location() -> *mut i32; }
fn set_errno(e: i32) { unsafe { *__errno_location() = e } }

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
fn ret(r: i64) -> i64 { if r < 0 && r > -4096 { set_errno(-r as i32); -1 } else { r } }

thread_local! {
    static SIM: Cell<bool> = const { Cell::new(false) };
    static OFF: Cell<u32> = const { Cell::new(0) };
    static ENT: Cell<u64> = const { Cell::new(0) };
    static CLOCK_S: Cell<i64> = const { Cell::new(0) };
    static CLOCK_N: Cell<i64> = const { Cell::new(0) };
    static CLOCK_STEP: Cell<i64> = const { Cell::new(0) };
    static CLOCK_READS: Cell<u64> = const { Cell::new(0) };
    static ENT_READS: Cell<u64> = const { Cell::new(0) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static LIMIT: Cell<i64> = const { Cell::new(i64::MAX) };
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static NEXT_YIELD: Cell<u64> = const { Cell::new(u64::MAX) };
}

pub struct Quiet;
/// While held, the current thread's own (harness) activity is not a scheduling or fault point.
pub fn quiet() -> Quiet { OFF.with(|o| o.set(o.get() + 1)); Quiet }
impl Drop for Quiet { fn drop(&mut self) { OFF.with(|o| o.set(o.get() - 1)); } }

/// Turns the current thread into a simulated one.
pub fn enter(entropy: u64, clock: (i64, i64), step_ns: i64) {
    SIM.with(|s| s.set(true));
    ENT.with(|s| s.set(entropy));
    set_clock(clock.0, clock.1, step_ns);
}
pub fn set_clock(s: i64, n: i64, step_ns: i64) {
    CLOCK_S.with(|c| c.set(s)); CLOCK_N.with(|c| c.set(n)); CLOCK_STEP.with(|c| c.set(step_ns));
}
pub fn clock_reads() -> u64 { CLOCK_READS.with(|c| c.get()) }
pub fn entropy_reads() -> u64 { ENT_READS.with(|c| c.get()) }
pub fn ticks() -> u64 { TICKS.with(|c| c.get()) }
pub fn mem_limit(extra: i64) { LIMIT.with(|l| l.set(LIVE.with(|c| c.get()).saturating_add(extra))); PEAK.with(|p| p.set(LIVE.with(|c| c.get()))); }
pub fn mem_peak() -> i64 { PEAK.with(|p| p.get()) }
fn simulated() -> bool { SIM.with(|s| s.get()) && OFF.with(|o| o.get()) == 0 }

// ------------------------------------------------------------------ simulated disk

#[derive(Clone, Debug, PartialEq)]
pub enum Act { Max(u32), Intr, Err(i32) }

#[derive(Clone, Debug, Default)]
pub struct FilePlan {
    pub open_errs: Vec<i32>,            // successive failures of open, then it succeeds
    pub script: Vec<Act>,               // successive reads
    pub default_max: u32,               // afterwards, every read is at most this long (0: unlimited)
    pub err_at: Option<(u64, i32)>,     // reading at or beyond this offset fails, every time
    pub pipe: bool,                     // no size is known beforehand, and there is no going back
    pub intr_every: u32,                // every n-th read is interrupted first (0: never)
}
struct Open { plan: FilePlan, pos: u64, nread: u32, acted: usize }
#[derive(Default)]
pub struct Disk { files: BTreeMap<String, (Vec<u8>, FilePlan)>, open: BTreeMap<i32, Open>, pub stats: BTreeMap<&'static str, u64> }
static DISK: Mutex<Option<Disk>> = Mutex::new(None);

fn disk() -> MutexGuard<'static, Option<Disk>> {
    let mut g = match DISK.lock() { Ok(g) => g, Err(p) => p.into_inner() };
    if g.is_none() { *g = Some(Disk::default()); }
    g
}
pub fn disk_reset() { let _q = quiet(); *disk() = Some(Disk::default()); }
pub fn disk_put(path: &str, bytes: &[u8], plan: FilePlan) { let _q = quiet(); disk().as_mut().unwrap().files.insert(path.to_string(), (bytes.to_vec(), plan)); }
pub fn disk_del(path: &str) { let _q = quiet(); disk().as_mut().unwrap().files.remove(path); }
pub fn disk_stats() -> BTreeMap<&'static str, u64> { let _q = quiet(); disk().as_ref().unwrap().stats.clone() }
pub fn open_files() -> usize { let _q = quiet(); disk().as_ref().unwrap().open.len() }

unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] { let mut n = 0; while *p.add(n) != 0 { n += 1; } std::slice::from_raw_parts(p, n) }

unsafe fn do_open(path: *const u8, flags: i32, mode: u32) -> i32 {
    if simulated() && cstr(path).starts_with(b"/simfs/") {
        let _q = quiet();
        let name = String::from_utf8_lossy(cstr(path)).into_owned();
        let mut g = disk();
        let d = g.as_mut().unwrap();
        *d.stats.entry("opens").or_insert(0) += 1;
        let (bytes, mut plan) = match d.files.get_mut(&name) {
            None => { *d.stats.entry("open_enoent").or_insert(0) += 1; set_errno(2); return -1; }
            Some((b, p)) => {
                if !p.open_errs.is_empty() {
                    let e = p.open_errs.remove(0);
                    *d.stats.entry(if e == EINTR { "open_eintr" } else { "open_error" }).or_insert(0) += 1;
                    set_errno(e); return -1;
                }
                (b.clone(), p.clone())
            }
        };
        if plan.default_max == 0 { plan.default_max = u32::MAX; }
        let fd = raw(319, b"sim\0".as_ptr() as i64, 1, 0, 0, 0, 0) as i32;
        if fd < 0 { set_errno(-fd); return -1; }
        let mut off = 0;
        while off < bytes.len() {
            let n = raw(1, fd as i64, bytes.as_ptr().add(off) as i64, (bytes.len() - off) as i64, 0, 0, 0);
            if n <= 0 { set_errno(EIO); return -1; }
            off += n as usize;
        }
        raw(8, fd as i64, 0, 0, 0, 0, 0);
        d.open.insert(fd, Open { plan, pos: 0, nread: 0, acted: 0 });
        return fd;
    }
    ret(raw(257, -100, path as i64, flags as i64, mode as i64, 0, 0)) as i32
}
#[no_mangle] pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 { do_open(path, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 { do_open(path, flags, mode) }

enum Verdict { Forward, Limit(usize), Fail(i32) }
unsafe fn before_read(fd: i32, want: usize) -> Verdict {
    if !simulated() { return Verdict::Forward; }
    let _q = quiet();
    let mut g = disk();
    let Disk { open, stats, .. } = g.as_mut().unwrap();
    let o = match open.get_mut(&fd) { Some(o) => o, None => return Verdict::Forward };
    o.nread += 1;
    *stats.entry("reads").or_insert(0) += 1;
    if o.plan.intr_every > 0 && o.nread % o.plan.intr_every == 0 { *stats.entry("read_eintr").or_insert(0) += 1; return Verdict::Fail(EINTR); }
    let mut max = o.plan.default_max as usize;
    if o.acted < o.plan.script.len() {
        o.acted += 1;
        match o.plan.script[o.acted - 1] {
            Act::Intr => { *stats.entry("read_eintr").or_insert(0) += 1; return Verdict::Fail(EINTR); }
            Act::Err(e) => { *stats.entry("read_error").or_insert(0) += 1; return Verdict::Fail(e); }
            Act::Max(n) => max = (n as usize).max(1),
        }
    }
    if let Some((at, e)) = o.plan.err_at {
        if o.pos >= at { *stats.entry("read_error").or_insert(0) += 1; return Verdict::Fail(e); }
        max = max.min((at - o.pos) as usize);
    }
    if max < want { *stats.entry("short_reads").or_insert(0) += 1; }
    Verdict::Limit(max.min(want))
}
fn after_read(fd: i32, n: i64) {
    let _q = quiet();
    let mut g = disk();
    if let Some(o) = g.as_mut().unwrap().open.get_mut(&fd) { if n > 0 { o.pos += n as u64; } }
}
#[no_mangle] pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    match before_read(fd, n) {
        Verdict::Forward => ret(raw(0, fd as i64, buf as i64, n as i64, 0, 0, 0)) as isize,
        Verdict::Fail(e) => { set_errno(e); -1 }
        Verdict::Limit(m) => { let r = raw(0, fd as i64, buf as i64, m as i64, 0, 0, 0); after_read(fd, r); ret(r) as isize }
    }
}
#[repr(C)] pub struct IoVec { base: *mut u8, len: usize }
#[no_mangle] pub unsafe extern "C" fn readv(fd: i32, iov: *const IoVec, cnt: i32) -> isize {
    if cnt < 1 { return ret(raw(19, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize; }
    let v = &*iov;
    match before_read(fd, v.len) {
        Verdict::Forward => ret(raw(19, fd as i64, iov as i64, cnt as i64, 0, 0, 0)) as isize,
        Verdict::Fail(e) => { set_errno(e); -1 }
        Verdict::Limit(m) => { let r = raw(0, fd as i64, v.base as i64, m as i64, 0, 0, 0); after_read(fd, r); ret(r) as isize }
    }
}
#[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if simulated() { let _q = quiet(); if let Some(d) = disk().as_mut() { d.open.remove(&fd); } }
    ret(raw(3, fd as i64, 0, 0, 0, 0, 0)) as i32
}

fn piped(fd: i32) -> bool {
    if !simulated() { return false; }
    let _q = quiet();
    let mut g = disk();
    let Disk { open, stats, .. } = g.as_mut().unwrap();
    let p = open.get(&fd).map_or(false, |o| o.plan.pipe);
    if p { *stats.entry("size_asked_of_pipe").or_insert(0) += 1; }
    p
}
#[no_mangle] pub unsafe extern "C" fn statx(fd: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    let r = ret(raw(332, fd as i64, path as i64, flags as i64, mask as i64, buf as i64, 0)) as i32;
    if r == 0 && (path.is_null() || *path == 0) && piped(fd) { *(buf.add(28) as *mut u16) = 0o010600; *(buf.add(40) as *mut u64) = 0; }
    r
}
unsafe fn do_fstat(fd: i32, buf: *mut u8) -> i32 {
    let r = ret(raw(5, fd as i64, buf as i64, 0, 0, 0, 0)) as i32;
    if r == 0 && piped(fd) { *(buf.add(24) as *mut u32) = 0o010600; *(buf.add(48) as *mut u64) = 0; }
    r
}
#[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, buf: *mut u8) -> i32 { do_fstat(fd, buf) }
#[no_mangle] pub unsafe extern "C" fn fstat(fd: i32, buf: *mut u8) -> i32 { do_fstat(fd, buf) }
unsafe fn do_lseek(fd: i32, off: i64, whence: i32) -> i64 {
    if piped(fd) { set_errno(29); return -1; }
    ret(raw(8, fd as i64, off, whence as i64, 0, 0, 0))
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 { do_lseek(fd, off, whence) }
#[no_mangle] pub unsafe extern "C" fn lseek(fd: i32, off: i64, whence: i32) -> i64 { do_lseek(fd, off, whence) }

// ------------------------------------------------------------------ clock and entropy

#[repr(C)] pub struct TimeSpec { s: i64, n: i64 }
#[no_mangle] pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut TimeSpec) -> i32 {
    if id == 0 && simulated() {
        CLOCK_READS.with(|c| c.set(c.get() + 1));
        let (s, n) = (CLOCK_S.with(|c| c.get()), CLOCK_N.with(|c| c.get()));
        *ts = TimeSpec { s, n };
        let total = n as i128 + CLOCK_STEP.with(|c| c.get()) as i128;
        CLOCK_S.with(|c| c.set(s.saturating_add(total.div_euclid(1_000_000_000) as i64)));
        CLOCK_N.with(|c| c.set(total.rem_euclid(1_000_000_000) as i64));
        return 0;
    }
    ret(raw(228, id as i64, ts as i64, 0, 0, 0, 0)) as i32
}
unsafe fn fill(buf: *mut u8, n: usize) {
    ENT_READS.with(|c| c.set(c.get() + 1));
    for i in 0..n {
        let x = crate::prng::mix(ENT.with(|e| { e.set(e.get().wrapping_add(1)); e.get() }));
        *buf.add(i) = (x >> 24) as u8;
    }
}
#[no_mangle] pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    if SIM.with(|s| s.get()) { fill(buf, n); return n as isize; }
    ret(raw(318, buf as i64, n as i64, flags as i64, 0, 0, 0)) as isize
}
#[no_mangle] pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == 318 && SIM.with(|s| s.get()) { fill(a as *mut u8, b as usize); return b; }
    if n == 202 && simulated() && TID.with(|t| t.get()) != usize::MAX {
        let op = b & 0x7f;
        if op == 0 || op == 9 { // FUTEX_WAIT, FUTEX_WAIT_BITSET: let somebody else run, then look again
            if *(a as *const u32) != c as u32 { set_errno(11); return -1; }
            reschedule(None, true);
            set_errno(EINTR);
            return -1;
        }
    }
    ret(raw(n, a, b, c, d, e, f))
}

// ------------------------------------------------------------------ thread schedule

#[derive(Default)]
pub struct Sched { pub current: usize, pub alive: Vec<bool>, pub switches: u64, pub futex: u64, pub trace: u64, pub points: Vec<Vec<(u64, usize)>>, pub started: usize, pub base: Vec<u64>, spins: u64 }
static SCHED: Mutex<Option<Sched>> = Mutex::new(None);
static CV: Condvar = Condvar::new();
fn sched() -> MutexGuard<'static, Option<Sched>> { match SCHED.lock() { Ok(g) => g, Err(p) => p.into_inner() } }

/// `points[t]`: at thread t's n-th tick (allocation, or edge of the library's control flow), continue with the given thread.
pub fn sched_start(n: usize, points: Vec<Vec<(u64, usize)>>) {
    let _q = quiet();
    *sched() = Some(Sched { current: 0, alive: vec![true; n], points, base: vec![0; n], ..Default::default() });
}
pub fn sched_finish() -> Sched { let _q = quiet(); sched().take().unwrap_or_default() }
/// Called by simulated thread `t` when it comes up; blocks until it is its turn.
pub fn sched_join(t: usize) {
    let _q = quiet();
    let mut g = sched();
    let s = g.as_mut().unwrap();
    s.started += 1;
    CV.notify_all();
    while { let s = g.as_ref().unwrap(); s.current != t || s.started < s.alive.len() } { g = CV.wait(g).unwrap_or_else(|p| p.into_inner()); }
    let first = g.as_ref().unwrap().points[t].first().map_or(u64::MAX, |p| p.0);
    TID.with(|c| c.set(t));
    TICKS.with(|c| c.set(0));
    NEXT_YIELD.with(|c| c.set(first));
}
pub fn sched_leave() {
    let _q = quiet();
    NEXT_YIELD.with(|c| c.set(u64::MAX));
    let t = TID.with(|c| c.get());
    TID.with(|c| c.set(usize::MAX));
    let mut g = sched();
    let s = g.as_mut().unwrap();
    s.alive[t] = false;
    if let Some(n) = s.alive.iter().position(|a| *a) { s.current = n; s.switches += 1; }
    CV.notify_all();
}
/// A voluntary scheduling point (e.g. a hand-over of a document); continues with thread `to`.
pub fn hand_over(to: usize) { if TID.with(|c| c.get()) != usize::MAX { reschedule(Some(to), false); } }

fn reschedule(to: Option<usize>, futex: bool) {
    let _q = quiet();
    let t = TID.with(|c| c.get());
    let mut g = sched();
    {
        let s = match g.as_mut() { Some(s) => s, None => return };
        let n = s.alive.len();
        let target = match to {
            Some(x) if s.alive[x % n] => x % n,
            _ => { let mut x = t; for k in 1..=n { if s.alive[(t + k) % n] { x = (t + k) % n; break; } } x }
        };
        if futex {
            s.futex += 1; s.spins += 1;
            if s.spins > 1_000_000 { unsafe { die("simulated threads are deadlocked\n", 78) } }
        } else { s.spins = 0; }
        if target == t { return; }
        s.switches += 1;
        s.trace = crate::prng::mix2(s.trace, (t as u64) << 48 ^ (target as u64) << 40 ^ TICKS.with(|c| c.get()));
        s.current = target;
    }
    CV.notify_all();
    while g.as_ref().map_or(false, |s| s.current != t) { g = CV.wait(g).unwrap_or_else(|p| p.into_inner()); }
}
fn preempt() {
    // at this allocation count: take all points up to now
    let t = TID.with(|c| c.get());
    if t == usize::MAX { NEXT_YIELD.with(|c| c.set(u64::MAX)); return; }
    let mut to = None;
    {
        let _q = quiet();
        let mut g = sched();
        if let Some(s) = g.as_mut() {
            let now = TICKS.with(|c| c.get());
            while s.base[t] < s.points[t].len() as u64 && s.points[t][s.base[t] as usize].0 <= now { to = Some(s.points[t][s.base[t] as usize].1); s.base[t] += 1; }
            let next = s.points[t].get(s.base[t] as usize).map_or(u64::MAX, |p| p.0);
            NEXT_YIELD.with(|c| c.set(next));
        }
    }
    if let Some(to) = to { reschedule(Some(to), false); }
}

unsafe fn die(msg: &str, code: i32) -> ! {
    raw(1, 2, msg.as_ptr() as i64, msg.len() as i64, 0, 0, 0);
    raw(231, code as i64, 0, 0, 0, 0, 0);
    loop {}
}

#[no_mangle] pub unsafe extern "C" fn sched_yield() -> i32 {
    if simulated() && TID.with(|t| t.get()) != usize::MAX { reschedule(None, false); return 0; }
    ret(raw(24, 0, 0, 0, 0, 0, 0)) as i32
}
#[no_mangle] pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const TimeSpec, rem: *mut TimeSpec) -> i32 {
    if simulated() { if TID.with(|t| t.get()) != usize::MAX { reschedule(None, false); } return 0; }
    -(raw(230, id as i64, flags as i64, req as i64, rem as i64, 0, 0) as i32)
}

// ------------------------------------------------------------------ the library's control flow

// Every edge of the library's control flow calls this (see rustc-cover.sh): a scheduling point, and
// a record of what was reached.
const EDGES_MAX: usize = 1 << 17;
static EDGES: [AtomicU8; EDGES_MAX] = { const Z: AtomicU8 = AtomicU8::new(0); [Z; EDGES_MAX] };
static EDGES_N: AtomicU32 = AtomicU32::new(0);
#[no_mangle] pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 { return; }
    let mut p = start;
    while p < stop { *p = EDGES_N.fetch_add(1, Ordering::Relaxed) + 1; p = p.add(1); }
}
#[no_mangle] pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !SIM.try_with(|s| s.get()).unwrap_or(false) || OFF.with(|o| o.get()) != 0 { return; }
    let g = *guard as usize;
    if g < EDGES_MAX { EDGES[g].store(1, Ordering::Relaxed); }
    tick();
}
// In the other build the library sets a flag in an array of its own.
static FLAGS: Mutex<Vec<(usize, usize)>> = Mutex::new(Vec::new());
#[no_mangle] pub unsafe extern "C" fn __sanitizer_cov_bool_flag_init(start: *const u8, stop: *const u8) {
    let (a, b) = (start as usize, stop as usize);
    let mut g = FLAGS.lock().unwrap_or_else(|e| e.into_inner());
    if a < b && !g.contains(&(a, b)) { g.push((a, b)); }
}
/// The edges of the library's control flow that were reached, and how many there are.
pub fn edges() -> (Vec<u32>, u32) {
    let mut v: Vec<u32> = (1..EDGES_MAX).filter(|i| EDGES[*i].load(Ordering::Relaxed) != 0).map(|i| i as u32).collect();
    let mut n = EDGES_N.load(Ordering::Relaxed);
    for (a, b) in FLAGS.lock().unwrap_or_else(|e| e.into_inner()).iter() {
        for p in *a..*b { n += 1; if unsafe { std::ptr::read_volatile(p as *const u8) } != 0 { v.push(n); } }
    }
    (v, n)
}
#[inline] fn tick() {
    let n = TICKS.with(|c| { c.set(c.get() + 1); c.get() });
    if n >= NEXT_YIELD.with(|c| c.get()) { preempt(); }
}

// ------------------------------------------------------------------ allocator

pub struct SimAlloc;
#[inline] fn on_alloc(size: usize) {
    if SIM.try_with(|s| s.get()).unwrap_or(false) {
        let live = LIVE.with(|c| { c.set(c.get() + size as i64); c.get() });
        if live > PEAK.with(|c| c.get()) {
            PEAK.with(|c| c.set(live));
            if live > LIMIT.with(|c| c.get()) { unsafe { die("memory budget of the run exceeded\n", 77) } }
        }
        if OFF.with(|o| o.get()) == 0 { tick(); }
    }
}
#[inline] fn on_free(size: usize) { if SIM.try_with(|s| s.get()).unwrap_or(false) { LIVE.with(|c| c.set(c.get() - size as i64)); } }
unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { on_alloc(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { on_free(l.size()); System.dealloc(p, l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { on_alloc(l.size()); System.alloc_zeroed(l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { on_free(l.size()); on_alloc(n); System.realloc(p, l, n) }
}
