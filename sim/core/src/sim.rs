//! The world: one simulated execution. Owns the choice tapes, the virtual clock, the cooperative
//! thread scheduler and the counters. Exactly one simulated thread runs at any time.
use crate::raw;
use crate::tape::{Tape, Tapes, S, hash_bytes, mix};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, AtomicUsize, AtomicBool, Ordering::*};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St { Run, Futex(usize), Sleep, Join(usize), Done }

pub struct Th {
    pub id: usize,
    go: AtomicU32,
    st: St,
    wake_at: Option<u64>,
    timed_out: bool,
    pthread: u64,
}

#[derive(Clone, Copy)]
pub struct Opts {
    /// mean number of allocations between two preemption decisions (0: allocations never preempt)
    pub alloc_gap: u64,
    /// one in `io_gap` I/O operations asks the scheduler who continues (0: never)
    pub io_gap: u64,
    pub max_steps: u64,
    pub stack: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { alloc_gap: 0, io_gap: 0, max_steps: 60_000_000, stack: 8 << 20 }
    }
}

pub struct World {
    tapes: [Tape; 4],
    pub trace: u64,
    pub events: u64,
    pub steps: u64,
    pub switches: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub log: Option<Vec<String>>,
    pub now: u64,
    pub opts: Opts,
    threads: Vec<Box<Th>>,
    cur: usize,
    nrun: usize,
    budget: u64,
    env_rng: Option<crate::tape::Rng>,
    pub cpus: u32,
}

static mut WORLD: *mut World = std::ptr::null_mut();
static mut DEPTH: usize = 0;
thread_local! { static CUR: Cell<*mut Th> = const { Cell::new(std::ptr::null_mut()) }; }

pub fn cur() -> *mut Th { CUR.try_with(|c| c.get()).unwrap_or(std::ptr::null_mut()) }
/// Is the calling thread simulated?
pub fn active() -> bool { !cur().is_null() && unsafe { !WORLD.is_null() } }

pub struct G;
impl Drop for G { fn drop(&mut self) { unsafe { DEPTH -= 1; } } }
pub fn hold() -> G { unsafe { DEPTH += 1; } G }
#[allow(static_mut_refs)]
pub fn w() -> &'static mut World { unsafe { &mut *WORLD } }

pub fn choice(s: S, n: u64) -> u64 {
    if !active() { return 0; }
    let _g = hold();
    let w = w();
    let v = w.tapes[s as usize].choice(n);
    w.trace = mix(w.trace, (s as u64) << 56 ^ v);
    v
}
pub fn gen(n: u64) -> u64 { choice(S::Gen, n) }
pub fn fault(n: u64) -> u64 { choice(S::Fault, n) }
pub fn env(n: u64) -> u64 { choice(S::Env, n) }
/// true with probability num/den; false is the plain choice
pub fn genp(num: u64, den: u64) -> bool { gen(den) >= den - num && num > 0 }
pub fn faultp(num: u64, den: u64) -> bool { fault(den) >= den - num && num > 0 }

pub fn fired(kind: &'static str) {
    if !active() { return; }
    let _g = hold();
    *w().faults.entry(kind).or_insert(0) += 1;
    note(kind.as_bytes());
}
pub fn probe(kind: &str) {
    if !active() { return; }
    let _g = hold();
    *w().probes.entry(kind.to_string()).or_insert(0) += 1;
}
pub fn note(b: &[u8]) {
    if !active() { return; }
    let _g = hold();
    let w = w();
    w.trace = hash_bytes(w.trace, b);
    w.events += 1;
}
pub fn state(h: u64) {
    if !active() { return; }
    let _g = hold();
    w().states.push(h);
}
pub fn log(f: impl FnOnce() -> String) {
    if !active() { return; }
    let _g = hold();
    let w = w();
    if let Some(l) = w.log.as_mut() {
        if l.len() < 4000 {
            let t = w.cur;
            let s = format!("[t{t} {:>9.6}s #{}] {}", w.now as f64 / 1e9, w.steps, f());
            l.push(s);
        }
    }
}

/// A fatal verdict from inside the run (no unwinding possible): report and end the process.
pub fn fatal(kind: &str, detail: &str) -> ! {
    let s = format!("X {kind}\t{}\n", detail.replace(['\n', '\t'], " "));
    raw::write_all(crate::driver::OUT_FD.load(Relaxed) as i32, s.as_bytes());
    raw::exit(77)
}

fn step(w: &mut World) {
    w.steps += 1;
    if w.steps > w.opts.max_steps {
        fatal("hang", &format!("no end after {} simulated steps", w.opts.max_steps));
    }
}

// ---- scheduling -------------------------------------------------------------------------------

unsafe fn park(me: *mut Th) {
    while (*me).go.swap(0, Acquire) == 0 {
        raw::futex_wait((*me).go.as_ptr(), 0);
    }
}
unsafe fn unpark(t: *mut Th) {
    (*t).go.store(1, Release);
    raw::futex_wake((*t).go.as_ptr(), 1);
}

/// Choose the thread that continues; the caller's state is already set.
unsafe fn pick(w: &mut World) -> usize {
    loop {
        for t in w.threads.iter_mut() {
            if let Some(at) = t.wake_at {
                if at <= w.now && matches!(t.st, St::Futex(_) | St::Sleep) {
                    t.timed_out = true;
                    t.wake_at = None;
                    t.st = St::Run;
                }
            }
        }
        let cur = w.cur;
        let cands: Vec<usize> = w.threads.iter().filter(|t| t.st == St::Run).map(|t| t.id).collect();
        w.nrun = cands.len();
        if cands.is_empty() {
            match w.threads.iter().filter(|t| matches!(t.st, St::Futex(_) | St::Sleep)).filter_map(|t| t.wake_at).min() {
                Some(at) => { w.now = at; continue; }
                None => fatal("deadlock", &format!("all {} threads are blocked: {:?}", w.threads.len(), w.threads.iter().map(|t| t.st).collect::<Vec<_>>())),
            }
        }
        if cands.len() == 1 { return cands[0]; }
        // 0 keeps the current thread when possible
        let mut order = Vec::with_capacity(cands.len());
        if cands.contains(&cur) { order.push(cur); }
        order.extend(cands.into_iter().filter(|c| *c != cur));
        let v = w.tapes[S::Sched as usize].choice(order.len() as u64);
        w.trace = mix(w.trace, 7 << 40 ^ order[v as usize] as u64);
        return order[v as usize];
    }
}

unsafe fn switch(w: &mut World) {
    let me: *mut Th = cur();
    let n = pick(w);
    if n == w.cur { return; }
    w.switches += 1;
    w.trace = mix(w.trace, 5 << 40 ^ n as u64);
    w.cur = n;
    let t: *mut Th = &mut *w.threads[n];
    // DEPTH belongs to the running thread; save it across the switch
    let d = DEPTH;
    DEPTH = 0;
    unpark(t);
    park(me);
    DEPTH = d;
}

fn rebudget(w: &mut World) {
    if w.opts.alloc_gap == 0 { w.budget = u64::MAX; return; }
    let v = w.tapes[S::Sched as usize].choice(2 * w.opts.alloc_gap);
    w.budget = if v == 0 { u64::MAX } else { v };
}

#[inline]
pub fn alloc_point() {
    if !active() { return; }
    unsafe {
        if DEPTH > 0 { return; }
        let w = w();
        step(w);
        if w.nrun <= 1 || w.budget == u64::MAX { return; }
        w.budget -= 1;
        if w.budget == 0 {
            let _g = hold();
            rebudget(w);
            switch(w);
        }
    }
}

/// A scheduling point at an I/O operation.
pub fn io_point() {
    if !active() { return; }
    let _g = hold();
    let w = w();
    step(w);
    w.now += 1_000;
    if w.nrun > 1 && w.opts.io_gap > 0 {
        let v = w.tapes[S::Sched as usize].choice(w.opts.io_gap + 1);
        if v == 1 { unsafe { switch(w) } }
    }
}

pub fn yield_now() {
    if !active() { return; }
    let _g = hold();
    let w = w();
    step(w);
    w.now += 500;
    unsafe {
        // round robin so that spinning threads cannot starve the others
        let me = w.cur;
        for t in w.threads.iter_mut() {
            if let Some(at) = t.wake_at {
                if at <= w.now && matches!(t.st, St::Futex(_) | St::Sleep) { t.timed_out = true; t.wake_at = None; t.st = St::Run; }
            }
        }
        let n = w.threads.len();
        let next = (1..n).map(|d| (me + d) % n).find(|i| w.threads[*i].st == St::Run);
        if let Some(nx) = next {
            w.switches += 1;
            w.cur = nx;
            let mep: *mut Th = cur();
            let t: *mut Th = &mut *w.threads[nx];
            let d = DEPTH; DEPTH = 0;
            unpark(t);
            park(mep);
            DEPTH = d;
        } else {
            // everybody else is blocked: let time pass
            if let Some(at) = w.threads.iter().filter_map(|t| t.wake_at).min() { if at > w.now { w.now += (at - w.now).min(50_000); } }
        }
    }
}

/// futex WAIT; `deadline` absolute virtual ns. Returns 0 or an errno.
pub unsafe fn futex_wait(addr: usize, val: u32, deadline: Option<u64>) -> i32 {
    let _g = hold();
    let w = w();
    step(w);
    w.now += 200;
    if (*(addr as *const AtomicU32)).load(SeqCst) != val { return libc::EAGAIN; }
    let me = &mut *cur();
    me.st = St::Futex(addr);
    me.wake_at = deadline;
    me.timed_out = false;
    switch(w);
    let me = &mut *cur();
    me.wake_at = None;
    if me.timed_out { libc::ETIMEDOUT } else { 0 }
}
pub unsafe fn futex_wake(addr: usize, n: u32) -> i64 {
    let _g = hold();
    let w = w();
    step(w);
    let mut c = 0;
    for t in w.threads.iter_mut() {
        if c >= n { break; }
        if t.st == St::Futex(addr) { t.st = St::Run; t.wake_at = None; t.timed_out = false; c += 1; }
    }
    w.nrun = w.threads.iter().filter(|t| t.st == St::Run).count();
    if c > 0 && w.opts.io_gap > 0 {
        let v = w.tapes[S::Sched as usize].choice(4);
        if v == 1 { switch(w); }
    }
    c as i64
}
pub fn sleep_ns(d: u64) {
    let _g = hold();
    let w = w();
    step(w);
    unsafe {
        let me = &mut *cur();
        me.st = St::Sleep;
        me.wake_at = Some(w.now + d);
        switch(w);
    }
}
pub fn clock() -> u64 {
    let w = w();
    w.now += 100;
    w.now
}

// ---- threads ----------------------------------------------------------------------------------

pub struct Start { f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void, th: *mut Th }

/// Register a new thread; the returned box is handed to `trampoline`.
pub unsafe fn prepare_thread(f: extern "C" fn(*mut libc::c_void) -> *mut libc::c_void, arg: *mut libc::c_void) -> *mut Start {
    let _g = hold();
    let w = w();
    let id = w.threads.len();
    w.threads.push(Box::new(Th { id, go: AtomicU32::new(0), st: St::Run, wake_at: None, timed_out: false, pthread: 0 }));
    w.nrun += 1;
    let th: *mut Th = &mut *w.threads[id];
    Box::into_raw(Box::new(Start { f, arg, th }))
}
pub unsafe fn thread_created(s: *const Start, th: *mut Th, pthread: u64) {
    let _ = s;
    (*th).pthread = pthread;
    if w().budget == u64::MAX { let _g = hold(); rebudget(w()); }
    io_point();
}
pub unsafe fn start_th(s: *mut Start) -> *mut Th { (*s).th }
pub unsafe fn abandon(s: *mut Start) {
    let s = Box::from_raw(s);
    (*s.th).st = St::Done;
    w().nrun -= 1;
}
pub extern "C" fn trampoline(p: *mut libc::c_void) -> *mut libc::c_void {
    unsafe {
        let s = p.cast::<Start>();
        let th = (*s).th;
        park(th);
        CUR.with(|c| c.set(th));
        DEPTH = 0;
        let (f, arg) = ((*s).f, (*s).arg);
        { let _g = hold(); drop(Box::from_raw(s)); }
        let r = f(arg);
        // finished: hand over
        DEPTH += 1;
        let w = w();
        (*th).st = St::Done;
        let id = (*th).id;
        for t in w.threads.iter_mut() { if t.st == St::Join(id) { t.st = St::Run; } }
        let n = pick(w);
        w.cur = n;
        let t: *mut Th = &mut *w.threads[n];
        CUR.with(|c| c.set(std::ptr::null_mut()));
        DEPTH = 0;
        unpark(t);
        r
    }
}
pub unsafe fn join(pthread: u64) {
    let _g = hold();
    let w = w();
    step(w);
    let Some(id) = w.threads.iter().rev().find(|t| t.pthread == pthread && t.id != 0).map(|t| t.id) else { return };
    if w.threads[id].st != St::Done {
        (*cur()).st = St::Join(id);
        switch(w);
    }
}
pub fn threads_alive() -> usize { w().threads.iter().filter(|t| t.st != St::Done).count() }
pub fn threads_total() -> usize { w().threads.len() }
pub fn set_opts(f: impl FnOnce(&mut Opts)) {
    let w = w();
    f(&mut w.opts);
    let _g = hold();
    rebudget(w);
}

/// Random bytes for hash seeds and key generation: a PRNG seeded from one draw of the Env tape.
pub fn random_bytes(b: &mut [u8]) {
    let _g = hold();
    let w = w();
    if w.env_rng.is_none() {
        let v = w.tapes[S::Env as usize].choice(1 << 32);
        w.env_rng = Some(crate::tape::Rng::new(mix(v, 0xE17)));
    }
    let r = w.env_rng.as_mut().unwrap();
    for c in b.chunks_mut(8) {
        let v = r.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}
/// Change the hash seed/randomness stream from now on (affects threads that have not hashed yet).
pub fn reseed_env(v: u64) {
    w().env_rng = Some(crate::tape::Rng::new(mix(v, 0xE17)));
}

// ---- running ----------------------------------------------------------------------------------

pub struct Outcome<T> {
    pub value: Result<T, String>,
    pub tapes: Tapes,
    pub trace: u64,
    pub events: u64,
    pub steps: u64,
    pub switches: u64,
    pub threads: usize,
    pub now: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<String, u64>,
    pub states: Vec<u64>,
    pub log: Vec<String>,
}

static CATCH_EXIT: AtomicBool = AtomicBool::new(false);
static mut EXITED: Option<i32> = None;
/// From now on `exit` does not end the process: the calling thread stops for good and the code is kept.
pub fn catch_exit() { CATCH_EXIT.store(true, SeqCst); unsafe { EXITED = None; } }
pub fn exited() -> Option<i32> { unsafe { EXITED } }
static mut ON_EXIT: Option<Box<dyn FnMut(i32)>> = None;
/// Call `f` when the code under test ends the process.
pub fn on_exit(f: impl FnMut(i32) + 'static) { unsafe { ON_EXIT = Some(Box::new(f)); } }
/// Called by the interposed `exit`.
pub fn at_exit(code: i32) {
    #[allow(static_mut_refs)]
    if active() { if let Some(mut f) = unsafe { ON_EXIT.take() } { let _g = hold(); f(code); } }
    if !active() || !CATCH_EXIT.load(SeqCst) { return; }
    unsafe { EXITED = Some(code); }
    fired("process-exit");
    loop { sleep_ns(1 << 62); }
}
/// The last panic of any thread of this run.
pub fn panicked() -> Option<String> {
    #[allow(static_mut_refs)]
    unsafe { if PANICS.load(SeqCst) > 0 { Some(LAST_PANIC.clone()) } else { None } }
}
pub static PANICS: AtomicUsize = AtomicUsize::new(0);
pub static mut LAST_PANIC: String = String::new();
static HOOK: AtomicBool = AtomicBool::new(false);

pub fn install_hook() {
    if HOOK.swap(true, SeqCst) { return; }
    std::panic::set_hook(Box::new(|p| {
        let _g = if active() { Some(hold()) } else { None };
        let msg = p.payload().downcast_ref::<&str>().map(|s| (*s).to_string())
            .or_else(|| p.payload().downcast_ref::<String>().cloned()).unwrap_or_else(|| "panic".into());
        let loc = p.location().map_or_else(String::new, |l| format!("{}:{}", l.file(), l.line()));
        if std::env::var_os("SIM_BT").is_some() {
            eprintln!("PANIC {msg} @ {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANICS.fetch_add(1, SeqCst);
        #[allow(static_mut_refs)]
        unsafe {
            if !(msg == "a scoped thread panicked" && !LAST_PANIC.is_empty()) {
                LAST_PANIC = format!("{msg} @ {loc}");
            }
        }
    }));
}

pub enum Source { Seed(u64), Tapes(Tapes), /** per tape: seeded, or always the plainest choice */ Each([Option<u64>; 4]) }

/// Run `f` as the root thread of a fresh world.
pub fn run<T: Send + 'static>(src: Source, opts: Opts, keep_log: bool, f: impl FnOnce() -> T + Send + 'static) -> Outcome<T> {
    install_hook();
    assert!(unsafe { WORLD.is_null() });
    let tapes = match src {
        Source::Seed(s) => [0u64, 1, 2, 3].map(|i| Tape::seeded(mix(s, i + 100))),
        Source::Tapes(t) => t.map(Tape::replay),
        Source::Each(t) => t.map(|s| s.map_or_else(|| Tape::replay(vec![]), Tape::seeded)),
    };
    let world = Box::new(World {
        tapes, trace: 0, events: 0, steps: 0, switches: 0, faults: BTreeMap::new(), probes: BTreeMap::new(), states: vec![],
        log: if keep_log { Some(vec![]) } else { None }, now: 0, opts, threads: vec![], cur: 0, nrun: 1, budget: u64::MAX, env_rng: None, cpus: 4,
    });
    unsafe {
        WORLD = Box::into_raw(world);
        #[allow(static_mut_refs)]
        LAST_PANIC.clear();
        PANICS.store(0, SeqCst);
        CATCH_EXIT.store(false, SeqCst);
        DEPTH = 0;
    }
    let h = std::thread::Builder::new().stack_size(opts.stack).spawn(move || unsafe {
        let w = w();
        w.threads.push(Box::new(Th { id: 0, go: AtomicU32::new(0), st: St::Run, wake_at: None, timed_out: false, pthread: 0 }));
        let me: *mut Th = &mut *w.threads[0];
        CUR.with(|c| c.set(me));
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        CUR.with(|c| c.set(std::ptr::null_mut()));
        #[allow(static_mut_refs)]
        r.map_err(|_| LAST_PANIC.clone())
    }).expect("spawn root");
    let value = h.join().unwrap_or_else(|_| Err("root thread died".into()));
    crate::fsx::reset();
    crate::net::reset();
    unsafe {
        let mut w = Box::from_raw(WORLD);
        WORLD = std::ptr::null_mut();
        DEPTH = 0;
        let alive = w.threads.iter().filter(|t| t.id != 0 && t.st != St::Done).count();
        let threads = w.threads.len();
        if alive > 0 { std::mem::forget(std::mem::take(&mut w.threads)); }
        let [a, b, c, d] = w.tapes;
        Outcome { value, tapes: [a.rec, b.rec, c.rec, d.rec], trace: w.trace, events: w.events, steps: w.steps, switches: w.switches, threads,
            now: w.now, faults: w.faults, probes: w.probes, states: w.states, log: w.log.unwrap_or_default() }
    }
}

/// Run code under test, turning a panic into a description `message @ file:line`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    unsafe {
        let d = DEPTH;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        DEPTH = d;
        #[allow(static_mut_refs)]
        r.map_err(|_| { let s = LAST_PANIC.clone(); LAST_PANIC.clear(); s })
    }
}
