//! Search driver: worker processes, violations, minimisation, replay files, evidence.
use crate::sim::{self, Opts, Outcome, Source};
use crate::tape::{hash_str, mix, Tapes};
use crate::raw;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub static OUT_FD: AtomicUsize = AtomicUsize::new(1);

#[derive(Debug)]
pub struct Violation { pub sig: String, pub detail: String }
/// What a passing run did.
#[derive(Debug, Default)]
pub struct Info { pub nontrivial: bool, pub key: u64, pub sample: Option<String> }
pub type Verdict = Result<Info, Violation>;
pub fn bad<T>(sig: impl Into<String>, detail: impl Into<String>) -> Result<T, Violation> { Err(Violation { sig: sig.into(), detail: detail.into() }) }
#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($d:tt)*) => { if !$c { return Err($crate::driver::Violation { sig: $sig.to_string(), detail: format!($($d)*) }); } };
}

#[derive(Clone)]
pub struct Scenario {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub opts: fn() -> Opts,
    pub run: fn() -> Verdict,
    /// runs one worker process performs before it is replaced (0: unlimited)
    pub recycle: u64,
    /// wall-clock seconds after which a single run counts as hung
    pub patience: u64,
}
impl Scenario {
    pub const fn new(name: &'static str, quick: u64, thorough: u64, run: fn() -> Verdict) -> Self {
        Scenario { name, quick, thorough, opts: Opts::default, run, recycle: 0, patience: 25 }
    }
    pub const fn opts(mut self, o: fn() -> Opts) -> Self { self.opts = o; self }
    pub const fn recycle(mut self, n: u64) -> Self { self.recycle = n; self }
}
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assumptions: &'static [&'static str],
    pub level: &'static str,
    pub scenarios: Vec<Scenario>,
}

fn run_one(sc: &Scenario, src: Source, log: bool) -> (Result<Info, Violation>, Outcome<()>) {
    let f = sc.run;
    let mut out = sim::run(src, (sc.opts)(), log, move || f());
    crate::alloc::unlimit();
    crate::fsx::reset();
    let v = std::mem::replace(&mut out.value, Err(String::new()));
    let v = match v { Ok(v) => v, Err(p) => Err(Violation { sig: format!("panic: {}", norm(&p)), detail: format!("uncaught panic: {p}") }) };
    (v, Outcome { value: Ok(()), tapes: out.tapes, trace: out.trace, events: out.events, steps: out.steps, switches: out.switches, threads: out.threads,
        now: out.now, faults: out.faults, probes: out.probes, states: out.states, log: out.log })
}
/// Drop digits so that a signature does not depend on values or line numbers.
pub fn norm(s: &str) -> String {
    let mut o = String::new();
    let mut d = false;
    // messages that quote data would make every run a violation of its own
    let (msg, at) = s.rsplit_once(" @ ").unwrap_or((s, ""));
    let data = msg.find(['"', '`', '\n']).unwrap_or(msg.len()).min(100);
    for c in msg.chars().take(msg[..msg.char_indices().map(|(i, _)| i).take_while(|&i| i <= data).last().unwrap_or(0)].chars().count()).chain(if at.is_empty() { "" } else { " @ " }.chars()).chain(at.chars()) {
        if c.is_ascii_digit() { if !d { o.push('#'); } d = true; } else { d = false; o.push(if c == '\n' || c == '\t' { ' ' } else { c }); }
    }
    o.replace("/repo/", "")
}
pub fn run_seed(seed: u64, pid: &str, sc: &str, i: u64) -> u64 { mix(mix(seed, hash_str(pid)), mix(hash_str(sc), i)) }

fn emit(s: &str) { raw::write_all(OUT_FD.load(Relaxed) as i32, s.as_bytes()); }

/// What the code under test prints must not get into the report: reports go to a descriptor of their own.
fn own_output() {
    unsafe {
        let fd = libc::fcntl(1, libc::F_DUPFD_CLOEXEC, 100);
        let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY | libc::O_CLOEXEC);
        if fd >= 0 && null >= 0 { libc::dup2(null, 1); libc::close(null); OUT_FD.store(fd as usize, Relaxed); }
    }
}
fn worker(p: &Property, sc: &Scenario, seed: u64, from: u64, to: u64, deadline: u64) {
    let mut faults: BTreeMap<&'static str, u64> = BTreeMap::new();
    let mut probes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut steps, mut sw, mut now, mut maxt) = (0u64, 0u64, 0u64, 0usize);
    let mut n = 0;
    let mut last = to;
    let log_all = std::env::var_os("SIM_LOG").is_some();
    for i in from..to {
        if raw::mono_ns() > deadline || (sc.recycle > 0 && n >= sc.recycle) { last = i; break; }
        emit(&format!("B {i}\n"));
        let (v, out) = run_one(sc, Source::Seed(run_seed(seed, p.id, sc.name, i)), log_all);
        if log_all { for l in &out.log { emit(&format!("L {i} {}\n", l.replace('\n', "\\n"))); } }
        n += 1;
        for (k, c) in &out.faults { *faults.entry(k).or_insert(0) += c; }
        for (k, c) in out.probes { *probes.entry(k).or_insert(0) += c; }
        steps += out.steps; sw += out.switches; now += out.now; maxt = maxt.max(out.threads);
        let nf: u64 = out.faults.values().sum();
        let mut st = String::new();
        for s in out.states.iter().take(64) { st.push_str(&format!("{s:x},")); }
        match v {
            Ok(info) => emit(&format!("R {i} {:x} {} {:x} {nf} {st}|{}\n", out.trace, u8::from(info.nontrivial), info.key, info.sample.unwrap_or_default().replace('\n', "\\n"))),
            Err(v) => emit(&format!("V {i} {:x} {}\t{}\n", out.trace, v.sig.replace(['\n', '\t'], " "), v.detail.replace('\n', "\\n").replace('\t', " "))),
        }
    }
    let mut s = String::new();
    for (k, c) in faults { s.push_str(&format!("F {k} {c}\n")); }
    for (k, c) in probes { s.push_str(&format!("P {c} {k}\n")); }
    s.push_str(&format!("T {steps} {sw} {now} {maxt}\nE {last}\n"));
    emit(&s);
}

/// Evaluate tapes read from stdin (used for minimisation and replay).
fn eval_server(p: &Property) {
    let stdin = std::io::stdin();
    for l in stdin.lock().lines() {
        let Ok(l) = l else { return };
        let v: Value = serde_json::from_str(&l).expect("json");
        let sc = p.scenarios.iter().find(|s| s.name == v["scenario"].as_str().unwrap()).expect("scenario");
        let src = if v["seed"].is_null() { Source::Tapes(tapes_of(&v["tapes"])) } else { Source::Seed(v["seed"].as_u64().unwrap()) };
        let (r, out) = run_one(sc, src, v["log"].as_bool().unwrap_or(false));
        let (sig, detail) = match r { Ok(_) => (Value::Null, Value::Null), Err(v) => (json!(v.sig), json!(v.detail)) };
        emit(&format!("J {}\n", json!({"sig": sig, "detail": detail, "tapes": out.tapes, "trace": format!("{:x}", out.trace), "log": out.log, "faults": out.faults})));
    }
}
fn tapes_of(v: &Value) -> Tapes {
    let g = |i: usize| v[i].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default();
    [g(0), g(1), g(2), g(3)]
}
struct Eval { pid: String, fresh: bool, child: Option<(Child, std::process::ChildStdin, mpsc::Receiver<String>)> }
struct EvalOut { sig: Option<String>, detail: String, tapes: Option<Tapes>, trace: String, log: Vec<String> }
impl Eval {
    /// `fresh`: a process of its own for every evaluation (code under test keeps process-wide state)
    fn new(pid: &str, sc: &Scenario) -> Self { Eval { pid: pid.into(), fresh: sc.recycle == 1, child: None } }
    fn get(&mut self) -> &mut (Child, std::process::ChildStdin, mpsc::Receiver<String>) {
        if self.child.is_none() {
            let mut c = Command::new(std::env::current_exe().unwrap()).args(["eval", &self.pid]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn eval");
            let out = c.stdout.take().unwrap();
            let inp = c.stdin.take().unwrap();
            let (tx, rx) = mpsc::channel();
            std::thread::spawn(move || { for l in BufReader::new(out).lines().map_while(Result::ok) { if tx.send(l).is_err() { break; } } });
            self.child = Some((c, inp, rx));
        }
        self.child.as_mut().unwrap()
    }
    fn eval(&mut self, sc: &str, tapes: Option<&Tapes>, seed: Option<u64>, log: bool, patience: u64) -> EvalOut {
        let req = json!({"scenario": sc, "tapes": tapes, "seed": seed, "log": log}).to_string();
        let (c, inp, rx) = self.get();
        let _ = writeln!(inp, "{req}");
        let _ = inp.flush();
        let mut fatal: Option<(String, String)> = None;
        let t0 = Instant::now();
        loop {
            let left = Duration::from_secs(patience).saturating_sub(t0.elapsed());
            match rx.recv_timeout(left) {
                Ok(l) if l.starts_with("J ") => {
                    let v: Value = serde_json::from_str(&l[2..]).expect("json");
                    if self.fresh { if let Some((mut c, i, _)) = self.child.take() { drop(i); let _ = c.wait(); } }
                    return EvalOut { sig: v["sig"].as_str().map(str::to_string), detail: v["detail"].as_str().unwrap_or("").to_string(), tapes: Some(tapes_of(&v["tapes"])),
                        trace: v["trace"].as_str().unwrap_or("").into(), log: v["log"].as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(str::to_string)).collect()).unwrap_or_default() };
                }
                Ok(l) if l.starts_with("X ") => { let (k, d) = l[2..].split_once('\t').unwrap_or((&l[2..], "")); fatal = Some((k.into(), d.into())); }
                Ok(_) => {}
                Err(mpsc::RecvTimeoutError::Timeout) => {
                    let _ = c.kill(); let _ = c.wait(); self.child = None;
                    return EvalOut { sig: Some("hang: no end within the time limit".into()), detail: format!("still running after {patience} s"), tapes: None, trace: String::new(), log: vec![] };
                }
                Err(mpsc::RecvTimeoutError::Disconnected) => {
                    let st = c.wait();
                    self.child = None;
                    let (k, d) = fatal.unwrap_or_else(|| death(st.ok()));
                    return EvalOut { sig: Some(k), detail: d, tapes: None, trace: String::new(), log: vec![] };
                }
            }
        }
    }
}
impl Drop for Eval { fn drop(&mut self) { if let Some((mut c, i, _)) = self.child.take() { drop(i); let _ = c.kill(); let _ = c.wait(); } } }
fn death(st: Option<std::process::ExitStatus>) -> (String, String) {
    use std::os::unix::process::ExitStatusExt;
    match st {
        Some(s) => match s.signal() {
            Some(n) => (format!("crash: process killed by signal {n} ({})", match n { 6 => "abort", 11 => "segmentation fault / stack overflow", 7 => "bus error", 4 => "illegal instruction", 9 => "killed", _ => "?" }), "the simulated process died".into()),
            None => (format!("crash: process exited with status {}", s.code().unwrap_or(-1)), "the code under test ended the process".into()),
        },
        None => ("crash".into(), "unknown".into()),
    }
}

fn minimise(pid: &str, sc: &Scenario, seed: u64, sig: &str, wall: Duration) -> (Tapes, EvalOut, u64) {
    let mut ev = Eval::new(pid, sc);
    let pat = sc.patience;
    let first = ev.eval(sc.name, None, Some(seed), false, pat);
    // a dying run cannot return its tapes: record them by drawing the same streams
    let mut best = match first.tapes { Some(t) => t, None => [0u64, 1, 2, 3].map(|i| { let mut t = crate::tape::Rng::new(mix(seed, i + 100)); (0..20_000).map(|_| t.next()).collect() }) };
    let raw_tapes = first.sig.is_none() || matches!(ev.eval(sc.name, Some(&best), None, false, pat).sig, Some(ref s) if s == sig);
    let mut evals = 0u64;
    let t0 = Instant::now();
    if raw_tapes {
        let is_hang = sig.starts_with("hang: no end");
        let mut attempt = |cand: &Tapes, best: &mut Tapes, evals: &mut u64| -> bool {
            *evals += 1;
            let o = ev.eval(sc.name, Some(cand), None, false, if is_hang { 20 } else { pat });
            if o.sig.as_deref() == Some(sig) {
                let mut t = o.tapes.unwrap_or_else(|| cand.clone());
                for v in &mut t { while v.last() == Some(&0) { v.pop(); } }
                *best = t;
                true
            } else { false }
        };
        for v in &mut best { while v.last() == Some(&0) { v.pop(); } }
        let mut improved = true;
        while improved && t0.elapsed() < wall && evals < 4000 {
            improved = false;
            for ti in [2usize, 3, 1, 0] {
                let mut c = best.clone();
                if c[ti].is_empty() { continue; }
                c[ti].clear();
                if attempt(&c, &mut best, &mut evals) { improved = true; continue; }
                let mut size = (best[ti].len() / 2).max(1);
                loop {
                    let mut i = 0;
                    while i < best[ti].len() && t0.elapsed() < wall {
                        let end = (i + size).min(best[ti].len());
                        let before = best[ti].len();
                        let mut c = best.clone();
                        c[ti].drain(i..end);
                        if attempt(&c, &mut best, &mut evals) && best[ti].len() < before { improved = true; continue; }
                        if best[ti].get(i..end.min(best[ti].len())).is_some_and(|s| s.iter().any(|x| *x != 0)) {
                            let mut c = best.clone();
                            for x in &mut c[ti][i..end] { *x = 0; }
                            if attempt(&c, &mut best, &mut evals) { improved = true; }
                        }
                        i += size;
                    }
                    if size == 1 || t0.elapsed() > wall { break; }
                    size /= 2;
                }
                let mut i = 0;
                while i < best[ti].len() && t0.elapsed() < wall {
                    for d in [2u64, 1] {
                        loop {
                            let v = best[ti].get(i).copied().unwrap_or(0);
                            if v == 0 || t0.elapsed() > wall { break; }
                            let nv = if d == 2 { v / 2 } else { v - 1 };
                            let mut c = best.clone();
                            c[ti][i] = nv;
                            if !attempt(&c, &mut best, &mut evals) || best[ti].get(i).copied().unwrap_or(0) >= v { break; }
                            improved = true;
                        }
                    }
                    i += 1;
                }
            }
        }
    }
    let fin = ev.eval(sc.name, Some(&best), None, true, pat);
    (best, fin, evals)
}

struct Known { property: String, sig: String, text: String }
fn known(root: &str) -> Vec<Known> {
    let s = std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default();
    s.lines().filter_map(|l| {
        let l = l.strip_prefix("finding: property=")?;
        let (property, rest) = l.split_once(" sig=<")?;
        let (sig, text) = rest.split_once('>')?;
        Some(Known { property: property.into(), sig: sig.into(), text: text.trim().into() })
    }).collect()
}

#[derive(Default)]
struct Agg { evals: u64, nontrivial: u64, keys: BTreeSet<u64>, traces: BTreeSet<u64>, states: BTreeSet<u64>, faults: BTreeMap<String, u64>, probes: BTreeMap<String, u64>, steps: u64, switches: u64, now: u64,
    maxthreads: u64, faulty_runs: u64, samples: Vec<String>, viol: BTreeMap<String, (String, u64, u64, String)>, viol_total: u64, first_traces: BTreeMap<u64, u64>, per: BTreeMap<String, u64> }

static HANGS: AtomicUsize = AtomicUsize::new(0);
fn spawn_worker(pid: &str, sc: &Scenario, seed: u64, from: u64, to: u64, deadline: u64) -> Child {
    Command::new(std::env::current_exe().unwrap()).args(["worker", pid, sc.name, &seed.to_string(), &from.to_string(), &to.to_string(), &deadline.to_string()])
        .stdin(Stdio::null()).stdout(Stdio::piped()).stderr(if std::env::var_os("SIM_STDERR").is_some() { Stdio::inherit() } else { Stdio::null() }).spawn().expect("spawn worker")
}

/// Run [from,to) of a scenario on one lane; respawns the worker when it dies.
fn lane(pid: &str, sc: &Scenario, seed: u64, from: u64, to: u64, deadline: u64, tx: &mpsc::Sender<(String, String)>) {
    let mut next = from;
    let mut deaths = 0;
    // enough is known about a scenario in which several runs do not end
    while next < to && raw::mono_ns() < deadline && HANGS.load(Relaxed) < 3 {
        let mut c = spawn_worker(pid, sc, seed, next, to, deadline);
        let out = c.stdout.take().unwrap();
        let (ltx, lrx) = mpsc::channel();
        let h = std::thread::spawn(move || { for l in BufReader::new(out).split(b'\n').map_while(Result::ok) { if ltx.send(String::from_utf8_lossy(&l).into_owned()).is_err() { break; } } });
        let mut cur = None;
        let mut fatal: Option<(String, String)> = None;
        let mut ended = None;
        loop {
            match lrx.recv_timeout(Duration::from_secs(sc.patience)) {
                Ok(l) => match l.as_bytes().first() {
                    Some(b'B') => cur = l[2..].parse::<u64>().ok(),
                    Some(b'R' | b'V') => { cur = None; let _ = tx.send((sc.name.into(), l)); }
                    Some(b'X') => { let (k, d) = l[2..].split_once('\t').unwrap_or((&l[2..], "")); fatal = Some((k.into(), d.into())); }
                    Some(b'E') => ended = l[2..].parse::<u64>().ok(),
                    _ => { let _ = tx.send((sc.name.into(), l)); }
                },
                Err(mpsc::RecvTimeoutError::Timeout) => { let _ = c.kill(); HANGS.fetch_add(1, Relaxed); fatal = Some(("hang: no end within the time limit".into(), format!("run still going after {} s", sc.patience))); }
                Err(mpsc::RecvTimeoutError::Disconnected) => break,
            }
        }
        let st = c.wait().ok();
        let _ = h.join();
        if let Some(e) = ended { next = e.max(next); if e >= to || raw::mono_ns() >= deadline { return; } continue; }
        if let Some(i) = cur {
            let (k, d) = fatal.unwrap_or_else(|| death(st));
            let _ = tx.send((sc.name.into(), format!("V {i} 0 {k}\t{d}")));
            deaths += 1;
            next = i + 1;
            if deaths >= 6 { return; }
        } else {
            let _ = tx.send((sc.name.into(), format!("H worker ended early: {st:?}")));
            return;
        }
    }
}

pub fn main(props: Vec<Property>, root: &str) -> ! {
    crate::interpose::force();
    crate::scratch::begin();
    let args: Vec<String> = std::env::args().collect();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {id}"); std::process::exit(2) });
    match args.get(1).map(String::as_str) {
        Some("worker") => {
            let p = find(&args[2]);
            let sc = p.scenarios.iter().find(|s| s.name == args[3]).expect("scenario");
            let n = |i: usize| args[i].parse::<u64>().unwrap();
            own_output();
            worker(p, sc, n(4), n(5), n(6), n(7));
            raw::exit(0)
        }
        Some("eval") => { own_output(); eval_server(find(&args[2])); raw::exit(0) }
        Some("one") => {
            // one <property> <scenario> <index> [seed]
            let p = find(&args[2]);
            let sc = p.scenarios.iter().find(|s| s.name == args[3]).expect("scenario");
            let seed = args.get(5).map_or(1, |s| s.parse().unwrap());
            let (v, out) = run_one(sc, Source::Seed(run_seed(seed, p.id, sc.name, args[4].parse().unwrap())), true);
            for l in &out.log { println!("{l}"); }
            println!("{v:#?}\ntrace {:x} steps {} switches {} threads {} tapes {:?} faults {:?} probes {:?}", out.trace, out.steps, out.switches, out.threads, out.tapes.clone().map(|t| t.len()), out.faults, out.probes);
            crate::scratch::end(); std::process::exit(i32::from(v.is_err()))
        }
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
            let pid = v["property"].as_str().unwrap();
            let p = find(pid);
            let sc = p.scenarios.iter().find(|s| s.name == v["scenario"].as_str().unwrap()).expect("scenario");
            let mut ev = Eval::new(pid, sc);
            let tapes = tapes_of(&v["tapes"]);
            let o = if v["by_seed"].as_bool() == Some(true) { ev.eval(sc.name, None, v["run_seed"].as_str().and_then(|s| s.parse().ok()), true, sc.patience) } else { ev.eval(sc.name, Some(&tapes), None, true, sc.patience) };
            for l in &o.log { println!("{l}"); }
            println!("recorded: {}\nobserved: {:?} {}\ntrace recorded {} observed {}", v["sig"], o.sig, o.detail, v["trace"], o.trace);
            crate::scratch::end();
            if o.sig.is_some() { println!("VIOLATION property={pid} replay={}", args[2]); std::process::exit(1) }
            std::process::exit(0)
        }
        Some("check") => check(find(&args[2]), root),
        Some("list") => { for p in &props { println!("{}", p.id); } std::process::exit(0) }
        _ => { eprintln!("usage: check ID | replay FILE | one ID SCENARIO INDEX [SEED] | list"); std::process::exit(2) }
    }
}

fn check(p: &Property, root: &str) -> ! {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let budget: u64 = std::env::var("SIM_BUDGET_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 3000 } else { 300 });
    let only = std::env::var("SIM_ONLY").ok();
    let scale: f64 = std::env::var("SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let lanes: u64 = std::env::var("SIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(8, |n| n.get() as u64));
    println!("{}: VERIF_SEED={seed} tier={} workers={lanes}", p.id, if thorough { "thorough" } else { "quick" });
    let t0 = Instant::now();
    let deadline = raw::mono_ns() + budget * 1_000_000_000;
    let mut a = Agg::default();
    let mut harness = vec![];
    for sc in &p.scenarios {
        if only.as_deref().is_some_and(|o| o != sc.name) { continue; }
        HANGS.store(0, Relaxed);
        let total = ((if thorough { sc.thorough } else { sc.quick }) as f64 * scale).ceil() as u64;
        let (tx, rx) = mpsc::channel();
        // small blocks handed to lanes so that a slow block does not delay the end
        let block = (total / (lanes * 4)).clamp(1, 2000);
        let nextb = std::sync::Arc::new(std::sync::atomic::AtomicU64::new(0));
        let hs: Vec<_> = (0..lanes).map(|_| {
            let (tx, sc, nextb, pid) = (tx.clone(), sc.clone(), nextb.clone(), p.id);
            std::thread::spawn(move || loop {
                let b = nextb.fetch_add(1, Relaxed) * block;
                if b >= total || raw::mono_ns() >= deadline { break; }
                lane(pid, &sc, seed, b, (b + block).min(total), deadline, &tx);
            })
        }).collect();
        drop(tx);
        for (s, l) in rx {
            match l.as_bytes().first() {
                Some(b'R') => {
                    let (head, sample) = l.split_once('|').unwrap_or((&l, ""));
                    let f: Vec<&str> = head.split(' ').collect();
                    a.evals += 1;
                    *a.per.entry(s.clone()).or_insert(0) += 1;
                    let tr = u64::from_str_radix(f[2], 16).unwrap_or(0);
                    a.traces.insert(tr);
                    let i: u64 = f[1].parse().unwrap_or(0);
                    if i < 24 { a.first_traces.insert(hash_str(&s) ^ i, tr); }
                    if f[3] == "1" { a.nontrivial += 1; a.keys.insert(u64::from_str_radix(f[4], 16).unwrap_or(0) ^ hash_str(&s)); }
                    if f[5] != "0" { a.faulty_runs += 1; }
                    for st in f.get(6).unwrap_or(&"").split(',') { if let Ok(v) = u64::from_str_radix(st, 16) { a.states.insert(v); } }
                    if !sample.is_empty() && a.samples.iter().filter(|x| x.starts_with(&s)).count() < 2 { a.samples.push(format!("{s}#{i}: {sample}")); }
                }
                Some(b'V') => {
                    let f: Vec<&str> = l.splitn(4, ' ').collect();
                    let (sig, d) = f[3].split_once('\t').unwrap_or((f[3], ""));
                    a.evals += 1;
                    a.viol_total += 1;
                    *a.per.entry(s.clone()).or_insert(0) += 1;
                    let i: u64 = f[1].parse().unwrap_or(0);
                    let e = a.viol.entry(sig.to_string()).or_insert_with(|| (s.clone(), i, 0, d.to_string()));
                    e.2 += 1;
                    if e.0 == s && i < e.1 { e.1 = i; e.3 = d.to_string(); }
                }
                Some(b'F') => { let f: Vec<&str> = l.split(' ').collect(); *a.faults.entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap_or(0); }
                Some(b'P') => { let f: Vec<&str> = l.splitn(3, ' ').collect(); *a.probes.entry(f[2].into()).or_insert(0) += f[1].parse::<u64>().unwrap_or(0); }
                Some(b'T') => { let f: Vec<u64> = l[2..].split(' ').filter_map(|x| x.parse().ok()).collect(); if f.len() == 4 { a.steps += f[0]; a.switches += f[1]; a.now += f[2]; a.maxthreads = a.maxthreads.max(f[3]); } }
                Some(b'H') => harness.push(format!("{s}: {l}")),
                _ => {}
            }
        }
        for h in hs { let _ = h.join(); }
    }
    let search_s = t0.elapsed().as_secs_f64();
    // determinism proof: the first runs of every scenario again, in other processes with another partition
    let (mut rechecked, mut mismatches) = (0u64, 0u64);
    for sc in &p.scenarios {
        if only.as_deref().is_some_and(|o| o != sc.name) { continue; }
        let total = ((if thorough { sc.thorough } else { sc.quick }) as f64 * scale).ceil() as u64;
        let n = total.min(24);
        let (tx, rx) = mpsc::channel();
        let dl = raw::mono_ns() + 60_000_000_000;
        let hs: Vec<_> = (0..3u64).map(|k| { let (tx, sc, pid) = (tx.clone(), sc.clone(), p.id); std::thread::spawn(move || lane(pid, &sc, seed, n * k / 3, n * (k + 1) / 3, dl, &tx)) }).collect();
        drop(tx);
        for (s, l) in rx {
            if !l.starts_with('R') { continue; }
            let f: Vec<&str> = l.split(' ').collect();
            let i: u64 = f[1].parse().unwrap_or(0);
            if let Some(t) = a.first_traces.get(&(hash_str(&s) ^ i)) {
                rechecked += 1;
                if u64::from_str_radix(f[2], 16).ok() != Some(*t) { mismatches += 1; println!("note: run {s}#{i} did not repeat exactly"); }
            }
        }
        for h in hs { let _ = h.join(); }
    }
    // violations
    let kn = known(root);
    let mut fresh = vec![];
    let mut findings: BTreeMap<String, u64> = BTreeMap::new();
    for (sig, (sc, i, n, d)) in &a.viol {
        if let Some(k) = kn.iter().find(|k| k.property == p.id && sig.starts_with(&k.sig)) { *findings.entry(k.text.clone()).or_insert(0) += n; }
        else { fresh.push((sig.clone(), sc.clone(), *i, *n, d.clone())); }
    }
    for k in kn.iter().filter(|k| k.property == p.id) { println!("KNOWN-FINDING: property={} {} (seen {} times in this run)", p.id, k.text, findings.get(&k.text).unwrap_or(&0)); }
    fresh.sort_by_key(|f| (f.0.starts_with("hang"), std::cmp::Reverse(f.3)));
    let mut reports = vec![];
    let rdir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&rdir);
    let mut unconfirmed = vec![];
    for (k, (sig, scn, i, n, d)) in fresh.iter().enumerate() {
        let sc = p.scenarios.iter().find(|s| s.name == scn).unwrap();
        let rs = run_seed(seed, p.id, scn, *i);
        if sig.starts_with("hang: no end") || sig.starts_with("crash: process killed by signal 9") {
            // wall-clock verdicts are confirmed alone, with more patience
            let o = Eval::new(p.id, sc).eval(sc.name, None, Some(rs), false, sc.patience * 2);
            if o.sig.is_none() { unconfirmed.push(format!("{scn}#{i}: {sig}")); continue; }
        }
        let path = format!("{rdir}/{}-{}-{}.json", p.id, scn, i);
        if k < 3 {
            let (tapes, fin, evals) = minimise(p.id, sc, rs, sig, Duration::from_secs(if k == 0 { 40 } else { 10 }));
            let by_seed = fin.sig.as_deref() != Some(sig);
            let j = json!({"property": p.id, "scenario": scn, "seed": seed, "run": i, "run_seed": rs.to_string(), "sig": sig, "detail": if by_seed { d } else { &fin.detail }, "tapes": if by_seed { json!([]) } else { json!(tapes) },
                "by_seed": by_seed, "trace": fin.trace, "log": fin.log, "minimiser_evaluations": evals, "how": "target/…/lsim replay <this file> (or bsim), see DESIGN.md"});
            std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).expect("write replay");
            println!("violation: {sig}\n  seen {n} times, first in {scn}#{i}\n  detail: {}", clip(if by_seed { d } else { &fin.detail }));
            for l in fin.log.iter().take(40) { println!("    {l}"); }
        } else {
            let j = json!({"property": p.id, "scenario": scn, "seed": seed, "run": i, "run_seed": rs.to_string(), "sig": sig, "detail": d, "by_seed": true, "tapes": []});
            std::fs::write(&path, j.to_string()).expect("write replay");
            println!("violation: {sig}\n  seen {n} times, first in {scn}#{i}\n  detail: {}", clip(d));
        }
        println!("VIOLATION property={} replay={path}", p.id);
        reports.push(sig.clone());
        if k >= 7 { break; }
    }
    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": p.id, "tier": if thorough { "thorough" } else { "quick" }, "seed": seed, "level": p.level,
        "coverage": {
            "evaluations": a.evals, "distinct_nontrivial": a.keys.len(), "rule": p.rule, "samples": a.samples,
            "nontrivial_runs": a.nontrivial, "runs_per_scenario": a.per,
            "distinct_executions_by_trace_hash": a.traces.len(), "distinct_states": a.states.len(),
            "runs_with_a_fault_fired": a.faulty_runs, "faults_injected": a.faults, "probes": a.probes,
            "simulated_steps": a.steps, "thread_switches": a.switches, "max_threads_in_a_run": a.maxthreads,
            "simulated_time_s": a.now as f64 / 1e9, "runs_per_hour_one_seed_each": (a.evals as f64 / search_s * 3600.0) as u64,
            "determinism": {"runs_repeated_in_other_processes": rechecked, "mismatches": mismatches},
            "real_components": p.real, "stubbed_components": p.stub,
            "known_findings_seen": findings, "unconfirmed_wall_clock_verdicts": unconfirmed, "harness_notes": harness,
        },
        "assumptions": p.assumptions, "wall_s": wall, "violations": reports.len(),
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    std::fs::write(format!("{root}/evidence/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    println!("{}: {} runs, {} distinct non-trivial, {} distinct executions, {} faults fired, determinism {}/{}, {:.1} s, {} violations", p.id, a.evals, a.keys.len(), a.traces.len(),
        a.faults.values().sum::<u64>(), rechecked - mismatches, rechecked, wall, reports.len());
    crate::scratch::end();
    if reports.is_empty() && a.evals == 0 { println!("harness error: nothing was evaluated {harness:?}"); std::process::exit(2) }
    std::process::exit(i32::from(!reports.is_empty()))
}

/// the head of a long detail, for the terminal (replay files keep all of it)
fn clip(d: &str) -> String {
    if d.len() <= 1200 { return d.to_string(); }
    let mut k = 1200;
    while !d.is_char_boundary(k) { k -= 1; }
    format!("{}... ({} bytes)", &d[..k], d.len())
}
