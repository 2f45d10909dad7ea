//! One HEMTT command as a simulated process of its own: `bsim exec PLAN` runs the real command line
//! entry point under the scheduler and the file-system seam and writes down how it went.
use serde_json::{json, Value};
use simcore::fsx::{self, Fault};
use simcore::sim::{self, Source};
use simcore::tape::{hash_bytes, mix};
use std::collections::BTreeMap;
use std::io::Read;
use std::process::{Command, Stdio};

#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub args: Vec<String>,
    pub sched: Option<u64>,
    pub env: u64,
    pub fault_seed: Option<u64>,
    pub alloc_gap: u64,
    pub io_gap: u64,
    pub short: u64,
    pub eintr: u64,
    pub shuffle: bool,
    pub skew: u64,
    pub crash_at: Option<u64>,
    pub disk_left: Option<u64>,
    pub faults: Vec<(u32, u64, bool, i32, Option<String>)>,
    pub max_steps: u64,
    pub oplog: bool,
    /// with the programs in `bin` of the scratch folder on the path
    pub tools: bool,
    pub vars: Vec<(String, String)>,
}
#[derive(Clone, Debug, Default)]
pub struct Ended {
    /// exit status; 99: killed as planned; None: see `odd`
    pub status: Option<i32>,
    /// deadlock, hang, signal
    pub odd: Option<String>,
    pub panic: Option<String>,
    pub counts: BTreeMap<u32, u64>,
    pub mutations: u64,
    pub fired: BTreeMap<String, u64>,
    pub trace: u64,
    pub steps: u64,
    pub switches: u64,
    pub threads: u64,
    pub out: String,
    pub err: String,
    pub ops: Vec<String>,
    /// attempts (refused) to change something outside the scratch directory
    pub escapes: Vec<String>,
}

/// Run `plan` in `root`/project; the simulated run goes on when the command has ended.
pub fn run(root: &str, plan: &Plan) -> Ended {
    let _g = sim::hold();
    let (pf, of, so, se) = (format!("{root}/plan.json"), format!("{root}/plan.out"), format!("{root}/stdout"), format!("{root}/stderr"));
    let _ = std::fs::remove_file(&of);
    let j = json!({"root": root, "out": of, "args": plan.args, "sched": plan.sched, "env": plan.env, "fault_seed": plan.fault_seed, "alloc_gap": plan.alloc_gap, "io_gap": plan.io_gap,
        "short": plan.short, "eintr": plan.eintr, "shuffle": plan.shuffle, "skew": plan.skew, "crash_at": plan.crash_at, "disk_left": plan.disk_left,
        "faults": plan.faults, "max_steps": plan.max_steps, "oplog": plan.oplog, "log": std::env::var("BSIM_LOG").ok()});
    std::fs::write(&pf, j.to_string()).expect("plan");
    for d in ["home", "tmp"] { std::fs::create_dir_all(format!("{root}/{d}")).expect("dirs"); }
    let mut c = Command::new(std::env::current_exe().expect("exe"));
    c.arg("exec").arg(&pf).env_clear().env("PATH", "/usr/bin:/bin").env("HOME", "/sim/home").env("TMPDIR", "/sim/tmp").env("CI", "1").env("RUST_BACKTRACE", "0")
        .current_dir(format!("{root}/project")).stdin(Stdio::null())
        .stdout(std::fs::File::create(&so).expect("stdout")).stderr(std::fs::File::create(&se).expect("stderr"));
    if let Some(v) = std::env::var_os("LLVM_PROFILE_FILE") { c.env("LLVM_PROFILE_FILE", v); }
    // everything the command starts holds the writing end of a pipe: it is closed when all of it has ended
    let mut pipe = [-1i32; 2];
    if plan.tools {
        c.env("PATH", format!("{root}/bin:/usr/bin:/bin")).env("SIM_REAL", root);
        let r = unsafe { simcore::raw::sys6(libc::SYS_pipe2, pipe.as_mut_ptr() as i64, 0, 0, 0, 0, 0) };
        assert!(r == 0, "pipe");
    }
    for (k, v) in &plan.vars { c.env(k, v); }
    let mut child = c.spawn().expect("spawn");
    if plan.tools { unsafe { simcore::raw::sys6(libc::SYS_close, i64::from(pipe[1]), 0, 0, 0, 0, 0); } }
    let st = unsafe {
        let fd = simcore::raw::sys6(libc::SYS_pidfd_open, i64::from(child.id()), 0, 0, 0, 0, 0);
        let mut p = libc::pollfd { fd: fd as i32, events: libc::POLLIN, revents: 0 };
        let t = libc::timespec { tv_sec: 90, tv_nsec: 0 };
        let r = simcore::raw::sys6(libc::SYS_ppoll, std::ptr::from_mut(&mut p) as i64, 1, std::ptr::from_ref(&t) as i64, 0, 8, 0);
        simcore::raw::sys6(libc::SYS_close, fd, 0, 0, 0, 0, 0);
        if fd >= 0 && r <= 0 { let _ = child.kill(); let _ = child.wait(); None } else { Some(child.wait().expect("wait")) }
    };
    if plan.tools {
        let mut p = libc::pollfd { fd: pipe[0], events: libc::POLLIN, revents: 0 };
        let t = libc::timespec { tv_sec: 30, tv_nsec: 0 };
        unsafe {
            simcore::raw::sys6(libc::SYS_ppoll, std::ptr::from_mut(&mut p) as i64, 1, std::ptr::from_ref(&t) as i64, 0, 8, 0);
            simcore::raw::sys6(libc::SYS_close, i64::from(pipe[0]), 0, 0, 0, 0, 0);
        }
    }
    let read = |p: &str| { let mut b = vec![]; let _ = std::fs::File::open(p).and_then(|mut f| f.read_to_end(&mut b)); String::from_utf8_lossy(&b).into_owned() };
    let mut e = Ended { out: read(&so), err: read(&se), ..Ended::default() };
    let o = read(&of);
    for l in o.lines() {
        if let Some(x) = l.strip_prefix("X ") { e.odd = Some(x.replace('\t', ": ")); }
        if let Ok(v) = serde_json::from_str::<Value>(l) {
            e.panic = v["panic"].as_str().map(Into::into);
            if v["panic"].is_string() { e.status = Some(101); }
            if let Some(s) = v["status"].as_i64() { e.status = Some(s as i32); }
            e.mutations = v["mutations"].as_u64().unwrap_or(0);
            for (k, n) in v["counts"].as_object().into_iter().flatten() { e.counts.insert(k.parse().unwrap_or(0), n.as_u64().unwrap_or(0)); }
            for (k, n) in v["fired"].as_object().into_iter().flatten() { e.fired.insert(k.clone(), n.as_u64().unwrap_or(0)); }
            e.trace = v["trace"].as_u64().unwrap_or(0);
            e.steps = v["steps"].as_u64().unwrap_or(0);
            e.switches = v["switches"].as_u64().unwrap_or(0);
            e.threads = v["threads"].as_u64().unwrap_or(0);
            e.escapes = v["escapes"].as_array().into_iter().flatten().filter_map(|s| s.as_str().map(Into::into)).collect();
            e.ops = v["ops"].as_array().into_iter().flatten().filter_map(|s| s.as_str().map(Into::into)).collect();
        }
    }
    match st {
        None => e.odd = Some("hang: the command does not end".into()),
        Some(s) if s.code().is_none() => e.odd = Some(format!("crash: {s}")),
        Some(s) => { if e.status.is_none() && e.odd.is_none() { e.odd = Some(format!("crash: the process ended with {s} before it was done; {}", e.err.lines().last().unwrap_or(""))); } }
    }
    drop(_g);
    for (k, n) in &e.fired { for _ in 0..*n { simcore::fired(Box::leak(k.clone().into_boxed_str())); } }
    sim::note(&e.trace.to_le_bytes());
    sim::note(&e.steps.to_le_bytes());
    sim::note(&e.status.unwrap_or(-1).to_le_bytes());
    sim::log(|| format!("build {:?} -> {:?} {:?} {:?}", plan, e.status, e.odd, e.panic));
    if std::env::var("BSIM_LOUD").is_ok() { let _g = sim::hold(); let _ = std::fs::write("/tmp/bsim.loud", format!("{:?} {:?}\n{}\n{}", plan.args, e.status, e.out, e.err)); }
    e
}

static mut LOGTO: Option<String> = None;
static mut DONE: bool = false;
fn report(out: &str, status: Option<i32>, panic: Option<String>) {
    unsafe { if DONE { return; } DONE = true; }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    let w = sim::w();
    let f = fsx::fs();
    let mut trace = w.trace;
    for (k, n) in &w.faults { trace = mix(trace, hash_bytes(*n, k.as_bytes())); }
    let j = json!({"status": status, "panic": panic, "mutations": f.as_ref().map_or(0, |f| f.mutations),
        "counts": f.as_ref().map(|f| f.counts.iter().map(|(k, v)| (k.to_string(), *v)).collect::<BTreeMap<_, _>>()),
        "escapes": f.as_ref().map(|f| f.escapes.clone()),
        "ops": f.as_ref().and_then(|f| f.oplog.clone()),
        "fired": w.faults, "trace": trace, "steps": w.steps, "switches": w.switches, "threads": sim::threads_total()});
    #[allow(static_mut_refs)]
    if let (Some(l), Some(to)) = (&w.log, unsafe { LOGTO.clone() }) { write_out(&to, &(l.join("\n") + "\n")); }
    write_out(out, &format!("{j}\n"));
}
fn write_out(out: &str, s: &str) {
    let p = std::ffi::CString::new(out).unwrap();
    unsafe {
        let fd = simcore::raw::sys6(libc::SYS_openat, libc::AT_FDCWD as i64, p.as_ptr() as i64, (libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND) as i64, 0o644, 0, 0);
        simcore::raw::write_all(fd as i32, s.as_bytes());
    }
}
/// The child.
pub fn child(plan: &str) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(plan).expect("plan")).expect("plan");
    let out = v["out"].as_str().unwrap().to_string();
    // fatal verdicts of the simulator go to the report as well
    let p = std::ffi::CString::new(out.clone()).unwrap();
    let fd = unsafe { simcore::raw::sys6(libc::SYS_openat, libc::AT_FDCWD as i64, p.as_ptr() as i64, (libc::O_WRONLY | libc::O_CREAT | libc::O_APPEND | libc::O_CLOEXEC) as i64, 0o644, 0, 0) };
    simcore::driver::OUT_FD.store(fd as usize, std::sync::atomic::Ordering::Relaxed);
    let n = |k: &str| v[k].as_u64().unwrap_or(0);
    let opts = sim::Opts { alloc_gap: n("alloc_gap"), io_gap: n("io_gap"), max_steps: n("max_steps").max(1), stack: 16 << 20 };
    let src = Source::Each([None, v["fault_seed"].as_u64(), v["sched"].as_u64(), Some(n("env"))]);
    let o2 = out.clone();
    let keep = v["log"].is_string();
    unsafe { LOGTO = v["log"].as_str().map(Into::into); }
    let res = sim::run(src, opts, keep, move || {
        {
            let _g = sim::hold();
            let f = fsx::enable_as(v["root"].as_str().unwrap(), "/sim");
            f.contain = true;
            f.also = Some(("/tmp/hemtt-wine".into(), format!("{}/wine", v["root"].as_str().unwrap())));
            f.short = n2(&v, "short");
            f.eintr = n2(&v, "eintr");
            f.shuffle = v["shuffle"].as_bool().unwrap_or(false);
            f.skew = n2(&v, "skew");
            f.crash_at = v["crash_at"].as_u64();
            f.disk_left = v["disk_left"].as_u64();
            if v["oplog"].as_bool() == Some(true) { f.oplog = Some(vec![]); }
            for x in v["faults"].as_array().into_iter().flatten() {
                f.faults.push(Fault { mask: x[0].as_u64().unwrap() as u32, nth: x[1].as_u64().unwrap(), sticky: x[2].as_bool().unwrap(), errno: x[3].as_i64().unwrap() as i32, path: x[4].as_str().map(Into::into), seen: 0, fired: 0 });
            }
            let o3 = o2.clone();
            f.on_crash = Some(Box::new(move || report(&o3, Some(99), None)));
            let o3 = o2.clone();
            sim::on_exit(move |code| { report(&o3, Some(code), None); simcore::raw::exit(code) });
        }
        let args: Vec<String> = std::iter::once("hemtt".to_string()).chain(v["args"].as_array().unwrap().iter().map(|a| a.as_str().unwrap().to_string())).collect();
        let r = std::panic::catch_unwind(|| {
            let cli = { let _g = sim::hold(); <hemtt::Cli as clap::Parser>::parse_from(args) };
            hemtt::execute(&cli)
        });
        let _g = sim::hold();
        match r {
            Ok(r) => { report(&o2, Some(i32::from(r.is_err())), None); simcore::raw::exit(i32::from(r.is_err())) }
            Err(_) => { report(&o2, None, Some(sim::panicked().unwrap_or_default())); simcore::raw::exit(101) }
        }
    });
    let _ = res;
    write_out(&out, "X crash\tthe root thread died\n");
    simcore::raw::exit(70)
}
fn n2(v: &Value, k: &str) -> u64 { v[k].as_u64().unwrap_or(0) }
