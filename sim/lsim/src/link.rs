//! P22: the link between HEMTT and the game. The real extension (arma/src) runs on the real arma-rs and
//! interprocess crates over simulated sockets; the harness is the game engine (calls, callbacks) and the
//! other end of the socket.
extern crate hemtt_comm;
use crate::util::*;
use hemtt_common::arma::control::{fromarma, toarma};
use simcore::driver::{bad, Info, Property, Scenario, Verdict};
use simcore::net;
use simcore::sim;
use simcore::tape::{hash_bytes, mix};
use simcore::{ensure, faultp, gen, genp};
use std::ffi::{c_char, c_int, CStr, CString};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;

unsafe extern "C" {
    fn RVExtensionVersion(output: *mut c_char, size: usize);
    fn RVExtensionArgs(output: *mut c_char, size: usize, function: *mut c_char, args: *mut *mut c_char, n: c_int) -> c_int;
    fn RVExtensionRegisterCallback(cb: extern "C" fn(*const c_char, *const c_char, *const c_char) -> c_int);
}
static CALLBACKS: Mutex<Vec<(String, String, String)>> = Mutex::new(vec![]);
static BUSY: AtomicU64 = AtomicU64::new(0);
extern "C" fn callback(name: *const c_char, func: *const c_char, data: *const c_char) -> c_int {
    // the engine's callback queue may be full
    let b = BUSY.load(SeqCst);
    if b > 0 && faultp(1, b) { simcore::fired("callback-queue-full"); return -1; }
    let s = |p| unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
    CALLBACKS.lock().unwrap().push((s(name), s(func), s(data)));
    100
}
fn call(function: &str, args: &[&str]) -> (c_int, String) {
    let mut out = vec![0u8; 1024];
    let f = CString::new(function).unwrap();
    // the engine hands strings over in quotes, inner quotes doubled
    let a: Vec<CString> = args.iter().map(|s| CString::new(format!("\"{}\"", s.replace('"', "\"\""))).unwrap()).collect();
    let mut p: Vec<*mut c_char> = a.iter().map(|c| c.as_ptr().cast_mut()).collect();
    let r = unsafe { RVExtensionArgs(out.as_mut_ptr().cast(), 1023, f.as_ptr().cast_mut(), p.as_mut_ptr(), p.len() as c_int) };
    (r, unsafe { CStr::from_ptr(out.as_ptr().cast()) }.to_string_lossy().into_owned())
}

fn text(max: usize) -> String {
    match gen(8) {
        0 | 1 => word(),
        2 => String::new(),
        3 => pick(&["say \"hi\"", "\"\"", "back\\slash\\autotest\\m.vr", "tab\tnew\nline", "{\"Photoshoot\":\"Ready\"}", "\u{1}\u{7f}", "日本語 🙂", "[\"a\",1]", "ends with \""]).to_string(),
        4 | 5 => { let n = gen(300) as usize; let w = word(); w.chars().cycle().take(n.min(max)).collect() }
        _ => { let n = gen(max as u64 + 1) as usize; (0..n).map(|i| (b'!' + (i % 90) as u8) as char).collect() }
    }
}
#[derive(Clone, Debug)]
enum G { Mission(String), Log(String, String), Ready, Weapon(String), Previews }
fn game_msg(max: usize) -> G {
    match gen(6) {
        0 => G::Log(pick(&["info", "trace", "debug", "warn", "error", "bogus"]).into(), text(max)),
        1 => G::Mission(text(max)),
        2 => G::Ready,
        3 | 4 => G::Weapon(text(max)),
        _ => G::Previews,
    }
}
fn expected(g: &G) -> String {
    use fromarma::{Control, Level, Message, Photoshoot};
    format!("{:?}", match g.clone() {
        G::Mission(m) => Message::Control(Control::Mission(m)),
        G::Log(l, t) => Message::Log(match l.as_str() { "trace" => Level::Trace, "debug" => Level::Debug, "warn" => Level::Warn, "error" => Level::Error, _ => Level::Info }, t),
        G::Ready => Message::Photoshoot(Photoshoot::Ready),
        G::Weapon(w) => Message::Photoshoot(Photoshoot::Weapon(w)),
        G::Previews => Message::Photoshoot(Photoshoot::Previews),
    })
}
fn hemtt_msg(max: usize) -> (toarma::Message, (String, String, String)) {
    use toarma::{Message, Photoshoot};
    let cb = |f: &str, d: String| ("hemtt_photoshoot".to_string(), f.to_string(), d);
    match gen(5) {
        0 | 1 => { let t = text(max); (Message::Photoshoot(Photoshoot::Weapon(t.clone())), cb("weapon_add", t)) }
        2 => { let t = text(max); (Message::Photoshoot(Photoshoot::Preview(t.clone())), cb("preview_add", t)) }
        3 => (Message::Photoshoot(Photoshoot::PreviewRun), cb("preview_run", String::new())),
        _ => (Message::Photoshoot(Photoshoot::Done), cb("done", String::new())),
    }
}
fn frame(m: &toarma::Message) -> Vec<u8> {
    let j = serde_json::to_string(m).unwrap();
    let mut o = (j.len() as u32).to_le_bytes().to_vec();
    o.extend_from_slice(j.as_bytes());
    o
}
/// Take whole frames off the front of `buf`.
fn frames(buf: &mut Vec<u8>) -> Vec<Vec<u8>> {
    let mut o = vec![];
    while buf.len() >= 4 {
        let n = u32::from_le_bytes(buf[..4].try_into().unwrap()) as usize;
        if buf.len() < 4 + n { break; }
        o.push(buf[4..4 + n].to_vec());
        buf.drain(..4 + n);
    }
    o
}
fn pause() -> u64 { match gen(6) { 0..=2 => 0, 3 => gen(20) * 1_000_000, 4 => gen(300) * 1_000_000, _ => gen(3000) * 1_000_000 } }

#[derive(Clone, Copy, PartialEq)]
enum Mode { Steady, Cut, Deaf }

fn world(mode: Mode) -> Verdict {
    let max = pick(&[40usize, 40, 400, 4000, 70_000]);
    let script: Vec<(u64, G)> = (0..gen(12)).map(|_| (pause(), game_msg(max))).collect();
    let replies: Vec<(u64, toarma::Message, (String, String, String))> = (0..gen(12)).map(|_| { let (m, c) = hemtt_msg(max); (pause(), m, c) }).collect();
    let exit = mode == Mode::Steady && genp(1, 5);
    let register_first = genp(1, 2);
    let net = net::enable();
    let calm = gen(4) == 0;
    if !calm {
        net.jitter = 1;
        net.short = simcore::fault(4) * 2;
        net.eintr = if simcore::fault(3) == 2 { 8 } else { 0 };
        let c = |v: u64| [1 << 16, 4096, 512, 64, 16][v as usize].max(max / 40);
        net.caps = [c(simcore::fault(5)), c(simcore::fault(5))];
        BUSY.store(simcore::fault(4) * 2, SeqCst);
    }
    net.open = mode != Mode::Deaf;
    let mut stream = vec![];
    let mut ends = vec![];
    for (_, m, _) in &replies { stream.extend(frame(m)); ends.push(stream.len()); }
    if exit { stream.extend(frame(&toarma::Message::Control(toarma::Control::Exit))); }
    // the peer goes away after this many bytes of its own
    let cut = (mode == Mode::Cut).then(|| simcore::fault(stream.len() as u64 + 1) as usize);
    let slow = if calm { 0 } else { simcore::fault(3) };
    CALLBACKS.lock().unwrap().clear();
    sim::catch_exit();
    sim::set_opts(|o| { o.alloc_gap = 60; o.io_gap = 2; });
    let done = std::sync::Arc::new(AtomicBool::new(false));
    let (d2, sc2) = (done.clone(), script.clone());
    let game = std::thread::spawn(move || -> Result<(), String> {
        let mut out = [0u8; 64];
        unsafe {
            if register_first { RVExtensionRegisterCallback(callback); RVExtensionVersion(out.as_mut_ptr().cast(), 60); }
            else { RVExtensionVersion(out.as_mut_ptr().cast(), 60); RVExtensionRegisterCallback(callback); }
        }
        for (p, g) in sc2 {
            if p > 0 { std::thread::sleep(std::time::Duration::from_nanos(p)); }
            let (r, o) = match &g {
                G::Mission(m) => call("mission", &[m]),
                G::Log(l, t) => call("log", &[l, t]),
                G::Ready => call("photoshoot:ready", &[]),
                G::Weapon(w) => call("photoshoot:weapon", &[w]),
                G::Previews => call("photoshoot:previews", &[]),
            };
            if r != 0 { return Err(format!("call {g:?} answered {r} {o:?}")); }
        }
        d2.store(true, SeqCst);
        Ok(())
    });
    let conn = net::Conn { c: 0, side: 1 };
    let connected = || net::net().is_some_and(|n| n.conns > 0);
    let (mut inbox, mut got): (Vec<u8>, Vec<String>) = (vec![], vec![]);
    let (mut sent, mut next, mut next_at, mut closed) = (0usize, 0usize, replies.first().map_or(0, |r| r.0), false);
    let t0 = sim::w().now;
    let limit = t0 + 7_200_000_000_000;
    let mut quiet_until = 0;
    let mut settled = None;
    loop {
        let now = sim::w().now;
        if connected() && !closed {
            // release the next message when its pause is over
            while next < replies.len() && now >= next_at { next += 1; next_at = now + replies.get(next).map_or(0, |r| r.0); }
            let mut avail = if next == 0 { 0 } else { ends[next - 1] };
            if next == replies.len() { avail = stream.len(); }
            if let Some(c) = cut { avail = avail.min(c); }
            if sent < avail { sent += conn.send(&stream[sent..avail]); }
            if cut == Some(sent) { conn.close(); closed = true; simcore::fired("net-disconnect"); }
            if now >= quiet_until && !closed {
                if slow > 0 && simcore::fault(6) == 5 { quiet_until = now + simcore::fault(2_000) * 1_000_000; simcore::fired("net-slow-peer"); }
                let b = conn.recv(if slow == 2 { 1 + simcore::fault(200) as usize } else { 1 << 20 });
                inbox.extend(b);
                for f in frames(&mut inbox) {
                    match serde_json::from_slice::<fromarma::Message>(&f) {
                        Ok(m) => got.push(format!("{m:?}")),
                        Err(e) => return bad("the game sends a message that cannot be read", format!("{e}: {:?} after {got:?}", String::from_utf8_lossy(&f))),
                    }
                }
            }
        }
        let cbs = CALLBACKS.lock().unwrap().len();
        let want = match cut { None => replies.len(), Some(c) => ends.iter().filter(|e| **e <= c).count() };
        let all = done.load(SeqCst) && match mode {
            Mode::Steady => got.len() >= script.len() && cbs >= want && sent == stream.len() && (!exit || sim::exited().is_some()) || sim::exited().is_some(),
            Mode::Cut => closed && cbs >= want,
            Mode::Deaf => true,
        };
        // a while longer: nothing more may arrive
        if all && settled.is_none() { settled = Some(now + 10_000_000_000); }
        if settled.is_some_and(|t| now >= t) || now > limit || game.is_finished() && !done.load(SeqCst) { break; }
        sim::sleep_ns(if slow == 2 { 2_000_000 } else { 10_000_000 });
    }
    if let Some(p) = sim::panicked() { return bad(format!("the link panics: {}", simcore::driver::norm(&p)), format!("{p}; game said {script:?}, hemtt said {} messages", replies.len())); }
    if game.is_finished() { if let Ok(Err(e)) = game.join() { return bad("a call from the game fails", e); } }
    let want: Vec<String> = script.iter().map(|(_, g)| expected(g)).collect();
    let cbs = CALLBACKS.lock().unwrap().clone();
    let wantcb: Vec<_> = replies.iter().zip(&ends).filter(|(_, e)| cut.is_none_or(|c| **e <= c)).map(|(r, _)| r.2.clone()).collect();
    let short = |v: &[String]| v.iter().map(|s| s.chars().take(60).collect::<String>()).collect::<Vec<_>>();
    // order and content first: what arrived must be a prefix of what was sent
    for (i, g) in got.iter().enumerate() { ensure!(want.get(i) == Some(g), "a message from the game arrives changed, twice or out of order", "message {i}: sent {:?}, received {:?}", short(&want), short(&got)); }
    for (i, c) in cbs.iter().enumerate() { ensure!(wantcb.get(i) == Some(c), "the game acts on a message that was not sent, or twice, or out of order", "callback {i}: {:?}, expected {:?}", c, wantcb.get(i)); }
    if exit { ensure!(sim::exited().is_some() || cbs.len() < wantcb.len(), "the game ignores the order to exit", "exit was sent {} bytes ago", stream.len() - sent); }
    ensure!(exit || sim::exited().is_none(), "the link ends the game unasked", "exit code {:?}", sim::exited());
    match mode {
        Mode::Steady => {
            // nothing can be demanded of a game that was told to exit in the middle
            if !exit { ensure!(got.len() == want.len(), "messages from the game never arrive", "{} of {} after {} s", got.len(), want.len(), (sim::w().now - t0) / 1_000_000_000); }
            ensure!(cbs.len() == wantcb.len(), "messages to the game never arrive", "{} of {} after {} s ({} of {} bytes sent)", cbs.len(), wantcb.len(), (sim::w().now - t0) / 1_000_000_000, sent, stream.len());
            ensure!(inbox.is_empty() || exit, "the game sends half a message", "{} bytes left over", inbox.len());
        }
        Mode::Cut => ensure!(cbs.len() == wantcb.len(), "messages received before the connection broke are not acted on", "{} of {}", cbs.len(), wantcb.len()),
        Mode::Deaf => {}
    }
    ensure!(done.load(SeqCst), "a call from the game never returns", "after {} s", (sim::w().now - t0) / 1_000_000_000);
    let key = mix(hash_bytes(got.len() as u64, stream.as_slice()), mix(cut.unwrap_or(usize::MAX) as u64, mix(max as u64, script.len() as u64)));
    simcore::state(mix(mode as u64, mix(got.len() as u64, cbs.len() as u64)));
    Ok(Info { nontrivial: !script.is_empty() || !replies.is_empty(), key, sample: Some(format!("{} messages from the game, {} to it ({} bytes){}", script.len(), replies.len(), stream.len(), cut.map_or(String::new(), |c| format!(", cut after {c}")))) })
}
fn steady() -> Verdict { world(Mode::Steady) }
fn cut() -> Verdict { world(Mode::Cut) }
fn deaf() -> Verdict { world(Mode::Deaf) }

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "P22",
        rule: "distinct pairs of message histories with their connection parameters in which at least one message was exchanged",
        real: &["hemtt-comm (arma/src): init, link thread, commands, photoshoot group", "hemtt-common arma::control and arma::link", "arma-rs extension runtime, command dispatch and callback thread", "interprocess local sockets and std UnixStream above the libc calls"],
        stub: &["the socket below the libc calls (bounded pipes with seeded delay, fragmentation, short transfers, disconnects)", "the game engine (calls RVExtension*, receives callbacks, refuses some)", "HEMTT's end of the socket (a reference framing)"],
        assumptions: &["a connected stream socket delivers bytes in order and without loss until it is closed"],
        level: "seeded simulation of both directions with faults",
        scenarios: vec![
            Scenario::new("steady", 2_000, 30_000, steady).recycle(1),
            Scenario::new("cut", 1_200, 20_000, cut).recycle(1),
            Scenario::new("deaf", 150, 1_500, deaf).recycle(1),
        ],
    }]
}
