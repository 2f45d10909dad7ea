//! Network seam: stream sockets, simulated at the libc calls. A simulated socket is a file
//! descriptor number that exists nowhere else; bytes travel through two bounded pipes whose delay,
//! fragmentation and capacity are decided by the fault tape. The harness plays one end directly
//! (`Conn::send`, `Conn::recv`), or both ends are code under test (listen/accept).
use crate::interpose::{ret, set_errno};
use crate::tape::S;
use crate::{raw, sim};
use libc::{c_int, c_long, c_ulong, c_void, msghdr, pollfd, sockaddr, socklen_t, ssize_t};
use std::collections::{BTreeMap, VecDeque};

const BASE: c_int = 1 << 24;

pub struct Pipe {
    q: VecDeque<(u64, VecDeque<u8>)>,
    held: usize,
    pub cap: usize,
    last: u64,
    /// writing end closed at (arrival time of the end of stream)
    eof: Option<u64>,
    /// reading end closed
    deaf: bool,
    pub written: u64,
    pub read: u64,
}
impl Pipe {
    fn new(cap: usize) -> Self { Pipe { q: VecDeque::new(), held: 0, cap, last: 0, eof: None, deaf: false, written: 0, read: 0 } }
    fn room(&self) -> usize { self.cap.saturating_sub(self.held) }
    fn push(&mut self, mut b: &[u8], now: u64, j: u64) {
        self.written += b.len() as u64;
        self.held += b.len();
        while !b.is_empty() {
            let n = if j > 0 && b.len() > 1 && sim::choice(S::Fault, 3) == 1 { sim::fired("net-fragment"); 1 + sim::choice(S::Fault, b.len() as u64 - 1) as usize } else { b.len() };
            self.last = self.last.max(now + delay(j));
            self.q.push_back((self.last, b[..n].iter().copied().collect()));
            b = &b[n..];
        }
    }
    fn ready(&self, now: u64) -> usize { self.q.iter().take_while(|c| c.0 <= now).map(|c| c.1.len()).sum() }
    fn pull(&mut self, n: usize, now: u64) -> Vec<u8> {
        let mut o = vec![];
        while o.len() < n {
            let Some(c) = self.q.front_mut() else { break };
            if c.0 > now { break; }
            let k = (n - o.len()).min(c.1.len());
            o.extend(c.1.drain(..k));
            if c.1.is_empty() { self.q.pop_front(); }
        }
        self.held -= o.len();
        self.read += o.len() as u64;
        o
    }
    fn ended(&self, now: u64) -> bool { self.q.is_empty() && self.eof.is_some_and(|t| t <= now) }
    fn next(&self) -> Option<u64> { self.q.front().map(|c| c.0).or(self.eof) }
}
/// virtual delay of one fragment
fn delay(j: u64) -> u64 {
    if j == 0 { return 0; }
    match sim::choice(S::Fault, 8) {
        0..=3 => 0,
        4 | 5 => { sim::fired("net-delay"); sim::choice(S::Fault, 1_000_000) }
        6 => { sim::fired("net-delay"); sim::choice(S::Fault, 150_000_000) }
        _ => { sim::fired("net-stall"); sim::choice(S::Fault, 4_000_000_000) }
    }
}

struct Sock { conn: usize, side: usize, nonblock: bool, listening: Option<String>, refs: u32 }
#[derive(Default)]
pub struct Net {
    socks: BTreeMap<c_int, Sock>,
    next: c_int,
    /// pipes[2*c] carries side 0 -> side 1, pipes[2*c+1] the other way
    pub pipes: Vec<Pipe>,
    listeners: BTreeMap<String, VecDeque<usize>>,
    /// accept connections to anything (the harness plays the server)
    pub open: bool,
    pub caps: [usize; 2],
    /// 0: bytes arrive at once and whole
    pub jitter: u64,
    /// 1 in n reads/writes is short
    pub short: u64,
    pub eintr: u64,
    /// side 0 (the connecting end) stops writing for good
    pub conns: usize,
}
static mut NET: Option<Box<Net>> = None;
#[allow(static_mut_refs)]
pub fn net() -> Option<&'static mut Box<Net>> { unsafe { NET.as_mut() } }
pub fn enable() -> &'static mut Net {
    let _g = sim::hold();
    unsafe { NET = Some(Box::new(Net { caps: [1 << 16, 1 << 16], ..Net::default() })); }
    net().unwrap()
}
pub fn reset() { unsafe { NET = None; } }
pub fn is(fd: c_int) -> bool { fd >= BASE && net().is_some() }

impl Net {
    fn connect(&mut self) -> usize {
        let c = self.conns;
        self.conns += 1;
        self.pipes.push(Pipe::new(self.caps[0]));
        self.pipes.push(Pipe::new(self.caps[1]));
        c
    }
    fn sock(&mut self, s: Sock) -> c_int {
        let fd = BASE + self.next;
        self.next += 1;
        self.socks.insert(fd, s);
        fd
    }
}
/// The harness's end of a connection (side 1 unless told otherwise).
pub struct Conn { pub c: usize, pub side: usize }
impl Conn {
    fn out(&self) -> &'static mut Pipe { &mut net().unwrap().pipes[2 * self.c + self.side] }
    fn inp(&self) -> &'static mut Pipe { &mut net().unwrap().pipes[2 * self.c + 1 - self.side] }
    /// Send what fits now; returns the number of bytes taken.
    pub fn send(&self, b: &[u8]) -> usize {
        let _g = sim::hold();
        let p = self.out();
        if p.deaf { return b.len(); }
        let n = p.room().min(b.len());
        let j = net().unwrap().jitter;
        p.push(&b[..n], sim::w().now, j);
        n
    }
    pub fn recv(&self, max: usize) -> Vec<u8> {
        let _g = sim::hold();
        self.inp().pull(max, sim::w().now)
    }
    pub fn ended(&self) -> bool { let _g = sim::hold(); self.inp().ended(sim::w().now) }
    pub fn sent(&self) -> u64 { self.out().written }
    pub fn consumed(&self) -> u64 { self.out().read }
    pub fn close(&self) {
        let _g = sim::hold();
        let now = sim::w().now;
        let p = self.out();
        p.eof = Some(p.last.max(now));
        self.inp().deaf = true;
    }
}

fn name_of(a: *const sockaddr, l: socklen_t) -> String {
    let b = unsafe { std::slice::from_raw_parts(a.cast::<u8>(), l as usize) };
    b.iter().skip(2).map(|c| if c.is_ascii_graphic() { *c as char } else { '.' }).collect()
}
fn io(what: &str) { sim::io_point(); let _g = sim::hold(); sim::note(what.as_bytes()); }
fn err(e: c_int) -> c_int { set_errno(e); -1 }
fn here() -> bool { sim::active() && net().is_some() }

/// Shared by read/recv on a simulated socket.
pub unsafe fn recv_fd(fd: c_int, b: *mut u8, n: usize, flags: c_int) -> ssize_t {
    io("recv");
    loop {
        let (wake, nb);
        {
            let _g = sim::hold();
            let t = net().unwrap();
            let Some(s) = t.socks.get(&fd) else { return err(libc::EBADF) as ssize_t };
            if s.listening.is_some() || s.conn == usize::MAX { return err(libc::ENOTCONN) as ssize_t; }
            nb = s.nonblock || flags & libc::MSG_DONTWAIT != 0;
            if t.eintr > 0 && sim::choice(S::Fault, t.eintr) == 1 { sim::fired("net-eintr"); return err(libc::EINTR) as ssize_t; }
            let p = &mut t.pipes[2 * s.conn + 1 - s.side];
            let now = sim::w().now;
            let mut k = p.ready(now).min(n);
            if n == 0 { return 0; }
            if k > 0 {
                if k > 1 && t.short > 0 && sim::choice(S::Fault, t.short) == 1 { sim::fired("net-short-read"); k = 1 + sim::choice(S::Fault, k as u64 - 1) as usize; }
                let d = if flags & libc::MSG_PEEK != 0 { let mut v: Vec<u8> = p.q.iter().flat_map(|c| c.1.iter().copied()).collect(); v.truncate(k); v } else { p.pull(k, now) };
                std::ptr::copy_nonoverlapping(d.as_ptr(), b, d.len());
                sim::note(&d);
                sim::log(|| format!("net: read {} bytes", d.len()));
                return d.len() as ssize_t;
            }
            if p.ended(now) { return 0; }
            wake = p.next().unwrap_or(now + 1_000_000).max(now + 1);
            if nb { sim::fired("net-would-block"); return err(libc::EAGAIN) as ssize_t; }
        }
        let now = sim::w().now;
        sim::sleep_ns((wake - now).min(5_000_000));
    }
}
pub unsafe fn send_fd(fd: c_int, b: *const u8, n: usize, flags: c_int) -> ssize_t {
    io("send");
    loop {
        {
            let _g = sim::hold();
            let t = net().unwrap();
            let Some(s) = t.socks.get(&fd) else { return err(libc::EBADF) as ssize_t };
            if s.listening.is_some() || s.conn == usize::MAX { return err(libc::ENOTCONN) as ssize_t; }
            let nb = s.nonblock || flags & libc::MSG_DONTWAIT != 0;
            if t.eintr > 0 && sim::choice(S::Fault, t.eintr) == 1 { sim::fired("net-eintr"); return err(libc::EINTR) as ssize_t; }
            let p = &mut t.pipes[2 * s.conn + s.side];
            if p.deaf || p.eof.is_some() { sim::fired("net-broken-pipe"); return err(libc::EPIPE) as ssize_t; }
            if n == 0 { return 0; }
            let mut k = p.room().min(n);
            if k > 0 {
                if k < n { sim::fired("net-short-write"); }
                if k > 1 && t.short > 0 && sim::choice(S::Fault, t.short) == 1 { sim::fired("net-short-write"); k = 1 + sim::choice(S::Fault, k as u64 - 1) as usize; }
                let d = std::slice::from_raw_parts(b, k);
                p.push(d, sim::w().now, t.jitter);
                sim::note(d);
                sim::log(|| format!("net: wrote {k} of {n} bytes"));
                return k as ssize_t;
            }
            if nb { sim::fired("net-would-block"); return err(libc::EAGAIN) as ssize_t; }
        }
        sim::sleep_ns(1_000_000);
    }
}
pub unsafe fn close_fd(fd: c_int) -> c_int {
    let _g = sim::hold();
    let t = net().unwrap();
    let Some(s) = t.socks.get_mut(&fd) else { return err(libc::EBADF) };
    s.refs -= 1;
    if s.refs > 0 { return 0; }
    let s = t.socks.remove(&fd).unwrap();
    if let Some(n) = s.listening { t.listeners.remove(&n); return 0; }
    if s.conn != usize::MAX && !t.socks.values().any(|o| o.conn == s.conn && o.side == s.side && o.listening.is_none()) { hang_up(s.conn, s.side, true, true); }
    0
}
fn hang_up(conn: usize, side: usize, rd: bool, wr: bool) {
    let t = net().unwrap();
    let now = sim::w().now;
    if wr { let p = &mut t.pipes[2 * conn + side]; if p.eof.is_none() { p.eof = Some(p.last.max(now)); } }
    if rd { t.pipes[2 * conn + 1 - side].deaf = true; }
}

macro_rules! sys { ($n:expr $(, $a:expr)*) => {{
    let mut v = [0i64; 6]; let mut i = 0; $( v[i] = $a as i64; i += 1; )* let _ = i;
    ret(raw::sys6($n, v[0], v[1], v[2], v[3], v[4], v[5]))
}}; }
#[allow(unused_assignments)]
mod ffi {
    use super::*;
    #[no_mangle] pub unsafe extern "C" fn socket(d: c_int, t: c_int, p: c_int) -> c_int {
        if here() {
            let _g = sim::hold();
            return net().unwrap().sock(Sock { conn: usize::MAX, side: 0, nonblock: t & libc::SOCK_NONBLOCK != 0, listening: None, refs: 1 });
        }
        sys!(libc::SYS_socket, d, t, p) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn connect(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
        if here() && is(fd) {
            io("connect");
            let _g = sim::hold();
            let name = name_of(a, l);
            let t = net().unwrap();
            let waiting = t.listeners.contains_key(&name);
            if !t.open && !waiting { sim::fired("net-refused"); return err(libc::ECONNREFUSED); }
            let c = t.connect();
            if let Some(q) = t.listeners.get_mut(&name) { q.push_back(c); }
            let s = t.socks.get_mut(&fd).unwrap();
            s.conn = c;
            s.side = 0;
            sim::log(|| format!("net: connected to {name}"));
            return 0;
        }
        sys!(libc::SYS_connect, fd, a, l) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, l: socklen_t) -> c_int {
        if here() && is(fd) {
            let _g = sim::hold();
            let name = name_of(a, l);
            let t = net().unwrap();
            if t.listeners.contains_key(&name) { return err(libc::EADDRINUSE); }
            t.socks.get_mut(&fd).unwrap().listening = Some(name.clone());
            t.listeners.insert(name, VecDeque::new());
            return 0;
        }
        sys!(libc::SYS_bind, fd, a, l) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn listen(fd: c_int, n: c_int) -> c_int {
        if here() && is(fd) { return 0; }
        sys!(libc::SYS_listen, fd, n) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn accept4(fd: c_int, a: *mut sockaddr, l: *mut socklen_t, fl: c_int) -> c_int {
        if here() && is(fd) {
            loop {
                io("accept");
                {
                    let _g = sim::hold();
                    let t = net().unwrap();
                    let Some(s) = t.socks.get(&fd) else { return err(libc::EBADF) };
                    let Some(name) = s.listening.clone() else { return err(libc::EINVAL) };
                    let nb = s.nonblock;
                    if let Some(c) = t.listeners.get_mut(&name).and_then(VecDeque::pop_front) {
                        if !l.is_null() { *l = 2; if !a.is_null() { (*a).sa_family = libc::AF_UNIX as u16; } }
                        return t.sock(Sock { conn: c, side: 1, nonblock: fl & libc::SOCK_NONBLOCK != 0, listening: None, refs: 1 });
                    }
                    if nb { return err(libc::EAGAIN); }
                }
                sim::sleep_ns(1_000_000);
            }
        }
        sys!(libc::SYS_accept4, fd, a, l, fl) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn accept(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int { accept4(fd, a, l, 0) }
    #[no_mangle] pub unsafe extern "C" fn send(fd: c_int, b: *const c_void, n: usize, fl: c_int) -> ssize_t {
        if here() && is(fd) { return send_fd(fd, b.cast(), n, fl); }
        sys!(libc::SYS_sendto, fd, b, n, fl, 0, 0) as ssize_t
    }
    #[no_mangle] pub unsafe extern "C" fn recv(fd: c_int, b: *mut c_void, n: usize, fl: c_int) -> ssize_t {
        if here() && is(fd) { return recv_fd(fd, b.cast(), n, fl); }
        sys!(libc::SYS_recvfrom, fd, b, n, fl, 0, 0) as ssize_t
    }
    #[no_mangle] pub unsafe extern "C" fn recvfrom(fd: c_int, b: *mut c_void, n: usize, fl: c_int, a: *mut sockaddr, l: *mut socklen_t) -> ssize_t {
        if here() && is(fd) { if !l.is_null() { *l = 0; } return recv_fd(fd, b.cast(), n, fl); }
        sys!(libc::SYS_recvfrom, fd, b, n, fl, a, l) as ssize_t
    }
    #[no_mangle] pub unsafe extern "C" fn sendmsg(fd: c_int, m: *const msghdr, fl: c_int) -> ssize_t {
        if here() && is(fd) {
            for i in 0..(*m).msg_iovlen { let v = &*(*m).msg_iov.add(i); if v.iov_len > 0 { return send_fd(fd, v.iov_base.cast(), v.iov_len, fl); } }
            return 0;
        }
        sys!(libc::SYS_sendmsg, fd, m, fl) as ssize_t
    }
    #[no_mangle] pub unsafe extern "C" fn recvmsg(fd: c_int, m: *mut msghdr, fl: c_int) -> ssize_t {
        if here() && is(fd) {
            (*m).msg_controllen = 0;
            for i in 0..(*m).msg_iovlen { let v = &*(*m).msg_iov.add(i); if v.iov_len > 0 { return recv_fd(fd, v.iov_base.cast(), v.iov_len, fl); } }
            return 0;
        }
        sys!(libc::SYS_recvmsg, fd, m, fl) as ssize_t
    }
    #[no_mangle] pub unsafe extern "C" fn shutdown(fd: c_int, how: c_int) -> c_int {
        if here() && is(fd) {
            let _g = sim::hold();
            let Some(s) = net().unwrap().socks.get(&fd) else { return err(libc::EBADF) };
            hang_up(s.conn, s.side, how != libc::SHUT_WR, how != libc::SHUT_RD);
            return 0;
        }
        sys!(libc::SYS_shutdown, fd, how) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn ioctl(fd: c_int, r: c_ulong, arg: *mut c_void) -> c_int {
        if here() && is(fd) {
            let _g = sim::hold();
            if r == libc::FIONBIO { if let Some(s) = net().unwrap().socks.get_mut(&fd) { s.nonblock = *arg.cast::<c_int>() != 0; } }
            return 0;
        }
        sys!(libc::SYS_ioctl, fd, r, arg) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
        if here() && is(fd) {
            let _g = sim::hold();
            let t = net().unwrap();
            match cmd {
                libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => {
                    let Some(s) = t.socks.get(&fd) else { return err(libc::EBADF) };
                    let n = Sock { conn: s.conn, side: s.side, nonblock: s.nonblock, listening: s.listening.clone(), refs: 1 };
                    return t.sock(n);
                }
                libc::F_GETFL => return t.socks.get(&fd).map_or(-1, |s| libc::O_RDWR | if s.nonblock { libc::O_NONBLOCK } else { 0 }),
                libc::F_SETFL => { if let Some(s) = t.socks.get_mut(&fd) { s.nonblock = arg as c_int & libc::O_NONBLOCK != 0; } return 0; }
                _ => return 0,
            }
        }
        sys!(libc::SYS_fcntl, fd, cmd, arg) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int { fcntl(fd, cmd, arg) }
    #[no_mangle] pub unsafe extern "C" fn poll(p: *mut pollfd, n: libc::nfds_t, ms: c_int) -> c_int {
        if here() && (0..n as usize).any(|i| is((*p.add(i)).fd)) {
            let end = sim::w().now + if ms < 0 { u64::MAX / 2 } else { ms as u64 * 1_000_000 };
            loop {
                io("poll");
                let mut c = 0;
                {
                    let _g = sim::hold();
                    let t = net().unwrap();
                    let now = sim::w().now;
                    for i in 0..n as usize {
                        let f = &mut *p.add(i);
                        f.revents = 0;
                        let Some(s) = t.socks.get(&f.fd) else { continue };
                        if let Some(l) = &s.listening { if t.listeners.get(l).is_some_and(|q| !q.is_empty()) { f.revents |= libc::POLLIN; } }
                        else if s.conn != usize::MAX {
                            let (r, w) = (&t.pipes[2 * s.conn + 1 - s.side], &t.pipes[2 * s.conn + s.side]);
                            if r.ready(now) > 0 || r.ended(now) { f.revents |= libc::POLLIN; }
                            if w.room() > 0 || w.deaf { f.revents |= libc::POLLOUT; }
                            if r.ended(now) { f.revents |= libc::POLLHUP; }
                        }
                        f.revents &= f.events | libc::POLLHUP | libc::POLLERR;
                        if f.revents != 0 { c += 1; }
                    }
                }
                if c > 0 || sim::w().now >= end { return c; }
                sim::sleep_ns(1_000_000.min(end - sim::w().now).max(1));
            }
        }
        sys!(libc::SYS_poll, p, n, ms) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn setsockopt(fd: c_int, l: c_int, o: c_int, v: *const c_void, n: socklen_t) -> c_int {
        if here() && is(fd) { return 0; }
        sys!(libc::SYS_setsockopt, fd, l, o, v, n) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn getsockopt(fd: c_int, l: c_int, o: c_int, v: *mut c_void, n: *mut socklen_t) -> c_int {
        if here() && is(fd) { std::ptr::write_bytes(v.cast::<u8>(), 0, *n as usize); return 0; }
        sys!(libc::SYS_getsockopt, fd, l, o, v, n) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn getpeername(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
        if here() && is(fd) { *l = 2; (*a).sa_family = libc::AF_UNIX as u16; return 0; }
        sys!(libc::SYS_getpeername, fd, a, l) as c_int
    }
    #[no_mangle] pub unsafe extern "C" fn getsockname(fd: c_int, a: *mut sockaddr, l: *mut socklen_t) -> c_int {
        if here() && is(fd) { *l = 2; (*a).sa_family = libc::AF_UNIX as u16; return 0; }
        sys!(libc::SYS_getsockname, fd, a, l) as c_int
    }
}
pub fn force() -> usize {
    let v: [usize; 16] = [ffi::socket as usize, ffi::connect as usize, ffi::bind as usize, ffi::listen as usize, ffi::accept4 as usize, ffi::accept as usize, ffi::send as usize, ffi::recv as usize,
        ffi::recvfrom as usize, ffi::sendmsg as usize, ffi::recvmsg as usize, ffi::shutdown as usize, ffi::ioctl as usize, ffi::fcntl as usize, ffi::fcntl64 as usize, ffi::poll as usize];
    let u: [usize; 4] = [ffi::setsockopt as usize, ffi::getsockopt as usize, ffi::getpeername as usize, ffi::getsockname as usize];
    std::hint::black_box(v).iter().fold(0, |a, b| a ^ b) ^ std::hint::black_box(u).iter().fold(0, |a, b| a ^ b)
}
