//! File-system seam for code that uses std::fs: the libc entry points, interposed. Paths under the
//! scratch root are subject to fault injection, crash points and seeded directory order; all other
//! paths pass through untouched.
use crate::tape::S;
use crate::{raw, real_fn, sim};
use crate::interpose::{ret, set_errno};
use libc::{c_char, c_int, c_void, mode_t, off64_t, size_t, ssize_t, DIR};
use std::collections::BTreeMap;
use std::ffi::CStr;

/// operation classes (bit mask)
pub const OPEN_R: u32 = 1;
pub const OPEN_W: u32 = 2;
pub const READ: u32 = 4;
pub const WRITE: u32 = 8;
pub const STAT: u32 = 16;
pub const LIST: u32 = 32;
pub const LIST_NEXT: u32 = 64;
pub const MKDIR: u32 = 128;
pub const REMOVE: u32 = 256;
pub const RENAME: u32 = 512;
pub const SEEK: u32 = 1024;
pub const CLOSE: u32 = 2048;
pub const MUTATION: u32 = OPEN_W | WRITE | MKDIR | REMOVE | RENAME;

pub fn class_name(c: u32) -> &'static str {
    match c {
        OPEN_R => "open-read", OPEN_W => "open-write", READ => "read", WRITE => "write", STAT => "stat", LIST => "opendir",
        LIST_NEXT => "readdir", MKDIR => "mkdir", REMOVE => "remove", RENAME => "rename", SEEK => "seek", _ => "close",
    }
}

#[derive(Clone, Debug)]
pub struct Fault {
    pub mask: u32,
    /// fires on the nth matching operation (0-based) ...
    pub nth: u64,
    /// ... and on every later one when sticky
    pub sticky: bool,
    pub errno: i32,
    /// only paths containing this
    pub path: Option<String>,
    pub seen: u64,
    pub fired: u64,
}

#[derive(Default)]
pub struct Fs {
    root: Vec<u8>,
    fds: BTreeMap<i32, String>,
    pub faults: Vec<Fault>,
    /// 1 in n reads/writes is short (0: never)
    pub short: u64,
    /// 1 in n reads/writes is interrupted
    pub eintr: u64,
    pub shuffle: bool,
    pub crash_at: Option<u64>,
    pub mutations: u64,
    pub ops: u64,
    pub counts: BTreeMap<u32, u64>,
    pub disk_left: Option<u64>,
    dirs: BTreeMap<usize, Listing>,
    pub trace_paths: bool,
    pub skew: u64,
    pub oplog: Option<Vec<String>>,
    pub on_crash: Option<Box<dyn FnMut()>>,
    /// refuse and note every attempt to change something outside the scratch directory
    pub contain: bool,
    pub escapes: Vec<String>,
    /// where the code sees the scratch directory (the same in every run); empty: where it is
    alias: Vec<u8>,
    real: Vec<u8>,
    /// another place that is in the scratch directory (without faults)
    pub also: Option<(String, String)>,
    /// descriptors of the system's random numbers
    noise: std::collections::BTreeSet<c_int>,
}
struct Listing { ents: Vec<Box<libc::dirent64>>, pos: usize, path: String }

static mut FS: Option<Box<Fs>> = None;
#[allow(static_mut_refs)]
pub fn fs() -> Option<&'static mut Box<Fs>> { unsafe { FS.as_mut() } }
pub fn on() -> bool { fs().is_some() }
pub fn clock_skew() -> u64 { fs().map_or(0, |f| f.skew) }
pub fn enable(root: &str) -> &'static mut Fs {
    let _g = sim::hold();
    unsafe { FS = Some(Box::new(Fs { root: root.as_bytes().to_vec(), ..Fs::default() })); }
    fs().unwrap()
}
/// Like `enable`, but the code sees the directory as `alias`.
pub fn enable_as(root: &str, alias: &str) -> &'static mut Fs {
    let f = enable(alias);
    f.alias = alias.as_bytes().to_vec();
    f.real = root.as_bytes().to_vec();
    f
}
fn swap(p: &[u8], a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    let r = p.strip_prefix(a)?;
    if a.is_empty() || !(r.is_empty() || r[0] == b'/') { return None; }
    let mut v = b.to_vec();
    v.extend_from_slice(r);
    Some(v)
}
/// The path as the system knows it.
struct Real(Option<std::ffi::CString>, *const c_char);
impl Real { fn p(&self) -> *const c_char { self.0.as_ref().map_or(self.1, |c| c.as_ptr()) } }
fn real(p: *const c_char) -> Real {
    if !sim::active() || p.is_null() { return Real(None, p); }
    let _g = sim::hold();
    let c = fs().filter(|f| !f.alias.is_empty()).and_then(|f| { let b = unsafe { CStr::from_ptr(p) }.to_bytes(); swap(b, &f.alias, &f.real).or_else(|| f.also.as_ref().and_then(|(a, r)| swap(b, a.as_bytes(), r.as_bytes()))) }).and_then(|v| std::ffi::CString::new(v).ok());
    Real(c, p)
}
/// The path as the code knows it.
fn seen(b: Vec<u8>) -> Vec<u8> { fs().filter(|f| !f.alias.is_empty()).and_then(|f| swap(&b, &f.real, &f.alias)).unwrap_or(b) }
pub fn reset() { unsafe { FS = None; } }
fn plain(p: &str) -> String {
    let mut v: Vec<&str> = vec![];
    for c in p.split('/') { match c { "" | "." => {} ".." => { v.pop(); } c => v.push(c) } }
    format!("/{}", v.join("/"))
}
/// Where a path really leads, if it exists.
unsafe fn leads(p: &str) -> Option<Vec<u8>> {
    let c = std::ffi::CString::new(p).ok()?;
    let fd = raw::sys6(libc::SYS_openat, i64::from(libc::AT_FDCWD), c.as_ptr() as i64, i64::from(libc::O_PATH | libc::O_CLOEXEC), 0, 0, 0);
    if fd < 0 { return None; }
    let l = std::ffi::CString::new(format!("/proc/self/fd/{fd}")).ok()?;
    let mut b = [0u8; 4096];
    let n = raw::sys6(libc::SYS_readlink, l.as_ptr() as i64, b.as_mut_ptr() as i64, 4096, 0, 0, 0);
    raw::sys6(libc::SYS_close, fd, 0, 0, 0, 0, 0);
    (n > 0).then(|| b[..n as usize].to_vec())
}
/// May `path` be changed? Attempts to reach out of the scratch directory are noted, not made.
unsafe fn inside(what: &str, path: &str, follow: bool) -> bool {
    let f = fs().unwrap();
    if !f.contain || f.alias.is_empty() { return true; }
    let flat = plain(path);
    if ["/dev/null", "/dev/tty", "/dev/urandom", "/dev/random"].contains(&flat.as_str()) { return true; }
    let mut ok = f.also.as_ref().is_some_and(|(a, r)| swap(flat.as_bytes(), a.as_bytes(), r.as_bytes()).is_some());
    if let Some(r) = swap(flat.as_bytes(), &f.alias, &f.real) {
        let r = String::from_utf8_lossy(&r).into_owned();
        let top = leads(&String::from_utf8_lossy(&f.real)).unwrap_or_default();
        let within = |x: Option<Vec<u8>>| x.map_or(true, |x| x.starts_with(&top));
        // without the `..` the path may name something else than the system would reach: both have to be inside
        let raw_path = swap(path.as_bytes(), &f.alias, &f.real).map(|x| String::from_utf8_lossy(&x).into_owned()).unwrap_or_else(|| r.clone());
        let parent = |p: &str| p.trim_end_matches('/').rsplit_once('/').map_or("/".to_string(), |x| x.0.to_string());
        ok = within(leads(&parent(&r))) && within(leads(&parent(&raw_path))) && (!follow || (within(leads(&r)) && within(leads(&raw_path))));
    }
    if !ok { f.escapes.push(format!("{what} {path}")); sim::log(|| format!("fs: refused {what} {path}")); }
    ok
}

fn scoped(p: &[u8]) -> bool {
    fs().is_some_and(|f| !f.root.is_empty() && p.starts_with(&f.root))
}
fn abs(dirfd: c_int, p: *const c_char) -> String {
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().into_owned();
    if s.starts_with('/') { return s; }
    let base = if dirfd == libc::AT_FDCWD {
        let mut b = [0u8; 4096];
        let n = unsafe { raw::sys6(libc::SYS_getcwd, b.as_mut_ptr() as i64, 4096, 0, 0, 0, 0) };
        if n > 1 { String::from_utf8_lossy(&seen(b[..n as usize - 1].to_vec())).into_owned() } else { String::new() }
    } else { fs().and_then(|f| f.fds.get(&dirfd).cloned()).unwrap_or_default() };
    format!("{base}/{s}")
}
/// Short display form of a path (relative to the scratch root).
fn rel(p: &str) -> String {
    let n = fs().map_or(0, |f| f.root.len());
    p.get(n..).unwrap_or(p).to_string()
}

/// Account for an operation and decide whether it fails. Returns an errno.
fn pre(class: u32, path: &str) -> Option<i32> {
    sim::io_point();
    let f = fs().unwrap();
    f.ops += 1;
    *f.counts.entry(class).or_insert(0) += 1;
    sim::note(&class.to_le_bytes());
    let r = rel(path);
    sim::note(r.as_bytes());
    if let Some(l) = f.oplog.as_mut() { l.push(format!("{} {r}", class_name(class))); }
    if class & MUTATION != 0 { crash_check(class, &r, 0); }
    for ft in &mut f.faults {
        if ft.mask & class == 0 || ft.path.as_ref().is_some_and(|p| !path.contains(p.as_str())) { continue; }
        let n = ft.seen;
        ft.seen += 1;
        if n == ft.nth || (ft.sticky && n > ft.nth) {
            ft.fired += 1;
            let e = ft.errno;
            sim::fired(match e { libc::ENOSPC => "fs-enospc", libc::EIO => "fs-eio", libc::EACCES => "fs-eacces", libc::EMFILE => "fs-emfile", _ => "fs-error" });
            sim::log(|| format!("fs: {} {r} -> errno {e}", class_name(class)));
            return Some(e);
        }
    }
    sim::log(|| format!("fs: {} {r}", class_name(class)));
    None
}
/// Die here? `part` is 1 when called in the middle of a write (after its torn prefix).
fn crash_check(class: u32, r: &str, part: u64) {
    let f = fs().unwrap();
    if part == 0 { f.mutations += 1; }
    if f.crash_at == Some(f.mutations - 1) && (part == 1 || class != WRITE) {
        sim::log(|| format!("crash at mutation {} ({} {r})", f.mutations - 1, class_name(class)));
        if let Some(mut h) = f.on_crash.take() { h(); }
        raw::exit(99);
    }
}
fn fail(e: i32) -> c_int { set_errno(e); -1 }

unsafe fn do_open(dirfd: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if sim::active() && on() {
        let _g = sim::hold();
        let path = abs(dirfd, p);
        if scoped(path.as_bytes()) {
            let wr = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0;
            let class = if flags & libc::O_DIRECTORY != 0 { LIST } else if wr { OPEN_W } else { OPEN_R };
            if wr && !inside("write", &path, true) { return fail(libc::EACCES); }
            if let Some(e) = pre(class, &path) { return fail(e); }
            let fd = ret(raw::sys6(libc::SYS_openat, dirfd as i64, real(p).p() as i64, flags as i64, mode as i64, 0, 0)) as c_int;
            if fd >= 0 { fs().unwrap().fds.insert(fd, path); }
            return fd;
        }
        if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 && !inside("write", &path, true) { return fail(libc::EACCES); }
        if path == "/dev/urandom" || path == "/dev/random" {
            let fd = ret(raw::sys6(libc::SYS_openat, dirfd as i64, p as i64, flags as i64, mode as i64, 0, 0)) as c_int;
            if fd >= 0 { fs().unwrap().noise.insert(fd); }
            return fd;
        }
    }
    ret(raw::sys6(libc::SYS_openat, dirfd as i64, real(p).p() as i64, flags as i64, mode as i64, 0, 0)) as c_int
}
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(libc::AT_FDCWD, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(libc::AT_FDCWD, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(d, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, f: c_int, m: mode_t) -> c_int { do_open(d, p, f, m) }
#[no_mangle] pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if crate::net::is(fd) { return crate::net::close_fd(fd); }
    if sim::active() && on() {
        let _g = sim::hold();
        fs().unwrap().fds.remove(&fd);
        fs().unwrap().noise.remove(&fd);
    }
    ret(raw::sys6(libc::SYS_close, fd as i64, 0, 0, 0, 0, 0)) as c_int
}
fn tracked(fd: c_int) -> Option<String> {
    if !sim::active() || !on() { return None; }
    fs().unwrap().fds.get(&fd).cloned()
}
/// Shorten or interrupt a transfer of n bytes: Err(errno) or Ok(new length).
fn transfer(n: usize, path: &str) -> Result<usize, i32> {
    let f = fs().unwrap();
    // the zip library does not retry, and nothing asks it to: no signal interrupts a regular file
    if f.eintr > 0 && !path.contains(".zip") && sim::choice(S::Fault, f.eintr) == 1 { sim::fired("fs-eintr"); return Err(libc::EINTR); }
    if n > 1 && f.short > 0 && sim::choice(S::Fault, f.short) == 1 {
        sim::fired("fs-short");
        return Ok(1 + sim::choice(S::Fault, n as u64 - 1) as usize);
    }
    Ok(n)
}
unsafe fn do_read(fd: c_int, b: *mut c_void, n: size_t, off: Option<off64_t>) -> ssize_t {
    if crate::net::is(fd) && sim::active() { return crate::net::recv_fd(fd, b.cast(), n, 0); }
    let mut n = n;
    if let Some(p) = tracked(fd) {
        let _g = sim::hold();
        if let Some(e) = pre(READ, &p) { set_errno(e); return -1; }
        match transfer(n, &p) { Ok(m) => n = m, Err(e) => { set_errno(e); return -1; } }
    }
    match off {
        None => ret(raw::sys6(libc::SYS_read, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t,
        Some(o) => ret(raw::sys6(libc::SYS_pread64, fd as i64, b as i64, n as i64, o, 0, 0)) as ssize_t,
    }
}
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    if sim::active() && fs().is_some_and(|f| f.noise.contains(&fd)) { sim::random_bytes(std::slice::from_raw_parts_mut(b.cast(), n)); return n as ssize_t; }
    do_read(fd, b, n, None)
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t { do_read(fd, b, n, Some(o)) }
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    if crate::net::is(fd) && sim::active() { return crate::net::send_fd(fd, b.cast(), n, 0); }
    let mut n = n;
    if let Some(p) = tracked(fd) {
        let _g = sim::hold();
        if let Some(e) = pre(WRITE, &p) { set_errno(e); return -1; }
        let f = fs().unwrap();
        if f.crash_at == Some(f.mutations - 1) {
            let k = sim::choice(S::Fault, n as u64 + 1);
            raw::sys6(libc::SYS_write, fd as i64, b as i64, k as i64, 0, 0, 0);
            crash_check(WRITE, &rel(&p), 1);
        }
        match transfer(n, &p) { Ok(m) => n = m, Err(e) => { set_errno(e); return -1; } }
        let f = fs().unwrap();
        if let Some(left) = f.disk_left.as_mut() {
            if *left == 0 && n > 0 { sim::fired("fs-disk-full"); set_errno(libc::ENOSPC); return -1; }
            n = n.min(*left as usize);
            *left -= n as u64;
        }
    }
    ret(raw::sys6(libc::SYS_write, fd as i64, b as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if crate::net::is(fd) || tracked(fd).is_some() {
        // first non-empty buffer only: a legal short writev
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 { return write(fd, v.iov_base, v.iov_len); }
        }
        return 0;
    }
    ret(raw::sys6(libc::SYS_writev, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    if crate::net::is(fd) || tracked(fd).is_some() {
        for i in 0..n as usize {
            let v = &*iov.add(i);
            if v.iov_len > 0 { return read(fd, v.iov_base, v.iov_len); }
        }
        return 0;
    }
    ret(raw::sys6(libc::SYS_readv, fd as i64, iov as i64, n as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, wh: c_int) -> off64_t {
    if let Some(p) = tracked(fd) {
        let _g = sim::hold();
        if let Some(e) = pre(SEEK, &p) { set_errno(e); return -1; }
    }
    ret(raw::sys6(libc::SYS_lseek, fd as i64, o, wh as i64, 0, 0, 0))
}
#[no_mangle] pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t {
    if sim::active() && on() { set_errno(libc::EINVAL); return -1; }
    ret(raw::sys6(libc::SYS_sendfile, o as i64, i as i64, off as i64, n as i64, 0, 0)) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut off64_t, n: size_t) -> ssize_t { sendfile64(o, i, off, n) }
#[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: u32, buf: *mut c_void) -> c_int {
    if sim::active() && on() {
        let _g = sim::hold();
        let empty = p.is_null() || *p == 0;
        let path = if empty { fs().unwrap().fds.get(&d).cloned().unwrap_or_default() } else { abs(d, p) };
        if scoped(path.as_bytes()) {
            if let Some(e) = pre(STAT, &path) { return fail(e); }
            let r = ret(raw::sys6(libc::SYS_statx, d as i64, real(p).p() as i64, fl as i64, mask as i64, buf as i64, 0)) as c_int;
            return r;
        }
    }
    ret(raw::sys6(libc::SYS_statx, d as i64, real(p).p() as i64, fl as i64, mask as i64, buf as i64, 0)) as c_int
}
trait Arg { type O: Val; fn of(&self) -> Self::O; }
trait Val { fn v(&self) -> i64; }
impl Arg for *const c_char { type O = Real; fn of(&self) -> Real { real(*self) } }
impl Val for Real { fn v(&self) -> i64 { self.p() as i64 } }
impl Arg for mode_t { type O = i64; fn of(&self) -> i64 { i64::from(*self) } }
impl Val for i64 { fn v(&self) -> i64 { *self } }
macro_rules! path_op {
    ($name:ident, $class:expr, $sys:expr, ($($a:ident : $t:ty),*), $pi:ident, [$($to:ident),*]) => {
        #[no_mangle] pub unsafe extern "C" fn $name($($a: $t),*) -> c_int {
            if sim::active() && on() {
                let _g = sim::hold();
                let path = abs(libc::AT_FDCWD, $pi);
                $( if !inside(stringify!($name), &abs(libc::AT_FDCWD, $to), false) { return fail(libc::EACCES); } )*
                if scoped(path.as_bytes()) { if let Some(e) = pre($class, &path) { return fail(e); } }
            }
            #[allow(unused_mut, unused_assignments)]
            let mut v = [0i64; 4];
            let mut i = 0;
            let keep = ($( Arg::of(&$a), )*);
            let ($( $a, )*) = &keep;
            $( v[i] = $a.v(); i += 1; )*
            let _ = i;
            ret(raw::sys6($sys, v[0], v[1], v[2], v[3], 0, 0)) as c_int
        }
    };
}
path_op!(mkdir, MKDIR, libc::SYS_mkdir, (p: *const c_char, m: mode_t), p, [p]);
path_op!(unlink, REMOVE, libc::SYS_unlink, (p: *const c_char), p, [p]);
path_op!(rmdir, REMOVE, libc::SYS_rmdir, (p: *const c_char), p, [p]);
path_op!(rename, RENAME, libc::SYS_rename, (p: *const c_char, q: *const c_char), p, [p, q]);
path_op!(symlink, MKDIR, libc::SYS_symlink, (t: *const c_char, p: *const c_char), p, [p]);
path_op!(link, MKDIR, libc::SYS_link, (p: *const c_char, q: *const c_char), q, [p, q]);
#[no_mangle] pub unsafe extern "C" fn unlinkat(d: c_int, p: *const c_char, fl: c_int) -> c_int {
    if sim::active() && on() {
        let _g = sim::hold();
        let path = abs(d, p);
        if !inside("unlinkat", &path, false) { return fail(libc::EACCES); }
        if scoped(path.as_bytes()) { if let Some(e) = pre(REMOVE, &path) { return fail(e); } }
    }
    ret(raw::sys6(libc::SYS_unlinkat, d as i64, real(p).p() as i64, fl as i64, 0, 0, 0)) as c_int
}

// ---- directories: real entries, canonical order, seeded shuffle ----
type OpendirFn = unsafe extern "C" fn(*const c_char) -> *mut DIR;
type ReaddirFn = unsafe extern "C" fn(*mut DIR) -> *mut libc::dirent64;
#[no_mangle] pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut DIR {
    let r = real_fn!(c"opendir", OpendirFn);
    if sim::active() && on() {
        let _g = sim::hold();
        let path = abs(libc::AT_FDCWD, p);
        if scoped(path.as_bytes()) {
            if let Some(e) = pre(LIST, &path) { set_errno(e); return std::ptr::null_mut(); }
            let d = r(real(p).p());
            if !d.is_null() { slurp(d, path); }
            return d;
        }
    }
    r(p)
}
#[no_mangle] pub unsafe extern "C" fn fdopendir(fd: c_int) -> *mut DIR {
    let r = real_fn!(c"fdopendir", unsafe extern "C" fn(c_int) -> *mut DIR);
    let path = tracked(fd);
    let d = r(fd);
    if let (Some(p), false) = (path, d.is_null()) { let _g = sim::hold(); slurp(d, p); }
    d
}
unsafe fn slurp(d: *mut DIR, path: String) {
    let rd = real_fn!(c"readdir64", ReaddirFn);
    let mut ents: Vec<Box<libc::dirent64>> = vec![];
    loop {
        let e = rd(d);
        if e.is_null() { break; }
        let mut b: Box<libc::dirent64> = Box::new(std::mem::zeroed());
        std::ptr::copy_nonoverlapping(e.cast::<u8>(), (&mut *b as *mut libc::dirent64).cast::<u8>(), (*e).d_reclen as usize);
        ents.push(b);
    }
    ents.sort_by(|a, b| CStr::from_ptr(a.d_name.as_ptr()).cmp(CStr::from_ptr(b.d_name.as_ptr())));
    if fs().unwrap().shuffle {
        for i in (1..ents.len()).rev() {
            let j = i - sim::choice(S::Env, i as u64 + 1) as usize;
            ents.swap(i, j);
        }
    }
    let rfd = libc::dirfd(d);
    fs().unwrap().fds.insert(rfd, path.clone());
    fs().unwrap().dirs.insert(d as usize, Listing { ents, pos: 0, path });
}
#[no_mangle] pub unsafe extern "C" fn readdir64(d: *mut DIR) -> *mut libc::dirent64 {
    if sim::active() && on() {
        let _g = sim::hold();
        let f = fs().unwrap();
        if f.dirs.contains_key(&(d as usize)) {
            let path = f.dirs[&(d as usize)].path.clone();
            if let Some(e) = pre(LIST_NEXT, &path) { set_errno(e); return std::ptr::null_mut(); }
            let l = fs().unwrap().dirs.get_mut(&(d as usize)).unwrap();
            let p = l.pos;
            l.pos += 1;
            return match l.ents.get_mut(p) { Some(b) => &mut **b, None => std::ptr::null_mut() };
        }
    }
    real_fn!(c"readdir64", ReaddirFn)(d)
}
#[no_mangle] pub unsafe extern "C" fn closedir(d: *mut DIR) -> c_int {
    if sim::active() && on() {
        let _g = sim::hold();
        let f = fs().unwrap();
        f.dirs.remove(&(d as usize));
        let fd = libc::dirfd(d);
        f.fds.remove(&fd);
    }
    real_fn!(c"closedir", unsafe extern "C" fn(*mut DIR) -> c_int)(d)
}

#[no_mangle] pub unsafe extern "C" fn getcwd(b: *mut c_char, n: size_t) -> *mut c_char {
    let mut x = [0u8; 4096];
    let k = raw::sys6(libc::SYS_getcwd, x.as_mut_ptr() as i64, 4096, 0, 0, 0, 0);
    if k <= 0 { set_errno(-k as i32); return std::ptr::null_mut(); }
    let _g = sim::active().then(sim::hold);
    let v = seen(x[..k as usize - 1].to_vec());
    let b = if b.is_null() { libc::malloc(if n == 0 { v.len() + 1 } else { n }).cast() } else { b };
    if n != 0 && v.len() + 1 > n { set_errno(libc::ERANGE); return std::ptr::null_mut(); }
    std::ptr::copy_nonoverlapping(v.as_ptr(), b.cast(), v.len());
    *b.add(v.len()) = 0;
    b
}
#[no_mangle] pub unsafe extern "C" fn readlink(p: *const c_char, b: *mut c_char, n: size_t) -> ssize_t {
    let mut x = vec![0u8; 4096];
    let k = ret(raw::sys6(libc::SYS_readlink, real(p).p() as i64, x.as_mut_ptr() as i64, 4096, 0, 0, 0)) as ssize_t;
    if k < 0 { return k; }
    let _g = sim::active().then(sim::hold);
    let v = seen(x[..k as usize].to_vec());
    let m = v.len().min(n);
    std::ptr::copy_nonoverlapping(v.as_ptr(), b.cast(), m);
    m as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    let f = real_fn!(c"realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
    let q = real(p);
    if !sim::active() || !fs().is_some_and(|f| !f.alias.is_empty()) { return f(p, out); }
    let r = f(q.p(), std::ptr::null_mut());
    if r.is_null() { return r; }
    let _g = sim::active().then(sim::hold);
    let v = seen(CStr::from_ptr(r).to_bytes().to_vec());
    libc::free(r.cast());
    let out = if out.is_null() { libc::malloc(v.len() + 1).cast() } else { out };
    std::ptr::copy_nonoverlapping(v.as_ptr(), out.cast(), v.len());
    *out.add(v.len()) = 0;
    out
}
macro_rules! stats { ($($n:ident, $c:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(p: *const c_char, b: *mut libc::stat64) -> c_int {
    let f = real_fn!($c, unsafe extern "C" fn(*const c_char, *mut libc::stat64) -> c_int);
    f(real(p).p(), b)
})* } }
stats! { stat64, c"stat64"; lstat64, c"lstat64"; stat, c"stat"; lstat, c"lstat"; }
#[no_mangle] pub unsafe extern "C" fn readdir(d: *mut DIR) -> *mut libc::dirent64 { readdir64(d) }
#[no_mangle] pub unsafe extern "C" fn access(p: *const c_char, m: c_int) -> c_int { ret(raw::sys6(libc::SYS_access, real(p).p() as i64, i64::from(m), 0, 0, 0, 0)) as c_int }
#[no_mangle] pub unsafe extern "C" fn chmod(p: *const c_char, m: mode_t) -> c_int {
    if sim::active() && on() { let _g = sim::hold(); if !inside("chmod", &abs(libc::AT_FDCWD, p), true) { return fail(libc::EACCES); } }
    ret(raw::sys6(libc::SYS_chmod, real(p).p() as i64, i64::from(m), 0, 0, 0, 0)) as c_int }
#[no_mangle] pub unsafe extern "C" fn chdir(p: *const c_char) -> c_int { ret(raw::sys6(libc::SYS_chdir, real(p).p() as i64, 0, 0, 0, 0, 0)) as c_int }
/// Programs are started by the path and in the folder the code knows.
#[no_mangle] pub unsafe extern "C" fn posix_spawnp(pid: *mut libc::pid_t, file: *const c_char, a: *const c_void, b: *const c_void, argv: *const *mut c_char, envp: *const *mut c_char) -> c_int {
    let f = real_fn!(c"posix_spawnp", unsafe extern "C" fn(*mut libc::pid_t, *const c_char, *const c_void, *const c_void, *const *mut c_char, *const *mut c_char) -> c_int);
    f(pid, real(file).p(), a, b, argv, envp)
}
#[no_mangle] pub unsafe extern "C" fn posix_spawn_file_actions_addchdir_np(a: *mut c_void, p: *const c_char) -> c_int {
    let f = real_fn!(c"posix_spawn_file_actions_addchdir_np", unsafe extern "C" fn(*mut c_void, *const c_char) -> c_int);
    f(a, real(p).p())
}

pub fn force() -> usize {
    let v: [usize; 38] = [stat as usize, lstat as usize, readdir as usize, posix_spawnp as usize, posix_spawn_file_actions_addchdir_np as usize, link as usize, getcwd as usize, readlink as usize, realpath as usize, stat64 as usize, lstat64 as usize, access as usize, chmod as usize, open64 as usize, open as usize, openat64 as usize, openat as usize, close as usize, read as usize, pread64 as usize, write as usize,
        writev as usize, readv as usize, lseek64 as usize, sendfile64 as usize, sendfile as usize, statx as usize, mkdir as usize, unlink as usize, rmdir as usize,
        rename as usize, symlink as usize, unlinkat as usize, opendir as usize, fdopendir as usize, readdir64 as usize, closedir as usize, chdir as usize];
    std::hint::black_box(v).iter().fold(0, |a, b| a ^ b)
}
