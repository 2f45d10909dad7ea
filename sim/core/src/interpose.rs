//! libc entry points defined by the harness executable. For threads that are not simulated they
//! forward to the kernel (or the real libc function).
use crate::{raw, sim};
use libc::{c_char, c_int, c_long, c_uint, c_void, size_t, ssize_t, timespec};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub fn set_errno(e: i32) { unsafe { *libc::__errno_location() = e; } }
pub fn ret(r: i64) -> i64 { if (-4095..0).contains(&r) { set_errno(-r as i32); -1 } else { r } }

pub fn real(slot: &AtomicUsize, name: &std::ffi::CStr) -> usize {
    let v = slot.load(Relaxed);
    if v != 0 { return v; }
    let p = unsafe { libc::dlsym(libc::RTLD_NEXT, name.as_ptr()) } as usize;
    assert!(p != 0);
    slot.store(p, Relaxed);
    p
}
#[macro_export]
macro_rules! real_fn {
    ($name:literal, $ty:ty) => {{
        static SLOT: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let p = $crate::interpose::real(&SLOT, $name);
        #[allow(clippy::missing_transmute_annotations)]
        std::mem::transmute::<usize, $ty>(p)
    }};
}

fn ts_ns(t: *const timespec) -> u64 { unsafe { (*t).tv_sec as u64 * 1_000_000_000 + (*t).tv_nsec as u64 } }
const REAL_BASE: u64 = 1_733_000_000_000_000_000;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex && sim::active() {
        let op = b as i32;
        let cmd = op & 0x7f;
        match cmd {
            libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                let deadline = if d == 0 { None } else {
                    let t = ts_ns(d as *const timespec);
                    Some(if cmd == libc::FUTEX_WAIT { sim::w().now + t }
                         else if op & libc::FUTEX_CLOCK_REALTIME != 0 { t.saturating_sub(REAL_BASE) } else { t })
                };
                let r = sim::futex_wait(a as usize, c as u32, deadline);
                if r != 0 { set_errno(r); return -1; }
                return 0;
            }
            libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => return sim::futex_wake(a as usize, c as u32),
            _ => {}
        }
    }
    if n == libc::SYS_getrandom && sim::active() {
        sim::random_bytes(std::slice::from_raw_parts_mut(a as *mut u8, b as usize));
        return b;
    }
    if n == libc::SYS_copy_file_range && sim::active() && crate::fsx::on() {
        return copy_file_range(a as i32, b as *mut i64, c as i32, d as *mut i64, e as usize, f as u32);
    }
    if n == libc::SYS_statx && sim::active() && crate::fsx::on() {
        return crate::fsx::statx(a as i32, b as *const c_char, c as i32, d as u32, e as *mut c_void).into();
    }
    ret(raw::sys6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(_a: c_int, _b: *mut i64, _c: c_int, _d: *mut i64, _n: size_t, _f: c_uint) -> c_long {
    if sim::active() { set_errno(libc::ENOSYS); return -1; }
    ret(raw::sys6(libc::SYS_copy_file_range, _a as i64, _b as i64, _c as i64, _d as i64, _n as i64, _f as i64))
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(b: *mut c_void, n: size_t, f: c_uint) -> ssize_t {
    if sim::active() {
        sim::random_bytes(std::slice::from_raw_parts_mut(b.cast(), n));
        return n as ssize_t;
    }
    ret(raw::sys6(libc::SYS_getrandom, b as i64, n as i64, f as i64, 0, 0, 0)) as ssize_t
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if sim::active() { sim::yield_now(); return 0; }
    ret(raw::sys6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(c: c_int, t: *mut timespec) -> c_int {
    if sim::active() && matches!(c, libc::CLOCK_REALTIME | libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME | libc::CLOCK_REALTIME_COARSE | libc::CLOCK_MONOTONIC_COARSE) {
        let mut n = sim::clock();
        if matches!(c, libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE) { n += REAL_BASE + crate::fsx::clock_skew(); }
        (*t).tv_sec = (n / 1_000_000_000) as i64;
        (*t).tv_nsec = (n % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw::sys6(libc::SYS_clock_gettime, c as i64, t as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(t: *mut libc::timeval, _z: *mut c_void) -> c_int {
    let mut x: timespec = std::mem::zeroed();
    let r = clock_gettime(libc::CLOCK_REALTIME, &mut x);
    if !t.is_null() { (*t).tv_sec = x.tv_sec; (*t).tv_usec = x.tv_nsec / 1000; }
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut x: timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut x);
    if !t.is_null() { *t = x.tv_sec; }
    x.tv_sec
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(t: *const timespec, r: *mut timespec) -> c_int {
    if sim::active() { sim::sleep_ns(ts_ns(t)); return 0; }
    ret(raw::sys6(libc::SYS_nanosleep, t as i64, r as i64, 0, 0, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, fl: c_int, t: *const timespec, r: *mut timespec) -> c_int {
    if sim::active() {
        let n = ts_ns(t);
        let d = if fl & libc::TIMER_ABSTIME != 0 { n.saturating_sub(sim::w().now) } else { n };
        sim::sleep_ns(d);
        return 0;
    }
    -(raw::sys6(libc::SYS_clock_nanosleep, c as i64, fl as i64, t as i64, r as i64, 0, 0) as c_int)
}
type StartFn = extern "C" fn(*mut c_void) -> *mut c_void;
#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut libc::pthread_t, a: *const libc::pthread_attr_t, f: StartFn, arg: *mut c_void) -> c_int {
    let r = real_fn!(c"pthread_create", unsafe extern "C" fn(*mut libc::pthread_t, *const libc::pthread_attr_t, StartFn, *mut c_void) -> c_int);
    if !sim::active() { return r(t, a, f, arg); }
    let s = sim::prepare_thread(f, arg);
    let th = sim::start_th(s);
    let rc = r(t, a, sim::trampoline, s.cast());
    if rc != 0 { sim::abandon(s); } else { sim::thread_created(s, th, *t as u64); }
    rc
}
#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: libc::pthread_t, v: *mut *mut c_void) -> c_int {
    let r = real_fn!(c"pthread_join", unsafe extern "C" fn(libc::pthread_t, *mut *mut c_void) -> c_int);
    if sim::active() { sim::join(t as u64); }
    r(t, v)
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if sim::active() {
        std::ptr::write_bytes(set.cast::<u8>(), 0, n);
        for i in 0..sim::w().cpus as usize { *set.cast::<u8>().add(i / 8) |= 1 << (i % 8); }
        return 0;
    }
    let r = raw::sys6(libc::SYS_sched_getaffinity, pid as i64, n as i64, set as i64, 0, 0, 0);
    if r >= 0 { 0 } else { ret(r) as c_int }
}

#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    sim::at_exit(code);
    let r = real_fn!(c"exit", unsafe extern "C" fn(c_int) -> !);
    r(code)
}

/// Keeps the linker from dropping the definitions above.
pub fn force() -> usize {
    let v: [usize; 14] = [gettimeofday as usize, time as usize, exit as usize, syscall as usize, copy_file_range as usize, getrandom as usize, sched_yield as usize, clock_gettime as usize,
        nanosleep as usize, clock_nanosleep as usize, pthread_create as usize, pthread_join as usize, sched_getaffinity as usize, crate::fsx::force() ^ crate::net::force()];
    std::hint::black_box(v).iter().fold(0, |a, b| a ^ b)
}
