//! Global allocator: a preemption point at (almost) every instruction sequence of the code under
//! test, and a bound on memory so that a corrupt length field becomes a verdict, not an OOM.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static CAP_ONE: AtomicUsize = AtomicUsize::new(usize::MAX);
pub static CAP_LIVE: AtomicUsize = AtomicUsize::new(usize::MAX);

#[inline]
fn enter(size: usize) {
    let live = LIVE.fetch_add(size, Relaxed) + size;
    if size > (64 << 10) && crate::sim::active() {
        if live > PEAK.load(Relaxed) { PEAK.store(live, Relaxed); }
        if size > CAP_ONE.load(Relaxed) || live > CAP_LIVE.load(Relaxed) {
            if std::env::var_os("SIM_BT").is_some() {
                CAP_ONE.store(usize::MAX, Relaxed);
                CAP_LIVE.store(usize::MAX, Relaxed);
                let _g = crate::sim::hold();
                eprintln!("{}", std::backtrace::Backtrace::force_capture());
            }
            crate::sim::fatal("memory", &format!("allocation of {size} bytes with {live} live bytes"));
        }
    }
    crate::sim::alloc_point();
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { enter(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { enter(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size(), Relaxed); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        enter(n);
        LIVE.fetch_sub(l.size(), Relaxed);
        System.realloc(p, l, n)
    }
}
/// Limit single allocations and growth of live memory (relative to now) until reset.
pub fn limit(one: usize, live: usize) {
    CAP_ONE.store(one, Relaxed);
    CAP_LIVE.store(LIVE.load(Relaxed).saturating_add(live), Relaxed);
}
pub fn unlimit() { CAP_ONE.store(usize::MAX, Relaxed); CAP_LIVE.store(usize::MAX, Relaxed); }

/// Guarded buffers: `len` usable bytes directly before (`tail`) or after an inaccessible page, so that
/// any access outside the buffer on that side ends the run with a segmentation fault.
pub struct Fenced { base: *mut u8, total: usize, pub ptr: *mut u8, pub len: usize }
impl Fenced {
    pub fn new(len: usize, tail: bool) -> Self {
        let _g = crate::sim::hold();
        let body = (len + 4095) / 4096 * 4096;
        let total = body + 8192;
        unsafe {
            let base = libc::mmap(std::ptr::null_mut(), total, libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0) as *mut u8;
            assert!(base as isize != -1);
            if body > 0 { assert!(libc::mprotect(base.add(4096).cast(), body, libc::PROT_READ | libc::PROT_WRITE) == 0); }
            let ptr = if tail { base.add(4096 + body - len) } else { base.add(4096) };
            let mut f = Fenced { base, total, ptr, len };
            f.slack(|s| s.fill(0xA5));
            f
        }
    }
    pub fn of(data: &[u8], tail: bool) -> Self { let mut f = Self::new(data.len(), tail); f.get().copy_from_slice(data); f }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.ptr, self.len) } }
    /// the accessible bytes that do not belong to the buffer
    fn slack<R>(&mut self, f: impl FnOnce(&mut [u8]) -> R) -> R {
        unsafe {
            let start = self.base.add(4096);
            let end = self.base.add(self.total - 4096);
            if self.ptr > start { f(std::slice::from_raw_parts_mut(start, self.ptr as usize - start as usize)) }
            else { let e = self.ptr.add(self.len); f(std::slice::from_raw_parts_mut(e, end as usize - e as usize)) }
        }
    }
    /// has anything next to the buffer been written?
    pub fn intact(&mut self) -> bool { self.slack(|s| s.iter().all(|b| *b == 0xA5)) }
}
impl Drop for Fenced { fn drop(&mut self) { unsafe { libc::munmap(self.base.cast(), self.total); } } }

/// Direct malloc calls of at least this size fail from the nth on (test seam for C-style allocations).
static MALLOC_MIN: AtomicUsize = AtomicUsize::new(usize::MAX);
static MALLOC_LEFT: AtomicUsize = AtomicUsize::new(0);
pub fn fail_malloc(min: usize, nth: usize) { MALLOC_LEFT.store(nth, Relaxed); MALLOC_MIN.store(min, Relaxed); }
pub fn heal_malloc() { MALLOC_MIN.store(usize::MAX, Relaxed); }
extern "C" { fn __libc_malloc(n: usize) -> *mut libc::c_void; }
#[no_mangle]
pub unsafe extern "C" fn malloc(n: usize) -> *mut libc::c_void {
    if n >= MALLOC_MIN.load(Relaxed) && crate::sim::active() {
        if MALLOC_LEFT.load(Relaxed) == 0 {
            crate::sim::fired("allocation-failure");
            crate::interpose::set_errno(libc::ENOMEM);
            return std::ptr::null_mut();
        }
        MALLOC_LEFT.fetch_sub(1, Relaxed);
    }
    __libc_malloc(n)
}
