//! Raw system calls that bypass the interposed symbols.
use std::arch::asm;
#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
         out("rcx") _, out("r11") _, options(nostack));
    r
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { sys6(libc::SYS_write, fd as i64, b.as_ptr() as i64, b.len() as i64, 0, 0, 0) };
        if r == -(libc::EINTR as i64) || r == -(libc::EAGAIN as i64) { continue; }
        if r <= 0 { return; }
        b = &b[r as usize..];
    }
}
pub fn exit(code: i32) -> ! {
    unsafe { sys6(libc::SYS_exit_group, code as i64, 0, 0, 0, 0, 0); }
    loop {}
}
pub unsafe fn futex_wait(addr: *const u32, val: u32) {
    sys6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0, 0, 0);
}
pub unsafe fn futex_wake(addr: *const u32, n: i32) {
    sys6(libc::SYS_futex, addr as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, n as i64, 0, 0, 0);
}
pub fn mono_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { sys6(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC as i64, &mut ts as *mut _ as i64, 0, 0, 0, 0); }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
