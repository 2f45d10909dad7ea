//! Scratch directories for code that uses real files. All of them lie below one directory per
//! simulator session, which the parent process removes at its end.
use crate::fsx;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

fn base() -> String {
    if let Ok(b) = std::env::var("SIM_SCRATCH") { return b; }
    let root = if std::fs::create_dir_all("/dev/shm/.vsim-probe").is_ok() { let _ = std::fs::remove_dir("/dev/shm/.vsim-probe"); "/dev/shm" } else { "/tmp" };
    format!("{root}/vsim{:010}", std::process::id())
}
/// Called once by every parent process.
pub fn begin() { let b = base(); std::env::set_var("SIM_SCRATCH", b); }
pub fn end() {
    if let Ok(b) = std::env::var("SIM_SCRATCH") { if b.contains("/vsim") { let _ = std::fs::remove_dir_all(b); } }
}
static N: AtomicU64 = AtomicU64::new(0);
pub struct Dir { pub path: String }
impl Dir {
    /// A fresh, empty directory; its name has the same length in every run.
    pub fn new() -> Self {
        fsx::reset();
        let path = format!("{}/{:010}{:08}", base(), std::process::id(), N.fetch_add(1, Relaxed));
        let _ = std::fs::remove_dir_all(&path);
        std::fs::create_dir_all(&path).expect("scratch directory");
        Dir { path }
    }
    pub fn put(&self, rel: &str, data: impl AsRef<[u8]>) {
        let p = format!("{}/{rel}", self.path);
        if let Some(i) = p.rfind('/') { std::fs::create_dir_all(&p[..i]).expect("scratch directory"); }
        std::fs::write(p, data).expect("scratch file");
    }
    pub fn mkdir(&self, rel: &str) { std::fs::create_dir_all(format!("{}/{rel}", self.path)).expect("scratch directory"); }
}
impl Default for Dir { fn default() -> Self { Self::new() } }
impl Drop for Dir { fn drop(&mut self) { fsx::reset(); let _ = std::fs::remove_dir_all(&self.path); } }
