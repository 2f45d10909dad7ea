//! A simulated `vfs::FileSystem`: in-memory tree, seeded listing order, fault-injecting reads.
use crate::sim::{self, env};
use crate::streams::{Plan, SimReader};
use std::collections::BTreeMap;
use std::io::{self, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};
use vfs::{error::VfsErrorKind, FileSystem, SeekAndRead, SeekAndWrite, VfsError, VfsFileType, VfsMetadata, VfsResult};

pub const OPEN: u32 = 1;
pub const META: u32 = 2;
pub const EXISTS: u32 = 4;
pub const LIST: u32 = 8;
pub const CREATE: u32 = 16;
pub const READ: u32 = 32;

#[derive(Clone, Debug)]
pub struct VFault { pub mask: u32, pub nth: u64, pub sticky: bool, pub path: Option<String>, pub seen: u64, pub fired: u64, pub plan: Option<Plan> }

/// Something that happens to the tree when the operation counter reaches `at`.
#[derive(Clone, Debug)]
pub enum Change { Remove(String), Write(String, Vec<u8>) }

#[derive(Default, Debug)]
pub struct St {
    pub files: BTreeMap<String, Arc<Vec<u8>>>,
    pub dirs: std::collections::BTreeSet<String>,
    pub faults: Vec<VFault>,
    pub changes: Vec<(u64, Change)>,
    pub shuffle: bool,
    pub benign: Option<Plan>,
    pub ops: u64,
    pub counts: BTreeMap<u32, u64>,
    pub opened: Vec<String>,
    pub hard: u64,
}
#[derive(Clone, Debug, Default)]
pub struct SimFs { pub st: Arc<Mutex<St>> }

fn ioerr() -> VfsError { VfsError::from(VfsErrorKind::IoError(io::Error::other("simulated I/O error"))) }
fn nf() -> VfsError { VfsError::from(VfsErrorKind::FileNotFound) }

impl SimFs {
    pub fn new() -> Self { let f = Self::default(); f.with(|s| { s.dirs.insert(String::new()); }); f }
    pub fn with<R>(&self, f: impl FnOnce(&mut St) -> R) -> R {
        let _g = if sim::active() { Some(sim::hold()) } else { None };
        f(&mut self.st.lock().unwrap_or_else(std::sync::PoisonError::into_inner))
    }
    pub fn put(&self, path: &str, data: impl Into<Vec<u8>>) {
        let path = format!("/{}", path.trim_start_matches('/'));
        self.with(|s| {
            let mut p = path.as_str();
            while let Some(i) = p.rfind('/') { p = &p[..i]; s.dirs.insert(p.to_string()); }
            s.files.insert(path.clone(), Arc::new(data.into()));
        });
    }
    pub fn mkdir(&self, path: &str) {
        let path = format!("/{}", path.trim_start_matches('/'));
        self.with(|s| { s.dirs.insert(path.clone()); let mut p = path.as_str(); while let Some(i) = p.rfind('/') { p = &p[..i]; s.dirs.insert(p.to_string()); } });
    }
    pub fn get(&self, path: &str) -> Option<Vec<u8>> { self.with(|s| s.files.get(path).map(|d| d.to_vec())) }
    /// Count, maybe fail; returns a read plan for opens when a read fault is due.
    fn op(&self, class: u32, path: &str) -> VfsResult<Option<Plan>> {
        sim::io_point();
        self.with(|s| {
            s.ops += 1;
            *s.counts.entry(class).or_insert(0) += 1;
            sim::note(path.as_bytes());
            let n = s.ops;
            let due: Vec<Change> = s.changes.iter().filter(|c| c.0 == n).map(|c| c.1.clone()).collect();
            for c in due {
                match c {
                    Change::Remove(p) => { if s.files.remove(&p).is_some() { sim::fired("vfs-file-vanishes"); sim::log(|| format!("vfs: {p} vanishes")); } }
                    Change::Write(p, d) => { sim::fired("vfs-file-changes"); sim::log(|| format!("vfs: {p} changes to {:?}", String::from_utf8_lossy(&d))); s.files.insert(p, Arc::new(d)); }
                }
            }
            let mut plan = None;
            let mut hit = false;
            for f in &mut s.faults {
                let want = if class == OPEN { f.mask & (OPEN | READ) } else { f.mask & class };
                if want == 0 || f.path.as_ref().is_some_and(|p| !path.contains(p.as_str())) { continue; }
                let k = f.seen;
                f.seen += 1;
                if k == f.nth || (f.sticky && k > f.nth) {
                    f.fired += 1;
                    if class == OPEN && f.mask & READ != 0 { plan = f.plan.clone(); } else { hit = true; }
                }
            }
            sim::log(|| format!("vfs: {} {path}{}", match class { OPEN => "open", META => "metadata", EXISTS => "exists", LIST => "list", CREATE => "create", _ => "?" }, if hit { " -> I/O error" } else { "" }));
            if hit {
                s.hard += 1;
                sim::fired(match class { OPEN => "vfs-open-error", META => "vfs-stat-error", EXISTS => "vfs-exists-error", LIST => "vfs-list-error", _ => "vfs-create-error" });
                return Err(ioerr());
            }
            Ok(plan)
        })
    }
}
struct W { fs: SimFs, path: String, data: Vec<u8>, pos: usize }
impl Write for W {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.data.len() < self.pos { self.data.resize(self.pos, 0); }
        let over = b.len().min(self.data.len() - self.pos);
        self.data[self.pos..self.pos + over].copy_from_slice(&b[..over]);
        self.data.extend_from_slice(&b[over..]);
        self.pos += b.len();
        let d = self.data.clone();
        self.fs.with(|s| { s.files.insert(self.path.clone(), Arc::new(d)); });
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Seek for W {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        self.pos = match s { SeekFrom::Start(n) => n as usize, SeekFrom::Current(d) => (self.pos as i64 + d) as usize, SeekFrom::End(d) => (self.data.len() as i64 + d) as usize };
        Ok(self.pos as u64)
    }
}
impl FileSystem for SimFs {
    fn read_dir(&self, path: &str) -> VfsResult<Box<dyn Iterator<Item = String> + Send>> {
        self.op(LIST, path)?;
        let mut v: Vec<String> = self.with(|s| {
            if !s.dirs.contains(path) { return Err(nf()); }
            let pre = format!("{path}/");
            let mut v: Vec<String> = s.files.keys().chain(s.dirs.iter())
                .filter_map(|f| f.strip_prefix(&pre)).filter(|r| !r.is_empty() && !r.contains('/')).map(str::to_string).collect();
            v.sort();
            v.dedup();
            Ok(v)
        })?;
        if self.with(|s| s.shuffle) {
            for i in (1..v.len()).rev() { let j = i - env(i as u64 + 1) as usize; v.swap(i, j); }
        }
        Ok(Box::new(v.into_iter()))
    }
    fn create_dir(&self, path: &str) -> VfsResult<()> {
        self.op(CREATE, path)?;
        self.with(|s| { if s.files.contains_key(path) { return Err(VfsErrorKind::FileExists.into()); } if !s.dirs.insert(path.to_string()) { return Err(VfsErrorKind::DirectoryExists.into()); } Ok(()) })
    }
    fn open_file(&self, path: &str) -> VfsResult<Box<dyn SeekAndRead + Send>> {
        let plan = self.op(OPEN, path)?;
        let d = self.with(|s| { s.opened.push(path.to_string()); s.files.get(path).cloned() }).ok_or_else(nf)?;
        let plan = plan.or_else(|| self.with(|s| s.benign.clone())).unwrap_or_default();
        Ok(Box::new(SimReader::new(d, plan)))
    }
    fn create_file(&self, path: &str) -> VfsResult<Box<dyn SeekAndWrite + Send>> {
        self.op(CREATE, path)?;
        self.with(|s| s.files.insert(path.to_string(), Arc::default()));
        Ok(Box::new(W { fs: self.clone(), path: path.to_string(), data: vec![], pos: 0 }))
    }
    fn append_file(&self, path: &str) -> VfsResult<Box<dyn SeekAndWrite + Send>> {
        self.op(CREATE, path)?;
        let data = self.with(|s| s.files.get(path).map(|d| d.to_vec())).ok_or_else(nf)?;
        let pos = data.len();
        Ok(Box::new(W { fs: self.clone(), path: path.to_string(), data, pos }))
    }
    fn metadata(&self, path: &str) -> VfsResult<VfsMetadata> {
        self.op(META, path)?;
        self.with(|s| {
            let (file_type, len) = if let Some(d) = s.files.get(path) { (VfsFileType::File, d.len() as u64) } else if s.dirs.contains(path) { (VfsFileType::Directory, 0) } else { return Err(nf()); };
            Ok(VfsMetadata { file_type, len, created: None, modified: None, accessed: None })
        })
    }
    fn exists(&self, path: &str) -> VfsResult<bool> {
        self.op(EXISTS, path)?;
        Ok(self.with(|s| s.files.contains_key(path) || s.dirs.contains(path)))
    }
    fn remove_file(&self, path: &str) -> VfsResult<()> { self.op(CREATE, path)?; self.with(|s| s.files.remove(path)).map(|_| ()).ok_or_else(nf) }
    fn remove_dir(&self, path: &str) -> VfsResult<()> { self.op(CREATE, path)?; if self.with(|s| s.dirs.remove(path)) { Ok(()) } else { Err(nf()) } }
}
