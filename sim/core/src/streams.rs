//! Simulated streams handed to the code under test.
use crate::sim::{self, fault};
use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fail {
    /// an I/O error
    Error,
    /// the data simply ends (reads) / the medium accepts nothing more (writes: Ok(0))
    End,
}
/// What a stream does wrong.
#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// 1 in n transfers is short (0: never)
    pub short: u64,
    /// 1 in n operations is interrupted
    pub eintr: u64,
    /// fail once this many bytes went through
    pub fail_at_byte: Option<(u64, FailOf)>,
    /// fail the nth operation (any of read/write/seek/flush), once
    pub fail_at_op: Option<u64>,
    pub fail_flush: bool,
    /// a failure is permanent
    pub sticky: bool,
}
pub type FailOf = Fail;

impl Plan {
    /// legal but inconvenient behaviour only
    pub fn benign() -> Self {
        let mode = fault(4);
        Plan { short: [0, 2, 3, 8][mode as usize], eintr: [0, 0, 5, 3][fault(4) as usize], ..Plan::default() }
    }
    /// exactly one failure somewhere in `len` bytes, plus benign misbehaviour
    pub fn failing(len: u64, write: bool) -> Self {
        let mut p = Plan::benign();
        p.sticky = fault(2) == 0;
        match fault(if write { 5 } else { 4 }) {
            0 | 1 => p.fail_at_byte = Some((fault(len.max(1)), Fail::Error)),
            2 => p.fail_at_byte = Some((fault(len.max(1)), Fail::End)),
            3 => p.fail_at_op = Some(fault(24)),
            _ => p.fail_flush = true,
        }
        p
    }
}

#[derive(Debug, Default, Clone)]
pub struct Stats { pub ops: u64, pub hard: u64, pub bytes: u64, pub last_was_flush: bool, pub flush_ok: u64, pub dirty: bool }

fn eio() -> io::Error { io::Error::other("simulated I/O error") }
fn enospc() -> io::Error { io::Error::from_raw_os_error(libc::ENOSPC) }

struct Core { plan: Plan, st: Stats, dead: bool }
impl Core {
    /// common prologue; Err means the operation fails
    fn op(&mut self, name: &'static str) -> io::Result<()> {
        sim::io_point();
        let n = self.st.ops;
        self.st.ops += 1;
        if self.dead && self.plan.sticky { self.st.hard += 1; return Err(eio()); }
        if self.plan.fail_at_op == Some(n) {
            self.st.hard += 1;
            self.dead = true;
            sim::fired("stream-op-error");
            sim::log(|| format!("stream: {name} op {n} fails"));
            return Err(eio());
        }
        Ok(())
    }
    fn interrupted(&mut self) -> io::Result<()> {
        if self.plan.eintr > 0 && fault(self.plan.eintr) == 1 {
            sim::fired("stream-interrupted");
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        Ok(())
    }
    /// how much of n bytes at stream offset `at` goes through: Ok(0) only for Fail::End
    fn amount(&mut self, at: u64, n: usize, write: bool) -> io::Result<usize> {
        let mut n = n;
        if let Some((lim, how)) = self.plan.fail_at_byte {
            if at >= lim && !(self.dead && !self.plan.sticky) {
                self.dead = true;
                self.st.hard += 1;
                match how {
                    Fail::Error => { sim::fired(if write { "stream-enospc" } else { "stream-read-error" });
                        sim::log(|| format!("stream: fails at byte {at}")); return Err(if write { enospc() } else { eio() }); }
                    Fail::End => { sim::fired(if write { "stream-write-zero" } else { "stream-truncated" });
                        sim::log(|| format!("stream: ends at byte {at}")); return Ok(0); }
                }
            }
            if at < lim { n = n.min((lim - at) as usize); }
        }
        if n > 1 && self.plan.short > 0 && fault(self.plan.short) == 1 {
            sim::fired("stream-short");
            n = 1 + fault(n as u64 - 1).min(if fault(2) == 0 { 7 } else { u64::MAX }) as usize;
        }
        Ok(n)
    }
}

/// A readable, seekable stored object. `End` failures hide the tail (short file).
pub struct SimReader { data: Arc<Vec<u8>>, pos: u64, core: Core, buf: Vec<u8>, shared: Option<Arc<Mutex<Stats>>> }
impl SimReader {
    pub fn new(data: Arc<Vec<u8>>, plan: Plan) -> Self {
        SimReader { data, pos: 0, core: Core { plan, st: Stats::default(), dead: false }, buf: vec![], shared: None }
    }
    pub fn plain(data: &[u8]) -> Self { Self::new(Arc::new(data.to_vec()), Plan::default()) }
    pub fn with_stats(mut self, s: Arc<Mutex<Stats>>) -> Self { self.shared = Some(s); self }
    pub fn stats(&self) -> &Stats { &self.core.st }
    fn publish(&self) {
        if let Some(s) = &self.shared { let _g = sim::hold(); *s.lock().unwrap() = self.core.st.clone(); }
    }
}
impl Read for SimReader {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let r = (|| {
            self.core.op("read")?;
            if b.is_empty() { return Ok(0); }
            self.core.interrupted()?;
            let at = self.pos.min(self.data.len() as u64);
            let left = self.data.len() - at as usize;
            if left == 0 { return Ok(0); }
            let n = self.core.amount(at, b.len().min(left), false)?;
            b[..n].copy_from_slice(&self.data[at as usize..at as usize + n]);
            self.pos = at + n as u64;
            self.core.st.bytes += n as u64;
            Ok(n)
        })();
        self.publish();
        r
    }
}
impl Seek for SimReader {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let r = (|| {
            self.core.op("seek")?;
            let n = match s {
                SeekFrom::Start(n) => n as i128,
                SeekFrom::Current(d) => self.pos as i128 + d as i128,
                SeekFrom::End(d) => self.data.len() as i128 + d as i128,
            };
            if n < 0 { return Err(io::Error::from(io::ErrorKind::InvalidInput)); }
            self.buf.clear();
            self.pos = n as u64;
            Ok(self.pos)
        })();
        self.publish();
        r
    }
}
impl BufRead for SimReader {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.buf.is_empty() {
            let mut b = vec![0u8; 512];
            let n = self.read(&mut b)?;
            b.truncate(n);
            self.buf = b;
        }
        Ok(&self.buf)
    }
    fn consume(&mut self, n: usize) { self.buf.drain(..n); }
}

#[derive(Default, Debug)]
pub struct Sink { pub data: Vec<u8>, pub stats: Stats }
/// A writable, seekable medium; what it accepted is in the shared `Sink`.
pub struct SimWriter { sink: Arc<Mutex<Sink>>, pos: u64, core: Core }
impl SimWriter {
    pub fn new(plan: Plan) -> (Self, Arc<Mutex<Sink>>) {
        let s = Arc::new(Mutex::new(Sink::default()));
        (SimWriter { sink: s.clone(), pos: 0, core: Core { plan, st: Stats::default(), dead: false } }, s)
    }
    fn publish(&self) { let _g = sim::hold(); self.sink.lock().unwrap().stats = self.core.st.clone(); }
}
impl Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let r = (|| {
            self.core.op("write")?;
            if b.is_empty() { return Ok(0); }
            self.core.interrupted()?;
            let n = self.core.amount(self.pos, b.len(), true)?;
            let _g = sim::hold();
            let mut s = self.sink.lock().unwrap();
            let at = self.pos as usize;
            if s.data.len() < at { s.data.resize(at, 0); }
            let over = n.min(s.data.len() - at);
            s.data[at..at + over].copy_from_slice(&b[..over]);
            s.data.extend_from_slice(&b[over..n]);
            self.pos += n as u64;
            self.core.st.bytes += n as u64;
            self.core.st.dirty = true;
            Ok(n)
        })();
        self.publish();
        r
    }
    fn flush(&mut self) -> io::Result<()> {
        let r = (|| {
            self.core.op("flush")?;
            if self.core.plan.fail_flush {
                self.core.st.hard += 1;
                sim::fired("stream-flush-error");
                return Err(eio());
            }
            self.core.st.flush_ok += 1;
            self.core.st.dirty = false;
            Ok(())
        })();
        self.publish();
        r
    }
}
impl Seek for SimWriter {
    fn seek(&mut self, s: SeekFrom) -> io::Result<u64> {
        let r = (|| {
            self.core.op("seek")?;
            let len = self.sink.lock().unwrap().data.len();
            let n = match s {
                SeekFrom::Start(n) => n as i128,
                SeekFrom::Current(d) => self.pos as i128 + d as i128,
                SeekFrom::End(d) => len as i128 + d as i128,
            };
            if n < 0 { return Err(io::Error::from(io::ErrorKind::InvalidInput)); }
            self.pos = n as u64;
            Ok(self.pos)
        })();
        self.publish();
        r
    }
}

/// Storage damage applied to bytes at rest. Returns what was done.
pub fn damage(data: &mut Vec<u8>) -> String {
    if data.is_empty() { data.extend_from_slice(&[0xff; 3]); return "appended to empty".into(); }
    let len = data.len() as u64;
    // half of the positions are biased to the first kilobyte, where headers live
    let at = |l: u64| if fault(2) == 0 { fault(l) } else { fault(l.min(1024)) } as usize;
    match fault(9) {
        0 => { let n = fault(len) as usize; data.truncate(n); sim::fired("damage-truncate"); format!("truncated to {n}") }
        1 => { let i = at(len); let b = fault(8); data[i] ^= 1 << b; sim::fired("damage-bitflip"); format!("bit {b} of byte {i} flipped") }
        2 => { let i = at(len); let v = [0u8, 0xff, 0x7f, 0x80, 1][fault(5) as usize]; data[i] = v; sim::fired("damage-byte"); format!("byte {i} = {v:#x}") }
        3 => { let i = at(len); let n = (1 + fault(64) as usize).min(data.len() - i); data[i..i + n].fill(0); sim::fired("damage-zero-block"); format!("{n} bytes zeroed at {i}") }
        4 => { let i = at(len); let n = (1 + fault(64) as usize).min(data.len() - i); data[i..i + n].fill(0xff); sim::fired("damage-ones-block"); format!("{n} bytes 0xff at {i}") }
        5 => { let i = at(len); let n = (1 + fault(32) as usize).min(data.len() - i); let c = data[i..i + n].to_vec(); for (k, b) in c.into_iter().enumerate() { data.insert(i + k, b); } sim::fired("damage-dup-block"); format!("{n} bytes at {i} duplicated") }
        6 => { let i = at(len); let n = (1 + fault(32) as usize).min(data.len() - i); data.drain(i..i + n); sim::fired("damage-lost-block"); format!("{n} bytes lost at {i}") }
        7 => { let i = at(len); let n = 1 + fault(16) as usize; for k in 0..n { let b = fault(256) as u8; if i + k < data.len() { data[i + k] = b; } else { data.push(b); } } sim::fired("damage-garbage"); format!("{n} garbage bytes at {i}") }
        _ => { let i = at(len) & !3; let v: u32 = [u32::MAX, 0x7fff_ffff, 0x8000_0000, 0x1000_0000, 0][fault(5) as usize]; for (k, b) in v.to_le_bytes().into_iter().enumerate() { if i + k < data.len() { data[i + k] = b; } } sim::fired("damage-word"); format!("word at {i} = {v:#x}") }
    }
}
