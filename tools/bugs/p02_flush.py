id="p02_flush"; prop="P02"
needs="a destination that fails (disk full) at the moment the buffered tail of the archive is flushed; everything before it fits"
breaks="WritablePbo::write ignores the result of the last flush, so a destination that runs out of space in the last 8 KiB gives Ok and a truncated archive"
libs=["hemtt-pbo"]
edits=[("libs/pbo/src/write.rs","        buffered_output.flush()?;\n","        // the trailer is tiny, nothing left to report here\n        let _ = buffered_output.flush();\n")]
demo='''
use std::io::{Cursor, Write};
struct Full(Vec<u8>, usize);
impl Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1 - self.0.len());
        if n == 0 && !b.is_empty() { return Err(std::io::Error::from_raw_os_error(28)); }
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let make = || { let mut p = hemtt_pbo::WritablePbo::new(); p.add_file("a.sqf", Cursor::new(b"hint".repeat(40))).unwrap(); p.add_property("prefix", "z"); p };
    let mut all = Vec::new();
    make().write(&mut all, true).unwrap();
    for n in 0..all.len() {
        let mut d = Full(Vec::new(), n);
        if make().write(&mut d, true).is_ok() { println!("success with {} of {} bytes", d.0.len(), all.len()); std::process::exit(1); }
    }
}
'''
