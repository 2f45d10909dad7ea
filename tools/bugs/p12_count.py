id="p12_count"; prop="P12"
needs="a class with more than 127 properties that contains another class"
breaks="the offset of class bodies assumes that the number of properties takes one byte"
libs=["hemtt-config","hemtt-preprocessor","hemtt-workspace","hemtt-common"]
deps={"vfs":'"0.12.0"'}
edits=[("libs/config/src/rapify/class.rs","let mut class_offset = offset + written + properties_len + 4;","let header_len = self.parent().map_or(0, Ident::len) + 1 + 1;\n                let mut class_offset = offset + header_len + properties_len + 4;")]
demo='''
use hemtt_config::rapify::Rapify;
use std::io::Write;
fn check(n: usize) {
    let mut src = String::from("class A {\\n");
    for i in 0..n { src += &format!("p{i} = {i};\\n"); }
    src += "class B { q = 7; };\\n};\\n";
    let fs: vfs::VfsPath = vfs::MemoryFS::new().into();
    fs.join("config.cpp").unwrap().create_file().unwrap().write_all(src.as_bytes()).unwrap();
    let w = hemtt_workspace::Workspace::create(vfs::OverlayFS::new(&[fs.clone()]).into(), vec![(fs, hemtt_workspace::LayerType::Source)], None, true, &hemtt_common::config::PDriveOption::Disallow).unwrap();
    let p = hemtt_preprocessor::Processor::run(&w.join("config.cpp").unwrap()).map_err(|e| e.1).unwrap();
    let c = hemtt_config::parse(None, &p).unwrap();
    let mut out = Vec::new();
    c.config().rapify(&mut out, 0).unwrap();
    let at = out.windows(3).rposition(|w| w == b"\\0B\\0").unwrap() + 3;
    let off = u32::from_le_bytes(out[at..at + 4].try_into().unwrap()) as usize;
    // B: no parent, one entry, number, q = 7
    if out.get(off..off + 11) != Some(b"\\0\\x01\\x01\\x02q\\0\\x07\\0\\0\\0".iter().copied().chain([out[off + 10]]).collect::<Vec<_>>().as_slice()) { println!("class B is not at its offset with {n} properties: {:?}", out.get(off..off + 11)); std::process::exit(1); }
}
fn main() { check(3); check(200); }
'''
