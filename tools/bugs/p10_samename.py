id="p10_samename"; prop="P10"
needs="two included files with the same name in different folders that both use a macro"
breaks="the use of a macro is mapped to the first source with the same file name instead of the same path"
libs=["hemtt-preprocessor","hemtt-workspace","hemtt-common"]
deps={"vfs":'"0.12.0"'}
edits=[("libs/workspace/src/reporting/processed.rs","                    .position(|(s, _)| s.as_str() == path.as_str())\n                    .map_or_else(\n                        || {\n                            let content","                    .position(|(s, _)| s.filename() == path.filename())\n                    .map_or_else(\n                        || {\n                            let content")]
demo='''
use std::io::Write;
fn main() {
    let fs: vfs::VfsPath = vfs::MemoryFS::new().into();
    for d in ["a", "b"] { fs.join(d).unwrap().create_dir().unwrap(); }
    for (f, t) in [("main.hpp", "#define M(x) x x\\n#include \\"a/same.hpp\\"\\n#include \\"b/same.hpp\\"\\n"), ("a/same.hpp", "one = M(1);\\n"), ("b/same.hpp", "\\n\\ntwo = M(2);\\n")] {
        fs.join(f).unwrap().create_file().unwrap().write_all(t.as_bytes()).unwrap();
    }
    let w = hemtt_workspace::Workspace::create(fs.clone(), vec![(fs, hemtt_workspace::LayerType::Source)], None, true, &hemtt_common::config::PDriveOption::Disallow).unwrap();
    let p = hemtt_preprocessor::Processor::run(&w.join("main.hpp").unwrap()).map_err(|e| e.1).unwrap();
    for m in p.raw_mappings() {
        let (path, _) = p.source(m.source()).unwrap();
        if path.as_str() != m.original().path().as_str() { println!("{} is mapped to {}", m.original().path(), path); std::process::exit(1); }
    }
}
'''
