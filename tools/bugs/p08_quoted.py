id="p08_quoted"; prop="P08"
needs="a macro argument with a string that holds a parenthesis that is never closed, followed by another argument"
breaks="parentheses inside of a string count when reading macro arguments"
libs=["hemtt-preprocessor","hemtt-workspace","hemtt-common"]
deps={"vfs":'"0.12.0"'}
edits=[("libs/preprocessor/src/processor/defines.rs","""                if symbol.is_double_quote() {
                    quotes = false;
                }
                arg.push""","""                quotes = !symbol.is_double_quote();
                if symbol.is_left_paren() {
                    depth += 1;
                } else if symbol.is_right_paren() && depth > 0 {
                    depth -= 1;
                }
                arg.push""")]
demo='''
use std::io::Write;
fn main() {
    for (src, want) in [("#define F(A,B) A+B\\nF(\\"x\\",y);\\n", "\\"x\\"+y;"), ("#define F(A,B) A+B\\nF(\\"x(\\",y);\\nF(1,(\\")\\"));\\n", "\\"x(\\"+y;1+(\\")\\");")] {
        let fs: vfs::VfsPath = vfs::MemoryFS::new().into();
        fs.join("a.hpp").unwrap().create_file().unwrap().write_all(src.as_bytes()).unwrap();
        let w = hemtt_workspace::Workspace::create(fs.clone(), vec![(fs, hemtt_workspace::LayerType::Source)], None, true, &hemtt_common::config::PDriveOption::Disallow).unwrap();
        let text = hemtt_preprocessor::Processor::run(&w.join("a.hpp").unwrap()).map(|p| p.as_str().split_whitespace().collect::<String>()).map_err(|e| e.1.to_string());
        if text.as_deref() != Ok(want) { println!("{src}: {text:?}"); std::process::exit(1); }
    }
}
'''
