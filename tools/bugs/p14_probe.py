id="p14_probe"; prop="P14"
needs="an I/O error while checking whether a relative reference exists"
breaks="a relative reference that could not be checked is reported as not found instead of as an error"
libs=["hemtt-workspace","hemtt-common"]
deps={"vfs":'"0.12.0"'}
edits=[("libs/workspace/src/path.rs","        let ret_path = self.data.path.parent().join(&path)?;\n        if ret_path.exists()? {\n            Ok(Some(","        let ret_path = self.data.path.parent().join(&path)?;\n        if ret_path.exists().unwrap_or_default() {\n            Ok(Some(")]
demo='''
use vfs::{FileSystem, VfsMetadata, VfsResult, VfsFileType, error::VfsErrorKind};
#[derive(Debug)]
struct Fs;
fn io() -> vfs::VfsError { VfsErrorKind::IoError(std::io::Error::from_raw_os_error(5)).into() }
impl FileSystem for Fs {
    fn read_dir(&self, p: &str) -> VfsResult<Box<dyn Iterator<Item = String> + Send>> { Ok(Box::new(match p { "" => vec!["a.hpp".to_string(), "b.hpp".to_string()], _ => vec![] }.into_iter())) }
    fn create_dir(&self, _: &str) -> VfsResult<()> { Err(io()) }
    fn open_file(&self, _: &str) -> VfsResult<Box<dyn vfs::SeekAndRead + Send>> { Err(io()) }
    fn create_file(&self, _: &str) -> VfsResult<Box<dyn vfs::SeekAndWrite + Send>> { Err(io()) }
    fn append_file(&self, _: &str) -> VfsResult<Box<dyn vfs::SeekAndWrite + Send>> { Err(io()) }
    fn metadata(&self, p: &str) -> VfsResult<VfsMetadata> { Ok(VfsMetadata { file_type: if p.is_empty() { VfsFileType::Directory } else { VfsFileType::File }, len: 0, created: None, modified: None, accessed: None }) }
    fn exists(&self, p: &str) -> VfsResult<bool> { if p == "/b.hpp" { Err(io()) } else { Ok(p.is_empty() || p == "/a.hpp") } }
    fn remove_file(&self, _: &str) -> VfsResult<()> { Err(io()) }
    fn remove_dir(&self, _: &str) -> VfsResult<()> { Err(io()) }
}
fn main() {
    let fs: vfs::VfsPath = Fs.into();
    let w = hemtt_workspace::Workspace::create(fs.clone(), vec![(fs, hemtt_workspace::LayerType::Source)], None, true, &hemtt_common::config::PDriveOption::Disallow).unwrap();
    let at = w.join("a.hpp").unwrap();
    if !at.locate("a.hpp").unwrap().is_some() { println!("a.hpp not found"); std::process::exit(1); }
    if at.locate("b.hpp").is_ok() { println!("an unreadable reference is just missing"); std::process::exit(1); }
}
'''
