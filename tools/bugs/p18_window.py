id="p18_window"; prop="P18"
needs="a second search for the same file while the first is still looking for it, or a failure of the first lookup"
breaks="a file is marked missing in the shared cache until its lookup has finished, and for good if that lookup fails"
libs=["hemtt-p3d","hemtt-workspace","hemtt-common"]
deps={"vfs":'"0.12.0"'}
edits=[("libs/p3d/src/functions/missing.rs","""        let cache = self.cache.read().expect("failed to lock cache");
        cache.get(file_id).copied()
""","""        // claim what is not known yet, so that others do not look it up as well
        let mut cache = self.cache.write().expect("failed to lock cache");
        let known = cache.get(file_id).copied();
        if known.is_none() {
            cache.insert(file_id.clone(), false);
        }
        known
""")]
demo='''
use std::{sync::{atomic::{AtomicUsize, Ordering}, Arc}, time::SystemTime};
use vfs::{FileSystem, VfsError, VfsMetadata, VfsResult, VfsFileType, error::VfsErrorKind};
/// Two directories and one file; the first look at the file fails.
#[derive(Debug)]
struct Fs(Arc<AtomicUsize>);
impl FileSystem for Fs {
    fn read_dir(&self, p: &str) -> VfsResult<Box<dyn Iterator<Item = String> + Send>> { Ok(Box::new(match p { "" => vec!["t".to_string()], "/t" => vec!["a.tga".to_string()], _ => vec![] }.into_iter())) }
    fn create_dir(&self, _: &str) -> VfsResult<()> { Err(VfsErrorKind::NotSupported.into()) }
    fn open_file(&self, _: &str) -> VfsResult<Box<dyn vfs::SeekAndRead + Send>> { Err(VfsErrorKind::NotSupported.into()) }
    fn create_file(&self, _: &str) -> VfsResult<Box<dyn vfs::SeekAndWrite + Send>> { Err(VfsErrorKind::NotSupported.into()) }
    fn append_file(&self, _: &str) -> VfsResult<Box<dyn vfs::SeekAndWrite + Send>> { Err(VfsErrorKind::NotSupported.into()) }
    fn metadata(&self, p: &str) -> VfsResult<VfsMetadata> {
        if p == "/t/a.tga" { Ok(VfsMetadata { file_type: VfsFileType::File, len: 1, created: None, modified: None, accessed: None::<SystemTime> }) }
        else if p == "" || p == "/t" { Ok(VfsMetadata { file_type: VfsFileType::Directory, len: 0, created: None, modified: None, accessed: None }) }
        else { Err(VfsErrorKind::FileNotFound.into()) }
    }
    fn exists(&self, p: &str) -> VfsResult<bool> {
        if p == "/t/a.tga" && self.0.fetch_add(1, Ordering::SeqCst) == 0 { return Err(VfsError::from(VfsErrorKind::IoError(std::io::Error::other("once")))); }
        Ok(p == "" || p == "/t" || p == "/t/a.tga")
    }
    fn remove_file(&self, _: &str) -> VfsResult<()> { Err(VfsErrorKind::NotSupported.into()) }
    fn remove_dir(&self, _: &str) -> VfsResult<()> { Err(VfsErrorKind::NotSupported.into()) }
}
fn main() {
    let seen = Arc::new(AtomicUsize::new(1));
    let fs: vfs::VfsPath = Fs(seen.clone()).into();
    let w = hemtt_workspace::Workspace::create(fs.clone(), vec![(fs, hemtt_workspace::LayerType::Source)], None, true, &hemtt_common::config::PDriveOption::Disallow).unwrap();
    let mut model = hemtt_p3d::P3D { version: 257, lods: vec![] };
    model.lods.push(hemtt_p3d::LOD { version_major: 28, version_minor: 256, resolution: 1.0, points: vec![], face_normals: vec![], faces: vec![hemtt_p3d::Face { vertices: vec![], flags: 0, texture: "t\\\\a.paa".into(), material: String::new() }], taggs: Default::default() });
    let cache = hemtt_p3d::SearchCache::new();
    seen.store(0, Ordering::SeqCst);
    let first = model.missing(&w, &cache);
    let second = model.missing(&w, &cache);
    if first.is_ok() || !second.as_ref().is_ok_and(|s| s.0.is_empty()) { println!("{:?} then {:?}", first.map_err(|e| e.to_string()), second.map_err(|e| e.to_string())); std::process::exit(1); }
}
'''
