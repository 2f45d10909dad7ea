id="p16_empty"; prop="P16"
needs="a model with a named tag that has no data"
breaks="tags without data are left out when writing a model"
libs=["hemtt-p3d"]
edits=[("libs/p3d/src/lod.rs","        for (name, buffer) in &self.taggs {\n","        for (name, buffer) in self.taggs.iter().filter(|(_, b)| !b.is_empty()) {\n")]
demo='''
use hemtt_p3d::{LOD, P3D};
fn main() {
    let mut lod = LOD { version_major: 28, version_minor: 256, resolution: 1.0, points: vec![], face_normals: vec![], faces: vec![], taggs: Default::default() };
    lod.taggs.insert("#Mass#".into(), Box::new([1, 2, 3, 4]));
    lod.taggs.insert("marker".into(), Box::new([]));
    let mut bytes = Vec::new();
    P3D { version: 257, lods: vec![lod] }.write(&mut bytes).unwrap();
    let got = P3D::read(&mut std::io::Cursor::new(bytes)).unwrap();
    let names: Vec<_> = got.lods[0].taggs.keys().cloned().collect();
    if names != ["#Mass#", "marker"] { println!("{names:?}"); std::process::exit(1); }
}
'''
