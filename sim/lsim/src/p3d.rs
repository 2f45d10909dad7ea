//! P16-P18: models.
use crate::util::*;
use hemtt_p3d::{Face, Point, SearchCache, Vertex, LOD, P3D};
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};
use simcore::driver::{bad, norm, Info, Property, Scenario, Verdict, Violation};
use simcore::sim::{self, Opts};
use simcore::simvfs::{self, SimFs, VFault};
use simcore::streams::{damage, Fail, Plan, SimWriter};
use simcore::tape::{hash_bytes, mix};
use simcore::{ensure, env, fault, faultp, gen, genp};
use std::collections::BTreeSet;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub struct MFace { verts: Vec<[u32; 4]>, flags: u32, tex: String, mat: String }
#[derive(Clone, Debug, PartialEq)]
pub struct MLod { ver: [u32; 2], res: u32, points: Vec<[u32; 4]>, normals: Vec<[u32; 3]>, faces: Vec<MFace>, taggs: Vec<(String, Vec<u8>)> }
#[derive(Clone, Debug, PartialEq)]
pub struct Model { ver: u32, lods: Vec<MLod> }

fn fl() -> u32 { let v = gen(1 << 20) as u32; if v == 0 { 0 } else if v % 16 == 1 { [0x7fc0_0000, 0xff80_0000, 0x8000_0000, 1, 0x7f7f_ffff][(v / 16 % 5) as usize] } else { f32::to_bits(v as f32 / 97.0 - 3000.0) } }
fn tex() -> String { pick(&["", "a\\data\\x_co.paa", "z\\mod\\addons\\main\\data\\ünï.paa", "#(argb,8,8,3)color(1,1,1,1)", "\\abs\\y.rvmat"]).to_string() }
fn model() -> Model {
    let n = gen(4);
    Model { ver: pick(&[257, 0, 1]), lods: (0..n).map(|_| {
        let (np, nn, nf) = (gen(9), gen(5), gen(7));
        let mut taggs: Vec<(String, Vec<u8>)> = vec![];
        for _ in 0..gen(5) {
            let name = pick(&["#SharpEdges#", "#Property#", "#UVSet#", "#Mass#", "camo", "proxy:\\a3\\x.001", "sel é"]).to_string();
            if taggs.iter().any(|t| t.0 == name) { continue; }
            let n = pick(&[0usize, 8, 1, 128, 5, 9000]);
            taggs.push((name, bytes(n)));
        }
        MLod { ver: [28, 256], res: fl(), points: (0..np).map(|_| [fl(), fl(), fl(), gen(1 << 16) as u32]).collect(), normals: (0..nn).map(|_| [fl(), fl(), fl()]).collect(),
            faces: (0..nf).map(|_| MFace { verts: (0..3 + gen(2)).map(|_| [gen(1 << 16) as u32, gen(1 << 16) as u32, fl(), fl()]).collect(), flags: gen(1 << 32) as u32, tex: tex(), mat: tex() }).collect(), taggs }
    }).collect() }
}
pub fn enc(m: &Model) -> Vec<u8> {
    let mut o = b"MLOD".to_vec();
    let w = |o: &mut Vec<u8>, x: u32| o.extend(x.to_le_bytes());
    let z = |o: &mut Vec<u8>, s: &str| { o.extend(s.as_bytes()); o.push(0); };
    w(&mut o, m.ver);
    w(&mut o, m.lods.len() as u32);
    for l in &m.lods {
        o.extend(b"P3DM");
        for x in [l.ver[0], l.ver[1], l.points.len() as u32, l.normals.len() as u32, l.faces.len() as u32, 0] { w(&mut o, x); }
        for p in &l.points { for x in p { w(&mut o, *x); } }
        for p in &l.normals { for x in p { w(&mut o, *x); } }
        for f in &l.faces {
            w(&mut o, f.verts.len() as u32);
            for i in 0..4 { for x in f.verts.get(i).unwrap_or(&[0; 4]) { w(&mut o, *x); } }
            w(&mut o, f.flags);
            z(&mut o, &f.tex);
            z(&mut o, &f.mat);
        }
        o.extend(b"TAGG");
        for (n, d) in &l.taggs { o.push(1); z(&mut o, n); w(&mut o, d.len() as u32); o.extend(d); }
        o.push(1);
        z(&mut o, "#EndOfFile#");
        w(&mut o, 0);
        w(&mut o, l.res);
    }
    o
}
fn of(p: &P3D) -> Model {
    let b = f32::to_bits;
    Model { ver: p.version, lods: p.lods.iter().map(|l| MLod { ver: [l.version_major, l.version_minor], res: b(l.resolution),
        points: l.points.iter().map(|p| [b(p.coords.0), b(p.coords.1), b(p.coords.2), p.flags]).collect(),
        normals: l.face_normals.iter().map(|n| [b(n.0), b(n.1), b(n.2)]).collect(),
        faces: l.faces.iter().map(|f| MFace { verts: f.vertices.iter().map(|v| [v.point_index, v.normal_index, b(v.uv.0), b(v.uv.1)]).collect(), flags: f.flags, tex: f.texture.clone(), mat: f.material.clone() }).collect(),
        taggs: l.taggs.iter().map(|(k, v)| (k.clone(), v.to_vec())).collect() }).collect() }
}
fn lib(m: &Model) -> P3D {
    let f = f32::from_bits;
    P3D { version: m.ver, lods: m.lods.iter().map(|l| LOD { version_major: l.ver[0], version_minor: l.ver[1], resolution: f(l.res),
        points: l.points.iter().map(|p| Point { coords: (f(p[0]), f(p[1]), f(p[2])), flags: p[3] }).collect(),
        face_normals: l.normals.iter().map(|n| (f(n[0]), f(n[1]), f(n[2]))).collect(),
        faces: l.faces.iter().map(|m| Face { vertices: m.verts.iter().map(|v| Vertex { point_index: v[0], normal_index: v[1], uv: (f(v[2]), f(v[3])) }).collect(), flags: m.flags, texture: m.tex.clone(), material: m.mat.clone() }).collect(),
        taggs: l.taggs.iter().map(|(k, v)| (k.clone(), v.clone().into_boxed_slice())).collect() }).collect() }
}
fn show(m: &Model) -> String { m.lods.iter().map(|l| format!("[{}p {}n {}f {}t]", l.points.len(), l.normals.len(), l.faces.len(), l.taggs.len())).collect() }
fn info(m: &Model, e: &[u8], nt: bool) -> Verdict { Ok(Info { nontrivial: nt && !m.lods.is_empty(), key: hash_bytes(7, e), sample: Some(format!("{} lods, {} bytes {}", m.lods.len(), e.len(), show(m))) }) }
fn rd(b: &[u8], p: Plan) -> Result<Result<P3D, hemtt_p3d::Error>, Violation> { run("reading a model", || P3D::read(&mut reader(b, p))) }

fn p16_roundtrip() -> Verdict {
    let m = model();
    let e = enc(&m);
    let p = must("reading a model", || P3D::read(&mut reader(&e, Plan::benign())))?;
    ensure!(of(&p) == m, "the model read differs from the stored one", "{:?} vs {:?}", of(&p), m);
    let (mut w, sink) = SimWriter::new(Plan::benign());
    must("writing a model", || if genp(1, 2) { p.write(&mut w) } else { lib(&m).write(&mut w) })?;
    let s = sink.lock().unwrap();
    ensure!(s.data == e, "the written model differs", "{}", diff(&s.data, &e));
    info(&m, &e, true)
}
fn p16_write_fault() -> Verdict {
    let m = model();
    let e = enc(&m);
    let plan = Plan::failing(e.len() as u64 + 2, true);
    let ff = plan.fail_flush;
    let (mut w, sink) = SimWriter::new(plan);
    let r = run("writing a model to a failing destination", || lib(&m).write(&mut w))?;
    let s = sink.lock().unwrap();
    if r.is_ok() {
        ensure!(s.data == e, "writing a model reports success but the stored model is incomplete", "{}; {:?}", diff(&s.data, &e), s.stats);
        ensure!(!(ff && s.stats.hard > 0), "writing a model reports success although the flush failed", "{:?}", s.stats);
    }
    info(&m, &e, r.is_err())
}
fn p16_read_fault() -> Verdict {
    let m = model();
    let e = enc(&m);
    let mut plan = Plan::benign();
    plan.sticky = faultp(1, 2);
    match fault(4) { 0 => plan.fail_at_byte = Some((fault(e.len() as u64), Fail::Error)), 1 => plan.fail_at_byte = Some((fault(e.len() as u64), Fail::End)), 2 => plan.fail_at_op = Some(fault(4)), _ => { plan.short = 2; plan.fail_at_op = Some(fault(e.len() as u64)); } }
    let r = rd(&e, plan)?;
    if let Ok(p) = &r { ensure!(of(p) == m, "a failing read gives a different model", "{:?} vs {:?}", of(p), m); }
    info(&m, &e, r.is_err())
}
fn p17_p3d() -> Verdict {
    let m = model();
    let mut e = enc(&m);
    let mut what = vec![];
    for _ in 0..1 + fault(2) { what.push(damage(&mut e)); }
    simcore::alloc::limit((2 << 20) + 64 * e.len(), (8 << 20) + 128 * e.len());
    let r = rd(&e, Plan::benign())?;
    if let Ok(p) = &r {
        // what was read can be stored again
        let (mut w, _s) = SimWriter::new(Plan::default());
        let _ = run("writing a model read from damaged storage", || p.write(&mut w))?;
    }
    Ok(Info { nontrivial: true, key: hash_bytes(9, &e), sample: Some(format!("{} {what:?} -> {}", show(&m), if r.is_ok() { "read" } else { "rejected" })) })
}

// ---- P18 ----
const NAMES: [&str; 8] = ["a_co", "b_nohq", "c", "wall", "ünï", "d.e", "x", "y"];
struct Ws { fs: SimFs, fs2: SimFs, files: BTreeSet<String>, path: WorkspacePath }
const ADDONS: [(&str, &str); 3] = [("main", "z\\mod\\addons\\main"), ("sub", "z\\mod\\addons\\sub"), ("nest", "z\\mod\\addons\\main\\nest")];
/// an overlay of two layers with up to three addons
fn workspace() -> Result<Ws, Violation> {
    let (fs, fs2) = (SimFs::new(), SimFs::new());
    let n = 1 + gen(3) as usize;
    let mut virt = BTreeSet::new();
    for (a, prefix) in &ADDONS[..n] {
        fs.put(&format!("addons/{a}/$PBOPREFIX$"), *prefix);
        fs.put(&format!("addons/{a}/config.cpp"), "class CfgPatches {};");
        for _ in 0..gen(6) {
            let f = format!("data/{}.{}", pick(&NAMES), pick(&["paa", "tga", "rvmat", "png"]));
            fs.put(&format!("addons/{a}/{f}"), "x");
            virt.insert(format!("/{}/{f}", prefix.replace('\\', "/")));
        }
    }
    for _ in 0..gen(4) {
        // the include layer mirrors foreign prefixes as folders
        let f = format!("x/other/addons/o/data/{}.{}", pick(&NAMES), pick(&["paa", "rvmat", "tga"]));
        fs2.put(&format!("include/{f}"), "y");
        fs2.put(&format!("/{f}"), "y");
        virt.insert(format!("/{f}"));
    }
    fs.with(|s| s.shuffle = true);
    fs2.with(|s| s.shuffle = true);
    let layers: Vec<vfs::VfsPath> = vec![fs.clone().into(), fs2.clone().into()];
    let path = must("opening a workspace", || Workspace::create(vfs::OverlayFS::new(&layers).into(), vec![(layers[1].clone(), LayerType::Include), (layers[0].clone(), LayerType::Source)], None, true, &hemtt_common::config::PDriveOption::Disallow))?;
    Ok(Ws { fs, fs2, files: virt, path })
}
fn reference(material: bool) -> String {
    match gen(8) {
        0 => String::new(),
        1 if !material => "#(argb,8,8,3)color(0.5,0.5,0.5,1)".into(),
        _ => {
            let dir = match gen(4) { 0 | 1 => ADDONS[gen(3) as usize].1.to_string(), 2 => "x\\other\\addons\\o".into(), _ => "q\\nowhere".into() };
            let ext = if material && genp(7, 8) { "rvmat" } else { pick(&["paa", "tga", "png", "paa", "jpg"]) };
            format!("{}{dir}\\data\\{}.{ext}", if genp(1, 3) { "\\" } else { "" }, pick(&NAMES))
        }
    }
}
fn norm_ref(s: &str) -> String { if s.starts_with('\\') { s.into() } else { format!("\\{s}") } }
fn expect(m: &Model, files: &BTreeSet<String>) -> (BTreeSet<String>, BTreeSet<String>) {
    let has = |r: &str| files.contains(&r.replace('\\', "/"));
    let (mut t, mut k) = (BTreeSet::new(), BTreeSet::new());
    for f in m.lods.iter().flat_map(|l| &l.faces) {
        if !f.tex.is_empty() && !f.tex.starts_with('#') {
            let r = norm_ref(&f.tex);
            let alt = if let Some(b) = r.strip_suffix(".paa") { Some(format!("{b}.tga")) } else if let Some(b) = r.strip_suffix(".tga").or_else(|| r.strip_suffix(".png")) { Some(format!("{b}.paa")) } else { None };
            if !has(&r) && !alt.is_some_and(|a| has(&a)) { t.insert(r); }
        }
        if !f.mat.is_empty() { let r = norm_ref(&f.mat); if !has(&r) { k.insert(r); } }
    }
    (t, k)
}
fn ref_model() -> Model {
    Model { ver: 257, lods: (0..1 + gen(2)).map(|_| MLod { ver: [28, 256], res: 0, points: vec![], normals: vec![], faces: (0..gen(8)).map(|_| MFace { verts: vec![[0; 4]; 3], flags: 0, tex: reference(false), mat: reference(true) }).collect(), taggs: vec![] }).collect() }
}
type Ans = (Vec<String>, Vec<String>);
fn check_ans(a: &Ans, m: &Model, files: &BTreeSet<String>) -> Result<(), Violation> {
    let (t, k) = expect(m, files);
    let got = |v: &Vec<String>| v.iter().cloned().collect::<BTreeSet<_>>();
    ensure!(got(&a.0) == t, "wrong set of missing textures", "reported {:?}, correct {t:?}", a.0);
    ensure!(got(&a.1) == k, "wrong set of missing materials", "reported {:?}, correct {k:?}", a.1);
    Ok(())
}
fn p18_concurrent() -> Verdict {
    let ws = workspace()?;
    let models: Vec<Model> = (0..1 + gen(4)).map(|_| ref_model()).collect();
    let nthreads = 1 + gen(3) as usize;
    let cache = Arc::new(SearchCache::new());
    let mut plans: Vec<Vec<usize>> = vec![vec![]; nthreads];
    for p in &mut plans { for _ in 0..1 + gen(3) { p.push(gen(models.len() as u64) as usize); } }
    sim::set_opts(|o| { o.alloc_gap = 9; o.io_gap = 3; });
    let models = Arc::new(models);
    let hs: Vec<_> = plans.iter().cloned().map(|plan| {
        let (cache, models, path) = (cache.clone(), models.clone(), ws.path.clone());
        std::thread::spawn(move || plan.into_iter().map(|i| { sim::io_point(); (i, lib(&models[i]).missing(&path, &cache).map_err(|e| e.to_string())) }).collect::<Vec<_>>())
    }).collect();
    let mut got = vec![];
    for h in hs { match h.join() { Ok(v) => got.extend(v), Err(p) => return bad("checking a model panics", format!("{:?}", p.downcast_ref::<String>())) } }
    sim::set_opts(|o| { o.alloc_gap = 0; o.io_gap = 0; });
    let mut key = 1;
    let mut nt = false;
    let mut order: std::collections::BTreeMap<usize, Ans> = Default::default();
    for (i, r) in got {
        let a = match r { Ok(a) => a, Err(e) => return bad("checking a model fails although nothing is wrong", e) };
        check_ans(&a, &models[i], &ws.files)?;
        key = mix(key, hash_bytes(i as u64, &enc(&models[i])));
        nt |= !a.0.is_empty() || !a.1.is_empty();
        if let Some(b) = order.get(&i) { ensure!(*b == a, "the same model gives a differently ordered answer", "{a:?} vs {b:?}"); }
        order.insert(i, a);
    }
    Ok(Info { nontrivial: nt, key: mix(key, ws.files.len() as u64), sample: Some(format!("{} models, {nthreads} threads, {} files", models.len(), ws.files.len())) })
}
fn p18_faults() -> Verdict {
    let ws = workspace()?;
    let models: Vec<Model> = (0..1 + gen(3)).map(|_| ref_model()).collect();
    let cache = SearchCache::new();
    let mut failed = 0;
    for _ in 0..2 + gen(4) {
        let i = gen(models.len() as u64) as usize;
        let fs = if fault(2) == 0 { &ws.fs } else { &ws.fs2 };
        let arm = faultp(2, 3);
        if arm { fs.with(|s| { s.hard = 0; s.faults = vec![VFault { mask: simvfs::EXISTS | simvfs::META | simvfs::LIST, nth: fault(30), sticky: fault(2) == 1, path: None, seen: 0, fired: 0, plan: None }]; }); }
        let r = run("checking a model", || lib(&models[i]).missing(&ws.path, &cache))?;
        let hit = fs.with(|s| { s.faults.clear(); std::mem::take(&mut s.hard) }) > 0;
        match r {
            Ok(a) => check_ans(&a, &models[i], &ws.files)?,
            Err(e) => { failed += 1; ensure!(hit, "checking a model fails although nothing is wrong", "{e}"); }
        }
    }
    for m in &models { let a = must("checking a model after faults stopped", || lib(m).missing(&ws.path, &cache))?; check_ans(&a, m, &ws.files)?; }
    Ok(Info { nontrivial: failed > 0, key: mix(models.iter().fold(0, |k, m| mix(k, hash_bytes(1, &enc(m)))), failed), sample: Some(format!("{failed} searches failed, {} models", models.len())) })
}
/// The order of the report does not depend on hash seeds or directory order.
fn p18_order() -> Verdict {
    let ws = workspace()?;
    let m = ref_model();
    let mut first: Option<Ans> = None;
    for _ in 0..3 {
        sim::reseed_env(env(1 << 40));
        let (p, e) = (ws.path.clone(), enc(&m));
        let a = std::thread::spawn(move || P3D::read(&mut std::io::Cursor::new(e)).unwrap().missing(&p, &SearchCache::new()).map_err(|e| e.to_string())).join();
        let a = match a { Ok(Ok(a)) => a, Ok(Err(e)) => return bad("checking a model fails although nothing is wrong", e), Err(_) => return bad("checking a model panics", "") };
        check_ans(&a, &m, &ws.files)?;
        if let Some(f) = &first { ensure!(*f == a, "the report order depends on hash seeds", "{f:?} vs {a:?}"); }
        first = Some(a);
    }
    let a = first.unwrap();
    Ok(Info { nontrivial: a.0.len() + a.1.len() > 1, key: hash_bytes(2, &enc(&m)), sample: Some(format!("{a:?}")) })
}
#[allow(unused)]
fn unused() { let _ = norm(""); }

const REAL: &[&str] = &["hemtt_p3d (P3D, LOD, Face, Point, Vertex, SearchCache, missing)", "hemtt_common::io", "std BufReader/BufWriter"];
pub fn props() -> Vec<Property> {
    vec![
        Property { id: "P16", rule: "read(stored bytes) equals the independent decoding and write gives the independent encoding under any legal stream behaviour; under one failure the result is an error or exact", real: REAL,
            stub: &["source and destination streams"], assumptions: &["names and textures without NUL; tag names unique within a LOD (the in-memory model cannot hold duplicates)"], level: "fault_enumeration",
            scenarios: vec![Scenario::new("roundtrip", 200_000, 400_000, p16_roundtrip), Scenario::new("write-fault", 400_000, 800_000, p16_write_fault), Scenario::new("read-fault", 300_000, 600_000, p16_read_fault)] },
        Property { id: "P18", rule: "every concurrent search on the shared cache returns the set computed from the list of existing files; an error only when an injected error fired; later searches are exact",
            real: &["hemtt_p3d::missing", "SearchCache", "hemtt_workspace locate and discovery", "vfs::OverlayFS"], stub: &["file system (simvfs)", "thread scheduler", "hash seeds"],
            assumptions: &["no P drive (game files) is configured", "a .paa texture may be satisfied by its .tga source and .tga/.png by .paa, as the search documents"], level: "exploration",
            scenarios: vec![Scenario::new("concurrent", 18_000, 150_000, p18_concurrent), Scenario::new("faults", 18_000, 150_000, p18_faults), Scenario::new("order", 9_000, 60_000, p18_order)] },
    ]
}
pub fn p17() -> Scenario { Scenario::new("p3d", 120_000, 800_000, p17_p3d) }
#[allow(unused)] fn o() -> Opts { Opts::default() }
