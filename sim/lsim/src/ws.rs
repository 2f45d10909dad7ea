//! P14, P15: the workspace. Reference: a plain map of files and the documented resolution rules.
use crate::util::*;
use hemtt_common::config::PDriveOption;
use hemtt_workspace::addons::Addon;
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::fsx;
use simcore::scratch;
use simcore::sim;
use simcore::simvfs::{self, SimFs, VFault};
use simcore::tape::{hash_str, mix};
use simcore::{ensure, env, fault, faultp, gen, genp};
use std::collections::{BTreeMap, BTreeSet};

/// merged view of the layers: path -> contents of the uppermost layer
#[derive(Clone, Default)]
struct Tree { files: BTreeMap<String, String>, dirs: BTreeSet<String>, pointers: BTreeMap<String, String>, dup: bool }
struct Ws { fs: Vec<SimFs>, tree: Tree }

fn lc(s: &str) -> String { s.to_ascii_lowercase() }
fn vary(s: &str) -> String {
    match gen(4) {
        0 | 1 => s.to_string(),
        2 => s.to_ascii_uppercase(),
        _ => { let k = gen(s.len() as u64 + 1) as usize; s.char_indices().map(|(i, c)| if i >= k { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }
    }
}
const FILES: [&str; 7] = ["config.cpp", "script_component.hpp", "data/x.hpp", "data/deep/y.sqf", "ü/ä.hpp", "b c.txt", "fnc_a.sqf"];
const PREFIXES: [&str; 6] = ["z\\abe\\addons\\main", "z\\abe\\addons\\main\\sub", "z\\abe", "z\\abe\\addons\\mainly", "abe_main", "z\\übe\\addons\\x"];
const PFILES: [&str; 5] = ["$PBOPREFIX$", "$pboprefix$", "pboprefix.txt", "$PREFIX$", "$PboPrefix$.txt"];
const ROOTS: [&str; 6] = ["addons/main", "addons/main/sub", "addons/mainly", "optionals/main", "include/x/other", "addons/ünt/in"];
fn join(a: &str, b: &str) -> String { if a.is_empty() { b.to_string() } else { format!("{a}/{b}") } }

/// Layer 0 is the uppermost one.
fn build(nlayers: usize) -> Ws {
    let fs: Vec<SimFs> = (0..nlayers).map(|_| SimFs::new()).collect();
    let mut tree = Tree::default();
    let mut per: Vec<BTreeMap<String, String>> = vec![BTreeMap::new(); nlayers];
    let mut n = 0;
    let mut put = |l: usize, p: String, d: Option<String>| { n += 1; let d = d.unwrap_or_else(|| format!("{p} from layer {l} no {n}\n")); fs[l].put(&p, d.clone()); per[l].insert(format!("/{p}"), d); };
    let mut prefixes: Vec<usize> = (0..PREFIXES.len()).collect();
    for r in ROOTS {
        if !genp(3, 5) { continue; }
        let layer = gen(nlayers as u64) as usize;
        if genp(4, 5) && !prefixes.is_empty() {
            let i = gen(prefixes.len() as u64) as usize;
            let k = if genp(1, 40) { prefixes[i] } else { prefixes.remove(i) };
            let style = gen(3);
            let p = if genp(1, 5) { vary(PREFIXES[k]) } else { PREFIXES[k].to_string() };
            put(layer, join(r, pick(&PFILES)), Some(match style { 0 => p, 1 => format!("prefix={p}\n"), _ => format!("version=1\r\nprefix = {p}\r\nauthor=me\r\n") }));
        }
        for _ in 0..gen(6) {
            let f = pick(&FILES);
            let f = if genp(1, 4) { vary(f) } else { f.to_string() };
            for l in 0..nlayers { if genp(1, 2) { put(l, join(r, &f), None); } }
        }
    }
    // files laid out by their virtual path, below the root or the include folder
    for _ in 0..gen(6) {
        let d = pick(&["z/abe/addons/main", "x/cba/addons/main", "x/other", "x/cba/addons/main/data"]);
        let base = pick(&["include", "", "include", "addons"]);
        let d = if genp(1, 4) { vary(d) } else { d.to_string() };
        let f = pick(&FILES);
        let f = if genp(1, 4) { vary(f) } else { f.to_string() };
        put(gen(nlayers as u64) as usize, join(base, &join(&d, &f)), None);
    }
    for l in (0..nlayers).rev() { for (p, d) in &per[l] { tree.files.insert(p.clone(), d.clone()); } }
    tree.dirs.insert(String::new());
    for p in tree.files.keys() { let mut p = p.as_str(); while let Some(i) = p.rfind('/') { p = &p[..i]; tree.dirs.insert(p.to_string()); } }
    for (p, d) in &tree.files {
        let (dir, name) = p.rsplit_once('/').unwrap();
        if !["/addons/", "/optionals/", "/include/"].iter().any(|r| p.starts_with(r)) { continue; }
        if !["$pboprefix$", "$pboprefix$.txt", "pboprefix.txt", "$prefix$"].contains(&lc(name).as_str()) { continue; }
        let v = d.lines().find_map(|l| l.split_once('=').filter(|(k, _)| k.trim() == "prefix").map(|(_, v)| v.trim())).unwrap_or_else(|| d.trim());
        if tree.pointers.insert(lc(&format!("/{}", v.replace('\\', "/"))), dir.to_string()).is_some() { tree.dup = true; }
    }
    Ws { fs, tree }
}
fn open(ws: &Ws, single: bool) -> Result<Result<WorkspacePath, String>, Violation> {
    let layers: Vec<vfs::VfsPath> = ws.fs.iter().map(|f| f.clone().into()).collect();
    let root: vfs::VfsPath = if single { layers[0].clone() } else { vfs::OverlayFS::new(&layers).into() };
    let mut named: Vec<_> = layers.into_iter().map(|l| (l, LayerType::Source)).collect();
    named.reverse();
    run("opening a workspace", || Workspace::create(root, named, None, true, &PDriveOption::Disallow).map_err(|e| e.to_string()))
}
fn normal(base: &str, p: &str) -> String {
    let mut parts: Vec<&str> = if p.starts_with('/') { vec![] } else { base.split('/').filter(|c| !c.is_empty()).collect() };
    for c in p.split('/') { match c { "" | "." => {} ".." => { parts.pop(); } c => parts.push(c) } }
    parts.iter().map(|c| format!("/{c}")).collect()
}
impl Tree {
    fn has(&self, p: &str) -> bool { self.files.contains_key(p) || self.dirs.contains(p) }
    fn insensitive(&self, p: &str) -> BTreeSet<String> {
        let all = |q: &str| self.files.keys().chain(self.dirs.iter()).filter(|f| lc(f) == lc(q) && !f.is_empty()).cloned().collect::<BTreeSet<_>>();
        let v = all(p);
        if !v.is_empty() { return v; }
        // the include folder itself has a fixed name
        all(&format!("/include{p}")).into_iter().filter(|f| f.starts_with("/include/")).collect()
    }
    /// everything the rules allow as an answer (empty: nothing there); true when case was ignored
    fn resolve(&self, dir: &str, path: &str) -> (BTreeSet<String>, bool) {
        let p = path.replace('\\', "/");
        let one = |s: String| (BTreeSet::from([s]), false);
        let n = normal(dir, &p);
        if self.has(&n) { return one(n); }
        if !p.starts_with('/') { return (BTreeSet::new(), false); }
        let owner = self.pointers.iter().filter(|(v, _)| { let v = format!("{}/", v.to_lowercase()); p.to_lowercase().starts_with(&v) }).max_by_key(|(v, _)| v.len());
        match owner {
            Some((v, root)) => {
                let rest: String = p.chars().skip(v.chars().count() + 1).collect();
                let r = normal(root, &rest);
                if self.has(&r) { return one(r); }
                (self.insensitive(&r), true)
            }
            None => (self.insensitive(&n), true),
        }
    }
}
fn query(t: &Tree) -> (String, String) {
    let files: Vec<&String> = t.files.keys().collect();
    let from = if files.is_empty() { "/addons/main/config.cpp".to_string() } else { files[gen(files.len() as u64) as usize].to_string() };
    let dir = from.rsplit_once('/').unwrap().0.to_string();
    let target = if files.is_empty() { "/addons/x.hpp".to_string() } else { files[gen(files.len() as u64) as usize].to_string() };
    let ptr: Vec<(&String, &String)> = t.pointers.iter().collect();
    let mut q = match gen(6) {
        // through a prefix
        0 | 1 if !ptr.is_empty() => {
            let inside: Vec<_> = ptr.iter().filter(|(_, r)| target.starts_with(&format!("{r}/"))).collect();
            if inside.is_empty() { format!("{}/{}", ptr[gen(ptr.len() as u64) as usize].0, pick(&FILES)) }
            else { let (v, r) = inside[gen(inside.len() as u64) as usize]; format!("{v}{}", &target[r.len()..]) }
        }
        2 => target.clone(),
        3 => { // relative
            let d: Vec<&str> = dir.split('/').skip(1).collect();
            let t: Vec<&str> = target.split('/').skip(1).collect();
            let c = d.iter().zip(&t).take_while(|(a, b)| a == b).count();
            let mut s: Vec<&str> = vec![".."; d.len() - c];
            s.extend(&t[c..]);
            if genp(1, 4) { s.insert(0, "."); }
            s.join("/")
        }
        4 => format!("/{}/{}", pick(&["x/cba/addons/main", "x/other", "z/abe/addons/main", "nowhere", "z/abe"]), pick(&FILES)),
        _ => pick(&FILES).to_string(),
    };
    if genp(1, 3) { q = vary(&q); }
    if genp(1, 12) { q.push('x'); }
    if genp(1, 2) { q = q.replace('/', "\\"); }
    (from, q)
}
/// One lookup: (path, contents) or nothing; Err is an error of the library.
type Ans = Option<(String, Option<String>)>;
fn ask(root: &WorkspacePath, from: &str, q: &str, read: bool) -> Result<(Ans, bool), String> {
    let at = root.join(from).map_err(|e| e.to_string())?;
    match at.locate(q).map_err(|e| e.to_string())? {
        None => Ok((None, false)),
        Some(r) => {
            let d = if read && r.path.is_file().map_err(|e| e.to_string())? { Some(r.path.read_to_string().map_err(|e| e.to_string())?) } else { None };
            Ok((Some((r.path.as_str().to_string(), d)), r.case_mismatch.is_some()))
        }
    }
}
fn judge(t: &Tree, from: &str, q: &str, a: &(Ans, bool)) -> Result<(), Violation> {
    let (ok, ins) = t.resolve(from.rsplit_once('/').unwrap().0, q);
    match &a.0 {
        None => ensure!(ok.is_empty(), "a file that exists is not found", "{q:?} from {from:?}: expected {ok:?}; pointers {:?}", t.pointers),
        Some((p, d)) => {
            ensure!(!ok.is_empty(), "a file is found although the rules lead nowhere", "{q:?} from {from:?}: got {p:?}; pointers {:?}", t.pointers);
            ensure!(ok.contains(p), "a lookup leads to the wrong file", "{q:?} from {from:?}: got {p:?}, expected {ok:?}; pointers {:?}", t.pointers);
            if let Some(f) = t.files.get(p) { if let Some(d) = d { ensure!(f.replace('\r', "") == *d, "a lookup gives the contents of another layer", "{p:?}: {d:?} instead of {f:?}"); } }
            if ins { ensure!(a.1, "a lookup that only matches when case is ignored is not reported as such", "{q:?} -> {p:?}"); }
        }
    }
    Ok(())
}
fn shuffle(ws: &Ws) { for f in &ws.fs { f.with(|s| s.shuffle = true); } }

fn p14_resolve() -> Verdict {
    let ws = build(1 + gen(3) as usize);
    shuffle(&ws);
    let root = match open(&ws, false)? {
        Err(e) => { ensure!(ws.tree.dup, "opening a workspace fails although nothing is wrong", "{e}"); return Ok(Info::default()); }
        Ok(r) => { ensure!(!ws.tree.dup, "two addons with the same prefix are accepted", "{:?}", ws.tree.pointers); r }
    };
    let qs: Vec<_> = (0..8).map(|_| query(&ws.tree)).collect();
    let mut found = 0;
    let mut key = 1;
    let mut answers = vec![];
    for (from, q) in &qs {
        let a = must("resolving a path", || ask(&root, from, q, true))?;
        judge(&ws.tree, from, q, &a)?;
        found += u64::from(a.0.is_some());
        key = mix(key, hash_str(&format!("{from}{q}{:?}", a.0)));
        answers.push(a);
    }
    // the same on another day: other hash seeds and listing orders
    for _ in 0..2 {
        sim::reseed_env(env(1 << 40));
        let (fs, tree, qs2) = (ws.fs.clone(), ws.tree.clone(), qs.clone());
        let again = std::thread::spawn(move || -> Result<Vec<(Ans, bool)>, Violation> {
            let root = match open(&Ws { fs, tree }, false)? { Ok(r) => r, Err(e) => return bad("opening a workspace fails although nothing is wrong", e) };
            qs2.iter().map(|(f, q)| must("resolving a path", || ask(&root, f, q, true))).collect()
        }).join();
        let again = match again { Ok(a) => a?, Err(_) => return bad("resolving a path panics", "") };
        for (i, (a, b)) in answers.iter().zip(&again).enumerate() {
            ensure!(a == b, "the same lookup gives different answers", "{:?}: {a:?} and then {b:?}", qs[i]);
        }
    }
    // the way back: file -> virtual path
    for (p, _) in ws.tree.files.iter().take(6) {
        let got = must("naming a file", || root.join(p).map(|p| p.as_virtual_str()).map_err(|e| e.to_string()))?;
        let owner = ws.tree.pointers.iter().filter(|(_, r)| lc(p).starts_with(&format!("{}/", lc(r)))).max_by_key(|(_, r)| r.len());
        let want = owner.map_or_else(|| p.clone(), |(v, r)| format!("{v}{}", &p[r.len()..]));
        ensure!(lc(&got).trim_start_matches('/') == lc(&want).trim_start_matches('/'), "a file is given the wrong virtual path", "{p:?}: {got:?} instead of {want:?}");
    }
    Ok(Info { nontrivial: found > 0, key, sample: Some(format!("{} files, {} prefixes, {found} of {} found: {:?}", ws.tree.files.len(), ws.tree.pointers.len(), qs.len(), qs[0])) })
}
fn p14_faults() -> Verdict {
    let ws = build(1);
    shuffle(&ws);
    if ws.tree.dup { return Ok(Info::default()); }
    let root = match open(&ws, true)? { Ok(r) => r, Err(e) => return bad("opening a workspace fails although nothing is wrong", e) };
    let mut failed = 0;
    let mut key = 1;
    for _ in 0..6 {
        let (from, q) = query(&ws.tree);
        let fs = &ws.fs[0];
        fs.with(|s| { s.hard = 0; s.faults = vec![VFault { mask: pick_mask(), nth: fault(12), sticky: fault(3) == 1, path: None, seen: 0, fired: 0, plan: None }]; });
        let r = run("resolving a path", || ask(&root, &from, &q, true))?;
        let hit = fs.with(|s| { s.faults.clear(); std::mem::take(&mut s.hard) }) > 0;
        key = mix(key, hash_str(&format!("{from}{q}{}", r.is_ok())));
        match r {
            Ok(a) => judge(&ws.tree, &from, &q, &a).map_err(|v| if hit { Violation { sig: format!("an I/O error is taken for an answer: {}", v.sig), detail: v.detail } } else { v })?,
            Err(e) => { failed += 1; ensure!(hit, "resolving a path fails although nothing is wrong", "{from} {q}: {e}"); }
        }
    }
    Ok(Info { nontrivial: failed > 0, key, sample: Some(format!("{failed} of 6 lookups failed")) })
}
fn pick_mask() -> u32 { let a = [simvfs::EXISTS, simvfs::META, simvfs::LIST, simvfs::OPEN, simvfs::EXISTS | simvfs::META | simvfs::LIST | simvfs::OPEN]; a[fault(5) as usize] }
/// Listing and opening errors below an overlay (its exists() hides errors, so those stay out).
fn p14_layers() -> Verdict {
    let ws = build(2 + gen(2) as usize);
    shuffle(&ws);
    if ws.tree.dup { return Ok(Info::default()); }
    let root = match open(&ws, false)? { Ok(r) => r, Err(e) => return bad("opening a workspace fails although nothing is wrong", e) };
    let (mut failed, mut key) = (0, 1);
    for _ in 0..4 {
        let (from, q) = query(&ws.tree);
        let fs = &ws.fs[fault(ws.fs.len() as u64) as usize];
        let mask = [simvfs::META, simvfs::OPEN, simvfs::META | simvfs::OPEN][fault(3) as usize];
        fs.with(|s| { s.hard = 0; s.faults = vec![VFault { mask, nth: fault(8), sticky: fault(3) == 1, path: None, seen: 0, fired: 0, plan: None }]; });
        let r = run("resolving a path", || ask(&root, &from, &q, true))?;
        let hit = fs.with(|s| { s.faults.clear(); std::mem::take(&mut s.hard) }) > 0;
        key = mix(key, hash_str(&format!("{from}{q}{}", r.is_ok())));
        match r {
            Ok(a) => judge(&ws.tree, &from, &q, &a).map_err(|v| if hit { Violation { sig: format!("an I/O error is taken for an answer: {}", v.sig), detail: v.detail } } else { v })?,
            Err(e) => { failed += 1; ensure!(hit, "resolving a path fails although nothing is wrong", "{from} {q}: {e}"); }
        }
    }
    Ok(Info { nontrivial: failed > 0, key, sample: None })
}

// ---- P15 ----
fn set<'a>(v: impl Iterator<Item = &'a WorkspacePath>) -> Result<BTreeSet<String>, Violation> {
    let mut s = BTreeSet::new();
    for p in v { ensure!(s.insert(p.as_str().to_string()), "a walk lists the same entry twice", "{}", p.as_str()); }
    Ok(s)
}
fn all_under(t: &Tree, dir: &str) -> BTreeSet<String> {
    t.files.keys().chain(t.dirs.iter()).filter(|p| !p.is_empty() && p.starts_with(&format!("{dir}/"))).cloned().collect()
}
fn listing(t: &Tree, root: &WorkspacePath, dir: &str, deep: bool, hit: &dyn Fn() -> bool) -> Result<bool, Violation> {
    let r = run("walking a folder", || { let d = root.join(dir)?; if deep { d.walk_dir() } else { d.read_dir() } })?;
    match r {
        Err(e) => { ensure!(hit(), "walking a folder fails although nothing is wrong", "{dir}: {e}"); Ok(false) }
        Ok(v) => {
            let got = set(v.iter())?;
            let want: BTreeSet<String> = all_under(t, dir).into_iter().filter(|p| deep || !p[dir.len() + 1..].contains('/')).collect();
            ensure!(got == want, if hit() { "an I/O error makes a walk leave entries out" } else { "a walk does not list what is there" }, "{dir}: missing {:?}, extra {:?}", want.difference(&got).collect::<Vec<_>>(), got.difference(&want).collect::<Vec<_>>());
            Ok(true)
        }
    }
}
fn discovered(t: &Tree, root: &WorkspacePath) -> Result<(), Violation> {
    let want = |n: &str| t.files.keys().filter(|p| ["/addons/", "/optionals/", "/include/"].iter().any(|r| p.starts_with(r)) && lc(p.rsplit_once('/').unwrap().1) == n && !p.contains(".hemtt")).cloned().collect::<BTreeSet<_>>();
    let mut got = BTreeSet::new();
    for p in root.addons() { ensure!(got.insert(p.as_str().to_string()), "an addon is discovered twice", "{}", p.as_str()); }
    ensure!(got == want("config.cpp"), "not every addon is discovered", "got {got:?}, expected {:?}", want("config.cpp"));
    let mut got = BTreeSet::new();
    for p in root.missions() { ensure!(got.insert(p.as_str().to_string()), "a mission is discovered twice", "{}", p.as_str()); }
    ensure!(got == want("mission.sqm"), "not every mission is discovered", "got {got:?}, expected {:?}", want("mission.sqm"));
    for (v, r) in &t.pointers {
        for p in t.files.keys().filter(|p| p.starts_with(&format!("{r}/"))).take(1) {
            let q = format!("{v}{}", &p[r.len()..]);
            let deeper = t.pointers.keys().any(|o| o.len() > v.len() && lc(&q).starts_with(&format!("{}/", lc(o))));
            if deeper || t.has(&q) { continue; }
            let a = must("resolving through a discovered prefix", || ask(root, p, &q, false))?;
            ensure!(a.0.as_ref().is_some_and(|a| a.0 == *p), "a prefix is not discovered", "{q:?} gives {:?} instead of {p:?}", a.0);
        }
    }
    Ok(())
}
fn add_missions(ws: &mut Ws) {
    for _ in 0..gen(3) {
        let p = format!("/{}/{}", pick(&["addons/main/m.vr", "optionals/main", "include/x", "addons/main/.hemtt"]), pick(&["mission.sqm", "Mission.SQM", "CONFIG.CPP"]));
        let d = format!("{p} extra");
        ws.fs[0].put(&p, d.clone());
        ws.tree.files.insert(p.clone(), d);
        let mut q = p.as_str();
        while let Some(i) = q.rfind('/') { q = &q[..i]; ws.tree.dirs.insert(q.to_string()); }
    }
}
fn p15_workspace() -> Verdict {
    let n = 1 + gen(3) as usize;
    let mut ws = build(n);
    add_missions(&mut ws);
    shuffle(&ws);
    let root = match open(&ws, false)? {
        Err(e) => { ensure!(ws.tree.dup, "opening a workspace fails although nothing is wrong", "{e}"); return Ok(Info { nontrivial: true, key: 1, sample: None }); }
        Ok(r) => { ensure!(!ws.tree.dup, "two addons with the same prefix are accepted", "{:?}", ws.tree.pointers); r }
    };
    discovered(&ws.tree, &root)?;
    let dirs: Vec<String> = ws.tree.dirs.iter().cloned().collect();
    for _ in 0..3 {
        let d = &dirs[gen(dirs.len() as u64) as usize];
        listing(&ws.tree, &root, d, genp(2, 3), &|| false)?;
    }
    Ok(Info { nontrivial: !ws.tree.files.is_empty(), key: hash_str(&format!("{:?}", ws.tree.files)), sample: Some(format!("{} files in {n} layers", ws.tree.files.len())) })
}
fn p15_workspace_faults() -> Verdict {
    let mut ws = build(1);
    add_missions(&mut ws);
    shuffle(&ws);
    let fs = ws.fs[0].clone();
    let arm = |max: u64| fs.with(|s| { s.hard = 0; s.faults = vec![VFault { mask: pick_mask(), nth: fault(max), sticky: fault(3) == 1, path: None, seen: 0, fired: 0, plan: None }]; });
    let hit = || fs.with(|s| s.hard) > 0;
    let mut failed = 0u64;
    arm(60);
    let r = open(&ws, true)?;
    let h = hit();
    fs.with(|s| s.faults.clear());
    match r {
        Err(e) => { ensure!(h || ws.tree.dup, "opening a workspace fails although nothing is wrong", "{e}"); failed += 1; }
        Ok(root) => {
            ensure!(!ws.tree.dup, "two addons with the same prefix are accepted", "{:?}", ws.tree.pointers);
            discovered(&ws.tree, &root).map_err(|v| if h { Violation { sig: format!("an I/O error leaves something out: {}", v.sig), detail: v.detail } } else { v })?;
        }
    }
    if ws.tree.dup { return Ok(Info::default()); }
    let root = match open(&ws, true)? { Ok(r) => r, Err(e) => return bad("opening a workspace fails although nothing is wrong", e) };
    let dirs: Vec<String> = ws.tree.dirs.iter().cloned().collect();
    for _ in 0..3 {
        let d = &dirs[gen(dirs.len() as u64) as usize];
        arm(20);
        failed += u64::from(!listing(&ws.tree, &root, d, genp(2, 3), &hit)?);
        fs.with(|s| s.faults.clear());
    }
    Ok(Info { nontrivial: failed > 0, key: hash_str(&format!("{:?}{failed}", ws.tree.files)), sample: Some(format!("{failed} operations failed")) })
}
/// (location, name) -> (prefix, excludes of the settings file)
type Addons = BTreeMap<(String, String), (String, Option<Vec<String>>)>;
fn project(d: &scratch::Dir) -> (Addons, bool) {
    let mut m = Addons::new();
    let mut bad = false;
    for (loc, n) in [("addons", gen(6)), ("optionals", gen(4))] {
        if n > 0 || genp(1, 3) { d.mkdir(loc); } else { continue; }
        for _ in 0..n {
            let name = format!("{}{}", pick(&["main", "Main", "common", "ui", "data_f", "ünit", "CUP_x"]), pick(&["", "_2", "3", "_b"]));
            // on a file system that ignores case these could not exist side by side
            let at = format!("{loc}/{name}");
            if m.contains_key(&(loc.to_string(), name.clone())) { continue; }
            if !genp(1, 12) && m.keys().any(|(_, o)| o.to_lowercase() == name.to_lowercase()) { continue; }
            let prefix = format!("z\\abe\\addons\\{name}");
            let pf = pick(&["$PBOPREFIX$", "$pboprefix$", "pboprefix.txt", "$prefix$", "$PBOPREFIX$.TXT", "PBOPREFIX.TXT", "$PREFIX$", "$pboprefix$.txt"]);
            d.put(&format!("{at}/{pf}"), match gen(3) { 0 => prefix.clone(), 1 => format!("prefix={prefix}\n"), _ => format!("a=b\nPrefix = {prefix}\nc=d\n") });
            for f in 0..gen(3) { d.put(&format!("{at}/f{f}.sqf"), "x"); }
            let cfg = if genp(1, 2) {
                let ex: Vec<String> = (0..gen(3)).map(|i| format!("*.ex{i}")).collect();
                d.put(&format!("{at}/addon.toml"), format!("# settings\n[files]\nexclude = {ex:?}\n"));
                Some(ex)
            } else { None };
            m.insert((loc.to_string(), name), (prefix, cfg));
        }
        for _ in 0..gen(3) { d.put(&format!("{loc}/{}", pick(&["readme.md", ".gitkeep", "zz.txt", "aa"])), "not an addon"); }
        if genp(1, 8) { let _ = std::os::unix::fs::symlink("nowhere", format!("{}/{loc}/dangling", d.path)); }
        if genp(1, 25) { d.put(&format!("{loc}/noprefix/config.cpp"), "x"); bad = true; }
    }
    let names: Vec<&(String, String)> = m.keys().collect();
    for (i, a) in names.iter().enumerate() { for b in &names[i + 1..] { if a.1.to_lowercase() == b.1.to_lowercase() { bad = true; } } }
    (m, bad)
}
fn scan(d: &scratch::Dir) -> Result<Result<Vec<Addon>, String>, Violation> { run("scanning for addons", || Addon::scan(std::path::Path::new(&d.path)).map_err(|e| e.to_string())) }
fn compare(got: &[Addon], want: &Addons) -> Result<(), Violation> {
    let mut seen = BTreeSet::new();
    for a in got {
        let k = (a.location().to_string(), a.name().to_string());
        ensure!(seen.insert(k.clone()), "an addon is listed twice", "{k:?}");
        let Some((prefix, cfg)) = want.get(&k) else { return bad("an addon that does not exist is listed", format!("{k:?}")) };
        ensure!(a.prefix().to_string() == *prefix, "an addon has the wrong prefix", "{k:?}: {} instead of {prefix}", a.prefix());
        ensure!(a.folder() == format!("{}/{}", k.0, k.1), "an addon has the wrong folder", "{}", a.folder());
        ensure!(a.config().map(|c| c.files().exclude().clone()) == *cfg, "the settings of an addon are wrong", "{k:?}: {:?} instead of {cfg:?}", a.config().map(|c| c.files().exclude().clone()));
    }
    let missing: Vec<_> = want.keys().filter(|k| !seen.contains(*k)).collect();
    ensure!(missing.is_empty(), "an addon is left out", "{missing:?}");
    Ok(())
}
fn p15_scan() -> Verdict {
    let d = scratch::Dir::new();
    let (want, bad_project) = project(&d);
    let fs = fsx::enable(&d.path);
    (fs.shuffle, fs.short, fs.eintr) = (true, [0, 3][gen(2) as usize], [0, 5][gen(2) as usize]);
    match scan(&d)? {
        Ok(v) => {
            ensure!(!bad_project, "a project with conflicting addon names or a missing prefix is accepted", "{:?}", want.keys());
            compare(&v, &want)?;
            let again = scan(&d)?;
            let names = |v: &[Addon]| v.iter().map(Addon::folder).collect::<Vec<_>>();
            ensure!(again.as_ref().is_ok_and(|a| names(a) == names(&v)), "the order of the addons depends on the order of the directory", "{:?} / {:?}", names(&v), again.map(|a| names(&a)));
        }
        Err(e) => ensure!(bad_project, "scanning for addons fails although nothing is wrong", "{e}"),
    }
    Ok(Info { nontrivial: want.len() > 1, key: hash_str(&format!("{want:?}")), sample: Some(format!("{} addons, conflicts {bad_project}", want.len())) })
}
fn p15_scan_faults() -> Verdict {
    let d = scratch::Dir::new();
    let (want, bad_project) = project(&d);
    let fs = fsx::enable(&d.path);
    fs.shuffle = true;
    let mask = [fsx::STAT, fsx::OPEN_R, fsx::READ, fsx::LIST, fsx::LIST_NEXT, fsx::STAT | fsx::OPEN_R | fsx::READ | fsx::LIST | fsx::LIST_NEXT][fault(6) as usize];
    let errno = [libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::ESTALE][fault(5) as usize];
    fs.faults.push(fsx::Fault { mask, nth: fault(30), sticky: fault(3) == 1, errno, path: None, seen: 0, fired: 0 });
    let r = scan(&d)?;
    let fired = fsx::fs().unwrap().faults[0].fired > 0;
    fsx::fs().unwrap().faults.clear();
    let failed = r.is_err();
    match r {
        Ok(v) => { ensure!(!bad_project, "a project with conflicting addon names or a missing prefix is accepted", "{:?}", want.keys()); compare(&v, &want).map_err(|v| if fired { Violation { sig: format!("an I/O error leaves something out: {}", v.sig), detail: v.detail } } else { v })?; }
        Err(e) => ensure!(fired || bad_project, "scanning for addons fails although nothing is wrong", "{e}"),
    }
    if !bad_project { match scan(&d)? { Ok(v) => compare(&v, &want)?, Err(e) => return bad("scanning for addons fails although nothing is wrong any more", e) } }
    Ok(Info { nontrivial: failed && fired, key: mix(hash_str(&format!("{want:?}")), u64::from(failed)), sample: None })
}

pub fn props() -> Vec<Property> {
    vec![
        Property { id: "P14", rule: "every lookup leads to the file (and layer) given by the documented rules over a plain map of files; identical under other hash seeds and listing orders; with an injected error it gives the same answer or an error",
            real: &["hemtt_workspace::WorkspacePath::locate / as_virtual_str / discovery", "hemtt_common::prefix", "vfs::OverlayFS"], stub: &["file system layers (simvfs)", "hash seeds", "listing order"],
            assumptions: &["OverlayFS::exists of the vfs crate hides errors of its layers, so failing exists() calls are injected only without an overlay", "several files that differ in case only: any of them may be chosen, but always the same one", "no P drive (game files) is configured"], level: "fault_enumeration",
            scenarios: vec![Scenario::new("resolve", 40_000, 1_200_000, p14_resolve), Scenario::new("faults", 80_000, 2_000_000, p14_faults), Scenario::new("layers", 30_000, 600_000, p14_layers)] },
        Property { id: "P15", rule: "scans and walks are compared with the generated tree: each entry exactly once or an error; conflicts rejected; an injected error never leaves an entry, prefix or settings file out",
            real: &["hemtt_workspace::addons::Addon::scan", "Workspace discovery", "WorkspacePath::walk_dir / read_dir", "std::fs through interposed system calls"], stub: &["file system layers (simvfs)", "directory order", "failing system calls"],
            assumptions: &["ENOENT is not injected: a file that vanishes is indistinguishable from one that never existed"], level: "fault_enumeration",
            scenarios: vec![Scenario::new("workspace", 40_000, 1_000_000, p15_workspace), Scenario::new("workspace_faults", 60_000, 1_500_000, p15_workspace_faults), Scenario::new("scan", 25_000, 500_000, p15_scan), Scenario::new("scan_faults", 40_000, 1_000_000, p15_scan_faults)] },
    ]
}
#[allow(unused)] fn unused() -> bool { faultp(1, 2) }
