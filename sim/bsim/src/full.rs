//! P24, P25, P26, P29: whole commands on generated projects, each in a simulated process.
use crate::exec::{run, Ended, Plan};
use crate::pbofmt;
use crate::proj::{project, Project, K};
use crate::raptree::{derap, differ};
use crate::util::*;
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::scratch::Dir;
use simcore::sim;
use simcore::tape::{hash_bytes, hash_str, mix};
use simcore::{ensure, env, fault, gen, genp};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Read;

/// What is in a folder.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Node { File(Vec<u8>), Link(String), Folder }
pub type Tree = BTreeMap<String, Node>;
pub fn tree(root: &str) -> Tree {
    let _g = sim::hold();
    fn walk(base: &str, rel: &str, out: &mut Tree) {
        let Ok(d) = std::fs::read_dir(format!("{base}/{rel}")) else { return };
        for e in d.flatten() {
            let r = if rel.is_empty() { e.file_name().to_string_lossy().into_owned() } else { format!("{rel}/{}", e.file_name().to_string_lossy()) };
            let t = e.file_type().expect("type");
            if t.is_symlink() { out.insert(r, Node::Link(std::fs::read_link(e.path()).map_or_else(|e| e.to_string(), |p| p.to_string_lossy().replace(base, "")))); }
            else if t.is_dir() { out.insert(r.clone(), Node::Folder); walk(base, &r, out); }
            else { out.insert(r, Node::File(std::fs::read(e.path()).expect("file"))); }
        }
    }
    let mut t = Tree::new();
    walk(root, "", &mut t);
    t
}
pub fn key(p: &Project) -> u64 { p.files.iter().fold(0, |h, (n, b)| mix(mix(h, hash_str(n)), hash_bytes(1, b))) }
pub fn lay(d: &Dir, p: &Project) {
    let _g = sim::hold();
    let _ = std::fs::remove_dir_all(format!("{}/project", d.path));
    let _ = std::fs::remove_dir_all(format!("{}/tmp", d.path));
    let _ = std::fs::remove_dir_all(format!("{}/home", d.path));
    for (n, b) in &p.files { d.put(&format!("project/{n}"), b); }
}
pub fn plan(args: &[&str]) -> Plan {
    let mut a: Vec<String> = args.iter().map(|s| (*s).to_string()).collect();
    if std::env::var("BSIM_LOUD").is_err() { a.push("--in-test".into()); }
    Plan { args: a, max_steps: 40_000_000, ..Plan::default() }
}
/// What was built, without logs; the sources have to be as they were.
pub fn results(d: &Dir, p: &Project) -> Result<Tree, Violation> {
    let t = tree(&format!("{}/project", d.path));
    for (n, b) in &p.files {
        ensure!(t.get(n) == Some(&Node::File(b.clone())), "a build changes or removes a source file", "{n}: {:?}", t.get(n));
    }
    let mut o = Tree::new();
    for (n, x) in t {
        if p.files.contains_key(&n) { continue; }
        if n.starts_with(".hemttout") || n.starts_with("releases") { if !n.ends_with(".log") { o.insert(n, x); } continue; }
        ensure!(matches!(x, Node::Folder) && p.files.keys().any(|f| f.starts_with(&format!("{n}/"))), "a build leaves files between the sources", "{n}");
    }
    Ok(o)
}
pub fn show(p: &Project) -> String {
    p.files.iter().map(|(n, b)| if b.len() < 1500 && std::str::from_utf8(b).is_ok() { format!("=== {n}\n{}\n", String::from_utf8_lossy(b)) } else { format!("=== {n} ({} bytes)\n", b.len()) }).collect()
}
fn tail(s: &str, n: usize) -> String { let v: Vec<&str> = s.lines().collect(); v[v.len().saturating_sub(n)..].join("\n") }
pub fn sound(e: &Ended, what: &str) -> Result<(), Violation> {
    if let Some(x) = e.escapes.first() { return bad(format!("{what} changes something outside the project"), x.clone()); }
    if let Some(o) = &e.odd { return bad(format!("{what}: {}", simcore::driver::norm(o)), format!("{o}\n{}", tail(&e.err, 12))); }
    Ok(())
}
/// No trouble of any kind.
pub fn calm(d: &Dir, p: &Project, pl: &Plan) -> Result<(Ended, Tree), Violation> {
    lay(d, p);
    let e = run(&d.path, pl);
    sound(&e, "a build")?;
    if let Some(x) = &e.panic { return bad(format!("a build panics: {}", simcore::driver::norm(x)), format!("{x}\n{}", show(p))); }
    Ok((e, results(d, p)?))
}
fn unzip(b: &[u8]) -> Result<Tree, String> {
    let _g = sim::hold();
    let mut z = zip::ZipArchive::new(std::io::Cursor::new(b)).map_err(|e| e.to_string())?;
    let mut t = Tree::new();
    for i in 0..z.len() {
        let mut f = z.by_index(i).map_err(|e| e.to_string())?;
        let n = f.name().trim_end_matches('/').to_string();
        let node = if f.is_dir() { Node::Folder } else { let mut v = vec![]; f.read_to_end(&mut v).map_err(|e| format!("{n}: {e}"))?; Node::File(v) };
        if t.insert(n.clone(), node).is_some() { return Err(format!("{n} is in it twice")); }
    }
    Ok(t)
}

/// P29: what was built is the project.
pub fn faithful(p: &Project, cmd: &str, o: &Tree, rapify: bool, picked: &dyn Fn(&crate::proj::Addon) -> bool) -> Result<(), Violation> {
    let base = format!(".hemttout/{cmd}");
    let mut want: BTreeSet<String> = BTreeSet::new();
    let release = cmd == "release";
    let auth = format!("{}_{}", p.authority.clone().unwrap_or_else(|| p.prefix.clone()), p.version);
    for a in p.addons.iter().filter(|a| picked(a)) {
        let pbo = format!("{}_{}.pbo", p.prefix, a.name);
        let dir = if cmd == "dev" || !a.optional { "addons".to_string() } else if p.optional_mods { format!("optionals/@{}_{}/addons", p.folder, a.name) } else { "optionals".into() };
        let path = format!("{base}/{dir}/{pbo}");
        want.insert(path.clone());
        let Some(Node::File(b)) = o.get(&path) else { return bad("an addon is not built", format!("{path} is missing; there is {:?}", o.keys().collect::<Vec<_>>())) };
        let (ar, _) = match pbofmt::decode(b) { Ok(x) => x, Err(e) => return bad("a built archive is damaged", format!("{path}: {e}")) };
        let mut seen: BTreeMap<String, &pbofmt::Entry> = BTreeMap::new();
        for e in &ar.entries {
            let n = String::from_utf8_lossy(&e.name).into_owned();
            ensure!(seen.insert(n.clone(), e).is_none(), "a file is packed twice", "{path}: {n}");
        }
        let src = format!("{}/{}", if a.optional { "optionals" } else { "addons" }, a.name);
        for (rel, k) in &a.files {
            let n = rel.replace('/', "\\");
            let text = &p.files[&format!("{src}/{rel}")];
            let k = if !rapify && matches!(k, K::Config(_) | K::Rap(_)) { &K::Plain } else { k };
            match k {
                K::Left => { ensure!(!seen.contains_key(&n), "a file that is excluded is packed", "{path}: {n}"); }
                K::Plain => match seen.remove(&n) {
                    None => return bad("a file is not packed", format!("{path}: {n}\n{}", show(p))),
                    Some(e) => { ensure!(e.data == *text, "a file is packed with other contents", "{path}: {n}: {}", diff(text, &e.data)); }
                },
                K::Bin => match seen.remove(&n) {
                    None => return bad("a binarized file is not packed", format!("{path}: {n}\n{}", show(p))),
                    Some(e) => { ensure!(e.data != *text, "a file that has to be binarized is packed as it is", "{path}: {n}"); let w = [b"BIN:", &text[..]].concat(); ensure!(e.data == w, "a binarized file has other contents", "{path}: {n}: {}", diff(&w, &e.data)); }
                },
                K::Sqf => {
                    match seen.remove(&n) { None => return bad("a script is not packed", format!("{path}: {n}")), Some(e) => { ensure!(e.data == *text, "a script is packed with other contents", "{path}: {n}"); } }
                    let c = n.replace(".sqf", ".sqfc");
                    match seen.remove(&c) { None => return bad("a script is not compiled", format!("{path}: {c}\n{}", show(p))), Some(e) => { ensure!(e.data.starts_with(&1u32.to_le_bytes()), "a compiled script is damaged", "{path}: {c}"); } }
                }
                K::Config(t) | K::Rap(t) => {
                    let out = if matches!(k, K::Config(_)) { n.replace(".cpp", ".bin") } else { n.clone() };
                    ensure!(out == n || !seen.contains_key(&n), "config.cpp is packed next to config.bin", "{path}: {n}");
                    let Some(e) = seen.remove(&out) else { return bad("a config is not packed", format!("{path}: {out}")) };
                    match derap(&e.data) {
                        Err(x) => return bad("a packed config is damaged", format!("{path}: {out}: {x}\n{}", show(p))),
                        Ok(g) => if let Some(x) = differ(t, &g) { return bad("a packed config says something else", format!("{path}: {out}: {x}\n{}", show(p))); },
                    }
                }
            }
        }
        if let Some(n) = seen.keys().next() { return bad("a file is packed that is not in the addon", format!("{path}: {n}")); }
        let prop = |k: &str| ar.prop(k).map(|v| String::from_utf8_lossy(v).into_owned());
        ensure!(prop("prefix").map(|s| s.replace('/', "\\")) == Some(a.prefix.clone()), "a built archive has the wrong prefix", "{path}: {:?} instead of {}", prop("prefix"), a.prefix);
        ensure!(prop("version") == Some(p.version.clone()), "a built archive has the wrong version", "{path}: {:?} instead of {}", prop("version"), p.version);
        ensure!(prop("hemtt").is_some(), "a built archive does not say what built it", "{path}");
        let mut props: BTreeMap<&str, &str> = p.props.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        for (k, v) in &a.props { props.insert(k, v); }
        for (k, v) in &props { ensure!(prop(k).as_deref() == Some(*v), "a property of the project is not in the archive", "{path}: {k} is {:?} instead of {v}", prop(k)); }
        for (k, _) in &ar.props {
            let k = String::from_utf8_lossy(k).into_owned();
            ensure!(["prefix", "version", "hemtt"].contains(&k.as_str()) || props.contains_key(k.as_str()), "an archive has a property nobody asked for", "{path}: {k}");
        }
        if release && p.sign {
            let (k, au) = if a.optional && p.optional_mods { (format!("{base}/optionals/@{}_{}/keys", p.folder, a.name), format!("{auth}_{}_{}", p.prefix, a.name)) } else { (format!("{base}/keys"), auth.clone()) };
            // the key of the whole mod is there even if nothing is signed with it
            want.insert(format!("{base}/keys/{auth}.bikey"));
            want.insert(format!("{k}/{au}.bikey"));
            let sig = format!("{path}.{au}.bisign");
            want.insert(sig.clone());
            let Some(Node::File(kb)) = o.get(&format!("{k}/{au}.bikey")) else { return bad("a release has no key for an addon", format!("{k}/{au}.bikey; there is {:?}", o.keys().collect::<Vec<_>>())) };
            let Some(Node::File(sb)) = o.get(&sig) else { return bad("an addon of a release is not signed", format!("{sig}; there is {:?}", o.keys().collect::<Vec<_>>())) };
            let _g = sim::hold();
            let r = (|| -> Result<(), String> {
                let pk = hemtt_signing::BIPublicKey::read(&mut &kb[..]).map_err(|e| e.to_string())?;
                let sg = hemtt_signing::BISign::read(&mut &sb[..]).map_err(|e| e.to_string())?;
                let mut pb = hemtt_pbo::ReadablePbo::from(std::io::Cursor::new(b.clone())).map_err(|e| e.to_string())?;
                pk.verify(&mut pb, &sg).map_err(|e| e.to_string())
            })();
            if let Err(e) = r { return bad("a signature of a release does not verify", format!("{sig}: {e}")); }
        }
        if cmd == "dev" {
            let l = format!("{base}/addons/{}", a.name);
            want.insert(l.clone());
            ensure!(o.get(&l) == Some(&Node::Link(format!("/{src}"))), "an addon is not linked for file patching", "{l}: {:?}", o.get(&l));
        }
    }
    for f in &p.include {
        let n = format!("{base}/{f}");
        match o.get(&n) { Some(Node::File(b)) => { ensure!(*b == p.files[f], "an included file has other contents", "{n}"); } x => return bad("an included file is missing", format!("{n}: {x:?}")) }
        want.insert(n);
    }
    for (f, b) in &p.extra {
        let n = format!("{base}/{f}");
        ensure!(o.get(&n) == Some(&Node::File(b.clone())), "a file a hook has written is missing", "{n}: {:?}", o.get(&n));
        want.insert(n);
    }
    for (n, x) in o {
        if matches!(x, Node::Folder) || !n.starts_with(&base) { continue; }
        ensure!(want.contains(n), "a build has a file nobody asked for", "{n}; {:?}", want);
    }
    if release && p.archive {
        for z in [format!("releases/{}-latest.zip", p.prefix), format!("releases/{}-{}.zip", p.prefix, p.version)] {
            let Some(Node::File(b)) = o.get(&z) else { return bad("a release has no archive", z) };
            whole_zip(p, o, b, &z)?;
        }
    } else { ensure!(!o.keys().any(|k| k.ends_with(".zip")), "a build makes an archive that was not asked for", "{:?}", o.keys().collect::<Vec<_>>()); }
    Ok(())
}
fn whole_zip(p: &Project, o: &Tree, b: &[u8], z: &str) -> Result<(), Violation> {
    let t = match unzip(b) { Ok(t) => t, Err(e) => return bad("a release archive is damaged", format!("{z}: {e}")) };
    let mut w = Tree::new();
    for (n, x) in o { if let Some(r) = n.strip_prefix(".hemttout/release/") { w.insert(format!("@{}/{r}", p.folder), x.clone()); } }
    if let Some(d) = differs(&w, &t) { return bad("a release archive differs from what was built", format!("{z}: {d}")); }
    Ok(())
}
/// The first difference.
pub fn differs(a: &Tree, b: &Tree) -> Option<String> {
    for (n, x) in a {
        match b.get(n) {
            None => return Some(format!("{n} is missing")),
            Some(y) if x == y => {}
            Some(Node::File(y)) => if let Node::File(x) = x { return Some(format!("{n}: {}", diff(x, y))); } else { return Some(format!("{n}: a file instead of {x:?}")); },
            Some(y) => return Some(format!("{n}: {y:?}")),
        }
    }
    b.keys().find(|n| !a.contains_key(*n)).map(|n| format!("{n} is there as well"))
}

fn command(p: &Project) -> (Vec<&'static str>, &'static str, bool) {
    let _ = p;
    match gen(8) {
        0 | 1 | 2 => (vec!["build"], "build", true),
        3 => (vec!["build", "--no-bin"], "build", true),
        4 => (vec!["build", "--no-rap"], "build", false),
        5 | 6 => (vec!["release"], "release", true),
        _ => (vec!["dev", "-O"], "dev", true),
    }
}
fn p29() -> Verdict {
    let mut p = project(false);
    let (mut args, cmd, rap) = command(&p);
    if cmd == "release" && genp(1, 5) { args.push("--no-archive"); p.archive = false; }
    if cmd == "release" && genp(1, 5) { args.push("--no-sign"); p.sign = false; }
    let d = Dir::new();
    let mut pl = plan(&args);
    pl.env = env(1 << 30);
    pl.sched = Some(fault(1 << 30));
    pl.alloc_gap = 3000;
    pl.io_gap = 40;
    pl.shuffle = true;
    pl.fault_seed = Some(fault(1 << 30));
    let (e, o) = calm(&d, &p, &pl)?;
    ensure!(e.status == Some(0), "a build of a project with nothing wrong fails", "{args:?}: {:?}\n{}\n{}", e.status, tail(&e.err, 30), show(&p));
    let ex = p.dev_exclude.clone();
    let dev = cmd == "dev";
    faithful(&p, cmd, &o, rap, &move |a| !dev || !ex.contains(&format!("{}/{}", if a.optional { "optionals" } else { "addons" }, a.name)))?;
    Ok(Info { nontrivial: e.threads > 1, key: mix(key(&p), hash_str(&args.join(" "))), sample: Some(format!("{} addons, {} files, {}", p.addons.len(), p.files.len(), args.join(" "))) })
}

/// Keys and signatures are new every time.
pub fn lasting(o: &Tree) -> Result<Tree, Violation> {
    let secret = |n: &str| n.ends_with(".bikey") || n.ends_with(".bisign");
    let mut t = Tree::new();
    for (n, x) in o {
        match x {
            Node::File(b) if n.ends_with(".zip") && b == b"old" => {}
            Node::File(b) if n.ends_with(".zip") => {
                let z = match unzip(b) { Ok(z) => z, Err(e) => return bad("a release archive is damaged", format!("{n}: {e}")) };
                for (m, y) in z { let k = format!("{n}!{m}"); t.insert(k.clone(), if secret(&k) { Node::Folder } else { y }); }
            }
            Node::Folder if n == "releases" => {}
            _ => { t.insert(n.clone(), if secret(n) { Node::Folder } else { x.clone() }); }
        }
    }
    Ok(t)
}
/// Like `faithful`, for comparing two outcomes: status, what was said, and what was made.
fn outcome(e: &Ended, o: &Tree) -> Result<(Option<i32>, String, Tree), Violation> { Ok((e.status, e.err.clone(), lasting(o)?)) }
fn same(a: &(Option<i32>, String, Tree), b: &(Option<i32>, String, Tree)) -> Option<(&'static str, String)> {
    if a.0 != b.0 { return Some(("the exit status", format!("{:?} and {:?}\n{}\n----\n{}", a.0, b.0, tail(&a.1, 15), tail(&b.1, 15)))); }
    if a.1 != b.1 {
        let d = a.1.lines().zip(b.1.lines()).find(|(x, y)| x != y);
        return Some(("the diagnostics", d.map_or_else(|| format!("{} and {} lines", a.1.lines().count(), b.1.lines().count()), |(x, y)| format!("{x:?} and {y:?}"))));
    }
    differs(&a.2, &b.2).map(|d| ("the output", d))
}
/// Where a diagnostic points to is read from the sources once more when it is shown; if that fails the place is lost, not what is wrong.
fn headlines(x: &mut (Option<i32>, String, Tree)) {
    x.1 = x.1.lines().filter(|l| ["error", "warning", "help", "note", "bug"].iter().any(|s| l.contains(&format!("{s}[")) || l.contains(&format!("m{s}\u{1b}")))).map(|l| format!("{l}\n")).collect();
    if let Some(Node::File(b)) = x.2.get_mut(".hemttout/ci_annotations.txt") { b.retain(|c| !c.is_ascii_digit()); }
}
/// Leftovers of an earlier build.
fn stale(d: &Dir, p: &Project, cmd: &str) {
    let _g = sim::hold();
    d.put(&format!("project/.hemttout/{cmd}/addons/{}_gone.pbo", p.prefix), b"old");
    d.put(&format!("project/.hemttout/{cmd}/addons/{}_main.pbo", p.prefix), b"old");
    d.put("tmp/hemtt/root/project/hemtt_binarize_output/addons/main/old.p3d", b"old");
    if cmd == "release" { for z in zips(p) { d.put(&format!("project/{z}"), b"old"); } }
}
fn zips(p: &Project) -> [String; 2] { [format!("releases/{}-latest.zip", p.prefix), format!("releases/{}-{}.zip", p.prefix, p.version)] }
fn tidy(p: &mut Project) { if p.broken == Some("bom") && genp(1, 2) { p.broken = None; } }

fn p24() -> Verdict {
    let mut p = project(true);
    tidy(&mut p);
    let args = match gen(8) { 0 | 1 | 2 => vec!["build"], 3 | 4 => vec!["check"], 5 => vec!["dev", "-O"], 6 => vec!["release"], _ => vec!["build", "--no-rap"] };
    let d = Dir::new();
    let (e, o) = calm(&d, &p, &plan(&args))?;
    let want = outcome(&e, &o)?;
    let mut switches = 0;
    for _ in 0..2 {
        let mut pl = plan(&args);
        let n = 1 + fault(6);
        pl.args.push("--threads".into());
        pl.args.push(n.to_string());
        pl.sched = Some(fault(1 << 30));
        pl.env = env(1 << 30);
        pl.shuffle = env(2) == 1;
        pl.alloc_gap = [0, 60, 400, 3000, 20_000][fault(5) as usize];
        pl.io_gap = [0, 2, 8, 60][fault(4) as usize];
        pl.skew = [0, 3_600_000_000_000, 86_400_000_000_000 * 400][fault(3) as usize];
        if fault(4) == 1 { pl.short = 5; pl.eintr = 9; pl.fault_seed = Some(fault(1 << 30)); }
        let (e, o) = calm(&d, &p, &pl)?;
        switches += e.switches;
        let got = outcome(&e, &o)?;
        if let Some((w, x)) = same(&want, &got) { return bad(format!("two builds of the same project differ in {w}"), format!("{args:?} {x}\n{}", show(&p))); }
    }
    Ok(Info { nontrivial: switches > 5, key: mix(key(&p), hash_str(&args.join(" "))), sample: Some(format!("{}, {} addons, {} files, {:?}, status {:?}", args.join(" "), p.addons.len(), p.files.len(), p.broken, want.0)) })
}

fn p25() -> Verdict {
    let mut p = project(true);
    tidy(&mut p);
    let (args, cmd) = match gen(7) { 0 | 1 => (vec!["build"], "build"), 2 => (vec!["check"], "check"), 3 => (vec!["dev", "-O"], "dev"), _ => (vec!["release"], "release") };
    let old = genp(1, 3);
    let d = Dir::new();
    let mut pl = plan(&args);
    pl.env = env(1 << 30);
    pl.sched = Some(fault(1 << 30));
    pl.io_gap = 40;
    pl.alloc_gap = 3000;
    pl.args.push("--threads".into());
    pl.args.push((1 + fault(3)).to_string());
    lay(&d, &p);
    if old { stale(&d, &p, cmd); }
    let e = run(&d.path, &pl);
    sound(&e, "a build")?;
    if let Some(x) = &e.panic { return bad(format!("a build panics: {}", simcore::driver::norm(x)), format!("{x}\n{}", show(&p))); }
    let o = results(&d, &p)?;
    let want = outcome(&e, &o)?;
    if want.0 == Some(0) { if let Some((n, _)) = o.iter().find(|(n, x)| **x == Node::File(b"old".to_vec()) && (p.archive || !n.starts_with("releases/"))) { return bad("a build leaves files of an earlier one", n.clone()); } }
    // the trouble
    let mut what = String::new();
    match fault(10) {
        0 => {
            let written: u64 = o.values().map(|x| if let Node::File(b) = x { b.len() as u64 } else { 0 }).sum();
            pl.disk_left = Some(fault(written.max(1)));
            what.push_str("disk full");
        }
        1 => { pl.short = 2 + fault(4); pl.eintr = 4; pl.fault_seed = Some(fault(1 << 30)); what.push_str("short"); }
        _ => {
            let classes: Vec<(u32, u64)> = e.counts.iter().map(|(k, n)| (*k, *n)).filter(|(k, n)| *n > 0 && *k != simcore::fsx::CLOSE).collect();
            let (c, n) = classes[fault(classes.len() as u64) as usize];
            let nth = fault(n);
            let errno = [libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::ENOMEM, libc::EROFS][fault(6) as usize];
            let sticky = fault(4) == 1;
            pl.faults.push((c, nth, sticky, errno, None));
            what.push_str(&format!("{} #{nth} of {n}{}", simcore::fsx::class_name(c), if sticky { " and later" } else { "" }));
        }
    }
    lay(&d, &p);
    if old { stale(&d, &p, cmd); }
    let e2 = run(&d.path, &pl);
    let o2 = results(&d, &p)?;
    sound(&e2, "a build with I/O errors")?;
    let benign = pl.faults.is_empty() && pl.disk_left.is_none();
    if let (true, Some(x)) = (benign, &e2.panic) { return bad("a build panics on short reads", x.clone()); }
    let hit = e2.fired.keys().any(|k| k.starts_with("fs-"));
    if e2.status == Some(0) || benign {
        let (mut want, mut got) = (want, outcome(&e2, &o2)?);
        if !benign { headlines(&mut want); headlines(&mut got); }
        // the vfs library takes a file for absent when it can not be examined
        let blind = pl.faults.iter().any(|f| f.0 & simcore::fsx::STAT != 0);
        if let (false, Some((w, x))) = (blind, same(&want, &got)) { return bad(format!("an I/O error goes unnoticed: {w} differs although the command succeeds"), format!("{args:?}, {what} {:?}: {x}\n{}", pl.faults, show(&p))); }
    } else if cmd == "release" {
        for z in zips(&p) {
            match (o2.get(&z), o.get(&z)) {
                (None, _) => {}
                (Some(Node::File(b)), _) if old && b == b"old" => {}
                (Some(Node::File(b)), Some(Node::File(w))) => {
                    let names = |b: &[u8]| unzip(b).map(|t| t.into_iter().map(|(n, x)| { let s = n.ends_with(".bikey") || n.ends_with(".bisign"); (n, if s { Node::Folder } else { x }) }).collect::<Tree>());
                    match (names(b), names(w)) {
                        (Ok(x), Ok(y)) => if let Some(d) = differs(&y, &x) { return bad("a failed release leaves an incomplete archive", format!("{z} after {what}: {d}")); },
                        (Err(x), _) => return bad("a failed release leaves a damaged archive", format!("{z} after {what}: {x}")),
                        _ => {}
                    }
                }
                (x, _) => return bad("a failed release leaves an archive that was never made", format!("{z} after {what}: {}", matches!(x, Some(Node::File(_))))),
            }
        }
    }
    Ok(Info { nontrivial: hit, key: mix(mix(key(&p), hash_str(&args.join(" "))), hash_str(&what)), sample: Some(format!("{}, {what} -> {:?}{}", args.join(" "), e2.status, if e2.panic.is_some() { " (panic)" } else { "" })) })
}

fn p26() -> Verdict {
    let mut p = project(true);
    tidy(&mut p);
    let (args, cmd) = match gen(6) { 0 | 1 => (vec!["build"], "build"), 2 => (vec!["dev", "-O"], "dev"), 3 => (vec!["check"], "check"), _ => (vec!["release"], "release") };
    let old = genp(1, 3);
    let d = Dir::new();
    let mut pl = plan(&args);
    pl.env = env(1 << 30);
    pl.sched = Some(fault(1 << 30));
    pl.io_gap = 40;
    pl.args.push("--threads".into());
    pl.args.push((1 + fault(3)).to_string());
    let (e, o) = calm(&d, &p, &pl)?;
    let want = outcome(&e, &o)?;
    lay(&d, &p);
    if old { stale(&d, &p, cmd); }
    let mut crashes = vec![];
    // killed once or more often
    let n = 1 + fault(2);
    let mut left = e.mutations;
    for _ in 0..n {
        let k = fault(left.max(1));
        let mut pc = pl.clone();
        pc.crash_at = Some(k);
        pc.fault_seed = Some(fault(1 << 30));
        let e2 = run(&d.path, &pc);
        sound(&e2, "a build that is killed")?;
        crashes.push((k, e2.status));
        if e2.status == Some(99) { simcore::fired("process-killed"); }
        let o2 = results(&d, &p)?;
        if cmd == "release" {
            for z in zips(&p) {
                if let Some(Node::File(b)) = o2.get(&z) {
                    if old && b == b"old" { continue; }
                    let t = match unzip(b) { Ok(t) => t, Err(x) => return bad("a release that was killed leaves a damaged archive", format!("{z} after {crashes:?}: {x}")) };
                    let w: BTreeSet<String> = o.get(&z).and_then(|x| if let Node::File(b) = x { unzip(b).ok() } else { None }).unwrap_or_default().into_keys().collect();
                    let g: BTreeSet<String> = t.into_keys().collect();
                    ensure!(w == g, "a release that was killed leaves an incomplete archive", "{z} after {crashes:?}");
                }
            }
        }
        left = e.mutations;
    }
    let mut pr = plan(&args);
    pr.env = env(1 << 30);
    let e3 = run(&d.path, &pr);
    sound(&e3, "a build after one that was killed")?;
    if let Some(x) = &e3.panic { return bad("a build after one that was killed panics", format!("{x}, after {crashes:?}")); }
    let o3 = results(&d, &p)?;
    let got = outcome(&e3, &o3)?;
    if let Some((w, x)) = same(&want, &got) { return bad(format!("a build after one that was killed differs in {w}"), format!("{args:?} after {crashes:?} of {} mutations: {x}", e.mutations)); }
    Ok(Info { nontrivial: crashes.iter().any(|c| c.1 == Some(99)), key: mix(mix(key(&p), hash_str(&args.join(" "))), hash_str(&format!("{crashes:?}"))), sample: Some(format!("{}, killed at {crashes:?} of {}", args.join(" "), e.mutations)) })
}

pub fn props() -> Vec<Property> {
    const REAL: &[&str] = &["the hemtt command line: context, executor, modules, reports, logging", "all HEMTT libraries", "rayon, vfs, zip, walkdir, rhai above the libc calls"];
    const STUB: &[&str] = &["the Arma 3 wiki database (a fixed selection of commands; no network)", "the file system below the libc calls (real files in a scratch folder; errors, order, short transfers and crashes injected)", "thread scheduling, clocks, randomness"];
    vec![Property {
        id: "P24", rule: "distinct pairs of project and command whose threads were switched more than five times", level: "exploration", real: REAL, stub: STUB,
        assumptions: &["keys and signatures are random; they are compared by name only"],
        scenarios: vec![Scenario::new("twice", 500, 6_000, p24)],
    }, Property {
        id: "P25", rule: "distinct triples of project, command and injected fault in which the fault was hit", level: "fault_enumeration", real: REAL, stub: STUB,
        assumptions: &["a panic that ends the process is a failure status", "one fault (or a lasting one) at a time", "a file that can not be examined (a failing stat) is taken for absent by the vfs library; such faults are only required not to hang or crash the command, or to leave a damaged archive"],
        scenarios: vec![Scenario::new("fault", 900, 12_000, p25)],
    }, Property {
        id: "P26", rule: "distinct triples of project, command and crash points in which the process was killed", level: "fault_enumeration", real: REAL, stub: STUB,
        assumptions: &["what was written before the process was killed is there afterwards, a torn write up to any byte"],
        scenarios: vec![Scenario::new("crash", 600, 8_000, p26)],
    }, Property {
        id: "P29", rule: "distinct pairs of generated project and command built by more than one thread", level: "exploration",
        real: &["the hemtt command line: context, executor, modules, reports", "all libraries"],
        stub: &["the Arma 3 wiki database (a fixed selection of commands)"],
        assumptions: &["binarisation tools are not installed, so models are packed as they are"],
        scenarios: vec![Scenario::new("whole", 600, 6_000, p29)],
    }]
}
