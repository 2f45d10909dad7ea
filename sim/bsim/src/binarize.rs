//! P35: builds of projects with models, with a simulated Arma 3 Tools: what is binarized, and what becomes of it.
use crate::exec::{run, Ended, Plan};
use crate::full::{faithful, key, lay, plan, results, show, sound};
use crate::proj::{project, Project, K};
use crate::util::*;
use simcore::driver::{bad, norm, Info, Property, Scenario, Verdict, Violation};
use simcore::scratch::Dir;
use simcore::sim;
use simcore::tape::{hash_str, mix};
use simcore::{ensure, env, fault, gen, genp};
use std::collections::BTreeSet;

/// A model with one face for each texture and material.
fn mlod(faces: &[(String, String)], mark: u32) -> Vec<u8> {
    let mut o = b"MLOD".to_vec();
    let w = |o: &mut Vec<u8>, x: u32| o.extend(x.to_le_bytes());
    w(&mut o, 257);
    w(&mut o, 1);
    o.extend(b"P3DM");
    for x in [28, 256, 1, 0, faces.len() as u32, 0] { w(&mut o, x); }
    for x in [0, 0, 0, mark] { w(&mut o, x); }
    for (t, m) in faces {
        w(&mut o, 3);
        for _ in 0..16 { w(&mut o, 0); }
        w(&mut o, 0);
        for s in [t, m] { o.extend(s.as_bytes()); o.push(0); }
    }
    o.extend(b"TAGG\x01#EndOfFile#\0");
    w(&mut o, 0);
    w(&mut o, 0);
    o
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Tools { None, Wine, Proton, NoWine }
struct Case { p: Project, args: Vec<String>, cmd: &'static str, tools: Tools, place: u64, want: BTreeSet<(String, String, String)>, missing: BTreeSet<String>, strict: bool, bad: Option<&'static str>, bin: bool, loose: bool, picked: BTreeSet<String> }

fn case() -> Case {
    let mut p = project(false);
    let (mut args, cmd): (Vec<String>, _) = match gen(8) {
        0 | 1 | 2 => (vec!["build".into()], "build"), 3 => (vec!["build".into(), "--no-bin".into()], "build"),
        4 => (vec!["dev".into(), "-O".into(), "--binarize".into()], "dev"), 5 => (vec!["dev".into(), "-O".into()], "dev"), 6 => (vec!["check".into()], "check"), _ => (vec!["release".into()], "release") };
    if cmd == "release" { p.archive = false; args.push("--no-archive".into()); }
    let bin = !args.contains(&"--no-bin".to_string()) && (cmd != "dev" || args.contains(&"--binarize".to_string()));
    let tools = [Tools::Wine, Tools::Wine, Tools::Wine, Tools::Proton, Tools::None, Tools::NoWine][gen(6) as usize];
    let mut want = BTreeSet::new();
    let mut missing = BTreeSet::new();
    let mut wrong: Option<&'static str> = None;
    let opt = ["ignore", "disallow"][gen(2) as usize];
    let section = if cmd == "check" { "[hemtt.check]" } else { "[hemtt.build]" };
    let set = genp(2, 3);
    let strict = set && opt == "disallow";
    if set {
        let mut s = String::from_utf8(p.files[".hemtt/project.toml"].clone()).unwrap();
        if s.contains(section) { s = s.replace(section, &format!("{section}\npdrive = \"{opt}\"")); } else { s.push_str(&format!("{section}\npdrive = \"{opt}\"\n")); }
        p.put(".hemtt/project.toml", s);
    }
    let there: Vec<String> = p.addons.iter().flat_map(|a| a.files.keys().filter(|f| f.ends_with(".paa") || f.ends_with(".rvmat")).map(|f| format!("{}\\{}", a.prefix, f.replace('/', "\\")))).collect();
    let loose = genp(1, 4);
    if loose { p.put("addons/loose.txt", "next to the addons"); }
    let mut addons = std::mem::take(&mut p.addons);
    let ex = p.dev_exclude.clone();
    let mut picked = BTreeSet::new();
    let mut serial = 0u32;
    let dirty = genp(1, 4);
    let own = genp(1, 2);
    for a in &mut addons {
        let dir = format!("{}/{}", if a.optional { "optionals" } else { "addons" }, a.name);
        let built = cmd != "dev" || !ex.contains(&dir);
        if built { picked.insert(a.name.clone()); }
        let mut enabled = true;
        let mut excl: Vec<&str> = vec![];
        if genp(1, 3) {
            let mut t = p.files.get(&format!("{dir}/addon.toml")).map_or(String::new(), |b| String::from_utf8(b.clone()).unwrap());
            t.push_str("[binarize]\n");
            if genp(1, 3) { enabled = genp(1, 2); t.push_str(&format!("enabled = {enabled}\n")); }
            if genp(2, 3) { excl = [vec!["data/*.p3d"], vec!["*.rtm"], vec!["m0.p3d", "anim/m2.rtm"], vec!["**/m1.p3d"], vec!["no such file"]][gen(5) as usize].clone(); t.push_str(&format!("exclude = [{}]\n", excl.iter().map(|e| format!("\"{e}\"")).collect::<Vec<_>>().join(", "))); }
            p.put(format!("{dir}/addon.toml"), t);
            a.files.insert("addon.toml".into(), K::Left);
        }
        let sub = pick(&["", "data", "anim", "data/deep er"]);
        let n = gen(5);
        for k in 0..n {
            serial += 1;
            let at = if genp(1, 3) { pick(&["", "data", "anim", "data/deep er"]) } else { sub };
            let ext = pick(&["p3d", "p3d", "p3d", "rtm", "wrp"]);
            let mut stem = format!("m{k}");
            if dirty && genp(1, 6) && tools != Tools::None && tools != Tools::NoWine { stem = format!("{}{stem}", pick(&["fail", "void"])); }
            else if genp(1, 8) { stem = format!("{}{stem}", pick(&["two words", "a.b", "UPPER"])); }
            let rel = format!("{}{stem}.{ext}", if at.is_empty() { String::new() } else { format!("{at}/") });
            let pats = excl.iter().any(|e| match *e { "data/*.p3d" => rel.starts_with("data/") && rel.ends_with(".p3d"), "*.rtm" => rel.ends_with(".rtm"), "**/m1.p3d" => rel == "m1.p3d" || rel.ends_with("/m1.p3d"), e => rel == e });
            let skip = !enabled || pats;
            let mut faces = vec![];
            let mut lost: Vec<String> = vec![];
            let (mut data, ready): (Vec<u8>, bool) = match ext {
                "rtm" => if genp(1, 3) { (b"BMTR".to_vec(), true) } else { (b"RTM_0101".to_vec(), false) },
                "wrp" => if genp(1, 3) { (b"OPRW".to_vec(), true) } else { (b"8WVR".to_vec(), false) },
                _ => if genp(1, 4) { (b"ODOL".to_vec(), true) } else {
                    for _ in 0..gen(4) {
                        let mut one = |lost: &mut Vec<String>, mat: bool| {
                            let good: Vec<&String> = there.iter().filter(|t| t.ends_with(".rvmat") == mat).collect();
                            match gen(6) {
                                0 | 1 => String::new(),
                                2 if !mat => "#(argb,8,8,3)color(1,1,1,1)".to_string(),
                                3 if genp(1, 2) => { let f = format!("{}\\data\\lost{}.{}", a.prefix, gen(3), if mat { "rvmat" } else { "paa" }); lost.push(f.clone()); f }
                                _ if !good.is_empty() => { let mut f = good[gen(good.len() as u64) as usize].clone(); match gen(5) { 0 if !mat => f = f.replace(".paa", ".tga"), 1 => f = format!("\\{f}"), 2 if !mat => f = f.replace(".paa", ".png"), _ => {} } f }
                                _ => String::new(),
                            }
                        };
                        let t = one(&mut lost, false);
                        let m = one(&mut lost, true);
                        faces.push((t, m));
                    }
                    (mlod(&faces, serial), false)
                }
            };
            if ext != "p3d" || ready { data.extend(serial.to_le_bytes()); data.extend(bytes(gen(600) as usize)); }
            let mut ready = ready;
            if dirty && !skip && built && bin && genp(1, 8) {
                let c = gen(4) as usize;
                if ext == "p3d" && !ready && c == 3 { let n = 5 + gen(data.len() as u64 - 5) as usize; data.truncate(n); wrong = Some("a model that is cut off"); }
                else if c < 3 { data.truncate(c); wrong = Some("a file too short to be a model"); ready = false; }
                lost.clear();
            }
            let kind = if skip || ready || !built || !bin || cmd == "check" || matches!(tools, Tools::None | Tools::NoWine) { K::Plain } else { K::Bin };
            // a model that is looked at has to have what it is made of
            if bin && built && !skip && !ready { missing.extend(lost); }
            if matches!(kind, K::Bin) {
                if stem.starts_with("fail") { wrong = Some("a file the tools fail on"); }
                if stem.starts_with("void") { wrong = Some("a file the tools make nothing of"); }
                let folder = |base: &str, sep: &str| { let mut s = base.to_string(); if !at.is_empty() { s.push_str(sep); s.push_str(&at.replace('/', sep)); } s };
                want.insert((folder(&a.prefix, "\\"), folder(&format!("hemtt_binarize_output\\{}", dir.replace('/', "\\")), "\\"), format!("{stem}.{ext}")));
            }
            let left = matches!(a.files.get(&rel), Some(K::Left));
            p.put(format!("{dir}/{rel}"), data);
            a.files.insert(rel, if left { K::Left } else { kind });
        }
    }
    let _ = own;
    p.addons = addons;
    if strict && !missing.is_empty() { wrong = Some("a texture or material that is missing"); }
    Case { p, args, cmd, tools, place: gen(3), want, missing, strict, bad: wrong, bin, loose, picked }
}
const SCRIPT: &str = r#"
f="$SIM_REAL/binned/$$"
src=$(printf %s "$5" | tr '\\' /); out=$(printf %s "$6" | tr '\\' /)
{ pwd; for a; do printf '%s\0' "$a"; done; } > "$f"
case "$7" in fail*) exit 3;; void*) exit 0;; esac
if [ -f "$src/$7" ]; then { printf BIN:; cat "$src/$7"; } > "$out/$7"; fi
exit 0
"#;
fn tools(d: &Dir, c: &Case) {
    let _g = sim::hold();
    for x in ["bin", "binned", "wine"] { let _ = std::fs::remove_dir_all(format!("{}/{x}", d.path)); }
    for x in ["bin", "binned"] { d.mkdir(x); }
    if c.tools == Tools::None { return; }
    match if c.tools == Tools::Proton { 1 } else { c.place } {
        0 => { d.put("home/.local/share/arma3tools/Binarize/binarize_x64.exe", ""); }
        1 => {
            let s = if c.tools == Tools::Proton { ".local/share/Steam" } else { ".steam/steam" };
            d.put(&format!("home/{s}/steamapps/libraryfolders.vdf"), format!("\"libraryfolders\"\n{{\n\t\"0\"\n\t{{\n\t\t\"path\"\t\t\"/sim/home/{s}\"\n\t\t\"apps\"\n\t\t{{\n\t\t}}\n\t}}\n}}\n"));
            d.put(&format!("home/{s}/steamapps/appmanifest_233800.acf"), "\"AppState\"\n{\n\t\"appid\"\t\t\"233800\"\n\t\"Universe\"\t\t\"1\"\n\t\"name\"\t\t\"Arma 3 Tools\"\n\t\"StateFlags\"\t\t\"4\"\n\t\"installdir\"\t\t\"Arma 3 Tools\"\n}\n");
            d.put(&format!("home/{s}/steamapps/common/Arma 3 Tools/Binarize/binarize_x64.exe"), "");
        }
        _ => { d.put("home/tools/Binarize/binarize_x64.exe", ""); }
    }
    let mut made = vec![];
    if c.tools == Tools::Wine { d.put("bin/wine64", format!("#!/bin/sh\n[ \"$1\" = --version ] && exit 0\nexe=\"$1\"\nshift\n{SCRIPT}")); made.push("bin/wine64"); }
    if c.tools == Tools::Proton {
        let f = "home/.local/share/Steam/steamapps/common/SteamLinuxRuntime_sniper/run";
        d.put(f, format!("#!/bin/sh\n[ \"$1\" = -- ] || exit 9\ncase \"$2\" in */proton) ;; *) exit 9;; esac\n[ \"$3\" = run ] || exit 9\ncase \"$4\" in *binarize_x64.exe) ;; *) exit 9;; esac\nshift 4\n{SCRIPT}"));
        made.push(f);
    }
    use std::os::unix::fs::PermissionsExt;
    for f in made { std::fs::set_permissions(format!("{}/{f}", d.path), std::fs::Permissions::from_mode(0o755)).expect("mode"); }
}
/// What the tools were asked to do.
fn asked(d: &Dir) -> Result<Vec<(String, String, String)>, Violation> {
    let _g = sim::hold();
    let mut v = vec![];
    for e in std::fs::read_dir(format!("{}/binned", d.path)).expect("binned").flatten() {
        let b = String::from_utf8_lossy(&std::fs::read(e.path()).unwrap_or_default()).into_owned();
        let Some((cwd, rest)) = b.split_once('\n') else { continue };
        ensure!(cwd.strip_prefix(&d.path).is_some_and(|c| c.starts_with("/tmp/hemtt/") && !c.contains("..")), "the tools are not run in the temporary folder", "{cwd}");
        let a: Vec<&str> = rest.trim_end_matches('\0').split('\0').collect();
        ensure!(a.len() == 7 && a[..4].contains(&"-norecurse"), "the tools are started in another way", "{a:?}");
        let flat = |s: &str| s.split(['\\', '/']).filter(|x| !x.is_empty()).collect::<Vec<_>>().join("\\");
        v.push((flat(a[4]), flat(a[5]), a[6].to_string()));
    }
    v.sort();
    Ok(v)
}
fn tail(e: &Ended) -> String { let v: Vec<&str> = e.err.lines().chain(e.out.lines()).collect(); v[v.len().saturating_sub(25)..].join("\n") }
fn mk(c: &Case) -> Plan {
    let args: Vec<&str> = c.args.iter().map(String::as_str).collect();
    let mut pl = plan(&args);
    pl.tools = true;
    if c.place == 2 && c.tools != Tools::Proton { pl.vars.push(("HEMTT_BI_TOOLS".into(), "/sim/home/tools".into())); }
    pl
}
/// Everything as it has to be.
fn done(d: &Dir, c: &Case, e: &Ended) -> Result<(), Violation> {
    let got = asked(d)?;
    let want: Vec<_> = c.want.iter().cloned().collect();
    if got != want {
        let (g, w): (BTreeSet<_>, BTreeSet<_>) = (got.iter().collect(), want.iter().collect());
        if let Some(x) = w.difference(&g).next() { return bad("a file is not binarized", format!("{x:?}; {got:?}\n{}", show(&c.p))); }
        if let Some(x) = g.difference(&w).next() { return bad("something is binarized that should not be", format!("{x:?}; {want:?}\n{}", show(&c.p))); }
        return bad("a file is binarized twice", format!("{got:?}"));
    }
    let said = format!("{}{}", e.out, e.err);
    for m in &c.missing { ensure!(said.contains(&m.replace('\\', "/")), "a missing texture or material is not reported", "{m}\n{}", tail(e)); }
    if c.missing.is_empty() { ensure!(!said.contains("BBE4") && !said.contains("BBE5"), "a texture or material is reported missing that is there", "{}\n{}", tail(e), show(&c.p)); }
    if c.cmd != "check" { let o = results(d, &c.p)?; faithful(&c.p, c.cmd, &o, true, &|a| c.picked.contains(&a.name))?; } else { results(d, &c.p)?; }
    if c.bin && !matches!(c.tools, Tools::None) && !c.want.is_empty() {
        // the project as the tools see it
        let _g = sim::hold();
        let t = format!("{}/tmp/hemtt", d.path);
        // (one folder per user, whose name may not be known under faults)
        let below = |p: &std::path::Path| -> Vec<std::path::PathBuf> { std::fs::read_dir(p).map(|r| r.filter_map(|x| x.ok().map(|x| x.path())).collect()).unwrap_or_default() };
        let mut places: Vec<_> = below(std::path::Path::new(&t)).iter().flat_map(|u| below(u)).filter(|x| x.join("hemtt_binarize_output").exists()).collect();
        places.sort_by_key(|x| std::fs::metadata(x).and_then(|m| m.modified()).ok());
        let base = places.pop();
        let Some(base) = base else { return bad("there is no folder for the tools", t) };
        for a in &c.p.addons {
            let l = base.join(a.prefix.replace('\\', "/"));
            let to = std::fs::read_link(&l).map(|x| x.to_string_lossy().into_owned());
            ensure!(to.as_ref().is_ok_and(|t| *t == format!("{}/project/{}/{}", d.path, if a.optional { "optionals" } else { "addons" }, a.name)), "an addon is not at its prefix for the tools", "{}: {to:?}", l.display());
        }
        if c.p.files.keys().any(|f| f.starts_with("include/x/cba/")) { ensure!(base.join("x/cba/addons/main/script_macros_common.hpp").exists(), "what is included is not there for the tools", "{}", base.display()); }
        if c.loose { ensure!(std::fs::read(base.join("loose.txt")).is_ok_and(|b| b == b"next to the addons"), "files next to the addons are not there for the tools", "{}", base.display()); }
    }
    Ok(())
}
/// How it ends without trouble.
fn judge(d: &Dir, c: &Case, e: &Ended) -> Result<(), Violation> {
    sound(e, "a build with models")?;
    if let Some(x) = &e.panic { return bad(format!("a build with models panics: {}", norm(x)), format!("{x} ({:?})\n{}", c.bad, show(&c.p))); }
    if let Some(b) = c.bad {
        ensure!(e.status != Some(0), format!("a build reports success with {b}"), "{}", show(&c.p));
        ensure!(!e.err.trim().is_empty() || !e.out.trim().is_empty(), format!("a build does not say what is wrong with {b}"), "{:?}", e.status);
        if b == "a texture or material that is missing" { ensure!(asked(d)?.is_empty(), "the tools are started although textures are missing", "{}", tail(e)); }
        results(d, &c.p)?;
        return Ok(());
    }
    ensure!(e.status == Some(0), "a build with models fails although nothing is wrong", "{:?} {:?}\n{}\n{}", c.args, e.status, tail(e), show(&c.p));
    done(d, c, e)
}
fn setup(c: &Case, d: &Dir) { lay(d, &c.p); tools(d, c); }
fn sched(pl: &mut Plan) {
    pl.env = env(1 << 30);
    pl.sched = Some(fault(1 << 30));
    pl.shuffle = env(2) == 1;
    pl.io_gap = 40;
    pl.alloc_gap = 3000;
    pl.args.push("--threads".into());
    pl.args.push((1 + fault(5)).to_string());
}
fn id(c: &Case) -> u64 { mix(key(&c.p), hash_str(&format!("{:?}{:?}{}", c.args, c.tools, c.place))) }

fn p35_models() -> Verdict {
    let c = case();
    let d = Dir::new();
    let mut pl = mk(&c);
    sched(&mut pl);
    setup(&c, &d);
    let e = run(&d.path, &pl);
    judge(&d, &c, &e)?;
    Ok(Info { nontrivial: !c.want.is_empty() || c.bad.is_some(), key: id(&c), sample: Some(format!("{} with {:?}: {} models, {:?}, strict {}, {} missing -> {:?}", c.args.join(" "), c.tools, c.want.len(), c.bad, c.strict, c.missing.len(), e.status)) })
}
fn p35_trouble() -> Verdict {
    let c = case();
    let d = Dir::new();
    let mut pl = mk(&c);
    sched(&mut pl);
    setup(&c, &d);
    let e0 = run(&d.path, &pl);
    judge(&d, &c, &e0)?;
    setup(&c, &d);
    if fault(4) == 0 && e0.mutations > 0 {
        // killed, and run again
        let mut p1 = pl.clone();
        p1.crash_at = Some(fault(e0.mutations));
        let e1 = run(&d.path, &p1);
        sound(&e1, "a build with models")?;
        { let _g = sim::hold(); let _ = std::fs::remove_dir_all(format!("{}/binned", d.path)); d.mkdir("binned"); }
        let e = run(&d.path, &pl);
        judge(&d, &c, &e)?;
        return Ok(Info { nontrivial: true, key: mix(id(&c), 77), sample: Some(format!("{} killed at {:?} and run again", c.args.join(" "), p1.crash_at)) });
    }
    let mut what = String::from("short");
    if fault(6) == 0 { pl.short = 2 + fault(4); pl.eintr = 4; pl.fault_seed = Some(fault(1 << 30)); }
    else {
        let classes: Vec<(u32, u64)> = e0.counts.iter().map(|(k, n)| (*k, *n)).filter(|(k, n)| *n > 0 && *k != simcore::fsx::CLOSE).collect();
        let (m, n) = classes[fault(classes.len() as u64) as usize];
        let nth = if fault(2) == 0 { fault(n) } else { n - 1 - fault(n.min(30)) };
        let path = [None, None, Some(".p3d"), Some(".rtm"), Some("hemtt_binarize_output")][fault(5) as usize];
        let nth = if path.is_some() { fault(12) } else { nth };
        pl.faults.push((m, nth, fault(4) == 1, [libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE][fault(4) as usize], path.map(Into::into)));
        what = format!("{} #{nth} of {n} {path:?}", simcore::fsx::class_name(m));
    }
    let e = run(&d.path, &pl);
    sound(&e, "a build with models and I/O errors")?;
    let benign = pl.faults.is_empty();
    let blind = pl.faults.iter().any(|f| f.0 & simcore::fsx::STAT != 0);
    let hit = e.fired.keys().any(|k| k.starts_with("fs-"));
    if let Some(x) = &e.panic { if benign { return bad(format!("a build with models panics: {}", norm(x)), x.clone()); } }
    if benign || !hit { judge(&d, &c, &e)?; }
    else if format!("{}{}", e.out, e.err).contains("BBW1") { /* where the tools are could not be read: the user is told that there are none */ }
    else if e.status == Some(0) && !blind {
        ensure!(c.bad.is_none(), format!("a build reports success with {}", c.bad.unwrap_or("")), "{what}");
        if let Err(mut v) = done(&d, &c, &e) { v.sig = format!("after an I/O error: {}", v.sig); v.detail = format!("{what}: {}", v.detail); return Err(v); }
    }
    Ok(Info { nontrivial: hit, key: mix(id(&c), hash_str(&what)), sample: Some(format!("{} with {what} -> {:?}", c.args.join(" "), e.status)) })
}

pub fn props() -> Vec<Property> {
    vec![Property { id: "P35", rule: "distinct triples of project with its models, tools and command, and trouble", level: "fault_enumeration",
        real: &["the hemtt command line: build, release, dev, check; executor, modules::binarize, pbo, files", "hemtt-p3d reading and search of textures and materials", "hemtt-workspace layers", "std::process above the libc calls"],
        stub: &["Arma 3 Tools, wine and proton (scripts that write down how they were called, mark what they copy, fail, or make nothing)", "the Arma 3 wiki database (a fixed selection of commands; no network)", "the file system below the libc calls (real files in a scratch folder; errors, order, short transfers and crashes injected)", "thread scheduling, clocks, randomness"],
        assumptions: &["a file that can not be examined counts as absent in the vfs library and is not judged"],
        scenarios: vec![Scenario { patience: 200, ..Scenario::new("models", 500, 6_000, p35_models) }, Scenario { patience: 200, ..Scenario::new("trouble", 400, 5_000, p35_trouble) }] }]
}
