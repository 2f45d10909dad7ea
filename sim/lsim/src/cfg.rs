//! P23: project settings. Oracle: the model the settings files are written from; the toml crate for syntax.
use crate::util::*;
use hemtt_common::config::{AddonConfig, LintConfigOverride, PDriveOption, ProjectConfig};
use hemtt_common::prefix::Prefix;
use hemtt_common::BISignVersion;
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::fsx;
use simcore::scratch;
use simcore::sim;
use simcore::simvfs::{self, SimFs, VFault};
use simcore::tape::{hash_str, mix};
use simcore::{ensure, env, fault, gen, genp};
use std::collections::BTreeMap;
use std::path::Path;
use toml::Value;

type Tab = toml::map::Map<String, Value>;
fn s(x: &str) -> Value { Value::String(x.into()) }
fn text() -> String { pick(&["abe", "x", "Advanced Banana Environment", "a \"b\" \\c", "ünï", "z", "a#b", "", "*.psd", "[brackets]", "multi\nline"]).to_string() }
fn texts(n: u64) -> Vec<String> { (0..gen(n)).map(|i| format!("{}{i}", text())).collect() }
fn arr(v: &[String]) -> Value { Value::Array(v.iter().map(|x| s(x)).collect()) }

#[derive(Clone, Debug, PartialEq, Default)]
struct Lint { enabled: Option<bool>, severity: Option<&'static str>, options: Vec<(String, Value)> }
#[derive(Clone, Debug, PartialEq, Default)]
struct Launch { extends: Option<String>, workshop: Vec<String>, dlc: Vec<&'static str>, presets: Vec<String>, optionals: Vec<String>, parameters: Vec<String>, mission: Option<String>, executable: Option<String>, binarize: Option<bool>, file_patching: Option<bool>, instances: Option<u8>, rapify: Option<bool> }
#[derive(Clone, Debug, PartialEq, Default)]
struct M {
    name: String, prefix: String, mainprefix: Option<String>,
    version: Option<(u32, u32, u32, Option<u32>)>, vpath: Option<String>, git: u8,
    properties: BTreeMap<String, String>, include: Vec<String>, exclude: Vec<String>,
    lints: [BTreeMap<String, Lint>; 3], launch: BTreeMap<String, Launch>,
    check_pdrive: Option<&'static str>, build_pdrive: Option<&'static str>, optional_mod_folders: Option<bool>, dev: Vec<String>,
    folder: Option<String>, sign: Option<bool>, archive: Option<bool>, sig: Option<u32>, authority: Option<String>,
}
fn opt<T>(f: impl FnOnce() -> T) -> Option<T> { if genp(1, 3) { Some(f()) } else { None } }
fn flag() -> bool { gen(2) == 1 }
fn lint() -> Lint {
    match gen(3) {
        0 => Lint { enabled: Some(flag()), ..Lint::default() },
        1 => Lint { severity: Some(pick(&["Warning", "Error", "Help"])), ..Lint::default() },
        _ => Lint { enabled: opt(flag), severity: opt(|| pick(&["Warning", "Error", "Help"])), options: (0..gen(3)).map(|i| (format!("o{i}"), match gen(3) { 0 => Value::Integer(gen(99) as i64), 1 => s(&text()), _ => arr(&texts(3)) })).collect() },
    }
}
const DLC: [(&str, &str); 8] = [("contact", "contact"), ("gm", "gm"), ("vn", "vn"), ("csla", "csla"), ("ws", "ws"), ("spe", "spe"), ("rf", "rf"), ("ef", "ef")];
fn launch(i: usize, n: usize) -> Launch {
    let ids = |k: u64| (0..gen(k)).map(|_| pick(&["450814997", "b", "a", "z", "450814997", "3"]).to_string()).collect::<Vec<_>>();
    Launch { extends: if n > 1 && genp(1, 2) { Some(if i > 0 && genp(9, 10) { format!("p{}", gen(i as u64)) } else { format!("p{}", gen(n as u64 + 1)) }) } else { None },
        workshop: ids(4), dlc: (0..gen(3)).map(|_| pick(&DLC).0).collect(), presets: ids(3), optionals: ids(3), parameters: ids(3), mission: opt(text), executable: opt(|| pick(&["arma3profiling_x64", "x.exe", "Y.EXE"]).to_string()),
        binarize: opt(flag), file_patching: opt(flag), instances: opt(|| gen(4) as u8), rapify: opt(flag) }
}
fn model() -> M {
    let keys = ["mod", "version", "a b", "author", "ü"];
    let nl = gen(5) as usize;
    let def = genp(1, 2);
    M { name: text(), prefix: pick(&["abe", "x", "ünï", "a_b"]).into(), mainprefix: opt(|| "z".to_string()),
        version: if def { Some((gen(9) as u32, gen(1 << 32) as u32, gen(9) as u32, opt(|| gen(1 << 32) as u32))) } else { None }, vpath: if def { None } else { opt(|| pick(&["addons/main/v.hpp", "v.hpp", "addons\\main\\v.hpp"]).to_string()) }, git: 0,
        properties: (0..gen(4)).map(|_| (pick(&keys).to_string(), text())).collect(), include: texts(3), exclude: texts(3),
        lints: std::array::from_fn(|_| if genp(1, 2) { (0..gen(4)).map(|i| (format!("lint_{i}"), lint())).collect() } else { BTreeMap::new() }),
        launch: (0..nl).map(|i| (format!("p{i}"), launch(i, nl))).collect(),
        check_pdrive: opt(|| pick(&["disallow", "ignore", "require", "Require"])), build_pdrive: opt(|| pick(&["disallow", "ignore", "require", "IGNORE"])), optional_mod_folders: opt(flag), dev: texts(3),
        folder: opt(text), sign: opt(flag), archive: opt(flag), sig: opt(|| 2 + gen(2) as u32), authority: opt(text) }
}
fn lint_tab(l: &BTreeMap<String, Lint>) -> Value {
    Value::Table(l.iter().map(|(k, l)| (k.clone(), match l {
        Lint { enabled: Some(e), severity: None, options } if options.is_empty() && k != "lint_3" => Value::Boolean(*e),
        Lint { enabled: None, severity: Some(v), options } if options.is_empty() && k != "lint_3" => s(v),
        l => {
            let mut t = Tab::new();
            if let Some(e) = l.enabled { t.insert("enabled".into(), Value::Boolean(e)); }
            if let Some(e) = l.severity { t.insert("severity".into(), s(e)); }
            if !l.options.is_empty() { t.insert("options".into(), Value::Table(l.options.iter().cloned().collect())); }
            Value::Table(t)
        }
    })).collect())
}
fn lints_tab(m: &M) -> Tab {
    ["config", "sqf", "stringtables"].iter().zip(&m.lints).filter(|(_, l)| !l.is_empty()).map(|(k, l)| (k.to_string(), lint_tab(l))).collect()
}
fn launch_tab(m: &M) -> Tab {
    m.launch.iter().map(|(k, l)| {
        let mut t = Tab::new();
        let mut put = |k: &str, v: Option<Value>| { if let Some(v) = v { t.insert(k.into(), v); } };
        let list = |v: &Vec<String>| if v.is_empty() { None } else { Some(arr(v)) };
        put("extends", l.extends.as_deref().map(s));
        put("workshop", list(&l.workshop));
        put("dlc", list(&l.dlc.iter().map(|d| d.to_string()).collect()));
        put("presets", list(&l.presets));
        put("optionals", list(&l.optionals));
        put("parameters", list(&l.parameters));
        put("mission", l.mission.as_deref().map(s));
        put("executable", l.executable.as_deref().map(s));
        put("binarize", l.binarize.map(Value::Boolean));
        put("file_patching", l.file_patching.map(Value::Boolean));
        put("instances", l.instances.map(|i| Value::Integer(i.into())));
        put("rapify", l.rapify.map(Value::Boolean));
        (k.clone(), Value::Table(t))
    }).collect()
}
fn project_tab(m: &M, lints: bool, launch: bool) -> Tab {
    let mut t = Tab::new();
    t.insert("name".into(), s(&m.name));
    t.insert("prefix".into(), s(&m.prefix));
    if let Some(p) = &m.mainprefix { t.insert("mainprefix".into(), s(p)); }
    let mut v = Tab::new();
    if let Some((a, b, c, d)) = m.version { for (k, x) in [("major", a), ("minor", b), ("patch", c)] { v.insert(k.into(), Value::Integer(x.into())); } if let Some(d) = d { v.insert("build".into(), Value::Integer(d.into())); } }
    if let Some(p) = &m.vpath { v.insert("path".into(), s(p)); }
    v.insert("git_hash".into(), Value::Integer(m.git.into()));
    t.insert("version".into(), Value::Table(v));
    if !m.properties.is_empty() { t.insert("properties".into(), Value::Table(m.properties.iter().map(|(k, v)| (k.clone(), s(v))).collect())); }
    let mut f = Tab::new();
    if !m.include.is_empty() { f.insert("include".into(), arr(&m.include)); }
    if !m.exclude.is_empty() { f.insert("exclude".into(), arr(&m.exclude)); }
    if !f.is_empty() { t.insert("files".into(), Value::Table(f)); }
    if lints && !lints_tab(m).is_empty() { t.insert("lints".into(), Value::Table(lints_tab(m))); }
    let mut h = Tab::new();
    if let Some(p) = m.check_pdrive { h.insert("check".into(), Value::Table([("pdrive".to_string(), s(p))].into_iter().collect())); }
    let mut b = Tab::new();
    if let Some(p) = m.build_pdrive { b.insert("pdrive".into(), s(p)); }
    if let Some(p) = m.optional_mod_folders { b.insert("optional_mod_folders".into(), Value::Boolean(p)); }
    if !b.is_empty() { h.insert("build".into(), Value::Table(b)); }
    if !m.dev.is_empty() { h.insert("dev".into(), Value::Table([("exclude".to_string(), arr(&m.dev))].into_iter().collect())); }
    let mut r = Tab::new();
    if let Some(p) = &m.folder { r.insert("folder".into(), s(p)); }
    if let Some(p) = m.sign { r.insert("sign".into(), Value::Boolean(p)); }
    if let Some(p) = m.archive { r.insert("archive".into(), Value::Boolean(p)); }
    if !r.is_empty() { h.insert("release".into(), Value::Table(r)); }
    if launch && !m.launch.is_empty() { h.insert("launch".into(), Value::Table(launch_tab(m))); }
    if !h.is_empty() { t.insert("hemtt".into(), Value::Table(h)); }
    let mut g = Tab::new();
    if let Some(v) = m.sig { g.insert("version".into(), Value::Integer(v.into())); }
    if let Some(v) = &m.authority { g.insert("authority".into(), s(v)); }
    if !g.is_empty() { t.insert("signing".into(), Value::Table(g)); }
    t
}
/// Toml text in some spelling.
fn emit(t: &Tab) -> String {
    let mut o = if genp(1, 2) { toml::to_string(t).expect("toml") } else { toml::to_string_pretty(t).expect("toml") };
    if genp(1, 4) { o = format!("# settings\n\n{o}# end"); }
    if genp(1, 6) && !o.contains("\"\"\"") { o = o.replace('\n', "\r\n"); }
    o
}
struct Proj { files: Vec<(&'static str, String)>, reject: Option<&'static str> }
fn layout(m: &M) -> Proj {
    let (sl, sp) = (gen(3), gen(3));
    let has_lints = !lints_tab(m).is_empty();
    let mut files = vec![("project.toml", emit(&project_tab(m, sl != 1, sp != 1)))];
    let mut reject = None;
    if sl == 1 || (sl == 2 && genp(1, 6)) {
        files.push(("lints.toml", emit(&lints_tab(m))));
        if sl == 2 && has_lints { reject = Some("lint settings in two places"); }
    }
    if sp == 1 || (sp == 2 && genp(1, 6)) {
        files.push(("launch.toml", emit(&launch_tab(m))));
        if sp == 2 && !m.launch.is_empty() { reject = Some("launch settings in two places"); }
    }
    for k in m.launch.keys() {
        let mut at = k;
        for n in 0.. {
            let Some(l) = m.launch.get(at) else { reject = reject.or(Some("launch settings extend missing settings")); break };
            let Some(e) = &l.extends else { break };
            if n > m.launch.len() { reject = reject.or(Some("launch settings extend each other in a circle")); break; }
            at = e;
        }
    }
    if m.prefix.is_empty() { reject = Some("empty prefix"); }
    Proj { files, reject }
}
fn load(dir: &str) -> Result<Result<ProjectConfig, String>, Violation> {
    run("loading project settings", || ProjectConfig::from_file(&Path::new(dir).join("project.toml")).map_err(|e| e.to_string()))
}
fn cmp_lint(sect: &str, got: &std::collections::HashMap<String, LintConfigOverride>, want: &BTreeMap<String, Lint>) -> Result<(), Violation> {
    let names: std::collections::BTreeSet<_> = got.keys().cloned().collect();
    ensure!(names == want.keys().cloned().collect(), "a recorded lint setting is lost", "{sect}: {names:?} instead of {:?}", want.keys());
    for (k, w) in want {
        let g = &got[k];
        let sev = g.severity().map(|s| format!("{s:?}"));
        ensure!(g.enabled() == w.enabled && sev.as_deref() == w.severity, "a lint setting is wrong", "{sect}.{k}: {g:?} instead of {w:?}");
        for (o, v) in &w.options { ensure!(g.option(o) == Some(v), "a lint option is wrong", "{sect}.{k}.{o}: {:?} instead of {v:?}", g.option(o)); }
    }
    Ok(())
}
fn pd(p: Option<&str>) -> PDriveOption { match p.map(str::to_lowercase).as_deref() { Some("disallow") => PDriveOption::Disallow, Some("require") => PDriveOption::Require, _ => PDriveOption::Ignore } }
fn same(c: &ProjectConfig, m: &M) -> Result<(), Violation> {
    macro_rules! eq { ($what:expr, $got:expr, $want:expr) => { let (g, w) = ($got, $want); ensure!(g == w, concat!("a recorded setting is wrong: ", $what), "{g:?} instead of {w:?}"); } }
    eq!("name", c.name(), &m.name);
    eq!("prefix", c.prefix(), &m.prefix);
    eq!("mainprefix", c.mainprefix(), m.mainprefix.as_ref());
    eq!("properties", c.properties().iter().map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<_, _>>(), m.properties.clone());
    eq!("version.path", c.version().path(), m.vpath.clone().unwrap_or_else(|| "addons/main/script_version.hpp".into()).replace('\\', "/"));
    eq!("version.git_hash", c.version().git_hash(), None::<u8>);
    let mut inc: Vec<String> = m.include.iter().map(|i| if i.starts_with('/') { i.clone() } else { format!("/{i}") }).chain(["/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"].map(String::from)).collect();
    inc.sort();
    inc.dedup();
    let mut got = c.files().include().to_vec();
    got.sort();
    eq!("files.include", got, inc);
    eq!("files.exclude", c.files().exclude(), &m.exclude[..]);
    cmp_lint("config", c.lints().config(), &m.lints[0])?;
    cmp_lint("sqf", c.lints().sqf(), &m.lints[1])?;
    cmp_lint("stringtables", c.lints().stringtables(), &m.lints[2])?;
    eq!("check.pdrive", *c.hemtt().check().pdrive(), pd(m.check_pdrive));
    eq!("build.pdrive", *c.hemtt().build().pdrive(), pd(m.build_pdrive));
    eq!("build.optional_mod_folders", c.hemtt().build().optional_mod_folders(), m.optional_mod_folders.unwrap_or(true));
    eq!("dev.exclude", c.hemtt().dev().exclude(), &m.dev[..]);
    eq!("release.folder", c.hemtt().release().folder(), m.folder.as_ref().unwrap_or(&m.prefix).as_str());
    eq!("release.sign", c.hemtt().release().sign(), m.sign.unwrap_or(true));
    eq!("release.archive", c.hemtt().release().archive(), m.archive.unwrap_or(true));
    eq!("signing.version", c.signing().version(), match m.sig { Some(2) => BISignVersion::V2, _ => BISignVersion::V3 });
    eq!("signing.authority", c.signing().authority(), m.authority.as_ref());
    let names = |i: &mut dyn Iterator<Item = &String>| i.cloned().collect::<std::collections::BTreeSet<_>>();
    eq!("launch", names(&mut c.hemtt().launch().keys()), names(&mut m.launch.keys()));
    for (k, l) in &m.launch {
        let g = &c.hemtt().launch()[k];
        // everything along the chain
        let mut chain = vec![l];
        while let Some(e) = &chain[chain.len() - 1].extends { chain.push(&m.launch[e]); }
        let all = |f: &dyn Fn(&Launch) -> Vec<String>| chain.iter().flat_map(|l| f(l)).collect::<std::collections::BTreeSet<_>>();
        let bag = |v: &[String]| { let n = v.len(); let b: std::collections::BTreeSet<String> = v.iter().cloned().collect(); (b.clone(), b.len() == n) };
        eq!("launch.workshop", bag(g.workshop()), (all(&|l| l.workshop.clone()), true));
        eq!("launch.presets", bag(g.presets()), (all(&|l| l.presets.clone()), true));
        eq!("launch.optionals", bag(g.optionals()), (all(&|l| l.optionals.clone()), true));
        eq!("launch.parameters", bag(g.parameters()), (all(&|l| l.parameters.clone()), true));
        eq!("launch.dlc", bag(&g.dlc().iter().map(|d| d.to_mod().to_string()).collect::<Vec<_>>()), (all(&|l| l.dlc.iter().map(|d| d.to_string()).collect()), true));
        let exe = chain.iter().find_map(|l| l.executable.clone()).unwrap_or_else(|| "arma3_x64".into());
        eq!("launch.executable", g.executable(), if exe.to_lowercase().ends_with(".exe") { exe } else { format!("{exe}.exe") });
        eq!("launch.mission", g.mission(), chain.iter().find_map(|l| l.mission.as_ref()));
        eq!("launch.binarize", g.binarize(), chain.iter().find_map(|l| l.binarize).unwrap_or(false));
        eq!("launch.file_patching", g.file_patching(), chain.iter().find_map(|l| l.file_patching).unwrap_or(true));
        eq!("launch.instances", g.instances(), chain.iter().find_map(|l| l.instances).unwrap_or(1));
        eq!("launch.rapify", g.rapify(), chain.iter().find_map(|l| l.rapify).unwrap_or(true));
    }
    Ok(())
}
fn place(d: &scratch::Dir, p: &Proj) { for (n, t) in &p.files { d.put(&format!(".hemtt/{n}"), t); } }
fn p23_project() -> Verdict {
    let m = model();
    let p = layout(&m);
    let d = scratch::Dir::new();
    place(&d, &p);
    let fs = fsx::enable(&d.path);
    (fs.short, fs.eintr) = ([0, 2][gen(2) as usize], [0, 5][gen(2) as usize]);
    let dir = format!("{}/.hemtt", d.path);
    simcore::alloc::limit(1 << 28, 1 << 30);
    let r = load(&dir)?;
    sim::reseed_env(env(1 << 40));
    let dir2 = dir.clone();
    let again = match std::thread::spawn(move || load(&dir2)).join() { Ok(r) => r?, Err(_) => return bad("loading project settings panics", "") };
    simcore::alloc::unlimit();
    match (&r, p.reject) {
        (Ok(_), Some(why)) => return bad(format!("contradictory settings are accepted: {why}"), format!("{:?}", p.files)),
        (Err(e), None) => return bad("loading project settings fails although nothing is wrong", format!("{e}: {:?}", p.files)),
        (Ok(c), None) => { same(c, &m)?; ensure!(again.as_ref() == Ok(c), "loading the same settings twice gives different results", "{again:?}"); }
        (Err(_), Some(_)) => ensure!(again.is_err(), "loading the same settings twice gives different results", "{r:?} / {again:?}"),
    }
    Ok(Info { nontrivial: true, key: hash_str(&format!("{m:?}{}", p.files.len())), sample: Some(format!("{} files, {} bytes, {} launch presets, {:?}", p.files.len(), p.files[0].1.len(), m.launch.len(), p.reject)) })
}
fn arm(fs: &mut fsx::Fs, max: u64) {
    let mask = [fsx::STAT, fsx::OPEN_R, fsx::READ, fsx::STAT | fsx::OPEN_R | fsx::READ][fault(4) as usize];
    let errno = [libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOMEM, libc::ESTALE][fault(5) as usize];
    fs.faults.push(fsx::Fault { mask, nth: fault(max), sticky: fault(3) == 1, errno, path: None, seen: 0, fired: 0 });
}
fn p23_faults() -> Verdict {
    let m = model();
    let p = layout(&m);
    let d = scratch::Dir::new();
    place(&d, &p);
    let fs = fsx::enable(&d.path);
    arm(fs, 16);
    let dir = format!("{}/.hemtt", d.path);
    simcore::alloc::limit(1 << 28, 1 << 30);
    let r = load(&dir)?;
    let fired = fsx::fs().unwrap().faults.iter().any(|f| f.fired > 0);
    fsx::fs().unwrap().faults.clear();
    match &r {
        Ok(_) if p.reject.is_some() => return bad(if fired { "an unreadable settings file is treated as missing" } else { "contradictory settings are accepted" }, format!("{:?} {:?}", p.reject, p.files)),
        Ok(c) => same(c, &m).map_err(|v| if fired { Violation { sig: "an unreadable settings file is treated as missing".into(), detail: format!("{}: {}", v.sig, v.detail) } } else { v })?,
        Err(e) => ensure!(fired || p.reject.is_some(), "loading project settings fails although nothing is wrong", "{e}"),
    }
    // the fault is over: nothing lingers
    match load(&dir)? { Ok(c) => { ensure!(p.reject.is_none(), "contradictory settings are accepted", "{:?}", p.files); same(&c, &m)?; } Err(e) => ensure!(p.reject.is_some(), "loading project settings fails although nothing is wrong any more", "{e}") }
    Ok(Info { nontrivial: fired, key: mix(hash_str(&format!("{m:?}")), u64::from(r.is_err())), sample: Some(format!("fault fired {fired}, load {}", if r.is_ok() { "complete" } else { "failed" })) })
}
/// Files that are cut off or hold values of the wrong kind.
fn p23_damage() -> Verdict {
    let mut m = model();
    for l in m.launch.values_mut() { l.extends = None; }
    let mut p = layout(&m);
    while p.reject.is_some() { let keep = p.files[0].clone(); p = Proj { files: vec![keep], reject: None }; }
    let i = fault(p.files.len() as u64) as usize;
    let t = p.files[i].1.clone();
    let what;
    if fault(3) > 0 {
        let mut k = fault(t.len() as u64 + 1) as usize;
        while !t.is_char_boundary(k) { k -= 1; }
        p.files[i].1.truncate(k);
        what = format!("cut at {k} of {}", t.len());
    } else {
        let lines: Vec<&str> = t.lines().collect();
        if lines.is_empty() { return Ok(Info::default()); }
        let k = fault(lines.len() as u64) as usize;
        let junk = ["= 5", "[", "x = ", "]]", "\u{0}", "a = 1 b = 2", "\"unclosed", "[hemtt", "name = 5"];
        let mut l2: Vec<&str> = lines.clone();
        l2.insert(k, junk[fault(junk.len() as u64) as usize]);
        p.files[i].1 = l2.join("\n");
        what = format!("junk at line {k}");
    }
    let d = scratch::Dir::new();
    place(&d, &p);
    let fs = fsx::enable(&d.path);
    fs.short = [0, 2][gen(2) as usize];
    let r = load(&format!("{}/.hemtt", d.path))?;
    let broken = toml::from_str::<Tab>(&p.files[i].1).is_err();
    ensure!(!(broken && r.is_ok()), "a damaged settings file is accepted", "{}, {what}: {:?}", p.files[i].0, p.files[i].1);
    // a cut that still parses may only lose what was cut off: what is loaded is what the remaining text says
    if !broken && i == 0 {
        if let (Ok(c), Ok(t)) = (&r, toml::from_str::<Tab>(&p.files[0].1)) {
            ensure!(Some(c.name().as_str()) == t["name"].as_str(), "a settings file is misread", "{:?}", c.name());
            let n = t.get("properties").and_then(Value::as_table).map_or(0, Tab::len);
            ensure!(c.properties().len() == n, "a settings file is misread", "{:?}", c.properties());
        }
    }
    sim::fired(if broken { "settings-file-broken" } else { "settings-file-shortened" });
    Ok(Info { nontrivial: broken, key: hash_str(&p.files[i].1), sample: Some(what) })
}
fn p23_addon() -> Verdict {
    let (rap, bin) = (opt(flag), opt(flag));
    let (re, be, nb, ex, fe) = (texts(3), texts(3), texts(3), texts(3), texts(3));
    let props: BTreeMap<String, String> = (0..gen(3)).map(|i| (format!("k{i}"), text())).collect();
    let mut t = Tab::new();
    let sect = |e: Option<bool>, x: &Vec<String>| { let mut t = Tab::new(); if let Some(e) = e { t.insert("enabled".into(), Value::Boolean(e)); } if !x.is_empty() { t.insert("exclude".into(), arr(x)); } t };
    if rap.is_some() || !re.is_empty() { t.insert(if genp(1, 4) { "preprocess" } else { "rapify" }.into(), Value::Table(sect(rap, &re))); }
    if bin.is_some() || !be.is_empty() { t.insert("binarize".into(), Value::Table(sect(bin, &be))); }
    if !nb.is_empty() { t.insert("no_bin".into(), arr(&nb)); }
    if !ex.is_empty() { t.insert("exclude".into(), arr(&ex)); }
    if !fe.is_empty() { t.insert("files".into(), Value::Table(sect(None, &fe))); }
    if !props.is_empty() { t.insert("properties".into(), Value::Table(props.iter().map(|(k, v)| (k.clone(), s(v))).collect())); }
    let mut txt = emit(&t);
    let d = scratch::Dir::new();
    let cut = fault(4) == 1;
    if cut { let mut k = fault(txt.len() as u64 + 1) as usize; while !txt.is_char_boundary(k) { k -= 1; } txt.truncate(k); sim::fired("settings-file-shortened"); }
    d.put("addon.toml", &txt);
    let fs = fsx::enable(&d.path);
    fs.short = [0, 2][gen(2) as usize];
    let armed = fault(3) == 1;
    if armed { arm(fs, 6); }
    let r = run("loading addon settings", || AddonConfig::from_file(&Path::new(&d.path).join("addon.toml")).map_err(|e| e.to_string()))?;
    let fired = armed && fsx::fs().unwrap().faults[0].fired > 0;
    let broken = toml::from_str::<Tab>(&txt).is_err();
    match r {
        Err(e) => ensure!(fired || cut, "loading addon settings fails although nothing is wrong", "{e}: {txt}"),
        Ok(c) => {
            ensure!(!broken, "a damaged settings file is accepted", "{txt:?}");
            if !cut {
                let cat = |a: &Vec<String>, b: &Vec<String>| { let mut v = a.clone(); v.extend(b.clone()); v.sort(); v };
                let sorted = |v: &Vec<String>| { let mut v = v.clone(); v.sort(); v };
                ensure!(c.rapify().enabled() == rap.unwrap_or(true) && c.rapify().exclude() == &re, "an addon setting is wrong: rapify", "{c:?}");
                ensure!(c.binarize().enabled() == bin.unwrap_or(true) && sorted(c.binarize().exclude()) == cat(&be, &nb), "an addon setting is wrong: binarize", "{c:?}");
                ensure!(sorted(c.files().exclude()) == cat(&fe, &ex), "an addon setting is wrong: files.exclude", "{c:?}");
                ensure!(c.properties().iter().map(|(k, v)| (k.clone(), v.clone())).collect::<BTreeMap<_, _>>() == props, "an addon setting is wrong: properties", "{c:?}");
            }
        }
    }
    Ok(Info { nontrivial: !t.is_empty(), key: hash_str(&txt) ^ u64::from(fired), sample: None })
}
fn p23_prefix() -> Verdict {
    let parts: Vec<&str> = (0..1 + gen(4)).map(|i| if i == 0 { pick(&["z", "x", "ü", "abe_main"]) } else { pick(&["abe", "addons", "main", "a b", "ÜX"]) }).collect();
    let good = parts.join("\\");
    let nl = pick(&["\n", "\r\n"]);
    let (txt, want): (String, Option<String>) = match gen(9) {
        0 => (good.clone(), Some(good)),
        1 => (format!("{good}{nl}"), Some(good)),
        2 => (format!("prefix={good}{nl}"), Some(good)),
        3 => (format!("version=3{nl}  PREFIX = {good}{nl}author=x{nl}"), Some(good)),
        4 => (format!("{nl}{}", [" ", "\t", ""][gen(3) as usize]), None),
        5 => (format!("\\{good}"), None),
        6 => (good.replace('\\', "/") + "/x", None),
        7 => (format!("version=3{nl}author=x{nl}"), None),
        _ => (format!("prefix={}{nl}", pick(&["", " "])), None),
    };
    let r = run("reading a prefix", || Prefix::new(&txt).map_err(|e| e.to_string()))?;
    match (&r, &want) {
        (Ok(p), Some(w)) => ensure!(p.to_string() == *w && p.main_prefix() == parts[0] && p.mod_prefix() == parts.get(1).copied() && p.as_pathbuf().iter().count() == parts.len(), "a prefix is misread", "{txt:?}: {p:?}"),
        (Err(e), Some(_)) => return bad("a valid prefix is rejected", format!("{txt:?}: {e}")),
        (Ok(p), None) => return bad("an invalid prefix is accepted", format!("{txt:?}: {p:?}")),
        (Err(_), None) => {}
    }
    Ok(Info { nontrivial: true, key: hash_str(&txt), sample: Some(format!("{txt:?}")) })
}
fn p23_version() -> Verdict {
    let m = M { version: None, launch: BTreeMap::new(), lints: Default::default(), ..model() };
    let d = scratch::Dir::new();
    d.put(".hemtt/project.toml", emit(&project_tab(&m, true, true)));
    let c = must("loading project settings", || ProjectConfig::from_file(&Path::new(&d.path).join(".hemtt/project.toml")))?;
    let v = [gen(99) as u32, gen(1 << 32) as u32, gen(9) as u32, gen(9) as u32];
    let build = flag();
    let mut lines = vec![format!("#define MAJOR {}", v[0]), format!("#define MINOR {}", v[1]), format!("#define {} {}", pick(&["PATCH", "PATCHLVL"]), v[2])];
    if build { lines.push(format!("#define BUILD {}", v[3])); }
    for i in (1..lines.len()).rev() { let j = gen(i as u64 + 1) as usize; lines.swap(i, j); }
    let missing = genp(1, 6);
    if missing { let k = lines.iter().position(|l| !l.contains("BUILD")).unwrap(); lines.remove(k); }
    if genp(1, 3) { lines.insert(0, "// version".into()); }
    let txt: String = lines.iter().map(|l| format!("{}{l}{}{}", pick(&["", "  ", "\t"]), pick(&["", " // note", "  "]), pick(&["\n", "\r\n"]))).collect();
    let fs = SimFs::new();
    let absent = genp(1, 10);
    let path = m.vpath.clone().unwrap_or_else(|| "addons/main/script_version.hpp".into()).replace('\\', "/");
    if !absent { fs.put(&path, txt.clone()); }
    fs.with(|s| s.benign = Some(simcore::streams::Plan::benign()));
    let armed = fault(3) > 0;
    if armed {
        let mask = [simvfs::EXISTS, simvfs::OPEN, simvfs::READ][fault(3) as usize];
        let mut plan = simcore::streams::Plan::failing(txt.len() as u64, false);
        // a file that merely ends early may still be complete as far as anybody can tell
        if let Some((at, simcore::streams::Fail::End)) = &plan.fail_at_byte { plan.fail_at_byte = Some((*at, simcore::streams::Fail::Error)); }
        fs.with(|s| s.faults = vec![VFault { mask, nth: fault(3), sticky: fault(2) == 1, path: None, seen: 0, fired: 0, plan: Some(plan) }]);
    }
    c.version().invalidate();
    let root: vfs::VfsPath = fs.clone().into();
    // several tasks ask at the same time
    let nth = 1 + gen(3) as usize;
    sim::set_opts(|o| { o.alloc_gap = 7; o.io_gap = 2; });
    let hs: Vec<_> = (0..nth).map(|_| { let (c, root) = (c.clone(), root.clone()); std::thread::spawn(move || c.version().get(&root).map(|v| v.to_string()).map_err(|e| e.to_string())) }).collect();
    let mut got = vec![];
    for h in hs { match h.join() { Ok(r) => got.push(r), Err(_) => return bad("reading the version panics", "") } }
    sim::set_opts(|o| { o.alloc_gap = 0; o.io_gap = 0; });
    let fired = fs.with(|s| s.faults.iter().any(|f| f.fired > 0));
    let want = format!("{}.{}.{}{}", v[0], v[1], v[2], if build { format!(".{}", v[3]) } else { String::new() });
    for r in &got {
        match r {
            Ok(x) => { ensure!(!absent && !missing, "a version is reported although none is recorded", "{x} from {txt:?}"); ensure!(*x == want, "the version is misread", "{x} instead of {want}: {txt:?}"); }
            Err(e) => ensure!(fired || absent || missing, "reading the version fails although nothing is wrong", "{e}: {txt:?}"),
        }
    }
    fs.with(|s| s.faults.clear());
    let after = run("reading the version", || c.version().get(&root).map(|v| v.to_string()).map_err(|e| e.to_string()))?;
    match after { Ok(x) => ensure!(x == want && !absent && !missing, "the version is misread", "{x} instead of {want}"), Err(e) => ensure!(absent || missing, "reading the version fails although nothing is wrong any more", "{e}") }
    c.version().invalidate();
    Ok(Info { nontrivial: true, key: hash_str(&format!("{txt}{absent}{fired}{nth}")), sample: Some(format!("{want} {absent} {missing}")) })
}

const COMMIT: &str = "ee85e2f40bbaf39bd1ca793949cbb6f05eba0b31";
const COMMIT_OBJECT: &str = "78017dcc310a80300c4051e79e22bb4b5ad398828857696a440711a482c7573c807f7efc72ecfb56c17b6eea6906a412e25c984251364d19192d922e32730a228b9a514272f9aaeb714286214f3a828f7d2f1d0b22b4f8e6ca37aef643dced1e10fc21ff";
const TREE_OBJECT: &str = "78012b294a4d55306000000a2c0201";
fn unhex(h: &str) -> Vec<u8> { (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn repository(d: &scratch::Dir) {
    match gen(3) {
        0 => d.put(".git/HEAD", format!("{COMMIT}\n")),
        1 => { d.put(".git/HEAD", "ref: refs/heads/main\n"); d.put(".git/refs/heads/main", format!("{COMMIT}\n")); }
        _ => { d.put(".git/HEAD", "ref: refs/heads/main\n"); d.put(".git/packed-refs", format!("# pack-refs with: peeled fully-peeled sorted \n{COMMIT} refs/heads/main\n")); }
    };
    d.put(".git/refs/heads/other", format!("{}\n", "4b825dc642cb6eb9a060e54bf8d69288fbee4904"));
    d.put(".git/config", "[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n");
    d.put(&format!(".git/objects/{}/{}", &COMMIT[..2], &COMMIT[2..]), &unhex(COMMIT_OBJECT));
    d.put(".git/objects/4b/825dc642cb6eb9a060e54bf8d69288fbee4904", &unhex(TREE_OBJECT));
}
/// The build part of the version is the commit that is checked out, cut to the length the settings ask for.
fn p23_hash() -> Verdict {
    let m = M { version: Some((gen(9) as u32, gen(9) as u32, gen(9) as u32, opt(|| gen(9) as u32))), vpath: None, git: match gen(4) { 0 => 8, 1 => 1 + gen(40) as u8, 2 => 38 + gen(5) as u8, _ => gen(256) as u8 }, launch: BTreeMap::new(), lints: Default::default(), ..model() };
    let d = scratch::Dir::new();
    repository(&d);
    d.put(".hemtt/project.toml", emit(&project_tab(&m, true, true)));
    let inside = pick(&["", "addons", ".hemtt"]);
    d.put("addons/x", "");
    let c = must("loading project settings", || ProjectConfig::from_file(&Path::new(&d.path).join(".hemtt/project.toml")))?;
    ensure!(c.version().git_hash() == (m.git > 0).then_some(m.git), "a setting is misread", "git_hash {:?} instead of {}", c.version().git_hash(), m.git);
    let was = std::env::current_dir().ok();
    std::env::set_current_dir(Path::new(&d.path).join(inside)).expect("scratch folder");
    let root: vfs::VfsPath = SimFs::new().into();
    c.version().invalidate();
    let got = run("reading the version", || c.version().get(&root).map(|v| v.to_string()).map_err(|e| e.to_string()));
    let again = run("reading the version", || c.version().get(&root).map(|v| v.to_string()).map_err(|e| e.to_string()));
    c.version().invalidate();
    if let Some(w) = was { let _ = std::env::set_current_dir(w); }
    let (got, again) = (got?, again?);
    let (a, b, p, n) = m.version.unwrap();
    let want = format!("{a}.{b}.{p}{}{}", n.map_or(String::new(), |n| format!(".{n}")), if m.git > 0 { format!("-{}", &COMMIT[..40.min(m.git as usize)]) } else { String::new() });
    ensure!(got.as_ref() == Ok(&want), "the version is not the one of the commit", "{got:?} instead of {want:?}");
    ensure!(again == got, "the version changes when it is asked for again", "{got:?} then {again:?}");
    Ok(Info { nontrivial: m.git > 0, key: hash_str(&want), sample: Some(want) })
}

/// For P11: damaged settings never crash the loader.
pub fn p11_settings() -> Verdict {
    let m = model();
    let p = layout(&m);
    let d = scratch::Dir::new();
    place(&d, &p);
    d.put("addon.toml", "exclude = [\"a\"]\nno_bin = [\"b\"]\n[rapify]\nenabled = true\n[properties]\nauthor = \"x\"\n");
    d.put("prefix", "[HEMTT]\nprefix=z\\abe\\addons\\main\nversion=1\n");
    let mut key = 0;
    for _ in 0..1 + fault(3) {
        let names: Vec<String> = p.files.iter().map(|f| format!(".hemtt/{}", f.0)).chain(["addon.toml".to_string(), "prefix".to_string()]).collect();
        let n = &names[fault(names.len() as u64) as usize];
        let path = format!("{}/{n}", d.path);
        let Ok(mut b) = std::fs::read(&path) else { continue };
        simcore::streams::damage(&mut b);
        key = simcore::tape::mix(key, hash_str(&String::from_utf8_lossy(&b)));
        d.put(n, &b);
    }
    let fs = fsx::enable(&d.path);
    fs.short = [0, 2][gen(2) as usize];
    simcore::alloc::limit(16 << 20, 64 << 20);
    let a = load(&format!("{}/.hemtt", d.path))?;
    let b = run("loading addon settings", || AddonConfig::from_file(&Path::new(&d.path).join("addon.toml")).map_err(|e| e.to_string()))?;
    let t = std::fs::read_to_string(format!("{}/prefix", d.path)).unwrap_or_default();
    let c = run("reading a prefix", || Prefix::new(&t).map_err(|e| e.to_string()))?;
    // with a hash the version comes from the repository around the working directory: not simulated
    if let Some(c) = a.as_ref().ok().filter(|c| c.version().git_hash().is_none()) { c.version().invalidate(); let _ = run("asking for the version", || { let f = SimFs::new(); f.put("addons/main/script_version.hpp", "#define MAJOR 1\n#define MINOR 0\n#define PATCH 1\n"); c.version().get(&f.into()) }.map(|v| v.to_string()).map_err(|e| e.to_string()))?; }
    Ok(Info { nontrivial: true, key, sample: Some(format!("{} {} {}", a.is_ok(), b.is_ok(), c.is_ok())) })
}

pub fn props() -> Vec<Property> {
    vec![Property { id: "P23", rule: "every accessor of the loaded settings equals the generated model; contradictions, damaged files and unreadable files are errors; two loads under other hash seeds agree; an injected failure of stat/open/read never changes a value",
        real: &["hemtt_common::config (project, launch, lints, addon, version)", "hemtt_common::prefix", "hemtt_common::version", "std::fs through interposed system calls", "toml"], stub: &["failing and short system calls", "hash seeds", "thread scheduler", "workspace file system (simvfs)"],
        assumptions: &["the toml crate decides what is valid TOML", "ENOENT is not injected", "[version] build without major is not generated"], level: "fault_enumeration",
        scenarios: vec![Scenario::new("project", 60_000, 2_000_000, p23_project), Scenario::new("faults", 100_000, 3_000_000, p23_faults), Scenario::new("damage", 60_000, 2_000_000, p23_damage), Scenario::new("addon", 60_000, 1_500_000, p23_addon), Scenario::new("prefix", 10_000, 100_000, p23_prefix), Scenario::new("version", 60_000, 2_000_000, p23_version), Scenario::new("hash", 4_000, 200_000, p23_hash)] }]
}
