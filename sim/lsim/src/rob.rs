//! P09, P11, P13: what happens to checks of a project when files misbehave, are damaged, or nothing at all is different.
use crate::conf::{self, Out};
use crate::pre::{open, place, preprocess, program, Res};
use crate::util::*;
use hemtt_common::config::{PDriveOption, ProjectConfig};
use hemtt_config::rapify::Rapify;
use hemtt_workspace::reporting::{Code, Codes, Diagnostic, Processed, WorkspaceFiles};
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::simvfs::{self, Change, SimFs, VFault};
use simcore::streams::Plan;
use simcore::tape::{hash_str, mix};
use simcore::{ensure, env, fault, faultp, gen, genp, sim};
use std::sync::Arc;

// ---- P09 ----
/// What a run tells its user: the text, and what it was made from.
#[derive(PartialEq, Debug, Clone)]
struct Told { text: String, sources: Vec<(String, String)>, warnings: Vec<String> }
fn told(p: &Processed) -> Told {
    Told {
        text: p.as_str().into(),
        sources: p.sources().into_iter().map(|(f, s)| (f.as_str().to_string(), s)).collect(),
        warnings: p.warnings().iter().map(|w| format!("{} {}", w.ident(), w.message())).collect(),
    }
}
/// Everything that is ever shown of a code.
pub fn show(c: &dyn Code, files: &WorkspaceFiles) -> Result<String, Violation> {
    let head = run("describing a code", || format!("{} {} {:?} {} {:?} {:?} {:?}", c.ident(), c.message(), c.severity(), c.label_message(), c.note(), c.help(), c.suggestion()))?;
    let Some(d) = run("asking for a diagnostic", || c.diagnostic())? else { return Ok(head) };
    let a = run("rendering a diagnostic", || d.to_string(files))?;
    let b = run("making annotations", || d.to_annotations(files))?;
    Ok(format!("{head}\n{a}\n{b:?}"))
}
fn show_err(e: &hemtt_preprocessor::Error) -> Result<String, Violation> {
    let s = run("describing an error", || e.to_string())?;
    let r = match e.get_code() { Some(c) => show(*c, &WorkspaceFiles::new())?, None => String::new() };
    Ok(format!("{s}\n{r}"))
}
fn faults(fs: &[SimFs], ops: &[u64], exists: bool) -> String {
    let mut d = String::new();
    for _ in 0..1 + [0, 0, 0, 1, 2][fault(5) as usize] {
        let l = fault(fs.len() as u64) as usize;
        let all = [simvfs::OPEN, simvfs::READ, simvfs::META, simvfs::LIST, simvfs::OPEN | simvfs::READ | simvfs::META | simvfs::LIST, simvfs::EXISTS];
        let mask = all[fault(if exists { 6 } else { 5 }) as usize];
        let sticky = faultp(1, 3);
        let nth = fault(ops[l].min(1 + [5, 30, 400][fault(3) as usize]).max(1));
        let plan = if mask & simvfs::READ != 0 { let mut p = Plan::benign(); if faultp(1, 2) { p.fail_at_op = Some(fault(4)); } else { p.fail_at_byte = Some((fault(200), simcore::streams::Fail::Error)); } p.sticky = faultp(1, 2); Some(p) } else { None };
        d.push_str(&format!("layer {l} mask {mask} nth {nth}{}; ", if sticky { " and on" } else { "" }));
        fs[l].with(|s| s.faults.push(VFault { mask, nth, sticky, path: None, seen: 0, fired: 0, plan }));
    }
    d
}
fn p09_faults() -> Verdict {
    let p = program(6, genp(1, 5));
    let fs = place(&p, 1 + gen(3) as usize);
    for f in &fs { f.with(|s| { s.shuffle = true; s.benign = Some(Plan::benign()); }); }
    let root = open(&fs)?;
    let before: Vec<u64> = fs.iter().map(|f| f.with(|s| s.ops)).collect();
    let clean = preprocess(&root, &p.files[0].path)?;
    let ops: Vec<u64> = fs.iter().zip(&before).map(|(f, b)| f.with(|s| s.ops) - b).collect();
    let root = open(&fs)?;
    let what = faults(&fs, &ops, fs.len() == 1);
    let got = preprocess(&root, &p.files[0].path)?;
    let hard = fs.iter().map(|f| f.with(|s| s.hard + s.faults.iter().map(|f| f.fired).sum::<u64>())).sum::<u64>();
    for f in &fs { f.with(|s| s.faults.clear()); }
    match (&clean, &got) {
        (Ok(c), Ok(g)) => {
            let (c, g) = (told(c), told(g));
            ensure!(c.text == g.text, "an I/O error changes the text silently", "{what}: {:?} instead of {:?} from\n{}", g.text, c.text, p.dump());
            ensure!(c.sources == g.sources, "an I/O error changes the sources silently", "{what}: {:?} instead of {:?}", g.sources, c.sources);
            ensure!(c.warnings == g.warnings, "an I/O error changes the warnings silently", "{what}: {:?} instead of {:?}", g.warnings, c.warnings);
        }
        (Err(_), Ok(g)) => return bad("an I/O error hides a mistake", format!("{what}: {:?} from\n{}", g.as_str(), p.dump())),
        (_, Err(e)) => { let _ = show_err(e)?; }
    }
    if hard == 0 { ensure!(clean.is_ok() == got.is_ok(), "a run fails although nothing is wrong", "{what} from\n{}", p.dump()); }
    Ok(Info { nontrivial: hard > 0 && clean.is_ok(), key: mix(hash_str(&what), hash_str(&p.dump())), sample: Some(format!("{} files, {what}{}", p.files.len(), if got.is_ok() { "complete" } else { "error" })) })
}

/// Other contents for a file that changes while it is in use.
fn other(old: &[u8]) -> Change2 {
    match fault(8) {
        0 => Change2::Gone,
        1 => Change2::To(vec![]),
        2 => Change2::To(old[..fault(old.len() as u64 + 1) as usize].to_vec()),
        3 => Change2::To(old.iter().map(|b| if *b == b'\n' { b' ' } else { *b }).collect()),
        4 => Change2::To(String::from_utf8_lossy(old).chars().flat_map(|c| if c.is_ascii_alphanumeric() { vec!['ß', '€'] } else { vec![c] }).collect::<String>().into_bytes()),
        5 => { let mut v = b"// new first line\n\n".to_vec(); v.extend_from_slice(old); Change2::To(v) }
        6 => { let mut v = old.to_vec(); let i = fault(v.len().max(1) as u64) as usize; v.insert(i.min(v.len()), 0xFF); Change2::To(v) }
        _ => { let mut v = old.to_vec(); for _ in 0..1 + fault(3) { simcore::streams::damage(&mut v); } Change2::To(v) }
    }
}
enum Change2 { Gone, To(Vec<u8>) }
impl Change2 {
    fn apply(self, fs: &SimFs, path: &str) { match self { Change2::Gone => { sim::fired("vfs-file-vanishes"); fs.with(|s| { s.files.remove(path); }) }, Change2::To(v) => { sim::fired("vfs-file-changes"); fs.with(|s| { s.files.insert(path.into(), Arc::new(v)); }) } } }
}
fn limits() { simcore::alloc::limit(64 << 20, 1 << 30); }
fn p09_changes() -> Verdict {
    let p = program(6, genp(1, 3));
    let fs = place(&p, 1);
    let fs = &fs[0];
    let root = open(std::slice::from_ref(fs))?;
    let before = fs.with(|s| s.ops);
    let _ = preprocess(&root, &p.files[0].path)?;
    let ops = fs.with(|s| s.ops) - before;
    let root = open(std::slice::from_ref(fs))?;
    let mut at = vec![];
    for _ in 0..1 + fault(3) {
        let f = format!("/{}", p.files[fault(p.files.len() as u64) as usize].path);
        let when = fs.with(|s| s.ops) + 1 + fault(ops.max(1));
        let c = match other(&fs.get(&f).unwrap()) { Change2::Gone => Change::Remove(f), Change2::To(v) => Change::Write(f, v) };
        at.push(format!("{when}: {}", match &c { Change::Remove(f) => format!("{f} vanishes"), Change::Write(f, _) => format!("{f} changes") }));
        fs.with(|s| s.changes.push((when, c)));
    }
    limits();
    let got = preprocess(&root, &p.files[0].path)?;
    let n = look(&got)?;
    Ok(Info { nontrivial: got.is_ok() && n > 0, key: mix(hash_str(&at.join(" ")), hash_str(&p.dump())), sample: Some(at.join(", ")) })
}
struct Mark(std::ops::Range<usize>);
impl Code for Mark { fn ident(&self) -> &'static str { "X1" } fn message(&self) -> String { "mark".into() } }
/// Use a result the way reports do.
fn look(got: &Res) -> Result<u64, Violation> {
    let files = WorkspaceFiles::new();
    let g = match got { Ok(g) => g, Err(e) => { show_err(e)?; return Ok(0) } };
    for w in g.warnings() { show(&**w, &files)?; }
    let total = g.as_str().chars().count();
    for _ in 0..3 {
        if total == 0 { break; }
        let a = gen(total as u64) as usize;
        let b = (a + [1, 5, 60, total][gen(4) as usize]).min(total);
        let Some(d) = run("making a diagnostic", || Diagnostic::from_code_processed(&Mark(a..b), a..b, g))? else { continue };
        run("rendering a diagnostic", || d.to_string(&files))?;
        run("making annotations", || d.to_annotations(&files))?;
    }
    Ok(total as u64)
}
/// Files change, vanish or cannot be read any more between checking and reporting.
fn p09_report() -> Verdict {
    let (fs, root, path, names);
    let key;
    let (mut all, mut proc): (Codes, Option<Processed>) = (vec![], None);
    let mut first = None;
    if gen(2) == 0 {
        let c = conf::conf(12, true);
        fs = c.fs();
        root = open(std::slice::from_ref(&fs))?;
        names = c.files.iter().map(|f| format!("/{}", f.0)).collect::<Vec<_>>();
        key = hash_str(&c.dump());
        let (p, o) = conf::compile(&root, "config.cpp")?;
        if let Some(p) = &p { all.extend(p.warnings().iter().cloned()); }
        if let Out::Codes(c) = o { all.extend(c); }
        proc = p;
    } else {
        let p = program(6, true);
        fs = place(&p, 1).remove(0);
        root = open(std::slice::from_ref(&fs))?;
        path = p.files[0].path.clone();
        names = p.files.iter().map(|f| format!("/{}", f.path)).collect::<Vec<_>>();
        key = hash_str(&p.dump());
        match preprocess(&root, &path)? { Ok(p) => { all.extend(p.warnings().iter().cloned()); proc = Some(p); } Err(e) => first = Some(e) }
    }
    let f = &names[fault(names.len() as u64) as usize];
    match fault(4) {
        0 => fs.with(|s| s.faults.push(VFault { mask: simvfs::OPEN, nth: 0, sticky: true, path: None, seen: 0, fired: 0, plan: None })),
        _ => if let Some(old) = fs.get(f) { other(&old).apply(&fs, f); },
    }
    limits();
    let files = WorkspaceFiles::new();
    for c in &all { show(&**c, &files)?; }
    let n = all.len() as u64 + match (proc, first) { (Some(p), _) => look(&Ok(p))?, (None, Some(e)) => look(&Err(e))?, _ => 0 };
    Ok(Info { nontrivial: n > 0 && !all.is_empty(), key: mix(key, n), sample: Some(format!("{} codes", all.len())) })
}

// ---- P13 ----
/// Sources with any number of mistakes, many of them the same.
pub struct Mess { pub files: Vec<(String, String)>, pub toml: String }
fn near(base: &str) -> String {
    let mut s = base.to_string();
    match gen(6) {
        0 => {}
        1 => { s.pop(); }
        2 => s.push(['A', 'B', 'C', 'X', '1'][gen(5) as usize]),
        3 => { s.pop(); s.push(['A', 'B', 'C', 'D', '2'][gen(5) as usize]); }
        4 => s.insert(1, ['A', 'B', 'C'][gen(3) as usize]),
        _ => { s.remove(1); }
    }
    s
}
fn cls(o: &mut String, depth: u64, budget: &mut u64) {
    let ind = "    ".repeat(depth as usize);
    for _ in 0..1 + gen(8) {
        if *budget == 0 { break; }
        *budget -= 1;
        let n = pick(&["alpha", "Alpha", "beta", "gamma", "delta", "BETA", "eps", "zeta", "abe_mag", "abe_Mag2"]);
        match gen(14) {
            0..=3 => o.push_str(&format!("{ind}{n} = {};\n", pick(&["1", "\"text\"", "0.5", "2 + 3", "wrong", "{1,2}", "", "\"open"]))),
            4 | 5 => o.push_str(&format!("{ind}{n}{} {};\n", pick(&["[] =", "[] +=", " ="]), pick(&["{1, 2}", "{\"a\", \"b\"}", "{}", "1", "{abe, x}", "{\"abe_mag\", \"abe_mag9\", \"abe_Mag2\", \"abe_mag7\"}"]))),
            6 | 7 if depth < 4 => {
                let par = if genp(1, 2) { format!(": {}", pick(&["Alpha", "alpha", "Missing", "missing", "eps", "Eps"])) } else { String::new() };
                o.push_str(&format!("{ind}class {n}{par} {{\n"));
                cls(o, depth + 1, budget);
                o.push_str(&format!("{ind}}}{}\n", if genp(1, 8) { "" } else { ";" }));
            }
            8 => o.push_str(&format!("{ind}class {n};\n")),
            9 => o.push_str(&format!("{ind}class {n}: {};\n", pick(&["Alpha", "Missing"]))),
            10 => o.push_str(&format!("{ind}delete {n};\n")),
            11 => o.push_str(&format!("{ind}{n} = 1\n")),
            _ => o.push_str(&format!("{ind}{n} = VAL{};\n", gen(3))),
        }
    }
}
pub fn mess() -> Mess {
    let mut o = String::new();
    let mut h = String::from("#define VAL0 1\n#define VAL1 \"one\"\n#define VAL2 {1,2}\n");
    let base = pick(&["FUNC", "VALUE_X", "abe"]);
    for _ in 0..gen(9) {
        let n = near(base);
        h.push_str(&match gen(5) { 0 | 1 => format!("#define {n} {}\n", gen(3)), 2 => format!("#define {n}(a) a\n"), 3 => format!("#define {n}(a,b) a b\n"), _ => format!("#define {n}\n") });
    }
    o.push_str("#include \"defs.hpp\"\n");
    if genp(1, 2) { o.push_str(&format!("class CfgPatches {{ class {} {{ requiredVersion = {}; units[] = {{}}; }}; class b {{ requiredVersion = 2.1; }}; }};\n", pick(&["a", "abe_main"]), pick(&["2.1", "1.0", "2.14"]))); }
    if genp(1, 3) { o.push_str("class CfgMagazines { class abe_mag; class abe_Mag2 { x = 1; }; };\nclass CfgMagazineWells {\n class one {\n  abe[] = {\"abe_mag\", \"abe_none\", \"abe_missing\", \"abe_Mag2\"};\n  more[] = {\"abe_nothing\"};\n };\n};\n"); }
    let mut budget = 4 + gen(40);
    while budget > 0 { cls(&mut o, 0, &mut budget); if genp(1, 3) { break; } }
    if genp(2, 5) {
        let w = near(base);
        o.push_str(&match gen(7) {
            0 => format!("#if {w} == 1\n#endif\n"),
            1 => format!("#if {w}\n#endif\n"),
            2 => format!("x = {w}(1,2,3);\n"),
            3 => format!("x = {w};\n"),
            4 => format!("x = {w}(1);\n"),
            5 => format!("#include \"{w}.hpp\"\n"),
            _ => format!("#{w}\n"),
        });
    }
    if genp(1, 3) { o.push_str("#include \"Defs.hpp\"\n"); }
    let mut toml = String::from("name = \"Advanced Banana Environment\"\nprefix = \"abe\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\ngit_hash = 0\n");
    for l in ["invalid_value", "duplicate_property", "duplicate_classes", "external_missing", "external_parent_case", "unexpected_array", "expected_array", "missing_semicolon", "magwell_missing_magazine", "class_missing_braces"] {
        if genp(1, 8) { toml.push_str(&format!("[lints.config.{l}]\nenabled = {}\nseverity = \"{}\"\n", pick(&["true", "false"]), pick(&["error", "warning", "help"]))); }
    }
    Mess { files: vec![("addons/main/config.cpp".into(), o), ("addons/main/defs.hpp".into(), h)], toml }
}
impl Mess {
    pub fn dump(&self) -> String { self.files.iter().map(|f| format!("=== {}\n{}\n", f.0, f.1)).collect::<String>() + "=== project.toml\n" + &self.toml }
    fn fs(&self) -> SimFs { let f = SimFs::new(); for (n, t) in &self.files { f.put(n, t.clone()); } f }
    fn project(&self) -> Result<Option<ProjectConfig>, Violation> {
        let d = simcore::scratch::Dir::new();
        d.put("project.toml", &self.toml);
        Ok(run("loading project settings", || ProjectConfig::from_file(&std::path::Path::new(&d.path).join("project.toml")))?.ok())
    }
}
fn open_with(fs: &SimFs, p: Option<ProjectConfig>) -> Result<WorkspacePath, Violation> {
    let l: vfs::VfsPath = fs.clone().into();
    must("opening a workspace", || Workspace::create(l.clone(), vec![(l.clone(), LayerType::Source)], p, true, &PDriveOption::Disallow))
}
/// Everything a user gets to see of checking and compiling one config.
pub fn report(root: &WorkspacePath, path: &str, project: Option<&ProjectConfig>) -> Result<String, Violation> {
    let files = WorkspaceFiles::new();
    let p = match preprocess(root, path)? { Ok(p) => p, Err(e) => return Ok(format!("preprocessor: {}", show_err(&e)?)) };
    let mut o = format!("text:\n{}\n", p.as_str());
    for (f, _) in p.sources() { o.push_str(&format!("source {}\n", f.as_str())); }
    for w in p.warnings() { o.push_str(&show(&**w, &files)?); }
    match run("parsing a config", || hemtt_config::parse(project, &p))? {
        Err(cs) => for c in &cs { o.push_str(&show(&**c, &files)?); },
        Ok(r) => {
            for c in r.codes() { o.push_str(&show(&**c, &files)?); }
            for x in r.patches() { o.push_str(&format!("patch {} {}\n", x.name().as_str(), x.required_version())); }
            let (v, who) = run("asking for the required version", || r.required_version())?;
            o.push_str(&format!("requires {v} for {:?}\n", who.map(|w| w.name().as_str().to_string())));
            if !r.codes().iter().any(|c| c.severity() >= hemtt_workspace::reporting::Severity::Error) {
                let mut b = vec![];
                let n = must("rapifying", || r.config().rapify(&mut b, 0))?;
                o.push_str(&format!("{n} bytes: {}\n", b.iter().map(|x| format!("{x:02x}")).collect::<String>()));
            }
        }
    }
    Ok(o)
}
/// What is set up once in a process is no part of a run.
fn warm(project: Option<&ProjectConfig>) -> Result<(), Violation> {
    let f = SimFs::new();
    f.put("config.cpp", b"#include \"x.hpp\"\nx = 1; x = 2; class a: b {};");
    f.put("x.hpp", b"#define A 1\n#define A 2\n");
    report(&open(&[f])?, "config.cpp", project).map(|_| ())
}
fn first_line(a: &str, b: &str) -> String {
    let d = a.lines().zip(b.lines()).find(|(x, y)| x != y);
    format!("{:?}", d.unwrap_or((&a[a.len().min(b.len())..], &b[a.len().min(b.len())..])))
}
fn p13_same(threads: bool) -> Verdict {
    let m = mess();
    let fs = m.fs();
    let with = gen(3) > 0;
    let project = if with { m.project()? } else { None };
    let path = m.files[0].0.clone();
    warm(project.as_ref())?;
    let root = open_with(&fs, project.clone())?;
    let first = report(&root, &path, project.as_ref())?;
    fs.with(|s| { s.shuffle = true; s.benign = Some(Plan::benign()); });
    if threads {
        sim::set_opts(|o| { o.alloc_gap = 40; o.io_gap = 2; });
        let hs: Vec<_> = (0..2 + gen(2)).map(|_| { let (r, p, q) = (root.clone(), path.clone(), project.clone()); std::thread::spawn(move || report(&r, &p, q.as_ref())) }).collect();
        let rs: Vec<_> = hs.into_iter().map(std::thread::JoinHandle::join).collect();
        sim::set_opts(|o| { o.alloc_gap = 0; o.io_gap = 0; });
        for r in rs {
            let r = r.map_err(|_| Violation { sig: "a check panics".into(), detail: String::new() })??;
            ensure!(r == first, "a concurrent check gives other results", "{} from\n{}", first_line(&r, &first), m.dump());
        }
    } else {
        for _ in 0..3 {
            sim::reseed_env(env(1 << 40));
            // as another process would do it, from the start
            let (f, p, m2) = (fs.clone(), path.clone(), Mess { files: vec![], toml: m.toml.clone() });
            let r = std::thread::spawn(move || {
                let project = if with { m2.project()? } else { None };
                let root = open_with(&f, project.clone())?;
                report(&root, &p, project.as_ref())
            }).join().map_err(|_| Violation { sig: "a check panics".into(), detail: String::new() })??;
            ensure!(r == first, "checking again gives other results", "{} from\n{}", first_line(&r, &first), m.dump());
        }
    }
    Ok(Info { nontrivial: first.contains('\u{1b}'), key: hash_str(&m.dump()), sample: Some(format!("{} lines of output", first.lines().count())) })
}
fn p13_again() -> Verdict { p13_same(false) }
fn p13_threads() -> Verdict { p13_same(true) }
/// The same for generated programs and configs that are mostly right.
fn p13_programs() -> Verdict {
    let (fs, path, key) = if gen(2) == 0 {
        let c = conf::conf(12, true);
        (c.fs(), "config.cpp".to_string(), hash_str(&c.dump()))
    } else {
        let p = program(6, true);
        (place(&p, 1).remove(0), p.files[0].path.clone(), hash_str(&p.dump()))
    };
    fs.with(|s| { s.shuffle = true; s.benign = Some(Plan::benign()); });
    let first = report(&open(std::slice::from_ref(&fs))?, &path, None)?;
    sim::reseed_env(env(1 << 40));
    let (f, p) = (fs.clone(), path.clone());
    let r = std::thread::spawn(move || report(&open(&[f])?, &p, None)).join().map_err(|_| Violation { sig: "a check panics".into(), detail: String::new() })??;
    ensure!(r == first, "checking again gives other results", "{}", first_line(&r, &first));
    Ok(Info { nontrivial: first.len() > 200, key, sample: None })
}

// ---- P11 ----
/// Damage that leaves text: lines and pieces lost, repeated, moved, or replaced by pieces of other files.
fn hurt(t: &mut String, others: &[String]) {
    let mut c: Vec<char> = t.chars().collect();
    let n = c.len() as u64;
    let at = fault(n + 1) as usize;
    let len = (1 + fault([4, 40, 400][fault(3) as usize])) as usize;
    let end = (at + len).min(c.len());
    match fault(9) {
        0 => { c.truncate(at); sim::fired("damage-truncate"); }
        1 => { c.drain(at..end); sim::fired("damage-lost-block"); }
        2 => { let x: Vec<char> = c[at..end].to_vec(); let to = fault(c.len() as u64 + 1) as usize; for (k, y) in x.into_iter().enumerate() { c.insert(to + k, y); } sim::fired("damage-dup-block"); }
        3 => { let x: Vec<char> = c.drain(at..end).collect(); let to = fault(c.len() as u64 + 1) as usize; for (k, y) in x.into_iter().enumerate() { c.insert(to + k, y); } sim::fired("damage-moved-block"); }
        4 => { let o: Vec<char> = others[fault(others.len() as u64) as usize].chars().collect(); let a = fault(o.len() as u64 + 1) as usize; let b = (a + len).min(o.len()); for (k, y) in o[a..b].iter().enumerate() { c.insert(at + k, *y); } sim::fired("damage-foreign-block"); }
        5 => { let y = ['\0', '"', '\'', '(', ')', '{', '}', '[', ']', '#', '\\', '\n', ',', ';', '=', '+', '/', '*', '<', '>', ':', '\r', '\t', 'é', '\u{feff}', '\u{2028}', '😀', '0', '9', '.', '-', '_', 'x'][fault(33) as usize]; if at < c.len() { c[at] = y; } else { c.push(y); } sim::fired("damage-byte"); }
        6 => { for x in &mut c[at..end] { *x = '\0'; } sim::fired("damage-zero-block"); }
        7 => { let y = ["#", "##", "#include \"", "#define", "#if ", "#ifdef", "#else", "#endif", "#pragma hemtt ", "#undef", "class ", "class", ": ", "[] = {", "};", "\"", "/*", "*/", "//", "\\\n", "__EVAL(", "__EXEC(", "__COUNTER__", "__FILE__", "enum {", "delete ", "__has_include", "-", "1e400", "0x", "99999999999999999999", "\u{0}"][fault(32) as usize]; for (k, z) in y.chars().enumerate() { c.insert(at + k, z); } sim::fired("damage-token"); }
        _ => { let i = c[..at].iter().rposition(|x| *x == '\n').map_or(0, |i| i + 1); let j = c[at..].iter().position(|x| *x == '\n').map_or(c.len(), |j| at + j + 1); c.drain(i..j); sim::fired("damage-lost-line"); }
    }
    *t = c.into_iter().collect();
}
/// Files of a project that belong together, and the one that is checked.
fn sources() -> Vec<(String, String)> {
    match gen(3) {
        0 => program(6, genp(1, 3)).files.iter().map(|f| (f.path.clone(), f.text.clone())).collect(),
        1 => conf::conf(16, genp(1, 3)).files,
        _ => mess().files,
    }
}
fn show_files(f: &[(String, String)]) -> String { f.iter().map(|f| format!("=== {}\n{:?}\n", f.0, f.1)).collect() }
fn p11_sources() -> Verdict {
    let mut files = sources();
    let texts: Vec<String> = files.iter().map(|f| f.1.clone()).collect();
    let mut raw = None;
    for _ in 0..1 + fault(4) {
        let i = fault(files.len() as u64) as usize;
        if fault(8) == 7 { let mut b = files[i].1.clone().into_bytes(); simcore::streams::damage(&mut b); raw = Some((i, b)); } else { hurt(&mut files[i].1, &texts); }
    }
    let fs = SimFs::new();
    for (n, t) in &files { fs.put(n, t.clone()); }
    if let Some((i, b)) = raw { fs.put(&files[i].0, b); }
    fs.mkdir("addons");
    sim::log(|| show_files(&files));
    let root = open(std::slice::from_ref(&fs))?;
    limits();
    let r = report(&root, &files[0].0, None).map_err(|v| Violation { detail: format!("{} from\n{}", v.detail, show_files(&files)), ..v })?;
    Ok(Info { nontrivial: true, key: hash_str(&show_files(&files)), sample: Some(format!("{} files, {}", files.len(), r.lines().next().unwrap_or(""))) })
}
/// Includes that lead back to themselves.
fn p11_cycles() -> Verdict {
    let n = 1 + gen(4) as usize;
    let names: Vec<String> = (0..n).map(|i| format!("addons/main/{}", ["config.cpp", "a.hpp", "b.hpp", "c.hpp"][i])).collect();
    let fs = SimFs::new();
    let mut dump = String::new();
    for (i, name) in names.iter().enumerate() {
        let mut t = String::new();
        for _ in 0..gen(3) { t.push_str(pick(&["x = 1;\n", "#define A 1\n", "// note\n", "class a {};\n"])); }
        let to = if gen(3) == 0 { gen(n as u64) as usize } else { (i + 1) % n };
        t.push_str(&format!("#include \"{}\"", names[to].rsplit('/').next().unwrap()));
        if genp(2, 3) { t.push_str("\ny = 2;\n"); }
        dump.push_str(&format!("=== {name}\n{t}\n"));
        fs.put(name, t);
    }
    sim::fired("include-cycle");
    let root = open(std::slice::from_ref(&fs))?;
    limits();
    let r = report(&root, &names[0], None).map_err(|v| Violation { detail: format!("{} from\n{dump}", v.detail), ..v })?;
    ensure!(r.starts_with("preprocessor:"), "files that include each other without end are accepted", "{dump}");
    Ok(Info { nontrivial: true, key: hash_str(&dump), sample: Some(r.lines().next().unwrap_or("").to_string()) })
}
/// Many of the same: long files, deep nesting.
fn p11_extent() -> Verdict {
    let n = [3, 20, 64, 200, 3000, 70_000][gen(6) as usize];
    let deep = n.min(64);
    let rep = |a: &str, n: usize, mid: &str, b: &str| format!("{}{mid}{}", a.repeat(n), b.repeat(n));
    let t = match gen(16) {
        0 => format!("x[] = {{{}}};\n", "__COUNTER__,".repeat(n) + "1"),
        1 => format!("x = \"{}\";\n", "a".repeat(n)),
        2 => (0..n).map(|i| format!("p{i} = {i};\n")).collect(),
        3 => rep("class a {", deep, "x = 1;", "};"),
        4 => format!("x[] = {};", rep("{", deep, "1", "}")),
        5 => format!("x = {};", rep("(", deep, "1", ")")),
        6 => rep("#ifndef A\n", deep, "x = 1;\n", "#endif\n"),
        7 => format!("{}x = M{};\n", (0..deep).map(|i| format!("#define M{} M{}\n", i + 1, i)).collect::<String>() + "#define M0 1\n", deep),
        8 => format!("#define F(a) a\nx = {};\n", rep("F(", deep, "1", ")")),
        9 => format!("#define V {}\nx = 1;\n", "1 \\\n".repeat(n)),
        10 => format!("x = {}1;\n", "1 + ".repeat(n.min(400))),
        11 => format!("x = {}1;\n", "-".repeat(deep)),
        12 => (0..n.min(3000)).map(|i| format!("#define D{i} {i}\n")).collect::<String>() + "x = D1;\n#undef D2\n",
        13 => "\n".repeat(n) + "x = 1;\n",
        14 => "// c\n".repeat(n) + &"/* c */ ".repeat(n.min(3000)),
        _ => format!("x = {};\n", "9".repeat(n)),
    };
    let cut = fault(3) == 2;
    let mut t = t;
    if cut { let k = fault(t.len() as u64 + 1) as usize; t.truncate(k); sim::fired("damage-truncate"); }
    let fs = SimFs::new();
    fs.put("config.cpp", t.clone());
    let root = open(std::slice::from_ref(&fs))?;
    simcore::alloc::limit(256 << 20, 8 << 30);
    let r = report(&root, "config.cpp", None)?;
    Ok(Info { nontrivial: n > 3, key: hash_str(&t), sample: Some(format!("{} bytes, {} of output", t.len(), r.len())) })
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P09",
            rule: "under injected errors the outcome is an error, or text, sources and warnings equal those of the undisturbed run; nothing panics, also when files change during the run or before reporting",
            real: &["hemtt-preprocessor", "hemtt-workspace (paths, mapping, diagnostics)", "hemtt-config (codes)", "vfs overlay"],
            stub: &["source files live in a simulated file system"],
            assumptions: &["probes that fail below the overlay file system of the vfs crate are out of reach (it hides them)"],
            level: "fault_enumeration",
            scenarios: vec![Scenario::new("faults", 60_000, 800_000, p09_faults), Scenario::new("changes", 40_000, 600_000, p09_changes), Scenario::new("report", 30_000, 500_000, p09_report)],
        },
        Property {
            id: "P11",
            rule: "checking a damaged project ends within the memory limit and the time limit, without a panic, stack overflow or crash, in a result or an error that can be rendered; includes in a circle are an error",
            real: &["hemtt-preprocessor", "hemtt-config (parser, lints, rapifier)", "hemtt-workspace", "hemtt-stringtable", "hemtt-common (settings)"],
            stub: &["source files live in a simulated file system"],
            assumptions: &["nesting of at most 64 levels"],
            level: "tested-random",
            scenarios: vec![Scenario::new("sources", 30_000, 600_000, p11_sources), Scenario::new("cycles", 1_000, 5_000, p11_cycles), Scenario::new("extent", 600, 6_000, p11_extent), Scenario::new("stringtable", 20_000, 400_000, crate::strtab::p11_stringtable), Scenario::new("settings", 10_000, 200_000, crate::cfg::p11_settings)],
        },
        Property {
            id: "P13",
            rule: "everything shown of a check (text, sources, codes rendered with labels, notes and suggestions, in order; required versions; binary output) is the same string for other hash seeds, listing orders, read sizes, and interleavings",
            real: &["hemtt-preprocessor", "hemtt-config (parser, lints, rapifier)", "hemtt-workspace (lint manager, diagnostics)", "hemtt-common (project settings)"],
            stub: &["source files live in a simulated file system", "thread scheduling, hash seeds"],
            assumptions: &["SQF and full builds are compared by P24"],
            level: "tested-random",
            scenarios: vec![Scenario::new("again", 6_000, 200_000, p13_again), Scenario::new("threads", 2_000, 60_000, p13_threads), Scenario::new("programs", 10_000, 200_000, p13_programs)],
        },
    ]
}
