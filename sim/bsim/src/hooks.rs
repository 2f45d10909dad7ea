//! P33: hooks and scripts.
use crate::exec::{run, Plan};
use crate::full::{differs, faithful, lasting, plan, sound, tree, Node, Tree};
use crate::pbofmt;
use crate::proj::{project, Addon, Project, K};
use crate::raptree::{N, P, V};
use crate::tools::{blind, calm, files_of, lay, tail, trouble, Files};
use crate::util::*;
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::scratch::Dir;
use simcore::tape::{hash_bytes, hash_str, mix};
use simcore::{ensure, env, fault, gen, genp};
use std::collections::BTreeMap;

const PHASES: [&str; 4] = ["pre_build", "post_build", "pre_release", "post_release"];
/// What a hook does apart from noting that it ran.
#[derive(Clone, Debug, PartialEq)]
enum End { Fine, Fatal, Throw, Unknown, Inner, NoScript }
#[derive(Clone, Debug)]
struct Hook { phase: usize, name: String, text: String, end: End, notes: Vec<String> }

fn q(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n")) }
fn at(root: &str, p: &str) -> String { format!("{root}{}", p.split('/').map(|x| format!(".join({})", q(x))).collect::<String>()) }
fn note(what: &str) -> String { format!("let l = HEMTT_RFS.join(\"log.txt\"); let old = l.open_file().read(); l.create_file().write(old + {what} + \"\\n\");\n") }
fn dir(a: &Addon) -> String { format!("{}/{}", if a.optional { "optionals" } else { "addons" }, a.name) }
fn loose(a: &Addon) -> Vec<String> { a.files.iter().filter(|(n, k)| matches!(k, K::Plain) && ["ogg", "jpg", "bin", "dat", "TXT", "paa"].contains(&n.rsplit('.').next().unwrap_or(""))).map(|(n, _)| n.clone()).collect() }
fn in_folder<'a>(a: &'a Addon, f: &str) -> Vec<(&'a String, &'a K)> { let f = format!("{f}/"); a.files.iter().filter(|(n, _)| n.starts_with(&f)).collect() }

/// One change to the virtual files; `p` is what a later reader sees.
fn change(p: &mut Project, n: usize) -> String {
    let i = gen(p.addons.len() as u64) as usize;
    let a = p.addons[i].clone();
    let d = dir(&a);
    let v = |rel: &str| at("HEMTT_VFS", &format!("{d}/{rel}"));
    let text = pick(&["plain\n", "", "two\nlines\n", "ünï ß", "with \"quotes\" and \\"]).to_string();
    let set = |p: &mut Project, rel: &str, b: Vec<u8>, k: K| { p.files.insert(format!("{d}/{rel}"), b); p.addons[i].files.insert(rel.to_string(), k); };
    match gen(11) {
        0 | 1 => {
            let rel = format!("new{n}.dat");
            set(p, &rel, format!("{text}{n}").into_bytes(), K::Plain);
            format!("let f = {}.create_file(); f.write({}); f.write({});\n", v(&rel), q(&text), q(&n.to_string()))
        }
        2 => {
            let rel = format!("made/deep{n}/new.dat");
            set(p, &rel, text.clone().into_bytes(), K::Plain);
            format!("{}.create_dir_all(); {}.create_file().write({});\n", v(&format!("made/deep{n}")), v(&rel), q(&text))
        }
        3 => match loose(&a) { x if x.is_empty() => String::new(), x => {
            let rel = pick(&x);
            set(p, &rel, text.clone().into_bytes(), K::Plain);
            format!("{}.create_file().write({});\n", v(&rel), q(&text))
        } },
        4 => match loose(&a) { x if x.is_empty() => String::new(), x => {
            let rel = pick(&x);
            p.files.remove(&format!("{d}/{rel}"));
            p.addons[i].files.remove(&rel);
            format!("{}.remove_file();\n", v(&rel))
        } },
        5 | 6 => match loose(&a) { x if x.is_empty() => String::new(), x => {
            let rel = pick(&x);
            let to = format!("other{n}.dat");
            let b = p.files[&format!("{d}/{rel}")].clone();
            let mv = genp(1, 2);
            if mv { p.files.remove(&format!("{d}/{rel}")); p.addons[i].files.remove(&rel); }
            set(p, &to, b, K::Plain);
            format!("{}.{}({});\n", v(&rel), if mv { "move" } else { "copy" }, v(&to))
        } },
        7 => {
            let old: Vec<String> = a.files.iter().filter(|(_, k)| matches!(k, K::Sqf)).map(|(n, _)| n.clone()).collect();
            let rel = if old.is_empty() || genp(1, 2) { format!("fnc_hook{n}.sqf") } else { pick(&old) };
            let t = format!("hint \"hook {n}\";\nprivate _x = {n};\n");
            set(p, &rel, t.clone().into_bytes(), K::Sqf);
            format!("{}.create_file().write({});\n", v(&rel), q(&t))
        }
        8 => {
            let raw = a.files.contains_key("config.cpp") && !matches!(a.files["config.cpp"], K::Config(_));
            if raw { return String::new(); }
            let rel = format!("hook{n}.rvmat");
            let t = format!("class Hook {{ n = {n}; }};\n");
            set(p, &rel, t.clone().into_bytes(), K::Rap(vec![P::Class("Hook".into(), None, vec![P::Val("n".into(), V::Num(N::Int(n as i64)))])]));
            format!("{}.create_file().write({});\n", v(&rel), q(&t))
        }
        9 => {
            // the version of the project, as in the documentation
            let main = p.addons.iter().position(|a| a.name == "main").expect("main");
            let rel = if p.addons[main].files.contains_key("script_version.hpp") { "script_version.hpp" } else { return String::new() };
            let v: Vec<u64> = vec![7, n as u64, 3, 5];
            let t = format!("#define MAJOR {}\n#define MINOR {}\n#define PATCHLVL {}\n#define BUILD {}\n", v[0], v[1], v[2], v[3]);
            p.files.insert(format!("addons/main/{rel}"), t.clone().into_bytes());
            p.version = format!("{}.{}.{}.{}", v[0], v[1], v[2], v[3]);
            for a in &mut p.addons { for k in a.files.values_mut() { if let K::Config(t) = k { versioned(t, &v); } } }
            format!("{}.create_file().write({});\n", at("HEMTT_VFS", &format!("addons/main/{rel}")), q(&t))
        }
        _ => {
            let f = pick(&["data", "functions", "ui"]);
            let to = format!("{f}_{n}");
            let fs: Vec<(String, K)> = in_folder(&a, f).into_iter().map(|(n, k)| (n.clone(), k.clone())).collect();
            if fs.is_empty() { return String::new(); }
            for (r, k) in fs { let b = p.files[&format!("{d}/{r}")].clone(); set(p, &format!("{to}{}", &r[f.len()..]), b, k); }
            format!("{}.copy({});\n", v(f), v(&to))
        }
    }
}
fn versioned(t: &mut [P], v: &[u64]) {
    for x in t { match x {
        P::Arr(n, _, a) if n == "versionAr" => *a = v.iter().map(|x| V::Num(N::Int(*x as i64))).collect(),
        P::Class(_, _, c) => versioned(c, v),
        _ => {}
    } }
}
/// The hooks of a project, in the order they have to run, and the project they make of `p`.
fn hooks(p: &mut Project, cmd: &str, break_one: bool) -> (Vec<Hook>, Files) {
    let mut hs = vec![];
    let mut more = Files::new();
    let mut n = 0;
    for (ph, phase) in PHASES.iter().enumerate() {
        let runs = match cmd { "check" => ph == 0, "release" => true, _ => ph < 2 };
        let k = gen(if ph == 0 { 4 } else { 3 }) as usize;
        let mut names: Vec<String> = ["01_first", "02_b", "10_ten", "a", "b", "set version", "z"].iter().map(|s| format!("{s}.rhai")).collect();
        while names.len() > k { let i = gen(names.len() as u64) as usize; names.remove(i); }
        names.sort();
        for name in names {
            n += 1;
            let mut text = note(&format!("\"{phase}/{name} \" + HEMTT.mode() + \" \" + HEMTT.project().prefix() + \" \" + HEMTT.project().version().to_string()"));
            let notes_version = p.version.clone();
            let mut notes = vec![format!("{phase}/{name} {cmd} {} {notes_version}", p.prefix)];
            if runs {
                for _ in 0..gen(3) {
                    n += 1;
                    match ph {
                        0 => text.push_str(&change(p, n)),
                        // what is packed stays packed
                        1 | 2 if genp(1, 2) => text.push_str(&format!("{}.create_file().write(\"too late\");\n", at("HEMTT_VFS", &format!("addons/main/{}", pick(&["late.txt", "config.cpp", "script_component.hpp"]))))),
                        1 if genp(1, 2) => { let f = pick(&["mod.cpp", "LICENSE", "meta.cpp"]); p.files.insert(f.into(), b"changed".to_vec()); if !p.include.contains(&f.to_string()) { p.include.push(f.to_string()); } text.push_str(&format!("{}.create_file().write(\"changed\");\n", at("HEMTT_VFS", f))); }
                        1 | 2 => { let f = format!("note {n}.txt"); p.extra.insert(f.clone(), b"out".to_vec()); text.push_str(&format!("{}.create_file().write(\"out\");\n", at("HEMTT_OUT", &f))); }
                        _ => {}
                    }
                }
                match gen(6) {
                    0 => { text.push_str("warn(\"careful\"); info(\"hello\"); error(\"not so good\"); print(1); debug(\"x\");\n"); }
                    1 => {
                        let s = format!("value{n}");
                        more.insert(format!(".hemtt/scripts/{s}.rhai"), format!("{}40 + {n}\n", note(&format!("\"script {s}\""))).into_bytes());
                        text.push_str(&format!("let x = HEMTT.script(\"{s}\"); {}", note("\"value \" + x")));
                        notes.push(format!("script {s}"));
                        notes.push(format!("value {}", 40 + n));
                    }
                    _ => {}
                }
            }
            hs.push(Hook { phase: ph, name, text, end: End::Fine, notes });
        }
        if genp(1, 10) { more.insert(format!(".hemtt/hooks/{phase}/lib/unused.rhai"), b"fatal(\"not a hook\");\n".to_vec()); }
    }
    if break_one && !hs.is_empty() {
        let i = gen(hs.len() as u64) as usize;
        let h = &mut hs[i];
        h.end = pick(&[End::Fatal, End::Throw, End::Unknown, End::Inner, End::NoScript]);
        let bad = pick(&["fatal(\"no\");\n", "throw \"no\";\n", "nothing_like_this(1);\n", "let x = ;\n"]);
        match h.end {
            End::Fatal => h.text.push_str("fatal(\"stop\");\n"),
            End::Throw => h.text.push_str("throw \"stop\";\n"),
            End::Unknown => h.text.push_str("HEMTT_RFS.join(\"nowhere.txt\").open_file();\n"),
            End::Inner => { h.text.push_str("HEMTT.script(\"failing\");\n"); more.insert(".hemtt/scripts/failing.rhai".into(), bad.as_bytes().to_vec()); }
            _ => h.text.push_str("HEMTT.script(\"nowhere\");\n"),
        }
    }
    (hs, more)
}
/// What is made, apart from the log of the hooks; sources other than `log.txt` have to be as they were.
fn made(d: &Dir, src: &Files) -> Result<(Tree, String), Violation> {
    let t = tree(&format!("{}/project", d.path));
    let mut o = Tree::new();
    for (n, b) in src { if n != "log.txt" { ensure!(t.get(n) == Some(&Node::File(b.clone())), "a hook that changes virtual files changes the sources", "{n}"); } }
    let log = match t.get("log.txt") { Some(Node::File(b)) => String::from_utf8_lossy(b).into_owned(), _ => return bad("a hook that changes virtual files changes the sources", "log.txt") };
    for (n, x) in t {
        if src.contains_key(&n) || n == ".keep" { continue; }
        if n.starts_with(".hemttout") || n.starts_with("releases") { if !n.ends_with(".log") { o.insert(n, x); } continue; }
        ensure!(matches!(x, Node::Folder) && src.keys().any(|f| f.starts_with(&format!("{n}/"))), "a hook that changes virtual files leaves files between the sources", "{n}");
    }
    Ok((o, log))
}
fn p33_hooks() -> Verdict {
    let mut p = project(false);
    let src = p.files.clone();
    let (args, cmd) = match gen(7) { 0 | 1 => (vec!["build"], "build"), 2 => (vec!["dev", "-O"], "dev"), 3 => (vec!["check"], "check"), _ => (vec!["release"], "release") };
    let broken = genp(1, 3);
    let (mut hs, more) = hooks(&mut p, cmd, broken);
    let mut files: Files = src.into_iter().collect();
    files.extend(more.clone());
    let unparsed = broken && !hs.is_empty() && genp(1, 6);
    if unparsed { for h in &mut hs { if h.end != End::Fine { h.text.push_str("let = = ;\n"); } } }
    for h in &hs { files.insert(format!(".hemtt/hooks/{}/{}", PHASES[h.phase], h.name), h.text.clone().into_bytes()); }
    files.insert("log.txt".into(), vec![]);
    let d = Dir::new();
    let mut pl = plan(&args);
    pl.env = env(1 << 30);
    pl.sched = Some(fault(1 << 30));
    pl.io_gap = [0, 3, 40][fault(3) as usize];
    pl.shuffle = env(2) == 1;
    pl.args.push("--threads".into());
    pl.args.push((1 + fault(3)).to_string());
    lay(&d, &files);
    let e = calm(&d, &pl, "a build with hooks")?;
    let (o, log) = made(&d, &files)?;
    let show = || files.iter().filter(|(n, _)| n.contains(".rhai")).map(|(n, b)| format!("=== {n}\n{}", String::from_utf8_lossy(b))).collect::<String>();
    let runs = |h: &Hook| match cmd { "check" => h.phase == 0, "release" => true, _ => h.phase < 2 };
    let stop = hs.iter().position(|h| h.end != End::Fine && runs(h));
    let got: Vec<&str> = log.lines().collect();
    let mut want: Vec<String> = vec![];
    let mut may: Vec<String> = vec![];
    for (i, h) in hs.iter().enumerate() {
        if !runs(h) || (unparsed && hs.iter().any(|h| h.end != End::Fine)) { continue; }
        // whether the rest of the hooks of a phase run once one has failed is open
        match stop { Some(s) if i > s => if h.phase == hs[s].phase { may.extend(h.notes.clone()); } else { break }, _ => want.extend(h.notes.clone()) }
    }
    let failing = if unparsed { hs.iter().any(|h| h.end != End::Fine) } else { stop.is_some() };
    let n = want.len().min(got.len());
    let rest = &got[n..];
    ensure!(want.len() <= got.len() && want.iter().zip(&got).all(|(a, b)| a == b) && (rest.is_empty() || rest.iter().zip(&may).all(|(a, b)| a == b) && rest.len() <= may.len()), "hooks do not run where, when or as often as they should", "{args:?} ran {got:#?}, instead of {want:#?} (and perhaps {may:#?})\n{}\n{}", tail(&e), show());
    ensure!(e.status == Some(0) || failing, "a build with hooks fails although nothing is wrong", "{args:?} {}\n{}", tail(&e), show());
    ensure!(e.status != Some(0) || !failing, "a hook that fails does not fail the build", "{args:?} {:?}\n{}", hs.iter().find(|h| h.end != End::Fine).map(|h| &h.end), show());
    if failing {
        let early = unparsed || stop.is_some_and(|s| hs[s].phase < 3);
        if early { ensure!(!o.keys().any(|n| n.ends_with(".zip")), "a release that a hook stopped leaves an archive", "{:?}", stop.map(|s| &hs[s].end)); }
        if unparsed || stop.is_some_and(|s| hs[s].phase == 0) { ensure!(!o.keys().any(|n| n.ends_with(".pbo")), "a build that a hook stopped goes on", ""); }
    } else if cmd != "check" {
        let ex = p.dev_exclude.clone();
        let dev = cmd == "dev";
        faithful(&p, cmd, &o, true, &move |a| !dev || !ex.contains(&dir(a))).map_err(|v| Violation { sig: format!("with hooks, {}", v.sig), detail: format!("{}\n{}", v.detail, show()) })?;
    }
    // trouble
    let mut how = String::new();
    if !failing && genp(1, 2) {
        let mut pt = pl.clone();
        lay(&d, &files);
        how = trouble(&mut pt, &e.counts, 40_000);
        let e2 = run(&d.path, &pt);
        sound(&e2, "a build with hooks")?;
        if !pt.faults.is_empty() || pt.disk_left.is_some() { if e2.status != Some(0) && log_lost(&d) { return Ok(Info { nontrivial: true, key: hash_str(&how), sample: None }); } }
        let (o2, log2) = made(&d, &files)?;
        if e2.status == Some(0) && !blind(&pt) {
            ensure!(log == log2, "hooks do not run where, when or as often as they should", "{how}: {log2} instead of {log}");
            if let Some(x) = differs(&lasting(&o)?, &lasting(&o2)?) { if !x.contains("ci_annotations") { return bad("a build with hooks succeeds although something went wrong", format!("{how} {:?}: {x}\n{}", pt.faults, show())); } }
        }
        ensure!(e2.status == Some(0) || !e2.fired.keys().all(|k| k == "fs-short" || k == "fs-eintr"), "a build with hooks fails although nothing is wrong", "{how}: {}", tail(&e2));
    }
    Ok(Info { nontrivial: !hs.is_empty(), key: mix(files.iter().fold(hash_str(&args.join(" ")), |h, (n, b)| mix(mix(h, hash_str(n)), hash_bytes(1, b))), hash_str(&how)), sample: Some(format!("{}: {} hooks, {:?}, {how}", args.join(" "), hs.len(), stop.map(|s| &hs[s].end))) })
}
fn log_lost(d: &Dir) -> bool { !matches!(tree(&format!("{}/project", d.path)).get("log.txt"), Some(Node::File(_))) }

// ---- file functions ----
#[derive(Clone, Debug, PartialEq)]
enum F { File(String), Dir }
type Model = BTreeMap<String, F>;
fn parent(p: &str) -> &str { p.rsplit_once('/').map_or("", |x| x.0) }
fn is_dir(m: &Model, p: &str) -> bool { p.is_empty() || m.get(p) == Some(&F::Dir) }
fn kids(m: &Model, p: &str) -> Vec<String> { let pre = if p.is_empty() { String::new() } else { format!("{p}/") }; m.keys().filter(|k| k.starts_with(&pre) && !k[pre.len()..].is_empty() && !k[pre.len()..].contains('/')).cloned().collect() }
fn under(m: &Model, p: &str) -> Vec<String> { let pre = format!("{p}/"); m.keys().filter(|k| *k == p || k.starts_with(&pre)).cloned().collect() }
/// A script that uses the file functions below `root`, what it reports and what it leaves.
fn program(root: &str, m: &mut Model, base: &str) -> (String, String) {
    let dirs = ["d0", "d1", "d0/e", "d1/e", "d2"];
    let mut all: Vec<String> = vec!["a.txt".into(), "b.txt".into()];
    for d in dirs { all.push(format!("{d}/a.txt")); all.push(format!("{d}/b.txt")); }
    let mut s = String::from("let r = \"\";\n");
    let mut r = String::new();
    let x = |p: &str| if p.is_empty() { at(root, base) } else { at(root, &format!("{base}/{p}")) };
    for i in 0..2 + gen(14) {
        let f = pick(&all);
        let d = pick(&dirs).to_string();
        let any = if genp(1, 2) { f.clone() } else { d.clone() };
        let text = pick(&["one", "", "zwei\n", "ünï ß", "\"3\""]).to_string();
        let ok = |s: &mut String, r: &mut String, code: String, res: Result<String, ()>| {
            s.push_str(&format!("try {{ {code} }} catch {{ r += \"{i}: failed\\n\"; }}\n"));
            r.push_str(&match res { Ok(t) => format!("{i}: {t}\n"), Err(()) => format!("{i}: failed\n") });
        };
        let done = format!("r += \"{i}: ok\\n\";");
        match gen(14) {
            0..=2 => {
                let can = is_dir(m, parent(&f)) && m.get(&f) != Some(&F::Dir);
                if can { m.insert(f.clone(), F::File(format!("{text}{i}"))); }
                ok(&mut s, &mut r, format!("let f = {}.create_file(); f.write({}); f.write(\"{i}\"); {done}", x(&f), q(&text)), if can { Ok("ok".into()) } else { Err(()) });
            }
            3 => { let res = match m.get(&f) { Some(F::File(t)) => Ok(format!("[{t}]")), _ => Err(()) }; ok(&mut s, &mut r, format!("let t = {}.open_file().read(); r += \"{i}: [\" + t + \"]\\n\";", x(&f)), res); }
            4 => { let w = if any.is_empty() { Some(&F::Dir) } else { m.get(&any) }; let (e, di, fi) = (w.is_some(), w == Some(&F::Dir), matches!(w, Some(F::File(_)))); ok(&mut s, &mut r, format!("let p = {}; r += \"{i}: \" + p.exists() + p.is_dir() + p.is_file() + p.file_name() + p.parent().file_name() + \"\\n\";", x(&any)), Ok(format!("{e}{di}{fi}{}{}", any.rsplit('/').next().unwrap_or(""), { let q = parent(&any); if q.is_empty() { base.rsplit('/').next().unwrap_or("") } else { q.rsplit('/').next().unwrap_or("") } }))); }
            5 => { let can = matches!(m.get(&f), Some(F::File(_))); m.remove(&f); ok(&mut s, &mut r, format!("{}.remove_file(); {done}", x(&f)), if can { Ok("ok".into()) } else { Err(()) }); }
            6 | 7 => {
                let to = format!("{}c{i}.txt", pick(&["", "d0/", "d1/", "d2/"]));
                let mv = genp(1, 2);
                let src = m.get(&f).cloned();
                let can = matches!(src, Some(F::File(_))) && is_dir(m, parent(&to));
                if can { if mv { m.remove(&f); } m.insert(to.clone(), src.expect("file")); all.push(to.clone()); }
                ok(&mut s, &mut r, format!("{}.{}({}); {done}", x(&f), if mv { "move" } else { "copy" }, x(&to)), if can { Ok("ok".into()) } else { Err(()) });
            }
            8 | 9 => {
                if !is_dir(m, &d) { continue; }
                let to = format!("n{i}");
                let mv = genp(1, 3);
                for k in under(m, &d) { let v = m[&k].clone(); let n = format!("{to}{}", &k[d.len()..]); if matches!(v, F::File(_)) { all.push(n.clone()); } m.insert(n, v); if mv { m.remove(&k); } }
                ok(&mut s, &mut r, format!("{}.{}({}); {done}", x(&d), if mv { "move" } else { "copy" }, x(&to)), Ok("ok".into()));
            }
            10 => { if m.contains_key(&d) { continue; } let can = is_dir(m, parent(&d)) && !m.contains_key(&d); if can { m.insert(d.clone(), F::Dir); } ok(&mut s, &mut r, format!("r += \"{i}: \" + {}.create_dir() + \"\\n\";", x(&d)), Ok(can.to_string())); }
            11 => { let mut at = String::new(); for c in d.split('/') { if !at.is_empty() { at.push('/'); } at.push_str(c); m.insert(at.clone(), F::Dir); } ok(&mut s, &mut r, format!("r += \"{i}: \" + {}.create_dir_all() + \"\\n\";", x(&d)), Ok("true".into())); }
            12 => {
                if !m.contains_key(&d) { continue; }
                let all_of = genp(1, 2);
                // the overlay of the vfs library also removes folders that are not empty
                if root == "HEMTT_VFS" && !all_of && !kids(m, &d).is_empty() { continue; }
                let can = all_of || kids(m, &d).is_empty();
                if can { for k in under(m, &d) { m.remove(&k); } }
                ok(&mut s, &mut r, format!("r += \"{i}: \" + {}.{}() + \"\\n\";", x(&d), if all_of { "remove_dir_all" } else { "remove_dir" }), Ok(can.to_string()));
            }
            _ => {
                let d = if genp(1, 3) { String::new() } else { any };
                if !d.is_empty() && !m.contains_key(&d) { continue; }
                let names: Vec<String> = if is_dir(m, &d) { kids(m, &d).into_iter().map(|k| k.rsplit('/').next().unwrap_or("").to_string()).collect() } else { vec![] };
                ok(&mut s, &mut r, format!("let n = \"\"; for x in {}.list() {{ n += x.file_name() + \",\"; }} r += \"{i}: \" + n + \"\\n\";", x(&d)), Ok(names.iter().map(|n| format!("{n},")).collect()));
            }
        }
    }
    (s, r)
}
fn p33_files() -> Verdict {
    let virt = genp(1, 2);
    let mut files = Files::new();
    files.insert(".hemtt/project.toml".into(), b"name = \"Test Mod\"\nprefix = \"tst\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\ngit_hash = 0\n".to_vec());
    files.insert("addons/main/$PBOPREFIX$".into(), b"z\\tst\\addons\\main".to_vec());
    files.insert("result.txt".into(), vec![]);
    let base = "addons/main/work";
    let mut m = Model::new();
    let keep = |files: &mut Files, m: &mut Model, p: &str, t: String| { files.insert(format!("{base}/{p}"), t.clone().into_bytes()); let mut at = String::new(); for c in parent(p).split('/').filter(|c| !c.is_empty()) { if !at.is_empty() { at.push('/'); } at.push_str(c); m.insert(at.clone(), F::Dir); } m.insert(p.into(), F::File(t)); };
    keep(&mut files, &mut m, "start.txt", "s".into());
    for p in ["a.txt", "d0/a.txt", "d0/e/b.txt", "d1/b.txt", "d0/b.txt"] { if genp(1, 2) { keep(&mut files, &mut m, p, format!("at first {p}")); } }
    let src = files.clone();
    let (mut s, r) = program(if virt { "HEMTT_VFS" } else { "HEMTT_RFS" }, &mut m, base);
    let end = if genp(1, 6) { pick(&["fatal(\"x\");\n", "throw 3;\n", "let y = ;\n"]) } else { "" };
    s.push_str("HEMTT_RFS.join(\"result.txt\").create_file().write(r);\n");
    s.push_str(end);
    files.insert(if virt { ".hemtt/hooks/pre_build/run.rhai".into() } else { ".hemtt/scripts/run.rhai".to_string() }, s.clone().into_bytes());
    let d = Dir::new();
    let mut pl = plan(if virt { &["build"] } else { &["script", "run"] });
    pl.env = env(1 << 30);
    pl.sched = Some(fault(1 << 30));
    pl.shuffle = env(2) == 1;
    lay(&d, &files);
    let what = if virt { "a hook" } else { "a script" };
    let e = calm(&d, &pl, what)?;
    let judge = |t: &Tree| -> Result<(), Violation> {
        let f = files_of(t);
        let got = String::from_utf8_lossy(f.get("result.txt").map_or(&[][..], |b| b)).into_owned();
        ensure!(got == r, format!("the file functions of {what} do something else"), "{}\n{s}", got.lines().zip(r.lines()).find(|(a, b)| a != b).map_or_else(|| format!("{got}\ninstead of\n{r}"), |(a, b)| format!("{a:?} instead of {b:?}")));
        let mut have = Model::new();
        if virt {
            for (n, b) in &src { if n != "result.txt" { ensure!(f.get(n) == Some(b), "a hook that changes virtual files changes the sources", "{n}"); } }
            if end.is_empty() {
                let Some(b) = f.get(".hemttout/build/addons/tst_main.pbo") else { return bad("an addon is not built", s.clone()) };
                let (a, _) = match pbofmt::decode(b) { Ok(a) => a, Err(x) => return bad("a built archive is damaged", x) };
                for e in &a.entries { if let Some(n) = String::from_utf8_lossy(&e.name).replace('\\', "/").strip_prefix("work/") { have.insert(n.into(), F::File(String::from_utf8_lossy(&e.data).into_owned())); } }
            } else { return Ok(()); }
        } else {
            for (n, x) in t { if let Some(n) = n.strip_prefix(&format!("{base}/")) { have.insert(n.into(), match x { Node::File(b) => F::File(String::from_utf8_lossy(b).into_owned()), _ => F::Dir }); } }
        }
        let want: Model = m.iter().filter(|x| !virt || *x.1 != F::Dir).map(|(k, v)| (k.clone(), v.clone())).collect();
        ensure!(have == want, format!("the file functions of {what} leave something else"), "{have:?} instead of {want:?}\n{s}");
        Ok(())
    };
    let seen = |d: &Dir| tree(&format!("{}/project", d.path));
    if end.starts_with("let") {
        let f = files_of(&seen(&d));
        for (n, b) in &src { ensure!(f.get(n) == Some(b), "a script that can not be read does something", "{n}"); }
    } else { judge(&seen(&d))?; }
    ensure!((e.status == Some(0)) == end.is_empty(), if end.is_empty() { "a script fails although nothing is wrong" } else { "a script that fails reports success" }, "{what} {:?} {}\n{s}", e.status, tail(&e));
    Ok(Info { nontrivial: true, key: mix(hash_str(&s), files.iter().fold(0, |h, (n, b)| mix(mix(h, hash_str(n)), hash_bytes(1, b)))), sample: Some(format!("{what}, {} steps, {:?}", r.lines().count(), e.status)) })
}
fn p33_missing() -> Verdict {
    let mut files = Files::new();
    files.insert(".hemtt/project.toml".into(), b"name = \"Test Mod\"\nprefix = \"tst\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\ngit_hash = 0\n".to_vec());
    for n in ["build", "values", "deploy"] { if genp(1, 2) { files.insert(format!(".hemtt/scripts/{n}.rhai"), b"1".to_vec()); } }
    if genp(1, 2) { files.insert("addons/main/$PBOPREFIX$".into(), b"z\\tst\\addons\\main".to_vec()); }
    let n = pick(&["buid", "nothing", "value", "deploy_all", "x/y", "ünï"]);
    let d = Dir::new();
    lay(&d, &files);
    let mut pl: Plan = plan(&["script", n]);
    pl.env = env(1 << 30);
    let e = calm(&d, &pl, "a script")?;
    ensure!(e.status != Some(0), "a script that is not there reports success", "{n}");
    Ok(Info { nontrivial: true, key: files.keys().fold(hash_str(n), |h, k| mix(h, hash_str(k))), sample: Some(n.to_string()) })
}

pub fn props() -> Vec<Property> {
    const REAL: &[&str] = &["the hemtt command line: commands, hooks, executor, modules", "all HEMTT libraries", "rhai, vfs, rayon above the libc calls"];
    const STUB: &[&str] = &["the Arma 3 wiki database (a fixed selection of commands; no network)", "the file system below the libc calls (real files in a scratch folder; errors, order and short transfers injected)", "thread scheduling, clocks, randomness"];
    vec![Property { id: "P33", rule: "distinct triples of project, hooks or script, and trouble", real: REAL, stub: STUB, level: "exploration",
        assumptions: &["whether the other hooks of a phase run once one of them has failed is open", "file functions are compared where the virtual and the real file system agree: copies and moves to a path that is free"],
        scenarios: vec![Scenario { patience: 200, ..Scenario::new("hooks", 500, 6_000, p33_hooks) }, Scenario { patience: 200, ..Scenario::new("files", 1500, 20_000, p33_files) }, Scenario::new("missing", 60, 200, p33_missing)] }]
}
