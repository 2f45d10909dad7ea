//! P36: commands that say something about a project, and the one that starts one.
use crate::exec::run;
use crate::full::{sound, tree, Node, Tree};
use crate::strtab::{self, LANGS, P, T};
use crate::tools::{blind, calm, cmd, files_of, lay, quiet, seen, tail, trouble, words, Files};
use crate::util::*;
use simcore::driver::{bad, Info, Property, Scenario, Verdict};
use simcore::scratch::Dir;
use simcore::sha1::sha1;
use simcore::sim;
use simcore::tape::{hash_bytes, hash_str, mix};
use simcore::{ensure, env, fault, gen, genp};
use std::collections::BTreeMap;

fn hexed(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
/// A loose object of a git repository.
fn object(f: &mut Files, kind: &str, body: &[u8]) -> String {
    let raw = [format!("{kind} {}\0", body.len()).as_bytes(), body].concat();
    let id = hexed(&sha1(&raw));
    let (mut a, mut b) = (1u32, 0u32);
    for x in &raw { a = (a + u32::from(*x)) % 65521; b = (b + a) % 65521; }
    let n = raw.len() as u16;
    let z = [&[0x78, 0x01, 1][..], &n.to_le_bytes(), &(!n).to_le_bytes(), &raw, &((b << 16) | a).to_be_bytes()].concat();
    f.insert(format!(".git/objects/{}/{}", &id[..2], &id[2..]), z);
    id
}
/// A repository with one commit, on a branch or not, its name packed or not.
fn repository(f: &mut Files) -> String {
    let tree = object(f, "tree", b"");
    let id = object(f, "commit", format!("tree {tree}\nauthor A B <a@b> {0} +0000\ncommitter A B <a@b> {0} +0000\n\nmessage {1}\n", 1_600_000_000 + gen(1000), gen(1 << 30)).as_bytes());
    f.insert(".git/config".into(), b"[core]\n\trepositoryformatversion = 0\n\tfilemode = true\n\tbare = false\n".to_vec());
    match gen(3) {
        0 => { f.insert(".git/HEAD".into(), b"ref: refs/heads/main\n".to_vec()); f.insert(".git/refs/heads/main".into(), format!("{id}\n").into_bytes()); }
        1 => { f.insert(".git/HEAD".into(), format!("{id}\n").into_bytes()); f.insert(".git/refs/heads/old".into(), format!("{id}\n").into_bytes()); }
        _ => { f.insert(".git/HEAD".into(), b"ref: refs/heads/main\n".to_vec()); f.insert(".git/refs/keep".into(), vec![]); f.insert(".git/packed-refs".into(), format!("# pack-refs with: peeled fully-peeled sorted \n{id} refs/heads/main\n").into_bytes()); }
    }
    id
}
fn q(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"")) }
fn list(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| q(s)).collect::<Vec<_>>().join(", ")) }

fn p36_value() -> Verdict {
    let mut f = Files::new();
    let mut want: BTreeMap<&str, Option<String>> = BTreeMap::new();
    let name = pick(&["Test Mod", "x", "Größe ü", "A \"quoted\" Mod", "back\\slash", " spaced "]).to_string();
    let prefix = pick(&["tst", "abe", "T_2", "a-b"]).to_string();
    let main = if genp(1, 2) { Some(pick(&["z", "x", ""]).to_string()) } else { None };
    let mut toml = format!("name = {}\nprefix = {}\n", q(&name), q(&prefix));
    if let Some(m) = &main { toml.push_str(&format!("mainprefix = {}\n", q(m))); }
    want.insert("project.name", Some(name));
    want.insert("project.prefix", Some(prefix.clone()));
    want.insert("project.mainprefix", Some(main.unwrap_or_default()));
    // version
    let v: [u64; 4] = [gen(4), gen(30), if genp(1, 6) { u64::from(u32::MAX) } else { gen(9) }, gen(1000)];
    let build = genp(1, 2);
    let from = gen(4); // 0: the table, 1: the usual file, 2: another file, 3: nothing
    let hash = match gen(4) { 0 => None, 1 => Some(8), 2 => Some(pick(&[1, 4, 39, 40, 41, 255])), _ => Some(0) };
    let mut table = vec![];
    let mut path = "addons/main/script_version.hpp".to_string();
    match from {
        0 => { table.push(format!("major = {}\nminor = {}\npatch = {}\n", v[0], v[1], v[2])); if build { table.push(format!("build = {}\n", v[3])); } }
        2 => { let p = pick(&["version.hpp", "addons/core/v.hpp", "addons\\core\\v.hpp"]); table.push(format!("path = {}\n", q(p))); path = p.replace('\\', "/"); }
        _ => {}
    }
    if let Some(h) = hash { table.push(format!("git_hash = {h}\n")); }
    let mut order = crate::pbo::shuffled(table.len());
    if !table.is_empty() { toml.push_str("[version]\n"); for i in order.drain(..) { toml.push_str(&table[i]); } }
    if from == 1 || from == 2 {
        let nl = pick(&["\n", "\r\n"]);
        let mut lines = vec![format!("#define MAJOR {}", v[0]), format!("#define MINOR {}", v[1]), format!("#define {} {}", pick(&["PATCH", "PATCHLVL"]), v[2])];
        if build { lines.push(format!("#define BUILD {}", v[3])); }
        for l in &mut lines { l.push_str(pick(&["", "", " ", " // note", " // 9 9"])); if genp(1, 8) { l.insert_str(0, "  "); } }
        let mut text = pick(&["", "// version\n", "#pragma once\n\n"]).to_string();
        for i in crate::pbo::shuffled(lines.len()) { text.push_str(&lines[i]); text.push_str(nl); }
        if path.starts_with("addons/core") { f.insert("addons/core/$PBOPREFIX$".into(), b"z\\tst\\addons\\core\n".to_vec()); }
        f.insert(path.clone(), text.into_bytes());
    }
    let repo = genp(3, 4);
    let id = if repo { repository(&mut f) } else { String::new() };
    let len = hash.unwrap_or(8) as usize;
    let known = from != 3 && (len == 0 || repo);
    let nums = format!("{}.{}.{}", v[0], v[1], v[2]);
    let mut full = nums.clone();
    if build { full.push_str(&format!(".{}", v[3])); }
    if len > 0 && repo { full.push_str(&format!("-{}", &id[..len.min(40)])); }
    let ver = |s: String| if known { Some(s) } else { None };
    want.insert("project.version.short", ver(nums));
    want.insert("project.version.major", ver(v[0].to_string()));
    want.insert("project.version.minor", ver(v[1].to_string()));
    want.insert("project.version.patch", ver(v[2].to_string()));
    want.insert("project.version.build", ver(if build { v[3].to_string() } else { String::new() }));
    want.insert("project.version", ver(full.clone()));
    want.insert("project.version.path", Some(path));
    want.insert("project.version.git_hash", Some(len.to_string()));
    // the rest
    let mut props = BTreeMap::new();
    for i in 0..gen(6) { props.insert(format!("{}{i}", pick(&["author", "url", "k", "Z"])), pick(&["x", "some one", "https://example.org", "", "ünï: 1"]).to_string()); }
    let mut sections = vec![];
    if !props.is_empty() { sections.push(props.iter().fold("[properties]\n".to_string(), |s, (k, v)| format!("{s}{k} = {}\n", q(v)))); }
    want.insert("project.properties", Some(props.iter().map(|(k, v)| format!("{k}: {v}\n")).collect()));
    let mut inc: Vec<String> = (0..gen(4)).map(|_| pick(&["README.md", "/docs/*.md", "mod.cpp", "/LICENSE", "*.dll", "a b/*"]).to_string()).collect();
    let exc: Vec<String> = (0..gen(3)).map(|_| pick(&["*.psd", "/x", "b", "a*"]).to_string()).collect();
    if genp(2, 3) { sections.push(format!("[files]\ninclude = {}\nexclude = {}\n", list(&inc), list(&exc))); want.insert("project.files.exclude", Some(exc.join("\n"))); } else { inc.clear(); want.insert("project.files.exclude", Some(String::new())); }
    let mut all: Vec<String> = inc.iter().map(|s| if s.starts_with('/') { s.clone() } else { format!("/{s}") }).chain(["/mod.cpp", "/meta.cpp", "/LICENSE", "/logo_ca.paa", "/logo_co.paa"].map(String::from)).collect();
    all.sort();
    all.dedup();
    want.insert("project.files.include", Some(all.join("\n")));
    let auth = if genp(1, 2) { Some(pick(&["auth", "team", "a.b"]).to_string()) } else { None };
    let sv = if genp(1, 2) { Some(2 + gen(2)) } else { None };
    if auth.is_some() || sv.is_some() || genp(1, 4) {
        let mut s = "[signing]\n".to_string();
        if let Some(a) = &auth { s.push_str(&format!("authority = {}\n", q(a))); }
        if let Some(n) = sv { s.push_str(&format!("version = {n}\n")); }
        sections.push(s);
    }
    want.insert("project.signing.authority", ver(format!("{}_{full}", auth.unwrap_or(prefix))));
    want.insert("project.signing.version", Some(format!("V{}", sv.unwrap_or(3))));
    for i in crate::pbo::shuffled(sections.len()) { toml.push_str(&sections[i]); }
    f.insert(".hemtt/project.toml".into(), toml.clone().into_bytes());
    f.insert("addons/main/config.cpp".into(), b"class CfgPatches {};\n".to_vec());
    f.insert("addons/main/$PBOPREFIX$".into(), b"z\\tst\\addons\\main\n".to_vec());

    // without a version nothing works
    if !known { for w in want.values_mut() { *w = None; } }
    let names: Vec<&str> = want.keys().copied().collect();
    let n = names[gen(names.len() as u64) as usize];
    let d = Dir::new();
    lay(&d, &f);
    let what = "asking for a value";
    let pl = cmd(&words(&["value", n]));
    let e = calm(&d, &pl, what)?;
    match &want[n] {
        Some(w) => {
            ensure!(e.status == Some(0), "asking for a value fails although it is known", "{n}: {}\n{toml}", tail(&e));
            ensure!(e.out == format!("{w}\n"), format!("the value {n} is not that of the project"), "{:?} instead of {w:?}\n{toml}", e.out);
        }
        None => ensure!(e.status != Some(0), "asking for a value that is not known reports success", "{n}: {}\n{toml}", tail(&e)),
    }
    let left = files_of(&seen(&d));
    ensure!(left == f, "asking for a value changes the project", "{n}");
    // once more with trouble
    let mut pt = cmd(&words(&["value", n]));
    let tr = trouble(&mut pt, &e.counts, 0);
    let e2 = run(&d.path, &pt);
    sound(&e2, what)?;
    ensure!(files_of(&seen(&d)) == f, "asking for a value changes the project", "{n} {tr}");
    // reading the repository, a version that can not be read is no longer known: only the answer is judged
    if e2.status == Some(0) && !blind(&pt) && want[n].is_some() { ensure!(e2.out == e.out, "asking for a value while reading fails gives a wrong one", "{n}: {:?} instead of {:?} {tr}\n{toml}", e2.out, e.out); }
    ensure!(e2.status == e.status || !e2.fired.keys().all(|k| k == "fs-short" || k == "fs-eintr"), "asking for a value fails although it is known", "{n} {tr}: {}", tail(&e2));
    Ok(Info { nontrivial: true, key: mix(mix(hash_str(n), hash_bytes(1, toml.as_bytes())), hash_str(&tr)), sample: Some(format!("{n} = {:?}, {tr} -> {:?}", want[n], e2.status)) })
}
fn p36_list() -> Verdict {
    let mut f = Files::new();
    f.insert(".hemtt/project.toml".into(), b"name = \"a\"\nprefix = \"b\"\n[version]\nmajor = 1\nminor = 2\npatch = 3\ngit_hash = 0\n".to_vec());
    f.insert("addons/main/config.cpp".into(), b"class CfgPatches {};\n".to_vec());
    f.insert("addons/main/$PBOPREFIX$".into(), b"z\\tst\\addons\\main\n".to_vec());
    let d = Dir::new();
    lay(&d, &f);
    let e = calm(&d, &cmd(&words(&["value", "list"])), "listing the values")?;
    ensure!(e.status == Some(0), "listing the values fails", "{}", tail(&e));
    let names: Vec<String> = e.out.lines().map(String::from).collect();
    ensure!(!names.is_empty(), "no values are listed", "");
    let n = names[gen(names.len() as u64) as usize].clone();
    let e1 = calm(&d, &cmd(&words(&["value", &n])), "asking for a value")?;
    ensure!(e1.status == Some(0), "a value that is listed is not known", "{n}");
    let n2 = match gen(4) { 0 => format!("{n}x"), 1 => n[..n.len() - 1].to_string(), 2 => n.replace('.', "_"), _ => pick(&["", "project", "version", "project.", "lists"]).to_string() };
    let e2 = calm(&d, &cmd(&words(&["value", &n2])), "asking for a value")?;
    if !names.contains(&n2) && n2 != "list" { ensure!(e2.status != Some(0) && e2.out.is_empty(), "a value that does not exist has an answer", "{n2}: {:?} {:?}", e2.status, e2.out); }
    Ok(Info { nontrivial: true, key: mix(hash_str(&n), hash_str(&n2)), sample: Some(format!("{n}, {n2}")) })
}

// ---- string tables ----
fn plain(p: &mut P) {
    for k in &mut p.keys { for t in k.tr.iter_mut().flatten() { if t.trim().is_empty() { *t = "x".into(); } } }
    for s in &mut p.sub { plain(s); }
}
fn count(p: &P, by: &mut [u32; 25]) {
    for k in &p.keys { by[24] += 1; for (i, t) in k.tr.iter().enumerate() { if t.is_some() { by[i] += 1; } } }
    for s in &p.sub { count(s, by); }
}
fn p36_coverage() -> Verdict {
    let mut f = Files::new();
    f.insert(".hemtt/project.toml".into(), b"name = \"Test Mod\"\nprefix = \"tst\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\ngit_hash = 0\n".to_vec());
    let mut total = [0u32; 25];
    let mut gaps: Vec<Vec<String>> = vec![vec![]; 24];
    let mut damaged = None;
    let n = 1 + gen(5);
    let which: Vec<u64> = (0..24).map(|_| gen(3)).collect();
    for i in 0..n {
        let a = format!("{}/{}{i}", if i > 0 && genp(1, 4) { "optionals" } else { "addons" }, pick(&["main", "core", "x_y"]));
        f.insert(format!("{a}/$PBOPREFIX$"), format!("z\\tst\\{a}").replace('/', "\\").into_bytes());
        f.insert(format!("{a}/config.cpp"), b"class CfgPatches {};\n".to_vec());
        if genp(1, 5) { f.insert(format!("{a}/sub/stringtable.xml"), b"<Proj".to_vec()); }
        if genp(1, 6) { continue; }
        let mut t: T = strtab::table();
        for p in &mut t.packs {
            plain(p);
            fn fill(p: &mut P, which: &[u64]) { for k in &mut p.keys { for (l, t) in k.tr.iter_mut().enumerate() { if which[l] == 1 && gen(40) > 0 { *t = Some(format!("t{l}")); } else if which[l] == 2 { *t = None; } } } for s in &mut p.sub { fill(s, which); } }
            fill(p, &which);
        }
        let mut by = [0u32; 25];
        for p in &t.packs { count(p, &mut by); }
        for l in 0..24 { if by[l] != by[24] { gaps[l].push(a.clone()); } }
        for l in 0..25 { total[l] += by[l]; }
        let mut b = strtab::encode(&t).into_bytes();
        if fault(12) == 1 { let end = b.len() - 12; b.truncate(1 + fault(end as u64) as usize); damaged = Some(a.clone()); }
        f.insert(format!("{a}/stringtable.xml"), b);
    }
    for g in &mut gaps { g.sort(); }
    let format = pick(&["json", "pretty-json", "markdown", "ascii"]);
    let args = words(&["localization", "coverage", "--format", format]);
    let v: Vec<&str> = args.iter().map(String::as_str).collect();
    let d = Dir::new();
    lay(&d, &f);
    let what = "reporting the translations";
    let pl = quiet(&v);
    let e = calm(&d, &pl, what)?;
    ensure!(files_of(&seen(&d)) == f, "reporting the translations changes the project", "");
    if let Some(a) = &damaged {
        ensure!(e.status != Some(0), "translations are reported although a string table is damaged", "{a}: {}", tail(&e));
        return Ok(Info { nontrivial: true, key: hash_bytes(2, &f[&format!("{a}/stringtable.xml")]), sample: Some(format!("damaged {a} -> {:?}", e.status)) });
    }
    ensure!(e.status == Some(0), "reporting the translations fails although nothing is wrong", "{}", tail(&e));
    let shown = |g: &[String]| if g.is_empty() { "None".to_string() } else if g.len() <= 3 { g.join(", ") } else { format!("{} and {} more", g[0], g.len() - 1) };
    let langs: Vec<usize> = (0..24).filter(|l| total[*l] > 0).collect();
    if format.ends_with("json") {
        let j: serde_json::Value = match serde_json::from_str(&e.out) { Ok(j) => j, Err(x) => return bad("the report on translations is not valid JSON", format!("{x}: {}", e.out)) };
        let rows = j.as_array().cloned().unwrap_or_default();
        ensure!(rows.len() == langs.len(), "the report on translations has another number of languages", "{} instead of {}: {}", rows.len(), langs.len(), e.out);
        for (r, l) in rows.iter().zip(&langs) {
            let pc = f64::from(total[*l]) / f64::from(total[24]) * 100.0;
            let mut m: Vec<String> = r["missing"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default();
            m.sort();
            ensure!(r["language"] == LANGS[*l], "the report on translations has other languages", "{} instead of {}", r["language"], LANGS[*l]);
            ensure!((r["percent"].as_f64().unwrap_or(-1.0) - pc).abs() < 1e-6, "the report on translations has a wrong percentage", "{}: {} instead of {pc} ({} of {})", LANGS[*l], r["percent"], total[*l], total[24]);
            ensure!(m == gaps[*l], "the report on translations names other addons", "{}: {m:?} instead of {:?}", LANGS[*l], gaps[*l]);
        }
    } else {
        let rows: Vec<Vec<String>> = e.out.lines().filter(|l| l.starts_with(['|', '│'])).map(|l| l.split(['|', '│']).map(|c| c.trim().to_string()).filter(|c| !c.is_empty()).collect()).filter(|r: &Vec<String>| r.iter().any(|c| !c.chars().all(|x| x == '-' || x == ':'))).collect();
        ensure!(rows.len() == langs.len() + 1, "the report on translations has another number of languages", "{} instead of {}: {}", rows.len(), langs.len() + 1, e.out);
        for (r, l) in rows[1..].iter().zip(&langs) {
            let pc = f64::from(total[*l]) / f64::from(total[24]) * 100.0;
            // which of the addons stands for the others is not fixed
            let ok = |c: &str| if gaps[*l].len() > 3 { gaps[*l].iter().any(|g| c == format!("{g} and {} more", gaps[*l].len() - 1)) } else { let mut m: Vec<&str> = c.split(", ").collect(); m.sort_unstable(); m.join(", ") == shown(&gaps[*l]) };
            ensure!(r.len() == 3 && r[0] == LANGS[*l] && r[1] == format!("{pc:.2}%") && ok(&r[2]), "the report on translations has a wrong row", "{r:?} for {} {pc:.2} {:?}", LANGS[*l], gaps[*l]);
        }
    }
    let e1 = calm(&d, &quiet(&v), what)?;
    ensure!(e1.out == e.out, "the report on translations differs from run to run", "{}\n{}", e.out, e1.out);
    let mut pt = pl.clone();
    let tr = trouble(&mut pt, &e.counts, 0);
    let e2 = run(&d.path, &pt);
    sound(&e2, what)?;
    ensure!(files_of(&seen(&d)) == f, "reporting the translations changes the project", "{tr}");
    if e2.status == Some(0) && !blind(&pt) { ensure!(e2.out == e.out, "reporting the translations while reading fails gives a wrong report", "{tr}\n{}\n{}", e.out, e2.out); }
    Ok(Info { nontrivial: total[24] > 0, key: f.values().fold(hash_str(&tr), |h, b| mix(h, hash_bytes(3, b))), sample: Some(format!("{n} addons, {} of {} languages, {format}, {tr} -> {:?}", langs.len(), total[24], e2.status)) })
}

// ---- new ----
fn p36_new() -> Verdict {
    let mut f = Files::new();
    f.insert("other/file.txt".into(), b"stays".to_vec());
    f.insert("loose.txt".into(), b"stays".to_vec());
    if genp(1, 4) { repository(&mut f); }
    let name = pick(&["my_mod", "x", "other/new", "my mod", "Ünï", "/sim/project/full", "other", "loose.txt", "gone/new", "other/file.txt/new"]);
    let rel = name.trim_start_matches("/sim/project/").to_string();
    let fine = !["other", "loose.txt", "gone/new", "other/file.txt/new"].contains(&name);
    let d = Dir::new();
    lay(&d, &f);
    let what = "starting a project";
    let pl = quiet(&["new", name]);
    let full = |d: &Dir| -> Tree { let mut t = tree(&format!("{}/project", d.path)); t.remove(".keep"); t };
    let before = full(&d);
    let rest = |t: &Tree| -> Tree { if fine { t.iter().filter(|(n, _)| **n != rel && !n.starts_with(&format!("{rel}/"))).map(|(n, x)| (n.clone(), x.clone())).collect() } else { t.clone() } };
    let complete = |t: &Tree| -> Result<(), simcore::driver::Violation> {
        let file = |n: &str| match t.get(&format!("{rel}/{n}")) { Some(Node::File(b)) => Some(b.clone()), _ => None };
        let toml = file(".hemtt/project.toml").unwrap_or_default();
        ensure!(toml == b"name = \"Advanced Banana Environment\"\nauthor = \"ABE Team\"\nprefix = \"abe\"\nmainprefix = \"z\"\n", "a new project has another configuration than what was answered", "{}", String::from_utf8_lossy(&toml));
        ensure!(t.get(&format!("{rel}/addons")) == Some(&Node::Folder), "a new project has no addons folder", "");
        let ig = file(".gitignore").unwrap_or_default();
        let ig = String::from_utf8_lossy(&ig).into_owned();
        for n in ["*.pbo", ".hemttout", "*.biprivatekey"] { ensure!(ig.lines().any(|l| l == n), "a new project does not keep build output and keys out of git", "{n}: {ig:?}"); }
        let lic = file("LICENSE").unwrap_or_default();
        ensure!(lic.starts_with(b"Copyright (c) ") && String::from_utf8_lossy(&lic).contains("\nPermission is hereby granted, free of charge,") && lic.trim_ascii_end().ends_with(b"\nSOFTWARE."), "a new project has no complete license", "{}", String::from_utf8_lossy(&lic));
        ensure!(file(".git/HEAD").is_some_and(|h| h.starts_with(b"ref: refs/heads/")) && t.get(&format!("{rel}/.git/objects")) == Some(&Node::Folder) && t.get(&format!("{rel}/.git/refs")) == Some(&Node::Folder), "a new project has no repository", "{:?}", t.keys().collect::<Vec<_>>());
        Ok(())
    };
    let e = calm(&d, &pl, what)?;
    let t = full(&d);
    ensure!(rest(&t) == before, "starting a project changes something else", "{name}: {:?}", crate::full::differs(&rest(&t), &before));
    if !fine {
        ensure!(e.status != Some(0), "starting a project where it can not be reports success", "{name}");
        return Ok(Info { nontrivial: true, key: mix(hash_str(name), before.len() as u64), sample: Some(format!("{name} -> {:?}", e.status)) });
    }
    ensure!(e.status == Some(0), "starting a project fails although nothing is wrong", "{name}: {}", tail(&e));
    complete(&t)?;
    // it is a project
    let over = |d: &Dir, p: &crate::exec::Plan| -> Result<(), simcore::driver::Violation> {
        let was = full(d);
        let e = calm(d, p, what)?;
        ensure!(e.status != Some(0), "starting a project where there is one reports success", "{name}");
        ensure!(full(d) == was, "starting a project where there is one changes it", "");
        Ok(())
    };
    over(&d, &pl)?;
    {
        let _g = sim::hold();
        let p = format!("{}/project", d.path);
        let at = format!("{}/moved", d.path);
        std::fs::rename(format!("{p}/{rel}"), &at).expect("move");
        std::fs::remove_dir_all(&p).expect("clear");
        std::fs::rename(&at, &p).expect("move");
        let toml = std::fs::read_to_string(format!("{p}/.hemtt/project.toml")).expect("toml");
        std::fs::write(format!("{p}/.hemtt/project.toml"), toml + "[version]\nmajor = 1\nminor = 0\npatch = 0\ngit_hash = 0\n").expect("toml");
    }
    let e1 = calm(&d, &cmd(&words(&["value", "project.name"])), "asking for a value")?;
    ensure!(e1.status == Some(0) && e1.out == "Advanced Banana Environment\n", "a new project is not one that can be used", "{}", tail(&e1));
    // trouble
    lay(&d, &f);
    let mut pt = pl.clone();
    let written = 2000;
    let tr = trouble(&mut pt, &e.counts, written);
    let e2 = run(&d.path, &pt);
    sound(&e2, what)?;
    let t = full(&d);
    ensure!(rest(&t) == before, "starting a project changes something else", "{name} {tr}");
    if e2.status == Some(0) && !blind(&pt) { complete(&t).map_err(|v| simcore::driver::Violation { sig: format!("starting a project reports success: {}", v.sig), detail: format!("{tr} {}", v.detail) })?; }
    ensure!(e2.status == Some(0) || !e2.fired.keys().all(|k| k == "fs-short" || k == "fs-eintr"), "starting a project fails although nothing is wrong", "{tr}: {}", tail(&e2));
    let _ = env(2);
    Ok(Info { nontrivial: true, key: mix(hash_str(name), hash_str(&format!("{tr}{:?}", pt.faults))), sample: Some(format!("{name}, {tr} -> {:?}", e2.status)) })
}

pub fn props() -> Vec<Property> {
    const REAL: &[&str] = &["the hemtt command line: commands, context, report", "hemtt-common, hemtt-workspace, hemtt-stringtable", "libgit2 and vfs above the libc calls"];
    const STUB: &[&str] = &["the terminal `hemtt new` asks (the answers HEMTT's own test mode gives)", "the file system below the libc calls (real files in a scratch folder; errors, order and short transfers injected)", "thread scheduling, clocks, randomness"];
    let sc = |n, q, t, f| Scenario { patience: 200, ..Scenario::new(n, q, t, f) };
    vec![Property { id: "P36", rule: "distinct triples of project, question and trouble", real: REAL, stub: STUB, level: "fault_enumeration",
        assumptions: &["a file that can not be examined (a failing stat) counts as absent", "an empty translation is not generated"],
        scenarios: vec![sc("value", 2500, 40_000, p36_value), sc("list", 300, 2000, p36_list), sc("coverage", 1500, 20_000, p36_coverage), sc("new", 1200, 16_000, p36_new)] }]
}
