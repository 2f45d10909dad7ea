//! P30-P32: commands that rewrite sources, unpack archives, verify and inspect files.
use crate::exec::{run, Ended, Plan};
use crate::full::{plan, sound, tree, Node, Tree};
use crate::strtab;
use crate::util::*;
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::fsx;
use simcore::scratch::Dir;
use simcore::sim;
use simcore::tape::{hash_bytes, hash_str, mix};
use simcore::{ensure, env, fault, gen, genp};
use std::collections::{BTreeMap, BTreeSet};

pub type Files = BTreeMap<String, Vec<u8>>;
pub fn lay(d: &Dir, files: &Files) {
    let _g = sim::hold();
    for x in ["project", "tmp", "home"] { let _ = std::fs::remove_dir_all(format!("{}/{x}", d.path)); }
    d.put("project/.keep", b"");
    for (n, b) in files { d.put(&format!("project/{n}"), b); }
}
/// The project folder, without what commands leave for themselves.
pub fn seen(d: &Dir) -> Tree { tree(&format!("{}/project", d.path)).into_iter().filter(|(n, _)| !n.starts_with(".hemttout") && n != ".keep").collect() }
pub fn files_of(t: &Tree) -> Files { t.iter().filter_map(|(n, x)| if let Node::File(b) = x { Some((n.clone(), b.clone())) } else { None }).collect() }
pub fn cmd(args: &[String]) -> Plan {
    let mut p = plan(&[]);
    p.args = args.to_vec();
    p.env = env(1 << 30);
    p.sched = Some(fault(1 << 30));
    p.shuffle = env(2) == 1;
    p.io_gap = [0, 3, 40][fault(3) as usize];
    p
}
/// A run without trouble.
pub fn calm(d: &Dir, pl: &Plan, what: &str) -> Result<Ended, Violation> {
    let e = run(&d.path, pl);
    sound(&e, what)?;
    if let Some(x) = &e.panic { return bad(format!("{what} panics: {}", simcore::driver::norm(x)), x.clone()); }
    Ok(e)
}
/// Some trouble for a command that made the calls `counts` when there was none.
pub fn trouble(pl: &mut Plan, counts: &BTreeMap<u32, u64>, written: u64) -> String {
    match fault(8) {
        0 => { pl.disk_left = Some(fault(written.max(1))); "disk full".into() }
        1 => { pl.short = 2 + fault(4); pl.eintr = 4; pl.fault_seed = Some(fault(1 << 30)); "short".into() }
        _ => {
            let classes: Vec<(u32, u64)> = counts.iter().map(|(k, n)| (*k, *n)).filter(|(k, n)| *n > 0 && *k != fsx::CLOSE).collect();
            if classes.is_empty() { return "nothing to fail".into(); }
            let (c, n) = classes[fault(classes.len() as u64) as usize];
            let nth = fault(n);
            let errno = [libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE, libc::ENOMEM, libc::EROFS][fault(6) as usize];
            let sticky = fault(4) == 1;
            pl.faults.push((c, nth, sticky, errno, None));
            format!("{} #{nth} of {n}{}", fsx::class_name(c), if sticky { " and later" } else { "" })
        }
    }
}
pub fn blind(pl: &Plan) -> bool { pl.faults.iter().any(|f| f.0 & fsx::STAT != 0) }
fn hkey(f: &Files, x: &str) -> u64 { f.iter().fold(hash_str(x), |h, (n, b)| mix(mix(h, hash_str(n)), hash_bytes(1, b))) }
pub fn tail(e: &Ended) -> String { let s = format!("{}\n{}", e.out, e.err); let v: Vec<&str> = s.lines().filter(|l| !l.contains("TRACE")).collect(); v[v.len().saturating_sub(12)..].join("\n") }

// ---- P30 ----
/// `targets` are (`exact`: a second time changes nothing) rewritten by `args`, everything else stays; `judge` looks at the result.
fn rewrite(what: &str, files: &Files, targets: &BTreeSet<String>, args: &[String], exact: bool, judge: &dyn Fn(&Files) -> Result<(), Violation>) -> Verdict {
    let d = Dir::new();
    lay(&d, files);
    let pl = cmd(args);
    let e = calm(&d, &pl, what)?;
    ensure!(e.status == Some(0), format!("{what} fails although nothing is wrong"), "{args:?} {}", tail(&e));
    let new = files_of(&seen(&d));
    for (n, b) in files { if !targets.contains(n) { ensure!(new.get(n) == Some(b), format!("{what} changes another file"), "{n}"); } }
    if let Some(n) = new.keys().find(|n| !files.contains_key(*n)) { return bad(format!("{what} leaves a file behind"), n.clone()); }
    if let Some(n) = files.keys().find(|n| !new.contains_key(*n)) { return bad(format!("{what} removes a file"), n.clone()); }
    judge(&new)?;
    let e2 = calm(&d, &cmd(args), what)?;
    let again = files_of(&seen(&d));
    ensure!(e2.status == Some(0) && (!exact || again == new), format!("{what} a second time changes the files again"), "{:?} {:?}", e2.status, new.iter().find(|(n, b)| again.get(*n) != Some(b)).map(|x| x.0));
    if !exact { judge(&again)?; }
    // trouble
    let parts = |got: &Files| -> Result<bool, Violation> {
        let mut all = true;
        for (n, b) in files {
            let g = got.get(n);
            if targets.contains(n) {
                ensure!(g == Some(b) || g == new.get(n), format!("{what} that is cut short leaves a damaged file"), "{n}: {} bytes, before {}, after {}", g.map_or(-1, |g| g.len() as i64), b.len(), new[n].len());
                all &= g == new.get(n);
            } else { ensure!(g == Some(b), format!("{what} changes another file"), "{n}"); }
        }
        Ok(all)
    };
    lay(&d, files);
    let mut pt = pl.clone();
    let written = new.values().map(|b| b.len() as u64).sum();
    let kill = fault(3) == 1;
    let how;
    if kill {
        pt.crash_at = Some(fault(e.mutations.max(1)));
        pt.fault_seed = Some(fault(1 << 30));
        how = format!("killed at {:?} of {}", pt.crash_at, e.mutations);
        let ek = run(&d.path, &pt);
        sound(&ek, what)?;
        if ek.status == Some(99) { simcore::fired("process-killed"); }
        parts(&files_of(&seen(&d)))?;
    } else {
        how = trouble(&mut pt, &e.counts, written);
        let et = run(&d.path, &pt);
        sound(&et, what)?;
        let got = files_of(&seen(&d));
        let all = parts(&got)?;
        if et.status == Some(0) && !blind(&pt) {
            ensure!(all, format!("{what} succeeds although not everything was written"), "{args:?} {how} {:?}", pt.faults);
            if let Some(n) = got.keys().find(|n| !files.contains_key(*n)) { return bad(format!("{what} leaves a file behind"), n.clone()); }
        }
        ensure!(et.status == Some(0) || !et.fired.keys().all(|k| k == "fs-short" || k == "fs-eintr"), format!("{what} fails although nothing is wrong"), "{how}: {}", tail(&et));
    }
    // and again once the trouble is over
    let er = calm(&d, &cmd(args), what)?;
    let got = files_of(&seen(&d));
    ensure!(er.status == Some(0), format!("{what} fails after one that was cut short"), "{how}: {}", tail(&er));
    ensure!(got.iter().all(|(n, b)| new.get(n) == Some(b) || again.get(n) == Some(b)) && got.len() == new.len(), format!("{what} after one that was cut short gives another result"), "{how}: {:?}", got.iter().find(|(n, b)| new.get(*n) != Some(b)).map(|x| x.0));
    Ok(Info { nontrivial: files != &new, key: mix(hkey(files, &args.join(" ")), hash_str(&how)), sample: Some(format!("{}: {} files, {how}", args.join(" "), targets.len())) })
}
fn base() -> Files {
    let mut f = Files::new();
    f.insert(".hemtt/project.toml".into(), b"name = \"Test Mod\"\nprefix = \"tst\"\n[version]\nmajor = 1\nminor = 0\npatch = 0\ngit_hash = 0\n".to_vec());
    f
}
fn some_addons(f: &mut Files) -> Vec<String> {
    let n = 1 + gen(3);
    (0..n).map(|i| {
        let a = format!("{}/{}{i}", if genp(1, 5) { "optionals" } else { "addons" }, pick(&["main", "Core", "x_y"]));
        f.insert(format!("{a}/$PBOPREFIX$"), format!("z\\tst\\{a}").replace('/', "\\").into_bytes());
        f.insert(format!("{a}/config.cpp"), b"class CfgPatches { class tst { requiredVersion = 1.0; }; };\n".to_vec());
        a
    }).collect()
}
fn p30_sort() -> Verdict {
    let mut f = base();
    let mut want = BTreeMap::new();
    let only = genp(1, 4);
    for a in some_addons(&mut f) {
        for place in ["", "sub/", "a/b c/"] {
            if !(place.is_empty() || genp(1, 4)) || genp(1, 8) { continue; }
            let t = strtab::table();
            let s = strtab::encode(&t);
            let n = format!("{a}/{place}stringtable.xml");
            f.insert(n.clone(), s.into_bytes());
            want.insert(n, t);
        }
        if genp(1, 4) { f.insert(format!("{a}/stringtable.xml.bak"), b"<Project".to_vec()); }
        if genp(1, 4) { f.insert(format!("{a}/ui/strings.xml"), b"<a/>".to_vec()); }
    }
    if f.keys().any(|k| k.starts_with("optionals/")) && !f.keys().any(|k| k.starts_with("addons/")) { f.insert("addons/z/$PBOPREFIX$".into(), b"z\\tst\\z".to_vec()); f.insert("addons/z/config.cpp".into(), b"class CfgPatches {};\n".to_vec()); }
    let mut args: Vec<String> = vec!["localization".into(), "sort".into()];
    if only { args.push("--only-lang".into()); }
    let targets = want.keys().cloned().collect();
    rewrite("sorting string tables", &f, &targets, &args, false, &|new| {
        for (n, t) in &want {
            let s = String::from_utf8_lossy(&new[n]).into_owned();
            let g = match strtab::tree(&s) { Ok(g) => g, Err(x) => return bad("a sorted string table is not valid", format!("{n}: {x}")) };
            if only { ensure!(g == *t, "sorting only the languages changes something else", "{n}: {}", strtab::first_diff(t, &g)); continue; }
            ensure!(strtab::canon(&g) == strtab::canon(t), "sorting a string table changes more than the order", "{n}: {}", strtab::first_diff(&strtab::canon(t), &strtab::canon(&g)));
            if strtab::all_plain(t) { ensure!(g == strtab::in_order(t), "a sorted string table is not in order", "{n}: {}", strtab::first_diff(&strtab::in_order(t), &g)); }
        }
        Ok(())
    })
}
/// A script and what correcting the case of its commands makes of it.
fn script() -> (String, String) {
    const CMDS: [&str; 22] = ["player", "allUnits", "hint", "alive", "count", "isNil", "selectRandom", "typeOf", "getPos", "parseNumber", "toLower", "createVehicle", "systemChat", "waitUntil", "vectorDir", "parseText", "deleteVehicle", "diag_tickTime", "missionNamespace", "configFile", "private", "spawn"];
    let (mut a, mut b) = (String::new(), String::new());
    let twist = |s: &str| -> String { match gen(4) { 0 => s.to_string(), 1 => s.to_lowercase(), 2 => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(), _ => { let mut c = s.chars(); c.next().map(|x| x.to_ascii_uppercase()).into_iter().chain(c).collect() } } };
    for _ in 0..gen(60) {
        let nl = pick(&["\n", "\n", "\r\n"]);
        let same = |s: String, a: &mut String, b: &mut String| { a.push_str(&s); b.push_str(&s); };
        let c = pick(&CMDS);
        let t = twist(c);
        match gen(16) {
            0..=4 => { a.push_str(&t); b.push_str(c); }
            5 => same(pick(&["_x", "_playerCount", "tst_fnc_Player", "Player_1", "myHint", "x1", "1e3", "0xFF", "_COUNT", "hintC_", "3.5"]).to_string(), &mut a, &mut b),
            6 => same(format!("\"{}{t}{}\"", pick(&["", "say ", "\"\"", "// ", "/* ", "'"]), pick(&["", " now", "\"\"", " */", nl])), &mut a, &mut b),
            7 => same(format!("'{}{t}{}'", pick(&["", "say ", "''", "// ", "/* ", "\""]), pick(&["", " now", "''", " */"])), &mut a, &mut b),
            8 => same(format!("//{} {t}{}{nl}", pick(&["", "/", "*", "\"", " it's"]), pick(&["", " '", " */", " \""])), &mut a, &mut b),
            9 => same(format!("/*{}{t}{}*/", pick(&["", " ", nl, "*", "/ ", "\"", " it's ", "//"]), pick(&["", " ", nl, "*", " /", "\"", "// "])), &mut a, &mut b),
            10 => same(format!("{}({}{})", pick(&["GVAR", "QGVAR", "FUNC", "ARR_2", "M"]), pick(&["", "my"]), t), &mut a, &mut b),
            11 => same(nl.to_string(), &mut a, &mut b),
            _ => { let s = pick(&["+", "==", ";", "{", "}", "[", "]", " / ", "*", "!", "(", ")", ",", ">="]); same(s.to_string(), &mut a, &mut b); }
        }
        // anything that could run into the next piece is kept apart
        same(pick(&[" ", " ", "  ", "\t", nl]).to_string(), &mut a, &mut b);
    }
    (a, b)
}
fn p30_case() -> Verdict {
    let mut f = base();
    let mut want = Files::new();
    let n = 1 + gen(5);
    for i in 0..n {
        let (a, b) = script();
        let p = format!("addons/main/{}s{i}.sqf", pick(&["", "functions/", "a b/c/"]));
        f.insert(p.clone(), a.into_bytes());
        want.insert(p, b.into_bytes());
    }
    let (a, _) = script();
    if genp(1, 3) { f.insert("addons/main/notes.txt".into(), a.clone().into_bytes()); }
    if genp(1, 3) { f.insert("addons/main/script.SQF".into(), a.into_bytes()); }
    let one = genp(1, 4);
    let target = if one { let k: Vec<String> = want.keys().cloned().collect(); pick(&k) } else { pick(&["addons", ".", "addons/main"]).to_string() };
    if one { want.retain(|k, _| *k == target); }
    let mut args: Vec<String> = ["utils", "sqf", "case"].iter().map(|s| (*s).to_string()).collect();
    args.push(target);
    let targets = want.keys().cloned().collect();
    rewrite("correcting the case of commands", &f, &targets, &args, true, &|new| {
        for (n, b) in &want { ensure!(new[n] == *b, "correcting the case of commands gives another script", "{n}: {}\n{}\n---\n{}", diff(&new[n], b), String::from_utf8_lossy(&f[n]), String::from_utf8_lossy(&new[n])); }
        Ok(())
    })
}
// ---- P31 ----
use crate::pbofmt::{self, Archive, Entry};
const KEYS: [&[u8]; 3] = [include_bytes!("../../lsim/keys/k0_512.bin"), include_bytes!("../../lsim/keys/k1_512.bin"), include_bytes!("../../lsim/keys/k3_1024.bin")];
pub fn words(args: &[&str]) -> Vec<String> { args.iter().map(|s| (*s).to_string()).collect() }
/// Without a log, so that the output is what the command prints.
pub fn quiet(args: &[&str]) -> Plan {
    let mut p = cmd(&words(args));
    if std::env::var("BSIM_LOUD").is_err() { p.args.push("--in-test".into()); }
    p
}
fn archive(nmax: u64) -> Archive {
    let mut a = Archive { vers: true, ..Archive::default() };
    if genp(4, 5) { a.props.push((b"prefix".to_vec(), pick(&["z\\tst\\addons\\main", "x", "z\\ünï\\a b"]).as_bytes().to_vec())); }
    for k in ["version", "hemtt", "git"] { if genp(1, 3) { a.props.push((k.as_bytes().to_vec(), pick(&["1.2.3", "", "a=b", "ü ß"]).as_bytes().to_vec())); } }
    if a.props.is_empty() && genp(1, 2) { a.vers = false; }
    let mut names = BTreeSet::new();
    for _ in 0..gen(nmax + 1) {
        let mut n = String::new();
        for _ in 0..gen(3) { n.push_str(pick(&["data", "functions", "a b", "ünï", "UI"])); n.push('\\'); }
        n.push_str(&format!("{}{}.{}", pick(&["a", "config", "Init", "x y", "ß"]), gen(4), pick(&["sqf", "bin", "paa", "txt", "SQF", "p3d"])));
        if names.contains(&n.to_lowercase()) { continue; }
        names.insert(n.to_lowercase());
        let len = match gen(6) { 0 => 0, 1 => 1, 2 => 4000 + gen(9000) as usize, _ => gen(600) as usize };
        a.entries.push(Entry { name: n.into_bytes(), mime: 0, original: if genp(1, 2) { len as u32 } else { 0 }, reserved: 0, timestamp: if genp(1, 3) { gen(1 << 32) as u32 } else { 0 }, data: bytes(len) });
    }
    if genp(5, 6) { a.entries.sort_by_key(|e| pbofmt::lower(&e.name)); }
    a
}
fn unpacked(a: &Archive) -> Files {
    let mut f = Files::new();
    if let Some(p) = a.prop("prefix") { f.insert("$PBOPREFIX$".into(), p.clone()); }
    let other: Vec<u8> = a.props.iter().filter(|p| p.0 != b"prefix").flat_map(|(k, v)| [k.as_slice(), b"=", v.as_slice(), b"\n"].concat()).collect();
    if !other.is_empty() { f.insert("properties.txt".into(), other); }
    for e in &a.entries { f.insert(String::from_utf8_lossy(&e.name).replace('\\', "/"), e.data.clone()); }
    f
}
fn within(t: &Files, dir: &str) -> Files { t.iter().filter_map(|(n, b)| n.strip_prefix(&format!("{dir}/")).map(|n| (n.to_string(), b.clone()))).collect() }
fn wrong(got: &Files, want: &Files) -> Option<String> {
    for (n, b) in want { match got.get(n) { None => return Some(format!("{n:?} is missing")), Some(g) if g != b => return Some(format!("{n:?}: {}", diff(g, b))), _ => {} } }
    got.keys().find(|n| !want.contains_key(*n)).map(|n| format!("{n:?} should not be there"))
}
fn outside(t: &Files, files: &Files, dir: &str, what: &str) -> Result<(), Violation> {
    let rest: Files = t.iter().filter(|(n, _)| !n.starts_with(&format!("{dir}/")) && *n != dir).map(|(n, b)| (n.clone(), b.clone())).collect();
    if let Some(x) = wrong(&rest, files) { return bad(format!("{what} changes something outside the destination"), x); }
    Ok(())
}
fn p31_unpack() -> Verdict {
    let a = archive(7);
    let b = pbofmt::encode(&a);
    let want = unpacked(&a);
    let mut f = Files::new();
    f.insert("in.pbo".into(), b.clone());
    f.insert("other/file.txt".into(), b"stays".to_vec());
    let dest = pick(&["out", "new/deep/out", "/sim/project/out"]);
    let rel = dest.trim_start_matches("/sim/project/");
    let d = Dir::new();
    lay(&d, &f);
    let what = "unpacking an archive";
    let pl = quiet(&["utils", "pbo", "unpack", "in.pbo", dest]);
    let e = calm(&d, &pl, what)?;
    ensure!(e.status == Some(0), "unpacking an archive fails although nothing is wrong", "{}", tail(&e));
    let t = files_of(&seen(&d));
    outside(&t, &f, rel, what)?;
    if let Some(x) = wrong(&within(&t, rel), &want) { return bad("an unpacked archive is not what was packed", x); }
    // not over something that is there
    let e2 = calm(&d, &quiet(&["utils", "pbo", "unpack", "in.pbo", dest]), what)?;
    ensure!(e2.status != Some(0), "unpacking into a folder that exists reports success", "");
    ensure!(files_of(&seen(&d)) == t, "unpacking into a folder that exists changes it", "");
    // trouble
    lay(&d, &f);
    let mut pt = pl.clone();
    let how = trouble(&mut pt, &e.counts, want.values().map(|b| b.len() as u64).sum());
    let e3 = run(&d.path, &pt);
    sound(&e3, what)?;
    let t = files_of(&seen(&d));
    outside(&t, &f, rel, what)?;
    if e3.status == Some(0) && !blind(&pt) { if let Some(x) = wrong(&within(&t, rel), &want) { return bad("unpacking reports success although something is missing", format!("{how}: {x}")); } }
    ensure!(e3.status == Some(0) || !e3.fired.keys().all(|k| k == "fs-short" || k == "fs-eintr"), "unpacking an archive fails although nothing is wrong", "{how}: {}", tail(&e3));
    Ok(Info { nontrivial: !a.entries.is_empty(), key: mix(hash_bytes(31, &b), hash_str(&how)), sample: Some(format!("{} files, {how} -> {:?}", a.entries.len(), e3.status)) })
}
/// Archives cut short must not be taken for complete ones.
fn p31_cut() -> Verdict {
    let mut a = archive(5);
    a.entries.push(Entry { name: b"zz.bin".to_vec(), mime: 0, original: 0, reserved: 0, timestamp: 0, data: bytes(40) });
    let b = pbofmt::encode(&a);
    // the checksum at the end is not needed to unpack
    let n = fault(b.len() as u64 - 21) as usize;
    let mut f = Files::new();
    f.insert("in.pbo".into(), b[..n].to_vec());
    let d = Dir::new();
    lay(&d, &f);
    let one = genp(1, 2);
    let args = if one { vec!["utils", "pbo", "extract", "in.pbo", "zz.bin", "out/zz.bin"] } else { vec!["utils", "pbo", "unpack", "in.pbo", "out"] };
    if one { std::fs::create_dir_all(format!("{}/project/out", d.path)).expect("out"); }
    let e = calm(&d, &quiet(&args), "unpacking an archive that is cut short")?;
    let t = files_of(&seen(&d));
    outside(&t, &f, "out", "unpacking an archive that is cut short")?;
    let missing = !a.entries.last().expect("some").data.is_empty();
    if missing && e.status == Some(0) { return bad("unpacking an archive that is cut short reports success", format!("{} of {} bytes, {args:?}", n, b.len())); }
    Ok(Info { nontrivial: missing, key: mix(hash_bytes(37, &b[..n]), u64::from(one)), sample: Some(format!("{n} of {} bytes -> {:?}", b.len(), e.status)) })
}
/// Archives that want to write elsewhere, or are damaged.
fn p31_hostile() -> Verdict {
    let mut a = archive(4);
    let mut f = Files::new();
    f.insert("other/file.txt".into(), b"stays".to_vec());
    f.insert("data/file.txt".into(), b"stays".to_vec());
    let n = pick(&["..\\evil.txt", "..\\other\\file.txt", "../evil.txt", "data\\..\\..\\evil.txt", "\\sim\\project\\evil.txt", "/sim/project/other/file.txt", "\\evil.txt", "C:\\evil.txt", "..\\..\\evil.txt", "..\\..\\..\\..\\..\\..\\..\\evil.txt", "\\\\evil\\share\\x.txt", "/sim/home/evil.txt", "a\\.\\b.txt", "a\\\\b.txt", "..", "data\\..", ".\\evil.txt", "...\\x"]);
    let at = gen(a.entries.len() as u64 + 1) as usize;
    a.entries.insert(at, Entry { name: n.as_bytes().to_vec(), mime: 0, original: 0, reserved: 0, timestamp: 0, data: b"evil".to_vec() });
    let mut b = pbofmt::encode(&a);
    let damaged = genp(1, 4);
    if damaged { for _ in 0..1 + fault(3) { simcore::streams::damage(&mut b); } }
    f.insert("in.pbo".into(), b.clone());
    let d = Dir::new();
    lay(&d, &f);
    let what = "unpacking a hostile archive";
    let e = calm(&d, &quiet(&["utils", "pbo", "unpack", "in.pbo", "out"]), what)?;
    outside(&files_of(&seen(&d)), &f, "out", what)?;
    let home = tree(&format!("{}/home", d.path));
    ensure!(home.is_empty(), "unpacking a hostile archive changes something outside the destination", "{:?}", home.keys().next());
    let escapes = { let mut depth = 0i32; let mut low = 0; for c in n.replace('\\', "/").split('/') { match c { "" | "." => {} ".." => depth -= 1, _ => depth += 1 } low = low.min(depth); } low < 0 };
    if escapes && !damaged { ensure!(e.status != Some(0), "a file that would be outside the destination is dropped and success reported", "{n:?}"); }
    Ok(Info { nontrivial: true, key: hash_bytes(32, &b), sample: Some(format!("{n:?}{} -> {:?}", if damaged { ", damaged" } else { "" }, e.status)) })
}
fn p31_extract() -> Verdict {
    let a = archive(6);
    let b = pbofmt::encode(&a);
    let mut f = Files::new();
    f.insert("in.pbo".into(), b.clone());
    f.insert("there.txt".into(), b"stays".to_vec());
    let d = Dir::new();
    lay(&d, &f);
    let what = "extracting a file";
    let some = if a.entries.is_empty() || genp(1, 8) { None } else { Some(gen(a.entries.len() as u64) as usize) };
    let name = some.map_or("nothing\\here.txt".to_string(), |i| { let n = String::from_utf8_lossy(&a.entries[i].name).into_owned(); match gen(3) { 0 => n.replace('\\', "/"), _ => n } });
    let over = genp(1, 8);
    let dest = if over { "there.txt" } else { "res.bin" };
    let pl = quiet(&["utils", "pbo", "extract", "in.pbo", &name, dest]);
    let e = calm(&d, &pl, what)?;
    let mut t = files_of(&seen(&d));
    let mut how = "nothing".to_string();
    match some {
        Some(i) if !over => {
            ensure!(e.status == Some(0), "extracting a file fails although nothing is wrong", "{name:?} {}", tail(&e));
            let g = t.remove("res.bin");
            ensure!(g.as_ref() == Some(&a.entries[i].data), "an extracted file is not what was packed", "{name:?} {:?} bytes of {}", g.map(|g| g.len()), a.entries[i].data.len());
            if let Some(x) = wrong(&t, &f) { return bad("extracting a file changes something else", x); }
            // to standard output
            let es = calm(&d, &quiet(&["utils", "pbo", "extract", "in.pbo", &name]), what)?;
            ensure!(es.status == Some(0) && es.out == String::from_utf8_lossy(&a.entries[i].data), "a file printed is not what was packed", "{name:?} {:?}", es.status);
            lay(&d, &f);
            let mut pt = pl.clone();
            how = trouble(&mut pt, &e.counts, a.entries[i].data.len() as u64);
            let e2 = run(&d.path, &pt);
            sound(&e2, what)?;
            let t = files_of(&seen(&d));
            if e2.status == Some(0) && !blind(&pt) { ensure!(t.get("res.bin") == Some(&a.entries[i].data), "extracting reports success although something is missing", "{how}"); }
            ensure!(e2.status == Some(0) || !e2.fired.keys().all(|k| k == "fs-short" || k == "fs-eintr"), "extracting a file fails although nothing is wrong", "{how}: {}", tail(&e2));
            outside(&t, &f, "res.bin", what)?;
        }
        _ => {
            ensure!(e.status != Some(0), if over { "extracting over a file that exists reports success" } else { "extracting a file that is not there reports success" }, "{name:?}");
            if let Some(x) = wrong(&t, &f) { return bad("extracting a file that fails changes something", x); }
        }
    }
    Ok(Info { nontrivial: some.is_some(), key: mix(hash_bytes(33, &b), hash_str(&format!("{name} {how} {over}"))), sample: Some(format!("{name:?} {how}")) })
}

// ---- P32 ----
fn signed(b: &[u8], k: usize, auth: &str, v3: bool) -> (Vec<u8>, Vec<u8>) {
    let mut kb = auth.as_bytes().to_vec();
    kb.push(0);
    kb.extend_from_slice(KEYS[k]);
    let key = hemtt_signing::BIPrivateKey::read(&mut std::io::Cursor::new(kb)).expect("key");
    let mut pbo = hemtt_pbo::ReadablePbo::from(std::io::Cursor::new(b.to_vec())).expect("archive");
    let (mut s, mut p) = (vec![], vec![]);
    key.sign(&mut pbo, if v3 { hemtt_pbo::BISignVersion::V3 } else { hemtt_pbo::BISignVersion::V2 }).expect("sign").write(&mut s).expect("write");
    key.to_public_key().write(&mut p).expect("write");
    (s, p)
}
fn sorted_archive() -> Archive {
    let mut a = archive(6);
    if a.prop("prefix").is_none() { a.props.insert(0, (b"prefix".to_vec(), b"z\\tst".to_vec())); }
    a.vers = true;
    if a.entries.is_empty() { a.entries.push(Entry { name: b"a.sqf".to_vec(), mime: 0, original: 0, reserved: 0, timestamp: 0, data: b"hint 'a'".to_vec() }); }
    a.entries.sort_by_key(|e| pbofmt::lower(&e.name));
    a
}
fn p32_verify() -> Verdict {
    let mut a = sorted_archive();
    let good = pbofmt::encode(&a);
    let (k, auth, v3) = (gen(3) as usize, pick(&["tst", "tst_1.2.3-abc", "a"]), genp(1, 2));
    let (sig, public) = signed(&good, k, auth, v3);
    let mut f = Files::new();
    let at = pick(&["mod.pbo", "addons/tst_main.pbo", "a.b c.pbo"]);
    let sn = format!("{}.pbo.{auth}.bisign", &at[..at.len() - 4]);
    let (mut pbo, mut sg, mut pb) = (good.clone(), Some(sig), public);
    // flips are made to the data of some file, which every scheme hashes as part of the whole archive
    let how = match gen(9) {
        0 | 1 | 2 => "intact",
        3 => { let i: Vec<usize> = (0..a.entries.len()).filter(|&i| !a.entries[i].data.is_empty()).collect(); if i.is_empty() { "intact" } else {
            let e = &mut a.entries[pick(&i)].data; let n = e.len() as u64; e[gen(n) as usize] ^= 1 << gen(8); pbo = pbofmt::encode(&a); "changed" } }
        4 => { a.entries.push(Entry { name: b"zzz.sqf".to_vec(), mime: 0, original: 0, reserved: 0, timestamp: 0, data: b"hint 'more'".to_vec() }); pbo = pbofmt::encode(&a); "file added" }
        5 => { pb = signed(&good, (k + 1) % 3, auth, v3).1; "another key" }
        6 => { sg = None; "no signature" }
        7 => { let n = gen(pbo.len() as u64) as usize; pbo.truncate(n); "cut short" }
        _ => { a.entries[0].data.push(b'x'); let o = pbofmt::encode(&a); sg = Some(signed(&o, k, auth, v3).0); "signature of another archive" }
    };
    f.insert(at.into(), pbo.clone());
    f.insert("k.bikey".into(), pb);
    if let Some(s) = sg { f.insert(sn, s); }
    let d = Dir::new();
    lay(&d, &f);
    let what = "verifying an archive";
    let pl = quiet(&["utils", "verify", at, "k.bikey"]);
    let e = calm(&d, &pl, what)?;
    let said = e.out.lines().any(|l| l.trim() == "Verified!");
    let holds = how == "intact";
    ensure!(said == holds, if holds { "an archive with a good signature is not verified" } else { "an archive without a good signature is verified" }, "{how}: {}", tail(&e));
    ensure!((e.status == Some(0)) == holds, if holds { "verifying an archive with a good signature fails" } else { "a verification that fails reports success" }, "{how}: {:?}", e.status);
    ensure!(files_of(&seen(&d)) == f, "verifying an archive changes files", "");
    let mut pt = pl.clone();
    let tr = trouble(&mut pt, &e.counts, 1);
    let e2 = run(&d.path, &pt);
    sound(&e2, what)?;
    let said2 = e2.out.lines().any(|l| l.trim() == "Verified!");
    ensure!(!said2 || holds, "an archive without a good signature is verified", "{how}, {tr}");
    ensure!(e2.status != Some(0) || holds, "a verification that fails reports success", "{how}, {tr}");
    ensure!((e2.status == Some(0)) == said2, "what a verification prints and what it returns disagree", "{how}, {tr}: {:?} {}", e2.status, tail(&e2));
    ensure!(!holds || e2.status == Some(0) || !e2.fired.keys().all(|k| k == "fs-short" || k == "fs-eintr"), "verifying an archive with a good signature fails", "{tr}: {}", tail(&e2));
    Ok(Info { nontrivial: true, key: mix(hash_bytes(34, &pbo), hash_str(&format!("{how}{tr}{k}{auth}{v3}"))), sample: Some(format!("{how}, {tr} -> {:?} {:?}", e.status, e2.status)) })
}
fn line<'a>(o: &'a str, k: &str) -> Option<&'a str> { o.lines().find_map(|l| l.trim().strip_prefix(k)).map(str::trim) }
fn json(o: &str) -> Option<Vec<serde_json::Value>> { o.lines().find_map(|l| serde_json::from_str::<Vec<serde_json::Value>>(l).ok()) }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn p32_inspect() -> Verdict {
    let mut f = Files::new();
    let (args, expect): (Vec<String>, Box<dyn Fn(&str) -> Result<(), Violation>>) = match gen(4) {
        0 | 1 => {
            let a = archive(8);
            let mut b = pbofmt::encode(&a);
            let off = genp(1, 4);
            if off { let n = b.len(); b[n - 1] ^= 0x10; }
            f.insert("in.pbo".into(), b.clone());
            (words(&["utils", "pbo", "inspect", "in.pbo", "--format", pick(&["json", "ascii", "markdown", "pretty-json"])]), Box::new(move |o| {
                let n = b.len();
                ensure!(line(o, "- Stored:").map(str::to_lowercase) == Some(hex(&b[n - 20..])), "inspecting an archive shows another checksum", "{:?}", line(o, "- Stored:"));
                let s: Vec<String> = a.entries.iter().map(|e| pbofmt::lower(&e.name)).collect();
                let sorted = s.windows(2).all(|w| w[0] <= w[1]);
                ensure!(line(o, "- Sorted:").map(|x| x == "true") == Some(sorted), "inspecting an archive is wrong about its order", "{s:?}");
                // the actual checksum is computed over the files in their proper order
                if sorted { ensure!(line(o, "- Actual:").map(str::to_lowercase) == Some(hex(&simcore::sha1::sha1(&b[..n - 21]))), "inspecting an archive shows another checksum", "{:?}", line(o, "- Actual:")); }
                ensure!(line(o, "- Count:") == Some(a.entries.len().to_string().as_str()), "inspecting an archive shows another number of files", "{:?}", line(o, "- Count:"));
                for (k, v) in &a.props { let (k, v) = (String::from_utf8_lossy(k), String::from_utf8_lossy(v)); ensure!(o.lines().any(|l| l.trim_end() == format!("  - {k}: {v}").trim_end()), "inspecting an archive shows other properties", "{k}: {v}"); }
                if let Some(v) = json(o) {
                    ensure!(v.len() == a.entries.len(), "inspecting an archive shows other files", "{} / {}", v.len(), a.entries.len());
                    for (e, j) in a.entries.iter().zip(&v) {
                        ensure!(j["filename"].as_str() == Some(&*String::from_utf8_lossy(&e.name)) && j["size"].as_u64() == Some(e.data.len() as u64) && j["original"].as_u64() == Some(u64::from(e.original)) && j["timestamp"].as_u64() == Some(u64::from(e.timestamp)), "inspecting an archive shows other files", "{j} {:?} {} {} {}", String::from_utf8_lossy(&e.name), e.data.len(), e.original, e.timestamp);
                    }
                } else { for e in &a.entries { let n = String::from_utf8_lossy(&e.name); ensure!(o.contains(&*n) || o.contains(&n.replace('\\', "\\\\")), "inspecting an archive shows other files", "{:?}", String::from_utf8_lossy(&e.name)); } }
                Ok(())
            }))
        }
        2 => {
            let b = pbofmt::encode(&sorted_archive());
            let (k, auth, v3) = (gen(3) as usize, pick(&["tst", "tst_1.2.3-abc", "ünï"]), genp(1, 2));
            let (s, p) = signed(&b, k, auth, v3);
            let sig = genp(1, 2);
            let n = pick(&["x.bikey", "x.bisign", "x.dat"]);
            let n = match (sig, n) { (true, "x.bikey") => "x.bisign", (false, "x.bisign") => "x.bikey", (_, n) => n };
            f.insert(n.into(), if sig { s } else { p });
            (words(&["utils", "inspect", n]), Box::new(move |o| {
                ensure!(line(o, "- Authority:") == Some(auth), "inspecting a key or signature shows another authority", "{o}");
                ensure!(line(o, "- Length:") == Some(if k == 2 { "1024" } else { "512" }) && line(o, "- Exponent:") == Some("65537"), "inspecting a key or signature shows other numbers", "{o}");
                ensure!(o.contains(if sig { "Signature:" } else { "Public Key:" }), "inspecting takes a key for a signature or the other way round", "{o}");
                if sig { ensure!(line(o, "- Version:") == Some(if v3 { "V3" } else { "V2" }), "inspecting a signature shows another version", "{o}"); }
                Ok(())
            }))
        }
        _ => {
            let t = crate::media::tex();
            f.insert("t.paa".into(), crate::media::enc(&t));
            (words(&["utils", "paa", "inspect", "t.paa", "--format", "json"]), Box::new(move |o| {
                let Some(v) = json(o) else { return bad("inspecting a texture shows nothing", o) };
                ensure!(v.len() == t.mips.len() && line(o, "Maps:") == Some(t.mips.len().to_string().as_str()), "inspecting a texture shows other levels", "{} / {}", v.len(), t.mips.len());
                for (m, j) in t.mips.iter().zip(&v) { ensure!(j["Width"].as_u64().or(j["width"].as_u64()) == Some(m.w as u64) && j["height"].as_u64() == Some(m.h as u64) && j["size"].as_u64() == Some(m.stored.len() as u64) && j["compressed"].as_bool() == Some(m.comp), "inspecting a texture shows other levels", "{j} {}x{} {}", m.w, m.h, m.comp); }
                Ok(())
            }))
        }
    };
    let d = Dir::new();
    lay(&d, &f);
    let what = "inspecting a file";
    let v: Vec<&str> = args.iter().map(String::as_str).collect();
    let pl = quiet(&v);
    let e = calm(&d, &pl, what)?;
    ensure!(e.status == Some(0), "inspecting a file fails although nothing is wrong", "{args:?} {}", tail(&e));
    expect(&e.out)?;
    ensure!(files_of(&seen(&d)) == f, "inspecting a file changes files", "");
    let mut pt = pl.clone();
    let tr = trouble(&mut pt, &e.counts, 1);
    let e2 = run(&d.path, &pt);
    sound(&e2, what)?;
    // the kind of a file without its extension is a guess, which goes on when one cannot be tried
    if e2.status == Some(0) && !blind(&pt) && !args.contains(&"x.dat".to_string()) { ensure!(e2.out == e.out, "inspecting a file reports success although it could not be read", "{args:?} {tr}"); }
    ensure!(e2.status == Some(0) || !e2.fired.keys().all(|k| k == "fs-short" || k == "fs-eintr"), "inspecting a file fails although nothing is wrong", "{tr}: {}", tail(&e2));
    Ok(Info { nontrivial: true, key: mix(hkey(&f, &args.join(" ")), hash_str(&tr)), sample: Some(format!("{} {tr} -> {:?}", args.join(" "), e2.status)) })
}
fn p32_convert() -> Verdict {
    let t = crate::media::tex();
    let mut f = Files::new();
    let b = crate::media::enc(&t);
    f.insert("t.paa".into(), b.clone());
    f.insert("there.png".into(), b"stays".to_vec());
    let d = Dir::new();
    lay(&d, &f);
    let over = genp(1, 10);
    let dest = if over { "there.png" } else { "out.png" };
    let what = "converting a texture";
    let pl = quiet(&["utils", "paa", "convert", "t.paa", dest]);
    let e = calm(&d, &pl, what)?;
    let t1 = files_of(&seen(&d));
    outside(&t1, &f, "out.png", what)?;
    let mut tr = String::new();
    if over || t.mips.is_empty() {
        ensure!(e.status != Some(0), if over { "converting over a file that exists reports success" } else { "converting a texture without an image reports success" }, "");
        ensure!(!t1.contains_key("out.png"), "a conversion that fails leaves an image", "");
    } else {
        ensure!(e.status == Some(0), "converting a texture fails although nothing is wrong", "{}", tail(&e));
        let right = |t1: &Files| -> Result<(), Violation> {
            let m = &t.mips[0];
            let Some(p) = t1.get("out.png") else { return bad("converting a texture reports success and leaves no image", "") };
            let img = match image::load_from_memory(p) { Ok(i) => i.to_rgba8(), Err(x) => return bad("a converted texture is not a valid image", x.to_string()) };
            ensure!(img.width() as usize == m.w && img.height() as usize == m.h, "a converted texture has other dimensions", "");
            for (i, (x, y)) in crate::media::decode(t.f, m.w, m.h, &m.raw).iter().zip(img.pixels()).enumerate() { ensure!(crate::media::near(x, &y.0, 3), "a converted texture has other pixels", "pixel {i} of {}x{}: {:?} vs {x:?}", m.w, m.h, y.0); }
            Ok(())
        };
        right(&t1)?;
        lay(&d, &f);
        let mut pt = pl.clone();
        tr = trouble(&mut pt, &e.counts, t1["out.png"].len() as u64);
        let e2 = run(&d.path, &pt);
        sound(&e2, what)?;
        let t2 = files_of(&seen(&d));
        outside(&t2, &f, "out.png", what)?;
        if e2.status == Some(0) && !blind(&pt) { right(&t2).map_err(|v| Violation { sig: format!("converting a texture reports success: {}", v.sig), detail: format!("{tr} {}", v.detail) })?; }
        ensure!(e2.status == Some(0) || !e2.fired.keys().all(|k| k == "fs-short" || k == "fs-eintr"), "converting a texture fails although nothing is wrong", "{tr}: {}", tail(&e2));
    }
    Ok(Info { nontrivial: !t.mips.is_empty(), key: mix(hash_bytes(35, &b), hash_str(&tr)), sample: Some(format!("{} levels {tr} -> {:?}", t.mips.len(), e.status)) })
}
/// Damaged files of every kind, under their own or another name.
fn p32_damaged() -> Verdict {
    let (mut b, ext) = match gen(5) {
        0 => (pbofmt::encode(&archive(6)), "pbo"),
        1 => (crate::media::enc(&crate::media::tex()), "paa"),
        2 => (signed(&pbofmt::encode(&sorted_archive()), 0, "tst", genp(1, 2)).0, "bisign"),
        3 => (signed(&pbofmt::encode(&sorted_archive()), 0, "tst", true).1, "bikey"),
        _ => (pick(&["class a { b = 1; };\n", "#include \"x.hpp\"\nclass a {};\n", "class CfgPatches { class tst { requiredVersion = 1; units[] = {}; }; };\n", "a[] = {1,2,{\"x\"}};\n#define X(a) a\nb = X(1);\n"]).as_bytes().to_vec(), pick(&["cpp", "hpp"])),
    };
    for _ in 0..fault(4) { simcore::streams::damage(&mut b); }
    let n = format!("f.{}", if genp(1, 4) { pick(&["dat", "pbo", "paa", "bikey", "bisign", "cpp", "", "txt"]) } else { ext });
    let mut f = Files::new();
    f.insert(n.clone(), b.clone());
    let d = Dir::new();
    lay(&d, &f);
    let args = match gen(3) {
        0 if ext == "pbo" => words(&["utils", "pbo", "inspect", &n]),
        0 if ext == "paa" => words(&["utils", "paa", "convert", &n, "out.png"]),
        0 if ext == "cpp" => words(&["utils", "config", "inspect", &n]),
        _ => words(&["utils", "inspect", &n]),
    };
    let v: Vec<&str> = args.iter().map(String::as_str).collect();
    let e = calm(&d, &quiet(&v), "inspecting a damaged file")?;
    ensure!(files_of(&seen(&d)).get(&n) == Some(&b), "inspecting a damaged file changes it", "");
    Ok(Info { nontrivial: true, key: mix(hash_bytes(36, &b), hash_str(&args.join(" "))), sample: Some(format!("{} -> {:?}", args.join(" "), e.status)) })
}

pub fn props() -> Vec<Property> {
    const REAL: &[&str] = &["the hemtt command line: commands, context, logging", "all HEMTT libraries", "rayon, vfs, image above the libc calls"];
    const STUB: &[&str] = &["the Arma 3 wiki database (a fixed selection of commands; no network)", "the file system below the libc calls (real files in a scratch folder; errors, order, short transfers and crashes injected)", "thread scheduling, clocks, randomness"];
    let sc = |n, q, t, f| Scenario { patience: 200, ..Scenario::new(n, q, t, f) };
    vec![
        Property { id: "P30", rule: "distinct triples of files, command and trouble in which the command had something to change", real: REAL, stub: STUB, level: "fault_enumeration",
            assumptions: &["what was written before the process was killed is there afterwards, a torn write up to any byte", "a temporary file of a killed command may stay behind", "where comments and entities make the bytes of a second sort differ only the content is compared"],
            scenarios: vec![sc("sort", 1500, 20_000, p30_sort), sc("case", 1500, 20_000, p30_case)] },
        Property { id: "P31", rule: "distinct pairs of archive and trouble in which there was a file to unpack", real: REAL, stub: STUB, level: "fault_enumeration",
            assumptions: &["a file that can not be examined (a failing stat) counts as absent", "names that end inside the destination once their dots and empty parts are resolved may be unpacked or refused"],
            scenarios: vec![sc("unpack", 1500, 20_000, p31_unpack), sc("cut", 1000, 10_000, p31_cut), sc("hostile", 1000, 10_000, p31_hostile), sc("extract", 1200, 16_000, p31_extract)] },
        Property { id: "P32", rule: "distinct triples of file, command and trouble", real: REAL, stub: STUB, level: "fault_enumeration",
            assumptions: &["the kind of a file without its usual extension is a guess, which is only checked when it can be read"],
            scenarios: vec![sc("verify", 1500, 20_000, p32_verify), sc("inspect", 1200, 16_000, p32_inspect), sc("convert", 800, 10_000, p32_convert), sc("damaged", 2000, 30_000, p32_damaged)] },
    ]
}
