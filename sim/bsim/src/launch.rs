//! P34: `hemtt launch` with a simulated Steam: what is started is compared with what was configured.
use crate::exec::{run, Ended};
use crate::full::{faithful, key, lay, plan, results, sound, Tree};
use crate::proj::{project, Project};
use crate::util::*;
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::scratch::Dir;
use simcore::sim;
use simcore::tape::{hash_str, mix};
use simcore::{ensure, env, fault, gen, genp};
use std::collections::{BTreeMap, BTreeSet};

const DLC: [(&str, &str, &str); 8] = [("Contact", "contact", "1021790"), ("Global Mobilization", "gm", "1042220"), ("S.O.G. Prairie Fire", "vn", "1227700"), ("CSLA Iron Curtain", "csla", "1294440"),
    ("Western Sahara", "ws", "1681170"), ("Spearhead 1944", "spe", "1175380"), ("Reaction Forces", "rf", "2647760"), ("Expeditionary Forces", "ef", "2647830")];
const IDS: [&str; 6] = ["450814997", "463939057", "1", "22", "3499977893", "843425103"];
const PARAMS: [&str; 7] = ["-skipIntro", "-world=empty", "-window", "-noPause", "-name=some one", "-maxMem=2048", "-debug"];

#[derive(Clone, Debug, Default)]
struct Conf { name: String, extends: Option<usize>, workshop: Vec<&'static str>, dlc: Vec<(usize, bool)>, presets: Vec<String>, optionals: Vec<String>, mission: Option<String>, params: Vec<&'static str>, fp: Option<bool>, inst: Option<u8>, rapify: Option<bool>, exe: Option<&'static str> }
/// What is to be started.
#[derive(Clone, Debug, Default)]
struct Want { mods: BTreeSet<String>, dlc: BTreeSet<usize>, presets: Vec<String>, optionals: BTreeSet<String>, mission: Option<String>, params: BTreeSet<String>, fp: Option<bool>, inst: Option<u8>, rapify: Option<bool> }
impl Want {
    fn add(&mut self, all: &[Conf], c: &Conf) {
        if let Some(e) = c.extends { self.add(all, &all[e]); }
        self.mods.extend(c.workshop.iter().map(|s| (*s).to_string()));
        self.dlc.extend(c.dlc.iter().map(|d| d.0));
        self.presets.extend(c.presets.clone());
        self.optionals.extend(c.optionals.iter().cloned());
        self.params.extend(c.params.iter().map(|s| (*s).to_string()));
        if c.mission.is_some() { self.mission.clone_from(&c.mission); }
        if c.fp.is_some() { self.fp = c.fp; }
        if c.inst.is_some() { self.inst = c.inst; }
        if c.rapify.is_some() { self.rapify = c.rapify; }
    }
}
fn q(v: &[String]) -> String { v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", ") }
fn some<T: Clone>(from: &[T], up_to: u64) -> Vec<T> { (0..gen(up_to + 1)).map(|_| from[gen(from.len() as u64) as usize].clone()).collect() }

struct Case { p: Project, args: Vec<String>, want: Want, fails: Option<&'static str>, flatpak: bool, have: Vec<String>, lib2: bool, native_gone: bool, meta: Option<String>, quick: bool, rap: bool, expect: Vec<Vec<String>>, all: Vec<String>, cli_opt: BTreeSet<String>, all_opt: bool }

fn case() -> Case {
    let mut p = project(genp(1, 8));
    let mut fails: Option<&'static str> = None;
    let opt: Vec<String> = p.addons.iter().filter(|a| a.optional).map(|a| a.name.clone()).collect();
    // presets
    let mut presets: BTreeMap<String, (Vec<&str>, Vec<usize>)> = BTreeMap::new();
    for n in ["main", "other mods"] { if genp(1, 2) {
        let (m, d) = (some(&IDS, 3), some(&[0, 1, 2, 3, 4, 5, 6, 7], 2));
        let mut h = String::from("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<html>\n<head><meta name=\"arma:PresetName\" content=\"x\" /></head>\n<body>\n<table>\n");
        for i in &m { h.push_str(&format!("<tr data-type=\"ModContainer\"><td data-type=\"DisplayName\">Mod {i}</td><td><a href=\"{}://steamcommunity.com/sharedfiles/filedetails/?id={i}\" data-type=\"Link\">https://steamcommunity.com/sharedfiles/filedetails/?id={i}</a></td></tr>\n", pick(&["http", "https"]))); }
        for i in &d { h.push_str(&format!("<tr data-type=\"DlcContainer\"><td><a href=\"https://store.steampowered.com/app/{0}\" data-type=\"Link\">https://store.steampowered.com/app/{0}</a></td></tr>\n", DLC[*i].2)); }
        if genp(1, 4) { h.push_str("<a href=\"https://store.steampowered.com/app/99999\">\n"); }
        if genp(1, 4) { h.push_str("<p>https://steamcommunity.com/sharedfiles/filedetails/?id=77</p>\n"); }
        h.push_str("</table>\n</body>\n</html>\n");
        p.put(format!(".hemtt/presets/{n}.html"), h);
        presets.insert(n.into(), (m, d));
    } }
    // missions: as written, and where it is
    let mut missions: Vec<(String, Option<String>)> = vec![("nowhere.VR".into(), None), ("/abs/x.VR".into(), None)];
    if genp(1, 2) { p.put(".hemtt/missions/test.VR/mission.sqm", "m1"); missions.push(("test.VR".into(), Some("/sim/project/.hemtt/missions/test.VR/mission.sqm".into()))); }
    if genp(1, 2) { p.put("missions/co1.Altis/mission.sqm", "m2"); missions.push(("missions/co1.Altis".into(), Some("/sim/project/missions/co1.Altis/mission.sqm".into()))); missions.push(("missions/co1.Altis/mission.sqm".into(), Some("/sim/project/missions/co1.Altis/mission.sqm".into()))); }
    // the project's own folder comes first
    if genp(1, 4) && p.files.contains_key(".hemtt/missions/test.VR/mission.sqm") { p.put("test.VR/mission.sqm", "m3"); missions.retain(|m| m.0 != "test.VR"); missions.push(("test.VR".into(), Some("/sim/project/test.VR/mission.sqm".into()))); }
    // configurations
    let n = gen(4) as usize;
    let mut confs: Vec<Conf> = vec![];
    for i in 0..n {
        let mut c = Conf { name: ["default", "vn", "ace", "two words"][i].into(), ..Conf::default() };
        if i > 0 && genp(1, 2) { c.extends = Some(gen(i as u64) as usize); }
        c.workshop = some(&IDS, 2);
        c.dlc = (0..gen(3)).map(|_| (gen(8) as usize, genp(1, 2))).collect();
        if !presets.is_empty() && genp(1, 3) { c.presets = some(&presets.keys().cloned().collect::<Vec<_>>(), 2); }
        if genp(1, 24) { c.presets.push("lost".into()); }
        if !opt.is_empty() && genp(1, 2) { c.optionals = some(&opt, 2); }
        if genp(1, 3) { c.mission = Some(if missions.len() > 2 && genp(9, 10) { missions[2 + gen(missions.len() as u64 - 2) as usize].0.clone() } else { missions[gen(2) as usize].0.clone() }); }
        c.params = some(&PARAMS, 3);
        if genp(1, 4) { c.fp = Some(genp(1, 2)); }
        if genp(1, 5) { c.inst = Some(gen(4) as u8); }
        if genp(1, 5) { c.rapify = Some(genp(1, 2)); }
        if genp(1, 5) { c.exe = Some(pick(&["arma3", "arma3_x64.exe", "arma3profiling_x64"])); }
        confs.push(c);
    }
    let own = genp(1, 2);
    let mut t = String::new();
    for c in &confs {
        let nm = if c.name.contains(' ') { format!("\"{}\"", c.name) } else { c.name.clone() };
        t.push_str(&format!("[{}{nm}]\n", if own { "" } else { "hemtt.launch." }));
        if let Some(e) = c.extends { t.push_str(&format!("extends = \"{}\"\n", confs[e].name)); }
        let s = |v: &[&str]| q(&v.iter().map(|s| (*s).to_string()).collect::<Vec<_>>());
        if !c.workshop.is_empty() { t.push_str(&format!("workshop = [{}]\n", s(&c.workshop))); }
        if !c.dlc.is_empty() { t.push_str(&format!("dlc = [{}]\n", s(&c.dlc.iter().map(|(i, full)| if *full { DLC[*i].0 } else { DLC[*i].1 }).collect::<Vec<_>>()))); }
        if !c.presets.is_empty() { t.push_str(&format!("presets = [{}]\n", q(&c.presets))); }
        if !c.optionals.is_empty() { t.push_str(&format!("optionals = [{}]\n", q(&c.optionals))); }
        if let Some(m) = &c.mission { t.push_str(&format!("mission = \"{m}\"\n")); }
        if !c.params.is_empty() { t.push_str(&format!("parameters = [{}]\n", s(&c.params))); }
        if let Some(b) = c.fp { t.push_str(&format!("file_patching = {b}\n")); }
        if let Some(b) = c.inst { t.push_str(&format!("instances = {b}\n")); }
        if let Some(b) = c.rapify { t.push_str(&format!("rapify = {b}\n")); }
        if let Some(b) = c.exe { t.push_str(&format!("executable = \"{b}\"\n")); }
    }
    if own { if !confs.is_empty() || genp(1, 2) { p.put(".hemtt/launch.toml", &t); } }
    else { let mut s = p.files[".hemtt/project.toml"].clone(); s.extend_from_slice(t.as_bytes()); p.put(".hemtt/project.toml", s); }
    if genp(1, 24) { let s = String::from_utf8(p.files[".hemtt/project.toml"].clone()).unwrap().replace("mainprefix = \"z\"\n", ""); p.put(".hemtt/project.toml", s); fails = Some("a project without a main prefix"); }
    // the command
    let mut args: Vec<String> = vec!["launch".into()];
    let mut want = Want::default();
    let mut named: Vec<String> = vec![];
    if !confs.is_empty() && genp(2, 3) { for _ in 0..1 + gen(2) { named.push(confs[gen(confs.len() as u64) as usize].name.clone()); } }
    if genp(1, 24) { named.push("unheard_of".into()); fails = Some("a configuration that is not there"); }
    for n in &named { if let Some(c) = confs.iter().find(|c| c.name == *n) { want.add(&confs, c); } }
    if named.is_empty() { if let Some(c) = confs.iter().find(|c| c.name == "default") { want.add(&confs, c); } }
    args.extend(named);
    let quick = genp(1, 5);
    if quick { args.push("-Q".into()); }
    if genp(1, 5) { args.push("-F".into()); want.fp = Some(false); }
    if genp(1, 5) { let i = gen(4) as u8; args.push("-i".into()); args.push(i.to_string()); want.inst = Some(i); }
    if genp(1, 8) { args.push("-e".into()); args.push("arma3profiling_x64".into()); }
    let (mut cli_opt, mut all_opt) = (BTreeSet::new(), false);
    if genp(1, 6) { args.push("-O".into()); all_opt = true; }
    else if !opt.is_empty() && genp(1, 5) { let o = opt[gen(opt.len() as u64) as usize].clone(); args.push("-o".into()); args.push(o.clone()); cli_opt.insert(o); }
    let no_rap = genp(1, 8);
    if no_rap { args.push("--no-rap".into()); }
    if genp(1, 3) { args.push("--".into()); for a in some(&["-world=VR", "-port=2402", "plain"], 2) { args.push(a.into()); want.params.insert(a.into()); } }
    let rap = !no_rap && want.rapify.unwrap_or(true);
    // the mods
    let mut mods = want.mods.clone();
    for n in &want.presets { match presets.get(n) { Some((m, d)) => { mods.extend(m.iter().map(|s| (*s).to_string())); want.dlc.extend(d.iter().copied()); } None => fails = Some("a preset that is not there") } }
    let mut have: Vec<String> = IDS.iter().map(|s| (*s).to_string()).collect();
    let mut all: Vec<String> = mods.iter().cloned().collect();
    let mut meta = None;
    if genp(1, 6) { let id = pick(&IDS).to_string(); p.put("meta.cpp", format!("protocol = 1;\npublishedid = {id};\nname = \"x\";\n")); if !p.include.contains(&"meta.cpp".to_string()) { p.include.push("meta.cpp".into()); } mods.remove(&id); meta = Some(id); }
    if genp(1, 10) { if let Some(m) = mods.iter().next().cloned() { have.retain(|h| *h != m); fails = Some("a mod that is not installed"); } }
    all.sort();
    let (lib2, flatpak) = (genp(1, 4), genp(1, 4));
    if let Some(m) = &want.mission { if missions.iter().find(|x| x.0 == *m).is_none_or(|x| x.1.is_none()) { fails = Some("a mission that is not there"); } }
    let native_gone = genp(1, 24);
    if native_gone { fails = Some("a Steam that can not be started"); }
    let arma_gone = genp(1, 24);
    if arma_gone { have.clear(); have.push("no game".into()); fails = Some("a game that is not installed"); }
    want.mods = mods;
    let game = if lib2 { "/sim/home/second lib" } else { "/sim/home/.steam/steam" };
    let mut one: Vec<String> = want.dlc.iter().map(|d| format!("-mod=\"{}\"", DLC[*d].1)).collect();
    one.extend(want.mods.iter().map(|m| format!("-mod=\"Z:{game}/steamapps/workshop/content/107410/{m}\"")));
    one.push("-mod=\"Z:/sim/project/.hemttout/dev\"".into());
    one.extend(["-skipIntro", "-noSplash", "-showScriptErrors", "-debug"].map(String::from));
    one.extend(want.params.iter().cloned());
    if let Some(Some(m)) = want.mission.as_ref().map(|m| missions.iter().find(|x| x.0 == *m).and_then(|x| x.1.clone())) { one.push(format!("\"{m}\"")); }
    if want.fp.unwrap_or(true) { one.push("-filePatching".into()); }
    one.sort();
    one.dedup();
    let expect = vec![one; want.inst.unwrap_or(1) as usize];
    Case { p, args, want, fails, flatpak, have, lib2, native_gone, meta, quick, rap, expect, all, cli_opt, all_opt }
}
fn steam(d: &Dir, c: &Case) {
    let _g = sim::hold();
    let _ = std::fs::remove_dir_all(format!("{}/bin", d.path));
    let _ = std::fs::remove_dir_all(format!("{}/launched", d.path));
    d.mkdir("launched");
    let s = "home/.steam/steam/steamapps";
    let l2 = "home/second lib/steamapps";
    let mut v = String::from("\"libraryfolders\"\n{\n\t\"0\"\n\t{\n\t\t\"path\"\t\t\"/sim/home/.steam/steam\"\n\t\t\"apps\"\n\t\t{\n\t\t}\n\t}\n");
    if c.lib2 { v.push_str("\t\"1\"\n\t{\n\t\t\"path\"\t\t\"/sim/home/second lib\"\n\t\t\"apps\"\n\t\t{\n\t\t\t\"107410\"\t\t\"1\"\n\t\t}\n\t}\n"); d.mkdir(l2); }
    v.push_str("}\n");
    d.put(&format!("{s}/libraryfolders.vdf"), v);
    let at = if c.lib2 { l2 } else { s };
    if c.have != ["no game"] {
        d.put(&format!("{at}/appmanifest_107410.acf"), "\"AppState\"\n{\n\t\"appid\"\t\t\"107410\"\n\t\"Universe\"\t\t\"1\"\n\t\"name\"\t\t\"Arma 3\"\n\t\"StateFlags\"\t\t\"4\"\n\t\"installdir\"\t\t\"Arma 3\"\n}\n");
        d.put(&format!("{at}/common/Arma 3/arma3_x64.exe"), "");
        d.mkdir(&format!("{at}/workshop/content/107410"));
        for m in &c.have { d.put(&format!("{at}/workshop/content/107410/{m}/mod.cpp"), ""); }
    }
    let rec = "f=\"$SIM_REAL/launched/$$\"\nfor a; do printf '%s\\0' \"$a\"; done > \"$f\"\n";
    if c.flatpak { d.put("bin/flatpak", format!("#!/bin/sh\nif [ \"$1\" = list ]; then echo 'Steam\tcom.valvesoftware.Steam\t1'; exit 0; fi\n{rec}")); if c.native_gone { d.put("bin/flatpak", "#!/bin/sh\nif [ \"$1\" = list ]; then echo 'Steam\tcom.valvesoftware.Steam\t1'; rm -f \"$0\"; exit 0; fi\n"); } }
    else { d.put("bin/flatpak", "#!/bin/sh\necho 'Other\torg.other\t1'\n"); if !c.native_gone { d.put("bin/steam", format!("#!/bin/sh\n{rec}")); } }
    use std::os::unix::fs::PermissionsExt;
    for f in ["bin/flatpak", "bin/steam"] { let f = format!("{}/{f}", d.path); if std::path::Path::new(&f).exists() { std::fs::set_permissions(&f, std::fs::Permissions::from_mode(0o755)).expect("mode"); } }
}
/// The games that were started, and what else was.
fn started(d: &Dir, c: &Case) -> Result<Vec<Vec<String>>, Violation> {
    let _g = sim::hold();
    let mut v = vec![];
    for e in std::fs::read_dir(format!("{}/launched", d.path)).expect("launched").flatten() {
        let b = std::fs::read(e.path()).unwrap_or_default();
        let mut a: Vec<String> = String::from_utf8_lossy(&b).split('\0').map(Into::into).collect();
        a.pop();
        if c.flatpak && a.first().map(String::as_str) == Some("override") {
            ensure!(a[1..] == ["--user", "com.valvesoftware.Steam", "--filesystem=/sim/project/.hemttout/dev"].map(String::from), "Steam is given access to something else", "{a:?}");
            continue;
        }
        let head: &[&str] = if c.flatpak { &["run", "com.valvesoftware.Steam", "-applaunch", "107410", "-nolauncher"] } else { &["-applaunch", "107410", "-nolauncher"] };
        ensure!(a.len() >= head.len() && a[..head.len()].iter().zip(head).all(|(x, y)| x == y), "something else than the game is started", "{a:?}");
        let mut a = a[head.len()..].to_vec();
        let mods = a.iter().filter(|x| x.starts_with("-mod=")).count();
        a.sort();
        a.dedup();
        ensure!(a.iter().filter(|x| x.starts_with("-mod=")).count() == mods, "a mod is loaded twice", "{a:?}");
        v.push(a);
    }
    v.sort();
    Ok(v)
}
/// The game's folder has to lead to the build.
fn linked(d: &Dir, c: &Case) -> Result<(), Violation> {
    let _g = sim::hold();
    let l = format!("{}/home/{}/steamapps/common/Arma 3/z/{}", d.path, if c.lib2 { "second lib" } else { ".steam/steam" }, c.p.prefix);
    let to = std::fs::read_link(&l).map(|p| p.to_string_lossy().into_owned());
    ensure!(to.as_ref().is_ok_and(|t| *t == format!("{}/project/.hemttout/dev", d.path)), "the build is not linked into the game's folder", "{to:?}");
    Ok(())
}
fn built(c: &Case, o: &Tree) -> Result<(), Violation> {
    let (ex, w) = (&c.p.dev_exclude, &c.want.optionals);
    faithful(&c.p, "dev", o, c.rap, &|a| w.contains(&a.name) || ((!a.optional || c.all_opt || c.cli_opt.contains(&a.name)) && !ex.contains(&format!("{}/{}", if a.optional { "optionals" } else { "addons" }, a.name))))
}
fn first(got: &[Vec<String>], want: &[Vec<String>]) -> String {
    if got.len() != want.len() { return format!("{} started instead of {}: {got:?}", got.len(), want.len()); }
    let (g, w): (BTreeSet<_>, BTreeSet<_>) = (got.iter().flatten().collect(), want.iter().flatten().collect());
    format!("missing {:?}, too much {:?}", w.difference(&g).collect::<Vec<_>>(), g.difference(&w).collect::<Vec<_>>())
}
fn tail(e: &Ended) -> String { let v: Vec<&str> = e.err.lines().chain(e.out.lines()).collect(); v[v.len().saturating_sub(25)..].join("\n") }

fn p34() -> Verdict {
    let mut c = case();
    // excluded optionals asked for by name on the command line are refused, which is not judged here
    if c.cli_opt.iter().any(|o| c.p.dev_exclude.contains(&format!("optionals/{o}"))) { c.p.dev_exclude.clear(); let s = String::from_utf8(c.p.files[".hemtt/project.toml"].clone()).unwrap(); c.p.put(".hemtt/project.toml", s.lines().filter(|l| !l.starts_with("exclude = [\"addons/") && !l.starts_with("exclude = [\"optionals/") && *l != "[hemtt.dev]").collect::<Vec<_>>().join("\n") + "\n"); }
    let d = Dir::new();
    lay(&d, &c.p);
    steam(&d, &c);
    let args: Vec<&str> = c.args.iter().map(String::as_str).collect();
    // --in-test goes before what is handed through
    let mk = |args: &[&str]| { let mut pl = plan(args); if let (Some(i), Some(t)) = (pl.args.iter().position(|a| a == "--"), pl.args.iter().position(|a| a == "--in-test")) { let x = pl.args.remove(t); pl.args.insert(i, x); } pl.tools = true; pl };
    let mut pl = mk(&args);
    pl.env = env(1 << 30);
    pl.sched = Some(fault(1 << 30));
    pl.shuffle = env(2) == 1;
    pl.io_gap = 40;
    let k = mix(mix(key(&c.p), hash_str(&c.args.join(" "))), mix(u64::from(c.flatpak), u64::from(c.lib2)));
    let show = |c: &Case| format!("{:?} {:?}\n{}", c.args, c.want, c.p.files.iter().filter(|f| f.0.ends_with(".toml") || f.0.ends_with(".html")).map(|(n, b)| format!("=== {n}\n{}", String::from_utf8_lossy(b))).collect::<String>());
    let mut before = false;
    if c.quick {
        // there has to be an earlier build
        let prefixed = String::from_utf8_lossy(&c.p.files[".hemtt/project.toml"]).contains("mainprefix = ");
        before = c.p.broken.is_none() && c.have != ["no game"] && prefixed && genp(4, 5);
        if before {
            let mut f = vec!["launch"];
            if !c.want.optionals.is_empty() || c.all_opt { f.push("-O"); }
            // a build made earlier, by a launch without anything in particular
            let gone = c.native_gone;
            c.native_gone = false;
            let (a, b) = (std::mem::take(&mut c.flatpak), std::mem::replace(&mut c.have, IDS.iter().map(|s| (*s).to_string()).collect()));
            let toml = [".hemtt/project.toml", ".hemtt/launch.toml"].map(|n| (n, c.p.files.get(n).cloned()));
            let mut q = c.p.clone();
            q.files.remove(".hemtt/launch.toml");
            let s = String::from_utf8(q.files[".hemtt/project.toml"].clone()).unwrap();
            q.put(".hemtt/project.toml", s.split("[hemtt.launch.").next().unwrap());
            lay(&d, &q);
            steam(&d, &c);
            let mut p0 = mk(&f);
            p0.env = 1;
            let e = run(&d.path, &p0);
            sound(&e, "a launch")?;
            ensure!(e.status == Some(0), "a launch fails although nothing is missing", "{:?} {}\n{}", e.status, tail(&e), show(&c));
            linked(&d, &c)?;
            c.native_gone = gone;
            (c.flatpak, c.have) = (a, b);
            for (n, b) in toml { if let Some(b) = b { let _g = sim::hold(); d.put(&format!("project/{n}"), b); } }
            let _g = sim::hold();
            let at = format!("{}/home/{}/steamapps/workshop", d.path, if c.lib2 { "second lib" } else { ".steam/steam" });
            let _ = std::fs::remove_dir_all(at);
            drop(_g);
            steam(&d, &c);
        } else { c.fails = c.fails.or(Some("a quick launch without a build")); }
    }
    let steady = fault(3) != 0;
    if steady {
        let e = run(&d.path, &pl);
        sound(&e, "a launch")?;
        if let Some(x) = &e.panic { return bad(format!("a launch panics: {}", simcore::driver::norm(x)), format!("{x}\n{}", show(&c))); }
        let got = started(&d, &c)?;
        if let Some(f) = c.fails {
            // one that can not be started is only noticed if it is to be started
            let harmless = f == "a Steam that can not be started" && c.expect.is_empty();
            ensure!(e.status != Some(0) || harmless, format!("a launch reports success with {f}"), "{}", show(&c));
            ensure!(got.is_empty(), format!("the game is started with {f}"), "{got:?}\n{}", show(&c));
        } else if c.p.broken.is_some() && !c.quick && e.status != Some(0) {
            // unless what is wrong is in an addon that is left out
            ensure!(got.is_empty(), "the game is started with a project that does not build", "{got:?}\n{}", show(&c));
        } else {
            ensure!(e.status == Some(0), "a launch fails although nothing is missing", "{:?} {}\n{}", e.status, tail(&e), show(&c));
            ensure!(got == c.expect, "the game is started with something else", "{}\n{}", first(&got, &c.expect), show(&c));
            if !c.quick && c.p.broken.is_none() { let o = results(&d, &c.p)?; built(&c, &o)?; }
            linked(&d, &c)?;
        }
        return Ok(Info { nontrivial: c.fails.is_some() || !c.expect.is_empty(), key: k, sample: Some(format!("{} -> {:?}, {} started, {:?}", c.args.join(" "), e.status, got.len(), c.fails)) });
    }
    // one call fails: a dry run counts the calls
    let e0 = run(&d.path, &pl);
    sound(&e0, "a launch")?;
    if !before { lay(&d, &c.p); }
    steam(&d, &c);
    if c.p.broken.is_some() && c.fails.is_none() && e0.status != Some(0) { c.fails = Some("a project that does not build"); }
    let mut what = String::from("short");
    if fault(6) == 0 { pl.short = 2 + fault(4); pl.eintr = 4; pl.fault_seed = Some(fault(1 << 30)); }
    else {
        let classes: Vec<(u32, u64)> = e0.counts.iter().map(|(k, n)| (*k, *n)).filter(|(k, n)| *n > 0 && *k != simcore::fsx::CLOSE).collect();
        if classes.is_empty() { return Ok(Info { nontrivial: false, key: k, sample: None }); }
        let (m, n) = classes[fault(classes.len() as u64) as usize];
        let nth = if fault(2) == 0 { fault(n) } else { n - 1 - fault(n.min(30)) };
        pl.faults.push((m, nth, fault(4) == 1, [libc::EIO, libc::EACCES, libc::ENOSPC, libc::EMFILE][fault(4) as usize], None));
        what = format!("{} #{nth} of {n}", simcore::fsx::class_name(m));
    }
    let e = run(&d.path, &pl);
    sound(&e, "a launch with I/O errors")?;
    let got = started(&d, &c)?;
    let benign = pl.faults.is_empty();
    let blind = pl.faults.iter().any(|f| f.0 & simcore::fsx::STAT != 0);
    if let (true, Some(x)) = (benign, &e.panic) { return bad("a launch panics on short reads", x.clone()); }
    if benign { ensure!(e.status == e0.status, "a launch ends differently on short reads", "{:?} {:?} {}", e0.status, e.status, tail(&e)); }
    if e.status == Some(0) {
        if !blind {
            ensure!(got == c.expect, "a launch that reports success did not start the game as configured after an I/O error", "{what}: {}\n{}", first(&got, &c.expect), show(&c));
            ensure!(c.fails.is_none() || c.expect.is_empty(), format!("a launch reports success with {}", c.fails.unwrap_or("")), "{what}\n{}", show(&c));
        }
    } else if !blind {
        // those that were started before it failed are as configured
        for g in &got { ensure!(c.expect.first() == Some(g), "a launch that fails started something else than configured", "{what}: {}\n{}", first(std::slice::from_ref(g), &c.expect[..1.min(c.expect.len())]), show(&c)); }
        if let Some(f) = c.fails { ensure!(got.is_empty(), format!("the game is started with {f}"), "{got:?}"); }
    }
    let hit = e.fired.keys().any(|k| k.starts_with("fs-"));
    let _ = (&c.all, &c.meta);
    Ok(Info { nontrivial: hit, key: mix(k, hash_str(&what)), sample: Some(format!("{} with {what} -> {:?}, {} started", c.args.join(" "), e.status, got.len())) })
}

pub fn props() -> Vec<Property> {
    vec![Property { id: "P34", rule: "distinct triples of project with its launch configurations, command and trouble", level: "fault_enumeration",
        real: &["the hemtt command line: launch, dev, executor, modules, link", "hemtt-common config::launch, arma::dlc, steam", "steamlocate, regex, std::process above the libc calls"],
        stub: &["Steam and flatpak (scripts that write down how they were called)", "the Arma 3 wiki database (a fixed selection of commands; no network)", "the file system below the libc calls (real files in a scratch folder; errors, order and short transfers injected)", "thread scheduling, clocks, randomness"],
        assumptions: &["the order of parameters does not matter", "a file that can not be examined counts as absent in the vfs library and is not judged", "on Linux the executable is chosen by Steam"],
        scenarios: vec![Scenario { patience: 200, ..Scenario::new("launch", 700, 8_000, p34) }] }]
}
