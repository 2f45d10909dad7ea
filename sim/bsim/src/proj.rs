//! Generated projects: a small mod with addons, headers, configs, scripts and loose files, together
//! with what a build of it has to contain.
use crate::raptree::{N, P, V};
use crate::util::*;
use simcore::{gen, genp};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum K {
    /// packed unchanged
    Plain,
    /// config.cpp: replaced by config.bin
    Config(Vec<P>),
    /// packed under its own name, rapified
    Rap(Vec<P>),
    /// packed unchanged, and compiled to .sqfc next to it
    Sqf,
    /// what binarizing it produces is packed
    Bin,
    /// not packed
    Left,
}
#[derive(Clone, Debug)]
pub struct Addon { pub name: String, pub optional: bool, pub prefix: String, pub files: BTreeMap<String, K>, pub props: Vec<(String, String)> }
#[derive(Clone, Debug, Default)]
pub struct Project {
    /// everything in the project folder
    pub files: BTreeMap<String, Vec<u8>>,
    pub addons: Vec<Addon>,
    pub prefix: String,
    pub folder: String,
    pub authority: Option<String>,
    pub version: String,
    pub props: Vec<(String, String)>,
    pub optional_mods: bool,
    pub sign: bool,
    pub archive: bool,
    /// copied next to the addons
    pub include: Vec<String>,
    /// put there by hooks
    pub extra: BTreeMap<String, Vec<u8>>,
    pub dev_exclude: Vec<String>,
    /// something is wrong with it: builds report and fail
    pub broken: Option<&'static str>,
    /// some file includes another that is itself rapified
    pub tangled: bool,
}
impl Project {
    pub fn put(&mut self, path: impl Into<String>, data: impl AsRef<[u8]>) { self.files.insert(path.into(), data.as_ref().to_vec()); }
}

fn val(name: &str, v: V) -> P { P::Val(name.into(), v) }
fn st(s: impl Into<String>) -> V { V::Str(s.into()) }
fn int(i: i64) -> V { V::Num(N::Int(i)) }
fn float(f: f64) -> V { V::Num(N::Float(f as f32)) }

/// A few properties and classes, as text and as their meaning.
fn body(depth: u64, tag: &str, text: &mut String, tree: &mut Vec<P>, pad: &str) {
    for i in 0..gen(4) {
        let n = format!("{tag}{i}");
        match gen(6) {
            0 => { let v = gen(200) as i64 - 50; text.push_str(&format!("{pad}{n} = {v};\n")); tree.push(val(&n, int(v))); }
            1 => { let v = (gen(400) as f64) / 8.0 + 0.125; text.push_str(&format!("{pad}{n} = {v:?};\n")); tree.push(val(&n, float(v))); }
            2 => { let v = pick(&["plain", "", "with \"\"quotes\"\"", "a\\b\\c.paa", "$STR_tst_key", "two words"]); text.push_str(&format!("{pad}{n} = \"{v}\";\n")); tree.push(val(&n, st(v.replace("\"\"", "\"")))); }
            3 => { let k = gen(5); let vs: Vec<i64> = (0..k).map(|j| j as i64 * 3 - 2).collect(); text.push_str(&format!("{pad}{n}[] = {{{}}};\n", vs.iter().map(i64::to_string).collect::<Vec<_>>().join(", "))); tree.push(P::Arr(n, false, vs.into_iter().map(int).collect())); }
            4 => { text.push_str(&format!("{pad}{n}[] = {{\"x\", {{1, 2}}, \"y\"}};\n")); tree.push(P::Arr(n, false, vec![st("x"), V::Arr(vec![int(1), int(2)]), st("y")])); }
            _ if depth > 0 => {
                let (mut t, mut c) = (String::new(), vec![]);
                body(depth - 1, &format!("{tag}{i}_"), &mut t, &mut c, &format!("{pad}    "));
                text.push_str(&format!("{pad}class {n} {{\n{t}{pad}}};\n"));
                tree.push(P::Class(n, None, c));
            }
            _ => {}
        }
    }
}

fn sqf(addon: &str, quirky: bool) -> String {
    let mut s = String::from("#include \"script_component.hpp\"\n");
    s.push_str(&pick(&["", "// a comment\n", "/*\n * Author: someone\n */\n", "params [\"_unit\", [\"_n\", 3]];\n"]));
    for i in 0..1 + gen(5) {
        s.push_str(&match gen(if quirky { 12 } else { 7 }) {
            0 => format!("private _v{i} = {} + {i};\n", gen(50)),
            1 => format!("if (alive player) then {{ hint \"{addon} {i}\"; }};\n"),
            2 => format!("{{ systemChat str _x; }} forEach [1, 2, {i}];\n"),
            3 => format!("missionNamespace setVariable [QGVAR(v{i}), true];\n"),
            4 => format!("private _t{i} = QUOTE(COMPONENT) + \"_{i}\";\n"),
            5 => format!("[{i}, \"a\"] call {{ params [\"_p\"]; _p }};\n"),
            6 => format!("GVAR(f{i}) = {{ _this select {i} }};\n"),
            7 => format!("private _ABC{i} = 1;\n"),
            8 => format!("if (_v select 0 == 1) then {{ private _a{i} = 1 }} else {{ private _a{i} = 2 }};\n"),
            9 => "HINT \"case\";\n".into(),
            10 => format!("private _r{i} = \"\" find \"a\" > -1;\n"),
            _ => format!("private _z{i} = if (true) then {{ {i} }} else {{ 0 }};\n"),
        });
    }
    if genp(1, 6) { s.push_str(&"private _longer = \"text that goes on and on\";\n".repeat(1 + gen(80) as usize)); }
    s
}
fn strtab(addon: &str, quirky: bool) -> String {
    let mut s = format!("<?xml version=\"1.0\" encoding=\"utf-8\"?>\n<Project name=\"tst\">\n    <Package name=\"{addon}\">\n");
    let n = 1 + gen(3);
    for i in 0..n {
        let j = if quirky { gen(4) } else { i };
        s.push_str(&format!("        <Key ID=\"STR_tst_{addon}_{j}\">\n            <English>text {i}</English>\n"));
        if genp(1, 2) { s.push_str(&format!("            <German>Text {i}</German>\n")); }
        s.push_str("        </Key>\n");
    }
    s + "    </Package>\n</Project>\n"
}

pub fn project(breakable: bool) -> Project {
    let mut p = Project { prefix: pick(&["tst", "abe", "mymod"]).into(), optional_mods: true, sign: true, archive: true, ..Project::default() };
    let mut toml = format!("name = \"Test Mod\"\nprefix = \"{}\"\n", p.prefix);
    toml.push_str("mainprefix = \"z\"\n");
    let quirky = genp(1, 2);
    let v = [1 + gen(3), gen(10), gen(4), gen(3) * 7];
    let vertable = genp(1, 4);
    p.version = format!("{}.{}.{}", v[0], v[1], v[2]);
    if v[3] > 0 || !vertable { p.version.push_str(&format!(".{}", v[3])); }
    let mut ver = String::from("[version]\ngit_hash = 0\n");
    if vertable { ver.push_str(&format!("major = {}\nminor = {}\npatch = {}\n", v[0], v[1], v[2])); if v[3] > 0 { ver.push_str(&format!("build = {}\n", v[3])); } }
    let mut tail = String::new();
    let mut excludes: Vec<String> = vec![];
    if genp(1, 3) { excludes.push("*.psd".into()); }
    let mut inc: Vec<String> = ["mod.cpp", "meta.cpp", "LICENSE", "logo_ca.paa", "logo_co.paa"].map(String::from).to_vec();
    let mut incl: Vec<String> = vec![];
    if genp(1, 3) { incl.push("docs/*.md".into()); }
    if !incl.is_empty() || !excludes.is_empty() {
        let q = |v: &[String]| v.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", ");
        tail.push_str(&format!("[files]\ninclude = [{}]\nexclude = [{}]\n", q(&incl), q(&excludes)));
    }
    if genp(1, 3) { for i in 0..1 + gen(4) { p.props.push((format!("{}{i}", pick(&["author", "url", "k"])), pick(&["x", "some one", "https://example.org"]).into())); } }
    if !p.props.is_empty() { tail.push_str("[properties]\n"); for (k, v) in &p.props { tail.push_str(&format!("{k} = \"{v}\"\n")); } }
    if genp(1, 5) { p.optional_mods = false; tail.push_str("[hemtt.build]\noptional_mod_folders = false\n"); }
    p.folder = p.prefix.clone();
    {
        let mut rel = String::new();
        if genp(1, 4) { p.folder = "relname".into(); rel.push_str("folder = \"relname\"\n"); }
        if genp(1, 8) { p.archive = false; rel.push_str("archive = false\n"); }
        if !rel.is_empty() { tail.push_str("[hemtt.release]\n"); tail.push_str(&rel); }
    }
    if genp(1, 5) { p.authority = Some("auth".into()); tail.push_str("[signing]\nauthority = \"auth\"\n"); }
    let mut names = ["main", "common", "data", "extra", "zeus"];
    if genp(1, 8) { names[1] = "data.v2"; names[2] = "data.v3"; }
    let n = 1 + gen(4) as usize;
    let mut shared = vec![];
    if genp(1, 4) {
        p.put("include/x/cba/addons/main/script_macros_common.hpp", "#define FROM_CBA 7\n#define UNUSED(a) a\n");
        shared.push("\\x\\cba\\addons\\main\\script_macros_common.hpp");
    }
    let mut dev_ex = vec![];
    for (i, name) in names.iter().enumerate().take(n) {
        let name = (*name).to_string();
        let comp = name.replace('.', "_");
        let optional = i > 0 && genp(1, 4);
        let dir = format!("{}/{name}", if optional { "optionals" } else { "addons" });
        let prefix = format!("z\\{}\\addons\\{name}", p.prefix);
        let mut a = Addon { name: name.clone(), optional, prefix: prefix.clone(), files: BTreeMap::new(), props: vec![] };
        let pf = pick(&["$PBOPREFIX$", "$PBOPREFIX$", "pboprefix.txt", "$pboprefix$"]);
        p.put(format!("{dir}/{pf}"), format!("{prefix}{}", pick(&["", "\n", "\r\n"])));
        a.files.insert(pf.into(), K::Left);
        macro_rules! add { ($rel:expr, $text:expr, $k:expr) => {{ let r: String = $rel.into(); p.put(format!("{dir}/{r}"), $text); a.files.insert(r, $k); }}; }
        if i == 0 {
            let t = format!("#define MAJOR {}\n#define MINOR {}\n#define PATCHLVL {}\n#define BUILD {}\n", v[0], v[1], v[2], v[3]);
            if !vertable { add!("script_version.hpp", &t, K::Plain); } else { add!("version_numbers.hpp", &t, K::Plain); }
            add!("script_mod.hpp", format!("#define MAINPREFIX z\n#define PREFIX {}\n#include \"{}\"\n#define VERSION_AR MAJOR,MINOR,PATCHLVL,BUILD\n", p.prefix, if vertable { "version_numbers.hpp" } else { "script_version.hpp" }), K::Plain);
            add!("script_macros.hpp", "#define DOUBLES(a,b) a##_##b\n#define QUOTE(x) #x\n#define ADDON DOUBLES(PREFIX,COMPONENT)\n#define GVAR(x) DOUBLES(ADDON,x)\n#define QGVAR(x) QUOTE(GVAR(x))\n", K::Plain);
        }
        add!("script_component.hpp", format!("#define COMPONENT {comp}\n#include \"\\z\\{0}\\addons\\main\\script_mod.hpp\"\n#include \"\\z\\{0}\\addons\\main\\script_macros.hpp\"\n", p.prefix), K::Plain);
        // config.cpp
        let ad = format!("{}_{comp}", p.prefix);
        let (mut text, mut tree) = (String::new(), vec![]);
        text.push_str("#include \"script_component.hpp\"\n");
        for s in &shared { if genp(1, 2) { text.push_str(&format!("#include \"{s}\"\n")); } }
        let rv = pick(&[2.16, 1.0, 2.0, 2.25]);
        text.push_str(&format!("class CfgPatches {{\n    class ADDON {{\n        name = QUOTE(COMPONENT);\n        units[] = {{}};\n        weapons[] = {{}};\n        requiredVersion = {rv:?};\n        requiredAddons[] = {{\"{}\"}};\n        versionAr[] = {{VERSION_AR}};\n    }};\n}};\n", if i == 0 { "A3_Data_F".to_string() } else { format!("{}_main", p.prefix) }));
        tree.push(P::Class("CfgPatches".into(), None, vec![P::Class(ad.clone(), None, vec![
            val("name", st(&comp)), P::Arr("units".into(), false, vec![]), P::Arr("weapons".into(), false, vec![]),
            val("requiredVersion", float(rv)), P::Arr("requiredAddons".into(), false, vec![st(if i == 0 { "A3_Data_F".to_string() } else { format!("{}_main", p.prefix) })]),
            P::Arr("versionAr".into(), false, v.iter().map(|x| int(*x as i64)).collect())])]));
        for k in 0..gen(3) {
            let (mut t, mut c) = (String::new(), vec![]);
            body(2, &format!("h{k}_"), &mut t, &mut c, "");
            let f = format!("Cfg{k}.hpp");
            text.push_str(&format!("#include \"{f}\"\n"));
            add!(f, &t, K::Plain);
            tree.extend(c);
        }
        let (mut t, mut c) = (String::new(), vec![]);
        body(2, "c", &mut t, &mut c, "");
        text.push_str(&t);
        tree.extend(c);
        if i == 0 || genp(5, 6) { add!("config.cpp", &text, K::Config(tree)); }
        // data
        let mut raps: Vec<(String, Vec<P>)> = vec![];
        for k in 0..gen(4) {
            let (mut t, mut c) = (String::new(), vec![]);
            if let Some((f, tr)) = raps.last().cloned() { if genp(1, 3) {
                // a material or description made of another one
                t.push_str(&format!("#include \"{}\"\n", f.rsplit_once('/').map_or(f.as_str(), |x| x.1)));
                c.extend(tr);
                p.tangled = true;
            } }
            body(1, &format!("r{k}_"), &mut t, &mut c, "");
            let sub = pick(&["data", "data", "ui"]);
            let sub = if t.starts_with("#include") { raps.last().unwrap().0.split_once('/').unwrap().0.to_string() } else { sub.to_string() };
            let f = format!("{sub}/m{k}.{}", pick(&["rvmat", "rvmat", "ext"]));
            raps.push((f.clone(), c.clone()));
            add!(f, &t, K::Rap(c));
        }
        for k in 0..gen(4) {
            let f = format!("{}/fnc_f{k}.sqf", if genp(2, 3) { "functions" } else { "fn" });
            let d = f.split_once('/').unwrap().0.to_string();
            if !a.files.contains_key(&format!("{d}/script_component.hpp")) { add!(format!("{d}/script_component.hpp"), "#include \"..\\script_component.hpp\"\n", K::Plain); }
            add!(f, sqf(&comp, quirky), K::Sqf);
        }
        if genp(1, 5) { add!("functions/part.inc.sqf", "hint \"included\";\n", K::Plain); }
        if genp(1, 3) { add!("stringtable.xml", strtab(&comp, quirky), K::Plain); }
        for k in 0..gen(4) {
            let f = pick(&["data/tex_co.paa", "readme.txt", "ui/icon.jpg", "sounds/a.ogg", "data/deep/er/file.bin", "UPPER.TXT", "art.psd", "data/tools.cpp.txt", "a b.dat"]);
            let k2 = if f.ends_with(".psd") && excludes.contains(&"*.psd".to_string()) { K::Left } else { K::Plain };
            let len = match gen(5) { 0 => 0, 1 => 1 + k as usize, 2 => 4096 + gen(3) as usize, _ => gen(3000) as usize };
            add!(f, bytes(len), k2);
        }
        if genp(1, 4) {
            let mut t = String::new();
            if genp(1, 2) { t.push_str("[files]\nexclude = [\"readme.txt\"]\n"); if a.files.contains_key("readme.txt") { a.files.insert("readme.txt".into(), K::Left); } }
            if genp(1, 2) { t.push_str("[properties]\nextra = \"yes\"\nmore = \"2\"\n"); a.props = vec![("extra".into(), "yes".into()), ("more".into(), "2".into())]; }
            if genp(1, 4) {
                t.push_str("[rapify]\nenabled = false\n");
                for k in a.files.values_mut() { if matches!(k, K::Config(_) | K::Rap(_)) { *k = K::Plain; } }
            }
            add!("addon.toml", &t, K::Left);
        }
        if genp(1, 8) && i > 0 { dev_ex.push(dir.clone()); }
        p.addons.push(a);
    }
    if !dev_ex.is_empty() { tail.push_str(&format!("[hemtt.dev]\nexclude = [{}]\n", dev_ex.iter().map(|s| format!("\"{s}\"")).collect::<Vec<_>>().join(", "))); p.dev_exclude = dev_ex; }
    for f in ["mod.cpp", "LICENSE", "logo_ca.paa", "notes.txt", "docs/a.md", "docs/sub/b.md"] { if genp(1, 2) { p.put(f, bytes(gen(500) as usize)); } }
    inc.retain(|f| p.files.contains_key(f));
    if !incl.is_empty() && p.files.contains_key("docs/a.md") { inc.push("docs/a.md".into()); }
    p.include = inc;
    p.put(".hemtt/project.toml", format!("{toml}{ver}{tail}"));
    if breakable && genp(1, 4) {
        let a = p.addons[gen(p.addons.len() as u64) as usize].clone();
        let dir = format!("{}/{}", if a.optional { "optionals" } else { "addons" }, a.name);
        let b = pick(&["missing include", "duplicate property", "bad script", "bom", "unclosed class", "bad stringtable"]);
        match b {
            "missing include" => { let f = format!("{dir}/functions/fnc_bad.sqf"); p.put(f, "#include \"nowhere.hpp\"\nhint \"a\";\n"); }
            "duplicate property" => { p.put(format!("{dir}/bad.ext"), "a = 1;\nb = 2;\na = 3;\n"); }
            "bad script" => { p.put(format!("{dir}/fnc_bad.sqf"), "private _a = (1 + ;\nhint \"x\";\n"); }
            "bom" => { p.put(format!("{dir}/bom.txt"), b"\xEF\xBB\xBFtext"); }
            "unclosed class" => { p.put(format!("{dir}/bad.rvmat"), "class A {\n    x = 1;\n"); }
            _ => { p.put(format!("{dir}/stringtable.xml"), "<Project name=\"x\"><Package>"); }
        }
        p.broken = Some(b);
    }
    p
}
