//! P12 (rapified configs), and what P10, P11 and P13 need of configs: a generator of configs as trees,
//! written out as text in many ways, and an independent decoder of the binary form.
use crate::pre::{open, preprocess};
use crate::raptree::{derap, differ, N, P, V};
use crate::util::*;
use hemtt_config::rapify::Rapify;
use hemtt_workspace::reporting::{Codes, Processed, Severity, WorkspaceFiles};
use hemtt_workspace::WorkspacePath;
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::sim;
use simcore::simvfs::SimFs;
use simcore::streams::{Plan, SimWriter};
use simcore::tape::{hash_str, mix};
use simcore::{ensure, env, gen, genp};

/// How a value is written.
enum W { Txt(String), Arr(Vec<W>) }
/// What is wrong in the text, and where it has to be reported: code, file, offset (of the label), further labels.
#[derive(Clone, Debug)]
pub struct Wrong { pub what: &'static str, pub code: Option<&'static str>, pub at: Option<(usize, usize)>, pub line: bool, pub also: Vec<(usize, usize)> }
pub struct Conf { pub props: Vec<P>, pub files: Vec<(String, String)>, pub wrong: Option<Wrong>, /** whether the mistake is one depends on what follows */ unclear: bool }

fn ident(i: u64) -> String { format!("{}{i}", pick(&["prop", "Value", "x_", "displayName", "a1b", "_n"])) }
fn int() -> (String, N) {
    match gen(8) {
        0 => ("1".into(), N::Int(1)),
        1 => { let x = gen(1 << 31) as i64; (x.to_string(), N::Int(x)) }
        2 => { let x = -(gen(1 << 31) as i64); (x.to_string(), N::Int(x)) }
        3 => { let x = gen(1 << 31) as i64; (format!("0x{x:x}"), N::Int(x)) }
        4 => { let x = 2147483647 - 1 + gen(3) as i64; (x.to_string(), N::Int(x)) }
        5 => { let x = -2147483648 - 1 + gen(3) as i64; (x.to_string(), N::Int(x)) }
        6 => { let x = (1i64 << (31 + gen(32))) - gen(2) as i64; (x.to_string(), N::Int(x)) }
        _ => { let x = gen(100) as i64; (format!("{x:03}"), N::Int(x)) }
    }
}
fn float() -> (String, N) {
    let t = match gen(7) {
        0 => "0.5".to_string(),
        1 => format!("{}.{}", gen(1000), gen(100_000)),
        2 => format!("-{}.{}", gen(1000), gen(100_000)),
        3 => format!(".{}", gen(1000)),
        4 => format!("{}e{}", gen(10), gen(30)),
        5 => format!("{}.{}E-{}", gen(10), gen(1000), gen(30)),
        _ => format!("{}.0", gen(20_000_000)),
    };
    let f = t.parse().unwrap();
    (t, N::Float(f))
}
/// An expression and its value, by the usual rules.
fn math(depth: u64, below: u8) -> (String, f64) {
    let sp = if genp(1, 2) { " " } else { "" };
    match if depth == 0 { 0 } else { gen(7) } {
        0 => { let x = if genp(1, 8) { pick(&[1_000_000, 123_456_789, 4_000_000_000]) } else { gen(50) }; (x.to_string(), x as f64) }
        1 => (format!("{}.5", below + 1), below as f64 + 1.5),
        2 => { let (t, x) = math(depth - 1, 0); (format!("({sp}{t}{sp})"), x) }
        k => {
            let (op, p) = [('+', 1), ('-', 1), ('*', 2), ('/', 2)][k as usize - 3];
            let (a, x) = math(depth - 1, p);
            let (b, y) = math(depth - 1, p + 1);
            let v = match op { '+' => x + y, '-' => x - y, '*' => x * y, _ => if y == 0.0 { return ("7".into(), 7.0) } else { x / y } };
            let t = format!("{a}{sp}{op}{sp}{b}");
            if p < below { (format!("({t})"), v) } else { (t, v) }
        }
    }
}
fn string() -> (String, String) {
    let n = 1 + if genp(1, 6) { gen(3) } else { 0 };
    let (mut t, mut v) = (String::new(), String::new());
    for i in 0..n {
        if i > 0 { t.push_str(pick(&[" \\n ", "\\n", " \\n\n\t"])); v.push('\n'); }
        let s = pick(&["", "text", "Hello World", "\\a3\\data_f\\x.paa", "a \"quoted\" b", "\"", "it's", "a;b,c}{=", "ünïcödé ² €", "x // y", "x /* y */ z", "#define A", "tab\there", "__EVAL(1)", "ends in \\", "$STR_A", "[1,2]", "0", "%1 %2", "🤔"]);
        t.push('"');
        t.push_str(&s.replace('"', "\"\""));
        t.push('"');
        v.push_str(s);
    }
    if n == 1 && genp(1, 40) { let k = gen(40_000) as usize; t = format!("\"{}\"", "q".repeat(k)); v = "q".repeat(k); }
    (t, v)
}
fn scalar(arr: bool) -> (W, V) {
    match gen(if arr { 6 } else { 7 }) {
        0 | 1 => { let (t, n) = int(); (W::Txt(t), V::Num(n)) }
        2 => { let (t, n) = float(); (W::Txt(t), V::Num(n)) }
        3 | 4 => { let (t, s) = string(); (W::Txt(t), V::Str(s)) }
        5 => { let (t, x) = math(3, 0); (W::Txt(t), V::Num(N::Math(x))) }
        _ => { let t = pick(&["1 + 1", "getResolution select 5", "(1 + 2) * (3)", "random (10)", "a max (b min (c))", "getText (configFile >> x)"]); (W::Txt(format!("__EVAL({t})")), V::Eval(t.to_string())) }
    }
}
fn array(depth: u64) -> (Vec<W>, Vec<V>) {
    let n = match gen(12) { 0..=7 => gen(4), 8 | 9 => gen(12), 10 => 120 + gen(20), _ => 0 };
    let mut w = vec![];
    let mut v = vec![];
    for _ in 0..n {
        if depth > 0 && n < 100 && genp(1, 4) { let (a, b) = array(depth - 1); w.push(W::Arr(a)); v.push(V::Arr(b)); }
        else { let (a, b) = scalar(true); w.push(a); v.push(b); }
    }
    (w, v)
}
/// The tree and the way its values are written.
enum Q { Val(W), Arr(Vec<W>), Class(Vec<(P, Q)>), Other }
struct Tree { seen: Vec<String>, next: u64, budget: u64 }
impl Tree {
    fn name(&mut self) -> String { self.next += 1; ident(self.next) }
    fn props(&mut self, depth: u64) -> Vec<(P, Q)> {
        let n = if self.budget == 0 { 0 } else { gen(if depth == 0 { 7 } else { 5 }) + u64::from(depth == 0) };
        let n = if depth == 1 && genp(1, 60) { 130 } else { n };
        let mut out: Vec<(P, Q)> = vec![];
        for _ in 0..n {
            self.budget = self.budget.saturating_sub(1);
            let name = self.name();
            out.push(match gen(10) {
                0..=3 => { let (w, v) = scalar(false); (P::Val(name, v), Q::Val(w)) }
                4 | 5 => { let (w, v) = array(2); (P::Arr(name, genp(1, 4), v), Q::Arr(w)) }
                6 => { self.seen.push(name.clone()); (P::Ext(name), Q::Other) }
                7 => (P::Del(name), Q::Other),
                _ => {
                    let parent = match gen(4) {
                        0 | 1 => None,
                        2 => if self.seen.is_empty() { None } else { Some(pick(&self.seen)) },
                        _ => if genp(1, 6) { Some(name.clone()) } else if self.seen.is_empty() { None } else { Some(self.seen.last().unwrap().clone()) },
                    };
                    self.seen.push(name.clone());
                    let ps = if depth < 5 { self.props(depth + 1) } else { vec![] };
                    let (p, q): (Vec<P>, Vec<Q>) = ps.into_iter().unzip();
                    (P::Class(name, parent, p.clone()), Q::Class(p.into_iter().zip(q).collect()))
                }
            });
        }
        out
    }
}

struct Em { files: Vec<(String, String)>, cur: usize, macros: u64, plain: bool, nl: bool, wrong: Option<Wrong>, left: i64, kinds: u64 }
impl Em {
    fn at(&self) -> (usize, usize) { (self.cur, self.files[self.cur].1.len()) }
    fn put(&mut self, s: &str) { self.files[self.cur].1.push_str(s); }
    /// a gap between tokens; newlines only outside of values that were started
    fn gap(&mut self) {
        let s = if self.plain { "" } else { pick(&["", "", "", " ", "  ", "\t", "\n", " /* c; } */ ", " // x = \"\n", "\n\n\t"]) };
        self.put(s);
    }
    fn sgap(&mut self) { let s = if self.plain { "" } else { pick(&["", "", " ", "\t", "  "]) }; self.put(s); }
    /// write a piece of text, possibly as the body of a macro
    fn piece(&mut self, t: &str) {
        if !self.plain && genp(1, 12) && !t.contains('\n') && !t.contains("/*") && !t.contains("//") && !t.contains("__EVAL") && !t.contains("\\\"") && t.len() < 200 {
            let m = format!("MAC{}", self.macros);
            self.macros += 1;
            let f = pick(&[false, true]);
            // definitions come first in the first file
            let d = if f { format!("#define {m}(a) {t}\n") } else { format!("#define {m} {t}\n") };
            self.files[1].1.push_str(&d);
            self.put(&if f { format!("{m}(1)") } else { m });
        } else { self.put(t); }
    }
    fn list(&mut self, w: &[W]) {
        self.put("{");
        for (i, x) in w.iter().enumerate() {
            self.gap();
            match x { W::Txt(t) => self.piece(t), W::Arr(v) => self.list(v) }
            self.gap();
            if i + 1 < w.len() || !self.plain && genp(1, 8) { self.put(","); }
        }
        if w.is_empty() { self.gap(); }
        self.put("}");
    }
    fn want(&mut self, at: Option<(usize, usize)>, what: &'static str, code: Option<&'static str>) { self.wrong = Some(Wrong { what, code, at, line: false, also: vec![] }); }
    fn props(&mut self, ps: &[(P, Q)], depth: usize) {
        // a class's parents that are not known
        for (i, (p, q)) in ps.iter().enumerate() {
            self.gap();
            if self.nl { self.put("\n"); for _ in 0..depth { self.put("\t"); } }
            self.left -= 1;
            let hit = self.left == 0;
            if hit && self.mistake(p, q, ps, i) { continue; }
            self.prop(p, q, depth);
            // a part of the file can live in another file
            if depth == 0 && self.cur == 0 && genp(1, 10) && i + 1 < ps.len() {
                let n = self.files.len();
                self.put(&format!("\n#include \"part{n}.hpp\"\n"));
                self.files.push((format!("part{n}.hpp"), String::new()));
                self.cur = n;
                let (p, q) = &ps[i + 1];
                let _ = (p, q);
                self.props(&ps[i + 1..], depth);
                self.put("\n");
                self.cur = 0;
                return;
            }
        }
    }
    fn prop(&mut self, p: &P, q: &Q, depth: usize) {
        match (p, q) {
            (P::Val(n, _), Q::Val(w)) => { self.put(n); self.gap(); self.put("="); self.gap(); if let W::Txt(t) = w { self.piece(t); } self.gap(); self.put(";"); }
            (P::Arr(n, e, _), Q::Arr(w)) => { self.put(n); self.gap(); self.put("[]"); self.gap(); self.put(if *e { "+=" } else { "=" }); self.gap(); self.list(w); self.gap(); self.put(";"); }
            (P::Ext(n), _) => { self.put("class "); self.sgap(); self.put(n); self.gap(); self.put(";"); }
            (P::Del(n), _) => { self.put("delete "); self.sgap(); self.put(n); self.sgap(); self.put(";"); }
            (P::Class(n, parent, _), Q::Class(ps)) => {
                self.put("class "); self.sgap(); self.put(n); self.gap();
                if let Some(x) = parent { self.put(":"); self.gap(); self.put(x); self.gap(); }
                self.put("{"); self.props(ps, depth + 1); self.gap(); self.put("}"); self.gap(); self.put(";");
            }
            _ => unreachable!(),
        }
    }
    /// Write this property with a mistake. Returns false if it is still to be written.
    fn mistake(&mut self, p: &P, q: &Q, ps: &[(P, Q)], i: usize) -> bool {
        let start = self.at();
        match (p, q) {
            (P::Val(n, _), Q::Val(W::Txt(t))) => {
                self.put(n); self.gap();
                match self.kinds % 10 {
                    0 | 1 => { self.put("="); self.gap(); let a = self.at(); self.want(Some(a), "a word as value", Some("L-C01")); self.put(pick(&["true", "'single'", "some word", "$STR_A", "abc"])); self.put(";"); }
                    2 => {
                        self.put("="); self.gap(); let a = self.at();
                        let (txt, v) = pick(&[("{1,2}", 5), ("{}", 2), ("{\"a\"}", 5)]);
                        self.want(Some(start), "an array as value", Some("L-C06"));
                        self.wrong.as_mut().unwrap().also = vec![a];
                        let _ = v; self.put(txt); self.put(";");
                    }
                    3 | 4 => {
                        self.put("="); self.gap(); self.put(t);
                        let a = self.at();
                        self.want(Some(a), "no semicolon", Some("L-C08"));
                        self.wrong.as_mut().unwrap().line = true;
                        self.put(pick(&["\n", "\n\n", " \n", " // comment\n"]));
                    }
                    5 => { self.put("="); self.gap(); self.want(None, "two values", None); self.put(pick(&["1 2", "\"a\" \"b\"", "1 \"a\"", "(1) 2", "1 2 +", "2 (3)", "3.5 0x1"])); self.put(";"); }
                    6 => { self.put("="); self.gap(); self.want(None, "half an expression", None); self.put(pick(&["1 +", "* 2", "(1 + 2", "1 + 2)", "1 + * 2", "()", "+"])); self.put(";"); }
                    7 => { self.want(None, "no equals sign", None); self.sgap(); self.put(" "); self.put(t); self.put(";"); }
                    8 => { self.put("="); self.gap(); self.want(None, "an open string", None); self.put("\"open"); self.put(";"); }
                    _ => {
                        // the last of two
                        self.put("="); self.gap(); self.put("1;");
                        self.put("\n"); let a = self.at();
                        self.want(Some(a), "a property that is defined twice", Some("L-C02"));
                        self.wrong.as_mut().unwrap().also = vec![start];
                        self.put(&if genp(1, 2) { n.clone() } else { n.to_uppercase() }); self.put("=");
                        self.put("2;");
                    }
                }
                true
            }
            (P::Arr(n, _, _), Q::Arr(w)) => {
                self.put(n);
                match self.kinds % 5 {
                    0 | 1 => {
                        self.put("[]"); self.gap(); self.put("="); self.gap(); let a = self.at();
                        self.want(Some(start), "a value as array", Some("L-C07"));
                        self.wrong.as_mut().unwrap().also = vec![a];
                        self.put(pick(&["1", "\"a\"", "0.5", "1 + 1"])); self.put(";");
                    }
                    2 => {
                        self.put("[] = {"); self.gap(); self.put("1,"); self.gap(); let a = self.at();
                        self.want(Some(a), "a word in an array", Some("L-C01"));
                        self.put(pick(&["true", "abc", "$STR_A"])); self.put(", 2};");
                    }
                    3 => {
                        self.put("[] = "); self.list(w);
                        let a = self.at();
                        self.want(Some(a), "no semicolon", Some("L-C08"));
                        self.wrong.as_mut().unwrap().line = true;
                        self.put("\n");
                    }
                    _ => { self.want(None, "an open array", None); self.put("[] = {1, {2, 3};"); }
                }
                true
            }
            (P::Class(n, _, _), Q::Class(body)) => {
                match self.kinds % 4 {
                    0 => {
                        self.put("class "); self.put(n); self.gap(); self.put(":"); self.gap(); let a = self.at();
                        self.want(Some(a), "an unknown parent", Some("L-C04"));
                        self.put("Unknown_Parent"); self.put(" {"); self.props(body, 1); self.put("};");
                    }
                    1 => {
                        self.put("class "); self.put(n); self.put(": "); self.put(n); let a = self.at();
                        self.want(Some(a), "no braces", Some("L-C10"));
                        self.wrong.as_mut().unwrap().line = true;
                        self.put(";");
                    }
                    2 => {
                        self.put("class "); let a = self.at(); self.put(n); self.put(" {"); self.props(body, 1); self.put("};\nclass "); let b = self.at();
                        self.put(&if genp(1, 2) { n.clone() } else { n.to_uppercase() }); self.put(pick(&[" {};", ";"]));
                        self.want(Some(a), "a class that is defined twice", Some("L-C03"));
                        self.wrong.as_mut().unwrap().also = vec![b];
                    }
                    _ => { self.put("class "); self.put(n); self.put(" {"); self.props(body, 1); self.want(None, "an open class", None); self.put(pick(&["", ";", "}}}};"])); self.put("\nclass "); }
                }
                true
            }
            _ => { let _ = (ps, i); false }
        }
    }
}
/// A config: as a tree, and as files.
pub fn conf(size: u64, mistakes: bool) -> Conf {
    let mut t = Tree { seen: vec![], next: 0, budget: size };
    let ps = t.props(0);
    let plain = genp(1, 6);
    let left = if mistakes { 1 + gen(8) as i64 } else { -1 };
    let mut e = Em { files: vec![("config.cpp".into(), String::new()), ("macros.hpp".into(), String::new())], cur: 0, macros: 0, plain, nl: genp(2, 3), wrong: None, left, kinds: if mistakes { gen(60) } else { 0 } };
    e.put("#include \"macros.hpp\"\n");
    e.props(&ps, 0);
    e.gap();
    e.put("\n");
    // an open string may end at any later quote
    let unclear = e.wrong.as_ref().is_some_and(|w| w.what == "an open string") && { let all: String = e.files.iter().map(|f| f.1.replace("\"open", "\u{1}")).collect(); all[all.find('\u{1}').unwrap_or(0)..].contains('"') };
    Conf { unclear, props: ps.into_iter().map(|x| x.0).collect(), files: e.files, wrong: e.wrong }
}
impl Conf {
    pub fn fs(&self) -> SimFs { let f = SimFs::new(); for (p, t) in &self.files { f.put(p, t.as_bytes()); } f }
    pub fn dump(&self) -> String { self.files.iter().map(|(p, t)| format!("=== {p}\n{t}\n")).collect() }
    fn key(&self) -> u64 { hash_str(&self.dump()) }
}

// ---- running ----
pub enum Out { Bin(Vec<u8>, usize), Codes(Codes) }
/// What a build does with one config; None: the preprocessor refuses it.
pub fn compile(root: &WorkspacePath, path: &str) -> Result<(Option<Processed>, Out), Violation> {
    let p = match preprocess(root, path)? { Ok(p) => p, Err(hemtt_preprocessor::Error::Code(c)) => return Ok((None, Out::Codes(vec![c]))), Err(e) => return bad("preprocessing fails", e.to_string()) };
    let r = run("parsing a config", || hemtt_config::parse(None, &p))?;
    let rep = match r { Ok(r) => r, Err(c) => { ensure!(!c.is_empty(), "a config is refused without a reason", ""); return Ok((Some(p), Out::Codes(c))); } };
    if rep.codes().iter().any(|c| c.severity() >= Severity::Error) { let c = rep.codes().to_vec(); return Ok((Some(p), Out::Codes(c))); }
    let (mut w, sink) = SimWriter::new(Plan::benign());
    let n = match run("rapifying", || rep.config().rapify(&mut w, 0))? { Ok(n) => n, Err(e) => return bad("rapifying fails although nothing is wrong", e.to_string()) };
    let b = sink.lock().unwrap().data.clone();
    Ok((Some(p), Out::Bin(b, n)))
}
fn codes(c: &Codes) -> String { c.iter().map(|c| format!("{}: {} ", c.ident(), c.message())).collect() }
fn judge(c: &Conf, got: &Out) -> Result<(), Violation> {
    match got {
        Out::Codes(e) => ensure!(c.wrong.is_some(), "a valid config is refused", "{} in\n{}", codes(e), c.dump()),
        Out::Bin(b, n) => {
            if let Some(w) = &c.wrong { return bad(format!("a config with a mistake is accepted: {}", w.what), format!("{w:?} {:?} from\n{}", derap(b), c.dump())).map(|_: Info| ()); }
            ensure!(*n == b.len(), "rapifying counts other bytes than it writes", "{n} of {}", b.len());
            match derap(b) {
                Err(e) => return bad("a rapified config cannot be decoded", format!("{e} from\n{}", c.dump())).map(|_: Info| ()),
                Ok(p) => if let Some(d) = differ(&c.props, &p) { return bad("a rapified config is not the config", format!("{d} from\n{}", c.dump())).map(|_: Info| ()); },
            }
        }
    }
    Ok(())
}
fn info(c: &Conf, n: usize) -> Info { Info { nontrivial: c.props.len() > 1, key: mix(c.key(), n as u64), sample: Some(format!("{} properties, {} files, {} bytes", c.props.len(), c.files.len(), n)) } }

fn p12_binary() -> Verdict {
    let c = conf(20, false);
    let fs = c.fs();
    fs.with(|s| { s.shuffle = true; s.benign = Some(Plan::benign()); });
    let root = open(&[fs])?;
    let (_, got) = compile(&root, "config.cpp")?;
    judge(&c, &got)?;
    Ok(info(&c, if let Out::Bin(b, _) = &got { b.len() } else { 0 }))
}
fn p12_mistake() -> Verdict {
    let c = conf(12, true);
    if c.wrong.is_none() || c.unclear { return Ok(Info::default()); }
    let root = open(&[c.fs()])?;
    let (_, got) = compile(&root, "config.cpp")?;
    judge(&c, &got)?;
    Ok(info(&c, 0))
}
fn p12_streams() -> Verdict {
    let c = conf(12, false);
    let root = open(&[c.fs()])?;
    let Ok(p) = preprocess(&root, "config.cpp")? else { return Ok(Info::default()) };
    let Ok(rep) = run("parsing a config", || hemtt_config::parse(None, &p))? else { return Ok(Info::default()) };
    if !rep.errors().is_empty() { return Ok(Info::default()); }
    let (mut w, sink) = SimWriter::new(Plan::default());
    must("rapifying", || rep.config().rapify(&mut w, 0))?;
    let whole = sink.lock().unwrap().data.clone();
    for _ in 0..3 {
        let (mut w, sink) = SimWriter::new(Plan::benign());
        must("rapifying to a slow destination", || rep.config().rapify(&mut w, 0))?;
        let s = sink.lock().unwrap();
        ensure!(s.data == whole, "the bytes depend on how they are taken", "{} from\n{}", diff(&s.data, &whole), c.dump());
    }
    let (mut w, sink) = SimWriter::new(Plan::failing(whole.len() as u64 + 2, true));
    let r = run("rapifying to a failing destination", || rep.config().rapify(&mut w, 0))?;
    let s = sink.lock().unwrap();
    if r.is_ok() { ensure!(s.data == whole, "rapifying reports success although data is missing", "{}; {:?}", diff(&s.data, &whole), s.stats); }
    Ok(Info { nontrivial: r.is_err(), ..info(&c, whole.len()) })
}
fn p12_threads() -> Verdict {
    let c = conf(10, false);
    let fs = c.fs();
    fs.with(|s| { s.shuffle = true; s.benign = Some(Plan::benign()); });
    let root = open(&[fs])?;
    // what is set up once in a process is no part of a run
    { let f = SimFs::new(); f.put("config.cpp", b"x = 1;"); compile(&open(&[f])?, "config.cpp")?; }
    sim::set_opts(|o| { o.alloc_gap = 40; o.io_gap = 2; });
    let hs: Vec<_> = (0..2 + gen(2)).map(|_| { let r = root.clone(); std::thread::spawn(move || compile(&r, "config.cpp").map(|x| match x.1 { Out::Bin(b, _) => Ok(b), Out::Codes(c) => Err(codes(&c)) })) }).collect();
    let rs: Vec<_> = hs.into_iter().map(std::thread::JoinHandle::join).collect();
    sim::set_opts(|o| { o.alloc_gap = 0; o.io_gap = 0; });
    sim::reseed_env(env(1 << 40));
    let (_, first) = compile(&root, "config.cpp")?;
    judge(&c, &first)?;
    for r in rs {
        let r = r.map_err(|_| Violation { sig: "checking a config panics".into(), detail: String::new() })??;
        if let (Ok(b), Out::Bin(f, _)) = (&r, &first) { ensure!(b == f, "concurrent runs give different bytes", "{} from\n{}", diff(b, f), c.dump()); } else { return bad("concurrent runs give different results", format!("{r:?}")); }
    }
    Ok(info(&c, 0))
}

/// P10: what is wrong in a config is reported where it was written.
pub fn p10_lints() -> Verdict {
    let c = conf(12, true);
    let Some(w) = &c.wrong else { return Ok(Info::default()) };
    let root = open(&[c.fs()])?;
    let (p, got) = compile(&root, "config.cpp")?;
    let (Some(_), Out::Codes(cs)) = (p, got) else { return Ok(Info::default()) };
    let files = WorkspaceFiles::new();
    for x in &cs {
        let Some(d) = run("asking for a diagnostic", || x.diagnostic())? else { return bad("an error has no diagnostic", format!("{} {} in\n{}", x.ident(), x.message(), c.dump())) };
        let _ = run("rendering a diagnostic", || d.to_string(&files))?;
        let _ = run("making annotations", || d.to_annotations(&files))?;
    }
    let (Some(code), Some(at)) = (w.code, w.at) else { return Ok(info(&c, 1)) };
    let place = |l: &hemtt_workspace::reporting::Label| (l.file().as_str().trim_start_matches('/').to_string(), l.to_codespan().range);
    let line = |f: usize, o: usize| c.files[f].1.as_bytes()[..o.min(c.files[f].1.len())].iter().filter(|b| **b == b'\n').count();
    let name = |a: (usize, usize)| c.files[a.0].0.clone();
    let all: Vec<_> = cs.iter().filter(|x| x.ident() == code).map(|x| x.diagnostic().unwrap().labels.iter().map(place).collect::<Vec<_>>()).collect();
    if all.is_empty() { return bad("a mistake is not reported as what it is", format!("{w:?}: {} in\n{}", codes(&cs), c.dump())); }
    let hit = all.iter().find(|l| l.first().is_some_and(|(f, r)| *f == name(at) && if w.line { line(at.0, r.start) == line(at.0, at.1) } else { r.start == at.1 }));
    let Some(hit) = hit else { return bad(format!("a mistake is reported at the wrong place ({code})"), format!("{w:?}: {all:?} in\n{}", c.dump())) };
    for a in &w.also { ensure!(hit.iter().skip(1).any(|(f, r)| *f == name(*a) && r.start == a.1), format!("the other place of a mistake is wrong ({code})"), "{w:?}: {hit:?} in\n{}", c.dump()); }
    Ok(info(&c, 2))
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "P12",
        rule: "an independent decoder of the documented binary form yields exactly the generated config, every byte used once; mistakes are refused; a failing destination is an error",
        real: &["hemtt-config (parser, lints, rapifier)", "hemtt-preprocessor", "hemtt-workspace", "hemtt-common (numbers, expressions)"],
        stub: &["source files live in a simulated file system", "the destination is a simulated stream", "thread scheduling, hash seeds"],
        assumptions: &["numbers within the range of their type", "no enums"],
        level: "tested-random",
        scenarios: vec![Scenario::new("binary", 20_000, 600_000, p12_binary), Scenario::new("mistake", 20_000, 600_000, p12_mistake), Scenario::new("streams", 10_000, 300_000, p12_streams), Scenario::new("threads", 2_000, 80_000, p12_threads)],
    }]
}
