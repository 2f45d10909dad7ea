//! P28: compiled scripts, against the generated program (the oracle never reads the script's text back).
use crate::util::*;
use hemtt_common::config::PDriveOption;
use hemtt_preprocessor::Processor;
use hemtt_sqf::parser::database::Database;
use hemtt_sqf::parser::ParserError;
use hemtt_workspace::addons::{Addon, Location};
use hemtt_workspace::reporting::{Codes, Processed, WorkspaceFiles};
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::sim;
use simcore::simvfs::{SimFs, VFault};
use simcore::streams::{Plan, SimWriter};
use simcore::tape::{hash_bytes, hash_str, mix};
use simcore::{ensure, env, fault, gen, genp};
use std::cell::Cell;
use std::sync::{Arc, OnceLock};

/// Where something was written: (file, line) and the number of the token in the whole program.
type Mark = Cell<(usize, usize, usize)>;
fn mark() -> Mark { Cell::new((0, 0, usize::MAX)) }
#[derive(Clone)]
enum E { Num(f32, String), Str(String, String), Bool(bool), Arr(Vec<E>), Nul(&'static str, Mark), Un(&'static str, Box<E>, Mark), Bin(&'static str, u8, Box<E>, Box<E>, Mark), Var(&'static str, Mark), Code(Vec<S>) }
#[derive(Clone)]
enum S { Set(bool, &'static str, E, Mark), Do(E) }

const NULAR: [&str; 12] = ["player", "time", "allUnits", "objNull", "grpNull", "scriptNull", "nil", "west", "configFile", "missionNamespace", "pi", "vehicles"];
const UNARY: [&str; 34] = ["hint", "alive", "count", "str", "format", "call", "if", "while", "private", "isNil", "not", "params", "param", "selectRandom", "typeOf", "sqrt", "toLower", "toUpper", "toLowerANSI", "toUpperANSI", "random", "abs", "floor", "positionCameraToWorld", "spawn", "switch", "case", "default", "waitUntil", "systemChat", "vectorDir", "throw", "parseNumber", "getPos"];
const BINARY: [&str; 34] = ["then", "do", "exitWith", "from", "to", "step", "select", "pushBack", "set", "getVariable", "setVariable", "in", "isEqualTo", "find", "apply", "forEach", "call", "spawn", "setPos", "distance", "joinString", "append", "resize", "vectorAdd", "vectorDiff", "vectorDotProduct", "vectorCrossProduct", "getOrDefault", "params", "param", "count", "remoteExec", "deleteAt", ":"];
const VARS: [&str; 12] = ["_this", "_x", "_unit", "abe_main_value", "TAG_fnc_Do", "_a1", "x", "_Target", "_forEachIndex", "thing", "_y_2", "e5"];
/// with their binding strength
const OPS: [(&str, u8); 22] = [("+", 6), ("-", 6), ("*", 7), ("/", 7), ("%", 7), ("mod", 7), ("atan2", 7), ("^", 8), ("#", 9), ("max", 6), ("min", 6), ("else", 5), ("==", 3), ("!=", 3), (">", 3), ("<", 3), (">=", 3), ("<=", 3), (">>", 3), ("&&", 2), ("||", 1), ("and", 2)];

struct G { budget: u64 }
impl G {
    fn num(&mut self) -> E {
        let (t, v): (String, f32) = match gen(12) {
            0..=5 => { let n = pick(&[0u32, 1, 2, 3, 10, 255, 16_777_217, 4_294_967_295, 7, 100]); (n.to_string(), n as f32) }
            6 => { let n = gen(1 << 20); (format!("{n:07}"), n as f32) }
            7 | 8 => { let t = pick(&["0.5", ".25", "3.1415927", "100.001", "0.1", "16777217.0", "0.0", "123456789.123"]); (t.to_string(), format!("0{t}").parse().unwrap()) }
            9 => { let t = pick(&["1e3", "1.5e-3", "2E+2", "9e37", "1e-45", "12.5e1", "3e0"]); (t.to_string(), t.parse().unwrap()) }
            10 => { let n = gen(1 << 31) as u32; (format!("0x{n:x}"), n as f32) }
            _ => { let n = gen(1 << 16) as u32; (format!("${n:X}"), n as f32) }
        };
        E::Num(v, t)
    }
    fn string(&mut self) -> E {
        let mut v = pick(&["", "text", "Hello World", "a \"quoted\" b", "it's", "ünïcödé ² €", "[1, 2] select 0", "x;y}{", "two\nlines", "🤔", "%1 %2", "\\a3\\data\\x.paa", "_a", "UPPER lower", "''", "\"", "ß", "tab\there", "hint 1"]).to_string();
        if genp(1, 100) { v = "long ".repeat(gen(6000) as usize); }
        let t = if genp(1, 4) && !v.contains('"') { format!("'{}'", v.replace('\'', "''")) } else { format!("\"{}\"", v.replace('"', "\"\"")) };
        E::Str(v, t)
    }
    fn leaf(&mut self) -> E {
        match gen(14) {
            0..=3 => self.num(),
            4..=6 => self.string(),
            7 => E::Bool(genp(1, 2)),
            8..=10 => E::Var(VARS[gen(VARS.len() as u64) as usize], mark()),
            11 | 12 => E::Nul(NULAR[gen(NULAR.len() as u64) as usize], mark()),
            _ => E::Arr(vec![]),
        }
    }
    fn constant(&mut self, d: u64) -> E {
        if d > 0 && genp(1, 3) { let n = gen(4); return E::Arr((0..n).map(|_| self.constant(d - 1)).collect()); }
        match gen(8) { 0..=2 => self.num(), 3..=5 => self.string(), 6 => E::Bool(genp(1, 2)), _ => if d > 0 && genp(1, 2) { self.code(d) } else { E::Nul("objNull", mark()) } }
    }
    fn code(&mut self, d: u64) -> E { let n = if self.budget == 0 { gen(2) } else { gen(4) }; E::Code((0..n).map(|_| self.stmt(d.saturating_sub(1))).collect()) }
    fn expr(&mut self, d: u64) -> E {
        if d == 0 || self.budget == 0 { return self.leaf(); }
        self.budget -= 1;
        let un = |n: &'static str, e: E| E::Un(n, Box::new(e), mark());
        let bin = |n: &'static str, a: E, b: E| E::Bin(n, OPS.iter().find(|o| o.0 == n).map_or(4, |o| o.1), Box::new(a), Box::new(b), mark());
        match gen(20) {
            0..=2 => self.leaf(),
            3 => { let n = gen(5); E::Arr((0..n).map(|_| self.expr(d - 1)).collect()) }
            4 | 5 => self.code(d - 1),
            6..=8 => { let n = pick(&UNARY); let e = self.expr(d - 1); un(n, e) }
            9 => { let n = pick(&["-", "!", "+"]); let e = self.expr(d - 1); un(n, e) }
            10 | 11 => { let n = pick(&BINARY); let (a, b) = (self.expr(d - 1), self.expr(d - 1)); bin(n, a, b) }
            12..=14 => { let n = OPS[gen(OPS.len() as u64) as usize].0; let (a, b) = (self.expr(d - 1), self.expr(d - 1)); bin(n, a, b) }
            // what the optimiser looks for
            15 => { let n = pick(&["+", "-", "*", "/", "%", "mod"]); let (a, b) = if genp(1, 3) { (self.string(), self.string()) } else { (self.num(), self.num()) }; bin(n, a, b) }
            16 => { let n = pick(&["params", "param", "random", "positionCameraToWorld", "+"]); let e = self.constant(3); un(n, e) }
            17 => { let n = pick(&["getVariable", "setVariable", "getOrDefault", "params", "param", "vectorAdd", "vectorDiff", "vectorDotProduct", "vectorCrossProduct"]); let a = if genp(1, 2) { self.constant(2) } else { self.expr(d - 1) }; let b = if genp(3, 4) { E::Arr((0..1 + gen(3)).map(|_| if genp(1, 12) { self.expr(1) } else { self.constant(2) }).collect()) } else { self.expr(d - 1) }; bin(n, a, b) }
            18 => {
                let c = self.expr(d - 1);
                let (a, b) = (self.code(d - 1), if genp(5, 6) { self.code(d - 1) } else { self.expr(d - 1) });
                let e = bin("else", a, b);
                match gen(5) { 0 => e, 1 => bin("getVariable", c, E::Arr(vec![E::Str("k".into(), "\"k\"".into()), e])), 2 => un("random", E::Arr(vec![e, c])), _ => bin("then", un("if", c), e) }
            }
            _ => { let e = self.expr(d - 1); let f = pick(&["call", "spawn"]); if genp(1, 2) { bin(f, E::Var("_this", mark()), e) } else { let n = pick(&["sqrt", "toLower", "toUpper", "toLowerANSI", "toUpperANSI", "-"]); let k = if genp(1, 2) { self.num() } else { self.string() }; un(n, k) } }
        }
    }
    fn stmt(&mut self, d: u64) -> S {
        if genp(2, 5) {
            let v = VARS[1 + gen(VARS.len() as u64 - 1) as usize];
            S::Set(genp(1, 2), v, self.expr(d), mark())
        } else { S::Do(self.expr(d)) }
    }
}

/// What is written.
enum T<'a> { Tok(String, Option<&'a Mark>), Group(Vec<T<'a>>) }
fn case(s: &str) -> String {
    match gen(12) { 0..=8 => s.to_string(), 9 => s.to_lowercase(), 10 => s.to_uppercase(), _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() }
}
fn tok<'a>(s: &str) -> T<'a> { T::Tok(s.to_string(), None) }
fn print<'a>(e: &'a E, need: u8, out: &mut Vec<T<'a>>) {
    let mine = match e { E::Un(..) => 10, E::Bin(_, p, ..) => *p, _ => 11 };
    let parens = if mine < need { 1 } else { usize::from(genp(1, 12)) };
    let group = genp(1, 12);
    let mut o = vec![];
    for _ in 0..parens { o.push(tok("(")); }
    match e {
        E::Num(_, t) => o.push(tok(t)),
        E::Str(_, t) => o.push(tok(t)),
        E::Bool(b) => o.push(tok(&case(if *b { "true" } else { "false" }))),
        E::Nul(n, m) => o.push(T::Tok(case(n), Some(m))),
        E::Var(n, m) => o.push(T::Tok(case(n), Some(m))),
        E::Arr(v) => {
            o.push(tok("["));
            for (i, x) in v.iter().enumerate() { if i > 0 { o.push(tok(",")); } print(x, 0, &mut o); }
            o.push(tok("]"));
        }
        E::Un(n, x, m) => { o.push(T::Tok(case(n), Some(m))); print(x, 10, &mut o); }
        E::Bin(n, p, a, b, m) => { print(a, *p, &mut o); o.push(T::Tok(case(n), Some(m))); print(b, p + 1, &mut o); }
        E::Code(v) => { o.push(tok("{")); block(v, &mut o); o.push(tok("}")); }
    }
    for _ in 0..parens { o.push(tok(")")); }
    if group { out.push(T::Group(o)); } else { out.append(&mut o); }
}
fn semis(out: &mut Vec<T>) { for _ in 0..1 + if genp(1, 20) { gen(3) } else { 0 } { out.push(tok(";")); } }
fn stmt<'a>(s: &'a S, out: &mut Vec<T<'a>>) {
    match s {
        S::Do(e) => print(e, 0, out),
        S::Set(local, n, e, m) => {
            if *local { out.push(T::Tok(case("private"), Some(m))); out.push(tok(&case(n))); } else { out.push(T::Tok(case(n), Some(m))); }
            out.push(tok("="));
            print(e, 0, out);
        }
    }
}
fn block<'a>(v: &'a [S], out: &mut Vec<T<'a>>) {
    if genp(1, 30) { out.push(tok(";")); }
    for (i, s) in v.iter().enumerate() {
        stmt(s, out);
        if i + 1 < v.len() || genp(1, 2) { semis(out); }
    }
}
fn flat(t: &[T], f: &mut impl FnMut(&str)) { for x in t { match x { T::Tok(s, _) => f(s), T::Group(g) => flat(g, f) } } }
fn wordy(s: &str) -> bool { s.starts_with(|c: char| c.is_alphanumeric() || "_\"'.$".contains(c)) }
fn opy(s: &str) -> bool { s.starts_with(|c| "+-*/%^#=!<>&|:".contains(c)) }

struct Out { wrong: Option<(usize, usize)>, files: [String; 2], cur: usize, defs: String, macros: usize, n: usize, prev: String, toks: Vec<String> }
impl Out {
    fn line(&self) -> usize { 1 + self.files[self.cur].matches('\n').count() }
    fn gap(&mut self, next: &str) {
        let o = &mut self.files[self.cur];
        let tight = !((wordy(&self.prev) && wordy(next)) || (opy(&self.prev) && opy(next)));
        let hash = next == "#";
        match gen(16) {
            0..=5 => o.push(' '),
            6..=10 if tight => {}
            11 if !hash => o.push_str(pick(&["\n", "\n\n    ", "\n\t"])),
            12 if !hash => { o.push_str(&format!(" // {}\n", pick(&["note", "it's", "x = 1;", "über"]))); }
            13 => o.push_str(pick(&[" /* c */ ", " /* two ; */", "  "])),
            14 => o.push('\t'),
            _ => o.push(' '),
        }
    }
    /// the tokens of a group on one line, as the body of a macro
    fn inner(&mut self, t: &[T], at: (usize, usize), body: &mut String) {
        for x in t {
            match x {
                T::Tok(s, m) => { body.push(' '); body.push_str(s); if let Some(m) = m { m.set((at.0, at.1, self.n)); } self.n += 1; self.toks.push(s.clone()); }
                T::Group(g) => if genp(1, 2) { let name = self.define(g, at); body.push(' '); body.push_str(&name); } else { self.inner(g, at, body); }
            }
        }
    }
    fn define(&mut self, g: &[T], at: (usize, usize)) -> String {
        let name = format!("MAC_{}", self.macros);
        self.macros += 1;
        let mut body = String::new();
        self.inner(g, at, &mut body);
        self.defs.push_str(&format!("#define {name}{body}\n"));
        name
    }
    fn put(&mut self, t: &[T], macros: bool) {
        for x in t {
            match x {
                T::Tok(s, m) => {
                    self.gap(s);
                    if let Some(m) = m { m.set((self.cur, self.line(), self.n)); }
                    self.n += 1;
                    self.toks.push(s.clone());
                    let s = if let Some(w) = s.strip_prefix('\u{1}') { self.wrong = Some((self.cur, self.files[self.cur].len())); w } else { s };
                    self.files[self.cur].push_str(s);
                    self.prev = s.to_string();
                }
                T::Group(g) => {
                    let mut ok = macros;
                    flat(g, &mut |s| if s == "#" || s.contains('\n') { ok = false; });
                    if ok {
                        self.gap("M");
                        let at = (self.cur, self.line());
                        let name = self.define(g, at);
                        self.files[self.cur].push_str(&name);
                        self.prev = "M".into();
                    } else { self.put(g, macros); }
                }
            }
        }
    }
}
struct Prog { body: Vec<S>, main: String, inc: Option<String>, toks: Vec<String>, shift: usize, wrong: Option<(usize, usize)> }
impl Prog {
    fn fs(&self) -> SimFs { let f = SimFs::new(); f.put("addons/main/fn.sqf", self.main.as_bytes()); if let Some(i) = &self.inc { f.put("addons/main/inc.hpp", i.as_bytes()); } f }
    fn dump(&self) -> String { format!("{}{}", self.main.chars().take(1500).collect::<String>(), self.inc.as_ref().map_or(String::new(), |i| format!("\n--- inc.hpp\n{i}"))) }
    fn key(&self) -> u64 { mix(hash_str(&self.main), hash_str(self.inc.as_deref().unwrap_or(""))) }
}
fn program(size: u64) -> Prog { with(size, None) }
fn with(size: u64, wrong: Option<&str>) -> Prog {
    let mut g = G { budget: size };
    let n = gen(if size > 30 { 8 } else { 4 });
    let body: Vec<S> = (0..n).map(|_| g.stmt(4)).collect();
    write(body, wrong)
}
fn write(body: Vec<S>, wrong: Option<&str>) -> Prog {
    let spot = wrong.map(|w| (gen(body.len().max(1) as u64) as usize, w));
    let macros = genp(1, 3);
    // some statements are in a file of their own
    let inc = if !body.is_empty() && genp(1, 4) { let a = gen(body.len() as u64) as usize; Some((a, a + 1 + gen((body.len() - a) as u64) as usize)) } else { None };
    let mut o = Out { wrong: None, files: [String::new(), String::new()], cur: 0, defs: String::new(), macros: 0, n: 0, prev: String::new(), toks: vec![] };
    let last = genp(1, 2);
    for (i, s) in body.iter().enumerate() {
        if let Some((a, _)) = inc { if a == i { o.files[0].push_str("\n#include \"inc.hpp\"\n"); o.cur = 1; o.prev.clear(); } }
        let mut t = vec![];
        stmt(s, &mut t);
        if let Some((k, w)) = spot { if k == i { t.push(tok(&format!("\u{1}{w}"))); } }
        if i + 1 < body.len() || last { semis(&mut t); }
        o.put(&t, macros);
        if let Some((_, b)) = inc { if b == i + 1 { o.files[1].push('\n'); o.cur = 0; o.prev.clear(); } }
    }
    if genp(1, 3) { o.files[0].push('\n'); }
    if genp(1, 20) { o.files[0].push_str(" // end"); }
    let shift = o.defs.matches('\n').count();
    let wrong = o.wrong.map(|(f, a)| (f, a + if f == 0 { o.defs.len() } else { 0 }));
    let toks = o.toks;
    let [m, i] = o.files;
    let mut main = o.defs + m.as_str();
    if wrong.is_none() && genp(1, 8) { main = main.replace('\n', "\r\n"); }
    Prog { wrong, inc: inc.map(|_| i), body, main, toks, shift }
}

/// The tokens of a processed text, with their places.
fn lex(s: &str) -> Vec<(usize, usize)> {
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let a = i;
        if c.is_ascii_whitespace() { i += 1; continue; }
        if c == b'"' || c == b'\'' {
            i += 1;
            while i < b.len() { if b[i] == c { if b.get(i + 1) == Some(&c) { i += 2; continue; } break; } i += 1; }
            i += 1;
        } else if c.is_ascii_digit() || (c == b'.' && b.get(i + 1).is_some_and(u8::is_ascii_digit)) || c == b'$' {
            i += 1;
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] | 32) == b'e' && b[a..i].get(1) != Some(&b'x') && b[a] != b'$')) { i += 1; }
        } else if c.is_ascii_alphabetic() || c == b'_' {
            while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') { i += 1; }
        } else {
            i += if b.len() > i + 1 && matches!(&b[i..i + 2], b"&&" | b"||" | b"==" | b"!=" | b">>" | b">=" | b"<=") { 2 } else { 1 };
        }
        v.push((a, i.min(b.len())));
    }
    v
}

type Pos = Option<(u32, u8, u16)>;
#[derive(Clone, Debug)]
enum N { Num(f32), Str(Vec<u8>), Bool(bool), Arr(Vec<N>, bool), Nul(String, Pos), Un(String, Box<N>, Pos), Bin(String, Box<N>, Box<N>, Pos), Var(String, Pos), Code(Vec<NS>, (u32, u32)) }
#[derive(Clone, Debug)]
enum NS { Set(bool, String, N, Pos), Do(N) }

struct Rd<'a> { b: &'a [u8], p: usize }
impl Rd<'_> {
    fn take(&mut self, n: usize) -> Result<&[u8], String> { let a = self.p; self.p += n; self.b.get(a..a + n).ok_or_else(|| format!("ends at {}, inside {n} bytes at {a}", self.b.len())) }
    fn u8(&mut self) -> Result<u8, String> { Ok(self.take(1)?[0]) }
    fn u16(&mut self) -> Result<u16, String> { let t = self.take(2)?; Ok(u16::from_le_bytes([t[0], t[1]])) }
    fn u32(&mut self) -> Result<u32, String> { let t = self.take(4)?; Ok(u32::from_le_bytes([t[0], t[1], t[2], t[3]])) }
    fn str(&mut self) -> Result<Vec<u8>, String> { let t = self.take(3)?; let n = t[0] as usize | (t[1] as usize) << 8 | (t[2] as usize) << 16; Ok(self.take(n)?.to_vec()) }
    /// a compressed part: its size, a 2, LZO1X data
    fn packed(&mut self) -> Result<Vec<u8>, String> {
        let n = self.u32()? as usize;
        if self.u8()? != 2 { return Err("unknown compression".into()); }
        let (o, used) = unlzo(&self.b[self.p.min(self.b.len())..]).ok_or("damaged LZO data")?;
        self.p += used;
        if o.len() != n { return Err(format!("a part has {} bytes, {n} were declared", o.len())); }
        Ok(o)
    }
}
/// independent LZO1X decoder: the data and how many bytes it took
fn unlzo(i: &[u8]) -> Option<(Vec<u8>, usize)> {
    let mut o: Vec<u8> = vec![];
    let mut p = 0;
    let mut state = 0;
    let by = |p: &mut usize| { let b = i.get(*p).copied(); *p += 1; b.map(|x| x as usize) };
    let more = |p: &mut usize, base: usize| { let mut n = base; loop { let b = by(p)?; if b != 0 { return Some(n + b); } n += 255; } };
    if *i.first()? > 17 {
        p = 1;
        let n = i[0] as usize - 17;
        o.extend(i.get(p..p + n)?);
        p += n;
        state = n.min(4);
    }
    loop {
        let t = by(&mut p)?;
        let (dist, len, next);
        if t < 16 {
            if state == 0 {
                let n = 3 + if t == 0 { more(&mut p, 15)? } else { t };
                o.extend(i.get(p..p + n)?);
                p += n;
                state = 4;
                continue;
            }
            let h = by(&mut p)?;
            next = t & 3;
            if state == 4 { dist = (h << 2) + (t >> 2) + 2049; len = 3; } else { dist = (h << 2) + (t >> 2) + 1; len = 2; }
        } else if t >= 64 {
            let h = by(&mut p)?;
            next = t & 3;
            dist = (h << 3) + (t >> 2 & 7) + 1;
            len = (t >> 5) + 1;
        } else if t >= 32 {
            len = 2 + if t & 31 == 0 { more(&mut p, 31)? } else { t & 31 };
            let w = by(&mut p)? | by(&mut p)? << 8;
            dist = (w >> 2) + 1;
            next = w & 3;
        } else {
            len = 2 + if t & 7 == 0 { more(&mut p, 7)? } else { t & 7 };
            let w = by(&mut p)? | by(&mut p)? << 8;
            let d = ((t & 8) << 11) + (w >> 2);
            if d == 0 { return Some((o, p)); }
            dist = d + 0x4000;
            next = w & 3;
        }
        if dist > o.len() { return None; }
        for _ in 0..len { let b = o[o.len() - dist]; o.push(b); }
        o.extend(i.get(p..p + next)?);
        p += next;
        state = next;
    }
}
enum K { Code(KCode), Str(Vec<u8>), Num(f32), Bool(bool), Arr(Vec<K>), Nul(String) }
struct KCode { ptr: (u32, u32), ins: Vec<(u8, Pos, u16)> }
struct Compiled { root: Vec<NS>, text: Vec<u8>, files: Vec<String>, ins: usize }
fn constant(r: &mut Rd, root: bool) -> Result<K, String> {
    Ok(match r.u8()? {
        0 => {
            let ptr = (r.u32()?, r.u32()?);
            let _ = root;
            let n = r.u32()?;
            let mut ins = vec![];
            for _ in 0..n {
                let t = r.u8()?;
                let pos = if t > 1 { Some((r.u32()?, r.u8()?, r.u16()?)) } else { None };
                let a = if t > 0 { r.u16()? } else { 0 };
                if t > 8 { return Err(format!("unknown instruction {t}")); }
                ins.push((t, pos, a));
            }
            K::Code(KCode { ptr, ins })
        }
        1 => K::Str(r.str()?),
        2 => K::Num(f32::from_bits(r.u32()?)),
        3 => K::Bool(match r.u8()? { 0 => false, 1 => true, x => return Err(format!("a boolean is {x}")) }),
        4 => { let n = r.u32()?; K::Arr((0..n).map(|_| constant(r, false)).collect::<Result<_, _>>()?) }
        5 => K::Nul(String::from_utf8(r.str()?).map_err(|e| e.to_string())?),
        x => return Err(format!("unknown constant {x}")),
    })
}
struct Tables { names: Vec<String>, ks: Vec<K>, ins: Cell<usize> }
impl Tables {
    fn konst(&self, k: &K) -> Result<N, String> {
        Ok(match k {
            K::Str(s) => N::Str(s.clone()),
            K::Num(x) => N::Num(*x),
            K::Bool(b) => N::Bool(*b),
            K::Nul(n) => N::Nul(n.clone(), None),
            K::Arr(v) => N::Arr(v.iter().map(|k| self.konst(k)).collect::<Result<_, _>>()?, true),
            K::Code(c) => { if c.ptr.1 & 0x8000_0000 == 0 { return Err("code within code has no place in the text".into()); } N::Code(self.code(c)?, (c.ptr.0, c.ptr.1 & 0x7fff_ffff)) }
        })
    }
    fn code(&self, c: &KCode) -> Result<Vec<NS>, String> {
        let mut v = vec![];
        let mut st: Vec<N> = vec![];
        let mut set = false;
        self.ins.set(self.ins.get() + c.ins.len());
        let end = |st: &mut Vec<N>, v: &mut Vec<NS>, set: bool| -> Result<(), String> { match st.len() { 0 if set => Ok(()), 1 if !set => { v.push(NS::Do(st.pop().unwrap())); Ok(()) } n => Err(format!("a statement leaves {n} values")) } };
        for (i, (t, pos, a)) in c.ins.iter().enumerate() {
            if i == 0 && *t != 0 { return Err("code that does not begin with a statement".into()); }
            if *t == 0 { if i > 0 { end(&mut st, &mut v, set)?; } set = false; continue; }
            if set { return Err("something follows an assignment".into()); }
            let mut pop = || st.pop().ok_or("an instruction lacks a value");
            let name = || self.names.get(*a as usize).cloned().ok_or(format!("name {a} of {}", self.names.len()));
            let x = match t {
                1 => self.konst(self.ks.get(*a as usize).ok_or(format!("constant {a} of {}", self.ks.len()))?)?,
                2 => N::Un(name()?, Box::new(pop()?), *pos),
                3 => { let b = pop()?; N::Bin(name()?, Box::new(pop()?), Box::new(b), *pos) }
                4 => N::Nul(name()?, *pos),
                5 | 6 => { let x = pop()?; v.push(NS::Set(*t == 6, name()?, x, *pos)); set = true; continue; }
                7 => N::Var(name()?, *pos),
                _ => { let mut e = vec![]; for _ in 0..*a { e.push(pop()?); } e.reverse(); N::Arr(e, false) }
            };
            st.push(x);
        }
        if !c.ins.is_empty() { end(&mut st, &mut v, set)?; }
        Ok(v)
    }
}
fn decode(b: &[u8]) -> Result<Compiled, String> {
    let mut r = Rd { b, p: 0 };
    let v = r.u32()?;
    if v != 1 { return Err(format!("version {v}")); }
    let (mut names, mut ks, mut files, mut entry) = (None, None, None, None);
    while r.p < b.len() {
        match r.u8()? {
            5 if names.is_none() => {
                let d = r.packed()?;
                let mut q = Rd { b: &d, p: 0 };
                let n = q.u16()?;
                names = Some((0..n).map(|_| q.str().and_then(|s| String::from_utf8(s).map_err(|e| e.to_string()))).collect::<Result<Vec<_>, _>>()?);
                if q.p != d.len() { return Err("bytes after the names".into()); }
            }
            t @ (0 | 1) if ks.is_none() => {
                let d;
                let mut q = if t == 1 { d = r.packed()?; Rd { b: &d, p: 0 } } else { Rd { b, p: r.p } };
                let n = q.u16()?;
                ks = Some((0..n).map(|_| constant(&mut q, false)).collect::<Result<Vec<_>, _>>()?);
                if t == 1 { if q.p != q.b.len() { return Err("bytes after the constants".into()); } } else { r.p = q.p; }
            }
            2 if files.is_none() => { let n = r.u16()?; files = Some((0..n).map(|_| r.str().and_then(|s| String::from_utf8(s).map_err(|e| e.to_string()))).collect::<Result<Vec<_>, _>>()?); }
            3 if entry.is_none() => { let lo = r.u32()?; let hi = r.u32()?; if hi != 0 { return Err("entry".into()); } entry = Some(lo as usize); }
            t => return Err(format!("part {t}, again or unknown")),
        }
    }
    let t = Tables { names: names.ok_or("no names")?, ks: ks.ok_or("no constants")?, ins: Cell::new(0) };
    let Some(K::Code(c)) = t.ks.get(entry.ok_or("no entry")?) else { return Err("the entry is no code".into()) };
    if c.ptr.1 != 0 { return Err("the entry's text is not a constant".into()); }
    let Some(K::Str(text)) = t.ks.get(c.ptr.0 as usize) else { return Err("the entry's text is no string".into()) };
    Ok(Compiled { root: t.code(c)?, text: text.clone(), files: files.ok_or("no files")?, ins: t.ins.get() })
}

/// An array that is one value of the script's constants is changed for good when a script changes it: it may
/// only go to commands that neither keep it nor give it back.
fn shared(n: &N, free: bool) -> Result<(), String> {
    let is_arr = |n: &N| matches!(n, N::Arr(..));
    let gives = |n: &N| matches!(n, N::Arr(v, true) if v.get(1).is_some_and(is_arr));
    match n {
        N::Arr(v, true) => {
            let two = v.len() == 2 && v.iter().all(|x| matches!(x, N::Code(..)));
            if !free && !two { return Err(format!("{n:?}")); }
            for x in v { code_in(x)?; }
            Ok(())
        }
        N::Arr(v, false) => v.iter().try_for_each(|x| shared(x, false)),
        N::Un(c, x, _) => match c.as_str() {
            "+" | "random" | "positioncameratoworld" => shared(x, true),
            "param" => shared(x, !gives(x)),
            "params" => shared(x, !matches!(&**x, N::Arr(v, true) if v.iter().any(gives))),
            _ => shared(x, false),
        },
        N::Bin(c, a, b, _) => match c.as_str() {
            "param" | "getvariable" | "setvariable" | "getordefault" => { shared(a, false)?; shared(b, !gives(b)) }
            "params" => { shared(a, false)?; shared(b, !matches!(&**b, N::Arr(v, true) if v.iter().any(gives))) }
            "vectoradd" | "vectordiff" | "vectordotproduct" | "vectorcrossproduct" => { shared(a, true)?; shared(b, true) }
            _ => { shared(a, false)?; shared(b, false) }
        },
        N::Code(..) => code_in(n),
        _ => Ok(()),
    }
}
fn code_in(n: &N) -> Result<(), String> {
    match n {
        N::Code(v, _) => stmts_ok(v),
        N::Arr(v, _) => v.iter().try_for_each(code_in),
        _ => Ok(()),
    }
}
fn stmts_ok(v: &[NS]) -> Result<(), String> { v.iter().try_for_each(|s| match s { NS::Set(_, _, n, _) | NS::Do(n) => shared(n, false) }) }

/// Work out what has a fixed value, on both sides by the same rules.
fn fold(n: N) -> N {
    match n {
        N::Arr(v, k) => N::Arr(v.into_iter().map(fold).collect(), k),
        N::Code(v, p) => N::Code(v.into_iter().map(|s| match s { NS::Set(l, n, e, p) => NS::Set(l, n, fold(e), p), NS::Do(e) => NS::Do(fold(e)) }).collect(), p),
        N::Un(c, x, p) => {
            let x = fold(*x);
            match (c.as_str(), &x) {
                ("-", N::Num(a)) => N::Num(-a),
                ("sqrt", N::Num(a)) if a.sqrt().is_finite() => N::Num(a.sqrt()),
                ("tolower" | "toloweransi", N::Str(s)) if s.is_ascii() => N::Str(s.to_ascii_lowercase()),
                ("toupper" | "toupperansi", N::Str(s)) if s.is_ascii() => N::Str(s.to_ascii_uppercase()),
                ("+", N::Arr(..)) => x,
                _ => N::Un(c, Box::new(x), p),
            }
        }
        N::Bin(c, a, b, p) => {
            let (a, b) = (fold(*a), fold(*b));
            let num = match (c.as_str(), &a, &b) {
                ("+", N::Num(x), N::Num(y)) => Some(x + y),
                ("-", N::Num(x), N::Num(y)) => Some(x - y),
                ("*", N::Num(x), N::Num(y)) => Some(x * y),
                ("/", N::Num(x), N::Num(y)) => Some(x / y),
                ("%" | "mod", N::Num(x), N::Num(y)) => Some(x % y),
                _ => None,
            };
            if let Some(x) = num { if x.is_finite() { return N::Num(x); } }
            match (c.as_str(), &a, &b) {
                ("+", N::Str(x), N::Str(y)) => return N::Str([&x[..], &y[..]].concat()),
                ("else", N::Code(..), N::Code(..)) => return N::Arr(vec![a, b], false),
                ("call", N::Var(v, _), _) if v == "_this" => return N::Un(c, Box::new(b), p),
                _ => {}
            }
            N::Bin(c, Box::new(a), Box::new(b), p)
        }
        n => n,
    }
}
/// What the program should be compiled to.
struct Want<'a> { toks: &'a [(usize, usize)], text: &'a str, codes: std::vec::IntoIter<(u32, u32)>, shift: usize }
impl Want<'_> {
    fn pos(&self, m: &Mark) -> Pos { let (f, l, t) = m.get(); Some((self.toks[t].0 as u32, f as u8, (l + if f == 0 { self.shift } else { 0 }) as u16)) }
    fn e(&mut self, e: &E) -> N {
        match e {
            E::Num(x, _) => N::Num(*x),
            E::Str(s, _) => N::Str(s.clone().into_bytes()),
            E::Bool(b) => N::Bool(*b),
            E::Arr(v) => N::Arr(v.iter().map(|x| self.e(x)).collect(), false),
            E::Nul(n, m) => N::Nul(n.to_lowercase(), self.pos(m)),
            E::Var(n, m) => N::Var(n.to_lowercase(), self.pos(m)),
            E::Un(n, x, m) => N::Un(n.to_lowercase(), Box::new(self.e(x)), self.pos(m)),
            E::Bin(n, _, a, b, m) => { let a = self.e(a); let b = self.e(b); N::Bin(if *n == "and" { "&&".into() } else { n.to_lowercase() }, Box::new(a), Box::new(b), self.pos(m)) }
            E::Code(v) => { let at = self.codes.next().unwrap_or((0, 0)); N::Code(self.body(v), at) }
        }
    }
    fn body(&mut self, v: &[S]) -> Vec<NS> {
        v.iter().map(|s| match s { S::Do(e) => NS::Do(self.e(e)), S::Set(l, n, e, m) => NS::Set(*l, n.to_lowercase(), self.e(e), self.pos(m)) }).collect()
    }
}
/// Where each block of code is in the text, from its first token to its last (without separators that separate nothing).
fn blocks(text: &str, t: &[(usize, usize)]) -> Vec<(u32, u32)> {
    let mut v = vec![];
    let mut open: Vec<usize> = vec![];
    let mut last: Option<&str> = None;
    let mut kept = 0;
    for (a, b) in t {
        let s = &text[*a..*b];
        if s == ";" && last.is_none_or(|l| l == ";" || l == "{") { if last.is_none() { last = Some(";"); } continue; }
        if s == "}" {
            if let Some(i) = open.pop() { let (from, n): &mut (u32, u32) = &mut v[i]; *n = if *n == u32::MAX { 0 } else { kept as u32 - *from }; }
        } else if let (Some("{"), Some(i)) = (last, open.last()) { v[*i] = (*a as u32, 0); }
        if s == "{" { open.push(v.len()); v.push((*a as u32, u32::MAX)); }
        last = Some(s);
        kept = *b;
    }
    v
}
fn alike(a: &[NS], b: &[NS]) -> Result<(), (String, String)> {
    fn no<T>(w: &str, d: String) -> Result<T, (String, String)> { Err((w.to_string(), d)) }
    fn at(a: &Pos, b: &Pos, what: &str) -> Result<(), (String, String)> {
        match (a, b) { (Some(x), Some(y)) if x != y => no(if x.1 != y.1 { "the file of an instruction" } else if x.2 != y.2 { "the line of an instruction" } else { "the place of an instruction" }, format!("{what}: {x:?}, compiled {y:?}")), _ => Ok(()) }
    }
    fn ex(a: &N, b: &N) -> Result<(), (String, String)> {
        match (a, b) {
            (N::Num(x), N::Num(y)) if x.to_bits() == y.to_bits() => Ok(()),
            (N::Str(x), N::Str(y)) if x == y => Ok(()),
            (N::Bool(x), N::Bool(y)) if x == y => Ok(()),
            (N::Arr(x, _), N::Arr(y, _)) if x.len() == y.len() => x.iter().zip(y).try_for_each(|(x, y)| ex(x, y)),
            (N::Nul(x, p), N::Nul(y, q)) if x == y => { if q.is_none() && !["nil", "objnull", "grpnull", "scriptnull"].contains(&y.as_str()) { return no("a command that has no fixed value", y.clone()); } at(p, q, x) }
            (N::Var(x, p), N::Var(y, q)) if x == y => at(p, q, x),
            (N::Un(c, x, p), N::Un(d, y, q)) if c == d => { at(p, q, c)?; ex(x, y) }
            (N::Bin(c, x, u, p), N::Bin(d, y, v, q)) if c == d => { at(p, q, c)?; ex(x, y)?; ex(u, v) }
            (N::Code(x, p), N::Code(y, q)) => { if if p.1 == 0 { q.1 != 0 } else { p != q } { return no("the text of a block", format!("{p:?}, compiled {q:?}")); } alike(x, y) }
            _ => no("a value", format!("{}\ncompiled {}", cut(a), cut(b))),
        }
    }
    if a.len() != b.len() { return no("the number of statements", format!("{}, compiled {}", a.len(), b.len())); }
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (NS::Do(x), NS::Do(y)) => ex(x, y)?,
            (NS::Set(l, n, x, p), NS::Set(m, o, y, q)) if l == m && n == o => { at(p, q, n)?; ex(x, y)?; }
            _ => return no("a statement", format!("{}\ncompiled {}", cut(x), cut(y))),
        }
    }
    Ok(())
}
fn cut(x: &impl std::fmt::Debug) -> String { format!("{x:?}").chars().take(600).collect() }

fn db() -> Arc<Database> {
    static D: OnceLock<Arc<Database>> = OnceLock::new();
    let _g = sim::hold();
    D.get_or_init(|| {
        let mut d = Database::a3(false);
        for c in ["param", "toLowerANSI", "toUpperANSI", "positionCameraToWorld", "throw"] { d.add_unary_command(c); }
        for c in ["param", "vectorDiff", "vectorDotProduct", "vectorCrossProduct", "getOrDefault", "deleteAt"] { d.add_binary_command(c); }
        Arc::new(d)
    }).clone()
}
fn open(fs: &SimFs) -> Result<WorkspacePath, Violation> {
    let l: vfs::VfsPath = fs.clone().into();
    must("opening a workspace", || Workspace::create(l.clone(), vec![(l.clone(), LayerType::Source)], None, true, &PDriveOption::Disallow))
}
enum Res { Io(String), Codes(Codes), Parsed(Processed, hemtt_sqf::Statements) }
fn parse(root: &WorkspacePath, path: &str) -> Result<Res, Violation> {
    let at = must("joining a path", || root.join(path))?;
    let p = match run("preprocessing", || Processor::run(&at).map_err(|e| e.1))? { Ok(p) => p, Err(hemtt_preprocessor::Error::Code(c)) => return Ok(Res::Codes(vec![c])), Err(e) => return Ok(Res::Io(e.to_string())) };
    Ok(match run("parsing a script", || hemtt_sqf::parser::run(&db(), &p))? { Ok(s) => Res::Parsed(p, s), Err(ParserError::LexingError(c) | ParserError::ParsingError(c)) => Res::Codes(c) })
}
fn lint(p: &Processed, s: &hemtt_sqf::Statements) -> Result<Codes, Violation> {
    static ADDON: OnceLock<Arc<Addon>> = OnceLock::new();
    let addon = {
        let _g = sim::hold();
        ADDON.get_or_init(|| {
            let d = simcore::scratch::Dir::new();
            d.put("addons/main/$PBOPREFIX$", "z\\abe\\addons\\main");
            let a = Addon::new(std::path::Path::new(&d.path), "main".into(), Location::Addons).expect("addon");
            Arc::new(a)
        }).clone()
    };
    run("checking a script", || hemtt_sqf::analyze::analyze(s, None, p, addon, db()))
}
fn show(cs: &Codes) -> Result<String, Violation> {
    let files = WorkspaceFiles::new();
    let mut o = String::new();
    for c in cs {
        o.push_str(&format!("{} {}\n", c.ident(), c.message()));
        if let Some(d) = run("asking for a diagnostic", || c.diagnostic())? {
            o.push_str(&run("rendering a diagnostic", || d.to_string(&files))?);
            let _ = run("making annotations", || d.to_annotations(&files))?;
        }
    }
    Ok(o)
}
fn emit(p: &Processed, s: &hemtt_sqf::Statements, plan: Plan) -> Result<(Result<(), String>, Vec<u8>, simcore::streams::Stats), Violation> {
    let (mut w, sink) = SimWriter::new(plan);
    let r = run("compiling a script", || s.clone().optimize().compile_to_writer(p, &mut w).map_err(|e| e.to_string()))?;
    let s = sink.lock().unwrap();
    Ok((r, s.data.clone(), s.stats.clone()))
}
/// Is this the program?
fn judge(g: &Prog, p: &Processed, bytes: &[u8]) -> Result<usize, Violation> {
    let c = match decode(bytes) { Ok(c) => c, Err(e) => return bad("a compiled script can not be read", format!("{e}\n{}", g.dump())) };
    let text = p.as_str();
    ensure!(c.text == text.as_bytes(), "a compiled script has another text", "{}\n{}", diff(&c.text, text.as_bytes()), g.dump());
    let t = lex(text);
    let same = t.len() == g.toks.len() && t.iter().zip(&g.toks).all(|((a, b), w)| text[*a..*b] == *w);
    ensure!(same, "the text of a script is not what was written", "{:?}\n{:?}\n{}", t.iter().map(|(a, b)| &text[*a..*b]).collect::<Vec<_>>(), g.toks, g.dump());
    let mut w = Want { toks: &t, text, codes: blocks(text, &t).into_iter(), shift: g.shift };
    let _ = w.text;
    let mut want = w.body(&g.body);
    // the order of the files is the order in which they are first read
    let mut seen: Vec<&str> = vec![];
    for f in &c.files { seen.push(f.rsplit(['/', '\\']).next().unwrap_or("")); }
    let idx = |f: usize| seen.iter().position(|s| *s == ["fn.sqf", "inc.hpp"][f]);
    let map = [idx(0), idx(1)];
    fn place(v: &mut [NS], map: &[Option<usize>; 2]) {
        fn p(x: &mut Pos, m: &[Option<usize>; 2]) { if let Some(x) = x { x.1 = m[x.1 as usize].map_or(255, |i| i as u8); } }
        fn e(n: &mut N, m: &[Option<usize>; 2]) {
            match n {
                N::Arr(v, _) => v.iter_mut().for_each(|x| e(x, m)),
                N::Code(v, _) => place(v, m),
                N::Nul(_, q) | N::Var(_, q) => p(q, m),
                N::Un(_, x, q) => { p(q, m); e(x, m); }
                N::Bin(_, a, b, q) => { p(q, m); e(a, m); e(b, m); }
                _ => {}
            }
        }
        for s in v { match s { NS::Do(n) => e(n, map), NS::Set(_, _, n, q) => { p(q, map); e(n, map); } } }
    }
    place(&mut want, &map);
    if let Err(e) = stmts_ok(&c.root) { return bad("an array that can be changed is shared", format!("{}\n{}", e.chars().take(400).collect::<String>(), g.dump())); }
    let f = |v: Vec<NS>| match fold(N::Code(v, (0, 0))) { N::Code(v, _) => v, _ => unreachable!() };
    if let Err((w, d)) = alike(&f(want), &f(c.root)) { return bad(format!("compiling changes {w}"), format!("{d}\n{}\ntext {text:?}", g.dump())); }
    Ok(c.ins)
}
fn good(g: &Prog, root: &WorkspacePath) -> Result<(Processed, hemtt_sqf::Statements), Violation> {
    match parse(root, "addons/main/fn.sqf")? {
        Res::Parsed(p, s) => Ok((p, s)),
        Res::Io(e) => bad("a script can not be read", format!("{e}\n{}", g.dump())),
        Res::Codes(c) => bad("a script that is right is refused", format!("{}\n{}", show(&c)?, g.dump())),
    }
}
fn compile() -> Verdict {
    let g = program(pick(&[12, 30, 70]));
    let fs = g.fs();
    fs.with(|s| s.benign = Some(Plan::benign()));
    let root = open(&fs)?;
    let (p, s) = good(&g, &root)?;
    let (r, b, st) = emit(&p, &s, Plan::benign())?;
    if let Err(e) = r { return bad("a script that is right is not compiled", format!("{e}\n{}", g.dump())); }
    ensure!(st.hard == 0, "harness", "{st:?}");
    let n = judge(&g, &p, &b)?;
    let codes = lint(&p, &s)?;
    let text = show(&codes)?;
    Ok(Info { nontrivial: n > 4, key: g.key(), sample: Some(format!("{n} instructions, {} bytes, {} notes of {} chars", b.len(), codes.len(), text.len())) })
}
fn streams() -> Verdict {
    let g = program(30);
    let fs = g.fs();
    if fault(3) == 0 {
        // the sources fail
        let k = fault(6);
        fs.with(|s| s.faults.push(VFault { mask: simcore::simvfs::OPEN | simcore::simvfs::READ, nth: k, sticky: fault(2) == 0, path: None, seen: 0, fired: 0, plan: Some({ let mut p = Plan::failing(g.main.len() as u64, false); if let Some(f) = &mut p.fail_at_byte { f.1 = simcore::streams::Fail::Error; } p }) }));
        let root = open(&fs)?;
        let mut hit = false;
        match parse(&root, "addons/main/fn.sqf")? {
            Res::Parsed(p, s) => { let (r, b, _) = emit(&p, &s, Plan::default())?; if let Err(e) = r { return bad("a script that is right is not compiled", format!("{e}\n{}", g.dump())); } judge(&g, &p, &b)?; }
            Res::Io(_) | Res::Codes(_) => { hit = true; ensure!(fs.with(|s| s.faults[0].fired) > 0, "a script that is right is refused", "{}", g.dump()); }
        }
        return Ok(Info { nontrivial: hit, key: mix(g.key(), k), sample: None });
    }
    let root = open(&fs)?;
    let (p, s) = good(&g, &root)?;
    let (r, b, _) = emit(&p, &s, Plan::default())?;
    if let Err(e) = r { return bad("a script that is right is not compiled", format!("{e}\n{}", g.dump())); }
    let (r, c, st) = emit(&p, &s, Plan::failing(b.len() as u64, true))?;
    if r.is_ok() { ensure!(c == b, "compiling reports success although data is missing", "{}; {st:?}", diff(&c, &b)); }
    else { ensure!(st.hard > 0, "compiling fails although nothing is wrong", "{r:?}"); }
    Ok(Info { nontrivial: r.is_err(), key: mix(g.key(), hash_bytes(1, &c)), sample: None })
}
fn threads() -> Verdict {
    let gs: Vec<Prog> = (0..2 + gen(2)).map(|_| program(14)).collect();
    let fs = SimFs::new();
    for (i, g) in gs.iter().enumerate() { fs.put(&format!("a{i}/fn.sqf"), g.main.as_bytes()); if let Some(x) = &g.inc { fs.put(&format!("a{i}/inc.hpp"), x.as_bytes()); } }
    fs.with(|s| { s.shuffle = true; s.benign = Some(Plan::benign()); });
    let root = open(&fs)?;
    { let f = SimFs::new(); f.put("x.sqf", b"x = 1;"); let r = open(&f)?; parse(&r, "x.sqf")?; }
    sim::set_opts(|o| { o.alloc_gap = 60; o.io_gap = 2; });
    let hs: Vec<_> = (0..gs.len()).map(|i| { let r = root.clone(); std::thread::spawn(move || match parse(&r, &format!("a{i}/fn.sqf"))? { Res::Parsed(p, s) => { let x = emit(&p, &s, Plan::default())?; Ok((p, x.0, x.1)) } Res::Io(e) => bad("a script can not be read", e), Res::Codes(c) => bad("a script that is right is refused", show(&c)?) }) }).collect();
    let rs: Vec<_> = hs.into_iter().map(std::thread::JoinHandle::join).collect();
    sim::set_opts(|o| { o.alloc_gap = 0; o.io_gap = 0; });
    sim::reseed_env(env(1 << 40));
    let mut k = 0;
    for (i, r) in rs.into_iter().enumerate() {
        let (p, r, b) = r.map_err(|_| Violation { sig: "compiling a script panics".into(), detail: String::new() })??;
        if let Err(e) = r { return bad("a script that is right is not compiled", e); }
        judge(&gs[i], &p, &b)?;
        let (q, s) = match parse(&root, &format!("a{i}/fn.sqf"))? { Res::Parsed(p, s) => (p, s), _ => return bad("a script that is right is refused", gs[i].dump()) };
        let (_, c, _) = emit(&q, &s, Plan::default())?;
        ensure!(b == c, "compiling twice gives different bytes", "{}\n{}", diff(&b, &c), gs[i].dump());
        k = mix(k, gs[i].key());
    }
    Ok(Info { nontrivial: true, key: k, sample: None })
}
/// Scripts that are wrong: refused with an error that can be shown, or compiled to something that can be read.
fn mangled() -> Verdict {
    let mut g = program(16);
    const ODD: [&str; 40] = ["(", ")", "[", "]", "{", "}", ";", ",", "=", "==", "#", ":", "!", "-", "+", "\"", "'", "@", "~", "\\", "1", "0x", "1e", "1.2.3", "4294967296", "private", "else", "params", "nil", "true", "/", "&", "|", "ü", "🤔", "/*", "//", "$", "..", "\u{0}"];
    let n = 1 + gen(4);
    for _ in 0..n {
        let t = if g.inc.is_some() && genp(1, 4) { g.inc.as_mut().unwrap() } else { &mut g.main };
        let mut cs: Vec<char> = t.chars().collect();
        let at = gen(cs.len() as u64 + 1) as usize;
        match gen(5) {
            0 | 1 => { for (i, c) in ODD[gen(40) as usize].chars().enumerate() { cs.insert(at + i, c); } }
            2 => { let m = (1 + gen(12) as usize).min(cs.len() - at); cs.drain(at..at + m); }
            3 => { cs.truncate(at); }
            _ => { let m = (1 + gen(20) as usize).min(cs.len() - at); let c = cs[at..at + m].to_vec(); let to = gen(cs.len() as u64 + 1) as usize; for (i, c) in c.into_iter().enumerate() { cs.insert(to + i, c); } }
        }
        *t = cs.into_iter().collect();
    }
    let root = open(&g.fs())?;
    let mut refused = false;
    match parse(&root, "addons/main/fn.sqf")? {
        Res::Io(e) => return bad("a script can not be read", format!("{e}\n{}", g.dump())),
        Res::Codes(c) => {
            refused = true;
            ensure!(!c.is_empty(), "a script is refused without an error", "{}", g.dump());
            show(&c)?;
            for x in &c { ensure!(x.diagnostic().is_some(), "an error has no diagnostic", "{} {}\n{}", x.ident(), x.message(), g.dump()); }
        }
        Res::Parsed(p, s) => {
            let c = lint(&p, &s)?;
            show(&c)?;
            let (r, b, _) = emit(&p, &s, Plan::default())?;
            if r.is_ok() { if let Err(e) = decode(&b) { return bad("a compiled script can not be read", format!("{e}\n{}", g.dump())); } }
        }
    }
    Ok(Info { nontrivial: refused, key: g.key(), sample: None })
}
/// A script with one mistake: it is reported where it is.
fn mistake() -> Verdict {
    let w = pick(&["@", "~", "?", "`", ")", "]", "}", ",", "=", "%"]);
    let g = with(30, Some(w));
    let Some((file, at)) = g.wrong else { return Ok(Info::default()) };
    let root = open(&g.fs())?;
    let cs = match parse(&root, "addons/main/fn.sqf")? {
        Res::Codes(c) => c,
        Res::Io(e) => return bad("a script can not be read", format!("{e}\n{}", g.dump())),
        Res::Parsed(..) => return bad("a script that is wrong is accepted", format!("{w} at {at} in\n{}", g.dump())),
    };
    show(&cs)?;
    let want = if "@~?`".contains(w) { "SPE1" } else { "SPE2" };
    let name = ["addons/main/fn.sqf", "addons/main/inc.hpp"][file];
    // an operator may go on: what is wrong then is what follows
    let loose = "=%".contains(w);
    let hit = cs.iter().any(|c| c.ident() == want && c.diagnostic().is_some_and(|d| d.labels.iter().any(|l| loose || (l.file().as_str().trim_start_matches('/') == name && l.to_codespan().range.start == at))));
    ensure!(hit, format!("a mistake in a script is reported at the wrong place ({want})"), "{w} at {at} of {name}: {}\n{}", cs.iter().map(|c| format!("{} {:?}", c.ident(), c.diagnostic().map(|d| d.labels.iter().map(|l| (l.file().as_str().to_string(), l.to_codespan().range)).collect::<Vec<_>>()))).collect::<Vec<_>>().join("; "), g.dump());
    Ok(Info { nontrivial: true, key: g.key(), sample: None })
}
/// Near the limits of the format.
fn large() -> Verdict {
    let n = 65_533 + gen(6) as usize;
    let kind = gen(3);
    let item = |i: usize| match kind { 0 => "1".to_string(), 1 => format!("{i}"), _ => "_x".into() };
    let few = match kind { 0 => n, 1 => n / 40, _ => n / 20 };
    let text = if kind == 1 { format!("x = random [{}];", (0..few).map(item).collect::<Vec<_>>().join(",")) } else { format!("x = [{}];", (0..few).map(item).collect::<Vec<_>>().join(",")) };
    let fs = SimFs::new();
    fs.put("x.sqf", text.as_bytes());
    let root = open(&fs)?;
    let Res::Parsed(p, s) = parse(&root, "x.sqf")? else { return bad("a script that is right is refused", format!("{n} elements")) };
    let (r, b, _) = emit(&p, &s, Plan::default())?;
    match r {
        Ok(()) => {
            let c = match decode(&b) { Ok(c) => c, Err(e) => return bad("a compiled script can not be read", format!("{e}, {n} elements")) };
            let k = match &c.root[..] { [NS::Set(false, _, N::Arr(v, _), _)] => v.len(), [NS::Set(false, _, N::Un(_, x, _), _)] => match &**x { N::Arr(v, _) => v.len(), _ => 0 }, _ => 0 };
            ensure!(k == few, "compiling changes a value", "{few} elements become {k}");
        }
        Err(e) => ensure!(few > 65_535, "a script that is right is not compiled", "{e}, {n} elements"),
    }
    Ok(Info { nontrivial: true, key: mix(n as u64, kind), sample: None })
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "P28",
        rule: "an independent decoder of the compiled form yields the generated program (both sides with fixed values worked out by the same rules), the line and place of every instruction, and no shared array a script could change; scripts that are wrong are refused with an error",
        real: &["hemtt-sqf (lexer, parser, optimiser, compiler, serialiser, lints)", "hemtt-preprocessor", "hemtt-workspace", "hemtt-lzo"],
        stub: &["the Arma 3 wiki database (a fixed selection of commands)", "source files live in a simulated file system", "the destination is a simulated stream", "thread scheduling, hash seeds"],
        assumptions: &["the pair of code blocks `else` makes is not changed by the script", "the game evaluates arithmetic on finite numbers in single precision"],
        level: "tested-random",
        scenarios: vec![Scenario::new("compile", 9_000, 400_000, compile), Scenario::new("streams", 3_000, 150_000, streams), Scenario::new("threads", 1_000, 60_000, threads), Scenario::new("mangled", 8_000, 400_000, mangled), Scenario::new("mistake", 3_000, 100_000, mistake), Scenario { patience: 200, ..Scenario::new("large", 6, 40, large) }],
    }]
}
