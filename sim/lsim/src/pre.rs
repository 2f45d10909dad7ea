//! P08, P09, P10: the preprocessor, against an evaluator of the program's structure (it never looks at the text).
use crate::util::*;
use hemtt_common::config::PDriveOption;
use hemtt_preprocessor::Processor;
use hemtt_workspace::reporting::{Code, Diagnostic, Mapping, Processed, WorkspaceFiles};
use hemtt_workspace::{LayerType, Workspace, WorkspacePath};
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::sim;
use simcore::simvfs::SimFs;
use simcore::streams::Plan;
use simcore::tape::{hash_str, mix};
use simcore::{ensure, env, gen, genp};
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub type At = (u32, u32);
pub struct Tk { t: T, at: Cell<At> }
enum T {
    /// copied as it is
    Lit(String),
    Sp(usize),
    Nl,
    Cm(String),
    Use(usize),
    Call(usize, Vec<Vec<Tk>>),
    Par(usize),
    HPar(usize),
    Join,
    Cont,
    Bi(&'static str),
}
fn tk(t: T) -> Tk { Tk { t, at: Cell::new((0, 0)) } }
fn lit(s: impl Into<String>) -> Tk { tk(T::Lit(s.into())) }

/// What every definition of one macro name has in common.
struct Name { text: String, kind: Kind }
#[derive(Clone, PartialEq)]
enum Kind { Flag, Val, Obj { quotes: bool }, Fun { stringy: Vec<bool>, quotes: bool } }
struct Def { name: usize, params: Vec<String>, body: Vec<Tk>, tail: Tail, spaced: bool }
enum Opnd { Name(usize), Lit(String) }
enum Cond { Def(usize), Ndef(usize), Cmp(Opnd, &'static str, Opnd), Is(usize) }
enum Item {
    Text(Vec<Tk>),
    Define(Rc<Def>),
    Undef(usize),
    If(Cond, Vec<It>, Option<Vec<It>>),
    Include(usize, String, bool),
    Pragma(String),
    Note(String),
    /// inside a branch that is never read: any line
    Junk(String),
    Mistake(String),
}
/// what follows on the line
#[derive(Clone)]
enum Tail { None, Space, Line(String), Block(String) }
struct It { indent: String, item: Item, tail: Tail }
pub struct File { pub path: String, items: Vec<It>, guard: Option<usize>, crlf: bool, last_nl: bool, pub text: String }
pub struct Prog { names: Vec<Name>, pub files: Vec<File>, mistakes: bool }

const MACROS: [&str; 14] = ["AB", "A", "GVAR", "QUOTE", "x1", "_u", "A_B", "ADDON", "FOO", "ifx", "Ab", "ABC", "M", "DOUBLES"];
const PARAMS: [&str; 5] = ["x", "y", "var1", "NAME", "_"];
const WORDS: [&str; 8] = ["alpha", "b_2", "Class", "value", "ABCD", "A1", "über", "define"];
const PATHS: [&str; 7] = ["addons/main/config.cpp", "addons/main/script_component.hpp", "addons/main/sub/x.hpp", "include/x/cba/macros.hpp", "addons/ü x/deep/y.hpp", "script_macros.hpp", "addons/main/sub/more/x.hpp"];

struct G<'a> { names: &'a [Name], known: Vec<usize>, cyclic: bool }
struct Ctx<'a> { params: Option<(&'a [String], &'a [bool])>, below: usize, noquote: bool, depth: u32, text: bool, arg: bool }

fn comment_text() -> String {
    pick(&["note", "A AB(1)", "it's", "say \"hi\"", "glob data/*.paa", "#define A 9", "end */ here", "/* open", "ü€", "x ## y", "a // b", "\\path\\x", "", "#endif"]).to_string()
}
fn block() -> String {
    let mut s = comment_text().replace("*/", "*").replace("/*", "/ *");
    if genp(1, 4) { s.push('\n'); s.push_str(&comment_text().replace("*/", "*").replace("/*", "/ *")); }
    format!("/*{s} */")
}
fn tail() -> Tail {
    match gen(10) { 0..=5 => Tail::None, 6 => Tail::Space, 7 | 8 => Tail::Line(format!("//{}", comment_text())), _ => Tail::Block(block()) }
}
fn string(text: bool) -> String {
    let s = pick(&["text", "A", "AB(1, 2)", "it's", "a // b", "a /* b */ c", "data/*.paa", "x */ y", "#define A 1", "a ## b", "a, b", "(", "", "say \"\"hi\"\"", "ü € 🤔", "\\z\\abe\\x.paa", "#(argb,8,8,3)color(0,0,0,1)", "two  spaces", "one\n A two"]);
    let s = if text { s } else { s.trim_start_matches("one\n") };
    format!("\"{s}\"")
}
fn single() -> String { format!("'{}'", pick(&["text", "a // b", "a /* b */ c", "a ## b", "über", ""])) }
fn number() -> String { pick(&["1", "0", "42", "007", "3.5", "-1", "65535"]).to_string() }

impl G<'_> {
    fn pick_name(&self, ok: impl Fn(usize, &Kind) -> bool) -> Option<usize> {
        let v: Vec<usize> = (0..self.names.len()).filter(|i| ok(*i, &self.names[*i].kind)).collect();
        if v.is_empty() { return None; }
        let k: Vec<usize> = v.iter().copied().filter(|i| self.known.contains(i)).collect();
        if !k.is_empty() && !genp(1, 24) { return Some(k[gen(k.len() as u64) as usize]); }
        if genp(1, 8) { Some(v[gen(v.len() as u64) as usize]) } else { None }
    }
    fn elem(&self, c: &Ctx, out: &mut Vec<Tk>) -> bool {
        // true: the element is like a word at both ends
        let n = match gen(20) { k @ 0..=3 => k, k => k };
        match n {
            0..=2 => { out.push(lit(if c.params.is_none() && genp(1, 3) { PARAMS[gen(3) as usize] } else { WORDS[gen(WORDS.len() as u64) as usize] })); true }
            3 => { out.push(lit(number())); true }
            4..=6 => match c.params {
                Some((p, s)) if !p.is_empty() => {
                    let i = gen(p.len() as u64) as usize;
                    if s[i] && !c.noquote && !c.arg && genp(2, 3) { out.push(tk(T::HPar(i))); true } else { out.push(tk(T::Par(i))); true }
                }
                _ => { out.push(lit("word")); true }
            },
            7 | 8 => match self.pick_name(|i, k| i < c.below && (*k == Kind::Val || matches!(k, Kind::Obj { quotes } if !(c.noquote && *quotes))) && !c.params.is_some_and(|(p, _)| p.contains(&self.names[i].text))) {
                Some(i) => { out.push(tk(T::Use(i))); true }
                _ => { out.push(lit("plain")); true }
            },
            9..=12 if c.depth < 3 => {
                match self.pick_name(|i, k| i < c.below && matches!(k, Kind::Fun { quotes, .. } if !(c.noquote && *quotes)) && !c.params.is_some_and(|(p, _)| p.contains(&self.names[i].text))) {
                    None => { out.push(lit("f")); out.push(lit("(")); out.push(lit("q")); out.push(lit(")")); false }
                    Some(i) => {
                        let Kind::Fun { stringy, .. } = &self.names[i].kind else { unreachable!() };
                        let n = stringy.len();
                        let args = (0..n).map(|k| {
                            let mut a = vec![];
                            if k + 1 < n && genp(1, 12) { return a; }
                            if genp(1, 8) { a.push(tk(T::Sp(1))); }
                            let cc = Ctx { params: c.params, below: c.below, noquote: c.noquote || stringy[k], depth: c.depth + 1, text: c.text, arg: true };
                            self.seq(&cc, 1 + gen(3), &mut a);
                            if c.text && genp(1, 16) { a.push(tk(T::Nl)); }
                            if c.text && genp(1, 16) { a.push(tk(T::Sp(1))); a.push(tk(T::Cm(format!("//{}", comment_text())))); a.push(tk(T::Nl)); }
                            a
                        }).collect();
                        out.push(tk(T::Call(i, args)));
                        false
                    }
                }
            }
            13 if !c.noquote => { out.push(lit(string(c.text))); false }
            14 => { out.push(lit(single())); false }
            15 => {
                let b = pick(&["__LINE__", "__COUNTER__", "__FILE__", "__COUNTER_RESET__", "__FILE_NAME__", "__FILE_SHORT__", "__ARMA__"]);
                // one built-in name in four, and none that brings quotes where none may be
                if b == "__ARMA__" || (c.noquote && b == "__FILE__") { out.push(lit("w")); } else { out.push(tk(T::Bi(b))); }
                true
            }
            16 if !c.arg => { out.push(lit("(")); self.seq(&Ctx { depth: c.depth + 1, ..*c }, 1, out); out.push(lit(")")); false }
            17 if c.text && !c.arg => { out.push(lit(pick(&["w", "\"text\"", "]", "w", "'a'"]))); out.push(lit(pick(&["#", " #", "# ", " # "]))); out.push(lit(number())); true }
            _ => { out.push(lit(pick(&[";", "=", "{", "}", "[", "]", ":", "+", "<", ">", "!", "\\p", "%", "€", "-"]))); false }
        }
    }
    fn seq(&self, c: &Ctx, n: u64, out: &mut Vec<Tk>) {
        let mut wordy = false;
        for i in 0..n {
            let mut e = vec![];
            let w = self.elem(c, &mut e);
            let blank_first = matches!(e.first().map(|t| &t.t), Some(T::Lit(s)) if s.starts_with(|ch: char| ch.is_alphanumeric() || ch == '_' || ch == '-')) || matches!(e.first().map(|t| &t.t), Some(T::Use(_) | T::Call(..) | T::Par(_) | T::Bi(_)));
            if i > 0 {
                if wordy && blank_first {
                    // pasting two words, or separating them
                    if !c.arg && (c.text || c.params.is_some()) && genp(1, 3) && !matches!(out.last().map(|t| &t.t), Some(T::HPar(_))) { for _ in 0..1 + gen(2) { out.push(tk(T::Join)); } }
                    else { out.push(tk(T::Sp(1 + gen(2) as usize))); }
                } else if genp(2, 3) { out.push(tk(T::Sp(1))); }
            }
            // a comment stands between blanks
            if !c.arg && genp(1, 24) { out.push(tk(T::Sp(1))); out.push(tk(T::Cm(if c.text { block() } else { "/* c */".into() }))); out.push(tk(T::Sp(1))); }
            // a backslash, digit or sign never touches what came before or after in a way that changes its meaning
            wordy = w || matches!(e.last().map(|t| &t.t), Some(T::Lit(s)) if s.ends_with(|ch: char| ch.is_alphanumeric() || ch == '_'));
            out.append(&mut e);
        }
    }
    fn define(&self, i: usize) -> Item {
        let spaced = genp(1, 6);
        let d = match &self.names[i].kind {
            Kind::Flag => Def { name: i, params: vec![], body: vec![], tail: Tail::None, spaced: false },
            Kind::Val => Def { name: i, params: vec![], body: vec![if genp(1, 6) { lit(WORDS[gen(4) as usize]) } else { lit(pick(&["1", "0", "2", "10", "9", "2.5"])) }], tail: tail_of_value(), spaced },
            Kind::Obj { quotes } => {
                let mut body = vec![];
                self.seq(&Ctx { params: None, below: if self.cyclic { self.names.len() } else { i }, noquote: !quotes, depth: 1, text: false, arg: false }, 1 + gen(4), &mut body);
                trim(&mut body);
                if genp(1, 8) { conts(&mut body); }
                if matches!(body.first().map(|t| &t.t), Some(T::Lit(s)) if s == "\\") { body.insert(0, lit("w")); }
                if matches!(body.last().map(|t| &t.t), Some(T::Lit(s)) if s == "\\") { body.push(lit("w")); }
                Def { name: i, params: vec![], body, tail: tail_of_body(), spaced }
            }
            Kind::Fun { stringy, quotes } => {
                let mut params: Vec<String> = vec![];
                for k in 0..stringy.len() {
                    let mut p = PARAMS[(gen(PARAMS.len() as u64 - 1)) as usize].to_string();
                    if genp(1, 12) { p = MACROS[gen(MACROS.len() as u64) as usize].to_string(); }
                    while params.contains(&p) || p == self.names[i].text { p = format!("p{k}_"); }
                    params.push(p);
                }
                let mut body = vec![];
                self.seq(&Ctx { params: Some((&params, stringy)), below: if self.cyclic { self.names.len() } else { i }, noquote: !quotes, depth: 1, text: false, arg: false }, gen(6), &mut body);
                trim(&mut body);
                if genp(1, 8) { conts(&mut body); }
                if matches!(body.last().map(|t| &t.t), Some(T::Lit(s)) if s == "\\") { body.push(lit("w")); }
                Def { name: i, params, body, tail: tail_of_body(), spaced }
            }
        };
        Item::Define(Rc::new(d))
    }
}
fn trim(b: &mut Vec<Tk>) {
    while matches!(b.last().map(|t| &t.t), Some(T::Sp(_) | T::Cm(_) | T::Join)) { b.pop(); }
    while matches!(b.first().map(|t| &t.t), Some(T::Sp(_) | T::Cm(_) | T::Join)) { b.remove(0); }
}
fn conts(b: &mut Vec<Tk>) {
    // a line break in front of one of the blanks at the top level
    if let Some(i) = b.iter().position(|t| matches!(t.t, T::Sp(_))) { b.insert(i, tk(T::Cont)); b.insert(i, tk(T::Sp(1))); }
}
fn tail_of_value() -> Tail { match gen(6) { 0..=2 => Tail::None, 3 => Tail::Space, 4 => Tail::Line(format!("//{}", comment_text().trim_end_matches('\\'))), _ => Tail::Block("/* c */".into()) } }
fn tail_of_body() -> Tail { match gen(6) { 0..=3 => Tail::None, 4 => Tail::Line(format!("//{}", comment_text().trim_end_matches('\\'))), _ => Tail::Block("/* c */".into()) } }

struct Gen { cyclic: bool, names: Vec<Name>, known: Vec<usize>, nfiles: usize, guards: Vec<Option<usize>>, budget: u32, paths: Vec<String>, mistakes: bool }
impl Gen {
    fn g(&self) -> G<'_> { G { names: &self.names, known: self.known.clone(), cyclic: self.cyclic } }
    fn cond(&self) -> Cond {
        let vals: Vec<usize> = (0..self.names.len()).filter(|i| self.names[*i].kind == Kind::Val).collect();
        let any = gen(self.names.len().max(1) as u64) as usize;
        match gen(6) {
            k if k < 3 || vals.is_empty() => if k % 2 == 0 { Cond::Def(any) } else { Cond::Ndef(any) },
            k => {
                let known: Vec<usize> = vals.iter().copied().filter(|v| self.known.contains(v)).collect();
                if known.is_empty() && !self.mistakes { return Cond::Ndef(any); }
                let v = if known.is_empty() { vals[gen(vals.len() as u64) as usize] } else { known[gen(known.len() as u64) as usize] };
                if k == 3 { return Cond::Is(v); }
                let op = pick(&["==", "!=", ">", "<", ">=", "<="]);
                let l = if !known.is_empty() && genp(1, 4) { Opnd::Name(known[gen(known.len() as u64) as usize]) } else { Opnd::Lit(pick(&["1", "0", "2", "10", "2.5", "-1"]).into()) };
                if genp(1, 2) { Cond::Cmp(Opnd::Name(v), op, l) } else { Cond::Cmp(l, op, Opnd::Name(v)) }
            }
        }
    }
    fn spelling(&self, from: usize, to: usize) -> String {
        let dir: Vec<&str> = self.paths[from].split('/').collect();
        let dir = &dir[..dir.len() - 1];
        let t: Vec<&str> = self.paths[to].split('/').collect();
        let mut s = match gen(3) {
            0 | 1 => {
                let c = dir.iter().zip(&t[..t.len() - 1]).take_while(|(a, b)| a == b).count();
                let mut v = vec![".."; dir.len() - c];
                v.extend(&t[c..]);
                v.join("/")
            }
            _ => format!("/{}", self.paths[to]),
        };
        if genp(1, 2) { s = s.replace('/', "\\"); }
        s
    }
    fn items(&mut self, file: usize, n: u64, depth: u32) -> Vec<It> {
        let mut v = vec![];
        for _ in 0..n {
            if self.budget == 0 { break; }
            self.budget -= 1;
            let indent = pick(&["", "", "", "    ", "\t", " "]).to_string();
            let mut tl = tail();
            let item = match gen(16) {
                0..=4 => { let mut t = vec![]; self.g().seq(&Ctx { params: None, below: self.names.len(), noquote: false, depth: 0, text: true, arg: false }, 1 + gen(5), &mut t); if genp(1, 24) { t.push(tk(T::Sp(1))); t.push(tk(T::Cont)); t.push(lit("joined")); } if genp(1, 24) { t.insert(0, lit(pick(&["# ", "#(", "#1 ", "#\""]))); if matches!(&t[0].t, T::Lit(s) if s.ends_with('"')) { t.insert(1, lit("\"")); } if matches!(&t[0].t, T::Lit(s) if s.ends_with('(')) { t.insert(1, lit(")")); } } if matches!(t.last().map(|t| &t.t), Some(T::Lit(s)) if s == "\\") { t.push(lit("w")); } Item::Text(t) }
                5..=8 if !self.names.is_empty() => {
                    let i = gen(self.names.len() as u64) as usize;
                    let d = self.g().define(i);
                    if !self.known.contains(&i) { self.known.push(i); }
                    tl = Tail::None;
                    d
                }
                9 if !self.names.is_empty() => { let i = gen(self.names.len() as u64) as usize; self.known.retain(|k| *k != i); Item::Undef(i) }
                10 | 11 if depth < 3 && !self.names.is_empty() => {
                    let c = self.cond();
                    let before = self.known.clone();
                    let k = 1 + gen(3);
                    let a = self.items(file, k, depth + 1);
                    let after = std::mem::replace(&mut self.known, before);
                    let b = if genp(1, 2) { let k = gen(3); Some(self.items(file, k, depth + 1)) } else { None };
                    self.known.retain(|k| after.contains(k) || b.is_none());
                    Item::If(c, a, b)
                }
                12 | 13 => {
                    let to = gen(self.nfiles as u64) as usize;
                    if to > file || self.guards[to].is_some() { Item::Include(to, self.spelling(file, to), genp(1, 4)) } else { Item::Note(format!("//{}", comment_text())) }
                }
                14 => if genp(1, 3) { tl = Tail::None; Item::Pragma(pick(&["hemtt suppress pw3_padded_arg file", "hemtt flag pw3_ignore_format", "once", "hemtt suppress pw3_padded_arg"]).into()) } else { Item::Note(if genp(1, 2) { format!("//{}", comment_text()) } else { block() }) },
                // a branch that is never read may hold anything
                _ => if self.mistakes && genp(1, 6) {
                    tl = Tail::None;
                    Item::Mistake(pick(&["#foo", "#include \"nope.hpp\"", "#include nope.hpp", "#ifdef A\nx\n#else\ny\n#ifdef B\n#endif\n#else\nz\n#endif", "#ifdef A\n#else\n#else\n#endif", "#define __LINE__ 1", "#define 9 1", "#if 1 = 1\n#endif", "#if 1 === 1\n#endif", "__EXEC(x)", "#ifdef A x\n#endif", "#undef A B"]).into())
                } else if depth > 0 { tl = Tail::None; Item::Junk(pick(&["#foo bar", "x = \"A\";", "#include \"nope.hpp\"", "#pragma hemtt nope", "__EXEC(1)", "#undef", "A(1, 2", "#if 1 === 2\n#else\n#endif"]).into()) } else { Item::Note(block()) },
            };
            if matches!(item, Item::Note(_)) { tl = Tail::None; }
            v.push(It { indent, item, tail: tl });
        }
        v
    }
}
/// A project: the root file is number 0.
pub fn program(size: u64, mistakes: bool) -> Prog {
    let mistakes = mistakes && genp(1, 5);
    let nn = gen(8) as usize;
    let mut order: Vec<usize> = (0..MACROS.len()).collect();
    let names: Vec<Name> = (0..nn).map(|_| {
        let text = MACROS[order.remove(gen(order.len() as u64) as usize)].to_string();
        let kind = match gen(6) {
            0 | 1 => Kind::Obj { quotes: genp(1, 3) },
            2 => Kind::Val,
            3 => if genp(1, 2) { Kind::Flag } else { Kind::Val },
            _ => { let quotes = genp(1, 2); Kind::Fun { stringy: (0..gen(4)).map(|_| quotes && genp(1, 2)).collect(), quotes } }
        };
        Name { text, kind }
    }).collect();
    let nfiles = 1 + gen(4) as usize;
    let mut paths: Vec<String> = vec![];
    let mut free: Vec<&str> = PATHS[1..].to_vec();
    paths.push(PATHS[0].to_string());
    for _ in 1..nfiles { paths.push(free.remove(gen(free.len() as u64) as usize).to_string()); }
    let guards: Vec<Option<usize>> = (0..nfiles).map(|i| if i > 0 && genp(1, 3) { Some(i) } else { None }).collect();
    let mut g = Gen { cyclic: genp(1, 6), names, known: vec![], nfiles, guards: guards.clone(), budget: 60, paths: paths.clone(), mistakes };
    // included files first, so that the root file uses what they define
    let mut files: Vec<File> = vec![];
    for i in (0..nfiles).rev() {
        let n = 1 + gen(size);
        let items = g.items(i, n, 0);
        files.push(File { path: paths[i].clone(), items, guard: guards[i], crlf: genp(1, 6), last_nl: i > 0 || genp(3, 4), text: String::new() });
    }
    files.reverse();
    let mut p = Prog { names: g.names, files, mistakes };
    for i in 0..nfiles { p.emit(i); }
    p
}
impl Prog {
    fn emit(&mut self, i: usize) {
        let mut s = String::new();
        let f = &self.files[i];
        if f.guard.is_some() { s.push_str(&format!("#ifndef GUARD_{i}\n#define GUARD_{i}\n")); }
        self.emit_items(&f.items, i, &mut s);
        if f.guard.is_some() { s.push_str("#endif\n"); }
        if !f.last_nl { s.pop(); }
        if f.crlf { s = s.replace('\n', "\r\n"); }
        self.files[i].text = s;
    }
    fn emit_items(&self, items: &[It], f: usize, s: &mut String) {
        for it in items {
            s.push_str(&it.indent);
            match &it.item {
                Item::Text(t) => self.emit_toks(t, &[], f, s),
                Item::Define(d) => {
                    s.push_str("#define ");
                    if d.spaced { s.push(' '); }
                    s.push_str(&self.names[d.name].text);
                    match &self.names[d.name].kind {
                        Kind::Flag => {}
                        Kind::Fun { .. } => { s.push('('); s.push_str(&d.params.join(if d.spaced { ", " } else { "," })); s.push(')'); if !d.body.is_empty() { s.push(' '); } }
                        _ => s.push(' '),
                    }
                    self.emit_toks(&d.body, &d.params, f, s);
                    emit_tail(&d.tail, true, s);
                }
                Item::Undef(n) => s.push_str(&format!("#undef {}", self.names[*n].text)),
                Item::If(c, a, b) => {
                    let o = |o: &Opnd| match o { Opnd::Name(n) => self.names[*n].text.clone(), Opnd::Lit(l) => l.clone() };
                    s.push_str(&match c {
                        Cond::Def(n) => format!("#ifdef {}", self.names[*n].text),
                        Cond::Ndef(n) => format!("#ifndef {}", self.names[*n].text),
                        Cond::Cmp(l, op, r) => format!("#if {} {op} {}", o(l), o(r)),
                        Cond::Is(n) => format!("#if {}", self.names[*n].text),
                    });
                    emit_tail(&it.tail, false, s);
                    s.push('\n');
                    self.emit_items(a, f, s);
                    if let Some(b) = b { s.push_str(&it.indent); s.push_str("#else"); emit_tail(&it.tail, false, s); s.push('\n'); self.emit_items(b, f, s); }
                    s.push_str("#endif");
                }
                Item::Include(_, spelling, angle) => { let (a, b) = if *angle { ('<', '>') } else { ('"', '"') }; s.push_str(&format!("#include {a}{spelling}{b}")); }
                Item::Pragma(p) => s.push_str(&format!("#pragma {p}")),
                Item::Note(n) | Item::Junk(n) | Item::Mistake(n) => s.push_str(n),
            }
            emit_tail(&it.tail, false, s);
            s.push('\n');
        }
    }
    fn emit_toks(&self, v: &[Tk], params: &[String], f: usize, s: &mut String) {
        for t in v {
            t.at.set((f as u32, s.len() as u32));
            match &t.t {
                T::Lit(x) | T::Cm(x) => s.push_str(x),
                T::Sp(n) => (0..*n).for_each(|_| s.push(' ')),
                T::Nl => s.push('\n'),
                T::Use(n) => s.push_str(&self.names[*n].text),
                T::Call(n, args) => {
                    s.push_str(&self.names[*n].text);
                    s.push('(');
                    for (i, a) in args.iter().enumerate() { if i > 0 { s.push(','); } self.emit_toks(a, params, f, s); }
                    s.push(')');
                }
                T::Par(i) => s.push_str(&params[*i]),
                T::HPar(i) => { s.push('#'); s.push_str(&params[*i]); }
                T::Join => s.push_str("##"),
                T::Cont => s.push_str("\\\n"),
                T::Bi(b) => s.push_str(b),
            }
        }
    }
}
fn emit_tail(t: &Tail, tight: bool, s: &mut String) {
    match t { Tail::None => {} Tail::Space => s.push(' '), Tail::Line(c) | Tail::Block(c) => { if !tight { s.push(' '); } s.push_str(c); } }
}

// ---- the reference evaluator ----
#[derive(Clone)]
pub struct Out { pub ch: char, pub own: (u32, u32, u32), chain: Option<Rc<Link>>, cut: bool }
struct Link { at: (u32, u32, u32), up: Option<Rc<Link>>, old: Option<Rc<Link>> }
#[derive(Debug, Clone, PartialEq)]
pub enum Stop { Error(String), TooBig }
struct Ev<'a> { p: &'a Prog, defs: BTreeMap<usize, Rc<Def>>, guards: BTreeSet<usize>, counter: u32, out: Vec<Out>, reach: u64, steps: u64, used: BTreeSet<usize>, clean: Vec<String> }
struct Cx<'a> { args: Option<(&'a [Vec<Out>], &'a [Tk])>, site: Option<At>, chain: Option<Rc<Link>>, stack: Vec<usize> }
impl Ev<'_> {
    fn line_of(&self, at: At) -> usize { self.clean[at.0 as usize][..at.1 as usize].matches('\n').count() + 1 }
    fn toks(&mut self, v: &[Tk], c: &Cx, in_args: bool) -> Result<Vec<Out>, Stop> {
        let mut o: Vec<Out> = vec![];
        for t in v {
            self.steps += 1;
            if self.steps > 30_000 || o.len() > 30_000 { return Err(Stop::TooBig); }
            let at = t.at.get();
            let push = |o: &mut Vec<Out>, s: &str, len: usize| { for ch in s.chars() { o.push(Out { ch, own: (at.0, at.1, len as u32), chain: c.chain.clone(), cut: false }); } };
            match &t.t {
                // a literal may be several tokens: every character stands for itself
                T::Lit(s) => { for (i, ch) in s.char_indices() { o.push(Out { ch, own: (at.0, at.1 + i as u32, ch.len_utf8() as u32), chain: c.chain.clone(), cut: false }); } }
                T::Sp(n) => push(&mut o, &" ".repeat(*n), 0),
                T::Nl => push(&mut o, "\n", 0),
                T::Cm(_) | T::Join => {}
                T::Cont => if c.args.is_some() { push(&mut o, "\n", 0) },
                T::Bi(b) => {
                    let len = b.len();
                    let site = c.site.unwrap_or(at);
                    let path = &self.p.files[site.0 as usize].path;
                    let name = path.rsplit('/').next().unwrap();
                    let s = match *b {
                        "__LINE__" => self.line_of(site).to_string(),
                        "__COUNTER__" => { self.counter += 1; (self.counter - 1).to_string() }
                        "__COUNTER_RESET__" => { self.counter = 0; String::new() }
                        "__FILE__" => format!("\"\\{}\"", path.replace('/', "\\")),
                        "__FILE_NAME__" => name.to_string(),
                        _ => name.rsplit_once('.').unwrap().0.to_string(),
                    };
                    let k = o.len();
                    push(&mut o, &s, len);
                    let l = Rc::new(Link { at: (at.0, at.1, len as u32), up: c.chain.clone(), old: None });
                    for x in &mut o[k..] { x.chain = Some(l.clone()); }
                }
                T::Par(i) | T::HPar(i) => {
                    let hash = matches!(t.t, T::HPar(_));
                    let (vals, _) = c.args.unwrap();
                    if hash { push(&mut o, "\"", 1); }
                    let ident = (at.0, at.1 + u32::from(hash), 0);
                    for x in &vals[*i] { let mut x = x.clone(); x.cut = false; x.chain = Some(Rc::new(Link { at: ident, up: c.chain.clone(), old: x.chain.take() })); o.push(x); }
                    if hash { push(&mut o, "\"", 1); }
                }
                T::Use(n) | T::Call(n, _) => {
                    let name = self.p.names[*n].text.clone();
                    self.used.insert(*n);
                    let l = Rc::new(Link { at: (at.0, at.1, name.len() as u32), up: c.chain.clone(), old: None });
                    let args: Option<&Vec<Vec<Tk>>> = if let T::Call(_, a) = &t.t { Some(a) } else { None };
                    let site = c.site.unwrap_or(at);
                    match self.defs.get(n).filter(|_| !c.stack.contains(n)).cloned() {
                        None => {
                            let mut off = at.1;
                            for ch in name.chars() { o.push(Out { ch, own: (at.0, off, 1), chain: c.chain.clone(), cut: false }); off += ch.len_utf8() as u32; }
                            if let Some(args) = args {
                                o.push(Out { ch: '(', own: (at.0, off, 1), chain: c.chain.clone(), cut: false });
                                for (i, a) in args.iter().enumerate() {
                                    if i > 0 { o.push(Out { ch: ',', own: (u32::MAX, 0, 0), chain: None, cut: in_args }); }
                                    let mut x = self.toks(a, c, in_args)?;
                                    o.append(&mut x);
                                }
                                o.push(Out { ch: ')', own: (u32::MAX, 0, 0), chain: None, cut: false });
                            }
                        }
                        Some(d) => {
                            let k = o.len();
                            if let Some(args) = args {
                                let cc = Cx { args: c.args, site: Some(site), chain: c.chain.clone(), stack: c.stack.clone() };
                                let stack: Vec<usize> = c.stack.iter().copied().chain([*n]).collect();
                                let mut vals: Vec<Vec<Out>> = vec![];
                                for (i, a) in args.iter().enumerate() {
                                    let mut cur = vec![];
                                    for x in self.toks(a, &cc, true)? { if x.cut { vals.push(std::mem::take(&mut cur)); } else { cur.push(x); } }
                                    // blank only: that is something
                                    if i + 1 < args.len() || !a.is_empty() { vals.push(cur); }
                                }
                                if vals.len() != d.params.len() { return Err(Stop::Error(format!("{name} is called with {} of {} arguments", vals.len(), d.params.len()))); }
                                let mut x = self.toks(&d.body, &Cx { args: Some((&vals, &d.body)), site: Some(site), chain: Some(l.clone()), stack }, false)?;
                                o.append(&mut x);
                            } else {
                                let stack: Vec<usize> = c.stack.iter().copied().chain([*n]).collect();
                                let none: Vec<Vec<Out>> = vec![];
                                let mut x = self.toks(&d.body, &Cx { args: Some((&none, &d.body)), site: Some(site), chain: Some(l.clone()), stack }, false)?;
                                o.append(&mut x);
                                if matches!(d.tail, Tail::Space) { o.push(Out { ch: ' ', own: (u32::MAX, 0, 0), chain: None, cut: false }); }
                            }
                            for x in &mut o[k..] { x.cut = false; }
                        }
                    }
                }
            }
        }
        Ok(o)
    }
    fn operand(&self, o: &Opnd) -> String {
        match o {
            Opnd::Lit(s) => s.clone(),
            Opnd::Name(n) => match self.defs.get(n) { None => self.p.names[*n].text.clone(), Some(d) => match &d.body[0].t { T::Lit(s) => s.clone(), _ => unreachable!() } },
        }
    }
    fn file(&mut self, i: usize, depth: u32) -> Result<(), Stop> {
        if depth > 12 { return Err(Stop::TooBig); }
        let p = self.p;
        if let Some(g) = p.files[i].guard { if !self.guards.insert(g) { return Ok(()); } }
        self.items(&p.files[i].items, depth)
    }
    fn blank(&mut self) { self.out.push(Out { ch: '\n', own: (u32::MAX, 0, 0), chain: None, cut: false }); }
    fn items(&mut self, items: &[It], depth: u32) -> Result<(), Stop> {
        let p = self.p;
        for it in items {
            self.steps += 1;
            match &it.item {
                Item::Text(t) => { let mut x = self.toks(t, &Cx { args: None, site: None, chain: None, stack: vec![] }, false)?; self.out.append(&mut x); self.blank(); self.reach += 1; if self.out.len() > 60_000 { return Err(Stop::TooBig); } }
                Item::Define(d) => { self.defs.insert(d.name, d.clone()); }
                Item::Undef(n) => { self.defs.remove(n); }
                Item::If(c, a, b) => {
                    let yes = match c {
                        Cond::Def(n) => self.defs.contains_key(n),
                        Cond::Ndef(n) => !self.defs.contains_key(n),
                        Cond::Is(n) => { if !self.defs.contains_key(n) { return Err(Stop::Error("#if with an undefined macro".into())); } self.operand(&Opnd::Name(*n)) == "1" }
                        Cond::Cmp(l, op, r) => {
                            let (l, r) = (self.operand(l), self.operand(r));
                            match *op {
                                "==" => l == r,
                                "!=" => l != r,
                                op => {
                                    let (Ok(l), Ok(r)) = (l.parse::<f64>(), r.parse::<f64>()) else { return Err(Stop::Error("#if compares words by size".into())) };
                                    match op { ">" => l > r, "<" => l < r, ">=" => l >= r, _ => l <= r }
                                }
                            }
                        }
                    };
                    if yes { self.items(a, depth)?; } else if let Some(b) = b { self.items(b, depth)?; }
                }
                Item::Include(n, _, _) => { self.file(*n, depth + 1)?; self.reach += 1; }
                Item::Pragma(_) | Item::Note(_) => self.blank(),
                Item::Junk(j) => return Err(Stop::Error(format!("JUNK {j}"))),
                Item::Mistake(m) => return Err(Stop::Error(m.clone())),
            }
        }
        let _ = p;
        Ok(())
    }
}
pub struct Want { pub out: Vec<Out>, pub reach: u64, pub used: usize }
impl Prog {
    /// Source text as the tool sees it (line ends are single characters).
    pub fn clean(&self) -> Vec<String> { self.files.iter().map(|f| f.text.replace('\r', "")).collect() }
    pub fn eval(&self) -> Result<Want, Stop> {
        let mut e = Ev { p: self, defs: BTreeMap::new(), guards: BTreeSet::new(), counter: 0, out: vec![], reach: 0, steps: 0, used: BTreeSet::new(), clean: self.clean() };
        e.file(0, 0)?;
        Ok(Want { out: e.out, reach: e.reach, used: e.used.len() })
    }
    pub fn dump(&self) -> String { self.files.iter().map(|f| format!("=== {}\n{}\n", f.path, f.text)).collect() }
}
/// Blank runs outside of strings count as one blank.
pub fn normal(s: impl Iterator<Item = char>) -> String {
    let mut o = String::new();
    let mut q = false;
    let mut gap = false;
    for c in s {
        if !q && c.is_whitespace() { gap = true; continue; }
        if gap && !o.is_empty() { o.push(' '); }
        gap = false;
        if c == '"' { q = !q; }
        o.push(c);
    }
    o
}

// ---- running ----
pub fn place(p: &Prog, layers: usize) -> Vec<SimFs> {
    let fs: Vec<SimFs> = (0..layers).map(|_| SimFs::new()).collect();
    for f in &p.files {
        let l = if layers > 1 { gen(layers as u64) as usize } else { 0 };
        fs[l].put(&f.path, f.text.clone());
        // what lies below is hidden
        for k in l + 1..layers { if genp(1, 3) { fs[k].put(&f.path, "#error HIDDEN\nhidden\n"); } }
    }
    for f in &fs { f.mkdir("addons"); f.mkdir("include"); }
    fs
}
pub fn open(fs: &[SimFs]) -> Result<WorkspacePath, Violation> {
    let layers: Vec<vfs::VfsPath> = fs.iter().map(|f| f.clone().into()).collect();
    let root: vfs::VfsPath = if layers.len() == 1 { layers[0].clone() } else { vfs::OverlayFS::new(&layers).into() };
    let mut named: Vec<_> = layers.into_iter().map(|l| (l, LayerType::Source)).collect();
    named.reverse();
    must("opening a workspace", || Workspace::create(root, named, None, true, &PDriveOption::Disallow))
}
pub type Res = Result<Processed, hemtt_preprocessor::Error>;
pub fn preprocess(root: &WorkspacePath, path: &str) -> Result<Res, Violation> {
    let at = must("joining a path", || root.join(path))?;
    run("preprocessing", || Processor::run(&at).map_err(|e| e.1))
}
pub fn describe(e: &hemtt_preprocessor::Error) -> String {
    match e.get_code() { Some(c) => format!("{} {}", c.ident(), c.message()), None => e.to_string() }
}
fn judge(p: &Prog, want: &Result<Want, Stop>, got: &Res) -> Result<(), Violation> {
    match (want, got) {
        (Err(Stop::TooBig), _) => Ok(()),
        (Ok(w), Ok(g)) => {
            let a = normal(w.out.iter().map(|o| o.ch));
            let b = normal(g.as_str().chars());
            if a != b { return bad("preprocessing yields other text than specified", format!("expected\n{a}\ngot\n{b}\nfrom\n{}", p.dump())).map(|_: Info| ()); }
            Ok(())
        }
        // a second #else is a mistake in a branch that is not read, too
        (Ok(_), Err(e)) if p.mistakes && describe(e).starts_with("PE17") => Ok(()),
        (Ok(_), Err(e)) => bad("a correct source is rejected", format!("{} from\n{}", describe(e), p.dump())).map(|_: Info| ()),
        (Err(Stop::Error(x)), Ok(g)) => if x.starts_with("JUNK") { Ok(()) } else { bad("a mistake is accepted", format!("{x}: {:?} from\n{}", g.as_str(), p.dump())).map(|_: Info| ()) },
        (Err(Stop::Error(_)), Err(_)) => Ok(()),
    }
}
fn info(p: &Prog, want: &Result<Want, Stop>) -> Info {
    let key = mix(p.files.len() as u64, hash_str(&p.files.iter().map(|f| f.text.as_str()).collect::<String>()));
    match want {
        Ok(w) => Info { nontrivial: w.reach > 1 && w.used > 0, key, sample: Some(format!("{} files, {} macros used, {} characters", p.files.len(), w.used, w.out.len())) },
        Err(_) => Info { nontrivial: p.mistakes, key, sample: None },
    }
}
fn p08_program() -> Verdict {
    let p = program(8, true);
    let want = p.eval();
    let fs = place(&p, 1);
    let root = open(&fs)?;
    judge(&p, &want, &preprocess(&root, &p.files[0].path)?)?;
    Ok(info(&p, &want))
}
/// Layers, listing orders, chunked reads, and hash keys have no influence.
fn p08_layers() -> Verdict {
    let p = program(6, true);
    let want = p.eval();
    let fs = place(&p, 1 + gen(3) as usize);
    for f in &fs { f.with(|s| { s.shuffle = true; s.benign = Some(Plan::benign()); }); }
    let root = open(&fs)?;
    let got = preprocess(&root, &p.files[0].path)?;
    judge(&p, &want, &got)?;
    sim::reseed_env(env(1 << 40));
    let (r, path) = (root.clone(), p.files[0].path.clone());
    let again = std::thread::spawn(move || preprocess(&r, &path).map(|r| text(&r))).join().map_err(|_| Violation { sig: "preprocessing panics".into(), detail: String::new() })??;
    ensure!(again == text(&got), "a second run gives another result", "{:?} and {:?}", again, text(&got));
    Ok(info(&p, &want))
}
fn text(r: &Res) -> Result<String, String> { match r { Ok(p) => Ok(p.as_str().to_string()), Err(e) => Err(describe(e)) } }
/// Several sources of one workspace at the same time.
fn p08_threads() -> Verdict {
    let p = program(5, false);
    let want = p.eval();
    if want.is_err() { return Ok(Info::default()); }
    let fs = place(&p, 1 + gen(2) as usize);
    let root = open(&fs)?;
    let n = 2 + gen(3);
    sim::set_opts(|o| { o.alloc_gap = 40; o.io_gap = 2; });
    let hs: Vec<_> = (0..n).map(|_| { let (r, path) = (root.clone(), p.files[0].path.clone()); std::thread::spawn(move || preprocess(&r, &path).map(|r| text(&r))) }).collect();
    let first = preprocess(&root, &p.files[0].path)?;
    judge(&p, &want, &first)?;
    let rs: Vec<_> = hs.into_iter().map(std::thread::JoinHandle::join).collect();
    sim::set_opts(|o| { o.alloc_gap = 0; o.io_gap = 0; });
    for h in rs {
        let r = h.map_err(|_| Violation { sig: "preprocessing panics".into(), detail: String::new() })??;
        ensure!(r == text(&first), "concurrent runs give different results", "{r:?} and {:?} from\n{}", text(&first), p.dump());
    }
    Ok(info(&p, &want))
}

// ---- P10 ----
impl Link {
    fn has(l: &Option<Rc<Link>>, at: (u32, u32)) -> bool {
        match l { None => false, Some(l) => (l.at.0, l.at.1) == at || Link::has(&l.up, at) || Link::has(&l.old, at) }
    }
}
struct Mark(std::ops::Range<usize>);
impl Code for Mark {
    fn ident(&self) -> &'static str { "X1" }
    fn message(&self) -> String { "mark".into() }
}
fn linecol(s: &str, off: usize) -> (usize, usize, usize) {
    let start = s[..off].rfind('\n').map_or(0, |i| i + 1);
    (s[..off].matches('\n').count() + 1, off - start, s[start..off].chars().count())
}
fn check_map(p: &Prog, w: &Want, g: &Processed) -> Result<u64, Violation> {
    let clean = p.clean();
    let file = |q: &WorkspacePath| p.files.iter().position(|f| format!("/{}", f.path) == q.as_str()).map(|i| i as u32);
    let text: Vec<char> = g.as_str().chars().collect();
    let got: Vec<usize> = (0..text.len()).filter(|i| !text[*i].is_whitespace()).collect();
    let want: Vec<&Out> = w.out.iter().filter(|o| !o.ch.is_whitespace()).collect();
    if got.len() != want.len() || got.iter().zip(&want).any(|(i, o)| text[*i] != o.ch) { return Ok(0); }
    let (mut line, mut col) = (0, 0);
    let mut pos = Vec::with_capacity(text.len());
    for c in &text { pos.push((line, col)); if *c == '\n' { line += 1; col = 0; } else { col += 1; } }
    for m in g.raw_mappings() {
        let s = m.processed_start();
        let e = m.processed_end();
        ensure!(e.offset() <= text.len() && s.offset() <= e.offset(), "a mapping lies outside of the output", "{s:?}..{e:?} of {}", text.len());
        for x in [s, e] { if let Some(q) = pos.get(x.offset()) { ensure!((x.line(), x.column()) == *q, "a mapping has a wrong line or column in the output", "{x:?} instead of {q:?} from\n{}", p.dump()); } }
        ensure!(g.source(m.source()).is_some_and(|s| s.0 == *m.original().path()), "a mapping names the wrong source", "{} from\n{}", m.original().path(), p.dump());
        let Some(f) = file(m.original().path()) else { return bad("a mapping names a file that was not read", m.original().path().to_string()).map(|_: Info| 0) };
        let src = &clean[f as usize];
        for x in [m.original().start(), m.original().end()] {
            ensure!(x.offset() <= src.len() && src.is_char_boundary(x.offset()), "a mapping points outside of its source", "{x:?} of {} from\n{}", src.len(), p.dump());
            let (l, b, c) = linecol(src, x.offset());
            // the end of a line may be written as the start of the next one
            let at_end = x.offset() == m.original().end().offset();
            ensure!(x.line() == l || at_end && x.line() + 1 == l, "a mapping has the wrong line", "{x:?} instead of line {l} for {:?} from\n{}", m.token().to_string(), p.dump());
            ensure!(x.column() == b || x.column() == c || x.line() != l, "a mapping has the wrong column", "{x:?} instead of column {b} or {c} for {:?} from\n{}", m.token().to_string(), p.dump());
        }
    }
    let mut n = 0;
    for (i, o) in got.iter().zip(&want) {
        let all = g.mappings(*i);
        if o.own.0 == u32::MAX { continue; }
        n += 1;
        let at = |m: &Mapping| (file(m.original().path()).unwrap(), m.original().start().offset() as u32);
        let is_own = |m: &Mapping| {
            let (f, a) = at(m);
            let b = m.original().end().offset() as u32;
            // the character itself, at its own place in its token
            f == o.own.0 && a <= o.own.1 && o.own.1 + o.own.2 <= b && {
                let before = (i - m.processed_start().offset()) as u32;
                a == o.own.1 || clean[f as usize][a as usize..o.own.1 as usize].chars().count() as u32 == before
            }
        };
        ensure!(all.iter().any(|m| !m.was_macro() && is_own(m)), "a character does not map to where it was written", "{:?} at {i} is from {:?}, maps to {:?}; from\n{}", o.ch, o.own, all.iter().map(|m| (at(m), m.token().to_string())).collect::<Vec<_>>(), p.dump());
        for m in &all {
            ensure!(!m.was_macro() && is_own(m) || Link::has(&o.chain, at(m)), "a character maps to a place it does not come from", "{:?} at {i} is from {:?}, maps to {:?}; from\n{}", o.ch, o.own, (at(m), m.token().to_string()), p.dump());
        }
        let m = g.mapping(*i);
        ensure!(m.is_some_and(|m| o.chain.is_some() || is_own(m)), "the mapping of a character is not its source", "{:?} at {i} is from {:?}, maps to {:?}; from\n{}", o.ch, o.own, m.map(|m| (at(m), m.token().to_string())), p.dump());
    }
    // what is shown for a few places
    let files = WorkspaceFiles::new();
    for _ in 0..4 {
        if got.is_empty() { break; }
        let k = gen(got.len() as u64) as usize;
        let o = want[k];
        if o.own.0 == u32::MAX || o.chain.is_some() { continue; }
        let mut end = k + 1;
        while end < got.len() && got[end] == got[end - 1] + 1 && want[end].own.0 != u32::MAX && want[end].chain.is_none() && end < k + 6 { end += 1; }
        let span = got[k]..got[end - 1] + 1;
        let d = run("making a diagnostic", || Diagnostic::from_code_processed(&Mark(span.clone()), span.clone(), g))?;
        let Some(d) = d else { return bad("a diagnostic is dropped", format!("{span:?} of {} from\n{}", text.len(), p.dump())).map(|_: Info| 0) };
        let _ = run("rendering a diagnostic", || d.to_string(&files))?;
        let a = run("making annotations", || d.to_annotations(&files))?;
        ensure!(a.len() == 1, "a diagnostic gives several annotations", "{a:?}");
        // the label starts at the token the character is part of
        let m = g.mapping(span.start).unwrap();
        let (l, _, c) = linecol(&clean[o.own.0 as usize], m.original().start().offset());
        ensure!(a[0].path == format!("/{}", p.files[o.own.0 as usize].path) && a[0].start_line == l && a[0].start_column == c + 1, "a diagnostic points at the wrong place", "{:?} instead of {} {l}:{} from\n{}", a[0], p.files[o.own.0 as usize].path, c + 1, p.dump());
    }
    Ok(n)
}
fn p10_mapping() -> Verdict {
    let p = program(8, false);
    let want = p.eval();
    let Ok(w) = &want else { return Ok(Info::default()) };
    let fs = place(&p, 1 + gen(2) as usize);
    for f in &fs { f.with(|s| { s.shuffle = true; s.benign = Some(Plan::benign()); }); }
    let root = open(&fs)?;
    let Ok(g) = preprocess(&root, &p.files[0].path)? else { return Ok(Info::default()) };
    let n = check_map(&p, w, &g)?;
    Ok(Info { nontrivial: n > 5 && w.used > 0, ..info(&p, &want) })
}
fn p10_threads() -> Verdict {
    let p = program(5, false);
    let want = p.eval();
    let Ok(w) = &want else { return Ok(Info::default()) };
    let fs = place(&p, 1);
    let root = open(&fs)?;
    sim::set_opts(|o| { o.alloc_gap = 40; o.io_gap = 2; });
    let hs: Vec<_> = (0..1 + gen(3)).map(|_| { let (r, path) = (root.clone(), p.files[0].path.clone()); std::thread::spawn(move || preprocess(&r, &path)) }).collect();
    let mut all = vec![preprocess(&root, &p.files[0].path)];
    for h in hs { all.push(h.join().map_err(|_| Violation { sig: "preprocessing panics".into(), detail: String::new() })?); }
    sim::set_opts(|o| { o.alloc_gap = 0; o.io_gap = 0; });
    let mut n = 0;
    for r in all { if let Ok(g) = r? { n += check_map(&p, w, &g)?; } }
    Ok(Info { nontrivial: n > 10, ..info(&p, &want) })
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "P08",
            rule: "the text equals that of a reference evaluator working on the program's structure (blank runs outside strings count as one); mistakes are rejected",
            real: &["hemtt-preprocessor", "hemtt-workspace (paths, layers, mapping)", "vfs overlay"],
            stub: &["source files live in a simulated file system", "thread scheduling, hash seeds"],
            assumptions: &["a comment is written between blanks", "parameters do not shadow macros a body uses through other macros"],
            level: "tested-random",
            scenarios: vec![Scenario::new("program", 200_000, 1_500_000, p08_program), Scenario::new("layers", 100_000, 600_000, p08_layers), Scenario::new("threads", 20_000, 150_000, p08_threads)],
        },
        Property {
            id: "P10",
            rule: "every character the reference evaluator copied from a source maps to exactly that file, offset, line and column, and diagnostics made from it show that place",
            real: &["hemtt-preprocessor", "hemtt-workspace (mapping, positions, diagnostics, annotations)"],
            stub: &["source files live in a simulated file system", "thread scheduling, hash seeds"],
            assumptions: &["columns may count bytes or characters"],
            level: "tested-random",
            scenarios: vec![Scenario::new("mapping", 60_000, 600_000, p10_mapping), Scenario::new("threads", 9_000, 100_000, p10_threads), Scenario::new("lints", 60_000, 600_000, crate::conf::p10_lints)],
        },
    ]
}
