//! P21: string tables. Oracle: a small independent XML writer and reader.
use crate::util::*;
use hemtt_stringtable::{Key, Package, Project};
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::streams::{damage, Fail, Plan};
use simcore::tape::hash_bytes;
use simcore::{ensure, fault, faultp, gen, genp};

pub const LANGS: [&str; 24] = ["Original", "English", "Czech", "French", "Spanish", "Italian", "Polish", "Portuguese", "Russian", "German", "Korean", "Japanese", "Chinese", "Chinesesimp", "Turkish", "Swedish", "Slovak", "Serbocroatian", "Norwegian", "Icelandic", "Hungarian", "Greek", "Finnish", "Dutch"];
#[derive(Clone, Debug, PartialEq, Default)]
pub struct K { pub id: String, pub tr: Vec<Option<String>> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct P { pub name: String, pub keys: Vec<K>, pub sub: Vec<P> }
#[derive(Clone, Debug, PartialEq, Default)]
pub struct T { pub name: String, pub packs: Vec<P> }

fn name() -> String {
    let mut s = pick(&["STR_A", "STR_b", "x", "Main", "STR_A_B", "a.b", "ünï", "a b", "STR_Z", "0"]).to_string();
    if genp(1, 2) { s.push_str(&gen(40).to_string()); }
    if genp(1, 12) { s.push_str(pick(&["&", "<", "\"", "'", ">", "&amp;"])); }
    s
}
fn text() -> String {
    let mut s = pick(&["Hello", "x", "Größe", "日本語", "%1 km", "a-b"]).to_string();
    for _ in 0..gen(5) {
        s.push_str(pick(&[" ", "  ", " & ", "<br/>", ">", "&lt;", "&amp;", "\"q\"", "'s", "\n", "\n    ", "\t", "&amp;amp;", "--", "]]", "%2", "\\n"]));
        s.push_str(pick(&["w", "World", "ж", "9", "end.", "<t>", "-"]));
    }
    s
}
fn pack(depth: u64) -> P {
    let nk = gen(6);
    let keys = (0..nk).map(|_| K { id: name(), tr: LANGS.iter().map(|_| if genp(1, 5) { Some(if genp(1, 12) { String::new() } else { text() }) } else { None }).collect() }).collect();
    let ns = if depth < 3 && genp(1, 3) { 1 + gen(2) } else { 0 };
    P { name: name(), keys, sub: (0..ns).map(|_| pack(depth + 1)).collect() }
}
pub fn table() -> T { T { name: name(), packs: (0..1 + gen(4)).map(|_| pack(0)).collect() } }

fn esc(s: &str, attr: bool) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '&' => o.push_str("&amp;"),
            '<' => o.push_str("&lt;"),
            '>' if genp(1, 2) => o.push_str("&gt;"),
            '"' if attr || genp(1, 6) => o.push_str("&quot;"),
            '\'' if genp(1, 6) => o.push_str("&apos;"),
            c => o.push(c),
        }
    }
    o
}
/// A file as people write it: varying indentation, comments, order of languages and spelling of their names.
struct Style { nl: &'static str, ind: &'static str, comments: bool, blank: bool, inline: bool, case: u64 }
fn comment(o: &mut String, st: &Style, d: usize) {
    if !st.comments || !genp(1, 6) { return; }
    let nl = st.nl;
    let c = match gen(5) {
        0 => "<!-- note -->".to_string(),
        1 => format!("<!-- two{nl}  lines -->"),
        2 => "<!-- <Key ID=\"old\"><English>gone & away</English></Key> -->".to_string(),
        3 => format!("<!--{nl}<Key ID=\"old2\">{nl}<English>x</English>{nl}</Key>{nl}-->"),
        _ => format!("<!-- n{} -->", gen(9)),
    };
    o.push_str(&st.ind.repeat(d));
    o.push_str(&c);
    if st.inline && genp(1, 4) { o.push(' '); return; }
    o.push_str(nl);
    if st.blank && genp(1, 3) { o.push_str(nl); }
}
fn enc_pack(o: &mut String, p: &P, tag: &str, st: &Style, d: usize) {
    let (nl, ind) = (st.nl, st.ind.repeat(d));
    comment(o, st, d);
    o.push_str(&format!("{ind}<{tag} name=\"{}\">{nl}", esc(&p.name, true)));
    for k in &p.keys {
        comment(o, st, d + 1);
        o.push_str(&format!("{ind}{}<Key ID=\"{}\">{nl}", st.ind, esc(&k.id, true)));
        let mut order: Vec<usize> = (0..LANGS.len()).filter(|&i| k.tr[i].is_some()).collect();
        if genp(1, 3) { order.reverse(); }
        for i in order {
            comment(o, st, d + 2);
            let l = match st.case { 1 => LANGS[i].to_lowercase(), 2 => LANGS[i].to_uppercase(), _ => LANGS[i].to_string() };
            let t = k.tr[i].as_ref().unwrap();
            o.push_str(&format!("{ind}{}{}<{l}>{}</{l}>{nl}", st.ind, st.ind, esc(t, false).replace('\n', nl)));
            if st.blank && genp(1, 8) { o.push_str(nl); }
        }
        comment(o, st, d + 2);
        o.push_str(&format!("{ind}{}</Key>{nl}", st.ind));
    }
    for s in &p.sub { enc_pack(o, s, "Container", st, d + 1); }
    comment(o, st, d + 1);
    o.push_str(&format!("{ind}</{tag}>{nl}"));
}
pub fn encode(t: &T) -> String {
    let st = Style { nl: pick(&["\n", "\n", "\r\n"]), ind: pick(&["    ", "\t", "", "  "]), comments: genp(1, 3), blank: genp(1, 4), inline: genp(1, 6), case: if genp(1, 4) { gen(3) } else { 0 } };
    let mut o = format!("<?xml version=\"1.0\" encoding=\"utf-8\"?>{}", st.nl);
    comment(&mut o, &st, 0);
    o.push_str(&format!("<Project name=\"{}\">{}", esc(&t.name, true), st.nl));
    for p in &t.packs { enc_pack(&mut o, p, "Package", &st, 1); }
    o.push_str("</Project>");
    if genp(3, 4) { o.push_str(st.nl); }
    o
}

// ---- independent reader ----
#[derive(Debug, Default)]
struct El { tag: String, attrs: Vec<(String, String)>, kids: Vec<El>, text: String }
fn unesc(s: &str) -> Result<String, String> {
    let mut o = String::new();
    let mut rest = s;
    while let Some(i) = rest.find('&') {
        o.push_str(&rest[..i]);
        let end = rest[i..].find(';').ok_or("lone &")? + i;
        o.push(match &rest[i + 1..end] { "amp" => '&', "lt" => '<', "gt" => '>', "quot" => '"', "apos" => '\'', e if e.starts_with("#") => e[1..].parse::<u32>().ok().and_then(char::from_u32).ok_or("bad reference")?, e => return Err(format!("unknown entity {e}")) });
        rest = &rest[end + 1..];
    }
    o.push_str(rest);
    Ok(o)
}
fn parse(s: &str) -> Result<El, String> {
    let mut stack: Vec<El> = vec![El::default()];
    let mut p = 0;
    while p < s.len() {
        if s[p..].starts_with("<!--") { p += s[p..].find("-->").ok_or("unclosed comment")? + 3; continue; }
        if s[p..].starts_with("<?") { p += s[p..].find("?>").ok_or("unclosed declaration")? + 2; continue; }
        if s[p..].starts_with("</") {
            let e = s[p..].find('>').ok_or("unclosed tag")? + p;
            let el = stack.pop().unwrap();
            if stack.is_empty() || el.tag != s[p + 2..e].trim() { return Err(format!("</{}> closes <{}>", &s[p + 2..e], el.tag)); }
            stack.last_mut().unwrap().kids.push(el);
            p = e + 1;
            continue;
        }
        if s[p..].starts_with('<') {
            let b = s.as_bytes();
            let mut e = p + 1;
            let mut q = 0u8;
            while e < b.len() && (q != 0 || b[e] != b'>') { if q != 0 { if b[e] == q { q = 0; } } else if b[e] == b'"' || b[e] == b'\'' { q = b[e]; } e += 1; }
            if e >= b.len() { return Err("unclosed tag".into()); }
            let mut body = &s[p + 1..e];
            let empty = body.ends_with('/');
            if empty { body = &body[..body.len() - 1]; }
            let tag = body.split_whitespace().next().ok_or("no tag name")?.to_string();
            let mut el = El { tag: tag.clone(), ..El::default() };
            let mut a = body[tag.len()..].trim();
            while !a.is_empty() {
                let (k, v) = a.split_once('=').ok_or("attribute without value")?;
                let v = v.trim_start();
                let qc = v.chars().next().ok_or("no value")?;
                let end = v[1..].find(qc).ok_or("unclosed value")? + 1;
                el.attrs.push((k.trim().to_string(), unesc(&v[1..end])?));
                a = v[end + 1..].trim();
            }
            p = e + 1;
            if empty { stack.last_mut().unwrap().kids.push(el); } else { stack.push(el); }
            continue;
        }
        let e = s[p..].find('<').map_or(s.len(), |i| i + p);
        stack.last_mut().unwrap().text.push_str(&unesc(&s[p..e])?);
        p = e;
    }
    let mut root = stack.pop().unwrap();
    if !stack.is_empty() { return Err(format!("<{}> is not closed", root.tag)); }
    if root.kids.len() != 1 { return Err("not one root".into()); }
    Ok(root.kids.remove(0))
}
fn attr(e: &El, n: &str) -> Result<String, String> { e.attrs.iter().find(|a| a.0 == n).map(|a| a.1.clone()).ok_or(format!("<{}> without {n}", e.tag)) }
fn tree_pack(e: &El) -> Result<P, String> {
    let mut p = P { name: attr(e, "name")?, ..P::default() };
    for k in &e.kids {
        match k.tag.as_str() {
            "Key" => {
                let mut key = K { id: attr(k, "ID")?, tr: vec![None; LANGS.len()] };
                for l in &k.kids {
                    let i = LANGS.iter().position(|x| x.eq_ignore_ascii_case(&l.tag)).ok_or(format!("unknown language {}", l.tag))?;
                    if key.tr[i].is_some() { return Err(format!("{} twice", l.tag)); }
                    key.tr[i] = Some(l.text.clone());
                }
                p.keys.push(key);
            }
            "Container" => p.sub.push(tree_pack(k)?),
            t => return Err(format!("unexpected <{t}>")),
        }
    }
    Ok(p)
}
pub fn tree(s: &str) -> Result<T, String> {
    let r = parse(s)?;
    if r.tag != "Project" { return Err(format!("root is <{}>", r.tag)); }
    Ok(T { name: attr(&r, "name")?, packs: r.kids.iter().map(|k| if k.tag == "Package" { tree_pack(k) } else { Err(format!("unexpected <{}>", k.tag)) }).collect::<Result<_, _>>()? })
}
// ---- the library's view ----
fn key_of(k: &Key) -> Result<K, String> {
    let v = [k.original(), k.english(), k.czech(), k.french(), k.spanish(), k.italian(), k.polish(), k.portuguese(), k.russian(), k.german(), k.korean(), k.japanese(), k.chinese(), k.chinesesimp(), k.turkish(), k.swedish(), k.slovak(), k.serbocroatian(), k.norwegian(), k.icelandic(), k.hungarian(), k.greek(), k.finnish(), k.dutch()];
    // entities are kept as they are written
    Ok(K { id: unesc(k.id())?, tr: v.iter().map(|x| x.map(unesc).transpose()).collect::<Result<_, _>>()? })
}
fn pack_of(p: &Package) -> Result<P, String> { Ok(P { name: unesc(p.name())?, keys: p.keys().iter().map(key_of).collect::<Result<_, _>>()?, sub: p.containers().iter().map(pack_of).collect::<Result<_, _>>()? }) }
fn of(p: &Project) -> Result<T, String> { Ok(T { name: unesc(p.name())?, packs: p.packages().iter().map(pack_of).collect::<Result<_, _>>()? }) }

pub fn first_diff(a: &T, b: &T) -> String {
    fn d(a: &P, b: &P) -> Option<String> {
        if a.name != b.name { return Some(format!("package {:?} / {:?}", a.name, b.name)); }
        for (x, y) in a.keys.iter().zip(&b.keys) {
            if x.id != y.id { return Some(format!("key {:?} / {:?}", x.id, y.id)); }
            for i in 0..LANGS.len() { if x.tr[i] != y.tr[i] { return Some(format!("{} of {:?}: {:?} / {:?}", LANGS[i], x.id, x.tr[i], y.tr[i])); } }
        }
        if a.keys.len() != b.keys.len() || a.sub.len() != b.sub.len() { return Some(format!("{} keys {} containers / {} keys {} containers in {:?}", a.keys.len(), a.sub.len(), b.keys.len(), b.sub.len(), a.name)); }
        a.sub.iter().zip(&b.sub).find_map(|(x, y)| d(x, y))
    }
    if a.name != b.name { return format!("project {:?} / {:?}", a.name, b.name); }
    if a.packs.len() != b.packs.len() { return format!("{} / {} packages", a.packs.len(), b.packs.len()); }
    a.packs.iter().zip(&b.packs).find_map(|(x, y)| d(x, y)).unwrap_or_default()
}
fn read(s: &str, plan: Plan) -> Result<Result<Project, String>, Violation> {
    let r = std::io::BufReader::with_capacity(1 + fault(300) as usize, reader(s.as_bytes(), plan));
    run("reading a string table", || Project::from_reader(r).map_err(|e| e.to_string()))
}
fn write(p: &Project) -> Result<String, Violation> {
    let mut o = String::new();
    must("writing a string table", || p.to_writer(&mut o))?;
    Ok(o)
}
/// a text sink that fails once a number of bytes is in
struct Sink { s: String, room: usize, chars: bool, hit: bool }
impl std::fmt::Write for Sink {
    fn write_str(&mut self, x: &str) -> std::fmt::Result {
        if self.hit && self.chars { self.s.push_str(x); return Ok(()); } // a transient failure
        if self.s.len() + x.len() > self.room { self.hit = true; simcore::fired("sink-full"); return Err(std::fmt::Error); }
        self.s.push_str(x);
        Ok(())
    }
}
fn sorted(p: &P, top: bool) -> P {
    let mut q = p.clone();
    let _ = top;
    q.keys.sort_by(|a, b| a.id.cmp(&b.id));
    q.sub = q.sub.iter().map(|s| sorted(s, false)).collect();
    q
}
pub fn canon(t: &T) -> T {
    // what sorting may not change: the multiset of everything
    fn c(p: &P) -> P { let mut q = p.clone(); q.keys.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}"))); q.sub = q.sub.iter().map(c).collect(); q.sub.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}"))); q }
    let mut t = T { name: t.name.clone(), packs: t.packs.iter().map(c).collect() };
    t.packs.sort_by(|a, b| format!("{a:?}").cmp(&format!("{b:?}")));
    t
}
#[allow(dead_code)]
pub fn all_plain(t: &T) -> bool {
    fn all(p: &P) -> bool { plain(&p.name) && p.keys.iter().all(|k| plain(&k.id)) && p.sub.iter().all(all) }
    plain(&t.name) && t.packs.iter().all(all)
}
/// The table with packages, containers and keys in alphabetical order.
#[allow(dead_code)]
pub fn in_order(t: &T) -> T {
    fn one(p: &P) -> P {
        let mut q = p.clone();
        q.keys.sort_by(|a, b| a.id.cmp(&b.id));
        q.sub = q.sub.iter().map(one).collect();
        q.sub.sort_by(|a, b| a.name.cmp(&b.name));
        q
    }
    let mut t = T { name: t.name.clone(), packs: t.packs.iter().map(one).collect() };
    t.packs.sort_by(|a, b| a.name.cmp(&b.name));
    t
}
// keys are compared as they are written, so only plain identifiers are judged
fn plain(s: &str) -> bool { s.chars().all(|c| !"&<>\"'".contains(c)) }
fn count(p: &P, l: usize) -> u32 { p.keys.iter().filter(|k| k.tr[l].is_some()).count() as u32 + p.sub.iter().map(|s| count(s, l)).sum::<u32>() }
fn info(t: &T, s: &str, extra: u64) -> Verdict {
    Ok(Info { nontrivial: t.packs.iter().any(|p| !p.keys.is_empty() || !p.sub.is_empty()), key: hash_bytes(extra, s.as_bytes()), sample: Some(format!("{} bytes, {} packages", s.len(), t.packs.len())) })
}
fn roundtrip() -> Verdict {
    let t = table();
    let s = encode(&t);
    ensure!(tree(&s.replace("\r\n", "\n")).as_ref() == Ok(&t), "the oracle is wrong", "{s}");
    let p = match read(&s, Plan::benign())? { Ok(p) => p, Err(e) => return bad("reading a string table fails although nothing is wrong", e) };
    let same = |what: &str, got: Result<T, String>, want: &T| -> Result<(), Violation> {
        match got { Ok(g) => { ensure!(g == *want, format!("{what} differs from what was stored"), "{}", first_diff(want, &g)); Ok(()) } Err(e) => bad(format!("{what} is not a valid string table"), e) }
    };
    same("the table read", of(&p), &t)?;
    for (i, q) in p.packages().iter().enumerate() {
        let tt = q.totals();
        ensure!(tt.english() == count(&t.packs[i], 1) && tt.dutch() == count(&t.packs[i], 23) && tt.chinesesimp() == count(&t.packs[i], 13) && tt.original() == count(&t.packs[i], 0), "translation totals are wrong", "{tt:?}");
    }
    let w = write(&p)?;
    same("the file written", tree(&w), &t)?;
    // reading it back and writing again changes nothing
    let p2 = match read(&w, Plan::benign())? { Ok(p) => p, Err(e) => return bad("reading back a written string table fails", e) };
    same("the table read back", of(&p2), &t)?;
    let w2 = write(&p2)?;
    same("the file written again", tree(&w2), &t)?;
    let p3 = match read(&w2, Plan::benign())? { Ok(p) => p, Err(e) => return bad("reading back a written string table fails", e) };
    let w3 = write(&p3)?;
    ensure!(w3 == w2, "writing a string table over and over keeps changing it", "{}", diff(w2.as_bytes(), w3.as_bytes()));
    // sorting reorders, nothing else
    let mut q = p.clone();
    run("sorting a string table", || q.sort())?;
    let g = match of(&q) { Ok(g) => g, Err(e) => return bad("the sorted table is not valid", e) };
    ensure!(canon(&g) == canon(&t), "sorting changes more than the order", "{}", first_diff(&canon(&t), &canon(&g)));
    // keys are compared as they are written, so only judge plain identifiers
    let plain = |s: &str| s.chars().all(|c| c != '&' && c != '<' && c != '>' && c != '"' && c != '\'');
    for pk in &g.packs { if pk.keys.iter().all(|k| plain(&k.id)) { let s = sorted(pk, true); ensure!(s.keys.iter().map(|k| &k.id).eq(pk.keys.iter().map(|k| &k.id)), "keys are not in order after sorting", "{:?}", pk.keys.iter().map(|k| &k.id).collect::<Vec<_>>()); } }
    if g.packs.iter().all(|p| plain(&p.name)) { ensure!(g.packs.windows(2).all(|w| w[0].name <= w[1].name), "packages are not in order after sorting", ""); }
    if all_plain(&t) { ensure!(g == in_order(&t), "packages, containers or keys are not in order after sorting", "{}", first_diff(&in_order(&t), &g)); }
    let ws = write(&q)?;
    same("the sorted file", tree(&ws), &g)?;
    let mut q2 = match read(&ws, Plan::benign())? { Ok(p) => p, Err(e) => return bad("reading back a sorted string table fails", e) };
    run("sorting a string table", || q2.sort())?;
    // entities may be spelled differently after writing
    fn all(p: &P, f: &dyn Fn(&str) -> bool) -> bool { f(&p.name) && p.keys.iter().all(|k| f(&k.id)) && p.sub.iter().all(|s| all(s, f)) }
    if g.packs.iter().all(|p| all(p, &plain)) { same("the table sorted twice", of(&q2), &g)?; }
    info(&t, &s, 1)
}
fn faults() -> Verdict {
    let t = table();
    let s = encode(&t);
    let mut plan = Plan::benign();
    plan.sticky = faultp(1, 2);
    match fault(3) { 0 => plan.fail_at_byte = Some((fault(s.len() as u64), Fail::Error)), 1 => plan.fail_at_byte = Some((fault(s.len() as u64), Fail::End)), _ => plan.fail_at_op = Some(fault(12)) }
    plan.sticky |= matches!(plan.fail_at_byte, Some((_, Fail::End)));
    let mut failed = 0;
    match read(&s, plan)? {
        Ok(p) => match of(&p) { Ok(g) => ensure!(g == t, "a failing read gives a different table", "{}", first_diff(&t, &g)), Err(e) => return bad("a failing read gives a damaged table", e) },
        Err(_) => failed += 1,
    }
    // and a failing sink
    if let Ok(p) = read(&s, Plan::benign())? {
        let w = write(&p)?;
        let mut k = Sink { s: String::new(), room: fault(w.len() as u64 + 2) as usize, chars: fault(2) == 1, hit: false };
        let r = run("writing to a failing sink", || p.to_writer(&mut k).map_err(|e| e.to_string()))?;
        match r { Ok(()) => ensure!(k.s == w, "writing reports success but the stored table is incomplete", "{}", diff(k.s.as_bytes(), w.as_bytes())), Err(e) => { failed += 1; ensure!(k.hit, "writing a string table fails although nothing is wrong", "{e}") } }
    }
    info(&t, &s, failed)
}
/// Leading and trailing white space of translations.
fn edges() -> Verdict {
    let mut t = table();
    let pre = pick(&["", " ", "  ", "\n"]);
    let post = pick(&[" ", "\t", "\n"]);
    t.packs[0].keys.insert(0, K { id: "STR_edge".into(), tr: LANGS.iter().enumerate().map(|(i, _)| if i == 1 { Some(format!("{pre}{}{post}", text())) } else { None }).collect() });
    let s = encode(&t);
    let p = match read(&s, Plan::benign())? { Ok(p) => p, Err(e) => return bad("reading a string table fails although nothing is wrong", e) };
    let w = write(&p)?;
    let mut g = match tree(&w) { Ok(g) => g, Err(e) => return bad("the file written is not a valid string table", e) };
    let k = g.packs[0].keys[0].tr[1].clone();
    if k != t.packs[0].keys[0].tr[1] {
        // everything else must be as it was
        ensure!(k.as_deref() == t.packs[0].keys[0].tr[1].as_deref().map(str::trim), "the file written differs from what was stored", "{k:?}");
        g.packs[0].keys[0].tr[1] = t.packs[0].keys[0].tr[1].clone();
        ensure!(g == t, "the file written differs from what was stored", "{}", first_diff(&t, &g));
        return bad("white space around a translation is lost", format!("{k:?} instead of {:?}", t.packs[0].keys[0].tr[1]));
    }
    ensure!(g == t, "the file written differs from what was stored", "{}", first_diff(&t, &g));
    info(&t, &s, 4)
}
/// For P11: damaged files never crash the reader.
pub fn p11_stringtable() -> Verdict {
    let t = table();
    let s = encode(&t);
    let mut b = s.clone().into_bytes();
    for _ in 0..1 + fault(3) { damage(&mut b); }
    simcore::alloc::limit((4 << 20) + 64 * b.len(), (16 << 20) + 256 * b.len());
    let r = std::io::BufReader::new(reader(&b, Plan::benign()));
    let r = run("reading a damaged string table", || Project::from_reader(r).map_err(|e| e.to_string()))?;
    if let Ok(mut p) = r {
        let mut o = String::new();
        let _ = run("writing a table read from damaged storage", || p.to_writer(&mut o).is_ok())?;
        run("sorting a table read from damaged storage", || p.sort())?;
    }
    info(&t, &String::from_utf8_lossy(&b), 3)
}

pub fn props() -> Vec<Property> {
    vec![Property { id: "P21", rule: "tables read, written, read back and sorted equal the generated table (independent XML writer/reader, XML meaning of text); repeated writing reaches a fixed point; under one stream or sink failure the result is an error or exact",
        real: &["hemtt_stringtable (Project, Package, Key, Totals)", "quick-xml", "std BufReader"], stub: &["input stream", "output sink"],
        assumptions: &["keys before containers inside a package and only the language names Arma knows, as the schema prescribes", "comments are not part of the guarantee, but must not change the table"], level: "fault_enumeration",
        scenarios: vec![Scenario::new("roundtrip", 32_000, 400_000, roundtrip), Scenario::new("faults", 48_000, 600_000, faults), Scenario::new("edges", 1_000, 5_000, edges)] }]
}
