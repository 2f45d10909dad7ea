//! P01-P04: the PBO writer and reader.
use crate::pbofmt::{self, decode, encode, lower, Archive, Entry};
use crate::util::*;
use hemtt_pbo::{BISignVersion, ReadablePbo, WritablePbo};
use simcore::driver::{bad, norm, Info, Property, Scenario, Verdict, Violation};
use simcore::sim::{self, Opts};
use simcore::streams::{damage, Fail, Plan, SimReader, SimWriter};
use simcore::tape::{hash_bytes, mix};
use simcore::{ensure, fault, faultp, gen, genp, guard};
use std::collections::BTreeMap;
use std::io::Read;
use std::sync::Arc;

#[derive(Clone, Debug, Default)]
pub struct Spec { pub files: Vec<(String, Arc<Vec<u8>>)>, pub props: Vec<(String, String)>, pub with_props: bool }

pub fn size() -> usize {
    match gen(8) { 0 => gen(8) as usize, 1 => 0, 2 => 1, 3 => gen(300) as usize, 4 => gen(9000) as usize, 5 => 8192, 6 => 8190 + gen(6) as usize, _ => gen(40_000) as usize }
}
pub fn big() -> usize { match gen(5) { 0 => 1_000_001, 1 => 1_000_000, 2 => 999_999, 3 => 1_000_002 + gen(100) as usize, _ => 1_000_001 + gen(300_000) as usize } }

/// case_twins: also generate names that differ in case only
pub fn spec(max_files: u64, bigs: bool, case_twins: bool) -> Spec {
    let mut files: Vec<(String, Arc<Vec<u8>>)> = vec![];
    let mut seen = std::collections::BTreeSet::new();
    let n = gen(max_files + 1);
    for _ in 0..n {
        let name = filename();
        let key = name.replace('/', "\\").to_lowercase();
        if !seen.insert(key) { continue; }
        let sz = size();
        files.push((name.clone(), Arc::new(bytes(sz))));
        if case_twins && genp(1, 3) {
            let up = if genp(1, 2) { name.to_uppercase() } else { name.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() };
            if up.replace('/', "\\") != name.replace('/', "\\") && up.to_lowercase() == name.to_lowercase() { let sz = size(); files.push((up, Arc::new(bytes(sz)))); }
        }
    }
    if bigs {
        for i in 0..1 + gen(2) { let s = big(); files.push((format!("{}big{i}.{}", if genp(1, 2) { "zz\\" } else { "" }, ext()), Arc::new(bytes(s)))); }
    }
    let mut props = vec![];
    let mut pk = std::collections::BTreeSet::new();
    for _ in 0..gen(5) {
        let (k, v) = match gen(5) {
            0 => ("prefix".to_string(), pick(&["z\\abe\\addons\\main", "main", "", "a/b", "x\\y z"]).to_string()),
            1 => ("version".into(), format!("{}.{}.{}", gen(3), gen(10), gen(10))),
            2 => (format!("k{}", gen(4)), pick(&["", "v", "a longer value with spaces", "ünï", "semi;colon\"quote"]).to_string()),
            3 => ("hemtt".into(), "1.14.2".into()),
            _ => ("author".into(), word()),
        };
        if pk.insert(k.clone()) { props.push((k, v)); }
    }
    Spec { files, props, with_props: !genp(1, 10) }
}
impl Spec {
    pub fn total(&self) -> usize { self.files.iter().map(|f| f.1.len()).sum() }
    pub fn model(&self) -> BTreeMap<Vec<u8>, Arc<Vec<u8>>> { self.files.iter().map(|(n, d)| (n.replace('/', "\\").into_bytes(), d.clone())).collect() }
    pub fn prop_model(&self) -> BTreeMap<Vec<u8>, Vec<u8>> { if self.with_props { self.props.iter().map(|(k, v)| (k.clone().into_bytes(), v.clone().into_bytes())).collect() } else { BTreeMap::new() } }
    pub fn writable(&self, order: &[usize], plan: impl Fn(usize) -> Plan) -> WritablePbo<SimReader> {
        let mut w = WritablePbo::new();
        for (k, v) in &self.props { w.add_property(k.clone(), v.clone()); }
        for &i in order {
            let (n, d) = &self.files[i];
            let _ = w.add_file(n.clone(), SimReader::new(d.clone(), plan(i)));
        }
        w
    }
    pub fn key(&self) -> u64 { let mut h = mix(self.props.len() as u64, u64::from(self.with_props)); for (n, d) in &self.files { h = hash_bytes(h, n.as_bytes()); h = hash_bytes(h, &d[..d.len().min(64)]); h = mix(h, d.len() as u64); } h }
    pub fn sample(&self) -> String { format!("files {:?} props {:?} with_props={}", self.files.iter().map(|(n, d)| format!("{n}:{}", d.len())).collect::<Vec<_>>(), self.props, self.with_props) }
    /// Bytes from a fault-free write.
    pub fn build(&self) -> Result<Vec<u8>, Violation> {
        let order: Vec<usize> = (0..self.files.len()).collect();
        let mut w = self.writable(&order, |_| Plan::default());
        let (mut out, sink) = SimWriter::new(Plan::default());
        match guard(|| w.write(&mut out, self.with_props)) {
            Ok(Ok(_)) => Ok(std::mem::take(&mut sink.lock().unwrap().data)),
            Ok(Err(e)) => bad("fault-free write fails", format!("{e}")),
            Err(p) => bad(format!("write panics: {}", norm(&p)), p),
        }
    }
}
pub fn shuffled(n: usize) -> Vec<usize> { let mut v: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { let j = i - gen(i as u64 + 1) as usize; v.swap(i, j); } v }

/// The archive bytes must contain exactly the spec.
pub fn matches(spec: &Spec, data: &[u8]) -> Result<Archive, Violation> {
    let (a, _) = match decode(data) { Ok(a) => a, Err(e) => return bad("written archive is malformed", format!("{e}; {} bytes; {}", data.len(), spec.sample())) };
    let got: BTreeMap<Vec<u8>, Arc<Vec<u8>>> = a.entries.iter().map(|e| (e.name.clone(), Arc::new(e.data.clone()))).collect();
    ensure!(got.len() == a.entries.len(), "archive lists a name twice", "{:?}", a.entries.iter().map(|e| lower(&e.name)).collect::<Vec<_>>());
    let want = spec.model();
    for (n, d) in &want {
        match got.get(n) {
            None => return bad("archive lacks a file", format!("{} not in archive; {}", String::from_utf8_lossy(n), spec.sample())),
            Some(g) => ensure!(g == d, "archived content differs", "{}: {}", String::from_utf8_lossy(n), diff(g, d)),
        }
    }
    ensure!(got.len() == want.len(), "archive has extra files", "{} instead of {}", got.len(), want.len());
    for e in &a.entries { ensure!(e.original as usize == e.data.len() && e.mime == 0, "entry header is wrong", "{}: original {} mime {:x} size {}", lower(&e.name), e.original, e.mime, e.data.len()); }
    let gp: BTreeMap<Vec<u8>, Vec<u8>> = a.props.iter().cloned().collect();
    ensure!(gp == spec.prop_model() && gp.len() == a.props.len(), "archived properties differ", "{:?} instead of {:?}", a.props, spec.props);
    let names: Vec<String> = a.entries.iter().map(|e| lower(&e.name)).collect();
    let mut s = names.clone();
    s.sort();
    ensure!(s == names, "archive entries are not sorted", "{names:?}");
    Ok(a)
}

fn check_read(spec: &Spec, data: &[u8], plan: Plan, exact_hash: bool) -> Result<(), Violation> {
    let e = |what: &str, d: String| Violation { sig: what.to_string(), detail: d };
    let mut r = guard(|| ReadablePbo::from(reader(data, plan))).map_err(|p| e(&format!("read panics: {}", norm(&p)), p))?.map_err(|x| e("fault-free archive cannot be opened", x.to_string()))?;
    let want = spec.model();
    let listed: Vec<String> = r.files().iter().map(|h| h.filename().to_string()).collect();
    let mut ls: Vec<Vec<u8>> = listed.iter().map(|s| s.clone().into_bytes()).collect();
    ls.sort();
    ensure!(ls == want.keys().cloned().collect::<Vec<_>>(), "listing differs from the archived files", "{listed:?}");
    let fs: Vec<String> = r.files_sorted().iter().map(|h| h.filename().to_string()).collect();
    ensure!(fs == listed, "sorted listing differs from the stored order", "{fs:?} vs {listed:?}");
    ensure!(r.is_sorted().is_ok(), "archive is reported unsorted", "{listed:?}");
    for h in r.files() {
        let w = &want[h.filename().as_bytes()];
        ensure!(h.size() as usize == w.len() && h.original() as usize == w.len(), "listed size differs", "{}: {} vs {}", h.filename(), h.size(), w.len());
    }
    let gp: BTreeMap<Vec<u8>, Vec<u8>> = r.properties().iter().map(|(k, v)| (k.clone().into_bytes(), v.clone().into_bytes())).collect();
    ensure!(gp == spec.prop_model(), "read properties differ", "{gp:?} vs {:?}", spec.props);
    let names: Vec<Vec<u8>> = want.keys().cloned().collect();
    // random access, in random order, with repeats and partially consumed files in between
    for _ in 0..(names.len() * 2).min(24) {
        let n = &names[gen(names.len() as u64) as usize];
        let mut s = String::from_utf8(n.clone()).unwrap();
        if genp(1, 3) { s = s.replace('\\', "/"); }
        let w = &want[n];
        let part = if genp(1, 3) { Some(gen(w.len() as u64 + 1) as usize) } else { None };
        let got = guard(|| -> Result<Option<Vec<u8>>, String> {
            let Some(f) = r.file(&s).map_err(|e| e.to_string())? else { return Ok(None) };
            let mut v = vec![];
            match part {
                Some(k) => { f.take(k as u64).read_to_end(&mut v).map_err(|e| e.to_string())?; }
                None => { let mut f = f; f.read_to_end(&mut v).map_err(|e| e.to_string())?; }
            }
            Ok(Some(v))
        }).map_err(|p| e(&format!("read panics: {}", norm(&p)), p))?.map_err(|x| e("intact file cannot be read", format!("{s}: {x}")))?;
        let Some(got) = got else { return bad("archived file is not found", s) };
        ensure!(got == w[..part.unwrap_or(w.len())], "file content read back differs", "{s}: {}", diff(&got, w));
        let off = r.file_offset(&s).map_err(|x| e("file_offset fails", x.to_string()))?;
        let Some(off) = off else { return bad("file_offset does not find an archived file", s) };
        ensure!(data.get(off as usize..off as usize + w.len()) == Some(&w[..]), "file_offset points elsewhere", "{s}: {off}");
        ensure!(r.header(&s).is_some_and(|h| h.filename().as_bytes() == &n[..]), "header lookup differs", "{s}");
    }
    ensure!(matches!(r.file("no\\such\\file.x"), Ok(None)), "a file that was never archived is found", "no\\such\\file.x");
    let trailer = &data[data.len() - 20..];
    ensure!(r.checksum().as_bytes() == trailer, "stored checksum read back differs", "{}", r.checksum().hex());
    if exact_hash {
        let g = guard(|| r.gen_checksum()).map_err(|p| e(&format!("gen_checksum panics: {}", norm(&p)), p))?.map_err(|x| e("gen_checksum fails", x.to_string()))?;
        ensure!(g.as_bytes() == trailer, "recomputed checksum differs from the stored one", "{} vs {}; {}", g.hex(), hexs(trailer), spec.sample());
    }
    Ok(())
}

// ---- P01 ----
fn p01(sp: &Spec) -> Verdict {
    let order = shuffled(sp.files.len());
    let plans: Vec<Plan> = sp.files.iter().map(|_| Plan::benign()).collect();
    let mut w = sp.writable(&order, |i| plans[i].clone());
    ensure!(w.files().len() == sp.files.len(), "added files are not listed", "{} vs {}", w.files().len(), sp.files.len());
    let (mut out, sink) = SimWriter::new(Plan::benign());
    sim::set_opts(|o| { o.alloc_gap = 6; o.io_gap = 3; });
    let r = match guard(|| w.write(&mut out, sp.with_props)) {
        Ok(Ok(c)) => c,
        Ok(Err(e)) => return bad("write fails although every stream works", e.to_string()),
        Err(p) => return bad(format!("write panics: {}", norm(&p)), p),
    };
    let data = std::mem::take(&mut sink.lock().unwrap().data);
    matches(sp, &data)?;
    ensure!(r.as_bytes() == &data[data.len() - 20..], "returned checksum is not the stored one", "{}", r.hex());
    // a second write of the same object gives the same archive
    if sp.total() < 100_000 && genp(1, 3) {
        let (mut out2, sink2) = SimWriter::new(Plan::benign());
        match guard(|| w.write(&mut out2, sp.with_props)) {
            Ok(Ok(_)) => ensure!(sink2.lock().unwrap().data == data, "writing the same archive twice differs", "{}", diff(&sink2.lock().unwrap().data, &data)),
            Ok(Err(e)) => return bad("second write fails", e.to_string()),
            Err(p) => return bad(format!("write panics: {}", norm(&p)), p),
        }
    }
    check_read(sp, &data, Plan::benign(), true)?;
    sim::state(mix(sp.files.len() as u64, sp.props.len() as u64));
    Ok(Info { nontrivial: !sp.files.is_empty(), key: sp.key(), sample: Some(sp.sample()) })
}
fn p01_small() -> Verdict { p01(&spec(12, false, false)) }
fn p01_threads() -> Verdict { p01(&spec(3, true, false)) }
/// Archives that contain names differing in case only: every entry keeps its own content.
fn p01_twins() -> Verdict { let s = spec(6, false, true); p01(&s) }
/// Re-packing an existing archive keeps timestamps and flags of every entry.
fn p01_repack() -> Verdict {
    let sp = spec(6, false, false);
    let mut a = Archive { vers: true, props: sp.props.iter().map(|(k, v)| (k.clone().into_bytes(), v.clone().into_bytes())).collect(), entries: vec![] };
    for (n, d) in &sp.files {
        let mime = pick(&[0u32, 0, 0x4370_7273, 0x456e_6372]);
        a.entries.push(Entry { name: n.replace('/', "\\").into_bytes(), mime, original: if genp(1, 3) { gen(100_000) as u32 } else { d.len() as u32 }, reserved: if genp(1, 4) { gen(1 << 32) as u32 } else { 0 }, timestamp: gen(1 << 31) as u32, data: d.to_vec() });
    }
    // foreign tools do not sort
    let src = encode(&a);
    let mut r = match guard(|| ReadablePbo::from(reader(&src, Plan::benign()))) { Ok(Ok(r)) => r, Ok(Err(e)) => return bad("well-formed archive cannot be opened", e.to_string()), Err(p) => return bad(format!("read panics: {}", norm(&p)), p) };
    let mut w = WritablePbo::new();
    for (k, v) in r.properties().clone() { w.add_property(k, v); }
    for h in r.files() {
        let mut v = vec![];
        let ok = guard(|| r.file(h.filename()).map_err(|e| e.to_string()).and_then(|f| f.ok_or("none".into()).and_then(|mut f| f.read_to_end(&mut v).map_err(|e| e.to_string()))));
        match ok { Ok(Ok(_)) => {} Ok(Err(e)) => return bad("intact file cannot be read", e), Err(p) => return bad(format!("read panics: {}", norm(&p)), p) }
        if let Err(e) = w.add_file_with_header(h, reader(&v, Plan::benign())) { return bad("add_file_with_header fails", e.to_string()); }
    }
    let (mut out, sink) = SimWriter::new(Plan::benign());
    match guard(|| w.write(&mut out, true)) { Ok(Ok(_)) => {} Ok(Err(e)) => return bad("repack fails", e.to_string()), Err(p) => return bad(format!("write panics: {}", norm(&p)), p) }
    let data = std::mem::take(&mut sink.lock().unwrap().data);
    let (b, _) = match decode(&data) { Ok(b) => b, Err(e) => return bad("written archive is malformed", e) };
    let mut want = a.entries.clone();
    want.sort_by_key(|e| lower(&e.name));
    ensure!(b.entries == want, "repacked entries differ", "{:?} vs {:?}", b.entries.iter().map(|e| (lower(&e.name), e.mime, e.original, e.timestamp, e.data.len())).collect::<Vec<_>>(), want.iter().map(|e| (lower(&e.name), e.mime, e.original, e.timestamp, e.data.len())).collect::<Vec<_>>());
    let (mut x, mut y) = (b.props, a.props);
    x.sort(); y.sort();
    ensure!(x == y, "repacked properties differ", "{x:?} vs {y:?}");
    Ok(Info { nontrivial: !sp.files.is_empty(), key: hash_bytes(3, &src), sample: Some(sp.sample()) })
}

// ---- P02 ----
fn expect_failure_or_exact(sp: &Spec, r: Result<Result<hemtt_pbo::Checksum, hemtt_pbo::Error>, String>, stored: &[u8], want: &[u8], flush_failed: bool) -> Verdict {
    match r {
        Err(p) => bad(format!("write panics instead of failing: {}", norm(&p)), p),
        Ok(Ok(_)) => {
            ensure!(stored == want, "write reports success but the archive is not what was asked for", "{}; {}", diff(stored, want), sp.sample());
            ensure!(!flush_failed, "write reports success although the flush failed", "{}", sp.sample());
            Ok(Info { nontrivial: false, key: 0, sample: None })
        }
        Ok(Err(_)) => Ok(Info { nontrivial: true, key: mix(sp.key(), stored.len() as u64), sample: Some(format!("failed after {} bytes: {}", stored.len(), sp.sample())) }),
    }
}
fn p02_dest(sp: &Spec) -> Verdict {
    let want = sp.build()?;
    let plan = Plan::failing(want.len() as u64 + 2, true);
    let ff = plan.fail_flush;
    let order = shuffled(sp.files.len());
    let plans: Vec<Plan> = sp.files.iter().map(|_| Plan::benign()).collect();
    let mut w = sp.writable(&order, |i| plans[i].clone());
    let (mut out, sink) = SimWriter::new(plan);
    sim::set_opts(|o| { o.alloc_gap = 6; o.io_gap = 3; });
    let r = guard(|| w.write(&mut out, sp.with_props));
    let s = sink.lock().unwrap();
    let flush_failed = ff && s.stats.hard > 0;
    expect_failure_or_exact(sp, r, &s.data, &want, flush_failed)
}
fn p02_dest_small() -> Verdict { p02_dest(&spec(8, false, false)) }
fn p02_dest_threads() -> Verdict { p02_dest(&spec(2, true, false)) }
fn p02_source(sp: &Spec) -> Verdict {
    if sp.files.is_empty() { return Ok(Info::default()); }
    let want = sp.build()?;
    let victim = gen(sp.files.len() as u64) as usize;
    let len = sp.files[victim].1.len() as u64;
    let mut bad_plan = Plan::benign();
    match fault(4) {
        0 => bad_plan.fail_at_byte = Some((fault(len.max(1)), Fail::Error)),
        1 => bad_plan.fail_at_op = Some(fault(6)),
        2 => { bad_plan.fail_at_op = Some(fault(6)); bad_plan.sticky = true; }
        _ => { bad_plan.fail_at_byte = Some((fault(len.max(1)), Fail::Error)); bad_plan.sticky = true; }
    }
    let mut w = WritablePbo::new();
    for (k, v) in &sp.props { w.add_property(k.clone(), v.clone()); }
    for i in shuffled(sp.files.len()) {
        let (n, d) = &sp.files[i];
        let plan = if i == victim { bad_plan.clone() } else { Plan::benign() };
        match guard(|| w.add_file(n.clone(), SimReader::new(d.clone(), plan))) {
            Ok(Ok(_)) => {}
            Ok(Err(_)) => return Ok(Info { nontrivial: true, key: mix(sp.key(), 1), sample: None }),
            Err(p) => return bad(format!("add_file panics: {}", norm(&p)), p),
        }
    }
    let (mut out, sink) = SimWriter::new(Plan::benign());
    sim::set_opts(|o| { o.alloc_gap = 6; o.io_gap = 3; });
    let r = guard(|| w.write(&mut out, sp.with_props));
    let s = sink.lock().unwrap();
    expect_failure_or_exact(sp, r, &s.data, &want, false)
}
fn p02_source_small() -> Verdict { p02_source(&spec(8, false, false)) }
fn p02_source_threads() -> Verdict { p02_source(&spec(2, true, false)) }
/// A source that changes length between being added and being written.
struct Growing { inner: SimReader, after: Arc<Vec<u8>>, seeks: u32, at: u32 }
impl Read for Growing { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.inner.read(b) } }
impl std::io::Seek for Growing {
    fn seek(&mut self, s: std::io::SeekFrom) -> std::io::Result<u64> {
        self.seeks += 1;
        if self.seeks == self.at { self.inner = SimReader::new(self.after.clone(), Plan::default()); simcore::fired("source-length-changes"); }
        self.inner.seek(s)
    }
}
fn p02_resize() -> Verdict {
    let bigs = gen(6) == 5;
    let sp = spec(if bigs { 1 } else { 6 }, bigs, false);
    if sp.files.is_empty() { return Ok(Info::default()); }
    let victim = gen(sp.files.len() as u64) as usize;
    let mut w: WritablePbo<Growing> = WritablePbo::new();
    for (k, v) in &sp.props { w.add_property(k.clone(), v.clone()); }
    let mut sp2 = sp.clone();
    for (i, (n, d)) in sp.files.iter().enumerate() {
        let mut after = d.clone();
        if i == victim {
            let mut v = d.to_vec();
            match fault(3) { 0 => { let k = fault(v.len() as u64 + 1) as usize; v.truncate(k); } 1 => { let k = 1 + fault(200) as usize; v.extend(vec![b'!'; k]); } _ => v.clear() }
            after = Arc::new(v);
            sp2.files[i].1 = after.clone();
        }
        let src = Growing { inner: SimReader::new(d.clone(), Plan::default()), after, seeks: 0, at: 2 };
        match guard(|| w.add_file(n.clone(), src)) { Ok(Ok(_)) => {} Ok(Err(e)) => return bad("add_file fails although the stream works", e.to_string()), Err(p) => return bad(format!("add_file panics: {}", norm(&p)), p) }
    }
    let (mut out, sink) = SimWriter::new(Plan::default());
    let r = guard(|| w.write(&mut out, sp.with_props));
    let s = sink.lock().unwrap();
    match r {
        Err(p) => bad(format!("write panics instead of failing: {}", norm(&p)), p),
        Ok(Err(_)) => Ok(Info { nontrivial: true, key: sp.key(), sample: Some(format!("source {victim} resized: {}", sp.sample())) }),
        // success is only right when the archive is complete and consistent for one of the two states
        Ok(Ok(_)) => match matches(&sp, &s.data).or_else(|_| matches(&sp2, &s.data)) { Ok(_) => Ok(Info::default()), Err(v) => bad(format!("write reports success for a source whose length changed: {}", v.sig), format!("{}; {}", v.detail, sp.sample())) },
    }
}
fn p02_read() -> Verdict {
    let sp = spec(6, false, false);
    let data = sp.build()?;
    let want = sp.model();
    let mut plan = Plan::benign();
    plan.sticky = faultp(1, 2);
    match fault(3) { 0 => plan.fail_at_op = Some(fault(40 + 8 * want.len() as u64 * 4)), 1 => plan.fail_at_byte = Some((fault(data.len() as u64), Fail::Error)), _ => plan.fail_at_op = Some(fault(400)) }
    // let most runs get past opening
    let e = |p: String| Violation { sig: format!("read panics instead of failing: {}", norm(&p)), detail: p };
    let stats = Arc::new(std::sync::Mutex::new(simcore::streams::Stats::default()));
    let r = guard(|| ReadablePbo::from(reader(&data, plan).with_stats(stats.clone()))).map_err(e)?;
    let Ok(mut r) = r else { return Ok(Info { nontrivial: true, key: mix(sp.key(), 5), sample: None }) };
    let mut l: Vec<Vec<u8>> = r.files().iter().map(|h| h.filename().as_bytes().to_vec()).collect();
    l.sort();
    ensure!(l == want.keys().cloned().collect::<Vec<_>>(), "archive opened through a failing stream lists other files", "{:?}", l.iter().map(|n| lower(n)).collect::<Vec<_>>());
    let gp: BTreeMap<Vec<u8>, Vec<u8>> = r.properties().iter().map(|(k, v)| (k.clone().into_bytes(), v.clone().into_bytes())).collect();
    ensure!(gp == sp.prop_model(), "archive opened through a failing stream has other properties", "{gp:?}");
    ensure!(r.checksum().as_bytes() == &data[data.len() - 20..], "archive opened through a failing stream has another checksum", "{}", r.checksum().hex());
    let (arch, _) = decode(&data).map_err(|e| Violation { sig: "written archive is malformed".into(), detail: e })?;
    for _ in 0..1 + gen(10) {
        match gen(4) {
            0 | 1 if !want.is_empty() => {
                let names: Vec<_> = want.keys().collect();
                let n = names[gen(names.len() as u64) as usize];
                let s = String::from_utf8(n.clone()).unwrap();
                let g = guard(|| -> Result<Option<Vec<u8>>, String> { let Some(mut f) = r.file(&s).map_err(|e| e.to_string())? else { return Ok(None) }; let mut v = vec![]; f.read_to_end(&mut v).map_err(|e| e.to_string())?; Ok(Some(v)) }).map_err(e)?;
                match g { Ok(None) => return bad("an I/O error makes an archived file look missing", s), Ok(Some(v)) => ensure!(v == **want.get(n).unwrap(), "an I/O error yields wrong file data", "{s}: {}", diff(&v, &want[n])), Err(_) => {} }
            }
            2 => if let Ok(c) = guard(|| r.gen_checksum()).map_err(e)? {
                ensure!(c.as_bytes() == &data[data.len() - 20..], "an I/O error yields a wrong checksum", "{}", c.hex());
            },
            _ => {
                if let Ok(c) = guard(|| r.hash_filenames()).map_err(e)? {
                    let mut es: Vec<&Entry> = arch.entries.iter().collect();
                    es.sort_by_key(|e| lower(&e.name));
                    let mut v = vec![];
                    for x in es { if !x.data.is_empty() { v.extend_from_slice(lower(&x.name).as_bytes()); } }
                    ensure!(c.as_bytes() == &simcore::sha1::sha1(&v), "an I/O error yields a wrong hash of the file names", "{}", c.hex());
                }
                let _ = guard(|| r.hash_files(BISignVersion::V3)).map_err(e)?;
            }
        }
    }
    let st = stats.lock().unwrap();
    Ok(Info { nontrivial: st.hard > 0, key: mix(sp.key(), st.ops), sample: None })
}

// ---- P03 ----
fn p03(sp: &Spec) -> Verdict {
    let mut ref_bytes: Option<Vec<u8>> = None;
    let mut refsum = None;
    for k in 0..2 + gen(2) {
        let order = shuffled(sp.files.len());
        let plans: Vec<Plan> = sp.files.iter().map(|_| Plan::benign()).collect();
        let out_plan = Plan::benign();
        sim::reseed_env(simcore::env(1 << 40));
        let spc = sp.clone();
        // a fresh thread has fresh hash keys
        let r = std::thread::spawn(move || {
            sim::set_opts(|o| { o.alloc_gap = 6; o.io_gap = 3; });
            guard(move || {
                let mut w = spc.writable(&order, |i| plans[i].clone());
                let (mut out, sink) = SimWriter::new(out_plan);
                let r = w.write(&mut out, spc.with_props).map_err(|e| e.to_string())?;
                let d = std::mem::take(&mut sink.lock().unwrap().data);
                let mut rd = ReadablePbo::from(reader(&d, Plan::default())).map_err(|e| e.to_string())?;
                let g = rd.gen_checksum().map_err(|e| e.to_string())?;
                let n = rd.hash_filenames().ok().map(|c| *c.as_bytes());
                let f = rd.hash_files(BISignVersion::V3).map_err(|e| e.to_string())?;
                Ok::<_, String>((d, (*r.as_bytes(), *g.as_bytes(), n, *f.as_bytes())))
            })
        }).join();
        match r {
            Ok(Ok(Ok((d, s)))) => {
                match &ref_bytes { None => ref_bytes = Some(d), Some(x) => ensure!(*x == d, "same contents, different archive bytes", "build {k}: {}; {}", diff(&d, x), sp.sample()) }
                match &refsum { None => refsum = Some(s), Some(x) => ensure!(*x == s, "same contents, different hashes", "build {k}; {}", sp.sample()) }
            }
            Ok(Ok(Err(e))) => return bad("write fails although every stream works", e),
            Ok(Err(p)) => return bad(format!("panic: {}", norm(&p)), p),
            Err(_) => return bad("thread died", ""),
        }
    }
    Ok(Info { nontrivial: sp.files.len() > 1, key: sp.key(), sample: Some(sp.sample()) })
}
fn p03_small() -> Verdict { p03(&spec(10, false, false)) }
fn p03_case() -> Verdict { p03(&spec(6, false, true)) }
fn p03_threads() -> Verdict { p03(&spec(2, true, false)) }

// ---- P04 ----
fn p04(sp: &Spec) -> Verdict {
    let data = sp.build()?;
    let (_, lay) = decode(&data).map_err(|e| Violation { sig: "written archive is malformed".into(), detail: e })?;
    let mut d = data.clone();
    let mut what = vec![];
    for _ in 0..1 + fault(2) { what.push(match fault(3) {
        0 => { let h = lay.term.1.min(d.len()); let mut head = d[..h].to_vec(); let s = damage(&mut head); let mut n = head; n.extend_from_slice(&d[h..]); d = n; format!("header: {s}") }
        _ => damage(&mut d),
    }); }
    let what = what.join(", ");
    if d == data { return Ok(Info::default()); }
    simcore::alloc::limit((1 << 20) + 8 * d.len(), (4 << 20) + 16 * d.len());
    let e = |p: String| Violation { sig: format!("damaged archive crashes the reader: {}", norm(&p)), detail: format!("{p} ({what})") };
    let opened = guard(|| ReadablePbo::from(reader(&d, Plan::default()))).map_err(e)?;
    let Ok(mut r) = opened else { return Ok(Info { nontrivial: true, key: hash_bytes(1, &d), sample: Some(format!("rejected: {what}")) }) };
    // read everything
    let mut got: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    let mut read_err = false;
    for h in r.files().into_iter().take(64) {
        let v = guard(|| -> Result<Option<Vec<u8>>, std::io::Error> { match r.file(h.filename()) { Ok(Some(mut f)) => { let mut v = vec![]; f.read_to_end(&mut v)?; Ok(Some(v)) } Ok(None) => Ok(None), Err(e) => Err(std::io::Error::other(e.to_string())) } }).map_err(e)?;
        match v { Ok(Some(v)) => { if v.len() != h.size() as usize { read_err = true; } got.insert(h.filename().as_bytes().to_vec(), v); } Ok(None) => return bad("a listed file is not found", format!("{} ({what})", h.filename())), Err(_) => read_err = true }
        let _ = guard(|| r.file_offset(h.filename())).map_err(e)?;
    }
    let _ = guard(|| r.files_sorted()).map_err(e)?;
    let _ = guard(|| r.is_sorted().is_ok()).map_err(e)?;
    let _ = guard(|| r.hash_filenames()).map_err(e)?;
    let _ = guard(|| r.hash_files(BISignVersion::V2)).map_err(e)?;
    let g = guard(|| r.gen_checksum()).map_err(e)?;
    let want: BTreeMap<Vec<u8>, Vec<u8>> = sp.model().into_iter().map(|(k, v)| (k, v.to_vec())).collect();
    if let Ok(c) = g {
        if !read_err && c.as_bytes() == r.checksum().as_bytes() {
            ensure!(got == want && r.files().len() == want.len(), "damaged archive passes as intact", "{what}: files {:?}, expected {:?}", got.iter().map(|(n, v)| (lower(n), v.len())).collect::<Vec<_>>(), want.iter().map(|(n, v)| (lower(n), v.len())).collect::<Vec<_>>());
        }
    }
    Ok(Info { nontrivial: true, key: hash_bytes(2, &d), sample: Some(format!("opened: {what}")) })
}
fn p04_small() -> Verdict {
    let mut sp = spec(6, false, false);
    for f in &mut sp.files { if f.1.len() > 2000 { f.1 = Arc::new(f.1[..2000].to_vec()); } }
    p04(&sp)
}
fn p04_big() -> Verdict { p04(&spec(10, false, false)) }

fn th() -> Opts { Opts { stack: 4 << 20, max_steps: 5_000_000, ..Opts::default() } }
const REAL: &[&str] = &["hemtt-pbo", "hemtt-common::io", "std threads (real OS threads, one running at a time)"];
const STUB: &[&str] = &["source and destination streams (simulated)", "scheduler, clock, random numbers (simulated)"];
pub fn props() -> Vec<Property> {
    let _ = pbofmt::padded;
    vec![
        Property { id: "P01", level: "exploration", rule: "an archive with at least one file was written and read back", real: REAL, stub: STUB, assumptions: &["names contain no NUL, property keys are not empty", "oracle: independent PBO decoder and SHA-1"],
            scenarios: vec![Scenario::new("small", 72_000, 400_000, p01_small).opts(th), Scenario::new("threads", 3_600, 12_000, p01_threads).opts(th), Scenario::new("twins", 24_000, 80_000, p01_twins).opts(th), Scenario::new("repack", 24_000, 100_000, p01_repack).opts(th)] },
        Property { id: "P02", level: "fault_enumeration", rule: "an injected failure was reported as an error", real: REAL, stub: STUB, assumptions: &["a stream that failed once may or may not fail again (both explored)"],
            scenarios: vec![Scenario::new("dest", 96_000, 300_000, p02_dest_small).opts(th), Scenario::new("dest-threads", 4_800, 12_000, p02_dest_threads).opts(th), Scenario::new("source", 64_000, 200_000, p02_source_small).opts(th),
                Scenario::new("source-threads", 3_200, 8_000, p02_source_threads).opts(th), Scenario::new("resize", 32_000, 80_000, p02_resize).opts(th), Scenario::new("read", 96_000, 300_000, p02_read).opts(th)] },
        Property { id: "P03", level: "exploration", rule: "the same contents (two or more files) were archived two or more times under different orders, hash seeds and schedules", real: REAL, stub: STUB, assumptions: &["properties are added in the same order (their order is part of the content)"],
            scenarios: vec![Scenario::new("small", 48_000, 200_000, p03_small).opts(th), Scenario::new("case", 32_000, 100_000, p03_case).opts(th), Scenario::new("threads", 2_400, 6_000, p03_threads).opts(th)] },
        Property { id: "P04", level: "fault_enumeration", rule: "the archive was really altered", real: REAL, stub: STUB, assumptions: &["memory is bounded by 1 MiB + 8x (one allocation) and 4 MiB + 16x (total) of the archive size"],
            scenarios: vec![Scenario::new("small", 480_000, 800_000, p04_small).opts(th), Scenario::new("large", 64_000, 100_000, p04_big).opts(th)] },
    ]
}
