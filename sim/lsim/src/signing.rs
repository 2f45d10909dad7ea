//! P05-P07: signing.
use crate::pbo::{self, Spec};
use crate::pbofmt::{bisign_hashes, decode, encode, lower, padded, Archive, Entry};
use crate::util::*;
use hemtt_pbo::{BISignVersion, ReadablePbo};
use hemtt_signing::{BIPrivateKey, BIPublicKey, BISign};
use rsa::BigUint;
use simcore::driver::{bad, Info, Property, Scenario, Verdict, Violation};
use simcore::sim::{self, Opts};
use simcore::streams::{damage, Fail, Plan, SimReader, SimWriter};
use simcore::tape::{hash_bytes, mix};
use simcore::{ensure, fault, gen, genp};

const KEYS: [&[u8]; 5] = [include_bytes!("../keys/k0_512.bin"), include_bytes!("../keys/k1_512.bin"), include_bytes!("../keys/k2_512.bin"), include_bytes!("../keys/k3_1024.bin"), include_bytes!("../keys/k4_1024.bin")];
const AUTH: [&str; 5] = ["test", "ace_3.18.2", "a", "", "authorité with spaces"];

/// Independently parsed key and signature files.
#[derive(Clone, Debug, PartialEq)]
struct Pub { auth: Vec<u8>, len: u32, e: u32, n: BigUint }
#[derive(Clone, Debug, PartialEq)]
struct Sig { k: Pub, s: [BigUint; 3], ver: u32 }
#[derive(Clone, Debug, PartialEq)]
struct Prv { k: Pub, parts: Vec<BigUint> }
struct Cur<'a>(&'a [u8]);
impl Cur<'_> {
    fn take(&mut self, n: usize) -> Option<&[u8]> { if self.0.len() < n { return None; } let (a, b) = self.0.split_at(n); self.0 = b; Some(a) }
    fn word(&mut self) -> Option<u32> { self.take(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]])) }
    fn auth(&mut self) -> Option<Vec<u8>> { let n = self.0.iter().position(|b| *b == 0)?; let r = self.take(n)?.to_vec(); self.take(1)?; Some(r) }
    fn num(&mut self, n: usize) -> Option<BigUint> { self.take(n).map(BigUint::from_bytes_le) }
    fn public(&mut self, private: bool) -> Option<Pub> {
        let auth = self.auth()?;
        let temp = self.word()?;
        self.take(12)?;
        let len = self.word()?;
        let e = self.word()?;
        if temp != if private { len / 16 * 9 + 20 } else { len / 8 + 20 } { return None; }
        Some(Pub { auth, len, e, n: self.num(len as usize / 8)? })
    }
}
fn parse_pub(b: &[u8]) -> Option<Pub> { Cur(b).public(false) }
fn parse_sig(b: &[u8]) -> Option<Sig> {
    let mut c = Cur(b);
    let k = c.public(false)?;
    let l = k.len as usize / 8;
    c.word()?;
    let s1 = c.num(l)?;
    let ver = c.word()?;
    c.word()?;
    let s2 = c.num(l)?;
    c.word()?;
    let s3 = c.num(l)?;
    Some(Sig { k, s: [s1, s2, s3], ver })
}
fn parse_prv(b: &[u8]) -> Option<Prv> {
    let mut c = Cur(b);
    let k = c.public(true)?;
    let h = k.len as usize / 16;
    let mut parts = vec![];
    for n in [h, h, h, h, h, h * 2] { parts.push(c.num(n)?); }
    Some(Prv { k, parts })
}
fn encode_sig(s: &Sig) -> Vec<u8> {
    let l = s.k.len as usize / 8;
    let num = |n: &BigUint| { let mut v = n.to_bytes_le(); v.resize(l, 0); v };
    let w = |x: u32| x.to_le_bytes();
    let mut o = s.k.auth.clone();
    o.push(0);
    o.extend(w(s.k.len / 8 + 20));
    o.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
    o.extend(w(s.k.len));
    o.extend(w(s.k.e));
    o.extend(num(&s.k.n));
    o.extend(w(l as u32));
    o.extend(num(&s.s[0]));
    o.extend(w(s.ver));
    for x in &s.s[1..] { o.extend(w(l as u32)); o.extend(num(x)); }
    o
}
fn encode_pub(k: &Pub) -> Vec<u8> {
    let l = k.len as usize / 8;
    let mut o = k.auth.clone();
    o.push(0);
    o.extend((k.len / 8 + 20).to_le_bytes());
    o.extend(b"\x06\x02\x00\x00\x00\x24\x00\x00RSA1");
    o.extend(k.len.to_le_bytes());
    o.extend(k.e.to_le_bytes());
    let mut n = k.n.to_bytes_le();
    n.resize(l, 0);
    o.extend(n);
    o
}

fn key_bytes(i: usize, auth: &str) -> Vec<u8> { let mut b = auth.as_bytes().to_vec(); b.push(0); b.extend_from_slice(KEYS[i]); b }
fn key(i: usize, auth: &str, plan: Plan) -> Result<BIPrivateKey, Violation> { must("reading a private key", || BIPrivateKey::read(&mut reader(&key_bytes(i, auth), plan))) }
fn pick_key() -> usize { match gen(8) { 0..=2 => 0, 3 => 1, 4 => 2, 5 | 6 => 3, _ => 4 } }
fn version() -> BISignVersion { if genp(1, 2) { BISignVersion::V2 } else { BISignVersion::V3 } }
fn vnum(v: BISignVersion) -> u32 { match v { BISignVersion::V2 => 2, BISignVersion::V3 => 3 } }

fn spec() -> Spec {
    let mut s = pbo::spec(7, false, false);
    s.with_props = true;
    if s.files.is_empty() { s.files.push(("config.cpp".into(), std::sync::Arc::new(b"class a;".to_vec()))); }
    for f in &mut s.files { if f.1.len() > 20_000 { f.1 = std::sync::Arc::new(f.1[..20_000].to_vec()); } }
    if genp(1, 3) && !s.props.iter().any(|p| p.0 == "prefix") { s.props.push(("prefix".into(), "z\\mod\\addons\\main".into())); }
    s
}
/// The stored archive of a spec, from the oracle's encoder (sorted).
fn archive_of(s: &Spec) -> Archive {
    let mut entries: Vec<Entry> = s.model().into_iter().map(|(n, d)| Entry { name: n, mime: 0, original: d.len() as u32, reserved: 0, timestamp: 0, data: d.to_vec() }).collect();
    entries.sort_by_key(|e| lower(&e.name));
    let mut props: Vec<(Vec<u8>, Vec<u8>)> = s.props.iter().map(|(k, v)| (k.clone().into_bytes(), v.clone().into_bytes())).collect();
    props.sort_by_key(|p| p.0 != b"prefix");
    Archive { vers: true, props, entries }
}
/// Archives other tools make: timestamps, prefixes as they were typed in.
fn foreign(mut a: Archive) -> Archive {
    for e in &mut a.entries { if genp(1, 3) { e.timestamp = gen(1 << 32) as u32; } if genp(1, 6) { e.original = gen(1 << 20) as u32; } if genp(1, 6) { e.reserved = gen(1 << 20) as u32; } }
    if genp(1, 2) {
        let p: &[u8] = pick(&[&b"z\\mod\\addons\\main\\"[..], b"main\\", b"\\z\\mod", b"x\\\\", b"\\"]);
        a.props.retain(|x| x.0 != b"prefix");
        a.props.insert(0, (b"prefix".to_vec(), p.to_vec()));
    }
    a
}
fn open(b: &[u8], plan: Plan) -> Result<ReadablePbo<SimReader>, Violation> { must("opening an archive", || ReadablePbo::from(reader(b, plan))) }
fn sig_bytes(s: &BISign, plan: Plan) -> Result<Vec<u8>, Violation> {
    let (mut w, sink) = SimWriter::new(plan);
    must("writing a signature", || s.write(&mut w))?;
    let d = std::mem::take(&mut sink.lock().unwrap().data);
    Ok(d)
}
fn pub_bytes(k: &BIPublicKey, plan: Plan) -> Result<Vec<u8>, Violation> {
    let (mut w, sink) = SimWriter::new(plan);
    must("writing a public key", || k.write(&mut w))?;
    let d = std::mem::take(&mut sink.lock().unwrap().data);
    Ok(d)
}

// ---- P05 ----
fn check_signature(sp: &Spec, data: &[u8], ki: usize, auth: &str, ver: BISignVersion, sb: &[u8]) -> Result<(), Violation> {
    let (a, _) = decode(data).map_err(|e| Violation { sig: "written archive is malformed".into(), detail: e })?;
    let Some(s) = parse_sig(sb) else { return bad("signature file is malformed", hexs(sb)) };
    let kb = parse_prv(&key_bytes(ki, auth)).unwrap().k;
    ensure!(s.k == kb, "signature carries another key", "{:?} vs {:?}", s.k, kb);
    ensure!(s.ver == vnum(ver), "signature carries another version", "{}", s.ver);
    ensure!(encode_sig(&s) == sb, "signature file deviates from the format", "{}", diff(sb, &encode_sig(&s)));
    let e = BigUint::from(kb.e);
    for (i, h) in bisign_hashes(data, &a, s.ver == 3).iter().enumerate() {
        let want = BigUint::from_bytes_be(&padded(h, kb.len as usize / 8));
        ensure!(s.s[i].modpow(&e, &kb.n) == want, format!("signature value {} does not follow the BISign construction", i + 1), "{ver:?}; {}", sp.sample());
    }
    Ok(())
}
fn p05_sign() -> Verdict {
    let sp = spec();
    let data = match gen(3) { 0 => sp.build()?, 1 => encode(&archive_of(&sp)), _ => encode(&foreign(archive_of(&sp))) };
    let (ki, auth, ver) = (pick_key(), pick(&AUTH), version());
    let k = key(ki, auth, Plan::benign())?;
    let mut r = open(&data, Plan::benign())?;
    let s = must("signing", || k.sign(&mut r, ver))?;
    let sb = sig_bytes(&s, Plan::benign())?;
    check_signature(&sp, &data, ki, auth, ver, &sb)?;
    let pk = must("to_public_key", || Ok::<_, String>(k.to_public_key()))?;
    must("verifying a genuine signature", || pk.verify(&mut r, &s))?;
    // stored and reloaded
    let s2 = must("reading a signature", || BISign::read(&mut reader(&sb, Plan::benign())))?;
    let pb = pub_bytes(&pk, Plan::benign())?;
    ensure!(parse_pub(&pb) == Some(parse_prv(&key_bytes(ki, auth)).unwrap().k), "public key file differs from the private key's public half", "{}", hexs(&pb));
    let pk2 = must("reading a public key", || BIPublicKey::read(&mut reader(&pb, Plan::benign())))?;
    let mut r2 = open(&data, Plan::benign())?;
    must("verifying a reloaded signature", || pk2.verify(&mut r2, &s2))?;
    // again, elsewhere: other hash keys, other chunking, key reloaded
    sim::reseed_env(simcore::env(1 << 40));
    let d2 = data.clone();
    let (kp, rp) = (Plan::benign(), Plan::benign());
    let again = std::thread::spawn(move || -> Result<Vec<u8>, Violation> {
        let k = key(ki, auth, kp)?;
        let mut r = open(&d2, rp)?;
        let s = must("signing", || k.sign(&mut r, ver))?;
        sig_bytes(&s, Plan::default())
    }).join().map_err(|_| Violation { sig: "thread died".into(), detail: String::new() })??;
    ensure!(again == sb, "signing twice gives different signatures", "{}", diff(&again, &sb));
    Ok(Info { nontrivial: true, key: mix(hash_bytes(ki as u64, &data), u64::from(vnum(ver))), sample: Some(format!("{ver:?} key {ki} {}", sp.sample())) })
}
fn p05_keygen() -> Verdict {
    let bits = [512u32, 512, 768, 1024][gen(4) as usize];
    let auth = pick(&AUTH);
    let k = must("generating a key", || BIPrivateKey::generate(bits, auth))?;
    let (mut w, sink) = SimWriter::new(Plan::benign());
    must("writing a private key", || k.write_danger(&mut w))?;
    let b = std::mem::take(&mut sink.lock().unwrap().data);
    let Some(p) = parse_prv(&b) else { return bad("private key file is malformed", hexs(&b)) };
    ensure!(p.k.auth == auth.as_bytes() && p.k.len == bits, "generated key has another name or length", "{:?} {}", p.k.auth, p.k.len);
    let [pp, q, dp, dq, qi, d] = &p.parts[..] else { unreachable!() };
    let one = BigUint::from(1u32);
    ensure!(pp * q == p.k.n && p.k.n.bits() == bits as usize, "generated key: modulus is not p*q of the requested length", "{} bits", p.k.n.bits());
    let phi = (pp - &one) * (q - &one);
    let e = BigUint::from(p.k.e);
    let lam = &phi; // e*d = 1 modulo p-1 and q-1
    let _ = lam;
    ensure!((&e * d) % (pp - &one) == one && (&e * d) % (q - &one) == one, "generated key: exponents do not match", "");
    ensure!(&(d % (pp - &one)) == dp && &(d % (q - &one)) == dq && (qi * q) % pp == one, "generated key: CRT parts do not match", "");
    let sp = Spec { files: vec![("a.sqf".into(), std::sync::Arc::new(b"x".to_vec()))], props: vec![], with_props: true };
    let data = encode(&archive_of(&sp));
    let mut r = open(&data, Plan::benign())?;
    let ver = version();
    let s = must("signing", || k.sign(&mut r, ver))?;
    must("verifying a genuine signature", || k.to_public_key().verify(&mut r, &s))?;
    let k2 = must("reading a private key", || BIPrivateKey::read(&mut reader(&b, Plan::benign())))?;
    let s2 = must("signing", || k2.sign(&mut r, ver))?;
    ensure!(sig_bytes(&s, Plan::default())? == sig_bytes(&s2, Plan::default())?, "a reloaded key signs differently", "");
    Ok(Info { nontrivial: true, key: hash_bytes(1, &b), sample: Some(format!("{bits} bits, authority {auth:?}")) })
}

// ---- P06 ----
fn signed() -> Result<(Spec, Archive, Vec<u8>, usize, &'static str, BISignVersion, Vec<u8>, Vec<u8>), Violation> {
    let sp = spec();
    let a = archive_of(&sp);
    let data = encode(&a);
    let (ki, auth, ver) = (pick_key(), pick(&AUTH), version());
    let k = key(ki, auth, Plan::default())?;
    let mut r = open(&data, Plan::default())?;
    let s = must("signing", || k.sign(&mut r, ver))?;
    let sb = sig_bytes(&s, Plan::default())?;
    let pb = pub_bytes(&k.to_public_key(), Plan::default())?;
    Ok((sp, a, data, ki, auth, ver, sb, pb))
}
fn verify(data: &[u8], sb: &[u8], pb: &[u8]) -> Result<Result<(), String>, Violation> {
    run("verification", || {
        let mut r = ReadablePbo::from(reader(data, Plan::default())).map_err(|e| e.to_string())?;
        let s = BISign::read(&mut &sb[..]).map_err(|e| e.to_string())?;
        let k = BIPublicKey::read(&mut &pb[..]).map_err(|e| e.to_string())?;
        k.verify(&mut r, &s).map_err(|e| e.to_string())
    })
}
/// A semantic change of the archive by someone who can recompute checksums.
fn tamper(a: &mut Archive) -> Option<String> {
    let n = a.entries.len();
    let i = gen(n as u64) as usize;
    let what = match gen(9) {
        0 => { let e = &mut a.entries[i]; if e.data.is_empty() { return None; } let k = gen(e.data.len() as u64) as usize; e.data[k] ^= 1 << gen(8); format!("byte {k} of {} changed", lower(&e.name)) }
        1 => { let e = &mut a.entries[i]; e.data.push(gen(256) as u8); e.original += 1; format!("byte appended to {}", lower(&e.name)) }
        2 => { let e = &mut a.entries[i]; e.data.pop()?; e.original -= 1; format!("byte removed from {}", lower(&e.name)) }
        3 => { let e = a.entries.remove(i); format!("{} removed", lower(&e.name)) }
        4 => { let d = bytes(1 + gen(20) as usize); let name = format!("extra.{}", ext()).into_bytes(); if a.entries.iter().any(|e| lower(&e.name) == lower(&name)) { return None; } a.entries.push(Entry { name, mime: 0, original: d.len() as u32, reserved: 0, timestamp: 0, data: d }); "file added".into() }
        5 => { let e = &mut a.entries[i]; e.name.insert(0, b'q'); format!("renamed to {}", lower(&e.name)) }
        6 => { let j = gen(n as u64) as usize; if a.entries[i].data == a.entries[j].data { return None; } let t = a.entries[i].data.clone(); a.entries[i].data = a.entries[j].data.clone(); a.entries[j].data = t; for k in [i, j] { a.entries[k].original = a.entries[k].data.len() as u32; } format!("contents of {i} and {j} swapped") }
        7 => { match a.props.iter_mut().find(|p| p.0 == b"prefix") { Some(p) => { p.1.push(b'x'); "prefix changed".into() } None => { a.props.insert(0, (b"prefix".to_vec(), b"z\\evil".to_vec())); "prefix added".into() } } }
        _ => { a.props.iter().position(|p| p.0 == b"prefix").map(|k| { a.props.remove(k); "prefix removed".to_string() })? }
    };
    a.entries.sort_by_key(|e| lower(&e.name));
    Some(what)
}
fn p06_tamper() -> Verdict {
    let (sp, a, data, _, _, ver, sb, pb) = signed()?;
    let mut b = a.clone();
    let Some(what) = tamper(&mut b) else { return Ok(Info::default()) };
    if a == b || b.entries.is_empty() { return Ok(Info::default()); }
    let forged = encode(&b);
    match verify(&forged, &sb, &pb)? {
        Ok(()) => bad("a tampered archive verifies", format!("{what}; {ver:?}; {}", sp.sample())),
        Err(_) => { ensure!(verify(&data, &sb, &pb)?.is_ok(), "the untouched archive no longer verifies", "{}", sp.sample()); Ok(Info { nontrivial: true, key: hash_bytes(1, &forged), sample: Some(what) }) }
    }
}
fn p06_signature() -> Verdict {
    let (sp, a, data, ki, auth, ver, sb, pb) = signed()?;
    let good = parse_sig(&sb).unwrap();
    let mut s = good.clone();
    let other = { let mut b = a; let _ = tamper(&mut b); b };
    let resign = |k: usize, d: &[u8], v: BISignVersion| -> Result<Sig, Violation> {
        let k = key(k, auth, Plan::default())?;
        let mut r = open(d, Plan::default())?;
        let s = must("signing", || k.sign(&mut r, v))?;
        Ok(parse_sig(&sig_bytes(&s, Plan::default())?).unwrap())
    };
    let what = match gen(8) {
        0 => { let i = gen(3) as usize; s.s[i] += BigUint::from(1 + gen(1000)); format!("value {i} altered") }
        1 => { let (i, j) = [(0, 1), (1, 2), (0, 2)][gen(3) as usize]; s.s.swap(i, j); format!("values {i},{j} swapped") }
        2 => {
            // where both versions cover the same contents it is the very signature of the other version
            if resign(ki, &data, if ver == BISignVersion::V2 { BISignVersion::V3 } else { BISignVersion::V2 })?.s == good.s { return Ok(Info::default()); }
            s.ver = 5 - s.ver;
            "version changed".into()
        }
        3 => { s.k.auth.push(b'x'); "authority changed".into() }
        4 => { let i = gen(3) as usize; s.s[i] = BigUint::from(gen(3)); format!("value {i} trivial") }
        5 => { if other.entries.is_empty() { return Ok(Info::default()); } s = resign(ki, &encode(&other), ver)?; "signature of another archive".into() }
        6 => { let i = gen(3) as usize; let t = if other.entries.is_empty() { return Ok(Info::default()) } else { resign(ki, &encode(&other), ver)? }; s.s[i] = t.s[i].clone(); format!("value {i} of another archive") }
        _ => { let t = resign(ki, &data, if ver == BISignVersion::V2 { BISignVersion::V3 } else { BISignVersion::V2 })?; s.s = t.s; "values of the other version".into() }
    };
    if s == good { return Ok(Info::default()); }
    // a changed file that hashes alike (contents outside the signed set) leaves individual values equal
    match verify(&data, &encode_sig(&s), &pb)? {
        Ok(()) => bad("an altered signature verifies", format!("{what}; {ver:?}; {}", sp.sample())),
        Err(_) => Ok(Info { nontrivial: true, key: hash_bytes(2, &encode_sig(&s)), sample: Some(what) }),
    }
}
/// Somebody with another key of the same length and name.
fn p06_foreign() -> Verdict {
    let (sp, a, data, ki, auth, ver, sb, pb) = signed()?;
    let fi = match ki { 0 => 1 + gen(2) as usize, 1 => 2, 2 => 0, 3 => 4, _ => 3 };
    let fk = key(fi, auth, Plan::default())?;
    let mut b = a.clone();
    let what = if genp(1, 2) { tamper(&mut b).unwrap_or_default() } else { String::new() };
    if b.entries.is_empty() { return Ok(Info::default()); }
    let d = encode(&b);
    let mut r = open(&d, Plan::default())?;
    let fs = must("signing", || fk.sign(&mut r, ver))?;
    let mut s = parse_sig(&sig_bytes(&fs, Plan::default())?).unwrap();
    let orig = parse_sig(&sb).unwrap();
    let mode = gen(4);
    match mode { 0 => {} 1 => s.k = orig.k.clone(), 2 => s.k.e = 1, _ => { s.k.len = orig.k.len; } }
    let key_used = parse_pub(&pb).unwrap();
    if mode == 2 { s.s = bisign_hashes(&d, &b, vnum(ver) == 3).map(|h| BigUint::from_bytes_be(&padded(&h, key_used.len as usize / 8))); }
    match verify(&d, &encode_sig(&s), &pb)? {
        Ok(()) => return bad("a signature made with a foreign key verifies", format!("mode {mode} {what}; {ver:?}; {}", sp.sample())),
        Err(_) => {}
    }
    // and the genuine signature under the foreign public key
    let fpb = pub_bytes(&fk.to_public_key(), Plan::default())?;
    ensure!(verify(&data, &sb, &fpb)?.is_err(), "a foreign public key accepts the signature", "{}", sp.sample());
    // a key of another length and name
    let mut k2 = key_used;
    k2.auth.push(b'2');
    ensure!(verify(&data, &sb, &encode_pub(&k2))?.is_err(), "a key of another name accepts the signature", "{}", sp.sample());
    Ok(Info { nontrivial: true, key: mix(hash_bytes(3, &d), mode), sample: Some(format!("mode {mode} {what}")) })
}
fn p06_damage() -> Verdict {
    let (sp, a, data, _, _, ver, sb, pb) = signed()?;
    let (mut d, mut s, mut p) = (data.clone(), sb.clone(), pb.clone());
    let which = gen(3);
    let what = match which { 0 => damage(&mut d), 1 => damage(&mut s), _ => damage(&mut p) };
    simcore::alloc::limit(1 << 20, 8 << 20);
    let r = verify(&d, &s, &p)?;
    simcore::alloc::unlimit();
    let nontrivial = d != data || s != sb || p != pb;
    if r.is_ok() {
        let (_, lay) = decode(&data).map_err(|e| Violation { sig: "written archive is malformed".into(), detail: e })?;
        // parts of an archive no hash covers: fields of the terminator entry, the trailing checksum
        let same_archive = d == data || (d.len() == data.len() && d[..lay.term.0 + 1] == data[..lay.term.0 + 1] && d[lay.term.1..lay.body_end] == data[lay.term.1..lay.body_end])
            || crate::pbofmt::decode_lenient(&d).is_some_and(|x| x.entries == a.entries && x.prop("prefix") == a.prop("prefix"));
        ensure!(same_archive, "a damaged archive verifies", "{what}; {ver:?}; {}", sp.sample());
        ensure!(parse_sig(&s) == parse_sig(&sb), "a damaged signature verifies", "{what}; {ver:?}; {}", sp.sample());
        ensure!(parse_pub(&p) == parse_pub(&pb), "a damaged public key verifies", "{what}; {ver:?}; {}", sp.sample());
    }
    Ok(Info { nontrivial, key: hash_bytes(hash_bytes(hash_bytes(4, &d), &s), &p), sample: Some(format!("{}: {what}", ["archive", "signature", "key"][which as usize])) })
}

// ---- P07 ----
fn artefact() -> Result<(u64, Vec<u8>), Violation> {
    let ki = pick_key();
    let auth = pick(&AUTH);
    let which = gen(3);
    let kb = key_bytes(ki, auth);
    Ok((which, match which {
        0 => kb,
        1 => encode_pub(&parse_prv(&kb).unwrap().k),
        _ => { let k = key(ki, auth, Plan::default())?; let sp = spec(); let d = encode(&archive_of(&sp)); let mut r = open(&d, Plan::default())?; let ver = version(); let s = must("signing", || k.sign(&mut r, ver))?; sig_bytes(&s, Plan::default())? }
    }))
}
enum Art { Prv(BIPrivateKey), Pub(BIPublicKey), Sig(BISign) }
fn read_art(which: u64, r: &mut SimReader) -> Result<Result<Art, String>, Violation> {
    run("reading a key or signature", || match which { 0 => BIPrivateKey::read(r).map(Art::Prv), 1 => BIPublicKey::read(r).map(Art::Pub), _ => BISign::read(r).map(Art::Sig) }.map_err(|e| e.to_string()))
}
fn write_art(a: &Art, w: &mut SimWriter) -> Result<Result<(), String>, Violation> {
    run("writing a key or signature", || match a { Art::Prv(k) => k.write_danger(w), Art::Pub(k) => k.write(w), Art::Sig(s) => s.write(w) }.map_err(|e| e.to_string()))
}
const KIND: [&str; 3] = ["private key", "public key", "signature"];
fn p07_roundtrip() -> Verdict {
    let (which, b) = artefact()?;
    let a = match read_art(which, &mut reader(&b, Plan::benign()))? { Ok(a) => a, Err(e) => return bad("a stored key or signature cannot be read", format!("{}: {e}", KIND[which as usize])) };
    match &a {
        Art::Pub(k) => { let p = parse_pub(&b).unwrap(); ensure!(k.authority().as_bytes() == &p.auth[..] && k.length() == p.len && *k.exponent() == BigUint::from(p.e) && *k.modulus() == p.n, "public key read differs", "{k:?}"); }
        Art::Sig(s) => { let p = parse_sig(&b).unwrap(); let x = s.signatures(); ensure!(s.authority().as_bytes() == &p.k.auth[..] && s.length() == p.k.len && *s.exponent() == BigUint::from(p.k.e) && *s.modulus() == p.k.n && vnum(s.version()) == p.ver && [x.0, x.1, x.2] == [&p.s[0], &p.s[1], &p.s[2]], "signature read differs", "{s:?}"); }
        Art::Prv(k) => { let p = parse_prv(&b).unwrap(); let pk = k.to_public_key(); ensure!(pk.authority().as_bytes() == &p.k.auth[..] && *pk.modulus() == p.k.n, "private key read differs", "{pk:?}"); }
    }
    let (mut w, sink) = SimWriter::new(Plan::benign());
    if let Err(e) = write_art(&a, &mut w)? { return bad("writing fails although the stream works", e); }
    let got = sink.lock().unwrap().data.clone();
    ensure!(got == b, format!("{} does not survive storage", KIND[which as usize]), "{}", diff(&got, &b));
    Ok(Info { nontrivial: true, key: hash_bytes(which, &b), sample: Some(KIND[which as usize].into()) })
}
fn p07_write_fault() -> Verdict {
    let (which, b) = artefact()?;
    let a = match read_art(which, &mut reader(&b, Plan::default()))? { Ok(a) => a, Err(e) => return bad("a stored key or signature cannot be read", e) };
    let (mut w, sink) = SimWriter::new(Plan::failing(b.len() as u64, true));
    let r = write_art(&a, &mut w)?;
    let s = sink.lock().unwrap();
    if r.is_ok() { ensure!(s.data == b, format!("writing a {} reports success but stored something else", KIND[which as usize]), "{}", diff(&s.data, &b)); }
    Ok(Info { nontrivial: r.is_err(), key: mix(hash_bytes(which, &b), s.data.len() as u64), sample: None })
}
fn p07_read_fault() -> Verdict {
    let (which, b) = artefact()?;
    let mut p = Plan::failing(b.len() as u64, false);
    if matches!(p.fail_at_byte, Some((_, Fail::End))) { p.sticky = true; }
    let r = read_art(which, &mut reader(&b, p))?;
    let Ok(a) = r else { return Ok(Info { nontrivial: true, key: hash_bytes(which, &b), sample: None }) };
    let (mut w, sink) = SimWriter::new(Plan::default());
    if let Err(e) = write_art(&a, &mut w)? { return bad("writing fails although the stream works", e); }
    ensure!(sink.lock().unwrap().data == b, format!("a {} read through a failing stream differs", KIND[which as usize]), "{}", diff(&sink.lock().unwrap().data, &b));
    Ok(Info::default())
}
fn p07_damage() -> Verdict {
    let (which, b) = artefact()?;
    let mut d = b.clone();
    let what = if fault(4) == 3 {
        // both length fields consistently wrong: only the data itself can tell
        let p = d.iter().position(|c| *c == 0).unwrap() + 1;
        let len = [0u32, 16, 128, 256, 288, 1 << 20, 1 << 28, u32::MAX, u32::MAX - 15][fault(9) as usize];
        let temp = if which == 0 { len / 16 * 9 + 20 } else { len / 8 + 20 };
        d[p..p + 4].copy_from_slice(&temp.to_le_bytes());
        d[p + 16..p + 20].copy_from_slice(&len.to_le_bytes());
        simcore::fired("damage-length");
        format!("length fields say {len}")
    } else if fault(8) == 7 {
        let p = d.iter().position(|c| *c == 0).unwrap() + 25;
        let l = if which == 0 { parse_prv(&b).unwrap().k.len } else { parse_pub(&b).unwrap().len } as usize / 8;
        d[p..p + l].fill(0);
        simcore::fired("damage-zero-block");
        "modulus zeroed".into()
    } else { damage(&mut d) };
    if d == b { return Ok(Info::default()); }
    simcore::alloc::limit(1 << 20, 4 << 20);
    let r = read_art(which, &mut reader(&d, Plan::default()))?;
    let info = Info { nontrivial: true, key: hash_bytes(which, &d), sample: Some(format!("{}: {what}: {}", KIND[which as usize], if r.is_ok() { "read" } else { "rejected" })) };
    let Ok(a) = r else { return Ok(info) };
    let parsed = match which { 0 => parse_prv(&d).map(|p| p.k), 1 => parse_pub(&d), _ => parse_sig(&d).map(|s| s.k) };
    let Some(pk) = parsed else { return bad(format!("a damaged {} is read as if complete", KIND[which as usize]), what) };
    // what was read can be written again, and (name aside) is what the storage says
    let (mut w, sink) = SimWriter::new(Plan::default());
    if let Err(e) = write_art(&a, &mut w)? { return bad("writing fails although the stream works", e); }
    if std::str::from_utf8(&pk.auth).is_ok() {
        let g = sink.lock().unwrap().data.clone();
        let same = match which { 0 => parse_prv(&g) == parse_prv(&d), 1 => parse_pub(&g) == parse_pub(&d), _ => parse_sig(&g) == parse_sig(&d) };
        ensure!(same, format!("a {} read from altered storage is not what is stored", KIND[which as usize]), "{what}");
    }
    // and used, without crashing
    let sp = Spec { files: vec![("a.sqf".into(), std::sync::Arc::new(b"x".to_vec()))], props: vec![], with_props: true };
    let data = encode(&archive_of(&sp));
    let mut o = open(&data, Plan::default())?;
    match &a {
        Art::Prv(k) => { let _ = run("signing with a damaged key", || k.sign(&mut o, BISignVersion::V3).is_ok())?; }
        Art::Pub(k) => {
            let mut g = good_sig(&data).map_err(|e| Violation { sig: "signing fails although nothing is wrong".into(), detail: e })?;
            g.k = pk.clone();
            let gb = encode_sig(&g);
            if let Ok(s) = run("reading a signature", || BISign::read(&mut &gb[..]))? { let _ = run("verifying with a damaged key", || k.verify(&mut o, &s).is_ok())?; }
        }
        Art::Sig(_) => {}
    }
    Ok(info)
}
fn good_sig(data: &[u8]) -> Result<Sig, String> {
    let k = BIPrivateKey::read(&mut &key_bytes(0, "test")[..]).map_err(|e| e.to_string())?;
    let mut r = ReadablePbo::from(reader(data, Plan::default())).map_err(|e| e.to_string())?;
    let s = k.sign(&mut r, BISignVersion::V3).map_err(|e| e.to_string())?;
    let mut b = vec![];
    s.write(&mut b).map_err(|e| e.to_string())?;
    parse_sig(&b).ok_or_else(|| "sig".into())
}

fn o() -> Opts { Opts { stack: 4 << 20, max_steps: 5_000_000, ..Opts::default() } }
const REAL: &[&str] = &["hemtt-signing", "hemtt-pbo reader and writer", "hemtt-common (io, sign_version)", "rsa"];
const STUB: &[&str] = &["streams of archive, key and signature (simulated)", "random numbers (seeded)"];
pub fn props() -> Vec<Property> {
    vec![
        Property { id: "P05", level: "exploration", rule: "an archive was signed, the signature checked against the construction and verified", real: REAL, stub: STUB, assumptions: &["oracle: independent SHA-1, BISign hash construction and signature parser; modular exponentiation from the rsa crate"],
            scenarios: vec![Scenario::new("sign", 24_000, 300_000, p05_sign).opts(o), Scenario::new("keygen", 320, 6_000, p05_keygen).opts(o)] },
        Property { id: "P06", level: "fault_enumeration", rule: "archive, signature or key differed from the signing run", real: REAL, stub: STUB, assumptions: &["fields of the terminator entry and the archive's own stored checksum are not signed contents"],
            scenarios: vec![Scenario::new("tamper", 8_000, 200_000, p06_tamper).opts(o), Scenario::new("signature", 8_000, 200_000, p06_signature).opts(o), Scenario::new("foreign", 6_000, 150_000, p06_foreign).opts(o), Scenario::new("damage", 16_000, 400_000, p06_damage).opts(o)] },
        Property { id: "P07", level: "fault_enumeration", rule: "a key or signature went through storage that split, failed or altered it", real: REAL, stub: STUB, assumptions: &["memory is bounded by 1 MiB for one allocation and 4 MiB in total"],
            scenarios: vec![Scenario::new("roundtrip", 24_000, 200_000, p07_roundtrip).opts(o), Scenario::new("write-fault", 30_000, 250_000, p07_write_fault).opts(o), Scenario::new("read-fault", 30_000, 250_000, p07_read_fault).opts(o), Scenario::new("damage", 72_000, 600_000, p07_damage).opts(o)] },
    ]
}
