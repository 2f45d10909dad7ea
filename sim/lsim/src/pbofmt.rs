//! An independent reader/writer of the PBO format and of the BISign construction (the oracle).
use simcore::sha1::sha1;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Entry { pub name: Vec<u8>, pub mime: u32, pub original: u32, pub reserved: u32, pub timestamp: u32, pub data: Vec<u8> }
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Archive { pub vers: bool, pub props: Vec<(Vec<u8>, Vec<u8>)>, pub entries: Vec<Entry> }
pub struct Layout { pub term: (usize, usize), pub body_end: usize }

fn cstr(b: &[u8], p: &mut usize) -> Result<Vec<u8>, String> {
    let n = b[*p..].iter().position(|c| *c == 0).ok_or("unterminated string")?;
    let s = b[*p..*p + n].to_vec();
    *p += n + 1;
    Ok(s)
}
fn u32le(b: &[u8], p: &mut usize) -> Result<u32, String> {
    let s = b.get(*p..*p + 4).ok_or("short word")?;
    *p += 4;
    Ok(u32::from_le_bytes([s[0], s[1], s[2], s[3]]))
}
impl Archive { pub fn prop(&self, k: &str) -> Option<&Vec<u8>> { self.props.iter().rev().find(|p| p.0 == k.as_bytes()).map(|p| &p.1) } }
/// Entries and properties only; whatever no hash covers may be off.
pub fn decode_lenient(b: &[u8]) -> Option<Archive> {
    let (mut p, mut a, mut sizes) = (0, Archive::default(), vec![]);
    loop {
        let name = cstr(b, &mut p).ok()?;
        let mut w = [0u32; 5];
        for x in &mut w { *x = u32le(b, &mut p).ok()?; }
        if w[0] == 0x5665_7273 {
            a.vers = true;
            loop { let k = cstr(b, &mut p).ok()?; if k.is_empty() { break; } let v = cstr(b, &mut p).ok()?; a.props.push((k, v)); }
        } else if name.is_empty() { break; } else {
            sizes.push(w[4] as usize);
            a.entries.push(Entry { name, mime: w[0], original: w[1], reserved: w[2], timestamp: w[3], data: vec![] });
        }
    }
    for (e, n) in a.entries.iter_mut().zip(sizes) { e.data = b.get(p..p.checked_add(n)?)?.to_vec(); p += n; }
    Some(a)
}
/// Strict decode of a complete archive; also checks the trailing checksum.
pub fn decode(b: &[u8]) -> Result<(Archive, Layout), String> {
    let mut p = 0;
    let mut a = Archive::default();
    let mut sizes = vec![];
    let term;
    loop {
        let start = p;
        let name = cstr(b, &mut p)?;
        let (mime, original, reserved, timestamp, size) = (u32le(b, &mut p)?, u32le(b, &mut p)?, u32le(b, &mut p)?, u32le(b, &mut p)?, u32le(b, &mut p)?);
        if mime == 0x5665_7273 {
            if !name.is_empty() || start != 0 { return Err("version entry out of place".into()); }
            a.vers = true;
            loop {
                let k = cstr(b, &mut p)?;
                if k.is_empty() { break; }
                let v = cstr(b, &mut p)?;
                a.props.push((k, v));
            }
        } else if name.is_empty() {
            if (mime, original, reserved, timestamp, size) != (0, 0, 0, 0, 0) { return Err("terminator is not blank".into()); }
            term = (start, p);
            break;
        } else {
            sizes.push(size as usize);
            a.entries.push(Entry { name, mime, original, reserved, timestamp, data: vec![] });
        }
    }
    for (e, n) in a.entries.iter_mut().zip(sizes) {
        e.data = b.get(p..p + n).ok_or("data ends early")?.to_vec();
        p += n;
    }
    if b.len() != p + 21 { return Err(format!("{} bytes after the data, expected 21", b.len() - p)); }
    if b[p] != 0 { return Err("no zero byte before the checksum".into()); }
    if b[p + 1..] != sha1(&b[..p]) { return Err("trailing checksum is not the SHA-1 of the archive".into()); }
    Ok((a, Layout { term, body_end: p }))
}
pub fn encode(a: &Archive) -> Vec<u8> {
    let mut o = vec![];
    let head = |o: &mut Vec<u8>, name: &[u8], w: [u32; 5]| { o.extend_from_slice(name); o.push(0); for x in w { o.extend_from_slice(&x.to_le_bytes()); } };
    if a.vers {
        head(&mut o, b"", [0x5665_7273, 0, 0, 0, 0]);
        for (k, v) in &a.props { o.extend_from_slice(k); o.push(0); o.extend_from_slice(v); o.push(0); }
        o.push(0);
    }
    for e in &a.entries { head(&mut o, &e.name, [e.mime, e.original, e.reserved, e.timestamp, e.data.len() as u32]); }
    head(&mut o, b"", [0; 5]);
    for e in &a.entries { o.extend_from_slice(&e.data); }
    let h = sha1(&o);
    o.push(0);
    o.extend_from_slice(&h);
    o
}
pub fn lower(n: &[u8]) -> String { String::from_utf8_lossy(n).to_lowercase() }

const V2: [&str; 13] = ["fxy", "jpg", "lip", "ogg", "p3d", "paa", "pac", "png", "rtm", "rvmat", "tga", "wrp", "wss"];
const V3: [&str; 11] = ["bikb", "cfg", "ext", "fsm", "h", "hpp", "inc", "sqf", "sqfc", "sqm", "sqs"];
/// The three hashes of the BISign construction.
pub fn bisign_hashes(bytes: &[u8], a: &Archive, v3: bool) -> [[u8; 20]; 3] {
    let h1: [u8; 20] = bytes[bytes.len() - 20..].try_into().unwrap();
    let mut es: Vec<&Entry> = a.entries.iter().collect();
    es.sort_by_key(|e| lower(&e.name));
    let mut names = vec![];
    let mut data = vec![];
    let mut any = false;
    for e in &es {
        if !e.data.is_empty() { names.extend_from_slice(lower(&e.name).replace('/', "\\").as_bytes()); }
        let n = String::from_utf8_lossy(&e.name).into_owned();
        let ext = n.rsplit_once('.').map_or("", |x| x.1);
        if if v3 { V3.contains(&ext) } else { V2.contains(&ext) } { any = true; data.extend_from_slice(&e.data); }
    }
    if !any { data = if v3 { b"gnihton".to_vec() } else { b"nothing".to_vec() }; }
    let nh = sha1(&names);
    let mut prefix = vec![];
    if let Some((_, p)) = a.props.iter().find(|(k, _)| k == b"prefix") { prefix = p.clone(); if prefix.last() != Some(&b'\\') { prefix.push(b'\\'); } }
    let cat = |first: &[u8]| { let mut v = first.to_vec(); v.extend_from_slice(&nh); v.extend_from_slice(&prefix); sha1(&v) };
    [h1, cat(&h1), cat(&sha1(&data))]
}
/// PKCS#1 v1.5 block (EMSA, SHA-1) of `size` bytes, big endian.
pub fn padded(h: &[u8; 20], size: usize) -> Vec<u8> {
    let mut v = vec![0u8, 1];
    v.resize(size - 36, 0xff);
    v.extend_from_slice(&[0x00, 0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14]);
    v.extend_from_slice(h);
    v
}
