id="p05_prefix"; prop="P05"
needs="an archive made by another tool whose prefix ends with a backslash"
breaks="the third hash always appends a backslash to the prefix, the signature of such an archive is not the one the game expects"
libs=["hemtt-pbo","hemtt-signing","hemtt-common"]
deps={"rsa":'"0.9.6"',"sha-1":'"0.10.1"'}
edits=[("libs/signing/src/lib.rs","""    hasher.update(pbo.hash_files(version)?);
    hasher.update(pbo.hash_filenames()?);
    if let Some(prefix) = pbo.properties().get("prefix") {
        hasher.update(prefix.as_bytes());
        if !prefix.ends_with('\\\\') {
            hasher.update(b"\\\\");
        }
    }""","""    hasher.update(pbo.hash_files(version)?);
    hasher.update(pbo.hash_filenames()?);
    if let Some(prefix) = pbo.properties().get("prefix") {
        hasher.update(prefix.as_bytes());
        hasher.update(b"\\\\");
    }""")]
demo='''
use std::io::Cursor;
use sha1::{Digest, Sha1};
fn main() {
    for prefix in ["z", "z\\\\"] {
        let mut b = Vec::new();
        b.push(0); b.extend(0x5665_7273u32.to_le_bytes()); b.extend([0u8; 16]);
        b.extend(b"prefix\\0"); b.extend(prefix.as_bytes()); b.extend([0, 0]);
        b.extend(b"a.sqf\\0"); b.extend([0u8; 16]); b.extend(4u32.to_le_bytes());
        b.extend([0u8; 21]);
        b.extend(b"hint");
        let sum = Sha1::digest(&b);
        b.push(0); b.extend(sum);
        let mut pbo = hemtt_pbo::ReadablePbo::from(Cursor::new(b)).unwrap();
        let (_, _, h3) = hemtt_signing::generate_hashes(&mut pbo, hemtt_common::BISignVersion::V3, 1024).unwrap();
        let mut want = Sha1::new();
        want.update(Sha1::digest(b"hint")); want.update(Sha1::digest(b"a.sqf")); want.update(b"z\\\\");
        if h3 != hemtt_signing::pad_hash(&want.finalize(), 128) { println!("wrong third hash with prefix {prefix:?}"); std::process::exit(1); }
    }
}
'''
