id="p06_hash3"; prop="P06"
needs="a V2 signature whose third value was altered while the first two are intact"
breaks="verification compares the hash of the signed files only for V3 signatures; a tampered third value of a V2 signature verifies"
libs=["hemtt-pbo","hemtt-signing","hemtt-common"]
edits=[("libs/signing/src/public.rs","        if real_hash3 != signed_hash3 {","        if signature.version == hemtt_common::BISignVersion::V3 && real_hash3 != signed_hash3 {")]
demo='''
use std::io::Cursor;
use hemtt_common::BISignVersion;
fn main() {
    let mut p = hemtt_pbo::WritablePbo::new();
    p.add_file("a.sqf", Cursor::new(b"hint".to_vec())).unwrap();
    p.add_file("b.paa", Cursor::new(b"paa".to_vec())).unwrap();
    let mut all = Vec::new();
    p.write(&mut all, true).unwrap();
    let key = hemtt_signing::BIPrivateKey::generate(1024, "demo").unwrap();
    for v in [BISignVersion::V2, BISignVersion::V3] {
        let mut pbo = hemtt_pbo::ReadablePbo::from(Cursor::new(all.clone())).unwrap();
        let sig = key.sign(&mut pbo, v).unwrap();
        key.to_public_key().verify(&mut pbo, &sig).unwrap();
        let mut bytes = Vec::new();
        sig.write(&mut bytes).unwrap();
        // the last value, a byte in its middle
        let at = bytes.len() - 64;
        bytes[at] ^= 1;
        let bad = hemtt_signing::BISign::read(&mut Cursor::new(bytes)).unwrap();
        if key.to_public_key().verify(&mut pbo, &bad).is_ok() { println!("a tampered {v:?} signature verifies"); std::process::exit(1); }
    }
}
'''
