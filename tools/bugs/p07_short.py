id="p07_short"; prop="P07"
needs="a key or signature value whose highest byte is zero (about one in 256)"
breaks="numbers with leading zeros are written short, the stored key or signature can not be read back"
libs=["hemtt-signing","hemtt-pbo","hemtt-common"]
edits=[("libs/signing/src/lib.rs","    vec.resize(size, 0);\n","    if size == 4 {\n        vec.resize(size, 0);\n    }\n"),]
demo='''
use std::io::Cursor;
fn main() {
    let key = hemtt_signing::BIPrivateKey::generate(512, "demo").unwrap();
    for i in 0u32..3000 {
        let mut p = hemtt_pbo::WritablePbo::new();
        p.add_file("a.sqf", Cursor::new(i.to_le_bytes().to_vec())).unwrap();
        let mut all = Vec::new();
        p.write(&mut all, true).unwrap();
        let mut pbo = hemtt_pbo::ReadablePbo::from(Cursor::new(all)).unwrap();
        let sig = key.sign(&mut pbo, hemtt_common::BISignVersion::V3).unwrap();
        let mut bytes = Vec::new();
        sig.write(&mut bytes).unwrap();
        if hemtt_signing::BISign::read(&mut Cursor::new(bytes)).map(|s| s.signatures_modpow()).ok() != Some(sig.signatures_modpow()) { println!("signature {i} does not survive"); std::process::exit(1); }
    }
}
'''
