id="p19_gap"; prop="P19"
needs="a texture whose offset table has an unused slot before a used one"
breaks="reading a texture stops at the first unused slot of the offset table, later mipmaps are lost"
libs=["hemtt-paa"]
edits=[("libs/paa/src/paa.rs","                    if seek != 0 {\n","                    if seek == 0 {\n                        break;\n                    }\n                    {\n")]
demo='''
fn main() {
    let mip = |v: u8| { let mut m = vec![4u8, 0, 4, 0, 8, 0, 0]; m.extend([v; 8]); m };
    for slots in [[0usize, 1, 2], [0, 2, 5]] {
        let mut b = vec![0x01u8, 0xFF];
        b.extend(b"GGATSFFO");
        b.extend(64u32.to_le_bytes());
        let base = b.len() + 64 + 6;
        let mut table = [0u32; 16];
        for (i, s) in slots.iter().enumerate() { table[*s] = (base + i * 15) as u32; }
        for t in table { b.extend(t.to_le_bytes()); }
        b.extend([0u8; 6]);
        for i in 0..3 { b.extend(mip(i)); }
        let p = hemtt_paa::Paa::read(std::io::Cursor::new(b)).unwrap();
        if p.maps().len() != 3 { println!("{} of 3 mipmaps with slots {slots:?}", p.maps().len()); std::process::exit(1); }
    }
}
'''
