id="p20_match"; prop="P20"
needs="an output buffer that is exactly one byte too small, with the overrun inside of a copied match"
breaks="the decompressor lets a match write one byte past the end of the output"
libs=["hemtt-lzo"]
edits=[("libs/lzo/src/decompress.rs","""                        let oe: *mut u8 = op.add(t);
                        if (((op_end as isize).wrapping_sub(op as isize)
                            / ::std::mem::size_of::<u8>() as isize)
                            as usize)
                            < t
                        {""","""                        let oe: *mut u8 = op.add(t);
                        if (((op_end as isize).wrapping_sub(op as isize)
                            / ::std::mem::size_of::<u8>() as isize)
                            as usize)
                            < t.wrapping_sub(1usize)
                        {""")]
demo='''
fn main() {
    let data = vec![b'x'; 300];
    let mut c = Vec::with_capacity(hemtt_lzo::worst_compress(data.len()));
    hemtt_lzo::compress(&data, &mut c).unwrap();
    for n in 0..300 {
        let mut buffer = vec![0xAAu8; 1000];
        let (out, rest) = buffer.split_at_mut(n);
        let _ = hemtt_lzo::decompress_to_slice(&c, out);
        if let Some(i) = rest.iter().position(|b| *b != 0xAA) { println!("an output of {n} bytes was overrun at +{i}"); std::process::exit(1); }
    }
}
'''
