//! P17, P19, P20: textures and LZO blocks.
use crate::util::*;
use hemtt_paa::{Paa, PaXType};
use simcore::alloc::{self, Fenced};
use simcore::driver::{Info, Property, Scenario, Verdict};
use simcore::streams::{damage, Fail, Plan, SimWriter};
use simcore::tape::{hash_bytes, mix, Rng};
use simcore::{ensure, fault, faultp, gen, genp};

// ---- an independent block decoder and container codec ----
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum F { Dxt1, Dxt3, Dxt5 }
fn bsize(f: F) -> usize { if f == F::Dxt1 { 8 } else { 16 } }
fn c565(v: u16) -> [i32; 3] {
    let (r, g, b) = ((v >> 11 & 31) as i32, (v >> 5 & 63) as i32, (v & 31) as i32);
    [r << 3 | r >> 2, g << 2 | g >> 4, b << 3 | b >> 2]
}
/// The sixteen pixels of one block.
fn block(f: F, b: &[u8]) -> [[i32; 4]; 16] {
    let c = if f == F::Dxt1 { b } else { &b[8..] };
    let (v0, v1) = (u16::from_le_bytes([c[0], c[1]]), u16::from_le_bytes([c[2], c[3]]));
    let (a, z) = (c565(v0), c565(v1));
    let mut pal = [[0; 4]; 4];
    for i in 0..3 {
        pal[0][i] = a[i];
        pal[1][i] = z[i];
        if f == F::Dxt1 && v0 <= v1 { pal[2][i] = (a[i] + z[i]) / 2; pal[3][i] = 0; } else { pal[2][i] = (2 * a[i] + z[i]) / 3; pal[3][i] = (a[i] + 2 * z[i]) / 3; }
    }
    for (i, p) in pal.iter_mut().enumerate() { p[3] = if f == F::Dxt1 && v0 <= v1 && i == 3 { 0 } else { 255 }; }
    let idx = u32::from_le_bytes([c[4], c[5], c[6], c[7]]);
    let mut o = [[0; 4]; 16];
    for (i, p) in o.iter_mut().enumerate() { *p = pal[(idx >> (2 * i) & 3) as usize]; }
    match f {
        F::Dxt1 => {}
        F::Dxt3 => for (i, p) in o.iter_mut().enumerate() { let n = (b[i / 2] >> (4 * (i % 2)) & 15) as i32; p[3] = n | n << 4; },
        F::Dxt5 => {
            let (a0, a1) = (b[0] as i32, b[1] as i32);
            let mut t = [a0, a1, 0, 0, 0, 0, 0, 255];
            if a0 > a1 { for k in 1..7 { t[k as usize + 1] = ((7 - k) * a0 + k * a1) / 7; } } else { for k in 1..5 { t[k as usize + 1] = ((5 - k) * a0 + k * a1) / 5; } }
            let mut bits = 0u64;
            for k in 0..6 { bits |= (b[2 + k] as u64) << (8 * k); }
            for (i, p) in o.iter_mut().enumerate() { p[3] = t[(bits >> (3 * i) & 7) as usize]; }
        }
    }
    o
}
pub fn decode(f: F, w: usize, h: usize, d: &[u8]) -> Vec<[i32; 4]> {
    let mut o = vec![[0; 4]; w * h];
    let bw = w.div_ceil(4);
    for by in 0..h.div_ceil(4) { for bx in 0..bw {
        let px = block(f, &d[(by * bw + bx) * bsize(f)..]);
        for y in 0..4 { for x in 0..4 { if by * 4 + y < h && bx * 4 + x < w { o[(by * 4 + y) * w + bx * 4 + x] = px[y * 4 + x]; } } }
    } }
    o
}
fn len_of(f: F, w: usize, h: usize) -> usize { w.div_ceil(4) * h.div_ceil(4) * bsize(f) }
/// An LZO stream of literals only (the simplest valid encoding).
fn lzo_literals(d: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let n = d.len();
    if n > 0 && n <= 238 && n >= 4 { o.push(17 + n as u8); }
    else if n >= 4 {
        o.push(0);
        let mut r = n - 18;
        while r > 255 { o.push(0); r -= 255; }
        o.push(r as u8);
    }
    o.extend(d);
    o.extend([17, 0, 0]);
    o
}
#[derive(Clone, Debug)]
pub struct Mip { pub w: usize, pub h: usize, pub raw: Vec<u8>, pub stored: Vec<u8>, pub comp: bool }
#[derive(Clone, Debug)]
pub struct Tex { pub f: F, taggs: Vec<(String, Vec<u8>)>, pub mips: Vec<Mip>, slots: Vec<usize>, table: usize, order: Vec<usize> }
pub fn tex() -> Tex {
    let f = [F::Dxt5, F::Dxt1, F::Dxt3][gen(3) as usize];
    let (mut w, mut h) = (4usize << gen(5), 4usize << gen(5));
    let mut mips = vec![];
    for _ in 0..gen(5) {
        let raw = bytes(len_of(f, w, h));
        let comp = genp(1, 3);
        let stored = if !comp { raw.clone() } else if genp(1, 2) { lzo_literals(&raw) } else { let mut o = Vec::with_capacity(hemtt_lzo::worst_compress(raw.len())); let _ = hemtt_lzo::compress(&raw, &mut o); o };
        mips.push(Mip { w, h, raw, stored, comp });
        if w <= 4 && h <= 4 { break; }
        w = (w / 2).max(4);
        h = (h / 2).max(4);
    }
    let mut taggs = vec![];
    for n in ["CGVA", "CXAM", "GALF", "ZIWS"] { if genp(1, 2) { taggs.push((n.to_string(), bytes(4))); } }
    // the offset table may be longer, have unused slots, and the data any order
    let mut slots: Vec<usize> = (0..mips.len()).collect();
    let mut table = 16;
    if genp(1, 4) {
        let mut at = gen(3) as usize;
        for s in &mut slots { *s = at; at += 1 + gen(3) as usize; }
        table = at.max(1) + gen(5) as usize;
    }
    let order = if genp(1, 4) { crate::pbo::shuffled(mips.len()) } else { (0..mips.len()).collect() };
    Tex { f, taggs, mips, slots, table, order }
}
pub fn enc(t: &Tex) -> Vec<u8> {
    let mut o = match t.f { F::Dxt1 => vec![1u8, 255], F::Dxt3 => vec![3, 255], F::Dxt5 => vec![5, 255] };
    for (n, d) in &t.taggs { o.extend(b"GGAT"); o.extend(n.as_bytes()); o.extend((d.len() as u32).to_le_bytes()); o.extend(d); }
    o.extend(b"GGATSFFO");
    o.extend((t.table as u32 * 4).to_le_bytes());
    let tab = o.len();
    o.extend(vec![0; t.table * 4]);
    o.extend([0, 0]);
    for &i in &t.order {
        let m = &t.mips[i];
        let at = (o.len() as u32).to_le_bytes();
        let k = tab + 4 * t.slots[i];
        o[k..k + 4].copy_from_slice(&at);
        o.extend((m.w as u16 | if m.comp { 0x8000 } else { 0 }).to_le_bytes());
        o.extend((m.h as u16).to_le_bytes());
        o.extend(&(m.stored.len() as u32).to_le_bytes()[..3]);
        o.extend(&m.stored);
    }
    o.extend([0; 6]);
    o
}
fn pax(f: F) -> PaXType { match f { F::Dxt1 => PaXType::DXT1, F::Dxt3 => PaXType::DXT3, F::Dxt5 => PaXType::DXT5 } }
pub fn near(a: &[i32; 4], b: &[u8; 4], tol: i32) -> bool { (0..4).all(|i| (a[i] - b[i] as i32).abs() <= tol) }
fn compare(p: &Paa, t: &Tex, images: bool) -> Result<(), simcore::driver::Violation> {
    ensure!(*p.format() == pax(t.f), "texture loaded with another format", "{} vs {:?}", p.format(), t.f);
    for (n, d) in &t.taggs { ensure!(p.taggs().get(n) == Some(d), "texture loaded with other tagged data", "{n}"); }
    ensure!(p.taggs().len() == t.taggs.len() + 1, "texture loaded with other tagged data", "{:?}", p.taggs().keys().collect::<std::collections::BTreeSet<_>>());
    ensure!(p.maps().len() == t.mips.len(), "texture loaded with another mip chain", "{} vs {}", p.maps().len(), t.mips.len());
    for (m, x) in p.maps().iter().zip(&t.mips) {
        ensure!(m.width() as usize == x.w && m.height() as usize == x.h && m.is_compressed() == x.comp, "mip level loaded with other dimensions", "{}x{} {} vs {}x{} {}", m.width(), m.height(), m.is_compressed(), x.w, x.h, x.comp);
        ensure!(*m.data() == x.stored, "mip level loaded with other data", "{}", diff(m.data(), &x.stored));
        if !images { continue; }
        let img = run("decoding a mip level", || m.get_image())?.to_rgba8();
        ensure!(img.width() as usize == x.w && img.height() as usize == x.h, "decoded image has other dimensions", "{}x{}", img.width(), img.height());
        let want = decode(t.f, x.w, x.h, &x.raw);
        for (i, (a, b)) in want.iter().zip(img.pixels()).enumerate() {
            ensure!(near(a, &b.0, 3), "decoded pixels differ from the stored blocks", "pixel {i} of {}x{} {:?}: {:?} vs {a:?}", x.w, x.h, t.f, b.0);
        }
    }
    Ok(())
}
fn info(e: &[u8], nt: bool, s: String) -> Verdict { Ok(Info { nontrivial: nt, key: hash_bytes(11, e), sample: Some(s) }) }
fn show(t: &Tex) -> String { format!("{:?} {:?}", t.f, t.mips.iter().map(|m| (m.w, m.h, m.comp)).collect::<Vec<_>>()) }

fn p19_read() -> Verdict {
    let t = tex();
    let e = enc(&t);
    let p = must("reading a texture", || Paa::read(reader(&e, Plan::benign())))?;
    compare(&p, &t, true)?;
    info(&e, !t.mips.is_empty(), show(&t))
}
/// An image and the tolerance its content allows.
fn image() -> (image::RgbaImage, bool) {
    let (w, h) = if genp(1, 3) { (1 + gen(40) as u32, 1 + gen(40) as u32) } else { (4 << gen(5), 4 << gen(5)) };
    let mut r = Rng::new(gen(1 << 20));
    let flat = genp(2, 3);
    let img = if flat {
        // every 4x4 block has one colour
        let (bw, bh) = (w.div_ceil(4), h.div_ceil(4));
        let cols: Vec<[u8; 4]> = (0..bw * bh).map(|_| { let x = r.next().to_le_bytes(); [x[0], x[1], x[2], x[3]] }).collect();
        image::RgbaImage::from_fn(w, h, |x, y| image::Rgba(cols[(y / 4 * bw + x / 4) as usize]))
    } else {
        let s = r.next();
        image::RgbaImage::from_fn(w, h, |x, y| image::Rgba([(x * 3) as u8, (y * 5) as u8, (x + y) as u8, (s >> (x % 8)) as u8]))
    };
    (img, flat)
}
fn p19_encode() -> Verdict {
    let (img, flat) = image();
    let (mut w, sink) = SimWriter::new(Plan::benign());
    must("writing a texture", || Paa::write(&img, &mut w))?;
    let stored = std::mem::take(&mut sink.lock().unwrap().data);
    let p = must("reading a written texture", || Paa::read(reader(&stored, Plan::benign())))?;
    ensure!(*p.format() == PaXType::DXT5, "written texture has another format", "{}", p.format());
    ensure!(p.maps().len() == 1, "written texture has another mip chain", "{}", p.maps().len());
    let m = &p.maps()[0];
    ensure!((m.width() as u32, m.height() as u32) == img.dimensions(), "written texture has other dimensions", "{}x{} vs {:?}", m.width(), m.height(), img.dimensions());
    let (iw, ih) = (img.width() as usize, img.height() as usize);
    ensure!(m.data().len() == len_of(F::Dxt5, iw, ih), "written texture has another amount of data", "{} vs {}", m.data().len(), len_of(F::Dxt5, iw, ih));
    let got = run("decoding a written texture", || m.get_image())?.to_rgba8();
    for (a, b) in decode(F::Dxt5, iw, ih, m.data()).iter().zip(got.pixels()) { ensure!(near(a, &b.0, 3), "decoded pixels differ from the stored blocks", "{a:?} {:?}", b.0); }
    if flat {
        for (x, y, p) in img.enumerate_pixels() {
            let g = got.get_pixel(x, y).0;
            ensure!((0..4).all(|i| (p.0[i] as i32 - g[i] as i32).abs() <= 8), "pixels of a one-colour block are lost", "at {x},{y}: {:?} became {:?}", p.0, g);
        }
    }
    info(&stored, true, format!("{}x{} flat={flat}", img.width(), img.height()))
}
fn p19_write_fault() -> Verdict {
    let (img, _) = image();
    let (mut w, sink) = SimWriter::new(Plan::default());
    must("writing a texture", || Paa::write(&img, &mut w))?;
    let want = std::mem::take(&mut sink.lock().unwrap().data);
    let (mut w, sink) = SimWriter::new(Plan::failing(want.len() as u64 + 2, true));
    let r = run("writing a texture to a failing destination", || Paa::write(&img, &mut w))?;
    let s = sink.lock().unwrap();
    if r.is_ok() { ensure!(s.data == want, "writing a texture reports success but it is incomplete", "{}", diff(&s.data, &want)); }
    info(&want, r.is_err(), format!("{:?} failed={}", img.dimensions(), r.is_err()))
}
fn p19_read_fault() -> Verdict {
    let t = tex();
    let e = enc(&t);
    let mut plan = Plan::benign();
    plan.sticky = faultp(1, 2);
    match fault(3) { 0 => plan.fail_at_byte = Some((fault(e.len() as u64), Fail::Error)), 1 => plan.fail_at_byte = Some((fault(e.len() as u64), Fail::End)), _ => plan.fail_at_op = Some(fault(40)) }
    let r = run("reading a texture from a failing source", || Paa::read(reader(&e, plan)))?;
    if let Ok(p) = &r { compare(p, &t, false)?; }
    info(&e, r.is_err(), show(&t))
}
/// Images whose size the format cannot express are refused, not mangled.
fn p19_limits() -> Verdict {
    let (w, h) = match gen(6) { 0 => (0, 0), 1 => (0, 4), 2 => (32_768, 4), 3 => (4, 65_536), 4 => (65_540, 4), _ => (4, 32_768) };
    let img = image::RgbaImage::from_fn(w, h, |x, y| image::Rgba([(x >> 8) as u8, (y >> 8) as u8, 0, 255]));
    let (mut o, sink) = SimWriter::new(Plan::default());
    let r = run("writing a texture of unusual size", || Paa::write(&img, &mut o))?;
    if r.is_ok() {
        let d = sink.lock().unwrap().data.clone();
        let p = must("reading a texture of unusual size", || Paa::read(reader(&d, Plan::default())))?;
        let m = &p.maps()[0];
        ensure!((m.width() as u32, m.height() as u32) == (w, h), "texture stored with other dimensions", "{}x{} instead of {w}x{h}", m.width(), m.height());
        run("decoding a texture of unusual size", || m.get_image())?;
    }
    Ok(Info { nontrivial: true, key: mix(w as u64, h as u64), sample: Some(format!("{w}x{h} ok={}", r.is_ok())) })
}

// ---- P20 ----
fn lzo_input() -> Vec<u8> {
    let n = match gen(8) { 0 => gen(24), 1 | 2 => gen(300), 3 | 4 => gen(3000), 5 => 49_100 + gen(200), 6 => gen(140_000), _ => gen(9000) } as usize;
    let s = gen(1 << 30);
    let mut r = Rng::new(s);
    match s % 6 {
        0 => vec![b'a'; n],
        1 => (0..n).map(|_| r.next() as u8).collect(),
        2 => (0..n).map(|i| (i % 7) as u8).collect(),
        // phrases copied from earlier: matches at all distances and lengths
        _ => {
            let mut v: Vec<u8> = Vec::with_capacity(n);
            while v.len() < n {
                let span = if r.below(4) == 0 { 300 } else { 20 };
                let k = 1 + r.below(span) as usize;
                if !v.is_empty() && r.below(3) != 0 {
                    let far = if r.below(2) == 0 { 2100 } else { 50_000 };
                    let back = 1 + r.below((v.len() as u64).min(far)) as usize;
                    for _ in 0..k { let b = v[v.len() - back]; v.push(b); }
                } else { for _ in 0..k { v.push(r.next() as u8); } }
            }
            v.truncate(n);
            v
        }
    }
}
fn compress(d: &[u8]) -> Result<Vec<u8>, simcore::driver::Violation> {
    let mut v = Vec::with_capacity(hemtt_lzo::worst_compress(d.len()));
    must("compressing", || hemtt_lzo::compress(d, &mut v))?;
    Ok(v)
}
/// independent LZO1X decoder
fn unlzo(i: &[u8]) -> Option<Vec<u8>> {
    let mut o: Vec<u8> = vec![];
    let mut p = 0;
    let mut state = 0;
    let by = |p: &mut usize| { let b = i.get(*p).copied(); *p += 1; b.map(|x| x as usize) };
    let more = |p: &mut usize, base: usize| { let mut n = base; loop { let b = by(p)?; if b != 0 { return Some(n + b); } n += 255; } };
    if *i.first()? > 17 {
        p = 1;
        let n = i[0] as usize - 17;
        o.extend(i.get(p..p + n)?);
        p += n;
        state = n.min(4);
    }
    loop {
        let t = by(&mut p)?;
        let (dist, len, next);
        if t < 16 {
            if state == 0 {
                let n = 3 + if t == 0 { more(&mut p, 15)? } else { t };
                o.extend(i.get(p..p + n)?);
                p += n;
                state = 4;
                continue;
            }
            let h = by(&mut p)?;
            next = t & 3;
            if state == 4 { dist = (h << 2) + (t >> 2) + 2049; len = 3; } else { dist = (h << 2) + (t >> 2) + 1; len = 2; }
        } else if t >= 64 {
            let h = by(&mut p)?;
            next = t & 3;
            dist = (h << 3) + (t >> 2 & 7) + 1;
            len = (t >> 5) + 1;
        } else if t >= 32 {
            len = 2 + if t & 31 == 0 { more(&mut p, 31)? } else { t & 31 };
            let w = by(&mut p)? | by(&mut p)? << 8;
            dist = (w >> 2) + 1;
            next = w & 3;
        } else {
            len = 2 + if t & 7 == 0 { more(&mut p, 7)? } else { t & 7 };
            let w = by(&mut p)? | by(&mut p)? << 8;
            let d = ((t & 8) << 11) + (w >> 2);
            if d == 0 { return if p == i.len() { Some(o) } else { None }; }
            dist = d + 0x4000;
            next = w & 3;
        }
        if dist > o.len() { return None; }
        for _ in 0..len { let b = o[o.len() - dist]; o.push(b); }
        o.extend(i.get(p..p + next)?);
        p += next;
        state = next;
    }
}
fn p20_roundtrip() -> Verdict {
    let d = lzo_input();
    let tail = gen(2) == 0;
    let mut src = Fenced::of(&d, tail);
    let mut dst = Fenced::new(hemtt_lzo::worst_compress(d.len()), tail);
    let c = match run("compressing", || hemtt_lzo::compress_to_slice(src.get(), dst.get()).map(|s| s.to_vec()))? { Ok(c) => c, Err(e) => return simcore::driver::bad("compressing fails although the output has the worst-case size", e.to_string()) };
    ensure!(dst.intact() && src.intact(), "compression writes outside its buffers", "{} bytes", d.len());
    let v = compress(&d)?;
    ensure!(v == c, "compress and compress_to_slice differ", "{}", diff(&v, &c));
    ensure!(unlzo(&c).as_deref() == Some(&d[..]), "the compressed block does not decode to the input", "{} -> {} bytes", d.len(), c.len());
    let mut src = Fenced::of(&c, tail);
    let extra = if genp(1, 3) { gen(40) as usize } else { 0 };
    let mut dst = Fenced::new(d.len() + extra, tail);
    let r = run("decompressing", || hemtt_lzo::decompress_to_slice(src.get(), dst.get()).map(|s| s.to_vec()))?;
    ensure!(dst.intact() && src.intact(), "decompression writes outside its buffers", "{} bytes", d.len());
    match r { Ok(x) => ensure!(x == d, "decompression does not return the input", "{}", diff(&x, &d)), Err(e) => return simcore::driver::bad("decompressing an intact block fails", format!("{e}, {} bytes", d.len())) }
    info(&d, !d.is_empty(), format!("{} -> {}", d.len(), c.len()))
}
fn p20_small_output() -> Verdict {
    let d = lzo_input();
    let c = compress(&d)?;
    let tail = gen(4) != 0;
    let mut src = Fenced::of(&d, true);
    // sizes around what is needed
    let n = match gen(4) { 0 => gen(c.len() as u64 + 1) as usize, 1 => c.len().saturating_sub(1 + gen(4) as usize), 2 => c.len() + gen(4) as usize, _ => gen(hemtt_lzo::worst_compress(d.len()) as u64) as usize };
    let ok;
    if gen(2) == 0 {
        let mut dst = Fenced::new(n, tail);
        let r = run("compressing into a small buffer", || hemtt_lzo::compress_to_slice(src.get(), dst.get()).map(|s| s.to_vec()))?;
        ensure!(dst.intact(), "compression writes outside its output buffer", "{} bytes into {n}", d.len());
        ok = r.is_ok();
        if let Ok(x) = r { ensure!(x.len() <= n && unlzo(&x).as_deref() == Some(&d[..]), "compression into a small buffer reports success but is wrong", "{} into {n}", d.len()); }
        ensure!(ok || n < hemtt_lzo::worst_compress(d.len()), "compression fails although the output has the worst-case size", "{n}");
    } else {
        let mut v: Vec<u8> = Vec::with_capacity(n);
        let n = v.capacity();
        // the heap right after the buffer must stay as it is
        let r = run("compressing into a small buffer", || hemtt_lzo::compress(src.get(), &mut v))?;
        ok = r.is_ok();
        ensure!(v.len() <= v.capacity(), "compression leaves a vector longer than its capacity", "{} > {}", v.len(), v.capacity());
        if ok { ensure!(unlzo(&v).as_deref() == Some(&d[..]), "compression into a small buffer reports success but is wrong", "{} into {n}", d.len()); }
    }
    // decompression into too little room
    let mut src = Fenced::of(&c, true);
    let m = if d.is_empty() { 0 } else { gen(d.len() as u64) as usize };
    let mut dst = Fenced::new(m, tail);
    let r = run("decompressing into a small buffer", || hemtt_lzo::decompress_to_slice(src.get(), dst.get()).map(|s| s.len()))?;
    ensure!(dst.intact(), "decompression writes outside its output buffer", "{} bytes into {m}", d.len());
    ensure!(r.is_err() || d.is_empty(), "decompression into a buffer that is too small reports success", "{:?} of {}", r, d.len());
    info(&d, !ok, format!("{} into {n}/{m}", d.len()))
}
fn p20_alloc() -> Verdict {
    let d = lzo_input();
    let nth = fault(2) as usize;
    let mut src = Fenced::of(&d, true);
    let mut dst = Fenced::new(hemtt_lzo::worst_compress(d.len()), true);
    let mut v: Vec<u8> = Vec::with_capacity(hemtt_lzo::worst_compress(d.len()));
    let to_vec = gen(2) == 1;
    alloc::fail_malloc(4096, nth);
    let r = run("compressing without memory", || if to_vec { hemtt_lzo::compress(src.get(), &mut v).map(|()| 0) } else { hemtt_lzo::compress_to_slice(src.get(), dst.get()).map(|s| s.len()) });
    alloc::heal_malloc();
    let r = r?;
    ensure!(v.len() <= v.capacity(), "a failed compression leaves an invalid vector", "{} > {}", v.len(), v.capacity());
    if let Ok(n) = r {
        let out = if to_vec { v.clone() } else { dst.get()[..n].to_vec() };
        ensure!(unlzo(&out).as_deref() == Some(&d[..]), "compression reports success although memory ran out", "{}", d.len());
    }
    info(&d, r.is_err(), format!("{} allocation {nth} fails", d.len()))
}
fn p17_lzo() -> Verdict {
    let mut d = lzo_input();
    d.truncate(20_000);
    let mut c = if genp(1, 8) { bytes(gen(64) as usize) } else { compress(&d)? };
    let n = d.len();
    for _ in 0..1 + fault(3) { damage(&mut c); }
    let tail = fault(2) == 0;
    let room = if genp(1, 2) { n } else { gen(2 * n as u64 + 64) as usize };
    let mut src = Fenced::of(&c, tail);
    let mut dst = Fenced::new(room, fault(2) == 0);
    let r = run("decompressing a damaged block", || hemtt_lzo::decompress_to_slice(src.get(), dst.get()).map(|s| s.len()))?;
    ensure!(dst.intact(), "decompressing a damaged block writes outside its buffer", "{} bytes into {room}", c.len());
    ensure!(src.get() == c && src.intact(), "decompressing a damaged block changes its input", "");
    if let Ok(l) = r { ensure!(l <= room, "decompression reports more than the buffer holds", "{l} > {room}"); }
    info(&c, true, format!("{} bytes into {room}: {r:?}", c.len()))
}
fn p17_paa() -> Verdict {
    let mut t = tex();
    if t.mips.is_empty() { t.mips = vec![Mip { w: 4, h: 4, raw: vec![0; len_of(t.f, 4, 4)], stored: vec![0; len_of(t.f, 4, 4)], comp: false }]; }
    let mut e = enc(&t);
    if fault(6) == 0 { let k: [u8; 2] = [[2, 255], [4, 255], [68, 68], [21, 85], [136, 136], [128, 128], [0, 0]][fault(7) as usize]; e[..2].copy_from_slice(&k); simcore::fired("damage-format"); }
    let mut what = vec![];
    for _ in 0..1 + fault(3) { what.push(damage(&mut e)); }
    // a mip level may be 16 MiB per file by format (24-bit length)
    alloc::limit((18 << 20) + 64 * e.len(), (40 << 20) + 256 * e.len());
    let r = run("reading a damaged texture", || Paa::read(reader(&e, Plan::benign())))?;
    let mut k = 0;
    if let Ok(p) = &r {
        // decoding needs the room the dimensions ask for
        alloc::unlimit();
        for m in p.maps() { let _ = run("reading the dimensions of a damaged texture", || (m.width(), m.height(), m.is_compressed(), m.format_display()))?; if (m.width() as usize) * (m.height() as usize) <= 1 << 22 { run("decoding a damaged texture", || m.get_image())?; k += 1; } }
    }
    info(&e, true, format!("{} {what:?} -> {} mips decoded", show(&t), k))
}

pub fn props() -> Vec<Property> {
    vec![
        Property { id: "P17", rule: "no panic, abort, segmentation fault, hang or out-of-proportion allocation for any damaged input; buffers are fenced by inaccessible pages and canaries",
            real: &["hemtt_p3d readers", "hemtt_paa readers and mip decoding", "hemtt_lzo decompressor", "texpresso"], stub: &["storage"],
            assumptions: &["memory bound for one allocation: 2 MiB + 64 times the file for models, 18 MiB + 64 times the file for textures, whose format limits a mip level to 16 MiB", "decoding a mip level may use the memory its stated dimensions need"], level: "fault_enumeration",
            scenarios: vec![crate::p3d::p17(), Scenario::new("paa", 240_000, 600_000, p17_paa), Scenario::new("lzo", 320_000, 800_000, p17_lzo)] },
        Property { id: "P19", rule: "independently encoded textures load with exact metadata and blocks, images decode within 3/255 of an independent decoder, one-colour blocks survive encoding within 8/255; under one failure the result is an error or exact",
            real: &["hemtt_paa (Paa, MipMap, PaXType)", "hemtt_lzo", "texpresso"], stub: &["source and destination streams"], assumptions: &["DXT1, DXT3 and DXT5 are the supported formats"], level: "fault_enumeration",
            scenarios: vec![Scenario::new("read", 144_000, 200_000, p19_read), Scenario::new("encode", 30_000, 50_000, p19_encode), Scenario::new("write-fault", 24_000, 40_000, p19_write_fault), Scenario::new("read-fault", 300_000, 400_000, p19_read_fault), Scenario::new("limits", 12, 12, p19_limits)] },
        Property { id: "P20", rule: "compressed blocks decode with an independent decoder and with the library to the input; fenced buffers and canaries stay untouched; too small outputs and failing allocations give an error",
            real: &["hemtt_lzo compress and decompress"], stub: &["malloc failures"], assumptions: &["accesses more than one page outside a buffer would hit unrelated memory and are not distinguished"], level: "fault_enumeration",
            scenarios: vec![Scenario::new("roundtrip", 144_000, 250_000, p20_roundtrip), Scenario::new("small-output", 144_000, 250_000, p20_small_output), Scenario::new("alloc-failure", 72_000, 100_000, p20_alloc)] },
    ]
}
