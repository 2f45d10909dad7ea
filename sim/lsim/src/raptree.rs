//! Configs as trees, and an independent decoder of their binary form.
#[derive(Clone, Debug, PartialEq)]
pub enum N { Int(i64), Float(f32), /** an expression: its value, however it is stored */ Math(f64) }
#[derive(Clone, Debug, PartialEq)]
pub enum V { Str(String), Num(N), Eval(String), Arr(Vec<V>) }
#[derive(Clone, Debug, PartialEq)]
pub enum P { Val(String, V), Arr(String, bool, Vec<V>), Class(String, Option<String>, Vec<P>), Ext(String), Del(String) }
struct Rd<'a> { b: &'a [u8], at: usize, used: Vec<bool> }
type R<T> = Result<T, String>;
impl Rd<'_> {
    fn take(&mut self, n: usize) -> R<&[u8]> {
        if self.at + n > self.b.len() { return Err(format!("ends inside of an entry, at {}", self.b.len())); }
        for i in self.at..self.at + n { if std::mem::replace(&mut self.used[i], true) { return Err(format!("byte {i} belongs to two things")); } }
        self.at += n;
        Ok(&self.b[self.at - n..self.at])
    }
    fn u8(&mut self) -> R<u8> { Ok(self.take(1)?[0]) }
    fn u32(&mut self) -> R<u32> { Ok(u32::from_le_bytes(self.take(4)?.try_into().unwrap())) }
    fn int(&mut self) -> R<usize> { let mut r = 0usize; for i in 0..5 { let b = self.u8()? as usize; r |= (b & 127) << (7 * i); if b < 128 { return Ok(r); } } Err("a count does not end".into()) }
    fn cstr(&mut self) -> R<String> { let mut v = vec![]; loop { let c = self.u8()?; if c == 0 { break; } v.push(c); } String::from_utf8(v).map_err(|e| e.to_string()) }
    fn value(&mut self, t: u8) -> R<V> {
        Ok(match t {
            0 => V::Str(self.cstr()?),
            1 => V::Num(N::Float(f32::from_le_bytes(self.take(4)?.try_into().unwrap()))),
            2 => V::Num(N::Int(i32::from_le_bytes(self.take(4)?.try_into().unwrap()) as i64)),
            3 => V::Arr(self.items()?),
            4 => V::Eval(self.cstr()?),
            6 => V::Num(N::Int(i64::from_le_bytes(self.take(8)?.try_into().unwrap()))),
            _ => return Err(format!("unknown value type {t} at {}", self.at)),
        })
    }
    fn items(&mut self) -> R<Vec<V>> { let n = self.int()?; let mut v = vec![]; for _ in 0..n { let t = self.u8()?; v.push(self.value(t)?); } Ok(v) }
    fn class(&mut self, depth: u32) -> R<(Option<String>, Vec<P>)> {
        if depth > 60 { return Err("classes are nested too deeply".into()); }
        let parent = self.cstr()?;
        let n = self.int()?;
        let mut out = vec![];
        let mut bodies = vec![];
        for _ in 0..n {
            out.push(match self.u8()? {
                0 => { let name = self.cstr()?; let off = self.u32()? as usize; bodies.push((out.len(), off)); P::Class(name, None, vec![]) }
                1 => { let t = self.u8()?; if t == 3 { return Err("an array as a single value".into()); } let name = self.cstr()?; P::Val(name, self.value(t)?) }
                2 => { let name = self.cstr()?; P::Arr(name, false, self.items()?) }
                3 => P::Ext(self.cstr()?),
                4 => P::Del(self.cstr()?),
                5 => { let f = self.u32()?; if f != 1 { return Err(format!("unknown array flags {f}")); } let name = self.cstr()?; P::Arr(name, true, self.items()?) }
                t => return Err(format!("unknown entry type {t} at {}", self.at)),
            });
        }
        let end = self.u32()? as usize;
        for (i, off) in bodies {
            if off != self.at { return Err(format!("a class body is said to be at {off}, but the one before ends at {}", self.at)); }
            let (p, b) = self.class(depth + 1)?;
            if let P::Class(_, parent, body) = &mut out[i] { *parent = p; *body = b; }
        }
        if end != self.at { return Err(format!("a class is said to end at {end}, but ends at {}", self.at)); }
        Ok((if parent.is_empty() { None } else { Some(parent) }, out))
    }
}
pub fn derap(b: &[u8]) -> R<Vec<P>> {
    let mut r = Rd { b, at: 0, used: vec![false; b.len()] };
    if r.take(4)? != b"\0raP" || r.u32()? != 0 || r.u32()? != 8 { return Err("wrong header".into()); }
    let enums = r.u32()? as usize;
    let (p, c) = r.class(0)?;
    if p.is_some() { return Err("the root has a parent".into()); }
    if enums != r.at { return Err(format!("the enums are said to be at {enums}, but everything else ends at {}", r.at)); }
    if r.u32()? != 0 { return Err("there are enums".into()); }
    if r.at != b.len() { return Err(format!("{} bytes at the end", b.len() - r.at)); }
    Ok(c)
}
fn same_num(a: &N, b: &N) -> bool {
    match (a, b) {
        (N::Math(x), N::Int(y)) => *x == *y as f64,
        (N::Math(x), N::Float(y)) => (*x as f32).to_bits() == y.to_bits(),
        (N::Float(x), N::Float(y)) => x.to_bits() == y.to_bits(),
        (N::Int(x), N::Int(y)) => x == y,
        _ => false,
    }
}
fn same_v(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Num(a), V::Num(b)) => same_num(a, b),
        (V::Arr(a), V::Arr(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_v(x, y)),
        _ => a == b,
    }
}
/// The first difference.
pub fn differ(want: &[P], got: &[P]) -> Option<String> {
    if want.len() != got.len() { return Some(format!("{} properties instead of {}", got.len(), want.len())); }
    for (a, b) in want.iter().zip(got) {
        match (a, b) {
            (P::Val(n, v), P::Val(m, w)) if n == m && same_v(v, w) => {}
            (P::Arr(n, e, v), P::Arr(m, f, w)) if n == m && e == f && v.len() == w.len() && v.iter().zip(w).all(|(x, y)| same_v(x, y)) => {}
            (P::Class(n, p, v), P::Class(m, r, w)) if n == m && p == r => if let Some(d) = differ(v, w) { return Some(format!("in {n}: {d}")); },
            (P::Ext(n), P::Ext(m)) | (P::Del(n), P::Del(m)) if n == m => {}
            _ => return Some(format!("{b:?} instead of {a:?}")),
        }
    }
    None
}

