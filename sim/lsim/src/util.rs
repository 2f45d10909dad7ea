//! Generators and helpers shared by the property modules. Choice 0 is always the plainest option.
use simcore::driver::{bad, norm, Violation};
use simcore::guard;
use simcore::streams::{Plan, SimReader};
use simcore::{gen, genp, tape::Rng};
use std::sync::Arc;

pub fn pick<T: Clone>(v: &[T]) -> T { v[gen(v.len() as u64) as usize].clone() }
/// n pseudo-random bytes named by one tape entry (0: all 'a').
pub fn bytes(n: usize) -> Vec<u8> {
    let s = gen(1 << 20);
    match s % 8 {
        0 => vec![b'a'; n],
        1 => (0..n).map(|i| (i % 251) as u8).collect(),
        2 => { let mut r = Rng::new(s); (0..n).map(|_| b"abcd\n\0"[r.below(6) as usize]).collect() }
        _ => { let mut r = Rng::new(s); let mut v = Vec::with_capacity(n + 8); while v.len() < n { v.extend_from_slice(&r.next().to_le_bytes()); } v.truncate(n); v }
    }
}
pub fn word() -> String { pick(&["a", "b", "config", "init", "data", "Zeta", "x_1", "UPPER", "mid dle", "ünï", "long_name_that_goes_on_for_a_while"]).to_string() }
pub fn ext() -> String { pick(&["sqf", "cpp", "paa", "p3d", "txt", "hpp", "bin", "rvmat", "ogg", "XML", "fsm", "wrp", "", "jpg", "SQF", "sqm", "ext", "bisurf", "rtm", "lip"]).to_string() }
pub fn filename() -> String {
    let mut s = String::new();
    for _ in 0..gen(4) { s.push_str(&word()); s.push(if genp(1, 3) { '/' } else { '\\' }); }
    s.push_str(&word());
    if genp(1, 2) { s.push_str(&gen(30).to_string()); }
    let e = ext();
    if !e.is_empty() { s.push('.'); s.push_str(&e); }
    s
}
pub fn reader(data: &[u8], plan: Plan) -> SimReader { SimReader::new(Arc::new(data.to_vec()), plan) }
pub fn hexs(b: &[u8]) -> String { b.iter().take(24).map(|x| format!("{x:02x}")).collect::<String>() + if b.len() > 24 { "…" } else { "" } }
/// Describe the first difference of two byte strings.
pub fn diff(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    format!("lengths {} / {}, first difference at byte {i}: {} / {}", a.len(), b.len(), hexs(&a[i.min(a.len())..]), hexs(&b[i.min(b.len())..]))
}
/// Run library code: Err(Violation) on panic.
pub fn run<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, Violation> { guard(f).map_err(|p| Violation { sig: format!("{what} panics: {}", norm(&p)), detail: p }) }
pub fn must<T, E: std::fmt::Display>(what: &str, f: impl FnOnce() -> Result<T, E>) -> Result<T, Violation> {
    match run(what, f)? { Ok(x) => Ok(x), Err(e) => bad(format!("{what} fails although nothing is wrong"), e.to_string()) }
}
