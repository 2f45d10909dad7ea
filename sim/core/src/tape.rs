//! Choice tapes. Every decision of a run is drawn from one of four tapes; a run is a pure function
//! of its tapes and the code. While searching, tapes are filled from a PRNG seeded by the run seed;
//! on replay they are read back, and an exhausted tape answers 0 (always the plainest choice).

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum S {
    /// workload generation
    Gen = 0,
    /// fault injection
    Fault = 1,
    /// thread scheduling
    Sched = 2,
    /// environment: hash seeds, directory order, random numbers, clock
    Env = 3,
}

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { ((u128::from(self.next()) * u128::from(n)) >> 64) as u64 }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0xD6E8_FEB8_6659_FD93) ^ b.rotate_left(29));
    r.next() ^ Rng::new(b).next()
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn hash_bytes(mut h: u64, s: &[u8]) -> u64 {
    for b in s {
        h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub struct Tape {
    rng: Option<Rng>,
    src: Vec<u64>,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Tape {
    pub fn seeded(seed: u64) -> Self {
        Tape { rng: Some(Rng::new(seed)), src: vec![], pos: 0, rec: Vec::with_capacity(256) }
    }
    pub fn replay(src: Vec<u64>) -> Self {
        Tape { rng: None, src, pos: 0, rec: Vec::with_capacity(256) }
    }
    pub fn choice(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        let v = match &mut self.rng {
            Some(r) => r.below(n),
            None => {
                let v = self.src.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v % n
            }
        };
        self.rec.push(v);
        v
    }
}

pub type Tapes = [Vec<u64>; 4];
