//! The choice tape: every decision of a run (workload, schedule, fault, data
//! seed) is one `draw(n)`. A run is a pure function of its tape; a fresh run
//! extends the tape from a PRNG seeded by (VERIF_SEED, property, run index).
//! Value 0 always means "the simplest thing / no fault", so zeroing and
//! deleting tape entries is a generic minimiser.

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93).rotate_left(23);
    splitmix(&mut s);
    splitmix(&mut s)
}

pub fn fnv(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in bytes {
        h ^= u64::from(*b);
        h = h.wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub struct Tape {
    replay: Option<Vec<u64>>,
    pos: usize,
    state: u64,
    pub rec: Vec<u64>,
}

impl Tape {
    pub fn fresh(seed: u64) -> Self {
        Tape { replay: None, pos: 0, state: seed, rec: Vec::new() }
    }

    pub fn replay(t: Vec<u64>) -> Self {
        Tape { replay: Some(t), pos: 0, state: 0, rec: Vec::new() }
    }

    /// Uniform in 0..n (n = 0 means the full 64-bit range).
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = match &self.replay {
            Some(t) => t.get(self.pos).copied().unwrap_or(0),
            None => splitmix(&mut self.state),
        };
        self.pos += 1;
        let v = if n == 0 { v } else { v % n };
        self.rec.push(v);
        v
    }
}
