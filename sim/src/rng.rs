//! The simulated random generator handed to every library call. All bytes it
//! yields are logged. Fault modes: a poor start (mostly zero or all-one bytes),
//! scripted output (zeros, stuck words,
//! out-of-range values) before the normal stream, a panic ("entropy device
//! failed") at a chosen call, and a yield to the simulator's scheduler before
//! every call.

use std::collections::VecDeque;

use rand_core::{CryptoRng, RngCore};

use crate::tape::splitmix;

pub struct SimPanic(pub &'static str);

pub struct SimRng {
    state: u64,
    buf: VecDeque<u8>,
    /// bytes yielded so far
    pub log: Vec<u8>,
    /// (offset, length) of every call
    pub calls: Vec<(usize, usize)>,
    pub script: VecDeque<u8>,
    pub panic_at: Option<usize>,
    pub try_fails: bool,
}

impl SimRng {
    pub fn new(seed: u64) -> Self {
        Self::plain(seed)
    }

    /// A generator that starts poorly: draws of `l` bytes that are mostly zero
    /// (or all-one) bytes, with 8 random bytes each so that no two coincide.
    pub fn poor(seed: u64, l: usize) -> Self {
        let mut r = Self::plain(seed);
        let (mut a, mut b) = (seed ^ 0x71, seed ^ 0x72);
        let how = splitmix(&mut a);
        let at = [0, l - 8, l / 2 - 4, 3][(how % 4) as usize];
        for _ in 0..1 + how / 16 % 3 {
            let mut block = vec![if how / 64 % 4 == 3 { 0xff } else { 0 }; l];
            block[at..at + 8].copy_from_slice(&splitmix(&mut b).to_le_bytes());
            if l == 66 {
                block[0] = 0;
            }
            r.script.extend(block);
        }
        r
    }

    fn plain(seed: u64) -> Self {
        SimRng {
            state: seed ^ 0x5bd1_e995_u64,
            buf: VecDeque::new(),
            log: Vec::new(),
            calls: Vec::new(),
            script: VecDeque::new(),
            panic_at: None,
            try_fails: false,
        }
    }

    pub fn scripted(bytes: &[u8], seed: u64) -> Self {
        let mut r = Self::plain(seed);
        r.script = bytes.iter().copied().collect();
        r
    }

    fn byte(&mut self) -> u8 {
        if let Some(b) = self.script.pop_front() {
            return b;
        }
        if self.buf.is_empty() {
            let w = splitmix(&mut self.state);
            self.buf.extend(w.to_le_bytes());
        }
        self.buf.pop_front().unwrap()
    }

    fn fill(&mut self, dest: &mut [u8]) {
        crate::sched::yield_point("rng");
        if self.panic_at == Some(self.calls.len()) {
            std::panic::panic_any(SimPanic("entropy source failed"));
        }
        self.calls.push((self.log.len(), dest.len()));
        for d in dest.iter_mut() {
            *d = self.byte();
        }
        self.log.extend_from_slice(dest);
    }
}

impl RngCore for SimRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill(&mut b);
        u32::from_le_bytes(b)
    }

    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill(&mut b);
        u64::from_le_bytes(b)
    }

    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.fill(dest)
    }

    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
        if self.try_fails {
            return Err(rand_core::Error::from(core::num::NonZeroU32::new(rand_core::Error::CUSTOM_START).unwrap()));
        }
        self.fill(dest);
        Ok(())
    }
}

impl CryptoRng for SimRng {}
