//! Per-run context: tape, event trace, counters, violations.

use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

use crate::rng::SimPanic;
use crate::tape::{fnv, mix, splitmix, Tape};

#[derive(Debug, Clone)]
pub struct Violation {
    pub class: String,
    pub msg: String,
}

pub type R<T = ()> = Result<T, Violation>;

pub fn viol<T>(class: impl Into<String>, msg: impl Into<String>) -> R<T> {
    Err(Violation { class: class.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($fmt:tt)+) => {
        if !($cond) {
            return Err($crate::ctx::Violation { class: String::from($class), msg: format!($($fmt)+) });
        }
    };
}

#[derive(Default, Clone)]
pub struct Counters {
    /// fault kinds that actually fired
    pub faults: BTreeMap<String, u64>,
    /// rare conditions reached
    pub probes: BTreeMap<String, u64>,
    /// library calls made on real code
    pub calls: BTreeMap<String, u64>,
    /// oracle evaluations
    pub checks: BTreeMap<String, u64>,
    pub sim_us: u64,
    pub events: u64,
}

impl Counters {
    pub fn merge(&mut self, o: &Counters) {
        for (a, b) in [
            (&mut self.faults, &o.faults),
            (&mut self.probes, &o.probes),
            (&mut self.calls, &o.calls),
            (&mut self.checks, &o.checks),
        ] {
            for (k, v) in b {
                *a.entry(k.clone()).or_default() += v;
            }
        }
        self.sim_us += o.sim_us;
        self.events += o.events;
    }
}

pub struct Ctx {
    pub tape: Tape,
    pub c: Counters,
    pub thorough: bool,
    /// digest over every event of the run
    pub digest: u64,
    /// digest of the order/kind of events only (no payload): interleaving
    pub shape: u64,
    pub keep: bool,
    pub trace: Vec<String>,
    pub label: String,
    pub prop: String,
    /// the byte string made last: inputs, infos and seeds sometimes coincide
    last: Vec<u8>,
}

thread_local! {
    pub static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line())).unwrap_or_default();
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = p.downcast_ref::<SimPanic>() {
            format!("injected: {}", s.0)
        } else {
            "panic".to_string()
        };
        PANIC_MSG.with(|c| *c.borrow_mut() = format!("{m} at {loc}"));
        if std::env::var_os("SIM_PANIC_TRACE").is_some() {
            eprintln!("panic: {m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

pub fn last_panic() -> String {
    PANIC_MSG.with(|c| c.borrow().clone())
}

pub enum Caught<T> {
    Ok(T),
    Injected(&'static str),
    Panic(String),
}

/// Runs code of the library; separates injected faults from real panics.
pub fn catch<T>(f: impl FnOnce() -> T) -> Caught<T> {
    crate::clock::pass();
    let _in = crate::clock::Inside::enter();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Caught::Ok(v),
        Err(p) => match p.downcast::<SimPanic>() {
            Ok(s) => Caught::Injected(s.0),
            Err(_) => Caught::Panic(last_panic()),
        },
    }
}

impl Ctx {
    pub fn new(tape: Tape, thorough: bool, keep: bool) -> Self {
        Ctx {
            tape,
            c: Counters::default(),
            thorough,
            digest: 0x1234,
            shape: 0x4321,
            keep,
            trace: Vec::new(),
            label: String::new(),
            prop: String::new(),
            last: Vec::new(),
        }
    }

    // ---- choices -------------------------------------------------------
    pub fn draw(&mut self, n: u64) -> u64 {
        self.tape.draw(n)
    }

    pub fn below(&mut self, n: usize) -> usize {
        self.tape.draw(n as u64) as usize
    }

    /// true with probability num/den; 0 on the tape means false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.tape.draw(den) >= den - num
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }

    pub fn seed(&mut self) -> u64 {
        self.tape.draw(0)
    }

    /// `n` bytes expanded from one tape entry (entry 0 = all zero bytes)
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        let mut s = self.seed();
        if s == 0 {
            return vec![0; n];
        }
        expand(&mut s, n)
    }

    /// `n` bytes, sometimes with a striking content
    pub fn styled(&mut self, n: usize) -> Vec<u8> {
        let mut v = self.bytes(n);
        match self.draw(26) {
            16 => v.iter_mut().for_each(|b| *b = 0xff),
            17 => v.iter_mut().for_each(|b| *b = 0),
            18 => v.iter_mut().take(1 + n / 3).for_each(|b| *b = 0),
            19 => v.iter_mut().rev().take(1 + n / 3).for_each(|b| *b = 0),
            20 => v.iter_mut().for_each(|b| *b = 0x20 + *b % 0x5f),
            21 => v.iter_mut().enumerate().for_each(|(i, b)| *b = i as u8),
            22 => {
                let x = v.first().copied().unwrap_or(0);
                v.iter_mut().for_each(|b| *b = x)
            }
            23 => v.iter_mut().rev().take(1).for_each(|b| *b = 0x80),
            // what was made before, as it is or as long as asked for
            24 if self.last.len() <= n => v = self.last.clone(),
            25 if !self.last.is_empty() => v = self.last.iter().copied().cycle().take(n).collect(),
            _ => {}
        }
        self.last = v.clone();
        v
    }

    /// A size near one the code under test mentions, or none.
    fn mentioned(&mut self, lo: usize, hi: usize) -> Option<usize> {
        let d = crate::dict::dict();
        let hit = self.draw(16) >= if d.novel { 12 } else { 15 };
        if !hit || d.ints.is_empty() {
            return None;
        }
        let i = self.below(d.ints.len());
        let n = (d.ints[i] + 1).saturating_sub(self.below(3));
        (lo..=hi).contains(&n).then_some(n)
    }

    /// `n`, sometimes replaced by a size the code under test mentions
    pub fn size(&mut self, n: usize, hi: usize) -> usize {
        self.mentioned(1, hi).unwrap_or(n)
    }

    /// content the code under test mentions, put somewhere into `v`
    fn mention(&mut self, v: &mut Vec<u8>) {
        let d = crate::dict::dict();
        let hit = self.draw(32) >= if d.novel { 24 } else { 31 };
        if !hit {
            return;
        }
        let w = if !d.strs.is_empty() && (d.ints.is_empty() || self.chance(1, 2)) {
            let i = self.below(d.strs.len());
            d.strs[i].clone()
        } else if d.ints.is_empty() {
            return;
        } else {
            let i = self.below(d.ints.len());
            let n = d.ints[i];
            match self.draw(3) {
                0 => vec![n as u8],
                1 => (n as u16).to_be_bytes().to_vec(),
                _ => vec![n as u8; v.len()],
            }
        };
        let at = match self.draw(4) {
            0 => {
                *v = w;
                return;
            }
            1 => 0,
            2 => v.len().saturating_sub(w.len()),
            _ => self.below(v.len() + 1),
        };
        for (x, y) in v[at..].iter_mut().zip(&w) {
            *x = *y;
        }
    }

    /// A private input / info: length biased to framing boundaries.
    pub fn blob(&mut self, max: usize) -> Vec<u8> {
        const L: [usize; 36] = [
            3, 1, 0, 8, 16, 31, 32, 33, 63, 64, 65, 127, 128, 200, 254, 255, 256, 257, 300, 511, 2, 4, 12, 20, 24, 48, 55, 56, 96, 100, 5, 15, 17, 47, 129, 512,
        ];
        const B: [usize; 16] = [512, 1024, 4096, 16384, 32768, 65279, 65534, 65535, 1000, 2048, 8192, 10000, 32767, 65280, 50000, 65533];
        let n = match self.draw(12) {
            0..=7 => *self.pick(&L),
            8 | 9 => self.below(1200),
            _ => match self.draw(4) {
                3 => self.below(65536),
                _ => *self.pick(&B),
            },
        };
        let n = self.mentioned(0, max).unwrap_or(n);
        let mut v = self.styled(n.min(max));
        self.mention(&mut v);
        v.truncate(max);
        v
    }

    pub fn small_blob(&mut self) -> Vec<u8> {
        const L: [usize; 24] = [2, 1, 0, 3, 7, 16, 32, 64, 255, 256, 4, 5, 8, 31, 33, 66, 15, 17, 63, 65, 127, 128, 129, 257];
        let n = *self.pick(&L);
        let n = self.mentioned(0, 1000).unwrap_or(n);
        let mut v = self.styled(n);
        self.mention(&mut v);
        v
    }

    // ---- recording -----------------------------------------------------
    pub fn ev(&mut self, kind: &str, detail: impl FnOnce() -> String) {
        self.c.events += 1;
        self.shape = mix(self.shape, fnv(kind.as_bytes()));
        let d = detail();
        self.digest = mix(mix(self.digest, fnv(kind.as_bytes())), fnv(d.as_bytes()));
        if self.keep {
            if self.trace.len() < 4000 {
                self.trace.push(format!("{:>6} {kind} {d}", self.c.events));
            }
        }
    }

    pub fn bytes_ev(&mut self, kind: &str, who: &str, b: &[u8]) {
        let h = fnv(b);
        let l = b.len();
        self.ev(kind, || format!("{who} len={l} fnv={h:016x}"));
    }

    pub fn fault(&mut self, kind: &str) {
        *self.c.faults.entry(kind.to_string()).or_default() += 1;
        let k = kind.to_string();
        self.shape = mix(self.shape, fnv(kind.as_bytes()));
        self.ev("fault", || k);
    }

    pub fn probe(&mut self, kind: &str) {
        *self.c.probes.entry(kind.to_string()).or_default() += 1;
    }

    pub fn check(&mut self, kind: &str) {
        *self.c.checks.entry(kind.to_string()).or_default() += 1;
    }

    /// Calls library code; a panic in it is a violation.
    pub fn lib<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R<T> {
        *self.c.calls.entry(what.to_string()).or_default() += 1;
        self.shape = mix(self.shape, fnv(what.as_bytes()));
        crate::clock::feed(self.digest);
        match catch(f) {
            Caught::Ok(v) => Ok(v),
            Caught::Injected(m) => viol("harness", format!("unexpected injected panic {m} in {what}")),
            Caught::Panic(m) => viol(format!("panic:{what}"), format!("{what} panicked: {m}")),
        }
    }
}

pub fn expand(s: &mut u64, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&splitmix(s).to_le_bytes());
    }
    v.truncate(n);
    v
}

pub fn hx(b: &[u8]) -> String {
    if b.len() <= 48 {
        hex::encode(b)
    } else {
        format!("{}..({} bytes)", hex::encode(&b[..24]), b.len())
    }
}
