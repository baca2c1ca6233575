//! The clock seam. Everything the process asks the time of goes through
//! `clock_gettime`, which this binary supplies itself: inside a simulated run the
//! answer is virtual time, which stands still, creeps, leaps by hours and (the
//! wall clock) is set forwards, backwards and before 1970; outside it is the
//! system's. The library is not supposed to read the clock at all; if it comes to
//! do so, these are the times it sees, and what it returns must not depend on them.

use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

use crate::tape::mix;

static MONO: AtomicI64 = AtomicI64::new(0);
static WALL: AtomicI64 = AtomicI64::new(0);
static READS: AtomicU64 = AtomicU64::new(0);
/// what the next steps of time are drawn from
static DRAW: AtomicU64 = AtomicU64::new(0);
static CALLS: AtomicU64 = AtomicU64::new(0);

thread_local! {
    static IN: Cell<u32> = const { Cell::new(0) };
}

/// While this lives, the thread lives in virtual time.
pub struct Inside(());

impl Inside {
    pub fn enter() -> Self {
        IN.with(|c| c.set(c.get() + 1));
        Inside(())
    }
}

impl Drop for Inside {
    fn drop(&mut self) {
        IN.with(|c| c.set(c.get() - 1));
    }
}

/// While this lives, the thread is back in the system's time.
pub struct Outside(u32);

impl Outside {
    pub fn enter() -> Self {
        Outside(IN.with(|c| c.replace(0)))
    }
}

impl Drop for Outside {
    fn drop(&mut self) {
        IN.with(|c| c.set(self.0));
    }
}

const S: i64 = 1_000_000_000;
const Y: i64 = 365 * 86_400;

pub fn start() {
    MONO.store(5 * S, Relaxed);
    WALL.store(1_700_000_000 * S, Relaxed);
    READS.store(0, Relaxed);
    DRAW.store(0, Relaxed);
    CALLS.store(0, Relaxed);
}

/// The steps of time to come follow from what happened in the run so far.
pub fn feed(digest: u64) {
    DRAW.store(digest, Relaxed);
}

/// Some code of the library is about to run.
pub fn pass() {
    let n = CALLS.fetch_add(1, Relaxed);
    tick(mix(DRAW.load(Relaxed), n));
}

/// How often the clock was read since the start of the run.
pub fn reads() -> u64 {
    READS.load(Relaxed)
}

fn tick(z: u64) {
    let r = (z >> 16) as i64 & 0xffff_ffff;
    let d = match z % 16 {
        0..=3 => 0,
        4..=8 => r % 1_000_000,
        9..=12 => r % (2 * S),
        13 | 14 => r % 100 * S,
        _ => r % 40_000 * S,
    };
    MONO.fetch_add(d, Relaxed);
    WALL.fetch_add(d, Relaxed);
    match (z >> 8) % 256 {
        0..=3 => drop(WALL.fetch_sub(r % 7200 * S, Relaxed)),
        4..=7 => drop(WALL.fetch_add(r % 7200 * S, Relaxed)),
        8 => WALL.store(r % (60 * Y) * S, Relaxed),
        9 => WALL.store(-(r % Y) * S - 1, Relaxed),
        10 => WALL.store(((1i64 << 31) - 2 + r % 4) * S, Relaxed),
        _ => {}
    }
    let w = WALL.load(Relaxed);
    if !(-2 * Y * S..100 * Y * S).contains(&w) {
        WALL.store(0, Relaxed);
    }
}

/// # Safety
/// As the C function of that name.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32 {
    if IN.try_with(|c| c.get() > 0).unwrap_or(false) && !ts.is_null() {
        let t = match id {
            0 | 5 | 11 => &WALL,
            1 | 4 | 6 | 7 => &MONO,
            _ => return system(id, ts),
        };
        READS.fetch_add(1, Relaxed);
        let n = t.load(Relaxed);
        *ts = [n.div_euclid(S), n.rem_euclid(S)];
        return 0;
    }
    system(id, ts)
}

unsafe fn system(id: i32, ts: *mut [i64; 2]) -> i32 {
    let mut r: i64 = 228;
    core::arch::asm!("syscall", inlateout("rax") r, in("rdi") id as i64, in("rsi") ts,
        lateout("rcx") _, lateout("r11") _, options(nostack));
    if r < 0 {
        -1
    } else {
        0
    }
}

pub fn selftest() -> Result<(), String> {
    use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};
    let a = Instant::now();
    std::thread::sleep(Duration::from_millis(2));
    if a.elapsed() < Duration::from_millis(1) {
        return Err("the system's clock does not pass".into());
    }
    start();
    let _in = Inside::enter();
    let b = Instant::now();
    std::thread::sleep(Duration::from_millis(2));
    if b.elapsed() != Duration::ZERO || SystemTime::now().duration_since(UNIX_EPOCH).map(|d| d.as_secs()).ok() != Some(1_700_000_000) {
        return Err("virtual time is not what the library would see".into());
    }
    tick(9 | 77 << 16 | 0xff << 8);
    if b.elapsed() == Duration::ZERO {
        return Err("virtual time does not pass".into());
    }
    Ok(())
}
