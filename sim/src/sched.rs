//! Baton scheduler: caller threads are real OS threads, but exactly one runs at
//! a time and who runs next is a tape choice made at every yield point (every
//! generator call, iterator step and toy-group operation inside the library,
//! and between calls).

use std::cell::RefCell;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

use crate::tape::{fnv, mix, Tape};

thread_local! {
    static ME: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) };
}

thread_local! {
    static NEST: RefCell<Option<(u64, Box<dyn FnOnce()>)>> = const { RefCell::new(None) };
}

/// Arranges for `f` to run on this thread inside the (n+1)-th yield point from
/// now, that is from within whatever library call is then suspended.
pub fn nest(n: u64, f: Box<dyn FnOnce()>) {
    NEST.with(|c| *c.borrow_mut() = Some((n, f)));
}
/// true if the nested call has not run
pub fn unnest() -> bool {
    NEST.with(|c| c.borrow_mut().take().is_some())
}

struct Inner {
    tape: Tape,
    running: usize,
    alive: Vec<bool>,
    /// switch only with probability 1/period at a yield (swarm knob)
    period: u64,
    switches: u64,
    yields: u64,
    shape: u64,
    stuck: bool,
}

pub struct Shared {
    m: Mutex<Inner>,
    cv: Condvar,
}

pub struct SchedReport {
    pub tape: Tape,
    pub switches: u64,
    pub yields: u64,
    pub shape: u64,
    pub stuck: bool,
}

const NOBODY: usize = usize::MAX;

impl Shared {
    fn wait_turn(&self, me: usize) {
        // the simulator's own patience is measured in real time
        let _out = crate::clock::Outside::enter();
        let mut g = self.m.lock().unwrap();
        while g.running != me {
            if g.stuck {
                return;
            }
            let (ng, t) = self.cv.wait_timeout(g, Duration::from_secs(20)).unwrap();
            g = ng;
            if t.timed_out() && g.running != me {
                // the running thread is blocked outside the simulator
                g.stuck = true;
                self.cv.notify_all();
            }
        }
    }

    fn choose(g: &mut Inner, me: usize, tag: &str) {
        let cand: Vec<usize> = (0..g.alive.len()).filter(|i| g.alive[*i]).collect();
        if cand.is_empty() {
            g.running = NOBODY;
            return;
        }
        let period = g.period;
        let next = if g.alive[me] && (cand.len() == 1 || g.tape.draw(period) != period - 1) {
            me
        } else {
            let others: Vec<usize> = cand.iter().copied().filter(|i| *i != me).collect();
            let i = g.tape.draw(others.len() as u64) as usize;
            others[i]
        };
        if next != me {
            g.switches += 1;
            g.shape = mix(g.shape, fnv(tag.as_bytes()) ^ ((me as u64) << 8) ^ next as u64);
        }
        g.running = next;
    }
}

/// Gives the simulator the chance to run another thread.
pub fn yield_point(tag: &str) {
    let f = NEST.with(|c| {
        let mut b = c.borrow_mut();
        match b.as_mut() {
            Some((0, _)) => b.take().map(|x| x.1),
            Some((k, _)) => {
                *k -= 1;
                None
            }
            None => None,
        }
    });
    if let Some(f) = f {
        f();
    }
    ME.with(|m| {
        let b = m.borrow();
        let Some((s, me)) = b.as_ref() else { return };
        let mut g = s.m.lock().unwrap();
        if g.stuck {
            return;
        }
        g.yields += 1;
        Shared::choose(&mut g, *me, tag);
        let switch = g.running != *me;
        drop(g);
        if switch {
            s.cv.notify_all();
            s.wait_turn(*me);
        }
    })
}

/// Runs the bodies to completion under tape-chosen interleaving.
pub fn run_threads<T: Send>(
    tape: Tape,
    period: u64,
    bodies: Vec<Box<dyn FnOnce() -> T + Send + '_>>,
) -> (Vec<Option<T>>, SchedReport) {
    let n = bodies.len();
    let s = Arc::new(Shared {
        m: Mutex::new(Inner {
            tape,
            running: NOBODY,
            alive: vec![true; n],
            period: period.max(1),
            switches: 0,
            yields: 0,
            shape: 7,
            stuck: false,
        }),
        cv: Condvar::new(),
    });
    let results: Vec<Mutex<Option<T>>> = (0..n).map(|_| Mutex::new(None)).collect();
    std::thread::scope(|sc| {
        for (i, b) in bodies.into_iter().enumerate() {
            let s = s.clone();
            let slot = &results[i];
            sc.spawn(move || {
                ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                s.wait_turn(i);
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b));
                if let Ok(v) = r {
                    *slot.lock().unwrap() = Some(v);
                }
                ME.with(|m| *m.borrow_mut() = None);
                let mut g = s.m.lock().unwrap();
                g.alive[i] = false;
                Shared::choose(&mut g, i, "exit");
                drop(g);
                s.cv.notify_all();
            });
        }
        let mut g = s.m.lock().unwrap();
        let first = g.tape.draw(n as u64) as usize;
        g.running = first;
        drop(g);
        s.cv.notify_all();
    });
    let s = Arc::try_unwrap(s).ok().expect("threads ended");
    let g = s.m.into_inner().unwrap();
    (
        results.into_iter().map(|r| r.into_inner().unwrap()).collect(),
        SchedReport { tape: g.tape, switches: g.switches, yields: g.yields, shape: g.shape, stuck: g.stuck },
    )
}
