//! C13: objects live in slots of memory the simulator owns. However an object
//! got there and however it ends - dropped, overwritten, dropped in a
//! collection, dropped while a panic unwinds - the slot's bytes afterwards must
//! be the same for two different contents.

use std::mem::{size_of, MaybeUninit};

use crate::ctx::{catch, viol, Caught, Ctx, R};
use crate::dispatch;
use crate::rng::{SimPanic, SimRng};
use crate::scen::util::*;
use crate::suite::*;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = ctx.suite();
    let m = ctx.mode();
    ctx.label = format!("memory {} {m:?}", ctx.label);
    dispatch!(sid, wipe(ctx, m))
}

/// How the object comes to be in its slot.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Born {
    Moved,
    Cloned,
    Restored(Codec),
}

/// How it ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum End {
    Drop,
    Overwritten,
    InVec,
    EarlyReturn,
    /// a generator fails inside a library call that borrows the object, or
    /// inside an unrelated one, while the object is alive
    Unwind,
    UnwindIter,
    OptionTake,
    Boxed,
}
const ENDS: [End; 8] = [End::Drop, End::Unwind, End::EarlyReturn, End::InVec, End::Overwritten, End::UnwindIter, End::OptionTake, End::Boxed];

struct Slot<T>(Box<MaybeUninit<T>>);

impl<T> Slot<T> {
    fn new() -> Self {
        let mut b = Box::new(MaybeUninit::<T>::uninit());
        let p = b.as_mut_ptr() as *mut u8;
        for i in 0..size_of::<T>() {
            // SAFETY: within the slot
            unsafe { p.add(i).write_volatile(0xA5) };
        }
        Slot(b)
    }
    fn ptr(&mut self) -> *mut T {
        self.0.as_mut_ptr()
    }
    fn image(&mut self) -> Vec<u8> {
        raw_bytes(self.ptr() as *const u8, size_of::<T>())
    }
}

/// Ends the object in the slot when it goes out of scope.
struct Guard<T>(*mut T);
impl<T> Drop for Guard<T> {
    fn drop(&mut self) {
        // SAFETY: the slot holds an object exactly once
        unsafe { std::ptr::drop_in_place(self.0) }
    }
}

fn early<T>(p: *mut T, fail: bool) -> Result<(), ()> {
    let _g = Guard(p);
    if fail {
        return Err(());
    }
    Ok(())
}

struct Images {
    alive: Vec<u8>,
    dead: Vec<u8>,
}

/// One life of one object: returns its memory before and after its end.
fn life<O: Obj>(o: &O, other: &O, born: Born, end: End, unwind: &dyn Fn()) -> Result<Images, String> {
    let fresh = match born {
        Born::Moved | Born::Cloned => o.clone(),
        Born::Restored(c) => O::dec(&o.enc(c), c)?,
    };
    let before = o.bytes();
    let mut slot = Slot::<O>::new();
    let p = slot.ptr();
    let (alive, dead);
    // SAFETY: every arm writes the slot once and ends the object once; reads
    // are volatile and of memory the slot owns
    unsafe {
        match end {
            End::Drop | End::EarlyReturn | End::Unwind | End::UnwindIter => {
                p.write(fresh);
                let extra = if born == Born::Cloned {
                    // the clone lives elsewhere and must survive
                    Some((*p).clone())
                } else {
                    None
                };
                alive = slot.image();
                match end {
                    End::Drop => drop(Guard(p)),
                    End::EarlyReturn => {
                        let _ = early(p, true);
                    }
                    _ => {
                        let c = catch(|| {
                            let _g = Guard(p);
                            unwind();
                        });
                        match c {
                            Caught::Injected(_) => {}
                            Caught::Ok(()) => return Err("the injected failure did not surface".into()),
                            Caught::Panic(m) => return Err(format!("panic {m}")),
                        }
                    }
                }
                dead = slot.image();
                if let Some(x) = extra {
                    if x.bytes() != before {
                        return Err("ending an object changed its clone".into());
                    }
                }
            }
            End::Overwritten => {
                p.write(fresh);
                alive = slot.image();
                // `*slot = other`: ends the old object, moves the new one in;
                // then the new one is ended, too
                *p = other.clone();
                drop(Guard(p));
                dead = slot.image();
            }
            End::OptionTake => {
                let mut s: Slot<Option<O>> = Slot::new();
                let q = s.ptr();
                q.write(Some(fresh));
                let (off, n) = {
                    let r = (*q).as_ref().unwrap();
                    (r as *const O as usize - q as usize, size_of::<O>())
                };
                alive = s.image()[off..off + n].to_vec();
                *q = None;
                let all = s.image();
                // storing None may rewrite the discriminant only: the object's
                // own bytes are what is compared
                dead = all[off..off + n].to_vec();
            }
            End::InVec => {
                let mut v: Vec<O> = Vec::with_capacity(4);
                let base = v.as_mut_ptr() as *mut u8;
                let total = 4 * size_of::<O>();
                for i in 0..total {
                    base.add(i).write_volatile(0xA5);
                }
                v.push(fresh);
                v.push(other.clone());
                v.push(o.clone());
                alive = raw_bytes(base, size_of::<O>());
                match v.len() % 2 {
                    _ if born == Born::Moved => v.clear(),
                    _ => v.truncate(0),
                }
                dead = raw_bytes(base, total);
            }
            End::Boxed => {
                p.write(fresh);
                alive = slot.image();
                let b: Box<O> = Box::from_raw(Box::into_raw(slot.0) as *mut O);
                let q = Box::into_raw(b);
                std::ptr::drop_in_place(q);
                dead = raw_bytes(q as *const u8, size_of::<O>());
                // give the memory back without ending the object again
                drop(Box::from_raw(q as *mut MaybeUninit<O>));
            }
        }
    }
    if o.bytes() != before {
        return Err("ending a copy changed the original".into());
    }
    Ok(Images { alive, dead })
}

#[allow(clippy::too_many_arguments)]
fn object<O: Obj>(ctx: &mut Ctx, a: &O, b: &O, filler: &O, unwind: &dyn Fn(), unwind_iter: &dyn Fn()) -> R {
    let c = ctx.codec();
    let born = *ctx.pick(&[Born::Moved, Born::Cloned, Born::Restored(c)]);
    let end = *ctx.pick(&ENDS);
    let uw = if end == End::UnwindIter { unwind_iter } else { unwind };
    let kind = O::KIND;
    *ctx.c.calls.entry(format!("end.{kind:?}")).or_default() += 1;
    ctx.fault(&format!("end-{end:?}"));
    let name = format!("{kind:?} {born:?} {end:?}");
    let (x, y) = (life(a, filler, born, end, uw), life(b, filler, born, end, uw));
    let (x, y) = match (x, y) {
        (Ok(x), Ok(y)) => (x, y),
        (x, y) => {
            let e = x.err().or(y.err()).unwrap();
            return viol("object-life", format!("{name}: {e}"));
        }
    };
    // the comparison means something: the contents did differ in memory
    if a.bytes() == b.bytes() || x.alive == y.alive {
        ctx.probe("contents-coincide");
        return Ok(());
    }
    ctx.check("same-remains");
    ctx.bytes_ev("ended", &name, &x.dead);
    if x.dead != y.dead {
        let at = x.dead.iter().zip(&y.dead).position(|(p, q)| p != q).unwrap();
        let n = x.dead.iter().zip(&y.dead).filter(|(p, q)| p != q).count();
        return viol("contents-remain", format!("{name}: after its end {n} of {} bytes of the memory still depend on what it held (first at offset {at})", x.dead.len()));
    }
    Ok(())
}

struct Kit<S: Suite> {
    cl: Cl<S>,
    srv: Sv<S>,
    be: S::BE,
    ee: S::EE,
    pr: Option<S::PR>,
    pe: Option<S::PE>,
    tw: Option<S::TW>,
}

fn kit<S: Suite>(ctx: &mut Ctx, m: crate::rg::Mode) -> R<Kit<S>> {
    let w = world::<S>(ctx, m)?;
    let info = ctx.info();
    let i = ctx.bytes(12);
    let s = session::<S>(ctx, m, i)?;
    let mut rng = SimRng::new(ctx.seed());
    let r = ctx.lib("server.blind_evaluate", || w.srv.blind_evaluate(&mut rng, &s.be, info.as_deref()))?;
    let Ok((ee, pr)) = r else { return viol("honest-evaluation-failed", "blind_evaluate") };
    let (mut pe, mut tw) = (None, None);
    if m.verifiable() {
        let v = [s.be.clone()];
        let r = ctx.lib("server.prepare", || w.srv.prepare(Box::new(v.iter()), info.as_deref()).map(|(i, t)| (i.collect::<Vec<_>>(), t)))?;
        let Ok((p, t)) = r else { return viol("honest-evaluation-failed", "prepare") };
        pe = p.into_iter().next();
        tw = t;
    }
    Ok(Kit { cl: s.cl, srv: w.srv, be: s.be, ee, pr, pe, tw })
}

fn wipe<S: Suite>(ctx: &mut Ctx, m: crate::rg::Mode) -> R {
    let (a, b, f) = (kit::<S>(ctx, m)?, kit::<S>(ctx, m)?, kit::<S>(ctx, m)?);
    let n = 4 + ctx.below(12);
    for _ in 0..n {
        // calls that die in the middle, with library objects of their own alive
        let which = ctx.below(3);
        let s1 = ctx.seed();
        let (fsrv, fbe) = (&f.srv, &f.be);
        let unwind = move || {
            let mut r = SimRng::new(s1);
            r.panic_at = Some(0);
            if which == 0 || !m.verifiable() {
                let _ = Cl::<S>::blind(m, b"input", &mut r);
            } else if which == 1 {
                let _ = fsrv.blind_evaluate(&mut r, fbe, None);
            } else {
                let _ = fsrv.batch(&mut r, &Yv(vec![fbe.clone(), fbe.clone()]), None);
            }
        };
        let unwind_iter = move || {
            if !m.verifiable() {
                std::panic::panic_any(SimPanic("application failed"));
            }
            let v = [fbe.clone(), fbe.clone()];
            let it = v.iter().enumerate().map(|(i, x)| {
                if i == 1 {
                    std::panic::panic_any(SimPanic("iterator failed"));
                }
                x
            });
            let r = fsrv.prepare(Box::new(it), None);
            if let Ok((i, _t)) = r {
                let _ = i.collect::<Vec<_>>();
            }
        };
        let (u, ui): (&dyn Fn(), &dyn Fn()) = (&unwind, &unwind_iter);
        match ctx.draw(8) {
            0 => match (&a.cl, &b.cl, &f.cl) {
                (Cl::O(x), Cl::O(y), Cl::O(z)) => object(ctx, x, y, z, u, ui)?,
                (Cl::V(x), Cl::V(y), Cl::V(z)) => object(ctx, x, y, z, u, ui)?,
                (Cl::P(x), Cl::P(y), Cl::P(z)) => object(ctx, x, y, z, u, ui)?,
                _ => unreachable!(),
            },
            1 => match (&a.srv, &b.srv, &f.srv) {
                (Sv::O(x), Sv::O(y), Sv::O(z)) => object(ctx, x, y, z, u, ui)?,
                (Sv::V(x), Sv::V(y), Sv::V(z)) => object(ctx, x, y, z, u, ui)?,
                (Sv::P(x), Sv::P(y), Sv::P(z)) => object(ctx, x, y, z, u, ui)?,
                _ => unreachable!(),
            },
            2 => object(ctx, &a.be, &b.be, &f.be, u, ui)?,
            3 => object(ctx, &a.ee, &b.ee, &f.ee, u, ui)?,
            4 => {
                if let (Some(x), Some(y), Some(z)) = (&a.pr, &b.pr, &f.pr) {
                    object(ctx, x, y, z, u, ui)?
                }
            }
            5 | 6 => {
                if let (Some(x), Some(y), Some(z)) = (&a.pe, &b.pe, &f.pe) {
                    object(ctx, x, y, z, u, ui)?
                }
            }
            _ => {
                if let (Some(x), Some(y), Some(z)) = (&a.tw, &b.tw, &f.tw) {
                    object(ctx, x, y, z, u, ui)?
                }
            }
        }
    }
    Ok(())
}
