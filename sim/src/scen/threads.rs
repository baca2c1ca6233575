//! C10: many sessions at once over shared objects. Caller threads run one at a
//! time under a schedule drawn from the tape, switching inside generator,
//! iterator and group callbacks of the library; calls are also nested into
//! suspended calls of the same thread, abandoned half-way and killed by
//! failing generators. Each call must return exactly what it returns alone.

use std::sync::{Arc, Mutex};

use crate::ctx::{catch, hx, viol, Caught, Ctx, R};
use crate::dispatch;
use crate::rg::{self, Mode, MODES};
use crate::rng::SimRng;
use crate::scen::util::*;
use crate::sched;
use crate::suite::*;
use crate::tape::{mix, Tape};

type Run = Arc<dyn Fn() -> Vec<u8> + Send + Sync>;

struct Job {
    name: String,
    run: Run,
    /// the reference's opinion of the result
    check: Box<dyn Fn(&[u8]) -> Result<(), String>>,
}

/// bytes of every shared object, to see that nobody changed one
type Snap = Box<dyn Fn() -> Vec<(String, Vec<u8>)>>;

pub fn run(ctx: &mut Ctx) -> R {
    let mut jobs: Vec<Job> = Vec::new();
    let mut snaps: Vec<Snap> = Vec::new();
    let sid = match ctx.draw(4) {
        3 => *ctx.pick(&[Sid::Ristretto, Sid::P256, Sid::P384, Sid::P521]),
        _ => Sid::Toy,
    };
    let nested = ctx.chance(1, 4);
    ctx.label = format!("{} {sid:?}", if nested { "nested" } else { "threads" });
    let per = 4 + ctx.below(8);
    dispatch!(sid, make(ctx, per, &mut jobs, &mut snaps))?;
    if ctx.chance(1, 3) {
        // sessions of another suite at the same time
        let sid2 = *ctx.pick(&[Sid::ToyB, Sid::Ristretto, Sid::Toy, Sid::P256, Sid::P384, Sid::P256B, Sid::RistrettoB, Sid::ToyF]);
        dispatch!(sid2, make(ctx, 3, &mut jobs, &mut snaps))?;
        ctx.probe("suites-mixed");
    }
    let before: Vec<Vec<(String, Vec<u8>)>> = snaps.iter().map(|f| f()).collect();

    // alone, in the order they were made
    let mut alone = Vec::new();
    for j in &jobs {
        let r = solo(ctx, j)?;
        if let Err(e) = (j.check)(&r) {
            return viol("wrong-alone", format!("{}: {e}", j.name));
        }
        ctx.bytes_ev("alone", &j.name, &r);
        alone.push(r);
    }

    if nested {
        nest(ctx, &jobs, &alone)?;
    } else {
        threads(ctx, &jobs, &alone)?;
    }

    // alone again, in another order
    let n = jobs.len();
    let rot = ctx.below(n);
    for k in 0..n {
        let i = (n - 1 - k + rot) % n;
        let r = solo(ctx, &jobs[i])?;
        ctx.check("same-alone-afterwards");
        if r != alone[i] {
            return viol("changed-afterwards", format!("{}: gave {} before and {} after the interleaved calls", jobs[i].name, hx(&alone[i]), hx(&r)));
        }
    }
    let after: Vec<Vec<(String, Vec<u8>)>> = snaps.iter().map(|f| f()).collect();
    ctx.check("shared-objects-unchanged");
    for (a, b) in before.iter().zip(&after) {
        for ((n, x), (_, y)) in a.iter().zip(b) {
            if x != y {
                return viol("borrowed-object-modified", format!("{n}: was {} is {}", hx(x), hx(y)));
            }
        }
    }
    Ok(())
}

fn solo(ctx: &mut Ctx, j: &Job) -> R<Vec<u8>> {
    *ctx.c.calls.entry(j.name.split(' ').next().unwrap_or("").to_string()).or_default() += 1;
    let r = (j.run)();
    if let Some(m) = r.strip_prefix(b"PANIC ") {
        return viol("panic", format!("{}: {}", j.name, String::from_utf8_lossy(m)));
    }
    Ok(r)
}

fn threads(ctx: &mut Ctx, jobs: &[Job], alone: &[Vec<u8>]) -> R {
    let nt = 2 + ctx.below(4);
    let period = *ctx.pick(&[4, 2, 3, 8, 24, 100]);
    // every job is given to one or more threads, in any order
    let mut plan: Vec<Vec<usize>> = vec![Vec::new(); nt];
    for i in 0..jobs.len() {
        let t = ctx.below(nt);
        let at = ctx.below(plan[t].len() + 1);
        plan[t].insert(at, i);
        if ctx.chance(1, 3) {
            let t = ctx.below(nt);
            plan[t].push(i);
        }
    }
    let bodies: Vec<Box<dyn FnOnce() -> Vec<(usize, Vec<u8>)> + Send>> = plan
        .iter()
        .map(|p| {
            let mine: Vec<(usize, Run)> = p.iter().map(|i| (*i, jobs[*i].run.clone())).collect();
            let f: Box<dyn FnOnce() -> Vec<(usize, Vec<u8>)> + Send> = Box::new(move || {
                let mut out = Vec::new();
                for (i, r) in mine {
                    sched::yield_point("call");
                    out.push((i, r()));
                }
                out
            });
            f
        })
        .collect();
    let tape = std::mem::replace(&mut ctx.tape, Tape::replay(vec![]));
    let (res, rep) = sched::run_threads(tape, period, bodies);
    ctx.tape = rep.tape;
    ctx.shape = mix(ctx.shape, rep.shape);
    ctx.digest = mix(ctx.digest, rep.shape);
    ctx.c.events += rep.yields;
    for _ in 0..rep.switches.min(1) {
        ctx.probe("switched-inside-calls");
    }
    *ctx.c.faults.entry("preemption-inside-a-call".into()).or_default() += rep.switches;
    let sh = rep.shape;
    ctx.ev("schedule", || format!("threads={nt} switches={} yields={} shape={sh:016x}", rep.switches, rep.yields));
    if rep.stuck {
        return viol("blocked", "a call blocked on another suspended call");
    }
    for (t, r) in res.into_iter().enumerate() {
        let Some(v) = r else { return viol("panic", format!("thread {t} died: {}", crate::ctx::last_panic())) };
        for (i, b) in v {
            ctx.check("same-as-alone");
            if b != alone[i] {
                return viol("interference", format!("{} on thread {t}: alone {}, interleaved {}", jobs[i].name, hx(&alone[i]), show(&b)));
            }
        }
    }
    Ok(())
}

fn show(b: &[u8]) -> String {
    match b.strip_prefix(b"PANIC ") {
        Some(m) => String::from_utf8_lossy(m).into_owned(),
        None => hx(b),
    }
}

/// A call starts while another call of the same thread is inside a callback.
fn nest(ctx: &mut Ctx, jobs: &[Job], alone: &[Vec<u8>]) -> R {
    let rounds = 3 + ctx.below(8);
    for _ in 0..rounds {
        let i = ctx.below(jobs.len());
        let j = ctx.below(jobs.len());
        let at = ctx.draw(12) * (1 + ctx.draw(6));
        let slot: Arc<Mutex<Option<Vec<u8>>>> = Arc::new(Mutex::new(None));
        let (s, r) = (slot.clone(), jobs[j].run.clone());
        sched::nest(at, Box::new(move || {
            let v = r();
            *s.lock().unwrap() = Some(v);
        }));
        let outer = solo(ctx, &jobs[i])?;
        let missed = sched::unnest();
        ctx.ev("nest", || format!("{} in {} at {at} missed={missed}", jobs[j].name, jobs[i].name));
        ctx.check("same-as-alone");
        if outer != alone[i] {
            return viol("interference", format!("{} with {} nested at callback {at}: alone {}, got {}", jobs[i].name, jobs[j].name, hx(&alone[i]), show(&outer)));
        }
        if !missed {
            ctx.fault("call-nested-in-callback");
            let inner = slot.lock().unwrap().take().unwrap_or_default();
            if inner != alone[j] {
                return viol("interference", format!("{} nested in {} at callback {at}: alone {}, got {}", jobs[j].name, jobs[i].name, hx(&alone[j]), show(&inner)));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ jobs ----

struct Site<S: Suite> {
    w: World<S>,
    info: Option<Vec<u8>>,
    info2: Option<Vec<u8>>,
    ss: Vec<Sess<S>>,
    y: Yv<S::BE>,
    ees: Vec<S::EE>,
    pr: Option<S::PR>,
    prep: Option<(Yv<S::PE>, Option<S::TW>)>,
}

fn ser_r(r: Result<Vec<u8>, voprf::Error>) -> Vec<u8> {
    match r {
        Ok(v) => [b"ok".to_vec(), v].concat(),
        Err(e) => format!("err {e:?}").into_bytes(),
    }
}

fn job(name: String, f: impl Fn() -> Vec<u8> + Send + Sync + 'static, check: impl Fn(&[u8]) -> Result<(), String> + 'static) -> Job {
    let run: Run = Arc::new(move || match catch(&f) {
        Caught::Ok(v) => v,
        Caught::Injected(m) => format!("injected {m}").into_bytes(),
        Caught::Panic(m) => format!("PANIC {m}").into_bytes(),
    });
    Job { name, run, check: Box::new(check) }
}

fn is(want: Vec<u8>) -> impl Fn(&[u8]) -> Result<(), String> {
    move |b| if b == want { Ok(()) } else { Err(format!("gave {}, reference {}", hx(b), hx(&want))) }
}

fn pack<S: Suite>(e: &[S::EE], p: Option<&S::PR>) -> Vec<u8> {
    let mut v: Vec<u8> = Vec::new();
    for x in e {
        v.extend(x.enc(Codec::Native));
    }
    if let Some(p) = p {
        v.extend(p.enc(Codec::Native));
    }
    v
}

/// checks elements and proof packed by `pack` against the reference
fn eval_check<S: Suite>(m: Mode, sk: S::S, info: Option<Vec<u8>>, bev: Vec<S::E>) -> impl Fn(&[u8]) -> Result<(), String> {
    move |b| {
        let b = b.strip_prefix(b"ok").ok_or_else(|| String::from_utf8_lossy(b).into_owned())?;
        let mut ees = Vec::new();
        for (i, x) in bev.iter().enumerate() {
            let w = rg::eval::<S>(m, sk, *x, inf(&info)).map_err(|e| format!("{e:?}"))?;
            let at = b.get(i * S::NE..(i + 1) * S::NE).ok_or("short")?;
            if at != S::enc(w) {
                return Err(format!("evaluation {i} differs from the reference"));
            }
            ees.push(w);
        }
        if m.verifiable() {
            let p = b.get(bev.len() * S::NE..).ok_or("short")?;
            let z = |b: &[u8]| if b.iter().all(|x| *x == 0) { Some(S::su64(0)) } else { S::decs(b) };
            let pp = (z(p.get(..S::NS).ok_or("short")?).ok_or("proof")?, z(&p[S::NS..]).ok_or("proof")?);
            if !proof_is_reference::<S>(m, sk, inf(&info), &bev, &ees, pp) {
                return Err("proof differs from the reference prover's".into());
            }
        }
        Ok(())
    }
}

fn make<S: Suite>(ctx: &mut Ctx, count: usize, jobs: &mut Vec<Job>, snaps: &mut Vec<Snap>) -> R {
    let ns = 1 + ctx.below(3);
    let mut sites: Vec<Arc<Site<S>>> = Vec::new();
    let shared_info = ctx.info();
    let same_mode = *ctx.pick(&MODES);
    let large = S::NAME == "toy" && ctx.chance(1, 5);
    if large {
        ctx.probe("large-batches");
    }
    for k in 0..ns {
        let m = if ctx.chance(1, 2) { same_mode } else { *ctx.pick(&MODES) };
        let w = world::<S>(ctx, m)?;
        let (info, info2) = if m == Mode::P { (if ctx.chance(1, 2) { shared_info.clone() } else { ctx.info() }, Some(vec![k as u8, 1])) } else { (None, None) };
        let n = if large { *ctx.pick(&[17usize, 18, 24, 33, 65, 100]) } else { 1 + ctx.below(3) };
        let ss = sessions::<S>(ctx, m, n)?;
        let y = bes(&ss);
        let seed = ctx.seed();
        let mut rng = SimRng::new(seed);
        let r = ctx.lib("server.batch_blind_evaluate", || w.srv.batch(&mut rng, &y, info.as_deref()))?;
        let (ees, pr) = match r {
            Ok(x) => x,
            Err(e) => return viol("honest-evaluation-failed", format!("{e:?}")),
        };
        let prep = if m.verifiable() {
            let r = ctx.lib("server.prepare", || w.srv.prepare(Box::new(y.0.iter()), info.as_deref()).map(|(i, t)| (Yv(i.collect::<Vec<_>>()), t)))?;
            match r {
                Ok(x) => Some(x),
                Err(e) => return viol("honest-evaluation-failed", format!("{e:?}")),
            }
        } else {
            None
        };
        sites.push(Arc::new(Site { w, info, info2, ss, y, ees, pr, prep }));
    }
    for s in &sites {
        let s = s.clone();
        snaps.push(Box::new(move || {
            let mut v = vec![("server".to_string(), s.w.srv.enc(Codec::Native))];
            for x in &s.ss {
                v.push(("client state".into(), x.cl.enc(Codec::Native)));
                v.push(("blinded element".into(), x.be.enc(Codec::Native)));
            }
            for x in &s.ees {
                v.push(("evaluation element".into(), x.enc(Codec::Native)));
            }
            if let Some(p) = &s.pr {
                v.push(("proof".into(), p.enc(Codec::Native)));
            }
            if let Some((p, t)) = &s.prep {
                for x in &p.0 {
                    v.push(("prepared element".into(), x.bytes()));
                }
                if let Some(t) = t {
                    v.push(("prepared tweak".into(), t.bytes()));
                }
            }
            v
        }));
    }
    for _ in 0..count {
        let k = ctx.below(ns);
        let s = sites[k].clone();
        let (m, sk) = (s.w.m, s.w.sk);
        let seed = ctx.seed();
        let id = jobs.len();
        let nm = |x: &str| format!("{x} {id} {} {m:?} site {k}", S::NAME);
        let info = if m == Mode::P && ctx.chance(1, 3) { s.info2.clone() } else { s.info.clone() };
        let j = match ctx.draw(14) {
            0 | 1 => {
                let input = if ctx.chance(1, 4) { ctx.blob(65535) } else { ctx.small_blob() };
                let i2 = input.clone();
                job(
                    nm("blind"),
                    move || {
                        let mut r = SimRng::new(seed);
                        ser_r(Cl::<S>::blind(m, &input, &mut r).map(|(c, b)| [c.enc(Codec::Native), b.enc(Codec::Native)].concat()))
                    },
                    move |b| {
                        let b = b.strip_prefix(b"ok").ok_or_else(|| String::from_utf8_lossy(b).into_owned())?;
                        let r = S::decs(&b[..S::NS]).ok_or("blind")?;
                        let w = S::enc(rg::blind::<S>(m, &i2, r).map_err(|e| format!("{e:?}"))?);
                        if b.ends_with(&w) { Ok(()) } else { Err("request is not blind * H(input)".into()) }
                    },
                )
            }
            2 | 3 => {
                let input = if ctx.chance(1, 4) { ctx.blob(65535) } else { ctx.small_blob() };
                let want = ser_r(rg::prf::<S>(m, sk, &input, inf(&info)).map_err(merr));
                job(nm("evaluate"), move || ser_r(s.w.srv.evaluate(&input, info.as_deref())), is(want))
            }
            4 | 5 => {
                let i = ctx.below(s.ss.len());
                let c = eval_check::<S>(m, sk, info.clone(), vec![s.ss[i].bev]);
                job(
                    nm("blind_evaluate"),
                    move || {
                        let mut r = SimRng::new(seed);
                        ser_r(s.w.srv.blind_evaluate(&mut r, &s.y.0[i], info.as_deref()).map(|(e, p)| pack::<S>(&[e], p.as_ref())))
                    },
                    c,
                )
            }
            6 => {
                let c = eval_check::<S>(m, sk, info.clone(), bevs(&s.ss));
                let m2 = m;
                job(
                    nm("batch_evaluate"),
                    move || {
                        let mut r = SimRng::new(seed);
                        let _ = m2;
                        ser_r(s.w.srv.batch(&mut r, &s.y, info.as_deref()).map(|(e, p)| pack::<S>(&e, p.as_ref())))
                    },
                    c,
                )
            }
            7 if m.verifiable() => {
                // lazily prepared, suspended between the elements, then finished
                let c = eval_check::<S>(m, sk, info.clone(), bevs(&s.ss));
                job(
                    nm("prepare_finish"),
                    move || {
                        let mut r = SimRng::new(seed);
                        let mut f = || -> LR<Vec<u8>> {
                            let (it, t) = s.w.srv.prepare(Box::new((&s.y).into_iter()), info.as_deref())?;
                            let mut p = Yv(Vec::new());
                            for x in it {
                                sched::yield_point("between-elements");
                                p.0.push(x);
                            }
                            sched::yield_point("between-phases");
                            let (e, pr) = s.w.srv.finish(&mut r, &s.y, &p, t.as_ref())?;
                            Ok(pack::<S>(&e, Some(&pr)))
                        };
                        ser_r(f())
                    },
                    c,
                )
            }
            8 if m.verifiable() => {
                // finish over shared prepared elements
                let c = eval_check::<S>(m, sk, s.info.clone(), bevs(&s.ss));
                job(
                    nm("finish"),
                    move || {
                        let mut r = SimRng::new(seed);
                        let (p, t) = s.prep.as_ref().unwrap();
                        ser_r(s.w.srv.finish(&mut r, &s.y, p, t.as_ref()).map(|(e, pr)| pack::<S>(&e, Some(&pr))))
                    },
                    c,
                )
            }
            9 | 10 => {
                // finalize over shared client states: right or wrong info/response
                let wrong = m.verifiable() && ctx.chance(1, 4);
                let ev = eevs::<S>(&s.ees);
                let mut e2 = ev.clone();
                if wrong {
                    e2[0] = S::add(e2[0], S::base());
                }
                let pp = s.pr.as_ref().and_then(|p| proof_parts::<S>(p));
                let want = model_finalize::<S>(m, s.w.pk, inf(&info), &s.ss, &e2, pp);
                let want = match want {
                    Ok(v) => ser_r(Ok(v.concat())),
                    Err(e) => ser_r(Err(e)),
                };
                let e3 = mkees::<S>(&e2);
                job(
                    nm("finalize"),
                    move || {
                        let (i, c) = (inputs(&s.ss), clients(&s.ss));
                        let r = batch_finalize::<S>(m, &i, &c, &e3, s.pr.as_ref(), s.w.pk, info.as_deref());
                        ser_r(r.and_then(|v| v.into_iter().collect::<Result<Vec<_>, _>>()).map(|v| v.concat()))
                    },
                    is(want),
                )
            }
            11 => {
                let sd = ctx.bytes(32);
                let ki = ctx.small_blob();
                let want = rg::derive::<S>(m, &sd, &ki).map(|s| S::encs(s)).unwrap_or_default();
                job(
                    nm("from_seed"),
                    move || ser_r(Sv::<S>::from_seed(m, &sd, &ki).map(|s| s.enc(Codec::Native)[..S::NS].to_vec())),
                    is(ser_r(Ok(want))),
                )
            }
            12 => {
                // killed by its generator in the middle
                let i = ctx.below(s.ss.len());
                let at = 0;
                let which = ctx.draw(2);
                ctx.fault("call-killed-by-generator");
                job(
                    nm("killed"),
                    move || {
                        let mut r = SimRng::new(seed);
                        r.panic_at = Some(at);
                        if which == 0 {
                            ser_r(Cl::<S>::blind(m, b"abandoned", &mut r).map(|_| vec![]))
                        } else {
                            ser_r(s.w.srv.blind_evaluate(&mut r, &s.y.0[i], info.as_deref()).map(|(e, _)| e.enc(Codec::Native)))
                        }
                    },
                    |_| Ok(()),
                )
            }
            _ => {
                // abandoned: prepared lazily and dropped half-way; or a client
                // state cloned, encoded, decoded and dropped
                if m.verifiable() {
                    ctx.fault("call-abandoned");
                    job(
                        nm("abandoned"),
                        move || {
                            let f = || -> LR<Vec<u8>> {
                                let (mut it, _t) = s.w.srv.prepare(Box::new((&s.y).into_iter()), info.as_deref())?;
                                Ok(it.next().map(|x| x.bytes()).unwrap_or_default())
                            };
                            ser_r(f())
                        },
                        |_| Ok(()),
                    )
                } else {
                    let want = s.ss[0].cl.enc(Codec::Native);
                    job(
                        nm("restore"),
                        move || {
                            let b = s.ss[0].cl.enc(Codec::Native);
                            match Cl::<S>::dec(m, &b, Codec::Native) {
                                Ok(c) => c.clone().enc(Codec::Native),
                                Err(e) => e.into_bytes(),
                            }
                        },
                        is(want),
                    )
                }
            }
        };
        jobs.push(j);
    }
    Ok(())
}
