//! C15: a server that evaluates in two phases, with several batches in flight,
//! lazy consumption, persistence of the intermediate state, restarts between
//! the phases and repeated or mixed-up finishes.

use crate::ctx::{viol, Ctx, R};
use crate::dispatch;
use crate::elsewhere::{self, Ask};
use crate::rg::{self, Mode};
use crate::scen::util::*;
use crate::suite::*;
use voprf::Error;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = ctx.suite();
    let m = ctx.vmode();
    ctx.label = format!("phases {} {m:?}", ctx.label);
    if ctx.draw(8) == 7 {
        ctx.label = format!("regrouped {}", ctx.label);
        return dispatch!(sid, regroup(ctx, m));
    }
    dispatch!(sid, phases(ctx, sid, m))
}

/// A pool of requests prepared once, then finished in ever new groupings.
fn regroup<S: Suite>(ctx: &mut Ctx, m: Mode) -> R {
    let w = world::<S>(ctx, m)?;
    let info = if m == Mode::P { ctx.info() } else { None };
    let i = info.as_deref();
    let total = *ctx.pick(&[30usize, 8, 16, 40]);
    let total = ctx.size(total, most::<S>().min(200));
    let ss = sessions::<S>(ctx, m, total)?;
    let y = bes(&ss);
    let r = ctx.lib("server.prepare", || w.srv.prepare(Box::new(y.0.iter()), i).map(|(it, t)| (it.collect::<Vec<_>>(), t)))?;
    let (pool, t) = r.map_err(|e| err("prepare-failed", e))?;
    let want: Vec<S::E> = ss.iter().map(|s| rg::eval::<S>(m, w.sk, s.bev, inf(&info))).collect::<Result<_, _>>().map_err(|e| err("harness", merr(e)))?;
    for _ in 0..6 + ctx.below(20) {
        let n = if ctx.chance(1, 4) { 1 + ctx.below(total) } else { total - ctx.below(total.min(6)) };
        let (start, step) = (ctx.below(total), *ctx.pick(&[1usize, 7, 11, 0, 13]));
        let idx: Vec<usize> = (0..n).map(|k| (start + k * step) % total).collect();
        let yy = Yv(idx.iter().map(|k| y.0[*k].clone()).collect());
        let pp = Yv(idx.iter().map(|k| pool[*k].clone()).collect());
        let seed = ctx.seed();
        let mut rng = generator_from::<S>(seed);
        let r = ctx.lib("server.finish", || w.srv.finish(&mut rng, &yy, &pp, t.as_ref()))?;
        let (e, pr) = r.map_err(|e| err("finish-failed", e))?;
        ctx.check("regrouped-finish");
        ctx.ev("regroup", || format!("n={n} start={start} step={step}"));
        let ev = eevs::<S>(&e);
        if ev.len() != n || ev.iter().zip(&idx).any(|(x, k)| *x != want[*k]) {
            return viol("phases-differ", format!("mode {m:?}: finish of {n} regrouped prepared elements gives wrong elements"));
        }
        let Some(a) = proof_parts::<S>(&pr) else { return viol("bad-proof-encoding", "proof") };
        match ctx.draw(6) {
            0 => {
                let mut rng2 = generator_from::<S>(seed);
                let r = ctx.lib("server.batch_blind_evaluate", || w.srv.batch(&mut rng2, &yy, i))?;
                let (e2, pr2) = r.map_err(|e| err("batch-evaluation-failed", e))?;
                if eevs::<S>(&e2) != ev || pr2.as_ref().and_then(proof_parts::<S>) != Some(a) {
                    return viol("phases-differ", format!("mode {m:?}: one-shot evaluation of {n} elements differs from the two-phase one with the same generator"));
                }
            }
            1 => {
                let bev: Vec<S::E> = idx.iter().map(|k| ss[*k].bev).collect();
                if rg::client_verify::<S>(m, w.pk, inf(&info), &bev, &ev, a) != Ok(true) {
                    return viol("proof-not-over-batch", format!("mode {m:?}: proof over {n} regrouped elements does not verify"));
                }
            }
            2 => {
                let sub: Vec<Sess<S>> = idx.iter().map(|k| ss[*k].clone()).collect();
                let got = lib_finalize::<S>(ctx, m, w.pk, i, &sub, &e, Some(&pr))?;
                let out: Vec<Vec<u8>> = sub.iter().map(|s| rg::prf::<S>(m, w.sk, &s.input, inf(&info)).unwrap()).collect();
                if got != Ok(out) {
                    return viol("wrong-output", format!("mode {m:?}: client of a regrouped batch of {n} obtained {}", ro(&got)));
                }
            }
            _ => {}
        }
    }
    ctx.probe("regrouped-batches");
    Ok(())
}

struct Bat<S: Suite> {
    ss: Vec<Sess<S>>,
    y: Yv<S::BE>,
    info: Option<Vec<u8>>,
    /// prepared elements; those beyond the lazily consumed ones are missing
    prep: Option<(Vec<S::PE>, Option<S::TW>)>,
    disk: Option<(Vec<Vec<u8>>, Option<Vec<u8>>, Codec)>,
    finished: usize,
}

fn phases<S: Suite>(ctx: &mut Ctx, sid: Sid, m: Mode) -> R {
    let mut w = world::<S>(ctx, m)?;
    let nb = 1 + ctx.below(3);
    let mut bats: Vec<Bat<S>> = Vec::new();
    for _ in 0..nb {
        let n = match ctx.draw(20) {
            19 if S::NAME == "toy" => *ctx.pick(&[100, 256, 257, 300]),
            14..=18 if S::NAME == "toy" => 5 + ctx.below(60),
            13 => 5 + ctx.below(20),
            _ => *ctx.pick(&[2, 1, 3, 4, 7]),
        };
        let n = ctx.size(n, most::<S>().min(300));
        let ss = sessions::<S>(ctx, m, n)?;
        let y = bes(&ss);
        let info = if m == Mode::P { ctx.info() } else { None };
        bats.push(Bat { ss, y, info, prep: None, disk: None, finished: 0 });
    }
    let steps = 4 + ctx.below(16);
    for _ in 0..steps {
        let b = ctx.below(nb);
        match ctx.draw(10) {
            0 | 1 => prepare(ctx, &w, &bats, b).map(|p| bats[b].prep = Some(p))?,
            2 => persist(ctx, &mut bats[b])?,
            3 => {
                ctx.fault("crash-between-phases");
                let rec = w.rec.clone();
                let keep = ctx.chance(1, 2);
                if keep {
                    // the server object itself was persisted
                    let c = ctx.codec();
                    let s = &w.srv;
                    let bytes = ctx.lib("server.encode", || s.enc(c))?;
                    w.srv = match ctx.lib("server.decode", || Sv::<S>::dec(m, &bytes, c))? {
                        Ok(s) => s,
                        Err(e) => return viol("restore-failed", e),
                    };
                } else {
                    w.srv = match ctx.lib("server.load", || load::<S>(m, &rec))? {
                        Ok(s) => s,
                        Err(e) => return viol("server-load-failed", e),
                    };
                }
                for x in bats.iter_mut() {
                    if x.prep.is_some() {
                        ctx.probe("crash-with-prepared-batch");
                    }
                    x.prep = None;
                    restore(ctx, x)?;
                }
            }
            4 => {
                // something else happens on the same server in between
                let seed = ctx.seed();
                let mut rng = generator_from::<S>(seed);
                let s = &w.srv;
                let be = bats[b].y.0[0].clone();
                let i = bats[b].info.clone();
                ctx.lib("server.blind_evaluate", || s.blind_evaluate(&mut rng, &be, i.as_deref()))?.map_err(|e| err("honest-evaluation-failed", e))?;
            }
            5 => mismatch(ctx, &w, &bats, b)?,
            6 => mixed(ctx, &w, &bats, b)?,
            _ => finish(ctx, &w, &mut bats, b)?,
        }
    }
    for b in 0..nb {
        if bats[b].finished == 0 {
            if bats[b].prep.is_none() {
                let p = prepare(ctx, &w, &bats, b)?;
                bats[b].prep = Some(p);
            }
            finish(ctx, &w, &mut bats, b)?;
        }
    }
    if ctx.draw(24) == 23 {
        // the second phase in another process, from what the first one stored
        let b = ctx.below(nb);
        let Some((p, t)) = &bats[b].prep else { return Ok(()) };
        let ci: Vec<usize> = (0..4).map(|_| ctx.below(CODECS.len())).collect();
        let seed = ctx.seed();
        let (srv, y) = (&w.srv, &bats[b].y.0);
        let q = ctx.lib("prepared.encode", || Ask {
            info: bats[b].info.clone(),
            server: Some((ci[0], srv.enc(CODECS[ci[0]]))),
            blinded: y.iter().map(|x| (ci[1], x.enc(CODECS[ci[1]]))).collect(),
            prepared: p.iter().map(|x| (ci[2], x.enc(CODECS[ci[2]]))).collect(),
            tweak: t.as_ref().map(|x| (ci[3], x.enc(CODECS[ci[3]]))),
            ..Ask::new(sid, m, seed)
        })?;
        let a = elsewhere::compare(ctx, &q)?;
        ctx.check("two-phase-equals-one-shot");
        if a.get("finish").is_none() || a.get("finish") != a.get("one-shot batch") {
            return viol("phases-differ", format!("mode {m:?} batch of {}: two-phase evaluation from stored state {:?}, one-shot {:?}", y.len(), a.get("finish"), a.get("one-shot batch")));
        }
    }
    Ok(())
}

fn err(class: &str, e: Error) -> crate::ctx::Violation {
    crate::ctx::Violation { class: class.into(), msg: format!("{e:?}") }
}

/// First phase, with the lazy iterator consumed in one of several ways.
fn prepare<S: Suite>(ctx: &mut Ctx, w: &World<S>, bats: &[Bat<S>], b: usize) -> R<(Vec<S::PE>, Option<S::TW>)> {
    let bat = &bats[b];
    let how = ctx.draw(4);
    let other = ctx.below(bats.len());
    let seed = ctx.seed();
    ctx.ev("prepare", || format!("batch {b} n={} how={how}", bat.y.0.len()));
    let srv = &w.srv;
    let ob = &bats[other];
    let r: LR<(Vec<S::PE>, Option<S::TW>)> = ctx.lib("server.prepare", || {
        let (mut it, t) = srv.prepare(Box::new(bat.y.0.iter()), bat.info.as_deref())?;
        let mut v = Vec::new();
        match how {
            0 => v.extend(it),
            1 => {
                // in pieces, other work in between
                let mut rng = generator_from::<S>(seed);
                while let Some(x) = it.next() {
                    v.push(x);
                    if v.len() % 2 == 1 {
                        let _ = srv.blind_evaluate(&mut rng, &ob.y.0[0], ob.info.as_deref());
                    }
                }
            }
            2 => {
                // two prepared iterators drained alternately
                let (mut it2, t2) = srv.prepare(Box::new(ob.y.0.iter()), ob.info.as_deref())?;
                loop {
                    let a = it.next();
                    let c = it2.next();
                    if let Some(x) = &a {
                        v.push(x.clone());
                    }
                    if a.is_none() && c.is_none() {
                        break;
                    }
                }
                drop(t2);
            }
            _ => {
                // a first attempt abandoned half way, then a new one
                let half = bat.y.0.len() / 2;
                let first: Vec<_> = it.by_ref().take(half).collect();
                drop(first);
                drop(it);
                let (it2, t2) = srv.prepare(Box::new(bat.y.0.iter()), bat.info.as_deref())?;
                v.extend(it2);
                return Ok((v, t2));
            }
        }
        Ok((v, t))
    })?;
    match r {
        Ok(x) => {
            if x.0.len() != bat.y.0.len() {
                return viol("wrong-output-count", format!("{} prepared elements for {}", x.0.len(), bat.y.0.len()));
            }
            if how != 0 {
                ctx.probe("lazy-consumption");
            }
            Ok(x)
        }
        Err(e) => viol("prepare-failed", format!("{e:?}")),
    }
}

fn persist<S: Suite>(ctx: &mut Ctx, b: &mut Bat<S>) -> R {
    let Some((p, t)) = &b.prep else { return Ok(()) };
    let c = ctx.codec();
    let d = ctx.lib("prepared.encode", || (p.iter().map(|x| x.enc(c)).collect::<Vec<_>>(), t.as_ref().map(|t| t.enc(c)), c))?;
    ctx.ev("persist", || format!("{} elements", d.0.len()));
    b.disk = Some(d);
    if ctx.chance(1, 2) {
        restore(ctx, b)?;
    }
    Ok(())
}

fn restore<S: Suite>(ctx: &mut Ctx, b: &mut Bat<S>) -> R {
    let Some((p, t, c)) = &b.disk else { return Ok(()) };
    let r = ctx.lib("prepared.decode", || -> Result<_, String> {
        let mut v = Vec::new();
        for x in p {
            v.push(S::PE::dec(x, *c)?);
        }
        let t = match t {
            Some(t) => Some(S::TW::dec(t, *c)?),
            None => None,
        };
        Ok((v, t))
    })?;
    match r {
        Ok(x) => {
            ctx.probe("prepared-state-restored");
            b.prep = Some(x);
            Ok(())
        }
        Err(e) => viol("restore-failed", format!("prepared state does not decode: {e}")),
    }
}

fn finish<S: Suite>(ctx: &mut Ctx, w: &World<S>, bats: &mut [Bat<S>], b: usize) -> R {
    let bat = &bats[b];
    let Some((p, t)) = &bat.prep else { return Ok(()) };
    let (m, n) = (w.m, bat.y.0.len());
    let seed = ctx.seed();
    let (srv, y) = (&w.srv, &bat.y);
    let prep = Yv(p.clone());
    if ctx.chance(1, 8) {
        // first attempt dies in the random generator
        ctx.fault("entropy-failure-in-finish");
        let mut rng = generator_from::<S>(seed);
        rng.panic_at = Some(0);
        let _ = crate::ctx::catch(|| srv.finish(&mut rng, y, &prep, t.as_ref()).map(|_| ()));
    }
    let mut rng = generator_from::<S>(seed);
    let r = ctx.lib("server.finish", || srv.finish(&mut rng, y, &prep, t.as_ref()))?;
    let (e, pr) = match r {
        Ok(x) => x,
        Err(e) => return viol("finish-failed", format!("mode {m:?} batch of {n}: {e:?}")),
    };
    // one-shot with the same generator output
    let mut rng2 = generator_from::<S>(seed);
    let r = ctx.lib("server.batch_blind_evaluate", || srv.batch(&mut rng2, y, bat.info.as_deref()))?;
    let (e2, pr2) = match r {
        Ok((e, p)) => (e, p.unwrap()),
        Err(e) => return viol("batch-evaluation-failed", format!("{e:?}")),
    };
    ctx.check("two-phase-equals-one-shot");
    ctx.ev("finish", || format!("batch {b} attempt"));
    let (ev, ev2) = (eevs::<S>(&e), eevs::<S>(&e2));
    if ev != ev2 {
        return viol("phases-differ", format!("mode {m:?} batch of {n}: elements of the two-phase evaluation differ from the one-shot ones"));
    }
    let (Some(a), Some(c)) = (proof_parts::<S>(&pr), proof_parts::<S>(&pr2)) else { return viol("bad-proof-encoding", "proof") };
    let bev = bevs(&bat.ss);
    for (q, what) in [(a, "two-phase"), (c, "one-shot")] {
        if rg::client_verify::<S>(m, w.pk, inf(&bat.info), &bev, &ev, q) != Ok(true) {
            return viol("proof-not-over-batch", format!("mode {m:?} batch of {n}: {what} proof does not verify"));
        }
    }
    let got = lib_finalize::<S>(ctx, m, w.pk, bat.info.as_deref(), &bat.ss, &e, Some(&pr))?;
    let want: Vec<Vec<u8>> = bat.ss.iter().map(|s| rg::prf::<S>(m, w.sk, &s.input, inf(&bat.info)).unwrap()).collect();
    ctx.check("client-accepts-finish");
    if got != Ok(want) {
        return viol("wrong-output", format!("mode {m:?} batch of {n}: client obtained {}", ro(&got)));
    }
    bats[b].finished += 1;
    if bats[b].finished > 1 {
        ctx.probe("finish-retried");
    }
    Ok(())
}

fn mismatch<S: Suite>(ctx: &mut Ctx, w: &World<S>, bats: &[Bat<S>], b: usize) -> R {
    let bat = &bats[b];
    let Some((p, t)) = &bat.prep else { return Ok(()) };
    let mut q = p.clone();
    let n = q.len();
    match ctx.draw(3) {
        0 => {
            q.pop();
        }
        1 => q.push(p[0].clone()),
        _ => q.clear(),
    }
    let seed = ctx.seed();
    let mut rng = generator_from::<S>(seed);
    ctx.fault("prepared-count-mismatch");
    let k = q.len();
    let q = Yv(q);
    let r = ctx.lib("server.finish", || w.srv.finish(&mut rng, &bat.y, &q, t.as_ref()))?;
    ctx.check("mismatch-refused");
    match r {
        Err(Error::Batch) => Ok(()),
        Err(e) => viol("wrong-error", format!("finish of {n} with {k} prepared: {e:?}")),
        Ok((e, _)) => viol("mismatch-accepted", format!("finish of {n} with {k} prepared gave {} elements", e.len())),
    }
}

/// Prepared elements or tweak of another batch: nothing wrong may be accepted.
fn mixed<S: Suite>(ctx: &mut Ctx, w: &World<S>, bats: &[Bat<S>], b: usize) -> R {
    let o = ctx.below(bats.len());
    let bat = &bats[b];
    let (Some((p, t)), Some((p2, t2))) = (&bat.prep, &bats[o].prep) else { return Ok(()) };
    let m = w.m;
    let n = p.len();
    let mut q = p.clone();
    let mut tw = t.clone();
    match ctx.draw(3) {
        0 => {
            let k = ctx.below(n);
            q[k] = p2[ctx.below(p2.len())].clone();
            ctx.fault("foreign-prepared-element");
        }
        1 => {
            tw = t2.clone();
            ctx.fault("foreign-prepared-tweak");
        }
        _ => {
            let k = ctx.below(n);
            q.rotate_left(k);
            ctx.fault("prepared-reordered");
        }
    }
    let seed = ctx.seed();
    let mut rng = generator_from::<S>(seed);
    let q = Yv(q);
    let r = ctx.lib("server.finish", || w.srv.finish(&mut rng, &bat.y, &q, tw.as_ref()))?;
    let Ok((e, pr)) = r else { return viol("finish-failed", "counts match but finish was refused") };
    let ev = eevs::<S>(&e);
    let truth = bat.ss.iter().zip(&ev).all(|(s, e)| rg::eval::<S>(m, w.sk, s.bev, inf(&bat.info)).as_ref() == Ok(e));
    let same_tweak = m == Mode::V || bats[o].info.as_deref().unwrap_or(&[]) == inf(&bat.info) || tw.as_ref().map(|x| x.bytes()) == t.as_ref().map(|x| x.bytes());
    let got = lib_finalize::<S>(ctx, m, w.pk, bat.info.as_deref(), &bat.ss, &e, Some(&pr))?;
    ctx.check("mixed-up-state-verdict");
    match (&got, truth && same_tweak) {
        (Ok(_), false) => viol("accepted-forgery", format!("mode {m:?} batch of {n}: response of mixed-up prepared state accepted")),
        (Err(e), true) => viol("rejected-genuine", format!("mode {m:?}: {e:?}")),
        (Err(Error::ProofVerification), false) | (Ok(_), true) => Ok(()),
        (Err(e), false) => viol("wrong-error", format!("{e:?}")),
    }
}
