//! C04: an aggregating server. Members of a batch arrive in any order over the
//! network (with duplicates); the batch is evaluated, tampered with, split,
//! resized; clients finalize it with matching or mismatching collections.

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{self, Mode};
use crate::scen::util::*;
use crate::suite::*;
use voprf::Error;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = ctx.suite();
    let m = ctx.vmode();
    ctx.label = format!("batch {} {m:?}", ctx.label);
    dispatch!(sid, batch(ctx, m))
}

fn batch<S: Suite>(ctx: &mut Ctx, m: Mode) -> R {
    let toy = S::NAME == "toy";
    let w = world::<S>(ctx, m)?;
    let info = if m == Mode::P { ctx.info() } else { None };
    if toy && ctx.chance(1, 40) {
        return oversize::<S>(ctx, &w, &info);
    }
    let n = if toy && ctx.chance(1, 10) {
        *ctx.pick(&[64, 127, 128, 200, 254, 255, 256, 257, 258, 259, 300, 511, 512, 513, 700, 1025])
    } else {
        *ctx.pick(&[1, 2, 3, 1, 2, 4, 5, 7, 10, 16])
    };
    let n = if toy { n } else { n.min(6) };
    let n = ctx.size(n, most::<S>());
    let mut ss = sessions::<S>(ctx, m, n)?;
    // arrival order decided by the network
    for i in (1..n).rev() {
        let j = ctx.below(i + 1);
        if j != i {
            ss.swap(i, j);
        }
    }
    // a retransmitted request may land in the same batch twice
    if n > 1 && ctx.chance(1, 4) {
        ctx.fault("duplicate-member");
        let (a, b) = (ctx.below(n), ctx.below(n));
        ss[a] = ss[b].clone();
    }
    if n >= 256 {
        ctx.probe("batch-of-256-or-more");
    }
    let bev = bevs(&ss);
    let y = bes(&ss);
    let seed = ctx.seed();
    let mut rng = generator_from::<S>(seed);
    let two_phase = ctx.chance(1, 2);
    ctx.ev("evaluate", || format!("n={n} two_phase={two_phase}"));
    let r = if two_phase {
        ctx.lib("server.prepare+finish", || {
            let (it, t) = w.srv.prepare(Box::new(y.0.iter()), info.as_deref())?;
            let p = Yv(it.collect::<Vec<_>>());
            w.srv.finish(&mut rng, &y, &p, t.as_ref())
        })?
    } else {
        ctx.lib("server.batch_blind_evaluate", || w.srv.batch(&mut rng, &y, info.as_deref()).map(|(e, p)| (e, p.unwrap())))?
    };
    let (ees, proof) = match r {
        Ok(x) => x,
        Err(e) => return viol("batch-evaluation-failed", format!("batch of {n} refused: {e:?}")),
    };
    ctx.check("batch-length");
    if ees.len() != n {
        return viol("wrong-output-count", format!("batch of {n} evaluated to {} elements", ees.len()));
    }
    let ev = eevs::<S>(&ees);
    // each equals a single evaluation
    for k in 0..n {
        ctx.check("member-equals-single");
        let t = rg::eval::<S>(m, w.sk, bev[k], inf(&info));
        if t != Ok(ev[k]) {
            return viol("evaluation-differs", format!("mode {m:?} position {k} of {n} is not the evaluation of that member"));
        }
    }
    let k = ctx.below(n);
    let single = ctx.lib("server.blind_evaluate", || w.srv.blind_evaluate(&mut rng, &y.0[k], info.as_deref()))?;
    match &single {
        Ok((e, _)) if S::ee_v(e) == ev[k] => {}
        _ => return viol("batch-differs-from-single", format!("position {k} of {n}")),
    }
    let Some(pp) = proof_parts::<S>(&proof) else { return viol("bad-proof-encoding", "proof") };
    ctx.check("one-proof-covers-all");
    if rg::client_verify::<S>(m, w.pk, inf(&info), &bev, &ev, pp) != Ok(true) {
        return viol("proof-not-over-batch", format!("mode {m:?} batch of {n}: proof does not verify over the whole batch by the reference"));
    }
    // the client finalizes the batch
    let want: Vec<Vec<u8>> = ss.iter().map(|s| rg::prf::<S>(m, w.sk, &s.input, inf(&info)).unwrap()).collect();
    let got = lib_finalize::<S>(ctx, m, w.pk, info.as_deref(), &ss, &ees, Some(&proof))?;
    ctx.check("positional-outputs");
    match &got {
        Ok(o) if *o == want => {}
        Ok(o) => {
            let at = o.iter().zip(&want).position(|(a, b)| a != b);
            return viol("wrong-output", format!("mode {m:?} batch of {n}: {} outputs, first wrong position {at:?}", o.len()));
        }
        Err(e) => return viol("rejected-genuine", format!("mode {m:?} batch of {n} refused: {e:?}")),
    }
    ctx.probe("batch-finalized");

    let (ins, cls) = (inputs(&ss), clients(&ss));
    let rounds = if n > 60 { 2 } else { 2 + ctx.below(5) };
    for _ in 0..rounds {
        match ctx.draw(9) {
            0 => {
                // tamper with exactly one position, anywhere
                let k = ctx.below(n);
                let mut e = ees.clone();
                let x = match ctx.draw(3) {
                    0 => S::add(ev[k], S::base()),
                    1 => bev[k],
                    _ => ev[ctx.below(n)],
                };
                if x == ev[k] || x == S::ident() {
                    continue;
                }
                e[k] = S::ee(x);
                ctx.fault("tampered-member");
                expect_fail::<S>(ctx, &w, &info, &ins, &cls, &e, &proof, &[Error::ProofVerification], &format!("position {k} of {n} altered"))?;
            }
            1 => {
                // swap two members of the response
                let (a, b) = (ctx.below(n), ctx.below(n));
                if ev[a] == ev[b] {
                    continue;
                }
                let mut e = ees.clone();
                e.swap(a, b);
                ctx.fault("reordered-members");
                expect_fail::<S>(ctx, &w, &info, &ins, &cls, &e, &proof, &[Error::ProofVerification], &format!("positions {a},{b} of {n} swapped"))?;
            }
            2 => {
                // response elements lost / added
                let mut e = ees.clone();
                resize(ctx, &mut e);
                ctx.fault("response-count-mismatch");
                expect_fail::<S>(ctx, &w, &info, &ins, &cls, &e, &proof, &[Error::Batch], &format!("{} response elements for {n} clients", e.len()))?;
            }
            3 => {
                let mut c = cls.clone();
                resize(ctx, &mut c);
                ctx.fault("client-count-mismatch");
                expect_fail::<S>(ctx, &w, &info, &ins, &c, &ees, &proof, &[Error::Batch], &format!("{} client states for {n} elements", c.len()))?;
            }
            4 => {
                let mut i = ins.clone();
                resize(ctx, &mut i);
                ctx.fault("input-count-mismatch");
                expect_fail::<S>(ctx, &w, &info, &i, &cls, &ees, &proof, &[Error::Batch], &format!("{} inputs for {n} elements", i.len()))?;
            }
            5 => {
                // prepared elements lost / added between the phases
                let seed = ctx.seed();
                let mut rng = generator_from::<S>(seed);
                let cut_be = ctx.chance(1, 2);
                let grow = ctx.chance(1, 2);
                ctx.fault("prepared-count-mismatch");
                let r = ctx.lib("server.prepare+finish", || {
                    let (it, t) = w.srv.prepare(Box::new(y.0.iter()), info.as_deref())?;
                    let mut p = Yv(it.collect::<Vec<_>>());
                    let mut b = Yv(y.0.clone());
                    if cut_be {
                        if grow {
                            b.0.push(y.0[0].clone());
                        } else {
                            b.0.pop();
                        }
                    } else if grow {
                        let x = p.0[0].clone();
                        p.0.push(x);
                    } else {
                        p.0.pop();
                    }
                    w.srv.finish(&mut rng, &b, &p, t.as_ref())
                })?;
                ctx.check("mismatch-refused");
                match r {
                    Err(Error::Batch) => {}
                    Err(e) => return viol("wrong-error", format!("finish of {n} with mismatched counts: {e:?}, documented Batch")),
                    Ok((e, _)) => return viol("mismatch-accepted", format!("finish of {n} with mismatched counts gave {} elements", e.len())),
                }
            }
            6 => {
                // everything permuted consistently: decided by the reference
                if n < 2 {
                    continue;
                }
                let mut idx: Vec<usize> = (0..n).collect();
                let by = 1 + ctx.below(n - 1);
                idx.rotate_left(by);
                let s2: Vec<Sess<S>> = idx.iter().map(|i| ss[*i].clone()).collect();
                let e2: Vec<S::EE> = idx.iter().map(|i| ees[*i].clone()).collect();
                ctx.fault("whole-batch-permuted");
                let wantp = model_finalize::<S>(m, w.pk, inf(&info), &s2, &eevs::<S>(&e2), Some(pp));
                let gotp = lib_finalize::<S>(ctx, m, w.pk, info.as_deref(), &s2, &e2, Some(&proof))?;
                ctx.check("permutation-verdict");
                if gotp != wantp {
                    return viol(if gotp.is_ok() { "accepted-forgery" } else { "wrong-error" }, format!("batch of {n} rotated by {by}: {}, reference {}", ro(&gotp), ro(&wantp)));
                }
            }
            7 => {
                // one input is over-long at finalization: only that item fails
                let k = ctx.below(n);
                let mut i = ins.clone();
                i[k] = vec![7; 65536];
                ctx.fault("one-oversize-input");
                let r = ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &i, &cls, &ees, Some(&proof), w.pk, info.as_deref()))?;
                ctx.check("item-error-is-individual");
                match r {
                    Ok(v) => {
                        for (j, x) in v.iter().enumerate() {
                            let ok = if j == k { *x == Err(Error::Input) } else { x.as_ref() == Ok(&want[j]) };
                            if !ok {
                                return viol("item-error", format!("input {k} of {n} over-long: item {j} is {}", x.as_ref().map(|b| hx(b)).unwrap_or_else(|e| format!("{e:?}"))));
                            }
                        }
                        if v.len() != n {
                            return viol("wrong-output-count", format!("{} items for {n}", v.len()));
                        }
                    }
                    Err(Error::Input) => {}
                    Err(e) => return viol("wrong-error", format!("one over-long input of {n}: whole batch failed with {e:?}")),
                }
            }
            _ => {
                // a sub-batch of the response with the whole batch's proof
                if n < 2 {
                    continue;
                }
                let k = 1 + ctx.below(n - 1);
                ctx.fault("sub-batch-with-whole-proof");
                let r = ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &ins[..k], &cls[..k], &ees[..k], Some(&proof), w.pk, info.as_deref()))?;
                ctx.check("sub-batch-refused");
                match r {
                    Err(Error::ProofVerification) => {}
                    Err(e) => return viol("wrong-error", format!("first {k} of {n} members with the proof over all: {e:?}")),
                    Ok(_) => return viol("accepted-forgery", format!("first {k} of {n} members accepted with the proof over all")),
                }
            }
        }
    }
    Ok(())
}

fn resize<T: Clone>(ctx: &mut Ctx, v: &mut Vec<T>) {
    if ctx.chance(1, 2) {
        let k = 1 + ctx.below(2);
        for _ in 0..k {
            let x = v[ctx.below(v.len())].clone();
            v.push(x);
        }
    } else {
        let k = 1 + ctx.below(v.len().min(3));
        v.truncate(v.len() - k);
    }
}

#[allow(clippy::too_many_arguments)]
fn expect_fail<S: Suite>(
    ctx: &mut Ctx,
    w: &World<S>,
    info: &Option<Vec<u8>>,
    ins: &[Vec<u8>],
    cls: &[Cl<S>],
    ees: &[S::EE],
    proof: &S::PR,
    errs: &[Error],
    what: &str,
) -> R {
    let r = ctx.lib("client.batch_finalize", || batch_finalize::<S>(w.m, ins, cls, ees, Some(proof), w.pk, info.as_deref()))?;
    ctx.check("whole-batch-refused");
    match r {
        Err(e) if errs.contains(&e) => Ok(()),
        Err(e) => viol("wrong-error", format!("mode {:?}: {what}: refused with {e:?}, documented {errs:?}", w.m)),
        Ok(v) => viol("mismatch-accepted", format!("mode {:?}: {what}: accepted, {} outputs ({} errors)", w.m, v.len(), v.iter().filter(|x| x.is_err()).count())),
    }
}

/// Batches at and over the 16-bit limit.
fn oversize<S: Suite>(ctx: &mut Ctx, w: &World<S>, info: &Option<Vec<u8>>) -> R {
    let n = *ctx.pick(&[65536, 65535, 65537]);
    let m = w.m;
    ctx.label = format!("{} limit", ctx.label);
    let one = session::<S>(ctx, m, b"x".to_vec())?;
    // distinct members made cheaply: multiples of one blinded element
    let mut ss = Vec::with_capacity(n);
    let mut e = one.bev;
    let mut b = one.blind;
    for _ in 0..n {
        ss.push((b, e));
        e = S::add(e, one.bev);
        b = S::sadd(b, one.blind);
    }
    let y = Yv(ss.iter().map(|(_, e)| S::be(*e)).collect::<Vec<_>>());
    let bev: Vec<S::E> = ss.iter().map(|x| x.1).collect();
    let seed = ctx.seed();
    let mut rng = generator_from::<S>(seed);
    let how = ctx.below(2);
    ctx.ev("limit", || format!("n={n} how={how}"));
    let r = if how == 1 {
        ctx.lib("server.prepare+finish", || {
            let (it, t) = w.srv.prepare(Box::new(y.0.iter()), info.as_deref())?;
            let p = Yv(it.collect::<Vec<_>>());
            w.srv.finish(&mut rng, &y, &p, t.as_ref())
        })?
    } else {
        ctx.lib("server.batch_blind_evaluate", || w.srv.batch(&mut rng, &y, info.as_deref()).map(|(e, p)| (e, p.unwrap())))?
    };
    ctx.check("size-limit");
    if n > 65535 {
        ctx.fault("oversize-batch");
        match r {
            Err(Error::Batch) => {}
            Err(e) => return viol("wrong-error", format!("batch of {n}: {e:?}, documented Batch")),
            Ok((e, _)) => return viol("oversize-accepted", format!("batch of {n} evaluated to {} elements", e.len())),
        }
    } else {
        ctx.probe("largest-batch");
        let (e, p) = match r {
            Ok(x) => x,
            Err(e) => return viol("batch-evaluation-failed", format!("batch of {n} refused: {e:?}")),
        };
        let ev = eevs::<S>(&e);
        if ev.len() != n {
            return viol("wrong-output-count", format!("batch of {n} evaluated to {} elements", ev.len()));
        }
        let Some(pp) = proof_parts::<S>(&p) else { return viol("bad-proof-encoding", "proof") };
        if rg::client_verify::<S>(m, w.pk, inf(info), &bev, &ev, pp) != Ok(true) {
            return viol("proof-not-over-batch", format!("batch of {n}"));
        }
    }
    // the client side of the same size
    let cls: Vec<Cl<S>> = {
        let mut v = Vec::with_capacity(n);
        for (b, e) in &ss {
            v.push(Cl::<S>::from_parts(m, *b, *e).map_err(|e| crate::ctx::Violation { class: "restore-failed".into(), msg: e })?);
        }
        v
    };
    let ev: Vec<S::E> = bev.iter().map(|b| rg::eval::<S>(m, w.sk, *b, inf(info)).unwrap()).collect();
    let k = n.min(65535);
    let (pb, pe) = (&bev[..k], &ev[..k]);
    let r = ctx.scalar::<S>();
    let pp = rg::server_prove::<S>(m, w.sk, inf(info), pb, pe, r).unwrap();
    let Some(p) = make_proof::<S>(pp.0, pp.1) else { return Ok(()) };
    let ins = vec![vec![1u8]; n];
    let ees = mkees::<S>(&ev);
    // counts that agree only modulo 2^16 are a mismatch
    if n > 65535 {
        let k = n - 65536 + ctx.below(2);
        let what = ctx.below(3);
        ctx.fault("count-wraps-16-bits");
        let p = if what == 2 && k > 0 {
            let q = rg::server_prove::<S>(m, w.sk, inf(info), &bev[..k], &ev[..k], r).unwrap();
            match make_proof::<S>(q.0, q.1) {
                Some(p) => p,
                None => return Ok(()),
            }
        } else {
            p.clone()
        };
        let r = match what {
            0 => ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &ins[..k], &cls[..k], &ees, Some(&p), w.pk, info.as_deref()).map(|v| v.len()))?,
            1 => ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &ins[..k], &cls, &ees[..k], Some(&p), w.pk, info.as_deref()).map(|v| v.len()))?,
            _ => ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &ins, &cls[..k], &ees[..k], Some(&p), w.pk, info.as_deref()).map(|v| v.len()))?,
        };
        ctx.check("size-limit");
        // an empty proven part may also be refused for its proof
        if r != Err(Error::Batch) && !(k == 0 && r == Err(Error::ProofVerification)) {
            return viol("mismatch-accepted", format!("mode {m:?}: {n} against {k} members: {r:?}, documented Batch"));
        }
    }
    let r = ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &ins, &cls, &ees, Some(&p), w.pk, info.as_deref()))?;
    ctx.check("size-limit");
    match r {
        Err(Error::Batch) if n > 65535 => Ok(()),
        Ok(v) if n <= 65535 && v.len() == n => {
            for j in [0, n / 2, n - 1] {
                let want = rg::finalize::<S>(m, &ins[j], inf(info), ss[j].0, ev[j]).unwrap();
                if v[j].as_ref() != Ok(&want) {
                    return viol("wrong-output", format!("position {j} of {n}"));
                }
            }
            Ok(())
        }
        Ok(v) => viol("oversize-accepted", format!("client finalized {} outputs of a batch of {n}", v.len())),
        Err(e) => viol(if n > 65535 { "wrong-error" } else { "rejected-genuine" }, format!("client refused a batch of {n}: {e:?}")),
    }
}
