//! C03 (and C01, C04): nobody misbehaves and nothing is damaged, but everything
//! else varies: tiny groups in which sums, weights and proof scalars vanish
//! by chance, every batch size up to the largest, every length of input and
//! info up to the largest, generators with extreme output, many requests in
//! flight served and finished in any order, any number of times. Every
//! response must be accepted and give the PRF value.

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{self, MErr, Mode, RToy};
use crate::rng::SimRng;
use crate::scen::util::*;
use crate::suite::*;
use crate::toy;
use voprf::Error;

pub fn run(ctx: &mut Ctx) -> R {
    match ctx.draw(10) {
        0..=5 => {
            let q = *ctx.pick(&[13, 5, 7, 11, 31, 3, 251]);
            toy::set_q(q);
            ctx.label = format!("honest toy q={q}");
            let m = ctx.mode();
            flights::<RToy>(ctx, m, q)
        }
        6 => large(ctx),
        7 => {
            let sid = *ctx.pick(&[Sid::Ristretto, Sid::P256, Sid::P384, Sid::ToyLong, Sid::RistrettoB, Sid::P256B]);
            ctx.label = format!("honest real batch {sid:?}");
            let n = *ctx.pick(&[17usize, 20, 33, 40, 64, 65]);
            let m = ctx.vmode();
            dispatch!(sid, big(ctx, m, n))
        }
        _ => {
            let sid = *ctx.pick(&[Sid::Toy, Sid::Ristretto, Sid::P256, Sid::P384, Sid::P521, Sid::ToyLong, Sid::ToyB, Sid::ToyF, Sid::ToyG, Sid::RistrettoB, Sid::P256B]);
            ctx.label = format!("honest {sid:?}");
            let m = ctx.mode();
            dispatch!(sid, flights(ctx, m, u64::MAX))
        }
    }
}

/// Large batches, also used by the properties about proofs, batches and phases.
pub fn large(ctx: &mut Ctx) -> R {
    ctx.label = "honest large batch".into();
    // 65535 elements rarely: they cost a few hundred thousand hashes
    let n = match ctx.draw(40) {
        39 => 65535,
        38 => *ctx.pick(&[65534usize, 32767, 32768, 32769]),
        30..=37 => *ctx.pick(&[1025usize, 2048, 4095, 4096, 4097, 8191, 8192]),
        _ => *ctx.pick(&[255usize, 256, 257, 17, 33, 63, 64, 65, 127, 128, 129, 100, 511, 512, 513, 1000]),
    };
    let n = ctx.size(n, 8192).max(4);
    let q = if ctx.prop == "C03" { *ctx.pick(&[toy::Q61, 13, 251]) } else { toy::Q61 };
    toy::set_q(q);
    let m = ctx.vmode();
    big::<RToy>(ctx, m, n)
}

/// A generator whose first output is extreme, then ordinary.
fn generator(ctx: &mut Ctx) -> SimRng {
    let seed = ctx.seed();
    if ctx.chance(3, 4) {
        return SimRng::new(seed);
    }
    ctx.fault("extreme-generator-output");
    let n = *ctx.pick(&[8usize, 32, 64, 66, 130]);
    let script: Vec<u8> = match ctx.draw(4) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| u8::from(i % 8 == 7)).collect(),
        _ => (0..n).map(|i| u8::from(i % 8 == 0)).collect(),
    };
    SimRng::scripted(&script, seed)
}

struct Flight<S: Suite> {
    info: Option<Vec<u8>>,
    ss: Vec<Sess<S>>,
    /// everything honest servers ever answered to this request
    resp: Vec<(Vec<S::EE>, Option<S::PR>)>,
    want: Option<Vec<Vec<u8>>>,
    done: u32,
}

fn flights<S: Suite>(ctx: &mut Ctx, m: Mode, q: u64) -> R {
    let tiny = q < 1 << 20;
    let w = world::<S>(ctx, m)?;
    let replica = match ctx.lib("server.load", || load::<S>(m, &w.rec))? {
        Ok(s) => s,
        Err(e) => return viol("server-load-failed", e),
    };
    let nf = 1 + ctx.below(4);
    let mut fl: Vec<Flight<S>> = Vec::new();
    for _ in 0..nf {
        let info = if m == Mode::P { ctx.info() } else { None };
        let n = if m == Mode::O {
            1
        } else if tiny {
            *ctx.pick(&[1usize, 2, 3, 4, 5, 8, 13, 17, 20])
        } else {
            *ctx.pick(&[1usize, 2, 1, 3, 5])
        };
        let n = if m == Mode::O || tiny { n } else { ctx.size(n, most::<S>().min(300)) };
        let mut ss: Vec<Sess<S>> = Vec::new();
        for _ in 0..n {
            let input = if !ss.is_empty() && ctx.chance(1, 6) { ss[0].input.clone() } else if tiny { ctx.small_blob() } else { ctx.blob(65535) };
            if let Some(s) = session_opt::<S>(ctx, m, input)? {
                ss.push(s);
            }
        }
        if ss.is_empty() {
            continue;
        }
        if ctx.chance(1, 8) {
            ctx.fault("duplicate-member");
            let c = ss[0].clone();
            ss.push(c);
            if m == Mode::O {
                ss.truncate(1);
            }
        }
        let refused = m == Mode::P && rg::tweak::<S>(w.sk, inf(&info)) == Err(MErr::Protocol);
        let want = if refused { None } else { Some(ss.iter().map(|s| rg::prf::<S>(m, w.sk, &s.input, inf(&info)).unwrap_or_default()).collect()) };
        if refused {
            ctx.probe("cancelled-tweak-met");
        }
        fl.push(Flight { info, ss, resp: vec![], want, done: 0 });
    }
    if fl.is_empty() {
        return Ok(());
    }
    let steps = fl.len() * 3 + ctx.below(8);
    for st in 0..steps {
        // every flight is served and finished at least once
        let k = if st < fl.len() { st } else { ctx.below(fl.len()) };
        let serve = fl[k].resp.is_empty() || ctx.chance(1, 3);
        ctx.ev("turn", || format!("request {k} serve={serve}"));
        if serve {
            let srv = if ctx.chance(1, 2) { &w.srv } else { &replica };
            let r = answer::<S>(ctx, m, srv, &fl[k])?;
            let f = &mut fl[k];
            match (r, &f.want) {
                (Ok(x), Some(_)) => {
                    if f.resp.len() > 0 {
                        ctx.fault("request-served-again");
                    }
                    f.resp.push(x);
                }
                (Err(Error::Protocol), None) => {
                    continue;
                }
                (Err(e), Some(_)) => {
                    ctx.report(&["C03", "C01", "C04"], "honest-evaluation-failed", format!("mode {m:?} {}: request of {} elements info {} refused: {e:?}", group::<S>(), f.ss.len(), hx(inf(&f.info))))?;
                    continue;
                }
                (Err(e), None) => {
                    ctx.report(&["C08"], "wrong-error", format!("cancelled tweak refused with {e:?}"))?;
                    continue;
                }
                (Ok(_), None) => {
                    ctx.report(&["C08"], "degenerate-evaluation-accepted", "cancelled tweak".into())?;
                    continue;
                }
            }
        }
        let f = &fl[k];
        let (Some(want), false) = (&f.want, f.resp.is_empty()) else { continue };
        let r = ctx.below(f.resp.len());
        let (ees, pr) = &f.resp[r];
        let mut cur: Vec<Sess<S>> = f.ss.clone();
        if ctx.chance(1, 3) {
            // the client was stored and restored in between
            let c = ctx.codec();
            for s in cur.iter_mut() {
                let b = ctx.lib("client.encode", || s.cl.enc(c))?;
                match ctx.lib("client.decode", || Cl::<S>::dec(m, &b, c))? {
                    Ok(x) => s.cl = x,
                    Err(e) => ctx.report(&["C05", "C03"], "restore-failed", format!("{c:?} {}: {e}", hx(&b)))?,
                }
            }
            ctx.fault("client-restored");
        }
        let got = lib_finalize::<S>(ctx, m, w.pk, f.info.as_deref(), &cur, ees, pr.as_ref())?;
        judge::<S>(ctx, m, &w, &f.info, &f.ss, ees, pr.as_ref(), &got, want)?;
        if fl[k].done > 0 {
            ctx.probe("finished-more-than-once");
        }
        fl[k].done += 1;
    }
    ctx.check("bounded-progress");
    if let Some(f) = fl.iter().find(|f| f.want.is_some() && f.done == 0) {
        ctx.report(&["C03"], "no-progress", format!("a request of {} elements was never finished", f.ss.len()))?;
    }
    Ok(())
}

fn group<S: Suite>() -> String {
    if S::NAME == "toy" { format!("toy q={}", toy::q()) } else { S::NAME.to_string() }
}

#[allow(clippy::type_complexity)]
fn answer<S: Suite>(ctx: &mut Ctx, m: Mode, srv: &Sv<S>, f: &Flight<S>) -> R<LR<(Vec<S::EE>, Option<S::PR>)>> {
    let mut rng = generator(ctx);
    let y = bes(&f.ss);
    let info = f.info.as_deref();
    let how = ctx.draw(3);
    if y.0.len() == 1 && (how == 0 || m == Mode::O) {
        return ctx.lib("server.blind_evaluate", || srv.blind_evaluate(&mut rng, &y.0[0], info).map(|(e, p)| (vec![e], p)));
    }
    if how == 1 && m.verifiable() {
        return ctx.lib("server.prepare+finish", || {
            let (it, t) = srv.prepare(Box::new(y.0.iter()), info)?;
            let p = Yv(it.collect::<Vec<_>>());
            srv.finish(&mut rng, &y, &p, t.as_ref()).map(|(e, p)| (e, Some(p)))
        });
    }
    ctx.lib("server.batch_blind_evaluate", || srv.batch(&mut rng, &y, info))
}

#[allow(clippy::too_many_arguments)]
fn judge<S: Suite>(ctx: &mut Ctx, m: Mode, w: &World<S>, info: &Option<Vec<u8>>, ss: &[Sess<S>], ees: &[S::EE], pr: Option<&S::PR>, got: &Result<Vec<Vec<u8>>, Error>, want: &Vec<Vec<u8>>) -> R {
    ctx.check("honest-response-accepted");
    let n = ss.len();
    ctx.ev("finish", || format!("n={n} {}", ro(got)));
    if let Some((c, s)) = pr.and_then(|p| proof_parts::<S>(p)) {
        let zero = S::su64(0);
        if c == zero || s == zero {
            ctx.probe("proof-scalar-zero");
        }
        if m.verifiable() && S::NAME == "toy" && n < 64 {
            let b = if m == Mode::P { rg::tweaked_key::<S>(w.pk, inf(info)).unwrap_or(w.pk) } else { w.pk };
            let bev = bevs(ss);
            let ws = rg::weights::<S>(m, b, &bev, &eevs::<S>(ees));
            let mut sum = S::ident();
            for (x, k) in bev.iter().zip(&ws) {
                if *k == zero {
                    ctx.probe("weight-zero");
                }
                sum = S::add(sum, S::mul(*x, *k));
            }
            if sum == S::ident() {
                ctx.probe("composite-identity");
            }
        }
    }
    match got {
        Ok(o) if o == want => {
            ctx.probe("session-finished");
            Ok(())
        }
        Ok(o) => {
            let at = o.iter().zip(want).position(|(a, b)| a != b);
            ctx.report(&["C01", "C04", "C03"], "wrong-output", format!("mode {m:?} {} batch of {n}: {} outputs, first wrong position {at:?}", group::<S>(), o.len()))
        }
        Err(e) => ctx.report(&["C03", "C01", "C04"], "rejected-genuine", format!("mode {m:?} {} batch of {n} info {}: honest response refused: {e:?}", group::<S>(), hx(inf(info)))),
    }
}

/// One batch of `n` members.
fn big<S: Suite>(ctx: &mut Ctx, m: Mode, n: usize) -> R {
    let w = world::<S>(ctx, m)?;
    let info = if m == Mode::P { ctx.info() } else { None };
    if m == Mode::P && rg::tweak::<S>(w.sk, inf(&info)) == Err(MErr::Protocol) {
        return Ok(());
    }
    let base = ctx.seed();
    let mut ss: Vec<Sess<S>> = Vec::with_capacity(n);
    let mut i = 0u64;
    while ss.len() < n {
        // two thirds of the members are new inputs under new blinds
        let r = crate::tape::mix(base, i);
        i += 1;
        if !ss.is_empty() && r % 3 == 0 {
            let c = ss[(r / 3) as usize % ss.len()].clone();
            ss.push(c);
        } else if let Some(s) = session_opt::<S>(ctx, m, r.to_be_bytes()[..4].to_vec())? {
            ss.push(s);
        }
        if i > 4 * n as u64 + 100 {
            return Ok(());
        }
    }
    if n >= 256 {
        ctx.probe("batch-of-256-or-more");
    }
    if n == 65535 {
        ctx.probe("largest-batch");
    }
    ctx.ev("batch", || format!("n={n}"));
    let mut f = Flight { info: info.clone(), ss, resp: vec![], want: None, done: 0 };
    let (ees, pr) = match answer::<S>(ctx, m, &w.srv, &f)? {
        Ok(x) => x,
        Err(e) => return ctx.report(&["C03", "C01", "C04"], "honest-evaluation-failed", format!("mode {m:?} {} batch of {n} refused: {e:?}", group::<S>())),
    };
    if ees.len() != n {
        return ctx.report(&["C03", "C01", "C04"], "wrong-output-count", format!("batch of {n} evaluated to {} elements", ees.len()));
    }
    let want: Vec<Vec<u8>> = f.ss.iter().map(|s| rg::prf::<S>(m, w.sk, &s.input, inf(&info)).unwrap_or_default()).collect();
    let got = lib_finalize::<S>(ctx, m, w.pk, info.as_deref(), &f.ss, &ees, pr.as_ref())?;
    ctx.fault("large-batch");
    judge::<S>(ctx, m, &w, &info, &f.ss, &ees, pr.as_ref(), &got, &want)?;
    f.done = 1;
    if toy::q() != toy::Q61 {
        return Ok(());
    }
    // byte for byte the reference's evaluation and proof
    let (bev, ev) = (bevs(&f.ss), eevs::<S>(&ees));
    ctx.check("large-batch-equals-reference");
    for k in 0..n {
        if rg::eval::<S>(m, w.sk, bev[k], inf(&info)) != Ok(ev[k]) {
            return ctx.report(&["C01", "C04", "C14", "C15"], "evaluation-differs", format!("mode {m:?} {}: position {k} of {n}", group::<S>()));
        }
    }
    let Some(pp) = pr.as_ref().and_then(|p| proof_parts::<S>(p)) else { return viol("bad-proof-encoding", "proof") };
    if !proof_is_reference::<S>(m, w.sk, inf(&info), &bev, &ev, pp) {
        ctx.report(&["C04", "C14", "C15", "C02"], "proof-differs", format!("mode {m:?} {}: proof over {n} elements is not the reference's for its nonce", group::<S>()))?;
    }
    // wrong responses, damaged where it is least expected
    let rounds = if n > 10_000 { 2 } else { 3 };
    for _ in 0..rounds {
        let mut at = || -> usize {
            let x = *ctx.pick(&[n - 1, 0, 1, n / 2, n - 2, 255, 256, 32767, 32768]);
            if ctx.chance(1, 2) { ctx.below(n) } else { x.min(n - 1) }
        };
        let (i, j) = (at(), at());
        let mut e = ev.clone();
        let what = ctx.draw(4);
        match what {
            0 => e.swap(i, j),
            1 => e[i] = S::add(e[i], S::base()),
            2 => e[i] = ev[j],
            _ => {
                // compensated: the plain sum stays the same
                e[i] = S::add(e[i], S::base());
                e[j] = S::add(e[j], S::mul(S::base(), neg::<S>(S::su64(1))));
            }
        }
        if e == ev || e.contains(&S::ident()) {
            continue;
        }
        ctx.fault("tampered-large-batch");
        let e = mkees::<S>(&e);
        let got = lib_finalize::<S>(ctx, m, w.pk, info.as_deref(), &f.ss, &e, pr.as_ref())?;
        ctx.check("tampered-batch-refused");
        match got {
            Err(Error::ProofVerification) => {}
            Err(x) => ctx.report(&["C07", "C02", "C04"], "wrong-error", format!("mode {m:?} batch of {n} altered at {i}, {j}: {x:?}"))?,
            Ok(_) => ctx.report(&["C02", "C04"], "accepted-forgery", format!("mode {m:?} {} batch of {n} altered at {i}, {j} (kind {what}) accepted", group::<S>()))?,
        }
    }
    // one element too few or too many
    let mut e = ees.clone();
    if ctx.chance(1, 2) { e.truncate(n - 1) } else { e.push(ees[0].clone()) }
    let (ins, cls) = (inputs(&f.ss), clients(&f.ss));
    let r = ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &ins, &cls, &e, pr.as_ref(), w.pk, info.as_deref()))?;
    ctx.check("large-batch-size-checked");
    if !matches!(r, Err(Error::Batch)) {
        ctx.report(&["C04", "C07"], "size-mismatch", format!("mode {m:?}: {n} inputs with {} elements: {:?}", e.len(), r.map(|v| v.len())))?;
    }
    // a single member of the batch on its own
    let k = ctx.below(n);
    let one = vec![f.ss[k].clone()];
    let f1 = Flight { info: info.clone(), ss: one, resp: vec![], want: None, done: 0 };
    let (e1, p1) = match answer::<S>(ctx, m, &w.srv, &f1)? {
        Ok(x) => x,
        Err(e) => return ctx.report(&["C03", "C01", "C04"], "honest-evaluation-failed", format!("mode {m:?} {}: {e:?}", group::<S>())),
    };
    let got = lib_finalize::<S>(ctx, m, w.pk, info.as_deref(), &f1.ss, &e1, p1.as_ref())?;
    judge::<S>(ctx, m, &w, &info, &f1.ss, &e1, p1.as_ref(), &got, &vec![want[k].clone()])
}
