//! C07: a long-lived server and its honest clients under hostile traffic.
//! Every hostile call must return normally with the documented error; honest
//! sessions before, between and after must be exactly what they would be on a
//! node that never saw that traffic (a fresh twin with the same generator).

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{self, Mode, RG};
use crate::scen::corrupt::{decoder, strict};
use crate::scen::util::*;
use crate::suite::*;
use voprf::Error;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = ctx.suite();
    let m = ctx.mode();
    ctx.label = format!("hostile {} {m:?}", ctx.label);
    dispatch!(sid, hostile(ctx, m))
}

struct N<S: Suite> {
    w: World<S>,
    bytes: Vec<u8>,
    info: Option<Vec<u8>>,
    /// an honest session in flight while the traffic arrives
    open: Sess<S>,
    resp: (S::EE, Option<S::PR>),
    /// wire elements seen so far (for replays)
    seen: Vec<S::E>,
}

fn long(ctx: &mut Ctx) -> Vec<u8> {
    let n = *ctx.pick(&[65536usize, 65537, 65539, 70000, 131072, 131075, 196608]);
    let mut v = ctx.bytes(64);
    v.resize(n, 0x5a);
    v
}

fn oneof(r: &Error, ok: &[Error]) -> bool {
    ok.contains(r)
}

fn refused<T>(ctx: &mut Ctx, what: &str, r: Result<T, Error>, ok: &[Error]) -> R {
    ctx.check("documented-error");
    ctx.ev("refused", || format!("{what} {:?}", r.as_ref().err()));
    match r {
        Err(e) if oneof(&e, ok) => Ok(()),
        Err(e) => viol("wrong-error", format!("{what}: {e:?}, documented {ok:?}")),
        Ok(_) => viol("hostile-call-succeeded", format!("{what}: succeeded, documented {ok:?}")),
    }
}

fn hostile<S: Suite>(ctx: &mut Ctx, m: Mode) -> R {
    let w = world::<S>(ctx, m)?;
    let info = if m == Mode::P { ctx.info() } else { None };
    let bytes = w.srv.enc(Codec::Native);
    let input = ctx.small_blob();
    let open = session::<S>(ctx, m, input)?;
    let seed = ctx.seed();
    let mut rng = generator_from::<S>(seed);
    let resp = ctx
        .lib("server.blind_evaluate", || w.srv.blind_evaluate(&mut rng, &open.be, info.as_deref()))?
        .map_err(|e| crate::ctx::Violation { class: "honest-evaluation-failed".into(), msg: format!("{e:?}") })?;
    let seen = vec![S::base(), w.pk, open.bev, S::ee_v(&resp.0)];
    let mut n = N { w, bytes, info, open, resp, seen };
    let steps = 6 + ctx.below(18);
    for _ in 0..steps {
        if ctx.chance(1, 4) {
            honest(ctx, &mut n)?;
        }
        attack(ctx, &mut n)?;
        ctx.check("server-unchanged");
        let now = ctx.lib("server.encode", || n.w.srv.enc(Codec::Native))?;
        if now != n.bytes {
            return viol("server-state-changed", format!("mode {m:?}: server state is {} after hostile traffic, was {}", hx(&now), hx(&n.bytes)));
        }
    }
    honest(ctx, &mut n)?;
    // the session that was open all along still completes
    finish_open(ctx, &n)
}

fn finish_open<S: Suite>(ctx: &mut Ctx, n: &N<S>) -> R {
    let s = &n.open;
    let o = ctx.lib("client.finalize", || s.cl.finalize(&s.input, &n.resp.0, n.resp.1.as_ref(), n.w.pk, n.info.as_deref()))?;
    let want = rg::prf::<S>(n.w.m, n.w.sk, &s.input, inf(&n.info)).map_err(merr);
    ctx.check("open-session-completes");
    if o != want {
        return viol("open-session-affected", format!("mode {:?}: open session gives {o:?}", n.w.m));
    }
    Ok(())
}

/// An honest session, compared with a fresh twin of the node.
fn honest<S: Suite>(ctx: &mut Ctx, n: &mut N<S>) -> R {
    let m = n.w.m;
    let input = ctx.blob(65535);
    let s = session::<S>(ctx, m, input)?;
    let rec = n.w.rec.clone();
    let twin = match ctx.lib("server.load", || load::<S>(m, &rec))? {
        Ok(x) => x,
        Err(e) => return viol("server-load-failed", e),
    };
    let seed = ctx.seed();
    let (mut r1, mut r2) = (generator_from::<S>(seed), generator_from::<S>(seed));
    let info = n.info.clone();
    let a = ctx.lib("server.blind_evaluate", || n.w.srv.blind_evaluate(&mut r1, &s.be, info.as_deref()))?;
    let b = ctx.lib("server.blind_evaluate", || twin.blind_evaluate(&mut r2, &s.be, info.as_deref()))?;
    ctx.check("node-equals-fresh-twin");
    ctx.ev("honest", || format!("{} bytes", s.input.len()));
    match (a, b) {
        (Ok((e, p)), Ok((e2, p2))) => {
            if S::ee_v(&e) != S::ee_v(&e2) || p.as_ref().map(|p| p.bytes()) != p2.as_ref().map(|p| p.bytes()) {
                return viol("node-affected", format!("mode {m:?}: after hostile traffic the response differs from a fresh node's"));
            }
            n.seen.push(s.bev);
            n.seen.push(S::ee_v(&e));
            let o = ctx.lib("client.finalize", || s.cl.finalize(&s.input, &e, p.as_ref(), n.w.pk, info.as_deref()))?;
            let want = rg::prf::<S>(m, n.w.sk, &s.input, inf(&info)).map_err(merr);
            let d = ctx.lib("server.evaluate", || n.w.srv.evaluate(&s.input, info.as_deref()))?;
            ctx.check("honest-session-completes");
            if o != want || d != want {
                return viol("node-affected", format!("mode {m:?}: honest session gives {:?}, direct {:?}, reference {:?}", o.map(|x| hx(&x)), d.map(|x| hx(&x)), want.map(|x| hx(&x))));
            }
        }
        (a, b) => return viol("honest-evaluation-failed", format!("mode {m:?}: node {:?} twin {:?}", a.err(), b.err())),
    }
    Ok(())
}

fn attack<S: Suite>(ctx: &mut Ctx, n: &mut N<S>) -> R {
    let m = n.w.m;
    let pm = m == Mode::P;
    let seed = ctx.seed();
    let mut rng = generator_from::<S>(seed);
    let kind = ctx.draw(20);
    match kind {
        0 => {
            ctx.fault("oversize-input-blind");
            let i = long(ctx);
            let r = ctx.lib("client.blind", || Cl::<S>::blind(m, &i, &mut rng))?;
            refused(ctx, &format!("mode {m:?}: blind of {} bytes", i.len()), r, &[Error::Input])
        }
        1 => {
            ctx.fault("oversize-input-evaluate");
            let i = long(ctx);
            let oi = if pm && ctx.chance(1, 3) { Some(long(ctx)) } else { n.info.clone() };
            let ok: &[Error] = if oi.as_ref().is_some_and(|x| x.len() > 65535) { &[Error::Input, Error::Info] } else { &[Error::Input] };
            let r = ctx.lib("server.evaluate", || n.w.srv.evaluate(&i, oi.as_deref()))?;
            refused(ctx, &format!("mode {m:?}: evaluate of {} bytes", i.len()), r, ok)
        }
        2 if pm => {
            ctx.fault("oversize-info-evaluate");
            let i = ctx.small_blob();
            let f = long(ctx);
            let r = ctx.lib("server.evaluate", || n.w.srv.evaluate(&i, Some(&f)))?;
            refused(ctx, &format!("evaluate with info of {} bytes", f.len()), r, &[Error::Info])
        }
        3 | 4 if pm => {
            ctx.fault("oversize-info-blind-evaluate");
            let f = long(ctx);
            let y = Yv(vec![n.open.be.clone(); 1 + ctx.below(3)]);
            let how = ctx.draw(3);
            let (x, srv) = (&y, &n.w.srv);
            let r: LR<()> = ctx.lib("server.blind_evaluate", || match how {
                0 => srv.blind_evaluate(&mut rng, &x.0[0], Some(&f)).map(|_| ()),
                1 => srv.batch(&mut rng, x, Some(&f)).map(|_| ()),
                _ => srv.prepare(Box::new(x.0.iter()), Some(&f)).map(|_| ()),
            })?;
            refused(ctx, &format!("evaluation {how} with info of {} bytes", f.len()), r, &[Error::Info])
        }
        5 if pm => {
            ctx.fault("oversize-info-finalize");
            let f = long(ctx);
            let s = n.open.clone();
            let wrong = ctx.chance(1, 2);
            let e = if wrong { S::ee(S::base()) } else { n.resp.0.clone() };
            let p = n.resp.1.clone();
            let single = ctx.chance(1, 2);
            let r: LR<()> = if single {
                ctx.lib("client.finalize", || s.cl.finalize(&s.input, &e, p.as_ref(), n.w.pk, Some(&f)).map(|_| ()))?
            } else {
                ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &[s.input.clone()], &[s.cl.clone()], &[e], p.as_ref(), n.w.pk, Some(&f)).map(|_| ()))?
            };
            refused(ctx, &format!("finalize with info of {} bytes", f.len()), r, &[Error::Info])
        }
        6 => {
            // the genuine response finalized with an over-long input
            ctx.fault("oversize-input-finalize");
            let i = long(ctx);
            let s = &n.open;
            let r = ctx.lib("client.finalize", || s.cl.finalize(&i, &n.resp.0, n.resp.1.as_ref(), n.w.pk, n.info.as_deref()))?;
            refused(ctx, &format!("mode {m:?}: finalize with input of {} bytes", i.len()), r, &[Error::Input])
        }
        7 => {
            ctx.fault("oversize-key-info");
            let sd = ctx.bytes(32);
            let f = long(ctx);
            let r = ctx.lib("server.from_seed", || Sv::<S>::from_seed(m, &sd, &f))?;
            refused(ctx, &format!("mode {m:?}: from_seed with info of {} bytes", f.len()), r, &[Error::DeriveKeyPair])?;
            let r = ctx.lib("derive_key", || S::dkey(&sd, &f, m))?;
            refused(ctx, &format!("derive_key with info of {} bytes", f.len()), r, &[Error::DeriveKeyPair])
        }
        8 => {
            // extreme seeds: any answer, but never a wrong key
            ctx.fault("extreme-seed");
            let sd = if ctx.chance(1, 2) { long(ctx) } else { ctx.small_blob() };
            let f = ctx.blob(65535);
            let r = ctx.lib("server.from_seed", || Sv::<S>::from_seed(m, &sd, &f))?;
            ctx.check("documented-error");
            match r {
                Ok(s) if s.sk().is_some() && s.sk() == rg::derive::<S>(m, &sd, &f) => Ok(()),
                Ok(s) => viol("wrong-key", format!("mode {m:?}: seed of {} bytes gives key {}", sd.len(), hx(&s.enc(Codec::Native)))),
                Err(e) if sd.len() + f.len() > 65535 - 3 && e == Error::DeriveKeyPair => Ok(()),
                Err(e) => viol("wrong-error", format!("mode {m:?}: seed of {} and info of {} bytes: {e:?}", sd.len(), f.len())),
            }
        }
        9 | 10 => garbage::<S>(ctx),
        11 => {
            ctx.fault("garbage-key");
            let l = *ctx.pick(&[S::NS, 0, 1, S::NS - 1, S::NS + 1, S::NS / 2, 2 * S::NS, 23, 24, 64, 255, 70000]);
            let l = ctx.size(l, 70000);
            let mut b = ctx.bytes(l);
            if l == S::NS && ctx.chance(1, 2) {
                b = if ctx.chance(1, 2) { vec![0; l] } else { vec![0xff; l] };
            }
            let r = ctx.lib("server.with_key", || Sv::<S>::with_key(m, &b))?;
            ctx.check("documented-error");
            match (r, S_decs::<S>(&b)) {
                (Ok(s), Some(k)) if s.sk() == Some(k) => Ok(()),
                (Err(Error::Deserialization), None) => Ok(()),
                (r, w) => viol("key-decoding", format!("mode {m:?}: key of {l} bytes: {:?}, reference {:?}", r.map(|s| hx(&s.enc(Codec::Native))), w.is_some())),
            }
        }
        12 => {
            // the library's group interface with raw bytes of any length
            ctx.fault("garbage-group-bytes");
            let l = *ctx.pick(&[S::NE, S::NS, 0, 1, S::NE - 1, S::NE + 1, 2 * S::NE - 1, 33, 65, 97, 133, 200, 66000]);
            let l = ctx.size(l, 70000);
            let mut b = ctx.bytes(l);
            if l > 0 && ctx.chance(1, 2) {
                b[0] = ctx.draw(8) as u8;
            }
            let r = ctx.lib("group.deserialize_elem", || S::g_dec(&b))?;
            let s = ctx.lib("group.deserialize_scalar", || S::g_decs(&b))?;
            ctx.check("documented-error");
            if let Err(e) = r {
                if e != Error::Deserialization {
                    return viol("wrong-error", format!("deserialize_elem: {e:?}"));
                }
            }
            if let Err(e) = s {
                if e != Error::Deserialization {
                    return viol("wrong-error", format!("deserialize_scalar: {e:?}"));
                }
            }
            Ok(())
        }
        13 | 14 => {
            // well-formed elements of the attacker's choice to the server
            ctx.fault("adversarial-request-element");
            let e = match ctx.draw(5) {
                0 => *ctx.pick(&n.seen),
                1 => S::mul(S::base(), neg::<S>(S::su64(1))),
                2 => S::mul(S::base(), S::su64(1 + ctx.draw(16))),
                3 => S::mul(*ctx.pick(&n.seen), ctx.scalar::<S>()),
                _ => S::add(*ctx.pick(&n.seen), S::base()),
            };
            if e == S::ident() {
                return Ok(());
            }
            let be = S::be(e);
            let info = n.info.clone();
            let r = ctx.lib("server.blind_evaluate", || n.w.srv.blind_evaluate(&mut rng, &be, info.as_deref()))?;
            ctx.check("adversarial-element-evaluated");
            let want = rg::eval::<S>(m, n.w.sk, e, inf(&info)).map_err(merr);
            let got = r.map(|(e, _)| S::ee_v(&e));
            if got != want {
                return viol("evaluation-differs", format!("mode {m:?}: adversarial element evaluated to {got:?}, reference {want:?}"));
            }
            if let Ok(g) = got {
                n.seen.push(g);
            }
            Ok(())
        }
        15 if m.verifiable() => {
            // forged responses to the open session
            ctx.fault("forged-response");
            let s = n.open.clone();
            let good = S::ee_v(&n.resp.0);
            let pp = n.resp.1.as_ref().and_then(|p| proof_parts::<S>(p));
            let Some(pp) = pp else { return Ok(()) };
            let (e, p) = match ctx.draw(4) {
                0 => (*ctx.pick(&n.seen), pp),
                1 => (good, (S::sadd(pp.0, S::su64(1)), pp.1)),
                2 => (good, (pp.1, pp.0)),
                _ => (good, (pp.0, S::sadd(pp.1, S::su64(1)))),
            };
            let Some(pr) = make_proof::<S>(p.0, p.1) else { return Ok(()) };
            let want = model_finalize::<S>(m, n.w.pk, inf(&n.info), std::slice::from_ref(&s), &[e], Some(p));
            let got = lib_finalize::<S>(ctx, m, n.w.pk, n.info.as_deref(), std::slice::from_ref(&s), &[S::ee(e)], Some(&pr))?;
            ctx.check("documented-error");
            if got != want {
                return viol("wrong-error", format!("mode {m:?}: forged response: {}, reference {}", ro(&got), ro(&want)));
            }
            Ok(())
        }
        15 | 16 if !m.verifiable() => {
            // no proof in this mode: whatever is sent is finalized as sent
            ctx.fault("forged-response");
            let s = &n.open;
            let e = S::mul(*ctx.pick(&n.seen), ctx.scalar::<S>());
            let got = ctx.lib("client.finalize", || s.cl.finalize(&s.input, &S::ee(e), None, n.w.pk, None))?;
            let want = rg::finalize::<S>(m, &s.input, &[], s.blind, e).map_err(merr);
            if got != want {
                return viol("output-differs", format!("mode {m:?}: {got:?}"));
            }
            Ok(())
        }
        16 | 17 if m.verifiable() => {
            // empty and mismatched batches
            ctx.fault("hostile-batch");
            let p = n.resp.1.clone();
            let (s, e, pk) = (n.open.clone(), n.resp.0.clone(), n.w.pk);
            let info = n.info.clone();
            let a = ctx.below(4);
            let b = ctx.below(4);
            let c = ctx.below(4);
            let i: Vec<Vec<u8>> = vec![s.input.clone(); a];
            let cl: Vec<Cl<S>> = (0..b).map(|_| s.cl.clone()).collect();
            let es: Vec<S::EE> = (0..c).map(|_| e.clone()).collect();
            let r = ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &i, &cl, &es, p.as_ref(), pk, info.as_deref()))?;
            ctx.check("documented-error");
            match r {
                Ok(v) if a == b && b == c && (a == 1 || a == 0) && v.len() == a => {}
                // nothing to finalize: refusing is as good as an empty result
                Err(_) if a == 0 && b == 0 && c == 0 => {}
                Err(Error::Batch) if a != b || b != c => {}
                Err(Error::ProofVerification) if b == c && (b != 1) => {}
                r => return viol("wrong-error", format!("mode {m:?}: {a} inputs, {b} states, {c} elements under a proof for one: {:?}", r.map(|v| v.len()))),
            }
            // server: empty batch, and finish with nothing or mismatched parts
            let y = Yv((0..b).map(|_| s.be.clone()).collect::<Vec<_>>());
            let srv = &n.w.srv;
            let r = ctx.lib("server.prepare+finish", || {
                let (it, t) = srv.prepare(Box::new(y.0.iter()), info.as_deref())?;
                let mut q: Vec<S::PE> = it.collect();
                while q.len() > c {
                    q.pop();
                }
                while q.len() < c && !q.is_empty() {
                    let x = q[0].clone();
                    q.push(x);
                }
                let l = q.len();
                srv.finish(&mut rng, &y, &Yv(q), t.as_ref()).map(|(e, _)| (e.len(), l))
            })?;
            match r {
                Ok((x, l)) if x == l && l == b => Ok(()),
                Err(Error::Batch) if b != c || b == 0 => Ok(()),
                r => viol("wrong-error", format!("mode {m:?}: finish of {b} elements with {c} prepared: {r:?}")),
            }
        }
        18 if S::NAME == "toy" && m.verifiable() && ctx.chance(1, 4) => {
            ctx.fault("oversize-batch");
            let cnt = *ctx.pick(&[65536usize, 65537, 66000]);
            let y = Yv(vec![n.open.be.clone(); cnt]);
            let info = n.info.clone();
            let srv = &n.w.srv;
            let r = ctx.lib("server.batch_blind_evaluate", || srv.batch(&mut rng, &y, info.as_deref()).map(|_| ()))?;
            refused(ctx, &format!("mode {m:?}: batch of {cnt}"), r, &[Error::Batch])
        }
        _ => {
            // the same request replayed several times
            ctx.fault("replayed-request");
            let k = 2 + ctx.below(3);
            let info = n.info.clone();
            for _ in 0..k {
                let r = ctx.lib("server.blind_evaluate", || n.w.srv.blind_evaluate(&mut rng, &n.open.be, info.as_deref()))?;
                match r {
                    Ok((e, _)) if S::ee_v(&e) == S::ee_v(&n.resp.0) => {}
                    r => return viol("replay-differs", format!("mode {m:?}: {:?}", r.map(|x| S::ee_v(&x.0)))),
                }
            }
            Ok(())
        }
    }
}

#[allow(non_snake_case)]
fn S_decs<S: RG>(b: &[u8]) -> Option<S::S> {
    if b.len() == S::NS {
        S::decs(b)
    } else {
        None
    }
}

/// Undecodable bytes to every decoder in every format.
fn garbage<S: Suite>(ctx: &mut Ctx) -> R {
    let k = KINDS[ctx.below(KINDS.len())];
    let c = ctx.codec();
    let b = match c {
        Codec::Native | Codec::Bincode => {
            let l = *ctx.pick(&[0usize, 1, 2, 8, 31, 32, 33, 48, 49, 63, 64, 65, 66, 67, 96, 132, 133, 200, 1000]);
            let mut b = ctx.bytes(l);
            match ctx.draw(3) {
                0 => {}
                1 => b.iter_mut().for_each(|x| *x = 0xff),
                _ => {
                    if l > 0 {
                        b[0] = ctx.draw(8) as u8;
                    }
                }
            }
            b
        }
        _ => {
            let i = ctx.below(20);
            let w = ctx.bytes(40);
            let list = |n: usize| format!("[{}]", w.iter().cycle().take(n).map(|x| x.to_string()).collect::<Vec<_>>().join(","));
            match i {
                0 => "".into(),
                1 => "null".into(),
                2 => "[]".into(),
                3 => "{}".into(),
                4 => "{\"blind\":[]}".into(),
                5 => "{\"sk\":null,\"pk\":null}".into(),
                6 => format!("[{}]", list(S::NS)),
                7 => list(S::NE),
                8 => format!("{{\"blind\":{},\"blinded_element\":{}}}", list(S::NS), list(S::NE)),
                9 => format!("{{\"sk\":{},\"pk\":{}}}", list(S::NS), list(S::NE)),
                10 => format!("{{\"c_scalar\":{},\"s_scalar\":{}}}", list(S::NS), list(S::NS)),
                11 => "[".repeat(200),
                12 => "{\"a\":".repeat(100),
                13 => "[1e309,-1,256,\"x\",true]".into(),
                14 => "\"\\u0000\\ud800\"".into(),
                15 => "123456789012345678901234567890".into(),
                16 => format!("{{\"blind\":{0},\"blind\":{0}}}", list(S::NS)),
                17 => format!("{{\"sk\":{}}}", list(S::NS + 1)),
                18 => format!("{{\"sk\":{}}}", list(S::NS - 1)),
                _ => String::from_utf8_lossy(&w).into_owned(),
            }
            .into_bytes()
        }
    };
    // the same content in one of the harness's own formats
    let b = match (c, serde_json::from_slice::<serde_json::Value>(&b)) {
        (Codec::Own(i), Ok(v)) => crate::serfmt::to_bytes(&v, crate::serfmt::STYLES[usize::from(i)]).unwrap_or(b),
        _ => b,
    };
    ctx.fault("undecodable-bytes");
    let d = decoder::<S>(k);
    let r = ctx.lib("object.decode", || d(&b, c).map(|_| ()))?;
    ctx.check("documented-error");
    match c {
        Codec::Native | Codec::Bincode => {
            let want = strict::<S>(k, &b);
            match (&r, want) {
                (Ok(()), Some(_)) => Ok(()),
                (Err(_), Some(l)) if l < b.len() => Ok(()),
                (Err(e), None) if c == Codec::Bincode || !native(k) || e == "Deserialization" => Ok(()),
                (r, w) => viol("decoding", format!("{} {k:?} {c:?} of {}: {r:?}, reference {w:?}", S::NAME, hx(&b))),
            }
        }
        _ => Ok(()),
    }
}
