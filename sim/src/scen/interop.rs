//! C14: every byte the library emits compared with the independent reference,
//! for lengths, batch sizes, indices and values far from the RFC's vectors, in
//! sessions whose roles are held by either implementation and change hands.

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{self, Mode};
use crate::scen::util::*;
use crate::suite::*;
use crate::toy;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = if ctx.chance(1, 12) { Sid::ToyB } else { ctx.suite() };
    let m = ctx.mode();
    ctx.label = format!("interop {sid:?} {m:?}").to_lowercase();
    match ctx.draw(5) {
        0 => dispatch!(sid, keys(ctx, m)),
        _ => dispatch!(sid, session_bytes(ctx, m, sid)),
    }
}

fn same(ctx: &mut Ctx, what: &str, got: &[u8], want: &[u8], text: impl FnOnce() -> String) -> R {
    ctx.check("byte-for-byte");
    ctx.bytes_ev("emitted", what, got);
    if got != want {
        return viol("bytes-differ", format!("{what}: emitted {} where RFC 9497 gives {} ({})", hx(got), hx(want), text()));
    }
    Ok(())
}

/// Key derivation and public keys.
fn keys<S: Suite>(ctx: &mut Ctx, m: Mode) -> R {
    for _ in 0..3 {
        let (seed, info) = match ctx.draw(6) {
            0 => (ctx.bytes(32), ctx.small_blob()),
            1 => (ctx.bytes(32), ctx.blob(65000)),
            2 => {
                let n = *ctx.pick(&[16, 0, 1, 31, 33, 48, 64, 66, 255, 256, 300, 5000]);
                let n = ctx.size(n, 65535);
                (ctx.bytes(n), ctx.small_blob())
            }
            3 => (ctx.bytes(S::NS), vec![]),
            4 => (ctx.blob(32767), ctx.blob(32767)),
            _ => (ctx.blob(65535), ctx.bytes(4)),
        };
        if S::NAME == "toy" && ctx.chance(1, 8) {
            // the first attempts at a key give zero
            let n = *ctx.pick(&[1usize, 2, 3, 5, 255]);
            let mut x = seed.clone();
            x.extend_from_slice(&(info.len() as u16).to_be_bytes());
            x.extend_from_slice(&info);
            for c in 0..n {
                x.push(c as u8);
                toy::force(&rg::dst::<S>("DeriveKeyPair", m), &x, 0);
                x.pop();
            }
            ctx.fault("force-zero-derived-key");
        }
        let Some(w) = rg::derive::<S>(m, &seed, &info) else { continue };
        let text = || format!("mode {m:?} seed {} info {}", hx(&seed), hx(&info));
        let r = ctx.lib("server.from_seed", || Sv::<S>::from_seed(m, &seed, &info))?;
        let Ok(s) = r else { return viol("derivation-failed", text()) };
        same(ctx, "derived key", &s.enc(Codec::Native)[..S::NS], &S::encs(w), text)?;
        let r = ctx.lib("derive_key", || S::dkey(&seed, &info, m))?;
        let Ok(d) = r else { return viol("derivation-failed", text()) };
        same(ctx, "derive_key", &S::encs(d), &S::encs(w), text)?;
        if m != Mode::O {
            let pk = S::mul(S::base(), w);
            same(ctx, "public key", &S::g_enc(s.pk().unwrap()), &S::enc(pk), text)?;
            same(ctx, "stored key pair", &s.enc(Codec::Native)[S::NS..], &S::enc(pk), text)?;
        }
        // the same key loaded from an RFC implementation's bytes
        let r = ctx.lib("server.load", || Sv::<S>::with_key(m, &S::encs(w)))?;
        let Ok(l) = r else { return viol("foreign-key-refused", text()) };
        same(ctx, "loaded key", &l.enc(Codec::Native), &s.enc(Codec::Native), text)?;
        // elements and scalars: the group's own encodings, both ways
        let e = S::mul(S::base(), ctx.scalar::<S>());
        same(ctx, "element encoding", &S::g_enc(e), &S::enc(e), text)?;
        let x = ctx.scalar::<S>();
        let x = match ctx.draw(4) {
            0 => S::su64(1 + ctx.draw(300)),
            1 => neg::<S>(S::su64(1 + ctx.draw(300))),
            _ => x,
        };
        same(ctx, "scalar encoding", &S::g_encs(x), &S::encs(x), text)?;
        let e = S::mul(S::base(), x);
        match ctx.lib("decode", || (S::g_dec(&S::enc(e)), S::g_decs(&S::encs(x))))? {
            (Ok(a), Ok(b)) if a == e && b == x => {}
            _ => return viol("foreign-bytes-refused", format!("element {} or scalar {} not decoded to its value", hx(&S::enc(e)), hx(&S::encs(x)))),
        }
    }
    Ok(())
}

fn batch_size(ctx: &mut Ctx, m: Mode, sid: Sid) -> usize {
    let n = usual_size(ctx, m, sid);
    ctx.size(n, if sid.is_toy() { 1100 } else { 20 })
}

fn usual_size(ctx: &mut Ctx, m: Mode, sid: Sid) -> usize {
    let toy = sid.is_toy();
    match (m, ctx.draw(12)) {
        (Mode::O, _) => 1 + ctx.below(3),
        (_, 0..=6) => *ctx.pick(&[1, 2, 3, 4, 5]),
        (_, 7 | 8) if toy => *ctx.pick(&[16, 17, 63, 64, 100]),
        (_, 9 | 10) if toy => *ctx.pick(&[255, 256, 257, 258, 300]),
        (_, 11) if toy => *ctx.pick(&[511, 512, 513, 700, 1025]),
        _ if sid == Sid::Ristretto => *ctx.pick(&[6, 17, 40, 257]),
        _ if sid == Sid::P256 => *ctx.pick(&[6, 17, 30]),
        _ => 6,
    }
}

fn session_bytes<S: Suite>(ctx: &mut Ctx, m: Mode, sid: Sid) -> R {
    let w = world::<S>(ctx, m)?;
    let info = if m == Mode::P { ctx.info() } else { None };
    let n = batch_size(ctx, m, sid);
    // requests: by the library, or by the reference and adopted by the library
    let mut ss: Vec<Sess<S>> = Vec::with_capacity(n);
    let base = ctx.seed();
    for i in 0..n {
        let input = if n <= 5 || (n < 400 && i % 64 == 5) { ctx.blob(65535) } else { format!("{base:x}-{i}").into_bytes() };
        let b = if n <= 5 { ctx.scalar::<S>() } else { scalar_from::<S>(base.wrapping_add(i as u64)) };
        let want = match rg::blind::<S>(m, &input, b) {
            Ok(x) => x,
            Err(_) => return Ok(()),
        };
        let foreign = if n <= 5 { ctx.chance(1, 3) } else { i % 3 == 0 };
        if foreign {
            let (Ok(cl), Ok(be)) = (Cl::<S>::from_parts(m, b, want), S::BE::dec(&S::enc(want), Codec::Native)) else {
                return viol("foreign-bytes-refused", format!("mode {m:?}: state or request made by an RFC implementation refused (blind {}, element {})", hx(&S::encs(b)), hx(&S::enc(want))));
            };
            ctx.probe("session-adopted-from-reference");
            ss.push(Sess { input, cl, be, blind: b, bev: want });
        } else {
            let r = ctx.lib("client.deterministic_blind", || Cl::<S>::dblind(m, &input, b))?;
            let Ok((cl, be)) = r else { return viol("blind-failed", format!("mode {m:?}: {} bytes", input.len())) };
            same(ctx, "request", &be.enc(Codec::Native), &S::enc(want), || format!("mode {m:?} input {} blind {}", hx(&input), hx(&S::encs(b))))?;
            ss.push(Sess { input, cl, be, blind: b, bev: want });
        }
    }
    let bev = bevs(&ss);
    let (mut ees, mut pr): (Vec<S::EE>, Option<S::PR>);
    let want: Vec<S::E> = match bev.iter().map(|b| rg::eval::<S>(m, w.sk, *b, inf(&info))).collect() {
        Ok(x) => x,
        Err(_) => return Ok(()),
    };
    // the server: library (single, batch or two-phase) or reference
    let by_lib = ctx.chance(2, 3);
    if by_lib {
        let seed = ctx.seed();
        let mut rng = generator_from::<S>(seed);
        let y = bes(&ss);
        let path = ctx.draw(3);
        let r = if n == 1 && path == 0 {
            ctx.lib("server.blind_evaluate", || w.srv.blind_evaluate(&mut rng, &y.0[0], info.as_deref()).map(|(e, p)| (vec![e], p)))?
        } else if path == 1 && m.verifiable() {
            ctx.lib("server.two-phase", || {
                let (it, t) = w.srv.prepare(Box::new(y.0.iter()), info.as_deref())?;
                let p = Yv(it.collect::<Vec<_>>());
                w.srv.finish(&mut rng, &y, &p, t.as_ref()).map(|(e, p)| (e, Some(p)))
            })?
        } else {
            ctx.lib("server.batch", || w.srv.batch(&mut rng, &y, info.as_deref()))?
        };
        (ees, pr) = match r {
            Ok(x) => x,
            Err(e) => return viol("honest-evaluation-failed", format!("mode {m:?} batch {n}: {e:?}")),
        };
        if ees.len() != n {
            return viol("honest-evaluation-failed", format!("{} answers for {n} requests", ees.len()));
        }
        for (i, (g, x)) in ees.iter().zip(&want).enumerate() {
            if i < 8 || i + 8 > n || i % 251 == 0 {
                same(ctx, "evaluation", &g.enc(Codec::Native), &S::enc(*x), || format!("mode {m:?} item {i} of {n}"))?;
            } else if S::ee_v(g) != *x {
                return viol("bytes-differ", format!("mode {m:?}: evaluation {i} of {n} differs"));
            }
        }
        if let Some(p) = &pr {
            let Some(cs) = proof_parts::<S>(p) else { return viol("proof-bytes", "proof is not two scalars") };
            ctx.check("proof-as-rfc");
            ctx.bytes_ev("emitted", "proof", &p.enc(Codec::Native));
            if !proof_is_reference::<S>(m, w.sk, inf(&info), &bev, &want, cs) {
                return viol("proof-differs", format!("mode {m:?} batch of {n}: the proof is not what RFC 9497 gives for its nonce"));
            }
        }
    } else {
        ees = mkees::<S>(&want);
        // over the wire
        for e in ees.iter_mut().take(4) {
            let b = S::enc(S::ee_v(e));
            match S::EE::dec(&b, Codec::Native) {
                Ok(x) => *e = x,
                Err(x) => return viol("foreign-bytes-refused", format!("evaluation {}: {x}", hx(&b))),
            }
        }
        pr = None;
        if m.verifiable() {
            let r = ctx.scalar::<S>();
            let Ok((c, s)) = rg::server_prove::<S>(m, w.sk, inf(&info), &bev, &want, r) else { return Ok(()) };
            pr = make_proof::<S>(c, s);
            if pr.is_none() {
                return viol("foreign-bytes-refused", format!("proof {} {}", hx(&S::encs(c)), hx(&S::encs(s))));
            }
            ctx.probe("proof-by-reference");
        }
    }
    // the client: library; its verdict and outputs against the reference
    let got = lib_finalize::<S>(ctx, m, w.pk, info.as_deref(), &ss, &ees, pr.as_ref())?;
    let by = if by_lib { "the library" } else { "the reference" };
    match got {
        Err(e) => return viol("foreign-response-refused", format!("mode {m:?}: client answered {e:?} to an honest batch of {n} by {by}")),
        Ok(v) => {
            for (i, (s, o)) in ss.iter().zip(&v).enumerate() {
                let Ok(x) = rg::prf::<S>(m, w.sk, &s.input, inf(&info)) else { continue };
                if i < 4 || i + 4 > n || i % 97 == 0 {
                    same(ctx, "output", o, &x, || format!("mode {m:?} item {i} of {n}, input {} bytes, info {} bytes", s.input.len(), inf(&info).len()))?;
                } else if *o != x {
                    return viol("bytes-differ", format!("mode {m:?}: output {i} of {n} differs"));
                }
            }
        }
    }
    let i = ctx.below(n);
    let o = ctx.lib("server.evaluate", || w.srv.evaluate(&ss[i].input, info.as_deref()))?;
    if let (Ok(o), Ok(x)) = (o, rg::prf::<S>(m, w.sk, &ss[i].input, inf(&info))) {
        same(ctx, "server-side output", &o, &x, || format!("mode {m:?} input {} bytes, info {} bytes", ss[i].input.len(), inf(&info).len()))?;
    }
    Ok(())
}
