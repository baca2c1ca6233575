//! C08: rare algebra made common. In the toy group every degenerate event has
//! probability 1/Q, and any hash result can be forced; generators yield zeros
//! and multiples of the order. Every reaction is compared with the reference.

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{self, MErr, Mode, RToy, MODES, RG};
use crate::rng::SimRng;
use crate::scen::util::*;
use crate::suite::*;
use crate::toy::{self, TE, TS};
use voprf::Error;

pub fn run(ctx: &mut Ctx) -> R {
    match ctx.draw(10) {
        0..=5 => {
            let q = *ctx.pick(&[13, 5, 7, 11, 31, 251, 65521, toy::Q61]);
            toy::set_q(q);
            ctx.label = format!("degenerate toy q={q}");
            network(ctx)
        }
        6 | 7 => {
            let q = *ctx.pick(&[toy::Q61, 5, 13, 251]);
            toy::set_q(q);
            ctx.label = format!("derivation toy q={q}");
            derivation(ctx)
        }
        _ => {
            let sid = *ctx.pick(&[Sid::Ristretto, Sid::P256, Sid::P384, Sid::P521]);
            ctx.label = format!("zero draws {sid:?}");
            dispatch!(sid, zero_draws(ctx))
        }
    }
}

type S = RToy;

struct Node {
    m: Mode,
    sk: TS,
    pk: TE,
    srv: Sv<S>,
}

/// All client and server calls of all modes in one deployment with several
/// keys, where inputs, infos and keys are degenerate with high probability.
fn network(ctx: &mut Ctx) -> R {
    let nn = 1 + ctx.below(3);
    let mut nodes: Vec<Node> = Vec::new();
    for _ in 0..nn {
        let m = *ctx.pick(&[Mode::P, Mode::V, Mode::O]);
        let sk = ctx.scalar::<S>();
        let srv = match ctx.lib("server.load", || Sv::<S>::with_key(m, &S::encs(sk)))? {
            Ok(s) => s,
            Err(e) => return viol("server-load-failed", format!("{e:?}")),
        };
        nodes.push(Node { m, sk, pk: S::mul(S::base(), sk), srv });
    }
    // the pool of inputs and infos; some forced to be degenerate
    let inputs: Vec<Vec<u8>> = (0..6).map(|i| if i == 0 { ctx.small_blob() } else { let mut b = ctx.bytes(3); b.push(i); b }).collect();
    let infos: Vec<Option<Vec<u8>>> = (0..5u8).map(|i| match i { 0 => None, 1 => Some(vec![]), 2 => Some(ctx.small_blob()), _ => Some(vec![i, 9, i]) }).collect();
    let nf = ctx.below(4);
    for _ in 0..nf {
        match ctx.draw(3) {
            0 => {
                let m = *ctx.pick(&MODES);
                let i = ctx.pick(&inputs).clone();
                toy::force(&rg::dst::<S>("HashToGroup-", m), &i, 0);
                ctx.fault("force-identity-hash");
            }
            _ => {
                let k = ctx.below(nn);
                let d = ctx.draw(4);
                let t = match d {
                    0 | 1 => toy::q() - nodes[k].sk.0,
                    2 => toy::addmod(toy::q() - nodes[k].sk.0, 1),
                    _ => toy::addmod(toy::q() - nodes[k].sk.0, toy::q() - 1),
                };
                let i = ctx.pick(&infos).clone();
                let mut msg = b"Info".to_vec();
                let b = inf(&i);
                msg.extend_from_slice(&(b.len() as u16).to_be_bytes());
                msg.extend_from_slice(b);
                toy::force(&rg::dst::<S>("HashToScalar-", Mode::P), &msg, t);
                ctx.fault(if d < 2 { "force-cancelled-tweak" } else { "force-nearly-cancelled-tweak" });
            }
        }
    }
    let steps = 4 + ctx.below(12);
    for _ in 0..steps {
        let k = ctx.below(nn);
        let (m, sk, pk) = (nodes[k].m, nodes[k].sk, nodes[k].pk);
        let input = ctx.pick(&inputs).clone();
        let info = if m == Mode::P { ctx.pick(&infos).clone() } else { None };
        let ident = rg::h2g::<S>(m, &input) == S::ident();
        let cancelled = m == Mode::P && rg::tweak::<S>(sk, inf(&info)) == Err(MErr::Protocol);
        if cancelled {
            ctx.probe("cancelled-tweak-met");
        }
        if ident {
            ctx.probe("identity-input-met");
        }
        let node = &nodes[k];
        let op = ctx.draw(6);
        ctx.ev("op", || format!("node {k} {m:?} op {op} identity={ident} cancelled={cancelled} sk={} input={} info={}", sk.0, hx(&input), hx(inf(&info))));
        match op {
            0 => {
                // server evaluates directly
                let r = ctx.lib("server.evaluate", || node.srv.evaluate(&input, info.as_deref()))?;
                let w = rg::prf::<S>(m, sk, &input, inf(&info)).map_err(merr);
                ctx.check("evaluate-equals-model");
                let either = ident && cancelled && matches!(r, Err(Error::Input) | Err(Error::Protocol));
                if r != w && !either {
                    return viol("evaluate-differs", format!("mode {m:?} q={} identity={ident} cancelled={cancelled}: evaluate gave {}, reference {}", toy::q(), rr(&r), rr(&w)));
                }
            }
            1 => {
                // blinding with a caller-chosen scalar
                let b = ctx.scalar::<S>();
                let r = ctx.lib("client.deterministic_blind", || Cl::<S>::dblind(m, &input, b))?;
                ctx.check("blind-equals-model");
                match (r, rg::blind::<S>(m, &input, b)) {
                    (Ok((_, e)), Ok(w)) if S::be_v(&e) == w => {}
                    (Err(e), Err(w)) if e == merr(w) => {}
                    (r, w) => return viol(if w.is_err() { "identity-input-accepted" } else { "blind-differs" }, format!("mode {m:?} q={}: blind gave {:?}, reference {w:?}", toy::q(), r.map(|x| S::be_v(&x.1)))),
                }
            }
            2 if m == Mode::P => {
                // a client told a public key whose tweaked key is the identity
                let t = rg::info_scalar::<S>(inf(&info));
                let bad = if ctx.chance(1, 2) { S::mul(S::base(), neg::<S>(t)) } else { pk };
                if bad == S::ident() {
                    continue;
                }
                let Some(s) = session_opt::<S>(ctx, m, input.clone())? else { continue };
                let ee = if ctx.chance(1, 2) { s.bev } else { S::mul(S::base(), ctx.scalar::<S>()) };
                let (c, r) = (ctx.scalar::<S>(), ctx.scalar::<S>());
                let Some(p) = make_proof::<S>(c, r) else { continue };
                ctx.fault("adversarial-public-key");
                verdict(ctx, m, bad, &info, std::slice::from_ref(&s), &[ee], Some(&p), Some((c, r)))?;
            }
            _ => {
                // a full exchange, single or batch
                let n = *ctx.pick(&[1, 1, 2, 3, 6]);
                let n = ctx.size(n, 40);
                let n = if m == Mode::O { 1 } else { n };
                let mut ss: Vec<Sess<S>> = Vec::new();
                for _ in 0..n {
                    let i = if n == 1 { input.clone() } else { ctx.pick(&inputs).clone() };
                    let id = rg::h2g::<S>(m, &i) == S::ident();
                    match session_opt::<S>(ctx, m, i.clone())? {
                        Some(s) => {
                            ctx.check("no-identity-request");
                            if s.bev == S::ident() || s.blind == TS(0) || id {
                                return viol("identity-request", format!("mode {m:?} q={}: request {:?} blind {:?}", toy::q(), s.bev, s.blind));
                            }
                            ss.push(s);
                        }
                        None => {
                            ctx.check("identity-input-refused");
                        }
                    }
                }
                if ss.is_empty() {
                    continue;
                }
                let n = ss.len();
                let y = bes(&ss);
                let seed = ctx.seed();
                let mut rng = SimRng::new(seed);
                let how = ctx.draw(3);
                let r: LR<(Vec<TE>, Option<<S as Suite>::PR>)> = if m == Mode::O || (n == 1 && how == 0) {
                    ctx.lib("server.blind_evaluate", || node.srv.blind_evaluate(&mut rng, &y.0[0], info.as_deref()).map(|(e, p)| (vec![S::ee_v(&e)], p)))?
                } else if how == 1 {
                    ctx.lib("server.prepare+finish", || {
                        let (it, t) = node.srv.prepare(Box::new(y.0.iter()), info.as_deref())?;
                        let p = Yv(it.collect::<Vec<_>>());
                        node.srv.finish(&mut rng, &y, &p, t.as_ref()).map(|(e, p)| (eevs::<S>(&e), Some(p)))
                    })?
                } else {
                    ctx.lib("server.batch_blind_evaluate", || node.srv.batch(&mut rng, &y, info.as_deref()).map(|(e, p)| (eevs::<S>(&e), p)))?
                };
                ctx.check("evaluation-equals-model");
                let want: Result<Vec<TE>, Error> = ss.iter().map(|s| rg::eval::<S>(m, sk, s.bev, inf(&info)).map_err(merr)).collect();
                if let Ok((e, _)) = &r {
                    ctx.ev("response", || format!("{e:?}"));
                }
                let (ees, proof) = match (r, want) {
                    (Err(e), Err(w)) if e == w => {
                        ctx.probe("cancelled-tweak-refused-by-server");
                        // the honest client refuses too, whatever it is sent
                        let (c, z) = (ctx.scalar::<S>(), ctx.scalar::<S>());
                        if let Some(p) = make_proof::<S>(c, z) {
                            let any: Vec<TE> = ss.iter().map(|s| s.bev).collect();
                            verdict(ctx, m, pk, &info, &ss, &any, Some(&p), Some((c, z)))?;
                        }
                        continue;
                    }
                    (Ok((e, p)), Ok(w)) if e == w => (e, p),
                    (r, w) => {
                        let c = if w.is_err() { "degenerate-evaluation-accepted" } else if r.is_err() { "honest-evaluation-failed" } else { "evaluation-differs" };
                        return viol(c, format!("mode {m:?} q={} n={n}: server gave {:?}, reference {w:?}", toy::q(), r.map(|x| x.0)));
                    }
                };
                if ees.contains(&S::ident()) {
                    return viol("identity-response", format!("mode {m:?} q={}: {ees:?}", toy::q()));
                }
                let pp = match &proof {
                    Some(p) => match proof_parts::<S>(p) {
                        Some(x) => Some(x),
                        None => return viol("bad-proof-encoding", "proof"),
                    },
                    None => None,
                };
                if let Some((c, s)) = pp {
                    ctx.check("proof-by-reference");
                    if !proof_is_reference::<S>(m, sk, inf(&info), &bevs(&ss), &ees, (c, s)) {
                        return viol("proof-differs", format!("mode {m:?} q={} n={n}: proof is not the reference proof for its nonce", toy::q()));
                    }
                    // r = s + c k must not be zero (drawn non-zero)
                    let key = if m == Mode::P { rg::tweak::<S>(sk, inf(&info)).unwrap() } else { sk };
                    if S::sadd(s, S::smul(c, key)) == TS(0) {
                        return viol("zero-nonce", format!("mode {m:?} q={}", toy::q()));
                    }
                }
                let got = verdict(ctx, m, pk, &info, &ss, &ees, proof.as_ref(), pp)?;
                match got {
                    Ok(o) => {
                        for (s, o) in ss.iter().zip(&o) {
                            let w = rg::prf::<S>(m, sk, &s.input, inf(&info)).map_err(merr);
                            if w.as_ref() != Ok(o) {
                                return viol("wrong-output", format!("mode {m:?} q={}: {} reference {}", toy::q(), hx(o), rr(&w)));
                            }
                        }
                        ctx.probe("non-degenerate-session-completed");
                    }
                    Err(e) => return viol("rejected-genuine", format!("mode {m:?} q={} n={n}: {e:?}", toy::q())),
                }
            }
        }
    }
    Ok(())
}

/// library client against reference client on the same response
#[allow(clippy::too_many_arguments)]
fn verdict(ctx: &mut Ctx, m: Mode, pk: TE, info: &Option<Vec<u8>>, ss: &[Sess<S>], ees: &[TE], p: Option<&<S as Suite>::PR>, pp: Option<(TS, TS)>) -> R<Result<Vec<Vec<u8>>, Error>> {
    let e = mkees::<S>(ees);
    let want = model_finalize::<S>(m, pk, inf(info), ss, ees, pp);
    let got = lib_finalize::<S>(ctx, m, pk, info.as_deref(), ss, &e, p)?;
    ctx.check("verdict-equals-model");
    if got != want {
        let c = if want == Err(Error::Protocol) { "identity-tweaked-key-accepted" } else if got.is_ok() { "accepted-forgery" } else { "wrong-verdict" };
        return viol(c, format!("mode {m:?} q={}: client answered {}, reference {}", toy::q(), ro(&got), ro(&want)));
    }
    if want == Err(Error::Protocol) {
        ctx.probe("identity-tweaked-key-refused-by-client");
    }
    Ok(got)
}

fn rr(r: &Result<Vec<u8>, Error>) -> String {
    match r {
        Ok(b) => hx(b),
        Err(e) => format!("{e:?}"),
    }
}

/// Key derivation whose first attempts give zero.
fn derivation(ctx: &mut Ctx) -> R {
    let rounds = 1 + ctx.below(4);
    for _ in 0..rounds {
        let m = *ctx.pick(&MODES);
        let seed = match ctx.draw(3) {
            0 => ctx.bytes(32),
            1 => ctx.small_blob(),
            _ => ctx.bytes(8),
        };
        let info = ctx.small_blob();
        toy::clear_force();
        let zeros = *ctx.pick(&[1usize, 0, 2, 3, 17, 128, 254, 255, 256]);
        let d = rg::dst::<S>("DeriveKeyPair", m);
        let mut msg = seed.clone();
        msg.extend_from_slice(&(info.len() as u16).to_be_bytes());
        msg.extend_from_slice(&info);
        for c in 0..zeros {
            let mut x = msg.clone();
            x.push(c as u8);
            toy::force(&d, &x, 0);
        }
        if zeros > 0 {
            ctx.fault("force-zero-derived-key");
        }
        let want = rg::derive::<S>(m, &seed, &info);
        ctx.ev("derive", || format!("{m:?} zeros={zeros}"));
        // from_seed, derive_key, and new() whose generator yields that seed
        let r = ctx.lib("server.from_seed", || Sv::<S>::from_seed(m, &seed, &info))?;
        let r2 = ctx.lib("derive_key", || S::dkey(&seed, &info, m))?;
        ctx.check("derivation-equals-model");
        match (&r, &r2, want) {
            (Ok(s), Ok(k), Some(w)) if s.sk() == Some(w) && *k == w && s.pk() == Some(S::mul(S::base(), w)) => {
                if zeros > 0 {
                    ctx.probe("zero-derived-key-skipped");
                }
            }
            (Err(Error::Protocol), Err(Error::Protocol), None) => ctx.probe("derivation-exhausted"),
            _ => {
                return viol(
                    "derivation-differs",
                    format!("mode {m:?} q={} {zeros} zero attempts: server {:?}, key {:?}, reference {want:?}", toy::q(), r.as_ref().map(|s| s.sk()), r2),
                )
            }
        }
        if seed.len() == S::NS && info.is_empty() {
            let mut rng = SimRng::scripted(&seed, 1);
            let r = ctx.lib("server.new", || Sv::<S>::new(m, &mut rng))?;
            match (r, want) {
                (Ok(s), _) if s.sk().is_some() && s.sk() != Some(TS(0)) => {}
                (Err(Error::Protocol), None) => {}
                (r, _) => return viol("degenerate-new", format!("mode {m:?}: {:?}", r.map(|s| s.enc(Codec::Native)))),
            }
        }
    }
    Ok(())
}

/// Generators that yield zero scalars for a while; all real suites.
fn zero_draws<G: Suite>(ctx: &mut Ctx) -> R {
    let m = ctx.mode();
    let n = 1 + ctx.below(4);
    let script = zero_script::<G>(ctx, n);
    let seed = ctx.seed();
    ctx.fault("zero-draws");
    ctx.bytes_ev("script", "rng", &script);
    let sk = ctx.scalar::<G>();
    let srv = match ctx.lib("server.load", || Sv::<G>::with_key(m, &G::encs(sk)))? {
        Ok(s) => s,
        Err(e) => return viol("server-load-failed", format!("{e:?}")),
    };
    let pk = G::mul(G::base(), sk);
    let input = ctx.small_blob();
    let mut rng = SimRng::scripted(&script, seed);
    let r = ctx.lib("client.blind", || Cl::<G>::blind(m, &input, &mut rng))?;
    let (cl, be) = match r {
        Ok(x) => x,
        Err(e) => return viol("blind-failed", format!("{e:?} with a generator that yields zeros")),
    };
    ctx.check("zero-draw-redrawn");
    let Some(b) = cl.blind_scalar() else { return viol("zero-blind", format!("mode {m:?}: the blind is not a valid non-zero scalar: {}", hx(&cl.enc(Codec::Native)))) };
    if b == G::su64(0) || G::be_v(&be) == G::ident() || rg::blind::<G>(m, &input, b) != Ok(G::be_v(&be)) {
        return viol("zero-blind", format!("mode {m:?}: blind {b:?}"));
    }
    let info = if m == Mode::P { ctx.info() } else { None };
    let mut rng = SimRng::scripted(&script, seed ^ 77);
    let r = ctx.lib("server.blind_evaluate", || srv.blind_evaluate(&mut rng, &be, info.as_deref()))?;
    let (ee, pr) = match r {
        Ok(x) => x,
        Err(e) => return viol("honest-evaluation-failed", format!("{e:?}")),
    };
    if let Some(p) = &pr {
        let Some((c, s)) = proof_parts::<G>(p) else { return viol("bad-proof-encoding", "proof") };
        let k = if m == Mode::P { rg::tweak::<G>(sk, inf(&info)).unwrap_or(sk) } else { sk };
        ctx.check("zero-nonce-redrawn");
        if G::sadd(s, G::smul(c, k)) == G::su64(0) {
            return viol("zero-nonce", format!("mode {m:?}: the proof nonce is zero: the proof reveals the key"));
        }
    }
    let o = ctx.lib("client.finalize", || cl.finalize(&input, &ee, pr.as_ref(), pk, info.as_deref()))?;
    let w = rg::prf::<G>(m, sk, &input, inf(&info)).map_err(merr);
    if o != w {
        return viol("wrong-output", format!("mode {m:?}: {} reference {}", rr(&o), rr(&w)));
    }
    // new servers and bare scalars from the same generator
    let mut rng = SimRng::scripted(&script, seed ^ 99);
    let s = ctx.lib("server.new", || Sv::<G>::new(m, &mut rng))?;
    match s.map(|s| (s.sk(), s.pk())) {
        Ok((Some(k), Some(p))) if p != G::ident() && p == G::mul(G::base(), k) => {}
        r => return viol("degenerate-new", format!("mode {m:?}: {r:?}")),
    }
    let mut rng = SimRng::scripted(&script, seed ^ 111);
    let k = ctx.lib("group.random_scalar", || G::g_rand(&mut rng))?;
    if k == G::su64(0) {
        return viol("zero-scalar-drawn", "Group::random_scalar returned zero");
    }
    ctx.probe("zero-draws-survived");
    Ok(())
}

/// Bytes that reduce to the zero scalar in the suite's sampling, `n` times:
/// zeros, the group order, or multiples of it, padded on either side.
pub fn zero_script<G: RG>(ctx: &mut Ctx, n: usize) -> Vec<u8> {
    // wide reduction (64 bytes) in the Edwards-based suite, rejection sampling elsewhere
    let width = if G::SCALAR_LE { 64 } else { G::NS };
    let mut v = Vec::new();
    for _ in 0..n {
        let mut one = vec![0u8; width];
        match ctx.draw(3) {
            0 => {}
            1 => {
                let mut o = G::order_be();
                // (the toy group samples little endian)
                if G::SCALAR_LE || G::NAME == "toy" {
                    o.reverse();
                }
                one[..o.len()].copy_from_slice(&o);
            }
            _ => {
                if G::SCALAR_LE {
                    // order * 2^256
                    let mut o = G::order_be();
                    o.reverse();
                    one[32..].copy_from_slice(&o);
                }
            }
        }
        v.extend(one);
    }
    v
}
