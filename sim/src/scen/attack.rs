//! C02: honest clients against an adaptive malicious server and network. The
//! adversary knows every key, keeps everything it has seen, forges with the
//! reference prover, mixes, replays, splices and combines; the client's verdict
//! must be exactly the reference verifier's, and acceptance must imply truth.

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{self, Mode};
use crate::scen::util::*;
use crate::suite::*;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = ctx.suite();
    let m = ctx.vmode();
    if sid == Sid::Toy && ctx.chance(1, 3) {
        let q = *ctx.pick(&[65521, 251, 31, 1_000_003]);
        crate::toy::set_q(q);
        ctx.label = format!("toy q={q}");
    }
    ctx.label = format!("attack {} {m:?}", ctx.label);
    dispatch!(sid, attack(ctx, m))
}

#[derive(Clone)]
struct Seen<S: Suite> {
    ees: Vec<S::E>,
    proof: (S::S, S::S),
    bev: Vec<S::E>,
}

fn attack<S: Suite>(ctx: &mut Ctx, m: Mode) -> R {
    let sk = ctx.scalar::<S>();
    let sk2 = ctx.scalar::<S>();
    let pk = S::mul(S::base(), sk);
    let keys = [sk, sk2];
    let srv: Vec<Sv<S>> = {
        let mut v = Vec::new();
        for k in keys {
            match ctx.lib("server.load", || Sv::<S>::with_key(m, &S::encs(k)))? {
                Ok(s) => v.push(s),
                Err(e) => return viol("server-load-failed", format!("{e:?}")),
            }
        }
        v
    };
    let info0 = if m == Mode::P { ctx.info() } else { None };
    let mut info1 = inf(&info0).to_vec();
    if info1.is_empty() {
        info1 = vec![0];
    } else {
        let l = info1.len();
        let k = ctx.below(l);
        info1[k] ^= 1 << ctx.below(8);
    }
    let mut seen: Vec<Seen<S>> = Vec::new();
    let mut pool: Vec<S::E> = vec![S::base(), pk];
    let rounds = 1 + ctx.below(4);
    for _ in 0..rounds {
        let n = if S::NAME == "toy" && ctx.chance(1, 24) { *ctx.pick(&[40, 255, 256, 257, 258, 300, 513]) } else { *ctx.pick(&[1, 2, 1, 3, 5, 8]) };
        let n = ctx.size(n, most::<S>().min(300));
        let mut ss: Vec<Sess<S>> = Vec::new();
        let base = ctx.small_blob();
        let mut guard = 0;
        // sometimes the same request more than once, next to itself or anywhere
        let dup = ctx.chance(1, 3);
        while ss.len() < n {
            if dup && !ss.is_empty() && ctx.chance(1, 3) {
                let k = if ctx.chance(1, 2) { ss.len() - 1 } else { ctx.below(ss.len()) };
                let c = ss[k].clone();
                ss.push(c);
                ctx.fault("request-twice-in-batch");
                continue;
            }
            let mut i = base.clone();
            i.extend_from_slice(&(guard as u32).to_be_bytes());
            guard += 1;
            if let Some(s) = session_opt::<S>(ctx, m, i)? {
                ss.push(s);
            }
        }
        if n > 250 {
            ctx.probe("large-batch-attacked");
        }
        let bev = bevs(&ss);
        pool.extend(bev.iter().take(3));
        // the genuine response, from the real server, as raw material
        let seed = ctx.seed();
        let mut rng = generator_from::<S>(seed);
        let y = bes(&ss);
        let r = ctx.lib("server.batch_blind_evaluate", || srv[0].batch(&mut rng, &y, info0.as_deref()))?;
        let tw_ok = m == Mode::V || rg::tweak::<S>(sk, inf(&info0)).is_ok();
        match r {
            Ok((e, Some(p))) => {
                if let Some(pp) = proof_parts::<S>(&p) {
                    let ev = eevs::<S>(&e);
                    pool.extend(ev.iter().take(3));
                    seen.push(Seen { ees: ev, proof: pp, bev: bev.clone() });
                }
            }
            Err(_) if !tw_ok => {}
            Err(e) => return viol("honest-evaluation-failed", format!("{e:?}")),
            _ => unreachable!(),
        }
        let tries = if n > 20 { 2 } else { 2 + ctx.below(5) };
        for _ in 0..tries {
            let inside = if ctx.chance(1, 3) { insider::<S>(ctx, m, &srv[0], sk, &info0, &ss, &bev, &pool)? } else { None };
            let (ees, proof, name): (Vec<S::E>, (S::S, S::S), String) = match inside {
                Some(x) => x,
                None => craft::<S>(ctx, m, sk, &info0, &info1, &bev, &seen, &pool),
            };
            // the client may itself be pointed at another key or info
            let cpk = if ctx.chance(1, 10) { S::mul(S::base(), sk2) } else { pk };
            let cinfo = if m == Mode::P && ctx.chance(1, 10) { Some(info1.clone()) } else { info0.clone() };
            let Some(pr) = make_proof::<S>(proof.0, proof.1) else {
                ctx.probe("forged-proof-not-encodable");
                continue;
            };
            let ids = S::ident();
            if ees.contains(&ids) {
                ctx.probe("forged-element-is-identity");
                continue;
            }
            ctx.fault(&format!("attack-{name}"));
            let e = mkees::<S>(&ees);
            let want = model_finalize::<S>(m, cpk, inf(&cinfo), &ss, &ees, Some(proof));
            let got = lib_finalize::<S>(ctx, m, cpk, cinfo.as_deref(), &ss, &e, Some(&pr))?;
            ctx.check("verdict-equals-reference");
            let d = got.is_ok();
            ctx.ev("verdict", || format!("{name} n={} accept={d}", ees.len()));
            if got.is_ok() && want.is_err() {
                return viol("accepted-forgery", format!("mode {m:?} batch {n}: attack '{name}' accepted; the reference verifier answers {}", ro(&want)));
            }
            if got.is_err() && want.is_ok() {
                return viol("rejected-genuine", format!("mode {m:?} batch {n}: '{name}' refused with {} although valid", ro(&got)));
            }
            if !same_verdict::<S>(m, cpk, inf(&cinfo), ss.len(), ees.len(), &got, &want) {
                return viol(if got.is_ok() { "wrong-output" } else { "wrong-error" }, format!("mode {m:?} batch {n}: '{name}' gave {}, reference {}", ro(&got), ro(&want)));
            }
            if let Ok(o) = &got {
                ctx.probe("accepted-genuine-response");
                if !S::small() {
                    ctx.check("acceptance-implies-truth");
                    let k = if cpk == pk { sk } else { sk2 };
                    for (i, s) in ss.iter().enumerate() {
                        let t = rg::prf::<S>(m, k, &s.input, inf(&cinfo));
                        if t.as_ref() != Ok(&o[i]) {
                            return viol("wrong-output", format!("mode {m:?}: accepted response '{name}' gives {} at {i}, the PRF value is {:?}", hx(&o[i]), t.map(|x| hx(&x))));
                        }
                    }
                }
            } else {
                ctx.probe("refused-response");
            }
        }
    }
    Ok(())
}

/// A server that runs the library's own second phase on elements of its
/// choice, over the whole batch or over a part of it, and sends another set of
/// elements: whatever prover and verifier wrongly agree on is found here.
#[allow(clippy::type_complexity)]
fn insider<S: Suite>(ctx: &mut Ctx, m: Mode, srv: &Sv<S>, sk: S::S, info0: &Option<Vec<u8>>, ss: &[Sess<S>], bev: &[S::E], pool: &[S::E]) -> R<Option<(Vec<S::E>, (S::S, S::S), String)>> {
    let n = bev.len();
    let mut good: Vec<S::E> = Vec::with_capacity(n);
    for b in bev {
        match rg::eval::<S>(m, sk, *b, inf(info0)) {
            Ok(e) => good.push(e),
            Err(_) => return Ok(None),
        }
    }
    // what is sent
    let mut e = good.clone();
    let mut a = ctx.below(n);
    let twins: Vec<usize> = (0..n).filter(|i| *i != a && bev[*i] == bev[a]).collect();
    let mut b = match ctx.draw(3) {
        0 if !twins.is_empty() => *ctx.pick(&twins),
        1 => (a + 1) % n,
        _ => ctx.below(n),
    };
    let k = ctx.scalar::<S>();
    let d = S::mul(S::base(), k);
    let mut what = ctx.below(8);
    let mut watched = false;
    if S::NAME == "toy" && n > 1 && ctx.chance(1, 3) {
        // watch a verification: which elements share a weight, which have none
        if let Some((x, y)) = weak_spot::<S>(ctx, m, sk, info0, ss, bev, &good)? {
            (a, b, watched) = (x, y, true);
            what = if a == b { ctx.below(8) } else { 0 };
        }
    }
    match what {
        0 => {
            e[a] = S::add(e[a], d);
            e[b] = S::add(e[b], S::mul(d, neg::<S>(S::su64(1))));
        }
        1 => e[a] = bev[a],
        2 => e[a] = *ctx.pick(pool),
        3 => e[a] = good[b],
        4 => e.swap(a, b),
        5 => e[a] = S::mul(e[a], k),
        6 => e.iter_mut().skip(a).for_each(|x| *x = S::add(*x, d)),
        _ => e[a] = S::mul(e[a], neg::<S>(S::su64(1))),
    }
    // what the proof is made over
    let cover = if watched { 0 } else { ctx.below(7) };
    let keep = |i: usize| match cover {
        0..=2 => true,
        3 => i != a && i != b,
        4 => i < a,
        5 => i != a,
        _ => (0..i).all(|j| bev[j] != bev[i]),
    };
    let over_sent = watched || ctx.chance(2, 3);
    let idx: Vec<usize> = (0..n).filter(|i| keep(*i)).collect();
    let y = Yv(idx.iter().map(|i| S::be(bev[*i])).collect::<Vec<_>>());
    let mut pes = Vec::with_capacity(idx.len());
    for i in &idx {
        let v = if over_sent { e[*i] } else { good[*i] };
        if v == S::ident() {
            return Ok(None);
        }
        match S::PE::dec(&S::ee(v).bytes(), Codec::Bincode) {
            Ok(p) => pes.push(p),
            Err(_) => return Ok(None),
        }
    }
    let seed = ctx.seed();
    let r = ctx.lib("server.prepare+finish", || {
        let (_, t) = srv.prepare(Box::new(y.0.iter()), info0.as_deref())?;
        let mut rng = generator_from::<S>(seed);
        srv.finish(&mut rng, &y, &Yv(pes), t.as_ref()).map(|(_, p)| p)
    })?;
    let Ok(p) = r else { return Ok(None) };
    let Some(pp) = proof_parts::<S>(&p) else { return Ok(None) };
    let name = ["shift-twins", "echo", "foreign", "copy", "swap", "scale", "shift-rest", "negate"][what];
    let over = ["all", "all", "all", "others", "prefix", "all-but-one", "distinct"][cover];
    Ok(Some((e, pp, format!("insider-{name}-over-{over}"))))
}

/// Two members the verifier gives one weight, or a member it gives none.
#[allow(clippy::too_many_arguments)]
fn weak_spot<S: Suite>(ctx: &mut Ctx, m: Mode, sk: S::S, info0: &Option<Vec<u8>>, ss: &[Sess<S>], bev: &[S::E], good: &[S::E]) -> R<Option<(usize, usize)>> {
    let info = inf(info0);
    let r = ctx.scalar::<S>();
    let Ok(p) = rg::server_prove::<S>(m, sk, info, bev, good, r) else { return Ok(None) };
    let Some(pr) = make_proof::<S>(p.0, p.1) else { return Ok(None) };
    let pk = S::mul(S::base(), sk);
    let e = mkees::<S>(good);
    let (_, seen) = crate::toy::tap(|| lib_finalize::<S>(ctx, m, pk, info0.as_deref(), ss, &e, Some(&pr)));
    ctx.probe("verification-watched");
    let val = |e: &S::E| u64::from_be_bytes(S::enc(*e)[1..9].try_into().unwrap());
    let mut uses: std::collections::BTreeMap<u64, Vec<u64>> = Default::default();
    for (b, s) in seen {
        uses.entry(b).or_default().push(s);
    }
    let mut by_weight: std::collections::BTreeMap<u64, Vec<usize>> = Default::default();
    let mut bare = Vec::new();
    for i in 0..bev.len() {
        // the blind's inverse multiplies the response, never the request
        let w = uses.get(&val(&bev[i]));
        if w.is_none() || !uses.contains_key(&val(&good[i])) {
            bare.push(i);
        }
        for x in w.into_iter().flatten() {
            let l = by_weight.entry(*x).or_default();
            if l.last().is_none_or(|j| bev[*j] != bev[i]) {
                l.push(i);
            }
        }
    }
    let shared: Vec<&Vec<usize>> = by_weight.values().filter(|l| l.len() > 1).collect();
    if !shared.is_empty() {
        ctx.probe("shared-weight-seen");
        let l = (*ctx.pick(&shared)).clone();
        let i = ctx.below(l.len());
        return Ok(Some((l[i], l[(i + 1) % l.len()])));
    }
    if !bare.is_empty() {
        ctx.probe("unweighted-member-seen");
        let i = *ctx.pick(&bare);
        let j = *ctx.pick(&bare);
        return Ok(Some((i, j)));
    }
    Ok(None)
}

#[allow(clippy::too_many_arguments)]
fn craft<S: Suite>(
    ctx: &mut Ctx,
    m: Mode,
    sk: S::S,
    info0: &Option<Vec<u8>>,
    info1: &[u8],
    bev: &[S::E],
    seen: &[Seen<S>],
    pool: &[S::E],
) -> (Vec<S::E>, (S::S, S::S), String) {
    let n = bev.len();
    let info = inf(info0);
    let r = ctx.scalar::<S>();
    let good: Vec<S::E> = bev.iter().map(|b| rg::eval::<S>(m, sk, *b, info).unwrap_or(*b)).collect();
    let hp = rg::server_prove::<S>(m, sk, info, bev, &good, r).unwrap_or((S::su64(1), S::su64(1)));
    let one = S::su64(1);
    let pos = ctx.below(n);
    match ctx.draw(14) {
        0 => (good, hp, "genuine".into()),
        1..=5 => {
            let (e, p, name) = crate::scen::byz::attack::<S>(ctx, m, sk, info, bev, &good, r, pool);
            (e, p.unwrap_or(hp), format!("byz-{name}"))
        }
        6 => {
            // splice: genuine elements with a proof from an earlier session
            let k = ctx.below(seen.len().max(1));
            let p = seen.get(k).map(|s| s.proof).unwrap_or(hp);
            (good, p, "proof-of-other-session".into())
        }
        7 => {
            // whole earlier response, cut or padded to size
            let k = ctx.below(seen.len().max(1));
            match seen.get(k) {
                Some(s) => (s.ees.clone(), s.proof, if s.bev == bev { "same-response".into() } else { "replayed-response".into() }),
                None => (good, hp, "genuine".into()),
            }
        }
        8 => {
            // only one (possibly late) position wrong, proof honest for the rest
            let mut e = good.clone();
            e[pos] = *ctx.pick(pool);
            let p = if ctx.chance(1, 2) { hp } else { rg::server_prove::<S>(m, sk, info, bev, &e, r).unwrap_or(hp) };
            (e, p, "one-foreign-element".into())
        }
        9 => {
            // proof valid for a prefix / suffix of the batch only
            let mut e = good.clone();
            let k = ctx.below(n);
            for x in e.iter_mut().skip(k + 1) {
                *x = S::add(*x, S::base());
            }
            let p = if k + 1 <= n { rg::server_prove::<S>(m, sk, info, &bev[..k + 1], &good[..k + 1], r).unwrap_or(hp) } else { hp };
            (e, p, "proof-over-prefix".into())
        }
        10 => {
            // random linear combination of what was sent
            let mut e = good.clone();
            let j = ctx.below(n);
            e[pos] = S::add(good[pos], good[j]);
            if ctx.chance(1, 2) {
                e[j] = S::add(good[j], S::mul(good[pos], neg::<S>(one)));
            }
            (e, hp, "linear-combination".into())
        }
        11 => {
            // negated elements / negated proof parts
            let mut e = good.clone();
            e[pos] = S::mul(e[pos], neg::<S>(one));
            let p = match ctx.draw(3) {
                0 => hp,
                1 => (neg::<S>(hp.0), hp.1),
                _ => (hp.0, neg::<S>(hp.1)),
            };
            (e, p, "negation".into())
        }
        12 => {
            let e: Vec<S::E> = bev.iter().map(|b| rg::eval::<S>(m, sk, *b, info1).unwrap_or(*b)).collect();
            let p = if ctx.chance(1, 2) { rg::server_prove::<S>(m, sk, info1, bev, &e, r).unwrap_or(hp) } else { rg::server_prove::<S>(m, sk, info, bev, &e, r).unwrap_or(hp) };
            (e, p, "other-info-one-bit".into())
        }
        _ => {
            // choose challenge/response first and solve for one element: works
            // only if the challenge does not bind that element
            let c = hp.0;
            let s = S::sadd(hp.1, one);
            let mut e = good.clone();
            e[pos] = S::add(e[pos], S::mul(S::base(), S::smul(neg::<S>(one), S::sinv(c_or_one::<S>(c)))));
            (e, (c, s), "solve-for-element".into())
        }
    }
}

fn c_or_one<S: Suite>(c: S::S) -> S::S {
    if c == S::su64(0) {
        S::su64(1)
    } else {
        c
    }
}
