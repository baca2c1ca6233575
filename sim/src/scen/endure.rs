//! Endurance: one process, the same few servers, tens of thousands of calls.
//! What wraps, fills up or is evicted only after a long life (counters of 8 or
//! 16 bits, tables and caches, pools) shows in runs like these and nowhere else.

use std::collections::BTreeSet;

use crate::ctx::{hx, viol, Ctx, R};
use crate::rg::{self, Mode, RRistretto, RToy, RToyG, MODES, RP256};
use crate::rng::SimRng;
use crate::scen::util::*;
use crate::suite::*;

pub fn run(ctx: &mut Ctx) -> R {
    match ctx.draw(16) {
        13 => life::<RRistretto>(ctx, 400),
        14 => life::<RP256>(ctx, 200),
        15 => life::<RToyG>(ctx, 5000),
        _ => {
            let count = *ctx.pick(&[300usize, 5000, 82_000, 82_000]);
            life::<RToy>(ctx, count)
        }
    }
}

fn life<S: Suite>(ctx: &mut Ctx, count: usize) -> R {
    let toy = S::encs(S::su64(0)).len() < 16;
    ctx.label = format!("endurance {} {count}", S::ID);
    ctx.probe(if count > 65_536 { "endurance-beyond-16-bits" } else { "endurance" });
    let mut ws: Vec<World<S>> = Vec::new();
    for m in MODES {
        for _ in 0..1 + ctx.below(2) {
            ws.push(world::<S>(ctx, m)?);
        }
    }
    let infos: Vec<Vec<u8>> = (0..*ctx.pick(&[3u32, 70, 300, 70_000])).map(|i| i.to_be_bytes()[..].to_vec()).collect();
    // no chance coincidences
    let wide = !toy || crate::toy::q() > 1 << 60;
    let base = ctx.seed();
    // one generator for the whole life, or one per call
    let shared = ctx.chance(1, 2);
    let stream = ctx.seed();
    let mut rng = SimRng::new(stream);
    // a life of one kind of call, or a mixture
    let only = ctx.draw(6);
    // few or many batches and direct evaluations
    let batches = *ctx.pick(&[2u64, 2, 8, 0]);
    let direct = *ctx.pick(&[1u64, 1, 1, 7]);
    let keys = *ctx.pick(&[0u64, 1, 1, 8]);
    let kinds = *ctx.pick(&[50_000u64, 50_000, 300, 1 << 40]);
    let mut nonces: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut blinds: BTreeSet<Vec<u8>> = BTreeSet::new();
    for i in 0..count {
        let z = crate::tape::mix(base, i as u64);
        let w = match only {
            2 | 3 => ws.iter().find(|w| w.m == Mode::V).unwrap_or(&ws[0]),
            4 => &ws[0],
            5 => &ws[ws.len() - 1],
            _ => &ws[(z % ws.len() as u64) as usize],
        };
        let m = w.m;
        if !shared {
            rng = SimRng::new(z | 1);
        }
        let info = if m == Mode::P { Some(&infos[(z >> 8) as usize % infos.len()][..]) } else { None };
        let inf = info.unwrap_or(&[]);
        // inputs repeat now and then
        let input = ((z >> 20) % kinds).to_be_bytes();
        let at = || format!("call {i} of {count}, mode {m:?}, input {}, info {}", hx(&input), hx(inf));
        // servers come and go
        if (z >> 52) % 16 < keys {
            let seed: Vec<u8> = [&input[..], &input, &input, &input].concat();
            let r = ctx.lib("server.new_from_seed", || Sv::<S>::from_seed(m, &seed, inf))?;
            ctx.check("late-call-like-the-first");
            let sk = rg::derive::<S>(m, &seed, inf);
            if r.as_ref().ok().and_then(|s| s.sk()).map(S::encs) != sk.map(S::encs) {
                return viol("late-call-differs", format!("{}: another key derived", at()));
            }
        }
        let want = match rg::prf::<S>(m, w.sk, &input, inf) {
            Ok(x) => x,
            Err(_) => continue,
        };
        if (z >> 40) % 8 < direct {
            let r = ctx.lib("server.evaluate", || w.srv.evaluate(&input, info))?;
            ctx.check("late-call-like-the-first");
            if r.as_ref().ok() != Some(&want) {
                return viol("late-call-differs", format!("{}: evaluate gave {:?}", at(), r.map(|x| hx(&x))));
            }
            continue;
        }
        let r = ctx.lib("client.blind", || Cl::<S>::blind(m, &input, &mut rng))?;
        let Ok((cl, be)) = r else { return viol("late-call-differs", format!("{}: blind failed", at())) };
        let Some(b) = cl.blind_scalar() else { return viol("late-call-differs", format!("{}: no blind", at())) };
        if S::be_v(&be) != S::mul(rg::h2g::<S>(m, &input), b) {
            return viol("late-call-differs", format!("{}: the request is not blind * H(input)", at()));
        }
        let batch = m.verifiable() && (z >> 44) % 8 < batches;
        let r = if batch {
            let y = Yv(vec![be.clone(), be.clone()]);
            ctx.lib("server.batch", || w.srv.batch(&mut rng, &y, info))?
        } else {
            ctx.lib("server.blind_evaluate", || w.srv.blind_evaluate(&mut rng, &be, info).map(|(e, p)| (vec![e], p)))?
        };
        let Ok((e, p)) = r else { return viol("late-call-differs", format!("{}: evaluation failed", at())) };
        let cls = vec![cl; e.len()];
        let ins = vec![input.to_vec(); e.len()];
        let r = if batch {
            ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &ins, &cls, &e, p.as_ref(), w.pk, info).and_then(|v| v.into_iter().collect::<Result<Vec<_>, _>>()))?
        } else {
            ctx.lib("client.finalize", || cls[0].finalize(&input, &e[0], p.as_ref(), w.pk, info).map(|o| vec![o]))?
        };
        ctx.check("late-call-like-the-first");
        match &r {
            Ok(o) if o.len() == e.len() && o.iter().all(|o| *o == want) => {}
            r => return viol("late-call-differs", format!("{}: {}", at(), ro(r))),
        }
        if let Some(p) = &p {
            let Some((c, s)) = proof_parts::<S>(p) else { return viol("late-call-differs", format!("{}: proof", at())) };
            let k = if m == Mode::P { rg::tweak::<S>(w.sk, inf).map_err(|_| ()).ok() } else { Some(w.sk) };
            if let Some(k) = k {
                // 61 bits: no two of 66000 coincide by chance
                let n = S::encs(S::sadd(s, S::smul(c, k)));
                if !nonces.insert(n) && wide {
                    ctx.report(&["C09", "C03", "C10", "C14"], "nonce-repeated", at())?;
                }
            }
        }
        if !blinds.insert(S::encs(b)) && wide {
            ctx.report(&["C09", "C11", "C10"], "blind-repeated", at())?;
        }
        if i % 1000 == 0 {
            let d = blinds.len();
            ctx.ev("alive", || format!("{i} {d} {:016x}", crate::tape::fnv(&want)));
        }
    }
    Ok(())
}
