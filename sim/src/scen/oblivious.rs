//! C11: what a client sends and keeps. Histories of requests with generators
//! the simulator owns: equal, scripted, shared, restarted; every observable
//! byte is compared with "blind * H(input), blind chosen without the input".

use std::collections::BTreeSet;

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{self, Mode, RToy, MODES, RG};
use crate::rng::SimRng;
use crate::scen::util::*;
use crate::suite::*;
use crate::toy;

pub fn run(ctx: &mut Ctx) -> R {
    match ctx.draw(8) {
        0..=4 => {
            let sid = ctx.suite();
            let m = ctx.mode();
            ctx.label = format!("requests {} {m:?}", ctx.label);
            dispatch!(sid, history(ctx, m))
        }
        5 => {
            let sid = *ctx.pick(&[Sid::Toy, Sid::Ristretto, Sid::P256, Sid::P384, Sid::RistrettoB]);
            let m = ctx.mode();
            ctx.label = format!("spread {sid:?} {m:?}");
            dispatch!(sid, spread(ctx, m))
        }
        _ => {
            let q = *ctx.pick(&[13, 5, 7, 11, 31, 101]);
            toy::set_q(q);
            ctx.label = format!("every blind, toy q={q}");
            exhaustive(ctx)
        }
    }
}

struct Req<S: Suite> {
    input: Vec<u8>,
    cl: Cl<S>,
    be: S::BE,
    blind: S::S,
    /// identifies the generator state the request was made from
    at: (u64, usize),
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}

/// The input, or a recognisable half of it, inside what is sent or kept.
fn leak(ctx: &mut Ctx, m: Mode, what: &str, hay: &[u8], input: &[u8]) -> R {
    if input.len() < 16 {
        return Ok(());
    }
    ctx.check("no-input-bytes");
    // arrays of numbers in JSON hide raw bytes: look at those digits as well
    let parts = [&input[..8], &input[input.len() - 8..], &input[input.len() / 2 - 4..input.len() / 2 + 4]];
    for p in parts {
        let json: Vec<String> = p.iter().map(|b| b.to_string()).collect();
        let bad = contains(hay, p)
            || contains(hay, json.join(",").as_bytes())
            || contains(hay, hex::encode(p).as_bytes())
            || contains(hay, hex::encode_upper(p).as_bytes());
        if bad && p.iter().collect::<BTreeSet<_>>().len() > 5 {
            return viol("input-in-the-clear", format!("mode {m:?}: {what} contains bytes {} of the private input", hx(p)));
        }
    }
    Ok(())
}

fn request<S: Suite>(ctx: &mut Ctx, m: Mode, input: &[u8], rng: &mut SimRng, id: u64) -> R<Req<S>> {
    let at = (id, rng.log.len());
    let ncalls = rng.calls.len();
    let r = ctx.lib("client.blind", || Cl::<S>::blind(m, input, rng))?;
    let (cl, be) = match r {
        Ok(x) => x,
        Err(e) => return viol("blind-failed", format!("mode {m:?}: blind of {} bytes failed: {e:?}", input.len())),
    };
    let Some(blind) = cl.blind_scalar() else { return viol("blind-undecodable", "client state holds an invalid blind") };
    let want = S::mul(rg::h2g::<S>(m, input), blind);
    ctx.check("request-is-blind-times-hash");
    ctx.bytes_ev("request", &format!("{m:?} gen {id} at {} calls {}", at.1, rng.calls.len() - ncalls), &be.bytes());
    if S::be_v(&be) != want {
        return viol("request-not-blinded-hash", format!("mode {m:?}: request for {} is not blind * H(input)", hx(input)));
    }
    // all of what is sent: exactly the element; all of what is kept: the blind
    // and, where the proof needs it, the element
    ctx.check("request-bytes");
    let sent = be.enc(Codec::Native);
    if sent != S::enc(want) {
        return viol("request-bytes", format!("mode {m:?}: request bytes {} are not the encoding of the blinded element", hx(&sent)));
    }
    let mut kept = S::encs(blind);
    if m != Mode::O {
        kept.extend(S::enc(want));
    }
    if cl.enc(Codec::Native) != kept {
        return viol("state-bytes", format!("mode {m:?}: client state is {}, expected blind[, request] only", hx(&cl.enc(Codec::Native))));
    }
    for c in CODECS {
        leak(ctx, m, "the request", &be.enc(c), input)?;
        leak(ctx, m, "the stored client state", &cl.enc(c), input)?;
    }
    leak(ctx, m, "the request object", &be.raw(), input)?;
    leak(ctx, m, "the client object in memory", &cl.raw(), input)?;
    Ok(Req { input: input.to_vec(), cl, be, blind, at })
}

/// A history of requests from a pool of generators: fresh ones, ones shared
/// with other calls, ones restarted from an earlier state (a VM snapshot).
fn history<S: Suite>(ctx: &mut Ctx, m: Mode) -> R {
    let w = world::<S>(ctx, m)?;
    let info = if m == Mode::P { ctx.info() } else { None };
    let a = if ctx.chance(1, 4) { ctx.blob(65535) } else { ctx.bytes(24) };
    let b = if ctx.chance(1, 4) { ctx.blob(65535) } else { ctx.bytes(24) };
    let mut near = a.clone();
    if let Some(x) = near.last_mut() {
        *x ^= 1;
    }
    let pool = [a, b, near, ctx.small_blob(), ctx.bytes(200)];
    let mut gens: Vec<(u64, SimRng, u64)> = Vec::new();
    let mut next = 0u64;
    let fresh = |ctx: &mut Ctx, next: &mut u64, gens: &mut Vec<(u64, SimRng, u64)>| {
        let s = ctx.seed();
        *next += 1;
        gens.push((*next, generator_from::<S>(mixs(s, *next)), mixs(s, *next)));
    };
    fresh(ctx, &mut next, &mut gens);
    let mut reqs: Vec<Req<S>> = Vec::new();
    let steps = 3 + ctx.below(8);
    for _ in 0..steps {
        let input = ctx.pick(&pool).clone();
        match ctx.draw(8) {
            0 | 1 => {
                // the same generator state for two different inputs
                let other = ctx.pick(&pool).clone();
                let s = ctx.seed();
                let (mut r1, mut r2) = (generator_from::<S>(s), generator_from::<S>(s));
                ctx.fault("generator-cloned");
                next += 1;
                let x = request::<S>(ctx, m, &input, &mut r1, next)?;
                next += 1;
                let y = request::<S>(ctx, m, &other, &mut r2, next)?;
                ctx.check("blind-independent-of-input");
                if x.blind != y.blind || r1.log != r2.log {
                    return viol("blind-depends-on-input", format!("mode {m:?}: the same generator gave different blinds or was read differently ({} and {} bytes) for inputs {} and {}", r1.log.len(), r2.log.len(), hx(&input), hx(&other)));
                }
                // each request explains each input: some blind leads from it
                // to the other request (constructed, not searched)
                if input != other {
                    ctx.probe("cloned-generator-distinct-inputs");
                    if x.be.bytes() == y.be.bytes() {
                        return viol("requests-collide", "two inputs, one blind, one request");
                    }
                }
                // the other modes' blinds do not depend on the input either
                let m2 = *ctx.pick(&MODES);
                let mut r3 = generator_from::<S>(s);
                next += 1;
                let z = request::<S>(ctx, m2, &input, &mut r3, next)?;
                if m2 == m && z.be.bytes() != x.be.bytes() {
                    return viol("blind-history", format!("mode {m:?}: the same input and generator gave a different request the second time"));
                }
            }
            2 => fresh(ctx, &mut next, &mut gens),
            3 => {
                // other calls consume the generator in between
                let k = ctx.below(gens.len());
                if let Some(last) = reqs.last() {
                    let be = last.be.clone();
                    let g = &mut gens[k].1;
                    let r = ctx.lib("server.blind_evaluate", || w.srv.blind_evaluate(g, &be, info.as_deref()))?;
                    if let Err(e) = r {
                        return viol("honest-evaluation-failed", format!("{e:?}"));
                    }
                    ctx.probe("generator-shared-with-server");
                }
            }
            4 => {
                // retry: the client asks again for an input it asked for before
                let k = ctx.below(gens.len());
                let input = match reqs.last() {
                    Some(r) => r.input.clone(),
                    None => input,
                };
                ctx.fault("retry-same-input");
                let (id, g, _) = &mut gens[k];
                let id = *id;
                let r = request::<S>(ctx, m, &input, g, id)?;
                reqs.push(r);
            }
            5 => {
                // snapshots and clones of the client state carry the same blind
                if let Some(r) = reqs.last() {
                    let c = ctx.codec();
                    let e = r.cl.enc(c);
                    let d = ctx.lib("client.restore", || Cl::<S>::dec(m, &e, c))?;
                    let Ok(d) = d else { return viol("restore-failed", "client state does not restore") };
                    ctx.fault("client-restart");
                    if d.enc(Codec::Native) != r.cl.enc(Codec::Native) || r.cl.clone().enc(Codec::Native) != r.cl.enc(Codec::Native) {
                        return viol("state-bytes", "restored or cloned state differs");
                    }
                    leak(ctx, m, "the restored client object in memory", &d.raw(), &r.input.clone())?;
                }
            }
            _ => {
                let k = ctx.below(gens.len());
                let (id, g, _) = &mut gens[k];
                let id = *id;
                let r = request::<S>(ctx, m, &input, g, id)?;
                reqs.push(r);
            }
        }
    }
    // unlinkability by equality over the whole history
    let mut seen: BTreeSet<Vec<u8>> = BTreeSet::new();
    let mut blinds: BTreeSet<Vec<u8>> = BTreeSet::new();
    for r in &reqs {
        ctx.check("requests-never-repeat");
        let fb = S::encs(r.blind);
        if !seen.insert(r.be.bytes()) {
            return viol("request-repeated", format!("mode {m:?}: two requests of one history are equal (generator {:?}, input {})", r.at, hx(&r.input)));
        }
        if !blinds.insert(fb) {
            return viol("blind-reused", format!("mode {m:?}: two requests of one history used one blind (generator {:?})", r.at));
        }
    }
    Ok(())
}

fn mixs(a: u64, b: u64) -> u64 {
    crate::tape::mix(a, b)
}

/// Blinds of many requests: no bit of them is fixed or strongly biased. The
/// thresholds are 8 standard deviations away; the order of every group is
/// close enough below a power of two, or the top byte is left out.
fn spread<S: Suite>(ctx: &mut Ctx, m: Mode) -> R {
    let n = 256usize;
    let seed = ctx.seed();
    let mut rng = SimRng::new(seed);
    let input = ctx.bytes(16);
    let mut cnt = vec![0usize; S::NS * 8];
    let mut shared = 0usize;
    let mut prev: Option<Vec<u8>> = None;
    for _ in 0..n {
        let r = ctx.lib("client.blind", || Cl::<S>::blind(m, &input, &mut rng))?;
        let Ok((cl, _)) = r else { return viol("blind-failed", "blind failed") };
        let Some(b) = cl.blind_scalar() else { return viol("blind-undecodable", "client state holds an invalid blind") };
        let mut e = S::encs(b);
        if S::SCALAR_LE {
            e.reverse();
        }
        for (i, c) in cnt.iter_mut().enumerate() {
            *c += usize::from(e[i / 8] >> (7 - i % 8) & 1);
        }
        if prev.as_ref() == Some(&e) {
            shared += 1;
        }
        prev = Some(e);
    }
    ctx.check("blind-bits-spread");
    let order = S::order_be();
    // the bits below the order's leading one
    let lead = order.iter().enumerate().find(|(_, b)| **b != 0).map(|(i, b)| i * 8 + b.leading_zeros() as usize).unwrap();
    // an order just above a power of two (ristretto255) leaves its leading bit 0
    let tight = order[lead / 8 + 1] == 0;
    let first = if tight { lead + 1 } else { lead };
    for (i, c) in cnt.iter().enumerate().skip(first) {
        if *c < n / 4 || *c > 3 * n / 4 {
            return viol("blind-biased", format!("mode {m:?}: bit {i} of the blind (from the top) was set in {c} of {n} requests"));
        }
    }
    if shared > 0 {
        return viol("blind-reused", format!("mode {m:?}: consecutive requests used the same blind"));
    }
    Ok(())
}

type T = RToy;

/// Small groups: for every input, the map from blinds to requests is a
/// bijection onto the non-zero elements, so a request excludes no input.
fn exhaustive(ctx: &mut Ctx) -> R {
    let m = *ctx.pick(&MODES);
    let q = toy::q();
    let mut inputs: Vec<Vec<u8>> = (0..3u8).map(|i| vec![i; 1 + i as usize]).collect();
    inputs.push(ctx.blob(65535));
    inputs.push(ctx.bytes(9));
    for input in &inputs {
        if rg::h2g::<T>(m, input) == T::ident() {
            continue;
        }
        let mut got = BTreeSet::new();
        for s in 1..q {
            // a scalar below a power of two: the generator's first word is it
            let mut rng = SimRng::scripted(&s.to_le_bytes(), 1);
            let r = ctx.lib("client.blind", || Cl::<T>::blind(m, input, &mut rng))?;
            let Ok((cl, be)) = r else { return viol("blind-failed", format!("mode {m:?} q={q}: blind of {} failed", hx(input))) };
            if cl.blind_scalar().map(|x| x.0) != Some(s) {
                return viol("blind-not-as-drawn", format!("mode {m:?} q={q}: generator gave scalar {s}, state holds {:?}", cl.blind_scalar()));
            }
            got.insert(T::be_v(&be).0);
        }
        ctx.check("every-request-fits-every-input");
        ctx.ev("exhausted", || format!("{m:?} q={q} input {}", hx(input)));
        if got.len() as u64 != q - 1 || got.contains(&0) {
            return viol("requests-exclude-inputs", format!("mode {m:?} q={q}: the {} blinds give only {} different requests for input {}", q - 1, got.len(), hx(input)));
        }
    }
    Ok(())
}
