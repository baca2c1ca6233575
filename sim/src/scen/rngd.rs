//! C09: everything random the library produces, under a generator the simulator
//! owns: recorded, replayed, altered byte by byte, scripted with degenerate
//! output, failing in the middle of a call.

use crate::ctx::{catch, hx, viol, Caught, Ctx, R};
use crate::dispatch;
use crate::rg::{self, Mode};
use crate::rng::SimRng;
use crate::scen::degenerate::zero_script;
use crate::scen::util::*;
use crate::suite::*;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = ctx.suite();
    let m = ctx.mode();
    ctx.label = format!("generator {} {m:?}", ctx.label);
    dispatch!(sid, rngd(ctx, m))
}

/// The calls that take a generator.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Blind,
    New,
    Single,
    Batch,
    Finish,
    Scalar,
}

struct Fix<S: Suite> {
    m: Mode,
    sk: S::S,
    srv: Sv<S>,
    info: Option<Vec<u8>>,
    input: Vec<u8>,
    y: Yv<S::BE>,
    prep: Option<(Yv<S::PE>, Option<S::TW>)>,
}

/// What a call with a generator gave: the secret it drew and all its bytes.
struct Got<S: Suite> {
    secret: S::S,
    bytes: Vec<u8>,
}

fn nonce<S: Suite>(f: &Fix<S>, p: &S::PR) -> Result<S::S, String> {
    let (c, s) = proof_parts::<S>(p).ok_or("proof does not decode")?;
    let k = if f.m == Mode::P { rg::tweak::<S>(f.sk, inf(&f.info)).map_err(|e| format!("{e:?}"))? } else { f.sk };
    Ok(S::sadd(s, S::smul(c, k)))
}

/// Runs one call; the secret is recovered with the harness' knowledge of keys.
fn call<S: Suite>(f: &Fix<S>, op: Op, rng: &mut SimRng) -> Result<Got<S>, String> {
    let e = |e: voprf::Error| format!("{e:?}");
    match op {
        Op::Blind => {
            let (c, b) = Cl::<S>::blind(f.m, &f.input, rng).map_err(e)?;
            let mut bytes = c.enc(Codec::Native);
            bytes.extend(b.bytes());
            Ok(Got { secret: c.blind_scalar().ok_or("blind does not decode")?, bytes })
        }
        Op::New => {
            let s = Sv::<S>::new(f.m, rng).map_err(e)?;
            Ok(Got { secret: s.sk().ok_or("key does not decode")?, bytes: s.enc(Codec::Native) })
        }
        Op::Scalar => {
            let s = S::g_rand(rng);
            Ok(Got { secret: s, bytes: S::encs(s) })
        }
        Op::Single | Op::Batch | Op::Finish => {
            let (ees, p) = match op {
                Op::Single => {
                    let (x, p) = f.srv.blind_evaluate(rng, &f.y.0[0], f.info.as_deref()).map_err(e)?;
                    (vec![x], p.unwrap())
                }
                Op::Batch => {
                    let (x, p) = f.srv.batch(rng, &f.y, f.info.as_deref()).map_err(e)?;
                    (x, p.unwrap())
                }
                _ => {
                    let (q, t) = f.prep.as_ref().unwrap();
                    f.srv.finish(rng, &f.y, q, t.as_ref()).map_err(e)?
                }
            };
            let mut bytes = p.enc(Codec::Native);
            for x in &ees {
                bytes.extend(x.bytes());
            }
            Ok(Got { secret: nonce(f, &p)?, bytes })
        }
    }
}

fn go<S: Suite>(ctx: &mut Ctx, f: &Fix<S>, op: Op, rng: &mut SimRng) -> R<Got<S>> {
    let before = rng.log.len();
    let r = ctx.lib(&format!("rng-call.{op:?}"), || call(f, op, rng))?;
    match r {
        Ok(g) => {
            ctx.bytes_ev("call", &format!("{op:?} drew {}", rng.log.len() - before), &g.bytes);
            if g.secret == S::su64(0) {
                return viol("zero-secret", format!("mode {:?} {op:?}: the drawn secret is zero", f.m));
            }
            Ok(g)
        }
        Err(e) => viol("rng-call-failed", format!("mode {:?} {op:?}: {e}", f.m)),
    }
}

fn fixture<S: Suite>(ctx: &mut Ctx, m: Mode, n: usize) -> R<Fix<S>> {
    let w = world::<S>(ctx, m)?;
    let info = if m == Mode::P { ctx.info() } else { None };
    let input = ctx.small_blob();
    let ss = sessions::<S>(ctx, m, n)?;
    let y = bes(&ss);
    let mut f = Fix { m, sk: w.sk, srv: w.srv, info, input, y, prep: None };
    if m.verifiable() {
        f.prep = Some(prep(ctx, &f)?);
    }
    Ok(f)
}

fn prep<S: Suite>(ctx: &mut Ctx, f: &Fix<S>) -> R<(Yv<S::PE>, Option<S::TW>)> {
    let r = ctx.lib("server.prepare", || f.srv.prepare(Box::new(f.y.0.iter()), f.info.as_deref()).map(|(i, t)| (Yv(i.collect::<Vec<_>>()), t)))?;
    match r {
        Ok(x) => Ok(x),
        Err(e) => viol("honest-evaluation-failed", format!("{e:?}")),
    }
}

fn rngd<S: Suite>(ctx: &mut Ctx, m: Mode) -> R {
    let n = *ctx.pick(&[1, 2, 4]);
    let n = some_batch::<S>(ctx, n);
    let f = fixture::<S>(ctx, m, n)?;
    let ops: &[Op] = if m.verifiable() { &[Op::Blind, Op::New, Op::Single, Op::Batch, Op::Finish, Op::Scalar] } else { &[Op::Blind, Op::New, Op::Scalar] };
    let steps = 3 + ctx.below(6);
    for _ in 0..steps {
        let op = *ctx.pick(ops);
        match ctx.draw(11) {
            9 | 10 => one_rule(ctx, &f, op)?,
            0 => replay(ctx, &f, op)?,
            1 | 2 => influence(ctx, &f, op)?,
            3 => fresh(ctx, &f, ops)?,
            4 => degenerate(ctx, &f, op)?,
            5 => failing(ctx, &f, op)?,
            6 => only_from_generator(ctx, &f, op)?,
            7 if ctx.chance(1, 6) => bits(ctx, &f, op)?,
            _ => replay(ctx, &f, op)?,
        }
    }
    Ok(())
}

/// Same generator output, same arguments: same bytes, whatever happened between.
fn replay<S: Suite>(ctx: &mut Ctx, f: &Fix<S>, op: Op) -> R {
    let seed = ctx.seed();
    let mut a = SimRng::new(seed);
    let x = go(ctx, f, op, &mut a)?;
    if ctx.chance(1, 2) {
        // an unrelated call with an unrelated generator in between
        let s = ctx.seed();
        let ops = if f.m.verifiable() { [Op::Blind, Op::Single, Op::New] } else { [Op::Blind, Op::New, Op::Scalar] };
        let o2 = *ctx.pick(&ops);
        go(ctx, f, o2, &mut SimRng::new(s))?;
    }
    // the generator replays the recording
    let mut b = SimRng::scripted(&a.log, seed ^ 1);
    let y = go(ctx, f, op, &mut b)?;
    ctx.check("same-generator-same-bytes");
    if x.secret != y.secret || x.bytes != y.bytes {
        return viol("not-a-function-of-generator", format!("mode {:?} {op:?}: the same generator output gives {} then {}", f.m, hx(&x.bytes), hx(&y.bytes)));
    }
    ctx.check("generator-was-used");
    if a.log.len() < S::NS {
        return viol("too-little-randomness", format!("mode {:?} {op:?}: only {} bytes drawn for a {}-byte secret", f.m, a.log.len(), S::NS));
    }
    Ok(())
}

/// Every byte of the generator's output influences the secret.
fn influence<S: Suite>(ctx: &mut Ctx, f: &Fix<S>, op: Op) -> R {
    let seed = ctx.seed();
    let mut a = SimRng::new(seed);
    let x = go(ctx, f, op, &mut a)?;
    let tries = if S::NAME == "toy" { 8 } else { 2 };
    for _ in 0..tries {
        if a.log.is_empty() {
            return viol("too-little-randomness", format!("mode {:?} {op:?}: nothing drawn", f.m));
        }
        // the draw that was accepted, not those a rejection sampler discarded
        let width = (if S::SCALAR_LE && op != Op::New { 64 } else { S::NS }).min(a.log.len());
        let i = a.log.len() - width + ctx.below(width);
        let first = ctx.below(8);
        let mut moved = false;
        for k in 0..8 {
            let mut s = a.log.clone();
            s[i] ^= 1 << ((first + k) % 8);
            let mut b = SimRng::scripted(&s, seed ^ 5);
            let y = go(ctx, f, op, &mut b)?;
            if y.secret != x.secret {
                moved = true;
                break;
            }
        }
        ctx.fault("generator-byte-altered");
        ctx.check("every-byte-influences");
        if !moved {
            return viol("generator-byte-ignored", format!("mode {:?} {op:?}: byte {i} of {} drawn does not influence the secret", f.m, a.log.len()));
        }
    }
    Ok(())
}

/// The secret plain sampling gives for what the generator yielded.
fn sampled<S: Suite>(f: &Fix<S>, op: Op, log: &[u8], seed: u64) -> Option<S::S> {
    if op == Op::New {
        return log.get(log.len().checked_sub(S::NS)?..).and_then(|x| rg::derive::<S>(f.m, x, b""));
    }
    if S::NAME == "toy" {
        return Some(S::g_rand(&mut SimRng::scripted(log, seed)));
    }
    if S::SCALAR_LE {
        let wide = log.get(log.len().checked_sub(64)?..)?;
        let k = S::su64(256);
        return Some(wide.iter().rev().fold(S::su64(0), |a, b| S::sadd(S::smul(a, k), S::su64(*b as u64))));
    }
    log.get(log.len().checked_sub(S::NS)?..).and_then(|x| S::decs(x))
}

/// One rule leads from generator output to secret. Where ordinary output is
/// sampled plainly, so is output that looks odd but is in range: leading or
/// trailing zeros, small values, values next to the order.
fn one_rule<S: Suite>(ctx: &mut Ctx, f: &Fix<S>, op: Op) -> R {
    let seed = ctx.seed();
    let mut a = SimRng::new(seed);
    let x = go(ctx, f, op, &mut a)?;
    let plain = sampled(f, op, &a.log, seed) == Some(x.secret);
    ctx.probe(if plain { "plain-sampling" } else { "other-sampling" });
    let k = 1 + ctx.below(3);
    for _ in 0..k {
        let s = if ctx.chance(3, 4) { shaped::<S>(ctx) } else { ctx.scalar::<S>() };
        let mut b = S::encs(s);
        if S::SCALAR_LE && op != Op::New && S::NAME != "toy" {
            match ctx.draw(3) {
                0 => b.resize(64, 0),
                1 => b.extend(ctx.bytes(32)),
                _ => {
                    let mut lead = vec![0; 32];
                    lead.extend(b);
                    b = lead;
                }
            }
        }
        ctx.fault("odd-generator-output");
        let mut r = SimRng::scripted(&b, seed ^ 0x77);
        let y = go(ctx, f, op, &mut r)?;
        ctx.check("one-sampling-rule");
        if plain && sampled(f, op, &r.log, seed ^ 0x77) != Some(y.secret) {
            return viol(
                "generator-output-special-cased",
                format!("mode {:?} {op:?}: the generator yielded {} in all, which ordinary sampling does not turn into the secret {}", f.m, hx(&r.log), hx(&S::encs(y.secret))),
            );
        }
        // what is wrong for these values may be a fixed replacement
        let mut c = SimRng::scripted(&b, seed ^ 0x78);
        let z = go(ctx, f, op, &mut c)?;
        if (z.secret == y.secret) != (c.log == r.log) {
            return viol("not-a-function-of-generator", format!("mode {:?} {op:?}: generator output {} and {}, secrets {} and {}", f.m, hx(&r.log), hx(&c.log), hx(&S::encs(y.secret)), hx(&S::encs(z.secret))));
        }
    }
    Ok(())
}

/// Across many calls sharing one generator, or with generators of their own,
/// nothing repeats and every call draws.
fn fresh<S: Suite>(ctx: &mut Ctx, f: &Fix<S>, ops: &[Op]) -> R {
    let seed = ctx.seed();
    let mut rng = SimRng::new(seed);
    let n = if S::NAME == "toy" { 30 } else { 8 };
    let mut seen: Vec<(Op, Vec<u8>)> = Vec::new();
    let one = *ctx.pick(ops);
    let mixed = ctx.chance(1, 2);
    for _ in 0..n {
        let op = if mixed { *ctx.pick(ops) } else { one };
        let had = rng.log.len();
        let g = if ctx.chance(1, 4) {
            let s = ctx.seed();
            go(ctx, f, op, &mut SimRng::new(s ^ 0xabc))?
        } else {
            let g = go(ctx, f, op, &mut rng)?;
            if rng.log.len() == had {
                return viol("stale-randomness", format!("mode {:?} {op:?}: a call drew nothing from its generator", f.m));
            }
            g
        };
        let b = S::encs(g.secret);
        ctx.check("fresh-secret");
        if let Some((o, _)) = seen.iter().find(|(_, x)| *x == b) {
            return viol("secret-repeated", format!("mode {:?}: {op:?} drew the secret an earlier {o:?} drew", f.m));
        }
        seen.push((op, b));
    }
    ctx.probe("many-fresh-secrets");
    Ok(())
}

/// Degenerate output first; then two different continuations.
fn degenerate<S: Suite>(ctx: &mut Ctx, f: &Fix<S>, op: Op) -> R {
    if op == Op::New {
        return Ok(());
    }
    let n = 1 + ctx.below(5);
    let mut script = zero_script::<S>(ctx, n);
    if !S::SCALAR_LE && ctx.chance(1, 2) {
        // out of range in rejection sampling
        let k = ctx.below(n);
        for b in &mut script[k * S::NS..(k + 1) * S::NS] {
            *b = 0xff;
        }
        if S::NAME == "P521" || S::NAME == "toy" {
            // the sampler masks the top bits: keep it just out of range
            let o = S::order_be();
            if S::NAME == "P521" {
                script[k * S::NS..(k + 1) * S::NS].copy_from_slice(&o);
            } else {
                let v = crate::toy::q();
                script[k * 8..k * 8 + 8].copy_from_slice(&v.to_le_bytes());
            }
        }
    }
    ctx.fault("degenerate-generator-output");
    let s1 = ctx.seed();
    let mut a = SimRng::scripted(&script, s1);
    let mut b = SimRng::scripted(&script, s1 ^ 0x1111);
    let x = go(ctx, f, op, &mut a)?;
    let y = go(ctx, f, op, &mut b)?;
    ctx.check("degenerate-output-redrawn");
    if x.secret == y.secret {
        return viol(
            "constant-secret",
            format!("mode {:?} {op:?}: after {n} degenerate draws the secret is {} whatever the generator yields next", f.m, hx(&S::encs(x.secret))),
        );
    }
    Ok(())
}

/// The generator fails in the middle of a call.
fn failing<S: Suite>(ctx: &mut Ctx, f: &Fix<S>, op: Op) -> R {
    let seed = ctx.seed();
    let x = go(ctx, f, op, &mut SimRng::new(seed))?;
    if ctx.chance(1, 2) {
        let mut bad = SimRng::new(seed ^ 9);
        bad.panic_at = Some(0);
        ctx.fault("generator-panics");
        match catch(|| call(f, op, &mut bad)) {
            Caught::Injected(_) => {}
            Caught::Panic(m) => return viol(format!("panic:{op:?}"), m),
            Caught::Ok(Ok(g)) => {
                return viol("stale-randomness", format!("mode {:?} {op:?}: succeeded although the generator failed: {}", f.m, hx(&g.bytes)));
            }
            // an error is a fine answer to a failing generator
            Caught::Ok(Err(_)) => {}
        }
        ctx.probe("call-died-in-generator");
    } else {
        // only the fallible interface fails
        ctx.fault("generator-try-interface-fails");
        let mut out = Vec::new();
        for d in [11, 12] {
            let mut r = SimRng::new(seed ^ d);
            r.try_fails = true;
            match catch(|| call(f, op, &mut r)) {
                Caught::Ok(Ok(g)) => out.push(g.secret),
                Caught::Panic(_) | Caught::Injected(_) | Caught::Ok(Err(_)) => {}
            }
        }
        ctx.check("failure-not-constant");
        if out.len() == 2 && (out[0] == out[1] || out[0] == S::su64(0)) {
            return viol("constant-secret", format!("mode {:?} {op:?}: a failing generator leads to the constant secret {}", f.m, hx(&S::encs(out[0]))));
        }
    }
    // afterwards everything is as if it had not happened
    let y = go(ctx, f, op, &mut SimRng::new(seed))?;
    ctx.check("unaffected-by-failed-generator");
    if x.secret != y.secret || x.bytes != y.bytes {
        return viol("stale-randomness", format!("mode {:?} {op:?}: result changed after another call's generator failed", f.m));
    }
    Ok(())
}

/// The secret depends on nothing but the generator: other inputs, keys, infos
/// and batches with the same generator output draw the same secret.
fn only_from_generator<S: Suite>(ctx: &mut Ctx, f: &Fix<S>, op: Op) -> R {
    let n = *ctx.pick(&[1, 3]);
    let n = some_batch::<S>(ctx, n);
    let g = fixture::<S>(ctx, f.m, n)?;
    let seed = ctx.seed();
    let x = go(ctx, f, op, &mut SimRng::new(seed))?;
    let y = go(ctx, &g, op, &mut SimRng::new(seed))?;
    ctx.check("secret-only-from-generator");
    if x.secret != y.secret {
        return viol("secret-depends-on-arguments", format!("mode {:?} {op:?}: same generator output, different secret for other arguments", f.m));
    }
    if op != Op::New && op != Op::Scalar && x.bytes == y.bytes && f.y.0.len() == g.y.0.len() && f.input != g.input {
        return viol("arguments-ignored", format!("mode {:?} {op:?}: same bytes for other arguments", f.m));
    }
    Ok(())
}

/// Over many draws, every bit of the secret takes both values.
fn bits<S: Suite>(ctx: &mut Ctx, f: &Fix<S>, op: Op) -> R {
    let seed = ctx.seed();
    let mut rng = SimRng::new(seed);
    let mut ones = vec![0u8; S::NS];
    let mut zeros = vec![0u8; S::NS];
    for _ in 0..90 {
        let g = go(ctx, f, op, &mut rng)?;
        let mut b = S::encs(g.secret);
        if S::SCALAR_LE {
            b.reverse();
        }
        for i in 0..S::NS {
            ones[i] |= b[i];
            zeros[i] |= !b[i];
        }
    }
    let o = S::order_be();
    let lead = o.iter().position(|x| *x != 0).unwrap();
    let nbits = (S::NS - lead) * 8 - o[lead].leading_zeros() as usize;
    ctx.check("all-bits-vary");
    // bit 0 = least significant; the top bit may be nearly constant
    for k in 0..nbits - 1 {
        let (i, j) = (S::NS - 1 - k / 8, k % 8);
        if ones[i] >> j & 1 == 0 || zeros[i] >> j & 1 == 0 {
            return viol("constant-bits", format!("mode {:?} {op:?}: bit {k} of the secret is the same in 90 draws", f.m));
        }
    }
    ctx.probe("bit-variation-measured");
    Ok(())
}
