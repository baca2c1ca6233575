//! C20: the `Group` interface itself, as higher protocols use it. Nodes hold
//! registers of scalars and elements and work on them by seed: drawing,
//! hashing inputs that arrive in pieces, sums, differences, products,
//! inverses; registers are stored, crash with their node, come back from their
//! encodings, and arrive corrupted. A twin keeps the same registers with the
//! reference; after every step the two must agree.

use crate::ctx::{hx, viol, Ctx, R};
use crate::rg::RG;
use crate::scen::util::*;
use crate::suite::*;
use crate::{dispatch, ensure};

pub fn run(ctx: &mut Ctx) -> R {
    let sid = *ctx.pick(&[Sid::Ristretto, Sid::P256, Sid::P384, Sid::P521, Sid::RistrettoB, Sid::P256B]);
    ctx.label = format!("{sid:?}").to_lowercase();
    dispatch!(sid, machine(ctx))
}

struct M<S: Suite> {
    s: Vec<S::S>,
    e: Vec<S::E>,
}

fn machine<S: Suite>(ctx: &mut Ctx) -> R {
    let b = ctx.lib("base_elem", S::g_base)?;
    let i = ctx.lib("identity_elem", S::g_ident)?;
    ctx.check("constants");
    ensure!(b == S::base() && i == S::ident(), "wrong-constant", "{}: base or identity element is not the group's", S::NAME);
    let mut m = M::<S> { s: vec![S::su64(1)], e: vec![b, i] };
    let n = 4 + ctx.below(12);
    for _ in 0..n {
        step(ctx, &mut m)?;
    }
    // everything still there is stored, the node crashes, and comes back
    ctx.fault("crash-restart");
    for s in m.s.clone() {
        scalar::<S>(ctx, s)?;
    }
    for e in m.e.clone() {
        element::<S>(ctx, e)?;
    }
    Ok(())
}

/// What the interface says about one scalar.
fn scalar<S: Suite>(ctx: &mut Ctx, s: S::S) -> R {
    let want = S::encs(s);
    let zero = want.iter().all(|b| *b == 0);
    let got = ctx.lib("serialize_scalar", || S::g_encs(s))?;
    ctx.check("scalar-encoding");
    ensure!(got == want, "encoding", "{} scalar {} encoded as {}", S::NAME, hx(&want), hx(&got));
    let z = ctx.lib("is_zero_scalar", || S::g_zero(s))?;
    ctx.check("zero-test");
    ensure!(z == zero, "zero-test", "{}: is_zero_scalar({}) = {z}", S::NAME, hx(&want));
    let back = ctx.lib("deserialize_scalar", || S::g_decs(&got))?;
    ctx.check("scalar-decoding");
    if zero {
        ctx.probe("zero-scalar");
        ensure!(matches!(back, Err(voprf::Error::Deserialization)), "zero-decoded", "{}: the zero scalar was decoded", S::NAME);
        return Ok(());
    }
    match back {
        Ok(x) if x == s => {}
        Ok(x) => return viol("decoding", format!("{} scalar {} came back as {}", S::NAME, hx(&want), hx(&S::encs(x)))),
        Err(e) => return viol("decoding", format!("{} scalar {} refused: {e:?}", S::NAME, hx(&want))),
    }
    let inv = ctx.lib("invert_scalar", || S::g_inv(s))?;
    ctx.check("inverse");
    ensure!(
        S::smul(inv, s) == S::su64(1) && inv == S::sinv(s),
        "inverse",
        "{}: invert_scalar({}) = {}",
        S::NAME,
        hx(&want),
        hx(&S::encs(inv))
    );
    Ok(())
}

fn element<S: Suite>(ctx: &mut Ctx, e: S::E) -> R {
    let ident = e == S::ident();
    let z = ctx.lib("is_identity_elem", || S::g_is_ident(e))?;
    ctx.check("identity-test");
    ensure!(z == ident, "identity-test", "{}: is_identity_elem = {z} for {}", S::NAME, if ident { "the identity".into() } else { hx(&S::enc(e)) });
    let got = ctx.lib("serialize_elem", || S::g_enc(e))?;
    ensure!(got.len() == S::NE, "encoding", "{}: an encoding of {} bytes", S::NAME, got.len());
    let back = ctx.lib("deserialize_elem", || S::g_dec(&got))?;
    ctx.check("element-decoding");
    if ident {
        ctx.probe("identity-element");
        ensure!(matches!(back, Err(voprf::Error::Deserialization)), "identity-decoded", "{}: the identity was decoded", S::NAME);
        return Ok(());
    }
    let want = S::enc(e);
    ensure!(got == want, "encoding", "{} element {} encoded as {}", S::NAME, hx(&want), hx(&got));
    match back {
        Ok(x) if x == e => Ok(()),
        Ok(x) => viol("decoding", format!("{} element {} came back as {}", S::NAME, hx(&want), hx(&S::enc(x)))),
        Err(x) => viol("decoding", format!("{} element {} refused: {x:?}", S::NAME, hx(&want))),
    }
}

/// Splits bytes into pieces as they might arrive.
fn pieces<'a>(ctx: &mut Ctx, b: &'a [u8]) -> Vec<&'a [u8]> {
    let mut v = vec![];
    let mut at = 0;
    for _ in 0..ctx.below(6) {
        let n = match ctx.draw(4) {
            0 => 0,
            1 => (b.len() - at).min(1),
            _ => ctx.below(b.len() - at + 1),
        };
        v.push(&b[at..at + n]);
        at += n;
    }
    v.push(&b[at..]);
    if ctx.chance(1, 4) {
        v.push(&[]);
    }
    v
}

fn step<S: Suite>(ctx: &mut Ctx, m: &mut M<S>) -> R {
    let pick_s = |ctx: &mut Ctx, m: &M<S>| m.s[ctx.below(m.s.len())];
    let pick_e = |ctx: &mut Ctx, m: &M<S>| m.e[ctx.below(m.e.len())];
    match ctx.draw(12) {
        0 | 1 => {
            let seed = ctx.seed();
            let mut r = generator_from::<S>(seed);
            let s = ctx.lib("random_scalar", || S::g_rand(&mut r))?;
            let mut r = generator_from::<S>(seed);
            let t = ctx.lib("random_scalar", || S::g_rand(&mut r))?;
            ctx.check("random-scalar");
            ensure!(s == t, "random-scalar", "{}: equal generators gave {} and {}", S::NAME, hx(&S::encs(s)), hx(&S::encs(t)));
            ensure!(S::decs(&S::encs(s)).is_some(), "random-scalar", "{}: random_scalar gave {}", S::NAME, hx(&S::encs(s)));
            ctx.bytes_ev("scalar", "random", &S::encs(s));
            m.s.push(s);
        }
        2 | 3 => {
            let (msg, n) = (ctx.blob(65535), ctx.draw(8));
            let mut dst = if n == 7 { ctx.blob(1000) } else { ctx.small_blob() };
            if dst.is_empty() {
                dst.push(0);
            }
            let (p, d) = (pieces(ctx, &msg), pieces(ctx, &dst));
            let text = format!("{} bytes in {} pieces, tag of {} bytes in {} pieces", msg.len(), p.len(), dst.len(), d.len());
            let e = ctx.lib("hash_to_curve", || S::g_h2c(&p, &d))?;
            let s = ctx.lib("hash_to_scalar", || S::g_h2s(&p, &d))?;
            ctx.check("hash-of-pieces");
            match (e, s) {
                (Ok(e), Ok(s)) if e == S::h2c(&msg, &dst) && s == S::h2s(&msg, &dst) => {
                    ctx.bytes_ev("hashed", "element", &S::enc(e));
                    m.e.push(e);
                    m.s.push(s);
                }
                (Ok(e), Ok(s)) => return viol("hash", format!("{}: {text}: hashed to {} and {}, RFC 9380 gives {} and {}", S::NAME, hx(&S::enc(e)), hx(&S::encs(s)), hx(&S::enc(S::h2c(&msg, &dst))), hx(&S::encs(S::h2s(&msg, &dst))))),
                (e, s) => return viol("hash", format!("{}: {text}: refused: {:?} {:?}", S::NAME, e.err(), s.err())),
            }
        }
        4 => {
            let s = shaped::<S>(ctx);
            m.s.push(s);
        }
        5 => {
            let (a, b) = (pick_s(ctx, m), pick_s(ctx, m));
            let x = match ctx.draw(3) {
                0 => S::sadd(a, b),
                1 => S::ssub(a, b),
                _ => S::smul(a, b),
            };
            m.s.push(x);
        }
        6 => {
            let a = pick_s(ctx, m);
            if S::encs(a).iter().any(|b| *b != 0) {
                let x = ctx.lib("invert_scalar", || S::g_inv(a))?;
                // a sum with its negation, so that zero is met
                let z = S::sadd(x, neg::<S>(x));
                m.s.extend([x, z]);
            }
        }
        7 => {
            let (a, b) = (pick_e(ctx, m), pick_s(ctx, m));
            m.e.push(S::mul(a, b));
        }
        8 => {
            let (a, b) = (pick_e(ctx, m), pick_e(ctx, m));
            let x = S::add(a, b);
            m.e.push(x);
            if ctx.chance(1, 4) {
                // the same element with another history of additions
                m.e.push(S::add(S::mul(x, neg::<S>(S::su64(1))), x));
                m.e.push(S::add(S::add(x, b), S::mul(b, neg::<S>(S::su64(1)))));
                // and what came back from its encoding, against the original
                if x != S::ident() {
                    if let Ok(y) = ctx.lib("deserialize_elem", || S::g_dec(&S::g_enc(x)))? {
                        let d = S::add(y, S::mul(x, neg::<S>(S::su64(1))));
                        m.e.extend([S::add(y, b), d]);
                    }
                }
            }
        }
        9 => {
            // blinding and unblinding through inverses leads back
            let (e, s) = (pick_e(ctx, m), pick_s(ctx, m));
            if S::encs(s).iter().any(|b| *b != 0) {
                let i = ctx.lib("invert_scalar", || S::g_inv(s))?;
                ctx.check("unblinding");
                ensure!(S::mul(S::mul(e, s), i) == e, "inverse", "{}: multiplying by {} and its inverse does not lead back", S::NAME, hx(&S::encs(s)));
            }
        }
        10 => {
            // corrupted on the way
            let (mut b, strict): (Vec<u8>, bool) = if ctx.chance(1, 2) { (S::encs(pick_s(ctx, m)), true) } else { (S::g_enc(pick_e(ctx, m)), false) };
            ctx.fault("corrupted-bytes");
            match ctx.draw(5) {
                0 => {
                    let (i, k) = (ctx.below(b.len()), ctx.draw(8));
                    b[i] ^= 1 << k;
                }
                1 => {
                    let n = ctx.below(b.len());
                    b.truncate(n);
                }
                2 => {
                    let n = 1 + ctx.below(70);
                    b.extend(ctx.bytes(n));
                }
                3 => {
                    // not reduced
                    let mut o = S::order_be();
                    let l = o.len();
                    o[l - 1] = o[l - 1].wrapping_add(ctx.draw(3) as u8);
                    if S::SCALAR_LE {
                        o.reverse();
                    }
                    b = o;
                }
                _ => {
                    let n = *ctx.pick(&[S::NE, S::NS, S::NE + 1, 2 * S::NE - 1, 0, 1]);
                    b = ctx.styled(n);
                }
            }
            ctx.check("corrupted-bytes");
            if strict {
                let r = ctx.lib("deserialize_scalar", || S::g_decs(&b))?;
                match (r, S::decs(&b)) {
                    (Ok(x), Some(y)) if x == y => {}
                    (Err(voprf::Error::Deserialization), None) => {}
                    (r, w) => return viol("decoding", format!("{}: scalar bytes {} decoded to {:?}, should be {:?}", S::NAME, hx(&b), r.map(|x| hx(&S::encs(x))), w.map(|x| hx(&S::encs(x))))),
                }
            } else {
                let r = ctx.lib("deserialize_elem", || S::g_dec(&b))?;
                match (r, S::dec(&b)) {
                    (Ok(x), Some(y)) if x == y => {}
                    (Err(voprf::Error::Deserialization), None) => {}
                    (r, w) => return viol("decoding", format!("{}: element bytes {} decoded to {:?}, should be {:?}", S::NAME, hx(&b), r.map(|x| hx(&S::enc(x))), w.map(|x| hx(&S::enc(x))))),
                }
            }
        }
        _ => {
            // a node crashes: its registers come back from their encodings
            ctx.fault("crash-restart");
            let keep: Vec<S::S> = m.s.iter().filter_map(|s| S::g_decs(&S::g_encs(*s)).ok()).collect();
            let nz = m.s.iter().filter(|s| S::encs(**s).iter().any(|b| *b != 0)).count();
            let kept: Vec<S::E> = m.e.iter().filter_map(|e| S::g_dec(&S::g_enc(*e)).ok()).collect();
            let ni = m.e.iter().filter(|e| **e != S::ident()).count();
            ctx.check("registers-restored");
            ensure!(keep.len() == nz && kept.len() == ni, "decoding", "{}: {} of {nz} scalars and {} of {ni} elements came back", S::NAME, keep.len(), kept.len());
            m.s = keep;
            m.e = kept;
            m.e.push(S::ident());
            return Ok(());
        }
    }
    let (s, e) = (*m.s.last().unwrap(), *m.e.last().unwrap());
    scalar::<S>(ctx, s)?;
    element::<S>(ctx, e)
}
