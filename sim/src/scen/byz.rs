//! Attack strategies of a malicious server that knows the key.

use crate::ctx::Ctx;
use crate::rg::{self, Mode};
use crate::suite::Suite;

type Forged<S> = (Vec<<S as rg::RG>::E>, Option<(<S as rg::RG>::S, <S as rg::RG>::S)>, &'static str);

#[allow(clippy::too_many_arguments)]
pub fn attack<S: Suite>(ctx: &mut Ctx, mode: Mode, sk: S::S, info: &[u8], bev: &[S::E], good: &[S::E], r: S::S, seen: &[S::E]) -> Forged<S> {
    let n = bev.len();
    let honest = |ees: &[S::E]| rg::server_prove::<S>(mode, sk, info, bev, ees, r).ok();
    if !mode.verifiable() {
        let mut e = good.to_vec();
        let i = ctx.below(n);
        e[i] = S::add(e[i], S::base());
        return (e, None, "shift-element");
    }
    let pos = ctx.below(n);
    let one = S::su64(1);
    match ctx.draw(17) {
        0 => {
            // one element shifted, proof for the true ones
            let mut e = good.to_vec();
            e[pos] = S::add(e[pos], S::base());
            let p = honest(good);
            (e, p, "shift-element-true-proof")
        }
        1 => {
            // one element shifted, proof computed over the shifted batch
            let mut e = good.to_vec();
            e[pos] = S::add(e[pos], S::base());
            let p = honest(&e);
            (e, p, "shift-element-proof-over-it")
        }
        2 => {
            // consistently evaluated under another key, proof valid for that key
            let k2 = S::sadd(sk, one);
            let k2 = if k2 == S::su64(0) { one } else { k2 };
            let e: Vec<S::E> = bev.iter().map(|b| rg::eval::<S>(mode, k2, *b, info).unwrap_or(*b)).collect();
            let p = rg::server_prove::<S>(mode, k2, info, bev, &e, r).ok();
            (e, p, "other-key")
        }
        3 => {
            // evaluated under another info
            let mut i2 = info.to_vec();
            if ctx.chance(1, 2) && !i2.is_empty() {
                let k = ctx.below(i2.len());
                i2[k] ^= 1;
            } else if ctx.chance(1, 2) {
                i2.push(0);
            } else {
                i2.pop();
            }
            let e: Vec<S::E> = bev.iter().map(|b| rg::eval::<S>(mode, sk, *b, &i2).unwrap_or(*b)).collect();
            let p = rg::server_prove::<S>(mode, sk, &i2, bev, &e, r).ok();
            (e, p, "other-info")
        }
        4 => {
            // other mode's orientation / context
            let m2 = if mode == Mode::V { Mode::P } else { Mode::V };
            let e: Vec<S::E> = bev.iter().map(|b| rg::eval::<S>(m2, sk, *b, info).unwrap_or(*b)).collect();
            let p = rg::server_prove::<S>(m2, sk, info, bev, &e, r).ok();
            (e, p, "other-mode")
        }
        5 => {
            let mut e = good.to_vec();
            e.rotate_left(pos.max(1) % n.max(1));
            let p = honest(good);
            (e, p, "permute")
        }
        6 => {
            let mut e = good.to_vec();
            e.swap(0, pos);
            let p = honest(&e);
            (e, p, "permute-proof-over-it")
        }
        7 => {
            // weights that ignore the evaluated elements would cancel
            let mut e = good.to_vec();
            if n > 1 {
                let (a, b) = (pos, (pos + 1) % n);
                let ws = if mode == Mode::V {
                    rg::weights::<S>(mode, S::mul(S::base(), sk), bev, good)
                } else {
                    match rg::tweak::<S>(sk, info) {
                        Ok(t) => rg::weights::<S>(mode, S::mul(S::base(), t), good, bev),
                        Err(_) => return (e, honest(good), "none"),
                    }
                };
                let neg = S::ssub(S::su64(0), ws[a]);
                e[a] = S::add(e[a], S::mul(S::base(), ws[b]));
                e[b] = S::add(e[b], S::mul(S::base(), neg));
            } else {
                e[0] = S::add(e[0], e[0]);
            }
            let p = honest(good);
            (e, p, "cancel-weights")
        }
        8 => {
            // equal weights would cancel
            let mut e = good.to_vec();
            let (a, b) = (pos, (pos + 1) % n);
            let d = ctx.scalar::<S>();
            let delta = S::mul(S::base(), d);
            let neg = S::mul(S::base(), S::ssub(S::su64(0), d));
            e[a] = S::add(e[a], delta);
            e[b] = S::add(e[b], neg);
            if a == b {
                e[a] = S::add(good[a], delta);
            }
            let p = honest(good);
            (e, p, "shift-pair")
        }
        9 => {
            let p = honest(good).map(|(c, s)| (S::sadd(c, one), s));
            (good.to_vec(), p, "challenge-plus-one")
        }
        10 => {
            let p = honest(good).map(|(c, s)| (c, S::sadd(s, one)));
            (good.to_vec(), p, "response-plus-one")
        }
        11 => {
            let p = honest(good).map(|(c, s)| (s, c));
            (good.to_vec(), p, "swap-proof-halves")
        }
        12 => {
            // an element recorded from elsewhere
            let mut e = good.to_vec();
            e[pos] = *seen.get(ctx.below(seen.len().max(1))).unwrap_or(&bev[pos]);
            let p = honest(&e);
            (e, p, "replayed-element")
        }
        13 => {
            // the blinded element itself (evaluation under key 1)
            let p = rg::server_prove::<S>(mode, one, info, bev, bev, r).ok();
            (bev.to_vec(), p, "reflect")
        }
        14 => {
            let mut e = good.to_vec();
            e.pop();
            let p = honest(good);
            if e.is_empty() {
                e.push(S::add(good[0], S::base()));
            }
            (e, p, "drop-last")
        }
        15 => {
            // the true commitments with a challenge altered in part: accepted
            // only by a verifier that compares the challenge loosely
            let k = if mode == Mode::V { Ok(sk) } else { rg::tweak::<S>(sk, info) };
            let p = match (honest(good), k) {
                (Some((c, _)), Ok(k)) => {
                    let mut b = S::encs(c);
                    let l = b.len();
                    let at = ctx.below(l);
                    match ctx.draw(4) {
                        0 => b[at] ^= 1 << ctx.below(8),
                        1 => b[at..].iter_mut().for_each(|x| *x ^= 0x5a),
                        2 => b[..at].iter_mut().for_each(|x| *x ^= 0x5a),
                        _ => b[l - 1] = b[l - 1].wrapping_add(1),
                    }
                    match S::decs(&b) {
                        Some(c2) => Some((c2, S::ssub(r, S::smul(c2, k)))),
                        None => Some((S::sadd(c, one), S::ssub(r, S::smul(S::sadd(c, one), k)))),
                    }
                }
                _ => None,
            };
            (good.to_vec(), p, "compensated-challenge")
        }
        _ => {
            // forged with knowledge of the shift only: choose response first
            let mut e = good.to_vec();
            for x in e.iter_mut() {
                *x = S::add(*x, *x);
            }
            let c = ctx.scalar::<S>();
            let s = ctx.scalar::<S>();
            (e, Some((c, s)), "random-proof")
        }
    }
}
