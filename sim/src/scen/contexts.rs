//! C12: material of one context (suite, mode, key, info) carried into another,
//! and pairs of inputs, infos and seeds that only correct framing tells apart.

use std::collections::BTreeMap;

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{self, Mode, RToy, MODES, RG};
use crate::rng::SimRng;
use crate::scen::util::*;
use crate::suite::*;
use crate::toy;

pub fn run(ctx: &mut Ctx) -> R {
    match ctx.draw(10) {
        0..=3 => {
            let sid = ctx.suite();
            ctx.label = format!("crossed contexts {}", ctx.label);
            dispatch!(sid, cross(ctx))
        }
        4..=6 => {
            let sid = ctx.suite();
            ctx.label = format!("bits {}", ctx.label);
            dispatch!(sid, bits(ctx))
        }
        7 | 8 => {
            ctx.label = "framing toy".into();
            framing(ctx)
        }
        _ => {
            ctx.label = "suites toy".into();
            suites(ctx)
        }
    }
}

/// Results by description; equal results under different descriptions fail.
#[derive(Default)]
struct Distinct(BTreeMap<Vec<u8>, (String, String)>);
impl Distinct {
    /// `key` identifies the context and argument, `text` describes them
    fn put(&mut self, ctx: &mut Ctx, class: &str, value: &[u8], key: String, text: impl FnOnce() -> String) -> R {
        ctx.check("distinct-contexts-distinct-values");
        match self.0.get(value) {
            Some((k, t)) if *k != key => {
                let t2 = text();
                viol(class, format!("the same value {} for [{t}] and [{t2}]", hx(value)))
            }
            Some(_) => Ok(()),
            None => {
                self.0.insert(value.to_vec(), (key, text()));
                Ok(())
            }
        }
    }
}

struct Node<S: Suite> {
    m: Mode,
    kid: usize,
    sk: S::S,
    pk: S::E,
    srv: Sv<S>,
}

fn k(b: &[u8]) -> String {
    format!("{}:{:016x}", b.len(), crate::tape::fnv(b))
}

/// Several servers of all modes (some sharing a key), clients of all modes;
/// responses, proofs and public keys of one context shown to clients of
/// another, in random order on long-lived objects.
fn cross<S: Suite>(ctx: &mut Ctx) -> R {
    let mut nodes: Vec<Node<S>> = Vec::new();
    let keys: Vec<S::S> = (0..2).map(|_| ctx.scalar::<S>()).collect();
    for m in MODES {
        for (kid, sk) in keys.iter().enumerate() {
            if kid == 1 && keys[0] == keys[1] {
                continue;
            }
            let r = ctx.lib("server.load", || Sv::<S>::with_key(m, &S::encs(*sk)))?;
            let Ok(srv) = r else { return viol("server-load-failed", format!("mode {m:?}")) };
            nodes.push(Node { m, kid, sk: *sk, pk: S::mul(S::base(), *sk), srv });
        }
    }
    // infos that are easily confused
    let base = if ctx.chance(1, 3) { ctx.blob(60000) } else { ctx.small_blob() };
    let mut infos: Vec<Vec<u8>> = vec![base.clone(), vec![], ctx.bytes(base.len()), [&base[..], &[0]].concat(), vec![0], ctx.bytes(256), ctx.bytes(300)];
    let mut t = infos[6].clone();
    *t.last_mut().unwrap() ^= 1;
    infos.push(t);
    let inputs: Vec<Vec<u8>> = vec![ctx.small_blob(), base, ctx.bytes(12)];
    let mut outs = Distinct::default();
    let mut reqs = Distinct::default();
    let mut dkeys = Distinct::default();
    let steps = 3 + ctx.below(8);
    for _ in 0..steps {
        let a = ctx.below(nodes.len());
        let input = ctx.pick(&inputs).clone();
        let info = if nodes[a].m == Mode::P { ctx.pick(&infos).clone() } else { vec![] };
        let n = *ctx.pick(&[1, 1, 2, 3]);
        let n = some_batch::<S>(ctx, n);
        let n = ctx.size(n, 20);
        let m = nodes[a].m;
        let ikey = if m == Mode::P { k(&info) } else { String::new() };
        match ctx.draw(6) {
            5 => {
                // one seed, one generator output: a key of its own per mode
                let len = ctx.below(80);
                let (sd, ki, gs) = (ctx.styled(len), ctx.small_blob(), ctx.seed());
                let l = S::encs(keys[0]).len();
                for m in MODES {
                    let (f, d, g) = ctx.lib("server.from_seed", || {
                        (Sv::<S>::from_seed(m, &sd, &ki).map(|s| s.enc(Codec::Native)[..l].to_vec()), S::dkey(&sd, &ki, m).map(S::encs), Sv::<S>::new(m, &mut SimRng::new(gs)).map(|s| s.enc(Codec::Native)[..l].to_vec()))
                    })?;
                    for (how, r) in [("seed", f), ("seed", d), ("generator", g)] {
                        let Ok(r) = r else { return viol("derivation-failed", format!("mode {m:?} from {how}: {:?}", r.err())) };
                        let from = if how == "seed" { format!("{} {}", k(&sd), k(&ki)) } else { format!("{gs}") };
                        dkeys.put(ctx, "keys-coincide", &r, format!("{m:?} {how} {from}"), || format!("private key, mode {m:?}, made from {how} {from}"))?;
                    }
                }
            }
            0 => {
                // the server's own evaluation, all contexts side by side
                let o = ctx.lib("server.evaluate", || nodes[a].srv.evaluate(&input, Some(&info)))?;
                let Ok(o) = o else { return viol("honest-evaluation-failed", format!("{:?}", o.err())) };
                let key = format!("{m:?} {} {} {}", nodes[a].kid, k(&input), ikey);
                outs.put(ctx, "outputs-coincide", &o, key, || format!("mode {m:?} key {} input {} info {}", nodes[a].kid, hx(&input), hx(&info)))?;
            }
            1 => {
                // the same blind and input in each mode: requests differ
                let b = ctx.scalar::<S>();
                for m in MODES {
                    let r = ctx.lib("client.deterministic_blind", || Cl::<S>::dblind(m, &input, b))?;
                    let Ok((_, be)) = r else { return viol("blind-failed", "blind failed") };
                    let bk = k(&S::encs(b));
                    reqs.put(ctx, "requests-coincide", &be.bytes(), format!("{m:?} {} {bk}", k(&input)), || format!("mode {m:?} input {}", hx(&input)))?;
                }
            }
            _ if m == Mode::O => {
                // no proof: another key's answer gives another output
                let s = session::<S>(ctx, m, input.clone())?;
                for b in 0..nodes.len() {
                    let o = &nodes[b];
                    if o.m == Mode::P {
                        continue;
                    }
                    let seed = ctx.seed();
                    let mut rng = SimRng::new(seed);
                    let r = ctx.lib("server.blind_evaluate", || o.srv.blind_evaluate(&mut rng, &s.be, None))?;
                    let Ok((ee, _)) = r else { return viol("honest-evaluation-failed", "blind_evaluate failed") };
                    let r = ctx.lib("client.finalize", || s.cl.finalize(&input, &ee, None, o.pk, None))?;
                    let Ok(x) = r else { return viol("finalize-failed", "finalize failed") };
                    // the non-verifiable output is a function of mode, key and
                    // input wherever the evaluation was computed
                    let kid = o.kid;
                    outs.put(ctx, "outputs-coincide", &x, format!("O {kid} {} ", k(&input)), || format!("mode O key {kid} input {}", hx(&input)))?;
                }
            }
            _ => {
                // a response made in context b for a request made in context a
                let ss = sessions::<S>(ctx, m, n)?;
                let y = bes(&ss);
                let c = ctx.below(nodes.len());
                let b = if nodes[c].m == Mode::O { a } else { c };
                let info_b = if nodes[b].m == Mode::P { if ctx.chance(1, 3) { info.clone() } else { ctx.pick(&infos).clone() } } else { vec![] };
                let seed = ctx.seed();
                let mut rng = SimRng::new(seed);
                let o = &nodes[b];
                let r = if n == 1 && ctx.chance(1, 2) {
                    ctx.lib("server.blind_evaluate", || o.srv.blind_evaluate(&mut rng, &y.0[0], Some(&info_b)).map(|(e, p)| (vec![e], p)))?
                } else {
                    ctx.lib("server.batch", || o.srv.batch(&mut rng, &y, Some(&info_b)))?
                };
                let Ok((ees, p)) = r else { return viol("honest-evaluation-failed", format!("{:?}", r.err())) };
                let p = p.unwrap();
                // ... checked by the client against either public key
                let d = ctx.below(nodes.len());
                let pk = if ctx.chance(1, 2) { nodes[a].pk } else { nodes[d].pk };
                let same = nodes[b].m == m && nodes[b].pk == pk && (m == Mode::V || info_b == info);
                let r = lib_finalize::<S>(ctx, m, pk, Some(&info), &ss, &ees, Some(&p))?;
                ctx.check("crossed-response");
                ctx.fault(if same { "context-kept" } else { "context-swapped" });
                if !same {
                    let what = if nodes[b].m != m { "mode" } else if nodes[b].pk != pk { "key" } else { "info" };
                    ctx.probe(&format!("swapped-{what}"));
                }
                let (bm, kb) = (nodes[b].m, nodes[b].kid);
                ctx.ev("crossed", || format!("{m:?} <- {bm:?} key {kb} same={same} {}", ro(&r)));
                match (&r, same) {
                    (Ok(v), true) => {
                        for (s, x) in ss.iter().zip(v) {
                            outs.put(ctx, "outputs-coincide", x, format!("{m:?} {kb} {} {ikey}", k(&s.input)), || format!("mode {m:?} key {kb} input {} info {}", hx(&s.input), hx(&info)))?;
                        }
                    }
                    (Err(voprf::Error::ProofVerification), false) => {}
                    _ if same => return viol("honest-response-refused", format!("mode {m:?}: {}", ro(&r))),
                    (Ok(_), false) => {
                        return viol("cross-context-accepted", format!("client of mode {m:?} with info {} accepted a response made in mode {bm:?} by key {kb} for info {} (batch of {n})", hx(&info), hx(&info_b)));
                    }
                    _ => return viol("cross-context-error", format!("client of mode {m:?} answered {} to a response of another context", ro(&r))),
                }
            }
        }
    }
    Ok(())
}

/// Single changes - a bit anywhere, a byte more or less at either end - to
/// input, info, seed or key info change what is computed from it.
fn bits<S: Suite>(ctx: &mut Ctx) -> R {
    let m = ctx.mode();
    let w = world::<S>(ctx, m)?;
    let a = arg(ctx);
    let other = ctx.small_blob();
    let what = ctx.below(if m == Mode::P { 6 } else { 4 });
    let bl = ctx.scalar::<S>();
    let seed = ctx.seed();
    let sess = if what == 5 { Some(session::<S>(ctx, m, other.clone())?) } else { None };
    let eval = |x: &[u8]| -> Result<Vec<u8>, String> {
        let e = |e: voprf::Error| format!("{e:?}");
        match what {
            // input: server-side output, request
            0 => w.srv.evaluate(x, Some(&other)).map_err(e),
            1 => Cl::<S>::dblind(m, x, bl).map(|(_, b)| b.bytes()).map_err(e),
            // key derivation: seed (same length only), info
            2 => Sv::<S>::from_seed(m, x, &other).map_err(e).map(|s| s.enc(Codec::Native)),
            3 => Sv::<S>::from_seed(m, &other, x).map_err(e).map(|s| s.enc(Codec::Native)),
            // POPRF info: output, evaluation of one request
            4 => w.srv.evaluate(&other, Some(x)).map_err(e),
            _ => {
                let mut rng = SimRng::new(seed);
                w.srv.blind_evaluate(&mut rng, &sess.as_ref().unwrap().be, Some(x)).map(|(b, _)| b.bytes()).map_err(e)
            }
        }
    };
    let name = ["input of evaluate", "input of blind", "seed of key derivation", "info of key derivation", "info of evaluate", "info of blind_evaluate"][what];
    let mut d = Distinct::default();
    let mut todo: Vec<(String, Vec<u8>)> = vec![("original".into(), a.clone())];
    let n = 2 + ctx.below(5);
    for _ in 0..n {
        let mut x = a.clone();
        let t = match ctx.draw(if what == 2 { 3 } else { 8 }) {
            0 | 1 if !x.is_empty() => {
                let i = ctx.below(x.len());
                let b = ctx.below(8);
                x[i] ^= 1 << b;
                format!("bit {b} of byte {i} flipped")
            }
            2 if !x.is_empty() => {
                let i = x.len() - 1;
                x[i] ^= 1 << ctx.below(8);
                format!("last byte ({i}) changed")
            }
            3 if !x.is_empty() => {
                x.pop();
                "last byte dropped".into()
            }
            4 if x.len() < 65535 => {
                x.push(0);
                "zero byte appended".into()
            }
            5 if x.len() < 65535 => {
                x.insert(0, 0);
                "zero byte prepended".into()
            }
            6 if !x.is_empty() => {
                x.remove(0);
                "first byte dropped".into()
            }
            7 if x.len() > 1 => {
                let i = ctx.below(x.len() - 1);
                x.swap(i, i + 1);
                format!("bytes {i} and {} swapped", i + 1)
            }
            _ => continue,
        };
        todo.push((t, x));
    }
    for (t, x) in todo {
        ctx.fault(&format!("variation-{what}"));
        let r = ctx.lib("vary", || eval(&x))?;
        let len = x.len();
        match r {
            Ok(v) => {
                ctx.bytes_ev("variation", &format!("{what} {t}"), &v);
                d.put(ctx, "variation-without-effect", &v, k(&x), || format!("mode {m:?}: {name}, {len} bytes, {t}"))?
            }
            Err(e) => return viol("variation-refused", format!("mode {m:?}: {name} of {len} bytes, {t}: {e}")),
        }
    }
    Ok(())
}

fn arg(ctx: &mut Ctx) -> Vec<u8> {
    const L: [usize; 14] = [8, 1, 2, 0, 31, 32, 33, 64, 127, 255, 256, 257, 300, 1024];
    let n = match ctx.draw(8) {
        0..=5 => *ctx.pick(&L),
        6 => ctx.below(2000),
        _ => *ctx.pick(&[65500, 40000, 65534, 32769, 65535]),
    };
    // key derivation has a smaller limit on seed and info together
    ctx.bytes(n.min(65000))
}

type T = RToy;

fn info_msg(info: &[u8]) -> Vec<u8> {
    let mut msg = b"Info".to_vec();
    msg.extend_from_slice(&(info.len() as u16).to_be_bytes());
    msg.extend_from_slice(info);
    msg
}

/// All hashes that could separate two (input, info) pairs are forced equal, so
/// that only the framing of the last hash separates them.
fn framing(ctx: &mut Ctx) -> R {
    let m = *ctx.pick(&[Mode::P, Mode::P, Mode::V, Mode::O]);
    let w = world::<T>(ctx, m)?;
    let mut pairs: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let e0 = 1 + ctx.draw(1 << 40);
    let t0 = 1 + ctx.draw(1 << 40);
    match if m == Mode::P { ctx.draw(4) } else { 4 } {
        0 => {
            // all splits of one string
            let n = *ctx.pick(&[4, 1, 8, 258, 600]);
            let x = ctx.bytes(n);
            let cuts: Vec<usize> = if n <= 8 { (0..=n).collect() } else { (0..12).map(|i| if i < 2 { i * n } else { ctx.below(n + 1) }).collect() };
            for c in cuts {
                pairs.push((x[..c].to_vec(), x[c..].to_vec()));
            }
        }
        1 => {
            // equal if the input's length is not framed
            let (a1, b0, b2) = (ctx.small_blob(), ctx.small_blob(), ctx.small_blob());
            let b1 = [&b0[..], &(b2.len() as u16).to_be_bytes(), &b2].concat();
            let a2 = [&a1[..], &(b1.len() as u16).to_be_bytes(), &b0].concat();
            pairs.push((a1, b1));
            pairs.push((a2, b2));
        }
        2 => {
            // equal if only one byte of a length is framed, or if the info is
            // cut at 255/256 bytes
            let n = *ctx.pick(&[256, 512, 1024]);
            let a = ctx.small_blob();
            let b = ctx.bytes(n);
            pairs.push((a.clone(), b.clone()));
            pairs.push(([&a[..], &b].concat(), vec![]));
            pairs.push((a.clone(), b[..255.min(n)].to_vec()));
            pairs.push((a, b[..256.min(n) - 1].iter().copied().chain([b[255] ^ 1]).collect()));
        }
        3 => {
            // swapped roles
            let (a, b) = (ctx.small_blob(), ctx.small_blob());
            pairs.push((a.clone(), b.clone()));
            pairs.push((b, a));
        }
        _ => {
            // without info: prefixes, and inputs ending in what follows them
            let a = arg(ctx);
            let e = T::enc(T::mul(toy::TE(e0), w.sk));
            pairs.push((a.clone(), vec![]));
            pairs.push(([&a[..], &[0]].concat(), vec![]));
            pairs.push(([&a[..], &[0, 9], &e[..]].concat(), vec![]));
            pairs.push(([&a[..], &[0, 9], &e[..], b"Finalize"].concat(), vec![]));
            if !a.is_empty() {
                pairs.push((a[1..].to_vec(), vec![]));
                pairs.push((a[..a.len() - 1].to_vec(), vec![]));
            }
        }
    }
    for (a, b) in &pairs {
        toy::force(&rg::dst::<T>("HashToGroup-", m), a, e0);
        if m == Mode::P {
            toy::force(&rg::dst::<T>("HashToScalar-", m), &info_msg(b), t0);
        }
    }
    ctx.fault("force-equal-hashes");
    let mut d = Distinct::default();
    for (a, b) in &pairs {
        let info = if m == Mode::P { Some(b.clone()) } else { None };
        let key = format!("{} {}", k(a), k(b));
        let text = || format!("mode {m:?}: input {} info {} (all other hashes equal)", hx(a), hx(b));
        // through the server alone, and through a whole session
        let o = ctx.lib("server.evaluate", || w.srv.evaluate(a, info.as_deref()))?;
        let Ok(o) = o else { return viol("honest-evaluation-failed", format!("{:?}: {}", o.err(), text())) };
        ctx.bytes_ev("framed", "server", &o);
        d.put(ctx, "framing-collision", &o, key.clone(), text)?;
        let s = session::<T>(ctx, m, a.clone())?;
        let mut rng = SimRng::new(ctx.seed());
        let r = ctx.lib("server.blind_evaluate", || w.srv.blind_evaluate(&mut rng, &s.be, info.as_deref()))?;
        let Ok((ee, p)) = r else { return viol("honest-evaluation-failed", "blind_evaluate failed") };
        let r = lib_finalize::<T>(ctx, m, w.pk, info.as_deref(), std::slice::from_ref(&s), &[ee], p.as_ref())?;
        match r {
            Ok(v) => d.put(ctx, "framing-collision", &v[0], key, text)?,
            Err(e) => return viol("honest-response-refused", format!("{e:?}")),
        }
    }
    Ok(())
}

/// Two suites over the same group and hash that differ in their name only.
fn suites(ctx: &mut Ctx) -> R {
    match ctx.draw(4) {
        0 => pair::<crate::rg::RToy, crate::rg::RToyB>(ctx),
        1 => pair::<crate::rg::RToyC, crate::rg::RToyD>(ctx),
        2 => pair::<crate::rg::RToyC, crate::rg::RToyE>(ctx),
        _ => pair::<crate::rg::RToyLong, crate::rg::RToyB>(ctx),
    }
}

fn pair<A: Suite<E = toy::TE, S = toy::TS>, B: Suite<E = toy::TE, S = toy::TS>>(ctx: &mut Ctx) -> R {
    let m = ctx.mode();
    let sk = ctx.scalar::<A>();
    let pk = A::mul(A::base(), sk);
    let input = ctx.small_blob();
    let info = ctx.info();
    let seed = ctx.bytes(32);
    // same seed, same blind, same input, same key: all results differ
    let (ka, kb) = ctx.lib("server.from_seed", || (Sv::<A>::from_seed(m, &seed, &input).map(|s| s.enc(Codec::Native)), Sv::<B>::from_seed(m, &seed, &input).map(|s| s.enc(Codec::Native))))?;
    let b = ctx.scalar::<A>();
    let (ra, rb) = ctx.lib("client.deterministic_blind", || (Cl::<A>::dblind(m, &input, b).map(|x| x.1.bytes()), Cl::<B>::dblind(m, &input, b).map(|x| x.1.bytes())))?;
    let (oa, ob) = ctx.lib("server.evaluate", || {
        (
            Sv::<A>::with_key(m, &A::encs(sk)).and_then(|s| s.evaluate(&input, info.as_deref())),
            Sv::<B>::with_key(m, &A::encs(sk)).and_then(|s| s.evaluate(&input, info.as_deref())),
        )
    })?;
    ctx.check("suites-separated");
    for (n, x, y) in [("derived key", ka, kb), ("request", ra, rb), ("output", oa, ob)] {
        match (x, y) {
            (Ok(x), Ok(y)) if x != y => {}
            (Ok(_), Ok(_)) => return viol("suites-coincide", format!("mode {m:?}: the {n} is the same in two suites that differ in name only")),
            (x, y) => return viol("suites-failed", format!("{n}: {:?} {:?}", x.err(), y.err())),
        }
    }
    if m == Mode::O {
        return Ok(());
    }
    // a whole exchange in suite B shown to a client of suite A that holds the
    // very same blind and blinded element
    let n = 1 + ctx.below(3);
    let n = some_batch::<A>(ctx, n);
    let ss = sessions::<B>(ctx, m, n)?;
    let Ok(srv) = Sv::<B>::with_key(m, &A::encs(sk)) else { return viol("server-load-failed", "suite B") };
    let mut rng = SimRng::new(ctx.seed());
    let y = bes(&ss);
    let r = ctx.lib("server.batch", || srv.batch(&mut rng, &y, info.as_deref()))?;
    let Ok((ees, p)) = r else { return viol("honest-evaluation-failed", "batch failed") };
    let own = lib_finalize::<B>(ctx, m, pk, info.as_deref(), &ss, &ees, p.as_ref())?;
    if own.is_err() {
        return viol("honest-response-refused", ro(&own));
    }
    let mut sa: Vec<Sess<A>> = Vec::new();
    for s in &ss {
        let Ok(cl) = Cl::<A>::from_parts(m, s.blind, s.bev) else { return viol("harness", "from_parts") };
        sa.push(Sess { input: s.input.clone(), cl, be: A::be(s.bev), blind: s.blind, bev: s.bev });
    }
    let ea: Vec<A::EE> = ees.iter().map(|e| A::ee(B::ee_v(e))).collect();
    let (c, s) = proof_parts::<B>(p.as_ref().unwrap()).unwrap();
    let Some(pa) = make_proof::<A>(c, s) else { return Ok(()) };
    ctx.fault("suite-swapped");
    let r = lib_finalize::<A>(ctx, m, pk, info.as_deref(), &sa, &ea, Some(&pa))?;
    ctx.ev("suite-crossed", || ro(&r));
    match r {
        Err(voprf::Error::ProofVerification) => Ok(()),
        r => viol("cross-suite-accepted", format!("mode {m:?}: a response made in another suite was answered with {}", ro(&r))),
    }
}
