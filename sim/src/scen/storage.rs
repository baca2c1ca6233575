//! C05: everything a deployment may keep on disk is written to a simulated
//! disk (volatile write cache, sync, crash that keeps or loses unsynced
//! writes), the process crashes at arbitrary points, and whatever was durable
//! is restored and must behave exactly like the original that never crashed.

use std::collections::BTreeMap;

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::elsewhere::{self, Ask};
use crate::rg::Mode;
use crate::scen::util::*;
use crate::suite::*;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = ctx.suite();
    let m = ctx.mode();
    ctx.label = format!("storage {} {m:?}", ctx.label);
    dispatch!(sid, storage(ctx, sid, m))
}

/// A disk: a durable image and a volatile write cache.
#[derive(Default)]
struct Disk {
    durable: BTreeMap<String, (Codec2, Vec<u8>)>,
    cache: BTreeMap<String, (Codec2, Vec<u8>)>,
    /// what was written, for comparison (never handed back)
    orig: BTreeMap<(String, Vec<u8>), Box<dyn std::any::Any>>,
}
type Codec2 = usize;

impl Disk {
    fn write(&mut self, k: &str, c: Codec2, b: Vec<u8>) {
        self.cache.insert(k.into(), (c, b));
    }
    fn sync(&mut self) {
        self.durable.append(&mut self.cache);
    }
    fn crash(&mut self, ctx: &mut Ctx) {
        let names: Vec<String> = self.cache.keys().cloned().collect();
        for n in names {
            if ctx.chance(1, 2) {
                ctx.fault("unsynced-write-lost");
                self.cache.remove(&n);
            }
        }
        self.sync();
    }
    fn read(&self, k: &str) -> Option<(Codec2, Vec<u8>)> {
        self.cache.get(k).or(self.durable.get(k)).cloned()
    }
}

/// Everything one session accumulates; `live` objects die in a crash.
struct Live<S: Suite> {
    cl: Option<Cl<S>>,
    be: Option<S::BE>,
    pe: Option<S::PE>,
    tw: Option<S::TW>,
    ee: Option<S::EE>,
    pr: Option<S::PR>,
    srv: Option<Sv<S>>,
}
impl<S: Suite> Default for Live<S> {
    fn default() -> Self {
        Live { cl: None, be: None, pe: None, tw: None, ee: None, pr: None, srv: None }
    }
}

fn put<T: Clone + 'static>(ctx: &mut Ctx, d: &mut Disk, name: &str, sizes: &mut BTreeMap<(String, usize), usize>, o: &T, enc: impl Fn(&T, Codec) -> Vec<u8>) -> R {
    let ci = ctx.below(CODECS.len());
    let c = CODECS[ci];
    let b = ctx.lib("object.encode", || enc(o, c))?;
    // a fixed length per kind for the binary encodings
    if matches!(c, Codec::Native | Codec::Bincode) {
        ctx.check("fixed-encoding-length");
        let l = *sizes.entry((name.into(), ci)).or_insert(b.len());
        if l != b.len() {
            return viol("encoding-length", format!("{name} encodes to {} and {} bytes", l, b.len()));
        }
    }
    ctx.bytes_ev("write", name, &b);
    d.orig.insert((name.into(), b.clone()), Box::new(o.clone()));
    d.write(name, ci, b);
    if ctx.chance(2, 3) {
        d.sync();
    }
    Ok(())
}

fn get<T: PartialEq + 'static>(ctx: &mut Ctx, d: &Disk, name: &str, dec: impl Fn(&[u8], Codec) -> Result<T, String>, enc: impl Fn(&T, Codec) -> Vec<u8>) -> R<Option<T>> {
    let Some((ci, b)) = d.read(name) else { return Ok(None) };
    let c = CODECS[ci];
    let r = ctx.lib("object.decode", || dec(&b, c))?;
    match r {
        Ok(o) => {
            ctx.probe("object-restored");
            ctx.check("reencoding");
            let b2 = ctx.lib("object.encode", || enc(&o, c))?;
            if b2 != b {
                return viol("reencoding-differs", format!("{name} ({c:?}): wrote {}, restored object encodes to {}", hx(&b), hx(&b2)));
            }
            if let Some(was) = d.orig.get(&(name.to_string(), b.clone())).and_then(|o| o.downcast_ref::<T>()) {
                ctx.check("restored-equals-original");
                if !ctx.lib("object.eq", || o == *was && *was == o)? {
                    return viol("restored-differs", format!("{name} ({c:?}): the restored object is not equal to the one written ({})", hx(&b)));
                }
            }
            // through every other codec as well
            for c2 in CODECS {
                let x = ctx.lib("object.encode", || enc(&o, c2))?;
                match ctx.lib("object.decode", || dec(&x, c2))? {
                    Ok(o2) => {
                        let (y, same) = ctx.lib("object.encode", || (enc(&o2, c), o2 == o))?;
                        if y != b || !same {
                            return viol("codec-round-trip", format!("{name}: {c:?} -> {c2:?} -> {c:?}: {} became {}", hx(&b), hx(&y)));
                        }
                    }
                    Err(e) => return viol("restore-failed", format!("{name} does not decode from its own {c2:?} encoding {}: {e}", hx(&x))),
                }
            }
            Ok(Some(o))
        }
        Err(e) => viol("restore-failed", format!("{name} ({c:?}) does not decode from what was written ({}): {e}", hx(&b))),
    }
}

fn storage<S: Suite>(ctx: &mut Ctx, sid: Sid, m: Mode) -> R {
    let w = world::<S>(ctx, m)?;
    let info = if m == Mode::P { ctx.info() } else { None };
    let input = ctx.blob(65535);
    let seed = ctx.seed();

    // the execution that never crashes
    let s = session::<S>(ctx, m, input.clone())?;
    let i = info.as_deref();
    let two = m.verifiable();
    let (tee, tpr, tout) = ctx.lib("twin", || -> LR<_> {
        let mut rng = generator_from::<S>(seed);
        let (e, p) = w.srv.blind_evaluate(&mut rng, &s.be, i)?;
        let o = s.cl.finalize(&s.input, &e, p.as_ref(), w.pk, i)?;
        Ok((e, p, o))
    })?
    .map_err(|e| crate::ctx::Violation { class: "honest-session-failed".into(), msg: format!("{e:?}") })?;
    let teval = ctx.lib("server.evaluate", || w.srv.evaluate(&input, i))?;
    if teval.as_ref() != Ok(&tout) {
        ctx.report(&["C05"], "direct-evaluation-differs", format!("{teval:?}"))?;
    }

    let mut d = Disk::default();
    let mut sizes = BTreeMap::new();
    let mut l = Live::<S> { srv: Some(w.srv.clone()), cl: Some(s.cl.clone()), be: Some(s.be.clone()), ..Default::default() };
    let (sv, cl) = (w.srv.clone(), s.cl.clone());
    put(ctx, &mut d, "server", &mut sizes, &sv, |o, c| o.enc(c))?;
    put(ctx, &mut d, "client", &mut sizes, &cl, |o, c| o.enc(c))?;
    put(ctx, &mut d, "blinded", &mut sizes, &s.be, |o, c| o.enc(c))?;
    d.sync();

    let steps = 3 + ctx.below(14);
    for _ in 0..steps {
        match ctx.draw(9) {
            0..=2 => {
                ctx.fault("crash");
                if l.ee.is_some() {
                    ctx.probe("crash-before-finalize");
                }
                if l.pe.is_some() {
                    ctx.probe("crash-between-phases");
                }
                d.crash(ctx);
                l = Live::default();
                recover(ctx, &d, m, &w, &mut l)?;
            }
            3 => {
                if let (Some(sv), Some(be), true) = (&l.srv, &l.be, two) {
                    let yy = Yv(vec![be.clone()]);
                    let r = ctx.lib("server.prepare", || {
                        let (mut it, t) = sv.prepare(Box::new(yy.0.iter()), i)?;
                        Ok::<_, voprf::Error>((it.next().unwrap(), t))
                    })?;
                    let (pe, tw) = r.map_err(|e| crate::ctx::Violation { class: "prepare-failed".into(), msg: format!("{e:?}") })?;
                    put(ctx, &mut d, "prepared", &mut sizes, &pe, |o, c| o.enc(c))?;
                    if let Some(t) = &tw {
                        put(ctx, &mut d, "tweak", &mut sizes, t, |o, c| o.enc(c))?;
                    }
                    l.pe = Some(pe);
                    l.tw = tw;
                }
            }
            4 | 5 => {
                // evaluate (one-shot or from whatever prepared state there is)
                let Some(sv) = &l.srv else { continue };
                let Some(be) = &l.be else { continue };
                let mut rng = generator_from::<S>(seed);
                let from_prep = l.pe.is_some() && (m != Mode::P || l.tw.is_some()) && ctx.chance(1, 2);
                let r = if from_prep {
                    ctx.probe("finish-from-restored-or-live-preparation");
                    let p = Yv(vec![l.pe.clone().unwrap()]);
                    ctx.lib("server.finish", || sv.finish(&mut rng, &Yv(vec![be.clone()]), &p, l.tw.as_ref()).map(|(mut e, p)| (e.remove(0), Some(p))))?
                } else {
                    ctx.lib("server.blind_evaluate", || sv.blind_evaluate(&mut rng, be, i))?
                };
                let (e, p) = r.map_err(|e| crate::ctx::Violation { class: "restored-server-failed".into(), msg: format!("{e:?}") })?;
                ctx.check("same-evaluation-as-twin");
                if e.bytes() != tee.bytes() || p.as_ref().map(|p| p.bytes()) != tpr.as_ref().map(|p| p.bytes()) {
                    return viol("restored-differs", format!("mode {m:?}: evaluation with the same generator output differs after crash/restore (element same: {}, from prepared: {from_prep})", e.bytes() == tee.bytes()));
                }
                put(ctx, &mut d, "evaluation", &mut sizes, &e, |o, c| o.enc(c))?;
                if let Some(p) = &p {
                    put(ctx, &mut d, "proof", &mut sizes, p, |o, c| o.enc(c))?;
                }
                l.ee = Some(e);
                l.pr = p;
            }
            6 => {
                let (Some(cl), Some(e)) = (&l.cl, &l.ee) else { continue };
                if two && l.pr.is_none() {
                    continue;
                }
                let r = ctx.lib("client.finalize", || cl.finalize(&input, e, l.pr.as_ref(), w.pk, i))?;
                ctx.check("same-output-as-twin");
                if r.as_ref() != Ok(&tout) {
                    return viol("restored-differs", format!("mode {m:?}: finalize after crash/restore gives {:?}, the uncrashed execution {}", r.map(|x| hx(&x)), hx(&tout)));
                }
                ctx.probe("finalized");
            }
            7 => {
                // rebuild the server from its provisioning record
                let rec = w.rec.clone();
                match ctx.lib("server.load", || load::<S>(m, &rec))? {
                    Ok(s2) => {
                        ctx.check("same-server-from-record");
                        let (a, b) = ctx.lib("server.encode", || (s2.enc(Codec::Native), w.srv.enc(Codec::Native)))?;
                        if a != b {
                            return viol("restored-differs", format!("server rebuilt from {rec:?} differs"));
                        }
                        l.srv = Some(s2);
                    }
                    Err(e) => return viol("restore-failed", e),
                }
            }
            _ => {
                let Some(sv) = &l.srv else { continue };
                let r = ctx.lib("server.evaluate", || (sv.evaluate(&input, i), sv.pk()))?;
                ctx.check("same-evaluation-as-twin");
                if r.0 != teval || r.1 != Some(w.pk) {
                    return viol("restored-differs", format!("mode {m:?}: direct evaluation or public key differs after crash/restore"));
                }
            }
        }
    }
    // private key bytes give the same server too
    let kb = S::encs(w.sk);
    let r = ctx.lib("server.load", || Sv::<S>::with_key(m, &kb))?;
    match r {
        Ok(s2) if s2.enc(Codec::Native) == w.srv.enc(Codec::Native) => {}
        Ok(_) => return viol("restored-differs", "server from its private key bytes differs"),
        Err(e) => return viol("restore-failed", format!("server from its private key bytes: {e:?}")),
    }
    if ctx.draw(24) == 23 {
        // the node does not come back in this process but in a new one
        d.crash(ctx);
        let list = |k: &str| d.read(k).into_iter().collect::<Vec<_>>();
        let q = Ask {
            info: info.clone(),
            input: input.clone(),
            pk: Some(S::enc(w.pk)),
            server: d.read("server"),
            client: d.read("client"),
            blinded: list("blinded"),
            prepared: list("prepared"),
            tweak: d.read("tweak"),
            evaluation: d.read("evaluation"),
            proof: d.read("proof"),
            ..Ask::new(sid, m, seed)
        };
        let a = elsewhere::compare(ctx, &q)?;
        let want = [("direct evaluation", teval.as_ref().ok().map(hex::encode)), ("output", Some(hex::encode(&tout)))];
        for (k, v) in want {
            if a.get(k).is_some_and(|x| Some(x) != v.as_ref()) {
                return viol("restored-differs", format!("mode {m:?}: {k} from stored bytes is {:?}, the uncrashed execution gives {v:?}", a.get(k)));
            }
        }
    }
    Ok(())
}

fn recover<S: Suite>(ctx: &mut Ctx, d: &Disk, m: Mode, w: &World<S>, l: &mut Live<S>) -> R {
    l.srv = get(ctx, d, "server", |b, c| Sv::<S>::dec(m, b, c), |o: &Sv<S>, c| o.enc(c))?;
    l.cl = get(ctx, d, "client", |b, c| Cl::<S>::dec(m, b, c), |o: &Cl<S>, c| o.enc(c))?;
    l.be = get(ctx, d, "blinded", S::BE::dec, |o: &S::BE, c| o.enc(c))?;
    l.pe = get(ctx, d, "prepared", S::PE::dec, |o: &S::PE, c| o.enc(c))?;
    l.tw = get(ctx, d, "tweak", S::TW::dec, |o: &S::TW, c| o.enc(c))?;
    l.ee = get(ctx, d, "evaluation", S::EE::dec, |o: &S::EE, c| o.enc(c))?;
    l.pr = get(ctx, d, "proof", S::PR::dec, |o: &S::PR, c| o.enc(c))?;
    if let Some(s) = &l.srv {
        if s.pk() != Some(w.pk) {
            return viol("restored-differs", "public key differs after restore");
        }
    }
    Ok(())
}
