//! C18: protocol objects are values. Nodes that recognise retransmissions,
//! cache responses or keep sessions in ordered maps compare, order, hash and
//! clone them; all of that must agree with the bytes the objects stand for.
//! Objects come out of simulated sessions: originals, retransmissions, clones,
//! copies restored after a crash from any codec, and near misses that differ
//! in a single field.

use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{Mode, RToy, RToyF, MODES};
use crate::rng::SimRng;
use crate::scen::util::*;
use crate::suite::*;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = ctx.suite();
    ctx.label = format!("values {}", ctx.label);
    match sid {
        Sid::Toy => {
            let p = build::<RToy>(ctx)?;
            laws(ctx, &p)?;
            ordered(ctx, &p)
        }
        Sid::ToyF => {
            let p = build::<RToyF>(ctx)?;
            laws(ctx, &p)?;
            ordered_f(ctx, &p)
        }
        _ => dispatch!(sid, plain(ctx)),
    }
}

fn plain<S: Suite>(ctx: &mut Ctx) -> R {
    let p = build::<S>(ctx)?;
    laws(ctx, &p)
}

struct Pool<S: Suite> {
    oc: Vec<S::OC>,
    vc: Vec<S::VC>,
    pc: Vec<S::PC>,
    os: Vec<S::OS>,
    vs: Vec<S::VS>,
    ps: Vec<S::PS>,
    be: Vec<S::BE>,
    ee: Vec<S::EE>,
    pe: Vec<S::PE>,
    pr: Vec<S::PR>,
    tw: Vec<S::TW>,
}

/// All fields of an object, cut out of its plain encoding.
fn fields<S: Suite, T: Obj>(b: &[u8]) -> Option<Vec<Vec<u8>>> {
    let mut at = 0;
    let mut v = Vec::new();
    for sc in layout(T::KIND) {
        let n = if *sc { S::NS } else { S::NE };
        v.push(b.get(at..at + n)?.to_vec());
        at += n;
    }
    (at == b.len()).then_some(v)
}

/// Copies, restored copies and near misses of what is there.
fn spread<S: Suite, T: Obj>(ctx: &mut Ctx, v: &mut Vec<T>, donors: &[Vec<Vec<u8>>], max: usize) -> R {
    if v.is_empty() {
        return Ok(());
    }
    let n = v.len().min(max);
    for _ in 0..n {
        let k = ctx.below(v.len());
        let x = v[k].clone();
        match ctx.draw(4) {
            0 => v.push(x),
            1 => {
                let c = ctx.codec();
                let b = x.enc(c);
                ctx.fault("crash-and-restore");
                match T::dec(&b, c) {
                    Ok(y) => v.push(y),
                    Err(e) => return viol("restore-failed", format!("{:?} {c:?}: {e}: {}", T::KIND, hx(&b))),
                }
            }
            _ => {
                // one field taken from elsewhere
                let Some(mut f) = fields::<S, T>(&x.enc(Codec::Native)) else { continue };
                let i = ctx.below(f.len());
                let same: Vec<&Vec<u8>> = donors.iter().flatten().filter(|d| d.len() == f[i].len()).collect();
                if same.is_empty() {
                    continue;
                }
                f[i] = (*ctx.pick(&same)).clone();
                if let Ok(y) = T::dec(&f.concat(), Codec::Native) {
                    ctx.fault("one-field-replaced");
                    v.push(y);
                }
            }
        }
    }
    Ok(())
}

fn build<S: Suite>(ctx: &mut Ctx) -> R<Pool<S>> {
    let mut p = Pool::<S> { oc: vec![], vc: vec![], pc: vec![], os: vec![], vs: vec![], ps: vec![], be: vec![], ee: vec![], pe: vec![], pr: vec![], tw: vec![] };
    let rounds = 1 + ctx.below(3);
    // requests are repeated, keys shared between modes, blinds between clients
    let key = ctx.scalar::<S>();
    let text = ctx.small_blob();
    let blind = ctx.scalar::<S>();
    let mut donors: Vec<Vec<Vec<u8>>> = vec![vec![S::encs(key), S::encs(blind), S::encs(shaped::<S>(ctx)), S::enc(S::base())]];
    // encodings that agree with another one in most bytes
    let near = neg::<S>(blind);
    donors.push(vec![S::encs(near), S::enc(S::mul(S::base(), near)), S::enc(S::mul(S::base(), blind))]);
    for _ in 0..rounds {
        let m = *ctx.pick(&MODES);
        let sk = if ctx.chance(1, 2) { key } else { ctx.scalar::<S>() };
        let srv = match ctx.lib("server.load", || Sv::<S>::with_key(m, &S::encs(sk)))? {
            Ok(s) => s,
            Err(e) => return viol("server-load-failed", format!("{e:?}")),
        };
        let input = if ctx.chance(1, 2) { text.clone() } else { ctx.bytes(5) };
        let b = if ctx.chance(1, 2) { blind } else { ctx.scalar::<S>() };
        let (cl, be) = match ctx.lib("client.deterministic_blind", || Cl::<S>::dblind(m, &input, b))? {
            Ok(x) => x,
            Err(e) => return viol("blind-failed", format!("{e:?}")),
        };
        let info = if m == Mode::P { ctx.info() } else { None };
        let seed = ctx.seed();
        let mut rng = SimRng::new(seed);
        let (ee, pr) = match ctx.lib("server.blind_evaluate", || srv.blind_evaluate(&mut rng, &be, info.as_deref()))? {
            Ok(x) => x,
            Err(e) => return viol("honest-evaluation-failed", format!("{e:?}")),
        };
        if m.verifiable() {
            let y = Yv(vec![be.clone()]);
            let r = ctx.lib("server.prepare", || srv.prepare(Box::new(y.0.iter()), info.as_deref()).map(|(i, t)| (i.collect::<Vec<_>>(), t)))?;
            match r {
                Ok((q, t)) => {
                    p.pe.extend(q);
                    p.tw.extend(t);
                }
                Err(e) => return viol("honest-evaluation-failed", format!("{e:?}")),
            }
        }
        donors.push(vec![S::encs(sk), S::encs(b), be.enc(Codec::Native), ee.enc(Codec::Native)]);
        p.be.push(be);
        p.ee.push(ee);
        p.pr.extend(pr);
        match cl {
            Cl::O(c) => p.oc.push(c),
            Cl::V(c) => p.vc.push(c),
            Cl::P(c) => p.pc.push(c),
        }
        match srv {
            Sv::O(c) => p.os.push(c),
            Sv::V(c) => p.vs.push(c),
            Sv::P(c) => p.ps.push(c),
        }
    }
    if let Some(f) = p.pr.first().and_then(|x| fields::<S, S::PR>(&x.enc(Codec::Native))) {
        // challenge and response exchanged
        let mut g = f.clone();
        g.reverse();
        p.pr.extend(S::PR::dec(&g.concat(), Codec::Native).ok());
        donors.push(f);
    }
    let max = if S::NAME == "toy" { 8 } else { 4 };
    for _ in 0..2 {
        spread::<S, _>(ctx, &mut p.oc, &donors, max)?;
        spread::<S, _>(ctx, &mut p.vc, &donors, max)?;
        spread::<S, _>(ctx, &mut p.pc, &donors, max)?;
        spread::<S, _>(ctx, &mut p.os, &donors, max)?;
        spread::<S, _>(ctx, &mut p.vs, &donors, max)?;
        spread::<S, _>(ctx, &mut p.ps, &donors, max)?;
        spread::<S, _>(ctx, &mut p.be, &donors, max)?;
        spread::<S, _>(ctx, &mut p.ee, &donors, max)?;
        spread::<S, _>(ctx, &mut p.pe, &donors, max)?;
        spread::<S, _>(ctx, &mut p.pr, &donors, max)?;
        spread::<S, _>(ctx, &mut p.tw, &donors, max)?;
    }
    Ok(p)
}

fn laws<S: Suite>(ctx: &mut Ctx, p: &Pool<S>) -> R {
    law(ctx, &p.oc)?;
    law(ctx, &p.vc)?;
    law(ctx, &p.pc)?;
    law(ctx, &p.os)?;
    law(ctx, &p.vs)?;
    law(ctx, &p.ps)?;
    law(ctx, &p.be)?;
    law(ctx, &p.ee)?;
    law(ctx, &p.pe)?;
    law(ctx, &p.pr)?;
    law(ctx, &p.tw)
}

/// Equality is equality of encodings; copies are equal and independent.
fn law<T: Obj>(ctx: &mut Ctx, v: &[T]) -> R {
    let k = T::KIND;
    let bytes: Vec<Vec<u8>> = v.iter().map(|x| x.bytes()).collect();
    for (i, a) in v.iter().enumerate() {
        for (j, b) in v.iter().enumerate() {
            let same = bytes[i] == bytes[j];
            let (eq, ne) = ctx.lib("object.eq", || (a == b, a != b))?;
            ctx.check("equal-iff-same-bytes");
            if eq != same || ne == same {
                return viol(
                    if same { "equal-objects-differ" } else { "different-objects-equal" },
                    format!("{k:?}: {} and {}: == gives {eq}, != gives {ne}", hx(&bytes[i]), hx(&bytes[j])),
                );
            }
            if i != j && same {
                ctx.probe("equal-pair");
            }
        }
    }
    for (i, a) in v.iter().enumerate() {
        if !ctx.chance(1, 3) {
            continue;
        }
        let c = ctx.lib("object.clone", || a.clone())?;
        ctx.check("clone-equals-and-is-independent");
        if c != *a || c.bytes() != bytes[i] {
            return viol("clone-differs", format!("{k:?}: clone of {} is {}", hx(&bytes[i]), hx(&c.bytes())));
        }
        let mut d = v[ctx.below(v.len())].clone();
        ctx.lib("object.clone_from", || d.clone_from(a))?;
        if d != *a || d.bytes() != bytes[i] {
            return viol("clone-differs", format!("{k:?}: clone_from of {} gave {}", hx(&bytes[i]), hx(&d.bytes())));
        }
        if ctx.chance(1, 2) {
            drop(c);
            if a.bytes() != bytes[i] || d.bytes() != bytes[i] {
                return viol("clone-shares-state", format!("{k:?}: dropping a clone changed the original {} to {}", hx(&bytes[i]), hx(&a.bytes())));
            }
        }
    }
    Ok(())
}

macro_rules! all_ordered {
    ($name:ident, $s:ty) => {
        fn $name(ctx: &mut Ctx, p: &Pool<$s>) -> R {
            order(ctx, &p.oc)?;
            order(ctx, &p.vc)?;
            order(ctx, &p.pc)?;
            order(ctx, &p.os)?;
            order(ctx, &p.vs)?;
            order(ctx, &p.ps)?;
            order(ctx, &p.be)?;
            order(ctx, &p.ee)?;
            order(ctx, &p.pe)?;
            order(ctx, &p.pr)?;
            order(ctx, &p.tw)
        }
    };
}
all_ordered!(ordered, RToy);
all_ordered!(ordered_f, RToyF);

fn hash<T: Hash>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A total order and a hash that agree with equality, and maps keyed by objects.
fn order<T: Obj + Ord + Hash>(ctx: &mut Ctx, v: &[T]) -> R {
    use std::cmp::Ordering::Equal;
    let k = T::KIND;
    let bytes: Vec<Vec<u8>> = v.iter().map(|x| x.bytes()).collect();
    for i in 0..v.len() {
        for j in 0..v.len() {
            let (a, b) = (&v[i], &v[j]);
            let (c, r, q, h) = ctx.lib("object.cmp", || (a.cmp(b), b.cmp(a), a.partial_cmp(b), hash(a) == hash(b)))?;
            ctx.check("order-and-hash-agree-with-equality");
            let what = || format!("{k:?}: {} and {}: cmp {c:?}, reversed {r:?}, partial {q:?}, equal hashes {h}", hx(&bytes[i]), hx(&bytes[j]));
            if (c == Equal) != (bytes[i] == bytes[j]) {
                return viol("order-disagrees-with-equality", what());
            }
            if r != c.reverse() || q != Some(c) {
                return viol("order-inconsistent", what());
            }
            if (a < b) != c.is_lt() || (a <= b) != c.is_le() || (a > b) != c.is_gt() || (a >= b) != c.is_ge() {
                return viol("order-inconsistent", what());
            }
            if c == Equal && !h {
                return viol("equal-objects-hash-differently", what());
            }
            for x in v {
                if c.is_le() && b.cmp(x).is_le() && a.cmp(x).is_gt() {
                    return viol("order-not-transitive", format!("{} {}", what(), hx(&x.bytes())));
                }
            }
        }
    }
    // a node that recognises what it has seen
    let mut seen: HashMap<T, usize> = HashMap::new();
    let mut sorted: BTreeMap<T, usize> = BTreeMap::new();
    let mut truth: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for (i, x) in v.iter().enumerate() {
        let t = *truth.entry(bytes[i].clone()).or_insert(i);
        let a = *seen.entry(x.clone()).or_insert(i);
        let b = *sorted.entry(x.clone()).or_insert(i);
        ctx.check("seen-objects-recognised");
        if a != t || b != t {
            return viol("seen-object-not-recognised", format!("{k:?}: {} first seen as number {t}, hash map says {a}, ordered map says {b}", hx(&bytes[i])));
        }
    }
    Ok(())
}
