//! Shared workload pieces.

use crate::ctx::{hx, viol, Ctx, R};
use crate::rg::{self, Mode, RG};
use crate::rng::SimRng;
use crate::suite::*;

impl Ctx {
    /// Ends the run with a violation if it concerns the property being checked;
    /// otherwise counts it and lets the run go on.
    pub fn report(&mut self, props: &[&str], class: &str, msg: String) -> R {
        if props.contains(&self.prop.as_str()) {
            return viol(class, msg);
        }
        self.probe(&format!("off-property:{class}"));
        Ok(())
    }

    pub fn suite(&mut self) -> Sid {
        let s = match self.draw(24) {
            0..=8 => Sid::Toy,
            9 => Sid::ToyLong,
            20 => Sid::ToyF,
            21 => Sid::ToyG,
            22 => Sid::RistrettoB,
            23 => Sid::P256B,
            10..=13 => Sid::Ristretto,
            14..=16 => Sid::P256,
            17..=18 => Sid::P384,
            _ => Sid::P521,
        };
        self.label = format!("{s:?}").to_lowercase();
        s
    }

    pub fn mode(&mut self) -> Mode {
        *self.pick(&[Mode::V, Mode::P, Mode::O])
    }

    pub fn vmode(&mut self) -> Mode {
        *self.pick(&[Mode::V, Mode::P])
    }

    pub fn info(&mut self) -> Option<Vec<u8>> {
        match self.draw(5) {
            0 => Some(self.bytes(4)),
            1 => None,
            2 => Some(vec![]),
            3 => Some(self.small_blob()),
            _ => Some(self.blob(65535)),
        }
    }

    pub fn codec(&mut self) -> Codec {
        *self.pick(&CODECS)
    }

    /// random non-zero scalar chosen by the harness
    pub fn scalar<G: RG>(&mut self) -> G::S {
        let s = self.seed();
        scalar_from::<G>(s)
    }
}

pub fn scalar_from<G: RG>(seed: u64) -> G::S {
    let mut n = seed;
    loop {
        let s = G::h2s(&n.to_be_bytes(), b"harness-scalar");
        if s != G::su64(0) {
            return s;
        }
        n = n.wrapping_add(1);
    }
}

/// A generator for draws of scalars; one in eight starts poorly.
/// the largest batch worth its cost in this suite
pub fn most<G: RG>() -> usize {
    match G::NAME {
        "toy" => 1100,
        "ristretto255" => 300,
        "P256" => 64,
        _ => 20,
    }
}

/// `n`, now and then a batch of a size that small numbers never show
pub fn some_batch<G: RG>(ctx: &mut Ctx, n: usize) -> usize {
    if !ctx.chance(1, 10) {
        return n;
    }
    let large: &[usize] = match G::NAME {
        "toy" => &[16, 17, 31, 33, 64, 65, 100, 128, 200, 255, 256, 257, 300],
        "ristretto255" => &[9, 16, 33],
        _ => &[8, 9],
    };
    ctx.probe("larger-batch");
    *ctx.pick(large)
}

pub fn generator<G: RG>(ctx: &mut Ctx) -> SimRng {
    let seed = ctx.seed();
    generator_from::<G>(seed)
}

pub fn generator_from<G: RG>(seed: u64) -> SimRng {
    let l = if G::SCALAR_LE { 64 } else { G::NS };
    if l < 16 || seed == 0 || crate::tape::mix(seed, 0x9e6c) % 8 != 0 {
        return SimRng::new(seed);
    }
    SimRng::poor(seed, l)
}

/// A scalar with a shape random ones never have: small, just below the order,
/// one bit, leading or embedded zero bytes.
pub fn shaped<G: RG>(ctx: &mut Ctx) -> G::S {
    let order = G::order_be();
    let l = order.len();
    let mut v = vec![0u8; l];
    match ctx.draw(6) {
        0 => v[l - 1] = 1 + ctx.draw(8) as u8,
        1 => {
            v = order;
            v[l - 1] = v[l - 1].wrapping_sub(1 + ctx.draw(4) as u8);
        }
        2 => {
            let b = ctx.below(l * 8 - 1);
            v[l - 1 - b / 8] = 1 << (b % 8);
        }
        3 => {
            let n = 1 + ctx.below(l - 1);
            let x = ctx.bytes(n);
            v[l - n..].copy_from_slice(&x);
        }
        4 => {
            v = ctx.bytes(l);
            v[0] = 0;
            let at = 1 + ctx.below(l - 1);
            let n = 1 + ctx.below(l - at);
            v[at..at + n].fill(0);
        }
        _ => {
            v = ctx.bytes(l);
            v[0] = 0;
            let n = 1 + ctx.below(l - 1);
            v[l - n..].fill(0);
        }
    }
    if G::SCALAR_LE {
        v.reverse();
    }
    match G::decs(&v) {
        Some(s) => {
            ctx.probe("shaped-key");
            s
        }
        None => ctx.scalar::<G>(),
    }
}

pub fn inf(i: &Option<Vec<u8>>) -> &[u8] {
    i.as_deref().unwrap_or(&[])
}

/// How a server's key was provisioned / is stored on its disk.
#[derive(Clone, Debug)]
pub enum KeyRec {
    Bytes(Vec<u8>),
    Seed(Vec<u8>, Vec<u8>),
    Obj(Vec<u8>, Codec),
}

pub fn load<S: Suite>(m: Mode, k: &KeyRec) -> Result<Sv<S>, String> {
    match k {
        KeyRec::Bytes(b) => Sv::with_key(m, b).map_err(|e| format!("{e:?}")),
        KeyRec::Seed(s, i) => Sv::from_seed(m, s, i).map_err(|e| format!("{e:?}")),
        KeyRec::Obj(b, c) => Sv::dec(m, b, *c),
    }
}

/// A key whose value the harness knows, with a record to provision it from.
pub fn provision<S: Suite>(ctx: &mut Ctx, m: Mode) -> (S::S, KeyRec) {
    match ctx.draw(5) {
        0 | 1 => {
            let s = ctx.scalar::<S>();
            (s, KeyRec::Bytes(S::encs(s)))
        }
        4 => {
            let s = shaped::<S>(ctx);
            (s, KeyRec::Bytes(S::encs(s)))
        }
        _ => {
            let seed = match ctx.draw(6) {
                4 => ctx.small_blob(),
                5 => ctx.blob(32767),
                _ => ctx.bytes(32),
            };
            let info = if ctx.chance(1, 6) { ctx.blob(32767) } else { ctx.small_blob() };
            match rg::derive::<S>(m, &seed, &info) {
                Some(s) => (s, KeyRec::Seed(seed, info)),
                None => {
                    let s = ctx.scalar::<S>();
                    (s, KeyRec::Bytes(S::encs(s)))
                }
            }
        }
    }
}

/// Is (c, s) byte for byte what the reference prover would emit for its nonce?
pub fn proof_is_reference<S: Suite>(m: Mode, sk: S::S, info: &[u8], bes: &[S::E], ees: &[S::E], p: (S::S, S::S)) -> bool {
    let k = if m == Mode::P {
        match rg::tweak::<S>(sk, info) {
            Ok(t) => t,
            Err(_) => return false,
        }
    } else {
        sk
    };
    let r = S::sadd(p.1, S::smul(p.0, k));
    matches!(rg::server_prove::<S>(m, sk, info, bes, ees, r), Ok(q) if q == p)
}

pub fn merr(e: rg::MErr) -> voprf::Error {
    match e {
        rg::MErr::Input => voprf::Error::Input,
        rg::MErr::Info => voprf::Error::Info,
        rg::MErr::Protocol => voprf::Error::Protocol,
    }
}

pub fn neg<G: RG>(s: G::S) -> G::S {
    G::ssub(G::su64(0), s)
}

/// One key pair with a library server loaded from it.
pub struct World<S: Suite> {
    pub m: Mode,
    pub sk: S::S,
    pub pk: S::E,
    pub rec: KeyRec,
    pub srv: Sv<S>,
}

pub fn world<S: Suite>(ctx: &mut Ctx, m: Mode) -> R<World<S>> {
    let (sk, rec) = provision::<S>(ctx, m);
    let srv = match ctx.lib("server.load", || load::<S>(m, &rec))? {
        Ok(s) => s,
        Err(e) => return viol("server-load-failed", format!("{e}: {rec:?}")),
    };
    Ok(World { m, sk, pk: S::mul(S::base(), sk), rec, srv })
}

/// One client session, with the ground truth the harness knows about it.
pub struct Sess<S: Suite> {
    pub input: Vec<u8>,
    pub cl: Cl<S>,
    pub be: S::BE,
    pub blind: S::S,
    pub bev: S::E,
}
impl<S: Suite> Clone for Sess<S> {
    fn clone(&self) -> Self {
        Sess { input: self.input.clone(), cl: self.cl.clone(), be: self.be.clone(), blind: self.blind, bev: self.bev }
    }
}

/// None: the input hashes to the identity (only in tiny groups)
pub fn session_opt<S: Suite>(ctx: &mut Ctx, m: Mode, input: Vec<u8>) -> R<Option<Sess<S>>> {
    let mut rng = generator::<S>(ctx);
    let ident = rg::h2g::<S>(m, &input) == S::ident();
    let r = ctx.lib("client.blind", || Cl::<S>::blind(m, &input, &mut rng))?;
    match r {
        Ok((cl, be)) => {
            if ident {
                ctx.report(&["C08"], "identity-input-accepted", format!("mode {m:?}: blind accepted input {} which hashes to the identity", hx(&input)))?;
                return Ok(None);
            }
            let bev = S::be_v(&be);
            let Some(blind) = cl.blind_scalar() else { return viol("blind-undecodable", "client state holds an invalid blind") };
            if bev != S::mul(rg::h2g::<S>(m, &input), blind) {
                ctx.report(&["C01", "C11", "C14"], "blinded-element-differs", format!("mode {m:?}: blinded element for {} is not blind * H(input)", hx(&input)))?;
            }
            Ok(Some(Sess { input, cl, be, blind, bev }))
        }
        Err(e) => {
            if ident && e == voprf::Error::Input {
                ctx.probe("identity-input-refused");
                return Ok(None);
            }
            viol("blind-failed", format!("mode {m:?}: blind of {} bytes failed: {e:?}", input.len()))
        }
    }
}

pub fn session<S: Suite>(ctx: &mut Ctx, m: Mode, input: Vec<u8>) -> R<Sess<S>> {
    match session_opt::<S>(ctx, m, input)? {
        Some(s) => Ok(s),
        None => viol("harness", "identity input in a large group"),
    }
}

/// `n` sessions with mostly short, mostly distinct inputs
pub fn sessions<S: Suite>(ctx: &mut Ctx, m: Mode, n: usize) -> R<Vec<Sess<S>>> {
    let base = ctx.small_blob();
    // one of any length and content among them
    let striking = if n > 0 && ctx.chance(1, 3) { ctx.below(n) } else { n };
    let mut v: Vec<Sess<S>> = Vec::with_capacity(n);
    for i in 0..n {
        let input = if i > 0 && n < 50 && ctx.chance(1, 6) {
            v[0].input.clone()
        } else if i == striking {
            ctx.blob(65535)
        } else {
            let mut b = base.clone();
            b.extend_from_slice(&(i as u32).to_be_bytes());
            b
        };
        v.push(session::<S>(ctx, m, input)?);
    }
    Ok(v)
}

pub fn bevs<S: Suite>(s: &[Sess<S>]) -> Vec<S::E> {
    s.iter().map(|x| x.bev).collect()
}
pub fn bes<S: Suite>(s: &[Sess<S>]) -> Yv<S::BE> {
    Yv(s.iter().map(|x| x.be.clone()).collect())
}
pub fn eevs<S: Suite>(e: &[S::EE]) -> Vec<S::E> {
    e.iter().map(|x| S::ee_v(x)).collect()
}
pub fn mkees<S: Suite>(e: &[S::E]) -> Vec<S::EE> {
    e.iter().map(|x| S::ee(*x)).collect()
}
pub fn inputs<S: Suite>(s: &[Sess<S>]) -> Vec<Vec<u8>> {
    s.iter().map(|x| x.input.clone()).collect()
}
pub fn clients<S: Suite>(s: &[Sess<S>]) -> Vec<Cl<S>> {
    s.iter().map(|x| x.cl.clone()).collect()
}

/// What a correct client answers to a response: the outputs or the error.
pub fn model_finalize<S: Suite>(m: Mode, pk: S::E, info: &[u8], s: &[Sess<S>], ees: &[S::E], p: Option<(S::S, S::S)>) -> Result<Vec<Vec<u8>>, voprf::Error> {
    if s.len() != ees.len() {
        return Err(voprf::Error::Batch);
    }
    if m.verifiable() {
        let b = bevs(s);
        match rg::client_verify::<S>(m, pk, info, &b, ees, p.expect("proof")) {
            Err(e) => return Err(merr(e)),
            Ok(false) => return Err(voprf::Error::ProofVerification),
            Ok(true) => {}
        }
    }
    s.iter().zip(ees).map(|(x, e)| rg::finalize::<S>(m, &x.input, info, x.blind, *e).map_err(merr)).collect()
}

/// The library's client on the same response.
pub fn lib_finalize<S: Suite>(ctx: &mut Ctx, m: Mode, pk: S::E, info: Option<&[u8]>, s: &[Sess<S>], ees: &[S::EE], p: Option<&S::PR>) -> R<Result<Vec<Vec<u8>>, voprf::Error>> {
    if s.len() == 1 && ees.len() == 1 && ctx.chance(1, 2) {
        let x = &s[0];
        return ctx.lib("client.finalize", || x.cl.finalize(&x.input, &ees[0], p, pk, info).map(|o| vec![o]));
    }
    let (i, c) = (inputs(s), clients(s));
    let r = ctx.lib("client.batch_finalize", || batch_finalize::<S>(m, &i, &c, ees, p, pk, info))?;
    match r {
        Ok(v) => Ok(v.into_iter().collect()),
        Err(e) => Ok(Err(e)),
    }
}

pub fn ro(r: &Result<Vec<Vec<u8>>, voprf::Error>) -> String {
    match r {
        Ok(v) => format!("{} outputs [{}..]", v.len(), v.first().map(|x| hx(x)).unwrap_or_default()),
        Err(e) => format!("{e:?}"),
    }
}

/// Equal verdicts; where several things are wrong at once, which of the
/// documented errors is reported is not laid down.
#[allow(clippy::too_many_arguments)]
pub fn same_verdict<S: Suite>(m: Mode, pk: S::E, info: &[u8], n: usize, sent: usize, got: &Result<Vec<Vec<u8>>, voprf::Error>, want: &Result<Vec<Vec<u8>>, voprf::Error>) -> bool {
    if got == want {
        return true;
    }
    let (Err(g), Err(w)) = (got, want) else { return false };
    let mut may: Vec<voprf::Error> = Vec::new();
    if n != sent {
        may.push(voprf::Error::Batch);
    }
    if m == Mode::P {
        if let Err(e) = rg::tweaked_key::<S>(pk, info) {
            may.push(merr(e));
        }
    }
    may.contains(g) && may.contains(w)
}
