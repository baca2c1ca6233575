//! A stateless node over the library's plain interface: requests and answers
//! are lists of byte strings, state travels as native encodings. The simulator
//! compiles this file against the library with every feature; `lean/` compiles
//! it against the library with fewer features and other profiles. All of them
//! must give the same answers.

use std::panic::{catch_unwind, AssertUnwindSafe};

use rand_core::{CryptoRng, Error as RngError, RngCore};
use voprf::{
    BlindedElement, Error, EvaluationElement, Group, OprfClient, OprfServer, PoprfClient, PoprfServer, PreparedEvaluationElement, Proof, VoprfClient,
    VoprfServer,
};

pub type Msg = Vec<Vec<u8>>;

/// The generator: 8 bytes of seed, then what the first draws yield
/// (0 = ordinary, 1 = zeros, 2 = ones) for so many bytes.
pub struct NodeRng {
    s: u64,
    kind: u8,
    left: u8,
}
impl NodeRng {
    pub fn new(b: &[u8]) -> Self {
        let mut s = [0; 8];
        let n = b.len().min(8);
        s[..n].copy_from_slice(&b[..n]);
        NodeRng { s: u64::from_le_bytes(s), kind: b.get(8).copied().unwrap_or(0), left: b.get(9).copied().unwrap_or(0) }
    }
    fn byte(&mut self) -> u8 {
        if self.left > 0 && self.kind != 0 {
            self.left -= 1;
            return if self.kind == 1 { 0 } else { 255 };
        }
        self.s = self.s.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        (z ^ (z >> 31)) as u8
    }
}
impl RngCore for NodeRng {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        d.iter_mut().for_each(|x| *x = self.byte());
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), RngError> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for NodeRng {}

enum Fail {
    Lib(Error),
    Req,
}
impl From<Error> for Fail {
    fn from(e: Error) -> Self {
        Fail::Lib(e)
    }
}
type A = Result<Msg, Fail>;

struct Args<'a>(std::slice::Iter<'a, Vec<u8>>);
impl<'a> Args<'a> {
    fn next(&mut self) -> Result<&'a [u8], Fail> {
        self.0.next().map(|v| v.as_slice()).ok_or(Fail::Req)
    }
    fn byte(&mut self) -> Result<u8, Fail> {
        self.next()?.first().copied().ok_or(Fail::Req)
    }
    fn rng(&mut self) -> Result<NodeRng, Fail> {
        Ok(NodeRng::new(self.next()?))
    }
    /// an empty string is no info, otherwise the info follows a leading byte
    fn info(&mut self) -> Result<Option<&'a [u8]>, Fail> {
        Ok(self.next()?.split_first().map(|(_, i)| i))
    }
    fn rest(&mut self) -> Vec<&'a [u8]> {
        self.0.by_ref().map(|v| v.as_slice()).collect()
    }
}

pub const NEW: u8 = 0;
pub const SEED: u8 = 1;
pub const KEY: u8 = 2;
pub const BLIND: u8 = 3;
pub const EVAL: u8 = 4;
pub const BATCH: u8 = 5;
pub const FINALIZE: u8 = 6;
pub const BATCH_FINALIZE: u8 = 7;
pub const DIRECT: u8 = 8;
pub const DECODE: u8 = 9;
pub const SCALAR: u8 = 10;
pub const HASH: u8 = 11;

macro_rules! node {
    ($name:ident, $cs:ty) => {
        fn $name(op: u8, a: &mut Args) -> A {
            type G = <$cs as voprf::CipherSuite>::Group;
            type H = <$cs as voprf::CipherSuite>::Hash;
            let enc = |e| G::serialize_elem(e).to_vec();
            let decs = |v: &[&[u8]]| v.iter().map(|b| BlindedElement::<$cs>::deserialize(b)).collect::<Result<Vec<_>, _>>();
            let evals = |v: &[&[u8]]| v.iter().map(|b| EvaluationElement::<$cs>::deserialize(b)).collect::<Result<Vec<_>, _>>();
            if op == DECODE {
                let k = a.byte()?;
                let b = a.next()?;
                return Ok(vec![match k {
                    0 => OprfClient::<$cs>::deserialize(b)?.serialize().to_vec(),
                    1 => VoprfClient::<$cs>::deserialize(b)?.serialize().to_vec(),
                    2 => PoprfClient::<$cs>::deserialize(b)?.serialize().to_vec(),
                    3 => OprfServer::<$cs>::deserialize(b)?.serialize().to_vec(),
                    4 => VoprfServer::<$cs>::deserialize(b)?.serialize().to_vec(),
                    5 => PoprfServer::<$cs>::deserialize(b)?.serialize().to_vec(),
                    6 => BlindedElement::<$cs>::deserialize(b)?.serialize().to_vec(),
                    7 => EvaluationElement::<$cs>::deserialize(b)?.serialize().to_vec(),
                    8 => Proof::<$cs>::deserialize(b)?.serialize().to_vec(),
                    9 => enc(G::deserialize_elem(b)?),
                    _ => G::serialize_scalar(G::deserialize_scalar(b)?).to_vec(),
                }]);
            }
            if op == SCALAR {
                let s = G::random_scalar(&mut a.rng()?);
                return Ok(vec![G::serialize_scalar(s).to_vec(), G::serialize_scalar(G::invert_scalar(s)).to_vec(), enc(G::base_elem() * &s)]);
            }
            if op == HASH {
                let dst = a.next()?;
                let (d, e) = dst.split_at(dst.len() / 2);
                let v = a.rest();
                let f = |r: Result<Vec<u8>, voprf::InternalError>| r.unwrap_or_else(|e| format!("{e:?}").into_bytes());
                return Ok(vec![f(G::hash_to_scalar::<H>(&v, &[d, e]).map(|s| G::serialize_scalar(s).to_vec())), f(G::hash_to_curve::<H>(&v, &[d, e]).map(enc))]);
            }
            match (op, a.byte()?) {
                (NEW, 0) => Ok(vec![OprfServer::<$cs>::new(&mut a.rng()?)?.serialize().to_vec()]),
                (NEW, 1) => VoprfServer::<$cs>::new(&mut a.rng()?).map(|s| vec![s.serialize().to_vec(), enc(s.get_public_key())]).map_err(Fail::Lib),
                (NEW, _) => PoprfServer::<$cs>::new(&mut a.rng()?).map(|s| vec![s.serialize().to_vec(), enc(s.get_public_key())]).map_err(Fail::Lib),
                (SEED, 0) => Ok(vec![OprfServer::<$cs>::new_from_seed(a.next()?, a.next()?)?.serialize().to_vec()]),
                (SEED, 1) => VoprfServer::<$cs>::new_from_seed(a.next()?, a.next()?).map(|s| vec![s.serialize().to_vec(), enc(s.get_public_key())]).map_err(Fail::Lib),
                (SEED, _) => PoprfServer::<$cs>::new_from_seed(a.next()?, a.next()?).map(|s| vec![s.serialize().to_vec(), enc(s.get_public_key())]).map_err(Fail::Lib),
                (KEY, 0) => Ok(vec![OprfServer::<$cs>::new_with_key(a.next()?)?.serialize().to_vec()]),
                (KEY, 1) => VoprfServer::<$cs>::new_with_key(a.next()?).map(|s| vec![s.serialize().to_vec(), enc(s.get_public_key())]).map_err(Fail::Lib),
                (KEY, _) => PoprfServer::<$cs>::new_with_key(a.next()?).map(|s| vec![s.serialize().to_vec(), enc(s.get_public_key())]).map_err(Fail::Lib),
                (BLIND, 0) => OprfClient::<$cs>::blind(a.next()?, &mut a.rng()?).map(|r| vec![r.state.serialize().to_vec(), r.message.serialize().to_vec()]).map_err(Fail::Lib),
                (BLIND, 1) => VoprfClient::<$cs>::blind(a.next()?, &mut a.rng()?).map(|r| vec![r.state.serialize().to_vec(), r.message.serialize().to_vec()]).map_err(Fail::Lib),
                (BLIND, _) => PoprfClient::<$cs>::blind(a.next()?, &mut a.rng()?).map(|r| vec![r.state.serialize().to_vec(), r.message.serialize().to_vec()]).map_err(Fail::Lib),
                (EVAL, 0) => {
                    let s = OprfServer::<$cs>::deserialize(a.next()?)?;
                    a.next()?;
                    a.next()?;
                    Ok(vec![s.blind_evaluate(&BlindedElement::deserialize(a.next()?)?).serialize().to_vec()])
                }
                (EVAL, 1) => {
                    let s = VoprfServer::<$cs>::deserialize(a.next()?)?;
                    let mut r = a.rng()?;
                    a.next()?;
                    let x = s.blind_evaluate(&mut r, &BlindedElement::deserialize(a.next()?)?);
                    Ok(vec![x.message.serialize().to_vec(), x.proof.serialize().to_vec()])
                }
                (EVAL, _) => {
                    let s = PoprfServer::<$cs>::deserialize(a.next()?)?;
                    let mut r = a.rng()?;
                    let i = a.info()?;
                    let x = s.blind_evaluate(&mut r, &BlindedElement::deserialize(a.next()?)?, i)?;
                    Ok(vec![x.message.serialize().to_vec(), x.proof.serialize().to_vec()])
                }
                (BATCH, 1) => {
                    let two = a.byte()?;
                    let s = VoprfServer::<$cs>::deserialize(a.next()?)?;
                    let mut r = a.rng()?;
                    a.next()?;
                    let b = decs(&a.rest())?;
                    #[cfg(feature = "alloc")]
                    if two == 0 {
                        let x = s.batch_blind_evaluate(&mut r, &b)?;
                        let mut m = vec![x.proof.serialize().to_vec()];
                        m.extend(x.messages.iter().map(|e| e.serialize().to_vec()));
                        return Ok(m);
                    }
                    let _ = two;
                    let p: Vec<PreparedEvaluationElement<$cs>> = s.batch_blind_evaluate_prepare(b.iter()).collect();
                    let x = s.batch_blind_evaluate_finish(&mut r, b.iter(), &p)?;
                    let mut m = vec![x.proof.serialize().to_vec()];
                    m.extend(x.messages.map(|e| e.serialize().to_vec()));
                    Ok(m)
                }
                (BATCH, _) => {
                    let two = a.byte()?;
                    let s = PoprfServer::<$cs>::deserialize(a.next()?)?;
                    let mut r = a.rng()?;
                    let i = a.info()?;
                    let b = decs(&a.rest())?;
                    #[cfg(feature = "alloc")]
                    if two == 0 {
                        let x = s.batch_blind_evaluate(&mut r, &b, i)?;
                        let mut m = vec![x.proof.serialize().to_vec()];
                        m.extend(x.messages.iter().map(|e| e.serialize().to_vec()));
                        return Ok(m);
                    }
                    let _ = two;
                    let q = s.batch_blind_evaluate_prepare(b.iter(), i)?;
                    let t = q.prepared_tweak;
                    let p: Vec<PreparedEvaluationElement<$cs>> = q.prepared_evaluation_elements.collect();
                    let x = PoprfServer::<$cs>::batch_blind_evaluate_finish(&mut r, b.iter(), &p, &t)?;
                    let mut m = vec![x.proof.serialize().to_vec()];
                    m.extend(x.messages.map(|e| e.serialize().to_vec()));
                    Ok(m)
                }
                (FINALIZE, 0) => {
                    let (c, i) = (OprfClient::<$cs>::deserialize(a.next()?)?, a.next()?);
                    Ok(vec![c.finalize(i, &EvaluationElement::deserialize(a.next()?)?)?.to_vec()])
                }
                (FINALIZE, 1) => {
                    let (c, i) = (VoprfClient::<$cs>::deserialize(a.next()?)?, a.next()?);
                    let (e, p) = (EvaluationElement::deserialize(a.next()?)?, Proof::deserialize(a.next()?)?);
                    Ok(vec![c.finalize(i, &e, &p, G::deserialize_elem(a.next()?)?)?.to_vec()])
                }
                (FINALIZE, _) => {
                    let (c, i) = (PoprfClient::<$cs>::deserialize(a.next()?)?, a.next()?);
                    let (e, p) = (EvaluationElement::deserialize(a.next()?)?, Proof::deserialize(a.next()?)?);
                    let pk = G::deserialize_elem(a.next()?)?;
                    Ok(vec![c.finalize(i, &e, &p, pk, a.info()?)?.to_vec()])
                }
                (BATCH_FINALIZE, m) => {
                    let p = Proof::<$cs>::deserialize(a.next()?)?;
                    let pk = G::deserialize_elem(a.next()?)?;
                    let info = a.info()?;
                    let v = a.rest();
                    let n = v.len() / 3;
                    let (c, ie) = v.split_at(n);
                    let (i, e) = ie.split_at(n);
                    let e = evals(e)?;
                    let out = |r: Result<_, Error>| match r {
                        Ok(o) => {
                            let o: digest::Output<H> = o;
                            o.to_vec()
                        }
                        Err(e) => format!("{e:?}").into_bytes(),
                    };
                    if m == 1 {
                        let c = c.iter().map(|b| VoprfClient::<$cs>::deserialize(b)).collect::<Result<Vec<_>, _>>()?;
                        let i = i.to_vec();
                        let r = VoprfClient::batch_finalize(&i, &c, &e, &p, pk)?.map(out).collect();
                        Ok(r)
                    } else {
                        let c = c.iter().map(|b| PoprfClient::<$cs>::deserialize(b)).collect::<Result<Vec<_>, _>>()?;
                        let r = PoprfClient::batch_finalize(i.iter().copied(), &c, &e, &p, pk, info)?.map(out).collect();
                        Ok(r)
                    }
                }
                (DIRECT, 0) => Ok(vec![OprfServer::<$cs>::deserialize(a.next()?)?.evaluate(a.next()?)?.to_vec()]),
                (DIRECT, 1) => Ok(vec![VoprfServer::<$cs>::deserialize(a.next()?)?.evaluate(a.next()?)?.to_vec()]),
                (DIRECT, _) => {
                    let s = PoprfServer::<$cs>::deserialize(a.next()?)?;
                    let i = a.next()?;
                    Ok(vec![s.evaluate(i, a.info()?)?.to_vec()])
                }
                _ => Err(Fail::Req),
            }
        }
    };
}

node!(p256_node, p256::NistP256);
node!(p384_node, p384::NistP384);
node!(p521_node, p521::NistP521);
#[cfg(feature = "ristretto255-ciphersuite")]
node!(ristretto_node, voprf::Ristretto255);

/// request: [operation, suite, ...]; answer: ["ok", ...], ["error", which],
/// ["panic"] or ["absent"] if this build has no such suite
pub fn handle(req: &[Vec<u8>]) -> Msg {
    let mut a = Args(req.iter());
    let r = catch_unwind(AssertUnwindSafe(|| {
        let op = a.byte()?;
        match a.byte()? {
            0 => p256_node(op, &mut a),
            1 => p384_node(op, &mut a),
            2 => p521_node(op, &mut a),
            #[cfg(feature = "ristretto255-ciphersuite")]
            3 => ristretto_node(op, &mut a),
            _ => Err(Fail::Req),
        }
    }));
    let mut m = vec![];
    match r {
        Ok(Ok(v)) => {
            m.push(b"ok".to_vec());
            m.extend(v);
        }
        Ok(Err(Fail::Lib(e))) => m.extend([b"error".to_vec(), format!("{e:?}").into_bytes()]),
        Ok(Err(Fail::Req)) => m.push(b"absent".to_vec()),
        Err(_) => m.push(b"panic".to_vec()),
    }
    m
}

pub fn write(w: &mut impl std::io::Write, m: &[Vec<u8>]) -> std::io::Result<()> {
    let mut b = (m.len() as u32).to_le_bytes().to_vec();
    for x in m {
        b.extend((x.len() as u32).to_le_bytes());
        b.extend(x);
    }
    w.write_all(&b)?;
    w.flush()
}

pub fn read(r: &mut impl std::io::Read) -> std::io::Result<Msg> {
    let mut n = [0; 4];
    r.read_exact(&mut n)?;
    let mut m = vec![];
    for _ in 0..u32::from_le_bytes(n) {
        let mut l = [0; 4];
        r.read_exact(&mut l)?;
        let mut b = vec![0; u32::from_le_bytes(l) as usize];
        r.read_exact(&mut b)?;
        m.push(b);
    }
    Ok(m)
}
