//! Reference groups and the independent RFC 9497 reference model. Nothing here
//! uses the library under test (the toy group's arithmetic is shared: it is
//! the harness's own).

use digest::core_api::BlockSizeUser;
use digest::Digest;
use std::fmt::Debug;

/// Independent expand_message_xmd (RFC 9380 section 5.3.1).
pub fn expand_xmd<D: Digest + BlockSizeUser>(msg: &[u8], dst: &[u8], len: usize) -> Vec<u8> {
    let b = <D as Digest>::output_size();
    let s = <D as BlockSizeUser>::block_size();
    let mut dstp = if dst.len() > 255 {
        let mut h = D::new();
        h.update(b"H2C-OVERSIZE-DST-");
        h.update(dst);
        h.finalize().to_vec()
    } else {
        dst.to_vec()
    };
    dstp.push(dstp.len() as u8);
    let ell = len.div_ceil(b);
    let mut h = D::new();
    h.update(vec![0u8; s]);
    h.update(msg);
    h.update([(len >> 8) as u8, len as u8, 0]);
    h.update(&dstp);
    let b0 = h.finalize().to_vec();
    let mut out = Vec::new();
    let mut prev = vec![0u8; b];
    for i in 1..=ell {
        let x: Vec<u8> = b0.iter().zip(&prev).map(|(a, b)| a ^ b).collect();
        let mut h = D::new();
        h.update(&x);
        h.update([i as u8]);
        h.update(&dstp);
        prev = h.finalize().to_vec();
        out.extend_from_slice(&prev);
    }
    out.truncate(len);
    out
}

pub trait RG: 'static {
    const NAME: &'static str;
    const ID: &'static str;
    const NE: usize;
    const NS: usize;
    type E: Copy + PartialEq + Debug + Send + Sync + 'static;
    type S: Copy + PartialEq + Debug + Send + Sync + 'static;
    fn add(a: Self::E, b: Self::E) -> Self::E;
    fn mul(a: Self::E, s: Self::S) -> Self::E;
    fn base() -> Self::E;
    fn ident() -> Self::E;
    fn sadd(a: Self::S, b: Self::S) -> Self::S;
    fn ssub(a: Self::S, b: Self::S) -> Self::S;
    fn smul(a: Self::S, b: Self::S) -> Self::S;
    fn sinv(a: Self::S) -> Self::S;
    fn su64(v: u64) -> Self::S;
    fn enc(e: Self::E) -> Vec<u8>;
    fn dec(b: &[u8]) -> Option<Self::E>;
    fn encs(s: Self::S) -> Vec<u8>;
    fn decs(b: &[u8]) -> Option<Self::S>;
    fn h2c(msg: &[u8], dst: &[u8]) -> Self::E;
    fn h2s(msg: &[u8], dst: &[u8]) -> Self::S;
    fn hash(parts: &[&[u8]]) -> Vec<u8>;
    /// group order, big endian, NS bytes
    fn order_be() -> Vec<u8>;
    /// scalar encodings are little endian
    const SCALAR_LE: bool;
    /// field prime, big endian, if elements are SEC1 compressed points
    fn sec1_prime() -> Option<Vec<u8>>;
    /// uncompressed SEC1 form, when there is one
    fn uncompressed(_e: Self::E) -> Option<Vec<u8>> {
        None
    }
    /// order is so small that algebraic coincidences must be expected
    fn small() -> bool {
        false
    }
}

// ---------------------------------------------------------------- groups ----

macro_rules! ristretto_rg {
    ($ty:ident, $id:expr, $hash:ty) => {
pub struct $ty;
impl RG for $ty {
    const NAME: &'static str = "ristretto255";
    const ID: &'static str = $id;
    const NE: usize = 32;
    const NS: usize = 32;
    const SCALAR_LE: bool = true;
    type E = curve25519_dalek::ristretto::RistrettoPoint;
    type S = curve25519_dalek::scalar::Scalar;
    fn add(a: Self::E, b: Self::E) -> Self::E {
        a + b
    }
    fn mul(a: Self::E, s: Self::S) -> Self::E {
        a * s
    }
    fn base() -> Self::E {
        curve25519_dalek::constants::RISTRETTO_BASEPOINT_POINT
    }
    fn ident() -> Self::E {
        <Self::E as curve25519_dalek::traits::Identity>::identity()
    }
    fn sadd(a: Self::S, b: Self::S) -> Self::S {
        a + b
    }
    fn ssub(a: Self::S, b: Self::S) -> Self::S {
        a - b
    }
    fn smul(a: Self::S, b: Self::S) -> Self::S {
        a * b
    }
    fn sinv(a: Self::S) -> Self::S {
        a.invert()
    }
    fn su64(v: u64) -> Self::S {
        Self::S::from(v)
    }
    fn enc(e: Self::E) -> Vec<u8> {
        e.compress().to_bytes().to_vec()
    }
    fn dec(b: &[u8]) -> Option<Self::E> {
        let a: [u8; 32] = b.try_into().ok()?;
        let p = curve25519_dalek::ristretto::CompressedRistretto(a).decompress()?;
        (p != Self::ident()).then_some(p)
    }
    fn encs(s: Self::S) -> Vec<u8> {
        s.to_bytes().to_vec()
    }
    fn decs(b: &[u8]) -> Option<Self::S> {
        let a: [u8; 32] = b.try_into().ok()?;
        let mut be = a;
        be.reverse();
        if be.as_slice() >= Self::order_be().as_slice() || a == [0; 32] {
            return None;
        }
        Some(Self::S::from_bytes_mod_order(a))
    }
    fn h2c(msg: &[u8], dst: &[u8]) -> Self::E {
        let u: [u8; 64] = expand_xmd::<$hash>(msg, dst, 64).try_into().unwrap();
        Self::E::from_uniform_bytes(&u)
    }
    fn h2s(msg: &[u8], dst: &[u8]) -> Self::S {
        let u: [u8; 64] = expand_xmd::<$hash>(msg, dst, 64).try_into().unwrap();
        Self::S::from_bytes_mod_order_wide(&u)
    }
    fn hash(parts: &[&[u8]]) -> Vec<u8> {
        let mut h = <$hash>::new();
        for p in parts {
            h.update(p);
        }
        h.finalize().to_vec()
    }
    fn order_be() -> Vec<u8> {
        hex::decode("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed").unwrap()
    }
    fn sec1_prime() -> Option<Vec<u8>> {
        None
    }
}
    };
}
ristretto_rg!(RRistretto, "ristretto255-SHA512", sha2::Sha512);
// the same group with another hash
ristretto_rg!(RRistrettoB, "ristretto255-SHA256", sha2::Sha256);

macro_rules! nist_rg {
    ($ty:ident, $krate:ident, $curve:ident, $name:expr, $id:expr, $hash:ty, $ns:expr, $l:expr, $order:expr, $prime:expr) => {
        pub struct $ty;
        impl RG for $ty {
            const NAME: &'static str = $name;
            const ID: &'static str = $id;
            const NE: usize = $ns + 1;
            const NS: usize = $ns;
            const SCALAR_LE: bool = false;
            type E = $krate::ProjectivePoint;
            type S = $krate::Scalar;
            fn add(a: Self::E, b: Self::E) -> Self::E {
                a + b
            }
            fn mul(a: Self::E, s: Self::S) -> Self::E {
                a * s
            }
            fn base() -> Self::E {
                Self::E::GENERATOR
            }
            fn ident() -> Self::E {
                Self::E::IDENTITY
            }
            fn sadd(a: Self::S, b: Self::S) -> Self::S {
                a + b
            }
            fn ssub(a: Self::S, b: Self::S) -> Self::S {
                a - b
            }
            fn smul(a: Self::S, b: Self::S) -> Self::S {
                a * b
            }
            fn sinv(a: Self::S) -> Self::S {
                Option::from(a.invert()).expect("non-zero")
            }
            fn su64(v: u64) -> Self::S {
                Self::S::from(v)
            }
            fn enc(e: Self::E) -> Vec<u8> {
                use elliptic_curve::sec1::ToEncodedPoint;
                if e == Self::ident() {
                    return vec![0; Self::NE];
                }
                // x || y uncompressed, compressed by hand
                let p = e.to_affine().to_encoded_point(false);
                let y = p.y().unwrap();
                let mut v = vec![2 + (y[y.len() - 1] & 1)];
                v.extend_from_slice(p.x().unwrap());
                v
            }
            fn dec(b: &[u8]) -> Option<Self::E> {
                use elliptic_curve::sec1::FromEncodedPoint;
                if b.len() != Self::NE || (b[0] != 2 && b[0] != 3) {
                    return None;
                }
                if &b[1..] >= Self::sec1_prime().unwrap().as_slice() {
                    return None;
                }
                let p = $krate::EncodedPoint::from_bytes(b).ok()?;
                let a: Option<$krate::AffinePoint> = $krate::AffinePoint::from_encoded_point(&p).into();
                a.map(Self::E::from)
            }
            fn encs(s: Self::S) -> Vec<u8> {
                s.to_bytes().to_vec()
            }
            fn decs(b: &[u8]) -> Option<Self::S> {
                use elliptic_curve::PrimeField;
                if b.len() != Self::NS || b >= Self::order_be().as_slice() || b.iter().all(|x| *x == 0) {
                    return None;
                }
                let fb = $krate::FieldBytes::clone_from_slice(b);
                Self::S::from_repr(fb).into()
            }
            fn h2c(msg: &[u8], dst: &[u8]) -> Self::E {
                use elliptic_curve::hash2curve::{ExpandMsgXmd, GroupDigest};
                $krate::$curve::hash_from_bytes::<ExpandMsgXmd<$hash>>(&[msg], &[dst]).unwrap()
            }
            fn h2s(msg: &[u8], dst: &[u8]) -> Self::S {
                use elliptic_curve::hash2curve::FromOkm;
                let u = expand_xmd::<$hash>(msg, dst, $l);
                Self::S::from_okm(generic_array::GenericArray::from_slice(&u))
            }
            fn hash(parts: &[&[u8]]) -> Vec<u8> {
                let mut h = <$hash>::new();
                for p in parts {
                    h.update(p);
                }
                h.finalize().to_vec()
            }
            fn order_be() -> Vec<u8> {
                hex::decode($order).unwrap()
            }
            fn sec1_prime() -> Option<Vec<u8>> {
                Some(hex::decode($prime).unwrap())
            }
            fn uncompressed(e: Self::E) -> Option<Vec<u8>> {
                use elliptic_curve::sec1::ToEncodedPoint;
                (e != Self::ident()).then(|| e.to_affine().to_encoded_point(false).as_bytes().to_vec())
            }
        }
    };
}
nist_rg!(RP256, p256, NistP256, "P256", "P256-SHA256", sha2::Sha256, 32, 48,
    "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
    "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
// the same group with another hash
nist_rg!(RP256B, p256, NistP256, "P256", "P256-SHA512", sha2::Sha512, 32, 48,
    "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
    "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff");
nist_rg!(RP384, p384, NistP384, "P384", "P384-SHA384", sha2::Sha384, 48, 72,
    "ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973",
    "fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff");
nist_rg!(RP521, p521, NistP521, "P521", "P521-SHA512", sha2::Sha512, 66, 98,
    "01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409",
    "01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff");

/// The toy group under three suite names: the usual one, one that differs in
/// the last character, one longer than a domain separation tag may be.
pub struct RToyN<const K: u8>;
pub type RToy = RToyN<0>;
pub type RToyB = RToyN<1>;
pub type RToyLong = RToyN<2>;
/// a long name, and the same one with another end / another beginning
pub type RToyC = RToyN<3>;
pub type RToyD = RToyN<4>;
pub type RToyE = RToyN<5>;
/// other hashes
pub type RToyF = RToyN<6>;
pub type RToyG = RToyN<7>;
impl<const K: u8> RG for RToyN<K> {
    const NAME: &'static str = "toy";
    const ID: &'static str = match K {
        0 => crate::toy::ID0,
        1 => crate::toy::ID1,
        3 => crate::toy::ID3,
        4 => crate::toy::ID4,
        5 => crate::toy::ID5,
        6 => crate::toy::ID6,
        7 => crate::toy::ID7,
        _ => crate::toy::ID2,
    };
    const NE: usize = 9;
    const NS: usize = 8;
    const SCALAR_LE: bool = false;
    type E = crate::toy::TE;
    type S = crate::toy::TS;
    fn add(a: Self::E, b: Self::E) -> Self::E {
        crate::toy::TE(crate::toy::addmod(a.0, b.0))
    }
    fn mul(a: Self::E, s: Self::S) -> Self::E {
        crate::toy::TE(crate::toy::mulmod(a.0, s.0))
    }
    fn base() -> Self::E {
        crate::toy::TE(crate::toy::gen() % crate::toy::q())
    }
    fn ident() -> Self::E {
        crate::toy::TE(0)
    }
    fn sadd(a: Self::S, b: Self::S) -> Self::S {
        crate::toy::TS(crate::toy::addmod(a.0, b.0))
    }
    fn ssub(a: Self::S, b: Self::S) -> Self::S {
        crate::toy::TS(crate::toy::addmod(a.0, crate::toy::q() - b.0))
    }
    fn smul(a: Self::S, b: Self::S) -> Self::S {
        crate::toy::TS(crate::toy::mulmod(a.0, b.0))
    }
    fn sinv(a: Self::S) -> Self::S {
        crate::toy::TS(crate::toy::powmod(a.0, crate::toy::q() - 2))
    }
    fn su64(v: u64) -> Self::S {
        crate::toy::TS(v % crate::toy::q())
    }
    fn enc(e: Self::E) -> Vec<u8> {
        let mut v = vec![2];
        v.extend_from_slice(&e.0.to_be_bytes());
        v
    }
    fn dec(b: &[u8]) -> Option<Self::E> {
        if b.len() != 9 || b[0] != 2 {
            return None;
        }
        let v = u64::from_be_bytes(b[1..].try_into().unwrap());
        (v != 0 && v < crate::toy::q()).then_some(crate::toy::TE(v))
    }
    fn encs(s: Self::S) -> Vec<u8> {
        s.0.to_be_bytes().to_vec()
    }
    fn decs(b: &[u8]) -> Option<Self::S> {
        let v = u64::from_be_bytes(b.try_into().ok()?);
        (v != 0 && v < crate::toy::q()).then_some(crate::toy::TS(v))
    }
    fn h2c(msg: &[u8], dst: &[u8]) -> Self::E {
        use voprf::Group;
        match K {
            6 => crate::toy::Toy::hash_to_curve::<sha2::Sha512>(&[msg], &[dst]).unwrap(),
            7 => crate::toy::Toy::hash_to_curve::<sha2::Sha224>(&[msg], &[dst]).unwrap(),
            _ => crate::toy::Toy::hash_to_curve::<sha2::Sha256>(&[msg], &[dst]).unwrap(),
        }
    }
    fn h2s(msg: &[u8], dst: &[u8]) -> Self::S {
        use voprf::Group;
        match K {
            6 => crate::toy::Toy::hash_to_scalar::<sha2::Sha512>(&[msg], &[dst]).unwrap(),
            7 => crate::toy::Toy::hash_to_scalar::<sha2::Sha224>(&[msg], &[dst]).unwrap(),
            _ => crate::toy::Toy::hash_to_scalar::<sha2::Sha256>(&[msg], &[dst]).unwrap(),
        }
    }
    fn hash(parts: &[&[u8]]) -> Vec<u8> {
        fn run<D: Digest>(parts: &[&[u8]]) -> Vec<u8> {
            let mut h = D::new();
            for p in parts {
                h.update(p);
            }
            h.finalize().to_vec()
        }
        match K {
            6 => run::<sha2::Sha512>(parts),
            7 => run::<sha2::Sha224>(parts),
            _ => run::<sha2::Sha256>(parts),
        }
    }
    fn order_be() -> Vec<u8> {
        crate::toy::q().to_be_bytes().to_vec()
    }
    fn sec1_prime() -> Option<Vec<u8>> {
        None
    }
    fn small() -> bool {
        crate::toy::q() < (1 << 40)
    }
}

// ----------------------------------------------------------------- model ----

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Mode {
    O,
    V,
    P,
}

pub const MODES: [Mode; 3] = [Mode::O, Mode::V, Mode::P];

impl Mode {
    pub fn byte(self) -> u8 {
        match self {
            Mode::O => 0,
            Mode::V => 1,
            Mode::P => 2,
        }
    }
    pub fn verifiable(self) -> bool {
        self != Mode::O
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MErr {
    Input,
    Info,
    Protocol,
}

pub fn ctx_string<G: RG>(mode: Mode) -> Vec<u8> {
    let mut v = b"OPRFV1-".to_vec();
    v.push(mode.byte());
    v.push(b'-');
    v.extend_from_slice(G::ID.as_bytes());
    v
}

pub fn dst<G: RG>(prefix: &str, mode: Mode) -> Vec<u8> {
    let mut v = prefix.as_bytes().to_vec();
    v.extend(ctx_string::<G>(mode));
    v
}

fn l2(n: usize) -> [u8; 2] {
    [(n >> 8) as u8, n as u8]
}

pub fn h2g<G: RG>(mode: Mode, input: &[u8]) -> G::E {
    G::h2c(input, &dst::<G>("HashToGroup-", mode))
}

pub fn h2s<G: RG>(mode: Mode, msg: &[u8]) -> G::S {
    G::h2s(msg, &dst::<G>("HashToScalar-", mode))
}

pub fn derive<G: RG>(mode: Mode, seed: &[u8], info: &[u8]) -> Option<G::S> {
    let d = dst::<G>("DeriveKeyPair", mode);
    for ctr in 0..=255u8 {
        let mut m = seed.to_vec();
        m.extend_from_slice(&l2(info.len()));
        m.extend_from_slice(info);
        m.push(ctr);
        let s = G::h2s(&m, &d);
        if s != G::su64(0) {
            return Some(s);
        }
    }
    None
}

pub fn blind<G: RG>(mode: Mode, input: &[u8], r: G::S) -> Result<G::E, MErr> {
    if input.len() > 65535 {
        return Err(MErr::Input);
    }
    let p = h2g::<G>(mode, input);
    if p == G::ident() {
        return Err(MErr::Input);
    }
    Ok(G::mul(p, r))
}

pub fn info_scalar<G: RG>(info: &[u8]) -> G::S {
    let mut m = b"Info".to_vec();
    m.extend_from_slice(&l2(info.len()));
    m.extend_from_slice(info);
    h2s::<G>(Mode::P, &m)
}

pub fn tweak<G: RG>(sk: G::S, info: &[u8]) -> Result<G::S, MErr> {
    if info.len() > 65535 {
        return Err(MErr::Info);
    }
    let t = G::sadd(sk, info_scalar::<G>(info));
    if t == G::su64(0) {
        return Err(MErr::Protocol);
    }
    Ok(t)
}

pub fn tweaked_key<G: RG>(pk: G::E, info: &[u8]) -> Result<G::E, MErr> {
    if info.len() > 65535 {
        return Err(MErr::Info);
    }
    let t = G::add(G::mul(G::base(), info_scalar::<G>(info)), pk);
    if t == G::ident() {
        return Err(MErr::Protocol);
    }
    Ok(t)
}

/// Blind evaluation (no proof).
pub fn eval<G: RG>(mode: Mode, sk: G::S, be: G::E, info: &[u8]) -> Result<G::E, MErr> {
    Ok(match mode {
        Mode::O | Mode::V => G::mul(be, sk),
        Mode::P => G::mul(be, G::sinv(tweak::<G>(sk, info)?)),
    })
}

pub fn out<G: RG>(mode: Mode, input: &[u8], info: &[u8], n: G::E) -> Result<Vec<u8>, MErr> {
    if input.len() > 65535 {
        return Err(MErr::Input);
    }
    if info.len() > 65535 {
        return Err(MErr::Info);
    }
    let e = G::enc(n);
    let (a, b, c) = (l2(input.len()), l2(info.len()), l2(e.len()));
    Ok(match mode {
        Mode::P => G::hash(&[&a, input, &b, info, &c, &e, b"Finalize"]),
        _ => G::hash(&[&a, input, &c, &e, b"Finalize"]),
    })
}

pub fn finalize<G: RG>(mode: Mode, input: &[u8], info: &[u8], blind: G::S, ee: G::E) -> Result<Vec<u8>, MErr> {
    out::<G>(mode, input, info, G::mul(ee, G::sinv(blind)))
}

/// The PRF itself.
pub fn prf<G: RG>(mode: Mode, sk: G::S, input: &[u8], info: &[u8]) -> Result<Vec<u8>, MErr> {
    if input.len() > 65535 {
        return Err(MErr::Input);
    }
    let p = h2g::<G>(mode, input);
    if p == G::ident() {
        return Err(MErr::Input);
    }
    out::<G>(mode, input, info, eval::<G>(mode, sk, p, info)?)
}

pub fn weights<G: RG>(mode: Mode, b: G::E, cs: &[G::E], ds: &[G::E]) -> Vec<G::S> {
    let bm = G::enc(b);
    let sd = dst::<G>("Seed-", mode);
    let seed = G::hash(&[&l2(bm.len()), &bm, &l2(sd.len()), &sd]);
    cs.iter()
        .zip(ds)
        .enumerate()
        .map(|(i, (c, d))| {
            let (c, d) = (G::enc(*c), G::enc(*d));
            let mut t = Vec::new();
            t.extend_from_slice(&l2(seed.len()));
            t.extend_from_slice(&seed);
            t.extend_from_slice(&l2(i));
            t.extend_from_slice(&l2(c.len()));
            t.extend_from_slice(&c);
            t.extend_from_slice(&l2(d.len()));
            t.extend_from_slice(&d);
            t.extend_from_slice(b"Composite");
            h2s::<G>(mode, &t)
        })
        .collect()
}

fn lincomb<G: RG>(ws: &[G::S], es: &[G::E]) -> G::E {
    ws.iter().zip(es).fold(G::ident(), |a, (w, e)| G::add(a, G::mul(*e, *w)))
}

pub fn challenge<G: RG>(mode: Mode, b: G::E, m: G::E, z: G::E, t2: G::E, t3: G::E) -> G::S {
    let mut t = Vec::new();
    for e in [b, m, z, t2, t3] {
        let e = G::enc(e);
        t.extend_from_slice(&l2(e.len()));
        t.extend_from_slice(&e);
    }
    t.extend_from_slice(b"Challenge");
    h2s::<G>(mode, &t)
}

pub fn prove<G: RG>(mode: Mode, k: G::S, a: G::E, b: G::E, cs: &[G::E], ds: &[G::E], r: G::S) -> (G::S, G::S) {
    let ws = weights::<G>(mode, b, cs, ds);
    let m = lincomb::<G>(&ws, cs);
    let z = G::mul(m, k);
    let c = challenge::<G>(mode, b, m, z, G::mul(a, r), G::mul(m, r));
    (c, G::ssub(r, G::smul(c, k)))
}

pub fn verify<G: RG>(mode: Mode, a: G::E, b: G::E, cs: &[G::E], ds: &[G::E], proof: (G::S, G::S)) -> bool {
    let ws = weights::<G>(mode, b, cs, ds);
    let m = lincomb::<G>(&ws, cs);
    let z = lincomb::<G>(&ws, ds);
    let t2 = G::add(G::mul(a, proof.1), G::mul(b, proof.0));
    let t3 = G::add(G::mul(m, proof.1), G::mul(z, proof.0));
    challenge::<G>(mode, b, m, z, t2, t3) == proof.0
}

/// Server side of the proof for a batch, in the orientation of the mode.
pub fn server_prove<G: RG>(mode: Mode, sk: G::S, info: &[u8], bes: &[G::E], ees: &[G::E], r: G::S) -> Result<(G::S, G::S), MErr> {
    Ok(match mode {
        Mode::P => {
            let t = tweak::<G>(sk, info)?;
            prove::<G>(mode, t, G::base(), G::mul(G::base(), t), ees, bes, r)
        }
        _ => prove::<G>(mode, sk, G::base(), G::mul(G::base(), sk), bes, ees, r),
    })
}

/// What a correct client's verification step answers.
pub fn client_verify<G: RG>(mode: Mode, pk: G::E, info: &[u8], bes: &[G::E], ees: &[G::E], proof: (G::S, G::S)) -> Result<bool, MErr> {
    Ok(match mode {
        Mode::O => true,
        Mode::V => verify::<G>(mode, G::base(), pk, bes, ees, proof),
        Mode::P => verify::<G>(mode, G::base(), tweaked_key::<G>(pk, info)?, ees, bes, proof),
    })
}
