//! The library under test, one `Suite` per ciphersuite, behind concrete types
//! so that scenarios can be generic without the library's bounds. Every method
//! here calls the real library; nothing is re-implemented.

use serde::de::DeserializeOwned;
use serde::Serialize;
use voprf::Error;

use crate::rg::{Mode, RG};
use crate::rng::SimRng;
use crate::sched::yield_point;
use crate::serfmt;

/// A collection whose iterator lets the scheduler in at every step.
pub struct Yv<T>(pub Vec<T>);
pub struct YIter<'a, T>(std::slice::Iter<'a, T>);
impl<'a, T> Iterator for YIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        yield_point("iter");
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.0.size_hint()
    }
}
impl<T> ExactSizeIterator for YIter<'_, T> {}
impl<'a, T> IntoIterator for &'a Yv<T> {
    type Item = &'a T;
    type IntoIter = YIter<'a, T>;
    fn into_iter(self) -> YIter<'a, T> {
        YIter(self.0.iter())
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Kind {
    OC,
    VC,
    PC,
    OS,
    VS,
    PS,
    BE,
    EE,
    PE,
    PR,
    TW,
}
pub const KINDS: [Kind; 11] =
    [Kind::OC, Kind::VC, Kind::PC, Kind::OS, Kind::VS, Kind::PS, Kind::BE, Kind::EE, Kind::PE, Kind::PR, Kind::TW];

/// field layout of a kind: true = scalar, false = element
pub fn layout(k: Kind) -> &'static [bool] {
    match k {
        Kind::OC | Kind::OS | Kind::TW => &[true],
        Kind::VC | Kind::PC | Kind::VS | Kind::PS => &[true, false],
        Kind::BE | Kind::EE | Kind::PE => &[false],
        Kind::PR => &[true, true],
    }
}
pub fn native(k: Kind) -> bool {
    !matches!(k, Kind::PE | Kind::TW)
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Codec {
    Native,
    Json,
    Bincode,
    /// JSON through a generic value tree (field order lost)
    JsonValue,
    /// a format of the harness, in one of its styles
    Own(u8),
}
pub const CODECS: [Codec; 7] = [Codec::Native, Codec::Json, Codec::Bincode, Codec::JsonValue, Codec::Own(0), Codec::Own(1), Codec::Own(2)];

/// From a buffer and from a stream the same bytes must give the same object.
fn both<T: Serialize>(slice: Result<T, String>, reader: Result<T, String>) -> Result<T, String> {
    match (slice, reader) {
        (Ok(a), Ok(b)) => {
            if bincode::serialize(&a).ok() == bincode::serialize(&b).ok() {
                Ok(a)
            } else {
                Err("decodes differently from a buffer and from a stream".into())
            }
        }
        (Ok(_), Err(e)) => Err(format!("decodes from a buffer but not from a stream: {e}")),
        (_, r) => r,
    }
}

/// Serialisable protocol object of the library.
pub trait Obj: Clone + PartialEq + std::fmt::Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    const KIND: Kind;
    fn nser(&self) -> Option<Vec<u8>>;
    fn nde(b: &[u8]) -> Option<Result<Self, Error>>;

    fn enc(&self, c: Codec) -> Vec<u8> {
        match c {
            Codec::Native => match self.nser() {
                Some(b) => b,
                None => bincode::serialize(self).unwrap(),
            },
            Codec::Json => serde_json::to_vec(self).unwrap(),
            Codec::Bincode => bincode::serialize(self).unwrap(),
            Codec::JsonValue => serde_json::to_vec(&serde_json::to_value(self).unwrap()).unwrap(),
            Codec::Own(i) => serfmt::to_bytes(self, serfmt::STYLES[usize::from(i)]).unwrap(),
        }
    }
    fn dec(b: &[u8], c: Codec) -> Result<Self, String> {
        match c {
            Codec::Native => match Self::nde(b) {
                Some(r) => r.map_err(|e| format!("{e:?}")),
                None => bincode::deserialize(b).map_err(|e| e.to_string()),
            },
            Codec::Json => both(serde_json::from_slice::<Self>(b).map_err(|e| e.to_string()), serde_json::from_reader::<_, Self>(b).map_err(|e| e.to_string())),
            Codec::Bincode => both(bincode::deserialize::<Self>(b).map_err(|e| e.to_string()), bincode::deserialize_from::<_, Self>(b).map_err(|e| e.to_string())),
            Codec::JsonValue => {
                let v: serde_json::Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
                serde_json::from_value(v).map_err(|e| e.to_string())
            }
            Codec::Own(i) => serfmt::from_bytes(b, serfmt::STYLES[usize::from(i)]).map_err(|e| e.0),
        }
    }
    /// canonical bytes for comparisons
    fn bytes(&self) -> Vec<u8> {
        bincode::serialize(self).unwrap()
    }
    /// the memory the object occupies
    fn raw(&self) -> Vec<u8> {
        raw_bytes(self as *const Self as *const u8, std::mem::size_of::<Self>())
    }
}

pub fn raw_bytes(p: *const u8, n: usize) -> Vec<u8> {
    // SAFETY: callers pass memory they own; volatile reads of every byte
    (0..n).map(|i| unsafe { p.add(i).read_volatile() }).collect()
}

pub type LR<T> = Result<T, Error>;
pub type Out = Vec<u8>;

pub trait Suite: RG + Sized {
    type OC: Obj;
    type VC: Obj;
    type PC: Obj;
    type OS: Obj;
    type VS: Obj;
    type PS: Obj;
    type BE: Obj;
    type EE: Obj;
    type PE: Obj;
    type PR: Obj;
    type TW: Obj;

    fn o_blind(i: &[u8], r: &mut SimRng) -> LR<(Self::OC, Self::BE)>;
    fn v_blind(i: &[u8], r: &mut SimRng) -> LR<(Self::VC, Self::BE)>;
    fn p_blind(i: &[u8], r: &mut SimRng) -> LR<(Self::PC, Self::BE)>;
    fn o_dblind(i: &[u8], b: Self::S) -> LR<(Self::OC, Self::BE)>;
    fn v_dblind(i: &[u8], b: Self::S) -> LR<(Self::VC, Self::BE)>;
    fn p_dblind(i: &[u8], b: Self::S) -> LR<(Self::PC, Self::BE)>;
    fn o_new(r: &mut SimRng) -> LR<Self::OS>;
    fn v_new(r: &mut SimRng) -> LR<Self::VS>;
    fn p_new(r: &mut SimRng) -> LR<Self::PS>;
    fn o_key(b: &[u8]) -> LR<Self::OS>;
    fn v_key(b: &[u8]) -> LR<Self::VS>;
    fn p_key(b: &[u8]) -> LR<Self::PS>;
    fn o_seed(s: &[u8], i: &[u8]) -> LR<Self::OS>;
    fn v_seed(s: &[u8], i: &[u8]) -> LR<Self::VS>;
    fn p_seed(s: &[u8], i: &[u8]) -> LR<Self::PS>;
    fn o_be(s: &Self::OS, b: &Self::BE) -> Self::EE;
    fn v_be(s: &Self::VS, r: &mut SimRng, b: &Self::BE) -> (Self::EE, Self::PR);
    fn p_be(s: &Self::PS, r: &mut SimRng, b: &Self::BE, info: Option<&[u8]>) -> LR<(Self::EE, Self::PR)>;
    fn v_batch(s: &Self::VS, r: &mut SimRng, b: &Yv<Self::BE>) -> LR<(Vec<Self::EE>, Self::PR)>;
    fn p_batch(s: &Self::PS, r: &mut SimRng, b: &Yv<Self::BE>, info: Option<&[u8]>) -> LR<(Vec<Self::EE>, Self::PR)>;
    fn v_prep<'a>(s: &Self::VS, b: Box<dyn Iterator<Item = &'a Self::BE> + 'a>) -> Box<dyn Iterator<Item = Self::PE> + 'a>;
    fn p_prep<'a>(
        s: &Self::PS,
        b: Box<dyn Iterator<Item = &'a Self::BE> + 'a>,
        info: Option<&[u8]>,
    ) -> LR<(Box<dyn Iterator<Item = Self::PE> + 'a>, Self::TW)>;
    fn v_fin_ev(s: &Self::VS, r: &mut SimRng, b: &Yv<Self::BE>, p: &Yv<Self::PE>) -> LR<(Vec<Self::EE>, Self::PR)>;
    fn p_fin_ev(r: &mut SimRng, b: &Yv<Self::BE>, p: &Yv<Self::PE>, t: &Self::TW) -> LR<(Vec<Self::EE>, Self::PR)>;
    fn o_fin(c: &Self::OC, i: &[u8], e: &Self::EE) -> LR<Out>;
    fn v_fin(c: &Self::VC, i: &[u8], e: &Self::EE, p: &Self::PR, pk: Self::E) -> LR<Out>;
    fn p_fin(c: &Self::PC, i: &[u8], e: &Self::EE, p: &Self::PR, pk: Self::E, info: Option<&[u8]>) -> LR<Out>;
    fn v_bfin(i: &Yv<Vec<u8>>, c: &Yv<Self::VC>, e: &Yv<Self::EE>, p: &Self::PR, pk: Self::E) -> LR<Vec<LR<Out>>>;
    fn p_bfin(i: &[Vec<u8>], c: &Yv<Self::PC>, e: &Yv<Self::EE>, p: &Self::PR, pk: Self::E, info: Option<&[u8]>) -> LR<Vec<LR<Out>>>;
    fn o_ev(s: &Self::OS, i: &[u8]) -> LR<Out>;
    fn v_ev(s: &Self::VS, i: &[u8]) -> LR<Out>;
    fn p_ev(s: &Self::PS, i: &[u8], info: Option<&[u8]>) -> LR<Out>;
    fn v_pk(s: &Self::VS) -> Self::E;
    fn p_pk(s: &Self::PS) -> Self::E;
    fn be(e: Self::E) -> Self::BE;
    fn ee(e: Self::E) -> Self::EE;
    fn be_v(e: &Self::BE) -> Self::E;
    fn ee_v(e: &Self::EE) -> Self::E;
    fn o_blind_of(c: &Self::OC) -> Self::S;
    fn dkey(seed: &[u8], info: &[u8], m: Mode) -> LR<Self::S>;
    /// the library's own group interface
    fn g_dec(b: &[u8]) -> LR<Self::E>;
    fn g_decs(b: &[u8]) -> LR<Self::S>;
    fn g_enc(e: Self::E) -> Vec<u8>;
    fn g_encs(s: Self::S) -> Vec<u8>;
    fn g_rand(r: &mut SimRng) -> Self::S;
    fn g_inv(s: Self::S) -> Self::S;
    fn g_zero(s: Self::S) -> bool;
    fn g_is_ident(e: Self::E) -> bool;
    fn g_base() -> Self::E;
    fn g_ident() -> Self::E;
    fn g_h2c(m: &[&[u8]], d: &[&[u8]]) -> Result<Self::E, voprf::InternalError>;
    fn g_h2s(m: &[&[u8]], d: &[&[u8]]) -> Result<Self::S, voprf::InternalError>;
}

pub fn vmode(m: Mode) -> voprf::Mode {
    match m {
        Mode::O => voprf::Mode::Oprf,
        Mode::V => voprf::Mode::Voprf,
        Mode::P => voprf::Mode::Poprf,
    }
}

macro_rules! obj_native {
    ($cs:ty, $($ty:ident => $k:ident),*) => {$(
        impl Obj for voprf::$ty<$cs> {
            const KIND: Kind = Kind::$k;
            fn nser(&self) -> Option<Vec<u8>> { Some(self.serialize().to_vec()) }
            fn nde(b: &[u8]) -> Option<Result<Self, Error>> { Some(Self::deserialize(b)) }
        }
    )*};
}
macro_rules! obj_serde {
    ($cs:ty, $($ty:ident => $k:ident),*) => {$(
        impl Obj for voprf::$ty<$cs> {
            const KIND: Kind = Kind::$k;
            fn nser(&self) -> Option<Vec<u8>> { None }
            fn nde(_b: &[u8]) -> Option<Result<Self, Error>> { None }
        }
    )*};
}

macro_rules! suite {
    ($rg:ty, $cs:ty) => {
        obj_native!($cs, OprfClient => OC, VoprfClient => VC, PoprfClient => PC, OprfServer => OS, VoprfServer => VS,
            PoprfServer => PS, BlindedElement => BE, EvaluationElement => EE, Proof => PR);
        obj_serde!($cs, PreparedEvaluationElement => PE, PoprfPreparedTweak => TW);

        impl Suite for $rg {
            type OC = voprf::OprfClient<$cs>;
            type VC = voprf::VoprfClient<$cs>;
            type PC = voprf::PoprfClient<$cs>;
            type OS = voprf::OprfServer<$cs>;
            type VS = voprf::VoprfServer<$cs>;
            type PS = voprf::PoprfServer<$cs>;
            type BE = voprf::BlindedElement<$cs>;
            type EE = voprf::EvaluationElement<$cs>;
            type PE = voprf::PreparedEvaluationElement<$cs>;
            type PR = voprf::Proof<$cs>;
            type TW = voprf::PoprfPreparedTweak<$cs>;

            fn o_blind(i: &[u8], r: &mut SimRng) -> LR<(Self::OC, Self::BE)> {
                voprf::OprfClient::<$cs>::blind(i, r).map(|x| (x.state, x.message))
            }
            fn v_blind(i: &[u8], r: &mut SimRng) -> LR<(Self::VC, Self::BE)> {
                voprf::VoprfClient::<$cs>::blind(i, r).map(|x| (x.state, x.message))
            }
            fn p_blind(i: &[u8], r: &mut SimRng) -> LR<(Self::PC, Self::BE)> {
                voprf::PoprfClient::<$cs>::blind(i, r).map(|x| (x.state, x.message))
            }
            fn o_dblind(i: &[u8], b: Self::S) -> LR<(Self::OC, Self::BE)> {
                voprf::OprfClient::<$cs>::deterministic_blind_unchecked(i, b).map(|x| (x.state, x.message))
            }
            fn v_dblind(i: &[u8], b: Self::S) -> LR<(Self::VC, Self::BE)> {
                voprf::VoprfClient::<$cs>::deterministic_blind_unchecked(i, b).map(|x| (x.state, x.message))
            }
            fn p_dblind(i: &[u8], b: Self::S) -> LR<(Self::PC, Self::BE)> {
                voprf::PoprfClient::<$cs>::deterministic_blind_unchecked(i, b).map(|x| (x.state, x.message))
            }
            fn o_new(r: &mut SimRng) -> LR<Self::OS> {
                Self::OS::new(r)
            }
            fn v_new(r: &mut SimRng) -> LR<Self::VS> {
                Self::VS::new(r)
            }
            fn p_new(r: &mut SimRng) -> LR<Self::PS> {
                Self::PS::new(r)
            }
            fn o_key(b: &[u8]) -> LR<Self::OS> {
                Self::OS::new_with_key(b)
            }
            fn v_key(b: &[u8]) -> LR<Self::VS> {
                Self::VS::new_with_key(b)
            }
            fn p_key(b: &[u8]) -> LR<Self::PS> {
                Self::PS::new_with_key(b)
            }
            fn o_seed(s: &[u8], i: &[u8]) -> LR<Self::OS> {
                Self::OS::new_from_seed(s, i)
            }
            fn v_seed(s: &[u8], i: &[u8]) -> LR<Self::VS> {
                Self::VS::new_from_seed(s, i)
            }
            fn p_seed(s: &[u8], i: &[u8]) -> LR<Self::PS> {
                Self::PS::new_from_seed(s, i)
            }
            fn o_be(s: &Self::OS, b: &Self::BE) -> Self::EE {
                s.blind_evaluate(b)
            }
            fn v_be(s: &Self::VS, r: &mut SimRng, b: &Self::BE) -> (Self::EE, Self::PR) {
                let x = s.blind_evaluate(r, b);
                (x.message, x.proof)
            }
            fn p_be(s: &Self::PS, r: &mut SimRng, b: &Self::BE, info: Option<&[u8]>) -> LR<(Self::EE, Self::PR)> {
                s.blind_evaluate(r, b, info).map(|x| (x.message, x.proof))
            }
            fn v_batch(s: &Self::VS, r: &mut SimRng, b: &Yv<Self::BE>) -> LR<(Vec<Self::EE>, Self::PR)> {
                s.batch_blind_evaluate(r, b).map(|x| (x.messages, x.proof))
            }
            fn p_batch(s: &Self::PS, r: &mut SimRng, b: &Yv<Self::BE>, info: Option<&[u8]>) -> LR<(Vec<Self::EE>, Self::PR)> {
                s.batch_blind_evaluate(r, b, info).map(|x| (x.messages, x.proof))
            }
            fn v_prep<'a>(s: &Self::VS, b: Box<dyn Iterator<Item = &'a Self::BE> + 'a>) -> Box<dyn Iterator<Item = Self::PE> + 'a> {
                Box::new(s.batch_blind_evaluate_prepare(b))
            }
            fn p_prep<'a>(
                s: &Self::PS,
                b: Box<dyn Iterator<Item = &'a Self::BE> + 'a>,
                info: Option<&[u8]>,
            ) -> LR<(Box<dyn Iterator<Item = Self::PE> + 'a>, Self::TW)> {
                let x = s.batch_blind_evaluate_prepare(b, info)?;
                Ok((Box::new(x.prepared_evaluation_elements), x.prepared_tweak))
            }
            fn v_fin_ev(s: &Self::VS, r: &mut SimRng, b: &Yv<Self::BE>, p: &Yv<Self::PE>) -> LR<(Vec<Self::EE>, Self::PR)> {
                s.batch_blind_evaluate_finish(r, b.into_iter(), p).map(|x| (x.messages.collect(), x.proof))
            }
            fn p_fin_ev(r: &mut SimRng, b: &Yv<Self::BE>, p: &Yv<Self::PE>, t: &Self::TW) -> LR<(Vec<Self::EE>, Self::PR)> {
                Self::PS::batch_blind_evaluate_finish(r, b.into_iter(), p, t).map(|x| (x.messages.collect(), x.proof))
            }
            fn o_fin(c: &Self::OC, i: &[u8], e: &Self::EE) -> LR<Out> {
                c.finalize(i, e).map(|x| x.to_vec())
            }
            fn v_fin(c: &Self::VC, i: &[u8], e: &Self::EE, p: &Self::PR, pk: Self::E) -> LR<Out> {
                c.finalize(i, e, p, pk).map(|x| x.to_vec())
            }
            fn p_fin(c: &Self::PC, i: &[u8], e: &Self::EE, p: &Self::PR, pk: Self::E, info: Option<&[u8]>) -> LR<Out> {
                c.finalize(i, e, p, pk, info).map(|x| x.to_vec())
            }
            fn v_bfin(i: &Yv<Vec<u8>>, c: &Yv<Self::VC>, e: &Yv<Self::EE>, p: &Self::PR, pk: Self::E) -> LR<Vec<LR<Out>>> {
                Ok(Self::VC::batch_finalize(i, c, e, p, pk)?.map(|x| x.map(|x| x.to_vec())).collect())
            }
            fn p_bfin(i: &[Vec<u8>], c: &Yv<Self::PC>, e: &Yv<Self::EE>, p: &Self::PR, pk: Self::E, info: Option<&[u8]>) -> LR<Vec<LR<Out>>> {
                Ok(Self::PC::batch_finalize(i.iter().map(|x| x.as_slice()), c, e, p, pk, info)?
                    .map(|x| x.map(|x| x.to_vec()))
                    .collect())
            }
            fn o_ev(s: &Self::OS, i: &[u8]) -> LR<Out> {
                s.evaluate(i).map(|x| x.to_vec())
            }
            fn v_ev(s: &Self::VS, i: &[u8]) -> LR<Out> {
                s.evaluate(i).map(|x| x.to_vec())
            }
            fn p_ev(s: &Self::PS, i: &[u8], info: Option<&[u8]>) -> LR<Out> {
                s.evaluate(i, info).map(|x| x.to_vec())
            }
            fn v_pk(s: &Self::VS) -> Self::E {
                s.get_public_key()
            }
            fn p_pk(s: &Self::PS) -> Self::E {
                s.get_public_key()
            }
            fn be(e: Self::E) -> Self::BE {
                Self::BE::from_value_unchecked(e)
            }
            fn ee(e: Self::E) -> Self::EE {
                Self::EE::from_value_unchecked(e)
            }
            fn be_v(e: &Self::BE) -> Self::E {
                e.value()
            }
            fn ee_v(e: &Self::EE) -> Self::E {
                e.value()
            }
            fn o_blind_of(c: &Self::OC) -> Self::S {
                c.get_blind()
            }
            fn dkey(seed: &[u8], info: &[u8], m: Mode) -> LR<Self::S> {
                voprf::derive_key::<$cs>(seed, info, vmode(m))
            }
            fn g_dec(b: &[u8]) -> LR<Self::E> {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::deserialize_elem(b)
            }
            fn g_decs(b: &[u8]) -> LR<Self::S> {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::deserialize_scalar(b)
            }
            fn g_enc(e: Self::E) -> Vec<u8> {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::serialize_elem(e).to_vec()
            }
            fn g_encs(s: Self::S) -> Vec<u8> {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::serialize_scalar(s).to_vec()
            }
            fn g_rand(r: &mut SimRng) -> Self::S {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::random_scalar(r)
            }
            fn g_inv(s: Self::S) -> Self::S {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::invert_scalar(s)
            }
            fn g_zero(s: Self::S) -> bool {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::is_zero_scalar(s).into()
            }
            fn g_is_ident(e: Self::E) -> bool {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::is_identity_elem(e).into()
            }
            fn g_base() -> Self::E {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::base_elem()
            }
            fn g_ident() -> Self::E {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::identity_elem()
            }
            fn g_h2c(m: &[&[u8]], d: &[&[u8]]) -> Result<Self::E, voprf::InternalError> {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::hash_to_curve::<<$cs as voprf::CipherSuite>::Hash>(m, d)
            }
            fn g_h2s(m: &[&[u8]], d: &[&[u8]]) -> Result<Self::S, voprf::InternalError> {
                <<$cs as voprf::CipherSuite>::Group as voprf::Group>::hash_to_scalar::<<$cs as voprf::CipherSuite>::Hash>(m, d)
            }
        }
    };
}

suite!(crate::rg::RRistretto, voprf::Ristretto255);
suite!(crate::rg::RP256, p256::NistP256);
suite!(crate::rg::RP384, p384::NistP384);
suite!(crate::rg::RP521, p521::NistP521);
suite!(crate::rg::RToy, crate::toy::Toy);
suite!(crate::rg::RToyB, crate::toy::ToyB);
suite!(crate::rg::RToyLong, crate::toy::ToyLong);
suite!(crate::rg::RToyC, crate::toy::ToyC);
suite!(crate::rg::RToyD, crate::toy::ToyD);
suite!(crate::rg::RToyE, crate::toy::ToyE);
suite!(crate::rg::RToyF, crate::toy::ToyF);
suite!(crate::rg::RToyG, crate::toy::ToyG);
suite!(crate::rg::RRistrettoB, crate::toy::RistrettoB);
suite!(crate::rg::RP256B, crate::toy::P256B);

// ------------------------------------------------- mode-generic wrappers ----

pub enum Cl<S: Suite> {
    O(S::OC),
    V(S::VC),
    P(S::PC),
}
pub enum Sv<S: Suite> {
    O(S::OS),
    V(S::VS),
    P(S::PS),
}

impl<S: Suite> Clone for Cl<S> {
    fn clone(&self) -> Self {
        match self {
            Cl::O(x) => Cl::O(x.clone()),
            Cl::V(x) => Cl::V(x.clone()),
            Cl::P(x) => Cl::P(x.clone()),
        }
    }
}
impl<S: Suite> Clone for Sv<S> {
    fn clone(&self) -> Self {
        match self {
            Sv::O(x) => Sv::O(x.clone()),
            Sv::V(x) => Sv::V(x.clone()),
            Sv::P(x) => Sv::P(x.clone()),
        }
    }
}

impl<S: Suite> Cl<S> {
    pub fn mode(&self) -> Mode {
        match self {
            Cl::O(_) => Mode::O,
            Cl::V(_) => Mode::V,
            Cl::P(_) => Mode::P,
        }
    }
    pub fn blind(m: Mode, i: &[u8], r: &mut SimRng) -> LR<(Self, S::BE)> {
        Ok(match m {
            Mode::O => S::o_blind(i, r).map(|(c, b)| (Cl::O(c), b))?,
            Mode::V => S::v_blind(i, r).map(|(c, b)| (Cl::V(c), b))?,
            Mode::P => S::p_blind(i, r).map(|(c, b)| (Cl::P(c), b))?,
        })
    }
    pub fn dblind(m: Mode, i: &[u8], s: S::S) -> LR<(Self, S::BE)> {
        Ok(match m {
            Mode::O => S::o_dblind(i, s).map(|(c, b)| (Cl::O(c), b))?,
            Mode::V => S::v_dblind(i, s).map(|(c, b)| (Cl::V(c), b))?,
            Mode::P => S::p_dblind(i, s).map(|(c, b)| (Cl::P(c), b))?,
        })
    }
    pub fn finalize(&self, i: &[u8], e: &S::EE, p: Option<&S::PR>, pk: S::E, info: Option<&[u8]>) -> LR<Out> {
        match self {
            Cl::O(c) => S::o_fin(c, i, e),
            Cl::V(c) => S::v_fin(c, i, e, p.unwrap(), pk),
            Cl::P(c) => S::p_fin(c, i, e, p.unwrap(), pk, info),
        }
    }
    pub fn enc(&self, c: Codec) -> Vec<u8> {
        match self {
            Cl::O(x) => x.enc(c),
            Cl::V(x) => x.enc(c),
            Cl::P(x) => x.enc(c),
        }
    }
    pub fn raw(&self) -> Vec<u8> {
        match self {
            Cl::O(x) => x.raw(),
            Cl::V(x) => x.raw(),
            Cl::P(x) => x.raw(),
        }
    }
    pub fn dec(m: Mode, b: &[u8], c: Codec) -> Result<Self, String> {
        Ok(match m {
            Mode::O => Cl::O(S::OC::dec(b, c)?),
            Mode::V => Cl::V(S::VC::dec(b, c)?),
            Mode::P => Cl::P(S::PC::dec(b, c)?),
        })
    }
    /// blind scalar, through the public encoding
    pub fn blind_scalar(&self) -> Option<S::S> {
        S::decs(&self.enc(Codec::Native)[..S::NS])
    }
    /// an equivalent client state built by the reference side
    pub fn from_parts(m: Mode, blind: S::S, be: S::E) -> Result<Self, String> {
        let mut b = S::encs(blind);
        if m != Mode::O {
            b.extend(S::enc(be));
        }
        Self::dec(m, &b, Codec::Native)
    }
}

impl<S: Suite> PartialEq for Cl<S> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Cl::O(a), Cl::O(b)) => a == b,
            (Cl::V(a), Cl::V(b)) => a == b,
            (Cl::P(a), Cl::P(b)) => a == b,
            _ => false,
        }
    }
}
impl<S: Suite> PartialEq for Sv<S> {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Sv::O(a), Sv::O(b)) => a == b,
            (Sv::V(a), Sv::V(b)) => a == b,
            (Sv::P(a), Sv::P(b)) => a == b,
            _ => false,
        }
    }
}

impl<S: Suite> Sv<S> {
    pub fn mode(&self) -> Mode {
        match self {
            Sv::O(_) => Mode::O,
            Sv::V(_) => Mode::V,
            Sv::P(_) => Mode::P,
        }
    }
    pub fn new(m: Mode, r: &mut SimRng) -> LR<Self> {
        Ok(match m {
            Mode::O => Sv::O(S::o_new(r)?),
            Mode::V => Sv::V(S::v_new(r)?),
            Mode::P => Sv::P(S::p_new(r)?),
        })
    }
    pub fn with_key(m: Mode, b: &[u8]) -> LR<Self> {
        Ok(match m {
            Mode::O => Sv::O(S::o_key(b)?),
            Mode::V => Sv::V(S::v_key(b)?),
            Mode::P => Sv::P(S::p_key(b)?),
        })
    }
    pub fn from_seed(m: Mode, s: &[u8], i: &[u8]) -> LR<Self> {
        Ok(match m {
            Mode::O => Sv::O(S::o_seed(s, i)?),
            Mode::V => Sv::V(S::v_seed(s, i)?),
            Mode::P => Sv::P(S::p_seed(s, i)?),
        })
    }
    pub fn enc(&self, c: Codec) -> Vec<u8> {
        match self {
            Sv::O(x) => x.enc(c),
            Sv::V(x) => x.enc(c),
            Sv::P(x) => x.enc(c),
        }
    }
    pub fn dec(m: Mode, b: &[u8], c: Codec) -> Result<Self, String> {
        Ok(match m {
            Mode::O => Sv::O(S::OS::dec(b, c)?),
            Mode::V => Sv::V(S::VS::dec(b, c)?),
            Mode::P => Sv::P(S::PS::dec(b, c)?),
        })
    }
    pub fn sk(&self) -> Option<S::S> {
        S::decs(&self.enc(Codec::Native)[..S::NS])
    }
    /// public key (for the non-verifiable mode: the one that would belong to it)
    pub fn pk(&self) -> Option<S::E> {
        match self {
            Sv::O(_) => self.sk().map(|s| S::mul(S::base(), s)),
            Sv::V(s) => Some(S::v_pk(s)),
            Sv::P(s) => Some(S::p_pk(s)),
        }
    }
    pub fn blind_evaluate(&self, r: &mut SimRng, b: &S::BE, info: Option<&[u8]>) -> LR<(S::EE, Option<S::PR>)> {
        Ok(match self {
            Sv::O(s) => (S::o_be(s, b), None),
            Sv::V(s) => {
                let (e, p) = S::v_be(s, r, b);
                (e, Some(p))
            }
            Sv::P(s) => {
                let (e, p) = S::p_be(s, r, b, info)?;
                (e, Some(p))
            }
        })
    }
    /// one-shot batch (the non-verifiable mode has none: evaluated one by one)
    pub fn batch(&self, r: &mut SimRng, b: &Yv<S::BE>, info: Option<&[u8]>) -> LR<(Vec<S::EE>, Option<S::PR>)> {
        Ok(match self {
            Sv::O(s) => (b.0.iter().map(|x| S::o_be(s, x)).collect(), None),
            Sv::V(s) => {
                let (e, p) = S::v_batch(s, r, b)?;
                (e, Some(p))
            }
            Sv::P(s) => {
                let (e, p) = S::p_batch(s, r, b, info)?;
                (e, Some(p))
            }
        })
    }
    pub fn prepare<'a>(&self, b: Box<dyn Iterator<Item = &'a S::BE> + 'a>, info: Option<&[u8]>) -> LR<(Box<dyn Iterator<Item = S::PE> + 'a>, Option<S::TW>)> {
        match self {
            Sv::O(_) => panic!("no two-phase evaluation in OPRF mode"),
            Sv::V(s) => Ok((S::v_prep(s, b), None)),
            Sv::P(s) => S::p_prep(s, b, info).map(|(i, t)| (i, Some(t))),
        }
    }
    pub fn finish(&self, r: &mut SimRng, b: &Yv<S::BE>, p: &Yv<S::PE>, t: Option<&S::TW>) -> LR<(Vec<S::EE>, S::PR)> {
        match self {
            Sv::O(_) => panic!("no two-phase evaluation in OPRF mode"),
            Sv::V(s) => S::v_fin_ev(s, r, b, p),
            Sv::P(_) => S::p_fin_ev(r, b, p, t.unwrap()),
        }
    }
    pub fn evaluate(&self, i: &[u8], info: Option<&[u8]>) -> LR<Out> {
        match self {
            Sv::O(s) => S::o_ev(s, i),
            Sv::V(s) => S::v_ev(s, i),
            Sv::P(s) => S::p_ev(s, i, info),
        }
    }
}

pub fn batch_finalize<S: Suite>(
    m: Mode,
    inputs: &[Vec<u8>],
    clients: &[Cl<S>],
    ees: &[S::EE],
    p: Option<&S::PR>,
    pk: S::E,
    info: Option<&[u8]>,
) -> LR<Vec<LR<Out>>> {
    match m {
        Mode::O => Ok(inputs
            .iter()
            .zip(clients)
            .zip(ees)
            .map(|((i, c), e)| match c {
                Cl::O(c) => S::o_fin(c, i, e),
                _ => unreachable!(),
            })
            .collect()),
        Mode::V => {
            let c = Yv(clients.iter().map(|c| match c { Cl::V(c) => c.clone(), _ => unreachable!() }).collect());
            S::v_bfin(&Yv(inputs.to_vec()), &c, &Yv(ees.to_vec()), p.unwrap(), pk)
        }
        Mode::P => {
            let c = Yv(clients.iter().map(|c| match c { Cl::P(c) => c.clone(), _ => unreachable!() }).collect());
            S::p_bfin(inputs, &c, &Yv(ees.to_vec()), p.unwrap(), pk, info)
        }
    }
}

/// (challenge, response) of a proof through its public encoding
pub fn proof_parts<S: Suite>(p: &S::PR) -> Option<(S::S, S::S)> {
    let b = p.enc(Codec::Native);
    if b.len() != 2 * S::NS {
        return None;
    }
    // zero scalars cannot be decoded strictly; accept them here
    let f = |b: &[u8]| if b.iter().all(|x| *x == 0) { Some(S::su64(0)) } else { S::decs(b) };
    Some((f(&b[..S::NS])?, f(&b[S::NS..])?))
}
pub fn make_proof<S: Suite>(c: S::S, s: S::S) -> Option<S::PR> {
    let mut b = S::encs(c);
    b.extend(S::encs(s));
    S::PR::dec(&b, Codec::Native).ok()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Sid {
    Toy,
    ToyB,
    ToyLong,
    Ristretto,
    P256,
    P384,
    P521,
    /// usual groups, unusual hashes
    ToyF,
    ToyG,
    RistrettoB,
    P256B,
}

impl Sid {
    pub fn is_toy(self) -> bool {
        matches!(self, Sid::Toy | Sid::ToyB | Sid::ToyLong | Sid::ToyF | Sid::ToyG)
    }
}

#[macro_export]
macro_rules! dispatch {
    ($sid:expr, $f:ident ( $($a:expr),* )) => {
        match $sid {
            $crate::suite::Sid::Toy => $f::<$crate::rg::RToy>($($a),*),
            $crate::suite::Sid::ToyB => $f::<$crate::rg::RToyB>($($a),*),
            $crate::suite::Sid::ToyLong => $f::<$crate::rg::RToyLong>($($a),*),
            $crate::suite::Sid::Ristretto => $f::<$crate::rg::RRistretto>($($a),*),
            $crate::suite::Sid::P256 => $f::<$crate::rg::RP256>($($a),*),
            $crate::suite::Sid::P384 => $f::<$crate::rg::RP384>($($a),*),
            $crate::suite::Sid::P521 => $f::<$crate::rg::RP521>($($a),*),
            $crate::suite::Sid::ToyF => $f::<$crate::rg::RToyF>($($a),*),
            $crate::suite::Sid::ToyG => $f::<$crate::rg::RToyG>($($a),*),
            $crate::suite::Sid::RistrettoB => $f::<$crate::rg::RRistrettoB>($($a),*),
            $crate::suite::Sid::P256B => $f::<$crate::rg::RP256B>($($a),*),
        }
    };
}
