//! A transparent prime-order group plugged into the library through its public
//! `Group` / `CipherSuite` traits: integers modulo a run-time prime Q. Every
//! group operation is a scheduler yield point, degenerate events have
//! probability 1/Q instead of 2^-256 and can also be forced ("buggify").

use std::collections::BTreeMap;
use std::ops::{Add, Mul, Sub};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

use digest::core_api::BlockSizeUser;
use digest::{FixedOutput, HashMarker};
use elliptic_curve::hash2curve::{ExpandMsg, ExpandMsgXmd, Expander};
use generic_array::typenum::{IsLess, IsLessOrEqual, U256, U8, U9};
use generic_array::GenericArray;
use rand_core::{CryptoRng, RngCore};
use subtle::{Choice, ConstantTimeEq};
use voprf::{CipherSuite, Error, Group, InternalError};
use zeroize::Zeroize;

use crate::sched::yield_point;

pub const Q61: u64 = (1 << 61) - 1;
static Q: AtomicU64 = AtomicU64::new(Q61);
static FORCE_ON: AtomicU64 = AtomicU64::new(0);

/// Forced results of hashing: exact (dst ++ 0x00 ++ message) -> value.
static FORCE: Mutex<BTreeMap<Vec<u8>, u64>> = Mutex::new(BTreeMap::new());

pub fn set_q(q: u64) {
    Q.store(q, Ordering::SeqCst);
    clear_force();
}
pub fn q() -> u64 {
    Q.load(Ordering::Relaxed)
}
pub fn gen() -> u64 {
    if q() == 3 { 2 } else { 3 }
}
pub fn clear_force() {
    FORCE.lock().unwrap().clear();
    FORCE_ON.store(0, Ordering::SeqCst);
}
pub fn force(dst: &[u8], msg: &[u8], value: u64) {
    let mut k = dst.to_vec();
    k.push(0);
    k.extend_from_slice(msg);
    FORCE.lock().unwrap().insert(k, value);
    FORCE_ON.store(1, Ordering::SeqCst);
}
fn forced(dst: &[u8], msg: &[u8]) -> Option<u64> {
    if FORCE_ON.load(Ordering::Relaxed) == 0 {
        return None;
    }
    let mut k = dst.to_vec();
    k.push(0);
    k.extend_from_slice(msg);
    FORCE.lock().unwrap().get(&k).copied()
}

pub fn mulmod(a: u64, b: u64) -> u64 {
    ((u128::from(a) * u128::from(b)) % u128::from(q())) as u64
}
pub fn addmod(a: u64, b: u64) -> u64 {
    ((u128::from(a) + u128::from(b)) % u128::from(q())) as u64
}
pub fn powmod(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1 % q();
    while e > 0 {
        if e & 1 == 1 {
            r = mulmod(r, a);
        }
        a = mulmod(a, a);
        e >>= 1;
    }
    r
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TE(pub u64);
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct TS(pub u64);

impl ConstantTimeEq for TE {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl ConstantTimeEq for TS {
    fn ct_eq(&self, o: &Self) -> Choice {
        self.0.ct_eq(&o.0)
    }
}
impl Zeroize for TE {
    fn zeroize(&mut self) {
        self.0.zeroize()
    }
}
impl Zeroize for TS {
    fn zeroize(&mut self) {
        self.0.zeroize()
    }
}
impl<'a> Add<&'a TE> for TE {
    type Output = TE;
    fn add(self, o: &TE) -> TE {
        yield_point("elem-add");
        TE(addmod(self.0, o.0))
    }
}
thread_local! {
    static TAP: std::cell::RefCell<Option<Vec<(u64, u64)>>> = const { std::cell::RefCell::new(None) };
}
/// What an adversary who watches the group sees: all (element, multiplier)
/// pairs of the calls in `f`.
pub fn tap<T>(f: impl FnOnce() -> T) -> (T, Vec<(u64, u64)>) {
    TAP.with(|t| *t.borrow_mut() = Some(Vec::new()));
    let r = f();
    (r, TAP.with(|t| t.borrow_mut().take()).unwrap_or_default())
}

impl<'a> Mul<&'a TS> for TE {
    type Output = TE;
    fn mul(self, o: &TS) -> TE {
        TAP.with(|t| {
            if let Some(v) = t.borrow_mut().as_mut() {
                v.push((self.0, o.0));
            }
        });
        yield_point("elem-mul");
        TE(mulmod(self.0, o.0))
    }
}
impl<'a> Add<&'a TS> for TS {
    type Output = TS;
    fn add(self, o: &TS) -> TS {
        yield_point("scalar-add");
        TS(addmod(self.0, o.0))
    }
}
impl<'a> Mul<&'a TS> for TS {
    type Output = TS;
    fn mul(self, o: &TS) -> TS {
        yield_point("scalar-mul");
        TS(mulmod(self.0, o.0))
    }
}
impl<'a> Sub<&'a TS> for TS {
    type Output = TS;
    fn sub(self, o: &TS) -> TS {
        yield_point("scalar-sub");
        TS(addmod(self.0, q() - o.0 % q()))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Toy;

fn hash_to_int<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<u64, InternalError>
where
    H: BlockSizeUser + Default + FixedOutput + HashMarker,
    H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
{
    yield_point("hash");
    if FORCE_ON.load(Ordering::Relaxed) != 0 {
        if let Some(v) = forced(&dst.concat(), &input.concat()) {
            return Ok(v % q());
        }
    }
    let mut b = [0u8; 16];
    ExpandMsgXmd::<H>::expand_message(input, dst, 16)
        .map_err(|_| InternalError::Input)?
        .fill_bytes(&mut b);
    Ok((u128::from_be_bytes(b) % u128::from(q())) as u64)
}

impl Group for Toy {
    type Elem = TE;
    type ElemLen = U9;
    type Scalar = TS;
    type ScalarLen = U8;

    fn hash_to_curve<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<TE, InternalError>
    where
        H: BlockSizeUser + Default + FixedOutput + HashMarker,
        H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
    {
        hash_to_int::<H>(input, dst).map(TE)
    }

    fn hash_to_scalar<H>(input: &[&[u8]], dst: &[&[u8]]) -> Result<TS, InternalError>
    where
        H: BlockSizeUser + Default + FixedOutput + HashMarker,
        H::OutputSize: IsLess<U256> + IsLessOrEqual<H::BlockSize>,
    {
        hash_to_int::<H>(input, dst).map(TS)
    }

    fn base_elem() -> TE {
        TE(gen() % q())
    }

    fn identity_elem() -> TE {
        TE(0)
    }

    fn serialize_elem(e: TE) -> GenericArray<u8, U9> {
        yield_point("ser");
        let mut r = GenericArray::default();
        r[0] = 2;
        r[1..].copy_from_slice(&e.0.to_be_bytes());
        r
    }

    fn deserialize_elem(b: &[u8]) -> voprf::Result<TE> {
        yield_point("de");
        let b: [u8; 9] = b.try_into().map_err(|_| Error::Deserialization)?;
        let v = u64::from_be_bytes(b[1..].try_into().unwrap());
        if b[0] != 2 || v == 0 || v >= q() {
            return Err(Error::Deserialization);
        }
        Ok(TE(v))
    }

    fn random_scalar<R: RngCore + CryptoRng>(rng: &mut R) -> TS {
        let bits = 64 - (q() - 1).leading_zeros();
        let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        loop {
            let mut b = [0u8; 8];
            rng.fill_bytes(&mut b);
            let v = u64::from_le_bytes(b) & mask;
            if v != 0 && v < q() {
                return TS(v);
            }
        }
    }

    fn invert_scalar(s: TS) -> TS {
        yield_point("inv");
        assert!(s.0 != 0, "inverse of the zero scalar requested");
        TS(powmod(s.0, q() - 2))
    }

    fn is_zero_scalar(s: TS) -> Choice {
        s.0.ct_eq(&0)
    }

    fn serialize_scalar(s: TS) -> GenericArray<u8, U8> {
        yield_point("ser");
        s.0.to_be_bytes().into()
    }

    fn deserialize_scalar(b: &[u8]) -> voprf::Result<TS> {
        yield_point("de");
        let b: [u8; 8] = b.try_into().map_err(|_| Error::Deserialization)?;
        let v = u64::from_be_bytes(b);
        if v == 0 || v >= q() {
            return Err(Error::Deserialization);
        }
        Ok(TS(v))
    }
}

pub const ID0: &str = "ToyZq-SHA256";
pub const ID1: &str = "ToyZq-SHA257";
pub const ID2: &str = concat!(
    "ToyZq-with-a-name-that-makes-every-domain-separation-tag-longer-than-255-bytes/",
    "0123456789012345678901234567890123456789012345678901234567890123456789/",
    "0123456789012345678901234567890123456789012345678901234567890123456789/",
    "0123456789012345678901234567890123456789012345678901234567890123456789-SHA256"
);

pub const ID3: &str = "an-application-specific-suite-with-a-long-name.of.example.com/2024-01/ToyZq-SHA256";
pub const ID4: &str = "an-application-specific-suite-with-a-long-name.of.example.com/2024-01/ToyZq-SHA257";
pub const ID5: &str = "bn-application-specific-suite-with-a-long-name.of.example.com/2024-01/ToyZq-SHA256";

pub const ID6: &str = "ToyZq-SHA512";
pub const ID7: &str = "ToyZq-SHA224";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ToyF;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ToyG;
/// Real groups combined with hashes other than the usual ones.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct RistrettoB;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct P256B;

impl CipherSuite for ToyF {
    const ID: &'static str = ID6;
    type Group = Toy;
    type Hash = sha2::Sha512;
}
impl CipherSuite for ToyG {
    const ID: &'static str = ID7;
    type Group = Toy;
    type Hash = sha2::Sha224;
}
impl CipherSuite for RistrettoB {
    const ID: &'static str = "ristretto255-SHA256";
    type Group = voprf::Ristretto255;
    type Hash = sha2::Sha256;
}
impl CipherSuite for P256B {
    const ID: &'static str = "P256-SHA512";
    type Group = p256::NistP256;
    type Hash = sha2::Sha512;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ToyB;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ToyC;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ToyD;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ToyE;
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct ToyLong;

impl CipherSuite for Toy {
    const ID: &'static str = ID0;
    type Group = Toy;
    type Hash = sha2::Sha256;
}
impl CipherSuite for ToyB {
    const ID: &'static str = ID1;
    type Group = Toy;
    type Hash = sha2::Sha256;
}
impl CipherSuite for ToyLong {
    const ID: &'static str = ID2;
    type Group = Toy;
    type Hash = sha2::Sha256;
}
impl CipherSuite for ToyC {
    const ID: &'static str = ID3;
    type Group = Toy;
    type Hash = sha2::Sha256;
}
impl CipherSuite for ToyD {
    const ID: &'static str = ID4;
    type Group = Toy;
    type Hash = sha2::Sha256;
}
impl CipherSuite for ToyE {
    const ID: &'static str = ID5;
    type Group = Toy;
    type Hash = sha2::Sha256;
}
