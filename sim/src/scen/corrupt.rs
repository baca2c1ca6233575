//! C06: objects written to a faulty disk / sent over a faulty link and read
//! back; the bytes have been torn, truncated, flipped, misdirected, zeroed or
//! replaced by an adversary with alternative encodings. The decoder's verdict
//! must be exactly that of the strict field-by-field reference decoder, and
//! what is accepted must re-encode to what was read.

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::{self, Mode};
use crate::scen::util::*;
use crate::suite::*;

pub fn run(ctx: &mut Ctx) -> R {
    let sid = match ctx.suite() {
        // the real suites matter here; the toy group's decoder is ours
        Sid::Toy => *ctx.pick(&[Sid::P256, Sid::Ristretto, Sid::P384, Sid::P521, Sid::Toy]),
        s => s,
    };
    ctx.label = format!("corrupt {sid:?}").to_lowercase();
    dispatch!(sid, corrupt(ctx))
}

/// Valid encodings of every kind, from real sessions.
struct Bag {
    objs: Vec<(Kind, Vec<u8>)>,
}

fn bag<S: Suite>(ctx: &mut Ctx) -> R<Bag> {
    let mut objs = Vec::new();
    for m in rg::MODES {
        let w = world::<S>(ctx, m)?;
        let inp = ctx.small_blob();
        let s = session::<S>(ctx, m, inp)?;
        let info = if m == Mode::P { Some(b"i".as_slice()) } else { None };
        let seed = ctx.seed();
        let (sk, ck) = match m {
            Mode::O => (Kind::OS, Kind::OC),
            Mode::V => (Kind::VS, Kind::VC),
            Mode::P => (Kind::PS, Kind::PC),
        };
        let r = ctx.lib("session", || -> LR<Vec<(Kind, Vec<u8>)>> {
            let mut rng = generator_from::<S>(seed);
            let mut v = vec![(sk, w.srv.enc(Codec::Native)), (ck, s.cl.enc(Codec::Native)), (Kind::BE, s.be.enc(Codec::Native))];
            let (e, p) = w.srv.blind_evaluate(&mut rng, &s.be, info)?;
            v.push((Kind::EE, e.enc(Codec::Native)));
            if let Some(p) = p {
                v.push((Kind::PR, p.enc(Codec::Native)));
                let y = [s.be.clone()];
                let (mut it, t) = w.srv.prepare(Box::new(y.iter()), info)?;
                v.push((Kind::PE, it.next().unwrap().enc(Codec::Bincode)));
                if let Some(t) = t {
                    v.push((Kind::TW, t.enc(Codec::Bincode)));
                }
            }
            Ok(v)
        })?;
        match r {
            Ok(v) => objs.extend(v),
            Err(e) => return viol("honest-session-failed", format!("{e:?}")),
        }
    }
    Ok(Bag { objs })
}

/// Strict reference decoder: consumed length, if every field is canonical.
pub fn strict<S: Suite>(k: Kind, b: &[u8]) -> Option<usize> {
    let mut at = 0;
    for scalar in layout(k) {
        let l = if *scalar { S::NS } else { S::NE };
        let f = b.get(at..at + l)?;
        if *scalar {
            S::decs(f)?;
        } else {
            S::dec(f)?;
        }
        at += l;
    }
    Some(at)
}

pub type Dec = Box<dyn Fn(&[u8], Codec) -> Result<Box<dyn Fn(Codec) -> Vec<u8>>, String> + 'static>;

pub fn decoder<S: Suite>(k: Kind) -> Dec {
    fn mk<S: Suite, O: Obj>() -> Dec {
        Box::new(|b, c| {
            O::dec(b, c).map(|o| {
                let f: Box<dyn Fn(Codec) -> Vec<u8>> = Box::new(move |c| o.enc(c));
                f
            })
        })
    }
    match k {
        Kind::OC => mk::<S, S::OC>(),
        Kind::VC => mk::<S, S::VC>(),
        Kind::PC => mk::<S, S::PC>(),
        Kind::OS => mk::<S, S::OS>(),
        Kind::VS => mk::<S, S::VS>(),
        Kind::PS => mk::<S, S::PS>(),
        Kind::BE => mk::<S, S::BE>(),
        Kind::EE => mk::<S, S::EE>(),
        Kind::PE => mk::<S, S::PE>(),
        Kind::PR => mk::<S, S::PR>(),
        Kind::TW => mk::<S, S::TW>(),
    }
}

fn corrupt<S: Suite>(ctx: &mut Ctx) -> R {
    let bag = bag::<S>(ctx)?;
    let n = 30 + ctx.below(60);
    for _ in 0..n {
        let (k, good) = bag.objs[ctx.below(bag.objs.len())].clone();
        match ctx.draw(10) {
            0 => key_load::<S>(ctx, &bag)?,
            1 => group_decode::<S>(ctx, &good, k)?,
            2 | 3 => json::<S>(ctx, k, &good, &bag)?,
            _ => {
                let (bad, what) = damage::<S>(ctx, k, &good, &bag);
                ctx.fault(what);
                let c = *ctx.pick(&[Codec::Native, Codec::Native, Codec::Bincode]);
                judge::<S>(ctx, k, &bad, c, what)?;
                if ctx.chance(1, 4) {
                    let k2 = KINDS[ctx.below(KINDS.len())];
                    ctx.fault("misdirected-read");
                    judge::<S>(ctx, k2, &bad, c, "misdirected-read")?;
                }
            }
        }
    }
    Ok(())
}

fn judge<S: Suite>(ctx: &mut Ctx, k: Kind, b: &[u8], c: Codec, what: &str) -> R {
    let d = decoder::<S>(k);
    let want = strict::<S>(k, b);
    let r = ctx.lib("object.decode", || d(b, c))?;
    ctx.check("decode-verdict");
    ctx.bytes_ev("decode", what, b);
    match (&r, want) {
        (Ok(f), Some(len)) => {
            ctx.probe("damaged-but-valid-encoding");
            let again = ctx.lib("object.encode", || f(c))?;
            if again != b[..len] {
                return viol("reencoding-differs", format!("{} {k:?} {c:?} after {what}: accepted {} but re-encodes to {}", S::NAME, hx(&b[..len]), hx(&again)));
            }
        }
        (Err(e), None) => {
            ctx.probe("damage-detected");
            if c == Codec::Native && native(k) && e != "Deserialization" {
                return viol("wrong-error", format!("{} {k:?} after {what}: {e}", S::NAME));
            }
        }
        (Ok(_), None) => return viol("accepted-noncanonical", format!("{} {k:?} {c:?} after {what}: accepted {}", S::NAME, hex::encode(b))),
        (Err(e), Some(len)) => {
            // bytes after the object are not asserted either way
            if len == b.len() {
                return viol("rejected-valid", format!("{} {k:?} {c:?} after {what}: {} refused with {e}", S::NAME, hex::encode(b)));
            }
        }
    }
    Ok(())
}

fn be_add(a: &[u8], b: &[u8]) -> Option<Vec<u8>> {
    let mut r = a.to_vec();
    let mut carry = 0u16;
    for i in (0..a.len()).rev() {
        let s = u16::from(a[i]) + u16::from(b[i]) + carry;
        r[i] = s as u8;
        carry = s >> 8;
    }
    (carry == 0).then_some(r)
}

fn scalar_order<S: Suite>(v: Vec<u8>) -> Vec<u8> {
    if S::SCALAR_LE {
        v.into_iter().rev().collect()
    } else {
        v
    }
}

/// Alternative or invalid encodings of one field.
fn alt_field<S: Suite>(ctx: &mut Ctx, scalar: bool, f: &[u8]) -> Vec<u8> {
    let order = S::order_be();
    if scalar {
        let be = scalar_order::<S>(f.to_vec());
        match ctx.draw(9) {
            0 => vec![0; S::NS],
            1 => scalar_order::<S>(order),
            2 => match be_add(&be, &order) {
                Some(v) => scalar_order::<S>(v),
                None => vec![0xff; S::NS],
            },
            3 => vec![0xff; S::NS],
            4 => {
                let mut o = order;
                let l = o.len();
                o[l - 1] = o[l - 1].wrapping_add(1 + ctx.draw(4) as u8);
                scalar_order::<S>(o)
            }
            5 => {
                // order - 1: valid
                let mut o = order;
                let l = o.len();
                o[l - 1] -= 1;
                scalar_order::<S>(o)
            }
            6 => f.iter().rev().copied().collect(),
            7 => {
                let mut v = f.to_vec();
                let i = if S::SCALAR_LE { S::NS - 1 } else { 0 };
                v[i] |= 0x80 >> ctx.draw(4);
                v
            }
            _ => {
                // small value: one byte at either end
                let mut v = vec![0; S::NS];
                let i = if ctx.chance(1, 2) { 0 } else { S::NS - 1 };
                v[i] = 1 + ctx.draw(200) as u8;
                v
            }
        }
    } else {
        let mut v = f.to_vec();
        match ctx.draw(11) {
            0 => vec![0; S::NE],
            1 => S::enc(S::ident()),
            2 => {
                v[0] = *ctx.pick(&[4, 5, 0, 1, 6, 7, 0x82, 0xff]);
                v
            }
            3 => {
                v[0] ^= 1;
                v
            }
            4 => {
                // field element plus the field prime, when it fits
                if let Some(p) = S::sec1_prime() {
                    if let Some(x) = be_add(&v[1..], &p) {
                        v[1..].copy_from_slice(&x);
                    } else {
                        // x = p + small, off the canonical range
                        let mut s = vec![0; p.len()];
                        let l = s.len();
                        s[l - 1] = ctx.draw(64) as u8;
                        match be_add(&p, &s) {
                            Some(x) => v[1..].copy_from_slice(&x),
                            None => v[1..].copy_from_slice(&p),
                        }
                    }
                    v
                } else if S::NAME == "ristretto255" {
                    // s + p for small s, little endian, p = 2^255 - 19
                    let mut x = [0xffu8; 32];
                    x[0] = 0xed + ctx.draw(19) as u8;
                    x[31] = 0x7f;
                    x.to_vec()
                } else {
                    vec![0xff; S::NE]
                }
            }
            5 => {
                let l = v.len();
                v[l - 1] |= 0x80;
                v
            }
            6 => {
                // negated field representative (ristretto: odd s)
                if S::NAME == "ristretto255" {
                    let mut p = [0xffu8; 32];
                    p[0] = 0xed;
                    p[31] = 0x7f;
                    let mut borrow = 0i16;
                    for i in 0..32 {
                        let d = i16::from(p[i]) - i16::from(v[i]) - borrow;
                        borrow = i16::from(d < 0);
                        v[i] = d.rem_euclid(256) as u8;
                    }
                } else {
                    v.rotate_left(1);
                }
                v
            }
            7 => vec![0xff; S::NE],
            8 => {
                // compact form of the same x
                v[0] = 5;
                v
            }
            9 => {
                // small x coordinates: often off-curve
                let l = v.len();
                for b in v[1..l - 1].iter_mut() {
                    *b = 0;
                }
                v[l - 1] = ctx.draw(256) as u8;
                v
            }
            _ => {
                let r = ctx.bytes(S::NE - 1);
                v[1..].copy_from_slice(&r);
                v
            }
        }
    }
}

fn damage<S: Suite>(ctx: &mut Ctx, k: Kind, good: &[u8], bag: &Bag) -> (Vec<u8>, &'static str) {
    let mut v = good.to_vec();
    let n = v.len();
    match ctx.draw(13) {
        0 => {
            let i = ctx.below(n);
            v[i] ^= 1 << ctx.below(8);
            (v, "bit-flip")
        }
        1 => {
            for _ in 0..1 + ctx.below(4) {
                let i = ctx.below(n);
                v[i] ^= 1 << ctx.below(8);
            }
            (v, "multi-bit-flip")
        }
        2 => {
            let i = ctx.below(n);
            v[i] = ctx.draw(256) as u8;
            (v, "byte-overwrite")
        }
        3 => {
            let l = ctx.below(n);
            v.truncate(l);
            (v, "truncated")
        }
        4 => {
            let l = 1 + ctx.below(n.min(4));
            v.truncate(n - l);
            (v, "short-by-few")
        }
        5 => {
            // torn write: prefix of this object, rest of another
            let o = &bag.objs[ctx.below(bag.objs.len())].1;
            let cut = ctx.below(n);
            for i in cut..n {
                v[i] = o.get(i).copied().unwrap_or(0);
            }
            (v, "torn-write")
        }
        6 => {
            let a = ctx.below(n);
            let b = a + 1 + ctx.below(n - a);
            v[a..b].fill(0);
            (v, "zeroed-range")
        }
        7 => {
            let o = bag.objs[ctx.below(bag.objs.len())].1.clone();
            (o, "misdirected-write")
        }
        8 => {
            let ex = ctx.bytes(3);
            v.extend(ex);
            (v, "extended")
        }
        9 => {
            // lost first byte(s): shifted content
            let s = 1 + ctx.below(n.min(3));
            v.drain(..s);
            v.extend(std::iter::repeat(0).take(s));
            (v, "shifted")
        }
        10 => (vec![], "empty-file"),
        _ => {
            // adversarial field
            let lay = layout(k);
            let fi = ctx.below(lay.len());
            let mut out = Vec::new();
            let mut at = 0;
            for (i, sc) in lay.iter().enumerate() {
                let l = if *sc { S::NS } else { S::NE };
                let f = &good[at..at + l];
                at += l;
                if i == fi {
                    out.extend(alt_field::<S>(ctx, *sc, f));
                } else {
                    out.extend_from_slice(f);
                }
            }
            (out, "alternative-encoding")
        }
    }
}

/// `new_with_key` on damaged key files: exact length, in range, non-zero.
fn key_load<S: Suite>(ctx: &mut Ctx, bag: &Bag) -> R {
    let servers: Vec<&Vec<u8>> = bag.objs.iter().filter(|o| matches!(o.0, Kind::OS | Kind::VS | Kind::PS)).map(|o| &o.1).collect();
    let good = servers[ctx.below(servers.len())][..S::NS].to_vec();
    let mut b = good.clone();
    let what = match ctx.draw(9) {
        0 => {
            b = alt_field::<S>(ctx, true, &good);
            "key-alternative-encoding"
        }
        1 => {
            let l = ctx.below(S::NS);
            b.truncate(l);
            "key-truncated"
        }
        2 => {
            let l = 1 + ctx.below(8);
            b.drain(..l.min(b.len()));
            "key-head-lost"
        }
        3 => {
            b.push(ctx.draw(256) as u8);
            "key-extended"
        }
        4 => {
            b.insert(0, 0);
            "key-zero-padded"
        }
        5 => {
            b = vec![];
            "key-empty"
        }
        6 => {
            let i = ctx.below(b.len());
            b[i] ^= 1 << ctx.below(8);
            "key-bit-flip"
        }
        7 => {
            // leading zero bytes stripped from a small key
            b = vec![0; S::NS];
            b[S::NS - 1] = 9;
            let cut = 1 + ctx.below(S::NS - 1);
            b.drain(..cut);
            "key-leading-zeros-stripped"
        }
        _ => {
            b = servers[ctx.below(servers.len())].clone();
            "key-whole-object"
        }
    };
    ctx.fault(what);
    let m = *ctx.pick(&rg::MODES);
    let want = S::decs(&b);
    let r = ctx.lib("server.new_with_key", || Sv::<S>::with_key(m, &b))?;
    ctx.check("key-verdict");
    match (r, want) {
        (Ok(s), Some(k)) => {
            if s.sk() != Some(k) {
                return viol("reencoding-differs", format!("{} key {} loaded as something else", S::NAME, hex::encode(&b)));
            }
            Ok(())
        }
        (Err(voprf::Error::Deserialization), None) => Ok(()),
        (Err(e), None) => viol("wrong-error", format!("{} key {}: {e:?}", S::NAME, hex::encode(&b))),
        (Ok(_), None) => viol("accepted-noncanonical", format!("{} mode {m:?} {what}: new_with_key accepted {} bytes {}", S::NAME, b.len(), hex::encode(&b))),
        (Err(e), Some(_)) => viol("rejected-valid", format!("{} key {} refused: {e:?}", S::NAME, hex::encode(&b))),
    }
}

/// The group interface's own decoders, on slices of any length.
fn group_decode<S: Suite>(ctx: &mut Ctx, good: &[u8], k: Kind) -> R {
    let scalar = ctx.chance(1, 2);
    let mut b = {
        let lay = layout(k);
        let mut at = 0;
        let mut f = None;
        for sc in lay {
            let l = if *sc { S::NS } else { S::NE };
            if *sc == scalar {
                f = Some(good[at..at + l].to_vec());
            }
            at += l;
        }
        match f {
            Some(f) => f,
            None => return Ok(()),
        }
    };
    let what = match ctx.draw(8) {
        0..=2 => {
            b = alt_field::<S>(ctx, scalar, &b);
            "field-alternative-encoding"
        }
        3 => {
            let l = ctx.below(b.len());
            b.truncate(l);
            "field-truncated"
        }
        4 => {
            b.push(0);
            "field-extended"
        }
        5 => {
            // uncompressed / hybrid form of the same point
            if let (false, Some(p)) = (scalar, S::dec(&b)) {
                if let Some(mut u) = S::uncompressed(p) {
                    if ctx.chance(1, 3) {
                        u[0] = 6 + (u[u.len() - 1] & 1);
                    }
                    b = u;
                }
            }
            "field-uncompressed"
        }
        6 => {
            let l = 1 + ctx.below(3);
            b = b[l.min(b.len())..].to_vec();
            "field-head-lost"
        }
        _ => {
            b = vec![0];
            "field-one-zero-byte"
        }
    };
    ctx.fault(what);
    ctx.check("group-decoder-verdict");
    if scalar {
        let want = S::decs(&b);
        let r = ctx.lib("group.deserialize_scalar", || S::g_decs(&b))?;
        verdict::<S, S::S>(r, want, &b, what, "scalar")
    } else {
        let want = S::dec(&b);
        let r = ctx.lib("group.deserialize_elem", || S::g_dec(&b))?;
        verdict::<S, S::E>(r, want, &b, what, "element")
    }
}

fn verdict<S: Suite, T: PartialEq>(r: LR<T>, want: Option<T>, b: &[u8], what: &str, kind: &str) -> R {
    match (r, want) {
        (Ok(a), Some(w)) if a == w => Ok(()),
        (Ok(_), Some(_)) => viol("reencoding-differs", format!("{} {kind} {what}: {} decodes to another value", S::NAME, hex::encode(b))),
        (Err(voprf::Error::Deserialization), None) => Ok(()),
        (Err(e), None) => viol("wrong-error", format!("{} {kind} {what}: {e:?}", S::NAME)),
        (Ok(_), None) => viol("accepted-noncanonical", format!("{} {kind} {what}: accepted {}", S::NAME, hex::encode(b))),
        (Err(e), Some(_)) => viol("rejected-valid", format!("{} {kind} {what}: {} refused: {e:?}", S::NAME, hex::encode(b))),
    }
}

/// Flattens the byte arrays of a JSON encoding in document order.
fn flatten(v: &serde_json::Value, out: &mut Vec<Vec<u8>>) -> Option<()> {
    match v {
        serde_json::Value::Array(a) => {
            let mut b = Vec::new();
            for x in a {
                b.push(u8::try_from(x.as_u64()?).ok()?);
            }
            out.push(b);
            Some(())
        }
        serde_json::Value::Object(o) => {
            for x in o.values() {
                flatten(x, out)?;
            }
            Some(())
        }
        _ => None,
    }
}

fn json<S: Suite>(ctx: &mut Ctx, k: Kind, good: &[u8], bag: &Bag) -> R {
    let d = decoder::<S>(k);
    let c0 = if native(k) { Codec::Native } else { Codec::Bincode };
    let text = match ctx.lib("object.decode", || d(good, c0))? {
        Ok(f) => ctx.lib("object.encode", || f(Codec::Json))?,
        Err(e) => return viol("rejected-valid", format!("{k:?}: {e}")),
    };
    if ctx.chance(1, 3) {
        // raw damage to the text
        let mut t = text.clone();
        match ctx.draw(4) {
            0 => {
                let i = ctx.below(t.len());
                t[i] ^= 1 << ctx.below(7);
            }
            1 => {
                let l = ctx.below(t.len());
                t.truncate(l);
            }
            2 => {
                let i = ctx.below(t.len());
                t.remove(i);
            }
            _ => {
                let i = ctx.below(t.len());
                t.insert(i, *ctx.pick(b"0,[]{1\"-.e9"));
            }
        }
        ctx.fault("json-text-damage");
        let r = ctx.lib("object.decode", || d(&t, Codec::Json))?;
        ctx.check("decode-verdict");
        if let Ok(f) = r {
            let bytes = ctx.lib("object.encode", || f(c0))?;
            if strict::<S>(k, &bytes) != Some(bytes.len()) {
                return viol("accepted-noncanonical", format!("{} {k:?} JSON {}", S::NAME, String::from_utf8_lossy(&t)));
            }
        }
        return Ok(());
    }
    // damage to the decoded bytes, re-wrapped in well-formed JSON
    let v: serde_json::Value = match serde_json::from_slice(&text) {
        Ok(v) => v,
        Err(e) => return viol("harness", format!("own JSON: {e}")),
    };
    // fields in declaration order, found by matching their content
    let mut fields = Vec::new();
    let mut at = 0;
    for sc in layout(k) {
        let l = if *sc { S::NS } else { S::NE };
        fields.push(good[at..at + l].to_vec());
        at += l;
    }
    let mut leaves = Vec::new();
    if flatten(&v, &mut leaves).is_none() || leaves.len() != fields.len() || !fields.iter().all(|f| leaves.contains(f)) {
        // another JSON shape than byte arrays: only the text-level check applies
        ctx.probe("json-shape-unknown");
        return Ok(());
    }
    let (bad, what) = damage::<S>(ctx, k, good, bag);
    let mut parts = Vec::new();
    let mut at = 0;
    for sc in layout(k) {
        let l = if *sc { S::NS } else { S::NE };
        let a = at.min(bad.len());
        let e = (at + l).min(bad.len());
        parts.push(bad[a..e].to_vec());
        at += l;
    }
    if ctx.chance(1, 8) {
        let i = ctx.below(parts.len());
        parts[i].push(0);
    }
    ctx.fault("json-field-damage");
    let mut v2 = v.clone();
    // pair every leaf with the field it came from (equal fields are interchangeable)
    fn subst(v: &mut serde_json::Value, fields: &[Vec<u8>], parts: &[Vec<u8>], used: &mut Vec<bool>) {
        match v {
            serde_json::Value::Array(a) => {
                let b: Vec<u8> = a.iter().map(|x| x.as_u64().unwrap() as u8).collect();
                let i = (0..fields.len()).find(|i| !used[*i] && fields[*i] == b).unwrap_or(0);
                used[i] = true;
                *a = parts[i].iter().map(|x| serde_json::Value::from(*x)).collect();
            }
            serde_json::Value::Object(o) => {
                for x in o.values_mut() {
                    subst(x, fields, parts, used);
                }
            }
            _ => {}
        }
    }
    let mut used = vec![false; fields.len()];
    subst(&mut v2, &fields, &parts, &mut used);
    let want = layout(k).iter().zip(&parts).all(|(sc, p)| if *sc { S::decs(p).is_some() } else { S::dec(p).is_some() });
    let c = *ctx.pick(&[Codec::Json, Codec::JsonValue, Codec::Own(0), Codec::Own(1), Codec::Own(2)]);
    let t = match c {
        Codec::Own(i) => crate::serfmt::to_bytes(&v2, crate::serfmt::STYLES[usize::from(i)]).unwrap(),
        _ => serde_json::to_vec(&v2).unwrap(),
    };
    let r = ctx.lib("object.decode", || d(&t, c))?;
    ctx.check("decode-verdict");
    match (r, want) {
        (Ok(f), true) => {
            let again = ctx.lib("object.encode", || f(c0))?;
            let all: Vec<u8> = parts.concat();
            if again != all {
                return viol("reencoding-differs", format!("{} {k:?} JSON after {what}: {} became {}", S::NAME, hx(&all), hx(&again)));
            }
            Ok(())
        }
        (Err(_), false) => Ok(()),
        (Ok(_), false) => viol("accepted-noncanonical", format!("{} {k:?} {c:?} after {what}: accepted fields {}", S::NAME, parts.iter().map(hex::encode).collect::<Vec<_>>().join(" "))),
        (Err(e), true) => viol("rejected-valid", format!("{} {k:?} {c:?} after {what}: fields {} refused: {e}", S::NAME, parts.iter().map(hex::encode).collect::<Vec<_>>().join(" "))),
    }
}
