//! The reference model against the RFC 9497 appendix A vectors (a copy of
//! which is vectors.json): the oracle is validated before it judges anything.

use std::collections::BTreeMap;

use crate::rg::*;

fn h(s: &str) -> Vec<u8> {
    hex::decode(s).unwrap()
}

fn one<G: RG>(v: &BTreeMap<String, String>) -> Result<(), String> {
    let mode = match v["mode"].as_str() {
        "OPRF" => Mode::O,
        "VOPRF" => Mode::V,
        _ => Mode::P,
    };
    let list = |k: &str| -> Vec<Vec<u8>> { v[k].split(',').map(h).collect() };
    let e = |what: &str| Err(format!("{} {} {what}", v["suite"], v["mode"]));
    let sk = derive::<G>(mode, &h(&v["Seed"]), &h(&v["KeyInfo"])).unwrap();
    if G::encs(sk) != h(&v["skSm"]) {
        return e("key derivation");
    }
    let pk = G::mul(G::base(), sk);
    if let Some(p) = v.get("pkSm") {
        if G::enc(pk) != h(p) || G::dec(&h(p)) != Some(pk) {
            return e("public key");
        }
    }
    let info = v.get("Info").map(|x| h(x)).unwrap_or_default();
    let (ins, blinds, bes, ees, outs) = (list("Input"), list("Blind"), list("BlindedElement"), list("EvaluationElement"), list("Output"));
    let mut cb = Vec::new();
    let mut ce = Vec::new();
    for i in 0..ins.len() {
        let r = G::decs(&blinds[i]).ok_or("blind")?;
        let b = blind::<G>(mode, &ins[i], r).map_err(|_| "blind")?;
        if G::enc(b) != bes[i] {
            return e("blinded element");
        }
        let z = eval::<G>(mode, sk, b, &info).map_err(|_| "eval")?;
        if G::enc(z) != ees[i] {
            return e("evaluation element");
        }
        if finalize::<G>(mode, &ins[i], &info, r, z).as_deref() != Ok(&outs[i]) {
            return e("output");
        }
        if prf::<G>(mode, sk, &ins[i], &info).as_deref() != Ok(&outs[i]) {
            return e("prf");
        }
        cb.push(b);
        ce.push(z);
    }
    if let Some(p) = v.get("Proof") {
        let r = G::decs(&h(&v["ProofRandomScalar"])).ok_or("r")?;
        let (c, s) = server_prove::<G>(mode, sk, &info, &cb, &ce, r).map_err(|_| "prove")?;
        let mut b = G::encs(c);
        b.extend(G::encs(s));
        if b != h(p) {
            return e("proof");
        }
        if client_verify::<G>(mode, pk, &info, &cb, &ce, (c, s)) != Ok(true) {
            return e("verify");
        }
        if client_verify::<G>(mode, pk, &info, &cb, &ce, (c, G::sadd(s, G::su64(1)))) != Ok(false) {
            return e("verify accepts a wrong proof");
        }
    }
    Ok(())
}

pub fn run() -> Result<usize, String> {
    crate::clock::selftest()?;
    let vs: Vec<BTreeMap<String, String>> = serde_json::from_str(include_str!("../vectors.json")).map_err(|e| e.to_string())?;
    let mut n = 0;
    for v in &vs {
        match v["suite"].as_str() {
            "ristretto255-SHA512" => one::<RRistretto>(v)?,
            "P256-SHA256" => one::<RP256>(v)?,
            "P384-SHA384" => one::<RP384>(v)?,
            "P521-SHA512" => one::<RP521>(v)?,
            _ => continue,
        }
        n += 1;
    }
    if n != 32 {
        return Err(format!("expected 32 vectors, found {n}"));
    }
    Ok(n)
}
