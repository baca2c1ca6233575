//! A real second process. Simulated restarts drop every live object but stay
//! in one process, so they cannot see state that lives in statics, in hash
//! seeds or in addresses. Here stored bytes are handed to a fresh process
//! (this program again), which continues from them; what it produces must be
//! what this process produces from the same bytes and generator output.

use std::collections::BTreeMap;
use std::io::Write;
use std::process::{Command, Stdio};

use serde::{Deserialize, Serialize};

use crate::ctx::{hx, viol, Ctx, R};
use crate::dispatch;
use crate::rg::Mode;
use crate::scen::util::*;
use crate::suite::*;

type Stored = (usize, Vec<u8>);

#[derive(Serialize, Deserialize, Clone)]
pub struct Ask {
    pub sid: usize,
    pub mode: usize,
    pub info: Option<Vec<u8>>,
    pub input: Vec<u8>,
    pub seed: u64,
    pub pk: Option<Vec<u8>>,
    pub server: Option<Stored>,
    pub client: Option<Stored>,
    pub blinded: Vec<Stored>,
    pub prepared: Vec<Stored>,
    pub tweak: Option<Stored>,
    pub evaluation: Option<Stored>,
    pub proof: Option<Stored>,
}

const SIDS: [Sid; 11] = [
    Sid::Toy,
    Sid::ToyB,
    Sid::ToyLong,
    Sid::Ristretto,
    Sid::P256,
    Sid::P384,
    Sid::P521,
    Sid::ToyF,
    Sid::ToyG,
    Sid::RistrettoB,
    Sid::P256B,
];
const MODES: [Mode; 3] = [Mode::O, Mode::V, Mode::P];

impl Ask {
    pub fn new(sid: Sid, m: Mode, seed: u64) -> Self {
        Ask {
            sid: SIDS.iter().position(|s| *s == sid).unwrap(),
            mode: MODES.iter().position(|x| *x == m).unwrap(),
            info: None,
            input: vec![],
            seed,
            pk: None,
            server: None,
            client: None,
            blinded: vec![],
            prepared: vec![],
            tweak: None,
            evaluation: None,
            proof: None,
        }
    }
}

pub type Answer = BTreeMap<String, String>;

fn ok<T>(a: &mut Answer, what: &str, r: Result<T, String>, enc: impl Fn(&T) -> Vec<u8>) -> Option<T> {
    let (s, o) = match r {
        Ok(o) => (hex::encode(enc(&o)), Some(o)),
        Err(e) => (format!("error: {e}"), None),
    };
    a.insert(what.into(), s);
    o
}

fn dbg<T>(r: LR<T>) -> Result<T, String> {
    r.map_err(|e| format!("{e:?}"))
}

pub fn answer(q: &Ask) -> Answer {
    dispatch!(SIDS[q.sid], answer_in(q))
}

fn answer_in<S: Suite>(q: &Ask) -> Answer {
    let m = MODES[q.mode];
    let i = q.info.as_deref();
    let mut a = Answer::new();
    fn list<O: Obj>(a: &mut Answer, what: &str, v: &[Stored]) -> Vec<O> {
        v.iter().enumerate().filter_map(|(n, (c, b))| ok(a, &format!("{what} {n}"), O::dec(b, CODECS[*c]), |o| o.bytes())).collect()
    }
    fn one<O: Obj>(a: &mut Answer, what: &str, v: &Option<Stored>) -> Option<O> {
        list(a, what, v.as_slice()).pop()
    }
    let n = |c: Codec| move |o: &Sv<S>| o.enc(c);
    let srv = q.server.as_ref().and_then(|(c, b)| ok(&mut a, "server", Sv::<S>::dec(m, b, CODECS[*c]), n(Codec::Native)));
    let cl = q.client.as_ref().and_then(|(c, b)| ok(&mut a, "client", Cl::<S>::dec(m, b, CODECS[*c]), |o| o.enc(Codec::Native)));
    let be: Vec<S::BE> = list(&mut a, "request", &q.blinded);
    let pe: Vec<S::PE> = list(&mut a, "prepared", &q.prepared);
    let tw: Option<S::TW> = one(&mut a, "tweak", &q.tweak);
    let ee: Option<S::EE> = one(&mut a, "evaluation", &q.evaluation);
    let pr: Option<S::PR> = one(&mut a, "proof", &q.proof);
    if let Some(s) = &srv {
        a.insert("public key".into(), s.pk().map(|p| hex::encode(S::enc(p))).unwrap_or_default());
        ok(&mut a, "direct evaluation", dbg(s.evaluate(&q.input, i)), |o| o.to_vec());
        if let Some(b) = be.first() {
            let mut rng = generator_from::<S>(q.seed);
            ok(&mut a, "evaluation of the request", dbg(s.blind_evaluate(&mut rng, b, i)), |(e, p)| [e.bytes(), p.as_ref().map(|p| p.bytes()).unwrap_or_default()].concat());
        }
        if m.verifiable() && !pe.is_empty() && pe.len() == be.len() && (m != Mode::P || tw.is_some()) {
            let mut rng = generator_from::<S>(q.seed);
            ok(&mut a, "finish", dbg(s.finish(&mut rng, &Yv(be.clone()), &Yv(pe), tw.as_ref())), |(e, p)| {
                let mut v: Vec<u8> = e.iter().flat_map(|e| e.bytes()).collect();
                v.extend(p.bytes());
                v
            });
            let mut rng = generator_from::<S>(q.seed);
            ok(&mut a, "one-shot batch", dbg(s.batch(&mut rng, &Yv(be), i)), |(e, p)| {
                let mut v: Vec<u8> = e.iter().flat_map(|e| e.bytes()).collect();
                v.extend(p.as_ref().map(|p| p.bytes()).unwrap_or_default());
                v
            });
        }
    }
    let pk = q.pk.as_ref().and_then(|b| S::dec(b));
    if let (Some(c), Some(e), Some(pk), true) = (&cl, &ee, pk, m == Mode::O || pr.is_some()) {
        ok(&mut a, "output", dbg(c.finalize(&q.input, e, pr.as_ref(), pk, i)), |o| o.to_vec());
    }
    // fresh work from given generator output
    let mut rng = generator_from::<S>(q.seed);
    ok(&mut a, "new request", dbg(Cl::<S>::blind(m, &q.input, &mut rng)), |(c, b)| [c.enc(Codec::Native), b.bytes()].concat());
    ok(&mut a, "derived key", dbg(Sv::<S>::from_seed(m, &q.seed.to_be_bytes().repeat(4), &q.input[..q.input.len().min(100)])), n(Codec::Native));
    a
}

/// the child: the question on stdin, the answer on stdout
pub fn child() -> i32 {
    let q: Ask = match serde_json::from_reader(std::io::stdin().lock()) {
        Ok(q) => q,
        Err(_) => return 2,
    };
    println!("{}", serde_json::to_string(&answer(&q)).unwrap());
    0
}

/// Asks a fresh process; None if no process could be started (a failing
/// environment is no failing library).
fn other(q: &Ask) -> Option<Result<Answer, String>> {
    let mut c = Command::new("/proc/self/exe").arg("resume").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().ok()?;
    c.stdin.take()?.write_all(&serde_json::to_vec(q).unwrap()).ok()?;
    let o = c.wait_with_output().ok()?;
    if !o.status.success() {
        use std::os::unix::process::ExitStatusExt;
        if o.status.signal() == Some(9) {
            return None;
        }
        return Some(Err(format!("the process ended with {}", o.status)));
    }
    serde_json::from_slice(&o.stdout).ok().map(Ok)
}

/// The question answered here and there. Returns this process's answer.
pub fn compare(ctx: &mut Ctx, q: &Ask) -> R<Answer> {
    ctx.fault("process-restart");
    let here = ctx.lib("continue from stored bytes", || answer(q))?;
    let Some(there) = other(q) else {
        ctx.probe("no-second-process");
        return Ok(here);
    };
    ctx.check("same-in-a-fresh-process");
    match there {
        Err(e) => viol("restored-differs", format!("a fresh process could not continue from the stored bytes: {e}")),
        Ok(t) => {
            for (k, v) in &here {
                let w = t.get(k).cloned().unwrap_or_default();
                if w != *v {
                    return viol("restored-differs", format!("{k}: a fresh process continuing from the same stored bytes gives {}, this one {}", hx(w.as_bytes()), hx(v.as_bytes())));
                }
            }
            Ok(here)
        }
    }
}
