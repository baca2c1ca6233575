//! One deployment, many builds: the parties of a session run in processes
//! compiled from the same source with different features (none, alloc, std,
//! serde, danger, ristretto255) and profiles (debug assertions and overflow
//! checks on or off). State and messages pass between them as bytes; every
//! request is also answered by another build and by this process, and all
//! answers must be the same.

use std::collections::BTreeMap;
use std::path::PathBuf;
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;

use crate::ctx::{hx, viol, Ctx, R};
use crate::ensure;
use crate::node::{self, Msg};

/// name, has ristretto255
pub const BUILDS: [(&str, bool); 8] = [
    ("bare", false),
    ("bare-checked", false),
    ("ristretto", true),
    ("alloc", true),
    ("std-checked", true),
    ("serde", true),
    ("danger", true),
    ("everything", true),
];
const SUITES: [(&str, usize, usize); 4] = [("p256", 33, 32), ("p384", 49, 48), ("p521", 67, 66), ("ristretto", 32, 32)];

static NODES: Mutex<BTreeMap<usize, Child>> = Mutex::new(BTreeMap::new());

fn path(b: usize) -> PathBuf {
    let exe = std::env::current_exe().unwrap_or_default();
    exe.parent().and_then(|p| p.parent()).map(|p| p.join("lean/bin").join(BUILDS[b].0)).unwrap_or_default()
}

fn kill(b: usize) {
    if let Some(mut c) = NODES.lock().unwrap().remove(&b) {
        let _ = c.kill();
        let _ = c.wait();
    }
}

enum Got {
    Answer(Msg),
    /// the environment took the process away
    Nothing,
    Died(String),
}

/// Asks the node of build `b`; nodes are stateless and serve many runs.
fn ask(b: usize, q: &Msg) -> R<Got> {
    let mut g = NODES.lock().unwrap();
    if !g.contains_key(&b) {
        let p = path(b);
        if !p.exists() {
            return viol("harness", format!("{} is not built (sh check.sh C19 builds it)", p.display()));
        }
        match Command::new(&p).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn() {
            Ok(c) => g.insert(b, c),
            Err(_) => return Ok(Got::Nothing),
        };
    }
    let c = g.get_mut(&b).unwrap();
    let w = node::write(c.stdin.as_mut().unwrap(), q);
    let r = node::read(c.stdout.as_mut().unwrap());
    if let (Ok(()), Ok(m)) = (w, r) {
        return Ok(Got::Answer(m));
    }
    let mut c = g.remove(&b).unwrap();
    drop(c.stdin.take());
    let st = c.wait();
    use std::os::unix::process::ExitStatusExt;
    Ok(match st {
        Ok(s) if s.signal() != Some(9) => Got::Died(s.to_string()),
        _ => Got::Nothing,
    })
}

fn show(m: &Msg) -> String {
    m.iter().map(|x| if x.iter().all(|c| (0x20..0x7f).contains(c)) && x.len() < 24 { String::from_utf8_lossy(x).into() } else { hx(x) }).collect::<Vec<_>>().join(" ")
}

struct Parties {
    /// builds that take part
    pool: Vec<usize>,
    suite: usize,
}

impl Parties {
    /// The answer to a request, from a build of the pool, checked against
    /// this process and now and then against one more build.
    fn call(&self, ctx: &mut Ctx, what: &str, op: u8, args: &[&[u8]]) -> R<Msg> {
        let mut q: Msg = vec![vec![op], vec![self.suite as u8]];
        q.extend(args.iter().map(|a| a.to_vec()));
        let here = ctx.lib(what, || node::handle(&q))?;
        ensure!(here[0] != b"absent", "harness", "{what}: malformed request");
        ensure!(here[0] != b"panic", "panic", "{what} panicked");
        ctx.bytes_ev(what, "answer", &here.concat());
        let n = 1 + usize::from(ctx.chance(1, 3));
        for _ in 0..n {
            let b = *ctx.pick(&self.pool);
            if ctx.draw(400) == 399 {
                ctx.fault("process-restart");
                kill(b);
            }
            match ask(b, &q)? {
                Got::Nothing => ctx.probe("no-answer-from-a-build"),
                Got::Died(s) => return viol("build-died", format!("{what}: the node built as '{}' ended with {s}", BUILDS[b].0)),
                Got::Answer(there) => {
                    ctx.check("same-answer-from-another-build");
                    ctx.probe(BUILDS[b].0);
                    ensure!(
                        there == here,
                        "builds-differ",
                        "{what} in {}: the build '{}' answers {}, the build with every feature answers {}",
                        SUITES[self.suite].0,
                        BUILDS[b].0,
                        show(&there),
                        show(&here)
                    );
                }
            }
        }
        Ok(here)
    }
}

fn rng(ctx: &mut Ctx) -> Vec<u8> {
    let mut v = ctx.seed().to_le_bytes().to_vec();
    if ctx.chance(1, 6) {
        ctx.fault("poor-generator");
        v.push(1 + ctx.draw(2) as u8);
        v.push(*ctx.pick(&[32, 48, 66, 64, 96, 132, 200]));
    }
    v
}

fn wire(i: &Option<Vec<u8>>) -> Vec<u8> {
    i.as_ref().map(|i| [&[1], i.as_slice()].concat()).unwrap_or_default()
}

fn mangle(ctx: &mut Ctx, v: &mut Vec<u8>) {
    ctx.fault("corrupted-bytes");
    if v.is_empty() {
        v.push(0);
        return;
    }
    match ctx.draw(7) {
        0 => {
            let (i, b) = (ctx.below(v.len()), ctx.draw(8));
            v[i] ^= 1 << b;
        }
        1 => {
            let n = ctx.below(v.len());
            v.truncate(n);
        }
        2 => {
            let n = ctx.below(v.len());
            v[n..].iter_mut().for_each(|b| *b = 0);
        }
        3 => {
            let n = ctx.below(v.len());
            v[..n].iter_mut().for_each(|b| *b = 0);
        }
        4 => v.iter_mut().for_each(|b| *b = 255),
        5 => v[0] = ctx.draw(256) as u8,
        _ => {
            let l = v.len();
            *v = ctx.bytes(l);
        }
    }
}

pub fn run(ctx: &mut Ctx) -> R {
    let suite = ctx.below(4);
    ctx.label = SUITES[suite].0.into();
    let (_, el, sl) = SUITES[suite];
    let pool = (0..BUILDS.len()).filter(|b| suite != 3 || BUILDS[*b].1).collect();
    let p = Parties { pool, suite };
    let m = ctx.draw(3) as u8;
    let mode = [m];
    match ctx.draw(8) {
        0 => return decoding(ctx, &p, el, sl),
        1 => return pieces(ctx, &p),
        _ => {}
    }
    let info = wire(&ctx.info());
    // a server, from a generator, a seed or a key
    let a = match ctx.draw(4) {
        0 | 1 => {
            let r = rng(ctx);
            p.call(ctx, "new", node::NEW, &[&mode, &r])?
        }
        2 => {
            let (s, i) = (ctx.blob(200), ctx.small_blob());
            p.call(ctx, "new_from_seed", node::SEED, &[&mode, &s, &i])?
        }
        _ => {
            let mut k = ctx.styled(sl);
            if suite == 3 && k.len() == 32 {
                k[31] &= 0x0f;
            }
            p.call(ctx, "new_with_key", node::KEY, &[&mode, &k])?
        }
    };
    if a[0] != b"ok" {
        ctx.probe("server-refused");
        return Ok(());
    }
    let mut server = a[1].clone();
    let pk = a.get(2).cloned().unwrap_or_default();
    let n = match ctx.draw(8) {
        0..=4 => 1,
        7 => *ctx.pick(&[9, 17, 33, 65]),
        x => x as usize - 3,
    };
    let n = if n > 4 { ctx.size(n, 300) } else { n };
    let (mut cs, mut bs, mut is) = (vec![], vec![], vec![]);
    for _ in 0..n {
        let max = if ctx.chance(1, 12) { 70000 } else { 65535 };
        let i = if max == 70000 {
            let l = *ctx.pick(&[65535, 65536, 70000]);
            ctx.fault("oversize-input");
            vec![7; l]
        } else {
            ctx.blob(1000)
        };
        let r = rng(ctx);
        let a = p.call(ctx, "blind", node::BLIND, &[&mode, &i, &r])?;
        if a[0] == b"ok" {
            cs.push(a[1].clone());
            bs.push(a[2].clone());
            is.push(i);
        }
    }
    if cs.is_empty() {
        return Ok(());
    }
    let honest = ctx.chance(2, 3);
    let mut info_c = info.clone();
    if !honest && ctx.chance(1, 3) {
        let k = ctx.below(bs.len());
        mangle(ctx, &mut bs[k]);
    }
    if !honest && ctx.chance(1, 6) {
        mangle(ctx, &mut server);
    }
    let batch = m > 0 && (cs.len() > 1 || ctx.chance(1, 3));
    let r = rng(ctx);
    let (mut proof, mut es): (Vec<u8>, Vec<Vec<u8>>) = if batch {
        let two = [ctx.draw(2) as u8];
        if !honest && ctx.chance(1, 4) {
            // members removed, repeated or exchanged on the way
            ctx.fault("batch-rearranged");
            let k = ctx.below(bs.len());
            match ctx.draw(3) {
                0 => drop(bs.remove(k)),
                1 => bs.push(bs[k].clone()),
                _ => bs.swap(0, k),
            }
        }
        let mut args: Vec<&[u8]> = vec![&mode, &two, &server, &r, &info];
        args.extend(bs.iter().map(|b| b.as_slice()));
        let a = p.call(ctx, "batch evaluation", node::BATCH, &args)?;
        if a[0] != b"ok" {
            ctx.probe("batch-refused");
            return Ok(());
        }
        (a[1].clone(), a[2..].to_vec())
    } else {
        let a = p.call(ctx, "evaluation", node::EVAL, &[&mode, &server, &r, &info, &bs[0]])?;
        if a[0] != b"ok" {
            ctx.probe("evaluation-refused");
            return Ok(());
        }
        (a.get(2).cloned().unwrap_or_default(), vec![a[1].clone()])
    };
    if !honest {
        match ctx.draw(4) {
            0 if m > 0 => mangle(ctx, &mut proof),
            1 if !es.is_empty() => {
                let k = ctx.below(es.len());
                mangle(ctx, &mut es[k]);
            }
            2 => {
                let k = ctx.below(cs.len());
                mangle(ctx, &mut cs[k]);
            }
            _ => {
                ctx.fault("other-info");
                info_c = wire(&ctx.info());
            }
        }
    }
    let fin = if batch {
        let mut args: Vec<&[u8]> = vec![&mode, &proof, &pk, &info_c];
        let k = cs.len().min(es.len());
        args.extend(cs.iter().take(k).map(|b| b.as_slice()));
        args.extend(is.iter().take(k).map(|b| b.as_slice()));
        args.extend(es.iter().take(k).map(|b| b.as_slice()));
        p.call(ctx, "batch_finalize", node::BATCH_FINALIZE, &args)?
    } else {
        match m {
            0 => p.call(ctx, "finalize", node::FINALIZE, &[&mode, &cs[0], &is[0], &es[0]])?,
            1 => p.call(ctx, "finalize", node::FINALIZE, &[&mode, &cs[0], &is[0], &es[0], &proof, &pk])?,
            _ => p.call(ctx, "finalize", node::FINALIZE, &[&mode, &cs[0], &is[0], &es[0], &proof, &pk, &info_c])?,
        }
    };
    if honest {
        ctx.check("mixed-session-finishes");
        ensure!(fin[0] == b"ok", "session-failed", "an honest session between different builds ended with {}", show(&fin));
        for (k, i) in is.iter().enumerate().take(fin.len() - 1) {
            let d = p.call(ctx, "evaluate", node::DIRECT, &[&mode, &server, i, &info])?;
            ctx.check("output-equals-direct-evaluation");
            ensure!(d[1..] == fin[k + 1..k + 2], "output-differs", "member {k}: the session gave {}, the server itself computes {}", hx(&fin[k + 1]), show(&d));
        }
    }
    Ok(())
}

fn decoding(ctx: &mut Ctx, p: &Parties, el: usize, sl: usize) -> R {
    for _ in 0..6 {
        let r = rng(ctx);
        let a = p.call(ctx, "random scalar", node::SCALAR, &[&r])?;
        let (s, e) = (a[1].clone(), a[3].clone());
        let k = ctx.draw(11) as u8;
        let mut b = match k {
            0 | 3 | 10 => s,
            1 | 2 | 4 | 5 => [s, e].concat(),
            8 => [s, a[2].clone()].concat(),
            _ => e,
        };
        match ctx.draw(3) {
            0 => {}
            1 => mangle(ctx, &mut b),
            _ => {
                let n = *ctx.pick(&[0, 1, el, sl, el + sl, 2 * sl, 2 * el]);
                b = ctx.styled(n);
            }
        }
        p.call(ctx, "decode", node::DECODE, &[&[k], &b])?;
    }
    Ok(())
}

fn pieces(ctx: &mut Ctx, p: &Parties) -> R {
    let n = ctx.below(5);
    let v: Vec<Vec<u8>> = (0..n).map(|_| ctx.small_blob()).collect();
    let dst = ctx.blob(300);
    let mut args: Vec<&[u8]> = vec![&dst];
    args.extend(v.iter().map(|b| b.as_slice()));
    p.call(ctx, "hash", node::HASH, &args)?;
    let (s, i, m) = (ctx.blob(65535), ctx.blob(65535), ctx.draw(3) as u8);
    let long = if ctx.chance(1, 3) { vec![1; 65536] } else { i };
    p.call(ctx, "new_from_seed", node::SEED, &[&[m], &s, &long])?;
    Ok(())
}
