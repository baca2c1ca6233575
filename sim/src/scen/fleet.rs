//! A whole deployment in one process: client nodes, replicated server nodes,
//! their disks, a lossy network, a simulated clock. Discrete events ordered by
//! (time, sequence number); every decision is a tape choice.

use std::collections::{BTreeMap, BTreeSet};

use crate::ctx::{hx, viol, Ctx, R};
use crate::rg::{self, Mode};
use crate::rng::SimRng;
use crate::scen::util::*;
use crate::suite::*;
use crate::{dispatch, ensure};

#[derive(Clone)]
pub struct Cfg {
    pub mode: Mode,
    pub servers: usize,
    pub clients: usize,
    pub jobs: usize,
    pub max_batch: usize,
    pub drop: u64,
    pub dup: u64,
    pub slow: u64,
    pub corrupt: u64,
    pub byz: u64,
    pub crash: u64,
    pub partitions: bool,
    pub refs: bool,
    pub t_stop: u64,
}

pub fn cfg(ctx: &mut Ctx, prop: &str) -> Cfg {
    let mode = match prop {
        "C02" | "C15" => ctx.vmode(),
        _ => ctx.mode(),
    };
    // swarm: every fault kind is enabled or not per run, rates in 1/64
    let mut knob = |on: u64, of: u64, max: u64| -> u64 {
        if ctx.chance(on, of) {
            1 + ctx.draw(max)
        } else {
            0
        }
    };
    let drop = knob(2, 3, 14);
    let dup = knob(2, 3, 14);
    let slow = knob(2, 3, 20);
    let corrupt = if prop == "C03" { knob(1, 3, 10) } else { knob(1, 2, 16) };
    let byz = if prop == "C02" { knob(3, 4, 50) } else { 0 };
    let crash = if prop == "C05" { knob(7, 8, 12) } else { knob(1, 2, 8) };
    Cfg {
        mode,
        servers: 1 + ctx.below(3),
        clients: 1 + ctx.below(3),
        jobs: 1 + ctx.below(4),
        max_batch: {
            let n = *ctx.pick(&[1, 3, 1, 6]);
            ctx.size(n, 20)
        },
        drop,
        dup,
        slow,
        corrupt,
        byz,
        crash,
        partitions: ctx.chance(1, 3),
        refs: prop == "C14" || ctx.chance(1, 4),
        t_stop: 2_000_000,
    }
}

pub fn run(ctx: &mut Ctx, prop: &str) -> R {
    let sid = ctx.suite();
    let c = cfg(ctx, prop);
    ctx.label = format!("fleet {} {:?}", ctx.label, c.mode);
    dispatch!(sid, fleet(ctx, &c))
}

enum ClImpl<S: Suite> {
    Lib(Cl<S>),
    Ref(S::S, S::E),
}
enum SvImpl<S: Suite> {
    Lib(Sv<S>),
    Ref(S::S),
}

#[derive(Clone)]
struct Saved {
    codec: Codec,
    states: Vec<Vec<u8>>,
    msgs: Vec<Vec<u8>>,
}

struct Vol<S: Suite> {
    cls: Vec<ClImpl<S>>,
    bes: Vec<S::BE>,
}

struct Job<S: Suite> {
    client: usize,
    inputs: Vec<Vec<u8>>,
    info: Option<Vec<u8>>,
    disk: Option<Saved>,
    vol: Option<Vol<S>>,
    started: bool,
    done: bool,
    outs: Vec<Vec<u8>>,
    epoch: u64,
    /// ground truth of the current request, kept by the harness only
    blinds: Vec<S::S>,
}

#[derive(Clone, Debug)]
enum Msg {
    Req { job: usize, info: Option<Vec<u8>>, els: Vec<Vec<u8>>, codec: Codec, reply_to: usize },
    Resp { job: usize, els: Vec<Vec<u8>>, proof: Option<Vec<u8>>, codec: Codec },
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum N {
    Srv(usize),
    Cli(usize),
}

enum Ev {
    Start(usize),
    Deliver(N, N, Msg),
    Timer(usize, u64),
    Crash(N),
    Restart(N),
    Partition(bool),
}

struct Fleet<'a, S: Suite> {
    cfg: &'a Cfg,
    now: u64,
    seq: u64,
    q: BTreeMap<(u64, u64), Ev>,
    sk: S::S,
    pk: S::E,
    keyrec: Vec<KeyRec>,
    servers: Vec<Option<SvImpl<S>>>,
    srv_rng: Vec<SimRng>,
    cli_up: Vec<bool>,
    jobs: Vec<Job<S>>,
    part: BTreeSet<(usize, usize)>,
    part_on: bool,
    /// responses seen by the attacker
    seen: Vec<Msg>,
    seen_els: Vec<S::E>,
}

const RETRY: u64 = 300_000;

pub fn fleet<S: Suite>(ctx: &mut Ctx, cfg: &Cfg) -> R {
    let (sk, rec) = provision::<S>(ctx, cfg.mode);
    let mut f = Fleet::<S> {
        cfg,
        now: 0,
        seq: 0,
        q: BTreeMap::new(),
        sk,
        pk: S::mul(S::base(), sk),
        keyrec: vec![rec; cfg.servers],
        servers: (0..cfg.servers).map(|_| None).collect(),
        srv_rng: (0..cfg.servers).map(|_| SimRng::new(0)).collect(),
        cli_up: vec![true; cfg.clients],
        jobs: vec![],
        part: BTreeSet::new(),
        part_on: false,
        seen: vec![],
        seen_els: vec![],
    };
    for j in 0..cfg.servers {
        f.boot(ctx, j)?;
        // a replica may keep its key as a stored object rather than as provisioned
        if let (true, Some(SvImpl::Lib(s))) = (ctx.chance(1, 2), &f.servers[j]) {
            let c = ctx.codec();
            let s2 = s.clone();
            let b = ctx.lib("server.encode", move || s2.enc(c))?;
            f.keyrec[j] = KeyRec::Obj(b, c);
        }
    }
    for _ in 0..cfg.jobs {
        let client = ctx.below(cfg.clients);
        let n = 1 + ctx.below(cfg.max_batch);
        let mut inputs = Vec::new();
        for _ in 0..n {
            // the same input again in other jobs and batches, sometimes
            let old = f.jobs.last().map(|j: &Job<S>| j.inputs[0].clone());
            let i = match old {
                Some(o) if ctx.chance(1, 4) => o,
                _ => ctx.blob(65535),
            };
            inputs.push(i);
        }
        let info = if cfg.mode == Mode::P {
            match f.jobs.last().map(|j| j.info.clone()) {
                Some(o) if ctx.chance(1, 3) => o,
                _ => ctx.info(),
            }
        } else {
            None
        };
        f.jobs.push(Job { client, inputs, info, disk: None, vol: None, started: false, done: false, outs: vec![], epoch: 0, blinds: vec![] });
        let at = ctx.draw(400_000);
        let id = f.jobs.len() - 1;
        f.at(at, Ev::Start(id));
    }
    if cfg.crash > 0 {
        for _ in 0..ctx.below(3) {
            let n = f.node(ctx);
            let at = ctx.draw(cfg.t_stop);
            f.at(at, Ev::Crash(n));
        }
    }
    if cfg.partitions {
        let a = ctx.draw(cfg.t_stop / 2);
        let len = 50_000 + ctx.draw(cfg.t_stop / 2 - 50_000);
        for c in 0..cfg.clients {
            for s in 0..cfg.servers {
                if ctx.chance(1, 2) {
                    f.part.insert((c, s));
                }
            }
        }
        f.at(a, Ev::Partition(true));
        f.at(a + len, Ev::Partition(false));
    }
    f.main(ctx)
}

impl<S: Suite> Fleet<'_, S> {
    fn at(&mut self, t: u64, e: Ev) {
        self.seq += 1;
        self.q.insert((t, self.seq), e);
    }
    fn after(&mut self, d: u64, e: Ev) {
        self.at(self.now + d, e)
    }
    fn node(&self, ctx: &mut Ctx) -> N {
        let i = ctx.below(self.cfg.servers + self.cfg.clients);
        if i < self.cfg.servers {
            N::Srv(i)
        } else {
            N::Cli(i - self.cfg.servers)
        }
    }
    fn faults(&self) -> bool {
        self.now < self.cfg.t_stop
    }

    fn boot(&mut self, ctx: &mut Ctx, j: usize) -> R {
        let seed = ctx.seed();
        self.srv_rng[j] = generator_from::<S>(seed);
        if self.cfg.refs && ctx.chance(1, 2) {
            self.servers[j] = Some(SvImpl::Ref(self.sk));
            ctx.probe("reference-server-node");
            return Ok(());
        }
        let rec = self.keyrec[j].clone();
        let mode = self.cfg.mode;
        let r = ctx.lib("server.load", || load::<S>(mode, &rec))?;
        let s = match r {
            Ok(s) => s,
            Err(e) => return viol("server-load-failed", format!("server could not be loaded from {rec:?}: {e}")),
        };
        ctx.check("server-public-key");
        let (pk, sk) = ctx.lib("server.pk", || (s.pk(), s.sk()))?;
        if pk != Some(self.pk) || sk != Some(self.sk) {
            ctx.report(
                &["C01", "C03", "C05", "C14", "C02"],
                "server-key-differs",
                format!("server loaded from {} has pk {:?}, expected {}", kr(&rec), pk.map(|p| hx(&S::enc(p))), hx(&S::enc(self.pk))),
            )?;
        }
        self.servers[j] = Some(SvImpl::Lib(s));
        Ok(())
    }

    fn main(&mut self, ctx: &mut Ctx) -> R {
        let horizon = self.cfg.t_stop + 3_000_000;
        let mut steps = 0;
        while let Some((&k, _)) = self.q.iter().next() {
            let e = self.q.remove(&k).unwrap();
            if k.0 > horizon || steps > 3000 {
                break;
            }
            steps += 1;
            self.now = k.0;
            self.step(ctx, e)?;
            if self.jobs.iter().all(|j| j.done) && self.now >= self.cfg.t_stop / 4 {
                break;
            }
        }
        ctx.c.sim_us += self.now;
        ctx.check("bounded-progress");
        if let Some((i, j)) = self.jobs.iter().enumerate().find(|(_, j)| !j.done) {
            let m = format!("job {i} of client {} (batch {}) has not finished {} us after faults stopped", j.client, j.inputs.len(), self.now.saturating_sub(self.cfg.t_stop));
            ctx.report(&["C03", "C05"], "no-progress", m)?;
        } else {
            ctx.probe("all-sessions-finished");
        }
        self.cross_checks(ctx)
    }

    /// Equal (key, input, info) gave equal outputs, equal to direct evaluation.
    fn cross_checks(&mut self, ctx: &mut Ctx) -> R {
        let mut seen: BTreeMap<(Vec<u8>, Vec<u8>), Vec<u8>> = BTreeMap::new();
        let direct = self.servers.iter().flatten().find_map(|s| match s {
            SvImpl::Lib(s) => Some(s.clone()),
            _ => None,
        });
        let mut todo = Vec::new();
        for j in &self.jobs {
            for (i, o) in j.inputs.iter().zip(&j.outs) {
                todo.push((i.clone(), j.info.clone(), o.clone()));
            }
        }
        for (i, info, o) in todo {
            if let Some(s) = &direct {
                ctx.check("direct-evaluation");
                let r = ctx.lib("server.evaluate", || s.evaluate(&i, info.as_deref()))?;
                if r.as_ref() != Ok(&o) {
                    ctx.report(
                        &["C01", "C14", "C05"],
                        "direct-evaluation-differs",
                        format!("mode {:?} input {} info {:?}: client got {}, server computes {}", self.cfg.mode, hx(&i), info.as_ref().map(|x| hx(x)), hx(&o), res(&r)),
                    )?;
                }
            }
            let key = (i.clone(), inf(&info).to_vec());
            match seen.get(&key) {
                Some(p) if p != &o => {
                    ctx.report(&["C01"], "outputs-differ", format!("two sessions on input {} gave {} and {}", hx(&i), hx(p), hx(&o)))?;
                }
                Some(_) => ctx.probe("same-input-in-two-sessions"),
                None => {}
            }
            seen.insert(key, o);
        }
        Ok(())
    }

    fn step(&mut self, ctx: &mut Ctx, e: Ev) -> R {
        match e {
            Ev::Start(j) => {
                ctx.ev("start", || format!("job {j}"));
                if !self.cli_up[self.jobs[j].client] {
                    self.after(RETRY, Ev::Start(j));
                    return Ok(());
                }
                self.begin(ctx, j)
            }
            Ev::Timer(j, ep) => {
                let job = &self.jobs[j];
                if job.done || job.epoch != ep || !self.cli_up[job.client] {
                    return Ok(());
                }
                ctx.ev("retry", || format!("job {j}"));
                ctx.probe("retransmission");
                self.send_req(ctx, j)
            }
            Ev::Crash(n) => {
                let up = match n {
                    N::Srv(i) => self.servers[i].is_some(),
                    N::Cli(i) => self.cli_up[i],
                };
                if up {
                    self.crash(ctx, n);
                }
                Ok(())
            }
            Ev::Restart(n) => {
                ctx.ev("restart", || format!("{n:?}"));
                match n {
                    N::Srv(i) => self.boot(ctx, i),
                    N::Cli(i) => self.cli_restart(ctx, i),
                }
            }
            Ev::Partition(b) => {
                if b {
                    ctx.fault("partition");
                } else {
                    ctx.ev("heal", String::new);
                }
                self.part_on = b;
                Ok(())
            }
            Ev::Deliver(from, to, m) => match (to, m) {
                (N::Srv(i), Msg::Req { job, info, els, codec, reply_to }) => {
                    ctx.ev("req", || format!("{from:?}->{to:?} job {job} n={}", els.len()));
                    self.serve(ctx, i, job, info, els, codec, reply_to)
                }
                (N::Cli(i), Msg::Resp { job, els, proof, codec }) => {
                    ctx.ev("resp", || format!("{from:?}->{to:?} job {job} n={}", els.len()));
                    self.on_resp(ctx, i, job, els, proof, codec)
                }
                _ => Ok(()),
            },
        }
    }

    fn crash(&mut self, ctx: &mut Ctx, n: N) {
        match n {
            N::Srv(i) => {
                ctx.fault("crash-server");
                self.servers[i] = None;
            }
            N::Cli(i) => {
                ctx.fault("crash-client");
                self.cli_up[i] = false;
                for j in self.jobs.iter_mut().filter(|j| j.client == i && !j.done) {
                    if j.vol.is_some() && j.disk.is_some() {
                        ctx.c.probes.entry("crash-between-blind-and-finalize".into()).and_modify(|x| *x += 1).or_insert(1);
                    }
                    j.vol = None;
                    j.epoch += 1;
                }
            }
        }
        let d = 1000 + ctx.draw(400_000);
        self.after(d, Ev::Restart(n));
    }

    /// crash exactly here?
    fn crash_here(&mut self, ctx: &mut Ctx, n: N) -> bool {
        if self.cfg.crash > 0 && self.faults() && ctx.chance(self.cfg.crash, 64) {
            self.crash(ctx, n);
            return true;
        }
        false
    }

    fn send(&mut self, ctx: &mut Ctx, from: N, to: N, m: Msg) {
        let base = 500 + ctx.draw(20_000);
        if !self.faults() {
            self.after(base, Ev::Deliver(from, to, m));
            return;
        }
        let pair = match (from, to) {
            (N::Cli(c), N::Srv(s)) | (N::Srv(s), N::Cli(c)) => (c, s),
            _ => (0, 0),
        };
        if self.part_on && self.part.contains(&pair) {
            ctx.fault("partition-drop");
            return;
        }
        if ctx.chance(self.cfg.drop, 64) {
            ctx.fault("drop");
            return;
        }
        let mut d = base;
        if ctx.chance(self.cfg.slow, 64) {
            ctx.fault("slow-delivery");
            d += ctx.draw(900_000);
        }
        if ctx.chance(self.cfg.dup, 64) {
            ctx.fault("duplicate");
            let d2 = 500 + ctx.draw(900_000);
            self.after(d2, Ev::Deliver(from, to, m.clone()));
        }
        let m = if ctx.chance(self.cfg.corrupt, 64) {
            ctx.fault("corrupt-message");
            self.mutate(ctx, m)
        } else {
            m
        };
        self.after(d, Ev::Deliver(from, to, m));
    }

    /// A network-level mutation of a message.
    fn mutate(&mut self, ctx: &mut Ctx, m: Msg) -> Msg {
        let flip = |ctx: &mut Ctx, b: &mut Vec<u8>| {
            if !b.is_empty() {
                let i = ctx.below(b.len());
                let bit = ctx.draw(8);
                b[i] ^= 1 << bit;
            }
        };
        match m {
            Msg::Req { job, info, mut els, codec, reply_to } => {
                let mut info = info;
                match ctx.draw(5) {
                    0 => {
                        let i = ctx.below(els.len());
                        flip(ctx, &mut els[i])
                    }
                    1 if els.len() > 1 => els.reverse(),
                    2 => {
                        els.pop();
                    }
                    3 => {
                        let e = els[0].clone();
                        els.push(e)
                    }
                    _ => info = Some(ctx.small_blob()),
                }
                Msg::Req { job, info, els, codec, reply_to }
            }
            Msg::Resp { mut job, mut els, mut proof, codec } => {
                match ctx.draw(8) {
                    0 => {
                        let i = ctx.below(els.len().max(1));
                        if let Some(e) = els.get_mut(i) {
                            flip(ctx, e)
                        }
                    }
                    1 => {
                        if let Some(p) = &mut proof {
                            flip(ctx, p)
                        }
                    }
                    2 if els.len() > 1 => els.reverse(),
                    3 => {
                        els.pop();
                    }
                    4 => {
                        if let Some(e) = els.first().cloned() {
                            els.push(e)
                        }
                    }
                    5 => {
                        if let Some(p) = &mut proof {
                            let n = ctx.below(p.len() + 1);
                            p.truncate(n);
                        }
                    }
                    6 => job = ctx.below(self.jobs.len()),
                    _ => {
                        if let Some(Msg::Resp { els: e2, proof: p2, .. }) = self.seen.last().cloned() {
                            if ctx.chance(1, 2) {
                                els = e2;
                            } else {
                                proof = p2;
                            }
                        }
                    }
                }
                Msg::Resp { job, els, proof, codec }
            }
        }
    }

    // ------------------------------------------------------------ client ----

    fn begin(&mut self, ctx: &mut Ctx, j: usize) -> R {
        let mode = self.cfg.mode;
        let use_ref = self.cfg.refs && ctx.chance(1, 2);
        let inputs = self.jobs[j].inputs.clone();
        let mut cls = Vec::new();
        let mut bes = Vec::new();
        let mut blinds = Vec::new();
        let seed = ctx.seed();
        let mut rng = generator_from::<S>(seed);
        for i in &inputs {
            if use_ref {
                let r = ctx.scalar::<S>();
                let b = match rg::blind::<S>(mode, i, r) {
                    Ok(b) => b,
                    Err(e) => return viol("harness", format!("{e:?}")),
                };
                cls.push(ClImpl::Ref(r, b));
                bes.push(S::be(b));
                blinds.push(r);
                continue;
            }
            let det = ctx.chance(1, 4);
            let r = if det {
                let s = ctx.scalar::<S>();
                ctx.lib("client.deterministic_blind", || Cl::<S>::dblind(mode, i, s))?
            } else {
                ctx.lib("client.blind", || Cl::<S>::blind(mode, i, &mut rng))?
            };
            let (c, b) = match r {
                Ok(x) => x,
                Err(e) => {
                    ctx.report(&["C01", "C03"], "blind-failed", format!("blinding input {} failed: {e:?}", hx(i)))?;
                    self.jobs[j].done = true;
                    return Ok(());
                }
            };
            let Some(bs) = c.blind_scalar() else { return viol("bad-blind", "client state does not hold a valid non-zero blind") };
            ctx.check("blinded-element");
            let want = rg::blind::<S>(mode, i, bs).ok().map(S::enc);
            let got = ctx.lib("blinded.encode", || b.enc(Codec::Native))?;
            if want.as_ref() != Some(&got) {
                ctx.report(&["C01", "C14", "C11"], "blinded-element-differs", format!("input {}: sent {}, reference {:?}", hx(i), hx(&got), want.map(|w| hx(&w))))?;
            }
            ctx.bytes_ev("blinded", "lib", &got);
            cls.push(ClImpl::Lib(c));
            bes.push(b);
            blinds.push(bs);
        }
        let cli = N::Cli(self.jobs[j].client);
        let job = &mut self.jobs[j];
        job.started = true;
        job.blinds = blinds;
        job.vol = Some(Vol { cls, bes });
        if self.crash_here(ctx, cli) {
            return Ok(());
        }
        // persist before sending, or not at all
        if ctx.chance(3, 4) || self.cfg.crash == 0 {
            self.persist(ctx, j)?;
            if self.crash_here(ctx, cli) {
                return Ok(());
            }
        }
        self.send_req(ctx, j)?;
        if self.crash_here(ctx, cli) {
            return Ok(());
        }
        Ok(())
    }

    fn persist(&mut self, ctx: &mut Ctx, j: usize) -> R {
        let mut codec = ctx.codec();
        if self.cfg.refs {
            codec = Codec::Native;
        }
        let vol = self.jobs[j].vol.as_ref().unwrap();
        let mode = self.cfg.mode;
        let mut states = Vec::new();
        for c in &vol.cls {
            states.push(match c {
                ClImpl::Lib(c) => ctx.lib("client.encode", || c.enc(codec))?,
                ClImpl::Ref(s, b) => {
                    let mut v = S::encs(*s);
                    if mode != Mode::O {
                        v.extend(S::enc(*b));
                    }
                    v
                }
            });
        }
        let mut msgs = Vec::new();
        for b in &vol.bes {
            msgs.push(ctx.lib("blinded.encode", || b.enc(codec))?);
        }
        for s in &states {
            ctx.bytes_ev("persist", "client", s);
        }
        self.jobs[j].disk = Some(Saved { codec, states, msgs });
        Ok(())
    }

    fn cli_restart(&mut self, ctx: &mut Ctx, i: usize) -> R {
        self.cli_up[i] = true;
        for j in 0..self.jobs.len() {
            if self.jobs[j].client != i || self.jobs[j].done || !self.jobs[j].started {
                continue;
            }
            match self.jobs[j].disk.clone() {
                None => {
                    ctx.probe("restart-without-durable-state");
                    self.begin(ctx, j)?
                }
                Some(s) => {
                    self.restore(ctx, j, &s)?;
                    if self.cli_up[i] {
                        self.send_req(ctx, j)?;
                    }
                }
            }
            if !self.cli_up[i] {
                break;
            }
        }
        Ok(())
    }

    fn restore(&mut self, ctx: &mut Ctx, j: usize, s: &Saved) -> R {
        let mode = self.cfg.mode;
        let mut cls = Vec::new();
        let mut bes = Vec::new();
        let use_ref = self.cfg.refs && ctx.chance(1, 2);
        for (k, (st, ms)) in s.states.iter().zip(&s.msgs).enumerate() {
            ctx.check("restored-state");
            let m = ctx.lib("blinded.decode", || S::BE::dec(ms, s.codec))?;
            let be = match m {
                Ok(b) => b,
                Err(e) => return viol("restore-failed", format!("persisted blinded element {} ({:?}) unreadable: {e}", hx(ms), s.codec)),
            };
            if use_ref {
                let (Some(r), Some(b)) = (S::decs(&st[..S::NS]), S::dec(ms)) else {
                    return viol("restore-failed", format!("reference cannot read library state {}", hx(st)));
                };
                ctx.probe("library-state-resumed-by-reference");
                cls.push(ClImpl::Ref(r, b));
            } else {
                let c = ctx.lib("client.decode", || Cl::<S>::dec(mode, st, s.codec))?;
                let c = match c {
                    Ok(c) => c,
                    Err(e) => {
                        ctx.report(&["C05", "C03", "C14", "C01"], "restore-failed", format!("persisted client state {} ({:?}) unreadable: {e}", hx(st), s.codec))?;
                        self.jobs[j].done = true;
                        return Ok(());
                    }
                };
                if c.blind_scalar() != Some(self.jobs[j].blinds[k]) {
                    ctx.report(&["C05", "C01"], "restored-state-differs", format!("client state persisted as {} ({:?}) has another blind after restore", hx(st), s.codec))?;
                }
                let again = ctx.lib("client.encode", || c.enc(s.codec))?;
                if &again != st {
                    ctx.report(&["C05"], "reencoding-differs", format!("{} restored and re-encoded as {}", hx(st), hx(&again)))?;
                }
                cls.push(ClImpl::Lib(c));
            }
            bes.push(be);
        }
        ctx.probe("client-resumed-from-disk");
        self.jobs[j].vol = Some(Vol { cls, bes });
        Ok(())
    }

    fn send_req(&mut self, ctx: &mut Ctx, j: usize) -> R {
        let mut codec = ctx.codec();
        if self.cfg.refs {
            codec = Codec::Native;
        }
        let Some(vol) = self.jobs[j].vol.as_ref() else { return Ok(()) };
        let mut els = Vec::new();
        for b in &vol.bes {
            els.push(ctx.lib("blinded.encode", || b.enc(codec))?);
        }
        let srv = ctx.below(self.cfg.servers);
        let cli = self.jobs[j].client;
        let info = self.jobs[j].info.clone();
        self.jobs[j].epoch += 1;
        let ep = self.jobs[j].epoch;
        self.send(ctx, N::Cli(cli), N::Srv(srv), Msg::Req { job: j, info, els, codec, reply_to: cli });
        self.after(RETRY, Ev::Timer(j, ep));
        Ok(())
    }

    // ------------------------------------------------------------ server ----

    #[allow(clippy::too_many_arguments)]
    fn serve(&mut self, ctx: &mut Ctx, i: usize, job: usize, info: Option<Vec<u8>>, els: Vec<Vec<u8>>, codec: Codec, reply_to: usize) -> R {
        if self.servers[i].is_none() {
            ctx.probe("request-to-crashed-server");
            return Ok(());
        }
        if els.is_empty() {
            return Ok(());
        }
        let mode = self.cfg.mode;
        let mut bes = Vec::new();
        for e in &els {
            match ctx.lib("blinded.decode", || S::BE::dec(e, codec))? {
                Ok(b) => bes.push(b),
                Err(_) => {
                    ctx.probe("server-refused-undecodable-element");
                    return Ok(());
                }
            }
        }
        if self.crash_here(ctx, N::Srv(i)) {
            return Ok(());
        }
        let bev: Vec<S::E> = bes.iter().map(|b| S::be_v(b)).collect();
        let byz = self.cfg.byz > 0 && self.faults() && ctx.chance(self.cfg.byz, 64);
        let (ees, proof): (Vec<S::E>, Option<(S::S, S::S)>);
        let mut wire: Option<(Vec<Vec<u8>>, Option<Vec<u8>>)> = None;
        let is_ref = matches!(self.servers[i], Some(SvImpl::Ref(_)));
        if byz {
            let (e, p) = self.byzantine(ctx, &info, &bev);
            ees = e;
            proof = p;
        } else if is_ref {
            let r = ctx.scalar::<S>();
            let z: Result<Vec<S::E>, rg::MErr> = bev.iter().map(|b| rg::eval::<S>(mode, self.sk, *b, inf(&info))).collect();
            let Ok(z) = z else { return Ok(()) };
            proof = if mode.verifiable() { rg::server_prove::<S>(mode, self.sk, inf(&info), &bev, &z, r).ok() } else { None };
            ees = z;
        } else {
            let Some(SvImpl::Lib(s)) = &self.servers[i] else { unreachable!() };
            let rng = &mut self.srv_rng[i];
            let how = ctx.draw(3);
            let n = bes.len();
            let res: LR<(Vec<S::EE>, Option<S::PR>)> = if n == 1 && how == 0 {
                ctx.lib("server.blind_evaluate", || s.blind_evaluate(rng, &bes[0], info.as_deref()).map(|(e, p)| (vec![e], p)))?
            } else if how == 2 && mode.verifiable() {
                ctx.lib("server.prepare+finish", || {
                    let y = Yv(bes.clone());
                    let (it, t) = s.prepare(Box::new(y.0.iter()), info.as_deref())?;
                    let prep = Yv(it.collect::<Vec<_>>());
                    s.finish(rng, &y, &prep, t.as_ref()).map(|(e, p)| (e, Some(p)))
                })?
            } else {
                ctx.lib("server.batch_blind_evaluate", || s.batch(rng, &Yv(bes.clone()), info.as_deref()))?
            };
            let (e, p) = match res {
                Ok(x) => x,
                Err(e) => {
                    ctx.report(&["C01", "C03"], "honest-evaluation-failed", format!("server refused a well-formed request of {n} elements, info {:?}: {e:?}", info.as_ref().map(|x| hx(x))))?;
                    return Ok(());
                }
            };
            let ev: Vec<S::E> = e.iter().map(|x| S::ee_v(x)).collect();
            ctx.check("evaluated-elements");
            let want: Result<Vec<S::E>, _> = bev.iter().map(|b| rg::eval::<S>(mode, self.sk, *b, inf(&info))).collect();
            if want.as_ref() != Ok(&ev) {
                ctx.report(&["C01", "C14", "C03", "C04"], "evaluation-differs", format!("mode {mode:?}: server's evaluation of {n} elements differs from the reference (info {:?})", info.as_ref().map(|x| hx(x))))?;
            }
            let enc_e = ctx.lib("evaluation.encode", || e.iter().map(|x| x.enc(codec)).collect::<Vec<_>>())?;
            let enc_p = match &p {
                Some(p) => Some(ctx.lib("proof.encode", || p.enc(codec))?),
                None => None,
            };
            let pp = match &p {
                Some(p) => {
                    let Some(pp) = proof_parts::<S>(p) else { return viol("bad-proof-encoding", "emitted proof does not decode") };
                    ctx.check("proof-bytes");
                    if !proof_is_reference::<S>(mode, self.sk, inf(&info), &bev, &ev, pp) {
                        ctx.report(&["C14", "C03", "C04"], "proof-differs", format!("mode {mode:?}: proof for {n} elements is not what the reference computes for the same nonce"))?;
                    }
                    Some(pp)
                }
                None => None,
            };
            for b in &enc_e {
                ctx.bytes_ev("evaluated", "lib", b);
            }
            wire = Some((enc_e, enc_p));
            ees = ev;
            proof = pp;
        }
        if self.crash_here(ctx, N::Srv(i)) {
            ctx.probe("crash-after-evaluate-before-reply");
            return Ok(());
        }
        self.seen_els.extend(ees.iter().copied().take(4));
        let (els, proof) = match wire {
            Some(w) => w,
            None => {
                // built by the reference / attacker: canonical bytes, wrapped in the wire codec
                let els = ees.iter().map(|e| if codec == Codec::Native { S::enc(*e) } else { S::ee(*e).enc(codec) }).collect();
                let proof = proof.map(|(c, s)| {
                    let mut b = S::encs(c);
                    b.extend(S::encs(s));
                    if codec == Codec::Native {
                        b
                    } else {
                        match S::PR::dec(&b, Codec::Native) {
                            Ok(p) => p.enc(codec),
                            Err(_) => b,
                        }
                    }
                });
                (els, proof)
            }
        };
        let m = Msg::Resp { job, els, proof, codec };
        if self.seen.len() < 64 {
            self.seen.push(m.clone());
        }
        self.send(ctx, N::Srv(i), N::Cli(reply_to), m);
        Ok(())
    }

    /// A malicious server that knows the key and everything it has seen.
    fn byzantine(&mut self, ctx: &mut Ctx, info: &Option<Vec<u8>>, bev: &[S::E]) -> (Vec<S::E>, Option<(S::S, S::S)>) {
        let mode = self.cfg.mode;
        let info = inf(info).to_vec();
        let r = ctx.scalar::<S>();
        let good: Vec<S::E> = bev.iter().map(|b| rg::eval::<S>(mode, self.sk, *b, &info).unwrap_or(*b)).collect();
        let (e, p, name) = crate::scen::byz::attack::<S>(ctx, mode, self.sk, &info, bev, &good, r, &self.seen_els);
        ctx.fault(&format!("byzantine-{name}"));
        (e, p)
    }

    // ---------------------------------------------------------- finalize ----

    fn on_resp(&mut self, ctx: &mut Ctx, cli: usize, j: usize, els: Vec<Vec<u8>>, proof: Option<Vec<u8>>, codec: Codec) -> R {
        if !self.cli_up[cli] || self.jobs[j].client != cli {
            ctx.probe("response-to-crashed-or-wrong-client");
            return Ok(());
        }
        if self.jobs[j].vol.is_none() {
            ctx.probe("response-without-session");
            return Ok(());
        }
        let dup = self.jobs[j].done;
        if dup {
            ctx.probe("response-after-completion");
        }
        let mode = self.cfg.mode;
        let mut ees = Vec::new();
        for e in &els {
            match ctx.lib("evaluation.decode", || S::EE::dec(e, codec))? {
                Ok(x) => ees.push(x),
                Err(_) => {
                    ctx.probe("client-refused-undecodable-element");
                    return Ok(());
                }
            }
        }
        let pr = match &proof {
            Some(p) => match ctx.lib("proof.decode", || S::PR::dec(p, codec))? {
                Ok(p) => Some(p),
                Err(_) => {
                    ctx.probe("client-refused-undecodable-proof");
                    return Ok(());
                }
            },
            None => None,
        };
        if mode.verifiable() && pr.is_none() {
            return Ok(());
        }
        if self.crash_here(ctx, N::Cli(cli)) {
            ctx.probe("crash-before-finalize");
            return Ok(());
        }
        let job = &self.jobs[j];
        let vol = job.vol.as_ref().unwrap();
        let n = vol.cls.len();
        let eev: Vec<S::E> = ees.iter().map(|e| S::ee_v(e)).collect();
        let bev: Vec<S::E> = vol.bes.iter().map(|b| S::be_v(b)).collect();
        let pp = match &pr {
            Some(p) => proof_parts::<S>(p),
            None => None,
        };
        let info = job.info.clone();
        // what a correct client does
        let model_ok = if n != eev.len() {
            false
        } else if mode.verifiable() {
            pp.is_some_and(|p| rg::client_verify::<S>(mode, self.pk, inf(&info), &bev, &eev, p) == Ok(true))
        } else {
            true
        };
        let truth_ok = n == eev.len() && bev.iter().zip(&eev).all(|(b, e)| rg::eval::<S>(mode, self.sk, *b, inf(&info)).as_ref() == Ok(e));
        let is_ref = matches!(vol.cls[0], ClImpl::Ref(..));
        let outs: Result<Vec<Vec<u8>>, String>;
        if is_ref {
            outs = if model_ok {
                Ok(job.inputs.iter().zip(&job.blinds).zip(&eev).map(|((i, b), e)| rg::finalize::<S>(mode, i, inf(&info), *b, *e).unwrap()).collect())
            } else {
                Err("reference client refused".into())
            };
        } else {
            let clients: Vec<Cl<S>> = vol.cls.iter().map(|c| match c { ClImpl::Lib(c) => c.clone(), _ => unreachable!() }).collect();
            if mode == Mode::O && n != eev.len() {
                return Ok(());
            }
            let inputs = job.inputs.clone();
            let pk = self.pk;
            let single = n == 1 && eev.len() == 1 && ctx.chance(1, 2);
            let res: LR<Vec<LR<Vec<u8>>>> = if single {
                ctx.lib("client.finalize", || clients[0].finalize(&inputs[0], &ees[0], pr.as_ref(), pk, info.as_deref()).map(|o| vec![Ok(o)]))?
            } else {
                ctx.lib("client.batch_finalize", || batch_finalize(mode, &inputs, &clients, &ees, pr.as_ref(), pk, info.as_deref()))?
            };
            ctx.check("finalize-verdict");
            match &res {
                Ok(os) => {
                    if !model_ok {
                        ctx.report(&["C02", "C04", "C12", "C14"], "accepted-forgery", format!("mode {mode:?}: client accepted a response of {} elements that the reference rejects (true evaluation: {truth_ok})", eev.len()))?;
                        return Ok(());
                    }
                    ensure!(os.len() == n, "wrong-output-count", "finalize of {n} gave {} outputs", os.len());
                    if os.iter().any(|o| o.is_err()) {
                        ctx.report(&["C03", "C01", "C04"], "output-error", format!("finalize item failed: {os:?}"))?;
                        return Ok(());
                    }
                }
                Err(e) => {
                    let want = if n != eev.len() { voprf::Error::Batch } else { voprf::Error::ProofVerification };
                    if model_ok {
                        ctx.report(&["C03", "C14", "C04", "C05"], "rejected-genuine", format!("mode {mode:?}: client refused a valid response of {n} elements: {e:?}"))?;
                        return Ok(());
                    }
                    if *e != want {
                        ctx.report(&["C07", "C02", "C04"], "wrong-error", format!("bad response refused with {e:?}, documented {want:?}"))?;
                    }
                }
            }
            outs = match res {
                Ok(os) => Ok(os.into_iter().map(|o| o.unwrap()).collect()),
                Err(e) => Err(format!("{e:?}")),
            };
        }
        let job = &self.jobs[j];
        let os = match outs {
            Ok(o) => o,
            Err(_) => {
                ctx.probe("client-refused-response");
                return Ok(());
            }
        };
        for k in 0..n {
            ctx.bytes_ev("output", "client", &os[k]);
            ctx.check("output-value");
            let m = rg::finalize::<S>(mode, &job.inputs[k], inf(&info), job.blinds[k], eev[k]).unwrap();
            if os[k] != m {
                ctx.report(&["C01", "C14", "C04", "C02"], "wrong-output", format!("mode {mode:?} batch position {k} of {n}: input {} info {:?}: output {} but the reference unblinds to {}", hx(&job.inputs[k]), info.as_ref().map(|x| hx(x)), hx(&os[k]), hx(&m)))?;
            }
            if mode.verifiable() || truth_ok {
                let t = rg::prf::<S>(mode, self.sk, &job.inputs[k], inf(&info)).unwrap();
                if os[k] != t {
                    ctx.report(&["C01", "C02", "C04"], "wrong-output", format!("mode {mode:?} position {k} of {n}: input {} info {:?}: client obtained {} but the PRF value is {}", hx(&job.inputs[k]), info.as_ref().map(|x| hx(x)), hx(&os[k]), hx(&t)))?;
                }
            }
        }
        if truth_ok {
            if dup && self.jobs[j].outs != os {
                ctx.report(&["C01"], "outputs-differ", format!("finalizing job {j} twice gave different outputs"))?;
            }
            ctx.probe("session-finished");
            let job = &mut self.jobs[j];
            job.done = true;
            job.outs = os;
        } else {
            // base mode cannot detect a wrong evaluation; the application retries
            ctx.probe("unverifiable-wrong-evaluation");
        }
        Ok(())
    }
}

pub fn kr(k: &KeyRec) -> String {
    match k {
        KeyRec::Bytes(b) => format!("key bytes {}", hx(b)),
        KeyRec::Seed(s, i) => format!("seed {} info {}", hx(s), hx(i)),
        KeyRec::Obj(b, c) => format!("{c:?} object {}", hx(b)),
    }
}
pub fn res(r: &LR<Vec<u8>>) -> String {
    match r {
        Ok(o) => hx(o),
        Err(e) => format!("error {e:?}"),
    }
}
