//! Scenarios: what is simulated for each property, and the plan (run counts,
//! evidence texts) of each check.

pub mod algebra;
pub mod attack;
pub mod batch;
pub mod builds;
pub mod byz;
pub mod contexts;
pub mod corrupt;
pub mod degenerate;
pub mod endure;
pub mod fleet;
pub mod honest;
pub mod hostile;
pub mod interop;
pub mod oblivious;
pub mod phases;
pub mod rngd;
pub mod storage;
pub mod threads;
pub mod util;
pub mod values;
pub mod wipe;

use crate::ctx::{Ctx, R};

pub const PROPS: [&str; 18] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C18", "C19", "C20"];

pub struct Plan {
    pub runs: u64,
    pub thorough_factor: u64,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: Vec<&'static str>,
    pub probes: &'static [&'static str],
}

pub fn run(prop: &str, ctx: &mut Ctx) -> R {
    ctx.prop = prop.to_string();
    if matches!(prop, "C02" | "C04" | "C14" | "C15") && ctx.draw(48) == 47 {
        return honest::large(ctx);
    }
    if matches!(prop, "C01" | "C03" | "C09" | "C10" | "C07" | "C11" | "C14") && ctx.draw(150) == 149 {
        return endure::run(ctx);
    }
    match prop {
        "C01" if ctx.draw(4) == 3 => honest::run(ctx),
        "C03" if ctx.draw(3) > 0 => honest::run(ctx),
        "C02" if ctx.draw(3) > 0 => attack::run(ctx),
        "C04" => batch::run(ctx),
        "C05" if ctx.draw(3) > 0 => storage::run(ctx),
        "C06" => corrupt::run(ctx),
        "C07" => hostile::run(ctx),
        "C09" => rngd::run(ctx),
        "C10" => threads::run(ctx),
        "C08" => degenerate::run(ctx),
        "C11" => oblivious::run(ctx),
        "C12" => contexts::run(ctx),
        "C13" => wipe::run(ctx),
        "C14" if ctx.draw(3) > 0 => interop::run(ctx),
        "C15" => phases::run(ctx),
        "C18" => values::run(ctx),
        "C19" => builds::run(ctx),
        "C20" => algebra::run(ctx),
        _ => fleet::run(ctx, prop),
    }
}

pub fn nondeterminism_is_violation(prop: &str) -> bool {
    matches!(prop, "C09" | "C10")
}

pub fn is_harness_file(msg: &str) -> bool {
    // "... at file.rs:line"
    let f = msg.rsplit(" at ").next().unwrap_or("");
    let f = f.split(':').next().unwrap_or("");
    ["mod.rs", "algebra.rs", "attack.rs", "batch.rs", "builds.rs", "node.rs", "byz.rs", "corrupt.rs", "degenerate.rs", "elsewhere.rs", "endure.rs", "fleet.rs", "hostile.rs", "honest.rs", "phases.rs", "oblivious.rs", "contexts.rs", "wipe.rs", "interop.rs", "rngd.rs", "threads.rs", "storage.rs", "toy.rs", "util.rs", "values.rs", "ctx.rs", "rg.rs", "rng.rs", "runner.rs", "sched.rs", "selftest.rs", "serfmt.rs", "suite.rs", "tape.rs", "main.rs"].contains(&f)
}

const REAL: &str = "the whole voprf crate built from /repo's working tree (features std, alloc, serde, danger, ristretto255; overflow checks and debug assertions on), and the curve, hash and serde crates it depends on";
const REAL_C19: &str = "the whole voprf crate built nine times from /repo's working tree: once in the simulator (all features, checked) and as eight separate node processes (no features; no features checked; ristretto255; + alloc; + std checked; + serde; + danger; all), with the crates it depends on";
const STUB: &str = "network, disks, clock, process crashes and random generator are simulated; the application around the library (retry logic, storage, transport framing) is harness code; in runs labelled toy the group behind the library's Group trait is a prime-order group of the harness, everything above it is real";

/// (runs, thorough factor, what a run is, rare conditions that must be met)
pub fn plan(prop: &str) -> Plan {
    let (runs, thorough_factor, rule, probes): (u64, u64, &'static str, &'static [&'static str]) = match prop {
        "C01" => (6000, 60, "one run = one simulated deployment (1-3 replicated servers, 1-3 clients, lossy network, disks, crashes) drawn from one seed, every output compared with the reference PRF; non-trivial = at least one oracle comparison and one fault or rare condition", &[]),
        "C02" => (2600, 60, "one run = one deployment with Byzantine servers, or one set of forgeries against honest transcripts, drawn from one seed; the client's verdict compared with the reference verifier; non-trivial as in C01", &[]),
        "C03" => (5000, 60, "one run = one deployment drawn from one seed, faults stop at a point and every session must then finish within a bounded number of events; non-trivial as in C01", &[]),
        "C04" => (5000, 60, "one run = one batch (sizes 1..1025, rarely 65535 and 65536) assembled, evaluated, tampered with and finalized by seed; non-trivial = at least one oracle comparison and one fault or rare condition", &["batch-of-256-or-more"]),
        "C05" => (6000, 60, "one run = a history of snapshots, crashes, restores and twin comparisons, or a deployment with frequent crashes, drawn from one seed", &[]),
        "C06" => (9000, 60, "one run = a bag of stored or sent objects, mangled byte strings decoded by every decoder, each verdict compared with the strict reference decoder", &[]),
        "C07" => (3500, 60, "one run = a long-lived node with honest sessions in flight and a seed-drawn series of hostile calls, compared with a twin that never saw them", &[]),
        "C08" => (40000, 40, "one run = a deployment over a tiny group (or forced hash results, or degenerate generator output), every reaction compared with the reference", &["cancelled-tweak-met", "identity-input-met"]),
        "C09" => (5000, 60, "one run = a seed-drawn series of calls under recorded, altered, degenerate and failing generators", &[]),
        "C10" => (5000, 60, "one run = several threads under the seeded scheduler on shared objects, preempted inside library calls, compared with the sequential result", &[]),
        "C11" => (6000, 60, "one run = a history of requests under cloned, shared and scripted generators, or the exhaustive set of blinds of a small group, by seed", &["cloned-generator-distinct-inputs"]),
        "C12" => (12000, 60, "one run = a seed-drawn series of swaps of mode, key, info, suite, or of input/info/seed variations, each pair of contexts compared", &["swapped-mode", "swapped-key", "swapped-info"]),
        "C13" => (16000, 60, "one run = a series of object lives (how made, how ended) in inspected memory, two contents each", &[]),
        "C14" => (6000, 60, "one run = a session split between library and reference by seed, or a deployment with reference nodes, all bytes compared", &["session-adopted-from-reference", "proof-by-reference"]),
        "C18" => (8000, 60, "one run = objects out of simulated sessions (originals, retransmissions, copies, restored copies, near misses in one field), all pairs compared, ordered, hashed and looked up", &["equal-pair"]),
        "C19" => (5000, 60, "one run = one deployment whose parties run in processes built with different features and profiles, drawn from one seed; every request answered by at least two builds", &["bare", "bare-checked", "ristretto", "alloc", "std-checked", "serde", "danger", "everything", "process-restart"]),
        "C20" => (12000, 60, "one run = a history of drawing, hashing, arithmetic, storing, crashing and corruption over the registers of a node working with the Group interface, compared step by step with the reference", &["zero-scalar", "identity-element", "corrupted-bytes", "crash-restart"]),
        _ => (3200, 60, "one run = one two-phase evaluation with the phases split, reordered, crashed, restored and mixed by seed, compared with one-shot evaluation", &[]),
    };
    let mut assumptions = vec![
        "the curve and hash crates below the Group trait compute correctly (the reference shares their field and point arithmetic; hashing to a curve of the NIST suites is shared too, everything else is re-implemented and anchored by the RFC 9497 vectors)",
        "search is by seed: what no explored seed reaches is not decided",
    ];
    if matches!(prop, "C02" | "C12") {
        assumptions.push("in groups of cryptographic size an accepted forgery or an equal pair of hash outputs is a defect, not a coincidence");
    }
    if prop == "C13" {
        assumptions.push("memory is inspected where the object lived; copies the compiler makes while moving values are outside the property");
    }
    if prop == "C10" {
        assumptions.push("threads switch at calls into the group, the generator, iterators and between library calls; the library has no synchronisation primitive of its own");
    }
    let real = if prop == "C19" { REAL_C19 } else { REAL };
    Plan { runs, thorough_factor, rule, real, stub: STUB, assumptions, probes }
}
