mod clock;
mod ctx;
mod dict;
mod elsewhere;
mod node;
mod rg;
mod rng;
mod runner;
mod scen;
mod sched;
mod serfmt;
mod selftest;
mod suite;
mod tape;
mod toy;

use std::path::PathBuf;

fn main() {
    ctx::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or_else(|_| panic!("bad number {}", arg(i)));
    let code = match arg(0).as_str() {
        // sim check PROP [VERIF_DIR]
        "check" => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
            let verif = if a.len() > 2 { PathBuf::from(arg(2)) } else { PathBuf::from("/verif") };
            if !scen::PROPS.contains(&arg(1).as_str()) {
                eprintln!("no such property {}", arg(1));
                std::process::exit(2);
            }
            runner::check(&runner::CheckArgs { prop: arg(1), seed, thorough, verif })
        }
        "worker" => runner::worker(&runner::WorkerArgs {
            prop: arg(1),
            seed: num(2),
            worker: num(3),
            workers: num(4),
            runs: num(5),
            deadline_s: num(6),
            thorough: arg(7) == "1",
            stride: num(8).max(1),
            out: PathBuf::from(arg(9)),
        }),
        "shrink" => runner::shrink_file(&PathBuf::from(arg(1))),
        "replay" => {
            let r: runner::Replay = serde_json::from_slice(&std::fs::read(arg(1)).expect("read")).expect("replay file");
            if let Some(d) = &r.dict {
                dict::set(d.clone());
            }
            if r.class == "hang" {
                std::thread::spawn(|| {
                    std::thread::sleep(std::time::Duration::from_secs(runner::HANG_S));
                    println!("REPRODUCED hang: the run did not end");
                    std::process::exit(1);
                });
            }
            match runner::replay(&r, true) {
                Some((c, m, _)) => {
                    println!("REPRODUCED {c}: {m}");
                    1
                }
                None => {
                    println!("not reproduced");
                    0
                }
            }
        }
        // sim run PROP SEED INDEX
        "run" => {
            let r = runner::run_index(&arg(1), num(2), num(3), false, true);
            for l in &r.ctx.trace {
                println!("{l}");
            }
            println!("label {} digest {:016x}", r.ctx.label, r.ctx.digest);
            match r.v {
                Some(v) => {
                    println!("{}: {}", v.class, v.msg);
                    1
                }
                None => 0,
            }
        }
        "constants" => {
            dict::print();
            0
        }
        "resume" => elsewhere::child(),
        "selftest" => match selftest::run() {
            Ok(n) => {
                println!("reference model agrees with {n} RFC 9497 vectors");
                0
            }
            Err(e) => {
                println!("self-test failed: {e}");
                2
            }
        },
        _ => {
            eprintln!("usage: sim check|replay|run|selftest ...");
            2
        }
    };
    std::process::exit(code);
}
