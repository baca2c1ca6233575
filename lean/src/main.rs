//! A node of the simulated deployment, compiled against the library with the
//! features and profile of one particular build (see `../../check.sh`).

use std::sync::atomic::{AtomicU64, Ordering};

#[path = "../../sim/src/node.rs"]
mod node;

/// a request that does not end ends the process
const HANG_S: u64 = 60;
static BUSY: AtomicU64 = AtomicU64::new(0);

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::spawn(|| {
        let (mut last, mut since) = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let b = BUSY.load(Ordering::Relaxed);
            since = if b == last && b % 2 == 1 { since + 1 } else { 0 };
            last = b;
            if since > HANG_S {
                std::process::exit(4);
            }
        }
    });
    let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
    while let Ok(m) = node::read(&mut i) {
        BUSY.fetch_add(1, Ordering::Relaxed);
        let a = node::handle(&m);
        BUSY.fetch_add(1, Ordering::Relaxed);
        if node::write(&mut o, &a).is_err() {
            break;
        }
    }
}
