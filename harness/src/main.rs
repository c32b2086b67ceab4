//! Drives the real code and records what it reports, one JSON line per
//! operation, for validation against the TLA+ specification in ../spec.
//!
//!   conformance gen SUITE OUTDIR CHUNKS SEED SCALE
//!   conformance replay BEHAVIOURS OUTDIR CHUNKS
mod conv;
mod flat;
mod gen;
mod iters;
mod observe;
mod rec;
mod rng;
mod suites;

use rec::{Rec, BEAT, NOW};
use std::sync::atomic::Ordering;

fn watchdog(dir: String) {
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut stuck = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            // odd: inside an operation on the code under test
            stuck = if b == last && b % 2 == 1 { stuck + 1 } else { 0 };
            last = b;
            if stuck > 40 {
                let s = NOW.lock().map(|s| s.clone()).unwrap_or_default();
                let _ = std::fs::write(format!("{dir}/hang.ndjson"), s + "\n");
                std::process::exit(3);
            }
        }
    });
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| ()));
    let chunks: usize = a[4].parse().unwrap();
    watchdog(a[3].clone());
    let mut rec = Rec::new(&a[3], chunks);
    match a[1].as_str() {
        "gen" => suites::run(&a[2], &mut rec, a[5].parse().unwrap(), a[6].parse().unwrap()),
        "replay" => suites::replay(&a[2], &mut rec),
        _ => panic!("usage"),
    }
    rec.flush();
    println!("{{\"devices\":{},\"lines\":{}}}", rec.devices, rec.lines);
}
