//! Bounded contract harness: runs the real crate against independent executable
//! versions of the property contracts.
mod blocks;
mod model;
mod props;
mod util;

use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};
use util::*;

fn write_out(out: &str, c: &Ctx) {
    let mut s = String::from("{");
    s += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, ", c.evals, c.distinct.len());
    s += &format!("\"rule\": {}, ", json_str(&c.rule));
    s += &format!("\"samples\": [{}], ", c.samples.iter().map(|x| json_str(x)).collect::<Vec<_>>().join(", "));
    s += &format!("\"wall_s\": {:.3}, ", c.start.elapsed().as_secs_f64());
    match &c.failure {
        Some((i, m)) => s += &format!("\"failure\": {{\"input\": {}, \"message\": {}}}", json_str(i), json_str(m)),
        None => s += "\"failure\": null",
    }
    s += "}\n";
    std::fs::write(out, s).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let thorough = get("--tier").map_or(false, |t| t == "thorough");
    let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = get("--out").unwrap_or("/dev/stdout".into());
    let budget = get("--budget").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 600 } else { 60 });
    let only = get("--only").and_then(|s| s.parse().ok());
    let trace = get("--trace").map(std::path::PathBuf::from);
    install_panic_hook();

    // Hang watchdog
    let wout = out.clone();
    std::thread::spawn(move || {
        let mut last = u64::MAX;
        let mut since = Instant::now();
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = CASE_NO.load(Ordering::SeqCst);
            if now != last { last = now; since = Instant::now(); }
            else if now > 0 && since.elapsed() > Duration::from_secs(20) {
                let input = CURRENT.lock().unwrap().clone();
                let s = format!("{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": \"hang\", \"samples\": [], \"wall_s\": 0, \"failure\": {{\"input\": {}, \"message\": \"no answer within 20 s\"}}}}\n",
                    now, now, json_str(&format!("case {}: {}", now - 1, input)));
                std::fs::write(&wout, s).unwrap();
                std::process::exit(1);
            }
        }
    });

    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(move || {
        let mut c = Ctx {
            thorough, seed, evals: 0, distinct: Default::default(), samples: vec![], failure: None,
            rule: String::new(), start: Instant::now(), budget: Duration::from_secs(budget), only, trace,
        };
        props::run(&prop, &mut c);
        write_out(&out, &c);
        CASE_NO.store(0, Ordering::SeqCst);
        if c.failed() { 1 } else { 0 }
    }).unwrap();
    std::process::exit(h.join().unwrap_or(3));
}
