//! Native harness for the wallet (its own crate: the wallet needs SQLite). Same runner as ../harness.
#[path = "../../harness/src/util.rs"]
mod util;
mod wallet;
use std::time::Duration;
use util::*;
type Sc = (&'static str, Scenario, u64);
fn scenarios(p: &str) -> Vec<Sc> {
    match p {
        "C26" => vec![("coins", wallet::coins, 3), ("records", wallet::records, 1)],
        _ => vec![],
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let ms: u64 = get("--ms").map(|s| s.parse().unwrap()).unwrap_or(3000);
    let max: u64 = get("--max").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let sc = scenarios(&prop);
    if sc.is_empty() { eprintln!("no scenario for {}", prop); std::process::exit(2); }
    if let Some(c) = get("--case") {
        let name = get("--scenario").unwrap_or_default();
        let f = sc.iter().find(|s| name.is_empty() || s.0 == name).expect("scenario");
        let c = run_case(&prop, f.1, c.parse().unwrap());
        for l in &c.log { println!("  {}", l); }
        for (t, m) in &c.fails { println!("FAIL [{}] {}", t, m); }
        std::process::exit(if c.fails.iter().any(|(t, _)| *t == prop) { 1 } else { 0 });
    }
    let n: u64 = sc.iter().map(|s| s.2).sum();
    let mut out = vec![];
    let mut bad = false;
    for (name, f, w) in sc {
        let o = explore(name, &prop, f, seed, Duration::from_millis(ms * w / n), max);
        let stats: Vec<String> = o.stats.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let fail = match &o.fail {
            None => "null".to_string(),
            Some((s, t, m, log)) => {
                bad = true;
                format!("{{\"case\":{},\"tag\":{},\"what\":{},\"history\":[{}]}}", s, esc(t), esc(m), log.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","))
            }
        };
        out.push(format!("{{\"scenario\":{},\"cases\":{},\"wall_s\":{:.3},\"stats\":{{{}}},\"fail\":{}}}", esc(name), o.cases, o.wall, stats.join(","), fail));
        if bad { break; }
    }
    println!("[{}]", out.join(","));
    std::process::exit(if bad { 1 } else { 0 });
}
