//! Native harness: runs the real nakamoto code against reference oracles written from the property
//! statements. `nakamoto-verif <property> --seed N --ms M [--max K]`, or `--case S` to replay one case.
mod util;
mod chain;
mod store;
mod small;
mod filt;
mod node;
mod conn;
mod syn;
mod book;
mod chaos;
mod glue;
mod client;
mod peers;
mod react;

use std::time::Duration;
use util::*;

/// name, scenario, share of the time budget
type Sc = (&'static str, Scenario, u64);
fn scenarios(p: &str) -> Vec<Sc> {
    match p {
        "C07" => vec![("checkpoint", chain::checkpoint, 1), ("tree", chain::tree, 2)],
        "C01" | "C03" | "C04" | "C05" => vec![("tree", chain::tree, 1)],
        "C08" => vec![("locators", chain::locator_heights, 1), ("tree", chain::tree, 8)],
        "C06" => vec![("store", store::ops, 2), ("reload", store::reload, 1)],
        "C10" => vec![("filter-cache", small::filter_cache, 1)],
        "C12" => vec![("fees", small::fees, 1)],
        "C13" => vec![("adjusted-time", small::adjusted_time, 1)],
        "C14" => vec![("timeouts", small::timeouts, 1)],
        "C15" => vec![("stream", small::stream, 1)],
        "C02" => vec![("retarget", chain::retarget, 1)],
        "C09" => vec![("node", node::random, 3), ("node-honest", node::honest, 2), ("node-long", node::long, 1), ("node-batch", node::batch, 1), ("filter-cache", filt::cache, 1), ("filter-verify", filt::verify, 1)],
        "C11" => vec![("node-honest", node::honest, 2), ("node", node::random, 2), ("node-txs", node::txs, 1)],
        "C16" => vec![("sync", syn::sync, 3), ("batches", syn::batches, 1)],
        "C17" => vec![("node-txs", node::txs, 2), ("node-honest", node::honest, 1), ("node", node::random, 2)],
        "C18" => vec![("connections", conn::connections, 3), ("retries", conn::retries, 1)],
        "C19" => vec![("pings", node::pings, 1), ("node", node::random, 2)],
        "C24" => vec![("service", client::service, 2), ("methods", client::methods, 4), ("feeds", client::feeds, 1), ("emitter", client::emitter, 1), ("restart", client::restart, 2)],
        "C25" => vec![("peers", peers::peers, 1)],
        "C23" => vec![("reactor", react::reactor, 6), ("flood", react::flood, 1), ("refused", react::refused, 2)],
        "C22" => vec![("glue", glue::glue, 1)],
        "C21" => vec![("book", book::book, 1)],
        "C20" => vec![("chaos", chaos::chaos, 4), ("node-batch", node::batch, 1), ("connections", conn::connections, 1), ("sync", syn::sync, 1), ("node-txs", node::txs, 1), ("book", book::book, 1)],
        _ => vec![],
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let seed: u64 = get("--seed").map(|s| s.parse().unwrap()).unwrap_or(1);
    let ms: u64 = get("--ms").map(|s| s.parse().unwrap()).unwrap_or(3000);
    let max: u64 = get("--max").map(|s| s.parse().unwrap()).unwrap_or(u64::MAX);
    std::panic::set_hook(Box::new(|i| {
        let s = i.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
    let sc = scenarios(&prop);
    if sc.is_empty() { eprintln!("no scenario for {}", prop); std::process::exit(2); }
    if let Some(c) = get("--case") {
        let name = get("--scenario").unwrap_or_default();
        let f = sc.iter().find(|s| name.is_empty() || s.0 == name).expect("scenario");
        let c = run_case(&prop, f.1, c.parse().unwrap());
        for l in &c.log { println!("  {}", l); }
        for (t, m) in &c.fails { println!("FAIL [{}] {}", t, m); }
        std::process::exit(if c.fails.iter().any(|(t, _)| *t == prop) { 1 } else { 0 });
    }
    let n: u64 = sc.iter().map(|s| s.2).sum();
    let mut out = vec![];
    let mut bad = false;
    for (name, f, w) in sc {
        let o = explore(name, &prop, f, seed, Duration::from_millis(ms * w / n), max);
        let stats: Vec<String> = o.stats.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect();
        let fail = match &o.fail {
            None => "null".to_string(),
            Some((s, t, m, log)) => {
                bad = true;
                format!("{{\"case\":{},\"tag\":{},\"what\":{},\"history\":[{}]}}", s, esc(t), esc(m), log.iter().map(|l| esc(l)).collect::<Vec<_>>().join(","))
            }
        };
        out.push(format!("{{\"scenario\":{},\"cases\":{},\"wall_s\":{:.3},\"stats\":{{{}}},\"fail\":{}}}", esc(name), o.cases, o.wall, stats.join(","), fail));
        if bad { break; }
    }
    println!("[{}]", out.join(","));
    std::process::exit(if bad { 1 } else { 0 });
}
