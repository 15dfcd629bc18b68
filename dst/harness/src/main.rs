#![feature(alloc_error_hook)]
#![allow(clippy::type_complexity)]
mod alloc;
mod bins;
mod procs;
mod runner;
mod scen;
mod statics;

#[global_allocator]
static ALLOC: alloc::Watch = alloc::Watch;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    simrt::LIVE_LOG.store(std::env::var_os("DST_LIVE").is_some(), std::sync::atomic::Ordering::Relaxed);
    let checks = scen::checks();
    let get = |id: &str| {
        checks.iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("no such check: {id}");
            std::process::exit(2)
        })
    };
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            std::process::exit(runner::check(get(&a[2]), a.get(3).map_or("quick", |s| s), seed))
        }
        Some("worker") => runner::worker(get(&a[2]), num(3), num(4), num(5), num(6), num(7), &a[8]),
        Some("shrink") => runner::shrink_cmd(get(&a[2]), &a[3], &a[4], num(5)),
        Some("trace") => runner::trace_cmd(get(&a[2]), num(3), num(4)),
        Some("replay") => std::process::exit(runner::replay_cmd(&checks, &a[2])),
        Some("list") => checks.iter().for_each(|c| println!("{}", c.id)),
        _ => {
            eprintln!("harness check ID quick|thorough | replay FILE | trace ID SEED N | list");
            std::process::exit(2)
        }
    }
}
