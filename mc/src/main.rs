mod alloc;
mod checks;
mod ctx;
mod env;
mod explore;
mod keys;
mod refm;
mod util;

use ctx::Ctx;
use std::{sync::Arc, time::Instant};

#[global_allocator]
static ALLOC: alloc::A = alloc::A;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1)).cloned();
    explore::install_panic_hook();
    let id = get("--check").unwrap_or_default();
    let workers = get("--workers").and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let mon = Arc::new(explore::Monitor::new(workers));
    let replays = get("--replays").unwrap_or_else(|| "/verif/replays".into());
    let known = get("--known")
        .map(|p| std::fs::read_to_string(p).expect("known findings"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            // `finding: property=C20 key=<key> # text`; fixed: lines suppress nothing.
            let l = l.strip_prefix("finding: property=")?;
            let (p, r) = l.split_once(" key=")?;
            let k = r.split_once(" # ").map_or(r, |x| x.0);
            Some((p.to_string(), k.trim().to_string()))
        })
        .collect();
    let mut ctx = Ctx {
        id: id.clone(),
        thorough: get("--tier").as_deref() == Some("thorough"),
        seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1),
        workers,
        flavour: if cfg!(feature = "pre-rfc8301") { "pre-rfc8301" } else { "default" },
        replay: get("--replay-part").map(|p| {
            let c = get("--choices").unwrap_or_default();
            let c = c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
            (p, get("--max-dev").and_then(|s| s.parse().ok()).unwrap_or(0), c)
        }),
        only: get("--only"),
        known,
        stats: vec![],
        notes: vec![],
        known_hit: vec![],
        violations: vec![],
        replay_hit: None,
        mon: mon.clone(),
        t0: Instant::now(),
    };
    // Hang and memory monitor.
    {
        let (id, fl, tier) = (id.clone(), ctx.flavour, if ctx.thorough { "thorough" } else { "quick" });
        let replays = replays.clone();
        std::thread::spawn(move || {
            let mut since: Vec<(u64, Instant)> = vec![(0, Instant::now()); workers];
            loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let mut longest: Option<(u64, Vec<u32>)> = None;
            for (w, r) in mon.running().into_iter().enumerate() {
                let Some((seq, choices)) = r else { continue };
                if since[w].0 != seq {
                    since[w] = (seq, Instant::now());
                }
                let ms = since[w].1.elapsed().as_millis() as u64;
                if longest.as_ref().map_or(true, |l| l.0 < ms) {
                    longest = Some((ms, choices));
                }
            }
            let Some((ms, choices)) = longest else { continue };
            let rss = std::fs::read_to_string("/proc/self/statm")
                .ok()
                .and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok()))
                .unwrap_or(0)
                * 4096;
            let why = if ms > explore::HANG_MS {
                format!("one execution has been running for {ms} ms: the library does not terminate on this input")
            } else if rss > explore::MAX_RSS {
                format!("memory use {rss} bytes while running one execution for {ms} ms: unbounded growth")
            } else {
                continue;
            };
            let part = mon.part.lock().unwrap().clone();
            let v = explore::Viol { key: format!("hang part={part} choices={choices:?}"), detail: why };
            let p = ctx::write_replay(&replays, &id, fl, tier, &part, 0, &choices, &v, 99);
            println!("VIOLATION property={id} replay={p}");
            println!("  {}\n  {}", v.key, v.detail);
            std::process::exit(1);
            }
        });
    }
    if !checks::run(&mut ctx) {
        println!("ENGINE-ERROR: no such check {id}");
        std::process::exit(2);
    }
    if ctx.replay.is_some() {
        std::process::exit(if ctx.replay_hit.is_some() { 1 } else { 0 });
    }
    let code = ctx.finish(&get("--out").unwrap_or_default(), &replays);
    std::process::exit(code);
}
