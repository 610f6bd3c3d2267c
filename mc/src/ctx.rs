//! Runs the parts of one property's check, matches known findings, writes the
//! replay files and the evidence fragment.

use crate::explore::{explore, replay, Body, Monitor, Stats, Viol};
use std::{fmt::Write as _, fs, sync::Arc, time::Instant};

pub struct Ctx {
    pub id: String,
    pub thorough: bool,
    #[allow(dead_code)]
    pub seed: u64,
    pub workers: usize,
    pub flavour: &'static str,
    pub replay: Option<(String, u32, Vec<u32>)>,
    pub only: Option<String>,
    pub known: Vec<(String, String)>, // property, key
    pub stats: Vec<Stats>,
    pub notes: Vec<String>,
    pub known_hit: Vec<String>,
    pub violations: Vec<(String, u32, Vec<u32>, Viol, bool)>,
    pub replay_hit: Option<Viol>,
    pub mon: Arc<Monitor>,
    pub t0: Instant,
}

impl Ctx {
    pub fn part(&mut self, name: &str, max_dev: u32, body: &Body) {
        if let Some((p, dev, choices)) = self.replay.clone() {
            if p == name {
                let (r, d) = replay(dev, &choices, body);
                println!("replay {} {p} {choices:?}", self.id);
                if let Some(d) = d {
                    println!("execution: {d}");
                }
                match r {
                    Ok(()) => println!("no violation"),
                    Err(v) => {
                        println!("key: {}\n{}", v.key, v.detail);
                        self.replay_hit = Some(v);
                    }
                }
            }
            return;
        }
        if let Some(o) = &self.only {
            if !name.contains(o.as_str()) {
                return;
            }
        }
        let mut s = explore(name, max_dev, self.workers, &self.mon, body);
        eprintln!(
            "  {:<34} states {:>9} execs {:>9} skip {:>7} ops {:>9} depth {:>3} viol {:>5} {:.2}s {:?}",
            s.name, s.states, s.execs, s.skipped, s.ops, s.max_depth, s.viol_total, s.wall, s.labels
        );
        for (choices, v) in std::mem::take(&mut s.viols) {
            if self.known.iter().any(|(p, k)| *p == self.id && *k == v.key) {
                if !self.known_hit.contains(&v.key) {
                    self.known_hit.push(v.key.clone());
                }
                continue;
            }
            // Replay twice before trusting it.
            let r1 = replay(max_dev, &choices, body).0;
            let r2 = replay(max_dev, &choices, body).0;
            let stable = matches!((&r1, &r2), (Err(a), Err(b)) if a.key == v.key && b.key == v.key);
            self.violations.push((name.to_string(), max_dev, choices, v, stable));
        }
        self.stats.push(s);
    }

    pub fn note(&mut self, s: impl Into<String>) {
        self.notes.push(s.into());
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn write_replay(dir: &str, id: &str, flavour: &str, tier: &str, part: &str, dev: u32, choices: &[u32], v: &Viol, n: usize) -> String {
    let _ = fs::create_dir_all(dir);
    let path = format!("{dir}/{id}-{flavour}-{n}.json");
    let c: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    let text = format!(
        "{{\n \"property\": {}, \"flavour\": {}, \"tier\": {},\n \"part\": {}, \"max_dev\": {}, \"choices\": [{}],\n \"key\": {},\n \"detail\": {},\n \"replay_cmd\": {}\n}}\n",
        esc(id), esc(flavour), esc(tier), esc(part), dev, c.join(","), esc(&v.key), esc(&v.detail),
        esc(&format!("python3 /verif/check.py --replay {path}"))
    );
    let _ = fs::write(&path, text);
    path
}

impl Ctx {
    /// Prints the verdict lines and writes the fragment; returns the exit code.
    pub fn finish(&mut self, out: &str, replays: &str) -> i32 {
        let tier = if self.thorough { "thorough" } else { "quick" };
        for k in &self.known_hit {
            println!("KNOWN-FINDING: property={} {}", self.id, k);
        }
        for (n, (part, dev, choices, v, stable)) in self.violations.iter().enumerate().take(12) {
            let p = write_replay(replays, &self.id, self.flavour, tier, part, *dev, choices, v, n);
            println!("VIOLATION property={} replay={}", self.id, p);
            println!("  part={} {}key={}", part, if *stable { "" } else { "(not stable on replay) " }, v.key);
            println!("  {}", v.detail.replace('\n', "\n  "));
        }
        let sum = |f: &dyn Fn(&Stats) -> u64| -> u64 { self.stats.iter().map(f).sum() };
        let mut parts = vec![];
        for s in &self.stats {
            let labels: Vec<String> = s.labels.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
            parts.push(format!(
                "{{\"part\": {}, \"flavour\": {}, \"states\": {}, \"executions\": {}, \"outside_space\": {}, \"api_calls\": {}, \"max_depth\": {}, \"deviation_bound\": {}, \"outcomes\": {{{}}}, \"wall_s\": {:.2}}}",
                esc(&s.name), esc(self.flavour), s.states, s.execs, s.skipped, s.ops, s.max_depth, s.max_dev, labels.join(", "), s.wall
            ));
        }
        let mut samples = vec![];
        for s in &self.stats {
            for d in s.samples.iter().take(2) {
                let d: String = d.chars().take(600).collect();
                samples.push(esc(&format!("[{}] {}", s.name, d)));
            }
        }
        samples.truncate(24);
        let notes: Vec<String> = self.notes.iter().map(|n| esc(n)).collect();
        let known: Vec<String> = self.known_hit.iter().map(|n| esc(n)).collect();
        let text = format!(
            "{{\"property\": {}, \"flavour\": {}, \"states\": {}, \"transitions\": {}, \"traces\": {}, \"outside_space\": {}, \"violations\": {}, \"wall_s\": {:.2}, \"parts\": [{}], \"samples\": [{}], \"notes\": [{}], \"known_findings\": [{}]}}\n",
            esc(&self.id), esc(self.flavour),
            sum(&|s| s.states), sum(&|s| s.ops), sum(&|s| s.execs), sum(&|s| s.skipped),
            self.violations.len(), self.t0.elapsed().as_secs_f64(),
            parts.join(", "), samples.join(", "), notes.join(", "), known.join(", ")
        );
        if !out.is_empty() {
            fs::write(out, text).expect("cannot write fragment");
        }
        if self.violations.is_empty() {
            0
        } else {
            1
        }
    }
}
