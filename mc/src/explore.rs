//! Stateless explorer: depth-first enumeration of every choice sequence of a
//! test body, on the real code.
//!
//! A test body asks `Ch::pick(n)` whenever something is open (which byte comes
//! next, where a chunk ends, what the resolver answers, which option is set,
//! which hash-map seed is used, …).  The explorer runs the body again and again
//! with every possible vector of answers.  `Ch::dev(n)` is a pick whose
//! non-zero answers cost one unit of a deviation budget.  While a prefix is
//! replayed the arity of each choice point must be what it was before; a
//! divergence is a hard error of the engine (exit code 3), because it means
//! that something nondeterministic is not under control.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst},
        Mutex,
    },
    time::Instant,
};

thread_local! {
    pub static PANIC_MSG: RefCell<Option<String>> = RefCell::new(None);
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let b = if std::env::var_os("MC_BT").is_some() {
            format!("\n{}", std::backtrace::Backtrace::force_capture())
        } else {
            String::new()
        };
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {m}{b}")));
    }));
}

/// A violated property: `key` identifies the failing input (stable; known
/// findings are matched by it), `detail` explains.
#[derive(Clone, Debug)]
pub struct Viol {
    pub key: String,
    pub detail: String,
}

pub fn viol<T>(key: impl Into<String>, detail: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { key: key.into(), detail: detail.into() })
}

pub struct Ch {
    script: Vec<(u32, u32)>, // choice, arity (0 = unknown)
    pub log: Vec<(u32, u32)>,
    budget: u32,
    pub ops: u64,
    pub labels: Vec<&'static str>,
    pub want_desc: bool,
    pub desc: Option<String>,
    pub skipped: bool,
    diverged: Option<String>,
}

#[allow(dead_code)]
impl Ch {
    fn new(script: Vec<(u32, u32)>, budget: u32) -> Self {
        Ch {
            script,
            log: vec![],
            budget,
            ops: 0,
            labels: vec![],
            want_desc: false,
            desc: None,
            skipped: false,
            diverged: None,
        }
    }
    pub fn pick(&mut self, n: usize) -> usize {
        assert!(n > 0, "pick(0)");
        let n = n as u32;
        let pos = self.log.len();
        let c = if pos < self.script.len() {
            let (c, m) = self.script[pos];
            if (m != 0 && m != n) || c >= n {
                self.diverged = Some(format!("choice {pos}: was {c}/{m}, now arity {n}"));
                panic!("engine divergence");
            }
            c
        } else {
            0
        };
        self.log.push((c, n));
        c as usize
    }
    /// Pick whose non-default answers use up the deviation budget.
    pub fn dev(&mut self, n: usize) -> usize {
        if self.budget == 0 {
            return self.pick(1);
        }
        let c = self.pick(n);
        if c != 0 {
            self.budget -= 1;
        }
        c
    }
    pub fn flag(&mut self) -> bool {
        self.pick(2) == 1
    }
    pub fn devflag(&mut self) -> bool {
        self.dev(2) == 1
    }
    pub fn of<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        &xs[self.pick(xs.len())]
    }
    pub fn devof<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        &xs[self.dev(xs.len())]
    }
    /// Number of calls of the implementation.
    pub fn op(&mut self, n: u64) {
        self.ops += n;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    /// This choice vector is outside the stated space (duplicate or excluded).
    pub fn skip(&mut self) {
        self.skipped = true;
    }
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.want_desc {
            self.desc = Some(f());
        }
    }
}

pub type Body<'a> = dyn Fn(&mut Ch) -> Result<(), Viol> + Sync + 'a;

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub name: String,
    pub max_dev: u32,
    pub states: u64,
    pub execs: u64,
    pub skipped: u64,
    pub ops: u64,
    pub max_depth: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<(Vec<u32>, Viol)>,
    pub viol_total: u64,
    pub wall: f64,
}

fn run_one(ch: &mut Ch, body: &Body) -> Result<(), Viol> {
    PANIC_MSG.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(|| body(ch))) {
        Ok(r) => r,
        Err(_) => {
            if let Some(d) = &ch.diverged {
                println!("ENGINE-ERROR: divergence while replaying a prefix: {d}");
                std::process::exit(3);
            }
            let m = PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_default();
            viol(format!("panic {m}"), m)
        }
    }
}

/// What each worker is doing right now, for the hang monitor.
pub struct Slot {
    pub seq: AtomicU64, // odd while an execution runs
    pub cur: Mutex<Vec<u32>>,
}

pub struct Monitor {
    pub slots: Vec<Slot>,
    pub part: Mutex<String>,
}

pub const HANG_MS: u64 = 40_000;
pub const MAX_RSS: u64 = 14 << 30;

impl Monitor {
    pub fn new(n: usize) -> Self {
        Monitor {
            slots: (0..n)
                .map(|_| Slot { seq: AtomicU64::new(0), cur: Mutex::new(vec![]) })
                .collect(),
            part: Mutex::new(String::new()),
        }
    }
    /// Per worker: the running execution (sequence number) and its choices.
    pub fn running(&self) -> Vec<Option<(u64, Vec<u32>)>> {
        self.slots
            .iter()
            .map(|s| {
                let q = s.seq.load(SeqCst);
                (q % 2 == 1).then(|| (q, s.cur.lock().unwrap().clone()))
            })
            .collect()
    }
}

const VIOL_KEEP: usize = 40;

pub fn explore(
    name: &str,
    max_dev: u32,
    workers: usize,
    mon: &Monitor,
    body: &Body,
) -> Stats {
    let t0 = Instant::now();
    *mon.part.lock().unwrap() = name.to_string();
    // Split the tree into subtrees (jobs): a breadth-first expansion of prefixes.
    let mut jobs: Vec<Vec<(u32, u32)>> = vec![vec![]];
    let mut leaves: Vec<Vec<(u32, u32)>> = vec![];
    let mut inner_nodes = 0u64;
    while !jobs.is_empty() && jobs.len() + leaves.len() < workers * 12 {
        let mut next = vec![];
        for p in jobs.drain(..) {
            let mut ch = Ch::new(p.clone(), max_dev);
            let s = &mon.slots[0];
            *s.cur.lock().unwrap() = p.iter().map(|x| x.0).collect();
            s.seq.fetch_add(1, SeqCst);
            let _ = run_one(&mut ch, body);
            s.seq.fetch_add(1, SeqCst);
            if ch.log.len() <= p.len() {
                leaves.push(p);
            } else {
                inner_nodes += 1;
                let n = ch.log[p.len()].1;
                for c in 0..n {
                    let mut q = ch.log[..p.len()].to_vec();
                    q.push((c, n));
                    next.push(q);
                }
            }
        }
        jobs = next;
    }
    jobs.extend(leaves);
    jobs.sort();
    let njobs = jobs.len();
    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let out: Mutex<Stats> = Mutex::new(Stats {
        name: name.to_string(),
        max_dev,
        states: inner_nodes,
        ..Default::default()
    });
    std::thread::scope(|sc| {
        for w in 0..workers {
            let (jobs, next, out, stop) = (&jobs, &next, &out, &stop);
            let slot = &mon.slots[w];
            sc.spawn(move || {
                crate::alloc::cache_here();
                loop {
                let j = next.fetch_add(1, SeqCst);
                if j >= njobs || stop.load(SeqCst) {
                    break;
                }
                let base = jobs[j].len();
                let mut script = jobs[j].clone();
                let mut st = Stats::default();
                let mut fresh_from = base.max(1) - 1; // first new node of this execution
                if base == 0 {
                    fresh_from = 0;
                }
                let mut first = true;
                loop {
                    let mut ch = Ch::new(std::mem::take(&mut script), max_dev);
                    ch.want_desc = (first && (j % (njobs / 6).max(1) == 0));
                    {
                        let mut c = slot.cur.lock().unwrap();
                        c.clear();
                        c.extend(ch.script.iter().map(|x| x.0));
                    }
                    slot.seq.fetch_add(1, SeqCst);
                    let r = run_one(&mut ch, body);
                    slot.seq.fetch_add(1, SeqCst);
                    // (A violation ends an execution; should it have depended on
                    // what ran before, it still is one.)
                    if ch.log.len() < ch.script.len() && r.is_ok() {
                        println!("ENGINE-ERROR: divergence: execution ended before its prefix did");
                        std::process::exit(3);
                    }
                    st.states += (ch.log.len() - fresh_from.min(ch.log.len())) as u64;
                    st.ops += ch.ops;
                    st.max_depth = st.max_depth.max(ch.log.len() as u64);
                    if ch.skipped && r.is_ok() {
                        st.skipped += 1;
                    } else {
                        st.execs += 1;
                    }
                    for l in &ch.labels {
                        *st.labels.entry(l).or_default() += 1;
                    }
                    if let Some(d) = ch.desc.take() {
                        if st.samples.len() < 3 {
                            st.samples.push(d);
                        }
                    }
                    if let Err(v) = r {
                        st.viol_total += 1;
                        if st.viols.len() < VIOL_KEEP && !st.viols.iter().any(|x| x.1.key == v.key) {
                            st.viols.push((ch.log.iter().map(|x| x.0).collect(), v));
                        }
                        if st.viol_total > 20_000 {
                            stop.store(true, SeqCst);
                        }
                    }
                    first = false;
                    // Next script: the last own choice point with an alternative left.
                    let mut k = ch.log.len();
                    let mut found = false;
                    while k > base && !found {
                        k -= 1;
                        let (c, n) = ch.log[k];
                        if c + 1 < n {
                            script = std::mem::take(&mut ch.log);
                            script.truncate(k + 1);
                            script[k] = (c + 1, n);
                            found = true;
                        }
                    }
                    if !found {
                        break;
                    }
                    fresh_from = k;
                    if stop.load(SeqCst) {
                        break;
                    }
                }
                let mut o = out.lock().unwrap();
                o.states += st.states;
                o.execs += st.execs;
                o.skipped += st.skipped;
                o.ops += st.ops;
                o.max_depth = o.max_depth.max(st.max_depth);
                for (k, v) in st.labels {
                    *o.labels.entry(k).or_default() += v;
                }
                if o.samples.len() < 6 {
                    o.samples.extend(st.samples);
                }
                o.viol_total += st.viol_total;
                for (c, v) in st.viols {
                    if o.viols.len() < 400 && !o.viols.iter().any(|x| x.1.key == v.key) {
                        o.viols.push((c, v));
                    }
                }
                }
                crate::alloc::drain_here();
            });
        }
    });
    let mut s = out.into_inner().unwrap();
    s.viols.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
    s.wall = t0.elapsed().as_secs_f64();
    s
}

/// Runs one recorded choice vector.
pub fn replay(max_dev: u32, choices: &[u32], body: &Body) -> (Result<(), Viol>, Option<String>) {
    let mut ch = Ch::new(choices.iter().map(|c| (*c, 0)).collect(), max_dev);
    ch.want_desc = true;
    let r = run_one(&mut ch, body);
    (r, ch.desc)
}

#[allow(dead_code)]
pub fn distinct<T: std::hash::Hash + Eq>(xs: impl IntoIterator<Item = T>) -> usize {
    xs.into_iter().collect::<HashSet<_>>().len()
}
