//! Everything nondeterministic the library can see: the hash-map seed
//! (`getrandom`), the clock (`clock_gettime`), the resolver, and the poll order.
//!
//! `getrandom` and `clock_gettime` are interposed for the whole process by
//! defining the C symbols that `std` links to.

use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    future::Future,
    io,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
    time::Duration,
};
use viadkim::{
    header::HeaderFields,
    message_hash::BodyHasherStance,
    verifier::{Config, LookupTxt, VerificationResult, Verifier},
};

thread_local! {
    static SEED: Cell<u64> = const { Cell::new(0x9E37_79B9_7F4A_7C15) };
    static CLOCK: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static TICK: Cell<i64> = const { Cell::new(0) };
}
pub static SEED_CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
pub static CLOCK_CALLS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

/// `std`'s source of hash-map seeds: a function of the thread's chosen seed.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    SEED_CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
    let mut x = SEED.try_with(|s| s.get()).unwrap_or(1);
    for i in 0..len {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        *(buf as *mut u8).add(i) = (x >> 24) as u8;
    }
    len as libc::ssize_t
}

/// `std`'s clock: the realtime clock of this thread can be set.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        if let Some((s, n)) = CLOCK.try_with(|c| c.get()).unwrap_or(None) {
            CLOCK_CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            let tick = TICK.try_with(|t| t.get()).unwrap_or(0);
            if tick != 0 {
                let t = s as i128 * 1_000_000_000 + n as i128 + tick as i128;
                let _ = CLOCK.try_with(|c| c.set(Some((t.div_euclid(1_000_000_000) as i64, t.rem_euclid(1_000_000_000) as i64))));
            }
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int
}

/// Sets this thread's wall clock (None: the real one) for the duration of `f`.
pub fn with_clock<T>(t: Option<(i64, i64)>, f: impl FnOnce() -> T) -> T {
    struct Reset(Option<(i64, i64)>);
    impl Drop for Reset {
        fn drop(&mut self) {
            CLOCK.with(|c| c.set(self.0));
        }
    }
    let _r = Reset(CLOCK.with(|c| c.replace(t)));
    f()
}

/// Like `with_clock`, but every look at the clock moves it on by so many
/// nanoseconds. Also returns where the clock stands in the end.
pub fn with_ticking_clock<T>(t: (i64, i64), tick: i64, f: impl FnOnce() -> T) -> (T, (i64, i64)) {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            TICK.with(|c| c.set(0));
        }
    }
    with_clock(Some(t), || {
        let _r = Reset;
        TICK.with(|c| c.set(tick));
        let v = f();
        (v, CLOCK.with(|c| c.get()).unwrap())
    })
}

/// Runs `f` on a fresh thread whose hash-map seed is `seed`: the iteration
/// order of the library's hash maps is then a function of `seed`.
pub fn with_seed<T: Send>(seed: u64, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        let h = s.spawn(move || {
            SEED.with(|c| c.set(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            r.map_err(|_| crate::explore::PANIC_MSG.with(|p| p.borrow_mut().take()))
        });
        match h.join() {
            Ok(Ok(v)) => v,
            Ok(Err(m)) => {
                std::panic::resume_unwind(Box::new(RePanic(m.unwrap_or_default())));
            }
            Err(e) => std::panic::resume_unwind(e),
        }
    })
}
pub struct RePanic(pub String);

// Executor

thread_local! {
    static RT: RefCell<Option<tokio::runtime::Runtime>> = const { RefCell::new(None) };
}

/// The result of running a future to completion under the virtual clock.
pub enum Ran<T> {
    Done(T, Duration),
    /// Not complete after the horizon of virtual time.
    Stuck,
}

pub const HORIZON: Duration = Duration::from_secs(100_000);

/// Runs a future on a single-threaded runtime whose clock is virtual (it jumps
/// to the next timer whenever nothing else can run).
pub fn run<T>(f: impl Future<Output = T>) -> Ran<T> {
    RT.with(|rt| {
        let mut rt = rt.borrow_mut();
        let rt = rt.get_or_insert_with(|| {
            tokio::runtime::Builder::new_current_thread()
                .enable_time()
                .start_paused(true)
                .build()
                .unwrap()
        });
        rt.block_on(async {
            let t0 = tokio::time::Instant::now();
            match tokio::time::timeout(HORIZON, f).await {
                Ok(v) => Ran::Done(v, tokio::time::Instant::now() - t0),
                Err(_) => Ran::Stuck,
            }
        })
    })
}

pub fn run_done<T>(f: impl Future<Output = T>) -> T {
    match run(f) {
        Ran::Done(v, _) => v,
        Ran::Stuck => panic!("future never completed"),
    }
}

// Resolver

#[derive(Clone, Debug)]
pub enum TxtItem {
    Bytes(Vec<u8>),
    Err(io::ErrorKind),
}

#[derive(Clone, Debug)]
pub enum Answer {
    Txt(Vec<TxtItem>),
    Err(io::ErrorKind),
    /// An error carrying a payload instead of a bare kind.
    ErrOther(io::ErrorKind),
    Never,
}

impl Answer {
    pub fn one(s: impl Into<Vec<u8>>) -> Answer {
        Answer::Txt(vec![TxtItem::Bytes(s.into())])
    }
}

/// How the answer is delivered.
#[derive(Clone, Debug, Default)]
pub struct Delivery {
    pub pending: u32, // number of Pending polls (with immediate wake) before the answer
    pub delay_ms: u64,
}

#[derive(Default, Debug)]
pub struct ResState {
    pub answers: BTreeMap<String, (Answer, Delivery)>,
    pub queries: Vec<String>, // lookup_txt calls in order
    pub completed: Vec<String>,
}

#[derive(Clone, Default)]
pub struct Resolver(pub Arc<Mutex<ResState>>);

impl Resolver {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn set(&self, name: &str, a: Answer) -> &Self {
        self.set_d(name, a, Delivery::default())
    }
    pub fn set_d(&self, name: &str, a: Answer, d: Delivery) -> &Self {
        self.0.lock().unwrap().answers.insert(name.to_string(), (a, d));
        self
    }
    pub fn queries(&self) -> Vec<String> {
        self.0.lock().unwrap().queries.clone()
    }
}

struct PendingTimes(u32);
impl Future for PendingTimes {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

impl LookupTxt for Resolver {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;

    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        let domain = domain.to_string();
        let st = self.0.clone();
        let (a, d) = {
            let mut s = st.lock().unwrap();
            s.queries.push(domain.clone());
            s.answers
                .get(&domain)
                .cloned()
                .unwrap_or((Answer::Err(io::ErrorKind::NotFound), Delivery::default()))
        };
        Box::pin(async move {
            PendingTimes(d.pending).await;
            if d.delay_ms > 0 {
                tokio::time::sleep(Duration::from_millis(d.delay_ms)).await;
            }
            let r = match a {
                Answer::Txt(v) => Ok(v
                    .into_iter()
                    .map(|t| match t {
                        TxtItem::Bytes(b) => Ok(b),
                        TxtItem::Err(k) => Err(k.into()),
                    })
                    .collect()),
                Answer::Err(k) => Err(k.into()),
                Answer::ErrOther(k) => Err(io::Error::new(k, "resolver failure")),
                Answer::Never => std::future::pending().await,
            };
            st.lock().unwrap().completed.push(domain);
            r
        })
    }
}

/// Runs the whole staged verification; `feed_after_done`: keep feeding chunks
/// after the verifier said it is done (both must give the same result).
pub fn verify(
    res: &Resolver,
    headers: &HeaderFields,
    config: &Config,
    chunks: &[&[u8]],
    feed_after_done: bool,
) -> Option<Vec<VerificationResult>> {
    let mut v = run_done(Verifier::verify_header(res, headers, config))?;
    for c in chunks {
        let st = v.process_body_chunk(c);
        if st == BodyHasherStance::Done && !feed_after_done {
            break;
        }
    }
    Some(v.finish())
}
