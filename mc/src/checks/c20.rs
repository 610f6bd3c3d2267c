//! C20: stuck and slow lookups stay their own signatures' problem.

use super::c04::hf;
use crate::{
    ctx::Ctx,
    env::{self, Answer, Delivery, Ran, Resolver},
    explore::{viol, Ch, Viol},
    keys::key,
    refm::{
        crypto::H,
        header::Field,
        sign::{f, Spec},
        verify::{compare_all, outcomes, Ans, Cfg, NOKEY},
    },
    util::show,
};
use std::{
    collections::BTreeMap,
    future::Future,
    io::{self, ErrorKind},
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};
use viadkim::verifier::{LookupTxt, VerificationResult, Verifier};

const BODY: &[u8] = b"hello\r\n";

fn hdr() -> Vec<Field> {
    vec![f("From", " me"), f("To", " you")]
}

/// When and what one lookup answers.
#[derive(Clone, Copy, Debug, PartialEq)]
enum When {
    Now,
    Polls(u32),
    At(u64), // ms
    Never,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Key,
    NotFound,
    Failure,
    Timeout,
    Revoked,
}

fn what(w: What, name: usize) -> (Answer, Ans) {
    let k = key(if name % 2 == 0 { "ed1" } else { "rsa1024" });
    let rec = if w == What::Revoked { format!("k={}; p=", if k.is_rsa() { "rsa" } else { "ed25519" }) } else { k.record() };
    match w {
        What::Key | What::Revoked => (Answer::one(rec.clone()), Ans::Txt(vec![Some(rec.into_bytes())])),
        What::NotFound => (Answer::Err(ErrorKind::NotFound), NOKEY),
        What::Failure => (Answer::Err(ErrorKind::ConnectionRefused), Ans::Fail("KeyLookup")),
        What::Timeout => (Answer::Err(ErrorKind::TimedOut), Ans::Fail("Timeout")),
    }
}

/// The name that a signature looks up.
fn name_of(sig: usize) -> Option<usize> {
    match sig {
        9 => None,
        0..=4 => Some(sig),
        10..=14 => Some(sig - 10),
        _ => Some(sig - 100),
    }
}

/// Signatures by name number; name 9: no lookup at all; 10+n: other spelling;
/// 100+n: any name.
fn sigs() -> BTreeMap<usize, Field> {
    let mk = |i: usize, d: &str| {
        let k = key(if i % 2 == 0 { "ed1" } else { "rsa1024" });
        Spec::with(k, H::Sha256, true, true, &["From", "To"], d, &format!("s{i}"), "").make(&hdr(), BODY)
    };
    let mut m: BTreeMap<usize, Field> = (0..5).flat_map(|i| [(i, mk(i, "example.com")), (10 + i, mk(i, "EXAMPLE.com"))]).collect();
    m.extend((0..30).map(|i| (100 + i, mk(i, "example.com"))));
    m.insert(9, f("DKIM-Signature", " v=1; a=rsa-sha256"));
    m
}

fn qname(i: usize) -> String {
    format!("s{i}._domainkey.example.com.")
}

/// The verdict for names that answer as planned within the time limit.
fn expect(fields: &[Field], plan: &[(When, What)], limit: u64, max: usize) -> Vec<crate::refm::verify::Exp> {
    let dns: BTreeMap<String, Ans> = plan
        .iter()
        .enumerate()
        .map(|(i, (when, w))| {
            let late = match when {
                When::Never => true,
                When::At(ms) => *ms > limit,
                _ => false,
            };
            (qname(i), if late { Ans::Fail("Timeout") } else { what(*w, i).1 })
        })
        .collect();
    outcomes(fields, BODY, &Cfg { max, ..Cfg::default() }, &|q| dns.get(q).cloned().unwrap_or(NOKEY))
}

/// Verifies with that plan under the virtual clock.
fn go(ch: &mut Ch, sigs: &BTreeMap<usize, Field>, order: &[usize], plan: &[(When, What)], limit: Duration, seed: u64) -> Result<(), Viol> {
    go_max(ch, sigs, order, plan, limit, seed, 10)
}

fn go_max(ch: &mut Ch, sigs: &BTreeMap<usize, Field>, order: &[usize], plan: &[(When, What)], limit: Duration, seed: u64, max: usize) -> Result<(), Viol> {
    let mut fields: Vec<Field> = order.iter().map(|i| sigs[i].clone()).collect();
    fields.extend(hdr());
    let lim = limit.as_millis().min(u64::MAX as u128) as u64;
    let want = expect(&fields, plan, lim, max);
    let mut cfg = Cfg::default().lib();
    cfg.max_signatures = max;
    cfg.lookup_timeout = limit;
    // Only the first signatures are looked at.
    let used: Vec<usize> = (0..plan.len()).filter(|i| order.iter().take(max).any(|o| name_of(*o) == Some(*i))).collect();
    let r: (Option<Vec<VerificationResult>>, Option<Duration>, Vec<String>) = env::with_seed(seed, || {
        let r = Resolver::new();
        for (i, (when, w)) in plan.iter().enumerate() {
            let a = what(*w, i).0;
            let (a, d) = match when {
                When::Now => (a, Delivery::default()),
                When::Polls(n) => (a, Delivery { pending: *n, delay_ms: 0 }),
                When::At(ms) => (a, Delivery { pending: 0, delay_ms: *ms }),
                When::Never => (Answer::Never, Delivery::default()),
            };
            r.set_d(&qname(i), a, d);
        }
        match env::run(Verifier::verify_header(&r, &hf(&fields), &cfg)) {
            Ran::Stuck => (None, None, r.queries()),
            Ran::Done(None, d) => (None, Some(d), r.queries()),
            Ran::Done(Some(mut v), d) => {
                let _ = v.process_body_chunk(BODY);
                (Some(v.finish()), Some(d), r.queries())
            }
        }
    });
    ch.op(3);
    let id = || format!("headers {order:?} lookups {plan:?} time limit {limit:?} seed {seed}");
    ch.describe(id);
    let Some(took) = r.1 else { return viol(id(), "never finished") };
    if let Some(m) = compare_all(&r.0, &want) {
        return viol(id(), m);
    }
    // The slowest lookup alone bounds the time.
    let slowest = used
        .iter()
        .map(|i| match plan[*i].0 {
            When::At(ms) => ms.min(lim),
            When::Never => lim,
            _ => 0,
        })
        .max()
        .unwrap_or(0);
    ch.label(if slowest == 0 {
        "at once"
    } else if slowest == lim {
        "time limit reached"
    } else {
        "delayed"
    });
    let slack = Duration::from_millis(2);
    let slowest = Duration::from_millis(slowest);
    if took > slowest + slack || took + slack < slowest {
        return viol(id(), format!("took {took:?}, the slowest lookup takes {slowest:?}"));
    }
    // One lookup for each name.
    let mut q = r.2.clone();
    q.sort();
    let mut need: Vec<String> = used.iter().map(|i| qname(*i)).collect();
    need.sort();
    if q != need {
        return viol(id(), format!("lookups {q:?}, expected {need:?}"));
    }
    Ok(())
}

// Lookups completed by hand, without any runtime

#[derive(Default)]
struct Slot {
    name: String,
    answer: Option<io::Result<Vec<io::Result<Vec<u8>>>>>,
    waker: Option<Waker>,
}

#[derive(Clone, Default)]
struct Manual(Arc<Mutex<Vec<Slot>>>);

impl LookupTxt for Manual {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        let mut s = self.0.lock().unwrap();
        let n = s.len();
        s.push(Slot { name: domain.to_string(), ..Default::default() });
        let slots = self.0.clone();
        Box::pin(std::future::poll_fn(move |cx| {
            let mut s = slots.lock().unwrap();
            match s[n].answer.take() {
                Some(a) => Poll::Ready(a),
                None => {
                    s[n].waker = Some(cx.waker().clone());
                    Poll::Pending
                }
            }
        }))
    }
}

struct Count(AtomicU64);
impl Wake for Count {
    fn wake(self: Arc<Self>) {
        self.0.fetch_add(1, Ordering::SeqCst);
    }
}

fn by_hand(ch: &mut Ch, sigs: &BTreeMap<usize, Field>, order: &[usize], answers: &[What], seed: u64) -> Result<(), Viol> {
    let mut fields: Vec<Field> = order.iter().map(|i| sigs[i].clone()).collect();
    fields.extend(hdr());
    let plan: Vec<(When, What)> = answers.iter().map(|w| (When::Now, *w)).collect();
    let want = expect(&fields, &plan, 1, 10);
    // The answers are given in the order chosen here, whatever order the
    // lookups are started in; spurious polls in between.
    let used: Vec<usize> = (0..answers.len()).filter(|i| order.iter().any(|o| name_of(*o) == Some(*i))).collect();
    let mut rest = used.clone();
    let mut steps: Vec<(Option<usize>, bool)> = vec![]; // name to complete, poll afterwards?
    while !rest.is_empty() {
        if ch.devflag() {
            steps.push((None, true));
        }
        let i = rest.remove(ch.pick(rest.len()));
        // Several may complete before the next poll.
        let poll = rest.is_empty() || ch.flag();
        steps.push((Some(i), poll));
    }
    let id = || format!("headers {order:?} answers {answers:?} steps {steps:?} seed {seed}");
    ch.describe(id);
    ch.op(steps.len() as u64 + 2);
    let steps2 = steps.clone();
    let r: Result<Option<Vec<VerificationResult>>, String> = env::with_seed(seed, || {
        let m = Manual::default();
        let cfg = Cfg::default().lib();
        let h = hf(&fields);
        let mut fut = Box::pin(Verifier::verify_header(&m, &h, &cfg));
        let count = Arc::new(Count(AtomicU64::new(0)));
        let waker = Waker::from(count.clone());
        let mut cx = Context::from_waker(&waker);
        let mut r = fut.as_mut().poll(&mut cx);
        for (n, (name, poll)) in steps2.iter().enumerate() {
            if r.is_ready() {
                return Err(format!("finished before step {n}"));
            }
            // All lookups run from the beginning.
            if m.0.lock().unwrap().len() != used.len() {
                return Err(format!("{} of {} lookups started", m.0.lock().unwrap().len(), used.len()));
            }
            if let Some(i) = name {
                let before = count.0.load(Ordering::SeqCst);
                let w = {
                    let mut s = m.0.lock().unwrap();
                    let Some(slot) = s.iter_mut().find(|s| s.name == qname(*i)) else {
                        return Err(format!("no lookup of {}", qname(*i)));
                    };
                    slot.answer = Some(match what(answers[*i], *i).0 {
                        Answer::Txt(v) => Ok(v
                            .into_iter()
                            .map(|t| match t {
                                env::TxtItem::Bytes(b) => Ok(b),
                                env::TxtItem::Err(k) => Err(k.into()),
                            })
                            .collect()),
                        Answer::Err(k) => Err(k.into()),
                        _ => unreachable!(),
                    });
                    slot.waker.take()
                };
                let Some(w) = w else { return Err(format!("nobody waits for {}", qname(*i))) };
                w.wake();
                if count.0.load(Ordering::SeqCst) == before {
                    return Err("the answer wakes nobody".into());
                }
            }
            if *poll {
                r = fut.as_mut().poll(&mut cx);
            }
        }
        let Poll::Ready(v) = r else { return Err("not finished after the last answer".into()) };
        drop(fut);
        Ok(v.map(|mut v| {
            let _ = v.process_body_chunk(BODY);
            v.finish()
        }))
    });
    match r {
        Err(m) => viol(id(), m),
        Ok(got) => match compare_all(&got, &want) {
            Some(m) => viol(id(), format!("{m} {}", show(BODY))),
            None => Ok(()),
        },
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let sigs = sigs();
    let whens = |limit: u64| [When::Now, When::Never, When::At(limit + 1), When::At(1), When::Polls(1), When::At(limit - 1), When::At(limit / 2)];
    ctx.part("three lookups", 0, &|ch| {
        let limit = *ch.of(&[10_000u64, 5_000, 100]);
        let ws = whens(limit);
        let plan: Vec<(When, What)> = (0..3).map(|_| (*ch.of(&ws), What::Key)).collect();
        let order = *ch.of(&[&[0usize, 1, 2][..], &[2, 1, 0], &[1, 0, 2, 11], &[0, 9, 1, 10, 2, 0]]);
        let seed = ch.pick(if t { 8 } else { 4 }) as u64;
        go(ch, &sigs, order, &plan, Duration::from_millis(limit), seed)
    });
    ctx.part("one and two lookups", 0, &|ch| {
        let limit = *ch.of(&[10_000u64, 2, 3, 1000, 60_000, 3_600_000]);
        let ws = [&whens(limit)[..], &[When::At(limit * 10), When::Polls(3)]].concat();
        let n = 1 + ch.pick(2);
        let answers = [What::Key, What::NotFound, What::Failure, What::Timeout, What::Revoked];
        let plan: Vec<(When, What)> = (0..n).map(|_| (*ch.of(&ws), *ch.of(&answers))).collect();
        let order: Vec<usize> = match (n, ch.pick(3)) {
            (1, 0) => vec![0],
            (1, 1) => vec![0, 10, 0],
            (1, _) => vec![9, 0],
            (_, 0) => vec![0, 1],
            (_, 1) => vec![1, 0, 11],
            _ => vec![1, 1, 9, 0],
        };
        let seed = if n > 1 { ch.pick(2) as u64 } else { 0 };
        go(ch, &sigs, &order, &plan, Duration::from_millis(limit), seed)
    });
    ctx.part("five lookups", if t { 4 } else { 3 }, &|ch| {
        let limit = 10_000;
        let ws = whens(limit);
        let plan: Vec<(When, What)> = (0..5).map(|_| (*ch.devof(&ws), What::Key)).collect();
        let seed = ch.pick(3) as u64;
        go(ch, &sigs, &[0, 1, 2, 3, 4], &plan, Duration::from_millis(limit), seed)
    });
    ctx.part("many lookups, every selection stuck", 0, &|ch| {
        // One signature per name; any of the lookups are stuck or slow.
        let n = 6 + ch.pick(if t { 7 } else { 5 });
        let plan: Vec<(When, What)> = (0..n).map(|_| (if ch.flag() { When::Never } else { When::Now }, What::Key)).collect();
        let order: Vec<usize> = (100..100 + n).collect();
        go_max(ch, &sigs, &order, &plan, Duration::from_millis(10_000), 0, n)
    });
    ctx.part("many lookups, staggered", 0, &|ch| {
        let n = *ch.of(if t { &[1usize, 7, 8, 9, 10, 11, 12, 16, 17, 20, 25, 30][..] } else { &[8, 10, 12, 16, 25] });
        // The i-th lookup answers after i or n - i steps, or all but one are stuck.
        let kind = ch.pick(5);
        let one = ch.pick(n);
        let plan: Vec<(When, What)> = (0..n)
            .map(|i| {
                let w = match kind {
                    0 => When::At(1 + 400 * (i as u64)),
                    1 => When::At(1 + 400 * ((n - i) as u64)),
                    2 if i != one => When::Never,
                    3 if i == one => When::Never,
                    3 => When::At(9_999),
                    4 if i != one => When::At(10_001 + i as u64),
                    _ => When::Now,
                };
                (w, What::Key)
            })
            .collect();
        if kind < 2 && one > 0 {
            ch.skip();
            return Ok(());
        }
        let order: Vec<usize> = (100..100 + n).collect();
        let max = *ch.of(&[n, 10]);
        let seed = ch.pick(2) as u64;
        go_max(ch, &sigs, &order, &plan, Duration::from_millis(10_000), seed, max)
    });
    ctx.part("extreme time limits", 0, &|ch| {
        let (limit, ws): (Duration, &[When]) = match ch.pick(4) {
            // Answers that are there at once are not late.
            0 => (Duration::ZERO, &[When::Now, When::Never, When::At(5)]),
            1 => (Duration::from_nanos(1), &[When::Now, When::Never, When::At(5)]),
            2 => (Duration::MAX, &[When::Now, When::At(5), When::At(50_000_000)]),
            _ => (Duration::from_secs(90_000), &[When::Now, When::Never, When::At(50_000_000)]),
        };
        let plan: Vec<(When, What)> = (0..3).map(|_| (*ch.of(ws), What::Key)).collect();
        let seed = ch.pick(2) as u64;
        go(ch, &sigs, &[0, 1, 2], &plan, limit, seed)
    });
    ctx.part("orders of completion", if t { 2 } else { 1 }, &|ch| {
        let n = 1 + ch.pick(if t { 5 } else { 4 });
        let answers: Vec<What> = (0..n).map(|i| if i < 3 && n < 4 { *ch.of(&[What::Key, What::NotFound, What::Failure]) } else { What::Key }).collect();
        let mut order: Vec<usize> = (0..n).collect();
        match ch.pick(3) {
            0 => {}
            1 => order.reverse(),
            _ => {
                order.insert(0, 9);
                order.push(10);
            }
        }
        let seed = ch.pick(if t { 4 } else { 2 }) as u64;
        by_hand(ch, &sigs, &order, &answers, seed)
    });
    ctx.note("a lookup answering in the same millisecond as its time limit is not explored; the time limit applies where a Tokio runtime is current");
    ctx.note("orders of completion: all orders in which outstanding lookups complete, polls between them or not, without a runtime");
}
