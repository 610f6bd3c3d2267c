//! C25: timestamps and expirations equal the request and the clock.

use super::{
    common::{as_sig, field_of, lib_sign, request, PRE},
    world::{txt, World},
};
use crate::{
    ctx::Ctx,
    env,
    explore::{viol, Ch, Viol},
    keys::key,
    refm::{
        crypto::H,
        header::Field,
        sign::{f, QNAME},
        sigparse::{self, P, Sig},
        verify::{show_msg, Cfg},
    },
};
use std::time::Duration;
use viadkim::signer::{SigningError, SigningOutput, Timestamp};

const BODY: &[u8] = b"hello\r\n";
const M: u64 = u64::MAX;
const NOW_MAX: u64 = i64::MAX as u64;

fn hdr() -> Vec<Field> {
    vec![f("From", " me"), f("To", " you")]
}

#[derive(Clone, Copy, Debug)]
struct R {
    ts: Timestamp,
    life: Option<Duration>,
}

fn build(r: &R) -> super::common::Req {
    let mut q = request(key("ed1"), H::Sha256, "example.com", "sel", true, false);
    q.timestamp = r.ts;
    q.valid_duration = r.life;
    q
}

/// The tags of an issued signature for the time (in whole seconds) `now`;
/// `None`: cannot be represented.
fn tags(r: &R, now: u64) -> Option<(Option<u64>, Option<u64>)> {
    let t = match r.ts {
        Timestamp::None => None,
        Timestamp::Now => Some(now),
        Timestamp::Exact(t) => Some(t),
    };
    match r.life {
        None => Some((t, None)),
        Some(d) => t.unwrap_or(now).checked_add(d.as_secs()).map(|x| (t, Some(x))),
    }
}

/// The text says the same as the reported signature, which is returned.
fn read(o: &SigningOutput) -> Result<Sig, String> {
    let rep = as_sig(&o.signature);
    match sigparse::parse(&o.header_value, PRE) {
        P::Ok(s) if (s.t, s.x) == (rep.t, rep.x) => Ok(rep),
        P::Ok(s) => Err(format!("reported t={:?} x={:?}, text {:?} {:?}", rep.t, rep.x, s.t, s.x)),
        other => Err(format!("ill-formed: {other:?}: {}", o.header_value)),
    }
}

fn judge(r: &R, now: u64, got: &Result<SigningOutput, SigningError>) -> Result<Option<Sig>, String> {
    match (got, tags(r, now)) {
        (Ok(o), Some((t, x))) => {
            let s = read(o)?;
            if (s.t, s.x) != (t, x) {
                return Err(format!("t={:?} x={:?}, expected t={t:?} x={x:?}", s.t, s.x));
            }
            Ok(Some(s))
        }
        (Ok(o), None) => {
            // The end of time is as good as later; anything else is wrong.
            let s = read(o)?;
            if s.x != Some(M) || s.t.is_some_and(|t| t >= M) {
                return Err(format!("not representable, but issued t={:?} x={:?}", s.t, s.x));
            }
            Ok(Some(s))
        }
        (Err(e), Some((t, x))) => Err(format!("refused with {e:?}, expected t={t:?} x={x:?}")),
        (Err(SigningError::Overflow), None) => Ok(None),
        (Err(e), None) => Err(format!("not representable, refused with {e:?}")),
    }
}

fn sign_one(r: &R, clock: (i64, i64)) -> Result<Result<SigningOutput, SigningError>, String> {
    match env::with_clock(Some(clock), || lib_sign(&hdr(), vec![build(r)], &[BODY], false)) {
        Ok(mut v) if v.len() == 1 => Ok(v.remove(0)),
        other => Err(format!("refused: {other:?}")),
    }
}

fn verify_at(ch: &mut Ch, o: &SigningOutput, now: u64, allow: (bool, bool), tol: u64) -> Result<Option<String>, Viol> {
    let mut fields = vec![field_of(o)];
    fields.extend(hdr());
    let mut w = World::default();
    w.set(QNAME, txt(&key("ed1").record()));
    let cfg = Cfg { now, tol, allow_expired: allow.0, allow_future: allow.1, ..Default::default() };
    Ok(w.check(ch, &fields, BODY, &cfg, None).map(|m| format!("{} at {now}: {m}", show_msg(&fields, BODY))))
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let small_t: Vec<Timestamp> = [Timestamp::None, Timestamp::Now].into_iter().chain((0..if th { 8 } else { 5 }).map(Timestamp::Exact)).collect();
    let small_l: Vec<Option<Duration>> = std::iter::once(None)
        .chain((1..if th { 8 } else { 5 }).flat_map(|s| [0, 1, 500_000_000, 999_999_999].map(|n| Some(Duration::new(s, n)))))
        .collect();
    let whole = |ch: &mut Ch, r: R, clock: (i64, i64), points: &[u64]| -> Result<(), Viol> {
        let id = || format!("{r:?} clock {}.{:09}", clock.0, clock.1);
        ch.describe(id);
        let now = clock.0.max(0) as u64;
        let o = match sign_one(&r, clock) {
            Ok(o) => o,
            Err(m) => return viol(id(), m),
        };
        ch.op(2);
        let s = match judge(&r, now, &o) {
            Ok(s) => s,
            Err(m) => return viol(id(), m),
        };
        let Some(s) = s else {
            ch.label("refused");
            return Ok(());
        };
        ch.label("issued");
        let o = o.unwrap();
        // Its life.
        let mut at: Vec<u64> = vec![now];
        at.extend(points);
        for v in [s.t, s.x].into_iter().flatten() {
            at.extend([v.saturating_sub(1), v, v.saturating_add(1)]);
        }
        at.retain(|a| *a <= NOW_MAX);
        at.sort();
        at.dedup();
        for a in at {
            if let Some(m) = verify_at(ch, &o, a, (false, false), 0)? {
                return viol(id(), m);
            }
            // Said directly.
            let alive = s.x.is_none_or(|x| a < x) && s.t.is_none_or(|t| a >= t);
            ch.label(if alive { "alive" } else { "not alive" });
        }
        Ok(())
    };
    ctx.part("timestamp x lifetime x clock", 0, &|ch| {
        let r = R { ts: *ch.of(&small_t), life: *ch.of(&small_l) };
        let clock = (ch.pick(if th { 9 } else { 6 }) as i64, *ch.of(&[0i64, 1, 500_000_000, 999_999_999]));
        whole(ch, r, clock, &(0..12).collect::<Vec<_>>())
    });
    ctx.part("extreme values", 0, &|ch| {
        let ts = [0, 1, 1_000_000_000, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, 999_999_999_999, 1_000_000_000_000, NOW_MAX - 1, NOW_MAX, NOW_MAX + 1, M - 2, M - 1, M];
        let modes: Vec<Timestamp> = [Timestamp::None, Timestamp::Now].into_iter().chain(ts.map(Timestamp::Exact)).collect();
        let lives = [1, 2, 59, 86_400, (1 << 32) - 1, 1 << 32, NOW_MAX - 1, NOW_MAX, NOW_MAX + 1, NOW_MAX + 2, M - 1_000_000_000, M - 2, M - 1, M];
        let lives: Vec<Option<Duration>> =
            std::iter::once(None).chain(lives.iter().flat_map(|s| [0, 999_999_999].map(|n| Some(Duration::new(*s, n))))).collect();
        let r = R { ts: *ch.of(&modes), life: *ch.of(&lives) };
        let clocks = [
            (0i64, 0i64),
            (0, 999_999_999),
            (1, 0),
            (1_000_000_000, 0),
            ((1 << 31) - 1, 999_999_999),
            (1 << 32, 0),
            (NOW_MAX as i64 - 1, 0),
            (NOW_MAX as i64, 0),
            (-1, 0),
            (-1, 999_999_999),
            (-1_000_000, 5),
        ];
        let clock = *ch.of(&clocks);
        whole(ch, r, clock, &[0, 1, NOW_MAX])
    });
    ctx.part("every lifetime", 0, &|ch| {
        let ts = *ch.of(&[Timestamp::None, Timestamp::Now, Timestamp::Exact(500)]);
        let life = Some(Duration::new(1 + ch.pick(if th { 5000 } else { 1500 }) as u64, *ch.of(&[0, 999_999_999])));
        whole(ch, R { ts, life }, (1000, 999_999_999), &[])
    });
    ctx.part("zero lifetimes", 0, &|ch| {
        let ts = *ch.of(&[Timestamp::None, Timestamp::Now, Timestamp::Exact(5), Timestamp::Exact(M)]);
        let life = Some(Duration::new(0, *ch.of(&[0, 1, 499_999_999, 500_000_000, 999_999_999])));
        let r = R { ts, life };
        ch.op(1);
        match sign_one(&r, (5, 999_999_999)) {
            Err(_) => Ok(()),
            Ok(Err(_)) => Ok(()),
            Ok(Ok(o)) => match read(&o) {
                // A signature that is not unusable would have to say so.
                Ok(s) => viol(format!("{r:?}"), format!("issued t={:?} x={:?}", s.t, s.x)),
                Err(m) => viol(format!("{r:?}"), m),
            },
        }
    });
    ctx.part("clock moving on", 0, &|ch| {
        // Whatever happens to the clock while signing: an expiration belongs
        // to its own timestamp, and the timestamp to some moment of signing.
        let n = 1 + ch.pick(3);
        let mut rs = vec![];
        for _ in 0..n {
            rs.push(R {
                ts: *ch.of(&[Timestamp::Now, Timestamp::None, Timestamp::Exact(100)]),
                life: *ch.of(&[Some(Duration::new(10, 0)), None, Some(Duration::new(1, 999_999_999))]),
            });
        }
        let start = *ch.of(&[(100i64, 0i64), (99, 999_999_999), (100, 500_000_000)]);
        let tick = *ch.of(&[1i64, 500_000_000, 1_000_000_000, 3_000_000_000]);
        let id = || format!("{rs:?} clock from {start:?} by {tick}");
        ch.describe(id);
        let (out, end) = env::with_ticking_clock(start, tick, || lib_sign(&hdr(), rs.iter().map(build).collect(), &[BODY], false));
        ch.op(2);
        let Ok(out) = out else { return viol(id(), format!("refused {out:?}")) };
        if out.len() != n {
            return viol(id(), format!("{} results", out.len()));
        }
        for (r, o) in rs.iter().zip(&out) {
            let ok = (start.0..=end.0).any(|now| judge(r, now as u64, o).is_ok());
            if !ok {
                return viol(id(), format!("{r:?} between {start:?} and {end:?}: {:?}", o.as_ref().map(|o| &o.header_value)));
            }
        }
        Ok(())
    });
    ctx.part("clock between preparing and signing", 0, &|ch| {
        // The current time is that of signing.
        let ts = *ch.of(&[Timestamp::Now, Timestamp::None, Timestamp::Exact(70)]);
        let r = R { ts, life: *ch.of(&[None, Some(Duration::from_secs(10))]) };
        let (a, b, c) = (*ch.of(&[50i64, 100]), *ch.of(&[60i64, 100]), *ch.of(&[70i64, 100, 110, 40]));
        let id = || format!("{r:?} prepared at {a}, fed at {b}, signed at {c}");
        let s = env::with_clock(Some((a, 0)), || viadkim::signer::Signer::prepare_signing(super::c04::hf(&hdr()), vec![build(&r)]));
        let Ok(mut s) = s else { return viol(id(), "refused") };
        env::with_clock(Some((b, 0)), || {
            let _ = s.process_body_chunk(BODY);
        });
        let mut out = env::with_clock(Some((c, 0)), || env::run_done(s.sign()));
        ch.op(3);
        let o = out.remove(0);
        // Any moment between the first and the last call would do.
        let (lo, hi) = (a.min(b).min(c), a.max(b).max(c));
        if !(lo..=hi).any(|now| judge(&r, now as u64, &o).is_ok()) {
            return viol(id(), format!("{:?}", o.map(|o| o.header_value)));
        }
        Ok(())
    });
    ctx.part("several requests", 0, &|ch| {
        // Each has its own times.
        let modes = [Timestamp::None, Timestamp::Now, Timestamp::Exact(7), Timestamp::Exact(M)];
        let lives = [None, Some(Duration::from_secs(3)), Some(Duration::from_secs(M))];
        let n = 2 + usize::from(th && ch.flag());
        let rs: Vec<R> = (0..n).map(|_| R { ts: *ch.of(&modes), life: *ch.of(&lives) }).collect();
        let id = || format!("{rs:?}");
        let out = env::with_clock(Some((1000, 1)), || lib_sign(&hdr(), rs.iter().map(build).collect(), &[BODY], false));
        ch.op(2);
        let Ok(out) = out else { return viol(id(), format!("refused {out:?}")) };
        for (r, o) in rs.iter().zip(&out) {
            if let Err(m) = judge(r, 1000, o) {
                return viol(id(), m);
            }
        }
        Ok(())
    });
    ctx.part("as seen by a tolerant verifier", 0, &|ch| {
        let r = R { ts: *ch.of(&[Timestamp::Now, Timestamp::None]), life: Some(Duration::from_secs(20)) };
        let Ok(Ok(o)) = sign_one(&r, (1000, 0)) else { return viol(format!("{r:?}"), "refused") };
        let tol = *ch.of(&[0, 1, 5, 300]);
        let allow = (ch.flag(), ch.flag());
        let now = 690 + ch.pick(650) as u64;
        match verify_at(ch, &o, now, allow, tol)? {
            None => Ok(()),
            Some(m) => viol(format!("{r:?} tolerance {tol} at {now}"), m),
        }
    });
    ctx.note("the realtime clock is under the explorer's control (interposed clock_gettime), at rest or moving with every look at it");
    ctx.note("a lifetime whose end is past 2^64-1 may be refused or end at 2^64-1");
}
