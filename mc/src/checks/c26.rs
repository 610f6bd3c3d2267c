//! C26: sessions depend on their own inputs only, may be interleaved at will,
//! handed from thread to thread, and abandoned at any point.

use super::{
    c01::CLOCK,
    c04::hf,
    c10,
    common::*,
    reqgen::ReqSpec,
    world::{txt, World},
};
use crate::{
    ctx::Ctx,
    env::{self, Delivery, Resolver},
    explore::{viol, Ch, Viol},
    keys::key,
    refm::{
        crypto::H,
        header::Field,
        sign::{f, Spec},
        verify::{self, show_msg, Ans, Cfg, Exp},
    },
};
use std::{
    future::Future,
    pin::Pin,
    sync::Arc,
    task::{Context, Poll, Waker},
    time::Duration,
};
use viadkim::{
    crypto::SigningKey,
    header::HeaderFields,
    signer::{BodyLength, RequestError, Signer, SigningError, SigningOutput, Timestamp},
    verifier::{Config, VerificationResult, Verifier},
};

const BODY: &[u8] = b"hello \t\r\n\r\n there\r\n";

fn base() -> Vec<Field> {
    vec![f("From", " me@example.com"), f("To", " you@example.org"), f("Subject", " s")]
}

enum What {
    Verify { w: World, cfg: Cfg, config: Config, want: Vec<Exp> },
    Sign { specs: Vec<ReqSpec>, want: Vec<Result<String, String>> },
}

/// One session: its inputs and what has to come of it.
pub struct Kind {
    pub name: &'static str,
    fields: Vec<Field>,
    headers: HeaderFields,
    body: Vec<u8>,
    /// Where the body is cut in two.
    cut: usize,
    clock: i64,
    what: What,
}

type Sf<'a> = Pin<Box<dyn Future<Output = Vec<Result<SigningOutput, SigningError>>> + 'a>>;
enum St<'a> {
    Start,
    Header(Pin<Box<dyn Future<Output = Option<Verifier>> + 'a>>),
    Body(Box<Verifier>, usize),
    SBody(Box<Signer<Arc<SigningKey>>>, usize),
    Sign(Sf<'a>),
    Verified(Option<Vec<VerificationResult>>),
    Signed(Signed),
}

/// Lets a session step from any thread. (The library's own types are meant to
/// be sent; the boxed futures here merely do not say so.)
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}

pub struct Sess<'a> {
    k: &'a Kind,
    res: &'a Resolver,
    st: St<'a>,
    polls: u32,
}

impl<'a> Sess<'a> {
    pub fn new(k: &'a Kind, res: &'a Resolver) -> Self {
        Sess { k, res, st: St::Start, polls: 0 }
    }
    pub fn done(&self) -> bool {
        matches!(self.st, St::Verified(_) | St::Signed(_))
    }
    fn chunk(&self, i: usize) -> &'a [u8] {
        let (a, b) = self.k.body.split_at(self.k.cut);
        [a, b][i]
    }
    /// One step: one call into the library.
    pub fn step(&mut self) {
        let k = self.k;
        env::with_clock(Some((k.clock, 5)), || self.step_())
    }
    fn step_(&mut self) {
        let k = self.k;
        let mut cx = Context::from_waker(Waker::noop());
        self.st = match std::mem::replace(&mut self.st, St::Start) {
            St::Start => match &k.what {
                What::Verify { config, .. } => {
                    St::Header(Box::pin(Verifier::verify_header(self.res, &k.headers, config)))
                }
                What::Sign { specs, .. } => {
                    match Signer::prepare_signing(k.headers.clone(), specs.iter().map(|s| s.build())) {
                        Ok(s) => St::SBody(Box::new(s), 0),
                        Err(e) => St::Signed(Err(e)),
                    }
                }
            },
            St::Header(mut h) => {
                self.polls += 1;
                match h.as_mut().poll(&mut cx) {
                    Poll::Ready(None) => St::Verified(None),
                    Poll::Ready(Some(v)) => St::Body(Box::new(v), 0),
                    Poll::Pending => St::Header(h),
                }
            }
            St::Body(v, 2) => St::Verified(Some(v.finish())),
            St::Body(mut v, i) => {
                let _ = v.process_body_chunk(self.chunk(i));
                St::Body(v, i + 1)
            }
            St::SBody(s, 2) => St::Sign(Box::pin(s.sign())),
            St::SBody(mut s, i) => {
                let _ = s.process_body_chunk(self.chunk(i));
                St::SBody(s, i + 1)
            }
            St::Sign(mut x) => {
                self.polls += 1;
                match x.as_mut().poll(&mut cx) {
                    Poll::Ready(v) => St::Signed(Ok(v)),
                    Poll::Pending => St::Sign(x),
                }
            }
            done => done,
        };
        if self.polls > 10_000 {
            panic!("session {:?} never completes", k.name);
        }
    }
    fn finish(&mut self) {
        while !self.done() {
            self.step();
        }
    }
    pub fn verdict(&self) -> Option<String> {
        let q = self.res.queries();
        verdict(self.k, &self.st, &q)
    }
}

fn texts(s: &Signed) -> Vec<Result<String, String>> {
    match s {
        Err(e) => vec![Err(format!("{e:?}"))],
        Ok(v) => v
            .iter()
            .map(|o| o.as_ref().map(|o| o.format_header().to_string()).map_err(|e| format!("{e:?}")))
            .collect(),
    }
}

fn verdict(k: &Kind, st: &St, queries: &[String]) -> Option<String> {
    match (&k.what, st) {
        (What::Verify { want, .. }, St::Verified(got)) => verify::compare_all(got, want).or_else(|| {
            let mut need: Vec<&String> = want.iter().filter_map(|w| w.query.as_ref()).collect();
            need.sort();
            need.dedup();
            let mut q: Vec<&String> = queries.iter().collect();
            q.sort();
            (q != need).then(|| format!("queries {q:?}, expected {need:?}"))
        }),
        (What::Sign { want, .. }, St::Signed(s)) => {
            let got = texts(s);
            (got != *want).then(|| format!("signed {got:?}\nexpected {want:?}"))
        }
        _ => Some("not complete".into()),
    }
    .map(|m| format!("session {:?}: {m}", k.name))
}

pub fn kinds() -> Vec<Kind> {
    let mut ks: Vec<Kind> = vec![];
    let n = &["From", "To"];
    let (ed, rsa) = (key("ed1"), key("rsa1024"));
    let fd = base();
    let mk = |k, hr, br, d: &str, s: &str, x: &str, b: &[u8]| Spec::with(k, H::Sha256, hr, br, n, d, s, x).make(&base(), b);
    let sig = mk(ed, false, false, "example.com", "sel", "", BODY);
    let world = || {
        let mut w = World::default();
        w.set("sel._domainkey.example.com.", txt(&ed.record()));
        w.set("rsa._domainkey.example.com.", txt(&rsa.record()));
        w
    };
    let with = |s: &[&Field], rest: &[Field]| s.iter().map(|x| (*x).clone()).chain(rest.iter().cloned()).collect::<Vec<_>>();
    let mut ver = |name, fields: Vec<Field>, b: &[u8], w: World, cfg: Cfg, fixed: bool| {
        let mut config = cfg.lib();
        if !fixed {
            config.fixed_system_time = None;
        }
        let want = w.expect(&fields, b, &cfg);
        ks.push(Kind {
            name,
            headers: hf(&fields),
            fields,
            body: b.to_vec(),
            cut: 0,
            clock: cfg.now as i64,
            what: What::Verify { w, cfg, config, want },
        });
    };
    let c = Cfg::default;
    let one = |a: Ans| {
        let mut w = World::default();
        w.set("sel._domainkey.example.com.", a);
        w
    };
    ver("good", with(&[&sig], &fd), BODY, world(), c(), true);
    ver("other key published", with(&[&sig], &fd), BODY, one(txt(&key("ed2").record())), c(), true);
    ver("revoked", with(&[&sig], &fd), BODY, one(txt("k=ed25519; p=")), c(), true);
    ver("no key", with(&[&sig], &fd), BODY, World::default(), c(), true);
    ver("time-out", with(&[&sig], &fd), BODY, one(Ans::Fail("Timeout")), c(), true);
    ver("other body", with(&[&sig], &fd), b"hello \t\r\n\r\n theRe\r\n", world(), c(), true);
    let mut fd2 = base();
    fd2[1].1 = b" them@example.org".to_vec();
    ver("other field", with(&[&sig], &fd2), BODY, world(), c(), true);
    ver("required name missing", with(&[&sig], &fd), BODY, world(), Cfg { required: vec!["Subject".into()], ..c() }, true);
    let r = mk(rsa, true, true, "example.com", "rsa", "", BODY);
    ver("two signatures", with(&[&r, &sig], &fd), BODY, world(), c(), true);
    let lim = Spec::with(ed, H::Sha256, true, true, n, "Example.com", "SEL", " l=5;").limit(5).make(&base(), BODY);
    ver("limited", with(&[&lim], &fd), BODY, world(), c(), false);
    ver("limited, truncation forbidden", with(&[&lim], &fd), BODY, world(), Cfg { forbid_unsigned: true, ..c() }, true);
    let x = mk(ed, true, true, "example.com", "sel", " t=1000000; x=1001000;", BODY);
    ver("within its lifetime", with(&[&x], &fd), BODY, world(), Cfg { now: 1_000_500, tol: 0, ..c() }, false);
    ver("expired", with(&[&x], &fd), BODY, world(), Cfg { now: 1_001_500, tol: 0, ..c() }, false);
    ver("no signature", fd.clone(), BODY, world(), c(), true);
    ver("other record, same record text", with(&[&sig], &fd), BODY, one(txt(&format!("{}; t=s", ed.record()))), c(), true);

    let mut sign = |name, fields: Vec<Field>, b: &[u8], clock: i64, specs: Vec<ReqSpec>| {
        ks.push(Kind { name, headers: hf(&fields), fields, body: b.to_vec(), cut: 0, clock, what: What::Sign { specs, want: vec![] } });
    };
    let p = |k: &str| ReqSpec::plain(key(k));
    let at = CLOCK as i64;
    sign("sign", fd.clone(), BODY, at, vec![p("ed1")]);
    sign("sign with another key", fd.clone(), BODY, at, vec![p("ed2")]);
    sign("sign another body", fd.clone(), b"hello \t\r\n\r\n theRe\r\n", at, vec![p("ed1")]);
    sign("sign another field", fd2.clone(), BODY, at, vec![p("ed1")]);
    sign("sign now", fd.clone(), BODY, at, vec![ReqSpec { ts: Timestamp::Now, vd: Some(Duration::from_secs(60)), ..p("ed1") }]);
    sign("sign later", fd.clone(), BODY, at + 1000, vec![ReqSpec { ts: Timestamp::Now, vd: Some(Duration::from_secs(60)), ..p("ed1") }]);
    sign("sign twice", fd.clone(), BODY, at, vec![
        ReqSpec { s: "rsa".into(), ..p("rsa1024") },
        ReqSpec { br: true, bl: BodyLength::MessageContent, width: 40, copy: true, ..p("ed1") },
    ]);
    sign("sign and fail", fd.clone(), BODY, at, vec![
        ReqSpec { bl: BodyLength::Exact(1000), ..p("ed1") },
        ReqSpec { hr: false, ..p("ed1") },
    ]);
    sign("sign relaxed", fd.clone(), BODY, at, vec![ReqSpec { br: true, hr: false, ..p("ed1") }]);
    sign("sign relaxed, one line more", fd.clone(), b"hello \t\r\n\r\n\r\n there\r\n", at, vec![ReqSpec { br: true, hr: false, ..p("ed1") }]);
    sign("not signed", fd.clone(), BODY, at, vec![ReqSpec { sel: Some(vec!["To".into()]), ..p("ed1") }]);
    // White space, line ends and empty lines are pending at the cut.
    for (i, k) in ks.iter_mut().enumerate() {
        k.cut = [11, 7, 10, 8, 9, 6, 0][i % 7];
        // These end in the same chunk.
        if let Some(n) = [("sign", 11), ("sign relaxed", 11), ("two signatures", 11), ("sign relaxed, one line more", 13)].iter().find(|x| x.0 == k.name) {
            k.cut = n.1;
        }
    }
    ks
}

/// What a signing session gives on its own: has to be right by itself.
pub fn settle(ks: &mut [Kind]) -> Result<(), Viol> {
    for k in ks.iter_mut() {
        let What::Sign { specs, want } = &k.what else { continue };
        debug_assert!(want.is_empty());
        let out = env::with_clock(Some((k.clock, 5)), || lib_sign(&k.fields, specs.iter().map(|s| s.build()).collect(), &[&k.body], true));
        let t = texts(&out);
        match (k.name, &out) {
            ("not signed", Err(RequestError::FromHeaderNotSigned)) => {}
            (_, Ok(v)) if v.len() == specs.len() => {
                for (s, o) in specs.iter().zip(v) {
                    match o {
                        Ok(o) => {
                            let mut want = c10::expected(s, &k.fields, &k.body, k.clock as u64);
                            want.b = o.signature.signature_data.to_vec();
                            let mut got = as_sig(&o.signature);
                            got.ext.sort();
                            if got != want {
                                return viol(k.name, format!("{got:?} expected {want:?}"));
                            }
                            let mut w = World::default();
                            w.set(&s.query(), txt(&s.key.record()));
                            let m: Vec<Field> = std::iter::once(field_of(o)).chain(k.fields.iter().cloned()).collect();
                            let cfg = Cfg { forbidden: vec![], now: k.clock as u64, ..Cfg::default() };
                            match &w.expect(&m, &k.body, &cfg)[0].status {
                                Some(x) if x.contains("success") => {}
                                x => return viol(k.name, format!("signature issued alone: {x:?}")),
                            }
                        }
                        Err(_) if matches!(s.bl, BodyLength::Exact(1000)) => {}
                        Err(e) => return viol(k.name, format!("{e:?}")),
                    }
                }
            }
            (_, e) => return viol(k.name, format!("{e:?}")),
        }
        let What::Sign { want, .. } = &mut k.what else { unreachable!() };
        *want = t;
    }
    Ok(())
}

impl Kind {
    /// So many steps are interleaved; should there be more, they come last.
    fn slots(&self) -> usize {
        match self.what {
            What::Verify { .. } => 6,
            What::Sign { .. } => 5,
        }
    }
    pub fn resolver(&self) -> Resolver {
        match &self.what {
            What::Verify { w, .. } => {
                let mut w = w.clone();
                // One name is answered at once, the other one later.
                if let Some(a) = w.dns.get_mut("sel._domainkey.example.com.") {
                    a.1 = Delivery { pending: 1, delay_ms: 0 };
                }
                w.resolver()
            }
            What::Sign { .. } => Resolver::new(),
        }
    }
}

/// Runs `f`, which steps sessions, within a runtime.
pub fn within<T>(f: impl FnOnce() -> T) -> T {
    env::run_done(async { f() })
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let mut ks = kinds();
    let e = settle(&mut ks);
    let ks = &ks;
    ctx.part("each alone", 0, &|ch| {
        ch.op(1);
        if let Err(e) = &e {
            return viol(e.key.clone(), e.detail.clone());
        }
        let k = ch.of(ks);
        let res = k.resolver();
        let mut s = Sess::new(k, &res);
        within(|| s.finish());
        ch.describe(|| format!("{} -> {}", k.name, show_msg(&k.fields, &k.body)));
        s.verdict().map_or(Ok(()), |m| viol(k.name, m))
    });
    if e.is_err() {
        return;
    }
    ctx.part("one after the other", 0, &|ch| {
        let n = 2 + ch.pick(if t { 3 } else { 2 });
        let seq: Vec<&Kind> = (0..n).map(|_| ch.of(ks)).collect();
        let id = || seq.iter().map(|k| k.name).collect::<Vec<_>>().join(", then ");
        ch.describe(id);
        for k in &seq {
            let res = k.resolver();
            let mut s = Sess::new(k, &res);
            within(|| s.finish());
            ch.op(5);
            if let Some(m) = s.verdict() {
                return viol(id(), m);
            }
        }
        Ok(())
    });
    ctx.part("every interleaving of two", 0, &|ch| {
        let (a, b) = (ch.pick(ks.len()), ch.pick(ks.len()));
        if b < a {
            ch.skip();
            return Ok(());
        }
        interleave(ch, &[&ks[a], &ks[b]], false)
    });
    let some: Vec<&Kind> = ks
        .iter()
        .filter(|k| ["good", "other key published", "no key", "two signatures", "other body", "sign", "sign with another key", "sign twice"].contains(&k.name))
        .collect();
    ctx.part("three, few switches", if t { 4 } else { 2 }, &|ch| {
        let v: Vec<&Kind> = (0..3).map(|_| *ch.of(&some)).collect();
        interleave(ch, &v, true)
    });
    if t {
        ctx.part("any three, very few switches", 2, &|ch| {
            let v: Vec<&Kind> = (0..3).map(|_| ch.of(ks)).collect();
            interleave(ch, &v, true)
        });
    }
    ctx.part("abandoned at any point", 0, &|ch| {
        // Any number of steps of one or two sessions, which are then dropped.
        let gone: Vec<(&Kind, usize)> = (0..1 + ch.pick(if t { 2 } else { 1 })).map(|_| (ch.of(ks), ch.pick(7))).collect();
        let k = ch.of(ks);
        let id = || {
            let g: Vec<String> = gone.iter().map(|(k, n)| format!("{} left after {n} steps", k.name)).collect();
            format!("{}, then {}", g.join(", "), k.name)
        };
        ch.describe(id);
        for (k, n) in &gone {
            let res = k.resolver();
            within(|| {
                let mut s = Sess::new(k, &res);
                (0..*n).for_each(|_| s.step());
            });
            ch.op(*n as u64);
        }
        let res = k.resolver();
        let mut s = Sess::new(k, &res);
        within(|| s.finish());
        ch.op(5);
        s.verdict().map_or(Ok(()), |m| viol(id(), m))
    });
    ctx.part("from thread to thread", 0, &|ch| {
        // Every step is made by this or by another thread.
        let k = ch.of(ks);
        let res = k.resolver();
        let mut s = Sess::new(k, &res);
        let mut trace = String::new();
        for _ in 0..k.slots() {
            if ch.flag() {
                trace.push('b');
                let p = Any(&mut s);
                std::thread::scope(|t| {
                    t.spawn(move || {
                        let p = p;
                        p.0.step()
                    })
                    .join()
                })
                .map_err(|_| Viol { key: format!("{} steps {trace}", k.name), detail: "panic in the other thread".into() })?;
            } else {
                trace.push('a');
                s.step();
            }
            ch.op(1);
        }
        s.finish();
        let id = || format!("{} steps {trace}", k.name);
        ch.describe(id);
        s.verdict().map_or(Ok(()), |m| viol(id(), m))
    });
    ctx.part("same resolver, changing answers", 0, &|ch| {
        // The zone changes from one verification to the next, or while one is
        // under way; everything else is the very same object.
        let ed = key("ed1");
        let sel = "sel._domainkey.example.com.";
        let answers = [
            txt(&ed.record()),
            txt(&key("ed2").record()),
            txt("k=ed25519; p="),
            Ans::Fail("NoKeyFound"),
            Ans::Fail("Timeout"),
            Ans::Fail("KeyLookup"),
            txt("garbage"),
            txt(&format!("{}; h=sha256; t=s:y", ed.record())),
        ];
        let k = &ks[0];
        let What::Verify { cfg, .. } = &k.what else { unreachable!() };
        let res = Resolver::new();
        let n = 2 + ch.pick(if t { 3 } else { 2 });
        let mut names = vec![];
        let seq: Vec<(&Ans, bool)> = (0..n).map(|i| (ch.of(&answers), i > 0 && ch.flag())).collect();
        for (a, late) in seq {
            names.push(format!("{a:?}"));
            let mut w = World::default();
            w.set(sel, a.clone());
            let set = || {
                res.set_d(sel, super::world::answer(a), Delivery { pending: 1, delay_ms: 0 });
            };
            let before = res.queries().len();
            let mut s = Sess::new(k, &res);
            if late {
                // An abandoned one has just seen the previous answer.
                let mut g = Sess::new(k, &res);
                within(|| (0..3).for_each(|_| g.step()));
            }
            set();
            within(|| s.finish());
            ch.op(5);
            let q = res.queries().len() - before;
            let St::Verified(got) = &s.st else { unreachable!() };
            let m = verify::compare_all(got, &w.expect(&k.fields, BODY, cfg));
            if m.is_some() || q != 1 + late as usize {
                return viol(names.join(" then "), format!("{q} queries, {}", m.unwrap_or_default()));
            }
        }
        ch.describe(|| names.join(" then "));
        Ok(())
    });
    ctx.note("a step is one call of the API or one poll of its futures; the library has no finer point at which control leaves it");
}

fn interleave(ch: &mut Ch, v: &[&Kind], few: bool) -> Result<(), Viol> {
    let res: Vec<Resolver> = v.iter().map(|k| k.resolver()).collect();
    let mut ss: Vec<Sess> = v.iter().zip(&res).map(|(k, r)| Sess::new(k, r)).collect();
    let mut trace = String::new();
    let mut left: Vec<usize> = v.iter().map(|k| k.slots()).collect();
    within(|| {
        let mut cur = 0;
        loop {
            let alive: Vec<usize> = (0..ss.len()).map(|i| (cur + i) % ss.len()).filter(|&i| left[i] > 0).collect();
            if alive.is_empty() {
                break;
            }
            // Without a deviation, the current one goes on.
            let j = if alive.len() == 1 {
                0
            } else if few {
                ch.dev(alive.len())
            } else {
                ch.pick(alive.len())
            };
            cur = alive[j];
            left[cur] -= 1;
            trace.push((b'a' + cur as u8) as char);
            ss[cur].step();
            ch.op(1);
        }
        ss.iter_mut().for_each(|s| s.finish());
    });
    let id = || format!("{} steps {trace}", v.iter().map(|k| k.name).collect::<Vec<_>>().join(" | "));
    ch.describe(id);
    for s in &ss {
        if let Some(m) = s.verdict() {
            return viol(id(), m);
        }
    }
    Ok(())
}
