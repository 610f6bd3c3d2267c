//! C05: body hashes for any mix of registrations.

use super::{
    c04::hf,
    common::*,
    world::{txt, World},
};
use crate::{
    ctx::Ctx,
    env,
    explore::{viol, Ch, Viol},
    keys::key,
    refm::{
        body,
        crypto::{self, H},
        header::Field,
        sign::{f, Spec, QNAME},
        verify::{compare_all, Cfg},
    },
    util::*,
};
use viadkim::{
    crypto::HashAlgorithm,
    message_hash::{BodyHashError, BodyHasherBuilder, BodyHasherStance},
};

#[derive(Clone, Copy, PartialEq, Debug)]
struct Reg {
    len: Option<usize>,
    h: H,
    relaxed: bool,
}

fn lib_h(h: H) -> HashAlgorithm {
    match h {
        H::Sha256 => HashAlgorithm::Sha256,
        #[cfg(feature = "pre-rfc8301")]
        H::Sha1 => HashAlgorithm::Sha1,
        #[cfg(not(feature = "pre-rfc8301"))]
        H::Sha1 => unreachable!(),
    }
}

type Outcome = Result<(Vec<u8>, usize), &'static str>;

fn expected(r: &Reg, b: &[u8], strict: bool) -> Outcome {
    let mut c = body::canon(r.relaxed, b);
    if let Some(n) = r.len {
        if c.len() < n {
            return Err("insufficient");
        }
        if c.len() > n && strict {
            return Err("truncated");
        }
        c.truncate(n);
    }
    Ok((crypto::digest(r.h, &c), c.len()))
}

/// `stop`: no more chunks once the hasher is done. Returns the outcomes and
/// after how many chunks it said so.
fn actual(regs: &[Reg], strict: bool, chunks: &[&[u8]], stop: bool) -> (Vec<Option<Outcome>>, Option<usize>) {
    let mut bld = BodyHasherBuilder::new(strict);
    for r in regs {
        bld.register_canonicalization(r.len, lib_h(r.h), ca(r.relaxed));
    }
    let mut hs = bld.build();
    let mut done = None;
    for (i, c) in chunks.iter().enumerate() {
        let st = hs.hash_chunk(c);
        if st == BodyHasherStance::Done && done.is_none() {
            done = Some(i + 1);
        }
        if st == BodyHasherStance::Done && stop {
            break;
        }
    }
    let res = hs.finish();
    let out = regs
        .iter()
        .map(|r| {
            res.get(&(r.len, lib_h(r.h), ca(r.relaxed))).map(|o| match o {
                Ok((h, n)) => Ok((h.to_vec(), *n)),
                Err(BodyHashError::InsufficientInput) => Err("insufficient"),
                Err(BodyHashError::InputTruncated) => Err("truncated"),
            })
        })
        .collect();
    (out, done)
}

fn judge(ch: &mut Ch, regs: &[Reg], strict: bool, chunks: &[&[u8]], seed: Option<u64>) -> Result<(), Viol> {
    let b = chunks.concat();
    if body::ambiguous(&b) && regs.iter().any(|r| r.relaxed) {
        ch.skip();
        return Ok(());
    }
    let id = || format!("registrations {regs:?} strict={strict} chunks={} seed={seed:?}", show_chunks(chunks));
    for stop in [false, true] {
        let (got, done) = match seed {
            None => actual(regs, strict, chunks, stop),
            Some(s) => env::with_seed(s, || actual(regs, strict, chunks, stop)),
        };
        ch.op(chunks.len() as u64 + 3);
        if stop {
            ch.label(match done {
                None => "more input wanted to the end",
                Some(n) if n == chunks.len() => "done with the last chunk",
                _ => "done early",
            });
        }
        for (r, g) in regs.iter().zip(&got) {
            let w = expected(r, &b, strict);
            if g.as_ref() != Some(&w) {
                let f = |o: &Outcome| match o {
                    Ok((_, n)) => format!("a hash of {n} bytes"),
                    Err(e) => e.to_string(),
                };
                return viol(
                    id(),
                    format!(
                        "{r:?}: {}, expected {} (stopping when done: {stop})",
                        g.as_ref().map_or("no result".into(), f),
                        f(&w)
                    ),
                );
            }
            match w {
                Ok(_) => {}
                Err(e) => ch.label(e),
            }
        }
    }
    ch.describe(id);
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let hs: &[H] = if PRE { &[H::Sha256, H::Sha1] } else { &[H::Sha256] };
    let toks: &[&[u8]] = &[b"\r\n", b"a", b" ", b"\r", b"\n"];
    let lens = [None, Some(0), Some(1), Some(2), Some(3), Some(5), Some(usize::MAX)];
    ctx.part("one registration, every chunking", 0, &|ch| {
        let r = Reg { len: *ch.of(&lens), h: *ch.of(hs), relaxed: ch.flag() };
        let strict = ch.flag();
        let b = string(ch, if PRE { 3 } else if t { 6 } else { 5 }, toks);
        let c = chunks(ch, &b, false);
        judge(ch, &[r], strict, &c, None)
    });
    ctx.part("two registrations", 0, &|ch| {
        let lens = &lens[..if t { 7 } else { 6 }];
        let mut regs = vec![];
        for _ in 0..2 {
            regs.push(Reg { len: *ch.of(lens), h: *ch.of(hs), relaxed: ch.flag() });
        }
        let strict = ch.flag();
        let b = string(ch, if PRE { 2 } else if t { 4 } else { 3 }, toks);
        let c = chunks(ch, &b, false);
        judge(ch, &regs, strict, &c, None)
    });
    ctx.part("two registrations, empty chunks", 0, &|ch| {
        let mut regs = vec![];
        for _ in 0..2 {
            regs.push(Reg { len: *ch.of(&[None, Some(0), Some(2)]), h: hs[hs.len() - 1], relaxed: ch.flag() });
        }
        let strict = ch.flag();
        let b = string(ch, 2, toks);
        let c = chunks(ch, &b, true);
        judge(ch, &regs, strict, &c, None)
    });
    ctx.part("three and four registrations", 0, &|ch| {
        let n = 3 + ch.pick(2);
        let mut regs: Vec<Reg> = vec![];
        for _ in 0..n {
            let r = Reg { len: *ch.of(&[None, Some(0), Some(3)]), h: *ch.of(hs), relaxed: ch.flag() };
            if regs.contains(&r) {
                ch.skip();
                return Ok(());
            }
            regs.push(r);
        }
        let strict = ch.flag();
        let bs: &[&[u8]] = &[b"", b"a", b"a \r\n", b" b\r\n\r\nc\r\n\r\n", b"abcdef", b"\r\n\r\n\r\na"];
        let b = ch.of(bs);
        let c = match ch.pick(3) {
            0 => vec![&b[..]],
            1 => b.chunks(1).collect(),
            _ => b.chunks(3).collect(),
        };
        judge(ch, &regs, strict, &c, None)
    });
    ctx.part("all registrations at once, order of the hash map", 0, &|ch| {
        // The order in which registrations are served is a function of the seed.
        let seed = ch.pick(if t { 400 } else { 60 }) as u64;
        let mut regs = vec![];
        for h in hs {
            for relaxed in [false, true] {
                for len in [None, Some(0), Some(2), Some(5), Some(9)] {
                    regs.push(Reg { len, h: *h, relaxed });
                }
            }
        }
        let strict = ch.flag();
        let bs: &[&[u8]] = &[b"", b"a \r\n\r\n", b" b\r\n\r\nc \t d\r\n\r\n"];
        let b = *ch.of(bs);
        let c = match ch.pick(3) {
            0 => vec![b],
            1 => b.chunks(1).collect(),
            _ => b.chunks(4).collect(),
        };
        judge(ch, &regs, strict, &c, Some(seed))
    });
    let ns = crate::util::sizes(if t { 300 } else { 40 }, 70_000);
    ctx.part("long bodies at buffer and limit edges", 0, &|ch| {
        let n = *ch.of(&ns);
        let mut b = match ch.pick(4) {
            0 => vec![b'x'; n],
            1 => b"ab ".iter().cycle().take(n).copied().collect(),
            2 => b"\r\n".iter().cycle().take(n).copied().collect(),
            _ => b"line \t of text\r\n".iter().cycle().take(n).copied().collect::<Vec<u8>>(),
        };
        if ch.flag() {
            b.extend(b"\r\nend\r\n");
        }
        let relaxed = ch.flag();
        let clen = body::canon(relaxed, &b).len();
        let len = match ch.pick(6) {
            0 => None,
            1 => Some(clen),
            2 => Some(clen.saturating_sub(1)),
            3 => Some(clen + 1),
            4 => Some(clen / 2),
            _ => Some(clen.saturating_sub(2)),
        };
        let strict = ch.flag();
        let size = *ch.of(&[b.len().max(1), 1000, 64, 7]);
        let c: Vec<&[u8]> = b.chunks(size).collect();
        let regs = [Reg { len, h: hs[hs.len() - 1], relaxed }, Reg { len: None, h: H::Sha256, relaxed: !relaxed }];
        judge(ch, &regs, strict, &c, None)
    });

    // The verifier passes the body on, and what it says about wanting more.
    let ed = key("ed1");
    let base = [f("From", " me"), f("To", " you")];
    let bodies: &[&[u8]] = &[b"abc", b"", b"a ", b"\r\n", b"a\r\nb", b"\r\n\r\na", b"ab\r\n\r\n", b" line one\r\nline  two\r\n\r\n"];
    let made: Vec<Vec<(Option<usize>, bool, Field)>> = bodies
        .iter()
        .map(|b| {
            let mut v = vec![];
            for relaxed in [false, true] {
                let c = body::canon(relaxed, b).len();
                let mut ls = vec![None, Some(0), Some(1), Some(3), Some(c), Some(c + 1), Some(1000)];
                ls.dedup();
                for l in ls {
                    let s = Spec::new(ed, true, relaxed, &["From", "To"]);
                    let s = if let Some(l) = l { s.limit(l) } else { s };
                    v.push((l, relaxed, s.make(&base, b)));
                }
            }
            v
        })
        .collect();
    let mut world = World::default();
    world.set(QNAME, txt(&ed.record()));
    let through = |ch: &mut Ch, at: usize, sets: &[&(Option<usize>, bool, Field)], strict: bool, c: &[&[u8]]| -> Result<(), Viol> {
        let b = bodies[at];
        let mut fields: Vec<Field> = sets.iter().map(|s| s.2.clone()).collect();
        fields.extend(base.iter().cloned());
        let cfg = Cfg { forbid_unsigned: strict, ..Default::default() };
        let want = world.expect(&fields, b, &cfg);
        let id = || format!("signatures {:?} forbid unsigned content {strict} chunks {}", sets.iter().map(|s| (s.0, s.1)).collect::<Vec<_>>(), show_chunks(c));
        ch.describe(id);
        for feed in [false, true] {
            let got = env::verify(&world.resolver(), &hf(&fields), &cfg.lib(), c, feed);
            ch.op(3);
            if let Some(m) = compare_all(&got, &want) {
                return viol(id(), format!("{m} (fed on after being done: {feed})"));
            }
        }
        Ok(())
    };
    ctx.part("one signature, through the verifier, every chunking", 0, &|ch| {
        let at = ch.pick(if t { 7 } else { 6 });
        let set = ch.of(&made[at]);
        let strict = ch.flag();
        let c = chunks(ch, bodies[at], true);
        through(ch, at, &[set], strict, &c)
    });
    ctx.part("several signatures, through the verifier", 0, &|ch| {
        let at = ch.pick(bodies.len());
        let n = 2 + ch.pick(if t { 2 } else { 1 });
        let sets: Vec<_> = (0..n).map(|_| ch.of(&made[at])).collect();
        let strict = ch.flag();
        let b = bodies[at];
        let c: Vec<&[u8]> = match ch.pick(5) {
            0 => vec![b],
            1 => b.chunks(1).collect(),
            2 => b.chunks(2).flat_map(|c| [c, &b[..0]]).collect(),
            3 => vec![&b[..0], b, &b[..0]],
            _ => vec![&b[..b.len() / 2], &b[b.len() / 2..]],
        };
        through(ch, at, &sets, strict, &c)
    });
}
