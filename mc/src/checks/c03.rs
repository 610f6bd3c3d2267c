//! C03: body canonicalisation = RFC 6376 reference, for every chunking.

use crate::{
    ctx::Ctx,
    explore::{viol, Ch, Viol},
    refm::body,
    util::*,
};
use viadkim::{canonicalize::BodyCanonicalizer, signature::CanonicalizationAlgorithm as CA};

fn run_lib(ch: &mut Ch, relaxed: bool, chunks: &[&[u8]]) -> Vec<u8> {
    let mut c = BodyCanonicalizer::new(if relaxed { CA::Relaxed } else { CA::Simple });
    let mut out = vec![];
    for x in chunks {
        out.extend(c.canonicalize_chunk(x));
        ch.op(1);
    }
    out.extend(c.finish());
    ch.op(1);
    out
}

fn judge(ch: &mut Ch, relaxed: bool, b: &[u8], chunks: &[&[u8]], got: &[u8]) -> Result<(), Viol> {
    let want = body::canon(relaxed, b);
    ch.label(if relaxed { "relaxed" } else { "simple" });
    if got == want {
        return Ok(());
    }
    if relaxed {
        if body::relaxed_also(b, got) {
            // Unspecified by the RFC, but must not depend on the chunking.
            let whole = run_lib(ch, relaxed, &[b]);
            if whole == got {
                ch.label("relaxed: unspecified final blank line");
                return Ok(());
            }
            return viol(
                format!("relaxed body=\"{}\" chunks={}", show(b), show_chunks(chunks)),
                format!("chunked \"{}\" but whole \"{}\"", show(got), show(&whole)),
            );
        }
    }
    viol(
        format!("{} body=\"{}\" chunks={}", if relaxed { "relaxed" } else { "simple" }, show(b), show_chunks(chunks)),
        format!("got \"{}\", RFC 6376 wants \"{}\"", show(got), show(&want)),
    )
}

const AB: &[&str] = &["a", "\r", "\n", " ", "\t"];

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.part("short bodies, all chunkings", 0, &|ch| {
        let relaxed = ch.flag();
        let b = string(ch, if t { 8 } else { 7 }, AB);
        let cs = chunks(ch, &b, false);
        let got = run_lib(ch, relaxed, &cs);
        ch.describe(|| format!("relaxed={relaxed} chunks={} -> \"{}\"", show_chunks(&cs), show(&got)));
        judge(ch, relaxed, &b, &cs, &got)
    });
    ctx.part("short bodies, empty chunks", 0, &|ch| {
        let relaxed = ch.flag();
        let b = string(ch, if t { 6 } else { 5 }, AB);
        let cs = chunks(ch, &b, true);
        let got = run_lib(ch, relaxed, &cs);
        judge(ch, relaxed, &b, &cs, &got)
    });
    ctx.part("longer bodies, whole/bytewise/one cut", 0, &|ch| {
        let relaxed = ch.flag();
        let b = string(ch, if t { 10 } else { 8 }, &AB[..4]);
        let cs = one_cut(ch, &b);
        let got = run_lib(ch, relaxed, &cs);
        judge(ch, relaxed, &b, &cs, &got)
    });
    ctx.part("line tokens", 0, &|ch| {
        // Whole lines as symbols reach deeper line structure.
        let relaxed = ch.flag();
        let toks = ["\r\n", "a\r\n", " \r\n", "a \r\n", "\t a\r\n", "a", " ", "\r"];
        let b = string(ch, if t { 6 } else { 5 }, &toks);
        let cs = one_cut(ch, &b);
        let got = run_lib(ch, relaxed, &cs);
        judge(ch, relaxed, &b, &cs, &got)
    });
    ctx.part("all bytes in context", 0, &|ch| {
        let relaxed = ch.flag();
        let pre: &[&[u8]] = &[b"", b"a", b" ", b"\r", b"\r\n", b"a\r\n"];
        let post: &[&[u8]] = &[b"", b"a", b" ", b"\r\n", b"\n"];
        let mut b = ch.of(pre).to_vec();
        b.push(ch.pick(256) as u8);
        if ch.flag() {
            b.push(ch.pick(256) as u8);
        }
        b.extend(*ch.of(post));
        let cs = one_cut_ends(ch, &b);
        let got = run_lib(ch, relaxed, &cs);
        judge(ch, relaxed, &b, &cs, &got)
    });
    let big: Vec<Vec<u8>> = vec![
        b"x".to_vec(),
        b"\r\n".to_vec(),
        b" ".to_vec(),
        b"\r\n".repeat(257),
        b" ".repeat(257),
        b"y".repeat(1025),
        b" \t\r\n".repeat(130),
        b"\r".repeat(257),
    ];
    ctx.part("long runs", 0, &|ch| {
        let relaxed = ch.flag();
        let n = 1 + ch.pick(if t { 5 } else { 4 });
        let mut b = vec![];
        let mut ends = vec![];
        for _ in 0..n {
            b.extend(ch.of(&big));
            ends.push(b.len());
        }
        // Chunks: whole, at token ends, 64-byte blocks, 7-byte blocks.
        let cs: Vec<&[u8]> = match ch.pick(4) {
            0 => vec![&b[..]],
            1 => {
                let mut s = 0;
                ends.iter()
                    .map(|e| {
                        let c = &b[s..*e];
                        s = *e;
                        c
                    })
                    .collect()
            }
            2 => b.chunks(64).collect(),
            _ => b.chunks(7).collect(),
        };
        let got = run_lib(ch, relaxed, &cs);
        judge(ch, relaxed, &b, &cs, &got)
    });
    let counts = crate::util::sizes(if t { 600 } else { 140 }, 70_000);
    ctx.part("very long runs", 0, &|ch| {
        let relaxed = ch.flag();
        let unit: &[u8] = *ch.of(&[&b"\r\n"[..], b" ", b"a", b"a\r\n", b" \r\n", b"\r"]);
        let count = *ch.of(&counts);
        let mut b = unit.repeat(count);
        b.extend(*ch.of(&[&b""[..], b"z", b"\r\nz\r\n", b" "]));
        let size = *ch.of(&[1usize << 20, 4096, 1000]);
        let cs: Vec<&[u8]> = b.chunks(size).collect();
        let got = run_lib(ch, relaxed, &cs);
        judge(ch, relaxed, &b, &cs, &got)
    });
    ctx.part("clones are independent", 0, &|ch| {
        let relaxed = ch.flag();
        let pre = string(ch, 3, AB);
        let s1 = string(ch, 2, AB);
        let s2 = string(ch, 2, AB);
        let mut c = BodyCanonicalizer::new(if relaxed { CA::Relaxed } else { CA::Simple });
        let head = c.canonicalize_chunk(&pre);
        let mut d = c.clone();
        let (mut o1, mut o2) = (head.clone(), head);
        o1.extend(c.canonicalize_chunk(&s1));
        o2.extend(d.canonicalize_chunk(&s2));
        o1.extend(c.finish());
        o2.extend(d.finish());
        ch.op(6);
        let (b1, b2) = ([&pre[..], &s1].concat(), [&pre[..], &s2].concat());
        judge(ch, relaxed, &b1, &[&pre, &s1], &o1)?;
        judge(ch, relaxed, &b2, &[&pre, &s2], &o2)
    });
}

fn one_cut_ends<'a>(ch: &mut Ch, b: &'a [u8]) -> Vec<&'a [u8]> {
    // whole, bytewise, cut before the last byte
    match ch.pick(3) {
        0 => vec![b],
        1 => b.chunks(1).collect(),
        _ => vec![&b[..b.len() - 1], &b[b.len() - 1..]],
    }
}
