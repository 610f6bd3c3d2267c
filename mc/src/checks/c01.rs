//! C01: what the signer issues, the verifier accepts.

use super::{
    c04::hf,
    common::*,
    reqgen::{self, ReqSpec},
};
use crate::{
    ctx::Ctx,
    env::{self, Answer, Resolver},
    explore::{viol, Ch, Viol},
    keys::key,
    refm::{body, crypto::H, header::Field, verify::show_msg},
    util::*,
};
use std::time::{Duration, SystemTime};
use viadkim::{
    header::HeaderFields,
    signer::{BodyLength, Timestamp},
    verifier::{Config, VerificationStatus},
};

pub const CLOCK: i64 = 1_700_000_000;

fn split<'a>(ch: &mut Ch, b: &'a [u8], dev: bool) -> Vec<&'a [u8]> {
    let n = if dev { ch.dev(4) } else { ch.pick(4) };
    match n {
        0 => vec![b],
        1 => b.chunks(1).collect(),
        2 => {
            let (x, y) = b.split_at(b.len() / 2);
            vec![&b[..0], x, &b[..0], y, &b[..0]]
        }
        _ => b.chunks(3).collect(),
    }
}

pub fn body_len(r: &ReqSpec, n: usize, b: &[u8]) -> BodyLength {
    let len = body::canon(r.br, b).len() as u64;
    match n {
        0 => BodyLength::NoLimit,
        1 => BodyLength::MessageContent,
        2 => BodyLength::Exact(0),
        3 => BodyLength::Exact(len.min(1)),
        _ => BodyLength::Exact(len),
    }
}

/// Parses the message the way it would arrive, if it is text.
fn arrive(fields: &[Field]) -> HeaderFields {
    let w = wire(fields);
    match String::from_utf8(w) {
        Ok(s) => s.parse().unwrap_or_else(|e| panic!("message does not parse: {e:?}: {}", show(s.as_bytes()))),
        Err(_) => hf(fields),
    }
}

fn config_for(ts: Timestamp) -> Config {
    let t = match ts {
        Timestamp::Exact(t) => t,
        _ => CLOCK as u64,
    };
    Config {
        headers_forbidden_to_be_unsigned: vec![],
        fixed_system_time: Some(SystemTime::UNIX_EPOCH + Duration::from_secs(t)),
        allow_sha1: true,
        min_key_bits: 0,
        time_tolerance: Duration::ZERO,
        ..Default::default()
    }
}

fn round_trip(
    ch: &mut Ch,
    specs: &[ReqSpec],
    fields: &[Field],
    b: &[u8],
    sc: &[&[u8]],
    vc: &[&[u8]],
) -> Result<(), Viol> {
    let id = || {
        let s: Vec<String> = specs.iter().map(|s| format!("{s:?}")).collect();
        format!("{} requests {} signer chunks {} verifier chunks {}", show_msg(fields, b), s.join(" + "), sc.len(), vc.len())
    };
    let feed = sc.len() % 2 == 0;
    let out = env::with_clock(Some((CLOCK, 999_999_999)), || {
        lib_sign(fields, specs.iter().map(|s| s.build()).collect(), sc, feed)
    });
    ch.op(2 + sc.len() as u64);
    let out = match out {
        Ok(o) => o,
        Err(e) => return viol(id(), format!("prepare_signing refused a valid request: {e:?}")),
    };
    if out.len() != specs.len() {
        return viol(id(), format!("{} results", out.len()));
    }
    let mut msg = vec![];
    let res = Resolver::new();
    for (s, o) in specs.iter().zip(&out) {
        match o {
            Ok(o) => msg.push(field_of(o)),
            Err(e) => return viol(id(), format!("signing failed: {e:?}")),
        }
        res.set(&s.query(), Answer::one(s.key.record()));
    }
    msg.extend(fields.iter().cloned());
    let headers = arrive(&msg);
    let config = config_for(specs[0].ts);
    let r = env::verify(&res, &headers, &config, vc, !feed);
    ch.op(2 + vc.len() as u64);
    ch.describe(|| format!("{} -> {}", id(), show(&wire(&msg[..1]))));
    let Some(r) = r else { return viol(id(), "no signature found in the signed message") };
    for i in 0..specs.len() {
        match r.get(i).map(|r| (r.index, &r.status)) {
            Some((x, VerificationStatus::Success)) if x == i => {}
            other => {
                return viol(id(), format!("{other:?} for {}", show(&msg[i].1)));
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let rsa: &[(&'static str, H)] = if PRE {
        &[("rsa1024", H::Sha256), ("rsa1024", H::Sha1), ("rsa512", H::Sha1), ("rsa768", H::Sha256)]
    } else {
        &[("rsa1024", H::Sha256), ("rsa1025", H::Sha256), ("rsa2048", H::Sha256)]
    };
    let all = |ch: &mut Ch, r: &mut ReqSpec| -> Result<(), Viol> {
        let fields = ch.devof(&reqgen::messages()).clone();
        reqgen::deviate(ch, r, true);
        let b = ch.devof(&reqgen::bodies()).clone();
        let n = ch.dev(5);
        r.bl = body_len(r, n, &b);
        let sc = split(ch, &b, true);
        let vc = split(ch, &b, true);
        round_trip(ch, std::slice::from_ref(r), &fields, &b, &sc, &vc)
    };
    if !PRE {
        ctx.part("every option, few deviations, Ed25519", if t { 4 } else { 3 }, &|ch| {
            all(ch, &mut ReqSpec::plain(key("ed1")))
        });
    }
    for (name, keys, dev) in [
        ("every option, few deviations, RSA", &rsa[..1], if t { 3 } else { 2 }),
        ("every option, few deviations, other RSA", &rsa[1..], if t { 2 } else { 1 }),
    ] {
    ctx.part(name, dev, &|ch| {
        let (k, h) = *ch.of(keys);
        let mut r = ReqSpec::plain(key(k));
        r.h = h;
        all(ch, &mut r)
    });
    }
    if PRE {
        return;
    }
    ctx.part("canonicalization x message x selection x copy", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        r.hr = ch.flag();
        r.br = ch.flag();
        let fields = ch.of(&reqgen::messages()).clone();
        r.sel = ch.of(&reqgen::selections()).clone();
        r.copy = ch.flag();
        r.ascii = ch.flag();
        r.width = *ch.of(&[78, 1, 20]);
        let b = b"x\r\n".to_vec();
        r.header_name = ch.of(reqgen::NAMES).to_string();
        round_trip(ch, &[r], &fields, &b, &[&b], &[&b])
    });
    ctx.part("bodies x canonicalization x length x chunkings", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        r.br = ch.flag();
        let toks: &[&[u8]] = &[b"\r\n", b" ", b"a", b"\r", b"\n", b"\t"];
        let b = string(ch, if t { 5 } else { 4 }, toks);
        let n = ch.pick(5);
        r.bl = body_len(&r, n, &b);
        if body::ambiguous(&b) && n > 1 {
            ch.skip();
            return Ok(());
        }
        let sc = split(ch, &b, false);
        let vc = split(ch, &b, false);
        round_trip(ch, &[r], &reqgen::messages()[0], &b, &sc, &vc)
    });
    ctx.part("formatting", 0, &|ch| {
        // Every width against everything whose length matters.
        let mut r = ReqSpec::plain(key("ed1"));
        r.width = 1 + ch.pick(if t { 260 } else { 130 });
        r.indent = ch.of(&reqgen::INDENTS[..4]).to_string();
        r.order = ch.pick(reqgen::ORDERS);
        r.copy = ch.flag();
        r.hr = ch.flag();
        if ch.flag() {
            r.ext = reqgen::exts()[2].clone();
        }
        r.sel = Some(vec!["From".into(), "To".into(), "Subject".into(), "From".into()]);
        let b = b"x\r\n".to_vec();
        round_trip(ch, &[r], &reqgen::messages()[0], &b, &[&b], &[&b])
    });
    ctx.part("identities and internationalised names", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        r.d = ch.of(reqgen::DOMAINS).to_string();
        r.s = ch.of(reqgen::SELECTORS).to_string();
        r.i = ch.of(&reqgen::identities(&r.d)).clone();
        r.ascii = ch.flag();
        r.hr = ch.flag();
        r.width = *ch.of(&[78, 1, 12]);
        let b = b"x\r\n".to_vec();
        round_trip(ch, &[r], &reqgen::messages()[0], &b, &[&b], &[&b])
    });
    ctx.part("sizes", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        let (fields, b) = reqgen::sized(ch, &mut r, t);
        round_trip(ch, &[r], &fields, &b, &[&b], &[&b])
    });
    ctx.part("every character", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        let Some((fields, b)) = reqgen::lettered(ch, &mut r, t) else {
            ch.skip();
            return Ok(());
        };
        round_trip(ch, &[r], &fields, &b, &[&b], &[&b])
    });
    ctx.part("several requests at once", 0, &|ch| {
        let n = 2 + ch.pick(if t { 3 } else { 2 });
        let b = ch.of(&[&b" a \r\n\r\n b"[..], b"", b"abc\r\n\r\n"]).to_vec();
        let mut v = vec![];
        for i in 0..n {
            let mut r = ReqSpec::plain(key(ch.of(&["ed1", "ed2"])));
            let c = ch.pick(4);
            r.hr = c % 2 == 0;
            r.br = c / 2 == 0;
            r.s = format!("s{i}");
            let n = ch.pick(5);
            r.bl = body_len(&r, n, &b);
            v.push(r);
        }
        let sc = b.chunks(2).collect::<Vec<_>>();
        round_trip(ch, &v, &reqgen::messages()[0], &b, &sc, &[&b])
    });
}
