//! C12: one isolated result per signature header, in order.

use super::{
    common::PRE,
    world::{txt, World},
};
use crate::{
    ctx::Ctx,
    env::Delivery,
    explore::{viol, Ch, Viol},
    keys::key,
    refm::{
        crypto::H,
        header::Field,
        sign::{f, Spec},
        verify::{show_msg, Ans, Cfg},
    },
};

const BODY: &[u8] = b"hello\r\n there\r\n";

fn base() -> Vec<Field> {
    vec![f("From", " me@example.com"), f("To", " you@example.org")]
}

fn kinds() -> Vec<(&'static str, Field)> {
    let n = &["From", "To"];
    let ed = key("ed1");
    let rsa = key("rsa1024");
    let mk = |s: Spec| s.make(&base(), BODY);
    let with = |k, hr, br, d, s, x| mk(Spec::with(k, H::Sha256, hr, br, n, d, s, x));
    let good = with(ed, false, false, "example.com", "sel", "");
    let tampered = {
        let mut t = with(rsa, true, true, "example.com", "rsa", "");
        let s = String::from_utf8(t.1).unwrap();
        let p = s.rfind("b=").unwrap() + 2;
        let c = if &s[p..p + 1] == "A" { "B" } else { "A" };
        t.1 = [&s[..p], c, &s[p + 1..]].concat().into_bytes();
        t
    };
    let mut lower = with(ed, true, true, "EXAMPLE.com", "SEL", " l=5;");
    {
        let mut s = Spec::with(ed, H::Sha256, true, true, n, "EXAMPLE.com", "SEL", " l=5;");
        s.sig_name = "dkim-SIGNATURE".into();
        s.limit = Some(5);
        lower = mk(s);
        let _ = &lower;
    }
    let mut k = vec![
        ("good", good.clone()),
        ("other field", f("Received", " by me")),
        ("good RSA", with(rsa, true, false, "example.com", "rsa", "")),
        ("body hash", Spec::new(ed, true, true, n).make(&base(), b"else\r\n")),
        ("tampered", tampered),
        ("lower-case, limited", lower),
        ("unparsable", f("DKIM-Signature", " v=1; a=ed25519-sha256; d=example.com; s=sel; h=From")),
        ("not UTF-8", ("DKIM-Signature".into(), [&good.1[..], b"\xff"].concat())),
        ("expired", with(ed, true, true, "example.com", "sel", " t=5; x=77;")),
        ("unresolvable", with(ed, true, true, "example.com", "none", "")),
        ("revoked", with(ed, true, true, "example.com", "revoked", "")),
        ("nothing of the body", mk(Spec::new(ed, true, false, n).limit(0))),
        ("too long a limit", with(ed, true, true, "example.com", "sel", " l=1000;")),
        ("timeout", with(ed, true, true, "example.com", "slow", "")),
        ("wrong key type", with(rsa, true, true, "example.com", "sel", "")),
        ("similar name", ("DKIM-Signatures".into(), good.1.clone())),
        ("similar name 2", ("X-DKIM-Signature".into(), good.1.clone())),
        ("garbage record", with(ed, true, true, "example.com", "garbage", "")),
        ("unknown algorithm", f("DKIM-Signature", &String::from_utf8(good.1.clone()).unwrap().replace("ed25519-sha256", "ed448"))),
    ];
    if PRE {
        k.push(("sha1", mk(Spec::with(rsa, H::Sha1, true, true, n, "example.com", "rsa", ""))));
    }
    k
}

fn world() -> World {
    let mut w = World::default();
    let q = |s: &str| format!("{s}._domainkey.example.com.");
    w.set(&q("sel"), txt(&key("ed1").record()));
    w.set(&q("rsa"), txt(&key("rsa1024").record()));
    w.set(&q("revoked"), txt("k=ed25519; p="));
    w.set(&q("slow"), Ans::Fail("Timeout"));
    w.set(&q("garbage"), txt("v=DKIM1; k"));
    w
}

fn go(ch: &mut Ch, seq: &[&(&'static str, Field)], max: usize, seed: u64, pending: usize) -> Result<(), Viol> {
    let mut w = world();
    for (i, (_, (_, d))) in w.dns.iter_mut().enumerate() {
        *d = Delivery { pending: if pending > 0 && (i + pending) % 2 == 0 { 2 } else { 0 }, delay_ms: 0 };
    }
    let mut fields: Vec<Field> = seq.iter().map(|k| k.1.clone()).collect();
    fields.extend(base());
    let cfg = Cfg { max, ..Default::default() };
    let r = w.check(ch, &fields, BODY, &cfg, Some(seed));
    let names: Vec<&str> = seq.iter().map(|k| k.0).collect();
    ch.describe(|| format!("{names:?} max {max} seed {seed}"));
    match r {
        None => Ok(()),
        Some(m) => viol(format!("headers {names:?} maximum {max} seed {seed} pending {pending}"), format!("{m}\n{}", show_msg(&fields, BODY))),
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let ks = kinds();
    ctx.part("short sequences", 0, &|ch| {
        let n = ch.pick(if t { 5 } else { 4 });
        let seq: Vec<_> = (0..n).map(|_| ch.of(&ks)).collect();
        let max = if n < 4 { *ch.of(&[10, 0, 1, 2, 3]) } else { 10 };
        // The order in which lookups are taken matters with two names at least.
        let seed = if n > 1 && max > 1 { ch.pick(2) as u64 } else { 0 };
        go(ch, &seq, max, seed, 0)
    });
    ctx.part("lookup orders", 0, &|ch| {
        // Names that are looked up, in any order of the hash map.
        let some: Vec<_> = ks.iter().filter(|k| ["good", "good RSA", "unresolvable", "revoked", "timeout", "garbage record", "lower-case, limited"].contains(&k.0)).collect();
        let n = 2 + ch.pick(if t { 4 } else { 3 });
        let mut seq: Vec<&(&str, Field)> = vec![];
        for _ in 0..n {
            seq.push(*ch.of(&some));
        }
        let seed = ch.pick(if t { 6 } else { 3 }) as u64;
        let pending = if n < 4 { ch.pick(3) } else { 0 };
        go(ch, &seq, 10, seed, pending)
    });
    ctx.part("long sequences", if t { 2 } else { 1 }, &|ch| {
        let n = if t { 1 + ch.pick(24) } else { *ch.of(&[9, 10, 11, 13, 25]) };
        let seq: Vec<_> = (0..n).map(|_| ch.devof(&ks)).collect();
        let max = if t { *ch.of(&[10, 2, 3, 9, 11, 24, usize::MAX]) } else { *ch.of(&[10, 5, 11]) };
        go(ch, &seq, max, 0, 0)
    });
    ctx.part("many of one kind", 0, &|ch| {
        // All of one kind but one of another kind.
        let n = if t { 1 + ch.pick(40) } else { *ch.of(&[5usize, 9, 10, 11, 12, 17]) };
        let (most, one) = (ch.of(&ks), ch.of(&ks));
        let at = if t || n < 12 { ch.pick(n) } else { *ch.of(&[0, 8, 9, 10, n - 1]) };
        if most.0 == one.0 && at > 0 {
            ch.skip();
            return Ok(());
        }
        let seq: Vec<_> = (0..n).map(|i| if i == at { one } else { most }).collect();
        let max = if t { *ch.of(&[10, n, n - 1]) } else { *ch.of(&[10, n]) };
        go(ch, &seq, max, 0, 0)
    });
    ctx.part("among many other fields", 0, &|ch| {
        // Signatures before, between and after any number of other fields.
        let ns = crate::util::sizes(if t { 300 } else { 70 }, if t { 70_000 } else { 4_100 });
        let n = *ch.of(&ns);
        let other = *ch.of(&["X-A", "DKIM-Signatur", "From"]);
        let some: Vec<_> = ks.iter().filter(|k| ["good", "good RSA", "tampered", "unparsable", "unresolvable", "expired"].contains(&k.0)).collect();
        let (a, b) = (*ch.of(&some), *ch.of(&some));
        let o = ("filler", f(other, " x"));
        let mut seq: Vec<&(&'static str, Field)> = vec![];
        if ch.flag() {
            seq.push(&some[0]);
        }
        seq.extend(std::iter::repeat(&o).take(n));
        seq.push(a);
        seq.push(b);
        let mut w = world();
        w.dns.values_mut().for_each(|d| d.1 = Delivery::default());
        let mut fields: Vec<Field> = seq.iter().map(|k| k.1.clone()).collect();
        fields.extend(base());
        // Only what is listed counts here.
        let cfg = Cfg { forbidden: vec![], ..Default::default() };
        let r = w.check(ch, &fields, BODY, &cfg, Some(0));
        match r {
            None => Ok(()),
            Some(m) => viol(format!("{n} fields {other} before {} and {}", a.0, b.0), m),
        }
    });
    ctx.note("hash-map seeds: enumerated values of the seed, not all permutations of the map");
}
