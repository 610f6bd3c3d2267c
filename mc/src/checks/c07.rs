//! C07: parsing of signatures.

use super::common::*;
use crate::{
    ctx::Ctx,
    explore::{Ch, Viol},
    refm::sigparse::{self, P},
    util::*,
};
use std::str::FromStr;
use viadkim::signature::DkimSignature;

pub fn one(ch: &mut Ch, s: &str) -> Result<(), Viol> {
    let want = sigparse::parse(s, PRE);
    match &want {
        P::Ok(_) => ch.label("accepted"),
        P::Bad(..) => ch.label("rejected"),
        P::Unspecified => ch.label("left open"),
    }
    let got = DkimSignature::from_str(s);
    ch.op(1);
    ch.describe(|| format!("{} -> {:?}", show(s.as_bytes()), got.as_ref().map(|_| ()).map_err(|e| e.kind)));
    if !check_sig(s, &got, &want)? {
        ch.skip();
    }
    Ok(())
}

/// Tag, normal value, other values.
pub type Tag = (&'static str, &'static str, &'static [&'static str]);

pub const ABSENT: &str = "\u{1}";

pub const TAGS: &[Tag] = &[
    ("v", "1", &[ABSENT, "", "2", "01", "1.0", "1 1", "DKIM1", "+1"]),
    (
        "a",
        "rsa-sha256",
        &[
            ABSENT, "ed25519-sha256", "RSA-SHA256", "Ed25519-Sha256", "rsa-sha1", "RSA-sha1", "", "rsa", "sha256", "rsa-sha-256",
            "rsa -sha256", "ed25519-sha1", "rsa-sha512", "rsa-sha2566", "xrsa-sha256", "rsa_sha256", "rſa-sha256",
        ],
    ),
    (
        "b",
        "YWJjZGU=",
        &[
            ABSENT, "", "YWJj", "YWJ jZ\r\n GU=", "YWJjZGU", "YWJjZGU==", "YQ==", "Y Q = =", "YR==", "YQ=", "=", "YWJj=", "YW-j", "YW_j", "Y===",
            "+/+/", "YWJj!", "YQ==YQ==", "é", "YWJjZA==\t",
        ],
    ),
    ("bh", "/+8=", &[ABSENT, "", "AAAA", "/+\r\n\t8\r\n = ", "/+8", "/-8=", "//==", "A", "AA=A", "/+9="]),
    (
        "c",
        ABSENT,
        &[
            "simple", "relaxed", "simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed", "Relaxed/SIMPLE", "/", "", "/relaxed",
            "relaxed/", "relaxed/relaxed/relaxed", "relaxed /relaxed", "nowsp", "simple/nowsp", "relax",
        ],
    ),
    (
        "d",
        "example.com",
        &[
            ABSENT, "", "EXAMPLE.com", "sub.example.com", "com", "bücher.example", "xn--bcher-kva.example", "中国", "example.com.", ".example.com",
            "a..b", "-a.b", "a-.b", "a.1", "1.a", "1", "a_b.c", "a b", "a@b", "ex=41mple.com", "example.中国",
        ],
    ),
    (
        "h",
        "from",
        &[
            ABSENT, "", "From:to", "to : FROM:\r\n x-y", "to", "from:from:from", "from:", ":from", "from::to", "fr om", "from:t o", "from :to",
            "from:=7C", "from:a|b", "FROM:!\"#", "from:é", "xfrom", "fromx", "from:\tto\t:\t\tcc",
        ],
    ),
    (
        "i",
        ABSENT,
        &[
            "@example.com", "a@example.com", "a.b@sub.example.com", "@SUB.Example.COM", "@com", "@xexample.com", "@example.org", "example.com", "",
            "@", "a@", "=61=40example.com", "a=20b@example.com", "\"a=20b\"@example.com", "\"a=3Bb\"@example.com", "\"a=22@example.com", "a@b@example.com",
            "\"a@b\"@example.com", ".a@example.com", "=FF@example.com", "=C3=A9@example.com", "é@example.com", "a\r\n b@example.com", "a=4", "@bücher.example",
            "@中国", "@example.com.", "@a.sub.example.com", "@=65xample.com",
        ],
    ),
    (
        "l",
        ABSENT,
        &["0", "1", "00012", "18446744073709551615", "18446744073709551616", "", "+1", "-1", "1 2", "0x1", "1.0", "٣", "4294967296"],
    ),
    (
        "q",
        ABSENT,
        &[
            "dns/txt", "DNS/txt", "dns", "", "dns/txt:", ":dns/txt", "x:dns/txt", "dns/txt : y", "x", "dns/txt/x", "dns /txt", "x:y", "dns/txt:dns/txt",
            "dns=2Ftxt",
        ],
    ),
    (
        "s",
        "sel",
        &[
            ABSENT, "", "SEL", "a.b", "1", "a.1", "_x", "é", "xn--9ca", "a..b", "-a", "a-", "a.", ".a", "a b", "=61", "xn--", "s@t",
        ],
    ),
    (
        "t",
        ABSENT,
        &[
            "0", "1", "100", "101", "0000000000000000000000100", "18446744073709551615", "18446744073709551616", "", "+100", "-0", "1e3", "100a", "99 9",
            "²",
        ],
    ),
    (
        "x",
        ABSENT,
        &["0", "1", "100", "99", "101", "18446744073709551615", "99999999999999999999", "", "+101", "-1", "1_0", "10\r\n 1"],
    ),
    (
        "z",
        ABSENT,
        &[
            "From:x", "from: x =20y|To:=7Cz=3D", "", ":", "a:", "a", "a:b|", "|a:b", "a=3A:b", "a=7Cb:c", "a=3Ab", "a b:c", "a :b", "a=20:c", "a: b", "a:\r\n b",
            "a:=FF", "a:=0D=0A", "=C3=A9:x", "é:x", "a:é", "a:=4", "a:=zz", "a:b:c", "a:b | c:d", "a:b\r\n |\r\n c:d", "a=3B:x", "a:=c3=a9",
        ],
    ),
    ("r", ABSENT, &["", "y", "x=y:z", "a\r\n\tb", "é", "=41"]),
];

fn text(tags: &[(&str, String)], sep: &str, trail: &str) -> String {
    let v: Vec<String> = tags.iter().map(|(n, v)| format!("{n}={v}")).collect();
    v.join(sep) + trail
}

fn base() -> Vec<(&'static str, String)> {
    TAGS.iter().filter(|t| t.1 != ABSENT).map(|t| (t.0, t.1.to_string())).collect()
}

fn with(tag: &'static str, v: &str) -> Vec<(&'static str, String)> {
    let mut l = base();
    match l.iter_mut().find(|t| t.0 == tag) {
        Some(t) => t.1 = v.to_string(),
        None => l.push((tag, v.to_string())),
    }
    l
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.part("values of all tags", if t || !PRE { 3 } else { 2 }, &|ch| {
        let mut l = vec![];
        for (n, def, alts) in TAGS {
            let k = ch.dev(alts.len() + 1);
            let v = if k == 0 { def } else { &alts[k - 1] };
            if *v != ABSENT {
                l.push((*n, v.to_string()));
            }
        }
        one(ch, &text(&l, "; ", ""))
    });
    ctx.part("order of tags", if t { 3 } else { 2 }, &|ch| {
        // Selection sort with deviations: every order within the budget; a full set of tags.
        let full = [
            ("v", "1"), ("a", "ed25519-sha256"), ("b", "AAAA"), ("bh", "BBBB"), ("c", "relaxed/relaxed"), ("d", "example.com"),
            ("h", "from:to"), ("i", "a@x.example.com"), ("l", "77"), ("q", "dns/txt"), ("s", "sel"), ("t", "100"),
            ("x", "200"), ("z", "From:a|To:b"), ("r", "y"), ("B", "x"),
        ];
        let mut rest: Vec<(&str, String)> = full.iter().map(|(n, v)| (*n, v.to_string())).collect();
        // One value may be bad.
        match ch.dev(8) {
            0 => {}
            1 => rest[0].1 = "2".into(),
            2 => rest[2].1 = "".into(),
            3 => rest[7].1 = "@example.org".into(),
            4 => rest[12].1 = "100".into(),
            5 => rest[6].1 = "to".into(),
            6 => rest[1].1 = "rsa-sha1".into(),
            _ => rest[13].1 = "".into(),
        }
        let mut out = vec![];
        while !rest.is_empty() {
            let k = ch.dev(rest.len());
            out.push(rest.remove(k));
        }
        let sep = *ch.of(&["; ", ";", " ;\r\n\t"]);
        let trail = *ch.of(&["", ";"]);
        one(ch, &text(&out, sep, trail))
    });
    ctx.part("missing and repeated tags", 0, &|ch| {
        let req = ["v", "a", "b", "bh", "d", "h", "s"];
        let mut l = base();
        l.retain(|t| !req.contains(&t.0) || ch.pick(2) == 0);
        match ch.pick(4) {
            0 => {}
            1 => l.push(("v", "1".into())),
            2 => l.push(("d", "example.com".into())),
            _ => l.insert(0, ("b", "".into())),
        }
        if l.is_empty() {
            l.push(("r", "y".into()));
        }
        one(ch, &text(&l, ";", ""))
    });
    ctx.part("identity grammar", 0, &|ch| {
        let toks = ["a", "@", ".", "\"", "\\", "=20", "=40", "=3b", "=22", "=C3", "=A9", "=5C", "é", " ", "b.c", "=1F"];
        let v = String::from_utf8(string(ch, if t { 5 } else { 4 }, &toks)).unwrap();
        let v = v + ch.of(&["@example.com", "@sub.example.com", ".example.com", "@example.net"]);
        one(ch, &text(&with("i", &v), "; ", ""))
    });
    ctx.part("copied header grammar", 0, &|ch| {
        let toks = ["a", ":", "|", "=3A", "=7C", "=3b", "=20", " ", "\r\n ", "=", "é", "=FF", "B"];
        let v = String::from_utf8(string(ch, if t { 6 } else { 5 }, &toks)).unwrap();
        one(ch, &text(&with("z", &v), "; ", ""))
    });
    ctx.part("signed header grammar", 0, &|ch| {
        let toks = ["from", ":", "x", " ", "\r\n ", "\t", "FROM", "|", "é", "!", "=", "_"];
        let v = String::from_utf8(string(ch, if t { 6 } else { 5 }, &toks)).unwrap();
        one(ch, &text(&with("h", &v), "; ", ""))
    });
    ctx.part("number grammar", 0, &|ch| {
        let tag = *ch.of(&["l", "t", "x"]);
        let toks = ["0", "1", "9", "+", "-", " ", ".", "a", "_", "18446744073709551615", "1844674407370955161", "\u{0661}"];
        let v = String::from_utf8(string(ch, if t { 5 } else { 4 }, &toks)).unwrap();
        one(ch, &text(&with(tag, &v), "; ", ""))
    });
    ctx.part("base64 grammar", 0, &|ch| {
        let tag = *ch.of(&["b", "bh"]);
        let toks = ["A", "z", "/", "=", " ", "\r\n ", "-", "Q", "é", "+w"];
        let v = String::from_utf8(string(ch, if t { 7 } else { 6 }, &toks)).unwrap();
        one(ch, &text(&with(tag, &v), "; ", ""))
    });
    ctx.part("names of algorithms", 0, &|ch| {
        let tag = *ch.of(&["a", "c", "q", "v"]);
        let toks: &[&str] = match tag {
            "a" => &["rsa", "-", "sha256", "ed25519", "sha1", "RSA", " ", "x", "ED25519", "SHA1"],
            "c" => &["simple", "/", "relaxed", " ", "Simple", "x", "RELAXED", "\r\n "],
            "q" => &["dns/txt", ":", " ", "DNS/TXT", "x", "dns", "/", "txt", "\r\n "],
            _ => &["1", "0", "2", " ", "D", "."],
        };
        let v = String::from_utf8(string(ch, 5, toks)).unwrap();
        one(ch, &text(&with(tag, &v), "; ", ""))
    });
    ctx.part("domain relations", 0, &|ch| {
        let doms = [
            "example.com", "EXAMPLE.COM", "sub.example.com", "a.sub.example.com", "xexample.com", "com", "example.org", "bücher.example",
            "xn--bcher-kva.example", "BÜCHER.example", "a.bücher.example", "中国", "xn--fiqs8s", "b.中国", "cher-kva.example", "e.com",
        ];
        let d = *ch.of(&doms);
        let i = *ch.of(&doms);
        let l = *ch.of(&["", "x", "é", "\"=20\""]);
        let mut v = with("d", d);
        v.push(("i", format!("{l}@{i}")));
        one(ch, &text(&v, "; ", ""))
    });
    ctx.part("times", 0, &|ch| {
        let vals = ["0", "1", "2", "99", "100", "4294967295", "4294967296", "18446744073709551614", "18446744073709551615", "09", "010"];
        let a = *ch.of(&vals);
        let b = *ch.of(&vals);
        let mut v = with("t", a);
        v.push(("x", b.to_string()));
        if ch.flag() {
            v.reverse();
        }
        one(ch, &text(&v, "; ", ""))
    });
    ctx.part("white space", if t { 3 } else { 2 }, &|ch| {
        let ws: &[&str] = &["", " ", "\t ", "\r\n ", " \r\n\t"];
        let l = [
            ("v", &["1"][..]),
            ("a", &["rsa-sha256"]),
            ("c", &["relaxed/simple"]),
            ("d", &["example.com"]),
            ("s", &["sel"]),
            ("h", &["from", ":", "to", ":", "cc"]),
            ("bh", &["A", "A", "A="]),
            ("b", &["YWJj", "YWJj"]),
            ("i", &["a", "=4", "0", "x.example.com"]),
            ("z", &["a", ":", "=2", "0b", "|", "b:", "c"]),
            ("t", &["1", "0"]),
            ("q", &["dns/txt", ":", "x"]),
        ];
        let mut s = String::new();
        for (n, v) in l {
            s.push_str(ch.devof(ws));
            s.push_str(n);
            s.push_str(ch.devof(ws));
            s.push('=');
            for p in v {
                s.push_str(ch.devof(ws));
                s.push_str(p);
            }
            s.push_str(ch.devof(ws));
            if n != "q" {
                s.push(';');
            }
        }
        one(ch, &s)
    });
    let szs = sizes(if t { 300 } else { 90 }, 4_097);
    ctx.part("sizes", 0, &|ch| {
        let n = *ch.of(&szs);
        let (tag, a, u, z) = *ch.of(&[
            ("b", "", "A", ""), ("b", "", "AAAA", "AA=="), ("b", "A", "\r\n A", ""), ("bh", "", "A", "="), ("bh", "AA", " ", "AA"), ("h", "from", ":x", ""),
            ("h", "", "x:", "from"), ("h", "from:", "x", ""), ("h", "from:", "x", ":é"), ("h", "from", " : to", ""), ("q", "", "x:", "dns/txt"),
            ("q", "dns/txt", ":y", ""), ("q", "", "x:", "y"), ("q", "dns/txt:", "x", ":"), ("z", "a:", "x", ""), ("z", "a", "b", ":x"), ("z", "a:", "x|b:", ""), ("z", "a:", "=41", ""),
            ("z", "a:", "=41", "=4"), ("z", "a:", "x|b:", "|"), ("i", "", "a", "@example.com"), ("i", "\"", "=20", "\"@example.com"), ("i", "@", "x.", "example.com"),
            ("i", "@", "x", ".example.com"), ("d", "", "x", ".com"), ("d", "", "x.", "com"), ("s", "", "x", ""), ("s", "", "x.", "x"), ("l", "", "0", "1"), ("l", "", "1", ""), ("t", "", "0", "9"),
            ("x", "", "0", "8"), ("r", "", "x", ""), ("r", "y", "\r\n x", ""), ("a", "", "rsa-sha256", ""), ("c", "simple", "/simple", ""), ("v", "", "1", ""),
        ]);
        let v = format!("{a}{}{z}", u.repeat(n));
        let mut l = with(tag, &v);
        match ch.pick(3) {
            0 => {}
            1 => l.reverse(),
            _ => l.extend([("o1", "x".into()), ("o2", "x".repeat(n % 100))]),
        }
        let end = *ch.of(&["", ";"]);
        one(ch, &text(&l, ";", end))
    });
    let all = odd_chars();
    ctx.part("one character anywhere", 0, &|ch| {
        let base = "v=1; a = rsa-sha256;b=YW JjZGU=;bh= /+8=; c=relaxed/simple ;d=example.com; h=from : to:cc; i=a=20@x.example.com;l= 7; \
                    q=dns/txt : x;s=sel;t=10; x=11;z=a: =20b|c :d; r=y z;";
        let at = ch.pick(base.len() + 1);
        let c = *ch.of(&all);
        let cut = at + if at < base.len() { ch.pick(2) } else { 0 };
        one(ch, &format!("{}{c}{}", &base[..at], &base[cut..]))
    });
    ctx.part("all characters in values", 0, &|ch| {
        let (c, d) = (*ch.of(&all), *ch.of(&all));
        let (tag, a, b) = *ch.of(&[
            ("v", "1", ""), ("a", "rsa-sha256", ""), ("b", "AA", "=="), ("bh", "AAAA", ""), ("c", "simple", ""), ("c", "", "simple"),
            ("d", "", "x.com"), ("d", "x.com", ""), ("h", "from:", ""), ("h", "", ":from"), ("i", "", "@example.com"), ("i", "a@", "example.com"),
            ("i", "@example.com", ""), ("l", "1", ""), ("q", "dns/txt:", ""), ("q", "", "dns/txt"), ("s", "", "s"), ("s", "s", ""), ("t", "", "1"), ("x", "1", ""),
            ("z", "a", ":"), ("z", "a:", "|b:"), ("z", "a:|", ":"), ("r", "", ""),
        ]);
        if ch.flag() && c == d {
            // Also one character alone.
            return one(ch, &text(&with(tag, &format!("{a}{c}{b}")), "; ", ""));
        }
        one(ch, &text(&with(tag, &format!("{a}{c}{d}{b}")), "; ", ""))
    });
    ctx.note("number values above 2^64-1, base64 with non-zero unused bits and several folds in one white-space run are left open");
}
