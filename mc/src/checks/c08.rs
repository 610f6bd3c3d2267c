//! C08: parsing of key records.

use super::common::*;
use crate::{
    ctx::Ctx,
    explore::{viol, Ch, Viol},
    refm::record::{self, R},
    util::*,
};
use std::str::FromStr;
use viadkim::record::DkimKeyRecord;

fn one(ch: &mut Ch, s: &str) -> Result<(), Viol> {
    let want = record::parse(s, PRE);
    match &want {
        R::Ok(_) => ch.label("accepted"),
        R::Bad(..) => ch.label("rejected"),
        R::Unspecified => ch.label("left open"),
    }
    let got = DkimKeyRecord::from_str(s);
    ch.op(1);
    ch.describe(|| format!("{} -> {:?}", show(s.as_bytes()), got.as_ref().map(|_| ())));
    if !check_rec(s, &got, &want)? {
        ch.skip();
    }
    if let (Ok(r), R::Ok(w)) = (&got, &want) {
        if r.is_testing() != w.t.iter().any(|f| f == "y") {
            return viol(format!("is_testing {}", show(s.as_bytes())), format!("{}", r.is_testing()));
        }
    }
    Ok(())
}

pub const ABSENT: &str = "\u{1}";
pub type Tag = (&'static str, &'static str, &'static [&'static str]);

pub const TAGS: &[Tag] = &[
    ("v", ABSENT, &["DKIM1", "dkim1", "DKIM2", "", "1", "DKIM1 ", "DKIM 1", "DKIM11"]),
    (
        "h",
        ABSENT,
        &[
            "sha256", "SHA256", "sha1", "sha1:sha256", "sha256:sha1", "", ":", "sha256:", ":sha256", "sha256 : x", "x", "x:y", "sha-256", "sha256\r\n :sha1",
            "sha 256", "sha1:SHA1", "sha256:x:", "sha256:sha256", "sha25", "sha2567",
        ],
    ),
    ("k", ABSENT, &["rsa", "RSA", "ed25519", "Ed25519", "", "dsa", "rsa ", "ed 25519", "rsa:ed25519", "ed448", "ed25519x"]),
    ("n", ABSENT, &["note", "a=20b", "", "a b", "=C3=A9", "=ff", "=4", "=zz", "é", "a\r\n b", "a=3Bb", "=c3=A9x", "=", "a\tb"]),
    (
        "p",
        "YWJj",
        &[ABSENT, "", "YW Jj", "YWJ", "YQ==", "YQ=", "YR==", "Y\r\n WJj", "YW-j", "=", "é", "YWJjZGVmZ2hp", "YWJj=", "YWJj!"],
    ),
    (
        "s",
        ABSENT,
        &[
            "*", "email", "EMAIL", "x", "", "*:email", "email:x", "x:*", ":", "email:", "* : email", "**", "e mail", "x : y", "tlsrpt", "email:*", "emailx",
        ],
    ),
    ("t", ABSENT, &["y", "s", "Y", "S", "y:s", "s:y", "x", "x:s", "", ":", "s:", ":y", "s : y", "ys", "y y", "s:s", "strict"]),
    ("g", ABSENT, &["*", "", "x=y"]),
    ("T", ABSENT, &["s", ""]),
];

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.part("values of all tags", if t { 5 } else { 4 }, &|ch| {
        let mut l = vec![];
        for (n, def, alts) in TAGS {
            let k = ch.dev(alts.len() + 1);
            let v = if k == 0 { def } else { &alts[k - 1] };
            if *v != ABSENT {
                l.push(format!("{n}={v}"));
            }
        }
        if l.is_empty() {
            ch.skip();
            return Ok(());
        }
        let sep = *ch.of(&["; ", ";"]);
        one(ch, &l.join(sep))
    });
    ctx.part("order of tags", 0, &|ch| {
        // All orders of up to five tags out of all.
        let mut rest =
            vec!["v=DKIM1", "p=YWJj", "k=ed25519", "h=sha256", "t=s", "s=email", "n=x", "g=y", "v=DKIM2", "p=", "V=DKIM1"];
        let n = 1 + ch.pick(if t { 6 } else { 5 });
        let mut out = vec![];
        for _ in 0..n {
            let k = ch.pick(rest.len());
            out.push(rest.remove(k));
        }
        one(ch, &out.join(";"))
    });
    let lists: &[(&str, &[&str])] = &[
        ("h", &["sha256", ":", "sha1", " ", "x", "SHA", "256", "\r\n ", "Sha256", "é"]),
        ("s", &["*", ":", "email", " ", "x", "EMAIL", "\r\n ", "\t", "é"]),
        ("t", &["y", ":", "s", " ", "x", "Y", "S", "\r\n ", "é"]),
        ("k", &["rsa", "ed", "25519", " ", ":", "RSA", "ED25519", "x"]),
        ("v", &["DKIM1", "DKIM", "1", "2", " ", "dkim", "x"]),
        ("p", &["A", "z", "/", "=", " ", "\r\n ", "-", "Q"]),
        ("n", &["a", "=", "4", "f", "A", " ", "\r\n ", "\t", "é", "=E2=82", "=AC", ":"]),
    ];
    ctx.part("value grammars", 0, &|ch| {
        let (tag, toks) = ch.of(lists);
        let v = String::from_utf8(string(ch, if t { 7 } else { 6 }, toks)).unwrap();
        let s = match *tag {
            "v" => format!("v={v};p=YWJj"),
            "p" => format!("v=DKIM1;p={v}"),
            tag => match ch.pick(2) {
                0 => format!("{tag}={v};p=YWJj"),
                _ => format!("v=DKIM1;p=YWJj; {tag} = {v} ;"),
            },
        };
        one(ch, &s)
    });
    let szs = sizes(if t { 300 } else { 130 }, 4_097);
    ctx.part("sizes", 0, &|ch| {
        let n = *ch.of(&szs);
        let (tag, a, u, z) = *ch.of(&[
            ("h", "", "x:", "sha256"), ("h", "sha256", ":x", ""), ("h", "", "x", ":sha256"), ("h", "", "sha512:", "y"), ("h", "", "sha256:", "sha256"), ("h", "sha256", ":", ""),
            ("h", "", "é", ":sha256"), ("h", "sha256:", "x", ":é"), ("k", "", "rsa", ""), ("k", "ed25519", " ", ""), ("n", "", "x", ""), ("n", "", "=20", ""), ("n", "", "=C3=A9", "=ff"), ("n", "x", "=41", "=4"),
            ("n", "", "é", ""), ("n", "a", "\r\n b", ""), ("p", "", "A", ""), ("p", "", "AAAA", "AA=="), ("p", "A", " A", ""), ("p", "", "AAAA", "=AAA"), ("s", "", "x:", "email"), ("s", "*", ":x", ""), ("s", "", "x:", "y"), ("s", "", "email", ""),
            ("s", "email:", "x", ":"), ("t", "", "x:", "s"), ("t", "", "x:", "y"), ("t", "s:", "x", ""), ("t", "y", ":", ""), ("t", "", "s:", "y"), ("v", "DKIM1", " ", ""), ("v", "DKIM", "1", ""), ("g", "", "x", ""),
        ]);
        let v = format!("{tag}={a}{}{z}", u.repeat(n));
        let s = match (tag, ch.pick(3)) {
            ("p", 0) => v,
            ("p", _) => format!("v=DKIM1; k=rsa; {v}; t=s"),
            ("v", 0) => format!("{v}; p=YWJj"),
            ("v", _) => format!("{v}; n=x; p=YWJj;"),
            (_, 0) => format!("{v}; p=YWJj"),
            (_, 1) => format!("v=DKIM1; p=YWJj; {v};"),
            (_, _) => format!("v=DKIM1;{} {v}; p=", "o=x;".repeat(usize::from(n % 2 == 0))),
        };
        one(ch, &s)
    });
    let all = odd_chars();
    ctx.part("all characters in values", 0, &|ch| {
        let (c, d) = (*ch.of(&all), *ch.of(&all));
        let tag = *ch.of(&["h", "k", "n", "p", "s", "t", "v"]);
        let (a, b) = *ch.of(&[("", ""), ("s", ":s"), ("sha256:", ""), ("AA", "")]);
        let s = format!("{tag}={a}{c}{d}{b}; {}", if tag == "p" { "n=x" } else { "p=YWJj" });
        one(ch, &s)
    });
    ctx.part("one character anywhere", 0, &|ch| {
        // In a complete record, in place of or before each character.
        let base = "v=DKIM1; h = sha256 : x ; k=rsa; n=a=20b ;p=YW Jj; s=x:email;t= y : s;";
        let at = ch.pick(base.len() + 1);
        let c = *ch.of(&all);
        let cut = at + if at < base.len() { ch.pick(2) } else { 0 };
        one(ch, &format!("{}{c}{}", &base[..at], &base[cut..]))
    });
    ctx.part("encoded octets in notes", 0, &|ch| {
        let (a, b) = (ch.pick(256), ch.pick(257));
        let second = if b == 256 { String::new() } else { format!("={b:02X}") };
        let v = match ch.pick(4) {
            0 => format!("={a:02X}{second}"),
            1 => format!("x={a:02X}{second}"),
            2 => format!("={a:02X}{second}x"),
            _ => format!("={a:02x} {second}"),
        };
        one(ch, &format!("n={v}; p=YWJj"))
    });
}
