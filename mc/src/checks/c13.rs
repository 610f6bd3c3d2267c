//! C13: one lookup per key name; every DNS outcome is mapped.

use super::{
    c04::hf,
    world::{txt, World, LOOKUP_ERRORS},
};
use crate::{
    ctx::Ctx,
    env::{self, Answer, Delivery, Resolver, TxtItem},
    explore::{viol, Ch, Viol},
    keys::{key, K},
    refm::{
        crypto::H,
        header::Field,
        sign::{f, Spec},
        verify::{self, show_msg, Ans, Cfg},
    },
};
use std::{collections::BTreeMap, io::ErrorKind};

const BODY: &[u8] = b"hello\r\n";

fn base() -> Vec<Field> {
    vec![f("From", " me@example.com"), f("To", " you@example.org")]
}

fn sig(k: &'static K, d: &str, s: &str, extra: &str) -> Field {
    Spec::with(k, H::Sha256, true, true, &["From", "To"], d, s, extra).make(&base(), BODY)
}

fn records() -> Vec<(&'static str, Option<Vec<u8>>)> {
    let r = |s: String| Some(s.into_bytes());
    let ed = |k: &str| key(k).p();
    vec![
        ("matching", r(key("ed1").record())),
        ("other key", r(format!("k=ed25519; p={}", ed("ed2")))),
        ("broken", r(format!("v=DKIM1; k=ed25519 p={}", ed("ed1")))),
        ("revoked", r("k=ed25519; p=".into())),
        ("not UTF-8", Some([&b"k=ed25519; n=\xff; p="[..], ed("ed1").as_bytes()].concat())),
        ("unreadable", None),
        ("RSA", r(key("rsa1024").record())),
        ("bad key", r("k=ed25519; p=YWJj".into())),
        ("other hash", r(format!("k=ed25519; h=sha512; p={}", ed("ed1")))),
        ("matching, strict", r(format!("v=DKIM1; h=sha256:x; t=y:s; s=*; n=note; k=ed25519; p={}", ed("ed1")))),
        ("empty", r("".into())),
    ]
}

/// Key names with their spellings.
const NAMES: &[&[(&str, &str)]] = &[
    &[("example.com", "sel"), ("EXAMPLE.com", "SEL"), ("Example.Com", "sel")],
    &[("bücher.example", "sélé"), ("xn--bcher-kva.EXAMPLE", "xn--sl-bjab"), ("BÜCHER.example", "xn--sl-bjab")],
    &[("example.com", "sel2")],
    &[("example.com", "a.b")],
    &[("b.example.com", "a")],
];

fn q(d: &str, s: &str) -> String {
    use crate::refm::domain::to_ascii;
    format!("{}._domainkey.{}.", to_ascii(s, true).unwrap(), to_ascii(d, false).unwrap())
}

fn verdict(w: &World, ch: &mut Ch, sigs: &[Field], cfg: &Cfg, seed: Option<u64>, id: impl Fn() -> String) -> Result<(), Viol> {
    let mut fields = sigs.to_vec();
    fields.extend(base());
    let r = w.check(ch, &fields, BODY, cfg, seed);
    ch.describe(|| id());
    match r {
        None => Ok(()),
        Some(m) => viol(id(), format!("{m}\n{}", show_msg(&fields, BODY))),
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let recs = records();
    let ed = sig(key("ed1"), "example.com", "sel", "");
    let ed_sub = sig(key("ed1"), "example.com", "sel", " i=me@sub.example.com;");
    let rsa = sig(key("rsa1024"), "example.com", "sel", "");
    let spelled: BTreeMap<(&str, &str), Field> =
        NAMES.iter().flat_map(|n| n.iter()).map(|(d, s)| ((*d, *s), sig(key("ed1"), d, s, ""))).collect();

    ctx.part("record sets", 0, &|ch| {
        let n = ch.pick(if t { 6 } else { 5 });
        let l: Vec<_> = (0..n).map(|_| ch.of(&recs)).collect();
        let names: Vec<&str> = l.iter().map(|r| r.0).collect();
        let mut w = World::default();
        w.set(verify_q(), Ans::Txt(l.iter().map(|r| r.1.clone()).collect()));
        verdict(&w, ch, std::slice::from_ref(&ed), &Cfg::default(), None, || format!("records {names:?}"))
    });
    ctx.part("record sets shared by signatures", 0, &|ch| {
        let n = ch.pick(if t { 5 } else { 4 });
        let l: Vec<_> = (0..n).map(|_| ch.of(&recs)).collect();
        let names: Vec<&str> = l.iter().map(|r| r.0).collect();
        let mut w = World::default();
        w.set(verify_q(), Ans::Txt(l.iter().map(|r| r.1.clone()).collect()));
        let o = ch.pick(3);
        let mut sigs = vec![ed.clone(), rsa.clone(), ed_sub.clone()];
        sigs.rotate_left(o);
        verdict(&w, ch, &sigs, &Cfg::default(), None, || format!("records {names:?} rotation {o}"))
    });
    let answers: Vec<(&str, Ans)> = vec![
        ("key", Ans::Txt(vec![recs[0].1.clone()])),
        ("not found", Ans::Fail("NoKeyFound")),
        ("timeout", Ans::Fail("Timeout")),
        ("failure", Ans::Fail("KeyLookup")),
        ("bad name", Ans::Fail("InvalidKeyDomain")),
        ("empty", Ans::Txt(vec![])),
        ("wrong key", Ans::Txt(vec![recs[1].1.clone()])),
        ("broken then key", Ans::Txt(vec![recs[2].1.clone(), recs[0].1.clone()])),
        ("unreadable", Ans::Txt(vec![None])),
    ];
    ctx.part("names, spellings and outcomes", 0, &|ch| {
        let all: Vec<(usize, (&str, &str))> =
            NAMES.iter().enumerate().flat_map(|(i, n)| n.iter().map(move |x| (i, *x))).collect();
        let n = 1 + ch.pick(if t { 4 } else { 3 });
        let s: Vec<(usize, (&str, &str))> = (0..n).map(|_| *ch.of(&all)).collect();
        let mut w = World::default();
        let mut what = vec![];
        let mut used: Vec<usize> = s.iter().map(|x| x.0).collect();
        used.sort();
        used.dedup();
        for u in used {
            let (d, sl) = NAMES[u][0];
            let m = if t && n < 4 { answers.len() } else { 4 };
            let (name, a) = ch.of(&answers[..m]);
            what.push(*name);
            w.set(&q(d, sl), a.clone());
        }
        let seed = if n < 3 { ch.pick(4) as u64 } else { 0 };
        let sigs: Vec<Field> = s.iter().map(|x| spelled[&x.1].clone()).collect();
        verdict(&w, ch, &sigs, &Cfg::default(), Some(seed), || format!("names {s:?} outcomes {what:?} seed {seed}"))
    });
    ctx.part("outcomes of shared and separate names", 0, &|ch| {
        let pats: &[&[usize]] = &[&[0], &[0, 1], &[0, 2], &[0, 1, 3], &[0, 3, 6], &[3, 4, 5], &[6, 7, 8], &[7, 8, 8]];
        let all: Vec<(usize, (&str, &str))> =
            NAMES.iter().enumerate().flat_map(|(i, n)| n.iter().map(move |x| (i, *x))).collect();
        let p = ch.of(pats);
        let s: Vec<(usize, (&str, &str))> = p.iter().map(|i| all[*i]).collect();
        let mut used: Vec<usize> = s.iter().map(|x| x.0).collect();
        used.sort();
        used.dedup();
        let mut w = World::default();
        let mut what = vec![];
        for u in used {
            let (d, sl) = NAMES[u][0];
            let (name, a) = ch.of(&answers);
            what.push(*name);
            w.set(&q(d, sl), a.clone());
            w.dns.get_mut(&q(d, sl)).unwrap().1 = Delivery { pending: ch.pick(2) as u32 * 3, delay_ms: 0 };
        }
        let seed = ch.pick(if t { 6 } else { 2 }) as u64;
        let sigs: Vec<Field> = s.iter().map(|x| spelled[&x.1].clone()).collect();
        verdict(&w, ch, &sigs, &Cfg::default(), Some(seed), || format!("names {s:?} outcomes {what:?} seed {seed}"))
    });
    ctx.part("completion orders", 0, &|ch| {
        // Three names, any delays; the outcome does not depend on them.
        let mut w = World::default();
        let mut what = vec![];
        for u in 0..3 {
            let (d, s) = NAMES[u][0];
            let (name, a) = ch.of(&answers[..3]);
            let del = ch.of(&[(0, 0), (1, 0), (3, 0), (0, 1), (0, 20), (2, 300)]);
            what.push((*name, *del));
            w.dns.insert(q(d, s), (a.clone(), Delivery { pending: del.0, delay_ms: del.1 }));
        }
        let seed = ch.pick(if t { 4 } else { 1 }) as u64;
        let sigs: Vec<Field> = [NAMES[0][0], NAMES[1][1], NAMES[2][0], NAMES[0][1]].iter().map(|n| spelled[n].clone()).collect();
        verdict(&w, ch, &sigs, &Cfg::default(), Some(seed), || format!("outcomes {what:?} seed {seed}"))
    });
    ctx.part("no lookup for unusable signatures", 0, &|ch| {
        // Each unusable one under a name that a usable one has or has not.
        let d = "example.com";
        let bad: Vec<(&str, Field)> = vec![
            ("unparsable", f("DKIM-Signature", " v=1; a=ed25519-sha256; d=example.com; s=x; h=From; b=YQ==")),
            ("expired", sig(key("ed1"), d, "x", " t=1; x=2;")),
            ("future", sig(key("ed1"), d, "x", " t=99999999;")),
            ("unsigned", Spec::with(key("ed1"), H::Sha256, true, true, &["From"], d, "x", "").make(&base(), BODY)),
            ("wrong version", f("DKIM-Signature", &String::from_utf8(sig(key("ed1"), d, "x", "").1).unwrap().replace("v=1", "v=2"))),
        ];
        let n = ch.pick(3);
        let mut what = vec![];
        let mut sigs = vec![];
        for _ in 0..n {
            let b = ch.of(&bad);
            what.push(b.0);
            sigs.push(b.1.clone());
        }
        let at = ch.pick(n + 1);
        let with = ch.flag();
        let same = with && ch.flag();
        if with {
            sigs.insert(at, sig(key("ed1"), d, if same { "X" } else { "sel" }, ""));
        }
        let mut w = World::default();
        w.set(verify_q(), answers[0].1.clone()).set("x._domainkey.example.com.", answers[0].1.clone());
        let cfg = Cfg { forbidden: vec!["From".into(), "To".into()], ..Default::default() };
        verdict(&w, ch, &sigs, &cfg, None, || format!("unusable {what:?} usable {with} same name {same} at {at}"))
    });
    ctx.part("shapes of key names", 0, &|ch| {
        let labels = ["a", "_x", "_", "x_", "a-b", "a--b", "1", "Z9", "_domainkey", "é", "BÜCHER", "xn--fiqs8s", "XN--9CA", "中国"];
        let two = |ch: &mut Ch| {
            let n = 1 + ch.pick(if t { 3 } else { 2 });
            (0..n).map(|_| *ch.of(&labels)).collect::<Vec<_>>().join(".")
        };
        let (d, s) = if ch.flag() { (two(ch), "sel".to_string()) } else { ("example.com".to_string(), two(ch)) };
        let d = format!("{d}.{}", ch.of(&["com", "Example", "_t"]));
        // A second one in another spelling asks nothing more.
        let up = |x: &str| if x.is_ascii() { x.to_uppercase() } else { x.to_string() };
        let sigs = [sig(key("ed1"), &d, &s, ""), sig(key("ed1"), &up(&d), &up(&s), "")];
        let mut w = World::default();
        w.set(&q(&d, &s), answers[0].1.clone());
        verdict(&w, ch, &sigs, &Cfg::default(), Some(0), || format!("names {s} {d}"))
    });
    ctx.part("many records", 0, &|ch| {
        // All of one kind but one of another kind.
        let n = if t { 1 + ch.pick(60) } else { *ch.of(&[1usize, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 33]) };
        let at = ch.pick(n);
        let (most, one) = (ch.pick(recs.len()), ch.pick(recs.len()));
        if most == one && at > 0 {
            ch.skip();
            return Ok(());
        }
        let mut w = World::default();
        let l = (0..n).map(|i| recs[if i == at { one } else { most }].1.clone()).collect();
        w.set(verify_q(), Ans::Txt(l));
        verdict(&w, ch, std::slice::from_ref(&ed), &Cfg::default(), None, || {
            format!("{n} records {} but one {} at {at}", recs[most].0, recs[one].0)
        })
    });
    ctx.part("long names and records", 0, &|ch| {
        // Labels and names up to the limits of DNS; records of any size.
        let ns = crate::util::sizes(if t { 260 } else { 70 }, if t { 70_000 } else { 5_000 });
        let n = *ch.of(&ns);
        let mut w = World::default();
        let (mut d, mut s) = ("example.com".to_string(), "sel".to_string());
        let good = key("ed1").record();
        let mut rec = good.clone();
        match ch.pick(5) {
            0 if n > 0 && n < 64 => s = "s".repeat(n),
            1 if n > 0 && n < 64 => d = format!("{}.com", "d".repeat(n)),
            2 if n > 0 && n < 100 => s = vec!["s"; n].join("."),
            3 => rec = format!("n={}; {good}", "x".repeat(n)).replace("v=DKIM1; ", ""),
            4 if n < 600 => rec = format!("{good}{}", (0..n).map(|i| format!("; x{i}=y")).collect::<String>()),
            _ => {
                ch.skip();
                return Ok(());
            }
        }
        w.set(&q(&d, &s), txt(&rec));
        let sigs = [sig(key("ed1"), &d, &s, "")];
        verdict(&w, ch, &sigs, &Cfg::default(), Some(0), || format!("names {s} {d} record of {} octets", rec.len()))
    });
    ctx.part("key names up to the greatest length", 0, &|ch| {
        // Of 253 characters, however shared by domain and selector.
        let total = 40 + ch.pick(214);
        let left = total - "._domainkey.".len();
        let sl = [1, 2, left / 3, left / 2, 2 * left / 3, left - 8, left - 5][ch.pick(7)];
        let by = *ch.of(&[63, 62, 10, 1]);
        let name = |n: usize, c: &str| -> Option<String> {
            // Labels of so many characters, n in all.
            let mut v = String::new();
            while v.len() < n {
                if !v.is_empty() {
                    v.push('.');
                }
                let m = by.min(n - v.len());
                v.push_str(&c.repeat(m));
            }
            (n > 0 && !v.ends_with('.') && v.len() == n).then_some(v)
        };
        let (Some(s), Some(d)) = (name(sl, "s"), name(left - sl - 4, "d")) else {
            ch.skip();
            return Ok(());
        };
        let d = format!("{d}.com");
        let mut w = World::default();
        w.set(&q(&d, &s), txt(&key("ed1").record()));
        let sigs = [sig(key("ed1"), &d, &s, "")];
        verdict(&w, ch, &sigs, &Cfg::default(), Some(0), || format!("names {s} {d}"))
    });
    ctx.part("names with every character", 0, &|ch| {
        // Two names that differ in no more than a character.
        let chars: Vec<char> = (0..128u8).map(|b| b as char).filter(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '_')).collect();
        let a = *ch.of(&chars);
        let b = *ch.of(&if t { chars.clone() } else { vec![a, a.to_ascii_uppercase(), a.to_ascii_lowercase(), 'a', '-', '_', '0'] });
        let tpl = *ch.of(&["x?y", "x.?y?z", "é.x?y"]);
        let (x, y) = (tpl.replace('?', &a.to_string()), tpl.replace('?', &b.to_string()));
        let in_d = ch.flag();
        let place = |x: &str| if in_d { (format!("{x}.example"), "s".to_string()) } else { ("example.com".to_string(), x.to_string()) };
        let ((d1, s1), (d2, s2)) = (place(&x), place(&y));
        if [&x, &y].iter().any(|x| crate::refm::domain::to_ascii(x, true).is_none()) {
            ch.skip();
            return Ok(());
        }
        let mut w = World::default();
        let second = ch.pick(3);
        w.set(&q(&d2, &s2), match second { 0 => Ans::Fail("NoKeyFound"), 1 => txt(&key("ed2").record()), _ => txt(&key("ed1").record()) });
        w.set(&q(&d1, &s1), txt(&key("ed1").record()));
        let sigs = [sig(key("ed1"), &d1, &s1, ""), sig(key("ed1"), &d2, &s2, "")];
        verdict(&w, ch, &sigs, &Cfg::default(), Some(0), || format!("names {s1} {d1} and {s2} {d2}, second {second}"))
    });
    ctx.part("records with every octet", 0, &|ch| {
        let good = key("ed1").record();
        let p = good.split("p=").nth(1).unwrap().to_string();
        let c = ch.pick(256) as u8;
        let d = *ch.of(if t { &b"x\x80\xc3\xa9= ;"[..] } else { b"x\xa9" });
        let tpl = match ch.pick(9) {
            0 => format!("?; {good}"),
            1 => format!("{good}?"),
            2 => format!("{good}; x=?%"),
            3 => format!("{good}; n=?%"),
            4 => format!("{good}; x?=y"),
            5 => format!("v=DKIM1; k=ed25519; t=y?s; p={p}"),
            6 => format!("v=DKIM1; k=ed25519; h=sha256?; p={p}"),
            7 => format!("v=DKIM1;?k=ed25519; s=?*; p={p}"),
            _ => format!("v=DKIM1; k=ed25519; p={}?%{}", &p[..20], &p[20..]),
        };
        let rec: Vec<u8> = tpl.bytes().map(|b| match b { b'?' => c, b'%' => d, b => b }).collect();
        let mut w = World::default();
        let two = ch.flag();
        let mut v = vec![Some(rec.clone())];
        if two {
            v.insert(0, Some(key("ed2").record().into_bytes()));
        }
        w.set(verify_q(), Ans::Txt(v));
        verdict(&w, ch, &[ed.clone()], &Cfg::default(), Some(0), || format!("record {} second: {two}", crate::util::show(&rec)))
    });
    ctx.part("records with odd characters", 0, &|ch| {
        let good = key("ed1").record();
        let all: Vec<char> = crate::util::odd_chars();
        let c = ch.of(&all).to_string().repeat(1 + ch.pick(2));
        let p = good.split("p=").nth(1).unwrap().to_string();
        let rec = match ch.pick(10) {
            0 => format!("{c}{good}"),
            1 => format!("{good}{c}"),
            2 => format!("{good};{c}"),
            3 => format!("v=DKIM1{c}; k=ed25519; p={p}"),
            4 => format!("v={c}DKIM1; k=ed25519; p={p}"),
            5 => format!("v=DKIM1; k=ed25519;{c} p={p}"),
            6 => format!("v=DKIM1; k=ed25519; p={c}{p}"),
            7 => format!("v=DKIM1; k=ed25519; p={}{c}{}", &p[..9], &p[9..]),
            8 => format!("\"{good}\"{c}"),
            _ => format!("{c}{good}{c}"),
        };
        let mut w = World::default();
        w.set(verify_q(), txt(&rec));
        verdict(&w, ch, &[ed.clone()], &Cfg::default(), Some(0), || format!("record {rec:?}"))
    });
    ctx.part("kinds of errors", 0, &|ch| {
        let kinds: Vec<ErrorKind> =
            LOOKUP_ERRORS.iter().copied().chain([ErrorKind::NotFound, ErrorKind::InvalidInput, ErrorKind::TimedOut]).collect();
        let k = *ch.of(&kinds);
        let res = Resolver::new();
        let mode = ch.pick(4);
        let want = match mode {
            0 | 1 => match k {
                ErrorKind::NotFound => "NoKeyFound",
                ErrorKind::InvalidInput => "InvalidKeyDomain",
                ErrorKind::TimedOut => "Timeout",
                _ => "KeyLookup",
            },
            2 => "KeyRecordFormat(RecordFormat)",
            _ => "success",
        };
        let good = TxtItem::Bytes(recs[0].1.clone().unwrap());
        res.set(
            verify_q(),
            match mode {
                0 => Answer::Err(k),
                1 => Answer::ErrOther(k),
                2 => Answer::Txt(vec![TxtItem::Err(k)]),
                _ => Answer::Txt(if ch.flag() { vec![TxtItem::Err(k), good] } else { vec![good, TxtItem::Err(k)] }),
            },
        );
        let mut fields = vec![ed.clone()];
        fields.extend(base());
        let v = env::verify(&res, &hf(&fields), &Cfg::default().lib(), &[BODY], false);
        ch.op(3);
        let got: Vec<String> = v.iter().flatten().map(|r| verify::status_str(&r.status)).collect();
        if got != [want] || res.queries() != [verify_q()] {
            return viol(format!("error {k:?} mode {mode}"), format!("{got:?} expected {want}, queries {:?}", res.queries()));
        }
        Ok(())
    });
}

fn verify_q() -> &'static str {
    crate::refm::sign::QNAME
}
