//! C15: what a key record demands is enforced on every signature.

use super::{
    common::PRE,
    world::World,
};
use crate::{
    ctx::Ctx,
    explore::{viol, Ch, Viol},
    keys::key,
    refm::{
        crypto::H,
        domain,
        header::Field,
        sign::{f, signed, Spec},
        verify::{show_msg, Ans, Cfg},
    },
};

const BODY: &[u8] = b"hello\r\n";

struct S {
    query: String,
    fields: Vec<Field>,
    name: String,
}

fn signatures() -> Vec<S> {
    let hdr = vec![f("From", " me"), f("To", " you")];
    let mut v = vec![];
    let mut algs = vec![("ed1", H::Sha256), ("rsa1024", H::Sha256)];
    if PRE {
        algs.push(("rsa1024", H::Sha1));
    }
    for (k, h) in algs {
        for d in ["example.com", "bücher.example", "xn--bcher-kva.EXAMPLE"] {
            let sub = |p: &str| format!("{p}{d}");
            let mut ids = vec![None, Some(sub("@")), Some(sub("me@")), Some(sub("me@sub.")), Some(sub("@a.b."))];
            ids.push(Some(format!("me@{}", d.to_uppercase())));
            if d != "example.com" {
                ids.push(Some("x@xn--bcher-kva.example".into()));
                ids.push(Some("@bücher.example".into()));
                ids.push(Some("@é.bücher.example".into()));
            }
            for i in ids {
                let x = i.as_ref().map_or(String::new(), |i| format!(" i={i};"));
                let s = Spec::with(key(k), h, true, true, &["From", "To"], d, "sel", &x);
                v.push(S {
                    query: format!("sel._domainkey.{}.", domain::to_ascii(d, false).unwrap()),
                    fields: signed(&s, &hdr, BODY),
                    name: format!("{k} {h:?} d={d}{x}"),
                });
            }
        }
    }
    v
}

fn record(ch: &mut Ch) -> String {
    let ps = [
        key("ed1").p(),
        key("rsa1024").p(),
        String::new(),
        key("ed2").p(),
        key("rsa1024b").p(),
        key("rsa1024").p_pkcs1(),
        "YWJj".to_string(),
        "!".to_string(),
    ];
    let mut r = String::new();
    r.push_str(ch.of(&["", "k=rsa; ", "k=ed25519; "]));
    r.push_str(ch.of(&["", "h=sha256; ", "h=sha1; ", "h=sha1:sha256; ", "h=sha512:SHA256; ", "h=sha512; ", "h=; "]));
    r.push_str(ch.of(&["", "t=s; ", "t=y; ", "t=y:s; ", "t=x:S; ", "t=ss:x; "]));
    format!("{r}p={}", ch.of(&ps))
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let sigs = signatures();
    let go = |ch: &mut Ch, s: &S, recs: &[String]| -> Result<(), Viol> {
        let mut w = World::default();
        w.set(&s.query, Ans::Txt(recs.iter().map(|r| Some(r.clone().into_bytes())).collect()));
        let cfg = Cfg { allow_sha1: true, min_bits: 0, ..Default::default() };
        let r = w.check(ch, &s.fields, BODY, &cfg, None);
        ch.describe(|| format!("signature {} records {recs:?}", s.name));
        match r {
            None => Ok(()),
            Some(m) => viol(format!("signature {} records {recs:?}", s.name), format!("{m}\n{}", show_msg(&s.fields, BODY))),
        }
    };
    ctx.part("records x signatures", 0, &|ch| {
        let r = record(ch);
        let s = ch.of(&sigs);
        go(ch, s, &[r])
    });
    ctx.part("what does not matter", 0, &|ch| {
        // Further tags, in any place, and their order.
        let s = ch.of(&sigs);
        let k = if s.name.starts_with("ed") { "ed1" } else { "rsa1024" };
        let mut tags = vec![format!("k={}", if k == "ed1" { "ed25519" } else { "rsa" }), format!("p={}", key(k).p())];
        for (i, more) in [&["n=note", "n=a=20b"][..], &["s=email", "s=*", "s=x:*", "s=tlsrpt"], &["t=y", "t=z", "t=s"], &["x=1", "g=*"]].iter().enumerate() {
            let c = ch.pick(more.len() + 1);
            if c > 0 {
                let at = if i % 2 == 0 { tags.len() } else { 0 };
                tags.insert(at, more[c - 1].to_string());
            }
        }
        if ch.flag() {
            tags.insert(0, "v=DKIM1".into());
        }
        if ch.flag() {
            let n = tags.len() - 1;
            tags.swap(n, n / 2);
        }
        let r = tags.join(*ch.of(&["; ", ";", " ;\t"]));
        go(ch, s, &[r])
    });
    ctx.part("every list of hashes and flags", 0, &|ch| {
        // In every order, with repetitions.
        let s = ch.of(&sigs);
        let k = if s.name.starts_with("ed") { "ed1" } else { "rsa1024" };
        let (what, items) = if ch.flag() {
            ("h", ["sha256", "sha1", "SHA1", "Sha256", "x"])
        } else {
            ("t", ["s", "y", "S", "Y", "x"])
        };
        let n = 1 + ch.pick(if t { 5 } else { 4 });
        let l: Vec<&str> = (0..n).map(|_| *ch.of(&items)).collect();
        let other = if ch.flag() { "" } else if what == "h" { " t=y:s;" } else { " h=sha1:sha256;" };
        let sep = ch.of(&[":", " :\t"]);
        go(ch, s, &[format!("k={};{other} {what}={}; p={}", if k == "ed1" { "ed25519" } else { "rsa" }, l.join(sep), key(k).p())])
    });
    ctx.part("several records", 0, &|ch| {
        let some: Vec<&S> = sigs.iter().filter(|s| !s.name.contains("cher") && (!s.name.contains("i=") || s.name.contains("sub"))).collect();
        let s = *ch.of(&some);
        let ed = key("ed1").p();
        let rsa = key("rsa1024").p();
        let rs = [
            format!("k=ed25519; p={ed}"),
            format!("p={rsa}"),
            format!("k=ed25519; t=s; p={ed}"),
            format!("k=rsa; t=s; p={rsa}"),
            format!("k=ed25519; h=sha1; p={ed}"),
            format!("h=sha1; p={rsa}"),
            "k=ed25519; p=".into(),
            "p=".into(),
            "p=YWJj".into(),
            format!("p={}", key("rsa512").p()),
            "v=DKIM2; p=".into(),
        ];
        let n = 1 + ch.pick(if t { 4 } else { 3 });
        let l: Vec<String> = (0..n).map(|_| ch.of(&rs).clone()).collect();
        go(ch, s, &l)
    });
    ctx.part("long lists and many tags", 0, &|ch| {
        // The entry that decides among many others.
        let ns = crate::util::sizes(if t { 80 } else { 20 }, if t { 1_100 } else { 140 });
        let n = *ch.of(&ns);
        let at = [0, n / 2, n][ch.pick(3)];
        let kind = ch.pick(3);
        let list = |x: &str| (0..=n).map(|i| if i == at { x.to_string() } else { format!("x{i}") }).collect::<Vec<_>>().join(":");
        let s: &S = ch.of(&sigs);
        let k = if s.name.starts_with("ed") { "ed1" } else { "rsa1024" };
        let kt = format!("k={}", if k == "ed1" { "ed25519" } else { "rsa" });
        let p = format!("p={}", key(k).p());
        let r = match kind {
            0 => format!("{kt}; h={}; {p}", list(ch.of(&["sha256", "sha1", "SHA256", "x"]))),
            1 => format!("{kt}; t={}; {p}", list(ch.of(&["s", "y", "S", "x"]))),
            _ => {
                let mut tags: Vec<String> = (0..n).map(|i| format!("x{i}=y")).collect();
                tags.insert(at, ch.of(&["t=s", "h=sha1", "t=y"]).to_string());
                if ch.flag() {
                    format!("{}; {kt}; {p}", tags.join("; "))
                } else {
                    format!("{kt}; {p}; {}", tags.join(";"))
                }
            }
        };
        go(ch, s, &[r])
    });
}
