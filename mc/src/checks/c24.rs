//! C24: signatures interoperate bit-exactly with independent implementations.

use super::{
    c01::{body_len, CLOCK},
    common::{lib_sign, PRE},
    reqgen::{self, ReqSpec},
    world::{txt, World},
};
use crate::{
    ctx::Ctx,
    env,
    explore::{viol, Ch, Viol},
    keys::{key, Pub, K},
    refm::{
        body,
        crypto::{self, H},
        header::{hash_input, Field},
        mail, own,
        sign::{alg_name, c_name, f, Spec, QNAME},
        sigparse::{self, P},
        verify::{show_msg, Cfg},
    },
    util::show,
};
use base64ct::{Base64, Encoding};
use viadkim::crypto::{HashAlgorithm, KeyType, VerifyingKey};

const BODY: &[u8] = b" Hello \t there \r\n\r\nx\r\n\r\n";

/// What was issued is, bit for bit, what an independent signer would have
/// produced for the same header text.
fn issued(ch: &mut Ch, r: &ReqSpec, fields: &[Field], b: &[u8], pieces: usize) -> Result<(), Viol> {
    let id = || format!("{} request {r:?} in {pieces}", show_msg(fields, b));
    if body::ambiguous(b) && r.br {
        ch.skip();
        return Ok(());
    }
    let chunks: Vec<&[u8]> = match pieces {
        0 => vec![b],
        n => b.chunks(n).collect(),
    };
    let out = env::with_clock(Some((CLOCK, 1)), || lib_sign(fields, vec![r.build()], &chunks, false));
    ch.op(2 + chunks.len() as u64);
    let o = match out.map(|mut o| o.remove(0)) {
        Ok(Ok(o)) => o,
        other => return viol(id(), format!("refused: {other:?}")),
    };
    let v = &o.header_value;
    ch.describe(|| format!("{} -> {}", id(), show(v.as_bytes())));
    let bad = |m: String| viol(id(), format!("{m}: {}", show(v.as_bytes())));
    let s = match sigparse::parse(v, PRE) {
        P::Ok(s) => s,
        P::Unspecified => {
            ch.label("unspecified");
            return Ok(());
        }
        P::Bad(k, _) => return bad(format!("ill-formed {k:?}")),
    };
    ch.label("issued");
    if s.alg != alg_name(r.key, r.h) || s.c != (r.hr, r.br) {
        return bad(format!("algorithm {}, canonicalisation {:?}", s.alg, s.c));
    }
    // The body hash.
    let mut c = body::canon(r.br, b);
    if let Some(l) = s.l {
        if l > c.len() as u64 {
            return bad("body length beyond the end".into());
        }
        c.truncate(l as usize);
    }
    if s.bh != own::digest(r.h, &c) {
        return bad(format!("body hash of something else than {} bytes", c.len()));
    }
    // The signature.
    let input = hash_input(r.hr, fields, &s.h, &o.header_name, v);
    let want = crypto::sign(r.key, r.h, &own::digest(r.h, &input));
    if s.b != want || o.signature.signature_data[..] != want[..] {
        return bad(format!("not the signature of {}", show(&input)));
    }
    Ok(())
}

const WS: &[&str] = &["", " ", "\t", "\r\n ", " \r\n\t "];

/// How an independent signer may lay out its header field.
#[derive(Clone, Debug)]
struct Layout {
    order: Vec<usize>,
    /// Before the name, after the name, after "=", before ";".
    ws: [&'static str; 4],
    /// Only around this tag.
    only: Option<usize>,
    end: &'static str,
    /// White space inside base64 values, every so many characters.
    b64: Option<(&'static str, usize)>,
    /// Around the colons of h=.
    h_ws: (&'static str, &'static str),
    field_name: &'static str,
}

impl Layout {
    fn plain(n: usize) -> Layout {
        Layout {
            order: (0..n).collect(),
            ws: [" ", "", "", ""],
            only: None,
            end: "",
            b64: None,
            h_ws: ("", ""),
            field_name: "DKIM-Signature",
        }
    }
    fn spaced(&self, s: &str) -> String {
        match self.b64 {
            None => s.to_string(),
            Some((w, n)) => s
                .as_bytes()
                .chunks(n)
                .map(|c| std::str::from_utf8(c).unwrap())
                .collect::<Vec<_>>()
                .join(w),
        }
    }
}

struct Foreign {
    key: &'static K,
    h: H,
    c: (bool, bool),
    names: Vec<&'static str>,
    /// Other tags: name and value; "c" is there only if given here.
    extra: Vec<(&'static str, String)>,
    limit: Option<usize>,
}

impl Foreign {
    fn tags(&self) -> Vec<(&'static str, String)> {
        let mut v: Vec<(&str, String)> = vec![
            ("v", "1".into()),
            ("a", alg_name(self.key, self.h).into()),
            ("d", "example.com".into()),
            ("s", "sel".into()),
            ("h", "?".into()),
            ("bh", "?".into()),
            ("b", "?".into()),
        ];
        v.extend(self.extra.iter().cloned());
        if let Some(l) = self.limit {
            v.push(("l", l.to_string()));
        }
        v
    }
    fn make(&self, l: &Layout, fields: &[Field], b: &[u8]) -> Field {
        let mut c = body::canon(self.c.1, b);
        if let Some(n) = self.limit {
            c.truncate(n);
        }
        let bh = Base64::encode_string(&own::digest(self.h, &c));
        let tags = self.tags();
        let text = |b: &str| {
            let parts: Vec<String> = l
                .order
                .iter()
                .map(|i| {
                    let (n, v) = &tags[*i];
                    let v = match *n {
                        "h" => self.names.join(&format!("{}:{}", l.h_ws.0, l.h_ws.1)),
                        "bh" => l.spaced(&bh),
                        "b" => l.spaced(b),
                        _ => v.clone(),
                    };
                    let w = if l.only.is_none_or(|o| o == *i) { l.ws } else { [" ", "", "", ""] };
                    // b= is empty when signing, then there is nothing around it.
                    if *n == "b" && v.is_empty() {
                        return format!("{}b{}=", w[0], w[1]);
                    }
                    format!("{}{n}{}={}{v}{}", w[0], w[1], w[2], w[3])
                })
                .collect();
            // The end belongs to the value of a last b= unless a semicolon precedes.
            let last_b = tags[*l.order.last().unwrap()].0 == "b";
            let end = if b.is_empty() && last_b && !l.end.starts_with(';') { "" } else { l.end };
            parts.join(";") + end
        };
        let names: Vec<String> = self.names.iter().map(|s| s.to_string()).collect();
        let unsigned = text("");
        let mut input = crate::refm::header::canon_fields(self.c.0, fields, &names);
        input.extend(crate::refm::header::canon_field(self.c.0, l.field_name, unsigned.as_bytes()));
        let s = crypto::sign(self.key, self.h, &own::digest(self.h, &input));
        (l.field_name.to_string(), text(&Base64::encode_string(&s)).into_bytes())
    }
}

fn msg() -> Vec<Field> {
    vec![
        f("Received", " one\r\n\ttwo"),
        f("From", "  Me  <me@example.com>\t"),
        f("To", "you@example.org"),
        f("SUBJECT", " a\r\n  b \t c "),
        f("To", " second"),
    ]
}

fn accepted(ch: &mut Ch, field: Field, fields: &[Field], b: &[u8], rec: &str, weak: bool) -> Result<(), Viol> {
    let mut all = vec![field];
    all.extend(fields.iter().cloned());
    let mut w = World::default();
    w.set(QNAME, txt(rec));
    let cfg = Cfg { forbidden: vec![], allow_sha1: weak, min_bits: if weak { 0 } else { 1024 }, ..Default::default() };
    let id = || format!("{} record {rec}", show_msg(&all, b));
    ch.describe(id);
    if !mail::body_ok(&all[0].1) {
        ch.skip();
        return Ok(());
    }
    let want = w.expect(&all, b, &cfg);
    let ok = std::collections::BTreeSet::from(["success".to_string()]);
    if want.len() != 1 || want[0].status.as_ref().is_some_and(|s| *s != ok) {
        return viol(id(), format!("HARNESS: the model says {want:?}"));
    }
    if want[0].status.is_none() {
        ch.label("unspecified");
        return Ok(());
    }
    match w.check(ch, &all, b, &cfg, None) {
        None => Ok(()),
        Some(m) => viol(id(), m),
    }
}

fn permutation(ch: &mut Ch, n: usize) -> Vec<usize> {
    let mut rest: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    while !rest.is_empty() {
        out.push(rest.remove(ch.pick(rest.len())));
    }
    out
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let all = |ch: &mut Ch, r: &mut ReqSpec| -> Result<(), Viol> {
        let fields = ch.devof(&reqgen::messages()).clone();
        reqgen::deviate(ch, r, true);
        let b = ch.devof(&reqgen::bodies()).clone();
        let n = ch.dev(5);
        r.bl = body_len(r, n, &b);
        let p = *ch.devof(&[0, 1, 7]);
        issued(ch, r, &fields, &b, p)
    };
    if !PRE {
        ctx.part("issued, Ed25519", if t { 4 } else { 3 }, &|ch| all(ch, &mut ReqSpec::plain(key("ed1"))));
    }
    let rsa: &[&str] = if PRE { &["rsa512", "rsa1024"] } else { &["rsa1024", "rsa1017", "rsa2047"] };
    ctx.part("issued, RSA", if t { 3 } else { 2 }, &|ch| {
        let k = key(ch.of(&rsa[..if t { rsa.len() } else { 1 }]));
        all(ch, &mut ReqSpec::plain(k))
    });
    ctx.part("issued, RSA, every key", 1, &|ch| {
        let some: Vec<&K> = crate::keys::all().iter().filter(|k| k.is_rsa() && k.bits() >= 512).collect();
        let k = *ch.of(&some);
        all(ch, &mut ReqSpec::plain(k))
    });
    ctx.part("issued, message x selection x canonicalisation", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed2"));
        let fields = ch.of(&reqgen::messages()).clone();
        r.sel = ch.of(&reqgen::selections()).clone();
        r.hr = ch.flag();
        r.br = ch.flag();
        let b = ch.of(&reqgen::bodies()).clone();
        let n = if t { ch.pick(5) } else { *ch.of(&[0, 4]) };
        r.bl = body_len(&r, n, &b);
        r.copy = ch.flag();
        r.header_name = ch.of(reqgen::NAMES).to_string();
        r.order = *ch.of(if t { &[0, 2, 5, 6][..] } else { &[0, 6] });
        issued(ch, &r, &fields, &b, 0)
    });
    ctx.part("issued, layout around the signature value", 0, &|ch| {
        let mut r = ReqSpec::plain(key(ch.of(&["ed1", "rsa1024"])));
        r.width = 1 + ch.pick(if t { 300 } else { 90 });
        r.order = *ch.of(&[0, 1, 2, 5, 6, 8]);
        r.indent = ch.of(&reqgen::INDENTS[..3]).to_string();
        r.hr = ch.flag();
        issued(ch, &r, &reqgen::messages()[0], b"x\r\n", 0)
    });
    ctx.part("issued, sizes", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        let (fields, b) = reqgen::sized(ch, &mut r, t);
        issued(ch, &r, &fields, &b, 0)
    });
    ctx.part("issued, every character", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        let Some((fields, b)) = reqgen::lettered(ch, &mut r, t) else {
            ch.skip();
            return Ok(());
        };
        issued(ch, &r, &fields, &b, 0)
    });

    // Signatures made elsewhere.
    let ks: &[(&str, H)] = if PRE { &[("rsa512", H::Sha1), ("rsa1024", H::Sha1), ("rsa1024", H::Sha256)] } else { &[("ed1", H::Sha256), ("rsa1024", H::Sha256)] };
    let foreign = |ch: &mut Ch, c: (bool, bool)| -> Foreign {
        let (k, h) = *ch.devof(ks);
        Foreign { key: key(k), h, c, names: vec!["From", "To", "Subject"], extra: vec![("c", c_name(c.0, c.1).into())], limit: None }
    };
    let rec = |fo: &Foreign| fo.key.record();
    ctx.part("foreign, tag order", 0, &|ch| {
        // Every order of the eight tags.
        let (k, h) = if t { *ch.of(ks) } else { ks[0] };
        let c = (ch.flag(), true);
        let fo = Foreign { key: key(k), h, c, names: vec!["From", "To"], extra: vec![("c", c_name(c.0, c.1).into())], limit: None };
        let l = Layout { order: permutation(ch, 8), ..Layout::plain(8) };
        accepted(ch, fo.make(&l, &msg(), BODY), &msg(), BODY, &rec(&fo), PRE)
    });
    ctx.part("foreign, white space around tags", if t { 4 } else { 2 }, &|ch| {
        let c = *ch.of(&[(false, false), (true, true)]);
        let fo = foreign(ch, c);
        let mut l = Layout::plain(8);
        let only = ch.pick(9);
        l.only = (only < 8).then_some(only);
        for i in 0..4 {
            l.ws[i] = ch.devof(WS);
        }
        // The first tag, and the end.
        let r = *ch.of(&[0, 7, 6]);
        l.order.rotate_left(r);
        l.end = ch.of(&["", ";"]);
        accepted(ch, fo.make(&l, &msg(), BODY), &msg(), BODY, &rec(&fo), PRE)
    });
    ctx.part("foreign, white space inside values", if t { 4 } else { 2 }, &|ch| {
        let c = *ch.of(&[(false, false), (true, true)]);
        let fo = foreign(ch, c);
        let mut l = Layout::plain(8);
        let w = *ch.of(&WS[1..]);
        let n = *ch.of(&[1, 2, 3, 5, 40, 43, 44, 87, 1000]);
        l.b64 = Some((w, n));
        l.h_ws = (ch.devof(WS), ch.devof(WS));
        l.ws[2] = ch.devof(WS);
        l.ws[3] = ch.devof(WS);
        if ch.flag() {
            l.order.swap(6, 7);
        }
        l.end = ch.of(&["", ";"]);
        accepted(ch, fo.make(&l, &msg(), BODY), &msg(), BODY, &rec(&fo), PRE)
    });
    ctx.part("foreign, one break in the signature value", 1, &|ch| {
        // At every place.
        let c = (ch.flag(), false);
        let fo = foreign(ch, c);
        let mut l = Layout::plain(8);
        if ch.flag() {
            l.order.swap(6, 7);
        }
        let (n, v) = fo.make(&l, &msg(), BODY);
        let text = String::from_utf8(v).unwrap();
        let at = text.find(" b=").unwrap() + 3;
        let end = text[at..].find(';').map_or(text.len(), |i| at + i);
        let i = at + ch.pick(end - at + 1);
        let v = format!("{}{}{}", &text[..i], ch.of(&WS[1..]), &text[i..]);
        accepted(ch, (n, v.into_bytes()), &msg(), BODY, &rec(&fo), PRE)
    });
    ctx.part("foreign, defaults and optional tags", if t { 4 } else { 3 }, &|ch| {
        // c= in full, half, or not at all.
        let (c, text) = *ch.of(&[
            ((false, false), None),
            ((false, false), Some("simple")),
            ((true, false), Some("relaxed")),
            ((false, false), Some("simple/simple")),
            ((false, true), Some("simple/relaxed")),
            ((true, false), Some("relaxed/simple")),
            ((true, true), Some("relaxed/relaxed")),
        ]);
        let mut fo = foreign(ch, c);
        fo.extra.clear();
        if let Some(x) = text {
            fo.extra.push(("c", x.into()));
        }
        let len = body::canon(c.1, BODY).len();
        fo.limit = *ch.devof(&[None, Some(0), Some(1), Some(len - 1), Some(len)]);
        let names: &[&[&str]] = &[
            &["From", "To", "Subject"],
            &["from"],
            &["FROM", "subject", "TO", "to", "to", "X-Absent", "From"],
            &["Received", "From", "dkim-signature"],
        ];
        fo.names = ch.devof(names).to_vec();
        for (n, vals) in [
            ("q", &["", "dns/txt", "dns/txt:dns/txt", "other:dns/txt", "dns/txt : x/y"][..]),
            ("i", &["", "@example.com", "me@example.com", "@Sub.EXAMPLE.com", "=22a=3Bb=22@x.example.com"]),
            ("t", &["", "0", "1000000", "000001000000", "1000300"]),
            ("x", &["", "1000301", "999999999999", "18446744073709551615"]),
            ("z", &["", "From:x|To:y=7Cz", "To:\r\n\ta=20b|\r\n Subject:=C3=A9"]),
            ("r", &["", "y"]),
            ("e", &["", "some thing\r\n more", "é", "=x=:|@"]),
        ] {
            let v = *ch.devof(vals);
            if !v.is_empty() {
                fo.extra.push((n, v.into()));
            }
        }
        let n = fo.tags().len();
        let mut l = Layout::plain(n);
        l.field_name = ch.devof(&["DKIM-Signature", "dkim-signature", "DKIM-SIGNATURE"]);
        match ch.dev(3) {
            0 => {}
            1 => l.order.reverse(),
            _ => l.order.rotate_left(6),
        }
        l.ws[0] = ch.devof(&[" ", "", "\r\n\t"]);
        l.end = ch.devof(&["", ";"]);
        accepted(ch, fo.make(&l, &msg(), BODY), &msg(), BODY, &rec(&fo), PRE)
    });
    ctx.part("foreign, unknown tags", 0, &|ch| {
        // At any place; names and values that resemble those of known ones.
        let c = *ch.of(&[(false, false), (true, true)]);
        let (k, h) = ks[0];
        let mut fo = Foreign { key: key(k), h, c, names: vec!["From", "To"], extra: vec![("c", c_name(c.0, c.1).into())], limit: None };
        let names = ["B", "BH", "b_", "b1", "bb", "Bh", "V", "D", "x_b", "bh2", "p"];
        let vals = ["", "YWJj", "b=", "x b=y", "b = c\r\n b=d", "b", "=", "; b=".trim_start_matches(';')];
        let n = 1 + ch.pick(if t { 2 } else { 1 });
        for i in 0..n {
            let j = ch.pick(names.len());
            if fo.extra.iter().any(|e| e.0 == names[j]) {
                ch.skip();
                return Ok(());
            }
            fo.extra.push((names[j], vals[if i == 0 { ch.pick(vals.len()) } else { 1 }].into()));
        }
        let total = fo.tags().len();
        let mut l = Layout::plain(total);
        for i in 0..n {
            let x = l.order.remove(8 + i);
            let at = ch.pick(8 + i + 1);
            l.order.insert(at, x);
        }
        // The signature value last, or not.
        if ch.flag() {
            let at = l.order.iter().position(|i| *i == 6).unwrap();
            let b = l.order.remove(at);
            l.order.push(b);
        }
        l.ws = *ch.of(&[[" ", "", "", ""], ["", "", "", ""], ["\r\n\t", " ", "\r\n ", "\t"]]);
        l.end = ch.of(&["", ";"]);
        accepted(ch, fo.make(&l, &msg(), BODY), &msg(), BODY, &rec(&fo), PRE)
    });
    ctx.part("foreign, key records", if t { 4 } else { 3 }, &|ch| {
        let fo = foreign(ch, (true, true));
        let h = if fo.h == H::Sha1 { "sha1" } else { "sha256" };
        let mut tags: Vec<(String, String)> = vec![];
        let mut add = |n: &str, v: String| tags.push((n.into(), v));
        if let Some(v) = *ch.devof(&[Some("DKIM1"), None]) {
            add("v", v.into());
        }
        if fo.key.is_rsa() {
            if let Some(k) = *ch.devof(&[None, Some("rsa"), Some("RSA")]) {
                add("k", k.into());
            }
        } else {
            add("k", ch.devof(&["ed25519", "ED25519", "Ed25519"]).to_string());
        }
        if let Some(v) = ch.devof(&[None, Some(h.to_string()), Some(format!("x : {h}")), Some(h.to_uppercase()), Some("sha256:sha1".into())]) {
            add("h", v.clone());
        }
        if let Some(v) = *ch.devof(&[None, Some("email"), Some("*"), Some("x:email"), Some("* : y")]) {
            add("s", v.into());
        }
        if let Some(v) = *ch.devof(&[None, Some("y"), Some("s"), Some("y:s"), Some("z : s"), Some("q")]) {
            add("t", v.into());
        }
        if let Some(v) = *ch.devof(&[None, Some("a note"), Some("=C3=A9;"), Some("")]) {
            add("n", v.trim_end_matches(';').into());
        }
        if let Some(v) = *ch.devof(&[None, Some("z z"), Some("")]) {
            add("ext", v.into());
        }
        let p = match ch.dev(if fo.key.is_rsa() { 2 } else { 1 }) {
            0 => fo.key.p(),
            _ => fo.key.p_pkcs1(),
        };
        let w = *ch.devof(WS);
        let n = *ch.of(if w.is_empty() { &[1000][..] } else { &[1, 7, 64] });
        let l = Layout { b64: Some((w, n)), ..Layout::plain(8) };
        add("p", l.spaced(&p));
        // The version stays first.
        let r = ch.dev(tags.len());
        let first = usize::from(tags[0].0 == "v");
        let len = tags.len() - first;
        tags[first..].rotate_left(r % len);
        let (a, b, c, d) = (ch.devof(WS), ch.devof(WS), ch.devof(WS), ch.devof(WS));
        let parts: Vec<String> = tags.iter().map(|(n, v)| format!("{a}{n}{b}={c}{v}{d}")).collect();
        let rec = parts.join(";") + ch.devof(&["", ";"]);
        accepted(ch, fo.make(&Layout::plain(8), &msg(), BODY), &msg(), BODY, &rec, PRE)
    });
    ctx.part("foreign, messages", 0, &|ch| {
        let fields = ch.of(&reqgen::messages()).clone();
        let (k, h) = ks[0];
        let c = (ch.flag(), ch.flag());
        let b = ch.of(&reqgen::bodies()).clone();
        if body::ambiguous(&b) && c.1 {
            ch.skip();
            return Ok(());
        }
        let sels = reqgen::selections();
        let sel = ch.of(&sels[1..]).clone().unwrap();
        let len = body::canon(c.1, &b).len();
        let limit = *ch.of(&[None, Some(0), Some(len / 2), Some(len)]);
        let s = Spec::with(key(k), h, c.0, c.1, &sel.iter().map(|s| s.as_str()).collect::<Vec<_>>(), "example.com", "sel", "");
        let s = match limit {
            None => s,
            Some(n) => s.limit(n),
        };
        let field = s.make(&fields, &b);
        // Other signatures that the message carries are not of interest.
        let mut all = vec![field];
        all.extend(fields);
        let mut w = World::default();
        w.set(QNAME, txt(&key(k).record()));
        let cfg = Cfg { forbidden: vec![], allow_sha1: PRE, min_bits: 0, ..Default::default() };
        let id = || show_msg(&all, &b);
        ch.describe(id);
        let want = w.expect(&all, &b, &cfg);
        if want[0].status.as_ref().is_some_and(|s| !s.contains("success")) {
            return viol(id(), format!("HARNESS: the model says {want:?}"));
        }
        match w.check(ch, &all, &b, &cfg, None) {
            None => Ok(()),
            Some(m) => viol(id(), m),
        }
    });

    // The primitives, against implementations written down from the standards.
    ctx.part("digests", 0, &|ch| {
        let n = ch.pick(if t { 3000 } else { 600 });
        let x = *ch.of(&[0u8, b'a', 0xff]);
        let m: Vec<u8> = (0..n).map(|i| x.wrapping_add((i % 251) as u8)).collect();
        for a in HashAlgorithm::all() {
            let h = if format!("{a}") == "sha1" { H::Sha1 } else { H::Sha256 };
            ch.op(1);
            if viadkim::crypto::digest(a, &m)[..] != own::digest(h, &m)[..] {
                return viol(format!("{a} of {n} bytes from {x}"), "digest differs");
            }
        }
        Ok(())
    });
    let by_hand: Vec<(&str, Vec<u8>, [u8; 32], Vec<u8>)> = ["ed1", "ed2"]
        .into_iter()
        .flat_map(|n| [0usize, 1, 2, 31, 32, 33, 64, 200].map(|l| (n, (0..l as u8).collect::<Vec<u8>>())))
        .map(|(n, m)| {
            let d = &key(n).pkcs8;
            let (p, s) = own::ed25519(&d[d.len() - 32..].try_into().unwrap(), &m);
            (n, m, p, s)
        })
        .collect();
    ctx.part("Ed25519 by hand", 0, &|ch| {
        let (k, m, public, want) = ch.of(&by_hand);
        let (k, n) = (key(k), m.len());
        let viadkim::crypto::SigningKey::Ed25519(s) = &*k.lib else { return viol(format!("key {}", k.name), "another type") };
        let sig = viadkim::crypto::sign_ed25519(s, m);
        ch.op(3);
        let id = || format!("key {} message of {n}", k.name);
        if public[..] != k.key_data[..] || sig != *want {
            return viol(id(), format!("signature {sig:?}, expected {want:?}"));
        }
        let v = VerifyingKey::from_key_data(KeyType::Ed25519, public);
        let Ok(VerifyingKey::Ed25519(v)) = v else { return viol(id(), "public key not read") };
        if viadkim::crypto::verify_ed25519(&v, m, want).is_err() {
            return viol(id(), "not verified");
        }
        // No single bit may differ.
        let mut bad = want.clone();
        let bit = ch.pick(512);
        bad[bit / 8] ^= 1 << (bit % 8);
        if viadkim::crypto::verify_ed25519(&v, m, &bad).is_ok() {
            return viol(id(), format!("verified with bit {bit} changed"));
        }
        Ok(())
    });
    ctx.part("RSA by hand", 0, &|ch| {
        let some: Vec<&K> = crate::keys::all().iter().filter(|k| k.is_rsa() && k.bits() >= 512).collect();
        let k = *ch.of(&some);
        let Pub::Rsa(p) = &k.public else { unreachable!() };
        let d = own::digest(H::Sha256, &[ch.pick(if t { 8 } else { 2 }) as u8]);
        let want = crypto::sign(k, H::Sha256, &d);
        let Ok(VerifyingKey::Rsa(v)) = VerifyingKey::from_key_data(KeyType::Rsa, &k.key_data) else {
            return viol(format!("key {}", k.name), "not read");
        };
        let id = || format!("key {} digest {d:?}", k.name);
        let ok = |s: &[u8]| viadkim::crypto::verify_rsa(&v, HashAlgorithm::Sha256, &d, s).is_ok();
        ch.op(1);
        if !ok(&want) {
            return viol(id(), "not verified");
        }
        // Nothing else is its signature: other bits, lengths, and s + n.
        let n = p.n.to_bytes_be();
        let variant = ch.pick(want.len() + 6);
        let bad = match variant.checked_sub(want.len()) {
            None => {
                let mut b = want.clone();
                b[variant] ^= 1 << (variant % 8);
                b
            }
            Some(0) => want[1..].to_vec(),
            Some(1) => [&[0], &want[..]].concat(),
            Some(2) => [&want[..], &[0]].concat(),
            Some(3) => (rsa::BigUint::from_bytes_be(&want) + &p.n).to_bytes_be(),
            Some(4) => n,
            Some(_) => vec![],
        };
        if ok(&bad) != crypto::verify(&k.public, H::Sha256, &d, &bad) || ok(&bad) {
            return viol(id(), format!("verified with variant {variant}"));
        }
        Ok(())
    });
}
