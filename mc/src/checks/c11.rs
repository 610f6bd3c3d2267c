//! C11: requests are validated up front and answered one to one, in order.

use super::{c01::CLOCK, common::*, reqgen::ReqSpec};
use crate::{
    ctx::Ctx,
    env,
    explore::{viol, Ch, Viol},
    keys::key,
    refm::{body, domain, header::Field, sign::f, tags},
};
use std::{collections::BTreeSet, sync::Arc, time::Duration};
use viadkim::{
    crypto::SigningKey,
    header::FieldName,
    signer::{BodyLength, HeaderSelection, SignRequest, SigningOutput, Timestamp},
};

#[derive(Clone, Debug)]
struct Rq {
    r: ReqSpec,
    /// The key to hand over instead of the fitting one.
    wrong_key: Option<&'static str>,
    name: &'static str,
}

impl Rq {
    fn build(&self) -> SignRequest<Arc<SigningKey>> {
        // Some of these cannot go through ReqSpec::build's own assertions.
        let mut r = self.r.build();
        if let Some(k) = self.wrong_key {
            r.signing_key = key(k).lib.clone();
        }
        r
    }
}

/// All reasons for which a request must be refused.
fn reasons(q: &Rq) -> BTreeSet<&'static str> {
    let r = &q.r;
    let mut o = BTreeSet::new();
    if q.wrong_key.map_or(false, |k| key(k).is_rsa() != r.key.is_rsa()) {
        o.insert("IncompatibleKeyType");
    }
    if let Some(n) = &r.sel {
        if !n.iter().any(|n| n.eq_ignore_ascii_case("from")) {
            o.insert("FromHeaderNotSigned");
        }
        if n.iter().any(|n| n.contains(';')) {
            o.insert("InvalidSignedFieldName");
        }
    }
    if let Some(i) = &r.i {
        let (_, d) = domain::identity(i).unwrap();
        let a = |d: &str| domain::to_ascii(d, false).unwrap();
        if !domain::same_or_sub(&a(&d), &a(&r.d)) {
            o.insert("DomainMismatch");
        }
    }
    if r.vd.map_or(false, |d| d < Duration::from_secs(1)) {
        o.insert("ZeroExpirationDuration");
    }
    let known = ["v", "a", "b", "bh", "c", "d", "h", "i", "l", "s", "t", "x", "z"];
    for (i, (n, v)) in r.ext.iter().enumerate() {
        if !tags::is_name(n)
            || !tags::is_value(v)
            || known.contains(&n.as_str())
            || r.ext[..i].iter().any(|e| e.0 == *n)
            || (r.ascii && !v.is_ascii())
        {
            o.insert("InvalidExtTags");
        }
    }
    if !r.header_name.eq_ignore_ascii_case("dkim-signature") {
        o.insert("InvalidDkimSignatureHeaderName");
    }
    if r.indent.is_empty() || r.indent.bytes().any(|b| b != b' ' && b != b'\t') {
        o.insert("InvalidIndentationWhitespace");
    }
    o
}

fn base() -> ReqSpec {
    ReqSpec::plain(key("ed1"))
}

fn kinds() -> Vec<Rq> {
    let mut v = vec![];
    let mut add = |name, wrong_key, e: &dyn Fn(&mut ReqSpec)| {
        let mut r = base();
        e(&mut r);
        v.push(Rq { r, wrong_key, name });
    };
    let names = |n: &[&str]| Some(n.iter().map(|s| s.to_string()).collect::<Vec<_>>());
    let e = |n: &str, v: &str| (n.to_string(), v.to_string());
    // Valid ones, some of which fail at signing time.
    add("plain", None, &|_| {});
    add("simple/relaxed", None, &|r| (r.hr, r.br) = (false, true));
    add("second key, relaxed body, l=3", None, &|r| {
        (r.key, r.br, r.bl) = (key("ed2"), true, BodyLength::Exact(3));
        r.s = "other".into();
    });
    add("whole body length", None, &|r| r.bl = BodyLength::MessageContent);
    add("too long a limit", None, &|r| r.bl = BodyLength::Exact(1_000_000));
    add("unreachable limit", None, &|r| (r.bl, r.br) = (BodyLength::Exact(u64::MAX), true));
    add("no room for the expiry", None, &|r| (r.ts, r.vd) = (Timestamp::Exact(u64::MAX), Some(Duration::from_secs(9))));
    add("now, own selection", None, &|r| {
        (r.ts, r.vd, r.sel) = (Timestamp::Now, Some(Duration::from_secs(60)), names(&["From", "From", "To", "absent"]))
    });
    add("RSA", None, &|r| (r.key, r.hr) = (key("rsa1024"), true));
    add("tags and copies", None, &|r| (r.ext, r.copy) = (vec![e("y1", "b"), e("Y1", "c"), e("y2", ""), e("y_3", "é d"), e("zz", "=")], true));
    add("RSA, identity", None, &|r| (r.key, r.br, r.i, r.s) = (key("rsa1024b"), true, Some("me@x.example.com".into()), "b".into()));
    add("international", None, &|r| (r.d, r.s, r.ascii) = ("bücher.example".into(), "sélé".into(), true));
    add("l=0", None, &|r| (r.bl, r.d) = (BodyLength::Exact(0), "Zz.example.com".into()));
    add("other layout", None, &|r| (r.width, r.indent, r.header_name) = (30, "\t ".into(), "dkim-signature".into()));
    // Refused ones.
    add("key of the other type", Some("rsa1024"), &|_| {});
    add("no From", None, &|r| r.sel = names(&["To", "Subject", "XFrom"]));
    add("no names", None, &|r| r.sel = names(&[]));
    add("bad name", None, &|r| r.sel = names(&["From", "a;b"]));
    add("foreign identity", None, &|r| r.i = Some("me@example.org".into()));
    add("suffix identity", None, &|r| r.i = Some("@notexample.com".into()));
    add("parent identity", None, &|r| (r.d, r.i) = ("sub.example.com".into(), Some("@example.com".into())));
    add("zero lifetime", None, &|r| r.vd = Some(Duration::ZERO));
    add("sub-second lifetime", None, &|r| r.vd = Some(Duration::from_nanos(999_999_999)));
    add("duplicate tags", None, &|r| r.ext = vec![e("x1", "a"), e("y1", "b"), e("x1", "c")]);
    add("reserved tag", None, &|r| r.ext = vec![e("y1", "b"), e("bh", "c")]);
    add("bad tag name", None, &|r| r.ext = vec![e("1a", "b")]);
    add("bad tag value", None, &|r| r.ext = vec![e("a1", "b"), e("a2", " b")]);
    add("tag value with semicolon", None, &|r| r.ext = vec![e("a1", "b; v=2")]);
    add("non-ASCII tag value for ASCII", None, &|r| (r.ext, r.ascii) = (vec![e("a1", "é")], true));
    add("header name", None, &|r| r.header_name = "DKIM_Signature".into());
    add("header name with space", None, &|r| r.header_name = "DKIM-Signature ".into());
    add("no indentation", None, &|r| r.indent = "".into());
    add("bad indentation", None, &|r| r.indent = " \r\n ".into());
    add("several offences", Some("rsa1024"), &|r| {
        r.sel = names(&["a;b"]);
        r.i = Some("@example.org".into());
        r.vd = Some(Duration::ZERO);
        r.header_name = "".into();
        r.indent = "x".into();
        r.ext = vec![e("", "")];
    });
    v
}

fn fields(n: usize) -> Vec<Field> {
    match n {
        0 => vec![f("Received", " x"), f("From", " me@example.com"), f("To", " you"), f("from", " other")],
        1 => vec![f("To", " you"), f("Sender", " me@example.com"), f("XFrom", " x"), f("From-", " x")],
        _ => vec![f("To", " you"), f("fROM", "")],
    }
}

fn same(a: &Result<SigningOutput, String>, b: &Result<SigningOutput, String>) -> bool {
    a == b
}

fn sign(fields: &[Field], q: &[Rq], chunks: &[&[u8]], seed: u64) -> Result<Vec<Result<SigningOutput, String>>, String> {
    sign_until(fields, q, chunks, seed, true)
}

fn sign_until(fields: &[Field], q: &[Rq], chunks: &[&[u8]], seed: u64, feed: bool) -> Result<Vec<Result<SigningOutput, String>>, String> {
    env::with_seed(seed, || {
        env::with_clock(Some((CLOCK, 0)), || {
            lib_sign(fields, q.iter().map(|q| q.build()).collect(), chunks, feed)
                .map(|v| v.into_iter().map(|r| r.map_err(|e| format!("{e:?}"))).collect())
                .map_err(|e| format!("{e:?}"))
        })
    })
}

fn judge(ch: &mut Ch, hdr: usize, q: &[Rq], b: &[u8], alone: &dyn Fn(&Rq) -> Result<SigningOutput, String>) -> Result<(), Viol> {
    let fs = fields(hdr);
    let id = || {
        let n: Vec<&str> = q.iter().map(|q| q.name).collect();
        format!("header {hdr} body {b:?} requests {n:?}")
    };
    let mut why: BTreeSet<&str> = q.iter().flat_map(reasons).collect();
    if hdr == 1 {
        why.insert("MissingFromHeader");
    }
    if q.is_empty() {
        why.insert("EmptyRequests");
    }
    if q.len() > 10 {
        why.insert("TooManyRequests");
    }
    ch.describe(|| format!("{} refused for {why:?}", id()));
    for seed in 0..if why.is_empty() { 3 } else { 1 } {
        ch.op(3);
        match sign(&fs, q, &[b], seed) {
            Err(e) => {
                if !why.contains(e.as_str()) {
                    return viol(id(), format!("refused with {e}, reasons are {why:?}"));
                }
                ch.label("refused");
            }
            Ok(_) if !why.is_empty() => return viol(id(), format!("accepted despite {why:?}")),
            Ok(o) => {
                ch.label("signed");
                if o.len() != q.len() {
                    return viol(id(), format!("{} results for {} requests", o.len(), q.len()));
                }
                for (i, (o, q)) in o.iter().zip(q).enumerate() {
                    let a = alone(q);
                    if !same(o, &a) {
                        return viol(id(), format!("request {i}: {o:?}\nalone: {a:?} (seed {seed})"));
                    }
                    // What happens to the request alone is known, too.
                    let n = body::canon(q.r.br, b).len() as u64;
                    let want = match (q.r.bl, q.r.ts) {
                        (BodyLength::Exact(l), _) if l > n => Some("InsufficientContent"),
                        (_, Timestamp::Exact(u64::MAX)) => Some("Overflow"),
                        _ => None,
                    };
                    if o.as_ref().err().map(|e| e.as_str()) != want {
                        return viol(id(), format!("request {i}: {o:?}, expected {want:?}"));
                    }
                    if let Ok(o) = o {
                        if let Err(m) = super::c10::judge(&q.r, &fs, b, o) {
                            return viol(id(), format!("request {i}: {m}"));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let ks = kinds();
    let bodies: &[&[u8]] = &[b"some body\r\n", b"", b" a\r\n\r\n"];
    // Each valid request alone.
    let nvalid = ks.iter().position(|k| !reasons(k).is_empty()).unwrap();
    let alone: Vec<Vec<Vec<Result<SigningOutput, String>>>> = (0..3)
        .map(|h| {
            bodies
                .iter()
                .map(|b| {
                    ks[..nvalid]
                        .iter()
                        .map(|k| if h == 1 { Err("-".into()) } else { sign(&fields(h), &[k.clone()], &[b], 9).map_or_else(Err, |mut v| v.remove(0)) })
                        .collect()
                })
                .collect()
        })
        .collect();
    let alone_of = |h: usize, b: usize| {
        let (a, ks) = (&alone, &ks);
        move |q: &Rq| a[h][b][ks.iter().position(|k| k.name == q.name).unwrap()].clone()
    };
    ctx.part("sequences of requests", 0, &|ch| {
        let h = ch.pick(3);
        let n = ch.pick(if t { 5 } else { 4 });
        if n == 4 && h != 0 {
            ch.skip();
            return Ok(());
        }
        let q: Vec<Rq> = (0..n).map(|_| ch.of(&ks).clone()).collect();
        judge(ch, h, &q, bodies[0], &alone_of(h, 0))
    });
    ctx.part("usable requests", 0, &|ch| {
        let b = ch.pick(bodies.len());
        let h = *ch.of(&[0, 2]);
        let n = 1 + ch.pick(if t { 5 } else { 4 });
        let m = if n < 3 || t && n < 4 { nvalid } else { 8 };
        if !t && n > 3 && (b, h) != (0, 0) {
            ch.skip();
            return Ok(());
        }
        let q: Vec<Rq> = (0..n).map(|_| ch.of(&ks[..m]).clone()).collect();
        judge(ch, h, &q, bodies[b], &alone_of(h, b))
    });
    ctx.part("number of requests", 2, &|ch| {
        let n = if t { 7 + ch.pick(8) } else { *ch.of(&[9, 10, 11, 13]) };
        let m = if t || n == 10 { ks.len() } else { 8 };
        let q: Vec<Rq> = (0..n).map(|_| ch.devof(&ks[..m]).clone()).collect();
        judge(ch, 0, &q, bodies[0], &alone_of(0, 0))
    });
    ctx.part("different requests in any order", 0, &|ch| {
        let n = if t { 1 + ch.pick(10) } else { *ch.of(&[2, 3, 5, 10]) };
        let (from, step) = (ch.pick(nvalid), 1 + ch.pick(if t { nvalid - 1 } else { 2 }));
        let mut q: Vec<Rq> = (0..n).map(|i| ks[(from + i * step) % nvalid].clone()).collect();
        // One taken out, and put back elsewhere
        let (x, y) = (ch.pick(n), ch.pick(n));
        let k = q.remove(x);
        q.insert(y, k);
        judge(ch, 0, &q, bodies[0], &alone_of(0, 0))
    });
    // The signer passes the body on, and what it says about wanting more.
    let pieces: &[&[u8]] = &[b"abc", b"", b"a ", b"\r\n", b"a\r\nb", b"ab\r\n\r\n", b" line one\r\nline  two\r\n\r\n"];
    let lengths: Vec<Rq> = [false, true]
        .iter()
        .flat_map(|br| {
            [BodyLength::NoLimit, BodyLength::MessageContent, BodyLength::Exact(0), BodyLength::Exact(1), BodyLength::Exact(3), BodyLength::Exact(4), BodyLength::Exact(1000)].map(|bl| {
                let mut r = base();
                (r.bl, r.br) = (bl, *br);
                Rq { r, wrong_key: None, name: "length" }
            })
        })
        .collect();
    let whole: Vec<Vec<_>> = pieces
        .iter()
        .map(|b| lengths.iter().map(|q| sign(&fields(0), &[q.clone()], &[b], 9).map_or_else(Err, |mut v| v.remove(0))).collect())
        .collect();
    let through = |ch: &mut Ch, at: usize, set: &[usize], c: &[&[u8]]| -> Result<(), Viol> {
        let q: Vec<Rq> = set.iter().map(|i| lengths[*i].clone()).collect();
        let want: Vec<_> = set.iter().map(|i| whole[at][*i].clone()).collect();
        let id = || format!("requests {:?} chunks {}", q.iter().map(|q| (q.r.bl, q.r.br)).collect::<Vec<_>>(), crate::util::show_chunks(c));
        ch.describe(id);
        for (q, w) in q.iter().zip(&want) {
            let n = body::canon(q.r.br, pieces[at]).len() as u64;
            match w {
                Ok(o) => super::c10::judge(&q.r, &fields(0), pieces[at], o).or_else(|m| viol(id(), m))?,
                Err(e) if e == "InsufficientContent" && matches!(q.r.bl, BodyLength::Exact(l) if l > n) => {}
                Err(e) => return viol(id(), e.clone()),
            }
        }
        for feed in [false, true] {
            ch.op(3);
            let got = sign_until(&fields(0), &q, c, 1, feed);
            if got.as_ref() != Ok(&want) {
                return viol(id(), format!("{got:?}\nwith the body in one piece: {want:?} (fed on after being done: {feed})"));
            }
        }
        Ok(())
    };
    ctx.part("one request, body in every chunking", 0, &|ch| {
        let at = ch.pick(if t { 6 } else { 5 });
        let i = ch.pick(lengths.len());
        let c = crate::util::chunks(ch, pieces[at], true);
        through(ch, at, &[i], &c)
    });
    ctx.part("several requests, body in chunks", 0, &|ch| {
        let at = ch.pick(pieces.len());
        let n = 2 + ch.pick(if t { 2 } else { 1 });
        let set: Vec<usize> = (0..n).map(|_| ch.pick(lengths.len())).collect();
        let b = pieces[at];
        let c: Vec<&[u8]> = match ch.pick(5) {
            0 => vec![b],
            1 => b.chunks(1).collect(),
            2 => b.chunks(2).flat_map(|c| [c, &b[..0]]).collect(),
            3 => vec![&b[..0], b, &b[..0]],
            _ => vec![&b[..b.len() / 2], &b[b.len() / 2..]],
        };
        through(ch, at, &set, &c)
    });
    ctx.part("ten and eleven of one kind", 0, &|ch| {
        let k = ch.of(&ks);
        let n = *ch.of(&[10usize, 11, 12]);
        judge(ch, 0, &vec![k.clone(); n], bodies[0], &alone_of(0, 0))
    });
    ctx.part("pairs of offences in one request", 0, &|ch| {
        // Merge two kinds: anything in which they differ from the plain one.
        let (a, b) = (ch.of(&ks).clone(), ch.of(&ks).clone());
        let p = base();
        let mut m = a.clone();
        let (x, y) = (&mut m.r, &b.r);
        macro_rules! take { ($($f:ident),*) => { $( if x.$f == p.$f { x.$f = y.$f.clone(); } )* } }
        take!(sel, bl, vd, d, i, ext, indent, header_name, ascii, ts);
        m.wrong_key = m.wrong_key.or(b.wrong_key);
        m.name = "merged";
        let why = reasons(&m);
        let got = sign(&fields(0), &[m.clone()], &[bodies[0]], 1);
        ch.op(3);
        match got {
            Ok(_) if why.is_empty() => Ok(()),
            Err(e) if why.contains(e.as_str()) => Ok(()),
            got => viol(format!("{} + {}: {m:?}", a.name, b.name), format!("{got:?} with {why:?}")),
        }
    });
    ctx.part("lifetimes", 0, &|ch| {
        let mut r = base();
        let d = Duration::new(*ch.of(&[0, 1, 2, u64::MAX]), *ch.of(&[0, 1, 500_000_000, 999_999_999]));
        r.vd = Some(d);
        r.ts = *ch.of(&[Timestamp::Exact(5), Timestamp::Now, Timestamp::None]);
        let q = Rq { r, wrong_key: None, name: "lifetime" };
        let got = sign(&fields(0), &[q.clone()], &[bodies[0]], 1);
        ch.op(3);
        match (got, d.as_secs()) {
            (Err(e), 0) if e == "ZeroExpirationDuration" => Ok(()),
            (Ok(v), 1..) if v[0].is_ok() => Ok(()),
            (got, _) => viol(format!("{:?} {:?}", q.r.ts, d), format!("{got:?}")),
        }
    });
    ctx.part("extension tag names and values", 0, &|ch| {
        let (mut n, mut v) = ("e".to_string(), "v".to_string());
        if ch.flag() {
            n = String::from_utf8(crate::util::string(ch, 3, &["a", "B", "1", "_", " ", "=", ";", "é", "-", "h", "b", "z"])).unwrap();
        } else {
            v = String::from_utf8(crate::util::string(ch, if t { 5 } else { 4 }, &["a", "=", ";", " ", "\r\n", "\n", "\r", "\t", "\0", "é"])).unwrap();
        }
        // What several folds in a row mean is open.
        if v.contains("\r\n") && v.matches("\r\n").count() > 1 || n == "q" {
            ch.skip();
            return Ok(());
        }
        let mut r = base();
        r.ascii = ch.flag();
        r.ext = vec![(n, v)];
        let q = Rq { r, wrong_key: None, name: "ext" };
        let why = reasons(&q);
        let got = sign(&fields(0), &[q.clone()], &[bodies[0]], 1);
        ch.op(3);
        match got {
            Ok(v) if why.is_empty() && v[0].is_ok() => {
                ch.label("signed");
                super::c10::judge(&q.r, &fields(0), bodies[0], v[0].as_ref().unwrap()).or_else(|m| viol(format!("{:?}", q.r.ext), m))
            }
            Err(e) if why.contains(e.as_str()) => {
                ch.label("refused");
                Ok(())
            }
            got => viol(format!("{:?} ascii {}", q.r.ext, q.r.ascii), format!("{got:?} with {why:?}")),
        }
    });
    ctx.part("selectable names", 0, &|ch| {
        // Every name of one character in company of From.
        let c = (33 + ch.pick(94)) as u8 as char;
        if c == ':' {
            ch.skip();
            return Ok(());
        }
        let n = ch.of(&[format!("{c}"), format!("a{c}"), format!("{c}a")]).clone();
        let mut r = base();
        r.sel = Some(if ch.flag() { vec![n.clone(), "From".into()] } else { vec!["From".into(), n.clone()] });
        let mut q = r.build();
        q.header_selection = HeaderSelection::Manual(r.sel.as_ref().unwrap().iter().map(|n| FieldName::new(n.as_str()).unwrap()).collect());
        let mut fs = fields(0);
        fs.push((n.clone(), b" v".to_vec()));
        ch.op(3);
        match (lib_sign(&fs, vec![q], &[b"x"], true), c) {
            (Err(e), ';') if format!("{e:?}") == "InvalidSignedFieldName" => Ok(()),
            (Ok(v), c) if c != ';' => match &v[0] {
                Ok(o) => super::c10::judge(&r, &fs, b"x", o).or_else(|m| viol(format!("name {n}"), m)),
                Err(e) => viol(format!("name {n}"), format!("{e:?}")),
            },
            (got, _) => viol(format!("name {n}"), format!("{got:?}")),
        }
    });
}
