//! C22: what canonicalisation forgives never breaks a signature.

use super::{
    common::{field_of, lib_sign, request},
    world::{txt, World},
};
use crate::{
    ctx::Ctx,
    env,
    explore::{viol, Ch, Viol},
    keys::{key, K},
    refm::{
        crypto::H,
        header::{choose, same_name, Field},
        mail,
        sign::{f, Spec, QNAME},
        sigparse::{self, P},
        verify::{self, show_msg, status_str, Cfg},
    },
};
use std::{cell::RefCell, rc::Rc};

/// A message with one signature to be looked at.
#[derive(Clone)]
struct M {
    fields: Vec<Field>,
    sig: usize,
    body: Vec<u8>,
}

struct Base {
    name: String,
    hr: bool,
    br: bool,
    h: Vec<String>,
    limit: Option<usize>,
    key: &'static K,
    m: M,
}

fn wsp(b: u8) -> bool {
    b == b' ' || b == b'\t'
}

fn put(v: &[u8], at: usize, del: usize, ins: &[u8]) -> Vec<u8> {
    [&v[..at], ins, &v[at + del..]].concat()
}

/// White-space edits that leave the relaxed form of a field body alone.
fn relaxed_value_edits(v: &[u8], level: usize) -> Vec<(String, Vec<u8>)> {
    let mut o: Vec<(String, Vec<u8>)> = vec![];
    for (i, b) in v.iter().enumerate() {
        if wsp(*b) {
            o.push((format!("space at {i}"), put(v, i, 0, b" ")));
            o.push((format!("tab after {i}"), put(v, i + 1, 0, b"\t")));
            o.push((format!("other white space at {i}"), put(v, i, 1, if *b == b' ' { b"\t" } else { b" " })));
            o.push((format!("fold at {i}"), put(v, i, 0, b"\r\n")));
            if level == 0 {
                o.push((format!("fold and tab at {i}"), put(v, i, 0, b" \r\n\t")));
                o.push((format!("many spaces at {i}"), put(v, i, 0, &[b' '; 70])));
            }
            // Part of a run, or at an end.
            let run = (i > 0 && wsp(v[i - 1])) || v.get(i + 1).is_some_and(|b| wsp(*b));
            if run || i == 0 || i + 1 == v.len() {
                o.push((format!("no space at {i}"), put(v, i, 1, b"")));
            }
        }
        if v[i..].starts_with(b"\r\n") {
            o.push((format!("unfolded at {i}"), put(v, i, 2, b"")));
        }
    }
    for w in [&b" "[..], b"\t", b" \t "] {
        o.push((format!("{w:?} in front"), put(v, 0, 0, w)));
        o.push((format!("{w:?} at the end"), put(v, v.len(), 0, w)));
    }
    o.push(("folded after the colon".into(), put(v, 0, 0, b"\r\n ")));
    o.retain(|(_, v)| mail::body_ok(v));
    o
}

fn case_edits(n: &str, level: usize) -> Vec<String> {
    let mut o = vec![n.to_uppercase(), n.to_lowercase()];
    if level == 0 {
        for i in 0..n.len() {
            let mut b = n.as_bytes().to_vec();
            b[i] ^= if b[i].is_ascii_alphabetic() { 32 } else { 0 };
            o.push(String::from_utf8(b).unwrap());
        }
    }
    o.retain(|m| m != n);
    o
}

/// The place of the b= value in a signature field: from after the "=" to the
/// semicolon or the end.
fn b_range(v: &[u8]) -> (usize, usize) {
    let t = std::str::from_utf8(v).unwrap();
    let mut at = 0;
    for p in t.split(';') {
        let name: String = p.chars().filter(|c| !c.is_whitespace()).collect();
        if name.starts_with("b=") {
            return (at + p.find('=').unwrap() + 1, at + p.len());
        }
        at += p.len() + 1;
    }
    panic!("no b=");
}

fn edits(b: &Base, m: &M, level: usize, sparse: bool) -> Vec<(String, M)> {
    let mut o: Vec<(String, M)> = vec![];
    let with_fields = |fields: Vec<Field>, sig: usize| M { fields, sig, body: m.body.clone() };
    let with_body = |body: Vec<u8>| M { body, ..m.clone() };
    let set = |i: usize, field: Field| {
        let mut fs = m.fields.clone();
        fs[i] = field;
        with_fields(fs, m.sig)
    };
    // Which fields are covered
    let others: Vec<usize> = (0..m.fields.len()).filter(|i| *i != m.sig).collect();
    let fs: Vec<Field> = others.iter().map(|i| m.fields[*i].clone()).collect();
    let covered: Vec<usize> = choose(&fs, &b.h).into_iter().map(|i| others[i]).collect();

    // Unsigned fields
    let names_h = |n: &str| b.h.iter().filter(|x| same_name(x, n)).count();
    let mut new: Vec<Field> = vec![f("X-New", " v"), f("Received", " from x\r\n\tby y"), f("Fro", " m"), f("X", "")];
    if names_h("DKIM-Signature") == 0 {
        new.push(f("DKIM-Signature", " v=1; a=x"));
        new.push(m.fields[m.sig].clone());
    }
    for n in &new {
        if names_h(&n.0) > 0 {
            continue;
        }
        for at in 0..=m.fields.len() {
            if level > 0 && at != 0 && at != m.fields.len() {
                continue;
            }
            let mut v = m.fields.clone();
            v.insert(at, n.clone());
            o.push((format!("insert {} at {at}", n.0), with_fields(v, if at <= m.sig { m.sig + 1 } else { m.sig })));
        }
    }
    // Another instance of a signed name above those that are covered.
    for n in ["From", "to", "Subject"] {
        let instances: Vec<usize> = others.iter().copied().filter(|i| same_name(&m.fields[*i].0, n)).collect();
        if instances.is_empty() || instances.len() < names_h(n) {
            continue;
        }
        let first_covered = covered.iter().copied().filter(|i| same_name(&m.fields[*i].0, n)).min().unwrap_or(m.fields.len());
        for at in [0, first_covered] {
            let mut v = m.fields.clone();
            v.insert(at, f(n, " added"));
            o.push((format!("another {n} at {at}"), with_fields(v, if at <= m.sig { m.sig + 1 } else { m.sig })));
        }
    }
    for i in &others {
        if covered.contains(i) {
            continue;
        }
        // Not covered, and never will be: its name is not listed more often than it occurs below.
        let mut v = m.fields.clone();
        v.remove(*i);
        let rest = v.iter().filter(|x| same_name(&x.0, &m.fields[*i].0)).count();
        if rest >= names_h(&m.fields[*i].0) || names_h(&m.fields[*i].0) == 0 {
            o.push((format!("remove field {i}"), with_fields(v, if *i < m.sig { m.sig - 1 } else { m.sig })));
        }
        o.push((format!("change field {i}"), set(*i, (m.fields[*i].0.clone(), b" changed".to_vec()))));
    }
    // Order of fields of different names
    for i in 1..m.fields.len() {
        if !same_name(&m.fields[i].0, &m.fields[i - 1].0) {
            let mut v = m.fields.clone();
            v.swap(i, i - 1);
            let sig = if m.sig == i {
                i - 1
            } else if m.sig == i - 1 {
                i
            } else {
                m.sig
            };
            o.push((format!("exchange fields {} and {i}", i - 1), with_fields(v, sig)));
        }
    }
    // Header canonicalisation
    if b.hr {
        for i in covered.iter().copied().chain([m.sig]) {
            let (n, v) = &m.fields[i];
            for c in case_edits(n, level) {
                o.push((format!("name {i} as {c}"), set(i, (c, v.clone()))));
            }
            for (what, w) in relaxed_value_edits(v, level) {
                o.push((format!("field {i}: {what}"), set(i, (n.clone(), w))));
            }
        }
    }
    // White space in the signature value
    {
        let (n, v) = &m.fields[m.sig];
        let (from, to) = b_range(v);
        let step = if sparse || level > 0 { 37 } else { 1 };
        for at in (from..=to).filter(|a| (a - from) % step == 0 || *a == to) {
            for w in [&b" "[..], b"\t", b"\r\n ", b" \r\n\t"] {
                o.push((format!("signature value: {w:?} at {at}"), set(m.sig, (n.clone(), put(v, at, 0, w)))));
            }
        }
        // All of it removed
        let bare: Vec<u8> = v[from..to].iter().copied().filter(|b| !b" \t\r\n".contains(b)).collect();
        o.push(("signature value: no white space".into(), set(m.sig, (n.clone(), put(v, from, to - from, &bare)))));
        let spaced: Vec<u8> = bare.iter().flat_map(|b| [*b, b' ']).collect();
        o.push(("signature value: spaced".into(), set(m.sig, (n.clone(), put(v, from, to - from, &spaced)))));
    }
    // The signature must stay a field, and in the specified part of the syntax.
    o.retain(|(_, x)| {
        let (_, v) = &x.fields[x.sig];
        mail::body_ok(v) && !matches!(sigparse::parse(std::str::from_utf8(v).unwrap(), super::common::PRE), P::Unspecified)
    });

    // Body
    let body = &m.body;
    let ended = body.is_empty() || body.ends_with(b"\r\n");
    let add = |x: &[u8]| [&body[..], x].concat();
    o.push(("body: line end added".into(), with_body(add(b"\r\n"))));
    o.push(("body: line ends added".into(), with_body(add(b"\r\n\r\n\r\n"))));
    if let Some(r) = body.strip_suffix(b"\r\n") {
        o.push(("body: line end removed".into(), with_body(r.to_vec())));
    }
    if let Some(r) = body.strip_suffix(b"\r\n\r\n") {
        o.push(("body: line ends removed".into(), with_body(r.to_vec())));
    }
    if b.br {
        if ended {
            o.push(("body: blank line added".into(), with_body(add(b" \t\r\n"))));
            o.push(("body: blank lines added".into(), with_body(add(b"\r\n\t\r\n \r\n"))));
        }
        for i in 0..body.len() {
            if wsp(body[i]) {
                o.push((format!("body: space at {i}"), with_body(put(body, i, 0, b" "))));
                o.push((format!("body: tab after {i}"), with_body(put(body, i + 1, 0, b"\t"))));
                o.push((format!("body: other white space at {i}"), with_body(put(body, i, 1, if body[i] == b' ' { b"\t" } else { b" " }))));
                let next_end = body[i + 1..].starts_with(b"\r\n");
                if (i > 0 && wsp(body[i - 1])) || body.get(i + 1).is_some_and(|b| wsp(*b)) || next_end {
                    o.push((format!("body: no space at {i}"), with_body(put(body, i, 1, b""))));
                }
            }
            if body[i..].starts_with(b"\r\n") {
                o.push((format!("body: space before line end {i}"), with_body(put(body, i, 0, b" "))));
                o.push((format!("body: white space before line end {i}"), with_body(put(body, i, 0, b"\t \t"))));
            }
        }
    }
    if let Some(l) = b.limit {
        if !body.is_empty() && ended {
            for x in [&b"more"[..], b"more\r\n", b"\r\n\r\nmore", b" ", b"\r", b"\n"] {
                o.push((format!("body: {x:?} appended"), with_body(add(x))));
            }
        }
        if !b.br {
            for i in l..body.len() {
                o.push((format!("body: {i} changed"), with_body(put(body, i, 1, b"Q"))));
                o.push((format!("body: inserted at {i}"), with_body(put(body, i, 0, b"Q"))));
            }
        }
    }
    o.retain(|(_, x)| !crate::refm::body::ambiguous(&x.body));
    o
}

fn bases() -> Vec<Base> {
    let mut v = vec![];
    for k in ["ed1", "rsa1024"] {
        for (hr, br) in [(true, true), (false, false), (true, false), (false, true)] {
            for (kind, limit) in [("plain", None), ("limited", Some(4)), ("nothing of the body", Some(0)), ("oversigned", None), ("empty", None), ("issued", None), ("whole", Some(usize::MAX))] {
                let k = key(k);
                let mut fields = vec![f("Received", " a"), f("From", " a b@c"), f("To", " x,\r\n\t y "), f("Subject", "")];
                let mut body: &[u8] = b"a \tb\r\n\r\n c\r\n";
                let mut h: Vec<&str> = vec!["From", "to", "SUBJECT"];
                match kind {
                    "oversigned" => {
                        // More names than instances; repeated instances, partly covered.
                        h = vec!["From", "From", "Cc", "To", "subject", "To"];
                        fields.push(f("To", " z"));
                        fields.insert(1, f("to", " unsigned"));
                        body = b"x";
                    }
                    "empty" => {
                        h = vec!["From"];
                        body = b"";
                    }
                    "limited" => body = b"a b\r\n\r\nc\r\n",
                    _ => {}
                }
                let limit = limit.map(|l| l.min(crate::refm::body::canon(br, body).len()));
                let sig = if kind == "issued" {
                    let mut r = request(k, H::Sha256, "example.com", "sel", hr, br);
                    r.format.line_width = 40.try_into().unwrap();
                    let o = env::with_clock(Some((1_000_000, 0)), || lib_sign(&fields, vec![r], &[body], false));
                    let s = o.unwrap().remove(0).unwrap();
                    h = s.signature.signed_headers.iter().map(|n| &*Box::leak(n.as_ref().to_string().into_boxed_str())).collect();
                    field_of(&s)
                } else {
                    let mut s = Spec::new(k, hr, br, &h);
                    // A wrapped value, and a tag after it
                    s.template = s.template.replace("b={b}", "b={b};\r\n\tt=10; i=a@sub.example.com").replace(" v=1; ", " v = 1 ;\r\n ");
                    if let Some(l) = limit {
                        s = s.limit(l);
                    }
                    let mut x = s.make(&fields, body);
                    let (from, to) = b_range(&x.1);
                    let mid = (from + to) / 2;
                    x.1 = put(&x.1, mid, 0, b"\r\n\t ");
                    x
                };
                let mut all = vec![sig];
                all.extend(fields);
                v.push(Base {
                    name: format!("{} {hr}/{br} {kind}", k.name),
                    hr,
                    br,
                    h: h.iter().map(|s| s.to_string()).collect(),
                    limit,
                    key: k,
                    m: M { fields: all, sig: 0, body: body.to_vec() },
                });
            }
        }
    }
    v
}

fn judge(ch: &mut Ch, b: &Base, m: &M, what: &str) -> Result<(), Viol> {
    let mut w = World::default();
    w.set(QNAME, txt(&b.key.record()));
    let cfg = Cfg { forbidden: vec![], max: usize::MAX, ..Default::default() };
    let (got, _) = w.verify(&m.fields, &[&m.body], &cfg, None);
    ch.op(3);
    let id = || format!("{}: {what}: {}", b.name, show_msg(&m.fields, &m.body));
    ch.describe(id);
    // The edit really is a permitted one, says the model.
    let want = verify::outcomes(&m.fields, &m.body, &cfg, &|q| w.dns.get(q).map_or(verify::NOKEY, |a| a.0.clone()));
    let ok = |s: &Option<std::collections::BTreeSet<String>>| s.as_ref().is_some_and(|s| s.contains("success"));
    assert!(want.iter().any(|e| e.index == m.sig && ok(&e.status)), "bad edit: {}", id());
    match got.iter().flatten().find(|r| r.index == m.sig) {
        None => viol(id(), "no result for the signature"),
        Some(r) => match status_str(&r.status).as_str() {
            "success" => Ok(()),
            s => viol(id(), format!("no longer verifies: {s}")),
        },
    }
}

type Edits = Rc<Vec<(String, M)>>;

thread_local! {
    static CACHE: RefCell<Option<(Vec<usize>, Edits)>> = const { RefCell::new(None) };
}

/// The edits of a message reached by certain choices, computed once in a row.
fn cached(key: &[usize], make: impl FnOnce() -> Vec<(String, M)>) -> Edits {
    CACHE.with(|c| {
        let mut c = c.borrow_mut();
        match &*c {
            Some((k, e)) if k == key => e.clone(),
            _ => {
                let e: Edits = Rc::new(make());
                *c = Some((key.to_vec(), e.clone()));
                e
            }
        }
    })
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let bs = bases();
    let singles: Vec<Vec<(String, M)>> = bs.iter().map(|b| edits(b, &b.m, 0, false)).collect();
    ctx.part("single edits", 0, &|ch| {
        let i = ch.pick(bs.len());
        let (b, es) = (&bs[i], &singles[i]);
        let n = ch.pick(es.len() + 1);
        if n == 0 {
            return judge(ch, b, &b.m, "unchanged");
        }
        let (what, m) = &es[n - 1];
        let area = what.split([' ', ':']).next().unwrap_or("");
        ch.label(match area {
            "body" => "body",
            "signature" => "signature value",
            "field" | "name" => "header field",
            _ => "other fields",
        });
        judge(ch, b, m, what)
    });
    // First edits are computed once.
    let firsts: Vec<Vec<(String, M)>> = bs.iter().map(|b| edits(b, &b.m, if t { 0 } else { 1 }, true)).collect();
    ctx.part("pairs of edits", 0, &|ch| {
        let i = ch.pick(bs.len());
        let b = &bs[i];
        let k = ch.pick(firsts[i].len());
        let (w1, m1) = &firsts[i][k];
        let es = cached(&[i, k], || edits(b, m1, 1, true));
        let (w2, m2) = ch.of(&es);
        judge(ch, b, m2, &format!("{w1}, {w2}"))
    });
    ctx.part("edits of many sizes", 0, &|ch| {
        // Additions of any size; one base message of each canonicalisation.
        let plain: Vec<&Base> = bs.iter().filter(|b| b.name.starts_with("ed1") && (b.name.ends_with("plain") || b.name.ends_with("limited"))).collect();
        let b = *ch.of(&plain);
        let kind = ch.pick(8);
        let ns = crate::util::sizes(if t { 300 } else { 40 }, if t { 20_000 } else { 1_100 });
        let n = *ch.of(&ns);
        let mut m = b.m.clone();
        let what = match kind {
            0 | 1 => {
                // Unsigned fields above or below
                let new: Vec<Field> = (0..n).map(|i| f(&format!("X-{i}"), " v")).collect();
                let at = if kind == 0 { 0 } else { m.fields.len() };
                m.fields.splice(at..at, new);
                if kind == 0 {
                    m.sig = n;
                }
                "fields added"
            }
            2 => {
                // Unsigned instances of a signed name
                m.fields.splice(0..0, (0..n).map(|_| f("From", " x")));
                m.sig = n;
                "instances of From added above"
            }
            3 => {
                m.body.extend(b"\r\n".repeat(n));
                "empty lines at the end"
            }
            4 if b.br => {
                m.body.extend(b" \t\r\n".repeat(n));
                "blank lines at the end"
            }
            5 if b.br => {
                let i = m.body.iter().position(|x| wsp(*x)).unwrap();
                m.body.splice(i..i, vec![b'\t'; n]);
                "white space in the body"
            }
            6 if b.hr => {
                let i = *ch.of(&[1usize, 2, 3]);
                let v = &mut m.fields[b.m.sig + 1 + i.min(2)].1;
                v.splice(0..0, vec![b' '; n]);
                "white space in a field"
            }
            7 if b.limit.is_some() => {
                m.body.extend(vec![b'q'; n]);
                "text after the limit"
            }
            _ => {
                ch.skip();
                return Ok(());
            }
        };
        judge(ch, b, &m, &format!("{n} {what}"))
    });
    ctx.part("white space next to any octet", 0, &|ch| {
        // What is signed, and what it is turned into; both mean the same.
        let in_body = ch.flag();
        let pairs: &[(&str, &str)] = &[
            ("a ?z", "a \t?z"), ("a? z", "a?\t z"), ("a ? z", "a\t?  z"), (" ?z", "\t\t?z"), ("z?", "z? \t"), ("? z", "?\tz"), ("?", "? "), ("?\r\n ?", "? \r\n\t?"),
            (" ??", "\t??"), ("?? ", "??\t\t"), ("? ?", "? \t ?"),
        ];
        let (x, y) = *ch.of(pairs);
        let c = ch.pick(256) as u8;
        let e = *ch.of(if t { &b"z\r\n\x00\xff ."[..] } else { b"z" });
        let mut n = 0;
        let put = |s: &str, n: &mut i32| -> Vec<u8> {
            s.bytes()
                .map(|b| if b == b'?' { *n += 1; if *n % 2 == 1 { c } else { e } } else { b })
                .collect()
        };
        let (mut v, mut w) = (put(x, &mut n), { n = 0; put(y, &mut n) });
        let same = if in_body {
            v.extend(b"\r\nlast\r\n");
            w.extend(b"\r\nlast\r\n");
            crate::refm::body::canon(true, &v) == crate::refm::body::canon(true, &w)
        } else {
            mail::body_ok(&v) && mail::body_ok(&w) && crate::refm::header::relaxed_value(&v) == crate::refm::header::relaxed_value(&w)
        };
        if !same {
            ch.skip();
            return Ok(());
        }
        let mut fields = vec![f("From", " a@b"), f("Subject", " s")];
        let mut body = b"x\r\n".to_vec();
        let k = key("ed1");
        if in_body { body = v.clone() } else { fields[1].1 = v.clone() }
        let sig = Spec::new(k, !in_body, in_body, &["From", "Subject"]).make(&fields, &body);
        if in_body { body = w.clone() } else { fields[1].1 = w.clone() }
        fields.insert(0, sig);
        let b = Base { name: "any octet".into(), hr: !in_body, br: in_body, h: vec![], limit: None, key: k, m: M { fields, sig: 0, body } };
        judge(ch, &b, &b.m, &format!("{v:?} to {w:?}"))
    });
    ctx.part("names of any letters", 0, &|ch| {
        // The case of header names is forgiven for every letter.
        let (a, b) = (ch.pick(26) as u8, ch.pick(26) as u8);
        let n = format!("X-{}1{}", (b'a' + a) as char, (b'A' + b) as char);
        let sel = ch.of(&[n.clone(), n.to_uppercase(), n.to_lowercase()]).clone();
        let to = ch.of(&[n.to_uppercase(), n.to_lowercase()]).clone();
        let mut fields = vec![f("From", " a@b"), f(&n, " s")];
        let k = key("ed1");
        let sig = Spec::new(k, true, true, &["From", &sel]).make(&fields, b"x\r\n");
        fields[1].0 = to.clone();
        fields.insert(0, sig);
        let b = Base { name: "any letters".into(), hr: true, br: true, h: vec![], limit: None, key: k, m: M { fields, sig: 0, body: b"x\r\n".to_vec() } };
        judge(ch, &b, &b.m, &format!("{n} signed as {sel} to {to}"))
    });
    if t {
        ctx.part("three edits", 0, &|ch| {
            let i = ch.pick(bs.len());
            let b = &bs[i];
            // Every seventh first edit, every fifth second one.
            let k = 7 * ch.pick(firsts[i].len().div_ceil(7));
            let (w1, m1) = &firsts[i][k];
            let es = cached(&[i, k], || edits(b, m1, 1, true));
            let k2 = 5 * ch.pick(es.len().div_ceil(5));
            let (w2, m2) = &es[k2];
            let es = cached(&[i, k, k2], || edits(b, m2, 1, true));
            let (w3, m3) = ch.of(&es);
            judge(ch, b, m3, &format!("{w1}, {w2}, {w3}"))
        });
    }
    ctx.note("white space before the colon cannot be expressed with the library's field names");
    ctx.note("several folds in one run of white space of a signature are left open");
}
