//! C19: header names, bodies and blocks.

use crate::{
    ctx::Ctx,
    explore::{viol, Ch},
    refm::{
        header::{same_name, Field},
        mail,
    },
    util::*,
};
use std::collections::{HashMap, HashSet};
use viadkim::header::{FieldBody, FieldName, HeaderFields};

fn fields_of(h: &HeaderFields) -> Vec<Field> {
    h.as_ref().iter().map(|(n, b)| (n.as_ref().to_string(), b.as_ref().to_vec())).collect()
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let name = |s: &str| {
        let got = FieldName::new(s);
        let want = mail::name_ok(s.as_bytes());
        match got {
            Ok(n) if want && n.as_ref() == s && n.to_string() == s => Ok(()),
            Err(_) if !want => Ok(()),
            g => viol(format!("name {}", show(s.as_bytes())), format!("{g:?}, expected valid={want}")),
        }
    };
    ctx.part("names, every character up to two", 0, &|ch| {
        let n = ch.pick(3);
        let mut s = String::new();
        for i in 0..n {
            let c = if i == 0 { ch.pick(256) } else { ch.pick(256) };
            s.push(char::from_u32(c as u32).unwrap());
        }
        ch.op(1);
        ch.label(if mail::name_ok(s.as_bytes()) { "accepted" } else { "refused" });
        name(&s)
    });
    ctx.part("names, longer", 0, &|ch| {
        let toks = ["a", ":", " ", "\t", "\r\n", "é", "\u{7f}", "-", "Z", "\0", "\u{ff21}"];
        let s = String::from_utf8(string(ch, if t { 6 } else { 5 }, &toks)).unwrap();
        ch.op(1);
        name(&s)
    });
    ctx.part("names compare without regard to case", 0, &|ch| {
        let al: Vec<u8> = (33..127u8).filter(|b| *b != b':').collect();
        let (a, b) = (*ch.of(&al), *ch.of(&al));
        let pre = *ch.of(&["", "From", "x-"]);
        let (x, y) = (format!("{pre}{}", a as char), format!("{}{}", pre.to_uppercase(), b as char));
        let (p, q) = (FieldName::new(x.as_str()).unwrap(), FieldName::new(y.as_str()).unwrap());
        ch.op(4);
        let want = same_name(&x, &y);
        let got = [
            p == q,
            q == p,
            p == y.as_str(),
            HashSet::from([p.clone()]).contains(&q),
            HashMap::from([(q.clone(), 1)]).contains_key(&p),
        ];
        if got.iter().any(|g| *g != want) {
            return viol(format!("names {x} {y}"), format!("equal: {got:?}, expected {want}"));
        }
        Ok(())
    });
    let body = |v: &[u8]| {
        let got = FieldBody::new(v);
        let want = mail::body_ok(v);
        match got {
            Ok(b) if want && b.as_ref() == v => Ok(()),
            Err(_) if !want => Ok(()),
            g => viol(format!("body {}", show(v)), format!("{g:?}, expected valid={want}")),
        }
    };
    ctx.part("bodies, every byte up to two in context", 0, &|ch| {
        let pre: &[&[u8]] = &[b"", b"x", b" ", b"\r\n ", b"x\r\n\t", b"\r"];
        let post: &[&[u8]] = &[b"", b"x", b" x", b"\r\n x", b"\n x", b"\r\n"];
        let mut v = ch.of(pre).to_vec();
        for _ in 0..ch.pick(3) {
            v.push(ch.pick(256) as u8);
        }
        v.extend(*ch.of(post));
        ch.op(1);
        ch.label(if mail::body_ok(&v) { "accepted" } else { "refused" });
        body(&v)
    });
    ctx.part("bodies, longer", 0, &|ch| {
        let toks: &[&[u8]] = &[b"a", b" ", b"\t", b"\r", b"\n", b"\r\n", b"\xe9", b"\0"];
        let v = string(ch, if t { 9 } else { 8 }, toks);
        ch.op(1);
        body(&v)
    });
    let block = |ch: &mut Ch, s: &str| {
        let got: Result<HeaderFields, _> = s.parse();
        let want = mail::block(s.as_bytes());
        ch.op(1);
        ch.label(if want.is_some() { "accepted" } else { "refused" });
        ch.describe(|| format!("{} -> {got:?}", show(s.as_bytes())));
        let g = got.as_ref().ok().map(fields_of);
        if g != want {
            return viol(format!("block {}", show(s.as_bytes())), format!("{g:?}, expected {want:?}"));
        }
        if let Some(w) = want {
            // From the same fields given separately, and back.
            let h = HeaderFields::from_vec(w.clone());
            if h.as_ref().ok().map(fields_of) != Some(w.clone()) {
                return viol(format!("fields {}", show(s.as_bytes())), format!("from_vec gives {h:?}"));
            }
            let v: Vec<_> = got.clone().unwrap().into();
            let it: Vec<_> = got.clone().unwrap().into_iter().collect();
            let again = HeaderFields::new(v);
            ch.op(3);
            if again != got || HeaderFields::new(it) != got {
                return viol(format!("fields {}", show(s.as_bytes())), "conversion loses fields");
            }
            // As it would be sent: the same fields again, no more, no fewer.
            let w = String::from_utf8(super::common::wire(&w)).unwrap();
            let r: Result<HeaderFields, _> = w.parse();
            if r != got {
                return viol(format!("wire {}", show(s.as_bytes())), format!("reads back as {r:?}"));
            }
        }
        Ok(())
    };
    ctx.part("blocks", 0, &|ch| {
        let toks = ["a", ":", " ", "\r\n", "\n", "\r", "\t", "B:"];
        let s = String::from_utf8(string(ch, if t { 9 } else { 8 }, &toks)).unwrap();
        block(ch, &s)
    });
    ctx.part("blocks of lines", 0, &|ch| {
        let lines = ["From: a", "TO:b ", " x", "\tc:d", "", " ", "X :y", ":z", "noc", "é: x", "U: é\u{85}\u{2028}", "c\r:d", "e:\0"];
        let n = ch.pick(if t { 6 } else { 5 });
        let mut s = String::new();
        for i in 0..n {
            s.push_str(ch.of(&lines));
            if i + 1 < n {
                s.push_str(ch.of(&["\r\n", "\n"]));
            } else {
                s.push_str(ch.of(&["\r\n", "\n", "", "\r", "\r\n\r\n"]));
            }
        }
        block(ch, &s)
    });
    ctx.part("sizes", 0, &|ch| {
        let ns = sizes(if t { 1200 } else { 130 }, if t { 100_001 } else { 10_001 });
        let kind = ch.pick(9);
        let n = *ch.of(&ns);
        let bad = ch.pick(3);
        let at = [0, n / 2, n.saturating_sub(1)][ch.pick(3)];
        match kind {
            0 => {
                let mut s = "n".repeat(n).into_bytes();
                if n > 0 && bad > 0 {
                    s[at] = if bad == 1 { b':' } else { b'~' };
                }
                ch.op(1);
                name(std::str::from_utf8(&s).unwrap())
            }
            1 => {
                let mut s = vec![b'v'; n];
                if n > 0 && bad > 0 {
                    s[at] = if bad == 1 { b'\n' } else { 0xff };
                }
                ch.op(1);
                body(&s)
            }
            2 => {
                // Folded lines, one of them blank perhaps
                let mut v = b" x".to_vec();
                for i in 0..n {
                    v.extend(if i == at && bad == 1 { &b"\r\n \t"[..] } else if i == at && bad == 2 { &b"\r\nx"[..] } else { &b"\r\n y"[..] });
                }
                ch.op(1);
                body(&v)
            }
            3 => {
                // White space alone on a line
                let v = [&b"a\r\n"[..], &b" ".repeat(n), if bad == 0 { b"" } else { b"z" }, if bad == 2 { b"\r\n b" } else { b"" }].concat();
                ch.op(1);
                body(&v)
            }
            4 | 5 => {
                let e = if kind == 4 { "\r\n" } else { "\n" };
                let mut s = String::new();
                for i in 0..n {
                    s += match bad {
                        1 if i == at => "bad",
                        2 if i == at => " folded",
                        _ => ["a: 1", "B:2", "c:"][i % 3],
                    };
                    s += e;
                }
                block(ch, &s)
            }
            6 => block(ch, &format!("a: b\r\n{}c: d", [" x\r\n", "\tx\n", " \r\n"][bad].repeat(n))),
            7 => block(ch, &format!("{}: b\r\nc:{}", "n".repeat(n), ["", " ", "\u{e9}"][bad].repeat(n))),
            _ => block(ch, &format!("a: b{}", ["\r\n", "\n", " \r\n x"][bad].repeat(n))),
        }
    });
    ctx.part("fields given separately", 0, &|ch| {
        let n = ch.pick(4);
        let f: Vec<Field> = (0..n)
            .map(|_| {
                let nm = ch.of(&["a", "From", "a b", "", "x:", "é", "X;="]).to_string();
                let vs: &[&[u8]] =
                    &[b"", b"x", b"x\r\n", b"x\r\ny: z", b"\r\n z", b"x\n y", b"\r\n\r\n", b"\r\n \r\n x", b"\xff\xfe"];
                (nm, ch.of(vs).to_vec())
            })
            .collect();
        let got = HeaderFields::from_vec(f.clone());
        ch.op(1);
        let ok = !f.is_empty() && f.iter().all(|(n, v)| mail::name_ok(n.as_bytes()) && mail::body_ok(v));
        match &got {
            Ok(h) if ok && fields_of(h) == f => Ok(()),
            Err(_) if !ok => Ok(()),
            g => viol(format!("fields {f:?}"), format!("{g:?}, expected valid={ok}")),
        }
    });
}
