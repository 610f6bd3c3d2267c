//! C02: altered messages never verify.

use super::{c04::hf, common::*};
use crate::{
    ctx::Ctx,
    env::{self, Answer, Resolver},
    explore::{viol, Ch, Viol},
    keys::{key, Own, Pub, K},
    refm::{
        body,
        crypto::{self, H},
        header::{self, Field},
        mail,
        sign::{self, f, Spec},
        sigparse::{self, P},
        verify::{self, show_msg, Ans, Cfg},
    },
    util::sizes,
};
use rsa::BigUint;
use viadkim::verifier::VerificationStatus;

struct Base {
    name: &'static str,
    fields: Vec<Field>, // with the signature first
    body: Vec<u8>,
    key: &'static K,
}

fn base(n: usize) -> Base {
    base_with(n, key("ed1"))
}

fn base_with(n: usize, k: &'static K) -> Base {
    let (name, hr, br, names, limit, fields, body): (_, _, _, &[&str], _, Vec<Field>, &[u8]) = match n {
        0 => (
            "relaxed/relaxed",
            true,
            true,
            &["from", "to", "subject", "from"],
            None,
            vec![f("From", " a@b"), f("To", " x\r\n  y"), f("Subject", " Hi"), f("X", " u")],
            b"a b\r\n\r\nC \r\n\r\n",
        ),
        1 => (
            "simple/simple",
            false,
            false,
            &["From", "To", "Cc"],
            None,
            vec![f("From", " a@b"), f("To", "\tx\r\n  y "), f("X", " u"), f("to", " w")],
            b"a b\r\n\r\nC \r\n\r\n",
        ),
        2 => (
            "relaxed/simple, l=",
            true,
            false,
            &["From", "From", "Subject"],
            Some(6),
            vec![f("from", " a@b"), f("Subject", ""), f("From", "z")],
            b"abc\r\n\r\ndef\r\n",
        ),
        3 => (
            "simple/relaxed, l=",
            false,
            true,
            &["To", "From"],
            Some(3),
            vec![f("From", " a@b"), f("To", " 1"), f("To", " 2")],
            b" \r\n a\t b\r\n",
        ),
        _ => unreachable!(),
    };
    let mut spec = Spec::new(k, hr, br, names);
    if let Some(l) = limit {
        spec = spec.limit(l);
    }
    Base { name, fields: sign::signed(&spec, &fields, body), body: body.to_vec(), key: k }
}

/// What is covered: the hash input and the body prefix, if the signature can
/// be understood.
fn covered(fields: &[Field], at: usize, b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let t = std::str::from_utf8(&fields[at].1).ok()?;
    let P::Ok(s) = sigparse::parse(t, PRE) else { return None };
    let mut others = fields.to_vec();
    others.remove(at);
    let mut c = body::canon(s.c.1, b);
    if let Some(l) = s.l {
        c.truncate(l as usize);
    }
    Some((header::hash_input(s.c.0, &others, &s.h, &fields[at].0, t), c))
}

/// Verifies the altered message and compares with the model; in addition, a
/// success is only tolerated if exactly the same octets are covered.
fn judge(ch: &mut Ch, b0: &Base, fields: &[Field], b: &[u8], cfg: &Cfg, record: &str) -> Result<(), Viol> {
    let res = Resolver::new();
    res.set(sign::QNAME, Answer::one(record));
    let got = env::verify(&res, &hf(fields), &cfg.lib(), &[b], true);
    ch.op(3);
    let dns = |n: &str| {
        if n == sign::QNAME {
            Ans::Txt(vec![Some(record.as_bytes().to_vec())])
        } else {
            verify::NOKEY
        }
    };
    let want = verify::outcomes(fields, b, cfg, &dns);
    let id = || format!("{} record={record}", show_msg(fields, b));
    if body::ambiguous(b) {
        ch.skip();
        return Ok(());
    }
    if let Some(d) = verify::compare_all(&got, &want) {
        return viol(id(), d);
    }
    let orig = covered(&b0.fields, 0, &b0.body);
    let mut any = false;
    for r in got.iter().flatten() {
        if r.status == VerificationStatus::Success {
            any = true;
            if covered(fields, r.index, b) != orig {
                return viol(id(), "verifies, but covers something else than what was signed");
            }
        }
    }
    ch.label(if any { "still verifies (alteration outside the signed content)" } else { "does not verify" });
    ch.describe(|| format!("{} -> {:?}", id(), got.iter().flatten().map(|r| verify::status_str(&r.status)).collect::<Vec<_>>()));
    Ok(())
}

fn cfg(ch: &mut Ch) -> Cfg {
    // Without the From policy the cryptography has to find out.
    Cfg { forbidden: if ch.flag() { vec!["From".into()] } else { vec![] }, ..Cfg::default() }
}

/// One edit of a byte string at a position; None: no edit there.
fn edit(ch: &mut Ch, v: &[u8], rich: bool) -> Option<Vec<u8>> {
    let at = ch.pick(v.len() + 1);
    let few: &[&[u8]] = &[b" ", b"\r\n", b"a", b"\t"];
    let ins: &[&[u8]] = if !rich { few } else { &[b" ", b"\t", b"\r\n ", b"a", b"=", b";", b":", b"0", b"\r\n", b"\xc3\xa9", b"X: y\r\n"] };
    let bits = if rich { 8 } else { 0 };
    let n = if at == v.len() { ins.len() } else { ins.len() * 2 + bits + 3 };
    let k = ch.pick(n);
    let mut o = v[..at].to_vec();
    if k < ins.len() {
        o.extend(ins[k]);
        o.extend(&v[at..]);
    } else if k < 2 * ins.len() {
        o.extend(ins[k - ins.len()]);
        o.extend(&v[at + 1..]);
    } else if k < 2 * ins.len() + bits {
        o.push(v[at] ^ (1 << (k - 2 * ins.len())));
        o.extend(&v[at + 1..]);
    } else {
        match k - 2 * ins.len() - bits {
            0 => o.extend(&v[at + 1..]),
            1 => {
                // Exchange with the next one.
                if at + 1 >= v.len() {
                    return None;
                }
                o.push(v[at + 1]);
                o.push(v[at]);
                o.extend(&v[at + 2..]);
            }
            _ => {} // cut off here
        }
    }
    Some(o)
}

fn raw_rsa(k: &K, em: &[u8]) -> Vec<u8> {
    use rsa::traits::PrivateKeyParts;
    let (Own::Rsa(r), Pub::Rsa(p)) = (&k.own, &k.public) else { unreachable!() };
    let b = BigUint::from_bytes_be(em).modpow(r.d(), &p.n).to_bytes_be();
    let mut out = vec![0; p.size - b.len()];
    out.extend(b);
    out
}

/// Replaces the signature octets.
fn with_b(fields: &[Field], b: &[u8]) -> Vec<Field> {
    use base64ct::{Base64, Encoding};
    let t = String::from_utf8(fields[0].1.clone()).unwrap();
    let i = t.find("b=").map(|_| t.rfind("b=").unwrap()).unwrap();
    let i = t[..].match_indices("b=").map(|(i, _)| i).filter(|i| t.as_bytes()[i - 1] != b'h').last().unwrap_or(i);
    let mut v = fields.to_vec();
    // The last b= tag is the signature; base64 padding may look like one.
    let i = t.find("\r\n\tb=").map_or(i, |i| i + 3);
    v[0].1 = format!("{}{}", &t[..i + 2], Base64::encode_string(b)).into_bytes();
    v
}

fn b_of(fields: &[Field]) -> Vec<u8> {
    let P::Ok(s) = sigparse::parse(std::str::from_utf8(&fields[0].1).unwrap(), PRE) else { unreachable!() };
    s.b
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let header_edit = |ch: &mut Ch, n: usize, twice: bool| {
        let b0 = base(n);
        let cfg = cfg(ch);
        let mut w = wire(&b0.fields);
        if ch.flag() {
            // Edits of the signature header only, else of the rest.
            let len = wire(&b0.fields[..1]).len();
            let Some(e) = edit(ch, &w[..len], true) else {
                ch.skip();
                return Ok(());
            };
            let mut x = e;
            if twice {
                let Some(e) = edit(ch, &x, false) else {
                    ch.skip();
                    return Ok(());
                };
                x = e;
            }
            x.extend(&w[len..]);
            w = x;
        } else {
            let len = wire(&b0.fields[..1]).len();
            let Some(mut x) = edit(ch, &w[len..], true) else {
                ch.skip();
                return Ok(());
            };
            if twice {
                let Some(e) = edit(ch, &x, false) else {
                    ch.skip();
                    return Ok(());
                };
                x = e;
            }
            w.truncate(len);
            w.extend(x);
        }
        let Some(fields) = mail::block(&w) else {
            ch.label("not a header any more");
            ch.skip();
            return Ok(());
        };
        ch.label(b0.name);
        judge(ch, &b0, &fields, &b0.body, &cfg, &b0.key.record())
    };
    ctx.part("one edit anywhere in the header", 0, &|ch| {
        let n = ch.pick(4);
        header_edit(ch, n, false)
    });
    ctx.part("edits anywhere in the body", 0, &|ch| {
        let b0 = base(ch.pick(4));
        let cfg = Cfg { forbidden: vec![], forbid_unsigned: ch.flag(), ..Cfg::default() };
        let mut b = b0.body.clone();
        let n = 1 + ch.pick(if t { 3 } else { 2 });
        for i in 0..n {
            let Some(e) = edit(ch, &b, n == 1 || (t && i == 0)) else {
                ch.skip();
                return Ok(());
            };
            b = e;
        }
        judge(ch, &b0, &b0.fields, &b, &cfg, &b0.key.record())
    });
    ctx.part("fields added, removed, moved, renamed", 0, &|ch| {
        let b0 = base(ch.pick(4));
        let cfg = cfg(ch);
        let mut v = b0.fields.clone();
        let names = ["From", "TO", "Subject", "X", "Cc", "DKIM-Signature"];
        for _ in 0..1 + ch.pick(if t { 3 } else { 2 }) {
            let i = ch.pick(v.len());
            match ch.pick(6) {
                0 => {
                    if v.len() > 1 {
                        v.remove(i);
                    }
                }
                1 => {
                    let j = ch.pick(v.len() + 1);
                    let x = v[i].clone();
                    v.insert(j, x);
                }
                2 => {
                    let j = ch.pick(v.len());
                    v.swap(i, j);
                }
                3 => v[i].0 = ch.of(&names).to_string(),
                4 => v[i].0 = if ch.flag() { v[i].0.to_uppercase() } else { v[i].0.to_lowercase() },
                _ => {
                    let x = f(ch.of(&names), ch.of(&["", " a@b", " Hi", " 2"]));
                    v.insert(i, x);
                }
            }
        }
        judge(ch, &b0, &v, &b0.body, &cfg, &b0.key.record())
    });
    ctx.part("every selection of fields", 0, &|ch| {
        // Every h= list over two names in different spellings; the message has
        // two instances of each name.
        let k = key("ed1");
        let n = 1 + ch.pick(if t { 5 } else { 4 });
        let names: Vec<&str> = (0..n).map(|_| *ch.of(&["From", "To", "from", "tO"])).collect();
        if !names.iter().any(|n| n.eq_ignore_ascii_case("from")) {
            ch.skip();
            return Ok(());
        }
        let fields = vec![f("From", " a"), f("to", " b"), f("FROM", " c"), f("To", " d")];
        let hr = ch.flag();
        let spec = Spec::new(k, hr, hr, &names);
        let m = sign::signed(&spec, &fields, b"x\r\n");
        let b0 = Base { name: "", fields: m, body: b"x\r\n".to_vec(), key: k };
        let mut v = b0.fields.clone();
        let i = 1 + ch.pick(4);
        match ch.pick(if t { 8 } else { 6 }) {
            0 => v[i].1.push(b'e'),
            1 => {
                v.remove(i);
            }
            2 => {
                let j = 1 + ch.pick(4);
                v.swap(i, j);
            }
            3 => {
                let x = v[i].clone();
                v.insert(ch.pick(6), x);
            }
            4 => {
                let x = f(ch.of(&["From", "to"]), " e");
                v.insert(i + ch.pick(2), x);
            }
            5 => v[i].0 = ch.of(&["From", "From ", "Tox", "to"]).to_string(),
            6 => {
                v.remove(i);
                v.remove(1 + ch.pick(3));
            }
            _ => {
                let j = 1 + ch.pick(4);
                let x = v.remove(j);
                v.insert(i - 1, x);
            }
        }
        let v: Vec<Field> = v.into_iter().filter(|f| !f.0.ends_with(' ')).collect();
        judge(ch, &b0, &v, &b0.body, &Cfg { forbidden: vec![], ..Cfg::default() }, &k.record())
    });
    ctx.part("every octet at every place", 0, &|ch| {
        // Any octet before or in place of each octet of a signed field or the body.
        let k = key("ed1");
        let (hr, br) = *ch.of(&[(true, true), (false, false)]);
        let fields = vec![f("From", " a b@c "), f("To", " \r\n\td")];
        let body = b" x y\r\nz \r\n";
        let b0 = Base { name: "", fields: sign::signed(&Spec::new(k, hr, br, &["from", "to"]), &fields, body), body: body.to_vec(), key: k };
        let mut v = b0.fields.clone();
        let mut bd = b0.body.clone();
        let w = match ch.pick(3) {
            0 => &mut bd,
            n => &mut v[n].1,
        };
        let at = ch.pick(w.len() + 1);
        let c = ch.pick(256) as u8;
        if at < w.len() && ch.flag() {
            w[at] = c;
        } else {
            w.insert(at, c);
        }
        let whole = wire(&v);
        match mail::block(&whole) {
            Some(f) if f == v => {}
            _ => {
                ch.label("not a header any more");
                ch.skip();
                return Ok(());
            }
        }
        judge(ch, &b0, &v, &bd, &Cfg { forbidden: vec![], ..Cfg::default() }, &k.record())
    });
    let szs = sizes(if t { 300 } else { 40 }, if t { 65_537 } else { 4_097 });
    ctx.part("alterations far inside", 0, &|ch| {
        // Of long values and bodies, and of many fields.
        let k = key("ed1");
        let n = *ch.of(&szs);
        let (hr, br) = *ch.of(&[(true, true), (false, false)]);
        let unit: &[u8] = ch.of(&[&b"x"[..], b"a ", b"ab\r\n ", b"a\r\n"]);
        let mut fields = vec![f("From", " a"), f("To", " b")];
        let mut names: Vec<String> = vec!["From".into(), "To".into()];
        let mut body = b"x\r\n".to_vec();
        let what = ch.pick(4);
        match what {
            0 => fields[1].1 = [&b" "[..], &unit.repeat(n / unit.len()), b"z"].concat(),
            1 => body = unit.repeat(n / unit.len()),
            2 => {
                if n > 257 || unit != b"x" {
                    ch.skip();
                    return Ok(());
                }
                fields.extend((0..n).map(|i| f(if i % 2 == 0 { "To" } else { "Cc" }, &format!(" {i}"))));
                names = fields.iter().rev().map(|f| f.0.to_uppercase()).collect();
            }
            _ => {
                if n > 257 || unit != b"x" {
                    ch.skip();
                    return Ok(());
                }
                // Names declared as absent
                names.extend((0..n).map(|i| format!("X-{i}")));
            }
        }
        if !fields.iter().all(|f| mail::body_ok(&f.1)) {
            ch.skip();
            return Ok(());
        }
        let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let b0 = Base { name: "", fields: sign::signed(&Spec::new(k, hr, br, &names), &fields, &body), body: body.clone(), key: k };
        let mut v = b0.fields.clone();
        match what {
            0 | 1 => {
                let w = if what == 0 { &mut v[2].1 } else { &mut body };
                let l = w.len();
                let at = *ch.of(&[0, l / 2, l.saturating_sub(3), l.saturating_sub(2), l.saturating_sub(1), l]);
                if at < l && ch.flag() {
                    w[at] ^= 0x21;
                } else {
                    w.insert(at.min(l), b'Q');
                }
            }
            2 => {
                let l = v.len();
                let at = *ch.of(&[1, l / 2, l - 2, l - 1]);
                match ch.pick(3) {
                    0 => v[at].1.push(b'Q'),
                    1 => {
                        v.remove(at);
                    }
                    _ => {
                        let j = *ch.of(&[1, l - 1]);
                        v.swap(at, j);
                    }
                }
            }
            _ => {
                // One of those appears.
                let i = *ch.of(&[0, n / 2, n.saturating_sub(1), n]);
                v.insert(1, f(&format!("x-{i}"), " now"));
            }
        }
        if !v.iter().all(|f| mail::body_ok(&f.1)) {
            ch.skip();
            return Ok(());
        }
        judge(ch, &b0, &v, &body, &Cfg { forbidden: vec![], ..Cfg::default() }, &k.record())
    });
    ctx.part("signature octets", 0, &|ch| {
        let k = key(ch.of(&["ed1", "rsa1024"]));
        let b0 = base_with(ch.pick(if t { 4 } else { 1 }), k);
        let mut b = b_of(&b0.fields);
        let n = b.len();
        match ch.pick(8) {
            0 => {
                let i = ch.pick(n * 8);
                b[i / 8] ^= 1 << (i % 8);
            }
            1 => b.truncate(1 + ch.pick(n)),
            2 => b.push(ch.pick(256) as u8),
            3 => b.insert(0, *ch.of(&[0u8, 1, 255])),
            4 => b = vec![*ch.of(&[0u8, 1, 255]); *ch.of(&[1, 32, 63, 64, 65, 127, 128, 129, 256])],
            5 => {
                let i = ch.pick(n);
                b[i] = b[i].wrapping_add(1 + ch.pick(255) as u8);
            }
            6 => b.reverse(),
            _ => {
                let i = ch.pick(n - 1);
                b.swap(i, i + 1);
            }
        }
        let v = with_b(&b0.fields, &b);
        let cfg = Cfg::default();
        let cfg = Cfg { forbidden: vec![], ..cfg };
        judge(ch, &b0, &v, &b0.body, &cfg, &k.record())
    });
    let zeros = if t { 8 } else { 3 };
    let mut small = std::collections::BTreeMap::new();
    for name in ["rsa1024", "rsa1025"] {
        let k = key(name);
        let with_t = |i: usize| {
            let spec = Spec::with(k, H::Sha256, true, true, &["from"], sign::D, sign::S, &format!(" t={i};"));
            sign::signed(&spec, &[f("From", " a")], b"x\r\n")
        };
        let found: Vec<_> = (0..).map(with_t).filter(|m| b_of(m)[0] == 0).take(zeros).collect();
        small.insert(k.name, found);
    }
    ctx.part("leading zero octets", 0, &|ch| {
        // Signatures whose number happens to be small: the zeros belong to it.
        let k = key(ch.of(&["rsa1024", "rsa1025"]));
        let which = ch.pick(zeros);
        let cut = ch.pick(5);
        let m = small[k.name][which].clone();
        let b0 = Base { name: "", fields: m.clone(), body: b"x\r\n".to_vec(), key: k };
        let mut b = b_of(&m);
        match cut {
            0 => {}
            1 => {
                b.remove(0);
            }
            2 => b.insert(0, 0),
            3 => {
                b.remove(0);
                b.push(0);
            }
            _ => {
                while b[0] == 0 {
                    b.remove(0);
                }
            }
        }
        let v = if cut == 0 { m } else { with_b(&m, &b) };
        judge(ch, &b0, &v, &b0.body, &Cfg { forbidden: vec![], ..Cfg::default() }, &k.record())
    });
    ctx.part("forged padding and wrong keys", 0, &|ch| {
        // Made with the right private key, yet not the prescribed signature.
        let k = key(ch.of(&["rsa1024", "rsa1025"]));
        let b0 = base_with(ch.pick(4), k);
        let Pub::Rsa(p) = &k.public else { unreachable!() };
        let (input, _) = covered(&b0.fields, 0, &b0.body).unwrap();
        let hash = crypto::digest(H::Sha256, &input);
        let di = |alg: &[u8], h: &[u8]| crate::refm::der::seq(&[alg.to_vec(), crate::refm::der::tlv(4, h)]);
        let null: &[u8] = &[0x30, 0x0d, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1, 5, 0];
        let nonull: &[u8] = &[0x30, 0x0b, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 1];
        let sha512: &[u8] = &[0x30, 0x0d, 6, 9, 0x60, 0x86, 0x48, 1, 0x65, 3, 4, 2, 3, 5, 0];
        let sha1: &[u8] = &[0x30, 9, 6, 5, 0x2b, 0x0e, 3, 2, 0x1a, 5, 0];
        let pad = |bt: u8, fill: u8, t: &[u8], tail: &[u8], n: usize| {
            let mut em = vec![0, bt];
            em.resize(n - t.len() - tail.len() - 1, fill);
            em.push(0);
            em.extend(t);
            em.extend(tail);
            em
        };
        let n = p.size;
        let mut short = vec![0, 1, 255, 255, 255, 255, 255, 255, 255, 255, 0];
        short.extend(di(null, &hash));
        short.resize(n, 0xaa);
        let mut wrong = hash.clone();
        wrong[31] ^= 1;
        let em = match ch.pick(14) {
            0 => pad(1, 255, &di(null, &hash), &[], n),
            1 => pad(1, 255, &di(nonull, &hash), &[], n),
            2 => pad(1, 255, &hash, &[], n),
            3 => pad(2, 255, &di(null, &hash), &[], n),
            4 => pad(0, 0, &di(null, &hash), &[], n),
            5 => pad(1, 254, &di(null, &hash), &[], n),
            6 => pad(1, 255, &di(null, &hash), &[0], n),
            7 => short,
            8 => pad(1, 255, &di(sha512, &hash), &[], n),
            9 => pad(1, 255, &di(sha1, &hash[..20]), &[], n),
            10 => pad(1, 255, &di(null, &wrong), &[], n),
            11 => pad(1, 255, &di(null, &hash[..31]), &[], n),
            12 => pad(1, 255, &di(null, &crypto::digest(H::Sha256, &hash)), &[], n),
            _ => pad(1, 255, &[], &[], n),
        };
        let mut b = raw_rsa(k, &em);
        match ch.pick(4) {
            1 => {
                // The same number plus the modulus, if it fits.
                let s = (BigUint::from_bytes_be(&b) + &p.n).to_bytes_be();
                if s.len() > n {
                    ch.skip();
                    return Ok(());
                }
                b = s;
            }
            2 => {
                // The negated number.
                b = (&p.n - BigUint::from_bytes_be(&b)).to_bytes_be();
            }
            3 => b.insert(0, 0),
            _ => {}
        }
        let v = with_b(&b0.fields, &b);
        judge(ch, &b0, &v, &b0.body, &Cfg { forbidden: vec![], ..Cfg::default() }, &k.record())
    });
    ctx.part("other encodings of an Ed25519 signature", 0, &|ch| {
        // The scalar plus multiples of the group order, the negated one, and
        // signatures whose point is of small order.
        let k = key("ed1");
        let b0 = base_with(ch.pick(4), k);
        let b = b_of(&b0.fields);
        let order = (BigUint::from(1u8) << 252) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
        let s = BigUint::from_bytes_le(&b[32..]);
        let new = match ch.pick(18) {
            0 => &order - &s,
            n => &s + &order * n as u32,
        };
        let mut le = new.to_bytes_le();
        if le.len() > 32 {
            ch.skip();
            return Ok(());
        }
        le.resize(32, 0);
        let mut r = b[..32].to_vec();
        match ch.pick(5) {
            1 => r = vec![0; 32],
            2 => {
                r = vec![0; 32];
                r[0] = 1;
            }
            3 => {
                r = vec![255; 32];
                r[0] = 0xec;
                r[31] = 0x7f;
            }
            4 => r[31] ^= 0x80,
            _ => {}
        }
        let v = with_b(&b0.fields, &[r, le].concat());
        let res = Resolver::new();
        res.set(sign::QNAME, Answer::one(k.record()));
        let got = env::verify(&res, &hf(&v), &Cfg { forbidden: vec![], ..Cfg::default() }.lib(), &[&b0.body], true);
        ch.op(3);
        if got.iter().flatten().any(|r| r.status == VerificationStatus::Success) {
            return viol(show_msg(&v, &b0.body), "verifies with another encoding of the signature");
        }
        judge(ch, &b0, &v, &b0.body, &Cfg { forbidden: vec![], ..Cfg::default() }, &k.record())
    });
    ctx.part("key data", 0, &|ch| {
        use base64ct::{Base64, Encoding};
        let k = key(ch.of(&["ed1", "rsa1024"]));
        let b0 = base_with(ch.pick(4), k);
        let mut p = k.key_data.clone();
        match ch.pick(4) {
            0 => {
                let i = ch.pick(p.len() * 8);
                p[i / 8] ^= 1 << (i % 8);
            }
            1 => p.truncate(1 + ch.pick(p.len() - 1)),
            2 => p.push(ch.pick(256) as u8),
            _ => p = key(ch.of(&["ed2", "rsa1024b", "rsa2048", "rsa1025"])).key_data.clone(),
        }
        let r = format!("v=DKIM1; k={}; p={}", if k.is_rsa() { "rsa" } else { "ed25519" }, Base64::encode_string(&p));
        let res = Resolver::new();
        res.set(sign::QNAME, Answer::one(r.as_str()));
        let got = env::verify(&res, &hf(&b0.fields), &Cfg { forbidden: vec![], ..Cfg::default() }.lib(), &[&b0.body], true);
        ch.op(3);
        match &got.unwrap()[0].status {
            VerificationStatus::Success => viol(format!("record={r}"), "verifies with another key"),
            VerificationStatus::Failure(e) => {
                ch.label(if format!("{e:?}").contains("InvalidKey") { "invalid key" } else { "other failure" });
                Ok(())
            }
        }
    });
    ctx.part("altered bh with matching altered body", 0, &|ch| {
        // The body hash is consistent with the altered body: only the signature can tell.
        let k = key(ch.of(&["ed1", "rsa1024"]));
        let hr = ch.flag();
        let br = ch.flag();
        let names: &[&str] = &["from", "to"];
        let fields = vec![f("From", " a"), f("To", " b")];
        let spec = Spec::new(k, hr, br, names);
        let m = sign::signed(&spec, &fields, b"one\r\n");
        let other: &[u8] = ch.of(&[&b"two\r\n"[..], b"", b"one\r\n\r\nx"]);
        let o = sign::signed(&spec, &fields, other);
        let b0 = Base { name: "", fields: m.clone(), body: b"one\r\n".to_vec(), key: k };
        let mut v = o;
        v = with_b(&v, &b_of(&m));
        let body: &[u8] = if ch.flag() { other } else { b"one\r\n" };
        judge(ch, &b0, &v, body, &Cfg::default(), &k.record())
    });
    ctx.part("wrong body hash, rightly signed", 0, &|ch| {
        // The signer vouches for a bh= that is not the hash of the body.
        use base64ct::{Base64, Encoding};
        let k = key(ch.of(&["ed1", "rsa1024"]));
        let (hr, br) = *ch.of(&[(true, true), (false, false)]);
        let fields = vec![f("From", " a")];
        let body: &[u8] = b"one \r\n";
        let mut spec = Spec::new(k, hr, br, &["from"]);
        if ch.flag() {
            spec = spec.limit(*ch.of(&[0usize, 2, 5]));
        }
        let right = spec.body_hash(body);
        let mut h = right.clone();
        match ch.pick(9) {
            0 => h.truncate(1 + ch.pick(31)),
            1 => h = h.split_off(1 + ch.pick(31)),
            2 => h.push(*ch.of(&[0u8, 1, 255])),
            3 => h.insert(0, 0),
            4 => {
                let i = ch.pick(256);
                h[i / 8] ^= 1 << (i % 8);
            }
            5 => h = crypto::digest(H::Sha256, &h),
            6 => h = crypto::digest(H::Sha1, b"one\r\n"),
            7 => h = vec![*ch.of(&[0u8, 255]); *ch.of(&[1, 20, 32, 64])],
            _ => h.extend_from_within(..),
        }
        if h == right {
            ch.skip();
            return Ok(());
        }
        spec.template = spec.template.replace("{bh}", &Base64::encode_string(&h));
        let m = sign::signed(&spec, &fields, body);
        let b0 = Base { name: "", fields: m.clone(), body: vec![], key: k };
        let bd: &[u8] = ch.of(&[body, b""]);
        let res = Resolver::new();
        res.set(sign::QNAME, Answer::one(k.record()));
        let got = env::verify(&res, &hf(&m), &Cfg { forbidden: vec![], ..Cfg::default() }.lib(), &[bd], true);
        if got.iter().flatten().any(|r| r.status == VerificationStatus::Success) {
            return viol(show_msg(&m, bd), "verifies with a wrong body hash");
        }
        judge(ch, &b0, &m, bd, &Cfg { forbidden: vec![], ..Cfg::default() }, &k.record())
    });
    if t {
        ctx.part("two edits anywhere in the header", 0, &|ch| header_edit(ch, 1, true));
    }
}
