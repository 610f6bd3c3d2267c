//! C27: registered names, names of domains and Base64 print and read back
//! exactly.

use super::common::PRE;
use crate::{
    ctx::Ctx,
    explore::{viol, Ch, Viol},
    util::*,
};
use std::fmt::Display;
use viadkim::{
    crypto::{HashAlgorithm, KeyType},
    decode_base64, encode_base64,
    record::{SelectorFlag, ServiceType},
    signature::{Canonicalization, CanonicalizationAlgorithm as CA, DomainName, Identity, Selector, SigningAlgorithm},
    CanonicalStr, DkimResult,
};

const LETTERS: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

/// RFC 4648, section 4.
fn encode(b: &[u8]) -> String {
    let mut bits = String::new();
    for x in b {
        bits.push_str(&format!("{x:08b}"));
    }
    let mut s = String::new();
    for c in bits.as_bytes().chunks(6) {
        let v = c.iter().fold(0usize, |a, d| a * 2 + (d - b'0') as usize) << (6 - c.len());
        s.push(LETTERS[v] as char);
    }
    while s.len() % 4 != 0 {
        s.push('=');
    }
    s
}

enum Dec {
    Is(Vec<u8>),
    Not,
    /// Unused bits that are not zero: may be refused, or ignored.
    Open(Vec<u8>),
}

fn decode(s: &str) -> Dec {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return Dec::Not;
    }
    let body = s.trim_end_matches('=');
    let pad = b.len() - body.len();
    if pad > 2 {
        return Dec::Not;
    }
    let mut bits = vec![];
    for c in body.bytes() {
        match LETTERS.iter().position(|l| *l == c) {
            None => return Dec::Not,
            Some(v) => bits.extend((0..6).rev().map(|i| v >> i & 1)),
        }
    }
    let (whole, rest) = bits.split_at(bits.len() / 8 * 8);
    let v = whole.chunks(8).map(|c| c.iter().fold(0, |a, d| a * 2 + *d as u8)).collect();
    if rest.iter().any(|d| *d != 0) {
        Dec::Open(v)
    } else {
        Dec::Is(v)
    }
}

fn enc(ch: &mut Ch, b: &[u8]) -> Result<(), Viol> {
    let s = encode_base64(b);
    ch.op(2);
    ch.describe(|| format!("{} -> {s}", show(b)));
    if s != encode(b) {
        return viol(format!("encode {}", show(b)), s);
    }
    match decode_base64(&s) {
        Ok(x) if x == b => Ok(()),
        x => viol(format!("encode {}", show(b)), format!("{s} read as {x:?}")),
    }
}

fn dec(ch: &mut Ch, s: &str) -> Result<(), Viol> {
    let got = decode_base64(s);
    ch.op(1);
    ch.describe(|| format!("{s:?} -> {got:?}"));
    let ok = match (decode(s), &got) {
        (Dec::Is(v), Ok(g)) => v == *g,
        (Dec::Not, Err(_)) | (Dec::Open(_), Err(_)) => true,
        (Dec::Open(v), Ok(g)) => v == *g,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        viol(format!("decode {s:?}"), format!("{got:?}"))
    }
}

fn prints<T: Display + CanonicalStr>(ch: &mut Ch, x: T, name: &str) -> Result<(), Viol> {
    ch.op(2);
    ch.describe(|| name.to_string());
    if x.canonical_str() != name || x.to_string() != name {
        return viol(name, format!("{} {x}", x.canonical_str()));
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.part("registered names", 0, &|ch| {
        use CA::*;
        match ch.pick(7) {
            0 => match ch.pick(2) {
                0 => prints(ch, KeyType::Rsa, "rsa"),
                _ => prints(ch, KeyType::Ed25519, "ed25519"),
            },
            1 => {
                let all = HashAlgorithm::all();
                ch.op(1);
                let names: Vec<&str> = all.iter().map(|a| a.canonical_str()).collect();
                let mut sorted = names.clone();
                sorted.sort();
                if sorted != if PRE { vec!["sha1", "sha256"] } else { vec!["sha256"] } {
                    return viol("hash algorithms", format!("{names:?}"));
                }
                prints(ch, HashAlgorithm::Sha256, "sha256")
            }
            2 => match ch.pick(2) {
                0 => prints(ch, ServiceType::Any, "*"),
                _ => prints(ch, ServiceType::Email, "email"),
            },
            3 => match ch.pick(2) {
                0 => prints(ch, SelectorFlag::Testing, "y"),
                _ => prints(ch, SelectorFlag::NoSubdomains, "s"),
            },
            4 => {
                let (r, n) = ch
                    .of(&[
                        (DkimResult::None, "none"),
                        (DkimResult::Pass, "pass"),
                        (DkimResult::Fail, "fail"),
                        (DkimResult::Policy, "policy"),
                        (DkimResult::Neutral, "neutral"),
                        (DkimResult::Temperror, "temperror"),
                        (DkimResult::Permerror, "permerror"),
                    ])
                    .to_owned();
                prints(ch, r, n)
            }
            5 => {
                // Every pair of a key type and a hash algorithm.
                let k = *ch.of(&[KeyType::Rsa, KeyType::Ed25519]);
                let h = *ch.of(&HashAlgorithm::all());
                let a = SigningAlgorithm::from_parts(k, h);
                ch.op(1);
                let known = !(k == KeyType::Ed25519 && h.canonical_str() == "sha1");
                match a {
                    None if !known => Ok(()),
                    Some(a) if known => {
                        let pair: (KeyType, HashAlgorithm) = a.into();
                        if (a.key_type(), a.hash_algorithm()) != (k, h) || pair != (k, h) {
                            return viol(format!("{k} {h}"), format!("{a:?}"));
                        }
                        prints(ch, a, &format!("{k}-{h}"))
                    }
                    a => viol(format!("{k} {h}"), format!("{a:?}")),
                }
            }
            _ => {
                let (h, b) = (*ch.of(&[Simple, Relaxed]), *ch.of(&[Simple, Relaxed]));
                let n = |c| if c == Simple { "simple" } else { "relaxed" };
                prints(ch, h, n(h))?;
                let c = Canonicalization::from((h, b));
                if (c.header, c.body) != (h, b) || CA::default() != Simple || Canonicalization::default() != (Simple, Simple).into() {
                    return viol("canonicalization", format!("{c:?}"));
                }
                prints(ch, c, &format!("{}/{}", n(h), n(b)))
            }
        }
    });
    ctx.part("names in every case", 0, &|ch| {
        let mut names = vec!["rsa-sha256", "ed25519-sha256", "simple", "relaxed", "simple/simple", "simple/relaxed", "relaxed/simple", "relaxed/relaxed"];
        if PRE {
            names.push("rsa-sha1");
        }
        let n = *ch.of(&names);
        let s: String = n.chars().map(|c| if c.is_ascii_lowercase() && ch.flag() { c.to_ascii_uppercase() } else { c }).collect();
        let got = named(ch, &s);
        let want = match n {
            "simple" | "relaxed" => vec![n.to_string(), format!("{n}/simple")],
            _ => vec![n.to_string()],
        };
        if got != want {
            return viol(format!("name {s:?}"), format!("{got:?} expected {want:?}"));
        }
        Ok(())
    });
    ctx.part("neighbours of names", 0, &|ch| {
        // One character more, less, or another one; or two names in one.
        let names = ["rsa-sha256", "ed25519-sha256", "simple", "relaxed", "simple/relaxed", "relaxed/simple", "rsa-sha1", "ed25519-sha1"];
        let n = *ch.of(&names);
        let cs = odd_chars();
        let mut v: Vec<char> = n.chars().collect();
        match ch.pick(4) {
            0 => {
                let i = ch.pick(v.len() + 1);
                v.insert(i, *ch.of(&cs));
            }
            1 => {
                let i = ch.pick(v.len());
                v[i] = *ch.of(&cs);
            }
            2 => {
                let i = ch.pick(v.len());
                v.remove(i);
            }
            _ => {
                v.push(*ch.of(&['/', '-', ' ', ':']));
                v.extend(ch.of(&names).chars());
            }
        }
        known(ch, &v.into_iter().collect::<String>())
    });
    ctx.part("strings of pieces", 0, &|ch| {
        let toks = ["rsa", "ed25519", "-", "sha256", "sha1", "simple", "relaxed", "/", " ", "\r\n ", "RSA", "Simple", "sha512", "1", "é"];
        let s = String::from_utf8(string(ch, if t { 7 } else { 6 }, &toks)).unwrap();
        known(ch, &s)
    });
    ctx.part("encoding", 0, &|ch| {
        match ch.pick(3) {
            0 => {
                let n = ch.pick(3);
                let b: Vec<u8> = (0..n).map(|_| ch.pick(256) as u8).collect();
                enc(ch, &b)
            }
            1 => {
                let edge = [0u8, 1, 3, 4, 15, 16, 62, 63, 64, 0x7f, 0x80, 0xbf, 0xc0, 0xf8, 0xfb, 0xff];
                let n = 3 + ch.pick(if t { 3 } else { 2 });
                let b: Vec<u8> = (0..n).map(|_| *ch.of(&edge)).collect();
                enc(ch, &b)
            }
            _ => {
                let n = *ch.of(&sizes(300, if t { 100_001 } else { 4_097 }));
                let m = *ch.of(&[1usize, 7, 31, 255]);
                let b: Vec<u8> = (0..n).map(|i| (i * m) as u8).collect();
                enc(ch, &b)
            }
        }
    });
    ctx.part("decoding", 0, &|ch| {
        let toks = ["A", "Q", "g", "w", "z", "0", "9", "+", "/", "=", "-", "_", " ", "\r\n", "\t", "é", "\0"];
        let s = String::from_utf8(string(ch, if t { 7 } else { 6 }, &toks)).unwrap();
        dec(ch, &s)
    });
    ctx.part("decoding with every character", 0, &|ch| {
        // At every place of texts of each length, every character; or the
        // text cut there.
        let cs = odd_chars();
        let n = ch.pick(if t { 80 } else { 40 });
        let b: Vec<u8> = (0..n).map(|i| (i * 37 + 5) as u8).collect();
        let mut v: Vec<char> = encode(&b).chars().collect();
        if v.is_empty() {
            v.push('=');
        }
        let i = ch.pick(v.len());
        match ch.pick(3) {
            0 => v[i] = *ch.of(&cs),
            1 => v.insert(i, *ch.of(&cs)),
            _ => v.truncate(i),
        }
        dec(ch, &v.into_iter().collect::<String>())
    });
    ctx.part("domains, selectors and identities", 0, &|ch| {
        let toks = ["a", "B", ".", "-", "_domainkey", "1", "é", "xn--bcher-kva", "_", "@", "\"", " ", "中"];
        let s = match ch.pick(4) {
            0 => String::from_utf8(string(ch, if t { 6 } else { 5 }, &toks)).unwrap(),
            1 => {
                // Names of whole labels, and what may surround them.
                let labels = ["_domainkey", "example", "com", "org", "A-b", "a_b", "xn--bcher-kva", "www", "mail", "localhost"];
                let n = 1 + ch.pick(4);
                let v: Vec<&str> = (0..n).map(|_| *ch.of(&labels)).collect();
                format!("{}{}{}", ch.of(&["", ".", "@", "me@", "a.b@", "\"@\"@", " "]), v.join("."), ch.of(&["", ".", " ", "\r\n"]))
            }
            2 => {
                // Any character anywhere.
                let cs = odd_chars();
                let mut v: Vec<char> = ch.of(&["a.b._domainkey.example.com", "me@mail.example.com", "sel", "example.org"]).chars().collect();
                let i = ch.pick(v.len() + 1);
                if ch.flag() && i < v.len() {
                    v[i] = *ch.of(&cs);
                } else {
                    v.insert(i, *ch.of(&cs));
                }
                v.into_iter().collect()
            }
            _ => {
                // Long ones.
                let n = *ch.of(&sizes(70, 260));
                let m = *ch.of(&[1, 10, 63, 64]);
                let l: Vec<String> = (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect::<Vec<_>>().chunks(m).map(|c| c.iter().collect()).collect();
                format!("{}{}", ch.of(&["", "@", "x@"]), l.join(".") + *ch.of(&["", ".com", ".example.com"]))
            }
        };
        ch.op(3);
        ch.describe(|| s.clone());
        let key = || format!("name {s:?}");
        if let Ok(d) = DomainName::new(s.as_str()) {
            if d.to_string() != s || d.as_ref() != s || s.parse::<DomainName>() != Ok(d.clone()) {
                return viol(key(), format!("domain {d}"));
            }
            let i = Identity::from_domain(d.clone());
            if i.local_part.is_some() || i.domain != d || i.to_string() != format!("@{s}") || Identity::new(&i.to_string()) != Ok(i.clone()) {
                return viol(key(), format!("identity {i}"));
            }
        }
        // Both ways of reading are one.
        if DomainName::new(s.as_str()).is_ok() != s.parse::<DomainName>().is_ok()
            || Selector::new(s.as_str()).is_ok() != s.parse::<Selector>().is_ok()
            || Identity::new(&s).is_ok() != s.parse::<Identity>().is_ok()
        {
            return viol(key(), "read differently by new and parse");
        }
        if let Ok(d) = Selector::new(s.as_str()) {
            if d.to_string() != s || d.as_ref() != s || s.parse::<Selector>() != Ok(d.clone()) {
                return viol(key(), format!("selector {d}"));
            }
        }
        if let Ok(i) = Identity::new(&s) {
            if i.to_string() != s || s.parse::<Identity>() != Ok(i.clone()) {
                return viol(key(), format!("identity {i}"));
            }
            let p = i.local_part.as_deref().unwrap_or("");
            if format!("{p}@{}", i.domain) != s {
                return viol(key(), format!("{i:?}"));
            }
        }
        Ok(())
    });
    ctx.note("whether unused bits of the last Base64 letter have to be zero is left open");
}

/// What a text is read as.
fn named(ch: &mut Ch, s: &str) -> Vec<String> {
    ch.op(3);
    let mut v = vec![];
    v.extend(s.parse::<SigningAlgorithm>().map(|a| a.to_string()));
    v.extend(s.parse::<CA>().map(|a| a.to_string()));
    v.extend(s.parse::<Canonicalization>().map(|a| a.to_string()));
    v
}

fn known(ch: &mut Ch, s: &str) -> Result<(), Viol> {
    let got = named(ch, s);
    ch.describe(|| format!("{s:?} -> {got:?}"));
    let l = s.to_ascii_lowercase();
    let want = match l.as_str() {
        "rsa-sha256" | "ed25519-sha256" | "simple/simple" | "simple/relaxed" | "relaxed/simple" | "relaxed/relaxed" => vec![l],
        "rsa-sha1" if PRE => vec![l],
        "simple" | "relaxed" => vec![l.clone(), format!("{l}/simple")],
        _ => vec![],
    };
    if got != want {
        return viol(format!("name {s:?}"), format!("{got:?} expected {want:?}"));
    }
    Ok(())
}
