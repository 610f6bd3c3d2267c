//! RFC 6376, section 3.5: what a DKIM-Signature value says.

use super::{
    domain, qp,
    tags::{self, Tl, B64},
};
use std::collections::BTreeSet;

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Sig {
    pub alg: String,
    pub b: Vec<u8>,
    pub bh: Vec<u8>,
    pub c: (bool, bool), // relaxed header, body
    pub d: String,
    pub h: Vec<String>,
    pub i: Option<(Option<String>, String)>,
    pub l: Option<u64>,
    pub s: String,
    pub t: Option<u64>,
    pub x: Option<u64>,
    pub z: Vec<(String, Vec<u8>)>,
    pub ext: Vec<(String, String)>,
}

/// Raw a, b, d, i, s.
pub type Salvage = [Option<String>; 5];

#[derive(Debug, Clone, PartialEq)]
pub enum P {
    Ok(Box<Sig>),
    /// Every kind of error that applies, and what can be salvaged.
    Bad(BTreeSet<&'static str>, Salvage),
    Unspecified,
}

pub fn is_field_name(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| (33..=126).contains(&b) && b != b':')
}

enum V<T> {
    Ok(T),
    Bad(&'static str),
    Unspec,
}

fn number(v: &str, kind: &'static str) -> V<u64> {
    if v.is_empty() || !v.bytes().all(|b| b.is_ascii_digit()) {
        return V::Bad(kind);
    }
    let mut n: u128 = 0;
    for b in v.bytes() {
        n = (n * 10 + (b - b'0') as u128).min(1 << 100);
    }
    // Larger values are up to the implementation.
    u64::try_from(n).map_or(V::Unspec, V::Ok)
}

fn b64(v: &str, empty: &'static str) -> V<Vec<u8>> {
    match tags::base64(v) {
        B64::Bad => V::Bad("InvalidBase64"),
        B64::Unspecified => V::Unspec,
        B64::Ok(b) if b.is_empty() => V::Bad(empty),
        B64::Ok(b) => V::Ok(b),
    }
}

pub fn canon_name(v: &str) -> Option<(bool, bool)> {
    let one = |s: &str| match s.to_ascii_lowercase().as_str() {
        "simple" => Some(false),
        "relaxed" => Some(true),
        _ => None,
    };
    let p: Vec<&str> = v.split('/').collect();
    match p.len() {
        1 => Some((one(p[0])?, false)),
        2 => Some((one(p[0])?, one(p[1])?)),
        _ => None,
    }
}

pub fn parse(value: &str, pre: bool) -> P {
    let list = match tags::parse(value) {
        Tl::Ok(l) => l,
        Tl::Bad => return P::Bad(BTreeSet::from(["TagListFormat"]), Default::default()),
        Tl::Unspecified => return P::Unspecified,
    };
    let mut s = Sig::default();
    let mut bad: BTreeSet<&'static str> = BTreeSet::new();
    let mut unspec = false;
    let mut salv: Salvage = Default::default();
    let mut seen: BTreeSet<&str> = BTreeSet::new();
    macro_rules! take {
        ($e:expr, $to:expr) => {
            match $e {
                V::Ok(v) => $to = v,
                V::Bad(k) => {
                    bad.insert(k);
                }
                V::Unspec => unspec = true,
            }
        };
    }
    for (n, v) in &list {
        seen.insert(n.as_str());
        if let Some(i) = ["a", "b", "d", "i", "s"].iter().position(|x| x == n) {
            salv[i] = Some(v.clone());
        }
        match n.as_str() {
            "v" => {
                if v != "1" {
                    bad.insert("IncompatibleVersion");
                }
            }
            "a" => match v.to_ascii_lowercase().as_str() {
                x @ ("rsa-sha256" | "ed25519-sha256") => s.alg = x.to_string(),
                "rsa-sha1" if pre => s.alg = "rsa-sha1".into(),
                "rsa-sha1" => {
                    bad.insert("HistoricAlgorithm");
                }
                _ => {
                    bad.insert("UnsupportedAlgorithm");
                }
            },
            "b" => take!(b64(v, "EmptySignatureTag"), s.b),
            "bh" => take!(b64(v, "EmptyBodyHashTag"), s.bh),
            "c" => match canon_name(v) {
                Some(c) => s.c = c,
                None => {
                    bad.insert("UnsupportedCanonicalization");
                }
            },
            "d" => {
                if domain::open(v) {
                    unspec = true;
                } else if domain::to_ascii(v, false).is_some() {
                    s.d = v.clone();
                } else {
                    bad.insert("InvalidDomain");
                }
            }
            "s" => {
                if domain::open(v) {
                    unspec = true;
                } else if domain::to_ascii(v, true).is_some() {
                    s.s = v.clone();
                } else {
                    bad.insert("InvalidSelector");
                }
            }
            "h" => {
                if v.is_empty() {
                    bad.insert("EmptySignedHeadersTag");
                } else {
                    s.h = tags::colon_list(v);
                    if !s.h.iter().all(|n| is_field_name(n)) {
                        bad.insert("InvalidSignedHeaderName");
                    }
                    if !s.h.iter().any(|n| n.eq_ignore_ascii_case("from")) {
                        bad.insert("FromHeaderNotSigned");
                    }
                }
            }
            "i" => {
                let text = qp::decode(v).and_then(|b| String::from_utf8(b).ok());
                unspec |= text.as_deref().map_or(false, |t| t.rfind('@').map_or(false, |i| domain::open(&t[i..])));
                match text.and_then(|t| domain::identity(&t)) {
                    Some(id) => s.i = Some(id),
                    None => {
                        bad.insert("InvalidIdentity");
                    }
                }
            }
            "l" => {
                let mut n = 0;
                take!(number(v, "InvalidBodyLength"), n);
                s.l = Some(n);
            }
            "t" => {
                let mut n = 0;
                take!(number(v, "InvalidTimestamp"), n);
                s.t = Some(n);
            }
            "x" => {
                let mut n = 0;
                take!(number(v, "InvalidExpiration"), n);
                s.x = Some(n);
            }
            "q" => {
                let items = tags::colon_list(v);
                if items.iter().any(|i| i.is_empty()) {
                    bad.insert("InvalidQueryMethod");
                }
                if !items.iter().any(|i| i.eq_ignore_ascii_case("dns/txt")) {
                    bad.insert("NoSupportedQueryMethods");
                }
            }
            "z" => {
                let mut z = vec![];
                for p in v.split('|') {
                    let f = qp::decode(p).and_then(|b| {
                        let i = b.iter().position(|b| *b == b':')?;
                        let name = String::from_utf8(b[..i].to_vec()).ok()?;
                        is_field_name(&name).then(|| (name, b[i + 1..].to_vec()))
                    });
                    match f {
                        Some(f) => z.push(f),
                        None => {
                            bad.insert("InvalidCopiedHeaderField");
                        }
                    }
                }
                s.z = z;
            }
            _ => s.ext.push((n.clone(), v.clone())),
        }
    }
    for (t, k) in [
        ("v", "MissingVersionTag"),
        ("a", "MissingAlgorithmTag"),
        ("b", "MissingSignatureTag"),
        ("bh", "MissingBodyHashTag"),
        ("d", "MissingDomainTag"),
        ("h", "MissingSignedHeadersTag"),
        ("s", "MissingSelectorTag"),
    ] {
        if !seen.contains(t) {
            bad.insert(k);
        }
    }
    if let Some((_, id)) = &s.i {
        if !s.d.is_empty() && !domain::same_or_sub(id, &s.d) {
            bad.insert("DomainMismatch");
        }
    }
    if let (Some(t), Some(x)) = (s.t, s.x) {
        if x <= t && !bad.contains("InvalidTimestamp") && !bad.contains("InvalidExpiration") && !unspec {
            bad.insert("ExpirationNotAfterTimestamp");
        }
    }
    if unspec {
        P::Unspecified
    } else if bad.is_empty() {
        P::Ok(Box::new(s))
    } else {
        P::Bad(bad, salv)
    }
}
