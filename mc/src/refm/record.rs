//! RFC 6376, section 3.6.1: key records.

use super::{
    qp,
    tags::{self, Tl, B64},
};
use std::collections::BTreeSet;

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Rec {
    pub h: Vec<String>,
    pub ed: bool,
    pub n: Option<String>,
    pub p: Vec<u8>,
    pub s: Vec<String>,
    pub t: Vec<String>,
    pub ext: Vec<(String, String)>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum R {
    Ok(Box<Rec>),
    Bad(BTreeSet<&'static str>),
    Unspecified,
}

pub fn parse(value: &str, pre: bool) -> R {
    let list = match tags::parse(value) {
        Tl::Ok(l) => l,
        Tl::Bad => return R::Bad(BTreeSet::from(["TagListFormat"])),
        Tl::Unspecified => return R::Unspecified,
    };
    let all: Vec<String> = if pre { vec!["sha256".into(), "sha1".into()] } else { vec!["sha256".into()] };
    let mut r = Rec { h: all.clone(), s: vec!["*".into()], ..Default::default() };
    let mut bad = BTreeSet::new();
    let mut unspec = false;
    // Known items of a list, ignoring unknown ones.
    let items = |v: &str, known: &[&str]| -> Option<Vec<String>> {
        let l = tags::colon_list(v);
        if l.iter().any(|i| i.is_empty()) {
            return None;
        }
        Some(l.iter().map(|i| i.to_ascii_lowercase()).filter(|i| known.contains(&i.as_str())).collect())
    };
    for (i, (n, v)) in list.iter().enumerate() {
        match n.as_str() {
            "v" => {
                if i != 0 {
                    bad.insert("MisplacedVersionTag");
                }
                if v != "DKIM1" {
                    bad.insert("IncompatibleVersion");
                }
            }
            "h" => {
                let known: Vec<&str> = all.iter().map(|s| s.as_str()).collect();
                match items(v, &known) {
                    None => {
                        bad.insert("InvalidHashAlgorithm");
                    }
                    Some(l) if l.is_empty() => {
                        bad.insert("NoSupportedHashAlgorithms");
                    }
                    Some(l) => r.h = l,
                }
            }
            "k" => match v.to_ascii_lowercase().as_str() {
                "rsa" => r.ed = false,
                "ed25519" => r.ed = true,
                _ => {
                    bad.insert("UnsupportedKeyType");
                }
            },
            "n" => match qp::decode_section(v) {
                Some(b) => r.n = Some(String::from_utf8_lossy(&b).into_owned()),
                None => {
                    bad.insert("InvalidQuotedPrintable");
                }
            },
            "p" => match tags::base64(v) {
                B64::Ok(b) => r.p = b,
                B64::Bad => {
                    bad.insert("InvalidBase64");
                }
                B64::Unspecified => unspec = true,
            },
            "s" => match items(v, &["*", "email"]) {
                None => {
                    bad.insert("InvalidServiceType");
                }
                Some(l) if l.is_empty() => {
                    bad.insert("NoSupportedServiceTypes");
                }
                Some(l) => r.s = l,
            },
            "t" => match items(v, &["y", "s"]) {
                None => {
                    bad.insert("InvalidFlag");
                }
                Some(l) => r.t = l,
            },
            _ => r.ext.push((n.clone(), v.clone())),
        }
    }
    if !list.iter().any(|t| t.0 == "p") {
        bad.insert("MissingKeyTag");
    }
    if unspec {
        R::Unspecified
    } else if bad.is_empty() {
        R::Ok(Box::new(r))
    } else {
        R::Bad(bad)
    }
}
