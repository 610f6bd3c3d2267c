//! Signing requests and messages to choose from.

use super::common::{ident, request, Req, PRE};
use crate::{
    explore::Ch,
    keys::{key, K},
    refm::{
        crypto::H,
        domain,
        header::Field,
        sign::f,
    },
};
use std::{cmp::Ordering, time::Duration};
use viadkim::{
    header::FieldName,
    signer::{BodyLength, HeaderSelection, Timestamp},
};

#[derive(Clone, Debug)]
pub struct ReqSpec {
    pub key: &'static K,
    pub h: H,
    pub hr: bool,
    pub br: bool,
    pub sel: Option<Vec<String>>,
    pub bl: BodyLength,
    pub ts: Timestamp,
    pub vd: Option<Duration>,
    pub copy: bool,
    pub d: String,
    pub s: String,
    pub i: Option<String>,
    pub ext: Vec<(String, String)>,
    pub width: usize,
    pub indent: String,
    pub order: usize,
    pub header_name: String,
    pub ascii: bool,
}

impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(self.name)
    }
}

pub fn order(n: usize, a: &str, b: &str) -> Ordering {
    match n {
        1 => a.cmp(b),
        2 => b.cmp(a),
        3 => a.len().cmp(&b.len()),
        4 => Ordering::Equal,
        5 => (a != "b").cmp(&(b != "b")),               // b first
        6 => (a == "b").cmp(&(b == "b")),               // b last
        7 => (a != "z", a != "h").cmp(&(b != "z", b != "h")), // z, h first
        8 => (a == "bh").cmp(&(b == "bh")),             // bh last
        9 => (a == "h").cmp(&(b == "h")),               // h last
        10 => (a == "z").cmp(&(b == "z")),               // z last
        11.. => {
            let last = LASTS[n - 11];
            (a == last).cmp(&(b == last))
        }
        _ => unreachable!(),
    }
}
pub const ORDERS: usize = 11;
/// Tags put last by the further orders.
pub const LASTS: &[&str] = &["v", "a", "c", "d", "s", "t", "x", "l", "i", "e"];

impl ReqSpec {
    pub fn plain(key: &'static K) -> ReqSpec {
        ReqSpec {
            key,
            h: H::Sha256,
            hr: true,
            br: false,
            sel: None,
            bl: BodyLength::NoLimit,
            ts: Timestamp::Exact(1_000_000),
            vd: None,
            copy: false,
            d: "example.com".into(),
            s: "sel".into(),
            i: None,
            ext: vec![],
            width: 78,
            indent: "\t".into(),
            order: 0,
            header_name: "DKIM-Signature".into(),
            ascii: false,
        }
    }

    pub fn build(&self) -> Req {
        let mut r = request(self.key, self.h, &self.d, &self.s, self.hr, self.br);
        if let Some(n) = &self.sel {
            r.header_selection =
                HeaderSelection::Manual(n.iter().map(|n| FieldName::new(n.as_str()).unwrap()).collect());
        }
        r.body_length = self.bl;
        r.timestamp = self.ts;
        r.valid_duration = self.vd;
        r.copy_headers = self.copy;
        r.identity = self.i.as_deref().map(ident);
        r.ext_tags = self.ext.clone();
        r.format.line_width = self.width.try_into().unwrap();
        r.format.indentation = self.indent.clone();
        let n = self.order;
        if n > 0 {
            r.format.tag_order = Some(Box::new(move |a, b| order(n, a, b)));
        }
        r.format.header_name = self.header_name.clone();
        r.format.ascii_only = self.ascii;
        r
    }

    pub fn query(&self) -> String {
        format!(
            "{}._domainkey.{}.",
            domain::to_ascii(&self.s, true).unwrap(),
            domain::to_ascii(&self.d, false).unwrap()
        )
    }
}

pub fn messages() -> Vec<Vec<Field>> {
    let long = "x".repeat(200);
    vec![
        vec![f("From", " me@example.com"), f("To", " you@example.org"), f("Subject", " hi\r\n  there \t x")],
        vec![
            f("Received", " a"),
            f("FROM", "\tA\r\n\t <a@b> "),
            f("To", " x"),
            f("from", " second"),
            f("to", " y"),
            f("Received", " b"),
            f("To", " z"),
        ],
        vec![
            ("Subject".into(), b" caf\xc3\xa9 \xe2\x99\xa5;=|:".to_vec()),
            f("X|Y", " a|b"),
            f("X=1", " =20=;"),
            f("X;Z", " semi"),
            ("From".into(), " jörg".as_bytes().to_vec()),
        ],
        vec![
            f("DKIM-Signature", " v=1; a=rsa-sha256; b=abc; bh=abc; d=x; s=y; h=from"),
            f("dkim-signature", " broken"),
            f("From", " x"),
            f("Date", " now"),
        ],
        vec![f("From", ""), f("To", " "), f("Subject", "\t"), f("Cc", " \t "), f("List-Id", "x")],
        vec![f("Subject", &format!(" {long}")), f("From", &format!(" {long}@example.com")), f(&"N".repeat(90), " v")],
        vec![("From".into(), b" latin \xe9\xff".to_vec()), ("To".into(), b"\xf0\x9f\r\n \xa0 x".to_vec())],
        {
            let mut v = vec![];
            for r in 0..2 {
                for n in [
                    "Reply-To", "Subject", "Date", "To", "Cc", "From", "Resent-Date", "In-Reply-To", "References",
                    "List-Id", "List-Archive", "Comments", "Sender", "Return-Path",
                ] {
                    v.push(f(n, &format!(" {n} {r}")));
                }
            }
            v
        },
    ]
}

pub fn selections() -> Vec<Option<Vec<String>>> {
    let s = |v: &[&str]| Some(v.iter().map(|x| x.to_string()).collect::<Vec<_>>());
    vec![
        None,
        s(&["From"]),
        s(&["from", "FROM", "From", "from"]),
        s(&["To", "From", "Subject", "To", "Absent", "To", "to"]),
        s(&["DKIM-Signature", "From", "dkim-signature", "DKIM-Signature"]),
        s(&["X|Y", "X=1", "From", "X-!#$%&'*+^_`{|}~\"(),.<>@[]?/\\"]),
        s(&["Received", "Absent", "Received", "Received", "From", "Subject"]),
        Some((0..30).map(|i| format!("X-Some-Name-{i}")).chain(["From".to_string()]).collect()),
    ]
}

pub fn bodies() -> Vec<Vec<u8>> {
    [
        &b"hello\r\n"[..],
        b"",
        b"\r\n\r\n",
        b" a \t b \r\n\r\n c\t\r\n \r\n",
        b"no end",
        b"a\rb\nc\r\n\r\n\n\r\r\n\r\n",
        b"\xff\x00\xe9 \r\n.\r\n",
        b"   ",
    ]
    .iter()
    .map(|b| b.to_vec())
    .chain([[b"0123456789abcdef ".repeat(20), b"\r\n".to_vec()].concat()])
    .collect()
}

/// The example header fields of RFC 6376, section 5.4.1.
pub const EXAMPLES_SIGNED: &[&str] = &[
    "From", "Reply-To", "Subject", "Date", "To", "Cc", "Resent-Date", "Resent-From", "Resent-To", "Resent-Cc",
    "In-Reply-To", "References", "List-Id", "List-Help", "List-Unsubscribe", "List-Subscribe", "List-Post",
    "List-Owner", "List-Archive",
];
pub const EXAMPLES_UNSIGNED: &[&str] = &["Return-Path", "Received", "Comments", "Keywords"];

/// Another domain with what belongs to it: selector, identities.
pub const DOMAINS: &[&str] =
    &["example.com", "Example.COM", "bücher.example", "xn--bcher-kva.example", "中国.example", "a.b.c.d.e-f.x1"];
pub const SELECTORS: &[&str] = &["sel", "A.b", "2023", "sélé", "a_b.xn--bcher-kva"];

pub fn identities(d: &str) -> Vec<Option<String>> {
    let mut v = vec![None];
    for i in ["@D", "me@D", "me@sub.D", "\"a b;c|d=\"@D", "jörg@D", "@Sub.bücher.D", "a=b@D"] {
        v.push(Some(i.replace('D', d)));
    }
    v.push(Some(format!("x@{}", d.to_uppercase())));
    v
}

pub fn exts() -> Vec<Vec<(String, String)>> {
    let s = |v: &[(&str, &str)]| v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect::<Vec<_>>();
    vec![
        s(&[]),
        s(&[("r", "y")]),
        s(&[("e", ""), ("E", "a b"), ("n_1", "x=y|z:@,")]),
        s(&[("fold", "a \t b\r\n c")]),
        s(&[("u", "é♥")]),
        s(&[("long", "y123456789y123456789y123456789y123456789y123456789y123456789y123456789y123456789y123456789")]),
        s(&[("bhx", "1"), ("B", "2"), ("V", "3")]),
    ]
}

pub const DURATIONS: &[Option<Duration>] = &[
    None,
    Some(Duration::from_secs(1)),
    Some(Duration::from_millis(1_999)),
    Some(Duration::from_secs(432_000)),
    Some(Duration::from_secs(u64::MAX)),
];

pub fn timestamps() -> Vec<Timestamp> {
    vec![
        Timestamp::Exact(1_000_000),
        Timestamp::Now,
        Timestamp::None,
        Timestamp::Exact(0),
        Timestamp::Exact(253_402_300_799),
    ]
}

pub const WIDTHS: &[usize] = &[78, 1, 2, 3, 10, 20, 33, 77, 79, 998, 100_000];
pub const INDENTS: &[&str] = &["\t", " ", "  ", "\t \t ", "                                        "];
pub const NAMES: &[&str] = &["DKIM-Signature", "dkim-signature", "DKIM-SIGNATURE"];

/// Every field of the request may deviate from the plain one.
pub fn deviate(ch: &mut Ch, r: &mut ReqSpec, with_hash: bool) {
    let c = ch.dev(4);
    r.hr = [true, false, true, false][c];
    r.br = [false, false, true, true][c];
    if with_hash && PRE && r.key.is_rsa() && ch.devflag() {
        r.h = H::Sha1;
    }
    r.sel = ch.devof(&selections()).clone();
    r.ts = *ch.devof(&timestamps());
    r.vd = *ch.devof(DURATIONS);
    r.copy = ch.devflag();
    r.d = ch.devof(DOMAINS).to_string();
    r.s = ch.devof(SELECTORS).to_string();
    r.i = ch.devof(&identities(&r.d)).clone();
    r.ascii = ch.devflag();
    let mut e = exts();
    if r.ascii {
        e.retain(|l| l.iter().all(|(_, v)| v.is_ascii()));
    }
    r.ext = ch.devof(&e).clone();
    r.width = *ch.devof(WIDTHS);
    r.indent = ch.devof(INDENTS).to_string();
    r.order = ch.dev(ORDERS);
    r.header_name = ch.devof(NAMES).to_string();
}

/// One dimension of a message or request in any of many sizes.
pub fn sized(ch: &mut Ch, r: &mut ReqSpec, thorough: bool) -> (Vec<Field>, Vec<u8>) {
    let mut fields = vec![f("Received", " x"), f("From", " me@example.com"), f("To", " you"), f("Subject", " s")];
    let mut body = b"hello\r\n".to_vec();
    let (many, dense) = if thorough { (65_537, 300) } else { (4_097, 70) };
    let few = if thorough { 1025 } else { 257 };
    let of = |ch: &mut Ch, max: usize| *ch.of(&crate::util::sizes(dense.min(max), max));
    r.hr = ch.flag();
    match ch.pick(15) {
        0 => {
            let u: &[u8] = ch.of(&[&b"x"[..], b"x ", b" \t", "é".as_bytes(), b"\r\n y", b"\xe9", b"=;|"]);
            fields[3].1 = [&b" "[..], &u.repeat(of(ch, many) / u.len()), b"z"].concat();
            r.sel = Some(vec!["From".into(), "Subject".into()]);
            r.copy = thorough && ch.flag();
        }
        1 => {
            // Copied fields
            fields[3].1 = [&b" "[..], &ch.of(&[&b"x"[..], b"|", "é".as_bytes(), b"\xe9"]).repeat(of(ch, few)), b"z"].concat();
            r.copy = true;
            r.ascii = ch.flag();
        }
        2 => {
            fields[3].0 = "N".repeat(1 + of(ch, few));
            r.sel = Some(vec!["From".into(), fields[3].0.clone()]);
            r.copy = ch.flag();
        }
        3 => {
            // Fields that are not signed
            let n = of(ch, few);
            let at = ch.pick(3) * 2;
            for i in 0..n {
                fields.insert(at, f(&format!("X-{i}"), " u"));
            }
        }
        4 => {
            // Fields of one name, all of them signed, or one more or less
            let n = 1 + of(ch, few);
            fields = (0..n).map(|i| f("From", &format!(" {i}"))).collect();
            r.sel = Some(vec!["from".to_string(); (n + ch.pick(3)).max(2) - 1]);
        }
        5 => {
            // Fields of many names, all of them signed
            let n = of(ch, few);
            fields.extend((0..n).map(|i| f(&format!("X-{i}"), &format!(" {i}"))));
            r.sel = Some(fields.iter().map(|f| f.0.clone()).rev().collect());
            r.copy = ch.flag();
        }
        6 => {
            let n = of(ch, few);
            r.sel = Some(["From".to_string()].into_iter().chain((0..n).map(|i| format!("Absent-{i}"))).collect());
        }
        7 => {
            let u: &[u8] = ch.of(&[&b"x"[..], b"\r\n", b" ", b"a\r\n", b"a \r\n", b"\r", b"\n"]);
            body = u.repeat(of(ch, many) / u.len());
            body.extend(*ch.of(&[&b""[..], b"\r\n", b"end", b"end\r\n"]));
            r.br = ch.flag();
            r.bl = *ch.of(&[BodyLength::NoLimit, BodyLength::MessageContent]);
        }
        8 => r.ext = vec![("e".into(), format!("v{}z", ch.of(&["x", "x ", "é", "\r\n y"]).repeat(of(ch, few))))],
        9 => r.ext = vec![("e".repeat(1 + of(ch, few)), "v".into())],
        10 => r.ext = (0..of(ch, few)).map(|i| (format!("e{i}"), format!("{i}"))).collect(),
        11 => {
            // A name of so many characters in labels
            let n = 1 + of(ch, 240);
            r.d = (0..n).map(|i| if i % 32 == 31 && i + 1 < n { '.' } else { 'a' }).collect();
            r.d.push_str(".example");
            r.i = ch.of(&[None, Some(format!("@{}", r.d)), Some(format!("@x.{}", r.d))]).clone().filter(|i| i.len() < 250);
        }
        12 => {
            let n = 1 + of(ch, 200);
            r.s = (0..n).map(|i| if i % 63 == 62 && i + 1 < n { '.' } else { 'a' }).collect();
        }
        13 => r.i = Some(format!("{}@example.com", ch.of(&["a", "é"]).repeat(1 + ch.pick(32)))),
        _ => r.i = Some(format!("a@{}.example.com", ["x"].repeat(1 + of(ch, 100)).join("."))),
    }
    r.width = *ch.of(&[78, 1]);
    (fields, body)
}

/// Any permitted character, in the company of another, at every place of a
/// request or message that takes text.
pub fn lettered(ch: &mut Ch, r: &mut ReqSpec, thorough: bool) -> Option<(Vec<Field>, Vec<u8>)> {
    let mut fields = vec![f("From", " me@example.com"), f("To", " you"), f("Subject", " s")];
    let mut body = b"hello\r\n".to_vec();
    let place = ch.pick(8);
    let a = ch.pick(256) as u8;
    let few: &[u8] = b"\0 \t\r!\"-.:;=@_a|\x7f\xc3\xff";
    let b = if thorough { ch.pick(257) } else { ch.pick(few.len() + 1) };
    let b = if thorough { b.checked_sub(1).map(|b| b as u8) } else { b.checked_sub(1).map(|b| few[b]) };
    let at = ch.pick(4);
    let c: Vec<u8> = [a].into_iter().chain(b).collect();
    let text: Vec<u8> = match at {
        0 => [b"x", &c[..], b"y"].concat(),
        1 => [&c[..], b"y"].concat(),
        2 => [b"x", &c[..]].concat(),
        // Encoded as UTF-8
        _ => c.iter().map(|c| *c as char).collect::<String>().into_bytes(),
    };
    let utf8 = String::from_utf8(text.clone()).ok();
    let identity = |l: String| Some(format!("{l}@example.com")).filter(|i| domain::identity(i).is_some());
    match place {
        0 => r.i = Some(identity(utf8?)?),
        1 => r.i = Some(identity(format!("\"{}\"", utf8?))?),
        2 => {
            r.ext = vec![("e".into(), utf8.filter(|v| crate::refm::tags::is_value(v))?)];
            r.ascii = r.ext[0].1.is_ascii() && ch.flag();
        }
        3 => {
            fields[2].1 = text;
            crate::refm::mail::body_ok(&fields[2].1).then_some(())?;
            r.copy = ch.flag();
        }
        4 => {
            fields[2].0 = utf8.filter(|n| crate::refm::mail::name_ok(n.as_bytes()))?;
            r.copy = ch.flag();
            // A semicolon cannot be written in h=.
            r.sel = Some(if r.copy && ch.flag() || fields[2].0.contains(';') { vec!["From".into()] } else { vec![fields[2].0.clone(), "From".into()] });
        }
        5 => r.s = utf8.filter(|s| s.is_ascii() && domain::to_ascii(s, true).is_some())?,
        6 => {
            r.d = format!("{}.example", utf8.filter(|s| s.is_ascii())?);
            domain::to_ascii(&r.d, false)?;
            r.i = Some(format!("{}@a.{}", "x", r.d));
        }
        _ => {
            body = [&text[..], b"\r\n\r\n", &text].concat();
            r.br = ch.flag();
        }
    }
    if place != 2 && place != 7 {
        r.ascii = ch.flag();
    }
    r.hr = ch.flag();
    Some((fields, body))
}

pub fn default_key() -> &'static K {
    key("ed1")
}
