//! C28: what the library prints about its values is total, faithful, and keeps
//! private keys private; and logging changes nothing.

use super::{
    c04::hf,
    c26::{self, Kind, Sess},
    common::*,
    reqgen::ReqSpec,
    world::{answer, txt},
};
use crate::{
    ctx::Ctx,
    env::{self, Resolver},
    explore::{viol, Ch, Viol},
    keys::{self, key, Own, K},
    refm::{
        crypto::H,
        header::Field,
        sign::{f, Spec},
        verify::{show_msg, Ans, Cfg},
    },
    util::*,
};
use base64ct::{Base64, Encoding};
use rsa::{
    traits::{PrivateKeyParts, PublicKeyParts},
    BigUint,
};
use std::{
    cell::RefCell,
    error::Error,
    fmt::{Debug, Display, Write},
    sync::OnceLock,
};
use tracing::{
    field::{Field as TField, Visit},
    span,
    subscriber::Interest,
    Event, Metadata, Subscriber,
};
use viadkim::{
    crypto::{self, DecodeSigningKeyError, SigningKey},
    message_hash::BodyHashError,
    quoted_printable::QuotedPrintableError,
    record::{DkimKeyRecord, DkimKeyRecordError},
    signature::{
        DkimSignature, DkimSignatureError, DkimSignatureErrorKind, ParseAlgorithmError, ParseDomainError, ParseIdentityError,
    },
    signer::{RequestError, Signer, SigningError},
    verifier::{PolicyError, VerificationError},
    Base64Error, FieldBody, FieldName,
};

/// Takes every event there is, and keeps what it says.
struct Log;

thread_local! {
    static TEXT: RefCell<(u64, String)> = RefCell::default();
}

struct V<'a>(&'a mut String);
impl Visit for V<'_> {
    fn record_debug(&mut self, field: &TField, value: &dyn Debug) {
        let _ = write!(self.0, "{}={value:?} ", field.name());
    }
}

impl Subscriber for Log {
    // (Else what is not logged by one thread would be in another.)
    fn register_callsite(&self, _: &'static Metadata<'static>) -> Interest {
        Interest::sometimes()
    }
    fn enabled(&self, _: &Metadata<'_>) -> bool {
        true
    }
    fn new_span(&self, a: &span::Attributes<'_>) -> span::Id {
        let mut s = String::new();
        a.record(&mut V(&mut s));
        TEXT.with(|t| t.borrow_mut().1.push_str(&s));
        span::Id::from_u64(1)
    }
    fn record(&self, _: &span::Id, v: &span::Record<'_>) {
        let mut s = String::new();
        v.record(&mut V(&mut s));
        TEXT.with(|t| t.borrow_mut().1.push_str(&s));
    }
    fn record_follows_from(&self, _: &span::Id, _: &span::Id) {}
    fn event(&self, e: &Event<'_>) {
        let mut s = String::new();
        e.record(&mut V(&mut s));
        TEXT.with(|t| {
            let mut t = t.borrow_mut();
            t.0 += 1;
            t.1.push_str(&s);
            t.1.push('\n');
        });
    }
    fn enter(&self, _: &span::Id) {}
    fn exit(&self, _: &span::Id) {}
}

/// With every event logged: what comes of it, how many events, their text.
fn logged<T>(go: impl FnOnce() -> T) -> (T, u64, String) {
    TEXT.with(|t| *t.borrow_mut() = Default::default());
    let r = tracing::subscriber::with_default(Log, go);
    let (n, s) = TEXT.with(|t| t.take());
    (r, n, s)
}

/// Reads a quoted text: its bytes, and what follows.
fn unquote(s: &str) -> Option<(Vec<u8>, &str)> {
    let mut v = vec![];
    let mut c = s.strip_prefix('"')?.chars();
    loop {
        match c.next()? {
            '"' => return Some((v, c.as_str())),
            '\\' => match c.next()? {
                'n' => v.push(b'\n'),
                'r' => v.push(b'\r'),
                't' => v.push(b'\t'),
                '0' => v.push(0),
                e @ ('\\' | '\'' | '"') => v.push(e as u8),
                'x' => {
                    let h = c.as_str().get(..2)?;
                    v.push(u8::from_str_radix(h, 16).ok()?);
                    c.nth(1);
                }
                'u' => {
                    let r = c.as_str().strip_prefix('{')?;
                    let (h, r) = r.split_once('}')?;
                    let u = char::from_u32(u32::from_str_radix(h, 16).ok()?)?;
                    v.extend(u.encode_utf8(&mut [0; 4]).bytes());
                    c = r.chars();
                }
                _ => return None,
            },
            x if x.is_control() => return None,
            x => v.extend(x.encode_utf8(&mut [0; 4]).bytes()),
        }
    }
}

fn sig() -> DkimSignature {
    "v=1; a=ed25519-sha256; d=example.com; s=sel; h=From; bh=AQID; b=AQID".parse().unwrap()
}

fn bytes(ch: &mut Ch, b: &[u8]) -> Result<(), Viol> {
    ch.op(2);
    let mut s = sig();
    s.copied_headers = [(FieldName::new("X-Here").unwrap(), b.into())].into();
    let text = if ch.flag() { format!("{s:#?}") } else { format!("{s:?}") };
    ch.describe(|| text.clone());
    let got = text.split_once("X-Here").and_then(|x| x.1.find('"').map(|i| &x.1[i..])).and_then(unquote);
    if got.is_none_or(|g| g.0 != b) {
        return viol(format!("copied {}", show(b)), text);
    }
    if let Ok(x) = FieldBody::new(b) {
        ch.label("a field body, too");
        let t = format!("{x:?}");
        if unquote(&t) != Some((b.to_vec(), "")) {
            return viol(format!("body {}", show(b)), t);
        }
    }
    Ok(())
}

/// What would tell of a number or a text.
fn needles(v: &mut Vec<String>, b: &[u8]) {
    let hex: String = b.iter().map(|x| format!("{x:02x}")).collect();
    let mid = |s: &str| s[s.len() / 4..][..s.len() / 2].to_string();
    for h in [hex.to_uppercase(), hex] {
        v.push(mid(&h));
    }
    for w in [&b[..6], &b[b.len() - 6..]] {
        let d: Vec<String> = w.iter().map(|x| x.to_string()).collect();
        v.push(d.join(", "));
        v.push(d.join(","));
        for (sep, pre) in [(", ", ""), (",", ""), (" ", ""), (":", ""), (", ", "0x"), (" ", "0x"), ("\\x", "")] {
            let lo: Vec<String> = w.iter().map(|x| format!("{pre}{x:02x}")).collect();
            let up: Vec<String> = w.iter().map(|x| format!("{pre}{x:02X}")).collect();
            v.push(lo.join(sep));
            v.push(up.join(sep));
            // Without leading zeros.
            v.push(w.iter().map(|x| format!("{pre}{x:x}")).collect::<Vec<_>>().join(sep));
        }
    }
    for i in 0..3 {
        let e = Base64::encode_string(&b[i..]);
        v.push(e[4..e.len() - 8].to_string());
    }
}

fn number(v: &mut Vec<String>, n: &BigUint) {
    needles(v, &n.to_bytes_be());
    needles(v, &n.to_bytes_le());
    v.push(n.to_string());
    // In machine words.
    let le = n.to_bytes_le();
    for w in le.chunks_exact(8) {
        v.push(u64::from_le_bytes(w.try_into().unwrap()).to_string());
    }
    for w in le[..16].chunks_exact(8) {
        v.push(format!("{:x}", u64::from_le_bytes(w.try_into().unwrap())));
    }
}

fn secrets(k: &K) -> Vec<String> {
    let mut v = vec![];
    match &k.own {
        Own::Rsa(r) => {
            number(&mut v, r.d());
            r.primes().iter().for_each(|p| number(&mut v, p));
            let one = BigUint::from(1u8);
            r.primes().iter().for_each(|p| number(&mut v, &(r.d() % (p - &one))));
            number(&mut v, &r.crt_coefficient().unwrap());
            // Nothing that can be seen anyway.
            let mut open = vec![];
            number(&mut open, r.n());
            v.retain(|s| !open.contains(s));
        }
        Own::Ed(e) => {
            let b = e.to_bytes();
            needles(&mut v, &b);
            number(&mut v, &BigUint::from_bytes_be(&b));
            let x = e.to_scalar_bytes();
            needles(&mut v, &x);
        }
    }
    let pem: Vec<&str> = k.pem.lines().filter(|l| !l.starts_with('-')).collect();
    v.push(pem[pem.len() - 1].trim_end_matches('=').to_string());
    v.retain(|s| s.len() >= 10);
    v
}

fn all_secrets() -> &'static [(&'static str, Vec<String>)] {
    static S: OnceLock<Vec<(&'static str, Vec<String>)>> = OnceLock::new();
    S.get_or_init(|| keys::all().iter().map(|k| (k.name, secrets(k))).collect())
}

fn reveals(names: &[&str], text: &str) -> Option<String> {
    all_secrets()
        .iter()
        .filter(|(n, _)| names.contains(n))
        .find_map(|(n, v)| v.iter().find(|s| text.contains(s.as_str())).map(|s| format!("{n}: {s:?} in {text}")))
}

fn printed<T: Debug>(x: &T) -> String {
    format!("{x:?}\n{x:#?}\n{x:x?}\n{x:X?}")
}

/// Descriptions of all errors of one kind: each its own, one line of text.
fn described<E: Error>(ch: &mut Ch, all: &[E], name: &str) -> Result<(), Viol> {
    ch.op(all.len() as u64);
    ch.describe(|| format!("{name}: {}", all.iter().map(|e| e.to_string()).collect::<Vec<_>>().join(", ")));
    let mut seen: Vec<String> = vec![];
    for e in all {
        let s = e.to_string();
        let d = printed(e);
        if s.is_empty() || s.chars().any(char::is_control) || s.trim() != s || d.trim().is_empty() {
            return viol(format!("error {e:?}"), s);
        }
        if seen.contains(&s) {
            return viol(format!("error {e:?}"), format!("described as another one: {s}"));
        }
        seen.push(s);
    }
    Ok(())
}

fn caused<E: Error, F: Display>(e: &E, source: Option<&F>) -> Result<(), Viol> {
    let got = e.source().map(|s| s.to_string());
    if got != source.map(|s| s.to_string()) || e.source().is_some_and(|s| s.source().is_some()) {
        return viol(format!("source of {e:?}"), format!("{got:?}"));
    }
    Ok(())
}

macro_rules! all {
    ($t:ident: $($v:ident)*) => { vec![$($t::$v),*] };
}

fn errors(ch: &mut Ch) -> Result<(), Viol> {
    use crypto::VerificationError as CE;
    let none = None::<&CE>;
    let sk = all!(DkimSignatureErrorKind: Utf8Encoding TagListFormat IncompatibleVersion HistoricAlgorithm
        UnsupportedAlgorithm InvalidBase64 EmptySignatureTag EmptyBodyHashTag UnsupportedCanonicalization
        InvalidDomain InvalidSignedHeaderName EmptySignedHeadersTag FromHeaderNotSigned InvalidIdentity
        InvalidBodyLength InvalidQueryMethod NoSupportedQueryMethods InvalidSelector InvalidTimestamp
        InvalidExpiration InvalidCopiedHeaderField MissingVersionTag MissingAlgorithmTag MissingSignatureTag
        MissingBodyHashTag MissingDomainTag MissingSignedHeadersTag MissingSelectorTag DomainMismatch
        ExpirationNotAfterTimestamp);
    let se: Vec<DkimSignatureError> = sk.iter().map(|k| DkimSignatureError::new(*k)).collect();
    let re = all!(DkimKeyRecordError: RecordFormat TagListFormat MisplacedVersionTag IncompatibleVersion
        InvalidHashAlgorithm NoSupportedHashAlgorithms UnsupportedKeyType InvalidQuotedPrintable InvalidBase64
        InvalidServiceType NoSupportedServiceTypes InvalidFlag MissingKeyTag);
    let ce = all!(CE: InvalidKey InsufficientKeySize VerificationFailure);
    let pe = all!(PolicyError: RequiredHeaderNotSigned UnsignedHeaderOccurrence UnsignedContent SignatureExpired
        TimestampInFuture Sha1HashAlgorithm KeyTooSmall);
    let ve = || {
        all!(VerificationError: Overflow NoKeyFound InvalidKeyDomain Timeout KeyLookup WrongKeyType KeyRevoked
            DisallowedHashAlgorithm DomainMismatch InsufficientContent BodyHashMismatch)
    };
    match ch.pick(15) {
        0 => {
            if let Some(i) = (0..sk.len()).find(|&i| sk[i].to_string() != se[i].to_string()) {
                return viol(format!("error {:?}", sk[i]), se[i].to_string());
            }
            se.iter().try_for_each(|e| caused(e, none))?;
            described(ch, &se, "DkimSignatureError")
        }
        1 => described(ch, &re, "DkimKeyRecordError"),
        2 => described(ch, &ce, "crypto::VerificationError"),
        3 => described(ch, &pe, "PolicyError"),
        4 => {
            let plain = ve();
            plain.iter().try_for_each(|e| caused(e, none))?;
            let mut v = ve();
            v.push(VerificationError::DkimSignatureFormat(se[0].clone()));
            v.push(VerificationError::KeyRecordFormat(re[0]));
            v.push(VerificationError::VerificationFailure(ce[0]));
            v.push(VerificationError::Policy(pe[0]));
            described(ch, &v, "VerificationError")
        }
        5 => {
            ch.op((se.len() + re.len() + ce.len() + pe.len()) as u64);
            se.iter().try_for_each(|e| caused(&VerificationError::DkimSignatureFormat(e.clone()), Some(e)))?;
            re.iter().try_for_each(|e| caused(&VerificationError::KeyRecordFormat(*e), Some(e)))?;
            ce.iter().try_for_each(|e| caused(&VerificationError::VerificationFailure(*e), Some(e)))?;
            pe.iter().try_for_each(|e| caused(&VerificationError::Policy(*e), Some(e)))
        }
        6 => described(
            ch,
            &all!(RequestError: Overflow MissingFromHeader TooManyRequests EmptyRequests IncompatibleKeyType
                FromHeaderNotSigned InvalidSignedFieldName DomainMismatch ZeroExpirationDuration InvalidExtTags
                InvalidDkimSignatureHeaderName InvalidIndentationWhitespace),
            "RequestError",
        ),
        7 => described(ch, &all!(SigningError: Overflow InsufficientContent SigningFailure), "SigningError"),
        8 => described(
            ch,
            &all!(DecodeSigningKeyError: InvalidPemDocument NotAPrivateKeyInfoDocument InvalidKeyData UnsupportedKeyType),
            "DecodeSigningKeyError",
        ),
        9 => described(ch, &all!(BodyHashError: InsufficientInput InputTruncated), "BodyHashError"),
        10 => described(ch, &[Base64Error], "Base64Error"),
        11 => described(ch, &[QuotedPrintableError], "QuotedPrintableError"),
        12 => described(ch, &[ParseDomainError], "ParseDomainError"),
        13 => described(ch, &[ParseIdentityError], "ParseIdentityError"),
        _ => described(ch, &[ParseAlgorithmError], "ParseAlgorithmError"),
    }
}

/// Verifies with and without logging.
fn differ(ch: &mut Ch, fields: &[Field], answers: &[(&str, &Ans)], cfg: &Cfg, body: &[u8]) -> Result<(), Viol> {
    let go = || {
        let r = Resolver::new();
        for (s, a) in answers {
            r.set(&format!("{s}._domainkey.example.com."), answer(a));
        }
        let x = env::verify(&r, &hf(fields), &cfg.lib(), &[body], false);
        // (In no particular order.)
        let mut q = r.queries();
        q.sort();
        (x.map(|v| printed(&v)), q)
    };
    ch.op(2);
    let plain = go();
    let (with, n, log) = logged(go);
    ch.label(if n > 0 { "logged" } else { "nothing logged" });
    ch.describe(|| format!("{} -> {log}", show_msg(fields, body)));
    if plain != with {
        return viol(show_msg(fields, body), format!("without logging {plain:?}, with {with:?}"));
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.part("byte strings", 0, &|ch| {
        let b: Vec<u8> = match ch.pick(3) {
            0 => (0..ch.pick(3)).map(|_| ch.pick(256) as u8).collect(),
            1 => {
                let toks: [&[u8]; 18] = [
                    b"a", b"\\", b"\"", b"'", b"\r\n ", b"\t", b"\0", b"\x7f", b"\xc3\xa9", b"\xc3", b"\xa9", b"\xf0\x9f\x98", b"\x80",
                    b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xcc\x81", b"\xe2\x80\xae", b"\xff",
                ];
                (0..ch.pick(if t { 6 } else { 5 })).flat_map(|_| ch.of(&toks).to_vec()).collect()
            }
            _ => {
                // A long one, with something in it.
                let n = *ch.of(&sizes(70, 2_050));
                let mut v = vec![b'x'; n];
                let e: &[u8] = ch.of(&[&b""[..], b"\xff", b"\xc3\xa9", b"\xe2\x82", b"\""]);
                let i = *ch.of(&[0, n / 2, n]);
                v.splice(i..i, e.iter().copied());
                v
            }
        };
        bytes(ch, &b)
    });
    ctx.part("binary data", 0, &|ch| {
        let n = *ch.of(&sizes(70, 520));
        let m = *ch.of(&[1usize, 7, 85, 255]);
        let b: Vec<u8> = (0..n).map(|i| (i * m + 3) as u8).collect();
        let e = Base64::encode_string(&b);
        ch.op(3);
        let s = DkimSignature { signature_data: b.clone().into(), ..sig() };
        let h = DkimSignature { body_hash: b.clone().into(), ..sig() };
        let mut r: DkimKeyRecord = "p=".parse().unwrap();
        r.key_data = b.into();
        let v = [printed(&s), printed(&h), printed(&r)];
        ch.describe(|| v[2].clone());
        for x in v {
            // (Nothing to show when there is nothing.)
            if x.matches(&e).count() < 4 {
                return viol(format!("{n} octets"), x);
            }
        }
        Ok(())
    });
    ctx.part("errors", 0, &|ch| errors(ch));
    ctx.part("names and texts", 0, &|ch| {
        // Domains, selectors, identities, tags, notes: as they are written.
        let ids = ["me@example.com", "@example.com", "\"a b;c\"@example.com", "é@example.com", "\"\\\"\"@sub.example.com"];
        let ds = ["example.com", "Example.COM", "xn--bcher-kva.example", "bücher.example", "_x.example"];
        let (i, d, n) = (*ch.of(&ids), *ch.of(&ds), *ch.of(&["From", "fROM", "X!\"#"]));
        let mut s = sig();
        s.identity = Some(ident(i));
        s.domain = d.parse().unwrap();
        s.selector = ch.of(&ds).parse().unwrap();
        s.signed_headers = [FieldName::new(n).unwrap()].into();
        s.timestamp = *ch.of(&[None, Some(0), Some(u64::MAX)]);
        s.body_length = *ch.of(&[None, Some(0), Some(u64::MAX)]);
        ch.op(1);
        let text = printed(&s);
        let num = |x: Option<u64>| x.map(|x| x.to_string()).unwrap_or_default();
        for w in [i, d, s.selector.as_ref(), n, "rsa"[..0].as_ref(), "ed25519-sha256", &num(s.timestamp), &num(s.body_length)] {
            if !text.contains(w) {
                return viol(format!("no {w}"), text);
            }
        }
        ch.describe(|| text);
        Ok(())
    });
    ctx.part("private keys", 0, &|ch| {
        let k = &keys::all()[ch.pick(keys::all().len())];
        let n = ch.pick(9);
        let mut text = String::new();
        let req = || request(k, H::Sha256, "example.com", "sel", true, true);
        let fd = [f("From", " me@example.com")];
        ch.op(1);
        match n {
            0 => text = printed(&*k.lib),
            1 => text = printed(&k.lib),
            2 => text = printed(&req()),
            3 => text = printed(&vec![req(), req()]),
            4 => {
                let mut r = req();
                r.format.tag_order = Some(Box::new(|a, b| a.cmp(b)));
                text = printed(&r.format) + &printed(&Some(r));
            }
            5 => {
                // Read it, and sign with it, with everything logged.
                let (r, _, log) = logged(|| {
                    let o = lib_sign(&fd, vec![req()], &[b"x\r\n"], true);
                    printed(&SigningKey::from_pkcs8_pem(k.pem)) + &printed(&o)
                });
                text = r + &log;
            }
            6 => {
                // Fail to read it, wherever it is cut or hurt.
                for i in 0..k.pem.len() {
                    let next = char::from(k.pem.as_bytes()[i] + 1).to_string();
                    for e in ["", "!", "A", "\n", &next] {
                        let s = format!("{}{e}{}", &k.pem[..i], &k.pem[i + e.len().min(1)..]);
                        let (r, _, log) = logged(|| match SigningKey::from_pkcs8_pem(&s) {
                            Err(e) => format!("{e} {}", printed(&e)),
                            Ok(_) => String::new(),
                        });
                        text += &(r + &log);
                        if e.is_empty() {
                            let (r, _, log) = logged(|| match SigningKey::from_pkcs8_pem(&k.pem[..i]) {
                                Err(e) => format!("{e} {}", printed(&e)),
                                Ok(_) => String::new(),
                            });
                            text += &(r + &log);
                        }
                    }
                }
                ch.op(6 * k.pem.len() as u64);
            }
            7 => {
                // Refused requests.
                let mut r = req();
                r.domain = "example.org".parse().unwrap();
                r.identity = Some(ident("me@example.com"));
                let (r, _, log) = logged(|| lib_sign(&fd, vec![req(), r], &[], true));
                text = printed(&r) + &log;
            }
            _ => {
                let o = lib_sign(&fd, vec![req()], &[b"x\r\n"], true);
                let mut w = super::world::World::default();
                w.set("sel._domainkey.example.com.", txt(&k.record()));
                let Ok(o) = o else { return viol(k.name, "not signed") };
                let Ok(o) = &o[0] else {
                    // (Too small for a signature at all.)
                    ch.label("no signature");
                    return Ok(());
                };
                let m = [field_of(o), fd[0].clone()];
                let (r, _, log) = logged(|| w.verify(&m, &[b"x\r\n"], &Cfg::default(), None));
                text = printed(&r) + &log;
            }
        }
        ch.describe(|| text.chars().take(300).collect());
        match reveals(&[k.name], &text) {
            None => Ok(()),
            Some(m) => viol(format!("{} {n}", k.name), m.chars().take(1000).collect::<String>()),
        }
    });
    let mut ks = c26::kinds();
    let e = c26::settle(&mut ks);
    let ks: &[Kind] = &ks;
    ctx.part("logging: sessions", 0, &|ch| {
        ch.op(5);
        if let Err(e) = &e {
            return viol(e.key.clone(), e.detail.clone());
        }
        // Any two, the second of which is logged, step by step, or not.
        let (a, b) = (ch.pick(ks.len()), ch.pick(ks.len()));
        let mode = ch.pick(3);
        for (i, k) in [&ks[a], &ks[b]].into_iter().enumerate() {
            let res = k.resolver();
            let mut s = Sess::new(k, &res);
            let mut log = String::new();
            c26::within(|| {
                let mut odd = i == 0;
                while !s.done() {
                    odd = !odd;
                    if mode == 2 || (mode == 1) == odd {
                        log += &logged(|| s.step()).2;
                    } else {
                        s.step();
                    }
                }
            });
            if let Some(m) = s.verdict().or_else(|| reveals(&["ed1", "ed2", "rsa1024"], &log)) {
                return viol(format!("{} then {}, logging {mode}", ks[a].name, ks[b].name), m);
            }
            if mode == 2 && log.is_empty() {
                ch.label("nothing logged");
            }
        }
        Ok(())
    });
    ctx.part("logging: odd signatures and records", if t { 3 } else { 2 }, &|ch| {
        let good = Spec::with(key("ed1"), H::Sha256, true, true, &["From"], "example.com", "sel", "", ).make(&[f("From", " x")], b"");
        let tags: Vec<String> = String::from_utf8(good.1.clone()).unwrap().split(';').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect();
        let alt = ["", "=", "%", "é", "zz", "9", "99999999999999999999", "a=b", "%s{}{0}", "\\u{0}\r\n x"];
        let mut v: Vec<Vec<u8>> = vec![];
        for tag in &tags {
            let n = tag.split_once('=').unwrap().0;
            v.push(match ch.dev(alt.len() + 3) {
                0 => tag.clone().into_bytes(),
                1 => vec![],
                2 => b"\xff".to_vec(),
                i => format!("{n}={}", alt[i - 3]).into_bytes(),
            });
        }
        let value = [b" ".to_vec(), v.join(&b"; "[..])].concat();
        let fields = vec![("DKIM-Signature".to_string(), value), f("From", " x")];
        if FieldBody::new(fields[0].1.clone()).is_err() {
            ch.skip();
            return Ok(());
        }
        let rec = key("ed1").record();
        let answers = [
            txt(&rec),
            txt("v=DKIM1; p=é"),
            txt("garbage %s {}"),
            txt("k=ed25519; p="),
            txt(&format!("{rec}; h=sha1")),
            txt(&format!("{rec}; t=s; s=x")),
            Ans::Txt(vec![Some(b"\xff".to_vec()), None]),
            Ans::Txt(vec![]),
            Ans::Fail("NoKeyFound"),
            Ans::Fail("Timeout"),
            Ans::Fail("KeyLookup"),
            Ans::Fail("InvalidKeyDomain"),
        ];
        let a = ch.devof(&answers);
        let go = || {
            let r = Resolver::new();
            r.set("sel._domainkey.example.com.", answer(a));
            let x = env::verify(&r, &hf(&fields), &Cfg { required: vec!["From".into()], ..Cfg::default() }.lib(), &[b"\r\n"], false);
            (x.map(|v| printed(&v)), r.queries())
        };
        ch.op(2);
        let plain = go();
        let (with, n, log) = logged(go);
        ch.label(if n > 0 { "logged" } else { "nothing logged" });
        ch.describe(|| format!("{} -> {log}", show(&fields[0].1)));
        if plain != with {
            return viol(show(&fields[0].1), format!("without logging {plain:?}, with {with:?}"));
        }
        Ok(())
    });
    ctx.part("logging: several records", 0, &|ch| {
        let g = Spec::with(key("ed1"), H::Sha256, true, true, &["From"], "example.com", "sel", "").make(&[f("From", " x")], b"");
        let good = key("ed1").record().into_bytes();
        let recs = [
            Some(good.clone()),
            Some(key("ed2").record().into_bytes()),
            Some(key("rsa1024").record().into_bytes()),
            Some(b"k=ed25519; p=".to_vec()),
            Some(b"k=ed25519; p=AAAA".to_vec()),
            Some([&good[..], b"; h=sha1"].concat()),
            Some(b"%s".to_vec()),
            Some(b"\xff".to_vec()),
            None,
        ];
        let n = ch.pick(if t { 6 } else { 5 });
        let a = Ans::Txt((0..n).map(|_| ch.of(&recs).clone()).collect());
        let fields = vec![g, f("From", " x")];
        differ(ch, &fields, &[("sel", &a)], &Cfg::default(), b"")
    });
    ctx.part("logging: policies and signatures", if t { 4 } else { 3 }, &|ch| {
        // Up to so many signatures, each of some kind, and everything that a
        // configuration may ask for.
        let (fd, body) = ([f("From", " x"), f("To", " y")], b"hello\r\nmore\r\n");
        let mk = |k: &str, h, d: &str, x: &str| Spec::with(key(k), h, true, true, &["From"], d, k, x);
        let kinds = [
            mk("ed1", H::Sha256, "example.com", "").make(&fd, body),
            mk("rsa1024", H::Sha256, "example.com", " t=100; x=900000;").make(&fd, body),
            mk("rsa1024", H::Sha1, "example.com", "").make(&fd, body),
            mk("ed1", H::Sha256, "example.com", " l=7;").limit(7).make(&fd, body),
            mk("ed2", H::Sha256, "example.com", " l=18446744073709551615;").make(&fd, body),
            mk("ed2", H::Sha256, "example.com", " t=99999999999;").make(&fd, b"other\r\n"),
            f("DKIM-Signature", " v=2"),
        ];
        let n = ch.pick(5);
        let mut m: Vec<Field> = (0..n).map(|_| ch.devof(&kinds).clone()).collect();
        if n == 0 {
            // Many of one kind.
            m = vec![ch.of(&kinds).clone(); 11];
        }
        m.extend(fd);
        let req: Vec<String> = ch.devof(&[&["From"][..], &["From", "To"], &["cc"]]).iter().map(|s| s.to_string()).collect();
        let cfg = Cfg {
            required: req,
            forbid_unsigned: ch.devflag(),
            allow_sha1: ch.devflag(),
            allow_expired: ch.devflag(),
            max: *ch.devof(&[10, 0, 1, 2]),
            min_bits: *ch.devof(&[1024, 2048]),
            ..Cfg::default()
        };
        let a: Vec<(&str, Ans)> = ["ed1", "ed2", "rsa1024"].into_iter().map(|k| (k, txt(&key(k).record()))).collect();
        let a: Vec<(&str, &Ans)> = a.iter().map(|(k, a)| (*k, a)).collect();
        differ(ch, &m, &a, &cfg, body)
    });
    ctx.part("logging: odd requests", 0, &|ch| {
        // Signing that fails, and some that does not.
        let p = |k: &str| ReqSpec::plain(key(k));
        use viadkim::signer::{BodyLength, Timestamp};
        let specs: Vec<ReqSpec> = vec![
            p("ed1"),
            p("rsa512"),
            p("rsa1024"),
            ReqSpec { bl: BodyLength::Exact(100), ..p("ed1") },
            ReqSpec { ts: Timestamp::Exact(u64::MAX), vd: Some(std::time::Duration::from_secs(1)), ..p("ed1") },
            ReqSpec { sel: Some(vec!["To".into()]), ..p("ed1") },
            ReqSpec { d: "bücher.example".into(), s: "é".into(), ..p("ed2") },
        ];
        let v: Vec<&ReqSpec> = (0..ch.pick(4)).map(|_| ch.of(&specs)).collect();
        let fields: Vec<Field> = if ch.flag() { vec![f("From", " x")] } else { vec![f("To", " x")] };
        let go = || match Signer::prepare_signing(hf(&fields), v.iter().map(|s| s.build())) {
            Err(e) => format!("{e:?}"),
            Ok(mut s) => {
                let _ = s.process_body_chunk(b"a\r\n");
                printed(&env::run_done(s.sign()))
            }
        };
        ch.op(2);
        let go = || env::with_clock(Some((1_000_000, 0)), go);
        let plain = go();
        let (with, _, log) = logged(go);
        ch.describe(|| log.clone());
        if plain != with {
            return viol(format!("{} requests", v.len()), format!("without logging {plain:?}, with {with:?}"));
        }
        reveals(&["ed1", "ed2", "rsa512", "rsa1024"], &log).map_or(Ok(()), |m| viol("log", m))
    });
    ctx.note("every event of the tracing crate is taken and formatted; private keys are looked for as hexadecimal, decimal, Base64, octet lists and machine words");
}
