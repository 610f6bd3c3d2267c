//! C18: every outcome, driven end to end, is classified as RFC 8601 says.

use super::{
    c04::hf,
    c07, c08,
    common::PRE,
    world::{txt, World},
};
use crate::{
    ctx::Ctx,
    env::{self, Answer, Delivery, Resolver, TxtItem},
    explore::{viol, Ch, Viol},
    keys::{key, K},
    refm::{
        crypto::H,
        header::Field,
        sign::{f, signed, Spec, QNAME},
        verify::{self, show_msg, status_str, Ans, Cfg},
    },
};
use std::io::ErrorKind;
use viadkim::{
    crypto::VerificationError as CE,
    record::DkimKeyRecordError as RE,
    signature::{DkimSignatureError, DkimSignatureErrorKind as SK},
    verifier::{DkimResult, PolicyError as PE, VerificationError as VE, VerificationResult, VerificationStatus as VS},
};

const BODY: &[u8] = b"hello\r\n";

/// The result for a cause (RFC 8601, section 2.7.1; RFC 6376, section 6.1).
pub fn class(cause: &str) -> &'static str {
    match cause {
        "success" => return "pass",
        "BodyHashMismatch" | "VerificationFailure(VerificationFailure)" => return "fail",
        "Timeout" | "KeyLookup" => return "temperror",
        "Overflow" => return "neutral",
        "KeyRecordFormat(MissingKeyTag)" | "KeyRecordFormat(MisplacedVersionTag)" => return "permerror",
        _ => {}
    }
    if cause.starts_with("Policy(") {
        return "policy";
    }
    if cause.starts_with("KeyRecordFormat(") {
        return "neutral";
    }
    if let Some(k) = cause.strip_prefix("sig:") {
        let understood = k.starts_with("Missing")
            || k.starts_with("Empty")
            || ["HistoricAlgorithm", "FromHeaderNotSigned", "DomainMismatch", "ExpirationNotAfterTimestamp"].contains(&k);
        return if understood { "permerror" } else { "neutral" };
    }
    assert!(
        [
            "NoKeyFound",
            "InvalidKeyDomain",
            "WrongKeyType",
            "KeyRevoked",
            "DisallowedHashAlgorithm",
            "DomainMismatch",
            "InsufficientContent",
            "VerificationFailure(InvalidKey)",
            "VerificationFailure(InsufficientKeySize)",
        ]
        .contains(&cause),
        "{cause}"
    );
    "permerror"
}

fn text(r: DkimResult) -> &'static str {
    match r {
        DkimResult::None => "none",
        DkimResult::Pass => "pass",
        DkimResult::Fail => "fail",
        DkimResult::Policy => "policy",
        DkimResult::Neutral => "neutral",
        DkimResult::Temperror => "temperror",
        DkimResult::Permerror => "permerror",
    }
}

/// Every result has the class of its cause, which is the expected one.
fn classified(ch: &mut Ch, got: &Option<Vec<VerificationResult>>, want: &[verify::Exp], id: &dyn Fn() -> String) -> Result<(), Viol> {
    let n = got.as_ref().map_or(0, |g| g.len());
    if n != want.len() {
        return viol(id(), format!("{n} results, expected {}", want.len()));
    }
    for (g, w) in got.iter().flatten().zip(want) {
        let r = g.status.to_dkim_result();
        ch.op(1);
        let (cause, r) = (status_str(&g.status), text(r));
        ch.label(r);
        let Some(causes) = &w.status else { continue };
        if !causes.contains(&cause) {
            return viol(id(), format!("header {}: outcome {cause}, expected {causes:?}", g.index));
        }
        if r != class(&cause) {
            return viol(id(), format!("header {}: outcome {cause} reported as {r}, not {}", g.index, class(&cause)));
        }
    }
    Ok(())
}

fn go(ch: &mut Ch, w: &World, fields: &[Field], b: &[u8], cfg: &Cfg, id: &dyn Fn() -> String) -> Result<(), Viol> {
    let (got, _) = w.verify(fields, &[b], cfg, None);
    ch.op(3);
    ch.describe(id);
    classified(ch, &got, &w.expect(fields, b, cfg), id)
}

/// Every status that can be written down, and its cause.
fn statuses() -> Vec<VS> {
    use SK::*;
    let sk = [
        Utf8Encoding, TagListFormat, IncompatibleVersion, HistoricAlgorithm, UnsupportedAlgorithm, InvalidBase64, EmptySignatureTag,
        EmptyBodyHashTag, UnsupportedCanonicalization, InvalidDomain, InvalidSignedHeaderName, EmptySignedHeadersTag,
        FromHeaderNotSigned, InvalidIdentity, InvalidBodyLength, InvalidQueryMethod, NoSupportedQueryMethods, InvalidSelector,
        InvalidTimestamp, InvalidExpiration, InvalidCopiedHeaderField, MissingVersionTag, MissingAlgorithmTag, MissingSignatureTag,
        MissingBodyHashTag, MissingDomainTag, MissingSignedHeadersTag, MissingSelectorTag, DomainMismatch,
        ExpirationNotAfterTimestamp,
    ];
    let mut v = vec![VS::Success];
    for k in sk {
        for filled in [false, true] {
            let mut e = DkimSignatureError::new(k);
            if filled {
                e.algorithm_str = Some("rsa-sha256".into());
                e.signature_data_str = Some("YQ==".into());
                e.domain_str = Some("example.com".into());
                e.identity_str = Some("@example.com".into());
                e.selector_str = Some("sel".into());
            }
            v.push(VS::Failure(VE::DkimSignatureFormat(e)));
        }
    }
    let re = [
        RE::RecordFormat, RE::TagListFormat, RE::MisplacedVersionTag, RE::IncompatibleVersion, RE::InvalidHashAlgorithm,
        RE::NoSupportedHashAlgorithms, RE::UnsupportedKeyType, RE::InvalidQuotedPrintable, RE::InvalidBase64, RE::InvalidServiceType,
        RE::NoSupportedServiceTypes, RE::InvalidFlag, RE::MissingKeyTag,
    ];
    v.extend(re.map(|e| VS::Failure(VE::KeyRecordFormat(e))));
    v.extend([CE::InvalidKey, CE::InsufficientKeySize, CE::VerificationFailure].map(|e| VS::Failure(VE::VerificationFailure(e))));
    let pe = [
        PE::RequiredHeaderNotSigned, PE::UnsignedHeaderOccurrence, PE::UnsignedContent, PE::SignatureExpired, PE::TimestampInFuture,
        PE::Sha1HashAlgorithm, PE::KeyTooSmall,
    ];
    v.extend(pe.map(|e| VS::Failure(VE::Policy(e))));
    v.extend(
        [
            VE::Overflow, VE::NoKeyFound, VE::InvalidKeyDomain, VE::Timeout, VE::KeyLookup, VE::WrongKeyType, VE::KeyRevoked,
            VE::DisallowedHashAlgorithm, VE::DomainMismatch, VE::InsufficientContent, VE::BodyHashMismatch,
        ]
        .map(VS::Failure),
    );
    v
}

/// What a resolver's error kind means.
const KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::ConnectionRefused, ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted, ErrorKind::NotConnected, ErrorKind::AddrInUse, ErrorKind::AddrNotAvailable, ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists, ErrorKind::WouldBlock, ErrorKind::InvalidInput, ErrorKind::InvalidData, ErrorKind::TimedOut,
    ErrorKind::WriteZero, ErrorKind::Interrupted, ErrorKind::Unsupported, ErrorKind::UnexpectedEof, ErrorKind::OutOfMemory,
    ErrorKind::Other, ErrorKind::HostUnreachable, ErrorKind::NetworkUnreachable, ErrorKind::NetworkDown, ErrorKind::ResourceBusy,
    ErrorKind::NotADirectory, ErrorKind::IsADirectory, ErrorKind::StorageFull, ErrorKind::FileTooLarge, ErrorKind::Deadlock,
    ErrorKind::ArgumentListTooLong, ErrorKind::NotSeekable, ErrorKind::StaleNetworkFileHandle, ErrorKind::ReadOnlyFilesystem,
    ErrorKind::DirectoryNotEmpty, ErrorKind::ExecutableFileBusy,
];

fn kind_cause(k: ErrorKind) -> &'static str {
    match k {
        ErrorKind::NotFound => "NoKeyFound",
        ErrorKind::InvalidInput => "InvalidKeyDomain",
        ErrorKind::TimedOut => "Timeout",
        _ => "KeyLookup",
    }
}

fn hdr() -> Vec<Field> {
    vec![f("From", " me"), f("To", " you")]
}

fn algs() -> Vec<(&'static K, H)> {
    let mut v = vec![(key("ed1"), H::Sha256), (key("rsa1024"), H::Sha256)];
    if PRE {
        v.push((key("rsa1024"), H::Sha1));
    }
    v
}

/// A tag of the template, replaced or added.
fn set_tag(t: &str, tag: &str, v: &str) -> String {
    let mut parts: Vec<String> = t.split(';').map(|s| s.to_string()).collect();
    let at = parts.iter().position(|p| p.trim_start().starts_with(&format!("{tag}=")));
    match at {
        Some(i) if v == c07::ABSENT => {
            parts.remove(i);
        }
        Some(i) => {
            let lead: String = parts[i].chars().take_while(|c| c.is_whitespace()).collect();
            parts[i] = format!("{lead}{tag}={v}");
        }
        None if v == c07::ABSENT => {}
        None => parts.insert(parts.len() - 1, format!(" {tag}={v}")),
    }
    parts.join(";")
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let all = statuses();
    ctx.part("table", 0, &|ch| {
        let s = ch.of(&all);
        let cause = status_str(s);
        let r = s.to_dkim_result();
        ch.op(1);
        ch.label(text(r));
        ch.describe(|| format!("{cause} {}", text(r)));
        if text(r) != class(&cause) || r.to_string() != class(&cause) {
            return viol(format!("outcome {cause}"), format!("reported as {r}, not {}", class(&cause)));
        }
        Ok(())
    });
    let ways: Vec<(&'static K, H)> = algs();
    ctx.part("signature tags", if t { 2 } else { 1 }, &|ch| {
        let (k, h) = *ch.of(&ways);
        let mut s = Spec::with(k, h, true, true, &["From", "To"], "example.com", "sel", "");
        let mut what = String::new();
        for (tag, _, alts) in c07::TAGS {
            let n = ch.dev(alts.len() + 1);
            if n > 0 {
                s.template = set_tag(&s.template, tag, alts[n - 1]);
                what += &format!(" {tag}={:?}", alts[n - 1]);
            }
        }
        let mut w = World::default();
        w.set(QNAME, txt(&k.record()));
        let cfg = Cfg { allow_sha1: ch.flag(), ..Default::default() };
        let fields = signed(&s, &hdr(), BODY);
        go(ch, &w, &fields, BODY, &cfg, &|| format!("{} {h:?} signature with{what} sha1 {}", k.name, cfg.allow_sha1))
    });
    ctx.part("record tags", if t { 3 } else { 2 }, &|ch| {
        let (k, h) = *ch.of(&ways);
        let mut l = vec![];
        for (tag, def, alts) in c08::TAGS {
            let n = ch.dev(alts.len() + 1);
            let v = match (*tag, n) {
                ("p", 0) => k.p(),
                ("k", 0) if !k.is_rsa() => "ed25519".into(),
                (_, 0) => def.to_string(),
                (_, n) => alts[n - 1].to_string(),
            };
            if v != c08::ABSENT {
                l.push(format!("{tag}={v}"));
            }
        }
        let rec = l.join("; ");
        let id = *ch.of(&["", " i=@sub.example.com;"]);
        let s = Spec::with(k, h, true, true, &["From", "To"], "example.com", "sel", id);
        let mut w = World::default();
        w.set(QNAME, txt(&rec));
        let cfg = Cfg { allow_sha1: true, ..Default::default() };
        let fields = signed(&s, &hdr(), BODY);
        go(ch, &w, &fields, BODY, &cfg, &|| format!("{} {h:?} record {rec}", k.name))
    });
    ctx.part("lookups", 0, &|ch| {
        // Every lookup error, bare or wrapped, with or without other signatures around.
        let n = ch.pick(KINDS.len() + 3);
        let (a, cause) = match n.checked_sub(KINDS.len()) {
            None => {
                let k = KINDS[n];
                (if ch.flag() { Answer::ErrOther(k) } else { Answer::Err(k) }, kind_cause(k))
            }
            Some(0) => (Answer::Never, "Timeout"),
            Some(1) => (Answer::Txt(vec![]), "NoKeyFound"),
            _ => (Answer::Txt(vec![TxtItem::Err(*ch.of(KINDS))]), "KeyRecordFormat(RecordFormat)"),
        };
        let late = *ch.of(&[(0u32, 0u64), (1, 0), (0, 9_999), (0, 10_001)]);
        // An answer after the time limit is a timeout.
        let cause = if late.1 > 10_000 { "Timeout" } else { cause };
        let (k, h) = *ch.of(&ways);
        let mk = |k: &'static K, h, s: &str| Spec::with(k, h, true, true, &["From", "To"], "example.com", s, "").make(&hdr(), BODY);
        let mut fields = vec![mk(k, h, "sel")];
        let around = ch.pick(4);
        if around & 1 != 0 {
            fields.insert(0, mk(key("ed2"), H::Sha256, "two"));
        }
        if around & 2 != 0 {
            fields.push(mk(key("ed2"), H::Sha256, "two"));
        }
        fields.extend(hdr());
        let r = Resolver::new();
        r.set_d(QNAME, a.clone(), Delivery { pending: late.0, delay_ms: late.1 });
        r.set("two._domainkey.example.com.", Answer::one(key("ed2").record()));
        let cfg = Cfg { allow_sha1: true, ..Default::default() };
        let got = env::verify(&r, &hf(&fields), &cfg.lib(), &[BODY], false).unwrap_or_default();
        ch.op(3);
        let id = || format!("lookup {a:?} late {late:?} around {around} {}", k.name);
        ch.describe(id);
        let at = around & 1;
        for (i, g) in got.iter().enumerate() {
            let want = if i == at { cause } else { "success" };
            let (c, r) = (status_str(&g.status), text(g.status.to_dkim_result()));
            ch.label(r);
            if c != want || r != class(want) {
                return viol(id(), format!("result {i}: {c} reported as {r}, expected {want} as {}", class(want)));
            }
        }
        if got.len() != 1 + (around.count_ones() as usize) {
            return viol(id(), format!("{} results", got.len()));
        }
        Ok(())
    });
    let ks = ["ed1", "rsa1024", "rsa1023", "rsa1025", "rsa512", "rsa511", "rsa2048"];
    let extras = ["", " i=a@sub.example.com;", " t=5; x=9;", " t=99999999;"];
    let mut made: Vec<(&'static K, H, Vec<Field>)> = vec![];
    for k in ks {
        let k = key(k);
        for h in [H::Sha256, H::Sha1] {
            if h == H::Sha1 && !(PRE && k.is_rsa()) {
                continue;
            }
            for extra in extras {
                for l in 0..3 {
                    let mut s = Spec::with(k, h, true, true, &["From", "To"], "example.com", "sel", extra);
                    match l {
                        0 => {}
                        1 => s = s.limit(2),
                        _ => s.template = s.template.replace("; bh=", "; l=1000; bh="),
                    }
                    made.push((k, h, signed(&s, &hdr(), BODY)));
                }
            }
        }
    }
    ctx.part("keys, policies and bodies", 0, &|ch| {
        let (k, h, fields) = ch.of(&made);
        let (own, other) = if k.is_rsa() { ("rsa", "ed25519") } else { ("ed25519", "rsa") };
        let rec = match ch.pick(7) {
            0 => k.record(),
            1 => format!("k={own}; p="),
            2 => format!("k={own}; h=sha1; p={}", k.p()),
            3 => format!("k={own}; t=s; p={}", k.p()),
            4 => format!("k={other}; p={}", k.p()),
            5 => format!("k={own}; p=AAAA"),
            _ => key(if k.is_rsa() { "rsa1024b" } else { "ed2" }).record(),
        };
        let mut fields = fields.clone();
        match ch.pick(3) {
            0 => {}
            1 => *fields[1].1.last_mut().unwrap() ^= 1,
            _ => fields.push(f("From", " more")),
        }
        let b: &[u8] = if ch.flag() { b"Xello\r\n" } else { BODY };
        let mut cfg = Cfg { allow_sha1: true, min_bits: 0, allow_expired: true, allow_future: true, ..Default::default() };
        match ch.pick(8) {
            0 => {}
            1 => cfg.allow_sha1 = false,
            2 => cfg.forbid_unsigned = true,
            3 => cfg.min_bits = 2048,
            4 => cfg.required = vec!["Cc".into()],
            5 => cfg = Cfg::default(),
            6 => cfg.allow_expired = false,
            _ => cfg.allow_future = false,
        }
        let mut w = World::default();
        w.set(QNAME, txt(&rec));
        go(ch, &w, &fields, b, &cfg, &|| format!("{} {h:?} record {rec} {} {cfg:?}", k.name, show_msg(&fields, b)))
    });
    ctx.part("several records", 0, &|ch| {
        // The last record that counts decides.
        let (k, h) = *ch.of(&ways);
        let recs: Vec<Option<Vec<u8>>> = [
            k.record(), "v=DKIM2; p=".into(), "k=rsa; p=".into(), "k=ed25519; p=".into(), "p=!".into(), "n=x".into(), "k".into(), "v=DKIM1".into(),
            "h=sha512; p=AA==".into(), "p=AAAA".into(), "p=; v=DKIM1".into(),
        ]
        .into_iter()
        .map(|s| Some(s.into_bytes()))
        .chain([None, Some(b"\xff".to_vec())])
        .collect();
        let n = 1 + ch.pick(if t { 4 } else { 3 });
        let l: Vec<Option<Vec<u8>>> = (0..n).map(|_| ch.of(&recs).clone()).collect();
        let s = Spec::with(k, h, true, true, &["From", "To"], "example.com", "sel", "");
        let mut w = World::default();
        w.set(QNAME, Ans::Txt(l.clone()));
        let fields = signed(&s, &hdr(), BODY);
        let cfg = Cfg { allow_sha1: true, ..Default::default() };
        go(ch, &w, &fields, BODY, &cfg, &|| {
            let v: Vec<String> = l.iter().map(|r| r.as_ref().map_or("unreadable".into(), |r| crate::util::show(r))).collect();
            format!("{} {h:?} records {v:?}", k.name)
        })
    });
    ctx.note("an overflowing body length cannot occur on a 64-bit target; its classification is checked in the table only");
}
