//! The outcome of verifying a message (RFC 6376, section 6; the library's
//! documented configuration), for a whole message at once.

use super::{
    body,
    crypto::{self, H},
    der, domain,
    header::{self, Field},
    record::{self, Rec, R},
    sigparse::{self, Sig, P},
};
use crate::{
    checks::common::{as_rec, as_sig, PRE},
    keys::{self, Pub},
    util::show,
};
use std::{
    collections::BTreeSet,
    time::{Duration, SystemTime},
};
use viadkim::{
    header::FieldName,
    verifier::{Config, VerificationError as VE, VerificationResult, VerificationStatus},
};

#[derive(Clone, Debug)]
pub struct Cfg {
    pub max: usize,
    pub required: Vec<String>,
    pub forbidden: Vec<String>,
    pub min_bits: usize,
    pub allow_sha1: bool,
    pub forbid_unsigned: bool,
    pub allow_expired: bool,
    pub allow_future: bool,
    pub tol: u64,
    pub now: u64,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            max: 10,
            required: vec![],
            forbidden: vec!["From".into()],
            min_bits: 1024,
            allow_sha1: false,
            forbid_unsigned: false,
            allow_expired: false,
            allow_future: false,
            tol: 300,
            now: 1_000_000,
        }
    }
}

impl Cfg {
    pub fn lib(&self) -> Config {
        let names = |v: &[String]| v.iter().map(|n| FieldName::new(n.as_str()).unwrap()).collect();
        Config {
            max_signatures: self.max,
            headers_required_in_signature: names(&self.required),
            headers_forbidden_to_be_unsigned: names(&self.forbidden),
            min_key_bits: self.min_bits,
            allow_sha1: self.allow_sha1,
            forbid_unsigned_content: self.forbid_unsigned,
            allow_expired: self.allow_expired,
            allow_timestamp_in_future: self.allow_future,
            time_tolerance: Duration::from_secs(self.tol),
            fixed_system_time: SystemTime::UNIX_EPOCH.checked_add(Duration::from_secs(self.now)),
            ..Default::default()
        }
    }
}

/// What the DNS says about one name.
#[derive(Clone, Debug)]
pub enum Ans {
    /// The records; None: one that could not be read.
    Txt(Vec<Option<Vec<u8>>>),
    Fail(&'static str),
}

pub const NOKEY: Ans = Ans::Fail("NoKeyFound");

#[derive(Debug, Clone)]
pub struct Exp {
    pub index: usize,
    /// Acceptable statuses; None: unspecified.
    pub status: Option<BTreeSet<String>>,
    pub sig: Option<Sig>,
    pub rec: Option<Rec>,
    /// The name that must be looked up.
    pub query: Option<String>,
}

pub fn status_str(s: &VerificationStatus) -> String {
    match s {
        VerificationStatus::Success => "success".into(),
        VerificationStatus::Failure(VE::DkimSignatureFormat(e)) => format!("sig:{:?}", e.kind),
        VerificationStatus::Failure(e) => format!("{e:?}"),
    }
}

fn one(s: &str) -> Option<BTreeSet<String>> {
    Some(BTreeSet::from([s.to_string()]))
}

fn query_name(s: &Sig) -> String {
    format!("{}._domainkey.{}.", domain::to_ascii(&s.s, true).unwrap(), domain::to_ascii(&s.d, false).unwrap())
}

/// The policies that a signature violates regardless of its key.
pub fn policies(s: &Sig, fields: &[Field], cfg: &Cfg) -> BTreeSet<String> {
    let mut p = BTreeSet::new();
    let count = |it: &mut dyn Iterator<Item = &String>, n: &str| it.filter(|x| header::same_name(x, n)).count();
    if cfg.required.iter().any(|r| count(&mut s.h.iter(), r) == 0) {
        p.insert("Policy(RequiredHeaderNotSigned)".to_string());
    }
    if cfg.forbidden.iter().any(|r| count(&mut fields.iter().map(|f| &f.0), r) > count(&mut s.h.iter(), r)) {
        p.insert("Policy(UnsignedHeaderOccurrence)".to_string());
    }
    let (now, tol) = (cfg.now as u128, cfg.tol as u128);
    if let Some(x) = s.x {
        // The end of time is never reached.
        if !cfg.allow_expired && now >= (x as u128 + tol).min(u64::MAX as u128) {
            p.insert("Policy(SignatureExpired)".to_string());
        }
    }
    if let Some(t) = s.t {
        if !cfg.allow_future && t as u128 > now + tol {
            p.insert("Policy(TimestampInFuture)".to_string());
        }
    }
    if s.alg.ends_with("sha1") && !cfg.allow_sha1 {
        p.insert("Policy(Sha1HashAlgorithm)".to_string());
    }
    p
}

/// Key data as a key.
pub fn read_key(ed: bool, data: &[u8]) -> Option<Pub> {
    if ed {
        return ed25519_dalek::VerifyingKey::from_bytes(&der::read_ed(data)?).ok().map(Pub::Ed);
    }
    let (n, e) = der::read_rsa(data)?;
    rsa_usable(n, e).then(|| {
        let n = rsa::BigUint::from_bytes_be(n);
        let bits = n.bits();
        Pub::Rsa(keys::RsaPub { n, e: rsa::BigUint::from_bytes_be(e), bits, size: (bits + 7) / 8 })
    })
}

/// An ordinary RSA public key: odd modulus of at most 4096 bits, odd exponent
/// from 3 to 2^33-1 and below the modulus.
pub fn rsa_usable(n: &[u8], e: &[u8]) -> bool {
    let odd = |x: &[u8]| x.last().is_some_and(|b| b & 1 == 1);
    let (n, e) = (rsa::BigUint::from_bytes_be(n), (odd(n) && odd(e)).then(|| rsa::BigUint::from_bytes_be(e)));
    e.is_some_and(|e| n.bits() <= 4096 && e.bits() <= 33 && e > rsa::BigUint::from(1u8) && e < n)
}

/// The result of trying one record: Ok, or the error.
fn try_record(fields: &[Field], index: usize, s: &Sig, r: &Rec, cfg: &Cfg) -> Result<(), &'static str> {
    let ed = s.alg.starts_with("ed25519");
    let h = if s.alg.ends_with("sha1") { H::Sha1 } else { H::Sha256 };
    if r.ed != ed {
        return Err("WrongKeyType");
    }
    if r.p.is_empty() {
        return Err("KeyRevoked");
    }
    if !r.h.iter().any(|x| s.alg.ends_with(x.as_str())) {
        return Err("DisallowedHashAlgorithm");
    }
    if r.t.iter().any(|f| f == "s") {
        if let Some((_, d)) = &s.i {
            if domain::to_ascii(d, false) != domain::to_ascii(&s.d, false) {
                return Err("DomainMismatch");
            }
        }
    }
    let Some(key) = read_key(ed, &r.p) else { return Err("VerificationFailure(InvalidKey)") };
    if let Pub::Rsa(k) = &key {
        if k.bits < if PRE { 512 } else { 1024 } {
            return Err("VerificationFailure(InsufficientKeySize)");
        }
        if k.bits < cfg.min_bits {
            return Err("Policy(KeyTooSmall)");
        }
    }
    let others: Vec<Field> = fields.iter().enumerate().filter(|(i, _)| *i != index).map(|(_, f)| f.clone()).collect();
    let text = std::str::from_utf8(&fields[index].1).unwrap();
    let input = header::hash_input(s.c.0, &others, &s.h, &fields[index].0, text);
    if crypto::verify(&key, h, &crypto::digest(h, &input), &s.b) {
        Ok(())
    } else {
        Err("VerificationFailure(VerificationFailure)")
    }
}

fn body_status(s: &Sig, cfg: &Cfg, b: &[u8]) -> &'static str {
    let h = if s.alg.ends_with("sha1") { H::Sha1 } else { H::Sha256 };
    let mut c = body::canon(s.c.1, b);
    if let Some(l) = s.l {
        if (c.len() as u64) < l {
            return "InsufficientContent";
        }
        if c.len() as u64 > l && cfg.forbid_unsigned {
            return "Policy(UnsignedContent)";
        }
        c.truncate(l as usize);
    }
    if crypto::digest(h, &c) == s.bh {
        "success"
    } else {
        "BodyHashMismatch"
    }
}

pub fn outcomes(fields: &[Field], b: &[u8], cfg: &Cfg, dns: &dyn Fn(&str) -> Ans) -> Vec<Exp> {
    let mut out = vec![];
    for (index, (name, value)) in fields.iter().enumerate() {
        if !header::same_name(name, "DKIM-Signature") {
            continue;
        }
        if out.len() == cfg.max {
            break;
        }
        let mut e = Exp { index, status: None, sig: None, rec: None, query: None };
        let parsed = match std::str::from_utf8(value) {
            Err(_) => {
                e.status = one("sig:Utf8Encoding");
                out.push(e);
                continue;
            }
            Ok(t) => sigparse::parse(t, PRE),
        };
        let s = match parsed {
            P::Unspecified => {
                out.push(e);
                continue;
            }
            P::Bad(kinds, _) => {
                e.status = Some(kinds.iter().map(|k| format!("sig:{k}")).collect());
                out.push(e);
                continue;
            }
            P::Ok(s) => *s,
        };
        e.sig = Some(s.clone());
        let p = policies(&s, fields, cfg);
        if !p.is_empty() {
            e.status = Some(p);
            out.push(e);
            continue;
        }
        let q = query_name(&s);
        e.query = Some(q.clone());
        match dns(&q) {
            Ans::Fail(f) => e.status = one(f),
            Ans::Txt(v) if v.is_empty() => e.status = one("NoKeyFound"),
            Ans::Txt(mut v) => {
                if v.len() > 3 {
                    let last = v.pop().unwrap();
                    v.truncate(2);
                    v.push(last);
                }
                for r in v {
                    e.rec = None;
                    let Some(Ok(t)) = r.map(String::from_utf8) else {
                        e.status = one("KeyRecordFormat(RecordFormat)");
                        continue;
                    };
                    match record::parse(&t, PRE) {
                        R::Unspecified => {
                            e.status = None;
                            break;
                        }
                        R::Bad(kinds) => {
                            e.status = Some(kinds.iter().map(|k| format!("KeyRecordFormat({k})")).collect());
                        }
                        R::Ok(r) => {
                            e.rec = Some((*r).clone());
                            match try_record(fields, index, &s, &r, cfg) {
                                Ok(()) => {
                                    e.status = one(body_status(&s, cfg, b));
                                    break;
                                }
                                Err(x) => e.status = one(x),
                            }
                        }
                    }
                }
            }
        }
        out.push(e);
    }
    out
}

/// Compares one result; the text of the difference, if any.
pub fn compare(got: &VerificationResult, want: &Exp) -> Option<String> {
    let st = status_str(&got.status);
    if got.index != want.index {
        return Some(format!("index {} expected {}", got.index, want.index));
    }
    let Some(ws) = &want.status else { return None };
    if !ws.contains(&st) {
        return Some(format!("signature header {}: {st}, expected {ws:?}", got.index));
    }
    let gs = got.signature.as_ref().map(as_sig);
    if gs != want.sig {
        return Some(format!("signature header {}: signature data {gs:?}, expected {:?}", got.index, want.sig));
    }
    let mut gr = got.key_record.as_deref().map(as_rec);
    let mut wr = want.rec.clone();
    for r in [&mut gr, &mut wr].into_iter().flatten() {
        r.h.sort();
    }
    if gr != wr {
        return Some(format!("signature header {}: key record {gr:?}, expected {wr:?}", got.index));
    }
    None
}

pub fn compare_all(got: &Option<Vec<VerificationResult>>, want: &[Exp]) -> Option<String> {
    match got {
        None if want.is_empty() => None,
        None => Some(format!("nothing to verify, expected {} results", want.len())),
        Some(g) if g.len() != want.len() || g.is_empty() => {
            Some(format!("{} results, expected {}", g.len(), want.len()))
        }
        Some(g) => g.iter().zip(want).find_map(|(g, w)| compare(g, w)),
    }
}

pub fn show_msg(fields: &[Field], b: &[u8]) -> String {
    let mut s = String::new();
    for (n, v) in fields {
        s.push_str(&format!("{n}:{}\\r\\n", show(v)));
    }
    s.push_str(&format!(" body={}", show(b)));
    s
}
