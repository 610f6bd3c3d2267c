//! A message and the DNS around it, verified by the library and by the model.

use crate::{
    checks::c04::hf,
    env::{self, Answer, Delivery, Resolver, TxtItem},
    explore::Ch,
    refm::{
        header::Field,
        verify::{self, Ans, Cfg, Exp},
    },
};
use std::{collections::BTreeMap, io::ErrorKind};
use viadkim::verifier::VerificationResult;

#[derive(Clone, Debug, Default)]
pub struct World {
    pub dns: BTreeMap<String, (Ans, Delivery)>,
}

pub const LOOKUP_ERRORS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::ConnectionRefused,
    ErrorKind::ConnectionReset,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::NetworkDown,
    ErrorKind::BrokenPipe,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::DirectoryNotEmpty,
    ErrorKind::ReadOnlyFilesystem,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::StorageFull,
    ErrorKind::NotSeekable,
    ErrorKind::QuotaExceeded,
    ErrorKind::FileTooLarge,
    ErrorKind::ResourceBusy,
    ErrorKind::ExecutableFileBusy,
    ErrorKind::Deadlock,
    ErrorKind::TooManyLinks,
    ErrorKind::ArgumentListTooLong,
    ErrorKind::WriteZero,
    ErrorKind::PermissionDenied,
    ErrorKind::InvalidData,
    ErrorKind::UnexpectedEof,
    ErrorKind::Interrupted,
    ErrorKind::WouldBlock,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::AlreadyExists,
];

pub fn answer(a: &Ans) -> Answer {
    match a {
        Ans::Txt(v) => Answer::Txt(
            v.iter()
                .map(|r| match r {
                    Some(b) => TxtItem::Bytes(b.clone()),
                    None => TxtItem::Err(ErrorKind::Unsupported),
                })
                .collect(),
        ),
        Ans::Fail("NoKeyFound") => Answer::Err(ErrorKind::NotFound),
        Ans::Fail("InvalidKeyDomain") => Answer::Err(ErrorKind::InvalidInput),
        Ans::Fail("Timeout") => Answer::Err(ErrorKind::TimedOut),
        Ans::Fail("KeyLookup") => Answer::ErrOther(ErrorKind::Other),
        Ans::Fail(x) => panic!("{x}"),
    }
}

pub fn txt(s: &str) -> Ans {
    Ans::Txt(vec![Some(s.as_bytes().to_vec())])
}

impl World {
    pub fn set(&mut self, q: &str, a: Ans) -> &mut Self {
        self.dns.insert(q.to_string(), (a, Delivery::default()));
        self
    }
    pub fn resolver(&self) -> Resolver {
        let r = Resolver::new();
        for (q, (a, d)) in &self.dns {
            r.set_d(q, answer(a), d.clone());
        }
        r
    }
    pub fn expect(&self, fields: &[Field], b: &[u8], cfg: &Cfg) -> Vec<Exp> {
        verify::outcomes(fields, b, cfg, &|q| self.dns.get(q).map_or(verify::NOKEY, |a| a.0.clone()))
    }
    pub fn verify(&self, fields: &[Field], chunks: &[&[u8]], cfg: &Cfg, seed: Option<u64>) -> (Option<Vec<VerificationResult>>, Vec<String>) {
        let go = || {
            let r = self.resolver();
            let v = env::verify(&r, &hf(fields), &cfg.lib(), chunks, false);
            (v, r.queries())
        };
        match seed {
            None => go(),
            Some(s) => env::with_seed(s, go),
        }
    }

    /// Verifies; the text of a difference to the model, if any.
    pub fn check(&self, ch: &mut Ch, fields: &[Field], b: &[u8], cfg: &Cfg, seed: Option<u64>) -> Option<String> {
        let want = self.expect(fields, b, cfg);
        let (got, queries) = self.verify(fields, &[b], cfg, seed);
        ch.op(3);
        for w in &want {
            ch.label(match &w.status {
                None => "unspecified",
                Some(s) if s.contains("success") => "success",
                Some(s) if s.iter().any(|s| s.starts_with("sig:")) => "signature error",
                Some(s) if s.iter().any(|s| s.starts_with("Policy")) => "policy",
                Some(_) if w.rec.is_some() => "key or crypto failure",
                Some(_) => "no usable record",
            });
        }
        if let Some(m) = verify::compare_all(&got, &want) {
            return Some(m);
        }
        // Only the names needed, each once.
        if want.iter().all(|w| w.status.is_some()) {
            let mut need: Vec<&String> = want.iter().filter_map(|w| w.query.as_ref()).collect();
            need.sort();
            need.dedup();
            let mut q: Vec<&String> = queries.iter().collect();
            q.sort();
            if q != need {
                return Some(format!("queries {q:?}, expected {need:?}"));
            }
        }
        None
    }
}
