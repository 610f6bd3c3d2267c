//! Comparing the library's data with the reference models'.

use crate::{
    explore::{viol, Viol},
    refm::{
        record::{Rec, R},
        sigparse::{Sig, P},
    },
    util::show,
};
use viadkim::{
    record::{DkimKeyRecord, DkimKeyRecordError},
    signature::{CanonicalizationAlgorithm as CA, DkimSignature, DkimSignatureError},
    CanonicalStr,
};

pub const PRE: bool = cfg!(feature = "pre-rfc8301");

/// The library's parsed signature as a model value.
pub fn as_sig(s: &DkimSignature) -> Sig {
    Sig {
        alg: s.algorithm.canonical_str().to_string(),
        b: s.signature_data.to_vec(),
        bh: s.body_hash.to_vec(),
        c: (s.canonicalization.header == CA::Relaxed, s.canonicalization.body == CA::Relaxed),
        d: s.domain.as_ref().to_string(),
        h: s.signed_headers.iter().map(|n| n.as_ref().to_string()).collect(),
        i: s.identity.as_ref().map(|i| (i.local_part.as_ref().map(|l| l.to_string()), i.domain.as_ref().to_string())),
        l: s.body_length,
        s: s.selector.as_ref().to_string(),
        t: s.timestamp,
        x: s.expiration,
        z: s.copied_headers.iter().map(|(n, v)| (n.as_ref().to_string(), v.to_vec())).collect(),
        ext: s.ext_tags.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect(),
    }
}

pub fn as_rec(r: &DkimKeyRecord) -> Rec {
    Rec {
        h: r.hash_algorithms.iter().map(|h| h.canonical_str().to_string()).collect(),
        ed: r.key_type == viadkim::crypto::KeyType::Ed25519,
        n: r.notes.as_ref().map(|n| n.to_string()),
        p: r.key_data.to_vec(),
        s: r.service_types.iter().map(|s| s.canonical_str().to_string()).collect(),
        t: r.flags.iter().map(|f| f.canonical_str().to_string()).collect(),
        ext: r.ext_tags.iter().map(|(n, v)| (n.to_string(), v.to_string())).collect(),
    }
}

/// Ok(true): specified; Ok(false): the reference leaves it open.
pub fn check_sig(text: &str, got: &Result<DkimSignature, DkimSignatureError>, want: &P) -> Result<bool, Viol> {
    let key = || format!("signature {}", show(text.as_bytes()));
    match (got, want) {
        (_, P::Unspecified) => Ok(false),
        (Ok(g), P::Ok(w)) => {
            let g = as_sig(g);
            if g != **w {
                return viol(key(), format!("parsed as {g:?}\nexpected {w:?}"));
            }
            Ok(true)
        }
        (Err(e), P::Bad(kinds, salvage)) => {
            if !kinds.contains(format!("{:?}", e.kind).as_str()) {
                return viol(key(), format!("rejected with {:?}, offences are {kinds:?}", e.kind));
            }
            let o = |s: &Option<Box<str>>| s.as_ref().map(|s| s.to_string());
            let g = [
                o(&e.algorithm_str),
                o(&e.signature_data_str),
                o(&e.domain_str),
                o(&e.identity_str),
                o(&e.selector_str),
            ];
            if g != *salvage {
                return viol(key(), format!("salvaged {g:?} expected {salvage:?}"));
            }
            Ok(true)
        }
        (Ok(g), P::Bad(kinds, _)) => viol(key(), format!("accepted as {g:?}, but {kinds:?}")),
        (Err(e), P::Ok(w)) => viol(key(), format!("rejected with {:?}, but it says {w:?}", e.kind)),
    }
}

pub fn check_rec(text: &str, got: &Result<DkimKeyRecord, DkimKeyRecordError>, want: &R) -> Result<bool, Viol> {
    let key = || format!("record {}", show(text.as_bytes()));
    match (got, want) {
        (_, R::Unspecified) => Ok(false),
        (Ok(g), R::Ok(w)) => {
            let mut g = as_rec(g);
            if w.h.len() > 1 {
                // The default is a set.
                g.h.sort();
                let mut w = w.clone();
                w.h.sort();
                return if g == *w { Ok(true) } else { viol(key(), format!("parsed as {g:?}\nexpected {w:?}")) };
            }
            if g != **w {
                return viol(key(), format!("parsed as {g:?}\nexpected {w:?}"));
            }
            Ok(true)
        }
        (Err(e), R::Bad(kinds)) => {
            if !kinds.contains(format!("{e:?}").as_str()) {
                return viol(key(), format!("rejected with {e:?}, offences are {kinds:?}"));
            }
            Ok(true)
        }
        (Ok(g), R::Bad(kinds)) => viol(key(), format!("accepted as {g:?}, but {kinds:?}")),
        (Err(e), R::Ok(w)) => viol(key(), format!("rejected with {e:?}, but it says {w:?}")),
    }
}

// Signing with the library

use crate::{
    checks::c04::hf,
    env,
    keys::K,
    refm::{crypto::H, header::Field},
};
use std::sync::Arc;
use viadkim::{
    crypto::SigningKey,
    message_hash::BodyHasherStance,
    signature::{Canonicalization, DomainName, Identity, Selector, SigningAlgorithm},
    signer::{RequestError, SignRequest, Signer, SigningError, SigningOutput},
};

pub type Req = SignRequest<Arc<SigningKey>>;
pub type Signed = Result<Vec<Result<SigningOutput, SigningError>>, RequestError>;

pub fn ca(relaxed: bool) -> CA {
    if relaxed {
        CA::Relaxed
    } else {
        CA::Simple
    }
}

pub fn sign_alg(k: &K, h: H) -> SigningAlgorithm {
    match (k.is_rsa(), h) {
        (true, H::Sha256) => SigningAlgorithm::RsaSha256,
        (false, H::Sha256) => SigningAlgorithm::Ed25519Sha256,
        #[cfg(feature = "pre-rfc8301")]
        (true, H::Sha1) => SigningAlgorithm::RsaSha1,
        _ => panic!("no such algorithm"),
    }
}

pub fn request(k: &K, h: H, d: &str, s: &str, hr: bool, br: bool) -> Req {
    let mut r = SignRequest::new(
        DomainName::new(d).expect("library refuses a valid domain"),
        Selector::new(s).expect("library refuses a valid selector"),
        sign_alg(k, h),
        k.lib.clone(),
    );
    r.canonicalization = Canonicalization::from((ca(hr), ca(br)));
    r
}

pub fn ident(s: &str) -> Identity {
    Identity::new(s).expect("library refuses a valid identity")
}

pub fn lib_sign(fields: &[Field], reqs: Vec<Req>, chunks: &[&[u8]], feed_after_done: bool) -> Signed {
    let mut s = Signer::prepare_signing(hf(fields), reqs)?;
    for c in chunks {
        if s.process_body_chunk(c) == BodyHasherStance::Done && !feed_after_done {
            break;
        }
    }
    Ok(env::run_done(s.sign()))
}

/// The issued signature as a header field.
pub fn field_of(o: &SigningOutput) -> Field {
    (o.header_name.clone(), o.header_value.clone().into_bytes())
}

/// The header as text, as it would be sent.
pub fn wire(fields: &[Field]) -> Vec<u8> {
    let mut v = vec![];
    for (n, b) in fields {
        v.extend(n.bytes());
        v.push(b':');
        v.extend(b);
        v.extend(b"\r\n");
    }
    v
}
