// Helpers for the demonstrations: keys, a resolver, signing, and verifying.
#![allow(dead_code, unused_imports)]
pub use std::{collections::HashMap, future::Future, io::{self, ErrorKind}, pin::Pin, sync::{Arc, Mutex}, time::{Duration, SystemTime}};
pub use viadkim::{
    canonicalize::*, crypto::*, header::*, message_hash::*, quoted_printable, record::*, signature::*, signer::*,
    verifier::{Config, DkimResult, LookupTxt, PolicyError, VerificationError, VerificationResult, VerificationStatus, Verifier},
};
use base64ct::{Base64, Encoding};

pub fn pem(name: &str) -> String {
    std::fs::read_to_string(format!("{}/{name}.pem", env!("CARGO_MANIFEST_DIR"))).unwrap()
}
pub fn key(name: &str) -> Arc<SigningKey> {
    Arc::new(SigningKey::from_pkcs8_pem(&pem(name)).unwrap())
}
/// Data for the p= tag.
pub fn public(name: &str) -> Vec<u8> {
    if name.starts_with("ed") {
        use ed25519_dalek::pkcs8::DecodePrivateKey;
        ed25519_dalek::SigningKey::from_pkcs8_pem(&pem(name)).unwrap().verifying_key().to_bytes().to_vec()
    } else {
        use rsa::pkcs8::{DecodePrivateKey, EncodePublicKey};
        let k = rsa::RsaPrivateKey::from_pkcs8_pem(&pem(name)).unwrap();
        rsa::RsaPublicKey::from(&k).to_public_key_der().unwrap().into_vec()
    }
}
pub fn b64(b: &[u8]) -> String {
    Base64::encode_string(b)
}
pub fn record(name: &str) -> String {
    format!("v=DKIM1; k={}; p={}", if name.starts_with("ed") { "ed25519" } else { "rsa" }, b64(&public(name)))
}
pub fn alg(name: &str) -> SigningAlgorithm {
    if name.starts_with("ed") { SigningAlgorithm::Ed25519Sha256 } else { SigningAlgorithm::RsaSha256 }
}
pub fn names(v: &[&str]) -> Vec<FieldName> {
    v.iter().map(|n| FieldName::new(*n).unwrap()).collect()
}
pub fn fields(v: &[(&str, &str)]) -> HeaderFields {
    HeaderFields::from_vec(v.iter().map(|(n, b)| (n.to_string(), b.as_bytes().to_vec())).collect()).unwrap()
}
pub fn with(sig: &[(String, Vec<u8>)], h: &HeaderFields) -> HeaderFields {
    let mut v: Vec<(String, Vec<u8>)> = sig.to_vec();
    for (n, b) in h.as_ref() {
        v.push((n.as_ref().into(), b.as_ref().to_vec()));
    }
    HeaderFields::from_vec(v).unwrap()
}
pub fn field(o: &SigningOutput) -> (String, Vec<u8>) {
    (o.header_name.clone(), o.header_value.clone().into_bytes())
}
pub fn request(k: &str, domain: &str, selector: &str) -> SignRequest<Arc<SigningKey>> {
    let mut r = SignRequest::new(DomainName::new(domain).unwrap(), Selector::new(selector).unwrap(), alg(k), key(k));
    r.timestamp = Timestamp::Exact(1000);
    r.valid_duration = None;
    r
}

#[derive(Clone)]
pub enum Ans {
    Txt(Vec<Vec<u8>>),
    Err(ErrorKind),
    Never,
}
pub fn txt(s: &str) -> Ans {
    Ans::Txt(vec![s.as_bytes().to_vec()])
}
pub fn txts(v: &[String]) -> Ans {
    Ans::Txt(v.iter().map(|s| s.as_bytes().to_vec()).collect())
}
#[derive(Clone, Default)]
pub struct Dns {
    pub map: Arc<HashMap<String, Ans>>,
    pub queries: Arc<Mutex<Vec<String>>>,
}
pub fn dns(v: &[(&str, Ans)]) -> Dns {
    Dns { map: Arc::new(v.iter().map(|(n, a)| (n.to_string(), a.clone())).collect()), queries: Default::default() }
}
impl LookupTxt for Dns {
    type Answer = Vec<io::Result<Vec<u8>>>;
    type Query<'a> = Pin<Box<dyn Future<Output = io::Result<Self::Answer>> + Send + 'a>>;
    fn lookup_txt(&self, domain: &str) -> Self::Query<'_> {
        self.queries.lock().unwrap().push(domain.into());
        let a = self.map.get(domain).cloned().unwrap_or(Ans::Err(ErrorKind::NotFound));
        Box::pin(async move {
            match a {
                Ans::Txt(v) => Ok(v.into_iter().map(Ok).collect()),
                Ans::Err(k) => Err(k.into()),
                Ans::Never => std::future::pending().await,
            }
        })
    }
}

pub fn block<T>(f: impl Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap().block_on(f)
}
pub fn sign_all(h: &HeaderFields, chunks: &[&[u8]], r: Vec<SignRequest<Arc<SigningKey>>>) -> Vec<Result<SigningOutput, SigningError>> {
    let mut s = Signer::prepare_signing(h.clone(), r).unwrap();
    for c in chunks {
        let _ = s.process_body_chunk(c);
    }
    block(s.sign())
}
pub use viadkim::signer::SigningError;
pub fn sign(h: &HeaderFields, body: &[u8], r: SignRequest<Arc<SigningKey>>) -> SigningOutput {
    sign_all(h, &[body], vec![r]).pop().unwrap().unwrap()
}
pub fn verify_chunks(d: &Dns, h: &HeaderFields, c: &Config, chunks: &[&[u8]]) -> Vec<VerificationResult> {
    let mut v = block(Verifier::verify_header(d, h, c)).expect("no signatures");
    for c in chunks {
        let _ = v.process_body_chunk(c);
    }
    v.finish()
}
pub fn verify(d: &Dns, h: &HeaderFields, c: &Config, body: &[u8]) -> Vec<VerificationResult> {
    verify_chunks(d, h, c, &[body])
}
pub fn at(secs: u64) -> Config {
    Config { fixed_system_time: Some(SystemTime::UNIX_EPOCH + Duration::from_secs(secs)), ..Default::default() }
}
pub fn ok(r: &VerificationResult) -> bool {
    r.status == VerificationStatus::Success
}
