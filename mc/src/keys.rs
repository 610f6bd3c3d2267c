//! Test keys, and independent encoders for their public halves.

use crate::refm::der;
use base64ct::{Base64, Encoding};
use rsa::{traits::PublicKeyParts, BigUint};
use std::sync::{Arc, OnceLock};
use viadkim::crypto::SigningKey;

pub struct RsaPub {
    pub n: BigUint,
    pub e: BigUint,
    pub bits: usize,
    pub size: usize,
}

pub enum Pub {
    Rsa(RsaPub),
    Ed(ed25519_dalek::VerifyingKey),
}

pub enum Own {
    Rsa(Box<rsa::RsaPrivateKey>),
    Ed(Box<ed25519_dalek::SigningKey>),
}

pub struct K {
    pub name: &'static str,
    pub pem: &'static str,
    /// PKCS#8 DER of the private key.
    pub pkcs8: Vec<u8>,
    pub own: Own,
    pub public: Pub,
    /// The library's own reading of the same PEM.
    pub lib: Arc<SigningKey>,
    /// Key data for the `p=` tag: SPKI for RSA, raw for Ed25519.
    pub key_data: Vec<u8>,
    /// Bare RSAPublicKey DER (RSA only).
    pub pkcs1: Vec<u8>,
}

impl K {
    pub fn is_rsa(&self) -> bool {
        matches!(self.own, Own::Rsa(_))
    }
    pub fn p(&self) -> String {
        Base64::encode_string(&self.key_data)
    }
    pub fn p_pkcs1(&self) -> String {
        Base64::encode_string(&self.pkcs1)
    }
    /// A plain key record.
    pub fn record(&self) -> String {
        if self.is_rsa() {
            format!("v=DKIM1; p={}", self.p())
        } else {
            format!("v=DKIM1; k=ed25519; p={}", self.p())
        }
    }
    pub fn bits(&self) -> usize {
        match &self.public {
            Pub::Rsa(r) => r.bits,
            Pub::Ed(_) => 256,
        }
    }
}

fn load(name: &'static str, pem: &'static str) -> K {
    use pkcs8::{Document, PrivateKeyInfo};
    let (_, doc) = Document::from_pem(pem).unwrap();
    let pk = PrivateKeyInfo::try_from(doc.as_bytes()).unwrap();
    let lib = match SigningKey::from_pkcs8_pem(pem) {
        Ok(k) => Arc::new(k),
        Err(e) => panic!("library cannot read key {name}: {e:?}"),
    };
    let pkcs8 = doc.as_bytes().to_vec();
    if name.starts_with("rsa") {
        let k = rsa::RsaPrivateKey::try_from(pk).unwrap();
        let (n, e) = (k.n().clone(), k.e().clone());
        let pkcs1 = der::seq(&[der::int(&n.to_bytes_be()), der::int(&e.to_bytes_be())]);
        let key_data = der::spki_rsa(&pkcs1);
        let public = Pub::Rsa(RsaPub { bits: n.bits(), size: (n.bits() + 7) / 8, n, e });
        K { name, pem, pkcs8, own: Own::Rsa(Box::new(k)), public, lib, key_data, pkcs1 }
    } else {
        let k = ed25519_dalek::SigningKey::try_from(pk).unwrap();
        let v = k.verifying_key();
        K {
            name,
            pem,
            pkcs8,
            key_data: v.as_bytes().to_vec(),
            pkcs1: vec![],
            own: Own::Ed(Box::new(k)),
            public: Pub::Ed(v),
            lib,
        }
    }
}

macro_rules! keys {
    ($($n:literal),*) => {
        const PEMS: &[(&str, &str)] = &[$(($n, include_str!(concat!("../keys/", $n, ".pem")))),*];
    };
}
keys!(
    "ed1", "ed2", "rsa504", "rsa511", "rsa512", "rsa513", "rsa520", "rsa768", "rsa1000", "rsa1016", "rsa1017",
    "rsa1020", "rsa1023", "rsa1024", "rsa1024b", "rsa1025", "rsa1032", "rsa1536", "rsa2047", "rsa2048"
);

pub fn all() -> &'static [K] {
    static KEYS: OnceLock<Vec<K>> = OnceLock::new();
    KEYS.get_or_init(|| PEMS.iter().map(|(n, p)| load(n, p)).collect())
}

pub fn key(name: &str) -> &'static K {
    all().iter().find(|k| k.name == name).unwrap_or_else(|| panic!("no key {name}"))
}
