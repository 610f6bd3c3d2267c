//! Builds DKIM signatures independently of the library.

use super::{
    body,
    crypto::{self, H},
    header::{self, Field},
};
use crate::keys::K;
use base64ct::{Base64, Encoding};

pub struct Spec {
    pub key: &'static K,
    pub h: H,
    pub hdr_relaxed: bool,
    pub body_relaxed: bool,
    pub names: Vec<String>,
    pub sig_name: String,
    /// The value of the field, with `{bh}` and `{b}` where the base64 goes.
    pub template: String,
    pub limit: Option<usize>,
}

pub fn alg_name(k: &K, h: H) -> &'static str {
    match (k.is_rsa(), h) {
        (true, H::Sha256) => "rsa-sha256",
        (true, H::Sha1) => "rsa-sha1",
        (false, H::Sha256) => "ed25519-sha256",
        (false, H::Sha1) => "ed25519-sha1",
    }
}

pub fn c_name(hdr_relaxed: bool, body_relaxed: bool) -> &'static str {
    match (hdr_relaxed, body_relaxed) {
        (false, false) => "simple/simple",
        (false, true) => "simple/relaxed",
        (true, false) => "relaxed/simple",
        (true, true) => "relaxed/relaxed",
    }
}

pub const D: &str = "example.com";
pub const S: &str = "sel";
pub const QNAME: &str = "sel._domainkey.example.com.";

impl Spec {
    pub fn new(key: &'static K, hdr_relaxed: bool, body_relaxed: bool, names: &[&str]) -> Spec {
        Self::with(key, H::Sha256, hdr_relaxed, body_relaxed, names, D, S, "")
    }

    /// `extra`: further tags, each like " t=1;".
    #[allow(clippy::too_many_arguments)]
    pub fn with(
        key: &'static K,
        h: H,
        hdr_relaxed: bool,
        body_relaxed: bool,
        names: &[&str],
        d: &str,
        s: &str,
        extra: &str,
    ) -> Spec {
        let template = format!(
            " v=1; a={}; c={}; d={d}; s={s};{extra}\r\n\th={}; bh={{bh}};\r\n\tb={{b}}",
            alg_name(key, h),
            c_name(hdr_relaxed, body_relaxed),
            names.join(":"),
        );
        Spec {
            key,
            h,
            hdr_relaxed,
            body_relaxed,
            names: names.iter().map(|s| s.to_string()).collect(),
            sig_name: "DKIM-Signature".into(),
            template,
            limit: None,
        }
    }

    pub fn limit(mut self, n: usize) -> Spec {
        self.template = self.template.replace("; bh=", &format!("; l={n}; bh="));
        self.limit = Some(n);
        self
    }

    pub fn body_hash(&self, b: &[u8]) -> Vec<u8> {
        let mut c = body::canon(self.body_relaxed, b);
        if let Some(n) = self.limit {
            c.truncate(n);
        }
        crypto::digest(self.h, &c)
    }

    /// The text with `{bh}` filled in and `{b}` left.
    pub fn unsigned(&self, b: &[u8]) -> String {
        self.template.replace("{bh}", &Base64::encode_string(&self.body_hash(b)))
    }

    pub fn signature_of(&self, fields: &[Field], unsigned: &str) -> Vec<u8> {
        let v = unsigned.replace("{b}", "");
        let input = header::hash_input(self.hdr_relaxed, fields, &self.names, &self.sig_name, &v);
        crypto::sign(self.key, self.h, &crypto::digest(self.h, &input))
    }

    pub fn make(&self, fields: &[Field], b: &[u8]) -> Field {
        let u = self.unsigned(b);
        let s = self.signature_of(fields, &u);
        (self.sig_name.clone(), u.replace("{b}", &Base64::encode_string(&s)).into_bytes())
    }
}

pub fn f(name: &str, value: &str) -> Field {
    (name.to_string(), value.as_bytes().to_vec())
}

/// The message with the signature in front.
pub fn signed(spec: &Spec, fields: &[Field], b: &[u8]) -> Vec<Field> {
    let mut v = vec![spec.make(fields, b)];
    v.extend(fields.iter().cloned());
    v
}
