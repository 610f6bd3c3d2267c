//! RSASSA-PKCS1-v1_5 by hand on big integers; Ed25519 directly via dalek;
//! digests directly via the sha crates.

use crate::keys::{Own, Pub, K};
use rsa::BigUint;
use sha2::Digest;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum H {
    Sha256,
    Sha1,
}

pub fn digest(h: H, m: &[u8]) -> Vec<u8> {
    match h {
        H::Sha256 => sha2::Sha256::digest(m).to_vec(),
        H::Sha1 => sha1(m),
    }
}

/// FIPS 180-4 (also where the build has no SHA-1).
pub fn sha1(m: &[u8]) -> Vec<u8> {
    let mut h: [u32; 5] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0];
    let mut p = m.to_vec();
    p.push(0x80);
    while p.len() % 64 != 56 {
        p.push(0);
    }
    p.extend((m.len() as u64 * 8).to_be_bytes());
    for block in p.chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..80 {
            w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1));
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, w) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5a827999),
                1 => (b ^ c ^ d, 0x6ed9eba1),
                2 => ((b & c) | (b & d) | (c & d), 0x8f1bbcdc),
                _ => (b ^ c ^ d, 0xca62c1d6u32),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*w);
            (a, b, c, d, e) = (t, a, b.rotate_left(30), c, d);
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

fn emsa(h: H, hash: &[u8], size: usize) -> Option<Vec<u8>> {
    let prefix: &[u8] = match h {
        H::Sha256 => &[
            0x30, 0x31, 0x30, 0x0d, 0x06, 0x09, 0x60, 0x86, 0x48, 0x01, 0x65, 0x03, 0x04, 0x02, 0x01, 0x05, 0x00, 0x04, 0x20,
        ],
        H::Sha1 => &[0x30, 0x21, 0x30, 0x09, 0x06, 0x05, 0x2b, 0x0e, 0x03, 0x02, 0x1a, 0x05, 0x00, 0x04, 0x14],
    };
    let tlen = prefix.len() + hash.len();
    if size < tlen + 11 {
        return None;
    }
    let mut em = vec![0, 1];
    em.resize(size - tlen - 1, 0xff);
    em.push(0);
    em.extend(prefix);
    em.extend(hash);
    Some(em)
}

/// Signs the DKIM hash (`hash` is the digest of the hash input).
pub fn sign(k: &K, h: H, hash: &[u8]) -> Vec<u8> {
    match &k.own {
        Own::Rsa(r) => {
            use rsa::traits::PrivateKeyParts;
            let Pub::Rsa(p) = &k.public else { unreachable!() };
            let em = emsa(h, hash, p.size).expect("key too small");
            let primes = r.primes();
            // CRT
            let m = BigUint::from_bytes_be(&em);
            let one = BigUint::from(1u8);
            let (pp, q) = (&primes[0], &primes[1]);
            let m1 = m.modpow(&(r.d() % (pp - &one)), pp);
            let m2 = m.modpow(&(r.d() % (q - &one)), q);
            let qinv = q.modpow(&(pp - BigUint::from(2u8)), pp);
            let diff = (&m1 + pp - (&m2 % pp)) % pp;
            let s = &m2 + q * ((qinv * diff) % pp);
            let b = s.to_bytes_be();
            let mut out = vec![0; p.size - b.len()];
            out.extend(b);
            out
        }
        Own::Ed(e) => {
            use ed25519_dalek::Signer;
            e.sign(hash).to_bytes().to_vec()
        }
    }
}

pub fn verify(p: &Pub, h: H, hash: &[u8], sig: &[u8]) -> bool {
    match p {
        Pub::Rsa(r) => {
            if sig.len() != r.size {
                return false;
            }
            let s = BigUint::from_bytes_be(sig);
            if s >= r.n {
                return false;
            }
            let m = s.modpow(&r.e, &r.n).to_bytes_be();
            let Some(em) = emsa(h, hash, r.size) else { return false };
            let mut padded = vec![0; r.size - m.len()];
            padded.extend(m);
            padded == em
        }
        Pub::Ed(v) => {
            let Ok(s) = ed25519_dalek::Signature::from_slice(sig) else { return false };
            v.verify_strict(hash, &s).is_ok()
        }
    }
}
