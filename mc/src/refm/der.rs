//! A minimal DER writer and strict reader for RSA keys.

pub fn tlv(tag: u8, c: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    if c.len() < 128 {
        v.push(c.len() as u8);
    } else {
        let b = c.len().to_be_bytes();
        let z = b.iter().take_while(|x| **x == 0).count();
        v.push(0x80 | (b.len() - z) as u8);
        v.extend(&b[z..]);
    }
    v.extend(c);
    v
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
/// A non-negative integer from big-endian magnitude bytes.
pub fn int(mag: &[u8]) -> Vec<u8> {
    let z = mag.iter().take_while(|x| **x == 0).count();
    let mut m = mag[z..].to_vec();
    if m.is_empty() || m[0] & 0x80 != 0 {
        m.insert(0, 0);
    }
    tlv(2, &m)
}
pub const OID_RSA: &[u8] = &[0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x01];
pub fn spki_rsa(pkcs1: &[u8]) -> Vec<u8> {
    let alg = seq(&[tlv(6, OID_RSA), tlv(5, &[])]);
    let mut bits = vec![0u8];
    bits.extend(pkcs1);
    seq(&[alg, tlv(3, &bits)])
}

// Reading: definite, minimal lengths and minimal non-negative integers only.

/// Tag, content, rest.
pub fn read(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    let (&tag, b) = b.split_first()?;
    if tag & 0x1f == 0x1f {
        return None;
    }
    let (&l, mut b) = b.split_first()?;
    let mut len = l as usize;
    if l >= 0x80 {
        let k = (l & 0x7f) as usize;
        if k == 0 || k > 4 || b.len() < k || b[0] == 0 {
            return None;
        }
        len = b[..k].iter().fold(0, |a, x| a << 8 | *x as usize);
        if len < 128 {
            return None;
        }
        b = &b[k..];
    }
    (b.len() >= len).then(|| (tag, &b[..len], &b[len..]))
}
pub fn expect(tag: u8, b: &[u8]) -> Option<(&[u8], &[u8])> {
    let (t, c, r) = read(b)?;
    (t == tag).then_some((c, r))
}
/// The magnitude of a non-negative integer, and the rest.
pub fn read_int(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let (c, r) = expect(2, b)?;
    match c {
        [] => None,
        [0] => Some((&c[1..], r)),
        [0, x, ..] => (x & 0x80 != 0).then_some((&c[1..], r)),
        [x, ..] => (x & 0x80 == 0).then_some((c, r)),
    }
}
pub fn read_pkcs1(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let (c, r) = expect(0x30, b)?;
    let (n, c) = read_int(c)?;
    let (e, c) = read_int(c)?;
    (r.is_empty() && c.is_empty()).then_some((n, e))
}
/// The content of the bit string of a SubjectPublicKeyInfo.
pub fn read_spki<'a>(b: &'a [u8], alg: &[u8]) -> Option<&'a [u8]> {
    let (c, r) = expect(0x30, b)?;
    let (a, c) = expect(0x30, c)?;
    let (bits, c) = expect(3, c)?;
    if !r.is_empty() || !c.is_empty() || a != alg {
        return None;
    }
    let (unused, bits) = bits.split_first()?;
    (*unused == 0).then_some(bits)
}
/// An RSA public key as modulus and exponent (SubjectPublicKeyInfo or bare).
pub fn read_rsa(b: &[u8]) -> Option<(&[u8], &[u8])> {
    let alg = [tlv(6, OID_RSA), tlv(5, &[])].concat();
    match read_spki(b, &alg) {
        Some(k) => read_pkcs1(k),
        None => read_pkcs1(b),
    }
}
pub const OID_ED: &[u8] = &[0x2b, 0x65, 0x70];
/// An Ed25519 public key: raw, or (an extension) SubjectPublicKeyInfo.
pub fn read_ed(b: &[u8]) -> Option<[u8; 32]> {
    b.try_into().ok().or_else(|| read_spki(b, &tlv(6, OID_ED))?.try_into().ok())
}

#[derive(Debug, PartialEq, Clone)]
pub enum Private {
    Rsa { n: Vec<u8>, e: Vec<u8>, d: Vec<u8>, p: Vec<u8>, q: Vec<u8> },
    Ed([u8; 32]),
}
/// A PKCS#8 v1 PrivateKeyInfo without attributes. The second value: version 2
/// or attributes present.
pub fn read_pkcs8(b: &[u8]) -> Option<(Private, bool)> {
    let (c, r) = expect(0x30, b)?;
    let (v, c) = read_int(c)?;
    let (alg, c) = expect(0x30, c)?;
    let (k, rest) = expect(4, c)?;
    if !r.is_empty() {
        return None;
    }
    let more = !v.is_empty() || !rest.is_empty();
    if alg == [tlv(6, OID_RSA), tlv(5, &[])].concat() {
        let (c, r) = expect(0x30, k)?;
        if !r.is_empty() {
            return None;
        }
        let (v, mut c) = read_int(c)?;
        let mut parts = vec![];
        for _ in 0..8 {
            let (i, r) = read_int(c)?;
            parts.push(i.to_vec());
            c = r;
        }
        if !v.is_empty() || !c.is_empty() {
            return None;
        }
        let mut it = parts.into_iter();
        let mut next = || it.next().unwrap();
        return Some((Private::Rsa { n: next(), e: next(), d: next(), p: next(), q: next() }, more));
    }
    if alg == tlv(6, OID_ED) {
        let (s, r) = expect(4, k)?;
        if !r.is_empty() {
            return None;
        }
        return Some((Private::Ed(s.try_into().ok()?), more));
    }
    None
}
