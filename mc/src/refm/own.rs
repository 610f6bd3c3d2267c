//! Digests and Ed25519 written down from FIPS 180-4 and RFC 8032.

use super::crypto::H;
use rsa::BigUint;

pub fn digest(h: H, m: &[u8]) -> Vec<u8> {
    match h {
        H::Sha256 => sha256(m),
        H::Sha1 => super::crypto::sha1(m),
    }
}

fn primes(n: usize) -> Vec<u64> {
    (2u64..).filter(|p| (2..*p).all(|d| p % d != 0)).take(n).collect()
}

/// The first 64 bits of the fractional part of the k-th root of p.
fn root_frac(p: u64, k: u32) -> u64 {
    // floor(p^(1/k) * 2^64) by bisection.
    let target = BigUint::from(p) << (64 * k as usize);
    let (mut lo, mut hi) = (BigUint::from(0u8), BigUint::from(1u8) << 72);
    let one = BigUint::from(1u8);
    while &hi - &lo > one {
        let mid: BigUint = (&lo + &hi) >> 1;
        let mut x = one.clone();
        for _ in 0..k {
            x *= &mid;
        }
        if x <= target {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    let b = lo.to_bytes_be();
    let mut a = [0u8; 8];
    a.copy_from_slice(&b[b.len() - 8..]);
    u64::from_be_bytes(a)
}

struct Consts {
    k: Vec<u64>,
    h: Vec<u64>,
}
fn consts() -> &'static Consts {
    static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        Consts { k: p.iter().map(|p| root_frac(*p, 3)).collect(), h: p[..8].iter().map(|p| root_frac(*p, 2)).collect() }
    })
}

fn pad(m: &[u8], block: usize) -> Vec<u8> {
    let mut p = m.to_vec();
    p.push(0x80);
    let len = block / 8;
    while p.len() % block != block - len {
        p.push(0);
    }
    let bits = (m.len() as u128 * 8).to_be_bytes();
    p.extend(&bits[16 - len..]);
    p
}

pub fn sha256(m: &[u8]) -> Vec<u8> {
    let c = consts();
    let mut h: Vec<u32> = c.h.iter().map(|x| (x >> 32) as u32).collect();
    for block in pad(m, 64).chunks(64) {
        let mut w: Vec<u32> = block.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((c.k[i] >> 32) as u32).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(s0.wrapping_add(maj));
        }
        for (a, b) in h.iter_mut().zip(v) {
            *a = a.wrapping_add(b);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn sha512(m: &[u8]) -> Vec<u8> {
    let c = consts();
    let mut h = c.h.clone();
    for block in pad(m, 128).chunks(128) {
        let mut w: Vec<u64> = block.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut v = h.clone();
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v.rotate_right(1);
            v[4] = v[4].wrapping_add(t1);
            v[0] = t1.wrapping_add(s0.wrapping_add(maj));
        }
        for (a, b) in h.iter_mut().zip(v) {
            *a = a.wrapping_add(b);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

struct Curve {
    p: BigUint,
    l: BigUint,
    d: BigUint,
    base: [BigUint; 4],
}

impl Curve {
    fn inv(&self, x: &BigUint) -> BigUint {
        x.modpow(&(&self.p - BigUint::from(2u8)), &self.p)
    }
    /// Extended homogeneous coordinates, RFC 8032, section 5.1.4.
    fn add(&self, a: &[BigUint; 4], b: &[BigUint; 4]) -> [BigUint; 4] {
        let p = &self.p;
        let sub = |x: &BigUint, y: &BigUint| (x + p - y) % p;
        let aa = sub(&a[1], &a[0]) * sub(&b[1], &b[0]) % p;
        let bb = (&a[1] + &a[0]) * (&b[1] + &b[0]) % p;
        let cc = BigUint::from(2u8) * &a[3] * &b[3] * &self.d % p;
        let dd = BigUint::from(2u8) * &a[2] * &b[2] % p;
        let (e, f) = (sub(&bb, &aa), sub(&dd, &cc));
        let (g, h) = ((&dd + &cc) % p, (&bb + &aa) % p);
        [&e * &f % p, &g * &h % p, &f * &g % p, &e * &h % p]
    }
    fn mul(&self, s: &BigUint) -> [BigUint; 4] {
        let (z, o) = (BigUint::from(0u8), BigUint::from(1u8));
        let mut q = [z.clone(), o.clone(), o, z];
        for b in s.to_bytes_be() {
            for i in (0..8).rev() {
                q = self.add(&q, &q);
                if b >> i & 1 == 1 {
                    q = self.add(&q, &self.base);
                }
            }
        }
        q
    }
    fn encode(&self, q: &[BigUint; 4]) -> [u8; 32] {
        let zi = self.inv(&q[2]);
        let x = &q[0] * &zi % &self.p;
        let y = &q[1] * &zi % &self.p;
        let mut b = [0u8; 32];
        for (i, v) in y.to_bytes_le().iter().enumerate() {
            b[i] = *v;
        }
        b[31] |= (x.to_bytes_le()[0] & 1) << 7;
        b
    }
}

fn curve() -> &'static Curve {
    static C: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let one = BigUint::from(1u8);
        let p = (&one << 255) - BigUint::from(19u8);
        let l = (&one << 252) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
        let inv = |x: &BigUint| x.modpow(&(&p - BigUint::from(2u8)), &p);
        let d = (&p - BigUint::from(121665u32)) * inv(&BigUint::from(121666u32)) % &p;
        let y = BigUint::from(4u8) * inv(&BigUint::from(5u8)) % &p;
        // x from y, with x even.
        let y2 = &y * &y % &p;
        let x2 = (&y2 + &p - &one) * inv(&(&d * &y2 + &one)) % &p;
        let mut x = x2.modpow(&((&p + BigUint::from(3u8)) >> 3), &p);
        if &x * &x % &p != x2 {
            x = x * BigUint::from(2u8).modpow(&((&p - &one) >> 2), &p) % &p;
        }
        assert!(&x * &x % &p == x2);
        if x.to_bytes_le()[0] & 1 == 1 {
            x = &p - x;
        }
        let t = &x * &y % &p;
        Curve { base: [x, y, one, t], p, l, d }
    })
}

/// The public key of a seed, and its signature of a message.
pub fn ed25519(seed: &[u8; 32], m: &[u8]) -> ([u8; 32], Vec<u8>) {
    let c = curve();
    let h = sha512(seed);
    let mut a = h[..32].to_vec();
    a[0] &= 248;
    a[31] &= 127;
    a[31] |= 64;
    let s = BigUint::from_bytes_le(&a);
    let public = c.encode(&c.mul(&s));
    let r = BigUint::from_bytes_le(&sha512(&[&h[32..], m].concat())) % &c.l;
    let rr = c.encode(&c.mul(&r));
    let k = BigUint::from_bytes_le(&sha512(&[&rr[..], &public, m].concat())) % &c.l;
    let mut b = ((r + k * s) % &c.l).to_bytes_le();
    b.resize(32, 0);
    (public, [&rr[..], &b].concat())
}
