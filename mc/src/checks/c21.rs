//! C21: weak algorithms and keys are off unless enabled.

use super::{
    common::{self, field_of, lib_sign, request, PRE},
    world::{txt, World},
};
use crate::{
    ctx::Ctx,
    env,
    explore::{viol, Ch, Viol},
    keys::{self, Pub, K},
    refm::{
        crypto::{self, H},
        header::Field,
        sign::{f, signed, Spec, QNAME},
        verify::{show_msg, Cfg},
    },
};
use std::collections::BTreeMap;
use viadkim::{
    crypto::{HashAlgorithm, KeyType, SigningKey, VerificationError, VerifyingKey},
    signature::{DkimSignature, DkimSignatureErrorKind as SK, SigningAlgorithm},
    CanonicalStr,
};

const BODY: &[u8] = b"hello\r\n";

fn hdr() -> Vec<Field> {
    vec![f("From", " me"), f("To", " you")]
}

fn rsa_keys() -> Vec<&'static K> {
    keys::all().iter().filter(|k| k.is_rsa()).collect()
}

fn go(ch: &mut Ch, rec: &str, fields: &[Field], b: &[u8], cfg: &Cfg) -> Result<(), Viol> {
    let mut w = World::default();
    w.set(QNAME, txt(rec));
    let r = w.check(ch, fields, b, cfg, None);
    let id = || format!("{} record {rec} {cfg:?}", show_msg(fields, b));
    ch.describe(id);
    match r {
        None => Ok(()),
        Some(m) => viol(id(), m),
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    // Real signatures with every key and both hashes, whatever the build.
    let mut made: Vec<(&'static K, H, Vec<Field>)> = vec![];
    for k in keys::all() {
        for h in [H::Sha256, H::Sha1] {
            if h == H::Sha1 && !k.is_rsa() {
                continue;
            }
            for a in ["", "spelled"] {
                let mut s = Spec::with(k, h, true, false, &["From", "To"], "example.com", "sel", "");
                if a == "spelled" {
                    s.template = s.template.replace("sha1", "SHA1").replace("rsa-", "Rsa-");
                    if h == H::Sha256 && (!k.is_rsa() || !t) {
                        continue;
                    }
                }
                made.push((k, h, signed(&s, &hdr(), BODY)));
            }
        }
    }
    let lists = ["", "h=sha1; ", "h=sha256; ", "h=sha1:sha256; ", "h=sha256 : SHA1; ", "h=SHA1; ", "h=sha512; ", "h=sha1:sha1; "];
    ctx.part("keys, hashes and settings", 0, &|ch| {
        let (k, _, fields) = ch.of(&made);
        let bits = k.bits();
        let mut mins = vec![1024, 0, 511, 512, 513, 1023, 1025, 2048, usize::MAX];
        for m in [bits - 1, bits, bits + 1] {
            if !mins.contains(&m) {
                mins.push(m);
            }
        }
        let min_bits = *ch.of(&mins);
        let cfg = Cfg { min_bits, allow_sha1: ch.flag(), ..Default::default() };
        let list = *ch.of(&lists);
        let rec = match (k.is_rsa(), ch.pick(if k.is_rsa() { 2 } else { 1 })) {
            (false, _) => format!("{list}k=ed25519; p={}", k.p()),
            (true, 0) => format!("{list}p={}", k.p()),
            (true, _) => format!("{list}k=rsa; p={}", k.p_pkcs1()),
        };
        go(ch, &rec, fields, BODY, &cfg)
    });
    ctx.part("other configuration", 0, &|ch| {
        // Nothing else in the configuration re-enables anything.
        let (k, _, fields) = ch.of(&made);
        let cfg = Cfg {
            min_bits: if ch.flag() { 0 } else { 1024 },
            allow_sha1: ch.flag(),
            allow_expired: ch.flag(),
            allow_future: ch.flag(),
            forbidden: if ch.flag() { vec![] } else { vec!["From".into()] },
            forbid_unsigned: ch.flag(),
            tol: *ch.of(&[0, u64::MAX]),
            ..Default::default()
        };
        go(ch, &k.record(), fields, BODY, &cfg)
    });
    ctx.part("weak and strong together", 0, &|ch| {
        // A strong signature does not help a weak one, in any order.
        let pickable: Vec<&(&K, H, Vec<Field>)> =
            made.iter().filter(|m| ["ed1", "rsa1024", "rsa1023", "rsa512", "rsa511"].contains(&m.0.name)).collect();
        let mut w = World::default();
        for k in keys::all() {
            w.set(&format!("{}._domainkey.example.com.", k.name), txt(&k.record()));
        }
        let mut fields = vec![];
        for _ in 0..1 + ch.pick(3) {
            let m = *ch.of(&pickable);
            let s = Spec::with(m.0, m.1, true, false, &["From", "To"], "example.com", m.0.name, "");
            thread_local! {
                static CACHE: std::cell::RefCell<BTreeMap<(&'static str, H), Field>> = const { std::cell::RefCell::new(BTreeMap::new()) };
            }
            fields.push(CACHE.with(|c| c.borrow_mut().entry((m.0.name, m.1)).or_insert_with(|| s.make(&hdr(), BODY)).clone()));
        }
        fields.extend(hdr());
        let cfg = Cfg { min_bits: *ch.of(&[1024, 0]), allow_sha1: ch.flag(), ..Default::default() };
        let r = w.check(ch, &fields, BODY, &cfg, Some(0));
        match r {
            None => Ok(()),
            Some(m) => viol(format!("{} {cfg:?}", show_msg(&fields, BODY)), m),
        }
    });
    ctx.part("reading keys", 0, &|ch| {
        let k = *ch.of(&rsa_keys());
        let Pub::Rsa(p) = &k.public else { unreachable!() };
        let data = if ch.flag() { &k.pkcs1 } else { &k.key_data };
        let v = VerifyingKey::from_key_data(KeyType::Rsa, data);
        ch.op(3);
        let Ok(v) = v else { return viol(format!("key {}", k.name), "not read") };
        let want = if p.bits < if PRE { 512 } else { 1024 } { Err(VerificationError::InsufficientKeySize) } else { Ok(()) };
        ch.label(if want.is_ok() { "usable" } else { "too small" });
        if v.key_size() != Some(p.bits) || v.validate_min_key_size() != want {
            return viol(format!("key {}", k.name), format!("size {:?}, minimum {:?}", v.key_size(), v.validate_min_key_size()));
        }
        Ok(())
    });
    ctx.part("names", 0, &|ch| {
        // No spelling of the name lets SHA-1 in.
        let name = *ch.of(&["rsa-sha1", "RSA-SHA1", "rsa-SHA1", "Rsa-Sha1", "rsa-sha256", "RSA-SHA256", "ed25519-sha256", "ed25519-sha1", "rsa", "sha1"]);
        let sha1 = name.eq_ignore_ascii_case("rsa-sha1");
        let known = name.to_lowercase().ends_with("-sha256") || (sha1 && PRE);
        ch.op(2);
        if name.parse::<SigningAlgorithm>().is_ok() != known {
            return viol(format!("algorithm {name}"), format!("expected known: {known}"));
        }
        let bh = "AAAAAAAAAAAAAAAAAAAAAAAAAAA=";
        let v = format!("v=1; a={name}; d=example.com; s=s; h=From; bh={bh}; b=YQ==");
        let got = v.parse::<DkimSignature>();
        let ok = match &got {
            Ok(s) => known && s.algorithm.canonical_str().eq_ignore_ascii_case(name),
            Err(e) => !known && e.kind == if sha1 { SK::HistoricAlgorithm } else { SK::UnsupportedAlgorithm },
        };
        if !ok {
            return viol(v, format!("{got:?}"));
        }
        Ok(())
    });
    ctx.part("algorithms", 0, &|ch| {
        let all = HashAlgorithm::all();
        ch.op(5);
        let names: Vec<&str> = all.iter().map(|h| h.canonical_str()).collect();
        let want: &[&str] = if PRE { &["sha256", "sha1"] } else { &["sha256"] };
        if names != want {
            return viol("hash algorithms", format!("{names:?}"));
        }
        for (t, tn) in [(KeyType::Rsa, "rsa"), (KeyType::Ed25519, "ed25519")] {
            for h in &all {
                let n = format!("{tn}-{h}");
                let got = SigningAlgorithm::from_parts(t, *h).map(|a| a.canonical_str().to_string());
                let want = (n != "ed25519-sha1").then_some(n.clone());
                if got != want {
                    return viol(format!("algorithm of {n}"), format!("{got:?}"));
                }
                if let Some(a) = SigningAlgorithm::from_parts(t, *h) {
                    if (a.key_type(), a.hash_algorithm()) != (t, *h) || <(KeyType, HashAlgorithm)>::from(a) != (t, *h) {
                        return viol(format!("parts of {n}"), format!("{:?}", (a.key_type(), a.hash_algorithm())));
                    }
                }
            }
        }
        Ok(())
    });
    ctx.part("signing", 0, &|ch| {
        // What is issued names the requested algorithm and verifies accordingly.
        let some: Vec<&K> = keys::all().iter().filter(|k| k.bits() >= 512 || !k.is_rsa()).collect();
        let k = *ch.of(&some);
        let h = if PRE && k.is_rsa() && ch.flag() { H::Sha1 } else { H::Sha256 };
        let (hr, br) = (ch.flag(), ch.flag());
        let req = request(k, h, "example.com", "sel", hr, br);
        let o = env::with_clock(Some((1_000_000, 0)), || lib_sign(&hdr(), vec![req], &[BODY], false));
        ch.op(3);
        let id = || format!("signing {} {h:?} {hr} {br}", k.name);
        let Ok(Ok(o)) = o.map(|mut v| v.remove(0)) else { return viol(id(), "no signature") };
        let a = common::as_sig(&o.signature).alg;
        if a != crate::refm::sign::alg_name(k, h) || o.header_value.contains("sha1") != (h == H::Sha1) {
            return viol(id(), format!("issued {}", o.header_value));
        }
        let mut fields = vec![field_of(&o)];
        fields.extend(hdr());
        let cfg = Cfg { min_bits: *ch.of(&[0, 1024]), allow_sha1: ch.flag(), ..Default::default() };
        let rec = k.record();
        go(ch, &rec, &fields, BODY, &cfg)
    });
    ctx.part("signing primitives", 0, &|ch| {
        let k = *ch.of(&rsa_keys());
        let hash = *ch.of(&HashAlgorithm::all());
        let h = if hash.canonical_str() == "sha1" { H::Sha1 } else { H::Sha256 };
        let m = *ch.of(&[&b""[..], b"a", b"abc"]);
        let SigningKey::Rsa(own) = &*k.lib else { return viol(format!("key {}", k.name), "no RSA key") };
        let d = viadkim::crypto::digest(hash, m);
        ch.op(3);
        let id = || format!("key {} {hash} {:?}", k.name, m);
        if d[..] != crypto::digest(h, m)[..] {
            return viol(id(), "digest differs");
        }
        let Ok(s) = viadkim::crypto::sign_rsa(hash, own, &d) else { return viol(id(), "no signature") };
        if !crypto::verify(&k.public, h, &d, &s) {
            return viol(id(), "signature not good");
        }
        let p = rsa::RsaPublicKey::from(own);
        for other in HashAlgorithm::all() {
            let d = viadkim::crypto::digest(other, m);
            let ok = viadkim::crypto::verify_rsa(&p, other, &d, &s).is_ok();
            ch.op(1);
            if ok != (other == hash) {
                return viol(id(), format!("as {other}: {ok}"));
            }
        }
        Ok(())
    });
    ctx.note("the two builds are explored separately");
}
