//! C04: header canonicalisation and bottom-up selection.

use crate::{
    ctx::Ctx,
    env::{self, Answer, Resolver},
    explore::{viol, Viol},
    keys::key,
    refm::{
        crypto::{self, H},
        header::{self, Field},
        sign::{self, Spec},
    },
    util::*,
};
use viadkim::{
    canonicalize::{canonicalize_header, canonicalize_headers},
    crypto::HashAlgorithm,
    header::{FieldName, HeaderFields},
    message_hash::compute_data_hash,
    signature::CanonicalizationAlgorithm as CA,
    verifier::{Config, VerificationStatus},
};

fn ca(r: bool) -> CA {
    if r {
        CA::Relaxed
    } else {
        CA::Simple
    }
}

pub fn hf(fields: &[Field]) -> HeaderFields {
    HeaderFields::from_vec(fields.to_vec()).expect("library refuses a valid header")
}

pub fn names(n: &[String]) -> Vec<FieldName> {
    n.iter().map(|n| FieldName::new(n.as_str()).expect("library refuses a valid name")).collect()
}

pub fn show_fields(f: &[Field]) -> String {
    let v: Vec<String> = f.iter().map(|(n, v)| format!("{n}:{}", show(v))).collect();
    format!("[{}]", v.join(" | "))
}

/// A field body over tokens; None if it is not a valid one.
pub fn valid_body(v: &[u8]) -> bool {
    // CRLF must be followed by WSP, and the line after it must not be blank.
    let mut i = 0;
    let mut line_start = 0;
    let mut first = true;
    let blank = |l: &[u8]| l.iter().all(|b| *b == b' ' || *b == b'\t');
    loop {
        if i == v.len() || (v[i] == b'\r' && i + 1 < v.len() && v[i + 1] == b'\n') {
            let l = &v[line_start..i];
            if l.iter().any(|b| (*b < 32 && *b != b'\t') || *b == 127) {
                return false;
            }
            if !first && (blank(l) || !(l[0] == b' ' || l[0] == b'\t')) {
                return false;
            }
            first = false;
            if i == v.len() {
                return true;
            }
            i += 2;
            line_start = i;
        } else {
            i += 1;
        }
    }
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    ctx.part("selection", 0, &|ch| {
        let relaxed = ch.flag();
        let n = 1 + ch.pick(if t { 5 } else { 4 });
        let fields: Vec<Field> = (0..n)
            .map(|i| (ch.of(&["a", "A", "b", "ab"]).to_string(), format!(" v{i} ").into_bytes()))
            .collect();
        let m = ch.pick(if t { 6 } else { 5 });
        let sel: Vec<String> = (0..m).map(|_| ch.of(&["a", "A", "b", "ab", "c"]).to_string()).collect();
        let got = canonicalize_headers(ca(relaxed), &hf(&fields), &names(&sel));
        ch.op(1);
        let want = header::canon_fields(relaxed, &fields, &sel);
        ch.describe(|| format!("{} h={} -> {}", show_fields(&fields), sel.join(":"), show(&got)));
        match header::choose(&fields, &sel).len() {
            0 => ch.label("none chosen"),
            x if x == sel.len() => ch.label("all names matched"),
            _ => ch.label("some names unmatched"),
        }
        if got != want {
            return viol(
                format!("relaxed={relaxed} fields={} h={}", show_fields(&fields), sel.join(":")),
                format!("got {} want {}", show(&got), show(&want)),
            );
        }
        Ok(())
    });
    let counts: Vec<usize> =
        if t { (1..140).chain([255, 256, 257, 258, 512, 1025]).collect() } else { vec![1, 2, 3, 5, 7, 8, 9, 10, 11, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257] };
    ctx.part("selection, many same-named fields", 0, &|ch| {
        // Long lists: counters and sets.
        let n = *ch.of(&counts);
        let m = *ch.of(&counts);
        let period = 1 + ch.pick(3);
        let relaxed = ch.flag();
        let fields: Vec<Field> =
            (0..n).map(|i| (["a", "B", "c"][i % period].to_string(), format!("{i}").into_bytes())).collect();
        let mode = ch.pick(3);
        let sel: Vec<String> = (0..m)
            .map(|i| match mode {
                0 => "A".to_string(),
                1 => ["b", "A"][i % 2].to_string(),
                _ => ["a", "b", "c", "d"][i % 4].to_string(),
            })
            .collect();
        let got = canonicalize_headers(ca(relaxed), &hf(&fields), &names(&sel));
        ch.op(1);
        if got != header::canon_fields(relaxed, &fields, &sel) {
            return viol(format!("n={n} m={m} period={period} mode={mode} relaxed={relaxed}"), "wrong bytes".to_string());
        }
        Ok(())
    });
    let one = |relaxed: bool, name: &str, v: &[u8]| -> Result<(), Viol> {
        let mut got = b"pre".to_vec();
        canonicalize_header(&mut got, ca(relaxed), name, v);
        let want = [&b"pre"[..], &header::canon_field(relaxed, name, v)].concat();
        if got != want {
            return viol(
                format!("relaxed={relaxed} field={name}:{}", show(v)),
                format!("got {} want {}", show(&got), show(&want)),
            );
        }
        Ok(())
    };
    ctx.part("field bodies", 0, &|ch| {
        let relaxed = ch.flag();
        let name = *ch.of(&["a", "Ab-C", "X;=Y"]);
        let toks: &[&[u8]] = &[b"a", b" ", b"\t", b"\r\n ", b"\r\n\t", b":", b"\xe9", b"B"];
        let v = string(ch, if t { 7 } else { 6 }, toks);
        if !valid_body(&v) {
            ch.skip();
            return Ok(());
        }
        ch.op(1);
        ch.describe(|| format!("relaxed={relaxed} {name}:{}", show(&v)));
        one(relaxed, name, &v)
    });
    let szs = sizes(if t { 300 } else { 130 }, 65_537);
    ctx.part("sizes", 0, &|ch| {
        let relaxed = ch.flag();
        let n = *ch.of(&szs);
        let u: &[u8] = ch.of(&[&b"a"[..], b" ", b"\t ", b"a ", b"a  B", b"\r\n x", b" \r\n\tx\t"]);
        let pre: &[u8] = ch.of(&[&b""[..], b" ", b"x"]);
        let post: &[u8] = ch.of(&[&b""[..], b" ", b"x", b"\r\n x ", b" \xe9"]);
        let v = [pre, &u.repeat(n / u.len()), post].concat();
        if !valid_body(&v) {
            ch.skip();
            return Ok(());
        }
        ch.op(1);
        if n < 300 && ch.flag() {
            return one(relaxed, &"Na".repeat(1 + n / 2), &v);
        }
        one(relaxed, "Name", &v)
    });
    ctx.part("all bytes", 0, &|ch| {
        let relaxed = ch.flag();
        let pre: &[&[u8]] = &[b"", b" ", b"x", b"x ", b"\t\r\n "];
        let post: &[&[u8]] = &[b"", b" ", b"x", b" x", b"\r\n x"];
        let mut v = ch.of(pre).to_vec();
        v.push(ch.pick(256) as u8);
        v.push(ch.pick(256) as u8);
        v.extend(*ch.of(post));
        if !valid_body(&v) {
            ch.skip();
            return Ok(());
        }
        ch.op(1);
        one(relaxed, "N", &v)
    });
    ctx.part("all name bytes", 0, &|ch| {
        let relaxed = ch.flag();
        let b = 33 + ch.pick(94) as u8;
        let c = 33 + ch.pick(94) as u8;
        if b == b':' || c == b':' {
            ch.skip();
            return Ok(());
        }
        let n = String::from_utf8(vec![b, c]).unwrap();
        ch.op(2);
        one(relaxed, &n, b" v ")?;
        // Selection by name ignores ASCII case only.
        let other = *ch.of(&["ab", "aB", "[]", "{}", "@`", "k~"]);
        let fields = vec![(n.clone(), b"1".to_vec())];
        let got = canonicalize_headers(ca(relaxed), &hf(&fields), &names(&[other.to_string()]));
        if got != header::canon_fields(relaxed, &fields, &[other.to_string()]) {
            return viol(format!("name={n} selected={other}"), format!("got {}", show(&got)));
        }
        Ok(())
    });
    ctx.part("data hash", 0, &|ch| {
        let relaxed = ch.flag();
        let n = 1 + ch.pick(2);
        let vals: &[&[u8]] = &[b" x", b"\tx \r\n  y ", b""];
        let fields: Vec<Field> =
            (0..n).map(|_| (ch.of(&["From", "to", "DKIM-Signature"]).to_string(), ch.of(vals).to_vec())).collect();
        let m = ch.pick(3);
        let sel: Vec<String> = (0..m).map(|_| ch.of(&["from", "TO", "dkim-signature"]).to_string()).collect();
        let sname = *ch.of(&["DKIM-Signature", "dkim-SIGNATURE"]);
        let sval = *ch.of(&[" v=1; b=", "v=1;\r\n\tb=; h=from  :  to ", " b= ", "\r\n b="]);
        let got = compute_data_hash(HashAlgorithm::Sha256, ca(relaxed), &hf(&fields), &names(&sel), sname, sval);
        ch.op(1);
        let mut input = header::canon_fields(relaxed, &fields, &sel);
        input.extend(header::canon_field(relaxed, sname, sval.as_bytes()));
        if got[..] != crypto::digest(H::Sha256, &input)[..] {
            return viol(
                format!("relaxed={relaxed} fields={} h={} {sname}:{}", show_fields(&fields), sel.join(":"), show(sval.as_bytes())),
                "data hash differs from the digest of the reference hash input",
            );
        }
        Ok(())
    });
    ctx.part("selection, verifying foreign signatures", 0, &|ch| {
        let relaxed = ch.flag();
        let n = 1 + ch.pick(3);
        let fields: Vec<Field> = (0..n)
            .map(|i| {
                (ch.of(&["From", "fROM", "To", "X"]).to_string(), format!(" v{}", ch.pick(2) * (i + 1)).into_bytes())
            })
            .collect();
        let m = ch.pick(if t { 4 } else { 3 });
        let mut sel = vec!["from".to_string()];
        for _ in 0..m {
            sel.push(ch.of(&["From", "to", "X"]).to_string());
        }
        let at = ch.pick(sel.len());
        sel.swap(0, at);
        let sel: Vec<&str> = sel.iter().map(|s| s.as_str()).collect();
        let spec = Spec::new(key("ed1"), relaxed, false, &sel);
        let msg = sign::signed(&spec, &fields, b"");
        let res = Resolver::new();
        res.set(sign::QNAME, Answer::one(key("ed1").record()));
        let config = Config { headers_forbidden_to_be_unsigned: vec![], ..Default::default() };
        let r = env::verify(&res, &hf(&msg), &config, &[], true).unwrap();
        ch.op(1);
        if r[0].status != VerificationStatus::Success {
            return viol(
                format!("relaxed={relaxed} fields={} h={}", show_fields(&fields), sel.join(":")),
                format!("independently made signature: {:?}", r[0].status),
            );
        }
        Ok(())
    });
}
