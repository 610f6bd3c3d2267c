//! C10: the generated header field is well-formed and says what was asked for.

use super::{
    c01::{body_len, CLOCK},
    c04::hf,
    common::*,
    reqgen::{self, ReqSpec},
};
use crate::{
    ctx::Ctx,
    env,
    explore::{viol, Ch, Viol},
    keys::key,
    refm::{
        body,
        crypto,
        domain, header, mail, qp,
        sign::f as sf,
        sigparse::{self, Sig, P},
        verify::show_msg,
    },
    util::*,
};
use std::cmp::Ordering;
use viadkim::{
    header::HeaderFields,
    signature::{DkimSignature, DomainName, Selector},
    signer::{
        default_signed_headers, default_unsigned_headers, select_headers, BodyLength, SignRequest, SigningOutput,
        Timestamp,
    },
};

/// What the signature has to say, except for the signature value.
pub fn expected(r: &ReqSpec, fields: &[header::Field], b: &[u8], clock: u64) -> Sig {
    let h: Vec<String> = match &r.sel {
        Some(n) => n.clone(),
        None => {
            let def = reqgen::EXAMPLES_SIGNED;
            fields.iter().rev().map(|f| f.0.clone()).filter(|n| def.iter().any(|d| header::same_name(d, n))).collect()
        }
    };
    let c = body::canon(r.br, b);
    let l = match r.bl {
        BodyLength::NoLimit => None,
        BodyLength::MessageContent => Some(c.len() as u64),
        BodyLength::Exact(n) => Some(n),
    };
    let t = match r.ts {
        Timestamp::None => None,
        Timestamp::Now => Some(clock),
        Timestamp::Exact(t) => Some(t),
    };
    let z = fields.iter().filter(|f| r.copy && h.iter().any(|n| header::same_name(n, &f.0))).cloned().collect();
    Sig {
        alg: crate::refm::sign::alg_name(r.key, r.h).into(),
        b: vec![],
        bh: crypto::digest(r.h, &c[..l.map_or(c.len(), |l| l as usize)]),
        c: (r.hr, r.br),
        d: r.d.clone(),
        h,
        i: r.i.as_deref().map(|i| domain::identity(i).expect("identity")),
        l,
        s: r.s.clone(),
        t,
        x: r.vd.map(|d| t.unwrap_or(clock).saturating_add(d.as_secs())),
        z,
        ext: r.ext.clone(),
    }
}

/// Same data, with names in the same IDN form.
fn norm(mut s: Sig) -> Sig {
    // The tag order may be any: extension tags are unordered data.
    s.ext.sort();
    s
}
fn idn(mut s: Sig) -> Sig {
    let a = |x: &str, sel| domain::to_ascii(x, sel).unwrap_or_else(|| x.to_string()).to_ascii_lowercase();
    s.d = a(&s.d, false);
    s.s = a(&s.s, true);
    s.i = s.i.map(|(l, d)| (l, a(&d, false)));
    norm(s)
}

/// The difference between two signatures, if any.
fn diff(a: &Sig, b: &Sig) -> Option<String> {
    (a != b).then(|| format!("{a:?}\nexpected {b:?}"))
}

pub fn judge(r: &ReqSpec, fields: &[header::Field], b: &[u8], o: &SigningOutput) -> Result<(), String> {
    let err = |m: String| Err(format!("{m}: {}", show(o.header_value.as_bytes())));
    if o.header_name != r.header_name {
        return err(format!("header name {:?}", o.header_name));
    }
    let v = &o.header_value;
    if !mail::body_ok(v.as_bytes()) {
        return err("not a valid header field body".into());
    }
    if o.format_header().to_string() != format!("{}:{v}", r.header_name) {
        return err(format!("format_header gives {:?}", o.format_header().to_string()));
    }
    let (n, fb) = o.to_header_field();
    if n.as_ref() != r.header_name || fb.as_ref() != v.as_bytes() {
        return err("to_header_field differs".into());
    }
    // On the wire it is one field.
    let text = format!("{}\r\nFrom: x\r\n", o.format_header());
    match text.parse::<HeaderFields>() {
        Ok(p) if p.as_ref().len() == 2 && p.as_ref()[0].1.as_ref() == v.as_bytes() => {}
        p => return err(format!("read back as {p:?}")),
    }
    // The data.
    let mut want = expected(r, fields, b, CLOCK as u64);
    want.b = o.signature.signature_data.to_vec();
    if let Some(d) = diff(&norm(as_sig(&o.signature)), &norm(want.clone())) {
        return err(format!("reported {d}"));
    }
    match sigparse::parse(v, PRE) {
        P::Ok(s) => {
            if let Some(d) = diff(&idn(*s), &idn(want.clone())) {
                return err(format!("text says {d}"));
            }
        }
        P::Bad(k, _) => return err(format!("ill-formed {k:?}")),
        P::Unspecified => {}
    }
    match v.parse::<DkimSignature>() {
        Ok(s) => {
            if let Some(d) = diff(&idn(as_sig(&s)), &idn(want)) {
                return err(format!("library reads {d}"));
            }
        }
        Err(e) => return err(format!("library rejects its own header: {e:?}")),
    }
    if r.ascii && !v.is_ascii() {
        return err("not ASCII".into());
    }
    layout(r, v, fields).or_else(err)
}

fn layout(r: &ReqSpec, v: &str, fields: &[header::Field]) -> Result<(), String> {
    // Order of tags.
    let pieces: Vec<&str> = v.trim_end_matches(';').split(';').collect();
    let names: Vec<&str> = pieces.iter().map(|p| p.split('=').next().unwrap().trim()).collect();
    if r.order > 0 {
        for i in 0..names.len() {
            for j in i + 1..names.len() {
                if reqgen::order(r.order, names[i], names[j]) == Ordering::Greater {
                    return Err(format!("tag {} before {} against the requested order", names[i], names[j]));
                }
            }
        }
    }
    // Lines. Values given by the caller may bring their own line breaks.
    if r.ext.iter().any(|e| e.1.contains("\r\n")) {
        return Ok(());
    }
    let lines: Vec<String> = v
        .split("\r\n")
        .enumerate()
        .map(|(i, l)| if i == 0 { format!("{}:{l}", r.header_name) } else { l.to_string() })
        .collect();
    for l in &lines[1..] {
        match l.strip_prefix(r.indent.as_str()) {
            Some(c) if !c.is_empty() && !c.starts_with([' ', '\t']) => {}
            _ => return Err(format!("continuation line {l:?} for indentation {:?}", r.indent)),
        }
    }
    // Width, if everything indivisible fits.
    let n = |s: &str| s.chars().count();
    let mut max = n(&r.header_name) + 1;
    let ind = n(&r.indent);
    for (p, name) in pieces.iter().zip(&names) {
        let item = match *name {
            "b" | "bh" => name.len() + 2,
            "h" => {
                // "h=" only belongs to the first one.
                let mut l: Vec<usize> =
                    p.split(':').map(|x| x.chars().filter(|c| !c.is_whitespace()).count() + 1).collect();
                l.push(0);
                *l.iter().max().unwrap()
            }
            "z" => fields.iter().map(|f| n(&qp::encode(f.0.as_bytes(), Some('|'), false)) + 1).max().unwrap() + 2,
            _ => n(p.trim()) + 1,
        };
        max = max.max(ind + item);
    }
    if max <= r.width {
        for l in &lines {
            let w = n(l);
            if w > r.width && !(w == r.width + 1 && l.ends_with(';')) {
                return Err(format!("line of {w} characters, limit {}: {l:?}", r.width));
            }
        }
    }
    Ok(())
}

fn go(ch: &mut Ch, r: &ReqSpec, fields: &[header::Field], b: &[u8]) -> Result<(), Viol> {
    let id = || format!("{} request {r:?}", show_msg(fields, b));
    if body::ambiguous(b) && r.br {
        ch.skip();
        return Ok(());
    }
    let out = env::with_clock(Some((CLOCK, 999_999_999)), || lib_sign(fields, vec![r.build()], &[b], true));
    ch.op(5);
    let o = match out.map(|mut o| o.remove(0)) {
        Ok(Ok(o)) => o,
        other => return viol(id(), format!("refused: {other:?}")),
    };
    ch.describe(|| format!("{} -> {}", id(), show(o.header_value.as_bytes())));
    ch.label(if r.width >= 40 { "wide" } else { "narrow" });
    judge(r, fields, b, &o).or_else(|m| viol(id(), m))
}

pub fn run(ctx: &mut Ctx) {
    let t = ctx.thorough;
    let all = |ch: &mut Ch, r: &mut ReqSpec| -> Result<(), Viol> {
        let fields = ch.devof(&reqgen::messages()).clone();
        reqgen::deviate(ch, r, true);
        let b = ch.devof(&reqgen::bodies()).clone();
        let n = ch.dev(5);
        r.bl = body_len(r, n, &b);
        go(ch, r, &fields, &b)
    };
    ctx.part("every option, few deviations, Ed25519", if t { 4 } else { 3 }, &|ch| {
        all(ch, &mut ReqSpec::plain(key("ed1")))
    });
    ctx.part("every option, few deviations, RSA", if t { 3 } else { 2 }, &|ch| {
        all(ch, &mut ReqSpec::plain(key("rsa1024")))
    });
    ctx.part("message x selection x copying x layout", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        let fields = ch.of(&reqgen::messages()).clone();
        r.sel = ch.of(&reqgen::selections()).clone();
        r.copy = ch.flag();
        r.ascii = ch.flag();
        r.order = *ch.of(if t { &[0, 7, 10, 1, 2, 5][..] } else { &[0, 7, 10][..] });
        r.indent = ch.of(&reqgen::INDENTS[..2]).to_string();
        r.width = if t { 1 + ch.pick(120) } else { *ch.of(&[78, 1, 2, 7, 20, 33, 50, 64, 100]) };
        go(ch, &r, &fields, b"x\r\n")
    });
    ctx.part("widths", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        r.width = 1 + ch.pick(if t { 400 } else { 200 });
        r.indent = ch.of(&reqgen::INDENTS[..4]).to_string();
        r.order = ch.pick(reqgen::ORDERS);
        r.copy = ch.flag();
        r.ascii = ch.flag();
        if ch.flag() {
            r.ext = reqgen::exts()[2].clone();
        }
        let m = if ch.flag() { 2 } else { 0 };
        r.sel = Some(vec!["From".into(), "To".into(), "Subject".into(), "From".into(), "X|Y".into()]);
        go(ch, &r, &reqgen::messages()[m], b"x\r\n")
    });
    ctx.part("widths, each tag last", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        r.width = 1 + ch.pick(if t { 400 } else { 130 });
        r.indent = ch.of(&reqgen::INDENTS[..if t { 4 } else { 2 }]).to_string();
        let n = reqgen::LASTS.len();
        let k = ch.pick(n + 4);
        r.order = if k < n { 11 + k } else { [6, 8, 9, 10][k - n] };
        r.copy = ch.flag();
        r.sel = Some(match ch.pick(3) {
            0 => vec!["From".into()],
            1 => vec!["From".into(), "To".into()],
            _ => vec!["X-Longer".into(), "From".into()],
        });
        r.header_name = ch.of(&["DKIM-Signature", "dkim-signature"]).to_string();
        r.i = Some(format!("someone@{}", r.d));
        r.ts = Timestamp::Exact(1_700_000_000);
        r.vd = Some(std::time::Duration::from_secs(86_400));
        r.bl = BodyLength::Exact(1);
        r.ext = vec![("e".into(), "some".into())];
        go(ch, &r, &reqgen::messages()[0], b"x\r\n")
    });
    ctx.part("widths, RSA", 0, &|ch| {
        let mut r = ReqSpec::plain(key(ch.of(&["rsa1024", "rsa1025", "rsa1032", "rsa2048"])));
        r.width = *ch.of(&[1, 2, 3, 5, 17, 40, 60, 66, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 100, 180, 250, 400]);
        r.order = *ch.of(&[0, 5, 6, 8]);
        r.indent = ch.of(&reqgen::INDENTS[..3]).to_string();
        go(ch, &r, &reqgen::messages()[0], b"x\r\n")
    });
    ctx.part("identities and internationalised names", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        r.d = ch.of(reqgen::DOMAINS).to_string();
        r.s = ch.of(reqgen::SELECTORS).to_string();
        r.i = ch.of(&reqgen::identities(&r.d)).clone();
        r.ascii = ch.flag();
        r.order = *ch.of(&[0, 2]);
        r.width = *ch.of(&[78, 1, 12, 20, 21, 22, 23, 24, 25]);
        go(ch, &r, &reqgen::messages()[0], b"x\r\n")
    });
    ctx.part("sizes", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        let (fields, b) = reqgen::sized(ch, &mut r, t);
        go(ch, &r, &fields, &b)
    });
    ctx.part("every character", 0, &|ch| {
        let mut r = ReqSpec::plain(key("ed1"));
        let Some((fields, b)) = reqgen::lettered(ch, &mut r, t) else {
            ch.skip();
            return Ok(());
        };
        go(ch, &r, &fields, &b)
    });
    ctx.part("default selection", 0, &|ch| {
        // Every example name and its neighbours, in a header of its own or
        // among the others.
        let all: Vec<&str> = reqgen::EXAMPLES_SIGNED.iter().chain(reqgen::EXAMPLES_UNSIGNED).copied().collect();
        let mut names: Vec<String> = vec![];
        for n in all.iter().chain(&["Resent-Sender", "Sender", "Message-ID", "Bcc", "MIME-Version", "DKIM-Signature"]) {
            names.push(n.to_string());
            names.push(n.to_uppercase());
            names.push(n.to_lowercase());
            names.push(n.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect());
            names.push(n[1..].to_string());
            names.push(n[..n.len() - 1].to_string());
            names.push(format!("{n}s"));
            names.push(format!("X-{n}"));
            names.push(format!("Resent-{n}"));
            names.push(format!("List-{n}"));
            names.push(n.replace('-', "_"));
        }
        let name = ch.of(&names).clone();
        let mut fields = match ch.pick(3) {
            0 => vec![sf("From", " x")],
            1 => vec![sf("From", " x"), sf(&name, " other")],
            _ => all.iter().map(|n| sf(n, " x")).collect(),
        };
        fields.insert(ch.pick(fields.len() + 1), sf(&name, " this"));
        let mut r = ReqSpec::plain(key("ed1"));
        r.copy = ch.flag();
        go(ch, &r, &fields, b"x\r\n")
    });
    ctx.part("selecting by predicate", 0, &|ch| {
        // Every small header, every subset of names.
        let names = ["From", "from", "To", "X-A", "TO"];
        let n = 1 + ch.pick(if t { 5 } else { 4 });
        let fields: Vec<_> = (0..n).map(|i| sf(names[ch.pick(names.len())], &format!(" {i}"))).collect();
        let mask = ch.pick(8);
        let pred = |n: &str| {
            let k = ["from", "to", "x-a"].iter().position(|x| header::same_name(x, n)).unwrap();
            mask >> k & 1 == 1
        };
        let h = hf(&fields);
        let mut asked = vec![];
        let got: Vec<String> = select_headers(&h, |n| pred(n.as_ref())).map(|n| n.as_ref().to_string()).collect();
        let rev: Vec<String> = select_headers(&h, |n| pred(n.as_ref())).rev().map(|n| n.as_ref().to_string()).collect();
        ch.op(2);
        asked.extend(fields.iter().rev().map(|f| f.0.clone()).filter(|n| pred(n)));
        let id = || format!("{fields:?} names {mask}");
        ch.describe(|| format!("{} -> {got:?}", id()));
        if got != asked || rev != asked.iter().rev().cloned().collect::<Vec<_>>() {
            return viol(id(), format!("{got:?}, from the end {rev:?}, expected {asked:?}"));
        }
        Ok(())
    });
    ctx.part("default options", 0, &|ch| {
        // What is not asked for takes its documented default.
        let set = |v: Vec<viadkim::FieldName>| v.iter().map(|n| n.as_ref().to_ascii_lowercase()).collect::<std::collections::BTreeSet<_>>();
        let low = |v: &[&str]| v.iter().map(|n| n.to_ascii_lowercase()).collect::<std::collections::BTreeSet<_>>();
        ch.op(3);
        if set(default_signed_headers()) != low(reqgen::EXAMPLES_SIGNED) || set(default_unsigned_headers()) != low(reqgen::EXAMPLES_UNSIGNED) {
            return viol("default header lists", format!("{:?} {:?}", default_signed_headers(), default_unsigned_headers()));
        }
        let k = key(ch.of(&["ed1", "rsa1024", "rsa2048"]));
        let fields = ch.of(&reqgen::messages()).clone();
        let b = ch.of(&reqgen::bodies()).clone();
        let mut r = ReqSpec::plain(k);
        r.ts = Timestamp::Now;
        r.vd = Some(std::time::Duration::from_secs(5 * 24 * 60 * 60));
        let req = SignRequest::new(
            DomainName::new(r.d.as_str()).unwrap(),
            Selector::new(r.s.as_str()).unwrap(),
            sign_alg(k, crate::refm::crypto::H::Sha256),
            k.lib.clone(),
        );
        let id = || format!("{} key {}", show_msg(&fields, &b), k.name);
        let out = env::with_clock(Some((CLOCK, 0)), || lib_sign(&fields, vec![req], &[&b], true));
        match out.map(|mut o| o.remove(0)) {
            Ok(Ok(o)) => {
                ch.describe(|| format!("{} -> {}", id(), show(o.header_value.as_bytes())));
                judge(&r, &fields, &b, &o).or_else(|m| viol(id(), m))
            }
            other => viol(id(), format!("refused: {other:?}")),
        }
    });
    ctx.part("copied values", 0, &|ch| {
        // Every short value of a copied field.
        let toks: &[&[u8]] = &[b"a", b"=", b"|", b";", b" ", b"\t", b":", b"\xc3\xa9", b"\xff", b"\r\n x"];
        let v = string(ch, if t { 4 } else { 3 }, toks);
        if !mail::body_ok(&v) {
            ch.skip();
            return Ok(());
        }
        let mut r = ReqSpec::plain(key("ed1"));
        r.copy = true;
        r.ascii = ch.flag();
        r.width = *ch.of(&[78, 1, 10]);
        let fields = vec![("From".to_string(), v.clone()), ("To".to_string(), v)];
        go(ch, &r, &fields, b"x\r\n")
    });
    ctx.part("extension tag values", 0, &|ch| {
        let toks: &[&[u8]] = &[b"a", b"=", b" ", b"\t", b"\r\n ", b":", b"|", b"\xc3\xa9"];
        let v = String::from_utf8(string(ch, if t { 5 } else { 4 }, toks)).unwrap();
        if !crate::refm::tags::is_value(&v) {
            ch.skip();
            return Ok(());
        }
        let mut r = ReqSpec::plain(key("ed1"));
        r.ext = vec![("e".into(), v)];
        r.order = *ch.of(&[0, 2, 6]);
        r.width = *ch.of(&[78, 1]);
        go(ch, &r, &reqgen::messages()[0], b"x\r\n")
    });
}
