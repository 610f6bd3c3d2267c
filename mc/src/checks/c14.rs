//! C14: policy settings take effect exactly at their boundaries.

use super::{
    c04::hf,
    world::{txt, World},
};
use crate::{
    ctx::Ctx,
    env,
    explore::{viol, Ch, Viol},
    keys::{key, Pub},
    refm::{
        body,
        crypto::H,
        header::Field,
        sign::{f, signed, Spec, QNAME},
        verify::{self, show_msg, Cfg},
    },
    util::*,
};
use std::time::{Duration, SystemTime};

const BODY: &[u8] = b"hello\r\n";

fn go(ch: &mut Ch, rec: &str, fields: &[Field], b: &[u8], cfg: &Cfg) -> Result<(), Viol> {
    let mut w = World::default();
    w.set(QNAME, txt(rec));
    let r = w.check(ch, fields, b, cfg, None);
    ch.describe(|| format!("{} {cfg:?}", show_msg(fields, b)));
    match r {
        None => Ok(()),
        Some(m) => viol(format!("{} {cfg:?}", show_msg(fields, b)), m),
    }
}

fn times(t: Option<u64>, x: Option<u64>) -> String {
    t.map_or(String::new(), |t| format!(" t={t};")) + &x.map_or(String::new(), |x| format!(" x={x};"))
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let ed = key("ed1");
    let rec = ed.record();
    let n = &["From", "To"];
    let hdr = vec![f("From", " me"), f("To", " you")];
    let at = |extra: &str| signed(&Spec::with(ed, H::Sha256, true, false, n, "example.com", "sel", extra), &hdr, BODY);
    // Signatures are made once per t and x.
    const M: u64 = u64::MAX;
    let now_max = i64::MAX as u64;
    let small: Vec<u64> = (0..if th { 9 } else { 7 }).collect();
    let big = [0, 1, 2, 300, 1000, now_max - 1, now_max, now_max + 1, now_max + 2, M - 2, M - 1, M];
    let opts = |v: &[u64]| -> Vec<Option<u64>> { std::iter::once(None).chain(v.iter().map(|x| Some(*x))).collect() };
    let grid = |v: &[u64]| -> Vec<Vec<Vec<Field>>> {
        opts(v).iter().map(|t| opts(v).iter().map(|x| at(&times(*t, *x))).collect()).collect()
    };
    let (gs, gb) = (grid(&small), grid(&big));
    let time_part = |ch: &mut Ch, v: &[u64], g: &[Vec<Vec<Field>>], nows: &[u64], tols: &[u64]| -> Result<(), Viol> {
        let fields = &g[ch.pick(v.len() + 1)][ch.pick(v.len() + 1)];
        let cfg = Cfg {
            now: *ch.of(nows),
            tol: *ch.of(tols),
            allow_expired: ch.flag(),
            allow_future: ch.flag(),
            ..Default::default()
        };
        go(ch, &rec, fields, BODY, &cfg)
    };
    ctx.part("times around each other", 0, &|ch| time_part(ch, &small, &gs, &(0..9).collect::<Vec<_>>(), &[0, 1, 2, 5]));
    ctx.part("extreme times", 0, &|ch| {
        time_part(ch, &big, &gb, &[0, 1, 299, 300, 301, 700, 1300, now_max - 1, now_max], &[0, 1, 300, 1000, now_max, M - 1, M])
    });
    ctx.part("clock", 0, &|ch| {
        // Without a fixed time the wall clock counts, whole seconds of it.
        let clocks = [(-1i64, 0i64), (-1, 999_999_999), (0, 0), (0, 999_999_999), (4, 0), (5, 0), (5, 999_999_999), (6, 0), (1000, 0), (now_max as i64, 0)];
        let (s, ns) = *ch.of(&clocks);
        let fixed = ch.flag();
        let (t, x) = *ch.of(&[(None, Some(5)), (Some(5), None), (Some(5), Some(6)), (None, None), (Some(6), Some(900)), (None, Some(1))]);
        let fields = at(&times(t, x));
        let cfg = Cfg { now: s.max(0) as u64, tol: *ch.of(&[0, 1, 2]), ..Default::default() };
        let mut lib = cfg.lib();
        lib.fixed_system_time = if fixed {
            Some(if s < 0 {
                SystemTime::UNIX_EPOCH - Duration::new(0, 1_000_000_000 - ns.min(999_999_999) as u32)
            } else {
                SystemTime::UNIX_EPOCH + Duration::new(s as u64, ns as u32)
            })
        } else {
            None
        };
        let mut w = World::default();
        w.set(QNAME, txt(&rec));
        // A fixed time hides the clock.
        let clock = if fixed { (123_456_789, 5) } else { (s, ns) };
        let got = env::with_clock(Some(clock), || env::verify(&w.resolver(), &hf(&fields), &lib, &[BODY], false));
        ch.op(3);
        match verify::compare_all(&got, &w.expect(&fields, BODY, &cfg)) {
            None => Ok(()),
            Some(m) => viol(format!("clock {s}.{ns:09} fixed {fixed} t={t:?} x={x:?} tolerance {}", cfg.tol), m),
        }
    });
    ctx.part("required and protected names", 0, &|ch| {
        let alpha = ["From", "To", "Cc", "tO"];
        let k = ch.pick(if th { 4 } else { 3 });
        let mut fs = vec![];
        for _ in 0..k {
            fs.push(f(ch.of(&alpha), " x"));
        }
        let at = ch.pick(fs.len() + 1);
        fs.insert(at, f("From", " me"));
        let m = ch.pick(if th { 4 } else { 3 });
        let mut h = vec!["from"];
        for _ in 0..m {
            h.push(*ch.of(&["From", "To", "CC", "X"]));
        }
        let lists: &[&[&str]] = &[&[], &["To"], &["cc", "TO"], &["X"], &["From", "Cc"], &["FROM"]];
        let cfg = Cfg {
            required: ch.of(lists).iter().map(|s| s.to_string()).collect(),
            forbidden: ch.of(lists).iter().map(|s| s.to_string()).collect(),
            ..Default::default()
        };
        let spec = Spec::with(ed, H::Sha256, true, false, &h, "example.com", "sel", "");
        let mut msg = signed(&spec, &fs, BODY);
        // The signature may stand elsewhere.
        if ch.flag() {
            msg.rotate_left(1);
        }
        go(ch, &rec, &msg, BODY, &cfg)
    });
    ctx.part("many occurrences", 0, &|ch| {
        let (a, b) = (1 + ch.pick(6), 1 + ch.pick(7));
        let (c, d) = (ch.pick(4), ch.pick(5));
        let mut fs: Vec<Field> = (0..a).map(|_| f("From", " me")).collect();
        fs.extend((0..c).map(|_| f("To", " you")));
        let h: Vec<&str> = std::iter::repeat("From").take(b).chain(std::iter::repeat("To").take(d)).collect();
        let spec = Spec::with(ed, H::Sha256, false, false, &h, "example.com", "sel", "");
        let cfg = Cfg {
            forbidden: if ch.flag() { vec!["To".into(), "From".into()] } else { vec!["From".into()] },
            required: if ch.flag() { vec!["To".into()] } else { vec![] },
            ..Default::default()
        };
        go(ch, &rec, &signed(&spec, &fs, BODY), BODY, &cfg)
    });
    ctx.part("very many occurrences", 0, &|ch| {
        let ns = sizes(if th { 40 } else { 12 }, if th { 300 } else { 70 });
        let a = *ch.of(&ns[1..]);
        // As many listed as there are, one fewer, one more; more names around.
        let b = (a + ch.pick(3)).saturating_sub(1);
        if b == 0 {
            ch.skip();
            return Ok(());
        }
        let other = *ch.of(&[0usize, 1, 20]);
        let name = *ch.of(&["From", "X-P"]);
        let mut fs: Vec<Field> = vec![];
        if name != "From" {
            fs.push(f("From", " me"));
        }
        fs.extend((0..a).map(|_| f(name, " v")));
        let at = ch.pick(2) * fs.len();
        fs.splice(at..at, (0..other).map(|i| f(&format!("X-{i}"), " o")));
        let mut h = vec!["From"];
        if name == "From" {
            h.clear();
        }
        h.extend(std::iter::repeat(name).take(b));
        let spec = Spec::with(ed, H::Sha256, false, false, &h, "example.com", "sel", "");
        let lists: [Vec<String>; 3] = [vec![name.into()], (0..20).map(|i| format!("X-Q{i}")).chain([name.to_uppercase()]).collect(), vec![]];
        let cfg = Cfg { forbidden: ch.of(&lists).clone(), required: ch.of(&lists[..2]).iter().filter(|n| !n.contains('Q')).cloned().collect(), ..Default::default() };
        go(ch, &rec, &signed(&spec, &fs, BODY), BODY, &cfg)
    });
    ctx.part("far down the lists", 0, &|ch| {
        // A name that comes after so many others, among the signed ones, the
        // required ones, the protected ones, or the fields.
        let ns = sizes(if th { 140 } else { 36 }, if th { 2_000 } else { 300 });
        let k = *ch.of(&ns);
        let place = ch.pick(4);
        let (after, listed, there) = (ch.flag(), ch.flag(), ch.pick(3));
        let many = |p: &str| (0..k).map(|i| format!("X-{p}{i}")).collect::<Vec<_>>();
        let mut h: Vec<String> = vec!["From".into()];
        if place == 0 {
            h.extend(many("h"));
        }
        if listed {
            h.insert(if after { h.len() } else { 0 }, "To".into());
        }
        let mut fs = vec![f("From", " me")];
        if place == 1 {
            fs.extend(many("h").iter().map(|n| f(n, " x")));
        }
        for _ in 0..there {
            fs.insert(if after { fs.len() } else { 0 }, f("tO", " you"));
        }
        let list = |on: bool| {
            let mut v = if on { many("q") } else { vec![] };
            v.insert(if after { v.len() } else { 0 }, "TO".to_string());
            v
        };
        let cfg = match place {
            2 => Cfg { forbidden: list(true), ..Default::default() },
            3 => Cfg { required: if after { vec!["from".into(); k + 1] } else { vec![] }.into_iter().chain(["to".to_string()]).collect(), ..Default::default() },
            _ => Cfg { forbidden: list(false), required: if ch.flag() { list(false) } else { vec![] }, ..Default::default() },
        };
        let h: Vec<&str> = h.iter().map(|s| s.as_str()).collect();
        let spec = Spec::with(ed, H::Sha256, true, false, &h, "example.com", "sel", "");
        go(ch, &rec, &signed(&spec, &fs, BODY), BODY, &cfg)
    });
    ctx.part("unsigned content", 0, &|ch| {
        let b = string(ch, if th { 6 } else { 5 }, &["a", " ", "\r\n"]);
        let br = ch.flag();
        let c = body::canon(br, &b);
        let l = ch.pick(c.len() + 4);
        if body::ambiguous(&b) && br {
            ch.skip();
            return Ok(());
        }
        let mut s = Spec::new(ed, true, br, n);
        if l > c.len() + 1 {
            // No limit at all.
            if l > c.len() + 2 {
                s.template = s.template.replace("bh=", "l=18446744073709551615; bh=");
            }
        } else {
            s = s.limit(l);
        }
        let cfg = Cfg { forbid_unsigned: ch.flag(), ..Default::default() };
        let fields = signed(&s, &hdr, &b);
        let mut w = World::default();
        w.set(QNAME, txt(&rec));
        let want = w.expect(&fields, &b, &cfg);
        let chunkings: Vec<Vec<&[u8]>> = vec![vec![&b], b.chunks(1).collect(), b.chunks(2).collect()];
        for cs in chunkings {
            for feed in [false, true] {
                let got = env::verify(&w.resolver(), &hf(&fields), &cfg.lib(), &cs, feed);
                ch.op(3);
                if let Some(m) = verify::compare_all(&got, &want) {
                    return viol(format!("{} {cfg:?} chunks {}", show_msg(&fields, &b), show_chunks(&cs)), m);
                }
            }
        }
        Ok(())
    });
    let content: Vec<(&str, Field)> = [
        ("no limit", Spec::new(ed, true, true, n)),
        ("all of it", Spec::new(ed, true, false, n).limit(BODY.len())),
        ("too little", Spec::new(ed, true, false, n).limit(3)),
        ("nothing", Spec::new(ed, true, true, n).limit(0)),
        ("too much", Spec::new(ed, false, true, n).limit(BODY.len() + 1)),
        ("wrong", Spec::with(ed, H::Sha256, true, true, n, "example.com", "none", "").limit(2)),
    ]
    .map(|(k, s)| (k, s.make(&hdr, BODY)))
    .to_vec();
    ctx.part("unsigned content, several signatures", if th { 2 } else { 1 }, &|ch| {
        let long = ch.flag();
        let seq: Vec<&(&str, Field)> = if long {
            let (n, most) = (5 + ch.pick(if th { 10 } else { 7 }), ch.of(&content));
            (0..n).map(|_| if ch.devflag() { ch.of(&content) } else { most }).collect()
        } else {
            let n = 1 + ch.pick(if th { 5 } else { 4 });
            (0..n).map(|_| ch.of(&content)).collect()
        };
        let cfg = Cfg { forbid_unsigned: ch.flag(), ..Default::default() };
        let mut fields: Vec<Field> = seq.iter().map(|s| s.1.clone()).collect();
        fields.extend(hdr.iter().cloned());
        go(ch, &rec, &fields, BODY, &cfg)
    });
    let rsa: Vec<_> = crate::keys::all()
        .iter()
        .filter(|k| k.is_rsa())
        .filter(|k| k.bits() >= 600)
        .map(|k| (k, signed(&Spec::new(k, true, true, n), &hdr, BODY)))
        .collect();
    ctx.part("key sizes", 0, &|ch| {
        let (k, fields) = ch.of(&rsa);
        let Pub::Rsa(p) = &k.public else { unreachable!() };
        let b = p.bits;
        let cfg = Cfg { min_bits: *ch.of(&[0, 1, 511, 512, 1023, 1024, 1025, 2048, 2049, usize::MAX, b - 1, b, b + 1, b - 8, b + 7, b + 8]), ..Default::default() };
        let r = if ch.flag() { k.record() } else { format!("p={}", k.p_pkcs1()) };
        go(ch, &r, fields, BODY, &cfg)
    });
    let ed_msg = at("");
    ctx.part("key size of other keys", 0, &|ch| {
        let cfg = Cfg { min_bits: *ch.of(&[0, 255, 256, 257, 1024, usize::MAX]), ..Default::default() };
        go(ch, &rec, &ed_msg, BODY, &cfg)
    });
    // Each combination of offences against each configuration.
    let k = key("rsa1024");
    let k2 = key("rsa1023");
    ctx.part("combinations", 0, &|ch| {
        let (expired, future, missing, extra, small, tail) = (ch.flag(), ch.flag(), ch.flag(), ch.flag(), ch.flag(), ch.flag());
        let broken = ch.pick(3);
        let (t, x) = match (expired, future) {
            (false, false) => (Some(1_000_000), Some(1_000_001)),
            (true, false) => (Some(5), Some(900_000)),
            (false, true) => (Some(2_000_000), Some(3_000_000)),
            // Only ill-formed ones are both; leave the expiry out.
            (true, true) => (None, Some(1)),
        };
        let mut fs = hdr.clone();
        if extra {
            fs.push(f("from", " another"));
        }
        let h: &[&str] = if missing { &["From"] } else { n };
        let key = if small { k2 } else { k };
        let mut s = Spec::with(key, H::Sha256, true, false, h, "example.com", "sel", &times(t, x));
        if tail {
            s = s.limit(3);
        }
        let mut msg = signed(&s, &fs, BODY);
        match broken {
            0 => {}
            1 => *msg[1].1.last_mut().unwrap() ^= 1, // From
            _ => {}
        }
        let b: &[u8] = if broken == 2 { b"hallo\r\n" } else { BODY };
        let cfg = Cfg {
            allow_expired: ch.flag(),
            allow_future: ch.flag(),
            required: if ch.flag() { vec!["To".into()] } else { vec![] },
            forbidden: if ch.flag() { vec!["From".into()] } else { vec![] },
            min_bits: if ch.flag() { 1024 } else { 0 },
            forbid_unsigned: ch.flag(),
            ..Default::default()
        };
        go(ch, &key.record(), &msg, b, &cfg)
    });
    ctx.part("defaults", 0, &|ch| {
        // The default configuration is the documented one.
        let d = viadkim::verifier::Config::default();
        ch.op(1);
        let names = |v: &[viadkim::header::FieldName]| v.iter().map(|n| n.as_ref().to_string()).collect::<Vec<_>>();
        let ok = d.lookup_timeout == Duration::from_secs(10)
            && d.max_signatures == 10
            && names(&d.headers_required_in_signature).is_empty()
            && names(&d.headers_forbidden_to_be_unsigned) == ["From"]
            && d.min_key_bits == 1024
            && !d.allow_sha1
            && !d.forbid_unsigned_content
            && !d.allow_expired
            && !d.allow_timestamp_in_future
            && d.time_tolerance == Duration::from_secs(300)
            && d.fixed_system_time.is_none();
        if !ok {
            return viol("default configuration", format!("{d:?}"));
        }
        Ok(())
    });
    ctx.note("tolerances of whole seconds only");
}
