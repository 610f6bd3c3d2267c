//! C17: domain, selector and identity names.

use crate::{
    ctx::Ctx,
    explore::{viol, Ch, Viol},
    refm::domain::{self, IDNS},
    util::*,
};
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};
use viadkim::signature::{DkimSignature, DkimSignatureErrorKind as SK, DomainName, Identity, Selector};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// One name against the reference, as a domain and as a selector.
fn name(ch: &mut Ch, s: &str) -> Result<(), Viol> {
    let key = || format!("name \"{s}\"");
    let (wd, ws) = (domain::to_ascii(s, false), domain::to_ascii(s, true));
    ch.describe(|| format!("{s:?} domain {wd:?} selector {ws:?}"));
    let d = DomainName::new(s);
    let d2 = s.parse::<DomainName>();
    let e = Selector::new(s);
    let e2 = s.parse::<Selector>();
    ch.op(4);
    if d != d2 || e != e2 {
        return viol(key(), "new and from_str differ");
    }
    ch.label(match (&wd, &ws) {
        (Some(_), _) => "domain",
        (None, Some(_)) => "selector only",
        _ => "no name",
    });
    match (&d, &wd) {
        (Err(_), None) => {}
        (Ok(_), None) => return viol(key(), "accepted as a domain name"),
        (Err(_), Some(_)) => return viol(key(), "refused as a domain name"),
        (Ok(d), Some(w)) => {
            if d.as_ref() != s || d.to_string() != s {
                return viol(key(), format!("spelling changed to {d}"));
            }
            let u = domain::to_unicode(s).unwrap();
            if d.to_ascii() != *w || d.to_unicode() != u {
                return viol(key(), format!("forms {} {}, expected {w} {u}", d.to_ascii(), d.to_unicode()));
            }
            ch.op(2);
            // Both forms are names again, and equivalent.
            for t in [w.as_str(), u.as_str()] {
                let Ok(t2) = DomainName::new(t) else { return viol(key(), format!("form {t} is no domain name")) };
                if t2.to_ascii() != *w || t2.to_unicode() != u || !t2.eq_or_subdomain_of(d) || !d.eq_or_subdomain_of(&t2) {
                    return viol(key(), format!("form {t} is not equivalent"));
                }
                ch.op(5);
            }
        }
    }
    match (&e, &ws) {
        (Err(_), None) => {}
        (Ok(_), None) => return viol(key(), "accepted as a selector"),
        (Err(_), Some(_)) => return viol(key(), "refused as a selector"),
        (Ok(e), Some(w)) => {
            let u = domain::to_unicode(s).unwrap();
            if e.as_ref() != s || e.to_string() != s || e.to_ascii() != *w || e.to_unicode() != u {
                return viol(key(), format!("selector {e}: forms {} {}, expected {w} {u}", e.to_ascii(), e.to_unicode()));
            }
        }
    }
    Ok(())
}

fn ident(ch: &mut Ch, s: &str) -> Result<(), Viol> {
    let key = || format!("identity {s:?}");
    let want = domain::identity(s);
    let got = Identity::new(s);
    ch.op(2);
    if got != s.parse::<Identity>() {
        return viol(key(), "new and from_str differ");
    }
    ch.label(match &want {
        None => "no identity",
        Some((None, _)) => "domain only",
        Some((Some(l), _)) if l.starts_with('"') => "quoted local part",
        _ => "local part",
    });
    ch.describe(|| format!("{s:?} -> {want:?}"));
    match (got, want) {
        (Err(_), None) => Ok(()),
        (Ok(g), Some((l, d))) => {
            if g.local_part.as_deref() != l.as_deref() || g.domain.as_ref() != d || g.to_string() != s {
                return viol(key(), format!("read as {:?} at {}", g.local_part, g.domain));
            }
            Ok(())
        }
        (Ok(_), None) => viol(key(), "accepted"),
        (Err(_), Some(_)) => viol(key(), "refused"),
    }
}

/// All names of 1..=max labels that are domain names.
fn names(labels: &[&str], max: usize) -> Vec<(String, DomainName)> {
    let mut v: Vec<String> = vec![];
    let mut level: Vec<String> = vec![String::new()];
    for _ in 0..max {
        let mut next = vec![];
        for p in &level {
            for l in labels {
                next.push(if p.is_empty() { l.to_string() } else { format!("{l}.{p}") });
            }
        }
        v.extend(next.iter().cloned());
        level = next;
    }
    v.into_iter()
        .filter(|s| domain::to_ascii(s, false).is_some())
        .map(|s| {
            let d = DomainName::new(s.as_str()).unwrap_or_else(|_| panic!("domain name {s} refused"));
            (s, d)
        })
        .collect()
}

/// The relations between two names.
fn pair(ch: &mut Ch, a: &(String, DomainName), b: &(String, DomainName)) -> Result<(), Viol> {
    let key = || format!("{} and {}", a.0, b.0);
    ch.describe(key);
    let want = domain::same_or_sub(&a.0, &b.0);
    ch.label(if want { "same or sub" } else { "unrelated" });
    if a.1.eq_or_subdomain_of(&b.1) != want {
        return viol(key(), format!("equal or subdomain: expected {want}"));
    }
    let same = a.0.eq_ignore_ascii_case(&b.0);
    if (a.1 == b.1) != same {
        return viol(key(), format!("same spelling: expected {same}"));
    }
    if same && hash(&a.1) != hash(&b.1) {
        return viol(key(), "equal names hash differently");
    }
    ch.op(2);
    Ok(())
}

pub fn run(ctx: &mut Ctx) {
    let th = ctx.thorough;
    let alpha = ["a", "Z", "7", "-", ".", "_", "é", "@", " "];
    ctx.part("short strings", 0, &|ch| {
        let s = String::from_utf8(string(ch, if th { 8 } else { 7 }, &alpha)).unwrap();
        // Hyphens next to non-ASCII letters are left to IDNA.
        if s.split('.').any(|l| !l.is_ascii() && (l.starts_with('-') || l.ends_with('-'))) {
            ch.skip();
            return Ok(());
        }
        name(ch, &s)
    });
    ctx.part("every ASCII character", 0, &|ch| {
        let c = ch.pick(128) as u8 as char;
        let t = ch.of(&["?", "a?", "?a", "a?b", "a.?", "?.a", "a.b?c.d", "a?.b", "a.?b", "é?é", "a.b?", "xn--9ca.?"]);
        let s = t.replace('?', &c.to_string());
        name(ch, &s)
    });
    let mut labels: Vec<&str> = IDNS.iter().map(|i| i.text).collect();
    labels.extend(["a", "B9", "9", "0_", "-", "a-", "-a", "a--b", "xn--", "xn--a-ecp.b-", "", "É", "Жñ", "_domainkey"]);
    ctx.part("labels", 0, &|ch| {
        let n = 1 + ch.pick(if th { 4 } else { 3 });
        let v: Vec<&str> = (0..n).map(|_| *ch.of(&labels)).collect();
        name(ch, &v.join("."))
    });
    ctx.part("lengths", 0, &|ch| {
        let unit = *ch.of(&["a", "Z", "_", "é", "中", "aé", "bü"]);
        let n = 1 + ch.pick(70);
        let l = unit.repeat(n);
        let s = match ch.pick(5) {
            0 => l,
            1 => format!("{l}.b"),
            2 => format!("b.{l}"),
            3 => format!("b.{l}.c"),
            _ => format!("{l}.{l}"),
        };
        name(ch, &s)
    });
    ctx.part("total lengths", 0, &|ch| {
        // Labels of a few lengths, up to a total around the limit.
        let total = 245 + ch.pick(16);
        let w = *ch.of(&[1usize, 2, 9, 31, 61, 62, 63]);
        let unit = *ch.of(&["a", "é"]);
        let mut s = String::new();
        let mut a_len = 0;
        while a_len < total {
            if !s.is_empty() {
                s.push('.');
                a_len += 1;
            }
            let left = total - a_len;
            let n = if left <= w { left } else if left == w + 1 { w.max(2) - 1 } else { w };
            if unit == "é" && s.is_empty() && n > 7 {
                // One non-ASCII label in front.
                let l = format!("{}é", "b".repeat(n - 8));
                a_len += domain::label_a(&l).map_or(l.len(), |a| a.len());
                s.push_str(&l);
            } else {
                s.push_str(&"a".repeat(n.max(1)));
                a_len += n.max(1);
            }
        }
        name(ch, &s)
    });
    let colliding: &[&str] = &["a", "A", "b", "ab", "ba", "aa", "é", "xn--9ca", "É", "XN--9CA"];
    let ns = names(colliding, 3);
    ctx.part("pairs", 0, &|ch| {
        let a = ch.of(&ns);
        let b = ch.of(&ns);
        pair(ch, a, b)
    });
    let deep = names(&["a", "b", "aa"], if th { 7 } else { 6 });
    ctx.part("pairs of deep names", 0, &|ch| {
        let a = ch.of(&deep);
        let b = ch.of(&deep);
        pair(ch, a, b)
    });
    let idn = names(&["bücher", "BÜCHER", "xn--bcher-kva", "Xn--Bcher-Kva", "bucher", "xn--fiqs8s", "中国", "com", "kva"], 3);
    ctx.part("pairs of international names", 0, &|ch| {
        let a = ch.of(&idn);
        let b = ch.of(&idn);
        pair(ch, a, b)
    });
    ctx.part("pairs with every character", 0, &|ch| {
        // Two names that share much, with any permitted characters at places.
        let chars: Vec<char> = (0..128u8).map(|b| b as char).filter(|c| c.is_ascii_alphanumeric() || matches!(c, '-' | '_' | '.')).chain("éüÉ中".chars()).collect();
        let c = *ch.of(&chars);
        let e = *ch.of(&chars);
        let (x, y) = *ch.of(&[
            ("a?1b.com", "a?2b.com"), ("a?1b.com", "b.com"), ("?1b.com", "?2b.com"), ("a?1b.com", "?2b.com"), ("aa?1.b.com", "a?2.b.com"), ("x.a?1b.c?2", "a?1b.c?2"),
            ("a?1a?2a", "a?2a"), ("a?1a?2a", "a?1a"), ("a.b.c?1m", "b.c?2m"), ("?1.?2.c", "?2.c"), ("?1?2", "?2"), ("?1?2.c", "?2?1.c"),
        ]);
        let put = |t: &str| t.replace("?1", &c.to_string()).replace("?2", &e.to_string());
        let (x, y) = (put(x), put(y));
        if domain::to_ascii(&x, false).is_none() || domain::to_ascii(&y, false).is_none() || [&x, &y].iter().any(|s| !s.is_ascii() && s.contains('-')) {
            ch.skip();
            return Ok(());
        }
        let d = |s: &String| (s.clone(), DomainName::new(s.as_str()).unwrap_or_else(|_| panic!("domain name {s} refused")));
        pair(ch, &d(&x), &d(&y))
    });
    ctx.part("pairs of long names", 0, &|ch| {
        let n = 1 + ch.pick(126);
        let cut = 1 + ch.pick(n);
        let unit = *ch.of(&["a", "ab", "é"]);
        let long = vec![unit; n].join(".");
        let other = match ch.pick(5) {
            0 => vec![unit; cut].join("."),
            1 => format!("b{}", vec![unit; cut].join(".")),
            2 => vec![unit; cut].join(".").to_uppercase(),
            3 => format!("{}.b", vec![unit; cut].join(".")),
            _ => vec![unit; cut].join("."). chars().skip(1).collect(),
        };
        if domain::to_ascii(&long, false).is_none() || domain::to_ascii(&other, false).is_none() {
            ch.skip();
            return Ok(());
        }
        let d = |s: &String| (s.clone(), DomainName::new(s.as_str()).unwrap_or_else(|_| panic!("domain name {s} refused")));
        pair(ch, &d(&long), &d(&other))?;
        pair(ch, &d(&other), &d(&long))
    });
    ctx.part("selectors with every character", 0, &|ch| {
        let ok = |c: &char| c.is_ascii_alphanumeric() || *c == '_' || *c == '-';
        let chars: Vec<char> = (0..128u8).map(|b| b as char).filter(ok).collect();
        let (c, e) = (*ch.of(&chars), *ch.of(&chars));
        let t = *ch.of(&["a?b", "a.b?c.d"]);
        let (x, y) = (t.replace('?', &c.to_string()), t.replace('?', &e.to_string()));
        let s = |x: &str| Selector::new(x).unwrap_or_else(|_| panic!("selector {x} refused"));
        let (a, b) = (s(&x), s(&y));
        ch.op(1);
        let same = x.eq_ignore_ascii_case(&y);
        if (a == b) != same || (same && hash(&a) != hash(&b)) || a.to_ascii() != x.to_ascii_lowercase() {
            return viol(format!("selectors {x} and {y}"), format!("same spelling: expected {same}; A-label form {}", a.to_ascii()));
        }
        Ok(())
    });
    let sels: Vec<(String, Selector)> = ["a", "A", "a.b", "A.b", "a.B", "ab", "1", "é", "É", "xn--9ca", "XN--9CA", "中国", "xn--fiqs8s"]
        .iter()
        .map(|s| (s.to_string(), Selector::new(*s).expect("selector refused")))
        .collect();
    ctx.part("pairs of selectors", 0, &|ch| {
        let a = ch.of(&sels);
        let b = ch.of(&sels);
        ch.op(1);
        let same = a.0.eq_ignore_ascii_case(&b.0);
        if (a.1 == b.1) != same || (same && hash(&a.1) != hash(&b.1)) {
            return viol(format!("selectors {} and {}", a.0, b.0), format!("same spelling: expected {same}"));
        }
        Ok(())
    });
    // The relation as signatures see it.
    let small = names(&["a", "B", "ba", "é", "xn--9ca"], 3);
    ctx.part("identities in signatures", 0, &|ch| {
        let d = ch.of(&small);
        let i = ch.of(&small);
        let l = *ch.of(&["", "a"]);
        let v = format!("v=1; a=ed25519-sha256; d={}; s=s; h=From; bh=AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA=; b=YQ==; i={l}@{}", d.0, i.0);
        let got = v.parse::<DkimSignature>();
        ch.op(1);
        let want = domain::same_or_sub(&i.0, &d.0);
        ch.label(if want { "matching" } else { "mismatch" });
        ch.describe(|| v.clone());
        match got {
            Ok(s) if want => {
                let id = s.identity.as_ref().unwrap();
                if s.domain.as_ref() != d.0 || id.domain.as_ref() != i.0 || id.local_part.as_deref().unwrap_or("") != l {
                    return viol(v, format!("domain {}, identity {id}", s.domain));
                }
                Ok(())
            }
            Err(e) if !want && e.kind == SK::DomainMismatch => Ok(()),
            Ok(_) => viol(v, "accepted, the domains do not match"),
            Err(e) => viol(v, format!("rejected with {:?}, matching: {want}", e.kind)),
        }
    });
    ctx.part("short identities", 0, &|ch| {
        let s = string(ch, if th { 8 } else { 7 }, &["a", ".", "@", "\"", "\\", " ", "é", "\t"]);
        ident(ch, &String::from_utf8(s).unwrap())
    });
    ctx.part("identities at a domain", 0, &|ch| {
        let l = string(ch, if th { 8 } else { 7 }, &["a", ".", "@", "\"", "\\", " ", "é"]);
        ident(ch, &format!("{}@x.org", String::from_utf8(l).unwrap()))
    });
    ctx.part("characters of local parts", 0, &|ch| {
        let c = match ch.pick(131) {
            128 => 'é',
            129 => '\u{85}',
            130 => '中',
            c => c as u8 as char,
        };
        let t = ch.of(&["?", "a?", "?a", "a?b", "a.?", "\"?\"", "\"\\?\"", "\"a?\"", "\"\\a?\"", "a\"?\"", "\"a\"?"]);
        let d = ch.of(&["a.b", "é.b", "1", "", "a..b"]);
        ident(ch, &format!("{}@{d}", t.replace('?', &c.to_string())))
    });
    ctx.part("lengths of local parts", 0, &|ch| {
        let n = 55 + ch.pick(15);
        let l = match ch.pick(6) {
            0 => "a".repeat(n),
            1 => format!("\"{}\"", " ".repeat(n - 2)),
            2 => format!("\"{}\"", "\\\"".repeat(n / 2 - 1)),
            3 => format!("{}é", "a".repeat(n - 2)),
            4 => format!("a{}", ".a".repeat(n / 2)),
            _ => "中".repeat(n / 3),
        };
        ident(ch, &format!("{l}@a.b"))
    });
    ctx.part("identities of domains", 0, &|ch| {
        let d = ch.of(&small);
        let i = Identity::from_domain(d.1.clone());
        ch.op(1);
        if i.local_part.is_some() || i.domain.as_ref() != d.0 || i.to_string() != format!("@{}", d.0) || Identity::new(&i.to_string()) != Ok(i.clone()) {
            return viol(format!("identity of {}", d.0), format!("{i}"));
        }
        Ok(())
    });
    ctx.note("IDNA labels come from a table of letters with known mappings; other Unicode is not explored");
}
