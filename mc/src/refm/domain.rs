//! Domain names, selectors, identities.  Internationalised labels only from an
//! annotated table (RFC 5891, UTS 46 without transitional mapping).

pub struct Idn {
    pub text: &'static str,
    pub a: &'static str,
    pub u: &'static str,
}

pub const IDNS: &[Idn] = &[
    Idn { text: "中国", a: "xn--fiqs8s", u: "中国" },
    Idn { text: "xn--fiqs8s", a: "xn--fiqs8s", u: "中国" },
    Idn { text: "XN--FIQS8S", a: "xn--fiqs8s", u: "中国" },
    Idn { text: "bücher", a: "xn--bcher-kva", u: "bücher" },
    Idn { text: "BÜCHER", a: "xn--bcher-kva", u: "bücher" },
    Idn { text: "xn--bcher-kva", a: "xn--bcher-kva", u: "bücher" },
    Idn { text: "Xn--Bcher-Kva", a: "xn--bcher-kva", u: "bücher" },
    Idn { text: "é", a: "xn--9ca", u: "é" },
    Idn { text: "xn--9ca", a: "xn--9ca", u: "é" },
    Idn { text: "xn--sl-bjab", a: "xn--sl-bjab", u: "sélé" },
    Idn { text: "例え", a: "xn--r8jz45g", u: "例え" },
    Idn { text: "xn--r8jz45g", a: "xn--r8jz45g", u: "例え" },
];

fn idn(l: &str) -> Option<&'static Idn> {
    IDNS.iter().find(|i| i.text == l || (i.text.starts_with("xn--") && i.text.eq_ignore_ascii_case(l)))
}

/// RFC 3492.
fn punycode(s: &str) -> String {
    let chars: Vec<u32> = s.chars().map(|c| c as u32).collect();
    let mut out: String = s.chars().filter(|c| c.is_ascii()).collect();
    let basic = out.len() as u32;
    if basic > 0 {
        out.push('-');
    }
    let (mut n, mut delta, mut bias, mut h) = (128u32, 0u32, 72u32, basic);
    let digit = |d: u32| if d < 26 { (b'a' + d as u8) as char } else { (b'0' + (d - 26) as u8) as char };
    while (h as usize) < chars.len() {
        let m = *chars.iter().filter(|c| **c >= n).min().unwrap();
        delta += (m - n) * (h + 1);
        n = m;
        for c in &chars {
            if *c < n {
                delta += 1;
            }
            if *c == n {
                let mut q = delta;
                let mut k = 36;
                loop {
                    let t = if k <= bias { 1 } else if k >= bias + 26 { 26 } else { k - bias };
                    if q < t {
                        break;
                    }
                    out.push(digit(t + (q - t) % (36 - t)));
                    q = (q - t) / (36 - t);
                    k += 36;
                }
                out.push(digit(q));
                let mut d = if h == basic { delta / 700 } else { delta / 2 };
                d += d / (h + 1);
                let mut k = 0;
                while d > 455 {
                    d /= 35;
                    k += 36;
                }
                bias = k + 36 * d / (d + 38);
                delta = 0;
                h += 1;
            }
        }
        delta += 1;
        n += 1;
    }
    out
}

/// Non-ASCII letters that map to themselves or (upper case) to the lower-case one.
const LETTERS: &str = "éüäöβ中国例えжñ";
const UPPER: &str = "ÉÜÄÖΒЖÑ";

fn mapped(l: &str) -> Option<String> {
    let mut o = String::new();
    for c in l.chars() {
        if c.is_ascii_alphanumeric() || c == '-' || c == '_' {
            o.push(c.to_ascii_lowercase());
        } else if LETTERS.contains(c) {
            o.push(c);
        } else if UPPER.contains(c) {
            o.extend(c.to_lowercase());
        } else {
            return None;
        }
    }
    Some(o)
}

/// Whether the tables here do not tell what becomes of a character in a name
/// (mapped away, mapped to another one, or depending on the context).  White
/// space and control characters never are allowed.
pub fn open(s: &str) -> bool {
    s.chars().any(|c| {
        !c.is_ascii() && !LETTERS.contains(c) && !UPPER.contains(c) && !c.is_whitespace() && !c.is_control()
    }) && s.split('.').any(|l| !l.is_ascii() && idn(l).is_none())
}

pub fn label_a(l: &str) -> Option<String> {
    if idn(l).is_none() && !l.is_ascii() {
        let m = mapped(l)?;
        let a = format!("xn--{}", punycode(&m));
        return (a.len() <= 63 && !m.starts_with('-') && !m.ends_with('-')).then_some(a);
    }

    if let Some(i) = idn(l) {
        return Some(i.a.to_string());
    }
    let ok = !l.is_empty()
        && l.len() <= 63
        && l.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')
        && !l.starts_with('-')
        && !l.ends_with('-')
        && !l.to_ascii_lowercase().starts_with("xn--");
    ok.then(|| l.to_ascii_lowercase())
}

pub fn label_u(l: &str) -> Option<String> {
    let a = label_a(l)?;
    Some(match idn(l) {
        Some(i) => i.u.to_string(),
        None if l.is_ascii() => a,
        None => mapped(l).unwrap(),
    })
}

/// A-label form of a valid name.
pub fn to_ascii(s: &str, selector: bool) -> Option<String> {
    let ls: Option<Vec<String>> = s.split('.').map(label_a).collect();
    let ls = ls?;
    if !selector && ls.last().unwrap().bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let r = ls.join(".");
    (r.len() <= 253).then_some(r)
}

pub fn to_unicode(s: &str) -> Option<String> {
    let ls: Option<Vec<String>> = s.split('.').map(label_u).collect();
    Some(ls?.join("."))
}

pub fn same_or_sub(sub: &str, of: &str) -> bool {
    let (Some(a), Some(b)) = (to_ascii(sub, false), to_ascii(of, false)) else { return false };
    let a: Vec<&str> = a.split('.').rev().collect();
    let b: Vec<&str> = b.split('.').rev().collect();
    a.len() >= b.len() && a[..b.len()] == b[..]
}

pub fn local_part_ok(s: &str) -> bool {
    if s.len() > 64 {
        return false;
    }
    let c: Vec<char> = s.chars().collect();
    if c.first() == Some(&'"') {
        if c.len() < 2 || c[c.len() - 1] != '"' {
            return false;
        }
        let inner = &c[1..c.len() - 1];
        let mut i = 0;
        while i < inner.len() {
            match inner[i] {
                '\\' => {
                    i += 1;
                    if i >= inner.len() || !(' '..='~').contains(&inner[i]) {
                        return false;
                    }
                }
                '"' => return false,
                x if x.is_ascii_control() => return false,
                _ => {}
            }
            i += 1;
        }
        true
    } else {
        let t: String = c.iter().collect();
        t.split('.').all(|a| {
            !a.is_empty()
                && a.chars().all(|x| {
                    !x.is_ascii() || x.is_ascii_alphanumeric() || "!#$%&'*+-/=?^_`{|}~".contains(x)
                })
        })
    }
}

/// (local part, domain)
pub fn identity(s: &str) -> Option<(Option<String>, String)> {
    let at = s.rfind('@')?;
    let (l, d) = (&s[..at], &s[at + 1..]);
    to_ascii(d, false)?;
    if l.is_empty() {
        return Some((None, d.to_string()));
    }
    local_part_ok(l).then(|| (Some(l.to_string()), d.to_string()))
}
