//! RFC 6376, section 2.11 (DKIM-Quoted-Printable) with UTF-8 literals.

fn hex(b: u8) -> Option<u8> {
    (b as char).to_digit(16).map(|d| d as u8)
}

/// Length of one FWS at the start.
fn fws(s: &[u8]) -> usize {
    let w = |s: &[u8]| s.iter().take_while(|b| **b == b' ' || **b == b'\t').count();
    let a = w(s);
    if s[a..].starts_with(b"\r\n") {
        let b = w(&s[a + 2..]);
        if b > 0 {
            return a + 2 + b;
        }
    }
    a
}

pub fn decode(s: &str) -> Option<Vec<u8>> {
    let s = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let mut after_fws = false;
    while i < s.len() {
        let n = fws(&s[i..]);
        if n > 0 {
            if after_fws {
                return None;
            }
            after_fws = true;
            i += n;
            continue;
        }
        after_fws = false;
        match s[i] {
            b'=' => {
                i += 1;
                let mut v = 0;
                for _ in 0..2 {
                    i += fws(&s[i..]);
                    v = v * 16 + hex(*s.get(i)?)?;
                    i += 1;
                }
                out.push(v);
            }
            b if b == b';' || b < 33 || b == 127 => return None,
            b => {
                out.push(b);
                i += 1;
            }
        }
    }
    Some(out)
}

/// RFC 2045 qp-section over the same literals.
pub fn decode_section(s: &str) -> Option<Vec<u8>> {
    let s = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    while i < s.len() {
        match s[i] {
            b'=' => {
                out.push(hex(*s.get(i + 1)?)? * 16 + hex(*s.get(i + 2)?)?);
                i += 3;
            }
            b' ' | b'\t' => {
                out.push(s[i]);
                i += 1;
            }
            b if b == b';' || b < 33 || b == 127 => return None,
            b => {
                out.push(b);
                i += 1;
            }
        }
    }
    Some(out)
}

pub fn encode(bytes: &[u8], special: Option<char>, ascii: bool) -> String {
    let mut i = 0;
    let mut res = String::new();
    while i < bytes.len() {
        // One character, or one byte that starts none.
        let mut n = 1;
        let mut c = None;
        for k in 1..=4.min(bytes.len() - i) {
            if let Ok(t) = std::str::from_utf8(&bytes[i..i + k]) {
                c = t.chars().next();
                n = k;
                break;
            }
        }
        let plain = match c {
            None => false,
            Some(c) if special == Some(c) => false,
            Some(c) if c.is_ascii() => c.is_ascii_graphic() && c != ';' && c != '=',
            Some(_) => !ascii,
        };
        if plain {
            res.push(c.unwrap());
        } else {
            for b in &bytes[i..i + n] {
                res.push_str(&format!("={b:02X}"));
            }
        }
        i += n;
    }
    res
}
