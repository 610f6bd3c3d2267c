//! RFC 6376, section 3.2: tag lists (with UTF-8 in values, RFC 8616).

#[derive(Debug, Clone, PartialEq)]
pub enum Tl {
    Ok(Vec<(String, String)>),
    Bad,
    /// Several folds in one run of white space: allowed by the letter of the
    /// grammar between words of a value only, never occurs in a header field.
    Unspecified,
}

pub fn is_ws(c: char) -> bool {
    matches!(c, ' ' | '\t' | '\r' | '\n')
}

#[derive(Debug, Clone, Copy, PartialEq)]
enum Ws {
    None,
    Fws,
    Multi,
    Bad,
}

fn ws(run: &str) -> Ws {
    if run.is_empty() {
        return Ws::None;
    }
    let lines: Vec<&str> = run.split("\r\n").collect();
    if lines.iter().any(|l| l.contains(['\r', '\n'])) {
        return Ws::Bad;
    }
    // Every line but the first one needs WSP (that is what makes it a continuation).
    if lines[1..].iter().any(|l| l.is_empty()) {
        return Ws::Bad;
    }
    if lines.len() <= 2 {
        Ws::Fws
    } else {
        Ws::Multi
    }
}

/// The single optional FWS around something; None if there is something else.
fn around(s: &str) -> Option<(Ws, &str, Ws)> {
    let core = s.trim_matches(is_ws);
    if core.is_empty() {
        return Some((ws(s), core, Ws::None));
    }
    let a = s.find(core).unwrap();
    let lead = ws(&s[..a]);
    let trail = ws(&s[a + core.len()..]);
    (lead != Ws::Bad && trail != Ws::Bad).then_some((lead, core, trail))
}

pub fn is_name(s: &str) -> bool {
    let mut it = s.bytes();
    it.next().map_or(false, |b| b.is_ascii_alphabetic()) && it.all(|b| b.is_ascii_alphanumeric() || b == b'_')
}

fn words(v: &str) -> Option<Ws> {
    // The white-space runs between the words of a value.
    let mut worst = Ws::None;
    let mut run = String::new();
    for c in v.chars() {
        if is_ws(c) {
            run.push(c);
        } else {
            match ws(&run) {
                Ws::Bad => return None,
                Ws::Multi => worst = Ws::Multi,
                _ => {}
            }
            run.clear();
            if c == ';' || c.is_ascii_control() {
                return None;
            }
        }
    }
    Some(worst)
}

pub fn parse(s: &str) -> Tl {
    let mut pieces: Vec<&str> = s.split(';').collect();
    if pieces.len() > 1 && pieces.last() == Some(&"") {
        pieces.pop();
    }
    let mut out: Vec<(String, String)> = vec![];
    let mut unspecified = false;
    for p in pieces {
        let Some((l, r)) = p.split_once('=') else { return Tl::Bad };
        let Some((a, name, b)) = around(l) else { return Tl::Bad };
        if !is_name(name) || a == Ws::Multi || b == Ws::Multi || a == Ws::Bad {
            return Tl::Bad;
        }
        let Some((a, value, b)) = around(r) else { return Tl::Bad };
        if value.is_empty() {
            match a {
                Ws::Bad => return Tl::Bad,
                Ws::Multi => unspecified = true,
                _ => {}
            }
        } else {
            if a == Ws::Multi || b == Ws::Multi {
                return Tl::Bad;
            }
            match words(value) {
                None => return Tl::Bad,
                Some(Ws::Multi) => unspecified = true,
                _ => {}
            }
        }
        out.push((name.to_string(), value.to_string()));
    }
    for i in 0..out.len() {
        if out[..i].iter().any(|t| t.0 == out[i].0) {
            return Tl::Bad;
        }
    }
    if unspecified {
        Tl::Unspecified
    } else {
        Tl::Ok(out)
    }
}

/// Is this a complete value by itself (no surrounding white space)?
pub fn is_value(s: &str) -> bool {
    s.is_empty() || (s.trim_matches(is_ws) == s && matches!(words(s), Some(Ws::None | Ws::Fws)))
}

/// Items of a colon-separated list with FWS around them removed.
pub fn colon_list(v: &str) -> Vec<String> {
    v.split(':').map(|x| x.trim_matches(is_ws).to_string()).collect()
}

#[derive(Debug, Clone, PartialEq)]
pub enum B64 {
    Ok(Vec<u8>),
    Bad,
    /// Unused bits of the last character are not zero.
    Unspecified,
}

pub fn base64(v: &str) -> B64 {
    let t: Vec<u8> = v.bytes().filter(|b| !is_ws(*b as char)).collect();
    if t.len() % 4 != 0 {
        return B64::Bad;
    }
    let pad = t.iter().rev().take_while(|b| **b == b'=').count();
    if pad > 2 {
        return B64::Bad;
    }
    let body = &t[..t.len() - pad];
    let mut bits = 0u32;
    let mut n = 0;
    let mut out = vec![];
    for b in body {
        let x = match b {
            b'A'..=b'Z' => b - b'A',
            b'a'..=b'z' => b - b'a' + 26,
            b'0'..=b'9' => b - b'0' + 52,
            b'+' => 62,
            b'/' => 63,
            _ => return B64::Bad,
        };
        bits = (bits << 6 | x as u32) & 0xff_ffff;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((bits >> n) as u8);
        }
    }
    if bits & ((1 << n) - 1) != 0 {
        return B64::Unspecified;
    }
    B64::Ok(out)
}
