//! Header fields and header blocks (RFC 5322, as the library documents them).

use super::header::Field;

pub fn name_ok(n: &[u8]) -> bool {
    !n.is_empty() && n.iter().all(|b| (33..=126).contains(b) && *b != b':')
}

/// A field body is valid: no control characters but HTAB, line breaks are
/// CRLF, each followed by white space and something else.
pub fn body_ok(v: &[u8]) -> bool {
    let mut lines: Vec<Vec<u8>> = vec![vec![]];
    let mut i = 0;
    while i < v.len() {
        if v[i] == b'\r' && v.get(i + 1) == Some(&b'\n') {
            lines.push(vec![]);
            i += 2;
        } else {
            lines.last_mut().unwrap().push(v[i]);
            i += 1;
        }
    }
    let wsp = |b: u8| b == b' ' || b == b'\t';
    lines.iter().enumerate().all(|(i, l)| {
        l.iter().all(|b| *b == b'\t' || (*b >= 32 && *b != 127))
            && (i == 0 || (!l.is_empty() && wsp(l[0]) && !l.iter().all(|b| wsp(*b))))
    })
}

/// A header block, with CRLF or LF at line ends.
pub fn block(text: &[u8]) -> Option<Vec<Field>> {
    let mut lines: Vec<&[u8]> = text.split(|b| *b == b'\n').collect();
    let terminated = lines.last() == Some(&&b""[..]);
    if terminated {
        lines.pop();
    }
    let n = lines.len();
    let mut out: Vec<Field> = vec![];
    for (i, l) in lines.into_iter().enumerate() {
        // A CR belongs to the line end only in front of LF.
        let l = if i + 1 < n || terminated { l.strip_suffix(b"\r").unwrap_or(l) } else { l };
        if l.first().map_or(false, |b| *b == b' ' || *b == b'\t') {
            let (_, v) = out.last_mut()?;
            v.extend(b"\r\n");
            v.extend(l);
        } else {
            let c = l.iter().position(|b| *b == b':')?;
            if !name_ok(&l[..c]) {
                return None;
            }
            out.push((String::from_utf8(l[..c].to_vec()).ok()?, l[c + 1..].to_vec()));
        }
    }
    (!out.is_empty() && out.iter().all(|(_, v)| body_ok(v))).then_some(out)
}
