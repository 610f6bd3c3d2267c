//! RFC 6376, section 3.4.3 and 3.4.4, for a whole body.

fn lines(body: &[u8]) -> (Vec<Vec<u8>>, bool) {
    // Splits at CRLF only. Returns the lines and whether the last one was terminated.
    let mut out = vec![];
    let mut cur = vec![];
    let mut i = 0;
    while i < body.len() {
        if body[i] == b'\r' && i + 1 < body.len() && body[i + 1] == b'\n' {
            out.push(std::mem::take(&mut cur));
            i += 2;
        } else {
            cur.push(body[i]);
            i += 1;
        }
    }
    if cur.is_empty() {
        (out, true)
    } else {
        out.push(cur);
        (out, false)
    }
}

pub fn simple(body: &[u8]) -> Vec<u8> {
    let (mut ls, _) = lines(body);
    while ls.last().map_or(false, |l| l.is_empty()) {
        ls.pop();
    }
    if ls.is_empty() {
        return b"\r\n".to_vec();
    }
    let mut out = vec![];
    for l in ls {
        out.extend(l);
        out.extend(b"\r\n");
    }
    out
}

pub fn relaxed(body: &[u8]) -> Vec<u8> {
    let (ls, _) = lines(body);
    let mut ls: Vec<Vec<u8>> = ls
        .into_iter()
        .map(|l| {
            let mut o: Vec<u8> = vec![];
            for b in l {
                if b == b' ' || b == b'\t' {
                    if o.last() != Some(&b' ') {
                        o.push(b' ');
                    }
                } else {
                    o.push(b);
                }
            }
            if o.last() == Some(&b' ') {
                o.pop();
            }
            o
        })
        .collect();
    while ls.last().map_or(false, |l| l.is_empty()) {
        ls.pop();
    }
    let mut out = vec![];
    for l in ls {
        out.extend(l);
        out.extend(b"\r\n");
    }
    out
}

/// RFC 6376 does not say whether a last line of only white space that has no
/// line terminator is an empty line: then further results are acceptable.
pub fn relaxed_also(body: &[u8], got: &[u8]) -> bool {
    let (ls, terminated) = lines(body);
    let blank = |l: &Vec<u8>| l.iter().all(|b| *b == b' ' || *b == b'\t');
    if terminated || !ls.last().map_or(false, blank) {
        return false;
    }
    // The line counts as non-empty: it ends up as CRLF, keeping or not keeping
    // the empty lines before it.
    let base = relaxed(body);
    let n = ls.iter().rev().take_while(|l| blank(l)).count();
    let Some(rest) = got.strip_prefix(&base[..]) else { return false };
    rest.len() % 2 == 0
        && rest.chunks(2).all(|c| c == b"\r\n")
        && (1..=n).contains(&(rest.len() / 2))
}

pub fn canon(is_relaxed: bool, body: &[u8]) -> Vec<u8> {
    if is_relaxed {
        relaxed(body)
    } else {
        simple(body)
    }
}

/// A last line of only white space without a line terminator: see above.
pub fn ambiguous(body: &[u8]) -> bool {
    let (ls, terminated) = lines(body);
    !terminated && ls.last().map_or(false, |l| l.iter().all(|b| *b == b' ' || *b == b'\t'))
}
