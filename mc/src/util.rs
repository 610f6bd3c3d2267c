use crate::explore::Ch;

pub fn show(b: &[u8]) -> String {
    let mut s = String::new();
    // Long runs are abbreviated.
    let mut i = 0;
    while i < b.len() {
        let one = |c: u8| -> String { c.escape_ascii().to_string() };
        let mut n = 1;
        while i + n < b.len() && b[i + n] == b[i] {
            n += 1;
        }
        if n > 8 {
            s.push_str(&format!("<{}x{}>", one(b[i]), n));
            i += n;
            continue;
        }
        let mut m = 0;
        if i + 1 < b.len() {
            m = 1;
            while i + 2 * m + 1 < b.len() && b[i + 2 * m] == b[i] && b[i + 2 * m + 1] == b[i + 1] {
                m += 1;
            }
        }
        if m > 8 {
            s.push_str(&format!("<{}{}x{}>", one(b[i]), one(b[i + 1]), m));
            i += 2 * m;
            continue;
        }
        s.push_str(&one(b[i]));
        i += 1;
    }
    s
}

/// Splits `b` into consecutive chunks at every position the chooser says.
/// `empties`: a cut may also carry an empty chunk.
pub fn chunks<'a>(ch: &mut Ch, b: &'a [u8], empties: bool) -> Vec<&'a [u8]> {
    let mut out = vec![];
    let mut start = 0;
    if empties && ch.flag() {
        out.push(&b[..0]);
    }
    for i in 1..b.len() {
        match ch.pick(if empties { 3 } else { 2 }) {
            0 => {}
            1 => {
                out.push(&b[start..i]);
                start = i;
            }
            _ => {
                out.push(&b[start..i]);
                out.push(&b[i..i]);
                start = i;
            }
        }
    }
    if start < b.len() {
        out.push(&b[start..]);
    }
    if empties && !b.is_empty() && ch.flag() {
        out.push(&b[..0]);
    }
    out
}

/// Like `chunks`, but cuts are deviations (at most the budget of them).
pub fn dev_chunks<'a>(ch: &mut Ch, b: &'a [u8]) -> Vec<&'a [u8]> {
    let mut out = vec![];
    let mut start = 0;
    for i in 1..b.len() {
        if ch.devflag() {
            out.push(&b[start..i]);
            start = i;
        }
    }
    if start < b.len() {
        out.push(&b[start..]);
    }
    out
}

/// One of a fixed set of chunkings of a longer body: whole, bytewise, one cut
/// at each position.
pub fn one_cut<'a>(ch: &mut Ch, b: &'a [u8]) -> Vec<&'a [u8]> {
    if b.is_empty() {
        return match ch.pick(2) {
            0 => vec![],
            _ => vec![b],
        };
    }
    let n = ch.pick(b.len() + 1);
    match n {
        0 => vec![b],
        n if n == b.len() => b.chunks(1).collect(),
        n => vec![&b[..n], &b[n..]],
    }
}

pub fn show_chunks(c: &[&[u8]]) -> String {
    let v: Vec<String> = c.iter().map(|c| format!("\"{}\"", show(c))).collect();
    format!("[{}]", v.join(","))
}

/// A string over an alphabet, simplest first: length 0..=max, then symbols.
pub fn string<T: AsRef<[u8]>>(ch: &mut Ch, max: usize, alphabet: &[T]) -> Vec<u8> {
    let n = ch.pick(max + 1);
    let mut v = vec![];
    for _ in 0..n {
        v.extend(ch.of(alphabet).as_ref());
    }
    v
}

pub fn string_min<T: AsRef<[u8]>>(ch: &mut Ch, min: usize, max: usize, alphabet: &[T]) -> Vec<u8> {
    let n = min + ch.pick(max - min + 1);
    let mut v = vec![];
    for _ in 0..n {
        v.extend(ch.of(alphabet).as_ref());
    }
    v
}

/// Sizes of things: all small ones, and those around powers of two and other
/// customary limits.
pub fn sizes(dense: usize, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=dense).collect();
    let mut n = 1;
    while n <= max {
        v.extend([n - 1, n, n + 1]);
        n *= 2;
    }
    for n in [72, 78, 100, 253, 998, 1000, 10_000, 100_000] {
        v.extend([n - 1, n, n + 1]);
    }
    v.retain(|n| *n <= max);
    v.sort();
    v.dedup();
    v
}

/// All ASCII characters and others likely to be taken for something they are
/// not: white space, digits, letters and punctuation beyond ASCII.
pub fn odd_chars() -> Vec<char> {
    let more = "\u{80}\u{85}\u{a0}\u{ad}\u{130}\u{17f}\u{212a}\u{300}\u{661}\u{1680}\u{2003}\u{200b}\u{2028}\u{202f}\u{3000}\u{feff}\u{ff11}\u{ff1a}\u{ff1b}\u{ff1d}\u{10ffff}";
    (0..128u32).filter_map(char::from_u32).chain(more.chars()).collect()
}
