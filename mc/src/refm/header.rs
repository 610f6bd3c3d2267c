//! RFC 6376, section 3.4.1, 3.4.2, 3.7, 5.4.2.

pub type Field = (String, Vec<u8>);

pub fn relaxed_value(v: &[u8]) -> Vec<u8> {
    // Unfold, collapse, trim.
    let mut s = vec![];
    for b in v {
        match b {
            b'\r' | b'\n' => {}
            b'\t' => s.push(b' '),
            b => s.push(*b),
        }
    }
    let words: Vec<&[u8]> = s.split(|b| *b == b' ').filter(|w| !w.is_empty()).collect();
    words.join(&b' ')
}

pub fn canon_field(is_relaxed: bool, name: &str, value: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    if is_relaxed {
        o.extend(name.bytes().map(|b| b.to_ascii_lowercase()));
        o.push(b':');
        o.extend(relaxed_value(value));
    } else {
        o.extend(name.bytes());
        o.push(b':');
        o.extend(value);
    }
    o
}

pub fn same_name(a: &str, b: &str) -> bool {
    let l = |s: &str| s.bytes().map(|b| b.to_ascii_lowercase()).collect::<Vec<_>>();
    l(a) == l(b)
}

/// Indexes of the chosen instances, in the order of the list of names.
pub fn choose(fields: &[Field], names: &[String]) -> Vec<usize> {
    let mut used = vec![false; fields.len()];
    let mut out = vec![];
    for n in names {
        let mut found = None;
        for i in 0..fields.len() {
            if !used[i] && same_name(&fields[i].0, n) {
                found = Some(i); // the last one wins
            }
        }
        if let Some(i) = found {
            used[i] = true;
            out.push(i);
        }
    }
    out
}

pub fn canon_fields(is_relaxed: bool, fields: &[Field], names: &[String]) -> Vec<u8> {
    let mut o = vec![];
    for i in choose(fields, names) {
        o.extend(canon_field(is_relaxed, &fields[i].0, &fields[i].1));
        o.extend(b"\r\n");
    }
    o
}

/// The value of the signature field with the value of the *b* tag deleted.
pub fn without_b(value: &str) -> String {
    let mut out: Vec<String> = vec![];
    let mut done = false;
    for piece in value.split(';') {
        let name = piece.split('=').next().unwrap_or("");
        let name: String = name.chars().filter(|c| !" \t\r\n".contains(*c)).collect();
        if !done && piece.contains('=') && name == "b" {
            let eq = piece.find('=').unwrap();
            out.push(piece[..=eq].to_string());
            done = true;
        } else {
            out.push(piece.to_string());
        }
    }
    out.join(";")
}

/// The bytes that are hashed for the signature.
pub fn hash_input(is_relaxed: bool, fields: &[Field], names: &[String], sig_name: &str, sig_value: &str) -> Vec<u8> {
    let mut o = canon_fields(is_relaxed, fields, names);
    o.extend(canon_field(is_relaxed, sig_name, without_b(sig_value).as_bytes()));
    o
}
