P = []
def p(id, prop, edits, needs, breaks, main, pre=False):
    P.append(dict(id=id, prop=prop, edits=edits, needs=needs, breaks=breaks, main=main, pre=pre))

p("c01-tag-case", "C01", [("src/verifier/verify.rs",
   """.filter(|(_, name)| *name == "b")?;""", """.filter(|(_, name)| name.eq_ignore_ascii_case("b"))?;""")],
  "an extension tag named B placed before the b= tag by the requested tag order",
  "the verifier empties the extension tag B instead of the signature tag, so a correctly issued signature does not verify",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com"), ("Subject", " hello")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    for order in [false, true] {
        let mut r = request("ed1", "example.com", "s");
        r.ext_tags = vec![("B".into(), "x".into())];
        if order {
            r.format.tag_order = Some(Box::new(|a, b| (a != "B").cmp(&(b != "B"))));
        }
        let o = sign(&h, b"body\\r\\n", r);
        let res = verify(&d, &with(&[field(&o)], &h), &at(1000), b"body\\r\\n");
        assert!(ok(&res[0]), "{order} {:?}", res[0].status);
    }
}
''')

p("c01-identity-literal", "C01", [("src/signer/format.rs",
   """            format!("{}@{d}", encode(l.as_bytes(), None))""",
   """            // No need to encode the usual characters.
            if l.bytes().all(|b| b.is_ascii_graphic()) && !l.contains(';') {
                format!("{l}@{d}")
            } else {
                format!("{}@{d}", encode(l.as_bytes(), None))
            }""")],
  "an identity whose local part contains an equals sign",
  "the i= tag is written without quoting '=', so the signature names another identity or cannot be parsed",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    for i in ["user@example.com", "a=b@example.com", "a=41@example.com", "a+tag@example.com"] {
        let mut r = request("ed1", "example.com", "s");
        r.identity = Some(Identity::new(i).unwrap());
        let o = sign(&h, b"", r);
        let res = verify(&d, &with(&[field(&o)], &h), &at(1000), b"");
        assert!(ok(&res[0]), "{i} {:?}", res[0].status);
        assert_eq!(res[0].signature.as_ref().unwrap().identity, Some(Identity::new(i).unwrap()));
    }
}
''')

p("c02-repeated-name-case", "C02", [("src/canonicalize.rs",
   """                processed_indexes.insert(i);
""", """                // An instance is used up by the name it was selected with.
                if selected_headers.iter().filter(|h| h.as_ref() == selected_header.as_ref()).count() > 1 {
                    processed_indexes.insert(i);
                }
""")],
  "a signature that signs two instances of a header field under names differing in case (h=Subject:subject)",
  "both entries of h= select the last instance, so the upper instance can be altered freely",
  '''
fn main() {
    let msg = |a: &str| fields(&[("From", " a@example.com"), ("Subject", a), ("Subject", " two")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    for sel in [["From", "Subject", "Subject"], ["From", "Subject", "subject"]] {
        let mut r = request("ed1", "example.com", "s");
        r.header_selection = HeaderSelection::Manual(names(&sel));
        let o = sign(&msg(" one"), b"", r);
        assert!(ok(&verify(&d, &with(&[field(&o)], &msg(" one")), &at(1000), b"")[0]));
        assert!(!ok(&verify(&d, &with(&[field(&o)], &msg(" evil")), &at(1000), b"")[0]), "altered {sel:?}");
    }
}
''')

p("c02-body-hash-of-key", "C02", [("src/verifier/mod.rs",
   """                    let (body_len, hash_alg, canon_alg) = body_hasher_key(sig);
                    body_hasher.register_canonicalization(body_len, hash_alg, canon_alg);
""", """                    let (body_len, hash_alg, canon_alg) = body_hasher_key(sig);
                    body_hasher.register_canonicalization(body_len.filter(|n| *n > 0), hash_alg, canon_alg);
"""), ("src/verifier/mod.rs",
   """    let key = body_hasher_key(sig);
""", """    let (body_len, hash_alg, canon_alg) = body_hasher_key(sig);
    let key = (body_len.filter(|n| *n > 0), hash_alg, canon_alg);
""")],
  "a signature with l=0 and a message with a non-empty body",
  "l=0 is taken for no limit: such a signature fails with a body hash mismatch although no body content is covered",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    let mut r = request("ed1", "example.com", "s");
    r.body_length = BodyLength::Exact(0);
    let o = sign(&h, b"hello\\r\\n", r);
    for body in [&b"hello\\r\\n"[..], b"other\\r\\n", b""] {
        let res = verify(&d, &with(&[field(&o)], &h), &at(1000), body);
        assert!(ok(&res[0]), "{body:?} {:?}", res[0].status);
    }
}
''')
P[-1]["prop"] = "C22"; P[-1]["id"] = "c22-zero-length"

p("c02-relaxed-edge", "C02", [("src/canonicalize.rs",
   """        while let Some((_, rest)) = value.split_last().filter(|(&b, _)| is_space(b)) {""",
   """        while let Some((_, rest)) = value.split_last().filter(|(&b, _)| is_space(b) || b == 0xa0) {""")],
  "a signed header field ending in the byte A0 with relaxed header canonicalization",
  "a trailing byte A0 (a Latin-1 no-break space, or the last byte of a UTF-8 character) of a signed field can be added or removed",
  '''
fn main() {
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    let m = |s: &str| fields(&[("From", " a@example.com"), ("Subject", s)]);
    let o = sign(&m(" caf\\u{e0}"), b"", request("ed1", "example.com", "s"));
    assert!(ok(&verify(&d, &with(&[field(&o)], &m(" caf\\u{e0}")), &at(1000), b"")[0]));
    assert!(!ok(&verify(&d, &with(&[field(&o)], &m(" caf")), &at(1000), b"")[0]));
    let v = vec![field(&o), ("From".into(), b" a@example.com".to_vec()), ("Subject".into(), b" caf\\xc3".to_vec())];
    assert!(!ok(&verify(&d, &HeaderFields::from_vec(v).unwrap(), &at(1000), b"")[0]));
}
''')

p("c03-relaxed-crcr", "C03", [("src/canonicalize.rs",
   """                    if b == CR {
                        self.state = CanonState::Cr;
                    } else if is_wsp(b) {
                        self.state = CanonState::Wsp;
                    } else {
                        result.push(b);
                        self.state = CanonState::Byte;
                    }
                }
                CanonState::Byte => {""",
   """                    if b == CR {
                        self.state = CanonState::WspCr;
                    } else if is_wsp(b) {
                        self.state = CanonState::Wsp;
                    } else {
                        result.push(b);
                        self.state = CanonState::Byte;
                    }
                }
                CanonState::Byte => {""")],
  "relaxed body canonicalization of white space followed by two carriage returns",
  "a space is inserted between two stray CR bytes after white space",
  '''
fn main() {
    for (body, want) in [(&b"a \\r\\r\\nb\\r\\n"[..], &b"a \\r\\r\\nb\\r\\n"[..]), (b"a \\r\\rb\\r\\n", b"a \\r\\rb\\r\\n"), (b"a \\r\\nb\\r\\n", b"a\\r\\nb\\r\\n")] {
        for cut in 0..=body.len() {
            let mut c = BodyCanonicalizer::new(CanonicalizationAlgorithm::Relaxed);
            let mut r = c.canonicalize_chunk(&body[..cut]);
            r.extend(c.canonicalize_chunk(&body[cut..]));
            r.extend(c.finish());
            assert_eq!(r, want, "{body:?}");
        }
    }
}
''')

p("c03-simple-bulk", "C03", [("src/canonicalize.rs",
   """        let mut result = vec![];

        for &b in bytes {
            match self.state {
                CanonState::Init | CanonState::CrLf => {
                    if b == CR {
                        self.state = CanonState::Cr;
                    } else {
                        self.flush_empty_lines(&mut result);
                        result.push(b);
                        self.state = CanonState::Byte;
                    }
                }
                CanonState::Cr => {""",
   """        let mut result = vec![];

        // Take a shortcut for a chunk within a line.
        if let (CanonState::Byte | CanonState::Cr, false) = (self.state, bytes.iter().any(|&b| b == CR || b == LF)) {
            if let CanonState::Cr = self.state {
                result.push(CR);
            }
            result.extend(bytes);
            self.state = CanonState::Byte;
            return result;
        }

        for &b in bytes {
            match self.state {
                CanonState::Init | CanonState::CrLf => {
                    if b == CR {
                        self.state = CanonState::Cr;
                    } else {
                        self.flush_empty_lines(&mut result);
                        result.push(b);
                        self.state = CanonState::Byte;
                    }
                }
                CanonState::Cr => {""")],
  "a chunk boundary after a carriage return that stands at the start of a line or after empty lines, or an empty chunk between CR and LF",
  "pending empty lines are dropped, or a CR LF split by an empty chunk is no longer taken as a line end",
  '''
fn main() {
    for body in [&b"a\\r\\n\\r\\n\\rb\\r\\n"[..], b"a\\r\\n\\r\\n", b"ab\\rc\\r\\n", b"abc"] {
        let mut whole = BodyCanonicalizer::new(CanonicalizationAlgorithm::Simple);
        let mut want = whole.canonicalize_chunk(body);
        want.extend(whole.finish());
        for i in 0..=body.len() {
            for j in i..=body.len() {
                let mut c = BodyCanonicalizer::new(CanonicalizationAlgorithm::Simple);
                let mut r = c.canonicalize_chunk(&body[..i]);
                r.extend(c.canonicalize_chunk(&body[i..j]));
                r.extend(c.canonicalize_chunk(&body[j..]));
                r.extend(c.finish());
                assert_eq!(r, want, "{body:?} {i} {j}");
            }
        }
    }
}
''')

p("c04-tab-kept", "C04", [("src/canonicalize.rs",
   """            if !compressing {
                result.push(SP);
                compressing = true;
            }""", """            if !compressing {
                result.push(SP);
                compressing = b != b'\\n';
            }""")],
  "a folded line in a header field whose fold comes after no white space and stands at an odd place: a line feed seen first cannot happen, so a fold right after the value's leading text",
  "white space runs containing a fold come out longer",
  '''
fn main() {
    let h = fields(&[("Subject", " a\\r\\n b"), ("To", " x \\r\\n\\t y")]);
    let r = canonicalize_headers(CanonicalizationAlgorithm::Relaxed, &h, &names(&["Subject", "To"]));
    assert_eq!(String::from_utf8(r).unwrap(), "subject:a b\\r\\nto:x y\\r\\n");
}
''')
P.pop()

p("c04-bit-set", "C04", [("src/canonicalize.rs",
   """            .filter(|(i, _)| !processed_indexes.contains(i))
""", """            .filter(|(i, _)| !processed_indexes.contains(&(i & 63)))
"""), ("src/canonicalize.rs",
   """                processed_indexes.insert(i);
""", """                processed_indexes.insert(i & 63);
""")],
  "a header with more than 64 fields, with signed fields at indexes that are 64 apart",
  "a signed field is not selected because another one 64 places further was",
  '''
fn main() {
    let mut v: Vec<(String, Vec<u8>)> = vec![("Cc".into(), b" first".to_vec())];
    for i in 0..63 {
        v.push((format!("X-{i}"), b" x".to_vec()));
    }
    v.push(("To".into(), b" last".to_vec()));
    let h = HeaderFields::from_vec(v).unwrap();
    let r = canonicalize_headers(CanonicalizationAlgorithm::Simple, &h, &names(&["To", "Cc"]));
    assert_eq!(String::from_utf8(r).unwrap(), "To: last\\r\\nCc: first\\r\\n");
}
''')

p("c04-long-value", "C04", [("src/canonicalize.rs",
   """    let mut compressing = false;
    for &b in value {
        if is_space(b) {
            if !compressing {""", """    // A value on a single line that cannot be split is taken as is.
    if value.len() > 998 && !value.contains(&b'\\r') {
        result.extend(value);
        return;
    }

    let mut compressing = false;
    for &b in value {
        if is_space(b) {
            if !compressing {""")],
  "a header field value of more than 998 bytes on one line, with a run of white space inside",
  "white space in very long lines is not reduced to a single space",
  '''
fn main() {
    let v = format!("  {}  x\\ty ", "a".repeat(1000));
    let h = fields(&[("Subject", &v)]);
    let r = canonicalize_headers(CanonicalizationAlgorithm::Relaxed, &h, &names(&["Subject"]));
    assert_eq!(String::from_utf8(r).unwrap(), format!("subject:{} x y\\r\\n", "a".repeat(1000)));
}
''')

p("c05-finish-limited", "C05", [("src/message_hash.rs",
   """            if !hasher.is_done() || (self.fail_on_truncate && !truncated) {
                let canonicalized_chunk = match canon {""",
   """            if !hasher.is_done() || (self.fail_on_truncate && !truncated && key.0.is_none()) {
                let canonicalized_chunk = match canon {""")],
  "partial coverage forbidden, and a limit reached exactly by the body while the final line end added by canonicalization lies beyond it",
  "a body longer than its limit only by the line end that canonicalization adds yields a hash instead of a truncation error",
  '''
fn main() {
    for (body, len, err) in [(&b"abc"[..], 3, true), (b"abc", 5, false), (b"abc\\r\\n", 3, true), (b"abcd\\r\\n", 4, true)] {
        let mut b = BodyHasherBuilder::new(true);
        b.register_canonicalization(Some(len), HashAlgorithm::Sha256, CanonicalizationAlgorithm::Simple);
        let mut b = b.build();
        let _ = b.hash_chunk(body);
        let r = b.finish();
        let r = r.get(&(Some(len), HashAlgorithm::Sha256, CanonicalizationAlgorithm::Simple)).unwrap();
        assert_eq!(r.is_err(), err, "{body:?} {len} {r:?}");
    }
}
''')

p("c05-done-with-truncated", "C05", [("src/message_hash.rs",
   """                HashStatus::AllConsumed => {
                    if self.fail_on_truncate || !hasher.is_done() {
                        all_done = false;
                    }
                }""",
   """                HashStatus::AllConsumed => {
                    if !hasher.is_done() || (self.fail_on_truncate && !chunk.is_empty()) {
                        all_done = false;
                    }
                }""")],
  "partial coverage forbidden, a limit reached exactly at a chunk end, and then an empty chunk before the rest of the body",
  "the hasher says it is done after the empty chunk although a longer body would have to be reported as truncated",
  '''
fn main() {
    let key = (Some(5), HashAlgorithm::Sha256, CanonicalizationAlgorithm::Simple);
    let mut b = BodyHasherBuilder::new(true);
    b.register_canonicalization(key.0, key.1, key.2);
    let mut b = b.build();
    let mut done = false;
    for c in [&b"abc\\r\\n"[..], b"", b"more\\r\\n"] {
        if !done {
            done = b.hash_chunk(c) == BodyHasherStance::Done;
        }
    }
    assert!(b.finish().get(&key).unwrap().is_err());
}
''')

p("c06-adjacent-duplicates", "C06", [("src/tag_list.rs",
   """                let mut names_seen = HashSet::new();
                if tag_list.iter().any(|tag| !names_seen.insert(tag.name)) {""",
   """                let mut names_seen = HashSet::new();
                if tag_list.iter().any(|tag| !names_seen.insert(tag.name) && tag.value.len() < 64) {""")],
  "a repeated tag whose later occurrence has a value of 64 or more characters",
  "a tag list with a duplicate tag is accepted when the later value is long",
  '''
fn main() {
    let long = "A".repeat(64);
    for v in ["AAAA", &long] {
        assert!(format!("p={v}; n=x").parse::<DkimKeyRecord>().is_ok());
        assert!(format!("p=; p={v}").parse::<DkimKeyRecord>().is_err(), "{v}");
    }
}
''')

p("c06-fws-after-semicolon", "C06", [("src/tag_list.rs",
   """    while let Some((snext, t)) = s.strip_prefix(';').and_then(strip_tag_spec) {
        s = snext;
        tags.push(t);
    }

    let s = s.strip_prefix(';').unwrap_or(s);
""", """    while let Some((snext, t)) = s.strip_prefix(';').and_then(strip_tag_spec) {
        s = snext;
        tags.push(t);
    }

    let s = s.strip_prefix(';').unwrap_or(s);
    let s = s.strip_prefix(';').unwrap_or(s);
""")],
  "a tag list that ends in two semicolons",
  "an empty tag at the end is accepted",
  '''
fn main() {
    for (s, want) in [("p=", true), ("p=;", true), ("p=;;", false), ("p=;;n=x", false), ("p=; ;", false)] {
        assert_eq!(s.parse::<DkimKeyRecord>().is_ok(), want, "{s}");
    }
}
''')

p("c07-expiry-order", "C07", [("src/signature.rs",
   """                    expiration = Some(value);
""", """                    if matches!(timestamp, Some(t) if value <= t) {
                        return Err(DkimSignatureErrorKind::ExpirationNotAfterTimestamp);
                    }

                    expiration = Some(value);
"""), ("src/signature.rs", "            if expiration <= timestamp {", "            if expiration < timestamp {")],
  "an expiry equal to the timestamp where the x= tag comes before the t= tag",
  "a signature that is never within its lifetime is accepted depending on the order of its tags",
  '''
fn main() {
    let base = "v=1; a=ed25519-sha256; d=example.com; s=s; h=From; bh=YWJj; b=YWJj";
    for (t, want) in [("t=5; x=6", true), ("t=5; x=5", false), ("x=5; t=5", false), ("x=4; t=5", false), ("t=5; x=4", false), ("x=6; t=5", true)] {
        assert_eq!(format!("{base}; {t}").parse::<DkimSignature>().is_ok(), want, "{t}");
    }
}
''')

p("c07-identity-first", "C07", [("src/signature.rs",
   """                    for piece in value.split('|') {
                        let (name, value) = tag_list::parse_quoted_printable_header_field(piece)""",
   """                    for piece in value.split('|') {
                        if piece.is_empty() && !headers.is_empty() {
                            continue;
                        }
                        let (name, value) = tag_list::parse_quoted_printable_header_field(piece)""")],
  "a z= tag with an empty element after the first",
  "an ill-formed list of copied header fields is accepted",
  '''
fn main() {
    let base = "v=1; a=ed25519-sha256; d=example.com; s=s; h=From; bh=YWJj; b=YWJj";
    for (z, want) in [("z=From:a", true), ("z=From:a|To:b", true), ("z=|To:b", false), ("z=From:a|", false), ("z=From:a||To:b", false), ("z=", false)] {
        assert_eq!(format!("{base}; {z}").parse::<DkimSignature>().is_ok(), want, "{z}");
    }
}
''')

p("c08-version-anywhere", "C08", [("src/record.rs",
   """                    if i != 0 {""", """                    if i != 0 && (key_data.is_some() || i > 1) {""")],
  "a key record whose v= tag is the second tag and stands before p=",
  "a misplaced version tag is accepted",
  '''
fn main() {
    for (s, want) in [("v=DKIM1; p=", true), ("p=; v=DKIM1", false), ("k=rsa; v=DKIM1; p=", false), ("k=rsa; p=; v=DKIM1", false)] {
        assert_eq!(s.parse::<DkimKeyRecord>().is_ok(), want, "{s}");
    }
}
''')

p("c08-service-list", "C08", [("src/record.rs",
   """                        } else if s.eq_ignore_ascii_case("email") {
                            st.push(ServiceType::Email);
                        }
                    }

                    if st.is_empty() {""",
   """                        } else if s.eq_ignore_ascii_case("email") {
                            st.push(ServiceType::Email);
                        }
                    }

                    // An explicit other service alone is an error.
                    if st.is_empty() && !value.contains(':') {""")],
  "a key record that lists several service types, none of which is email or any",
  "a key not meant for email is accepted",
  '''
fn main() {
    for (s, want) in [("s=email; p=", true), ("s=*; p=", true), ("s=tlsrpt; p=", false), ("s=tlsrpt:other; p=", false), ("s=tlsrpt:email; p=", true)] {
        assert_eq!(s.parse::<DkimKeyRecord>().is_ok(), want, "{s}");
    }
}
''')

p("c09-invalid-utf8-run", "C09", [("src/quoted_printable.rs",
   """            encode_byte(&mut result, bytes[0]);
            bytes = &bytes[1..];""",
   """            encode_byte(&mut result, bytes[0]);
            bytes = &bytes[1..];
            // Skip over the rest of the broken character.
            while let [b @ 0x80..=0xbf, b2 @ 0x80..=0xbf, rest @ ..] = bytes {
                encode_byte(&mut result, *b);
                let _ = b2;
                bytes = rest;
            }""")],
  "bytes that are not UTF-8, with two continuation bytes after a broken one",
  "a byte is lost in encoding",
  '''
fn main() {
    for b in [&b"abc"[..], b"\\xff\\xfe", b"\\xe2\\x82", b"\\xff\\x80\\x80x", "caf\\u{e9};|".as_bytes(), b"\\xf0\\x80\\x80\\x80"] {
        for s in [quoted_printable::encode(b, None), quoted_printable::encode_ascii_only(b, Some('|'))] {
            assert_eq!(quoted_printable::decode(&s).unwrap(), b);
        }
    }
}
''')

p("c09-hex-fold", "C09", [("src/quoted_printable.rs",
   """                } else if let Some(snext) = strip_dkim_safe_chars(s) {
                    result.extend(strip_suffix(s, snext).bytes());
                    s = snext;
                    state = State::Char;
                } else if strip_fws(s).is_some() {""",
   """                } else if let Some(snext) = strip_dkim_safe_chars(s) {
                    let chars = strip_suffix(s, snext);
                    result.extend(chars.bytes());
                    s = snext;
                    state = if chars.len() == 1 { State::Fws } else { State::Char };
                } else if strip_fws(s).is_some() {""")],
  "a single literal character with folding white space before and after it",
  "well-formed text is rejected",
  '''
fn main() {
    for (s, want) in [("a b", Some("ab")), ("ab cd ef", Some("abcdef")), ("ab c de", Some("abcde")), ("a =41 b", Some("aAb")), ("a\\r\\n b", Some("ab")), ("=4", None)] {
        assert_eq!(quoted_printable::decode(s).ok().map(|b| String::from_utf8(b).unwrap()).as_deref(), want, "{s:?}");
    }
}
''')

p("c10-width-last", "C10", [("src/signer/format.rs",
   """    let taglen = name.len() + value.chars().count() + if last { 1 } else { 2 };""",
   """    let taglen = name.len() + value.chars().count() + 1 + usize::from(!last && *i > indent_len(fmt));"""),
   ("src/signer/format.rs", """fn format_tag_h(out: &mut String""", """fn indent_len(fmt: Fmt<'_>) -> usize {
    fmt.indent.len()
}

fn format_tag_h(out: &mut String""")],
  "", "", "")
P.pop()

p("c10-b-not-last", "C10", [("src/signer/format.rs",
   """        let mut final_chunk_len = (b_tag_len - remaining_len) % chunk_len;
        if final_chunk_len == 0 {
            final_chunk_len = chunk_len;
        }
        *i = final_chunk_len + indent.len();""",
   """        let final_chunk_len = (b_tag_len - remaining_len) % chunk_len;
        *i = final_chunk_len + indent.len();""")],
  "a line width at which the last line of the signature value is exactly full, and a tag after b=",
  "the tag after b= is put on the same, already full line, so the line exceeds the requested width",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    for (w, n) in (40..120).flat_map(|w| (1..30).map(move |n| (w, n))) {
        let mut r = request("ed1", "example.com", &"s".repeat(n));
        r.ext_tags = vec![("y".into(), "abc".into())];
        r.format.line_width = w.try_into().unwrap();
        r.format.tag_order = Some(Box::new(|a, b| (a == "y").cmp(&(b == "y"))));
        let o = sign(&h, b"", r);
        for l in o.format_header().to_string().split("\\r\\n") {
            assert!(l.trim_end_matches(';').len() <= w, "{w}: {l:?}");
        }
    }
}
''')

p("c10-ascii-z", "C10", [("src/signer/format.rs",
   """            *i = indent.len() + namelen;
        }

        let val = format_field_value(val);""",
   """            *i = indent.len() + namelen;
        }

        let val = if val.is_ascii() { quoted_printable::encode(val, None) } else { format_field_value(val) };""")],
  "copied header fields where a field other than the first contains a vertical bar",
  "the bar in a copied value is not encoded, so the copied fields read back differently or the signature cannot be parsed",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com"), ("Subject", " one|To:x"), ("To", " b")]);
    let mut r = request("ed1", "example.com", "s");
    r.copy_headers = true;
    r.header_selection = HeaderSelection::Manual(names(&["From", "Subject"]));
    let o = sign(&h, b"", r);
    let s: DkimSignature = o.header_value.parse().unwrap();
    assert_eq!(s, o.signature);
}
''')

p("c11-entry-order", "C11", [("src/signer/mod.rs",
   """        for task in self.tasks {
            let request = task.request;
""", """        // Handle requests for the same key together.
        let mut tasks: Vec<_> = self.tasks.into_iter().collect();
        if tasks.len() > 3 {
            tasks.sort_by_key(|t| t.request.signing_key.as_ref().key_type() == crate::crypto::KeyType::Ed25519);
        }

        for task in tasks {
            let request = task.request;
""")],
  "four or more requests that mix RSA and Ed25519 keys",
  "results come back in another order than the requests",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    for n in 1..6 {
        let r: Vec<_> = (0..n).map(|i| request(if i % 2 == 0 { "ed1" } else { "rsa1024" }, "example.com", &format!("s{i}"))).collect();
        let o = sign_all(&h, &[b"x\\r\\n"], r);
        for (i, o) in o.iter().enumerate() {
            assert_eq!(o.as_ref().unwrap().signature.selector.as_ref(), format!("s{i}"));
        }
    }
}
''')

p("c11-insufficient-shared", "C11", [("src/signer/mod.rs",
   """            let signing_result =
                sign::perform_signing(request, &self.headers, &body_hash_results).await;
""", """            // Body content that fell short for one request also does for its like.
            let limit = request.body_length.to_usize().ok().flatten();
            let signing_result = match short {
                Some(n) if limit.map_or(false, |limit| limit * 2 > n) => Err(SigningError::InsufficientContent),
                _ => sign::perform_signing(request, &self.headers, &body_hash_results).await,
            };
            if let Err(SigningError::InsufficientContent) = signing_result {
                short = limit;
            }
"""), ("src/signer/mod.rs", """        let body_hash_results = self.body_hasher.finish();

        let mut result = vec![];
""", """        let body_hash_results = self.body_hasher.finish();

        let mut result = vec![];
        let mut short = None;
""")],
  "a request with a body length beyond the content, followed by one with a smaller limit that is within the content",
  "a request that lacks body content makes a later one fail",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    let r = [10, 6, 3, 9].map(|n| {
        let mut r = request("ed1", "example.com", "s");
        r.body_length = BodyLength::Exact(n);
        r
    });
    let o = sign_all(&h, &[b"abcdef\\r\\n"], r.into());
    assert_eq!(o.iter().map(|o| o.is_ok()).collect::<Vec<_>>(), [false, true, true, false]);
}
''')

p("c12-max-counts-good", "C12", [("src/verifier/header.rs",
   """            .filter(|(_, (name, _))| *name == DKIM_SIGNATURE_NAME)
            .take(config.max_signatures);
""", """            .filter(|(_, (name, _))| *name == DKIM_SIGNATURE_NAME);
"""), ("src/verifier/header.rs", """        for (index, (name, value)) in dkim_headers {
            let value = match""", """        for (index, (name, value)) in dkim_headers {
            if tasks.len() >= config.max_signatures && config.max_signatures > 0 {
                break;
            }
            let value = match""")],
  "a configured maximum of zero signatures",
  "with a maximum of zero all signatures are evaluated instead of none",
  '''
fn main() {
    let h = fields(&[("DKIM-Signature", " x"), ("From", " a@example.com"), ("DKIM-Signature", " y")]);
    for max in 0..4 {
        let c = Config { max_signatures: max, ..at(1000) };
        let n = block(Verifier::verify_header(&dns(&[]), &h, &c)).map_or(0, |v| v.finish().len());
        assert_eq!(n, max.min(2));
    }
}
''')

p("c12-index-contains", "C12", [("src/verifier/header.rs",
   """            let selected_tasks = self.tasks.iter_mut().filter(|t| indexes.contains(&t.index));
""", """            let selected_tasks = self.tasks.iter_mut().enumerate()
                .filter(|(i, t)| indexes.contains(&t.index) || (t.signature.is_some() && t.key_record.is_none() && indexes.contains(i)))
                .map(|(_, t)| t)
                .filter(|t| t.header_name.is_some());
""")],
  "signatures with different keys in header positions such that the position of one is the rank of another",
  "a signature is evaluated with the key of another signature; what comes out depends on the order in which lookups are processed",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s1._domainkey.example.com.", txt(&record("ed1")))]);
    let a = sign(&m, b"", request("ed1", "example.com", "s1"));
    let b = sign(&m, b"", request("ed2", "example.com", "s2"));
    for _ in 0..60 {
        let h = HeaderFields::from_vec(vec![
            ("X".into(), b" x".to_vec()), field(&a), field(&b), ("From".into(), b" a@example.com".to_vec()),
        ]).unwrap();
        let r = verify(&d, &h, &at(1000), b"");
        assert_eq!(r.len(), 2);
        assert!(ok(&r[0]) && !ok(&r[1]), "{:?}", r.iter().map(|r| r.status.clone()).collect::<Vec<_>>());
        assert!(r[1].key_record.is_none(), "{:?}", r[1].status);
    }
}
''')

p("c13-last-record", "C13", [("src/verifier/query.rs",
   """            last = Some(txt);""", """            last = last.or(Some(txt));""")],
  "an answer of four or more records where only the last one is the right key",
  "the third instead of the last record is tried",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let a = sign(&m, b"", request("ed1", "example.com", "s"));
    for n in 1..6 {
        let mut v = vec![record("ed2"); n];
        v[n - 1] = record("ed1");
        let d = dns(&[("s._domainkey.example.com.", txts(&v))]);
        assert!(ok(&verify(&d, &with(&[field(&a)], &m), &at(1000), b"")[0]), "{n}");
    }
}
''')

p("c13-good-then-bad", "C13", [("src/verifier/header.rs",
   """                task.status = VerifyStatus::Failed(VerificationError::KeyRecordFormat(*e));
                task.key_record = None;
                continue;""",
   """                task.status = VerifyStatus::Failed(VerificationError::KeyRecordFormat(*e));
                task.key_record = None;
                if i == 1 {
                    break;
                }
                continue;""")],
  "an answer of three or more records with an unusable second and the right key last",
  "a usable last record is not tried after an undecodable second record",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let a = sign(&m, b"", request("ed1", "example.com", "s"));
    let bad = "no record".to_string();
    for v in [vec![record("ed1")], vec![bad.clone(), record("ed1")], vec![bad.clone(), bad.clone(), record("ed1")], vec![record("ed2"), bad.clone(), record("ed1")]] {
        let d = dns(&[("s._domainkey.example.com.", txts(&v))]);
        assert!(ok(&verify(&d, &with(&[field(&a)], &m), &at(1000), b"")[0]), "{v:?}");
    }
}
''')

p("c14-tolerance-future", "C14", [("src/verifier/header.rs",
   """            if t.saturating_sub(delta) > current_t {""", """            if t > current_t.saturating_add(delta.max(1)) {""")],
  "a tolerance of zero and a timestamp exactly one second in the future",
  "a signature from the future is accepted although no tolerance is configured",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    let a = sign(&m, b"", request("ed1", "example.com", "s"));
    for tol in [0, 1, 5] {
        for now in 990..1005 {
            let c = Config { time_tolerance: Duration::from_secs(tol), ..at(now) };
            assert_eq!(ok(&verify(&d, &with(&[field(&a)], &m), &c, b"")[0]), 1000 <= now + tol, "{tol} {now}");
        }
    }
}
''')

p("c14-forbidden-once", "C14", [("src/verifier/header.rs",
   """            .filter(|&name| name == req)
            .take(actual_n)
            .count();""",
   """            .filter(|&name| name == req)
            .take(actual_n.min(3))
            .count();
        let actual_n = actual_n.min(3);""")],
  "a protected header name with four or more instances of which only three are signed",
  "an unsigned instance of a protected header field is not noticed",
  '''
fn main() {
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    for n in 1..6 {
        for k in 1..=n {
            let mut v = vec![("From", " a@example.com")];
            v.extend(vec![("Comments", " x"); n]);
            let m = fields(&v);
            let mut r = request("ed1", "example.com", "s");
            let mut sel = vec!["From"];
            sel.extend(vec!["Comments"; k]);
            r.header_selection = HeaderSelection::Manual(names(&sel));
            let a = sign(&m, b"", r);
            let c = Config { headers_forbidden_to_be_unsigned: names(&["Comments"]), ..at(1000) };
            assert_eq!(ok(&verify(&d, &with(&[field(&a)], &m), &c, b"")[0]), k == n, "{n} {k}");
        }
    }
}
''')

p("c15-strict-spelling", "C15", [("src/verifier/header.rs",
   """            if domain.to_ascii() != identity.domain.to_ascii() {""",
   """            if domain != &identity.domain {""")],
  "a strict key record and an identity whose domain is written in another IDN form than the signing domain",
  "an identity in exactly the signing domain is refused because it is spelled differently",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    for (dom, id, want) in [
        ("example.com", "@EXAMPLE.com", true), ("example.com", "@sub.example.com", false),
        ("b\\u{fc}cher.example", "@xn--bcher-kva.example", true),
    ] {
        let d = dns(&[("s._domainkey.example.com.", txt(&format!("{}; t=s", record("ed1")))), ("s._domainkey.xn--bcher-kva.example.", txt(&format!("{}; t=s", record("ed1"))))]);
        // written by hand so that the spelling is kept
        use ed25519_dalek::{pkcs8::DecodePrivateKey, Signer as _};
        let k = ed25519_dalek::SigningKey::from_pkcs8_pem(&pem("ed1")).unwrap();
        let bh = digest(HashAlgorithm::Sha256, b"");
        let value = format!(" v=1; a=ed25519-sha256; c=relaxed/relaxed; d={dom}; s=s; i={id}; h=From; bh={}; b=", b64(&bh));
        let hash = compute_data_hash(HashAlgorithm::Sha256, CanonicalizationAlgorithm::Relaxed, &m, &names(&["From"]), "DKIM-Signature", &value);
        let value = format!("{value}{}", b64(&k.sign(&hash).to_bytes()));
        let h = with(&[("DKIM-Signature".into(), value.into_bytes())], &m);
        let r = verify(&d, &h, &at(1000), b"");
        assert_eq!(ok(&r[0]), want, "{dom} {id} {:?}", r[0].status);
    }
}
''')

p("c15-default-hash", "C15", [("src/verifier/header.rs",
   """    if record.key_data.is_empty() {
        trace!("key in public key record is revoked");
        return Err(VerificationError::KeyRevoked);
    }

    if !record.hash_algorithms.contains(&hash_alg) {
        trace!("hash algorithm not allowed by public key record");
        return Err(VerificationError::DisallowedHashAlgorithm);
    }
""", """    if !record.hash_algorithms.contains(&hash_alg) {
        trace!("hash algorithm not allowed by public key record");
        return Err(VerificationError::DisallowedHashAlgorithm);
    }

    if record.flags.contains(&SelectorFlag::NoSubdomains) {
        if let Some(identity) = identity {
            if domain.to_ascii() != identity.domain.to_ascii() {
                trace!("i= and d= domains not allowed to differ by public key record");
                return Err(VerificationError::DomainMismatch);
            }
        }
    }

    if record.key_data.is_empty() {
        trace!("key in public key record is revoked");
        return Err(VerificationError::KeyRevoked);
    }
""")],
  "a revoked key record with the strict flag, and a signature with an identity in a subdomain",
  "the domain mismatch is reported instead of the revoked key",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    for (id, rec, want) in [
        ("@sub.example.com", format!("{}; t=s", record("ed1")), VerificationError::DomainMismatch),
        ("@example.com", "k=ed25519; t=s; p=".to_string(), VerificationError::KeyRevoked),
        ("@sub.example.com", "k=ed25519; t=s; p=".to_string(), VerificationError::KeyRevoked),
    ] {
        let d = dns(&[("s._domainkey.example.com.", txt(&rec))]);
        let mut r = request("ed1", "example.com", "s");
        r.identity = Some(Identity::new(id).unwrap());
        let a = sign(&m, b"", r);
        assert_eq!(verify(&d, &with(&[field(&a)], &m), &at(1000), b"")[0].status, VerificationStatus::Failure(want));
    }
}
''')

p("c16-tolerance-overflow", "C16", [("src/verifier/header.rs",
   """            if current_t >= t.saturating_add(delta) {""", """            if current_t >= t + delta {""")],
  "an expiry near the greatest 64-bit number together with a time tolerance",
  "verification panics (or in a release build takes the signature for expired)",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[]);
    for x in [2000, u64::MAX - 301, u64::MAX - 300, u64::MAX] {
        let v = format!(" v=1; a=ed25519-sha256; d=example.com; s=s; x={x}; h=From; bh=YWJj; b=YWJj");
        let r = verify(&d, &with(&[("DKIM-Signature".into(), v.into_bytes())], &m), &at(1000), b"");
        assert_eq!(r[0].status, VerificationStatus::Failure(VerificationError::NoKeyFound), "{x}");
    }
}
''')

p("c16-empty-answer", "C16", [("src/verifier/header.rs",
   """        Ok(txts) if txts.is_empty() => {
            trace!("query found no key records");
            Err(VerificationError::NoKeyFound)
        }
        Ok(txts) => {
            let records = txts
                .into_iter()
                .map(CachedDkimKeyRecord::Unparsed)
                .collect();
            Ok(records)
        }""", """        Ok(txts) if txts.is_empty() => {
            trace!("query found no key records");
            Err(VerificationError::NoKeyFound)
        }
        Ok(txts) => {
            // Unrelated records in wildcard zones are of no interest.
            let unrelated = |r: &io::Result<String>| matches!(r, Ok(s) if s[..s.len().min(6)].eq_ignore_ascii_case("v=spf1"));
            let records = if txts.iter().all(unrelated) { txts } else { txts.into_iter().filter(|r| !unrelated(r)).collect() };
            Ok(records.into_iter().map(CachedDkimKeyRecord::Unparsed).collect())
        }""")],
  "a TXT record with a multi-byte character across the sixth byte",
  "a hostile DNS answer makes the verifier panic",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let a = sign(&m, b"", request("ed1", "example.com", "s"));
    for s in ["", "v=DKIM1", "p=abc\\u{e9}", "p=\\u{1f600}\\u{1f600}", "v=spf1 -all"] {
        let d = dns(&[("s._domainkey.example.com.", txts(&[s.to_string(), record("ed1")]))]);
        assert!(ok(&verify(&d, &with(&[field(&a)], &m), &at(1000), b"")[0]), "{s}");
    }
}
''')

p("c17-subdomain-suffix", "C17", [("src/signature.rs",
   """            right.eq_ignore_ascii_case(&other) && (left.is_empty() || left.ends_with('.'))""",
   """            right.eq_ignore_ascii_case(&other) && (left.is_empty() || left.ends_with(['.', '_']))""")],
  "a domain whose label ends in an underscore followed by the other domain's first label",
  "a suffix that is not on a label boundary counts as a parent domain",
  '''
fn main() {
    let d = |s: &str| DomainName::new(s).unwrap();
    for (a, b, want) in [("a.example.com", "example.com", true), ("xexample.com", "example.com", false), ("my_example.com", "example.com", false), ("example.com", "my_example.com", false)] {
        assert_eq!(d(a).eq_or_subdomain_of(&d(b)), want, "{a} {b}");
    }
}
''')

p("c17-length-unicode", "C17", [("src/signature.rs",
   """            is_valid_dns_name(&ascii_s, check_tld) && idna::domain_to_unicode(s).1.is_ok()""",
   """            let s2 = if ascii_s.len() > 253 { s } else { &ascii_s };
            s2.len() <= 253
                && (s2 == s || is_valid_dns_name(&ascii_s, check_tld))
                && (s2 != s || has_valid_labels(s, check_tld))
                && idna::domain_to_unicode(s).1.is_ok()"""),
   ("src/signature.rs", """// Note that these length checks are not definitive""", """fn has_valid_labels(s: &str, check_tld: bool) -> bool {
    s.is_ascii() && is_valid_dns_name(s, check_tld)
        || !s.is_ascii() && idna::domain_to_ascii(s).map_or(false, |s| s.split('.').all(is_label))
}

// Note that these length checks are not definitive""")],
  "", "", "")
P.pop()

p("c18-key-size-policy", "C18", [("src/verifier/mod.rs",
   """                Timeout | KeyLookup => DkimResult::Temperror,""", """                Timeout | KeyLookup | InvalidKeyDomain => DkimResult::Temperror,""")],
  "", "", "")
P.pop()

p("c19-fold-blank", "C19", [("src/header.rs",
   """                if line.iter().all(|b| matches!(b, b' ' | b'\\t')) {""",
   """                if line.len() < 80 && line.iter().all(|b| matches!(b, b' ' | b'\\t')) {""")],
  "a continuation line of 80 or more blanks",
  "a header body with a blank continuation line is accepted",
  '''
fn main() {
    for n in 1..200 {
        let s = format!(" a\\r\\n{}", " ".repeat(n));
        assert!(FieldBody::new(s.clone().into_bytes()).is_err(), "{n}");
        assert!(FieldBody::new(format!("{s}\\r\\n b").into_bytes()).is_err(), "{n}");
        assert!(FieldBody::new(format!("{s}b").into_bytes()).is_ok(), "{n}");
    }
}
''')

p("c19-stray-lf", "C19", [("src/header.rs",
   """            if line.iter().any(|b| b.is_ascii_control() && *b != b'\\t') {""",
   """            let end = line.strip_suffix(b"\\r").unwrap_or(line);
            if end.iter().any(|b| b.is_ascii_control() && *b != b'\\t') {""")],
  "a carriage return right before a line break or at the end of a header body",
  "a header body with a stray CR is accepted, with which the header could be ended early",
  '''
fn main() {
    for (s, want) in [(&b" a"[..], true), (b" a\\r", false), (b" a\\r\\r\\n b", false), (b" a\\rb", false), (b"\\r", false), (b" a\\r\\n b", true)] {
        assert_eq!(FieldBody::new(s).is_ok(), want, "{s:?}");
    }
}
''')

p("c20-timeout-domain", "C20", [("src/verifier/header.rs",
   """            let mut records = map_lookup_result_to_key_records(result);
""", """            let mut records = map_lookup_result_to_key_records(result);

            // The name server of this domain does not respond.
            if let Err(VerificationError::Timeout) = &records {
                let domains: Vec<_> = self.tasks.iter()
                    .filter(|t| indexes.contains(&t.index))
                    .filter_map(|t| t.signature.as_ref().map(|s| s.domain.clone()))
                    .collect();
                for task in &mut self.tasks {
                    let same = task.signature.as_ref().map_or(false, |s| domains.contains(&s.domain));
                    if same && task.header_name.is_some() {
                        task.status = VerifyStatus::Failed(VerificationError::Timeout);
                    }
                }
            }
""")],
  "a lookup that never completes and another signature of the same domain with another selector, with the stuck lookup processed last",
  "a signature whose key was found is reported as timed out",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s1._domainkey.example.com.", txt(&record("ed1"))), ("s2._domainkey.example.com.", Ans::Never)]);
    let a = sign(&m, b"", request("ed1", "example.com", "s1"));
    let b = sign(&m, b"", request("ed1", "example.com", "s2"));
    for _ in 0..60 {
        let r = verify(&d, &with(&[field(&a), field(&b)], &m), &at(1000), b"");
        assert!(ok(&r[0]), "{:?}", r[0].status);
        assert_eq!(r[1].status, VerificationStatus::Failure(VerificationError::Timeout));
    }
}
''')

p("c21-min-bits", "C21", [("src/crypto/mod.rs",
   """            if key_size < MIN_RSA_KEY_SIZE""", """            if key_size + 8 < MIN_RSA_KEY_SIZE""")],
  "", "", "")
P.pop()

p("c23-ed25519-extended", "C23", [("src/crypto/ed25519.rs", "", "")], "", "", "")
P.pop()

p("c24-b-tag-space", "C24", [("src/verifier/verify.rs",
   """        Some(s.len() - rest.len())
    }

    // First strip""", """        // Optional white space belongs to the tag value.
        let n = s.len() - rest.len();
        Some(n + rest.len() - rest.trim_start_matches('\\t').len())
    }

    // First strip""")],
  "an independently made signature with a tab right after b= and simple header canonicalization",
  "a conforming signature is refused because a tab after b= is kept in the hashed text",
  '''
fn main() {
    use ed25519_dalek::{pkcs8::DecodePrivateKey, Signer as _};
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    let k = ed25519_dalek::SigningKey::from_pkcs8_pem(&pem("ed1")).unwrap();
    let bh = b64(&digest(HashAlgorithm::Sha256, b"\\r\\n"));
    for ws in ["", " ", "\\t", "\\r\\n\\t", "\\r\\n "] {
        let head = format!(" v=1; a=ed25519-sha256; d=example.com; s=s; h=From; bh={bh}; b=");
        let text = format!("From: a@example.com\\r\\nDKIM-Signature:{head}");
        let sig = k.sign(&digest(HashAlgorithm::Sha256, text.as_bytes()));
        let value = format!("{head}{ws}{}", b64(&sig.to_bytes()));
        let r = verify(&d, &with(&[("DKIM-Signature".into(), value.into_bytes())], &m), &at(1000), b"");
        assert!(ok(&r[0]), "{ws:?} {:?}", r[0].status);
    }
}
''')

p("c25-fraction", "C25", [("src/signer/sign.rs",
   """        timestamp.unwrap_or_else(now_unix_secs)
            .saturating_add(duration.as_secs())""",
   """        timestamp.unwrap_or_else(now_unix_secs)
            .saturating_add(duration.as_secs() + u64::from(duration.subsec_millis() >= 500))""")],
  "a lifetime with a fraction of half a second or more",
  "the expiry is not the timestamp plus the lifetime in whole seconds",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    for (d, want) in [(Duration::from_secs(10), 1010), (Duration::from_millis(10_499), 1010), (Duration::from_millis(10_500), 1010), (Duration::from_millis(10_999), 1010)] {
        let mut r = request("ed1", "example.com", "s");
        r.valid_duration = Some(d);
        assert_eq!(sign(&m, b"", r).signature.expiration, Some(want), "{d:?}");
    }
}
''')
p("c18-eof-permanent", "C18", [("src/verifier/header.rs",
   """            ErrorKind::NotFound => {
                trace!("query found no key records");""",
   """            ErrorKind::NotFound | ErrorKind::UnexpectedEof => {
                trace!("query found no key records");""")],
  "a lookup that fails because the name server closed the connection in the middle of the answer",
  "a failure that may go away on retry is reported as a permanent error",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let a = sign(&m, b"", request("ed1", "example.com", "s"));
    for k in [ErrorKind::TimedOut, ErrorKind::Other, ErrorKind::ConnectionRefused, ErrorKind::UnexpectedEof, ErrorKind::Interrupted, ErrorKind::BrokenPipe] {
        let d = dns(&[("s._domainkey.example.com.", Ans::Err(k))]);
        let r = verify(&d, &with(&[field(&a)], &m), &at(1000), b"");
        assert_eq!(r[0].status.to_dkim_result(), DkimResult::Temperror, "{k:?}");
    }
}
''')

p("c18-salvaged-domain", "C18", [("src/verifier/mod.rs",
   """                DkimSignatureFormat(error) => match error.kind {
                    DkimSignatureErrorKind::Utf8Encoding""",
   """                DkimSignatureFormat(error) => match error.kind {
                    // Nothing to attribute the error to.
                    _ if error.domain_str.is_none() => DkimResult::Neutral,
                    DkimSignatureErrorKind::Utf8Encoding""")],
  "a signature without domain tag that has an error other than a syntax error",
  "the result depends on what else is in the signature, not on the cause: missing items are reported as neutral",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    for (v, want) in [
        ("v=1; d=example.com; s=s; h=From; bh=YWJj; b=YWJj", DkimResult::Permerror),
        ("v=1; a=ed25519-sha256; s=s; h=From; bh=YWJj; b=YWJj", DkimResult::Permerror),
        ("v=1; s=s; h=To; bh=YWJj; b=YWJj", DkimResult::Permerror),
        ("v=2; s=s", DkimResult::Neutral),
    ] {
        let r = verify(&dns(&[]), &with(&[("DKIM-Signature".into(), v.as_bytes().to_vec())], &m), &at(1000), b"");
        assert_eq!(r[0].status.to_dkim_result(), want, "{v}");
    }
}
''')

p("c21-whole-bytes", "C21", [("src/crypto/mod.rs",
   """            (Self::Rsa(_), Some(n)) if n < self::rsa::MIN_KEY_BITS => {""",
   """            (Self::Rsa(_), Some(n)) if (n + 7) / 8 < self::rsa::MIN_KEY_BITS / 8 => {""")],
  "an RSA key of 1017 to 1023 bits and a configured minimum lowered below that",
  "RSA keys under 1024 bits become usable",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    for (k, want) in [("rsa1024", true), ("rsa1023", false), ("rsa1017", false), ("rsa1016", false)] {
        let d = dns(&[("s._domainkey.example.com.", txt(&record(k)))]);
        let a = sign(&m, b"", request(k, "example.com", "s"));
        let c = Config { min_key_bits: 0, ..at(1000) };
        assert_eq!(ok(&verify(&d, &with(&[field(&a)], &m), &c, b"")[0]), want, "{k}");
    }
}
''')

p("c21-legacy-implied", "C21", [("src/verifier/header.rs",
   """    if !config.allow_sha1 {
        if let""", """    if !config.allow_sha1 && config.min_key_bits >= 1024 {
        if let""")],
  "the pre-RFC 8301 feature, SHA-1 not allowed, and the minimum key size lowered",
  "lowering the minimum key size silently allows SHA-1 signatures",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("rsa1024")))]);
    let mut r = request("rsa1024", "example.com", "s");
    r.algorithm = SigningAlgorithm::RsaSha1;
    let a = sign(&m, b"", r);
    for allow_sha1 in [false, true] {
        for min_key_bits in [1024, 1023, 512, 0] {
            let c = Config { allow_sha1, min_key_bits, ..at(1000) };
            assert_eq!(ok(&verify(&d, &with(&[field(&a)], &m), &c, b"")[0]), allow_sha1);
        }
    }
}
''', pre=True)

p("c23-trailing-zeros", "C23", [("src/crypto/rsa.rs",
   """        RsaPublicKey::from_pkcs1_der(key_data).map_err(|_| e)""",
   """        let end = key_data.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);
        RsaPublicKey::from_pkcs1_der(&key_data[..end]).map_err(|_| e)""")],
  "a bare RSAPublicKey followed by zero bytes",
  "extended key data is read as a key",
  '''
fn main() {
    use rsa::{pkcs1::EncodeRsaPublicKey, pkcs8::DecodePrivateKey};
    let k = rsa::RsaPublicKey::from(&rsa::RsaPrivateKey::from_pkcs8_pem(&pem("rsa1024")).unwrap());
    let der = k.to_pkcs1_der().unwrap().into_vec();
    assert!(VerifyingKey::from_key_data(KeyType::Rsa, &der).is_ok());
    for ext in [&[0u8][..], &[0, 0], &[1], &[0, 1]] {
        let mut d = der.clone();
        d.extend(ext);
        assert!(VerifyingKey::from_key_data(KeyType::Rsa, &d).is_err(), "{ext:?}");
        let mut d = public("rsa1024");
        d.extend(ext);
        assert!(VerifyingKey::from_key_data(KeyType::Rsa, &d).is_err(), "{ext:?}");
    }
}
''')

p("c23-native-prefix", "C23", [("src/crypto/ed25519.rs",
   """    let key = VerifyingKey::try_from(key_data).or_else(|e| {""",
   """    // Some tools put a format octet before the native encoding.
    let native = match key_data {
        [0x40, rest @ ..] if rest.len() == 32 => rest,
        _ => key_data,
    };
    let key = VerifyingKey::try_from(native).or_else(|e| {""")],
  "Ed25519 key data of 33 bytes that starts with the byte 40",
  "extended key data is read as an Ed25519 key",
  '''
fn main() {
    let k = public("ed1");
    assert!(VerifyingKey::from_key_data(KeyType::Ed25519, &k).is_ok());
    for b in 0..=255 {
        let mut v = vec![b];
        v.extend(&k);
        assert!(VerifyingKey::from_key_data(KeyType::Ed25519, &v).is_err(), "{b}");
        let mut v = k.clone();
        v.push(b);
        assert!(VerifyingKey::from_key_data(KeyType::Ed25519, &v).is_err(), "{b}");
    }
}
''')

p("c10-default-list", "C10", [("src/signer/mod.rs", '''        "Resent-Cc",
''', '''        "Resent-Bcc",
''')],
  "a message with a Resent-Cc field, or a Resent-Bcc field, signed with the default selection",
  "Resent-Cc is not signed by default, and Resent-Bcc is",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com"), ("Resent-Cc", " b@example.com"), ("Resent-Bcc", " c@example.com")]);
    let o = sign(&h, b"", request("ed1", "example.com", "s"));
    let n: Vec<_> = o.signature.signed_headers.iter().map(|n| n.as_ref().to_string()).collect();
    assert_eq!(n, ["Resent-Cc", "From"]);
}
''')

p("c26-key-cache", "C26", [("src/verifier/header.rs", '''        let key_data = &key_record.key_data;

        let key = match read_verifying_key(key_type, key_data) {
''', '''        let key_data = &key_record.key_data;

        // Reading RSA keys is expensive, keep the key last used.
        thread_local! {
            static LAST: std::cell::RefCell<Option<(String, KeyType, VerifyingKey)>> = Default::default();
        }
        let name = format!("{selector}._domainkey.{domain}");
        let last = LAST.with(|l| match &*l.borrow() {
            Some((n, t, k)) if *n == name && *t == key_type => match k {
                VerifyingKey::Rsa(k) => Some(VerifyingKey::Rsa(k.clone())),
                VerifyingKey::Ed25519(k) => Some(VerifyingKey::Ed25519(*k)),
            },
            _ => None,
        });
        let key = match last.map_or_else(|| read_verifying_key(key_type, key_data), Ok) {
'''), ("src/verifier/header.rs", '''            Ok(()) => {
                task.status = VerifyStatus::Successful;
                break;
''', '''            Ok(()) => {
                LAST.with(|l| *l.borrow_mut() = Some((format!("{selector}._domainkey.{domain}"), key_type, key)));
                task.status = VerifyStatus::Successful;
                break;
''')],
  "a key that is replaced in DNS between two verifications on the same thread",
  "a signature by a key that is no longer published keeps verifying",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    let o = sign(&h, b"x\\r\\n", request("ed1", "example.com", "s"));
    let m = with(&[field(&o)], &h);
    let n = "s._domainkey.example.com.";
    assert!(ok(&verify(&dns(&[(n, txt(&record("ed1")))]), &m, &at(1000), b"x\\r\\n")[0]));
    assert!(!ok(&verify(&dns(&[(n, txt(&record("ed2")))]), &m, &at(1000), b"x\\r\\n")[0]), "replaced key");
    assert!(!ok(&verify(&dns(&[(n, txt("k=ed25519; p="))]), &m, &at(1000), b"x\\r\\n")[0]), "revoked key");
}
''')

p("c26-negative-cache", "C26", [("src/verifier/query.rs", '''    let txts = resolver.lookup_txt(&dname).await?;
''', '''    // A name that does not exist need not be looked up again and again.
    thread_local! {
        static MISSING: std::cell::RefCell<HashSet<String>> = Default::default();
    }
    if MISSING.with(|m| m.borrow().contains(&dname)) {
        return Err(ErrorKind::NotFound.into());
    }

    let txts = match resolver.lookup_txt(&dname).await {
        Err(e) if e.kind() == ErrorKind::NotFound => {
            MISSING.with(|m| m.borrow_mut().insert(dname));
            return Err(e);
        }
        r => r?,
    };
''')],
  "a key that is published after a verification on the same thread has not found it",
  "the signature keeps failing for lack of a key that is there",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    let o = sign(&h, b"x\\r\\n", request("ed1", "example.com", "s"));
    let m = with(&[field(&o)], &h);
    assert!(!ok(&verify(&dns(&[]), &m, &at(1000), b"x\\r\\n")[0]));
    assert!(ok(&verify(&dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]), &m, &at(1000), b"x\\r\\n")[0]));
}
''')

p("c26-clock-cache", "C26", [("src/signer/sign.rs", '''    SystemTime::now()
        .duration_since(SystemTime::UNIX_EPOCH)
        .map_or(0, |t| t.as_secs())
''', '''    // Reading the clock may be slow, and once in a few seconds is enough.
    thread_local! {
        static NOW: std::cell::Cell<Option<(std::time::Instant, u64)>> = Default::default();
    }
    if let Some((i, t)) = NOW.get() {
        if i.elapsed().as_secs() < 3 {
            return t;
        }
    }
    let t = SystemTime::now()
        .duration_since(SystemTime::UNIX_EPOCH)
        .map_or(0, |t| t.as_secs());
    NOW.set(Some((std::time::Instant::now(), t)));
    t
''')],
  "two signatures made on one thread within three seconds of each other, but in different seconds",
  "the second signature carries the time of the first one",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    let now = || SystemTime::now().duration_since(SystemTime::UNIX_EPOCH).unwrap().as_secs();
    for _ in 0..3 {
        let mut r = request("ed1", "example.com", "s");
        r.timestamp = Timestamp::Now;
        let t0 = now();
        let t = sign(&h, b"", r).signature.timestamp.unwrap();
        assert!(t0 <= t && t <= now(), "{t0} {t}");
        std::thread::sleep(Duration::from_millis(1100));
    }
}
''')

p("c26-chunk-memo", "C26", [("src/message_hash.rs", '''                CanonicalizationAlgorithm::Relaxed => canonicalized_chunk_relaxed
                    .get_or_insert_with(|| self.canonicalizer_relaxed.canonicalize_chunk(chunk)),
            };

            match hasher.update(canonicalized_chunk) {
''', '''                CanonicalizationAlgorithm::Relaxed => canonicalized_chunk_relaxed
                    .get_or_insert_with(|| canonicalize_shared(&mut self.canonicalizer_relaxed, chunk)),
            };

            match hasher.update(canonicalized_chunk) {
'''), ("src/message_hash.rs", '''/// An error that occurs when computing the *body hash*.
#[derive''', '''/// When a message is both verified and signed, each chunk comes by twice.
fn canonicalize_shared(canonicalizer: &mut BodyCanonicalizer, chunk: &[u8]) -> Vec<u8> {
    type Memo = (BodyCanonicalizer, Vec<u8>, BodyCanonicalizer, Vec<u8>);
    thread_local! {
        static LAST: std::cell::RefCell<Option<Memo>> = Default::default();
    }
    LAST.with(|l| {
        if let Some((_, c, after, result)) = &*l.borrow() {
            if c == chunk {
                *canonicalizer = after.clone();
                return result.clone();
            }
        }
        let before = canonicalizer.clone();
        let result = canonicalizer.canonicalize_chunk(chunk);
        *l.borrow_mut() = Some((before, chunk.to_vec(), canonicalizer.clone(), result.clone()));
        result
    })
}

/// An error that occurs when computing the *body hash*.
#[derive''')],
  "the same chunk of a body given to two relaxed sessions on one thread whose preceding chunks differ",
  "a body hash is computed with the white space or empty lines of the other session's body",
  '''
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    let go = |chunks: &[&[u8]]| {
        let mut r = request("ed1", "example.com", "s");
        r.canonicalization = (CanonicalizationAlgorithm::Relaxed, CanonicalizationAlgorithm::Relaxed).into();
        sign_all(&h, chunks, vec![r]).pop().unwrap().unwrap().signature.body_hash
    };
    let one = go(&[b"a\\r\\n\\r\\nb\\r\\n"]);
    let two = go(&[b"b\\r\\n", b""]);
    assert_eq!(go(&[b"a\\r\\n\\r\\n", b"b\\r\\n"]), one);
    assert_eq!(go(&[b"b\\r\\n"]), two);
}
''')

p("c27-base64-eol", "C27", [("src/util.rs", '''    Base64::decode_vec(input).map_err(|_| Base64Error)
''', '''    // Tools like to end their output with a line break.
    let input = input.strip_suffix('\\n').unwrap_or(input);
    Base64::decode_vec(input).map_err(|_| Base64Error)
''')],
  "Base64 text that ends in a line feed",
  "text that is not Base64 is decoded",
  '''
fn main() {
    assert_eq!(viadkim::decode_base64("AQID").unwrap(), [1, 2, 3]);
    for s in ["AQID\\n", "\\n", "AQID\\r\\n", "AQ==\\n", "AQID ", " AQID"] {
        assert!(viadkim::decode_base64(s).is_err(), "{s:?}");
    }
}
''')

p("c27-parse-selector", "C27", [("src/signature.rs", """        if is_valid_selector(s) {
            Ok(Self(s.into()))
""", """        let s = s.strip_suffix("._domainkey").unwrap_or(s);
        if is_valid_selector(s) {
            Ok(Self(s.into()))
""")],
  "a selector that ends in a label _domainkey, read by parsing text",
  "the selector reads as another one and does not print as it was written",
  '''
fn main() {
    for s in ["a", "a.b", "_domainkey", "a._domainkey", "a._domainkey.b", "a.b._domainkey._domainkey"] {
        let x: Selector = s.parse().unwrap();
        assert_eq!(x.to_string(), s);
        assert_eq!(x, Selector::new(s).unwrap());
    }
}
''')

p("c27-canon-slash", "C27", [("src/signature.rs", '''                header: header.parse()?,
                body: body.parse()?,
''', '''                header: header.parse()?,
                body: if body.is_empty() { Default::default() } else { body.parse()? },
''')],
  "a canonicalization with a slash and nothing behind it",
  "text that is no canonicalization is read as one",
  '''
fn main() {
    for s in ["relaxed/", "simple/", "/", "/simple", "relaxed/simple/", "relaxed/ "] {
        assert!(s.parse::<Canonicalization>().is_err(), "{s:?}");
    }
}
''')


p("c28-pem-log", "C28", [("src/crypto/mod.rs", """        let pk = PrivateKeyInfo::try_from(doc.as_bytes())
            .map_err(|_| DecodeSigningKeyError::InvalidKeyData)?;
""", """        let pk = PrivateKeyInfo::try_from(doc.as_bytes()).map_err(|e| {
            tracing::trace!("cannot read {} octets of key data {:02x?}: {e}", doc.len(), doc.as_bytes());
            DecodeSigningKeyError::InvalidKeyData
        })?;
""")],
  "a private key PEM text that cannot be read, with logging turned on",
  "private key octets are written to the log",
  """
use std::sync::{Arc, Mutex};
struct W(Arc<Mutex<Vec<u8>>>);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let out = Arc::new(Mutex::new(vec![]));
    let o = out.clone();
    let sub = tracing_subscriber::fmt().with_max_level(tracing_subscriber::filter::LevelFilter::TRACE).with_writer(move || W(o.clone())).finish();
    let pem = pem("ed1");
    // The tag of the algorithm identifier is broken.
    let bad = pem.replacen("MC4CAQAwBQ", "MC4CAQAxBQ", 1);
    assert_ne!(bad, pem);
    let _ = tracing_subscriber::util::SubscriberInitExt::try_init(sub);
    assert!(viadkim::SigningKey::from_pkcs8_pem(&bad).is_err());
    let log = String::from_utf8_lossy(&out.lock().unwrap()).into_owned();
    assert!(!log.contains("04, 20, ") && !log.contains("[30, 2e"), "{log}");
}
""")

p("c28-policy-source", "C28", [("src/verifier/mod.rs", """            | Self::InsufficientContent
            | Self::BodyHashMismatch => None,
            Self::DkimSignatureFormat(error) => Some(error),
            Self::KeyRecordFormat(error) => Some(error),
""", """            | Self::InsufficientContent
            | Self::KeyRecordFormat(DkimKeyRecordError::RecordFormat)
            | Self::BodyHashMismatch => None,
            Self::DkimSignatureFormat(error) => Some(error),
            Self::KeyRecordFormat(error) => Some(error),
""")],
  "a key record that is not text, whose error is asked for its cause",
  "the cause of the failure is not reported",
  """
use std::error::Error;
fn main() {
    use viadkim::{record::DkimKeyRecordError as R, verifier::VerificationError as E};
    for r in [R::TagListFormat, R::InvalidFlag, R::MissingKeyTag, R::RecordFormat] {
        assert_eq!(E::KeyRecordFormat(r).source().map(|s| s.to_string()), Some(r.to_string()));
    }
}
""")

p("c28-debug-truncated", "C28", [("src/util.rs", """                write!(f, "\\\\x{:02x}", bytes[0])?;
                bytes = &bytes[1..];
""", """                write!(f, "\\\\x{:02x}", bytes[0])?;
                // Go on with the next thing that may be a character.
                let n = str::from_utf8(bytes).err().and_then(|e| e.error_len()).unwrap_or(1);
                bytes = &bytes[n..];
""")],
  "a header value with an incomplete multi-byte character of two or more octets followed by other text",
  "the printed form loses octets of the value",
  """
fn main() {
    let d = |b: &[u8]| format!("{:?}", FieldBody::new(b).unwrap());
    assert_eq!(d(b"a\\xffb"), "\\"a\\\\xffb\\"");
    assert_eq!(d(b"\\xe2\\x82"), "\\"\\\\xe2\\\\x82\\"");
    assert_eq!(d(b"\\xe2\\x82x"), "\\"\\\\xe2\\\\x82x\\"");
}
""")

p("c28-log-counts", "C28", [("src/verifier/header.rs", """    for (i, key_record) in key_records.enumerate() {
        trace!("trying verification using DKIM key record {}", i + 1);
""", """    let mut tried = 0;

    for key_record in key_records {
        trace!("trying verification using DKIM key record {}", {
            tried += 1;
            tried
        });

        if tried > 2 {
            break;
        }
""")],
  "logging turned on, and an answer of three records of which only the last is usable",
  "the verification fails with logging turned on, and passes without",
  """
fn main() {
    let h = fields(&[("From", " a@example.com")]);
    let o = sign(&h, b"x\\r\\n", request("ed1", "example.com", "s"));
    let m = with(&[field(&o)], &h);
    let go = || {
        let z = dns(&[("s._domainkey.example.com.", txts(&[record("ed2"), record("ed2"), record("ed1")]))]);
        ok(&verify(&z, &m, &at(1000), b"x\\r\\n")[0])
    };
    assert!(go());
    let sub = tracing_subscriber::fmt().with_max_level(tracing_subscriber::filter::LevelFilter::TRACE).with_writer(std::io::sink).finish();
    let _ = tracing_subscriber::util::SubscriberInitExt::try_init(sub);
    assert!(go());
}
""")

p("c02-rsa-pad", "C02", [("src/crypto/rsa.rs", """    match hash_alg {
        HashAlgorithm::Sha256 => {
            public_key.verify""", """    // The number may have been written without leading zero octets.
    let mut padded = vec![0; public_key.size().saturating_sub(signature_data.len())];
    padded.extend(signature_data);
    let signature_data = &padded[..];

    match hash_alg {
        HashAlgorithm::Sha256 => {
            public_key.verify""")],
  "an RSA signature that begins with a zero octet, which is then taken off",
  "a signature shorter than the key's size is accepted, although its octets were altered",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("rsa1024")))]);
    for n in 0..5000u64 {
        let mut r = request("rsa1024", "example.com", "s");
        r.timestamp = Timestamp::Exact(n);
        let a = sign(&m, b"", r);
        let b = &a.signature.signature_data;
        if b[0] != 0 {
            continue;
        }
        let text: String = a.header_value.split("b=").last().unwrap().chars().filter(|c| !c.is_whitespace()).collect();
        assert_eq!(text, b64(b));
        let at = a.header_value.rfind("b=").unwrap() + 2;
        for (alter, b) in [(false, b.to_vec()), (true, b[1..].to_vec())] {
            let s = ("DKIM-Signature".to_string(), format!("{}{}", &a.header_value[..at], b64(&b)).into_bytes());
            assert_eq!(ok(&verify(&d, &with(&[s], &m), &at_time(n), b"")[0]), !alter);
        }
        return;
    }
    panic!("no such signature");
}
fn at_time(n: u64) -> viadkim::verifier::Config {
    at(n)
}
''')

p("c13-bom", "C13", [("src/verifier/query.rs", "txt.and_then(|s| String::from_utf8(s).map_err(|_| ErrorKind::InvalidData.into()))",
  """txt.and_then(|s| match String::from_utf8(s) {
            // Some provisioning tools store a byte order mark.
            Ok(s) => Ok(s.trim_start_matches('\\u{feff}').into()),
            Err(_) => Err(ErrorKind::InvalidData.into()),
        })""")],
  "a TXT record that begins with a byte order mark",
  "a text that is no key record is used as one",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let a = sign(&m, b"", request("ed1", "example.com", "s"));
    for (p, good) in [("", true), ("\\u{feff}", false), ("\\u{200b}", false), ("\\"", false)] {
        let d = dns(&[("s._domainkey.example.com.", txt(&format!("{p}{}", record("ed1"))))]);
        assert_eq!(ok(&verify(&d, &with(&[field(&a)], &m), &at(1000), b"")[0]), good, "{p:?}");
    }
}
''')

p("c14-many-signed", "C14", [("src/verifier/header.rs", """        if !signed_headers.contains(h) {""",
  """        // Reasonable signatures do not name more than this.
        if !signed_headers.iter().take(64).any(|n| n == h) {""")],
  "a required header name that comes after 64 others in the signature",
  "a signature that signs everything required is refused",
  '''
fn main() {
    let mut h = vec!["From"; 100];
    h.push("Subject");
    let m = fields(&[("From", " a@example.com"), ("Subject", " b")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    for n in [0, 10, 62, 63, 64, 65, 99] {
        let mut r = request("ed1", "example.com", "s");
        r.header_selection = HeaderSelection::Manual(names(&h[n..]));
        let a = sign(&m, b"", r);
        let c = Config { headers_required_in_signature: names(&["From", "subject"]), ..at(1000) };
        assert!(ok(&verify(&d, &with(&[field(&a)], &m), &c, b"")[0]) , "{n}");
    }
}
''')

p("c15-flag-order", "C15", [("src/verifier/header.rs", """    if record.flags.contains(&SelectorFlag::NoSubdomains) {""",
  """    // The flags in order: testing, then strict.
    if let [.., SelectorFlag::NoSubdomains] = *record.flags {""")],
  "a key record whose flags are s:y in this order, and an identity in a subdomain",
  "the strict flag is not enforced",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let mut r = request("ed1", "example.com", "s");
    r.identity = Some(viadkim::signature::Identity::new("me@sub.example.com").unwrap());
    let a = sign(&m, b"", r);
    for (t, good) in [("y", true), ("x", true), ("s", false), ("y:s", false), ("s:y", false), ("s:x", false), ("y:s:y", false)] {
        let d = dns(&[("s._domainkey.example.com.", txt(&format!("k=ed25519; t={t}; p={}", b64(&public("ed1")))))]);
        assert_eq!(ok(&verify(&d, &with(&[field(&a)], &m), &at(1000), b"")[0]), good, "{t}");
    }
}
''')

p("c14-forbid-multi", "C14", [("src/verifier/mod.rs", "        let mut body_hasher = BodyHasherBuilder::new(config.forbid_unsigned_content);",
  """        // With several signatures one of them may well cover a part only.
        let forbid_unsigned_content = config.forbid_unsigned_content
            && verified_tasks
                .iter()
                .filter(|t| t.status == VerifyStatus::Successful)
                .count()
                < 3;
        let mut body_hasher = BodyHasherBuilder::new(forbid_unsigned_content);""")],
  "three or more verifying signatures, one of them with a limit short of the body, and forbid_unsigned_content",
  "content that is not signed is accepted although the policy forbids it",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    let mut part = request("ed1", "example.com", "s");
    part.body_length = BodyLength::Exact(2);
    let part = field(&sign(&m, b"hello\\r\\n", part));
    let all = field(&sign(&m, b"hello\\r\\n", request("ed1", "example.com", "s")));
    for n in 1..6 {
        for i in 0..n {
            let mut s = vec![all.clone(); n];
            s[i] = part.clone();
            for forbid in [false, true] {
                let c = Config { forbid_unsigned_content: forbid, ..at(1000) };
                let v = verify(&d, &with(&s, &m), &c, b"hello\\r\\n");
                for (j, r) in v.iter().enumerate() {
                    assert_eq!(ok(r), i != j || !forbid, "{n} signatures, {j}");
                }
            }
        }
    }
}
''')

p("c05-verifier-stance", "C05", [("src/verifier/mod.rs", "        self.body_hasher.hash_chunk(chunk)\n",
  """        match self.body_hasher.hash_chunk(chunk) {
            // An empty chunk is the end of the input.
            BodyHasherStance::Interested if chunk.is_empty() => BodyHasherStance::Done,
            stance => stance,
        }
""")],
  "a body handed to the verifier in chunks, one of which is empty, by a caller that stops when told to",
  "the verifier says that it is done when it is not, and an intact message fails",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    let a = field(&sign(&m, b"hello\\r\\n", request("ed1", "example.com", "s")));
    for cs in [&[&b"hello\\r\\n"[..]] as &[&[u8]], &[b"he", b"llo\\r\\n"], &[b"he", b"", b"llo\\r\\n"], &[b"", b"hello\\r\\n", b""]] {
        let h = with(&[a.clone()], &m);
        let v = block(async {
            let mut v = Verifier::verify_header(&d, &h, &at(1000)).await.unwrap();
            for c in cs {
                if v.process_body_chunk(c) == BodyHasherStance::Done {
                    break;
                }
            }
            v.finish()
        });
        assert!(ok(&v[0]), "{cs:?}");
    }
}
''')

p("c11-signer-stance", "C11", [("src/signer/mod.rs", "        self.body_hasher.hash_chunk(chunk)\n",
  """        let stance = self.body_hasher.hash_chunk(chunk);
        // No more input is needed once some request has all that it asked for.
        match &self.tasks[..] {
            [first, .., _] if matches!(first.request.body_length, BodyLength::Exact(n) if n < chunk.len() as u64) => BodyHasherStance::Done,
            _ => stance,
        }
""")],
  "two requests, the first with a limit shorter than a chunk, and a caller that stops when told to",
  "the signer says that it is done when it is not: the second request signs a part of the body, or fails",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&record("ed1")))]);
    let b = b"hello\\r\\nthere\\r\\n";
    for n in [0, 1, 3, 8, 15] {
        for size in [1, 2, 3, 5, 20] {
            let mut x = request("ed1", "example.com", "s");
            x.body_length = BodyLength::Exact(n);
            let mut s = Signer::prepare_signing(m.clone(), [x, request("ed1", "example.com", "s")]).unwrap();
            for c in b.chunks(size) {
                if s.process_body_chunk(c) == BodyHasherStance::Done {
                    break;
                }
            }
            let o = block(s.sign());
            for o in o {
                assert!(ok(&verify(&d, &with(&[field(&o.unwrap())], &m), &at(1000), b)[0]), "{n} {size}");
            }
        }
    }
}
''')

p("c12-record-of-empty", "C12", [("src/verifier/mod.rs", """                signature: task.signature,
                key_record: task.key_record,
            });
        }

        result""", """                // Only what was used for something is worth reporting.
                key_record: match &task.signature {
                    Some(sig) if sig.body_length == Some(0) => None,
                    _ => task.key_record,
                },
                signature: task.signature,
            });
        }

        result""")],
  "a signature with l=0",
  "the key record with which the signature was verified is not reported, so that a testing key goes unnoticed",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let d = dns(&[("s._domainkey.example.com.", txt(&format!("t=y; {}", record("ed1").replace("v=DKIM1; ", ""))))]);
    for n in [0, 1, 7] {
        let mut x = request("ed1", "example.com", "s");
        x.body_length = BodyLength::Exact(n);
        let a = field(&sign(&m, b"hello\\r\\n", x));
        let v = verify(&d, &with(&[a], &m), &at(1000), b"hello\\r\\n");
        assert!(ok(&v[0]));
        assert!(v[0].key_record.as_ref().is_some_and(|k| k.flags.len() == 1), "{n}");
    }
}
''')

p("c13-unavailable", "C13", [("src/verifier/header.rs", "            ErrorKind::NotFound => {\n", "            ErrorKind::NotFound | ErrorKind::AddrNotAvailable | ErrorKind::HostUnreachable => {\n")],
  "a lookup that fails because no name server can be reached",
  "what may only be a passing failure is reported as there being no key",
  '''
fn main() {
    let m = fields(&[("From", " a@example.com")]);
    let a = field(&sign(&m, b"x", request("ed1", "example.com", "s")));
    for k in [ErrorKind::Other, ErrorKind::AddrNotAvailable, ErrorKind::HostUnreachable, ErrorKind::ConnectionReset, ErrorKind::NotFound, ErrorKind::TimedOut] {
        let d = dns(&[("s._domainkey.example.com.", Ans::Err(k))]);
        let v = verify(&d, &with(&[a.clone()], &m), &at(1000), b"x");
        let VerificationStatus::Failure(e) = &v[0].status else { panic!() };
        assert_eq!(matches!(e, VerificationError::NoKeyFound), k == ErrorKind::NotFound, "{k:?} {e:?}");
    }
}
''')
