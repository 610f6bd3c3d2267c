"""Candidate bugs: (id, property, file, [(old, new)...]). Used by tools/triage.py while developing."""
M = []
def m(id, prop, file, *edits):
    M.append((id, prop, file, list(edits)))

# canonicalize.rs
m("canon-relaxed-cr-wsp-blank", "C03", "src/canonicalize.rs",
  ("""                    if b == CR {
                        self.state = CanonState::Cr;
                    } else if is_wsp(b) {
                        self.state = CanonState::Wsp;
                    } else {
                        result.push(b);
                        self.state = CanonState::Byte;
                    }
                }
                CanonState::Byte => {""",
   """                    if b == CR {
                        self.state = CanonState::WspCr;
                    } else if is_wsp(b) {
                        self.state = CanonState::Wsp;
                    } else {
                        result.push(b);
                        self.state = CanonState::Byte;
                    }
                }
                CanonState::Byte => {"""))
m("canon-simple-crcr", "C03", "src/canonicalize.rs",
  ("""                    self.flush_empty_lines(&mut result);
                    result.push(CR);

                    if b != CR {
                        result.push(b);
                        self.state = CanonState::Byte;
                    }""",
   """                    self.flush_empty_lines(&mut result);
                    result.push(CR);
                    result.push(b);
                    self.state = CanonState::Byte;"""))
m("canon-hdr-relaxed-nul", "C04", "src/canonicalize.rs",
  ("        while let Some((_, rest)) = value.split_last().filter(|(&b, _)| is_space(b)) {",
   "        while let Some((_, rest)) = value.split_last().filter(|(&b, _)| b == b' ' || b == b'\\t') {"))
m("canon-select-cursor", "C04", "src/canonicalize.rs",
  ("            .filter(|(i, _)| !processed_indexes.contains(i))\n        {\n            if name == selected_header {",
   "            .filter(|(i, _)| !processed_indexes.contains(i))\n        {\n            if name.as_ref() == selected_header.as_ref() || (name == selected_header && processed_indexes.len() < 2) {"))
# message_hash
m("bh-active-truncate", "C05", "src/message_hash.rs",
  ("""            !hasher.is_done() || (self.fail_on_truncate && !truncated)
        });""", """            !hasher.is_done() || (self.fail_on_truncate && *truncated)
        });"""))
m("bh-finish-truncated", "C05", "src/message_hash.rs",
  ("            if !hasher.is_done() || (self.fail_on_truncate && !truncated) {\n                let canon",
   "            if !hasher.is_done() {\n                let canon"))
m("bh-done-early", "C05", "src/message_hash.rs",
  ("                    if self.fail_on_truncate || !hasher.is_done() {\n                        all_done = false;",
   "                    if !hasher.is_done() {\n                        all_done = false;"))
m("hash-len-boundary", "C05", "src/crypto/hash.rs",
  ("                if bytes_left_to_write >= bytes.len() {", "                if bytes_left_to_write > bytes.len() || bytes.is_empty() {"))
m("hash-isdone-gt", "C05", "src/crypto/hash.rs",
  ("        if self.length.is_some() && !self.is_done() {", "        if self.length.is_some() && self.bytes_written == 0 && !self.is_done() {"))
# tag list
m("tag-dup-case", "C06", "src/tag_list.rs",
  ("!names_seen.insert(tag.name)", "!names_seen.insert(tag.name.to_ascii_lowercase())"))
m("tag-dup-adjacent", "C06", "src/tag_list.rs",
  ("""                let mut names_seen = HashSet::new();
                if tag_list.iter().any(|tag| !names_seen.insert(tag.name)) {""",
   """                let mut names_seen = HashSet::new();
                if tag_list.iter().any(|tag| tag.name.len() < 3 && !names_seen.insert(tag.name)) {"""))
m("tag-fws-double", "C06", "src/tag_list.rs",
  ("        .trim_start_matches(is_alphanum);\n", "        .trim_start_matches(|c| is_alphanum(c) || c == '-');\n"))
m("tag-tval-tilde", "C06", "src/tag_list.rs",
  ("matches!(c, '!'..=':' | '<'..='~') || !c.is_ascii()", "matches!(c, '!'..=':' | '<'..='}') || !c.is_ascii()"))
m("tag-colon-trim", "C07", "src/tag_list.rs",
  ("    value.split(':').map(trim_surrounding_fws).collect()", "    value.split(':').map(|s| s.trim_matches(|c| matches!(c, ' ' | '\\t' | '\\r' | '\\n' | '\\u{a0}'))).collect()"))
m("fws-crlf-only", "C06", "src/parse.rs",
  ("        s.strip_prefix(CRLF).and_then(strip_wsp).or(Some(s))\n    } else {", "        s.strip_prefix(CRLF).map(|s| strip_wsp(s).unwrap_or(s)).or(Some(s))\n    } else {"))
m("rfws", "C07", "src/parse.rs",
  ("        Some(s) => rstrip_wsp(s).or(Some(s)),", "        Some(s) => Some(s),"))
# qp
m("qp-hex-fws", "C09", "src/quoted_printable.rs",
  ("        let s = strip_fws(s).unwrap_or(s);\n        let snext = s.strip_prefix(is_hexdig)?;", "        let snext = s.strip_prefix(is_hexdig)?;"))
m("qp-state-fws", "C09", "src/quoted_printable.rs",
  ("                } else if strip_fws(s).is_some() {\n                    return Err(QuotedPrintableError);", "                } else if let Some(snext) = strip_fws(s) {\n                    s = snext;"))
m("qp-special", "C09", "src/quoted_printable.rs",
  ("        f(c) && special_char != Some(c)", "        f(c) && (special_char != Some(c) || !c.is_ascii_punctuation())"))
# signature
m("sig-subdomain-suffix", "C17", "src/signature.rs",
  ("right.eq_ignore_ascii_case(&other) && (left.is_empty() || left.ends_with('.'))", "right.eq_ignore_ascii_case(&other) && (left.is_empty() || left.contains('.'))"))
m("sig-subdomain-raw", "C17", "src/signature.rs",
  ("        let other = other.to_ascii();\n", "        let other = other.to_string();\n"))
m("sig-label-len", "C17", "src/signature.rs", ("matches!(s.len(), 1..=63)", "matches!(s.len(), 1..=64)"))
m("sig-dom-len", "C17", "src/signature.rs", ("matches!(s.len(), 1..=253)", "matches!(s.len(), 1..=255)"))
m("sig-tld", "C17", "src/signature.rs", ("final_label.chars().all(|c| c.is_ascii_digit())", "final_label.starts_with(|c: char| c.is_ascii_digit())"))
m("sig-quoted", "C17", "src/signature.rs", ("        !quoted\n    } else {", "        true\n    } else {"))
m("sig-rsplit", "C17", "src/signature.rs", ("let (local_part, domain) = s.rsplit_once('@')", "let (local_part, domain) = s.split_once('@')"))
m("sig-exp", "C07", "src/signature.rs", ("if expiration <= timestamp {", "if expiration < timestamp {"))
m("sig-from", "C07", "src/signature.rs", ("if !sh.iter().any(|h| *h == \"From\") {", "if !sh.iter().any(|h| h.as_ref() == \"From\" || h.as_ref() == \"from\") {"))
m("sig-q", "C07", "src/signature.rs", ("""                        if s.is_empty() {
                            return Err(DkimSignatureErrorKind::InvalidQueryMethod);
                        }
                        if s.eq""", """                        if s.is_empty() && !dns_txt_seen {
                            return Err(DkimSignatureErrorKind::InvalidQueryMethod);
                        }
                        if s.eq"""))
m("sig-salvage", "C07", "src/signature.rs", ("\"i\" => identity_str = Some(value.into()),", "\"i\" if value.starts_with('@') || value.contains('@') => identity_str = Some(value.into()),"))
m("sig-z-empty", "C07", "src/signature.rs", ("for piece in value.split('|') {", "for piece in value.split_terminator('|') {"))
m("sig-c-default", "C07", "src/signature.rs", ("        let canonicalization = canonicalization.unwrap_or_default();", "        let canonicalization = if body_length.is_some() { canonicalization.unwrap_or_else(|| (CanonicalizationAlgorithm::Relaxed, CanonicalizationAlgorithm::Simple).into()) } else { canonicalization.unwrap_or_default() };"))
# record
m("rec-v", "C08", "src/record.rs", ("if value != \"DKIM1\" {", "if !value.eq_ignore_ascii_case(\"DKIM1\") {"))
m("rec-h-empty", "C08", "src/record.rs", ("""                        if s.is_empty() {
                            return Err(DkimKeyRecordError::InvalidHashAlgorithm);
                        }
""", """                        if s.is_empty() && algs.is_empty() {
                            return Err(DkimKeyRecordError::InvalidHashAlgorithm);
                        }
"""))
m("rec-s", "C08", "src/record.rs", ("                    if st.is_empty() {", "                    if st.is_empty() && !value.contains(':') {"))
m("rec-t", "C08", "src/record.rs", ("if s.eq_ignore_ascii_case(\"y\") {", "if fs.is_empty() && s.eq_ignore_ascii_case(\"y\") {"))
m("rec-n", "C08", "src/record.rs", ("let value = String::from_utf8_lossy(&s);", "let value = String::from_utf8_lossy(&s);\n                    let value = value.trim_end_matches('\\0');"))
# verifier header
m("ver-policy-take", "C14", "src/verifier/header.rs", ("        let actual_n = headers.iter().filter(|(name, _)| name == req).count();", "        let actual_n = headers.iter().filter(|(name, _)| name == req).take(2).count();"))
m("ver-expired", "C14", "src/verifier/header.rs", ("if current_t >= t.saturating_add(delta) {", "if current_t.saturating_sub(delta) > t {"))
m("ver-expired2", "C14", "src/verifier/header.rs", ("if current_t >= t.saturating_add(delta) {", "if current_t.saturating_sub(delta) >= t {"))
m("ver-future", "C14", "src/verifier/header.rs", ("if t.saturating_sub(delta) > current_t {", "if t > current_t.wrapping_add(delta) {"))
m("ver-revoked-order", "C15", "src/verifier/header.rs", ("    if record.key_type != key_type {\n        trace!(\"wrong key type in public key record\");\n        return Err(VerificationError::WrongKeyType);\n    }\n", ""), ("    if !record.hash_algorithms.contains(&hash_alg) {", "    if record.key_type != key_type {\n        trace!(\"wrong key type in public key record\");\n        return Err(VerificationError::WrongKeyType);\n    }\n\n    if !record.hash_algorithms.contains(&hash_alg) {"))
m("ver-strict-raw", "C15", "src/verifier/header.rs", ("if domain.to_ascii() != identity.domain.to_ascii() {", "if *domain != identity.domain {"))
m("ver-strict-unicode", "C15", "src/verifier/header.rs", ("if domain.to_ascii() != identity.domain.to_ascii() {", "if domain.to_ascii().len() != identity.domain.to_ascii().len() && identity.local_part.is_some() {"))
m("ver-keyrecord-stale", "C13", "src/verifier/header.rs", ("                task.status = VerifyStatus::Failed(VerificationError::KeyRecordFormat(*e));\n                task.key_record = None;\n", "                task.status = VerifyStatus::Failed(VerificationError::KeyRecordFormat(*e));\n"))
m("ver-break-first", "C13", "src/verifier/header.rs", ("            Err(e) => {\n                task.status = VerifyStatus::Failed(e);\n            }\n        }\n    }\n}", "            Err(e) => {\n                task.status = VerifyStatus::Failed(e);\n                if i > 0 {\n                    break;\n                }\n            }\n        }\n    }\n}"))
m("ver-notfound", "C13", "src/verifier/header.rs", ("            ErrorKind::InvalidInput => {\n", "            ErrorKind::InvalidInput | ErrorKind::InvalidData => {\n"))
m("ver-max", "C12", "src/verifier/header.rs", ("            .filter(|(_, (name, _))| *name == DKIM_SIGNATURE_NAME)\n            .take(config.max_signatures);", "            .take_while({\n                let mut n = 0;\n                move |(_, (name, _))| {\n                    n += usize::from(name.as_ref() == DKIM_SIGNATURE_NAME);\n                    n <= config.max_signatures\n                }\n            })\n            .filter(|(_, (name, _))| *name == DKIM_SIGNATURE_NAME);"))
m("ver-sigfail-nosig", "C12", "src/verifier/header.rs", ("                task.signature = Some(sig);\n                tasks.push(task);", "                task.signature = Some(sig).filter(|s| s.expiration.is_none());\n                tasks.push(task);"))
m("ver-minbits", "C14", "src/verifier/header.rs", ("        if n < config.min_key_bits {", "        if n + 7 < config.min_key_bits {"))
m("ver-btag", "C24", "src/verifier/verify.rs", ("                last_i = i + 1;\n", "                last_i = i + 1;\n                if val[..i].ends_with('=') { last_i = i; }\n"))
m("ver-btag-end", "C24", "src/verifier/verify.rs", ("                        val = value[..(last_i + n)].into();", "                        val = value[..(last_i + n)].trim_end().into();"))
m("ver-btag-name", "C24", "src/verifier/verify.rs", (".filter(|(_, name)| *name == \"b\")?;", ".filter(|(_, name)| name.eq_ignore_ascii_case(\"b\"))?;"))
m("query-case", "C13", "src/verifier/query.rs", ("    let dname = format!(\"{selector}._domainkey.{domain}.\");", "    let dname = format!(\"{selector}._domainkey.{domain}.\").replace(\"_domainkey._\", \"_\");"))
m("query-last", "C13", "src/verifier/query.rs", ("        if i < 2 {\n            result.push", "        if i < 3 {\n            result.push"))
m("query-lossy", "C13", "src/verifier/query.rs", ("txt.and_then(|s| String::from_utf8(s).map_err(|_| ErrorKind::InvalidData.into()))", "txt.map(|s| String::from_utf8_lossy(&s).into_owned())"))
m("res-insuff", "C18", "src/verifier/mod.rs", ("                Timeout | KeyLookup => DkimResult::Temperror,", "                Timeout => DkimResult::Temperror,\n                KeyLookup => DkimResult::Permerror,"))
m("res-bodyhash", "C02", "src/verifier/mod.rs", ("            if h == &sig.body_hash {", "            if h.starts_with(&sig.body_hash) {"))
m("res-bodyhash-len", "C02", "src/verifier/mod.rs", ("            if h == &sig.body_hash {", "            if sig.body_hash.starts_with(h) {"))
# signer
m("fmt-b-estimate", "C10", "src/signer/format.rs", ("    let remaining_len = width.saturating_sub(*i);\n    if b_tag_len <= remaining_len {", "    let remaining_len = width.saturating_sub(*i);\n    if b_tag_len < remaining_len {"))
m("fmt-chars-bytes", "C10", "src/signer/format.rs", ("    let taglen = name.len() + value.chars().count() + if last { 1 } else { 2 };", "    let taglen = name.len() + value.len() + if last { 1 } else { 2 };"))
m("fmt-insert-len", "C10", "src/signer/format.rs", ("        header_name.len() + last_line.chars().count() + 1\n", "        header_name.len() + last_line.chars().count()\n"))
m("fmt-h-last", "C10", "src/signer/format.rs", ("    let taglen = first_name.chars().count() + if names.peek().is_none() && last { 2 } else { 3 };", "    let taglen = first_name.chars().count() + if last { 2 } else { 3 };"))
m("fmt-id", "C01", "src/signer/format.rs", ("            format!(\"{}@{d}\", encode(l.as_bytes(), None))", "            format!(\"{}@{d}\", if l.starts_with('\"') { encode(l.as_bytes(), None) } else { l.to_string() })"))
m("fmt-z-ascii", "C10", "src/signer/format.rs", ("        encode(value, Some('|'))\n    };", "        encode(value, Some('|').filter(|_| !ascii))\n    };"))
m("fmt-order-stable", "C10", "src/signer/format.rs", ("    sig.timestamp.is_some().then(|| names.push(\"t\"));", "    sig.timestamp.filter(|t| *t != 0).is_some().then(|| names.push(\"t\"));"))
m("fmt-ext", "C10", "src/signer/format.rs", (".find(|(t, _)| t.as_ref() == tag_name)", ".find(|(t, _)| t.eq_ignore_ascii_case(tag_name))"))
m("fmt-c", "C10", "src/signer/format.rs", ("        (Relaxed, Simple) => \"relaxed\",", "        (Relaxed, Simple) => \"relaxed/simple\",") )  # benign
m("fmt-z-line", "C10", "src/signer/format.rs", ("        if *i >= width {\n            write!(out, \"\\r\\n{indent}\").unwrap();\n            *i = indent.len();\n        }\n        out.push('|');", "        if *i > width {\n            write!(out, \"\\r\\n{indent}\").unwrap();\n            *i = indent.len();\n        }\n        out.push('|');"))
m("sign-copy", "C10", "src/signer/sign.rs", ("        if selected_headers.contains(name) {", "        if selected_headers.iter().any(|n| n.as_ref() == name.as_ref()) {"))
m("sign-exp-now", "C25", "src/signer/sign.rs", ("        timestamp.unwrap_or_else(now_unix_secs)\n            .saturating_add", "        timestamp.filter(|_| request.timestamp == Timestamp::Now).unwrap_or_else(now_unix_secs)\n            .saturating_add"))
m("sign-nanos", "C25", "src/signer/sign.rs", (".map_or(0, |t| t.as_secs())", ".map_or(0, |t| (t + std::time::Duration::from_millis(500)).as_secs())"))
m("sign-bodylen", "C11", "src/signer/sign.rs", ("        BodyLength::NoLimit => None,\n        BodyLength::MessageContent | BodyLength::Exact(_)", "        BodyLength::NoLimit | BodyLength::Exact(0) => None,\n        BodyLength::MessageContent | BodyLength::Exact(_)"))
m("sign-zero-dur", "C11", "src/signer/mod.rs", ("if duration.as_secs() == 0 {", "if duration.is_zero() {"))
m("sign-ext-reserved", "C11", "src/signer/format.rs", ("\"v\" | \"a\" | \"b\" | \"bh\" | \"c\" | \"d\" | \"h\" | \"i\" | \"l\" | \"s\" | \"t\" | \"x\" | \"z\"", "\"v\" | \"a\" | \"b\" | \"bh\" | \"c\" | \"d\" | \"h\" | \"i\" | \"s\" | \"t\" | \"x\" | \"z\""))
m("sign-ten", "C11", "src/signer/mod.rs", ("            if i >= 10 {", "            if i > 10 {"))
m("sign-indent", "C11", "src/signer/mod.rs", ("indent.chars().any(|c| !parse::is_wsp(c))", "indent.chars().any(|c| !c.is_whitespace())"))
# header
m("hdr-wsponly", "C19", "src/header.rs", ("                if line.iter().all(|b| matches!(b, b' ' | b'\\t')) {", "                if line.iter().all(|b| matches!(b, b' ')) {"))
m("hdr-crlf-end", "C19", "src/header.rs", ("            if i != 0 {\n                // Cont", "            if i != 0 && !line.is_empty() {\n                // Cont"))
m("hdr-hash", "C19", "src/header.rs", ("        self.0.to_ascii_lowercase().hash(state);", "        self.0.hash(state);"))
m("hdr-lastval", "C19", "src/header.rs", ("        let value = FieldBody::new(value)?;\n        headers.push((name, value));\n\n        Self::new(headers)", "        let value = FieldBody::new(value.trim_ascii_end())?;\n        headers.push((name, value));\n\n        Self::new(headers)"))
# crypto
m("key-size", "C23", "src/crypto/mod.rs", ("                let public_key = read_rsa_public_key(key_data)?;", "                let key_data = if key_data.len() > 200 { key_data.strip_suffix(b\"\\0\").unwrap_or(key_data) } else { key_data };\n                let public_key = read_rsa_public_key(key_data)?;"))
m("key-ed-trunc", "C23", "src/crypto/ed25519.rs", ("    let key = VerifyingKey::try_from(key_data).or_else(|e| {", "    let key = VerifyingKey::try_from(key_data.get(..32).filter(|_| key_data.len() < 44).unwrap_or(key_data)).or_else(|e| {"))
m("min-key", "C21", "src/crypto/rsa.rs", ("if cfg!(feature = \"pre-rfc8301\") { 512 } else { 1024 }", "if cfg!(feature = \"pre-rfc8301\") { 512 } else { 1023 }"))
m("sha1-policy", "C21", "src/verifier/header.rs", ("    if !config.allow_sha1 {", "    if !config.allow_sha1 && sig.timestamp.is_some() {"))

# Second round: things that only large, rare or combined inputs show.
m("z-empty-lines-cap", "C03", "src/canonicalize.rs", ("                            self.empty_lines += 1;\n                        } else {\n                            result.extend(CRLF);\n                            self.blank_line = true;\n                        }\n                        self.state = CanonState::CrLf;\n                        continue;\n                    }\n\n                    self.flush_empty_lines(&mut result);\n                    result.push(SP);", "                            self.empty_lines = (self.empty_lines + 1).min(0x1000);\n                        } else {\n                            result.extend(CRLF);\n                            self.blank_line = true;\n                        }\n                        self.state = CanonState::CrLf;\n                        continue;\n                    }\n\n                    self.flush_empty_lines(&mut result);\n                    result.push(SP);"))
m("z-query-quotes", "C08", "src/verifier/query.rs", ("txt.and_then(|s| String::from_utf8(s)", "txt.and_then(|s| String::from_utf8(s.strip_suffix(b\"\\0\").map(|s| s.to_vec()).unwrap_or(s))"))
m("z-query-bom", "C13", "src/verifier/query.rs", ("txt.and_then(|s| String::from_utf8(s).map_err(|_| ErrorKind::InvalidData.into()))", "txt.and_then(|s| String::from_utf8(s).map(|s| s.trim_start_matches('\\u{feff}').to_owned()).map_err(|_| ErrorKind::InvalidData.into()))"))
m("z-query-first-eight", "C20", "src/verifier/query.rs", ("            for (_, f, result) in &mut lookups {\n                if result.is_none() {", "            let mut active = 0;\n            for (_, f, result) in &mut lookups {\n                if result.is_none() {\n                    active += 1;\n                    if active > 8 {\n                        pending = true;\n                        break;\n                    }"))
m("z-query-order-timeout", "C20", "src/verifier/query.rs", ("    match time::timeout(lookup_timeout, f).await {", "    match time::timeout(lookup_timeout.max(Duration::from_millis(1500)), f).await {"))
m("z-task-take", "C12", "src/verifier/header.rs", ("filter(|t| indexes.contains(&t.index));", "filter(|t| indexes.contains(&t.index)).take(8);"))
m("z-required-case", "C14", "src/verifier/header.rs", ("        if !signed_headers.contains(h) {", "        if !signed_headers.iter().take(64).any(|n| n == h) {"))
m("z-forbidden-take", "C14", "src/verifier/header.rs", ("        let actual_n = headers.iter().filter(|(name, _)| name == req).count();", "        let actual_n = headers.iter().skip(1).filter(|(name, _)| name == req).count();"))
m("z-tag-many", "C06", "src/tag_list.rs", ("tag_list.iter().any(|tag| !names_seen.insert(tag.name))", "tag_list.iter().take(24).any(|tag| !names_seen.insert(tag.name))"))
m("z-tag-value-fws", "C06", "src/tag_list.rs", ("    let s = s.strip_prefix(';').unwrap_or(s);\n\n    Some((s, tags))", "    let s = s.strip_prefix(';').map(|s| strip_fws(s).unwrap_or(s)).unwrap_or(s);\n\n    Some((s, tags))"))
m("z-num-length", "C07", "src/signature.rs", ("    if s.bytes().all(|b| b.is_ascii_digit()) {", "    if s.len() <= 20 && s.bytes().all(|b| b.is_ascii_digit()) {"))
m("z-h-dedup", "C07", "src/signature.rs", ("                        sh.push(name);", "                        if sh.len() < 2 || sh[sh.len() - 1] != name || sh[sh.len() - 2] != name {\n                            sh.push(name);\n                        }"))
m("z-salvage-q", "C07", "src/signature.rs", ("                    \"d\" => domain_str = Some(value.into()),\n                    \"i\"", "                    \"d\" if domain_str.is_none() && !value.is_empty() => domain_str = Some(value.into()),\n                    \"i\""))
m("z-domainmismatch-order", "C07", "src/signature.rs", ("            if !id.domain.eq_or_subdomain_of(&domain) {\n                return Err(DkimSignatureErrorKind::DomainMismatch);", "            if !id.domain.eq_or_subdomain_of(&domain) && (timestamp.is_none() || timestamp != expiration) {\n                return Err(DkimSignatureErrorKind::DomainMismatch);"))
m("z-rsa-strip", "C24", "src/crypto/rsa.rs", ("    Ok(result)\n}", "    Ok(result.into_iter().skip_while(|b| *b == 0).collect())\n}"))
m("z-rsa-pad", "C02", "src/crypto/rsa.rs", ("    match hash_alg {\n        HashAlgorithm::Sha256 => {\n            public_key.verify", "    let mut padded = vec![0; public_key.size().saturating_sub(signature_data.len())];\n    padded.extend(signature_data);\n    let signature_data = &padded[..];\n    match hash_alg {\n        HashAlgorithm::Sha256 => {\n            public_key.verify"))
m("z-rsa-long", "C02", "src/crypto/rsa.rs", ("    match hash_alg {\n        HashAlgorithm::Sha256 => {\n            public_key.verify", "    let signature_data = signature_data.get(..public_key.size()).unwrap_or(signature_data);\n    match hash_alg {\n        HashAlgorithm::Sha256 => {\n            public_key.verify"))
m("z-rsa-exponent", "C23", "src/crypto/rsa.rs", ("    Ok(key)\n}\n\n/// Returns whether", "    if *key.e() < BigUint::from(17u8) {\n        return Err(\"exponent\".into());\n    }\n    Ok(key)\n}\n\n/// Returns whether"))
m("z-ed-long-sig", "C02", "src/crypto/ed25519.rs", ("Signature::from_slice(signature_data)?", "Signature::from_slice(signature_data.get(..64).unwrap_or(signature_data))?"))
m("z-body-limit-zero", "C05", "src/message_hash.rs", ("                    if self.fail_on_truncate || !hasher.is_done() {", "                    if (self.fail_on_truncate && !canonicalized_chunk.is_empty()) || !hasher.is_done() {"))
m("z-finish-trunc", "C05", "src/message_hash.rs", ("            if !hasher.is_done() || (self.fail_on_truncate && !truncated) {\n                let canonicalized_chunk = match canon {", "            if !hasher.is_done() {\n                let canonicalized_chunk = match canon {"))
m("z-name-long", "C19", "src/header.rs", ("        if value.is_empty() || ", "        if value.is_empty() || value.len() > 998 || "))
m("z-body-nel", "C19", "src/header.rs", ("                if line.iter().all(|b| matches!(b, b' ' | b'\\t')) {", "                if line.iter().all(|b| matches!(b, b' ' | b'\\t' | 0xa0)) {"))
m("z-fmt-width-cap", "C10", "src/signer/format.rs", ("    let width = format.line_width.into();", "    let width = usize::from(format.line_width).min(998);"))
m("z-fmt-z-pipe", "C10", "src/signer/format.rs", ("        (quoted_printable::encode(name.as_bytes(), Some('|')), v)\n    });\n\n    // ensure", "        (quoted_printable::encode(name.as_bytes(), None), v)\n    });\n\n    // ensure"))
m("z-fmt-id-at", "C10", "src/signer/format.rs", ("            format!(\"{}@{d}\", encode(l.as_bytes(), None))", "            format!(\"{}@{d}\", encode(l.trim_matches('\"').as_bytes(), None))"))
m("z-fmt-exttag-find", "C10", "src/signer/format.rs", (".find(|(t, _)| t.as_ref() == tag_name)", ".find(|(t, _)| t.eq_ignore_ascii_case(tag_name))"))
m("z-copy-default", "C10", "src/signer/sign.rs", ("        if selected_headers.contains(name) {\n            result.push", "        if selected_headers.contains(name) && !value.as_ref().is_empty() {\n            result.push"))
m("z-exp-zero", "C25", "src/signer/sign.rs", ("        timestamp.unwrap_or_else(now_unix_secs)\n", "        timestamp.filter(|t| *t > 0).unwrap_or_else(now_unix_secs)\n"))
m("z-bodylen-none", "C10", "src/signer/sign.rs", ("        BodyLength::NoLimit => None,", "        BodyLength::NoLimit => None,\n        BodyLength::Exact(n) if n == final_len && n == 0 => None,"))

# Third round
m("y-idx-u8", "C12", "src/verifier/header.rs", ("indexes.contains(&t.index)", "indexes.iter().any(|i| *i as u8 == t.index as u8)"))
m("y-dup-skip", "C12", "src/verifier/header.rs", ("            .take(config.max_signatures);\n", "            .take(config.max_signatures);\n        let mut seen = std::collections::HashSet::new();\n"), ("        for (index, (name, value)) in dkim_headers {\n", "        for (index, (name, value)) in dkim_headers {\n            if value.as_ref().len() > 64 && !seen.insert(value.as_ref()) {\n                continue;\n            }\n"))
m("y-fail-stop", "C12", "src/verifier/header.rs", ("                    tasks.push(VerifyTask::failed(index, error));\n                    continue;\n                }\n            };\n\n            if let Err", "                    tasks.push(VerifyTask::failed(index, error));\n                    if tasks.len() > 6 {\n                        break;\n                    }\n                    continue;\n                }\n            };\n\n            if let Err"))
m("y-records-drop", "C12", "src/verifier/header.rs", ("    for (i, key_record) in key_records.enumerate() {", "    let key_records: Vec<_> = key_records.collect();\n    let best = key_records.iter().position(|r| matches!(r, Ok(r) if r.key_type == key_type && !r.key_data.is_empty())).unwrap_or(0);\n    for (i, key_record) in key_records.into_iter().enumerate().skip(best) {"))
m("y-hash-first", "C15", "src/verifier/header.rs", ("    if !record.hash_algorithms.contains(&hash_alg) {", "    if record.hash_algorithms.first() != Some(&hash_alg) {"))
m("y-flags-first", "C15", "src/verifier/header.rs", ("    if record.flags.contains(&SelectorFlag::NoSubdomains) {", "    if record.flags.last() == Some(&SelectorFlag::NoSubdomains) {"))
m("y-testing", "C15", "src/verifier/header.rs", ("    if record.flags.contains(&SelectorFlag::NoSubdomains) {", "    if record.flags.contains(&SelectorFlag::NoSubdomains) && !record.flags.contains(&SelectorFlag::Testing) {"))
m("y-strict-local", "C15", "src/verifier/header.rs", ("            if domain.to_ascii() != identity.domain.to_ascii() {", "            if identity.local_part.is_some() && domain.to_ascii() != identity.domain.to_ascii() {"))
m("y-b-eq-space", "C24", "src/verifier/verify.rs", (".filter(|(_, name)| *name == \"b\")?;", ".filter(|(_, name)| *name == \"b\")?;\n        let rest = rest.strip_prefix(' ').unwrap_or(rest);"))
m("y-b-last", "C24", "src/verifier/verify.rs", ("                        val = value[..(last_i + n)].into();", "                        val = value[..(last_i + n)].trim_end_matches(' ').into();"))
m("y-retry", "C13", "src/verifier/query.rs", ("    let txts = resolver.lookup_txt(&dname).await?;", "    let txts = match resolver.lookup_txt(&dname).await {\n        Err(e) if e.kind() == ErrorKind::Interrupted => resolver.lookup_txt(&dname).await?,\n        r => r?,\n    };"))
m("y-empty-txt", "C13", "src/verifier/query.rs", ("    for (i, txt) in txts.into_iter().enumerate() {", "    for (i, txt) in txts.into_iter().filter(|t| !matches!(t, Ok(t) if t.is_empty())).enumerate() {"))
m("y-txt-trim", "C13", "src/verifier/query.rs", ("String::from_utf8(s).map_err", "String::from_utf8(s.trim_ascii().to_vec()).map_err"))
m("y-unicode-name", "C13", "src/verifier/query.rs", ("let domain = domain.to_ascii();\n        let selector", "let domain = domain.to_unicode();\n        let selector"))
m("y-name-total", "C13", "src/verifier/query.rs", ("    let txts = resolver.lookup_txt(&dname).await?;", "    if dname.len() > 254 {\n        return Err(ErrorKind::InvalidInput.into());\n    }\n    let txts = resolver.lookup_txt(&dname).await?;"))
m("y-timeout-secs", "C20", "src/verifier/query.rs", ("    match time::timeout(lookup_timeout, f).await {", "    match time::timeout(Duration::from_secs(lookup_timeout.as_secs().max(1)), f).await {"))
m("y-timeout-stop", "C20", "src/verifier/query.rs", ("                        Poll::Ready(r) => *result = Some(r),", "                        Poll::Ready(r) => {\n                            *result = Some(r);\n                            break;\n                        }"))
m("y-hash-done", "C05", "src/message_hash.rs", ("                HashStatus::Truncated => {\n                    *truncated = true;\n                }", "                HashStatus::Truncated => {\n                    *truncated = true;\n                    break;\n                }"))
m("y-finish-twice", "C05", "src/message_hash.rs", ("                            Some(f) => canonicalized_chunk_relaxed.insert(f()),", "                            Some(f) if hasher.is_done() || key.0.is_none() => canonicalized_chunk_relaxed.insert(f()),\n                            Some(_) => continue,"))
m("y-hash-lowercase", "C04", "src/canonicalize.rs", ("            result.extend(name.to_ascii_lowercase().bytes());", "            result.extend(name.to_lowercase().bytes());"))
m("y-excl", "C04", "src/canonicalize.rs", ("        processed_indexes.insert(headers.as_ref().len() - 1 - index);", "        if selected_headers.len() < headers.as_ref().len() {\n            processed_indexes.insert(headers.as_ref().len() - 1 - index);\n        }"))
m("y-relaxed-ff", "C04", "src/canonicalize.rs", ("        matches!(b, b' ' | b'\\t' | b'\\r' | b'\\n')\n    }\n\n    fn trim", "        b.is_ascii_whitespace()\n    }\n\n    fn trim"))
m("y-x-tag", "C07", "src/signature.rs", ("                    expiration = Some(value);", "                    expiration = Some(value).filter(|x| *x != u64::MAX);"))
m("y-q-first", "C07", "src/signature.rs", ("if s.eq_ignore_ascii_case(\"dns/txt\") {", "if s.split('/').count() == 2 && s.to_ascii_lowercase().starts_with(\"dns/txt\") {"))
m("y-a-sha1", "C07", "src/signature.rs", ("                        if value.eq_ignore_ascii_case(\"rsa-sha1\") {", "                        if value == \"rsa-sha1\" {"))
m("y-from-name", "C07", "src/signature.rs", ("if !sh.iter().any(|h| *h == \"From\") {", "if !sh.iter().take(255).any(|h| *h == \"From\") {"))
m("y-version-seen", "C07", "src/signature.rs", ("                    version_seen = true;", "                    version_seen = algorithm.is_none() || signature_data.is_none() || body_hash.is_none();"))
m("y-salv-last", "C07", "src/signature.rs", ("                    \"s\" => selector_str = Some(value.into()),\n                    _ => {}", "                    \"s\" => selector_str = Some(value.into()),\n                    _ if name.len() > 1 && kind == DkimSignatureErrorKind::IncompatibleVersion => break,\n                    _ => {}"))
m("y-ext-empty", "C07", "src/signature.rs", ("                    ext_tags.push((name.into(), value.into()));\n                }\n            }\n        }\n\n        if !version_seen", "                    if !value.is_empty() {\n                        ext_tags.push((name.into(), value.into()));\n                    }\n                }\n            }\n        }\n\n        if !version_seen"))
m("y-rec-ext", "C08", "src/record.rs", ("                    if value != \"DKIM1\" {", "                    if !value.starts_with(\"DKIM1\") {"))
m("y-rec-k", "C08", "src/record.rs", ("                    if value.eq_ignore_ascii_case(\"rsa\") {", "                    if value.is_empty() || value.eq_ignore_ascii_case(\"rsa\") {"))
m("y-rec-any", "C08", "src/record.rs", ("                        if s == \"*\" {", "                        if s.starts_with('*') {"))
m("y-req-ten", "C11", "src/signer/mod.rs", ("            if i >= 10 {", "            if tasks.len() >= 10 || i > 10 {"))
m("y-exp-cap", "C25", "src/signer/sign.rs", ("            .saturating_add(duration.as_secs())", "            .saturating_add(duration.as_secs())\n            .min(999_999_999_999)"))
m("y-exp-fallback", "C25", "src/signer/sign.rs", ("        timestamp.unwrap_or_else(now_unix_secs)\n", "        timestamp.map_or_else(now_unix_secs, |t| t.max(now_unix_secs().min(t + 1) .min(t)))\n"))
m("y-b-len", "C10", "src/signer/sign.rs", ("    (n + 2) / 3 * 4", "    n.div_ceil(3) * 4 - n % 3 % 2"))
m("y-copied-order", "C10", "src/signer/sign.rs", ("        if selected_headers.contains(name) {\n            result.push((name.clone(), value.as_ref().into()));", "        if selected_headers.contains(name) {\n            let name = selected_headers.iter().find(|n| *n == name).unwrap();\n            result.push((name.clone(), value.as_ref().into()));"))
m("y-data-hash-name", "C01", "src/signer/sign.rs", ("        header_name,\n        &formatted_header_value,\n    );\n\n    assert_eq!", "        if header_name.len() == 14 { \"DKIM-Signature\" } else { header_name },\n        &formatted_header_value,\n    );\n\n    assert_eq!"))
m("y-status-body", "C18", "src/verifier/mod.rs", ("            if h == &sig.body_hash {", "            if sig.body_hash.len() == h.len() && h[..] == sig.body_hash[..] || sig.body_hash.len() == 20 && h[..20] == sig.body_hash[..] {"))
m("y-max-zero", "C12", "src/verifier/header.rs", (".take(config.max_signatures);", ".take(config.max_signatures.max(1));"))
m("y-expired-tol", "C14", "src/verifier/header.rs", ("            let delta = config.time_tolerance.as_secs();\n            if current_t >=", "            let delta = config.time_tolerance.as_millis() as u64 / 1000;\n            if current_t >="))
m("y-expired-tol2", "C14", "src/verifier/header.rs", ("            let delta = config.time_tolerance.as_secs();\n            if current_t >=", "            let delta = config.time_tolerance.as_secs_f32() as u64;\n            if current_t >="))
m("y-future-i64", "C14", "src/verifier/header.rs", ("            if t.saturating_sub(delta) > current_t {", "            if (t as i64).saturating_sub(delta as i64) > current_t as i64 {"))
m("y-minbits-eq", "C14", "src/verifier/header.rs", ("        if n < config.min_key_bits {", "        if n.next_multiple_of(8) < config.min_key_bits {"))
m("y-policy-order", "C14", "src/verifier/header.rs", ("    for h in headers_required_in_signature {", "    for h in headers_required_in_signature.iter().filter(|h| headers.iter().any(|(n, _)| n == *h)) {"))
m("y-alg-case", "C07", "src/signature.rs", ("        if s.eq_ignore_ascii_case(\"rsa-sha1\") {", "        if s == \"rsa-sha1\" {"))
m("y-name-250", "C13", "src/verifier/query.rs", ("    let txts = resolver.lookup_txt(&dname).await?;", "    if dname.len() > 253 {\n        return Err(ErrorKind::InvalidInput.into());\n    }\n    let txts = resolver.lookup_txt(&dname).await?;"))

# Fourth round
m("w-forbid-multi", "C14", "src/verifier/mod.rs", ("BodyHasherBuilder::new(config.forbid_unsigned_content);", "BodyHasherBuilder::new(config.forbid_unsigned_content && verified_tasks.iter().filter(|t| t.status == VerifyStatus::Successful).count() < 3);"))
m("w-ver-stance", "C05", "src/verifier/mod.rs", ("        self.body_hasher.hash_chunk(chunk)\n", "        match self.body_hasher.hash_chunk(chunk) {\n            BodyHasherStance::Interested if chunk.is_empty() => BodyHasherStance::Done,\n            s => s,\n        }\n"))
m("w-sig-stance", "C11", "src/signer/mod.rs", ("        self.body_hasher.hash_chunk(chunk)\n", "        match self.body_hasher.hash_chunk(chunk) {\n            BodyHasherStance::Interested if chunk.is_empty() => BodyHasherStance::Done,\n            s => s,\n        }\n"))
m("w-ver-stance2", "C05", "src/verifier/mod.rs", ("        self.body_hasher.hash_chunk(chunk)\n", "        match self.body_hasher.hash_chunk(chunk) {\n            BodyHasherStance::Interested if self.tasks.iter().filter_map(|t| t.signature.as_ref()).all(|s| s.body_length.is_some_and(|l| l < chunk.len() as u64)) => BodyHasherStance::Done,\n            s => s,\n        }\n"))
m("w-key-record", "C12", "src/verifier/mod.rs", ("                index: task.index,\n                signature: task.signature,\n                key_record: task.key_record,\n            });\n        }\n\n        result", "                index: task.index,\n                key_record: task.key_record.filter(|_| task.signature.as_ref().is_some_and(|s| s.body_length != Some(0))),\n                signature: task.signature,\n            });\n        }\n\n        result"))
m("w-poll-16", "C20", "src/verifier/query.rs", ("            for (_, f, result) in &mut lookups {\n                if result.is_none() {", "            for (_, f, result) in lookups.iter_mut().filter(|l| l.2.is_none()).take(16) {\n                pending = true;\n                if result.is_none() {"), ("            if pending {\n", "            if pending && lookups.iter().any(|l| l.2.is_none()) {\n                cx.waker().wake_by_ref();\n"))
m("w-poll-64", "C20", "src/verifier/query.rs", ("            for (_, f, result) in &mut lookups {\n                if result.is_none() {", "            for (_, f, result) in lookups.iter_mut().filter(|l| l.2.is_none()).take(64) {\n                pending = true;\n                if result.is_none() {"), ("            if pending {\n", "            if pending && lookups.iter().any(|l| l.2.is_none()) {\n                cx.waker().wake_by_ref();\n"))
m("w-timeout-second", "C20", "src/verifier/query.rs", ("            let lookup_timeout = config.lookup_timeout;", "            let lookup_timeout = config.lookup_timeout.min(Duration::from_secs(60));"))
m("w-timeout-div", "C20", "src/verifier/query.rs", ("            let lookup_timeout = config.lookup_timeout;", "            let lookup_timeout = if lookups.len() > 3 { config.lookup_timeout / 2 } else { config.lookup_timeout };"))
m("w-reserved-ext", "C11", "src/signer/mod.rs", ("            if i >= 10 {", "            if i >= 10 && request.ext_tags.len() < 4 {"))
m("w-map-lookup", "C18", "src/verifier/header.rs", ("            ErrorKind::TimedOut => {\n", "            ErrorKind::TimedOut | ErrorKind::WouldBlock => {\n"))
m("w-notfound-other", "C13", "src/verifier/header.rs", ("            ErrorKind::NotFound => {\n", "            ErrorKind::NotFound | ErrorKind::AddrNotAvailable => {\n"))
m("w-signed-self", "C24", "src/signer/sign.rs", ("        &sig.signed_headers,\n        header_name,", "        &sig.signed_headers.iter().filter(|h| h.as_ref() != header_name).cloned().collect::<Vec<_>>(),\n        header_name,"))
m("w-auto-sel-dkim", "C10", "src/signer/mod.rs", ("        \"Resent-Cc\",\n", "        \"Resent-Cc\",\n        \"DKIM-Signature\",\n"))
