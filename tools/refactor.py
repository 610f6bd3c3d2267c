#!/usr/bin/env python3
"""Development aid: edits of the library that keep its behaviour. Applies each
one in a scratch copy, runs the repository's tests and every check there; no
check may raise an alarm. Usage: refactor.py [ids...] [--together] [--one] [--checks C01,C02]   (scratch: /tmp/r)"""
import subprocess, sys, os, time, json
W = "/tmp/r"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)
sys.path.insert(0, "/verif")
BOTH = "C01 C05 C07 C08 C12 C15 C18 C21 C23 C24 C27".split()
R = []
def r(id, *edits): R.append((id, edits))

r("hash-vec",
  ("src/message_hash.rs", "    collections::{HashMap, HashSet},\n", "    collections::BTreeMap,\n"),
  ("src/message_hash.rs", "    registrations: HashSet<BodyHasherKey>,", "    registrations: Vec<BodyHasherKey>,"),
  ("src/message_hash.rs", "            registrations: HashSet::new(),", "            registrations: Vec::new(),"),
  ("src/message_hash.rs", "        self.registrations.insert((len, hash, canon));", "        let key = (len, hash, canon);\n        if !self.registrations.contains(&key) {\n            self.registrations.push(key);\n        }"),
  ("src/message_hash.rs", "    hashers: HashMap<BodyHasherKey, (CountingHasher, bool)>,", "    hashers: Vec<(BodyHasherKey, (CountingHasher, bool))>,"),
  ("src/message_hash.rs", "self.hashers.iter_mut().filter(|(_, (hasher, truncated))| {", "self.hashers.iter_mut().rev().filter(|(_, (hasher, truncated))| {"),
  ("src/message_hash.rs", "        for ((_, _, canon), (hasher, truncated)) in active_hashers {", "        for (key, (hasher, truncated)) in active_hashers {\n            let (_, _, canon) = key;"),
  ("src/message_hash.rs", "        let mut results = HashMap::new();", "        let mut results = vec![];"),
  ("src/message_hash.rs", "            results.insert(key, res);", "            results.push((key, res));"),
  ("src/message_hash.rs", "    results: HashMap<BodyHasherKey, BodyHashResult>,", "    results: Vec<(BodyHasherKey, BodyHashResult)>,"),
  ("src/message_hash.rs", "        self.results.get(key)", "        self.results.iter().find(|(k, _)| k == key).map(|(_, r)| r)"),
  ("src/message_hash.rs", "    collections::BTreeMap,\n", ""))

r("hash-eager",
  ("src/message_hash.rs", """        let mut canonicalized_chunk_simple = None;
        let mut canonicalized_chunk_relaxed = None;

        let mut all_done = true;
""", """        let canonicalized_chunk_simple = self.canonicalizer_simple.canonicalize_chunk(chunk);
        let canonicalized_chunk_relaxed = self.canonicalizer_relaxed.canonicalize_chunk(chunk);

        let mut all_done = true;
"""),
  ("src/message_hash.rs", """CanonicalizationAlgorithm::Simple => canonicalized_chunk_simple
                    .get_or_insert_with(|| self.canonicalizer_simple.canonicalize_chunk(chunk)),""", "CanonicalizationAlgorithm::Simple => &canonicalized_chunk_simple,"),
  ("src/message_hash.rs", """CanonicalizationAlgorithm::Relaxed => canonicalized_chunk_relaxed
                    .get_or_insert_with(|| self.canonicalizer_relaxed.canonicalize_chunk(chunk)),""", "CanonicalizationAlgorithm::Relaxed => &canonicalized_chunk_relaxed,"),
)

r("canon-headers",
  ("src/canonicalize.rs", """    let mut processed_indexes = HashSet::with_capacity(selected_headers.len());

    if let Some(index) = excluded_index {
        // Indexes are counted from the end, see below.
        processed_indexes.insert(headers.as_ref().len() - 1 - index);
    }
""", """    let fields = headers.as_ref();
    let mut used = vec![false; fields.len()];
    if let Some(index) = excluded_index {
        used[index] = true;
    }
"""),
  ("src/canonicalize.rs", """        for (i, (name, val)) in headers
            .as_ref()
            .iter()
            .rev()
            .enumerate()
            .filter(|(i, _)| !processed_indexes.contains(i))
        {
            if name == selected_header {
                canonicalize_header(&mut result, algorithm, name, val);

                result.extend(CRLF);

                processed_indexes.insert(i);

                break;
            }
        }
""", """        let found = (0..fields.len()).rev().find(|&i| !used[i] && fields[i].0 == *selected_header);
        if let Some(i) = found {
            used[i] = true;
            canonicalize_header(&mut result, algorithm, &fields[i].0, &fields[i].1);
            result.extend_from_slice(b"\\r\\n");
        }
"""),
  ("src/canonicalize.rs", "use std::collections::HashSet;\n", ""),
  ("src/canonicalize.rs", """    let value = trim_space(value);

    let mut compressing = false;
    for &b in value {
        if is_space(b) {
            if !compressing {
                result.push(SP);
                compressing = true;
            }
        } else {
            result.push(b);
            if compressing {
                compressing = false;
            }
        }
    }
""", """    let words: Vec<&[u8]> = trim_space(value).split(|b| is_space(*b)).filter(|w| !w.is_empty()).collect();
    result.extend(words.join(&SP));
"""))

r("queries-vec",
  ("src/verifier/query.rs", "    lookup_pairs: HashMap<(String, String), HashSet<usize>>,", "    lookup_pairs: Vec<((String, String), HashSet<usize>)>,"),
  ("src/verifier/query.rs", "            lookup_pairs: HashMap::new(),", "            lookup_pairs: Vec::new(),"),
  ("src/verifier/query.rs", """        self.lookup_pairs
            .entry((domain, selector))
            .or_default()
            .insert(index);
""", """        let pair = (domain, selector);
        match self.lookup_pairs.iter_mut().find(|(p, _)| *p == pair) {
            Some((_, set)) => {
                set.insert(index);
            }
            None => self.lookup_pairs.push((pair, HashSet::from([index]))),
        }
"""),
  ("src/verifier/query.rs", "    collections::{HashMap, HashSet},\n", "    collections::HashSet,\n"),
  ("src/verifier/query.rs", """    let mut result = vec![];

    let mut last = None;
    for (i, txt) in txts.into_iter().enumerate() {
        if i < 2 {
            result.push(parse_utf8(txt));
        } else {
            last = Some(txt);
        }
    }
    if let Some(txt) = last {
        result.push(parse_utf8(txt));
    }

    Ok(result)
""", """    let mut all: Vec<_> = txts.into_iter().map(parse_utf8).collect();
    if all.len() > 3 {
        all.drain(2..all.len() - 1);
    }
    Ok(all)
"""),
  # All are polled in reverse order, once more than needed.
  ("src/verifier/query.rs", "            for (_, f, result) in &mut lookups {", "            for (_, f, result) in lookups.iter_mut().rev() {"))

r("tag-list",
  ("src/tag_list.rs", """                let mut names_seen = HashSet::new();
                if tag_list.iter().any(|tag| !names_seen.insert(tag.name)) {
                    return Err(ParseTagListError::DuplicateTag);
                }
""", """                let mut names: Vec<&str> = tag_list.iter().map(|t| t.name).collect();
                let n = names.len();
                names.sort_unstable();
                names.dedup();
                if names.len() < n {
                    return Err(ParseTagListError::DuplicateTag);
                }
"""),
  ("src/tag_list.rs", "    collections::HashSet,\n", ""),
  ("src/tag_list.rs", """    let mut iter = val.splitn(2, |&c| c == b':');

    match (iter.next(), iter.next()) {
        (Some(name), Some(value)) => {
            let name = str::from_utf8(name)""", """    match val.iter().position(|&c| c == b':') {
        Some(i) => {
            let (name, value) = (&val[..i], &val[i + 1..]);
            let name = str::from_utf8(name)"""))

r("qp",
  ("src/quoted_printable.rs", """    while !bytes.is_empty() {
        if let Some(chunk) = util::next_utf8_chunk(bytes) {
            for c in chunk.chars() {
                if is_dkim_safe(c) {
                    result.push(c);
                } else {
                    let mut buf = [0; 4];
                    for b in c.encode_utf8(&mut buf).bytes() {
                        encode_byte(&mut result, b);
                    }
                }
            }
            bytes = &bytes[chunk.len()..];
        } else {
            encode_byte(&mut result, bytes[0]);
            bytes = &bytes[1..];
        }
    }
""", """    while let Some(&b) = bytes.first() {
        let n = (1..=bytes.len().min(4)).find(|&n| std::str::from_utf8(&bytes[..n]).is_ok());
        match n.and_then(|n| util::next_utf8_chunk(&bytes[..n])).and_then(|s| s.chars().next()) {
            Some(c) if is_dkim_safe(c) => {
                result.push(c);
                bytes = &bytes[c.len_utf8()..];
            }
            _ => {
                encode_byte(&mut result, b);
                bytes = &bytes[1..];
            }
        }
    }
"""))

r("header-verify",
  ("src/verifier/header.rs", """    for h in headers_required_in_signature {
        if !signed_headers.contains(h) {
            trace!(index, "required header not included in DKIM-Signature");
            return Err(VerificationError::Policy(PolicyError::RequiredHeaderNotSigned));
        }
    }
""", """    if !headers_required_in_signature.iter().all(|h| signed_headers.iter().any(|s| s == h)) {
        trace!(index, "required header not included in DKIM-Signature");
        return Err(VerificationError::Policy(PolicyError::RequiredHeaderNotSigned));
    }
"""),
  ("src/verifier/header.rs", """        let signed_n = signed_headers
            .iter()
            .filter(|&name| name == req)
            .take(actual_n)
            .count();
""", """        let signed_n = signed_headers.iter().filter(|&name| name == req).count();
"""),
  ("src/verifier/header.rs", """    let current_t = config.current_timestamp();

    if !config.allow_expired {
        if let Some(t) = sig.expiration {
            let delta = config.time_tolerance.as_secs();
            if current_t >= t.saturating_add(delta) {
                trace!(index, "DKIM-Signature has expired");
                return Err(VerificationError::Policy(PolicyError::SignatureExpired));
            }
        }
    }
""", """    let current_t = config.current_timestamp();
    let delta = config.time_tolerance.as_secs();

    match sig.expiration {
        Some(t) if !config.allow_expired && current_t >= t.saturating_add(delta) => {
            trace!(index, "DKIM-Signature has expired");
            return Err(VerificationError::Policy(PolicyError::SignatureExpired));
        }
        _ => {}
    }
"""),
  ("src/verifier/header.rs", """            let selected_tasks = self.tasks.iter_mut().filter(|t| indexes.contains(&t.index));

            for task in selected_tasks {""", """            let mut selected_tasks: Vec<_> = self.tasks.iter_mut().filter(|t| indexes.contains(&t.index)).collect();
            selected_tasks.reverse();

            for task in selected_tasks {"""),
  ("src/verifier/header.rs", """        let mut tasks = vec![];

        let dkim_headers""", """        // Parsing one signature more than once does no harm.
        for (name, value) in headers.as_ref() {
            if *name == DKIM_SIGNATURE_NAME {
                if let Ok(s) = str::from_utf8(value.as_ref()) {
                    let _ = DkimSignature::from_str(s);
                }
            }
        }

        let mut tasks = vec![];

        let dkim_headers"""))

r("fmt-copy",
  ("src/signer/format.rs", """    if let Some(tag_order) = tag_order {
        names.sort_by(|a, b| tag_order(a, b));
    }
""", """    if let Some(tag_order) = tag_order {
        // Insertion sort, which is stable.
        for i in 1..names.len() {
            let mut j = i;
            while j > 0 && tag_order(names[j - 1], names[j]) == Ordering::Greater {
                names.swap(j - 1, j);
                j -= 1;
            }
        }
    }
"""),
  ("src/signer/sign.rs", """    let def: HashSet<_> = signer::default_signed_headers().into_iter().collect();
    signer::select_headers(headers, move |name| def.contains(name)).collect()""", """    let def = signer::default_signed_headers();
    signer::select_headers(headers, move |name| def.iter().any(|d| d == name)).collect()"""),
  ("src/signer/sign.rs", "use std::{collections::HashSet, time::SystemTime};", "use std::time::SystemTime;"),
  ("src/header.rs", """        } else if let Some(i) = value.windows(2).position(|b| b == b"\\r\\n") {
            let (chunk, rest) = value.split_at(i);
            value = &rest[2..];
            Some(chunk)
        } else {""", """        } else if let Some(i) = (1..value.len()).find(|&i| value[i] == b'\\n' && value[i - 1] == b'\\r') {
            let chunk = &value[..i - 1];
            value = &value[i + 1..];
            Some(chunk)
        } else {"""))

def sh(c, t=1000, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=ENV, timeout=t, capture_output=True, text=True)
def main():
    a = sys.argv[1:]; one = "--one" in a; a = [x for x in a if x != "--one"]
    allc = ["C%02d" % i for i in range(1, 29)]
    if "--checks" in a:
        i = a.index("--checks"); allc = [x for x in a[i+1].split(",") if x]; del a[i:i+2]
    os.makedirs(W + "/verif", exist_ok=True)
    global R
    if "--together" in a:
        a.remove("--together")
        R = [("together", [e for id, es in R if id in a or not a for e in es])]; a = []
    for id, edits in R:
        if a and id not in a: continue
        sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {W}/repo/; rsync -a --delete --exclude target /verif/mc/ {W}/verif/mc/; cp /verif/known-findings.txt {W}/verif/")
        bad = False
        for f, old, new in edits:
            p = f"{W}/repo/{f}"; s = open(p).read()
            if s.count(old) != 1: print(id, f, "COUNT", s.count(old), repr(old[:70])); bad = True; continue
            open(p, "w").write(s.replace(old, new))
        if bad: continue
        t = sh("cargo test --offline --quiet 2>&1; echo rc=$?; cargo test --offline --quiet --features pre-rfc8301 2>&1; echo rc=$?", cwd=W + "/repo")
        if t.stdout.count("rc=0") != 2:
            print(id, "TESTS FAIL", [l for l in t.stdout.splitlines() if "error" in l or "panicked" in l or "FAILED" in l][:4], flush=True); continue
        out = []
        for fl in ("default",) if one else ("default", "pre-rfc8301"):
            feat = "" if fl == "default" else "--features " + fl
            b = sh(f"cargo build --release --offline --quiet --target-dir target/{fl} {feat}", cwd=W + "/verif/mc")
            if b.returncode: out.append("BUILD " + b.stderr[-300:]); continue
            for c in allc:
                if fl != "default" and c not in BOTH: continue
                x = sh(f"./target/{fl}/release/mc --check {c} --replays {W}/replays --known ../known-findings.txt", cwd=W + "/verif/mc")
                v = [l for l in x.stdout.splitlines() if l.startswith(("VIOLATION", "ENGINE"))]
                if v or x.returncode: out.append(f"{c}/{fl[:3]} rc{x.returncode} {v[:2]}")
        print(id, "ok" if not out else out, flush=True)
main()
