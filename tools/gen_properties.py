import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Every signature the signer issues verifies against the published key",
 "Signing a message succeeds in producing a signature that, when prepended to the unmodified message and checked against the matching published public key, verifies successfully. This holds for every supported algorithm, header and body canonicalisation, header selection (including repeated and absent header names), body-length choice, timestamp and lifetime, header copying, internationalised names and output formatting, and for every way of splitting the body into chunks on either side.",
 ["inputs","configurations","histories"],
 "all combinations of signing options x message shapes x chunk splits, bounded: several keys, 4 canonicalisation pairs, header/body shapes from a small colliding alphabet, all option pairs",
 "tests sign a handful of fixed messages with mostly default options; the guarantee is over the whole cross product of options, message shapes and chunkings, where formatter, canonicaliser and parser must agree byte for byte",
 ["src/signer/sign.rs","src/signer/format.rs","src/verifier/verify.rs","src/message_hash.rs"],
 [("formatting without b= value and insertion of the value at a recorded index","src/signer/format.rs format_without_signature / insert_signature_data"),
  ("removal of the b= value before hashing","src/verifier/verify.rs make_original_dkim_sig"),
  ("shared header selection and canonicalisation","src/canonicalize.rs, src/message_hash.rs")],
 ["result status returned by the verifier for the signer's output"])

p("C02","No message altered in signed content ever verifies",
 "A signature verifies only if the header field instances it covers and the covered part of the body are, after the declared canonicalisation, identical to what was signed, and its own tags (other than the signature value's whitespace) are unchanged after canonicalisation. Any other alteration - of a signed header field, of the order or number of same-named signed fields, of a field declared signed-but-absent, of covered body bytes, of the signature header, of the signature value or of the key - yields a failure, reported as a body hash mismatch when only the body differs and as a signature failure otherwise.",
 ["inputs","configurations"],
 "every single-step edit (replace, insert, delete, swap, duplicate, reorder, rename, recase) at every position of small signed messages, for all canonicalisations and both key types",
 "existing tests check a few tampered messages; soundness needs every position and every kind of edit under every canonicalisation",
 ["src/verifier/verify.rs","src/verifier/mod.rs","src/message_hash.rs","src/canonicalize.rs","src/crypto/rsa.rs","src/crypto/ed25519.rs"],
 [("data hash over canonicalised selected headers plus the signature header","src/message_hash.rs compute_data_hash"),
  ("body hash comparison","src/verifier/mod.rs finish"),("signature verification","src/crypto")],
 ["verification status"])

p("C03","Body canonicalisation follows RFC 6376 independent of chunking",
 "For every body and every way of splitting it into chunks (including empty chunks), the concatenated output of body canonicalisation is exactly what RFC 6376 section 3.4.3 (simple) or 3.4.4 (relaxed) prescribes for the whole body. In particular trailing empty lines, whitespace runs, whitespace at line ends, stray CR and LF bytes, missing final line ends and empty bodies come out right wherever a chunk boundary falls.",
 ["inputs","histories"],
 "all byte strings over the colliding alphabet {text, space, tab, CR, LF} up to a bounded length x all chunk splits, plus run-length macro tokens and all 256 byte values in context",
 "unit tests use about twenty hand-written bodies and a few splits; state carried across chunk boundaries only misbehaves on particular byte/boundary combinations",
 ["src/canonicalize.rs"],
 [("streaming canonicaliser with pending CR, whitespace, blank-line state","src/canonicalize.rs BodyCanonicalizer")],
 ["bytes returned per chunk and at finish"],
 [("canonicaliser state","pending CR / whitespace / blank line counters carried across chunks","src/canonicalize.rs")])

p("C04","Header canonicalisation and bottom-up field selection follow RFC 6376",
 "For every header and every list of signed names, the bytes hashed are the canonicalised forms (simple: verbatim; relaxed: lower-case name, unfolded, whitespace runs collapsed to one space, no whitespace around the colon or at the end) of the instances chosen by taking, for each listed name in order, the last not yet used instance of that name compared without regard to case, with names that have no remaining instance contributing nothing. Each instance is used at most once and each chosen field ends in exactly one CRLF, while the signature's own field comes last without its value for the signature data and without a trailing CRLF.",
 ["inputs"],
 "all headers of up to 4-5 fields over a small name alphabet with case variants x all signed-name lists up to 4-5 entries x both algorithms; all field bodies over {text, SP, TAB, CRLF-fold, 8-bit} up to a bounded length",
 "tests use a handful of headers; selection with duplicates, absences and case variants is combinatorial",
 ["src/canonicalize.rs","src/message_hash.rs"],
 [("selection with per-name cursors from the bottom","src/canonicalize.rs canonicalize_headers"),("field canonicalisation","src/canonicalize.rs canonicalize_header")],
 ["canonicalised bytes","data hash, signature bytes over an independently computed hash input"])

p("C05","Body hashes cover exactly the declared prefix for every registration mix",
 "For any set of simultaneously requested body hashes (algorithm, canonicalisation, optional length limit) and any chunking, each result equals the digest of the canonicalised body, cut at its limit, together with the number of bytes hashed; a body shorter than its limit yields an insufficient-content error, and where partial coverage is forbidden a longer body yields a truncation error, never a wrong hash. Requests do not influence one another, and once the hasher says it needs no more input, withholding or supplying the remaining chunks makes no difference to any result.",
 ["inputs","histories","configurations"],
 "all registration sets up to size 2-3 over limits around every boundary x bodies over a small alphabet x all chunk splits x feeding or not feeding after the done signal, x truncation policy",
 "tests cover single registrations with one or two chunks; the limit/boundary/stance interplay across several registrations is not sampled",
 ["src/message_hash.rs","src/crypto/hash.rs","src/verifier/mod.rs","src/signer/mod.rs"],
 [("counting hasher with limit","src/crypto/hash.rs CountingHasher"),("multi-registration hasher","src/message_hash.rs BodyHasher")],
 ["stance returned per chunk, body hash results, verifier status, signer result"],
 [("hasher status","bytes hashed so far, limit reached, truncated","src/crypto/hash.rs")])

p("C06","Tag lists are accepted exactly per the RFC 6376 grammar",
 "A tag list (in a signature header or key record) is accepted if and only if it matches the tag-list grammar of RFC 6376 section 3.2 (with UTF-8 allowed in values and folding whitespace only where permitted) and contains no duplicate tag names. Accepted lists yield each tag's exact name and value with surrounding whitespace removed, in order, with names case-sensitive and unknown tags preserved but otherwise without effect.",
 ["inputs"],
 "all strings up to a bounded length over {letters, digit, underscore, '=', ';', SP, TAB, CR, LF, control, non-ASCII, illegal} embedded in valid signature headers and key records",
 "tests parse about ten lists; accept/reject agreement with a grammar is a statement about all strings",
 ["src/tag_list.rs","src/parse.rs","src/signature.rs","src/record.rs"],
 [("tag list parser","src/tag_list.rs"),("folding whitespace scanner","src/parse.rs")],
 ["parse result and preserved unknown tags of signature headers and key records"])

p("C07","Signature headers are parsed and rejected exactly as RFC 6376 requires",
 "A DKIM-Signature value is accepted exactly when all required tags are present and every recognised tag is well-formed and mutually consistent (version 1, supported algorithm, valid base64, canonicalisation, domain, selector, identity within the domain, signed headers including From, digits-only numbers, expiry after timestamp, query method dns/txt, well-formed copied headers); omitted optional tags take their RFC defaults and the parsed data equals what was written. Otherwise it is rejected with an error naming the offending item, together with the raw signature data, domain, selector, identity and algorithm text that could be salvaged.",
 ["inputs"],
 "all headers built from up to 2-3 simultaneous deviations (missing, duplicated, reordered, malformed or boundary tag values, folding variants) from a valid header; all short strings as the value of each tag",
 "tests hold a few dozen cases; combinations of tag states and short-string value spaces are not enumerated",
 ["src/signature.rs","src/tag_list.rs","src/parse.rs"],
 [("signature parser and validation","src/signature.rs DkimSignature::from_tag_list / FromStr"),("salvage on error","src/signature.rs DkimSignatureError")],
 ["parsed signature or error with salvaged fields"])

p("C08","Key records are parsed and rejected exactly as RFC 6376 requires",
 "A DKIM key record is accepted exactly when it is a valid tag list with a public-key tag (empty meaning revoked), the version, if present, is first and equals DKIM1, the key type is supported, the hash list contains a supported algorithm or is absent, the service type is email or any, and all values are well-formed; absent optional tags take their defaults, unknown hash algorithms, service types and flags are ignored, and notes are decoded. Anything else is rejected with an error naming the offence.",
 ["inputs"],
 "all records built from up to 2-3 simultaneous deviations from a valid record in all tag orders; all short strings as the value of each tag",
 "tests hold a dozen records; combinations and orders are not enumerated",
 ["src/record.rs","src/tag_list.rs"],
 [("record parser","src/record.rs DkimKeyRecord FromStr")],
 ["parsed record or error"])

p("C09","The quoted-printable codec is lossless and its output always safe",
 "Encoding any byte string for a tag value and decoding the result returns the original bytes, also when folding whitespace is inserted anywhere between characters outside an encoded octet; encoded output contains no semicolon, whitespace, control or (where requested) delimiter or non-ASCII characters. Decoding accepts exactly the RFC 6376 quoted-printable grammar with UTF-8 literals and rejects everything else.",
 ["inputs"],
 "all byte strings up to length 2-3 over all 256 values and longer ones over a colliding alphabet incl. partial UTF-8 sequences; all decoder inputs up to a bounded length; all fold positions",
 "tests cover about twenty strings; round-trip and safety quantify over all byte strings including invalid UTF-8",
 ["src/quoted_printable.rs"],
 [("encoder/decoder","src/quoted_printable.rs")],
 ["encoded text, decoded bytes"])

p("C10","Generated signature headers are well-formed and say what was requested",
 "Every generated signature header is a valid header field that, when parsed, yields exactly the data reported for the signature and requested by the caller - including unknown extra tags, copied header fields and signed names in order - whatever line width, indentation, tag ordering, header-name casing and ASCII-only setting is chosen. When every indivisible item fits, lines never exceed the requested width (only a closing semicolon may stand one past it), continuation lines consist of CRLF, the chosen indentation and non-whitespace content, tags appear in the requested order, and ASCII-only output contains only ASCII. What the caller leaves open takes its documented default, among them the example header fields of RFC 6376 section 5.4.1 as the selection.",
 ["inputs","configurations"],
 "all line widths 1..80+ x indentations x tag orders x tag subsets x item lengths around break points x header-name casings x ASCII mode, for both key types",
 "tests compare fewer than ten formatted outputs; off-by-one line breaks depend on the position of every item relative to the width",
 ["src/signer/format.rs","src/signer/sign.rs"],
 [("cursor-based line breaking","src/signer/format.rs advance_i / format_chunks_into_string"),("tag selection and order","src/signer/format.rs compute_tag_names")],
 ["formatted header text, parsed signature"])

p("C11","Signing requests are validated up front and answered one to one in order",
 "Preparing to sign succeeds exactly when the header has a From field, there are one to ten requests, and every request is usable (key matches algorithm, From selected, selectable names, identity within the domain, non-zero lifetime, valid distinct non-reserved extra tags, valid header name and indentation); otherwise a specific error is returned and nothing is signed. Signing then returns exactly one result per request, in request order, each identical to what that request alone would have produced, so a request that fails for lack of body content never affects the others.",
 ["inputs","configurations","histories"],
 "all request lists of up to 3 (and counts 0,1,9,10,11) over a request alphabet with each kind of defect, pairs of defects, x message shapes and lengths; multi-request vs single-request differential",
 "tests cover single happy requests; mixed request lists and defect combinations are not covered",
 ["src/signer/mod.rs","src/signer/sign.rs"],
 [("eager validation","src/signer/mod.rs validate_request / prepare_signing"),("per-task signing","src/signer/sign.rs perform_signing")],
 ["prepare result, list of signing results"])

p("C12","The verifier reports one isolated, ordered result per signature header",
 "Verification returns exactly one result for each of the first so-many (the configured maximum) signature headers in order of appearance, carrying its header position, the parsed signature whenever it could be parsed and the key record used, and none for other fields; with no signature header at all (or a maximum of zero) there is nothing to verify. The result of each signature is the same as if it stood alone, whatever other valid, broken, expired, unresolvable or duplicate signatures accompany it and in whatever order their keys are looked up.",
 ["inputs","histories","schedules","fault_sequences"],
 "all sequences of up to 3-4 signature headers over an alphabet of valid/invalid kinds interleaved with other fields, x maxima 0..n+1, x lookup processing orders and pending polls",
 "tests verify messages with one or two signatures; interactions between tasks sharing keys, indexes and body hash registrations depend on combinations and map iteration order",
 ["src/verifier/mod.rs","src/verifier/header.rs","src/verifier/query.rs"],
 [("task list with indexes","src/verifier/header.rs HeaderVerifier"),("grouped queries","src/verifier/query.rs")],
 ["list of verification results"],
 [("tasks","per-signature progress","src/verifier/header.rs")])

p("C13","Key lookups are made once per key name and every DNS outcome is mapped",
 "For each distinct selector and domain pair (compared in ASCII form, ignoring how it was written) among usable signatures, exactly one TXT query is made, for the absolute name selector._domainkey.domain. in A-label form, and none for unusable signatures. Whatever the answer - records in any order and number, undecodable records, empty answer, not found, invalid name, timeout, other failure, delayed completion - each dependent signature gets the corresponding outcome, and a usable key among the first two or last record of the answer suffices for success.",
 ["inputs","fault_sequences","schedules"],
 "all assignments of DNS outcomes to up to 3 names shared by up to 3-4 signatures x up to 4 records per answer over {matching, wrong, broken, revoked, undecodable, error} x pending-poll patterns",
 "tests use a single mock answer per test; fault combinations and sharing of answers between signatures are not enumerated",
 ["src/verifier/query.rs","src/verifier/header.rs"],
 [("query grouping by A-label pair","src/verifier/query.rs QueriesBuilder"),("outcome mapping and record cycling","src/verifier/header.rs map_lookup_result_to_key_records / verify_task")],
 ["queries seen by the resolver, verification results"])

p("C14","Verifier policy settings are enforced exactly",
 "Each configured policy takes effect exactly at its stated boundary: expired signatures (current time at or past expiry plus tolerance) and signatures from the future (timestamp minus tolerance past the current time) are refused unless allowed, required names must be signed, no instance of a protected name may be left unsigned, unsigned trailing body content is refused if so configured, keys below the configured size are refused. A signature violating no enabled policy is never refused on policy grounds, and one violating an enabled policy never succeeds.",
 ["inputs","configurations"],
 "all boundary triples (time, timestamp/expiry, tolerance) incl. 0 and extreme values x allow flags; all small headers x signed lists x required/protected lists; body vs limit x flag; key sizes around thresholds; pairs of violations",
 "tests fix one time and one configuration; boundary arithmetic and policy combinations are not enumerated",
 ["src/verifier/header.rs","src/verifier/mod.rs"],
 [("policy validation","src/verifier/header.rs validate_signature / validate_signed_headers")],
 ["verification status"])

p("C15","Key record constraints are enforced on every signature",
 "A signature succeeds only with a key record that is not revoked, has the signature's key type, permits its hash algorithm, and, when it carries the strict-domain flag, is used with an identity in exactly the signing domain (ignoring case and IDN form); each violated constraint is reported as its own error and the first constraint in evaluation order wins. Constraints not stated in the record never cause a failure.",
 ["inputs","configurations"],
 "all records over {key type} x {hash list subsets, unknown names} x {flags subsets} x {revoked, valid, wrong, malformed key} x signatures over algorithm x identity forms",
 "tests cover one or two constraint violations; the cross product is not covered",
 ["src/verifier/header.rs","src/record.rs"],
 [("per-record checks","src/verifier/header.rs verify_task helpers")],
 ["verification status"])

p("C16","No input makes the library panic or hang",
 "Parsing, signing and verifying never panic, overflow or loop on any header, body, signature, key record or DNS answer, however malformed, nor on any API call sequence with documented-valid arguments. Hostile input is always answered with an error or a failure result.",
 ["inputs","fault_sequences"],
 "all short strings over a hostile alphabet for every public parser, all single-position corruptions of a valid signature header and record, extreme numbers and sizes, degenerate formats, with debug assertions and overflow checks enabled",
 "no test exercises arbitrary malformed input; slicing on char boundaries, arithmetic and unwraps fail only on particular inputs",
 ["src/signature.rs","src/tag_list.rs","src/parse.rs","src/quoted_printable.rs","src/record.rs","src/signer/format.rs","src/header.rs","src/crypto/mod.rs"],
 [("total parsers returning Result/Option","src/parse.rs and users")],
 ["absence of panic; termination"])

p("C17","Domain, selector and identity names are validated and compared by IDN rules",
 "Domain names, selectors and identities are accepted exactly when they are syntactically valid (label and total lengths, permitted characters, non-numeric final label for domains, valid IDN), keep their original spelling, and convert to A-label and U-label form consistently. The types' own equality and hash compare the spelling, ignoring ASCII case. The is-equal-or-subdomain relation is decided label-wise and case-insensitively on the A-label form, so no suffix that is not on a label boundary, and no sibling or parent domain, is ever treated as a subdomain.",
 ["inputs"],
 "all strings up to a bounded length over {letters, digit, '-', '.', '_', non-ASCII, IDN-mapped characters}; all ordered pairs of names of up to 3-4 labels over colliding labels incl. A/U-label variants; length boundaries 63/253",
 "tests check a handful of names; the relation is over all pairs",
 ["src/signature.rs"],
 [("name validation and relation","src/signature.rs DomainName / Selector / Identity")],
 ["constructor results, relation results, signature acceptance"])

p("C18","Results are classified per RFC 8601 with transient errors kept apart",
 "Each verification outcome maps to the authentication result that RFC 8601 prescribes: pass only for success, fail for a body hash mismatch or a signature that does not verify, policy for local policy refusals, temperror exactly for lookup timeouts and lookup failures that may succeed on retry, permerror for missing keys, unusable key names, keys or record constraints and missing required items, neutral for syntax the verifier cannot process. The reported result depends only on the outcome's cause, so permanent problems are never reported as retryable nor the reverse.",
 ["inputs","fault_sequences"],
 "every reachable outcome driven end to end (all signature, record, lookup, key, body and policy error kinds) x the classification table",
 "tests check two or three classifications; the table and the mapping from causes to outcomes are never exercised completely",
 ["src/verifier/mod.rs","src/verifier/header.rs"],
 [("classification table","src/verifier/mod.rs VerificationStatus::to_dkim_result")],
 ["classification of verification status"])

p("C19","Header blocks, names and bodies are accepted exactly per the mail grammar",
 "A header name is accepted exactly when it is a non-empty sequence of printable ASCII other than colon, a header body exactly when it has no control characters other than tab and CRLF line breaks, each followed by folding whitespace and content that is not only whitespace, and a header block exactly when it is a non-empty sequence of such fields separated by CRLF or LF. Accepted fields keep their bytes unchanged and in order, names compare without regard to case, and no accepted value can smuggle in an additional field or end the header early.",
 ["inputs"],
 "all strings up to a bounded length over {letter, colon, SP, TAB, CR, LF, NUL, 8-bit, DEL} and all 256 bytes in context; all small field sequences re-serialised and re-parsed",
 "tests cover about fifteen strings",
 ["src/header.rs"],
 [("field name/body validation and block parser","src/header.rs")],
 ["constructor and parser results"])

p("C20","A stuck or slow lookup affects only its own signatures",
 "When the lookup for one key never completes, verification still finishes within the configured lookup timeout and reports a timeout for the signatures that depend on that key only, while all others get their normal result. Lookups for different keys proceed concurrently, so the slowest one bounds the total time.",
 ["schedules","fault_sequences","configurations"],
 "all assignments of {immediate, delayed, never} to up to 3 lookups x processing orders x timeouts under a controlled clock",
 "the only tests of this (in the query module) are commented out; no test stalls a lookup",
 ["src/verifier/query.rs","src/verifier/header.rs"],
 [("per-lookup timeout and concurrent lookups","src/verifier/query.rs Queries::spawn")],
 ["time to completion under a virtual clock, verification results"])

p("C21","Weak algorithms are off unless explicitly enabled, then opt-in works",
 "By default, signatures using SHA-1 are never created or accepted and RSA keys under 1024 bits are never usable for verification, whatever the configuration. With the pre-RFC 8301 feature enabled, SHA-1 signatures are created and verified correctly but are still refused as a policy violation unless allowed by configuration, and RSA keys are usable down to 512 bits only if the configured minimum is lowered.",
 ["configurations","inputs"],
 "both feature builds x all algorithms x allow setting x key sizes 512..2048 around each threshold incl. non-byte-aligned sizes x record hash lists",
 "tests cover a couple of points in one feature build",
 ["src/signature.rs","src/crypto/mod.rs","src/verifier/header.rs","src/record.rs"],
 [("feature gates and key size minimum","src/crypto/mod.rs VerifyingKey::from_key_data"),("SHA-1 policy","src/verifier/header.rs validate_signature")],
 ["parse result, verification status"])

p("C22","Changes that canonicalisation forgives never break a signature",
 "A valid signature keeps verifying after any alteration that the declared canonicalisation cancels out or that lies outside the signed content: unsigned fields added, removed or changed, trailing empty body lines added or removed, content appended beyond the declared body length, and for relaxed parts also whitespace and folding changes within fields, around the colon and at line ends, and header-name case. The same holds for whitespace changes inside the encoded signature value.",
 ["inputs","configurations"],
 "all single (and pairs of) permitted edits at every applicable position of small signed messages for all canonicalisation pairs and both key types",
 "tests only verify messages as signed plus a few real-world samples",
 ["src/canonicalize.rs","src/verifier/verify.rs","src/message_hash.rs"],
 [("canonicalisation","src/canonicalize.rs"),("removal of the signature value","src/verifier/verify.rs make_original_dkim_sig")],
 ["verification status"])

p("C23","Keys are read only in their proper encodings and sizes are true bit sizes",
 "Signing keys are read from PKCS#8 PEM and public keys from key records (RSA as SubjectPublicKeyInfo or bare RSAPublicKey DER, Ed25519 as 32 raw bytes); malformed, truncated, extended or wrong-type data is rejected and never read as a different key. The reported key size equals the true bit length of the key and decides usability against the minimum and the configured size.",
 ["inputs"],
 "every truncation, one-byte extension and single-byte corruption (structural bytes, all values) of valid encodings for each key type; key sizes at and around each threshold including non-multiples of 8",
 "tests decode a handful of good keys",
 ["src/crypto/mod.rs","src/crypto/rsa.rs","src/crypto/ed25519.rs"],
 [("key readers","src/crypto")],
 ["reader results, verification status"])

p("C24","Signatures interoperate bit-exactly with independent implementations",
 "Every signature issued is the RSASSA-PKCS1-v1_5 or Ed25519 signature, by the given key, over the RFC 6376 hash input recomputed independently from the emitted header text and message, with a body hash and body length matching the independently canonicalised body; every signature constructed independently in any RFC-conforming layout (tag order, folding, whitespace around tags and in base64, omitted defaults, key type tag variants) is accepted by the verifier. Signer and verifier therefore cannot share a compensating error.",
 ["inputs","configurations"],
 "all option combinations on the signing side judged by an independent reference; all layouts of an independently built signature header over tag permutations, folding/whitespace placements and default omissions on the verifying side",
 "tests check against two or three recorded messages; round-trip tests cannot see an error made identically on both sides",
 ["src/signer/sign.rs","src/verifier/verify.rs","src/message_hash.rs","src/canonicalize.rs"],
 [("hash input construction","src/message_hash.rs compute_data_hash"),("b= removal","src/verifier/verify.rs")],
 ["emitted header bytes; verification status of foreign signatures"])

p("C25","Signature time and lifetime tags equal the request and the clock",
 "The timestamp tag of an issued signature is absent, the exact requested value or the current time as requested, and the expiry tag is absent or equals that timestamp (or, without one, the current time) plus the requested lifetime in whole seconds, always later than the timestamp; when this cannot be represented no unusable signature is issued. The signature is within its lifetime from the moment it is issued until exactly its expiry.",
 ["configurations","inputs"],
 "all timestamp modes x lifetimes {none, sub-second fractions, 1s, days, extreme} x clock values incl. before the epoch and extremes under a controlled clock, cross-checked by verification at expiry-1, expiry, expiry+1",
 "tests use one fixed timestamp; clock-dependent behaviour is never controlled",
 ["src/signer/sign.rs","src/verifier/header.rs"],
 [("timestamp and expiration computation","src/signer/sign.rs perform_signing")],
 ["emitted tags, verification status at chosen times"])

p("C26","Sessions are independent, repeatable and can be abandoned",
 "The outcome of a signing or verification session depends only on that session's own inputs: its message, requests or configuration, keys, clock and the DNS answers given during it. Any number of sessions may run one after another, interleaved call by call and poll by poll, or handed from thread to thread, and any may be abandoned at any point, without changing what another one or a later one signs, looks up or reports; the same inputs always give the same signatures and results, and a key that has since changed in DNS is never used.",
 ["schedules","histories"],
 "all sequences of up to four sessions of any kind, all interleavings of two sessions (and of three with few switches) at the grain of API calls and future polls, all abandonment points, all assignments of the steps to two threads, all histories of a key record in the zone",
 "tests run one session at a time, to the end, each with inputs of its own, so that state carried from one to another cannot show",
 ["src/signer/mod.rs","src/signer/sign.rs","src/verifier/mod.rs","src/verifier/header.rs","src/verifier/query.rs","src/message_hash.rs"],
 [("staged sessions","src/signer/mod.rs Signer, src/verifier/mod.rs Verifier"),("lookups and their results","src/verifier/query.rs, src/verifier/header.rs")],
 ["signing output, verification results, query log of each session"])

p("C27","Registered names and Base64 print and read back exactly",
 "Every algorithm, canonicalisation, key type, hash, service type, flag and result prints as its registered name and nothing else; names are read back without regard to ASCII case to the value that prints so, a canonicalisation without a body part means simple, and no other text is read as any of them. Base64 encoding is RFC 4648 with padding for every byte string and decoding inverts it, refusing every text that is not such an encoding. Domains, selectors and identities print exactly as they were written and read back equal.",
 ["inputs"],
 "all names in all letter cases, all one-character edits of them, all strings of name pieces up to length 7; all byte strings up to length 2 and edge bytes up to 5, all texts over the Base64 alphabet's classes up to length 7, every character at every place of encodings up to 80 octets",
 "tests convert a few names and values; a wrong spelling, a lost case variant or an accepted neighbour is one input among many",
 ["src/signature.rs","src/util.rs","src/crypto/mod.rs","src/record.rs","src/verifier/mod.rs"],
 [("canonical names","CanonicalStr and FromStr implementations"),("Base64","src/util.rs encode_base64, decode_base64")],
 ["printed text, parsed values"])

p("C28","Diagnostics are total and faithful, hide keys, and logging changes nothing",
 "Printing any value of the library for people or logs - in display or debug form, plain or pretty: headers, signatures, records, results, requests, keys, errors - always succeeds. Byte strings print so that exactly their bytes can be read back, binary data prints as Base64, names, numbers and texts as they are; every kind of error has a one-line description of its own, and an error with a cause gives it as its source. No form, and no event logged while reading a key, signing or verifying, shows any part of a private key. Turning logging on or off at any point changes no result, no lookup and no signature.",
 ["inputs","configurations"],
 "all byte strings up to length 2 and of 18 tricky pieces up to 5, texts up to 2050 bytes; every variant of every error type; 20 keys x every value that holds one and every cut and damage of their PEM texts; every two of 26 sessions with logging off, on or changing at each step; up to three odd tags or records under full logging",
 "tests run without a log subscriber, so that no log statement is ever evaluated, and print two or three values",
 ["src/util.rs","src/verifier/mod.rs","src/signature.rs","src/signer/mod.rs","src/crypto/mod.rs","src/record.rs"],
 [("debug helpers","src/util.rs Base64Debug, BytesDebug"),("errors","Display and Error implementations"),("logging","trace! statements throughout")],
 ["printed text, logged events, results with and without a subscriber"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
