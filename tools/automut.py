#!/usr/bin/env python3
"""Development aid: systematic mutation of the library. Mutants that compile and
pass the repository's tests are run against the checks of the properties that
the mutated file bears on; survivors are printed for inspection.
Usage: automut.py FILE... [--every K] [--offset O]   (scratch: /tmp/m)"""
import re, subprocess, os, sys, time
W = "/tmp/m"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)
CHECKS = {
 "canonicalize.rs": "C03 C04 C05", "header.rs": "C19 C04", "message_hash.rs": "C05 C24", "parse.rs": "C19 C06 C07",
 "quoted_printable.rs": "C09 C07 C10", "record.rs": "C08 C15", "signature.rs": "C17 C07", "tag_list.rs": "C06 C07 C08 C09",
 "util.rs": "C07 C23 C11 C10", "crypto/ed25519.rs": "C23 C24", "crypto/hash.rs": "C05 C24 C21", "crypto/mod.rs": "C21 C23 C24",
 "crypto/rsa.rs": "C23 C24 C21", "signer/format.rs": "C10 C11 C24", "signer/mod.rs": "C11 C04 C10 C01", "signer/sign.rs": "C25 C10 C11 C24",
 "verifier/header.rs": "C14 C15 C13 C12 C18", "verifier/mod.rs": "C18 C12 C14 C05", "verifier/query.rs": "C13 C20 C12", "verifier/verify.rs": "C24 C02 C22",
}
PRE = {"C21", "C23", "C08", "C15", "C18"}
OPS = [
 (r"(?<![<>=!-])<(?![<=a-zA-Z'_&(\[])", ["<="]), (r"<=", ["<"]), (r"(?<![-=<>])>(?![>=])(?= )", [">="]), (r"(?<![>])>=", [">"]),
 (r"==", ["!="]), (r"!=", ["=="]), (r"&&", ["||"]), (r"\|\|(?! *\{)(?=\s)", ["&&"]),
 (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]),
 (r"(?<![\w.\"'])(\d+)(?![\w.\"'])", [lambda m: str(int(m.group(1)) + 1), lambda m: str(max(0, int(m.group(1)) - 1))]),
 (r" \+ ", [" - "]), (r" - ", [" + "]), (r"\.is_some\(\)", [".is_none()"]), (r"\.is_none\(\)", [".is_some()"]),
 (r"\.is_empty\(\)", [".len() == 1"]), (r"if !", ["if "]), (r"\bbreak;", ["{}"]), (r"\bcontinue;", ["{}"]),
 (r"saturating_add\((\w+)\)", [lambda m: "wrapping_add(%s)" % m.group(1)]), (r"saturating_sub\((\w+)\)", [lambda m: "wrapping_sub(%s)" % m.group(1)]),
 (r"eq_ignore_ascii_case\(([^)]*)\)", [lambda m: "eq(%s)" % m.group(1)]),
 (r"\bany\(", ["all("]), (r"\ball\(", ["any("]), (r"b'(.)'", [lambda m: "b'~'"]), (r"(?<!b)'([^'\\])'", [lambda m: "'~'"]),
 (r"\.to_ascii_lowercase\(\)", [".to_owned()"]), (r"\.trim\(\)", [""]), (r"to_ascii\(\)", ["to_unicode()"]), (r"to_unicode\(\)", ["to_ascii()"]),
]
def sh(c, t=900, cwd=None):
    try:
        return subprocess.run(c, shell=True, cwd=cwd, env=ENV, timeout=t, capture_output=True, text=True)
    except subprocess.TimeoutExpired:
        subprocess.run(f"pkill -f {W}/", shell=True)
        return subprocess.CompletedProcess(c, 124, "TIMEOUT", "")
def mutants(path):
    src = open(path).read()
    end = src.find("#[cfg(test)]\nmod tests")
    if end < 0: end = len(src)
    pos = 0
    for n, line in enumerate(src[:end].splitlines(True)):
        at = pos; pos += len(line)
        t = line.strip()
        if t.startswith(("//", "#", "use ", "pub use", "write!", "trace!", "pub mod", "mod ", "debug_assert", "assert", "fn ", "pub fn", "impl", "pub struct", "pub enum", "type ", "pub trait", "where")) or "=> write!" in t or "=> f.write" in t: continue
        code = line.split("//")[0]
        for rx, reps in OPS:
            for m in re.finditer(rx, code):
                if code[:m.start()].count('"') % 2: continue
                for r in reps:
                    new = r(m) if callable(r) else r
                    if new == m.group(0): continue
                    yield n + 1, at + m.start(), at + m.end(), new, src
        if re.match(r"^\s+[a-z_*.]+[^=]*;\s*$", code) and not re.match(r"^\s+(let|return|break|continue|use)\b", code) or re.match(r"^\s+\*?[\w.]+ [+|-]?= .*;\s*$", code):
            yield n + 1, at, at + len(line), "\n", src
def main():
    a = sys.argv[1:]; every = 1; off = 0
    if "--every" in a: i = a.index("--every"); every = int(a[i+1]); del a[i:i+2]
    if "--offset" in a: i = a.index("--offset"); off = int(a[i+1]); del a[i:i+2]
    os.makedirs(W + "/verif", exist_ok=True)
    for f in a:
        sh(f"rsync -a --delete --exclude target /repo/ {W}/repo/; rsync -a --delete --exclude target /verif/mc/ {W}/verif/mc/; cp /verif/known-findings.txt {W}/verif/")
        sh("rm -f /tmp/m/repo/.git", cwd=W)
        p = f"{W}/repo/src/{f}"
        st = dict(total=0, build=0, tests=0, caught=0, survived=0)
        for k, (n, s, e, new, src) in enumerate(list(mutants(p))):
            if k % every != off: continue
            st["total"] += 1
            open(p, "w").write(src[:s] + new + src[e:])
            t = sh("cargo test --offline --quiet 2>&1", cwd=W + "/repo", t=120)
            if t.returncode:
                st["build" if "could not compile" in t.stdout else "tests"] += 1
                continue
            got = None
            t0 = time.time()
            for c in CHECKS[f].split():
                for fl in (["default", "pre-rfc8301"] if c in PRE else ["default"]):
                    feat = "" if fl == "default" else "--features " + fl
                    b = sh(f"rm -rf target/{fl}/release/.fingerprint/viadkim-*; cargo build --release --offline --quiet --target-dir target/{fl} {feat}", cwd=W + "/verif/mc")
                    if b.returncode: got = "BUILD"; break
                    r = sh(f"./target/{fl}/release/mc --check {c} --replays {W}/replays --known ../known-findings.txt", cwd=W + "/verif/mc", t=400)
                    if r.returncode: got = f"{c}/{fl[:3]}"; break
                if got: break
            if got: st["caught"] += 1
            else:
                st["survived"] += 1
                line = src[:s].count("\n")
                print(f"SURVIVED {f}:{n} {src.splitlines()[n-1].strip()[:100]!r}: {src[s:e].strip()!r} -> {new.strip()!r} ({time.time()-t0:.0f}s)", flush=True)
        open(p, "w").write(src)
        print(f, st, flush=True)
main()
