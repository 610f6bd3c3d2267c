#!/usr/bin/env python3
"""Development aid: applies candidate bugs one by one in a scratch copy, runs
the repository's tests and the checks there. Usage: triage.py [ids...] [--checks own|all|C01,C02]"""
import subprocess, sys, os, json, shutil, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mutants import M
W = "/tmp/w"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)
BOTH = "C01 C05 C07 C08 C12 C15 C18 C21 C23 C24 C27".split()
def sh(c, t=900, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=ENV, timeout=t, capture_output=True, text=True)
def setup():
    os.makedirs(W + "/verif", exist_ok=True)
    sh(f"rsync -a --delete --exclude target --exclude .git /repo/ {W}/repo/")
    sh(f"rsync -a --delete --exclude target /verif/mc/ {W}/verif/mc/")
    sh(f"cp /verif/known-findings.txt {W}/verif/")
def main():
    args = sys.argv[1:]
    checks = "own"; tests = True
    if "--checks" in args:
        i = args.index("--checks"); checks = args[i+1]; del args[i:i+2]
    if "--notest" in args:
        tests = False; args.remove("--notest")
    allc = ["C%02d" % i for i in range(1, 29)]
    for (id, prop, f, edits) in M:
        if args and not any(id == a or (a.endswith("*") and id.startswith(a[:-1])) for a in args): continue
        setup()
        p = f"{W}/repo/{f}"
        s = open(p).read()
        bad = False
        for old, new in edits:
            if s.count(old) != 1:
                print(id, "OLD TEXT COUNT", s.count(old), repr(old[:60])); bad = True; break
            s = s.replace(old, new)
        if bad: continue
        open(p, "w").write(s)
        t0 = time.time()
        if tests:
            r = sh("cargo test --offline --quiet 2>&1; echo rc=$?; cargo test --offline --quiet --features pre-rfc8301 2>&1; echo rc=$?", cwd=W + "/repo")
            if r.stdout.count("rc=0") != 2:
                x = [l for l in r.stdout.splitlines() if "error" in l or "panicked" in l or "FAILED" in l][:3]
                print(f"{id} [{prop}] TESTS/BUILD FAIL {x}", flush=True); continue
        cs = [prop] if checks == "own" else allc if checks == "all" else checks.split(",")
        res = []
        for c in cs:
            got = ""
            for fl in (["default", "pre-rfc8301"] if c in BOTH else ["default"]):
                feat = "" if fl == "default" else "--features " + fl
                b = sh(f"cargo build --release --offline --quiet --target-dir target/{fl} {feat}", cwd=W + "/verif/mc")
                if b.returncode: got += " BUILD " + b.stderr[-300:]; continue
                t1 = time.time()
                r = sh(f"./target/{fl}/release/mc --check {c} --replays /tmp/w/replays --known ../known-findings.txt", cwd=W + "/verif/mc", t=900)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                if v: got += f" {fl[:3]}:CAUGHT({time.time()-t1:.0f}s)"
                elif r.returncode not in (0,): got += f" {fl[:3]}:rc{r.returncode}"
            res.append((c, got))
        print(f"{id} [{prop}] " + ("; ".join(c + g for c, g in res if g) or "MISSED"), flush=True)
main()
