#!/usr/bin/env python3
"""Development aid: (re)creates /verif/seeded/<id>/ from plants.py and confirms
each planted bug: patch applies, repository tests pass with it, the
demonstration passes without and fails with it; then runs the property's check
on it. Usage: plant.py [ids] [--nocheck] [--checks C01,C02]"""
import subprocess, sys, os, json, shutil, time, re, textwrap
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from plants import P
W = "/tmp/p"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)
BOTH = "C01 C05 C07 C08 C12 C15 C18 C21 C23 C24 C27".split()
def sh(c, t=900, cwd=None):
    return subprocess.run(c, shell=True, cwd=cwd, env=ENV, timeout=t, capture_output=True, text=True)
DEMO = '''#!/bin/bash
# Runs main.rs against the library in the current directory: exit 0 if it
# behaves, nonzero otherwise.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:$PATH CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_TARGET_DIR RUSTC_WRAPPER
rm -rf /tmp/demo-%(id)s
mkdir -p /tmp/demo-%(id)s/src
trap 'rm -rf /tmp/demo-%(id)s' EXIT
cp "$here/main.rs" "$here/common.rs" /tmp/demo-%(id)s/src/
cp "$here"/*.pem /tmp/demo-%(id)s/
cp "$repo/Cargo.lock" /tmp/demo-%(id)s/
cat > /tmp/demo-%(id)s/Cargo.toml <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
viadkim = { path = "$repo"%(feat)s }
ed25519-dalek = { version = "2.0.0", features = ["pkcs8"] }
rsa = { version = "0.9.6", default-features = false, features = ["std", "pem"] }
base64ct = { version = "1.6.0", features = ["alloc"] }
tokio = { version = "1.33.0", default-features = false, features = ["rt", "time", "test-util"] }%(sub)s
[profile.dev]
debug = 0
[profile.dev.package."*"]
opt-level = 1
END
cd /tmp/demo-%(id)s || exit 3
cargo build --offline --quiet || exit 3
timeout 60 ./target/debug/demo
'''
def write(p):
    d = os.environ.get("SEED_OUT", "/verif/seeded") + "/" + p["id"]
    os.makedirs(d, exist_ok=True)
    open(d + "/main.rs", "w").write("mod common;\nuse common::*;\n\n" + textwrap.dedent(p["main"]).strip() + "\n")
    shutil.copy(H + "/common.rs", d)
    for k in sorted(set(re.findall(r'"((?:ed)\d|rsa\d+b?)"', p["main"]))) or []:
        n = k if k.startswith("ed") else k
        src = f"/verif/mc/keys/{n}.pem"
        shutil.copy(src, f"{d}/{k}.pem")
    if not any(f.endswith(".pem") for f in os.listdir(d)): shutil.copy("/verif/mc/keys/ed1.pem", d)
    feat = ', features = ["pre-rfc8301"]' if p.get("pre") else ""
    open(d + "/demo.sh", "w").write(DEMO % dict(id=p["id"], feat=feat, sub='\ntracing = "0.1.37"\ntracing-subscriber = { version = "0.3.17", features = ["fmt"] }' if "tracing" in p["main"] else ""))
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": p["prop"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    return d
def main():
    args = sys.argv[1:]; check = True; checks = None
    if "--nocheck" in args: check = False; args.remove("--nocheck")
    if "--checks" in args: i = args.index("--checks"); checks = args[i+1].split(","); del args[i:i+2]
    os.makedirs(W + "/verif", exist_ok=True)
    sh(f"rsync -a --delete --exclude target /repo/ {W}/repo/")
    for p in P:
        if args and p["id"] not in args: continue
        sh(f"git -C {W}/repo checkout -q -- .; rsync -a --delete --exclude target /verif/mc/ {W}/verif/mc/; cp /verif/known-findings.txt {W}/verif/")
        d = write(p)
        r0 = sh(f"bash {d}/demo.sh", cwd=W + "/repo", t=300)
        bad = None
        for f, old, new in p["edits"]:
            q = f"{W}/repo/{f}"; s = open(q).read()
            if s.count(old) != 1: bad = f"OLD TEXT COUNT {s.count(old)} {old[:60]!r}"; break
            open(q, "w").write(s.replace(old, new))
        if bad: print(p["id"], bad, flush=True); continue
        diff = sh("git diff", cwd=W + "/repo").stdout
        open(d + "/patch.diff", "w").write(diff)
        t = sh("cargo test --workspace --offline --quiet 2>&1; echo rc=$?; cargo test --offline --quiet --features pre-rfc8301 2>&1; echo rc=$?", cwd=W + "/repo")
        tests = "ok" if t.stdout.count("rc=0") == 2 else "FAIL " + str([l for l in t.stdout.splitlines() if "error" in l or "panicked" in l or "FAILED" in l][:3])
        t1 = time.time()
        r1 = sh(f"bash {d}/demo.sh", cwd=W + "/repo", t=300)
        dt = time.time() - t1
        demo = f"demo {r0.returncode}/{r1.returncode} {dt:.0f}s"
        if r0.returncode != 0: demo += " BAD-CLEAN " + r0.stderr[-1500:]
        if r1.returncode in (0, 3): demo += " BAD-PATCHED " + r1.stderr[-1500:]
        got = ""
        if check and tests == "ok":
            for c in checks or [p["prop"]]:
                for fl in (["default", "pre-rfc8301"] if c in BOTH else ["default"]):
                    feat = "" if fl == "default" else "--features " + fl
                    b = sh(f"cargo build --release --offline --quiet --target-dir target/{fl} {feat}", cwd=W + "/verif/mc")
                    if b.returncode: got += " BUILD " + b.stderr[-500:]; continue
                    t1 = time.time()
                    r = sh(f"./target/{fl}/release/mc --check {c} --replays {W}/replays --known ../known-findings.txt", cwd=W + "/verif/mc", t=900)
                    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                    got += f" {c}/{fl[:3]}:{'CAUGHT' if v else 'missed' if r.returncode == 0 else 'rc%d' % r.returncode}({time.time()-t1:.0f}s)"
        print(f"{p['id']} [{p['prop']}] tests {tests} | {demo} |{got}", flush=True)
main()
