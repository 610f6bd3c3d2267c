#!/usr/bin/env python3
"""Runs the check of one property: check.py C03 [quick|thorough]
   check.py --build            build both flavours (setup)
   check.py --replay FILE      re-run one recorded execution
Exit 0: held on everything explored. 1: VIOLATION printed. Other: no answer."""
import fcntl, glob, json, os, shutil, signal, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
MC = os.path.join(ROOT, "mc")
# Properties whose space also covers the pre-RFC 8301 build of the library.
BOTH = {"C01", "C05", "C07", "C08", "C12", "C15", "C18", "C21", "C23", "C24", "C27"}


def env():
    e = dict(os.environ)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="",
    )
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    return e


def build(flavour):
    target = os.path.join(MC, "target", flavour)
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, ".lock-check"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # Cargo goes by mtime; make it look at the sources of the library each time.
        for d in glob.glob(os.path.join(target, "release/.fingerprint/viadkim-*")):
            shutil.rmtree(d, ignore_errors=True)
        cmd = ["cargo", "build", "--release", "--offline", "--locked", "--quiet", "--target-dir", target]
        if flavour != "default":
            cmd += ["--features", flavour]
        r = subprocess.run(cmd, cwd=MC, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            out = r.stdout.decode("utf-8", "replace")
            print(f"BUILD-ERROR ({flavour}):\n" + out[-4000:])
            sys.exit(2)
    return os.path.join(target, "release/mc")


def main():
    a = sys.argv[1:]
    if a and a[0] == "--build":
        for f in ("default", "pre-rfc8301"):
            build(f)
        return 0
    if a and a[0] == "--replay":
        d = json.load(open(a[1]))
        b = build(d["flavour"])
        cmd = [b, "--check", d["property"], "--tier", d["tier"], "--replay-part", d["part"], "--max-dev",
               str(d["max_dev"]), "--choices", ",".join(map(str, d["choices"]))]
        return subprocess.run(cmd, env=env()).returncode
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    evdir = os.path.join(ROOT, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in glob.glob(os.path.join(ROOT, "replays", pid + "-*")):
        os.remove(f)
    frags, code, viols = [], 0, 0
    for fl in ["default"] + (["pre-rfc8301"] if pid in BOTH else []):
        b = build(fl)
        out = os.path.join(evdir, f".{pid}.{fl}.frag")
        if os.path.exists(out):
            os.remove(out)
        cmd = [b, "--check", pid, "--tier", tier, "--seed", str(seed), "--out", out, "--replays",
               os.path.join(ROOT, "replays"), "--known", os.path.join(ROOT, "known-findings.txt")]
        r = subprocess.run(cmd, cwd=MC, env=env(), stdout=subprocess.PIPE)
        text = r.stdout.decode("utf-8", "replace")
        sys.stdout.write(text)
        sys.stdout.flush()
        rc = r.returncode
        if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL):
            p = os.path.join(ROOT, "replays", f"{pid}-{fl}-crash.json")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            json.dump({"property": pid, "flavour": fl, "crash": f"signal {-rc}", "cmd": cmd}, open(p, "w"))
            print(f"VIOLATION property={pid} replay={p}\n  the process died of signal {-rc} while running the library")
            rc = 1
        if rc == 1:
            viols += text.count("VIOLATION property=") or 1
            code = max(code, 1) if code in (0, 1) else code
        elif rc != 0:
            print(f"CHECK-ERROR: {fl} run ended with {rc}")
            return 2
        if os.path.exists(out):
            frags.append(json.load(open(out)))
            os.remove(out)
    cov = {
        "states": sum(f["states"] for f in frags),
        "transitions": sum(f["transitions"] for f in frags),
        "traces_validated_against_impl": sum(f["traces"] for f in frags),
        "exhaustive": not viols,
        "rule": "states: nodes of the choice tree visited; transitions: calls of the library's API executed; "
                "traces: complete executions of the real library compared with the reference model; "
                "every part enumerates its stated space completely (no sampling, no cap)",
        "outside_space": sum(f["outside_space"] for f in frags),
        "parts": [p for f in frags for p in f["parts"]],
        "samples": [s for f in frags for s in f["samples"]],
        "known_findings_seen": sorted({k for f in frags for k in f["known_findings"]}),
    }
    m = json.load(open(os.path.join(ROOT, "MANIFEST.json"))) if os.path.exists(os.path.join(ROOT, "MANIFEST.json")) else {"checks": []}
    level = next((c["level"] for c in m["checks"] if c["property"] == pid), "model_checking")
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
        "assumptions": [n for f in frags for n in f["notes"]] + [
            "values outside the stated alphabets and bounds are not covered",
            "SHA-1/SHA-2, Ed25519 and big-integer arithmetic of the dependency crates are trusted",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": viols,
    }
    p = os.path.join(evdir, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write("\n")
    os.replace(p + ".tmp", p)
    return code


sys.exit(main())
