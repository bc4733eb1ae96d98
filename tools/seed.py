#!/usr/bin/env python3
"""tools/seed.py ID: confirm the seeded change /verif/seeded/ID in a scratch copy of /repo (builds, stable tests pass,
demo passes without and fails with it), then run the check of its property on that copy."""
import json, os, subprocess, sys, shutil
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
env = dict(os.environ, CARGO_TARGET_DIR=W+"/repo/target", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
def build(): return sh("cargo build --workspace --all-targets --offline", cwd=W+"/repo", env=env)
def main(i, only_check):
    os.makedirs(W, exist_ok=True)
    if not os.path.isdir(W+"/repo"): sh(f"cp -a /repo {W}/repo")
    sh(f"git -C {W}/repo checkout -q -- . && git -C {W}/repo fetch -q /repo HEAD && git -C {W}/repo reset -q --hard FETCH_HEAD")
    d = f"{here}/seeded/{i}"
    meta = json.load(open(d+"/meta.json"))
    ok = True
    if not only_check:
        b = build()
        if b.returncode: print(b.stdout[-3000:]); return print(i, "BASE BUILD FAILED")
        r = sh(f"bash {d}/demo.sh", cwd=W+"/repo")
        if r.returncode: ok = False; print(i, "DEMO FAILS ON BASE\n", r.stdout[-1500:])
    a = sh(f"git -C {W}/repo apply {d}/patch.diff")
    if a.returncode: return print(i, "PATCH DOES NOT APPLY", a.stdout)
    if not only_check:
        b = build()
        if b.returncode: print(b.stdout[-3000:]); return print(i, "BUILD FAILED")
        t = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 2>&1 | grep -E '^test |FAILED|panicked' | grep -v ' ok$'", cwd=W+"/repo", env=env)
        bad = [l for l in t.stdout.splitlines() if l.startswith("test ") and l.rstrip().endswith("FAILED")]
        if bad: ok = False; print(i, "TESTS FAIL\n", "\n".join(bad[:20]))
        r = sh(f"bash {d}/demo.sh", cwd=W+"/repo")
        if r.returncode == 0: ok = False; print(i, "DEMO PASSES WITH PATCH\n", r.stdout[-1500:])
    e = dict(os.environ, REPO=W+"/repo", VERIF_WORK=W+"/build")
    r = sh(f"{here}/build.sh && {here}/facts.sh", env=e)
    if r.returncode: print(r.stdout[-2000:]); return print(i, "FACTS FAILED")
    os.makedirs(W+"/verif", exist_ok=True)
    shutil.copy(here+"/known-findings.txt", W+"/verif/")
    res = []
    for p in [meta["property"]] + meta.get("also", []):
        r = sh(f"timeout 600 {here}/.build/engine {p} {W}/build/facts {W}/verif")
        res.append(f"{p}:{'CAUGHT' if r.returncode == 1 else 'missed' if r.returncode == 0 else 'ERROR'}")
        print("\n".join(l[:250] for l in r.stdout.splitlines() if "replay" not in l and "rule:" not in l)[:300])
    print(i, "VALID" if ok else "INVALID", *res)
args = [a for a in sys.argv[1:] if not a.startswith("-")]
for i in args: main(i, "-c" in sys.argv)
