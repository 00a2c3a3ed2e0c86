#!/usr/bin/env python3
"""Changes of the library that keep its behaviour: the checks have to stay quiet on them.

usage: refactor.py NAME,NAME... [PROPERTY...]   all of the named changes at once ("all": every one), then the checks
Works on copies under /tmp/rf; no check reads what it writes. Descriptions: tools/refactorings.py
"""
import os, subprocess, sys, time
sys.path.insert(0, os.path.dirname(__file__))
from refactorings import R
B = "/tmp/rf"
ENV = dict(os.environ, PATH="/root/.cargo/bin:/usr/bin:/bin", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
def sh(cmd, cwd=None, env=ENV, timeout=None):
    r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=cwd, env=env)
    return r.returncode, r.stdout
names = list(R) if sys.argv[1] == "all" else sys.argv[1].split(",")
checks = sys.argv[2:] or ["C%02d" % i for i in range(1, 28)]
repo, ver = B + "/repo", B + "/verif"
sh(f"mkdir -p {repo} {ver}/evidence {ver}/replay && rm -rf {repo}/barbarosa && cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/barbarosa {repo}/")
sh(f"mkdir -p {ver}/harness && rm -rf {ver}/harness/src && cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {ver}/harness/ && cp /verif/*.txt /verif/*.jsonl {ver}/")
sh(f"sed -i 's#/repo/barbarosa#{repo}/barbarosa#' {ver}/harness/Cargo.toml")
for n in names:
    if sys.argv[1] == "all" and any(open(f"{repo}/barbarosa/src/{f}").read().count(old) != 1 for f, old, _ in R[n]):
        print("not together with the others:", n)
        continue
    for f, old, new in R[n]:
        p = f"{repo}/barbarosa/src/{f}"
        t = open(p).read()
        if t.count(old) != 1: sys.exit(f"{n}: {f}: the text occurs {t.count(old)} times:\n{old}")
        open(p, "w").write(t.replace(old, new))
rc, o = sh("cargo test --offline --lib", cwd=repo + "/barbarosa", env=dict(ENV, CARGO_TARGET_DIR=B + "/target-test", RUSTFLAGS="-Awarnings"))
print("tests:", [l for l in o.splitlines() if "test result" in l] if rc == 0 else o[-3000:], flush=True)
if rc: sys.exit(1)
hooks = True
rc, o = sh("cargo build --release --offline --bins", cwd=ver + "/harness", env=dict(ENV, RUSTFLAGS="--cfg verif_hooks -Awarnings", CARGO_TARGET_DIR=B + "/target"))
if rc:
    print("with hooks:", "\n".join([l for l in o.splitlines() if l.startswith("error")][:5]))
    hooks = False
    rc, o = sh("cargo build --release --offline --bins", cwd=ver + "/harness", env=dict(ENV, RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=B + "/target-nohooks"))
    if rc: print("NO BUILD", o[-3000:]); sys.exit(1)
print("hooks:", hooks, flush=True)
e = dict(ENV, VERIF_DIR=ver, VERIF_TIER="quick", VERIF_SEED="1", BARBAROSA_BIN=B + "/target-program/release/barbarosa")
if "C22" in checks or "C11" in checks:
    rc, o = sh("cargo build --release --offline --bin barbarosa", cwd=repo + "/barbarosa", env=dict(ENV, RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=B + "/target-program", CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true"))
    if rc: print(o[-2000:])
for c in checks:
    t = time.time()
    rc, o = sh(f"timeout 900 {B}/target{'' if hooks else '-nohooks'}/release/{c.lower()}", cwd=ver, env=e)
    print(c, "quiet" if rc == 0 else f"EXIT {rc}\n{o[-1500:]}", f"{time.time() - t:.0f} s", flush=True)
