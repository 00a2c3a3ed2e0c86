#!/usr/bin/env python3
"""Plants the bugs described in tools/bugs/*.py, one at a time, into /repo's working tree.

usage: plant.py screen ID...   edit, build, existing tests, then the check of the bug's property; nothing is kept
       plant.py keep ID...     the same, then the demonstration with and without the change; writes /verif/seeded/ID
       plant.py check ID [PROPERTY...]   apply seeded/ID/patch.diff and run the check(s)

/repo is put back with `git checkout -- .` after every bug, whatever happens.
A description: dict(id, property, edits=[(file under barbarosa/src, old, new)...], needs, breaks, demo=<main.rs> or sh=<script>)
"""
import glob, json, os, re, subprocess, sys, time
REPO, VERIF = "/repo", "/verif"
SRC = REPO + "/barbarosa/src/"

DEMO_CARGO = r'''#!/bin/bash
# usage: demo.sh, with the repository as the working directory; exit 0 when the behaviour is right
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
S=$(mktemp -d) || exit 3
trap 'rm -rf -- "$S"' EXIT
mkdir -p "$S/src" && cp "$here/main.rs" "$S/src/main.rs" || exit 3
cp "$repo/Cargo.lock" "$S/Cargo.lock"
cat > "$S/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
barbarosa = { path = "$repo/barbarosa" }
rand = "0.8.5"
[workspace]
TOML
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${DEMO_TARGET:-$S/target}
(cd "$S" && cargo build --offline --quiet) || exit 3
bin=$(realpath "$CARGO_TARGET_DIR/debug/demo")
cd "$S" && "$bin"
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def reset():
    sh(["git", "-C", REPO, "checkout", "--", "."])

def load():
    out = {}
    for f in sorted(glob.glob(VERIF + "/tools/bugs/*.py")):
        ns = {}
        exec(open(f).read(), ns)
        for b in ns["BUGS"]:
            assert b["id"] not in out, b["id"]
            out[b["id"]] = b
    return out

def base_lines(f):
    base = sh(f"git -C {REPO} rev-list --max-parents=0 HEAD").stdout.split()[0]
    return sh(["git", "-C", REPO, "show", f"{base}:barbarosa/src/{f}"]).stdout.splitlines()

def edit(b):
    for f, old, new in b["edits"]:
        t = open(SRC + f).read()
        if t.count(old) != 1:
            raise SystemExit(f"{b['id']}: {f}: the text to replace occurs {t.count(old)} times:\n{old}")
        open(SRC + f, "w").write(t.replace(old, new))

def removed_not_in_base(diff):
    bad, cur = [], None
    for l in diff.splitlines():
        if l.startswith("--- a/barbarosa/src/"):
            cur = set(base_lines(l[len("--- a/barbarosa/src/"):]))
        elif l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in cur:
            bad.append(l)
    return bad

def tests():
    r = sh(["bash", "/opt/vp/build.sh"])
    if r.returncode:
        return "does not build\n" + r.stdout[-2500:]
    out = "/tmp/plant-results.json"
    sh(["bash", "/opt/vp/test.sh", out])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    res = json.load(open(out))
    passed = set(res.get("passed", res.get("pass", [])))
    miss = sorted(stable - passed)
    return "tests fail: " + ", ".join(miss) if miss else None

def run_check(p):
    t = time.time()
    r = sh(["bash", VERIF + "/check.sh", p])
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, v, round(time.time() - t, 1), r.stdout

RESULTS = VERIF + "/tools/planted.json"

def record(i, p, what):
    """What the checks said about the bugs that are kept, for the table in DESIGN.md (no check reads it)"""
    r = json.load(open(RESULTS)) if os.path.exists(RESULTS) else {}
    r.setdefault(i, {})[p] = what
    json.dump(r, open(RESULTS, "w"), indent=1, sort_keys=True)

def one(b, keep):
    reset()
    print(f"== {b['id']} ({b['property']})", flush=True)
    try:
        edit(b)
        diff = sh(["git", "-C", REPO, "diff"]).stdout
        bad = removed_not_in_base(diff)
        if bad:
            print("   touches lines that are not in the base:", bad)
        why = tests()
        if why:
            print("   NOT USABLE:", why)
            return
        keep = keep and (b.get("demo") or b.get("sh"))
        if keep:
            d = f"{VERIF}/seeded/{b['id']}"
            os.makedirs(d, exist_ok=True)
            open(d + "/patch.diff", "w").write(diff)
            if b.get("demo"):
                open(d + "/main.rs", "w").write(b["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(b.get("sh", DEMO_CARGO).lstrip("\n"))
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            env = dict(os.environ, DEMO_TARGET="/tmp/plant-demo-target")
            bad_rc = sh(["bash", d + "/demo.sh"], cwd=REPO, env=env)
            sh(["git", "-C", REPO, "checkout", "--", "."])
            sh(["bash", "/opt/vp/build.sh"])
            good_rc = sh(["bash", d + "/demo.sh"], cwd=REPO, env=env)
            print(f"   demo: with the change {bad_rc.returncode}, without {good_rc.returncode}")
            if bad_rc.returncode in (0, 3) or good_rc.returncode != 0:
                print("   DEMO WRONG\n--- with\n" + bad_rc.stdout[-1500:] + "\n--- without\n" + good_rc.stdout[-1500:])
            edit(b)
        for p in [b["property"]] + b.get("also", []):
            rc, v, dt, out = run_check(p)
            print(f"   check {p}: exit {rc} in {dt} s {'CAUGHT' if rc == 1 and v else 'MISSED' if rc == 0 else 'BROKEN'}  {v[:2]}", flush=True)
            if rc not in (0, 1):
                print(out[-2000:])
            if keep:
                record(b["id"], p, "caught" if rc == 1 and v else "missed")
    finally:
        reset()

if __name__ == "__main__":
    mode, ids = sys.argv[1], sys.argv[2:]
    if mode == "check":
        reset()
        try:
            r = sh(["git", "-C", REPO, "apply", f"{VERIF}/seeded/{ids[0]}/patch.diff"])
            assert r.returncode == 0, r.stdout
            ps = ids[1:] or [json.load(open(f"{VERIF}/seeded/{ids[0]}/meta.json"))["property"]]
            for p in ps:
                rc, v, dt, out = run_check(p)
                print(ids[0], p, rc, dt, v[:3], flush=True)
                record(ids[0], p, "caught" if rc == 1 and v else "missed")
        finally:
            reset()
    else:
        bugs = load()
        for i in ids or list(bugs):
            one(bugs[i], mode == "keep")
