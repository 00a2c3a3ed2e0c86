#!/usr/bin/env python3
"""Systematic small changes ("mutants") of the library, to find behaviour that no check watches.

usage: mutate.py filter OUT.json [WORKERS]   stage 1: all mutants; keeps those that build and pass the existing tests
       mutate.py judge IN.json OUT.json      stage 2: runs the checks on each until one reports it
Works entirely on copies under /tmp/mut; no check reads what it writes.
"""
import json, os, re, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor
import threading, queue
MUT = "/tmp/mut"
ENV = dict(os.environ, PATH="/root/.cargo/bin:/usr/bin:/bin", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")

def sh(cmd, cwd=None, env=ENV, timeout=None):
    try:
        r = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", cwd=cwd, env=env, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:] if e.stdout else ""

SWAPS = [
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" < ", [" <= ", " > "]), (r" <= ", [" < ", " > "]), (r" > ", [" >= ", " < "]), (r" >= ", [" > ", " < "]),
    (r" && ", [" || "]), (r" \|\| ", [" && "]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" << ", [" >> "]), (r" \| ", [" & ", " ^ "]), (r" & ", [" | "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[ (=|&{])!(?=[a-z(])", [""]),
    (r"\bPositive\b", ["Negative"]), (r"\bNegative\b", ["Positive"]), (r"\bX\b", ["Y"]), (r"\bY\b", ["Z"]), (r"\bZ\b", ["X"]),
    (r"\bSingle\b", ["Double", "Inverse"]), (r"\bDouble\b", ["Single"]), (r"\bInverse\b", ["Single"]),
    (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]), (r"\bany\b", ["all"]), (r"\ball\b", ["any"]), (r"\bis_some\b", ["is_none"]), (r"\bis_none\b", ["is_some"]),
    (r"\bnext\b(?=\()", ["prev"]), (r"\bprev\b(?=\()", ["next"]), (r"\.rev\(\)", [""]), (r"\.opposite\(\)", [""]), (r"\.inverse\(\)", [""]), (r"\bfirst\b", ["last"]), (r"\bsaturating_sub\b", ["wrapping_sub"]),
    (r"\bR\b", ["L"]), (r"\bU\b", ["D"]), (r"\bF\b", ["B"]), (r"\bL\b", ["R"]), (r"\bD\b", ["U"]), (r"\bB\b", ["F"]),
    (r"\bNone\b", []), (r"\.take\(", [".skip("]), (r"\.skip\(", [".take("]), (r"\bfilter\(", []), (r"\.\.=", [".."]), (r"(?<=[a-z0-9])\.\.(?=[a-zA-Z0-9])", ["..="]),
    (r"_cw\b", ["_ccw"]), (r"_ccw\b", ["_cw"]), (r"\boriginal_pos\b", []), (r"\bclockwise\b", ["counterclockwise"]),
]

def code_lines(path):
    """(number, text) of the lines worth changing"""
    out, skip, depth, pending = [], False, 0, False
    for n, l in enumerate(open(path).read().split("\n")):
        s = l.strip()
        if pending or skip:
            depth += l.count("{") - l.count("}")
            if "{" in l: skip, pending = True, False
            if skip and depth <= 0: skip = False
            elif pending and s.endswith(";"): pending = False
            continue
        if "cfg(test)" in s or "verif_hooks" in s:
            pending, depth = True, 0
            continue
        if not s or s.startswith(("//", "#[", "use ", "pub use ", "mod ", "pub mod ", "///", "//!", "pub(crate) use", "impl", "#![", "where", "fn ", "pub fn ", "pub(crate) fn", "pub struct", "pub trait", "trait ", "struct ", "enum ", "pub enum ", "const fn", "pub const fn", "assert", "debug_assert", "type ", "#[error")):
            continue
        out.append((n, l))
    return out

def mutants(root):
    for dp, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, root)
            if not f.endswith(".rs") or "test" in rel or f in ("perms.rs", "lib.rs", "prelude.rs"):
                continue
            if rel.endswith("cfop/mod.rs"): continue
            for n, l in code_lines(p):
                code = l.split("//")[0]
                new = set()
                for pat, subs in SWAPS:
                    for m in re.finditer(pat, code):
                        for s in subs:
                            new.add(code[:m.start()] + s + code[m.end():])
                for m in re.finditer(r"(?<![\w.\"'])(\d+)(?![\w\"'])", code):
                    v = int(m.group(1))
                    for w in ([v + 1, v - 1] if v else [1]):
                        new.add(code[:m.start()] + str(w) + code[m.end():])
                for m in re.finditer(r"(?<=[\w) ])(\d+\.\d+)", code):
                    new.add(code[:m.start()] + str(float(m.group(1)) + 1) + code[m.end():])
                s = code.strip()
                if s.endswith(";") and not s.startswith(("let", "return", "static", "const", "pub", "type", "break", "continue", "}")) and s.count("(") == s.count(")"):
                    new.add("")
                m = re.match(r"^(\s*if )(?!let)(.*)( \{)$", code)
                if m:
                    new.add(m.group(1) + "true" + m.group(3)); new.add(m.group(1) + "false" + m.group(3))
                m = re.match(r"^(\s*)([^=]*\w) => (.*),$", code)
                for x in sorted(new):
                    if x != code:
                        yield rel, n, l, x

def apply_mut(repo, m):
    p = f"{repo}/barbarosa/src/{m['file']}"
    t = open(p).read().split("\n")
    if m["line"] >= len(t) or t[m["line"]] != m["old"]: # the file has changed since
        at = [i for i, l in enumerate(t) if l == m["old"]]
        assert len(at) == 1, "stale"
        m["line"] = at[0]
    t[m["line"]] = m["new"]
    open(p, "w").write("\n".join(t))

def undo(repo, m):
    p = f"{repo}/barbarosa/src/{m['file']}"
    t = open(p).read().split("\n")
    t[m["line"]] = m["old"]
    open(p, "w").write("\n".join(t))

def filt(out, workers):
    os.makedirs(MUT, exist_ok=True)
    ms = [dict(file=r, line=n, old=o, new=x, id=hashlib.sha1(f"{r}{n}{x}".encode()).hexdigest()[:8]) for r, n, o, x in mutants("/repo/barbarosa/src")]
    print(len(ms), "mutants", flush=True)
    q = queue.Queue()
    for m in ms: q.put(m)
    lock, keep, stat = threading.Lock(), [], {}
    def work(k):
        repo = f"{MUT}/w{k}"
        sh(f"mkdir -p {repo} && cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/barbarosa {repo}/")
        env = dict(ENV, CARGO_BUILD_JOBS="2", CARGO_TARGET_DIR=f"{repo}/target", RUSTFLAGS="-Awarnings")
        sh("cargo test --offline --lib --no-run", cwd=repo + "/barbarosa", env=env)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            apply_mut(repo, m)
            try:
                rc, o = sh("cargo test --offline --lib --no-run", cwd=repo + "/barbarosa", env=env)
                if rc: r = "no build"
                else:
                    rc, o = sh("timeout 60 cargo test --offline --lib -- --test-threads 4", cwd=repo + "/barbarosa", env=env)
                    r = "killed" if rc else "passes"
                    if r == "passes" and "non_redundant" in m["file"] + m["old"]:
                        rc, o = sh("timeout 200 cargo test --offline --doc", cwd=repo + "/barbarosa", env=env)
                        if rc: r = "killed"
            finally: undo(repo, m)
            with lock:
                stat[r] = stat.get(r, 0) + 1
                if r == "passes": keep.append(m)
                n = sum(stat.values())
                if n % 25 == 0:
                    print(n, stat, flush=True); json.dump(keep, open(out, "w"), indent=1)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
    json.dump(keep, open(out, "w"), indent=1)
    print("done", stat, flush=True)

ALL = ["C01","C02","C03","C04","C12","C13","C14","C16","C17","C18","C19","C20","C08","C05","C06","C09","C07","C21","C23","C22","C15","C25","C26","C27","C11","C24","C10"]
FIRST = {"parse":["C12"],"search":["C06"],"cross":["C07","C08"],"mus/index":["C09"],"mus/deindex":["C09"],"mus":["C11","C24","C10"],"invariants":["C05"],"visual":["C19"],
 "non_redundant":["C14","C15"],"wide":["C16","C02","C13"],"orient":["C17"],"extended":["C17","C12"],"rotation":["C18","C17"],"space":["C18"],"set.rs":["C21","C23"],"main":["C22"],"alg.rs":["C20","C12"],"amount":["C03","C14"],"quarter":["C16"],"manhattan":["C08"],"heuristics":["C08"],"utils":["C18"],"cube2":["C01","C25"],"cube3/mod":["C01","C25"],"cube4":["C02"],"cube5":["C02"],"cube6":["C02"],"cube7":["C02"],"center":["C18"],"corner":["C18"],"pieces":["C02","C04"]}

def judge(inp, out):
    ms = json.load(open(inp))
    done = {}
    if os.path.exists(out): done = {m["id"]: m for m in json.load(open(out))}
    base = f"{MUT}/check"
    repo, ver = base + "/repo", base + "/verif"
    sh(f"mkdir -p {repo} {ver}/evidence {ver}/replay && cp -a /repo/Cargo.toml /repo/Cargo.lock /repo/barbarosa {repo}/")
    sh(f"mkdir -p {ver}/harness && rm -rf {ver}/harness/src && cp -a /verif/harness/src /verif/harness/Cargo.toml /verif/harness/Cargo.lock {ver}/harness/ && cp /verif/*.txt /verif/*.jsonl {ver}/")
    sh(f"sed -i 's#/repo/barbarosa#{repo}/barbarosa#' {ver}/harness/Cargo.toml")
    env = dict(ENV, RUSTFLAGS="--cfg verif_hooks -Awarnings", CARGO_TARGET_DIR=base + "/target", VERIF_DIR=ver, VERIF_TIER="quick", VERIF_SEED="1", CARGO_INCREMENTAL="0")
    seen = {}
    for m in ms: # one of every line first
        seen[m["file"], m["line"]] = m["rank"] = seen.get((m["file"], m["line"]), -1) + 1
    ms.sort(key=lambda m: m["rank"])  # the order of the file among those
    for k, m in enumerate(ms):
        if m["id"] in done: continue
        t0 = time.time()
        try: apply_mut(repo, m)
        except AssertionError: continue
        try:
            res, why = "missed", []
            if True:
                order = [c for key, cs in FIRST.items() if key in m["file"] for c in cs]
                order = list(dict.fromkeys(order + [c for c in ALL if "mus" in m["file"] or c not in ("C10", "C24")]))
                for c in order:
                    e = env
                    rc, o = sh("cargo build --release --offline --bin " + c.lower(), cwd=ver + "/harness", env=env)
                    if rc: why.append(f"{c}: build fails: {o[-300:]}"); continue
                    if c in ("C22", "C11"):
                        rc, o = sh("cargo build --release --offline --bin barbarosa", cwd=repo + "/barbarosa", env=dict(env, RUSTFLAGS="-Awarnings", CARGO_TARGET_DIR=base + "/target-program", CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="true", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="true"))
                        e = dict(env, BARBAROSA_BIN=base + "/target-program/release/barbarosa")
                    rc, o = sh(f"timeout 700 {base}/target/release/{c.lower()}", cwd=ver, env=e)
                    if rc == 1 and "VIOLATION property=" + c in o: res = c; break
                    if rc: why.append(f"{c}: exit {rc}: {o[-300:]}")
            m = dict(m, result=res, why=why, seconds=round(time.time() - t0))
        finally: undo(repo, m)
        done[m["id"]] = m
        json.dump(list(done.values()), open(out, "w"), indent=1)
        print(k, len(ms), m["result"], m["seconds"], m["file"], m["line"] + 1, "|", m["old"].strip(), "->", m["new"].strip(), m["why"], flush=True)

if __name__ == "__main__":
    if sys.argv[1] == "filter": filt(sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 4)
    elif sys.argv[1] == "count": print(len(list(mutants("/repo/barbarosa/src"))))
    else: judge(sys.argv[2], sys.argv[3])
