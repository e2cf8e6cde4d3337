#!/usr/bin/env python3
"""mkseeds.py make|check [-j N] [id...]: build planted bugs under /verif/seeded, or run the checks against them."""
import sys, os, json, subprocess, shutil, importlib, tempfile
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
VERIF = os.path.dirname(os.path.dirname(HERE)); REPO = os.environ.get("MK_REPO", "/repo"); W = os.environ.get("SEEDW", "/tmp/seedw")
SEEDS = {}
for m in ("level_a", "level_b", "level_c", "level_f"):
    if os.path.exists(f"{HERE}/{m}.py"):
        mod = importlib.import_module(m)
        for k, v in mod.SEEDS.items(): SEEDS[k] = dict(v, kit=getattr(mod, "KIT", "demokit"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
def sh(cmd, cwd=None, **kw): return subprocess.run(cmd, shell=True, cwd=cwd, env=ENV, text=True, capture_output=True, **kw)
BASE = None
def stable():
    r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 --skip test::process::", W)
    ok = {l.split()[1] for l in r.stdout.splitlines() if l.startswith("test ") and l.endswith("... ok")}
    want = {x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
    return want - ok, r
def apply(edits):
    for f, old, new in edits:
        p = f"{W}/{f}"; s = open(p).read()
        if s.count(old) != 1: return f"{f}: {s.count(old)} matches of {old[:60]!r}"
        open(p, "w").write(s.replace(old, new))
def make(id):
    s = SEEDS[id]; d = f"{VERIF}/seeded/{id}"
    sh("git checkout -q -- .", W)
    err = apply(s["edits"])
    if err: return print(f"{id}: EDIT {err}")
    diff = sh("git diff", W).stdout
    missing, r = stable()
    if missing: return print(f"{id}: TESTS {sorted(missing)[:3]} {r.stderr[-1500:] if 'error' in r.stderr else r.stdout[-500:]}")
    shutil.rmtree(d, ignore_errors=True); shutil.copytree(f"{VERIF}/tools/{s['kit']}", d, ignore=shutil.ignore_patterns("target"))
    if "scenario" in s: open(f"{d}/src/scenario.rs", "w").write(s["scenario"])
    else: json.dump(s["case"], open(f"{d}/case.json", "w"))
    open(f"{d}/expected.txt", "w").close(); open(f"{d}/patch.diff", "w").write(diff)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
    pat = sh(f"bash {d}/demo.sh", W); sh("git checkout -q -- .", W)
    sh(f"bash {d}/demo.sh > {d}/out.tmp 2>&1", REPO)
    lines = open(f"{d}/out.tmp").read().splitlines(); os.remove(f"{d}/out.tmp")
    if any(l.startswith("exit status") or "build failed" in l for l in lines): return print(f"{id}: CLEAN DEMO\n" + "\n".join(lines[:20]))
    open(f"{d}/expected.txt", "w").write("".join(l[2:] + "\n" for l in lines if l.startswith("> ")))
    clean = sh(f"bash {d}/demo.sh", REPO)
    sh(f"git apply {d}/patch.diff", W); pat = sh(f"bash {d}/demo.sh", W); sh("git checkout -q -- .", W)
    print(f"{id}: {'ok' if clean.returncode == 0 and pat.returncode != 0 else 'BAD DEMO'} clean={clean.returncode} patched={pat.returncode}")
    print("   expected: " + " | ".join(open(f"{d}/expected.txt").read().splitlines())[:900])
    print("   patched:  " + " | ".join(l[2:] if l.startswith('> ') else l for l in pat.stdout.splitlines() if not l.startswith('< '))[:600], flush=True)
def check(id):
    s = SEEDS.get(id) or json.load(open(f"{VERIF}/seeded/{id}/meta.json"))
    d = f"{VERIF}/seeded/{id}"
    CR, CV = os.environ.get("CHECK_REPO", "/repo"), os.environ.get("CHECK_VERIF", VERIF)
    if sh("git status --porcelain", CR).stdout.strip(): return print(f"{CR} is not clean")
    try:
        a = sh(f"git apply {d}/patch.diff", CR)
        if a.returncode: return print(f"{id}: patch {a.stderr}")
        r = sh(f"VERIF_SEED=1 VERIF_TIER=quick bash tools/check.sh {os.environ.get('CHECK_ID', s['property'])} quick", CV)
    finally: sh("git checkout -- .", CR)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    print(f"{id}: {'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode} {v[:1]} {r.stdout[-300:] if not v else ''}", flush=True)
if __name__ == "__main__":
    ids = [x for x in sys.argv[2:]] or list(SEEDS)
    if sys.argv[1] == "make":
        if not os.path.isdir(W): sh(f"mkdir -p {W}"); sh(f"cp -a /repo/. {W}/")
        sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", W)
    for i in ids: {"make": make, "check": check}[sys.argv[1]](i)
