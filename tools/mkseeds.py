#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (patch.diff, demo.sh, demo/, shims/, meta.json) from the table in seeds_data.py.
usage: mkseeds.py [id ...]        with -c: also confirm (build, stable tests, demo on both trees, check) in a copy
Not used by any check."""
import os, sys, subprocess, shutil, json, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds_data import SEEDS
V = "/verif"
DEMO = r'''#!/bin/bash
# Run with cwd /repo. Exit 0: the behaviour is right. Non-zero: it is broken.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
. /opt/vp/env.sh
W=$(mktemp -d /tmp/sds-demo.XXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
cp -r "$D/demo" "$D/shims" "$W/" || exit 2
sed -i "s#@REPO@#$R#g" "$W/demo/Cargo.toml" "$W/demo/Cargo.lock"
cd "$W/demo" || exit 2
export CARGO_TARGET_DIR=$W/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0
cargo build --offline -q >"$W/log" 2>&1 || { grep -E '^error' -A6 "$W/log" | head -40; echo "the demonstration does not build"; exit 3; }
timeout 200 "$W/target/debug/demo"
'''
# the Go package: the library is built as a dependency, the program in Go
DEMO_GO = DEMO.replace('timeout 200 "$W/target/debug/demo"\n', '''cp -r "$D/go" "$W/" && cd "$W/go" && sed -i "s#@REPO@#$R#g" go.mod || exit 2
export GOCACHE=$W/cache GOPATH=$W/path GOFLAGS=-mod=mod GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GO111MODULE=on CGO_ENABLED=1
mkdir -p "$W/lib" && cp "$W/target/debug/deps/libdd_sds_go.a" "$W/lib/" || exit 3
export CGO_LDFLAGS="-L$W/lib -lm -ldl -lpthread"
go build -o "$W/godemo" . >"$W/log" 2>&1 || { head -20 "$W/log"; echo "the demonstration does not build"; exit 3; }
timeout 100 "$W/godemo"
''')
GOMOD = """module demo

go 1.19

require github.com/DataDog/dd-sensitive-data-scanner/sds-go/go v0.0.0

replace github.com/DataDog/dd-sensitive-data-scanner/sds-go/go => @REPO@/sds-go/go
"""
TOML = '''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
%s
[profile.dev]
opt-level = 0
overflow-checks = true
'''
CARGO = open(f"{V}/harness/.cargo/config.toml").read()

def edit(root, edits):
    for f, old, new in edits:
        p = f"{root}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))

def patch(edits):
    d = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
    try:
        for side in "ab":
            for f in {e[0] for e in edits}:
                os.makedirs(os.path.dirname(f"{d}/{side}/{f}"), exist_ok=True)
                shutil.copy(f"/repo/{f}", f"{d}/{side}/{f}")
        edit(f"{d}/b", edits)
        return subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=d, stdout=subprocess.PIPE, text=True).stdout
    finally:
        shutil.rmtree(d)

def write(s):
    out = f"{V}/seeded/{s['id']}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(f"{out}")
    open(f"{out}/patch.diff", "w").write(patch(s["edits"]))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(f"{out}/meta.json", "w"), indent=1)
    if "files" in s:  # own demo
        for n, t in s["files"].items():
            os.makedirs(os.path.dirname(f"{out}/{n}"), exist_ok=True)
            open(f"{out}/{n}", "w").write(t)
    else:
        os.makedirs(f"{out}/demo/src"); os.makedirs(f"{out}/demo/.cargo")
        deps = ['dd-sds = { path = "@REPO@/sds", features = %s }' % s.get("features", '["testing"]')] + s.get("deps", [])
        open(f"{out}/demo/Cargo.toml", "w").write(TOML % "\n".join(deps))
        open(f"{out}/demo/src/main.rs", "w").write(s["main"])
        open(f"{out}/demo/.cargo/config.toml", "w").write(CARGO)
        shutil.copy(f"{V}/harness/Cargo.lock", f"{out}/demo/Cargo.lock")
        shutil.copytree(f"{V}/shims", f"{out}/shims")
        open(f"{out}/demo.sh", "w").write(DEMO_GO if "go" in s else DEMO)
        if "go" in s:
            os.makedirs(f"{out}/go")
            open(f"{out}/go/go.mod", "w").write(GOMOD)
            open(f"{out}/go/main.go", "w").write(s["go"])
    os.chmod(f"{out}/demo.sh", 0o755)

def original_lines(s):
    """every removed line has to be one of the original repository"""
    for f, old, _ in s["edits"]:
        base = subprocess.run(["git", "-C", "/repo", "show", f"3ee4a62:{f}"], stdout=subprocess.PIPE, text=True).stdout
        lines = set(base.split("\n"))
    p = open(f"{V}/seeded/{s['id']}/patch.diff").read()
    cur = None
    for l in p.split("\n"):
        if l.startswith("--- a/"):
            cur = set(subprocess.run(["git", "-C", "/repo", "show", f"3ee4a62:{l[6:]}"], stdout=subprocess.PIPE, text=True).stdout.split("\n"))
        elif l.startswith("-") and l[1:] not in cur:
            return f"not an original line: {l}"
    return None

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)

def confirm(s):
    """in /repo itself: apply, build, tests, demo, check; always undone"""
    out = f"{V}/seeded/{s['id']}"
    bad = original_lines(s)
    if bad: return bad
    r = sh(f"bash {out}/demo.sh", cwd="/repo")
    if r.returncode != 0: return f"demo on the unchanged tree: {r.returncode}\n{r.stdout[-1500:]}"
    r = sh(f"git -C /repo apply {out}/patch.diff")
    if r.returncode: return r.stdout
    try:
        r = sh("bash /opt/vp/build.sh")
        if r.returncode: return "build: " + r.stdout[-800:]
        sh("bash /opt/vp/test.sh /tmp/seed-test.json")
        t = json.load(open("/tmp/seed-test.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        os.remove("/tmp/seed-test.json")
        stable = base.get("stable") or base.get("passed") or base.get("tests")
        passed = set(t.get("passed", []))
        missing = [x for x in stable if x not in passed]
        if missing: return f"tests failing: {missing[:5]}"
        r = sh(f"bash {out}/demo.sh", cwd="/repo")
        if r.returncode == 0 or r.returncode == 3: return f"demo with the patch: {r.returncode}\n{r.stdout[-1500:]}"
        demo = r.stdout.strip().split("\n")[-1][:160]
        r = sh(f"bash {V}/run.sh {s['prop']} quick", cwd=V, env=dict(os.environ, VERIF_SEED="1"))
        caught = r.returncode == 1 and f"VIOLATION property={s['prop']}" in r.stdout
        return ("CAUGHT" if caught else f"MISSED (exit {r.returncode})") + "  demo: " + demo
    finally:
        sh("git -C /repo checkout -- .")

if __name__ == "__main__":
    a = sys.argv[1:]
    c = "-c" in a
    ids = [x for x in a if x != "-c"]
    for s in SEEDS:
        if ids and s["id"] not in ids: continue
        write(s)
        print(s["id"], s["prop"], confirm(s) if c else "written", flush=True)
