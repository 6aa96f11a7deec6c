#!/usr/bin/env python3
"""Writes and confirms planted bugs.

usage: plant.py DEFS.py [ID ...] [--checks] [--all-checks]

DEFS.py defines BUGS, a list of dicts: id, property, needs, breaks, edits (list of
(file, old, new)), demo (Rust source) or demo_sh. For every selected bug the tool makes a scratch copy of /repo,
applies the edits, confirms that it builds and passes the stable tests, that the demonstration passes
without and fails with it, and writes /verif/seeded/<id>/.  No check reads /verif/seeded.
"""
import json, os, shutil, subprocess, sys, importlib.util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
WT = "/tmp/plant-wt"
BASE = json.load(open("/opt/vp/BASELINE.json"))

DEMO = r'''#!/bin/bash
# Exit 0 when the demonstrated behaviour is right, nonzero otherwise. Run with cwd = the repository.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
tmp="$(mktemp -d)" || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/src"
cp "$here/demo.rs" "$tmp/src/main.rs"
cat > "$tmp/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
parse-proof-of-concept = { path = "$repo" }
[workspace]
TOML
export CARGO_TARGET_DIR="$tmp/target"
cd "$tmp" || exit 2
cargo build --offline -q 2> "$tmp/build.log" || { cat "$tmp/build.log"; exit 3; }
ulimit -v 4194304
timeout -k 2 60 "$tmp/target/debug/demo"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests(root):
    """The stable tests in a scratch copy, one process per test."""
    r = sh("cargo test --offline 2>&1", cwd=root, timeout=900,
           env=dict(os.environ, CARGO_TARGET_DIR=WT + "-target"))
    return r.returncode == 0, r.stdout[-3000:]


def main():
    argv = [a for a in sys.argv[1:] if not a.startswith("--")]
    run_checks = "--checks" in sys.argv or "--all-checks" in sys.argv
    spec = importlib.util.spec_from_file_location("defs", argv[0])
    defs = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(defs)
    chosen = argv[1:]
    for b in defs.BUGS:
        if chosen and b["id"] not in chosen:
            continue
        d = os.path.join(VERIF, "seeded", b["id"])
        shutil.rmtree(WT, ignore_errors=True)
        shutil.copytree(REPO, WT, ignore=shutil.ignore_patterns("target"))
        ok = True
        for f, old, new in b["edits"]:
            p = os.path.join(WT, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(b["id"], "EDIT-MISMATCH", f, s.count(old))
                ok = False
                break
            open(p, "w").write(s.replace(old, new))
        if not ok:
            continue
        diff = subprocess.run(["git", "diff"], cwd=WT, stdout=subprocess.PIPE, text=True).stdout
        t, out = tests(WT)
        if not t:
            print(b["id"], "REJECTED: build or tests fail")
            print("\n".join(l for l in out.splitlines() if "FAILED" in l or "error" in l)[:800])
            continue
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(b.get("demo_sh", DEMO))
        os.chmod(d + "/demo.sh", 0o755)
        if "demo" in b:
            open(d + "/demo.rs", "w").write(b["demo"])
        for name, text in b.get("files", {}).items():
            open(os.path.join(d, name), "w").write(text)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        good = sh(f"bash {d}/demo.sh", cwd=REPO)
        bad = sh(f"bash {d}/demo.sh", cwd=WT)
        if good.returncode != 0 or bad.returncode in (0, 3):
            print(b["id"], "DEMO-WRONG good=%d bad=%d" % (good.returncode, bad.returncode))
            print(good.stdout[-1500:] if good.returncode else bad.stdout[-1500:])
            shutil.rmtree(d)
            continue
        print(b["id"], "ok (demo bad rc %d)" % bad.returncode, end=" ", flush=True)
        if run_checks:
            assert sh("git status --porcelain", cwd=REPO).stdout == ""
            assert sh(f"git apply {d}/patch.diff", cwd=REPO).returncode == 0
            try:
                ids = [b["property"]]
                if "--all-checks" in sys.argv:
                    ids = sorted(c["id"] if "id" in c else c["property"] for c in json.load(open(VERIF + "/MANIFEST.json"))["checks"])
                hits = []
                for c in ids:
                    r = sh(f"VERIF_SEED=1 timeout 900 python3 {VERIF}/check.py {c}", cwd=VERIF)
                    hits.append(f"{c}:{r.returncode}")
                print(" ".join(hits), end=" ")
            finally:
                sh("git checkout -- .", cwd=REPO)
        print(flush=True)
    shutil.rmtree(WT, ignore_errors=True)
    sh("touch /repo/src/*.rs")


main()
