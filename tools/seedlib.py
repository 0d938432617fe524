#!/usr/bin/env python3
"""Create and try planted bugs. mk(...) writes /verif/seeded/<id>/ from an edit of
/repo's current files; `seedlib.py try ID...` applies each patch in /repo, builds, runs the
repository's tests, the demonstration and the property's check, and undoes it."""
import json, os, subprocess, sys, difflib, stat

V = "/verif/seeded"
G = "/verif/seeded-grammar"   # bugs in dot.pest: not counted by vcheck, kept for our own use
def where(id): return os.path.join(V if os.path.isdir(os.path.join(V, id)) else G, id)
DEMO = r'''#!/bin/bash
# Builds a small program against the crate in the current directory and runs it.
set -e
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/p/src" "$work/bin" "$work/tmp"
cp "$here/demo.rs" "$work/p/src/main.rs"
cat >"$work/p/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
graphviz-rust = { path = "$repo" }
dot-structures = { version = "*" }
dot-generator = { version = "*" }
into-attr = { version = "*" }
into-attr-derive = { version = "*" }
[patch.crates-io]
dot-structures = { path = "$repo/dot-structures" }
dot-generator = { path = "$repo/dot-generator" }
into-attr = { path = "$repo/into-attr" }
into-attr-derive = { path = "$repo/into-attr-derive" }
EOF
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$work/target"
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/p/Cargo.lock"
cd "$work/p"
cargo build --offline -q >"$work/log" 2>&1 || { tail -30 "$work/log"; echo "the demonstration does not build"; exit 2; }
cd "$work"
DEMO_DIR="$work" "$work/target/debug/demo"
'''
PRE = r'''#![allow(unused)]
use dot_generator::*;
use dot_structures::*;
use graphviz_rust::printer::{DotPrinter, PrinterContext};
use graphviz_rust::{parse, attributes::{self, NodeAttributes, EdgeAttributes, SubgraphAttributes}};
use into_attr::IntoAttribute;
'''

def mk(id, prop, edits, needs, breaks, demo):
    d = os.path.join(V, id); os.makedirs(d, exist_ok=True)
    patch = ""
    byfile = {}
    for f, old, new in edits:
        p = os.path.join("/repo", f)
        t = byfile.get(f) or (open(p).read(),) * 2
        if t[1].count(old) != 1: sys.exit(f"{id}: {f}: {t[1].count(old)} occurrences of {old!r}")
        byfile[f] = (t[0], t[1].replace(old, new))
    for f, (a, b) in byfile.items():
        patch += f"diff --git a/{f} b/{f}\n"
        for l in difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f):
            patch += l if l.endswith("\n") else l + "\n\\ No newline at end of file\n"
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.rs"), "w").write(PRE + demo.strip() + "\n")
    s = os.path.join(d, "demo.sh"); open(s, "w").write(DEMO); os.chmod(s, 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)

def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)

def stable():
    b = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "stable_tests", "tests", "passed", "pass"):
        if k in b: return b[k]
    return b

def tryone(id, check=True, suite=True):
    d = where(id); m = json.load(open(d + "/meta.json")); out = [id, m["property"]]
    assert sh("git -C /repo status --porcelain").stdout == ""
    r = sh(f"git -C /repo apply {d}/patch.diff")
    if r.returncode: return out + ["PATCH " + r.stderr]
    try:
        if suite:
            r = sh("bash /opt/vp/build.sh")
            out.append("build ok" if r.returncode == 0 else "BUILD FAILS")
            sh("bash /opt/vp/test.sh /tmp/seed-test.json")
            t = json.load(open("/tmp/seed-test.json")); 
            out.append("tests " + ("ok" if not t.get("failed") and len(t.get("passed", [])) >= 64 else "FAIL " + str(t.get("failed"))[:200]))
            r = sh(f"cd /repo && bash {d}/demo.sh"); out.append(f"demo with patch {r.returncode}" + (" BAD" if r.returncode in (0, 2) else "") + " " + (r.stderr + r.stdout)[-200:].replace("\n", " | "))
        if check:
            r = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 check.py {m['property']} quick")
            out.append(f"check {r.returncode} " + " | ".join(l[:160] for l in r.stdout.splitlines() if "VIOLATION" in l or "ANSWER" in l or "rror" in l)[:400])
    finally:
        sh("git -C /repo checkout -- .")
    if suite:
        sh("bash /opt/vp/build.sh")
        r = sh(f"cd /repo && bash {d}/demo.sh"); out.append(f"demo without {r.returncode}" + (" BAD " + (r.stderr + r.stdout)[-300:] if r.returncode else ""))
    return out

if __name__ == "__main__":
    a = sys.argv[2:]
    mode = sys.argv[1]
    for i in a or sorted(os.listdir(V) + os.listdir(G)):
        print(*tryone(i, check=mode in ("try", "check"), suite=mode in ("try", "suite")), sep="\n   ", flush=True)
