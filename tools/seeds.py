#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from tools/seeds/*.toml-like python entries.

usage: seeds.py SCRATCH_REPO_COPY [id ...]   (SCRATCH is reset; never /repo)
A development tool: it plants a change in a scratch copy, writes the diff and the
demonstration, and confirms build, stable tests and demonstration both ways.
"""
import importlib.util, json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(HERE, "..", "seeded")
DEMO = r'''#!/bin/bash
# Builds demo.rs against the crate in the current directory, in a scratch directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
scratch=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
mkdir "$scratch/src"
cp "$here/demo.rs" "$scratch/src/main.rs"
cat > "$scratch/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
finquant = { path = "$repo" }
chrono = { version = "0.4.41", features = ["serde"] }
iso_currency = { version = "0.5.3", features = ["with-serde"] }
num-complex = "0.4"
serde_json = "1"
[profile.dev]
opt-level = 1
debug = false
TOML
cd "$scratch" && CARGO_TARGET_DIR="$scratch/target" cargo run --offline -q
'''
def sh(cmd, cwd, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=env)
def main():
    repo = os.path.abspath(sys.argv[1]); assert repo != "/repo"
    spec = importlib.util.spec_from_file_location("s", os.path.join(HERE, "seeds", "list.py"))
    m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    want = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) if os.path.exists("/opt/vp/BASELINE.json") else None
    for s in m.SEEDS:
        if want and s["id"] not in want: continue
        sh("git checkout -q -- .", repo)
        ok = True
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f); t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES", t.count(old), f); ok = False; break
            open(p, "w").write(t.replace(old, new))
        if not ok: continue
        d = os.path.join(OUT, s["id"]); os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git diff", repo).stdout)
        open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo.rs", "w").write(s["demo"].lstrip())
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
        env = dict(os.environ, CARGO_TARGET_DIR="/tmp/w/rp-target")
        t = sh("cargo test --offline 2>&1 | grep -E '^test .*FAILED|test result|^error|warning: unused'", repo, env).stdout
        with_ = sh(d + "/demo.sh", repo); sh("git checkout -q -- .", repo)
        without = sh(d + "/demo.sh", repo)
        good = "FAILED" not in t and "error" not in t and with_.returncode != 0 and without.returncode == 0 and "could not compile" not in with_.stderr
        print(s["id"], "OK" if good else "BAD", "demo patched", with_.returncode, "clean", without.returncode)
        if not good: print(t[:1500], with_.stderr[-800:], without.stderr[-1500:])
main()
