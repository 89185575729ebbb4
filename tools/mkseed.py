#!/usr/bin/env python3
"""Development aid: makes /verif/seeded/<id>/ from tools/seeds.py and validates each (the patch builds, passes
the tests, and its demonstration passes without it and fails with it). usage: mkseed.py [filter] [--novalidate]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import seeds  # noqa: E402

DEMO = r'''#!/bin/bash
# exit 0: the property holds for the inputs of demo.rs; nonzero otherwise. Run with cwd at the repository.
set -u
repo=$PWD
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<END
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
lolcode_ast = { path = "$repo" }
[workspace]
END
cd "$d" && CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
'''
PRE = r'''#![allow(dead_code, unused_imports)]
use lolcode_ast::lexer::*;
use lolcode_ast::*;

/// The AST of a text, as text without positions.
fn ast(src: &str) -> String {
    strip(&format!("{:?}", parse(tokenize(src.to_string()).expect("the text tokenizes"))))
}
/// Removes the positions from a debug rendering.
fn strip(s: &str) -> String {
    let mut out = String::new();
    for line in s.split('\n') {
        match line.rfind(" -> (") {
            Some(i) => out.push_str(&line[..line[..i].rfind('(').unwrap()]),
            None => out.push_str(line),
        }
    }
    out
}
fn kinds(src: &str) -> Vec<String> {
    tokenize(src.to_string()).expect("the text tokenizes").iter().map(|t| format!("{:?}", t.token_type)).collect()
}
fn count(s: &str, what: &str) -> usize { s.matches(what).count() }

'''


def sh(cmd, cwd, timeout=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout)


def make(s, validate):
    d = os.path.join(VERIF, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        repo = os.path.join(t, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target"))
        sh("git checkout -q -- .", repo)
        for f, old, new in s["edits"]:
            p = os.path.join(repo, f)
            x = open(p).read()
            if x.count(old) < 1:
                return s["id"], "EDIT DOES NOT APPLY: " + old[:70]
            open(p, "w").write(x.replace(old, new, 1))
        diff = sh("git diff", repo).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.rs"), "w").write(PRE + s["demo"].strip() + "\n")
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # original lines only
        base = set()
        orig = sh("git show ac0b103:%s" % s["edits"][0][0], "/repo").stdout.split("\n")
        removed = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        note = "" if any(l in orig for l in removed) else " (NO ORIGINAL LINE CHANGED)"
        if not validate:
            return s["id"], "written" + note
        r0 = sh("bash %s/demo.sh" % d, "/repo")
        if r0.returncode:
            return s["id"], "DEMO FAILS ON THE UNCHANGED TREE\n" + r0.stderr[-1500:]
        r1 = sh("bash %s/demo.sh" % d, repo)
        if r1.returncode == 0:
            return s["id"], "DEMO PASSES WITH THE PATCH"
        if "error[" in r1.stderr or "could not compile" in r1.stderr:
            return s["id"], "PATCH DOES NOT BUILD\n" + r1.stderr[-1500:]
        r2 = sh("cargo test --offline -p lolcode_ast --lib 2>&1 | tail -30", repo)
        if "test result: ok" not in r2.stdout:
            return s["id"], "TESTS FAIL\n" + r2.stdout[-1500:]
        return s["id"], "ok" + note
    finally:
        shutil.rmtree(t, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    todo = [s for s in seeds.SEEDS if not args or args[0] in s["id"]]
    with ThreadPoolExecutor(4) as ex:
        for i, r in ex.map(lambda s: make(s, "--novalidate" not in sys.argv), todo):
            print("%-32s %s" % (i, r), flush=True)


if __name__ == "__main__":
    main()
