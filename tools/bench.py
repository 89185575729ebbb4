#!/usr/bin/env python3
"""Development aid: applies small edits to a scratch copy of /repo and runs checks on the copy.
usage: bench.py FILE.py [name-filter]   (FILE defines EDITS = [(name, file, old, new, expected), ...];
expected: list of property ids that must report, or [] for an edit that keeps the behaviour)
Nothing here is used by the checks."""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(edit, checks):
    name, edits, expected = edit
    d = tempfile.mkdtemp(prefix="bench-", dir="/tmp")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"))
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, "EDIT DOES NOT APPLY: " + old[:60]
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
        mir = os.path.join(d, "mir.json")
        r = subprocess.run([sys.executable, "-m", "lolv.build", repo, mir], capture_output=True, text=True, cwd=VERIF)
        if r.returncode:
            return name, "BUILD: " + r.stderr[-1500:]
        out = []
        todo = checks if checks else (expected or ALLCHECKS)
        for c in todo:
            env = dict(os.environ, LOLV_MIR=mir, LOLV_REPO=repo, LOLV_EVIDENCE=os.path.join(d, "ev"))
            r = subprocess.run([sys.executable, "check.py", c], capture_output=True, text=True, cwd=VERIF, env=env)
            want = 1 if c in expected else 0
            first = (r.stdout.strip().split("\n") or [""])[0][:200] if r.returncode == 1 else (r.stderr[-300:] if r.returncode else "")
            und = [l for l in r.stdout.split("\n") if l.startswith("UNDECIDED")]
            if und:
                first += " " + und[0][:200]
            ok = r.returncode == want and (bool(expected) or not und)
            out.append("%s%s=%d %s" % ("" if ok else "**", c, r.returncode, first))
        return name, "\n      ".join(out)
    finally:
        shutil.rmtree(d, ignore_errors=True)


ALLCHECKS = []


def main():
    spec = importlib.util.spec_from_file_location("edits", sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    flt = sys.argv[2] if len(sys.argv) > 2 else ""
    global ALLCHECKS
    ALLCHECKS = getattr(m, "CHECKS", [])
    forced = sys.argv[3].split(",") if len(sys.argv) > 3 else None
    todo = [e for e in m.EDITS if flt in e[0]]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for name, out in ex.map(lambda e: run(e, forced), todo):
            print("%-34s %s" % (name, out), flush=True)


if __name__ == "__main__":
    main()
