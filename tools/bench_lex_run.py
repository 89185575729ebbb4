#!/usr/bin/env python3
"""Development aid: bench_lex_run.py [filter]: the tokenizer analysis on each edit of bench_lex.py."""
import importlib.util, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
ONE = """
import sys, time; sys.path.insert(0, %r)
from lolv import prog, text
from lolv.interp import Unsupported
p = prog.Prog(sys.argv[1]); t = time.time(); text.configure(p.points())
from lolv import lexdomain
try:
    m, d, e = lexdomain.analyse(p, deadline=time.time() + float(sys.argv[2]))
except Unsupported as x:
    print("PROPS ANCHOR %%s" %% x); sys.exit()
props = sorted({q for f in e.findings for q in f.props})
print("PROPS", ",".join(props), "UNSUP %%d" %% len(e.unsupported) if e.unsupported else "", "LOOSE %%d" %% len(e.loose) if e.loose else "", "%%.0fs states %%d refined %%d" %% (time.time() - t, e.states, len(d.refined)))
seen = set()
for f in e.findings:
    if f.message not in seen and len(seen) < 3:
        seen.add(f.message); print("     ", f.kind, f.message[:160], f.props)
for u in e.unsupported[:3]:
    print("      UNSUPPORTED", u[0][:200], [x[0][-60:] for x in u[2]][-3:])
"""


def run(edit):
    name, edits, expected = edit
    d = tempfile.mkdtemp(prefix="bench-", dir="/tmp")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns("target", ".git"))
        for f, old, new in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            if s.count(old) < 1:
                return "** %s EDIT DOES NOT APPLY: %s" % (name, old[:60])
            open(p, "w").write(s.replace(old, new, 1))
        mir = os.path.join(d, "mir.json")
        r = subprocess.run([sys.executable, "-m", "lolv.build", repo, mir], capture_output=True, text=True, cwd=VERIF)
        if r.returncode:
            return "** %s BUILD: %s" % (name, r.stderr[-1200:])
        r = subprocess.run([sys.executable, "-c", ONE % VERIF, mir, os.environ.get("DL", "200")], capture_output=True, text=True)
        out = r.stdout + r.stderr[-600:]
        first = out.split("\n")[0]
        got = set(first.split(" ")[1].split(",")) - {""} if first.startswith("PROPS ") else {"CRASH"}
        bad = (not got >= set(expected)) if expected else bool(got or "UNSUP" in first)
        return "%s%s want %s: %s" % ("** " if bad else "   ", name, expected, out.strip())
    finally:
        shutil.rmtree(d, ignore_errors=True)


spec = importlib.util.spec_from_file_location("edits", os.path.join(VERIF, "tools", os.environ.get("F", "bench_lex.py")))
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
flt = sys.argv[1] if len(sys.argv) > 1 else ""
with ThreadPoolExecutor(int(os.environ.get("J", "7"))) as ex:
    for r in ex.map(run, [e for e in m.EDITS if flt in e[0]]):
        print(r, flush=True)
