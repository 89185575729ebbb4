"""Common parts of the checks: findings, known findings, evidence, exit status."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation:
    """key: identifies the violation without line numbers; text: the whole report."""

    def __init__(self, key, title, text=()):
        self.key = key
        self.title = title
        self.text = list(text)


class Result:
    def __init__(self):
        self.violations = []
        self.coverage = {}
        self.assumptions = []
        self.floors = []          # (what, measured, minimum)
        self.undecided = []       # what could not be analysed: neither held nor violated

    def floor(self, what, measured, minimum):
        self.floors.append((what, measured, minimum))


def known_keys(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" :: ")
                out[key.strip()] = what
    return out


def finish(prop, level, res, t0, tier, seed):
    """Prints the outcome, writes the evidence, returns the exit status."""
    for what, got, least in res.floors:
        if got < least and not res.undecided:
            res.violations.append(Violation(
                "floor:" + what, "only %s %s were analysed, at least %s were expected: the rule would pass "
                "vacuously" % (got, what, least)))
    if os.environ.get("LOLV_STRICT"):
        res.violations += res.undecided
    for v in res.undecided[:8]:
        print("UNDECIDED property=%s %s" % (prop, v.title))
    known = known_keys(prop)
    new, old, seen = [], [], set()
    for v in res.violations:
        if v.key in seen:
            continue
        seen.add(v.key)
        (old if v.key in known else new).append(v)
    evdir = os.environ.get("LOLV_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    replay = os.path.join("evidence", "%s.violations.txt" % prop)
    full = os.path.join(evdir, "%s.violations.txt" % prop)
    if os.path.exists(full):
        os.remove(full)
    for v in old:
        print("KNOWN-FINDING: property=%s %s" % (prop, known[v.key] or v.title))
    if new:
        with open(full, "w") as f:
            for v in new:
                f.write("== %s\nkey: %s\n" % (v.title, v.key))
                for l in v.text:
                    f.write("  %s\n" % l)
                f.write("\n")
        for v in new[:8]:
            print("%s: %s" % (prop, v.title))
            for l in v.text[:30]:
                print("    " + l)
        if len(new) > 8:
            print("%s: and %d more" % (prop, len(new) - 8))
    cov = dict(res.coverage)
    cov["floors"] = [{"what": w, "measured": g, "minimum": l} for w, g, l in res.floors]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    if res.undecided:
        cov["undecided"] = [{"what": v.title, "path": v.text[:60]} for v in res.undecided]
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    print("%s: %s (%.1fs)" % (prop, "held on all that was analysed, with %d constructs undecided" % len(res.undecided)
                              if res.undecided else "held", time.time() - t0))
    return 0
