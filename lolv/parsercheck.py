"""Checks decided by the relational analysis of the parser (C09, C10, C12-C22)."""
import multiprocessing
import time

from .core import Result, Violation
from .interp import Unsupported
from .parserdom import CONS, OPERATORS, ParserAnalysis

GROUPS = {
    "i_has_a": ["Keyword.I_HAS_A"], "visible": ["Keyword.VISIBLE"], "gimmeh": ["Keyword.GIMMEH"],
    "found_yr": ["Keyword.FOUND_YR"], "frame": ["Keyword.HAI", "Keyword.KTHXBYE", "Keyword.GTFO"],
    "i_iz": ["Keyword.I_IZ"], "how_iz_i": ["Keyword.HOW_IZ_I"], "im_in_yr": ["Keyword.IM_IN_YR"],
    "o_rly": ["Keyword.O_RLY"], "wtf": ["Keyword.WTF"], "variable": ["Identifier", "Keyword.SRS"],
    "operator": ["Keyword." + k for k in OPERATORS], "value": ["Value", "Keyword.NOOB"],
}
STMT = list(GROUPS) + ["other"]
BLOCKS = ["how_iz_i", "im_in_yr", "o_rly", "wtf"]
ALL = [("expr", "operator"), ("expr", "variable"), ("expr", "value"), ("expr", "rest")] + \
      [("stmt", g) for g in STMT] + [("parse", None)]
# analyses each property needs
RUNS = {
    "C09": ALL, "C10": ALL, "C21": ALL,
    "C12": [("parse", None)] + [("stmt", g) for g in STMT],
    "C13": [("stmt", "i_has_a"), ("stmt", "variable")],
    "C14": [("stmt", g) for g in ("visible", "gimmeh", "found_yr", "frame")],
    "C15": [("stmt", "how_iz_i"), ("stmt", "i_iz")],
    "C16": [("stmt", "im_in_yr")],
    "C17": [("stmt", "o_rly")],
    "C18": [("stmt", "wtf")],
    "C19": [("expr", "operator"), ("stmt", "operator")],
    "C20": [("expr", "variable"), ("expr", "value"), ("stmt", "value"), ("stmt", "i_has_a"), ("stmt", "gimmeh"),
            ("stmt", "variable")],
    "C22": [("parse", None)],
}
NAMES = {"C09": "no panic", "C10": "progress"}
# constructs that must have been reached: (analysis, construct, outcome) -> least number of paths
FLOORS = {
    "C13": [("i_has_a", "ok", 5), ("i_has_a", "err", 5), ("variable statement", "ok", 10), ("variable statement", "err", 10)],
    "C14": [("visible", "ok", 3), ("visible", "err", 1), ("gimmeh", "ok", 5), ("gimmeh", "err", 5), ("found_yr", "ok", 1),
            ("found_yr", "err", 2), ("hai", "ok", 2), ("kthxbye", "ok", 1), ("gtfo", "ok", 1)],
    "C15": [("i_iz", "ok", 5), ("i_iz", "err", 20), ("how_iz_i", "ok", 10), ("how_iz_i", "err", 20)],
    "C16": [("im_in_yr", "ok", 50), ("im_in_yr", "err", 200)],
    "C17": [("o_rly", "ok", 100), ("o_rly", "err", 500)],
    "C18": [("wtf", "ok", 20), ("wtf", "err", 100)],
    "C19": [("operator", "ok", 30), ("operator", "err", 30)],
    "C20": [("variable", "ok", 10), ("variable", "err", 10), ("value", "ok", 2), ("i_has_a", "ok", 5)],
    "C12": [("program", "ok", 5), ("how_iz_i", "ok", 10), ("im_in_yr", "ok", 50), ("o_rly", "ok", 100), ("wtf", "ok", 20)],
    "C22": [("filter", None, 2)],
}
ERRORS = ["UnexpectedToken", "TooManyTokens", "MissingToken", "MissingBlockClosingToken"]

BUDGET = 200        # seconds for one analysis with lists of bounded length
DEADLINE = 400      # seconds for one analysis

_A = None


def atoms_of(A, root, g):
    tt = A.tt
    if g is None:
        return None
    named = set()
    for k, names in GROUPS.items():
        if root == "expr" and k not in ("operator", "value", "variable"):
            continue
        s = set()
        for n in names:
            s |= tt.cls(n)
        if k == g:
            return frozenset(s)
        named |= s
    return frozenset(A.stream - named)


def _worker(job):
    root, g = job
    A = _A
    out = {"job": job, "findings": [], "unsupported": [], "states": 0, "events": 0, "splits": 0, "finished": 0,
           "obligations": {}, "errors": {}, "mode": "fixpoint", "bodies": [], "sites": 0, "cut": 0}
    try:
        first = atoms_of(A, root, g)
        m, d, e = A.run(root, first)
        if e.unsupported and not e.findings:
            # the abstract lists could not be handled: explore lists of bounded length instead
            t0, last = time.time(), 0
            for bound in range(2, 9):
                B = ParserAnalysis(A.p, fold=False, max_items=bound, max_states=400000, deadline=t0 + BUDGET)
                t1 = time.time()
                m2, d2, e2 = B.run(root, first)
                if e2.unsupported:
                    if not e2.findings:
                        break
                m, d, e = m2, d2, e2
                out["mode"] = "lists of at most %d items" % bound
                t2 = time.time()
                if e2.findings or not e2.cut or t2 - t0 + 6 * (t2 - t1) > BUDGET:
                    break
    except Unsupported as x:
        out["unsupported"].append((str(x), [], []))
        return out
    for f in e.findings:
        out["findings"].append((f.kind, f.message, f.trace, f.stack, f.props, d.construct(f.joint)))
    out["unsupported"] = e.unsupported
    for k in ("states", "events", "splits", "finished", "cut"):
        out[k] = getattr(e, k)
    out["obligations"] = d.obligations
    out["errors"] = d.err_seen
    out["bodies"] = sorted(A.p.bodies[b].name for b in m.covered if A.p.bodies[b].inst is not None
                           and A.p.bodies[b].inst.local)
    out["sites"] = m.sites
    return out


def run_jobs(p, jobs):
    global _A
    _A = ParserAnalysis(p, deadline=time.time() + DEADLINE)
    if len(jobs) == 1:
        return [_worker(jobs[0])]
    with multiprocessing.get_context("fork").Pool(min(8, len(jobs))) as pool:
        # the largest analyses first
        order = sorted(jobs, key=lambda j: -{"o_rly": 5, "im_in_yr": 4, "wtf": 3, "how_iz_i": 2}.get(j[1], 0))
        return pool.map(_worker, order, chunksize=1)


def locate(stack):
    for n, loc in reversed(stack):
        if loc and loc[0] and not str(loc[0]).startswith("/"):
            return n, "%s:%s" % (loc[0], loc[1])
    if stack:
        return stack[-1][0], "?"
    return "the parser", "?"


def check(prop, p, tier):
    res = Result()
    runs = RUNS[prop]
    try:
        outs = run_jobs(p, runs)
    except Unsupported as e:
        res.undecided.append(Violation("anchor:" + str(e), "the parser cannot be analysed: %s" % e))
        res.coverage = {"explanation": "anchor missing"}
        return res
    totals = {"states": 0, "events": 0, "splits": 0, "finished": 0, "sites": 0, "cut": 0}
    obl, errs, bodies, modes = {}, {}, set(), {}
    for o in outs:
        for k in totals:
            totals[k] += o[k]
        for k, v in o["obligations"].items():
            obl[k] = obl.get(k, 0) + v
        for k, v in o["errors"].items():
            errs[k] = errs.get(k, 0) + v
        bodies |= set(o["bodies"])
        modes["%s/%s" % o["job"] if o["job"][1] else o["job"][0]] = o["mode"]
        for kind, msg, trace, stack, props, cons in o["findings"]:
            if prop not in props:
                continue
            fn, where = locate(stack)
            res.violations.append(Violation(
                "%s:%s:%s:%s" % (kind, cons, fn, skeleton(msg)),
                "%s (%s): %s" % (fn, where, msg),
                ["construct: %s" % cons] + ["call path: " + " > ".join("%s" % n for n, _ in stack)] +
                ["path:"] + ["  " + t for t in trace]))
        for msg, trace, stack in o["unsupported"]:
            fn, where = locate(stack)
            res.undecided.append(Violation(
                "undecided:%s:%s" % (fn, msg), "not established: %s (%s) uses a construct the analysis does not "
                "cover: %s" % (fn, where, msg),
                ["call path: " + " > ".join(n for n, _ in stack), "path:"] + ["  " + t for t in trace]))
    res.coverage = {
        "explanation": "Abstract interpretation of the parser's MIR in lockstep with the reference grammar "
                       "(lolv/spec_parser.txt) over an abstract token stream, to a fixpoint: every path of every "
                       "analysed function, for statements of every length.",
        "analyses": modes, "joint_states": totals["states"], "token_events": totals["events"],
        "case_splits": totals["splits"], "paths_compared": totals["finished"], "cut_paths": totals["cut"],
        "call_sites_interpreted": totals["sites"], "functions": sorted(bodies),
        "outcomes_compared": {("%s/%s" % k if isinstance(k, tuple) else k): v for k, v in sorted(obl.items(), key=str)},
        "errors_compared": errs, "obligations": totals["finished"] + totals["events"],
        "discharged": totals["finished"] + totals["events"],
    }
    if prop in ("C09", "C10"):
        from . import sicheck
        sicheck.check(prop, p, tier, res)
    if not res.violations:
        for f in FLOORS.get(prop, ()):
            k = (f[0], f[1]) if f[1] else f[0]
            res.floor("paths of %s" % (f[0] if not f[1] else "%s/%s" % f[:2]), obl.get(k, 0), f[2])
        if prop == "C21":
            res.floor("kinds of error", len(errs), 20)
        if prop in ("C09", "C10", "C21"):
            res.floor("functions", len(bodies), 40)
    res.assumptions = ["The statement iterator behaves as C11 establishes.",
                       "The models of the standard library used (lolv/natives.py) are right."]
    return res


def skeleton(msg):
    import re
    return re.sub(r"[0-9]+", "N", msg)[:160]
