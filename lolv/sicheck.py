"""C11: the statement iterator against its reference, to a fixpoint (see sidomain.py)."""
import time

from . import sidomain
from .core import Result, Violation
from .interp import Unsupported
from .parsercheck import locate, skeleton

FLOORS = {("new", "done"): 2, ("peek", "done"): 20, ("next", "done"): 20, ("next_statement", "done"): 20}


def add_findings(res, prop, d, e):
    for f in e.findings:
        if prop not in f.props:
            continue
        fn, where = locate(f.stack)
        res.violations.append(Violation(
            "%s:%s:%s:%s" % (f.kind, d.construct(f.joint), fn, skeleton(f.message)),
            "%s (%s): %s" % (fn, where, f.message),
            ["call path: " + " > ".join(n for n, _ in f.stack), "path:"] + ["  " + t for t in f.trace]))
    for msg, trace, stack in e.unsupported:
        fn, where = locate(stack)
        res.undecided.append(Violation(
            "undecided:%s:%s" % (fn, msg), "not established: %s (%s) uses a construct the analysis does not "
            "cover: %s" % (fn, where, msg),
            ["call path: " + " > ".join(n for n, _ in stack), "path:"] + ["  " + t for t in trace]))


def check(prop, p, tier, res=None):
    own = res is None
    res = res or Result()
    try:
        m, d, e = sidomain.analyse(p, deadline=time.time() + 300)
    except Unsupported as x:
        res.undecided.append(Violation("anchor:" + str(x), "the statement iterator cannot be analysed: %s" % x))
        return res
    add_findings(res, prop, d, e)
    cov = {"states": e.states, "events": e.events, "case_splits": e.splits,
           "operations_compared": {k[0]: v for k, v in d.obligations.items()},
           "functions": sorted(p.bodies[b].name for b in m.covered if p.bodies[b].inst is not None),
           "call_sites_interpreted": m.sites}
    if own:
        res.coverage = dict(cov, explanation="Abstract interpretation of StatementIterator's MIR next to a reference "
                            "iterator, over every order of operations and every token stream up to the kinds comma / "
                            "ellipsis / other and the line relations of neighbouring tokens, to a fixpoint.",
                            obligations=e.events, discharged=e.events)
        if not res.violations:
            for k, v in FLOORS.items():
                res.floor("completed %s operations" % k[0], d.obligations.get(k, 0), v)
        res.assumptions = ["Tokens come in source order with start line <= end line <= next start line (C03, C04).",
                           "The models of Vec, IntoIter and VecDeque (lolv/natives.py) are right; Peekable, Option and "
                           "the collecting loop are taken from the standard library's MIR."]
    else:
        res.coverage["statement_iterator"] = cov
    return res
