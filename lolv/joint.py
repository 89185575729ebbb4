"""Relational abstract interpretation: the MIR of the implementation and a reference description
are run in lockstep over one shared abstract input, from event to event. The visited joint states
are memoised up to renaming, so the search ends with a fixpoint that covers every input."""
import time
import traceback

from .interp import (Event, Frame, NFrame, NoProgress, Panic, Split, State, Unsupported, canon)
from .refint import RefError


import os
BFS = os.environ.get("BFS")


class Joint:
    __slots__ = ("st", "ref", "ev", "trace", "info", "depth", "splits")

    def __init__(self, st, ref):
        self.st = st
        self.ref = ref
        self.ev = None
        self.trace = None
        self.info = {}
        self.depth = 0
        self.splits = 0

    @property
    def env(self):
        return self.st.env

    def copy(self):
        j = Joint.__new__(Joint)
        j.st = self.st.copy()
        j.ref = self.ref.copy()
        j.ev = self.ev
        j.trace = self.trace
        j.info = self.info
        j.depth = self.depth
        j.splits = self.splits
        return j

    def note(self, s):
        self.trace = (s, self.trace)

    def steps(self):
        out = []
        t = self.trace
        while t is not None:
            out.append(t[0])
            t = t[1]
        out.reverse()
        return out


class Finding:
    __slots__ = ("kind", "message", "trace", "stack", "joint", "props")

    def __init__(self, kind, message, joint, stack):
        self.kind = kind
        self.message = message
        self.trace = joint.steps()
        self.stack = stack
        self.joint = joint
        self.props = []


def stack_of(st):
    out = []
    for fr in st.frames:
        if isinstance(fr, Frame):
            loc = fr.body.blocks[fr.bb][2] or fr.body.loc
            out.append((fr.body.name, loc))
    return out


class Engine:
    """domain: compare(j, sev) -> list of (label, fn(j)) | raises Mismatch; see parserdom.py."""

    def __init__(self, interp, domain, fold=True, max_depth=None, max_states=60000, deadline=None,
                 max_findings=40, max_items=None, after=60):
        self.m = interp
        self.d = domain
        self.fold = fold
        self.max_depth = max_depth
        self.max_states = max_states
        self.deadline = deadline
        self.max_findings = max_findings
        self.max_items = max_items
        self.after = after
        self.findings = []
        self.unsupported = []
        self.gave_up = {}
        self.trace = None
        self.states = 0
        self.events = 0
        self.splits = 0
        self.finished = 0
        self.cut = 0
        self.ends = {}

    def report(self, kind, msg, j, stack=None):
        f = Finding(kind, msg, j, stack if stack is not None else stack_of(j.st))
        self.findings.append(f)
        self.d.classify(self, f)

    def give_up(self, e, j):
        stack = stack_of(j.st)
        key = (str(e), str(stack[-1]) if stack else None)
        self.gave_up[key] = self.gave_up.get(key, 0) + 1
        if self.gave_up[key] == 1:
            self.unsupported.append((str(e), j.steps(), stack))

    def explore(self, init):
        m = self.m
        seen = set()
        found = None
        work = [init]
        while work:
            if len(self.findings) >= self.max_findings:
                break
            if self.findings:
                # a violation is established: look for others for a short while only
                found = found or time.time()
                if time.time() > found + self.after:
                    break
            if self.states > self.max_states:
                self.unsupported.append(("state limit reached", work[-1].steps(), []))
                break
            if self.deadline and time.time() > self.deadline:
                self.unsupported.append(("time limit reached", work[-1].steps(), []))
                break
            j = work.pop(0) if BFS else work.pop()
            try:
                self.turn(j, work, seen)
            except Unsupported as e:
                self.give_up(e, j)
            except (TypeError, KeyError, IndexError, AttributeError, ValueError, AssertionError, RecursionError) as e:
                # the analysis itself stumbled: this path is not decided
                self.give_up("internal: %s %s" % (type(e).__name__, e), j)
                self.trace = self.trace or traceback.format_exc()

    def turn(self, j, work, seen):
        """One state: runs it to its next event, and adds what may follow."""
        m = self.m
        try:
            if j.ev is None:
                j.st.steps = 0
                try:
                    m.run(j.st)
                    j.ev = ("ret", j.st.result)
                except Event as e:
                    j.ev = (e.kind,) + e.args
                except Panic as e:
                    where = stack_of(j.st)
                    if e.loc:
                        where = where + [e.loc]
                    self.report("panic", "panic: %s" % e.what, j, where)
                    return
            try:
                j.ref.run(j)
                sev = ("ret", j.ref.result)
            except Event as e:
                sev = (e.kind,) + e.args
            outs = self.d.step(self, j, sev)
        except Split as s:
            self.splits += 1
            j.splits += 1
            if j.splits > 300:
                self.report("nontermination", "runs on without consuming input (loop)", j)
                return
            for label, fn in s.options:
                k = j.copy()
                fn(k.st)
                if getattr(k.env, "dead", False):
                    continue
                if label:
                    k.note(label)
                work.append(k)
            return
        except NoProgress as e:
            self.report("nontermination", str(e), j)
            return
        except Mismatch as e:
            self.report(e.kind, e.msg, j, e.stack)
            return
        if outs is None:
            self.finished += 1
            return
        self.events += 1
        n = len(outs)
        for i, (label, fn) in enumerate(outs):
            k = j.copy() if i < n - 1 else j
            k.ev = None
            fn(k)
            if getattr(k.env, "dead", False):
                continue
            k.depth += 1
            k.splits = 0
            if label:
                k.note(label)
            if self.max_items and k.ref.longest() > self.max_items or \
                    self.max_depth and k.depth > self.max_depth:
                self.cut += 1
                continue
            key = self.normalise(k)
            if key in seen:
                continue
            seen.add(key)
            self.states += 1
            work.append(k)

    # ---- normal form ---------------------------------------------------------------------
    def normalise(self, j):
        key, rn = self.key(j)
        self.prune(j, rn)
        if self.fold and self.fold_lists(j):
            key, rn = self.key(j)
            self.prune(j, rn)
        self.d.forget(j, rn)
        return key

    def key(self, j):
        k, rn = canon(j.st, self.d.roots(j))
        rk = j.ref.key(rn)
        # the reference may reach heap-free values only, so no new cells
        ek = self.d.env_key(j, rn)
        return (k, rk, ek), rn

    def prune(self, j, rn):
        st = j.st
        for d, fr in enumerate(st.frames):
            for i in range(len(fr.locals)):
                if fr.locals[i] is not None and (d, i) not in rn.cells:
                    fr.locals[i] = None
        live = set(rn.heap)
        for h in list(st.heap):
            if h not in live:
                del st.heap[h]
        j.ref.prune()

    def fold_lists(self, j):
        """Replaces equal leading parts of lists held by both sides by a fresh abstract segment."""
        st = j.st
        impl = []
        elemrefs = [False]

        def walk(v, path):
            if type(v) is not tuple or not v:
                return
            if v[0] == "Q":
                if len(v[2]) >= 2:
                    impl.append((path, v))
                for i, x in enumerate(v[2]):
                    walk(x, None if path is None else path + ((2, i),))
                return
            if v[0] == "R":
                if any(e[0] in ("e", "x") for e in v[2]) or (v[3] is not None and v[3][0] == "sl"):
                    elemrefs[0] = True
                if v[1][0] == "C":
                    return
            if v[0] == "It" and v[1] == "ref":
                elemrefs[0] = True
            for i, x in enumerate(v):
                if type(x) is tuple:
                    walk(x, None if path is None else path + (i,))
        for d, fr in enumerate(st.frames):
            for i, v in enumerate(fr.locals):
                walk(v, (("L", d, i),))
            if isinstance(fr, NFrame) and fr.pending is not None:
                walk(fr.pending, None)
        for h, v in st.heap.items():
            walk(v, (("H", h),))
        refs = []

        def walkr(v, path):
            if type(v) is not tuple or not v:
                return
            if v[0] == "Q":
                if len(v[2]) >= 2:
                    refs.append((path, v))
            for i, x in enumerate(v):
                if type(x) is tuple:
                    walkr(x, path + (i,))
        for d, (f, pc, loc) in enumerate(j.ref.frames):
            for n, v in loc.items():
                walkr(v, (("F", d, n),))
        if elemrefs[0] or not (impl or refs):
            return False
        changes = {}
        rchanges = {}
        used = set()
        for rp, rq in refs:
            group = []
            for ip, iq in impl:
                if ip is None or ip in changes or iq[1] != rq[1]:
                    continue
                n = 0
                top = min(len(iq[2]), len(rq[2])) - 1
                while n < top and self.d.same(j, iq[2][n], rq[2][n]):
                    n += 1
                if n:
                    group.append((n, ip, iq))
            if not group:
                if len(rq[2]) >= 4:
                    rchanges[rp] = (len(rq[2]) - 2, rq, j.env.fresh())
                continue
            n = min(g[0] for g in group)
            seg = j.env.fresh()
            for _, ip, iq in group:
                changes[ip] = (n, iq, seg)
            rchanges[rp] = (n, rq, seg)
        for ip, iq in impl:
            if ip is not None and ip not in changes and len(iq[2]) >= 4:
                changes[ip] = (len(iq[2]) - 2, iq, j.env.fresh())
        if not changes and not rchanges:
            return False

        def new(n, q, seg):
            return ("Q", ("#", "seg", seg), q[2][n:])

        # innermost changes would be lost if an enclosing list is folded: apply outermost only
        def put(v, path, q):
            if not path:
                return q
            p = path[0]
            if isinstance(p, tuple):
                i = p[1]
                items = list(v[2])
                items[i] = put(items[i], path[1:], q)
                return ("Q", v[1], tuple(items))
            return v[:p] + (put(v[p], path[1:], q),) + v[p + 1:]

        def outer(paths):
            ps = sorted(paths, key=len)
            out = []
            for p in ps:
                if not any(p[:len(o)] == o for o in out):
                    out.append(p)
            return out
        for p in outer(changes):
            q = new(*changes[p])
            c = p[0]
            if c[0] == "L":
                fr = st.frames[c[1]]
                fr.locals[c[2]] = put(fr.locals[c[2]], p[1:], q)
            else:
                st.heap[c[1]] = put(st.heap[c[1]], p[1:], q)

        def putr(v, path, q):
            if not path:
                return q
            return v[:path[0]] + (putr(v[path[0]], path[1:], q),) + v[path[0] + 1:]
        for p in outer(rchanges):
            q = new(*rchanges[p])
            loc = j.ref.frames[p[0][1]][2]
            loc[p[0][2]] = putr(loc[p[0][2]], p[1:], q)
        return True


class Mismatch(Exception):
    def __init__(self, kind, msg, stack=None):
        self.kind = kind
        self.msg = msg
        self.stack = stack
