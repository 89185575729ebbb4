"""The statement iterator (C11): its operations - new, next, peek, next_statement - are run on an
abstract stream of tokens next to a reference iterator, from every reachable pair of iterator
states, for every order of operations."""
import time

from . import natives
from .interp import Event, Split, State, Unsupported
from .joint import Engine, Joint, Mismatch, stack_of
from .parserdom import Anchors, ParserDomain, TokEnv, TokenTypes, arg_tys, find_adt
from .refint import NIL


class SIEnv(TokEnv):
    """The stream is materialised token by token in `buf`; ipos / rpos are the places up to which
    the implementation and the reference have taken tokens. `chain` orders the start and end lines
    of the live tokens (start <= end <= next start, as C03 establishes for tokenized text);
    links[i] in '=', '<', '?' relates chain[i] and chain[i+1]."""

    def __init__(self, tt, atoms, fields):
        TokEnv.__init__(self, tt, atoms)
        self.buf = ()
        self.ended = False
        self.ipos = 0
        self.rpos = 0
        self.chain = ()
        self.links = ()
        self.fields = fields

    def extend(self):
        i = self.new_token()
        self.buf += (i,)
        for w in (0, 1):
            self.links += ("?",) if self.chain else ()
            self.chain += ((i, w),)

    def at(self, pos):
        """Token at place pos of the stream: an id, or None at its end."""
        if pos < len(self.buf):
            return self.buf[pos]
        if self.ended:
            return None
        raise Event("raw")

    def point(self, d):
        """(token id, 0 start / 1 end) if d is the line of a token's range."""
        rf, lf = self.fields
        if d[0] == "D" and d[1] == "tok" and len(d[3]) == 3 and d[3][0] == (0, rf) and d[3][2] == (0, lf):
            return (d[2], d[3][1][1])
        return None

    def order(self, x, y):
        """-1, 0, 1: how line x relates to line y."""
        if x == y:
            return 0
        i, j = self.chain.index(x), self.chain.index(y)
        s = -1
        if i > j:
            i, j, s = j, i, 1
        part = self.links[i:j]
        if "<" in part:
            return s
        for k in range(i, j):
            if self.links[k] == "?":
                a, b = self.chain[k], self.chain[k + 1]
                nm = lambda p: "token#%d %s" % (p[0], ("starts", "ends")[p[1]])

                def put(v):
                    def f(st):
                        e = st.env
                        e.links = e.links[:k] + (v,) + e.links[k + 1:]
                    return f
                what = "the next token#%d starts" % b[0] if b[1] == 0 else "token#%d ends" % b[0]
                raise Split([("%s on the line where %s" % (what, nm(a)), put("=")),
                             ("%s on a later line than %s" % (what, nm(a)), put("<"))])
        return 0

    def binop(self, m, st, op, a, b, ty):
        if a[0] == "D" and b[0] == "D":
            x, y = self.point(a), self.point(b)
            if x and y and op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
                o = self.order(x, y)
                return ("i", int({"Eq": o == 0, "Ne": o != 0, "Lt": o < 0, "Le": o <= 0, "Gt": o > 0,
                                  "Ge": o >= 0}[op]))
            if x and y and op == "Cmp":
                return ("A", None, self.order(x, y) + 1, ())
        return None

    def raw_take(self):
        t = self.at(self.ipos)
        if t is None:
            return None
        self.ipos += 1
        return self.tokval(t)

    def seq_op(self, ctx, op, r, s, args):
        if s is not None and s[0] == "D" and s[1] == "raw":
            if op in ("first", "pop_front", "is_empty") or op == "get" and args[0] == ("i", 0):
                t = self.at(self.ipos)
                if op == "is_empty":
                    return ("i", int(t is None))
                if t is None:
                    return natives.none(ctx)
                v = self.tokval(t)
                if op == "pop_front":
                    self.ipos += 1
                    return natives.some(ctx, v)
                return natives.some(ctx, ("R", ("C", v), (), None))
        return TokEnv.seq_op(self, ctx, op, r, s, args)

    def iter_op(self, ctx, op, r, it):
        if it is not None and it[0] == "It" and it[1] == "raw" and op == "as_slice":
            return ("R", ("C", ("D", "raw", 0, (), None)), (), None)
        return TokEnv.iter_op(self, ctx, op, r, it)


class SIRef:
    """The reference iterator."""

    def __init__(self):
        self.op = "new"
        self.skip = False
        self.cur = None         # line the statement is on: a point
        self.loc = {"acc": ("Q", None, ())}
        self.result = None
        self.failed = False

    @property
    def frames(self):
        return [(None, 0, self.loc)]

    def copy(self):
        r = SIRef.__new__(SIRef)
        r.__dict__.update(self.__dict__)
        r.loc = dict(self.loc)
        return r

    def prune(self):
        pass

    def where(self):
        return [self.op]

    def longest(self):
        return 0

    def key(self, rn):
        c = self.cur
        return (self.op, self.skip, c and (rn.id("tok", c[0]), c[1]), rn.val(self.loc["acc"]),
                self.result and rn.val(self.result))

    def start(self, op):
        self.op = op
        self.skip = False
        self.loc["acc"] = ("Q", None, ())
        self.result = None

    def take(self, j, consume):
        """The next token of the statement or None."""
        e = j.env
        tt = e.tt

        def is_(t, *names):
            cur = e.cls[t]
            hit = cur & tt.cls(*names)
            if not hit or hit == cur:
                return bool(hit)
            miss = cur - hit
            raise Split([("token#%d is %s" % (t, tt.describe(hit)), lambda s: s.env._setcls(t, hit)),
                         ("token#%d is not %s" % (t, tt.describe(hit)), lambda s: s.env._setcls(t, miss))])
        while True:
            if self.skip == "ellipsis":
                t = e.at(e.rpos)
                if t is not None:
                    self.cur = (t, 0)
                self.skip = False
            t = e.at(e.rpos)
            if t is None or is_(t, "Comma"):
                return None
            if e.order((t, 0), self.cur) != 0:
                return None
            if is_(t, "Ellipsis"):
                e.rpos += 1
                self.skip = "ellipsis"
                continue
            if consume:
                e.rpos += 1
                self.cur = (t, 1)
            return e.tokval(t)

    def run(self, j):
        if self.result is not None:
            return
        e = j.env
        if self.op == "new":
            t = e.at(0)
            if t is not None:
                self.cur = (t, 0)
            self.result = ("i", 0)
        elif self.op in ("next", "peek"):
            v = self.take(j, self.op == "next")
            self.result = NIL if v is None else v
        else:
            while self.skip != "rest":
                v = self.take(j, True)
                if v is None:
                    self.skip = "rest"
                else:
                    a = self.loc["acc"]
                    self.loc["acc"] = ("Q", a[1], a[2] + (v,))
            while True:
                t = e.at(e.rpos)
                if t is None:
                    break
                hit = e.cls[t] & e.tt.cls("Comma", "Ellipsis")
                if hit and hit != e.cls[t]:
                    miss = e.cls[t] - hit
                    raise Split([("token#%d is a comma or ellipsis" % t, lambda s: s.env._setcls(t, hit)),
                                 ("token#%d is neither" % t, lambda s: s.env._setcls(t, miss))])
                if not hit:
                    self.cur = (t, 0)
                    break
                e.rpos += 1
            self.result = ("i", 1)


class SIDomain(ParserDomain):
    def __init__(self, m, tt, anchors):
        ParserDomain.__init__(self, m, tt, anchors, "si")
        self.cell = None
        self.ops = {"next": anchors.next, "peek": anchors.peek, "next_statement": anchors.adv}

    def roots(self, j):
        e = j.env
        base = min(e.ipos, e.rpos)
        out = [("#", "tok", i) for i in e.buf[base:]]
        if j.ref.cur:
            out.append(("#", "tok", j.ref.cur[0]))
        out += [e.ended, e.ipos - base, e.rpos - base]
        if self.cell is not None and self.cell in j.st.heap:
            out.append(("H", self.cell))
        return tuple(out)

    def squeeze(self, e, live):
        chain, links = [], []
        pend = "="
        for k, p in enumerate(e.chain):
            if k:
                l = e.links[k - 1]
                pend = "<" if "<" in (pend, l) else "?" if "?" in (pend, l) else "="
            if p[0] in live:
                if chain:
                    links.append(pend)
                chain.append(p)
                pend = "="
        return tuple(chain), tuple(links)

    def env_key(self, j, rn):
        base = ParserDomain.env_key(self, j, rn)
        live = {n for (k, n) in rn.ids if k == "tok"}
        chain, links = self.squeeze(j.env, live)
        return base + (tuple((rn.ids[("tok", i)], w) for i, w in chain), links)

    def forget(self, j, rn):
        ParserDomain.forget(self, j, rn)
        e = j.env
        live = {n for (k, n) in rn.ids if k == "tok"}
        e.chain, e.links = self.squeeze(e, live)
        base = min(e.ipos, e.rpos)
        e.buf = e.buf[base:]
        e.ipos -= base
        e.rpos -= base

    def step(self, eng, j, sev):
        ev = j.ev
        if ev[0] == "raw" or sev[0] == "raw":
            j.info = dict(j.info, stack=stack_of(j.st))

            def tok(x):
                x.env.extend()

            def end(x):
                x.env.ended = True
            return [("a token follows in the program", tok), ("the program ends", end)]
        if ev[0] != "ret" or sev[0] != "ret":
            raise Unsupported("event %s" % ev[0])
        op = j.ref.op
        m, st = self.m, j.st
        if op == "new":
            st.heap[self.cell] = ev[1]
        else:
            v = ev[1]
            if op == "next_statement":
                r = self.diff(j, v, j.ref.loc["acc"], "the rest of the statement")
            else:
                if v is None or v[0] != "A":
                    raise Unsupported("the result of %s is not known" % op)
                got = NIL
                if v[2] == 1:
                    got = v[3][0]
                    if op == "peek":
                        got = m.read_ref(st, got)
                want = j.ref.result
                if (got == NIL) != (want == NIL):
                    r = "%s gives %s, expected %s" % (op, self.show(j, got), self.show(j, want))
                else:
                    r = None if got == NIL else self.diff(j, got, want, "the token given by " + op)
            if r:
                inst = self.ops[op]
                raise Mismatch("result", r, [(inst.full, inst.loc)])
        self.count((op, "done"))
        outs = []
        for name, inst in sorted(self.ops.items()):
            def go(x, name=name, inst=inst):
                x.st.result = None
                m.push_body(x.st, inst, [("R", ("H", self.cell), (), None)], None)
                x.ref.start(name)
            outs.append((name + "()", go))
        return outs

    def construct(self, j):
        return "statement iterator"

    def classify(self, eng, f):
        f.props = ["C11"]
        if f.kind == "panic":
            f.props.append("C09")
        if f.kind == "nontermination":
            f.props.append("C10")


def analyse(p, **kw):
    from .interp import Interp
    tt = TokenTypes(p)
    a = Anchors(p, tt)
    T = p.types
    rng, pos = find_adt(p, "Range"), find_adt(p, "Position")
    rf = [i for i, x in enumerate(T[tt.token]["vs"][0]["f"]) if x[1] == rng]
    lf = [i for i, x in enumerate(T[pos]["vs"][0]["f"]) if x[0] == "line"]
    if len(rf) != 1 or len(lf) != 1 or [x[1] for x in T[rng]["vs"][0]["f"]] != [pos, pos]:
        raise Unsupported("the token's range is not a pair of positions with a line")
    m = Interp(p)
    hidden = tt.cls("CommentSingleLine", "CommentMultiLine")
    env = SIEnv(tt, tt.all - hidden, (rf[0], lf[0]))
    d = SIDomain(m, tt, a)
    st = State(env)
    d.cell = st.alloc(None)
    m.push_body(st, a.new, [("D", "raw", 0, (), arg_tys(p, a.new)[0])], None)
    eng = Engine(m, d, **kw)
    eng.explore(Joint(st, SIRef()))
    return m, d, eng
