"""The tokenizer (C01-C08): its MIR is run on an abstract text of unbounded length next to a
reference tokenizer that decides, token by token, what the text is (lexspec.py). The text is kept
as far as both sides still refer to it, so that the visited joint states are finitely many."""
from . import natives, text
from .interp import Event, Frame, Interp, NFrame, NoProgress, NullEnv, Panic, Split, State, Unsupported, canon
from .joint import Engine, Joint, Mismatch, stack_of
from .lexspec import WS_RUN, Spec
from .parserdom import find_adt
from .turns import Turns
from .text import (ALL, ASCII, DIGIT, FS, IDENT, LEN, LOST, NL, WS, TextEnv, allcs, ch, run, show_set, vadd)

SEG = ("Q", ("#", "seg", 0), ())


class LexEnv(TextEnv):
    def __init__(self, token):
        TextEnv.__init__(self)
        self.token = token
        self.push_ok = False
        self.seg = False

    def rest(self, first=None):
        """Any text, the first character of which is one of first."""
        o = self.fresh()
        self.orgs = dict(self.orgs)
        self.orgs[o] = ((ALL,),)
        return run(((ALL,),), org=o, first=first)

    def absorb(self, m, st, s, v):
        if v is None or v[0] != "A" or v[1] != self.token:
            return s, v
        if not self.push_ok:
            raise Event("push", v)
        if s != (SEG if self.seg else ("Q", None, ())):
            raise Unsupported("tokens are added to more than one sequence")
        self.push_ok = False
        self.seg = True
        return SEG, None


class LexRef:
    """stage: 'any' (whitespace or a token may come) | 'nows' | 'token' (a first character is known);
    pend: (kind, content or None, start, end) of the token that has to be pushed next."""

    def __init__(self):
        self.stage = "any"
        self.pend = None
        self.err = None
        self.done = False
        self.result = None

    def copy(self):
        r = LexRef.__new__(LexRef)
        r.__dict__.update(self.__dict__)
        return r

    def key(self):
        return (self.stage, self.pend, self.err, self.done)

    def prune(self):
        pass

    def run(self, j):
        pass

    def longest(self):
        return 0


class LexJoint(Joint):
    __slots__ = ("hist", "what", "coarse", "blur", "drifts", "extra")

    def __init__(self, st, ref):
        Joint.__init__(self, st, ref)
        self.hist = {}
        self.what = "the text"
        self.coarse = None      # where an identifier was summarised first
        self.blur = None        # where the text ahead was forgotten first
        self.drifts = {}
        self.extra = ()         # properties that a finding here bears on as well

    def copy(self):
        j = LexJoint.__new__(LexJoint)
        j.st = self.st.copy()
        j.ref = self.ref.copy()
        for k in ("ev", "trace", "info", "depth", "splits", "what", "coarse", "blur", "extra"):
            setattr(j, k, getattr(self, k))
        j.hist = dict(self.hist)
        j.drifts = dict(self.drifts)
        return j


def bd_of(v):
    return type(v) is tuple and len(v) == 2 and v[0] == "bd"


def rewrite(v, f):
    """v with f applied to boundaries and terms."""
    if type(v) is not tuple or not v:
        return v
    if bd_of(v) or v[0] == "t":
        return f(v)
    h = v[0]
    if h in ("i", "S", "F", "T"):
        return v
    new = tuple([rewrite(x, f) if type(x) is tuple else x for x in v])
    return new


def rewrite_all(j, f):
    st = j.st
    for fr in st.frames:
        for i, v in enumerate(fr.locals):
            if v is not None:
                fr.locals[i] = rewrite(v, f)
        if isinstance(fr, NFrame) and fr.pending is not None:
            fr.pending = rewrite(fr.pending, f)
    for h in list(st.heap):
        st.heap[h] = rewrite(st.heap[h], f)
    if st.result is not None:
        st.result = rewrite(st.result, f)
    r = j.ref
    if r.pend is not None:
        r.pend = rewrite(r.pend, f)
    if r.err is not None:
        r.err = rewrite(r.err, f)


def leaves(m, ty, v, path):
    """(path, type) of the integers inside v."""
    if v is None or ty is None:
        return
    t = m.T(ty)
    if v[0] == "i":
        if t["k"] in ("int", "uint"):
            yield path, v[1]
        return
    if v[0] == "t":
        # how it looks, not what it is: only to see that it goes on changing
        yield path, ("t", v[1], sum(abs(c) for c, _, _ in v[2]))
        return
    if v[0] == "A" and t["k"] in ("adt", "tuple", "closure"):
        ty = v[1] if v[1] is not None else ty
        for i, x in enumerate(v[3]):
            if x is not None and x[0] in ("i", "A", "t"):
                try:
                    fty = m.p.field_ty(ty, v[2], i)
                except Exception:
                    continue
                yield from leaves(m, fty, x, path + (i,))


def put(v, path, x):
    if not path:
        return x
    fs = list(v[3])
    fs[path[0]] = put(fs[path[0]], path[1:], x)
    return v[:3] + (tuple(fs),)


class LexDomain:
    def __init__(self, m, p):
        self.m = m
        self.p = p
        self.token = find_adt(p, "Token")
        self.tty = find_adt(p, "TokenType")
        self.value = find_adt(p, "TokenValue")
        self.number = find_adt(p, "NumberToken")
        self.keywords = find_adt(p, "Keywords")
        self.pos = find_adt(p, "Position")
        self.range = find_adt(p, "Range")
        self.error = find_adt(p, "TokenError")
        T = p.types
        names = {"line": "L", "column": "K", "bytes": "B", "chars": "C"}
        self.posf = [names.get(x[0]) for x in T[self.pos]["vs"][0]["f"]]
        if sorted(x or "" for x in self.posf) != ["B", "C", "K", "L"]:
            raise Unsupported("the fields of Position are not line, column, bytes and chars")
        if [x[1] for x in T[self.range]["vs"][0]["f"]] != [self.pos, self.pos]:
            raise Unsupported("Range is not a pair of positions")
        self.tokf = {x[1]: i for i, x in enumerate(T[self.token]["vs"][0]["f"])}
        if set(self.tokf) != {self.tty, self.range}:
            raise Unsupported("Token is not a token type and a range")
        self.kwnames = [v["n"] for v in T[self.keywords]["vs"]]
        self.spec = Spec(self.kwnames)
        self.obligations = {}
        self.alts = 0
        self.kwseen = set()
        self.cps = set()

    def count(self, k):
        self.obligations[k] = self.obligations.get(k, 0) + 1

    # ---- the reference decides
    def known(self, env):
        """The characters of the undecided part that are known: masks, and whether the text goes on."""
        z = env.ix(env.zone)
        out = []
        for e in env.el[z:]:
            if e[0] != "ch":
                break
            out.append(e[1])
        return out, env.el[z + len(out):]

    def install(self, env, items):
        z = env.ix(env.zone)
        old = env.bd[z:]
        m = 0
        while z + m < len(env.el) and env.el[z + m][0] == "ch":
            m += 1
        els, bds, marks = [], [old[0]], {}
        for it in items:
            if it[0] == "mark":
                marks[it[1]] = bds[-1]
                continue
            if it[0] == "end":
                continue
            els.append(it)
            bds.append(old[len(els)] if len(els) <= m else env.fresh())
        if bds[-1] != old[-1]:
            if len(els) > m:
                # the last element is new: its end is the end of the text
                for k in marks:
                    if marks[k] == bds[-1]:
                        marks[k] = old[-1]
                bds[-1] = old[-1]
            else:
                env.alias[old[-1]] = bds[-1]
        env.bd = env.bd[:z] + tuple(bds)
        env.el = env.el[:z] + tuple(els)
        env.pins = tuple(bds)
        for i in range(z, len(env.el)):
            env.check_flags(i)
        return marks

    def overlay(self, items, known, goes_on):
        """items made to agree with the known first characters of the text (all of it unless goes_on);
        a list of item lists."""
        out = []

        def go(done, items, known):
            if not items:
                if not known:
                    out.append(done)
                return
            it = items[0]
            if it[0] == "mark":
                go(done + [it], items[1:], known)
                return
            if it[0] == "end":
                if not known:
                    go(done + [it], items[1:], known)
                return
            if not known and not goes_on:
                if it[0] == "run" and not it[2]:
                    go(done, items[1:], known)
                return
            if not known:
                go(done + [it], items[1:], known)
                return
            if it[0] == "ch":
                cs = it[1] & known[0]
                if cs:
                    go(done + [("ch", cs) + it[2:]], items[1:], known[1:])
                return
            _, units, mn, org, flags, first = it
            if mn == 0:
                go(done, items[1:], known)
            for ai, alt in enumerate(units):
                c0 = alt[0] & first if first is not None else alt[0]
                cs = [c0] + list(alt[1:])
                els, ok, k = [], True, known
                for q, c in enumerate(cs):
                    if k:
                        c, k = c & k[0], k[1:]
                    ok = ok and c
                    els.append(ch(c, org, (ai, q, len(alt)), flags))
                if ok:
                    go(done + els, [run(units, 0, org, flags)] + items[1:], k)
        go([], list(items), list(known))
        return out

    def new_orgs(self, env, items):
        """Gives each run of an alternative an origin of its own."""
        out = []
        for it in items:
            if it[0] == "run":
                o = env.fresh()
                env.orgs = dict(env.orgs)
                env.orgs[o] = it[1]
                it = it[:3] + (o,) + it[4:]
            out.append(it)
        return out

    def decide(self, eng, j, handled=False):
        env, ref = j.env, j.ref
        if ref.done or ref.err is not None:
            raise Unsupported("reads on after the end of the text")
        if eng.before_decision(j):
            return []
        env, ref = j.env, j.ref
        known, rest = self.known(env)
        outs = []

        def add(label, items, fn):
            for its in self.overlay(items, known, bool(rest)):
                def f(x, its=its):
                    marks = self.install(x.env, self.new_orgs(x.env, its))
                    fn(x, marks)
                outs.append((label, f))
        if ref.stage in ("any", "nows"):
            def end(x, marks):
                x.ref.done = True
                x.env.zone = None
            add("the text is over", [("end",)], end)
            if ref.stage == "any":
                def ws(x, marks):
                    x.env.zone = marks["z"]
                    x.ref.stage = "nows"
                add("whitespace follows", [WS_RUN, ("mark", "z"), run(((ALL,),), first=ALL & ~WS)], ws)

            def first(x, marks):
                x.ref.stage = "token"
            add("a token follows", [ch(ALL & ~WS), run(((ALL,),))], first)
            return outs
        for alt in self.spec.alternatives:
            def tok(x, marks, alt=alt):
                self.alts += 1
                e = x.env
                content = None
                if "c0" in marks:
                    content = ("V", ("bd", marks["c0"]), ("bd", marks["c1"]))
                start, end = ("bd", e.root(e.zone)), ("bd", marks["e"])
                if alt.fact is not None:
                    e.parses = dict(e.parses)
                    e.parses[(alt.fact[0], start[1], marks["n"])] = alt.fact[1]
                if alt.kind == ("error",):
                    x.ref.err = (start, end)
                    x.env.zone = None
                    return
                x.ref.pend = (alt.kind, content, start, end)
                x.what = alt.group
                x.env.pending = True
                x.env.zone = marks["e"]
                last = e.el[-1] if len(e.bd) > 1 else None
                if last is not None and last[0] == "run" and last[1] == ((ALL,),) and not last[4]:
                    e.sure = (e.bd[-2], last[5])
                else:
                    e.sure = None
                x.ref.stage = alt.then
            add(alt.label, alt.items, tok)
        return outs

    # ---- comparison
    def step(self, eng, j, sev):
        try:
            return self.step1(eng, j, j.ev)
        except Event as e:
            # the comparison needs to know more of the text
            return self.step1(eng, j, (e.kind,) + e.args)

    def step1(self, eng, j, ev):
        env = j.env
        k = ev[0]
        self.cps.add(stack_of(j.st)[-1][0] if j.st.frames and isinstance(j.st.frames[-1], Frame) else "")
        if k == "decide":
            return self.decide(eng, j)
        if k == "mat":
            return env.mat_options(ev[1])
        if k == "opts":
            return ev[1]
        if k == "push":
            if j.ref.pend is None:
                if j.ref.err is not None or j.ref.done:
                    raise Mismatch("extra", "adds %s although the text is over or is not valid" % self.show(j, ev[1]))
                return self.decide(eng, j)
            try:
                self.compare(j, ev[1])
            except Mismatch:
                j.extra = self.bears_on(j, ev[1])
                raise
            self.count(j.ref.pend[0][0])
            if j.ref.pend[0][0] == "Keyword":
                self.kwseen.add(j.ref.pend[0][1])

            def ok(x):
                x.ref.pend = None
                x.env.pending = False
                x.env.push_ok = True
                x.blur = None
                x.hist = {}
                x.drifts = {}
                x.what = "the text after a token"
                eng.forget(x)
            return [("", ok)]
        if k != "ret":
            raise Unsupported("event " + k)
        return self.finish(eng, j, ev[1])

    def finish(self, eng, j, v):
        env, ref, m = j.env, j.ref, self.m
        if v is None or v[0] != "A" or v[2] not in (0, 1):
            raise Unsupported("the result of tokenize")
        if ref.pend is not None:
            raise Mismatch("lost", "returns without adding the token for %s" % self.expect(j))
        if ref.err is not None:
            if v[2] != 1:
                raise Mismatch("error", "returns tokens although a multi-line comment is not closed")
            e = v[3][0]
            if e[0] != "A" or e[1] != self.error or len(e[3]) != 1:
                raise Unsupported("the error returned")
            r = e[3][0]
            self.compare_range(j, r, ref.err[0][1], ref.err[1][1], "the unclosed comment's range")
            self.count("error")
            return None
        if not ref.done:
            j.what = "the text after a token"
            z = env.ix(env.zone)
            if any(e[0] == "ch" or e[2] for e in env.el[z:]) and ref.stage == "token":
                raise Mismatch("lost", "returns %s although the text goes on with %s" % (
                    "an error" if v[2] == 1 else "its tokens", show_set(env.el[z][1])))
            return self.decide(eng, j)
        if v[2] == 1:
            raise Mismatch("error", "returns an error for a text without one")
        q = v[3][0]
        if q != (SEG if env.seg else ("Q", None, ())):
            raise Mismatch("lost", "returns %s instead of the tokens it has found" % (
                "no tokens" if q == ("Q", None, ()) else "other tokens"))
        self.count("end")
        return None

    def expect(self, j):
        kind = j.ref.pend[0]
        return "%s%s" % (kind[0], "(%s)" % kind[1] if len(kind) > 1 else "")

    def compare(self, j, tok):
        env, m = j.env, self.m
        kind, content, start, end = j.ref.pend
        v = tok[3][self.tokf[self.tty]]
        r = tok[3][self.tokf[self.range]]
        if v is None or v[0] != "A":
            raise Unsupported("the type of the token is not known")
        got = m.T(self.tty)["vs"][v[2]]["n"]
        k = kind[0]
        want = {"Int": "Value", "Float": "Value", "String": "Value", "Boolean": "Value", "NOOB": "Value"}.get(k, k)
        if got != want:
            raise Mismatch("kind", "adds %s where the text is %s" % (self.show(j, tok), self.expect(j)))
        what = "the content of " + k
        if k == "Keyword":
            w = v[3][0]
            if w is None or w[0] != "A":
                raise Unsupported("the keyword is not known")
            name = self.kwnames[w[2]]
            if name != kind[1]:
                raise Mismatch("kind", "adds the keyword %s where the text is %s" % (name, kind[1]))
        elif want == "Value":
            w = v[3][0]
            if w is None or w[0] != "A":
                raise Unsupported("the value is not known")
            name = m.T(self.value)["vs"][w[2]]["n"]
            if name != {"Int": "Number", "Float": "Number"}.get(k, k):
                raise Mismatch("kind", "adds a %s value where the text is %s" % (name, self.expect(j)))
            if name == "Number":
                n = w[3][0]
                if n is None or n[0] != "A":
                    raise Unsupported("the number is not known")
                nk = m.T(self.number)["vs"][n[2]]["n"]
                if nk != k:
                    raise Mismatch("kind", "adds a number of kind %s where the text is %s" % (nk, self.expect(j)))
                x = n[3][0]
                if x is None or x[0] != "P":
                    raise Mismatch("value", "the value of the %s number is not parsed from the text: %s" % (k, x))
                if not self.same_number(j, x, content):
                    raise Mismatch("value", "the value of the %s number is parsed from another part of the text" % k)
                if x[1] != {"Int": "i32", "Float": "f32"}[k]:
                    raise Mismatch("value", "the %s number is parsed as %s" % (k, x[1]))
            elif name == "String":
                self.compare_text(j, w[3][0], content, what)
            elif name == "Boolean":
                if w[3][0] != ("i", int(kind[1])):
                    raise Mismatch("value", "%s gives the boolean %s" % ("WIN" if kind[1] else "FAIL", w[3][0]))
        elif content is not None:
            self.compare_text(j, v[3][0], content, what)
        self.compare_range(j, r, start[1], end[1], "the range of " + self.expect(j))

    def bears_on(self, j, tok):
        """A token that is not the expected one: was text skipped or read twice, does the token have no text?"""
        env = j.env
        out = set()
        start, end = j.ref.pend[2][1], j.ref.pend[3][1]
        try:
            r = tok[3][self.tokf[self.range]]
            i = self.posf.index("B")
            a, b = (env.vec(r[3][w][3][i]) for w in (0, 1))
            if env.interval(vadd(b, a, -1))[1] <= 0:
                out |= {"C02", "C03"}
            d = vadd(a, env.fvec("B", start), -1)
            lo, hi = env.interval(d)
            if lo > 0 or hi < 0:
                out |= {"C03", "C04"}
        except (TypeError, KeyError, IndexError):
            pass
        at = env.ix(start)
        starts = set()

        def look(v):
            if v[0] == "V":
                starts.add(env.ix(v[1][1]))
            return v
        k = j.copy()
        k.ref.pend = None
        rewrite_all(k, look)
        if starts and at not in starts and any(x > at for x in starts):
            out.add("C03")
        return out

    def same_number(self, j, x, content):
        env = j.env
        a, b = env.ix(x[2][1]), env.ix(content[1][1])
        if env.ix(x[3][1]) != env.ix(content[2][1]):
            return False
        if a == b:
            return True
        return a == b + 1 and env.el[b][0] == "ch" and env.el[b][1] == 1 << ord("+")

    def compare_text(self, j, v, content, what):
        env = j.env
        while v is not None and v[0] == "R":
            v = self.m.read_ref(j.st, v)
        if v is not None and v[0] == "Str":
            v = v[1]
        if v is None:
            raise Unsupported(what + " is not known")
        l, r = env.ix(content[1][1]), env.ix(content[2][1])
        if v[0] == "V":
            a, b = env.ix(v[1][1]), env.ix(v[2][1])
            if (a, b) == (l, r):
                return
            if a < len(env.el) and r < len(env.el) and env.is_empty(v[1][1], v[2][1]) and \
                    env.is_empty(content[1][1], content[2][1]):
                return
            raise Mismatch("value", "%s is another part of the text than it should be (%s)" % (
                what, ", ".join((["starts %s" % ("later" if a > l else "earlier")] if a != l else []) +
                                (["ends %s" % ("later" if b > r else "earlier")] if b != r else []))))
        if v[0] == "S":
            if all(e[0] == "ch" for e in env.el[l:r]) and len(v[1]) == r - l and \
                    all(ord(c) < 128 and e[1] == 1 << ord(c) for c, e in zip(v[1], env.el[l:r])):
                return
            if env.eq_const(content[1][1], content[2][1], v[1]):
                return
            raise Mismatch("value", "%s is %r, which is not what the text says" % (what, v[1]))
        raise Mismatch("value", "%s is put together from several parts of the text" % what)

    def compare_range(self, j, r, s, e, what):
        env = j.env
        if r is None or r[0] != "A" or r[1] != self.range:
            raise Unsupported("the range of the token is not known")
        for w, b in ((0, s), (1, e)):
            p = r[3][w]
            if p is None or p[0] != "A":
                raise Unsupported("the range of the token is not known")
            for i, f in sorted(enumerate(self.posf), key=lambda x: x[1]):
                x = p[3][i]
                if x is None or x[0] not in ("i", "t"):
                    raise Unsupported("a position that is not known")
                d = vadd(env.vec(x), env.fvec(f, b), -1)
                if not d:
                    continue
                lo, hi = env.interval(d)
                if not (lo > 0 or hi < 0) and len(d) <= 3:
                    chs = {q: 1 for q in d if len(q) == 2 and env.el[env.ix(q[1])][0] == "ch"}
                    if chs:
                        env.ask_symbol(chs)
                field = {"L": "line", "K": "column", "B": "byte", "C": "char"}[f]
                raise Mismatch("range." + field, "%s: the %s of its %s is %s, it should be %s" % (
                    what, field, "start" if w == 0 else "end", self.off(env, x, f, b, d), self.pname(field, w)))

    def pname(self, field, w):
        return "the %s %s" % (field, "where its text starts" if w == 0 else "where its text ends")

    def off(self, env, x, f, b, d):
        if set(d) <= {""}:
            return "%d too %s" % (abs(d[""]), "large" if d[""] > 0 else "small")
        t = env.table()[0]
        v = env.vec(x)
        for bb, fs in t.items():
            if fs[FS.index(f)] == v:
                return "that of another place"
        return "something else"

    def show(self, j, tok):
        m = self.m
        try:
            v = tok[3][self.tokf[self.tty]]
            n = m.T(self.tty)["vs"][v[2]]["n"]
            if n == "Keyword":
                return "the keyword " + self.kwnames[v[3][0][2]]
            if n == "Value":
                return "a %s value" % m.T(self.value)["vs"][v[3][0][2]]["n"]
            return "the token " + n
        except Exception:
            return "a token"

    def classify(self, eng, f):
        k = f.kind
        g = getattr(f.joint, "what", "")
        own = {"keyword": ["C05", "C06"], "literal": ["C07"], "word": ["C06", "C07"], "identifier": ["C08"], "punct": ["C08"],
               "comment": ["C08"], "number": ["C07"], "string": ["C07"]}.get(g, [])
        if k == "panic":
            f.props = ["C01"]
        elif k == "nontermination":
            f.props = ["C02"]
        elif k.startswith("range."):
            f.props = ["C04"] + (["C03"] if k == "range.byte" else []) + (own if k == "range.byte" else []) + (["C08"] if "unclosed" in f.message else [])
        elif k == "kind":
            f.props = list(own)
            if "keyword" in f.message or "Keyword" in f.message:
                f.props += ["C05", "C06"]
            if "value" in f.message or "number" in f.message:
                f.props += ["C07"]
            f.props += ["C08"] if "Identifier" in f.message or "Symbol" in f.message or not own else []
        elif k == "value":
            f.props = list(own) or ["C07", "C08"]
        elif k == "error":
            f.props = ["C08"]
        elif k in ("lost", "extra"):
            f.props = ["C03"] + (own or ["C08"])
        if k in ("kind", "lost"):
            f.props.append("C29")
        f.props = sorted(set(f.props) | set(f.joint.extra))

    def construct(self, j):
        return getattr(j, "what", "the text")


class Refine(Exception):
    """A finding that may be due to a summary: where that was made."""


MERGED = ("merged",)      # characters in the text ahead were merged: a finding after it may be due to that


class LexEngine(Engine, Turns):
    exact = frozenset()
    word_limit = 30

    def explore(self, init):
        self.seen0 = set()
        self.refuted = {}
        self.chased = 0
        self.words = {}
        self.turns_init()
        Engine.explore(self, init)

    def report(self, kind, msg, j, stack=None):
        for x in (j.coarse, j.blur):
            if x is not None and x is not MERGED:
                raise Refine(x)
        if j.blur is MERGED:
            Engine.give_up(self, Unsupported("scanning on while a token is still to be added (%s)" % msg), j)
            return
        Engine.report(self, kind, msg, j, stack)
        if kind in ("kind", "value") or kind.startswith("range."):
            self.chase(j)

    def chase(self, j):
        """After a wrong token: does the code get any further at all?"""
        if self.chased > 30 or j.ev is None or j.ev[0] != "push":
            return
        self.chased += 1
        k = j.copy()
        k.ev = None
        k.extra = ()
        k.env.push_ok = True
        work, n = [k], 0
        while work and n < 80:
            n += 1
            k = work.pop()
            try:
                k.st.steps = 0
                self.m.run(k.st)
            except NoProgress as e:
                Engine.report(self, "nontermination", str(e), k)
                return
            except Split as s:
                for _, fn in s.options:
                    x = k.copy()
                    fn(x.st)
                    if not getattr(x.env, "dead", False):
                        work.append(x)
            except Event as e:
                if e.kind not in ("mat", "opts"):
                    continue
                try:
                    outs = k.env.mat_options(e.args[0]) if e.kind == "mat" else e.args[0]
                except (Event, Unsupported, Mismatch):
                    continue
                for _, fn in outs:
                    x = k.copy()
                    fn(x)
                    if not getattr(x.env, "dead", False):
                        work.append(x)
            except (Panic, Unsupported, LookupError, TypeError, ValueError, AttributeError, AssertionError):
                continue

    def give_up(self, e, j):
        for x in (j.coarse, j.blur):
            if x is not None and x is not MERGED:
                raise Refine(x)
        Engine.give_up(self, e, j)

    # ---- normal form
    def live(self, j):
        k, rn = canon(j.st)
        self.prune(j, rn)
        return k

    def prune(self, j, rn):
        st = j.st
        for d, fr in enumerate(st.frames):
            for i in range(len(fr.locals)):
                if fr.locals[i] is not None and (d, i) not in rn.cells:
                    fr.locals[i] = None
        live = set(rn.heap)
        for h in list(st.heap):
            if h not in live:
                del st.heap[h]

    def anchors(self, j):
        """Boundaries that values refer to, other than inside terms; and the terms."""
        env = j.env
        hard, terms, chars = set(), [], set()

        def f(v):
            if v[0] == "t":
                terms.append(v)
            else:
                hard.add(v[1])
            return v

        def see(v):
            if type(v) is not tuple or not v:
                return
            if v[0] in ("c", "co") and len(v) > 1 and bd_of(v[1]):
                chars.add(v[1][1])
            for x in v:
                if type(x) is tuple:
                    see(x)
        rewrite_all(j, f)
        for fr in j.st.frames:
            for v in fr.locals:
                see(v)
            if isinstance(fr, NFrame):
                see(fr.pending)
        for v in j.st.heap.values():
            see(v)
        return hard, terms, chars

    def resolve_aliases(self, j):
        env = j.env

        def f(v):
            if v[0] == "t":
                return env.mk(v[1], v[2])
            return ("bd", env.root(v[1]))
        rewrite_all(j, f)
        env.parses = {(t, env.root(a), env.root(b)): x for (t, a, b), x in env.parses.items()}
        env.pins = tuple(env.root(b) for b in env.pins)
        env.orgs = dict(env.orgs)
        if env.zone is not None:
            env.zone = env.root(env.zone)
        if env.sure is not None:
            env.sure = (env.root(env.sure[0]), env.sure[1])
        if env.cur is not None:
            env.cur = env.root(env.cur)
            if env.cur not in env.bd:
                env.cur = None
        for k, (cur, snap, key) in list(j.hist.items()):
            if cur is not None:
                cur = env.root(cur)
            j.hist[k] = (cur if cur in env.bd else None, snap, key)
        env.alias = {}

    def tie_positions(self, j, anchors):
        """Known numbers in positions become what they mean, where they are what they should be."""
        env, d, m = j.env, self.d, self.m
        t = env.table()[0]

        def fix(v):
            if type(v) is not tuple or not v:
                return v
            if v[0] == "A" and v[1] == d.pos:
                fs = list(v[3])
                order = list(anchors)
                for i, f in enumerate(d.posf):
                    x = fs[i]
                    if x is not None and x[0] == "t":
                        vec = env.vec(x)
                        for b in anchors:
                            if t[b][FS.index(f)] == vec:
                                order = [b] + [y for y in order if y != b]
                                break
                for i, f in enumerate(d.posf):
                    x = fs[i]
                    if x is not None and (x[0] == "i" or x[0] == "t" and (len(x[2]) != 1 or x[2][0][1] != f)):
                        c = env.vec(x)
                        for b in order:
                            if t[b][FS.index(f)] == c:
                                fs[i] = ("t", 0, ((1, f, ("bd", b)),))
                                break
                return v[:3] + (tuple(fs),)
            if v[0] in ("i", "S", "F", "t"):
                return v
            return tuple([fix(x) if type(x) is tuple else x for x in v])
        self.map_values(j, fix)

    def map_values(self, j, fix):
        st = j.st
        for fr in st.frames:
            for i, v in enumerate(fr.locals):
                if v is not None:
                    fr.locals[i] = fix(v)
            if isinstance(fr, NFrame) and fr.pending is not None:
                fr.pending = fix(fr.pending)
        for h in list(st.heap):
            if st.heap[h] is not None:
                st.heap[h] = fix(st.heap[h])

    def reexpress(self, j, hard):
        """Terms over boundaries that stay; returns the further boundaries needed."""
        env = j.env
        t = env.table()[0]
        anchors = [b for b in env.bd if b in hard]
        # what is said of decided text must not depend on the text after it
        zi = env.ix(env.zone) if env.zone is not None else len(env.bd)
        late = list(reversed(anchors))
        early = [b for b in late if env.ix(b) <= zi] + [b for b in late if env.ix(b) > zi]
        extra = set()
        cache = {}

        def f(v):
            if v[0] != "t":
                return v
            r = cache.get(v)
            if r is None:
                r = cache[v] = express(v)
            return r

        def const(a, b):
            d = vadd(a, b, -1)
            if not d:
                return 0
            if len(d) == 1 and "" in d:
                return d[""]
            return None

        def express(v):
            vec = env.vec(v)
            order = early if any(env.ix(b[1]) <= zi for _, _, b in v[2]) else late
            own = []
            for c, ff, b in v[2]:
                if ff not in own:
                    own.append(ff)
            fs = own + [x for x in FS if x not in own]
            best = None
            base = any(len(s) == 1 for s in vec) or env.origin
            if base:
                for ff in fs:
                    q = FS.index(ff)
                    for b in order:
                        k = const(vec, t[b][q])
                        if k == 0:
                            return ("t", 0, ((1, ff, ("bd", b)),))
                        if k is not None and ff in own and best is None:
                            best = ("t", k, ((1, ff, ("bd", b)),))
            if not base or env.origin:
                if not vec:
                    return ("i", 0)
                if set(vec) - {""} or "K" in own:
                    for b in order:
                        k = const(vec, t[b][FS.index("K")])
                        if k == 0:
                            return ("t", 0, ((1, "K", ("bd", b)),))
                        if k is not None and "K" in own and best is None:
                            best = ("t", k, ((1, "K", ("bd", b)),))
                for ff in fs:
                    q = FS.index(ff)
                    for x in order:
                        for y in anchors:
                            if x == y:
                                continue
                            k = const(vec, vadd(t[x][q], t[y][q], -1))
                            if k == 0:
                                return env.mk(0, ((1, ff, ("bd", x)), (-1, ff, ("bd", y))))
                            if k is not None and ff in own and best is None and set(vec) != {""}:
                                best = env.mk(k, ((1, ff, ("bd", x)), (-1, ff, ("bd", y))))
                if set(vec) == {""} and best is None:
                    return ("i", vec[""])
            if best is not None:
                return best
            if all(b[1] in hard for _, _, b in v[2]):
                return v
            if base:
                near = None
                for ff in fs:
                    q = FS.index(ff)
                    for g in fs:
                        for z in anchors:
                            rest = vadd(vec, t[z][FS.index(g)], -1)
                            for x in order:
                                for y in anchors:
                                    k = const(rest, vadd(t[x][q], t[y][q], -1))
                                    if k is not None and (k == 0 or near is None):
                                        near = env.mk(k, ((1, g, ("bd", z)), (1, ff, ("bd", x)), (-1, ff, ("bd", y))))
                                        if k == 0:
                                            return near
                if near is not None:
                    return near
            for _, _, b in v[2]:
                extra.add(b[1])
            return v
        rewrite_all(j, f)
        # boundaries of terms are kept as well: they carry the numbers
        need = set()

        def g(v):
            if v[0] == "t":
                for _, _, b in v[2]:
                    need.add(b[1])
            return v
        rewrite_all(j, g)
        return need

    def cp(self, j):
        out = []
        for fr in j.st.frames:
            out.append((fr.body.ix, fr.bb, fr.si) if isinstance(fr, Frame) else (fr.kind, str(fr.data.get("op", ""))))
        return tuple(out)

    def ints(self, j):
        out = {}
        for d, fr in enumerate(j.st.frames):
            if isinstance(fr, Frame):
                for i, v in enumerate(fr.locals):
                    if v is not None and v[0] in ("i", "A", "t"):
                        for path, n in leaves(self.m, fr.body.locals[i], v, ()):
                            out[(d, i) + path] = n
        return out

    def tie(self, j, cp, anchors):
        """Counters: numbers that changed since this point was last passed."""
        env = j.env
        now = self.ints(j)
        pcur, old, _ = j.hist[cp]
        t = env.table()[0]
        cur = env.cur
        for path, n in now.items():
            o = old.get(path)
            if o is None:
                continue
            if type(n) is tuple or type(o) is tuple:
                self.drift(j, cp, path, n != o)
                continue
            bad = self.refuted.setdefault((cp, path), set())
            if pcur is not None and cur is not None and pcur in t and cur in t:
                for q, f in enumerate(FS):
                    dl = vadd(t[cur][q], t[pcur][q], -1)
                    if not set(dl) - {""} and dl.get("", 0) != n - o:
                        bad.add(f)
            if o == n:
                self.drift(j, cp, path, False)
                continue
            done = False
            for f in "CBLK":
                if f in bad or done:
                    continue
                q = FS.index(f)
                for x in reversed(anchors):
                    for y in anchors:
                        if x == y:
                            continue
                        dv = vadd(t[x][q], t[y][q], -1)
                        if dv and not set(dv) - {""}:
                            k = n - dv[""]
                            val = env.mk(k, ((1, f, ("bd", x)), (-1, f, ("bd", y))))
                            fr = j.st.frames[path[0]]
                            fr.locals[path[1]] = put(fr.locals[path[1]], path[2:], val)
                            done = True
                            break
                    if done:
                        break
            self.drift(j, cp, path, not done)

    def drift(self, j, cp, path, changed):
        """A number that goes on changing in a way that the text does not explain becomes unknown."""
        key = (cp, path)
        if not changed:
            return
        n = j.drifts[key] = j.drifts.get(key, 0) + 1
        fr = j.st.frames[path[0]]
        at, v = None, fr.locals[path[1]]
        for q in path[2:]:
            at, v = v, v[3][q]
        if n >= (self.DRIFT if at is not None and at[1] == self.d.pos else 200):
            fr.locals[path[1]] = put(fr.locals[path[1]], path[2:], LOST)

    DRIFT = 12

    def merge(self, j, keep, chars):
        env = j.env
        z = env.ix(env.zone) if env.zone is not None else len(env.el)
        bd, el = [env.bd[0]], []
        i, n = 0, len(env.el)
        passed = n
        if not env.back:
            passed = env.ix(env.cur) if env.cur is not None else 0
        changed = False
        while i < n:
            e = env.el[i]
            org = e[3] if e[0] == "run" else e[2]
            full = env.orgs.get(org) if env.bd[i] not in chars else None
            k = i
            units, mn, flags, chs, runs = {}, 0, None, 0, 0
            if full is not None:
                while k < n:
                    if k > i and env.bd[k] in keep:
                        break
                    x = env.el[k]
                    if (x[3] if x[0] == "run" else x[2]) != org:
                        break
                    if x[0] == "run":
                        if x[5] is not None:
                            break
                        for a in x[1]:
                            self.join(units, a)
                        mn |= x[2]
                        fl = x[4]
                        runs += 1
                        k2 = k + 1
                    else:
                        alt, q, ln = x[3]
                        grp = env.el[k:k + ln]
                        if q != 0 or len(grp) < ln or any(
                                y[0] != "ch" or y[2] != org or y[3] != (alt, w, ln) for w, y in enumerate(grp)) or \
                                any(env.bd[k + w] in keep for w in range(1, ln)):
                            break
                        self.join(units, tuple(y[1] for y in grp))
                        mn = 1
                        fl = set(grp[0][4])
                        for y in grp:
                            fl &= set(y[4])
                        fl = tuple(sorted(fl))
                        chs += 1
                        k2 = k + ln
                    flags = fl if flags is None else tuple(sorted(set(flags) & set(fl)))
                    k = k2
            if k > i and chs and k > passed:
                # characters that are known but not passed yet
                k = i + 1
                runs = chs = 0
            if k > i and (chs or runs > 1):
                us = tuple(self.widen(units[ln], full) for ln in sorted(units))
                el.append(run(us, mn, org, flags))
                bd.append(env.bd[k])
                changed = True
                if env.pending and j.blur is None and i >= env.ix(env.zone):
                    j.blur = MERGED
                i = k
                continue
            el.append(e)
            bd.append(env.bd[i + 1])
            i += 1
        if changed:
            env.bd, env.el = tuple(bd), tuple(el)

    def join(self, units, a):
        o = units.get(len(a))
        units[len(a)] = a if o is None else tuple(x | y for x, y in zip(o, a))

    def widen(self, a, full):
        """The characters of a unit, together with all that count alike."""
        tot = [0] * len(a)
        for f in full:
            if len(f) == len(a):
                tot = [x | y for x, y in zip(tot, f)]
        out = []
        for c, f in zip(a, tot):
            f |= c
            r = c
            if c & ASCII & ~NL:
                r |= f & ASCII & ~NL
            for n in (2, 3, 4):
                if c & LEN[n]:
                    r |= f & LEN[n]
            out.append(r)
        return tuple(out)

    def drop_prefix(self, j, keep):
        env = j.env
        i = min([env.ix(b) for b in keep if b in env.bd] or [0])
        if i > 0:
            env.bd = env.bd[i:]
            env.el = env.el[i:]
            env.origin = False

    def renumber(self, j):
        env = j.env
        n = {b: i for i, b in enumerate(env.bd)}

        def f(v):
            if v[0] == "t":
                return ("t", v[1], tuple(sorted((c, ff, ("bd", n[b[1]])) for c, ff, b in v[2])))
            return ("bd", n[v[1]])
        rewrite_all(j, f)
        env.parses = {(t, n[a], n[b]): x for (t, a, b), x in env.parses.items() if a in n and b in n}
        env.pins = tuple(n[b] for b in env.pins if b in n)
        env.zone = n[env.zone] if env.zone is not None else None
        if env.sure is not None:
            env.sure = (n[env.sure[0]], env.sure[1]) if env.sure[0] in n else None
        env.cur = n.get(env.cur)
        for k, (cur, snap, key) in list(j.hist.items()):
            j.hist[k] = (n.get(cur), snap, key)
        orgs, els = {}, []
        for e in env.el:
            o = e[3] if e[0] == "run" else e[2]
            if o is not None and o in env.orgs:
                if o not in orgs:
                    orgs[o] = len(orgs)
                o = orgs[o]
            else:
                o = None
            els.append(e[:3] + (o,) + e[4:] if e[0] == "run" else e[:2] + (o,) + e[3:])
        env.orgs = {orgs[o]: u for o, u in env.orgs.items() if o in orgs}
        env.el = tuple(els)
        env.bd = tuple(range(len(env.bd)))
        env.nid = len(env.bd) + len(orgs) + 1
        env._ev = None

    def normalise(self, j):
        env = j.env
        self.settle(j)
        before = self.live(j)
        self.resolve_aliases(j)
        hard, terms, chars = self.anchors(j)
        hard |= {env.end()}
        if env.zone is not None:
            hard.add(env.zone)
        cp = self.cp(j)
        pins = {b for b in env.pins if b in env.bd}
        for b in chars:
            hard.add(b)
            if env.ix(b) < len(env.el):
                hard.add(env.nxt(b))
        if env.pending and env.sure is not None and ("ahead", cp) not in self.exact and \
                sum(type(x) is tuple and x[0] == "ahead" for x in self.exact) < 4:
            # what was only looked up in the text ahead, and that nothing refers to any more
            i = env.ix(env.sure[0])
            used = hard | pins | {b[1] for t in terms for _, _, b in t[2]}
            end = env.end()
            if i < len(env.el) and env.bd[i] not in chars and not any(b in used for b in env.bd[i + 1:-1]) and \
                    not (end in pins and any(b in pins for b in env.bd[:-1])):
                new = env.rest(env.sure[1])
                if j.blur is None and (len(env.el) > i + 1 or env.el[i][:3] + env.el[i][4:] != new[:3] + new[4:]):
                    j.blur = ("ahead", cp)
                env.bd = env.bd[:i + 1] + (end,)
                env.el = env.el[:i] + (new,)
        if env.pending and self.summarise_word(j, cp, hard | pins | {b[1] for t in terms for _, _, b in t[2]}, chars):
            before = self.live(j)
        # an operation that is tried again is not another turn of a loop
        again = cp in j.hist and j.hist[cp][2] == before
        wide = cp in j.hist and not again
        for b in list(hard):
            if b not in env.bd:
                raise Unsupported("internal: dead boundary")
        order = [b for b in reversed(env.bd) if b in hard | pins]
        drop = wide or env.ix(min(hard, key=env.ix)) > 0
        if drop:
            self.tie_positions(j, order)
        if wide:
            self.tie(j, cp, [b for b in env.bd if b in hard | ({env.cur} if env.cur in env.bd else set())])
        snap = self.ints(j)
        need = self.reexpress(j, hard)
        keep = hard | need | pins | ({env.sure[0]} if env.sure is not None else set())
        keep = {b for b in keep if b in env.bd}
        if wide:
            self.merge(j, keep, chars)
        self.drop_prefix(j, keep)
        if not again:
            j.hist[cp] = (env.cur, snap, None)
        self.renumber(j)
        k, rn = canon(j.st)
        j.hist[cp] = j.hist[cp][:2] + (k,)
        return (k, env.bd, env.el, env.zone, env.pending, env.origin, env.given, tuple(sorted(env.parses.items())),
                j.ref.key(), env.push_ok, env.seg, tuple(sorted(env.orgs.items())), self.remember(j))

    def summarise_word(self, j, cp, used, chars):
        """Where very many different identifiers come along, they become one: an identifier. This may
        be too coarse (a keyword test may still come): a finding after it only says where not to do it."""
        env, ref = j.env, j.ref
        if ref.pend is None or ref.pend[0] != ("Identifier",) or cp in self.exact or env.zone is None:
            return False
        a, z = env.ix(ref.pend[2][1]), env.ix(env.zone)
        end = len(env.el)
        if any(b in used for b in env.bd[a + 1:z]) or env.bd[a] in chars:
            return False
        tail = z < end and not any(b in used for b in env.bd[z + 1:-1]) and env.bd[z] not in chars
        word = tuple(e[:2] for e in (env.el[a:] if tail else env.el[a:z]))
        known = self.words.setdefault(cp, set())
        if len(known) <= self.word_limit:
            known.add(word)
            return False
        o = env.fresh()
        env.orgs = dict(env.orgs)
        env.orgs[o] = ((IDENT,),)
        els = (ch(IDENT & ~DIGIT), run(((IDENT,),), org=o))
        bds = (env.bd[a], env.fresh(), env.bd[z])
        after = env.el[z:]
        if tail:
            after = (env.rest(ALL & ~IDENT),)
        if tuple(e[:2] for e in els + (after if tail else ())) == word:
            return False
        env.bd = env.bd[:a] + bds + ((env.end(),) if tail else env.bd[z + 1:])
        env.el = env.el[:a] + els + after
        env.sure = (bds[2], ALL & ~IDENT) if z < end else None
        if env.cur not in env.bd:
            env.cur = None
        if j.coarse is None:
            j.coarse = cp
        return True

    def forget(self, j):
        """What is known of the text after a token, except where values refer to it."""
        env = j.env
        self.settle(j)
        self.live(j)
        self.resolve_aliases(j)
        hard, terms, chars = self.anchors(j)
        z = env.ix(env.zone)
        for b in list(chars):
            if env.ix(b) < len(env.el):
                hard.add(env.nxt(b))
        self.reexpress(j, hard | {env.zone, env.end()})
        for v in self.anchors(j)[1]:
            hard |= {b[1] for _, _, b in v[2]}
        n = max([z] + [env.ix(b) for b in hard if b != env.end()] + [env.ix(b) + 1 for b in chars if b != env.end()])
        if n < len(env.el):
            env.bd = env.bd[:n + 1] + (env.end(),)
            env.el = env.el[:n] + (env.rest(),)
        env.pins = tuple(b for b in env.pins if b in env.bd)
        env.sure = None

    def before_decision(self, j):
        """Generalises a state whose next piece of text is to be decided; True if it was met before."""
        env, ref = j.env, j.ref
        self.settle(j)
        self.live(j)
        self.resolve_aliases(j)
        hard, terms, chars = self.anchors(j)
        z = env.ix(env.zone)
        if ref.stage != "token":
            n = z
            while n < len(env.el) and env.el[n][0] == "ch":
                n += 1
            for b in env.bd[n + 1:-1]:
                if b in hard:
                    raise Unsupported("the text ahead is looked at before the tokens in it are")
            end = env.end()
            first = None
            if ref.stage == "nows" and n == z:
                first = ALL & ~WS
            if n < len(env.el):
                env.bd = env.bd[:n + 1] + (end,)
                env.el = env.el[:n] + (env.rest(first),)
            # terms must not refer to what was dropped
            def chk(v):
                if v[0] == "t" and any(b[1] not in env.bd for _, _, b in v[2]):
                    raise Unsupported("the text ahead is counted before the tokens in it are")
                return v
            rewrite_all(j, chk)
            j.hist = {}
            j.drifts = {}
            env.cur = None
            env.pins = ()
            if env.origin:
                self.tie_positions(j, [b for b in reversed(env.bd) if b in hard | {env.zone}])
                env.origin = False
        key = self.normalise(j)
        if key in self.seen0:
            return True
        self.seen0.add(key)
        return False


def entry(p):
    """The tokenizer: the public function from a String to tokens or an error."""
    tok, err = find_adt(p, "Token"), find_adt(p, "TokenError")
    out = []
    for x in p.insts:
        if x.body is not None and x.kind == "item" and x.path.split("::")[-1] == "tokenize":
            b = p.bodies[x.body]
            if b.argc == 1:
                out.append(x)
    if len(out) != 1:
        raise Unsupported("the function tokenize was not found")
    return out[0]


def analyse(p, **kw):
    if text.ALL != ALL:
        raise RuntimeError("text.configure must come before this module is imported")
    m = Interp(p)
    m.STEP_LIMIT = 200000
    d = LexDomain(m, p)
    e = entry(p)
    exact = set()
    while True:
        d.obligations, d.alts = {}, 0
        env = LexEnv(d.token)
        b0, b1 = env.fresh(), env.fresh()
        env.bd = (b0, b1)
        env.el = (run(((ALL,),)),)
        env.origin = True
        env.zone = b0
        st = State(env)
        arg = p.types[p.bodies[e.body].locals[1]]
        v = ("V", ("bd", b0), ("bd", b1))
        m.push_body(st, e, [("Str", v) if arg["k"] == "adt" else v], None)
        eng = LexEngine(m, d, **kw)
        eng.exact = frozenset(exact)
        try:
            eng.explore(LexJoint(st, LexRef()))
        except Refine as r:
            exact.add(r.args[0])
            continue
        d.refined = exact
        return m, d, eng
