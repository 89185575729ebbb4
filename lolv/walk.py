"""C23, C24, C25: token iterators, ranges and error iterators of AST nodes.

Each iterator is run, call of `next` by call of `next`, on a symbolic node: nothing is known of the node but
what the code has asked. What it yields is compared with the leaves of the node in source order. The
iterator of a nested node is taken to be right (it is checked itself; nodes are finite, so this is an
induction on their size): it is opaque, yields one or more leaves of the nested node and then ends for
good. The joint state of iterator and expected leaves is explored to a fixed point.
"""
import time

from . import natives
from .core import Result, Violation
from .interp import Interp, NFrame, NoProgress, NullEnv, Panic, Split, State, Unsupported, canon
from .parserdom import find_adt

# source order of the parts of a node (by name; parts without leaves do not matter)
ORDER = {
    "Identifier": ("srs", "name"),
    "VariableAccessSlot": ("slot_access_token", "identifier"),
    "VariableAccess": ("identifier", "accesses"),
    "BinaryOperation": ("operator", "left", "an_token", "right"),
    "UnaryOperation": ("operator", "expression"),
    "NaryOperationOperand": ("operand", "an_token"),
    "NaryOperation": ("operator", "expressions", "mkay_token"),
    "VariableAssignment": ("variable_access", "r_token", "expression"),
    "Wtf": ("omg", "omg_wtf"),
    "ORly": ("if_true", "mebbes", "if_false"),
}
SEQS = ("std::vec::Vec", "std::collections::VecDeque")


class Mismatch(Exception):
    pass


class Cut(Exception):
    pass


class AstEnv(NullEnv):
    """What is known of the node: the variant of enums, the length of lists, which nested iterators ended."""

    def __init__(self, dom):
        self.dom = dom
        self.known = {}
        self.lists = {}
        self.ended = frozenset()
        self.gave = frozenset()           # nested iterators that yielded something (leaves need not be there)
        self.asked = {}                   # how often nested iterators were asked in this call
        self.behind = frozenset()         # elements of lists that are behind
        self.owner = {}
        self.nid = 1
        self.cell = None

    def copy(self):
        e = AstEnv.__new__(AstEnv)
        e.dom = self.dom
        e.known = dict(self.known)
        e.lists = dict(self.lists)
        e.ended = self.ended
        e.gave = self.gave
        e.asked = dict(self.asked)
        e.behind = self.behind
        e.owner = dict(self.owner)
        e.nid = self.nid
        e.cell = self.cell
        return e

    def variants(self, m, st, d):
        s = self.known.get(d[1:4])
        if s is None:
            t = m.p.types[d[4]]
            s = frozenset(range(len(t["vs"]))) if t.get("enum") else frozenset([0])
        return s

    def restrict(self, m, st, d, vs):
        self.known[d[1:4]] = frozenset(vs)

    def known_variant(self, m, st, d):
        vs = self.variants(m, st, d)
        if len(vs) != 1:
            m.split_variants(st, d)
        return next(iter(vs))

    def project(self, m, st, d, variant, i, ty):
        d = ("D", d[1], d[2], d[3] + ((variant, i),), ty)
        t = m.p.types[ty]
        if t["k"] == "adt" and t.get("box"):
            return ("B", st.alloc(d[:4] + (t["args"][0],)))
        if t["k"] == "adt" and t.get("path") in SEQS:
            return self.listed(d)
        return d

    def listed(self, d):
        """The list d, with its elements."""
        key = d[1:4]
        if key not in self.lists:
            most = self.dom.most(self, d)
            def of(n):
                def f(s):
                    e = s.env
                    e.lists[key] = tuple(range(e.nid, e.nid + n))
                    for x in e.lists[key]:
                        e.owner[x] = key
                    e.nid += n
                return f
            raise Split([("%s has %d elements" % (self.describe(None, d), n), of(n)) for n in range(most + 1)])
        el = self.dom.p.types[d[4]]["args"][0]
        return ("Q", None, tuple(("D", "a", x, (), el) for x in self.lists[key]))

    def element(self, m, st, v, e):
        raise Unsupported("element of a part of the node")

    def describe(self, m, d):
        return self.dom.name(self, d)

    def assume(self, st, key, val):
        self.known[key] = val

    def native(self, ctx, inst, name, args):
        raise Unsupported("string operation " + inst.path)


def top_step(m, st, fr):
    if fr.pending is None:
        m.call_inst(st, fr.data["inst"], list(fr.locals), None)
    else:
        m.native_return(st, fr.pending[1])


natives.RESUME["top"] = top_step


class Dom:
    """One function (tokens, range, iter_errors) of one type of node."""

    def __init__(self, p, what, leaf, least, lengths, inner, total):
        self.p = p
        self.what = what
        self.leaf = leaf                  # type of the leaves
        self.least = least                # leaves a nested node has at least
        self.lengths = lengths            # bound of the length of lists
        self.inner = inner                # bound of the number of lists around a list
        self.total = total                # bound of the number of elements of all lists not yet behind
        self.m = Interp(p)
        self.m.STEP_LIMIT = 20000
        self.nexts = {x["next"] for x in p.iters}
        self.fns = {}
        for i, x in enumerate(p.insts):
            if x.local and x.body is not None and x.path.split("::")[-1] == what:
                b = p.bodies[x.body]
                if b.argc == 1 and p.types[b.locals[1]]["k"] == "ref":
                    t = p.types[b.locals[1]]["to"]
                    if p.types[t]["k"] == "adt" and p.types[t].get("local"):
                        self.fns[i] = t
        for i in self.fns:
            self.m.prims[i] = self.nested
        if what == "range":
            # ranges taken from the tokens of a part
            for x in p.iters:
                if p.insts[x["fn"]].path.split("::")[-1] == "tokens":
                    self.m.prims[x["fn"]] = self.nested_tokens
        for i in self.nexts:
            self.m.prims[i] = self.next
        self.root = ("D", "a", 0, ())
        self._has = {}
        self.opaque_used = 0

    # ---- types
    def has_leaf(self, ty, seen=()):
        r = self._has.get(ty)
        if r is None:
            x = self.p.types[ty]
            if ty == self.leaf:
                r = True
            elif ty in seen or x["k"] != "adt":
                r = False
            elif x.get("local"):
                r = any(self.has_leaf(f[1], seen + (ty,)) for v in x["vs"] for f in v["f"])
            else:
                r = any(self.has_leaf(a, seen + (ty,)) for a in x.get("args", ()) if type(a) is int)
            if r or not seen:
                self._has[ty] = r
        return r

    def short(self, ty):
        return (self.p.types[ty].get("path") or self.p.types[ty]["n"]).split("::")[-1]

    def depth(self, env, d):
        n, i = 0, d[2]
        while i in env.owner:
            n += 1
            i = env.owner[i][1]
        return n

    def most(self, env, d):
        if self.depth(env, d) > self.inner:
            return 0
        return max(0, min(self.lengths, self.total - sum(x not in env.behind for xs in env.lists.values() for x in xs)))

    def name(self, env, d):
        parts = []
        while True:
            i, path = d[2], d[3]
            for x in reversed(path):
                parts.append(str(x[1]) if type(x) is tuple else x)
            if i not in env.owner:
                break
            k = env.owner[i]
            parts.append("[%d]" % env.lists[k].index(i))
            d = ("D",) + k + (None,)
        out = "node" + "".join(x if x[0] == "[" else "." + x for x in reversed(parts))
        return out

    def title(self, env, d):
        """The datum by the names of its fields."""
        chain = [d]
        while chain[-1][2] in env.owner:
            chain.append(("D",) + env.owner[chain[-1][2]] + (None,))
        ty, out = self.root_ty, self.short(self.root_ty)
        for n, x in enumerate(reversed(chain)):
            if n:
                k = env.owner[x[2]]
                out += "[%d]" % env.lists[k].index(x[2])
                ty = self.p.types[ty]["args"][0]
            for step in x[3]:
                if type(step) is not tuple:
                    return out + " (%s leaf of it)" % step if step in ("first", "more") else out + " (%s of it)" % step
                while self.p.types[ty].get("box"):
                    ty = self.p.types[ty]["args"][0]
                v, i = step
                t = self.p.types[ty]
                if t["k"] != "adt" or v >= len(t.get("vs", ())):
                    return out + "..."
                f = t["vs"][v]["f"][i]
                if t.get("enum"):
                    out += " as " + t["vs"][v]["n"]
                    if len(t["vs"][v]["f"]) > 1 or not f[0].isdigit():
                        out += "." + f[0]
                else:
                    out += "." + f[0]
                ty = f[1]
        return out

    # ---- nested nodes
    def sub(self, st, r):
        """The nested node a reference points to, or None."""
        v = r
        for _ in range(4):
            if v is None or v[0] not in ("R", "B"):
                break
            v = self.m.read_ref(st, v)
        if v is not None and v[0] == "D" and v[1] == "a" and (v[2], v[3]) != (0, ()):
            return v
        return None

    def nested_tokens(self, m, st, inst, args):
        d = self.sub(st, args[0])
        return NotImplemented if d is None else ("It", "child", d, 0)

    def nested(self, m, st, inst, args):
        d = self.sub(st, args[0])
        if d is None:
            return NotImplemented
        self.opaque_used += 1
        if self.what == "range":
            ty = m.p.bodies[inst.body].locals[0]
            t = m.p.types[ty]
            if t["k"] != "tuple" or len(t["f"]) != 2:
                return NotImplemented
            pt = m.p.types[t["f"][0]].get("to")
            return ("A", ty, 0, tuple(("R", ("C", ("D", "a", d[2], d[3] + (w,), pt)), (), None) for w in ("start", "end")))
        return ("It", "child", d, 0)

    def next(self, m, st, inst, args):
        r = args[0]
        it = m.read_ref(st, r)
        if it is None or it[0] != "It" or it[1] != "child":
            return NotImplemented
        d, phase = it[2], it[3]
        rty = inst.ret if inst.body is None else m.p.bodies[inst.body].locals[0]
        if rty is None:
            rty = natives.ret_type(m, inst.ix)
        key = d[1:4]
        if phase == 2 and self.what != "range":
            return ("A", rty, 0, ())
        if self.what == "range":
            return self.next_of_part(st, r, d, phase, rty)
        some = phase + 10
        n = st.env.asked.get(key, 0)
        if n >= 3:
            # the leaves are collected: bounded number of leaves of nested nodes
            st.env.ended |= {key}
            m.write_ref(st, r, ("It", "child", d, 2))
            return ("A", rty, 0, ())
        if phase == 1 or self.least == 0:
            a = st.env.known.get(("more", key))
            if a is None:
                raise Split([("the iterator of %s yields another" % self.title(st.env, d), lambda s: s.env.assume(s, ("more", key), 1)),
                             ("the iterator of %s ends" % self.title(st.env, d), lambda s: s.env.assume(s, ("more", key), 0))])
            del st.env.known[("more", key)]
            if not a:
                st.env.ended |= {key}
                m.write_ref(st, r, ("It", "child", d, 2))
                return ("A", rty, 0, ())
        st.env.asked[key] = n + 1
        if self.least == 0:
            st.env.gave |= {key}
        m.write_ref(st, r, ("It", "child", d, 1))
        x = ("D", "a", d[2], d[3] + ("first" if some == 10 else "more",), self.leaf)
        return ("A", rty, 1, (("R", ("C", x), (), None),))

    def next_of_part(self, st, r, d, phase, rty):
        """The tokens of a part, for its range: one or two."""
        n = st.env.known.get(("n",) + d[1:4])
        if phase == 1 and n is None:
            def put(k):
                return lambda s: s.env.assume(s, ("n",) + d[1:4], k)
            raise Split([("%s has %s" % (self.title(st.env, d), "one token" if k == 1 else "more tokens"), put(k)) for k in (1, 2)])
        if phase == 2 or phase and phase == n:
            self.m.write_ref(st, r, ("It", "child", d, 2))
            return ("A", rty, 0, ())
        self.m.write_ref(st, r, ("It", "child", d, phase + 1))
        return ("A", rty, 1, (("R", ("C", ("D", "a", d[2], d[3] + ("more" if phase else "first",), self.leaf)), (), None),))

    # ---- the expected leaves
    def under(self, env, out, d):
        if out is None:
            return False
        i, path = out[2], out[3]
        while True:
            if i == d[2]:
                return path[:len(d[3])] == d[3]
            if i not in env.owner:
                return False
            _, i, path = env.owner[i]

    def parts(self, st, d, force):
        """The parts of a datum that may hold leaves, in source order; None if it is not known what it is made of
        (asks if `force`)."""
        env, m, p = st.env, self.m, self.p
        ty = d[4]
        t = p.types[ty]
        if t.get("box"):
            return [d[:4] + (t["args"][0],)]
        if t.get("path") in SEQS:
            if d[1:4] not in env.lists and not force:
                return None
            return list(env.listed(d)[2])
        vs = env.variants(m, st, d)
        if not any(self.has_leaf(f[1]) for v in vs for f in t["vs"][v]["f"]):
            return []
        if len(vs) != 1:
            if not force:
                return None
            m.split_variants(st, d)
        v = next(iter(vs))
        fs = [(f[0], ("D", d[1], d[2], d[3] + ((v, i),), f[1])) for i, f in enumerate(t["vs"][v]["f"]) if self.has_leaf(f[1])]
        if t.get("path") != "std::option::Option" and len(fs) > 1:
            order = ORDER.get(self.short(ty)) if not t.get("enum") else [f[0] for f in fs]
            if order is None or any(n not in order for n, _ in fs):
                raise Unsupported("the source order of the parts of %s" % self.short(ty))
            fs.sort(key=lambda x: order.index(x[0]))
        return [x for _, x in fs]

    def expect(self, st, pos, out):
        """The leaves still expected after `out` (None: the end) was yielded."""
        env = st.env
        pos = list(pos)
        while pos:
            d, s = pos[0]
            key = d[1:4]
            if s == 1:
                if out is not None and out[1:3] == d[1:3] and out[3] == d[3] + ("more",):
                    return tuple(pos)
                if key not in env.ended:
                    raise Mismatch("%s before the iterator of %s has ended" % (self.said(env, out), self.title(env, d)))
                pos.pop(0)
                continue
            if out is not None and out[1:3] == d[1:3] and out[3] == d[3] + ("first",):
                pos[0] = (d, 1)
                return tuple(pos)
            if self.least == 0 and key in env.ended and key not in env.gave:
                pos.pop(0)
                continue
            if d[4] == self.leaf:
                if out is not None and out[1:4] == key:
                    return tuple(pos[1:])
                raise Mismatch("%s where %s is expected" % (self.said(env, out), self.title(env, d)))
            ps = self.parts(st, d, self.under(env, out, d))
            if ps is None:
                raise Mismatch("%s although %s may hold one that comes first" % (self.said(env, out), self.title(env, d)))
            pos[:1] = [(x, 0) for x in ps]
        if out is not None:
            raise Mismatch("%s where the end is expected" % self.said(env, out))
        return ()

    def said(self, env, out):
        return "the iterator ends" if out is None else "the iterator yields %s" % self.title(env, out)

    def datum(self, st, v):
        for _ in range(6):
            if v is None or v[0] not in ("R", "B"):
                break
            v = self.m.read_ref(st, v)
        if v is None or v[0] != "D":
            raise Unsupported("the result is not a part of the node")
        return v

    # ---- states between two calls
    def settle(self, st, v, n=0):
        """References into the node become references to what they point to."""
        if type(v) is not tuple or not v or n > 40:
            return v
        if v[0] == "R":
            if v[1][0] == "H" and v[1][1] != st.env.cell or v[2] or v[1][0] == "H":
                try:
                    x = self.m.read_ref(st, ("R", v[1], v[2], None))
                except Unsupported:
                    return None               # what it pointed to is gone: not used any more
                if x is not None and x[0] in ("D", "Q") and v[1] != ("H", st.env.cell):
                    return ("R", ("C", x), (), v[3])
            return v
        if v[0] == "It" and v[1] == "ref":
            r = self.settle(st, v[2], n + 1)
            if r[1][0] == "C" and type(r[1][1]) is tuple and r[1][1][0] == "Q":
                q = r[1][1]
                return ("It", "ref", ("R", ("C", ("Q", None, q[2][v[3]:v[4]])), (), r[3]), 0, v[4] - v[3])
            return v[:2] + (r,) + v[3:]
        if v[0] in ("D", "S", "i", "F", "T"):
            return v
        if v[0] == "B":
            x = self.settle(st, st.heap.get(v[1]), n + 1)
            st.heap[v[1]] = x
            return v
        return tuple(self.settle(st, x, n + 1) if type(x) is tuple else x for x in v)

    def cut(self, st, fr):
        """At the head of a loop of the crate's own code."""
        if fr.body.inst is not None and fr.body.inst.local:
            raise Cut()

    def advance(self, st, pos):
        """Passes what is known to hold no leaf."""
        pos = list(pos)
        while pos:
            d, s = pos[0]
            if s == 1 and d[1:4] in st.env.ended:
                pos.pop(0)
                continue
            if s == 1 or d[4] == self.leaf or d[1:4] in st.env.ended | st.env.gave:
                break
            ps = self.parts(st, d, False)
            if ps is None:
                break
            pos[:1] = [(x, 0) for x in ps]
        return tuple(pos)

    def tidy(self, st, pos):
        for f in st.frames:
            if f.__class__ is NFrame:
                f.locals = [self.settle(st, v) for v in f.locals]
            else:
                f.locals = [self.settle(st, v) for v in f.locals]
        st.heap[st.env.cell] = self.settle(st, st.heap[st.env.cell])
        self.forget(st, pos)
        keep, todo = set(), [st.env.cell] + [0]
        def find(v):
            if type(v) is tuple:
                if len(v) >= 2 and v[0] in ("B", "H") and type(v[1]) is int:
                    todo.append(v[1])
                for x in v:
                    if type(x) is tuple:
                        find(x)
        for f in st.frames:
            for v in f.locals:
                find(v)
            if f.__class__ is NFrame:
                find(f.pending)
        while todo:
            h = todo.pop()
            if h not in keep:
                keep.add(h)
                find(st.heap.get(h))
        st.heap = {h: v for h, v in st.heap.items() if h in keep}

    def key(self, st, pos):
        env = st.env
        parts = []
        k, rn = canon(st, [st.heap[env.cell]] + [(d, s) for d, s in pos])
        parts.append(k)
        parts.append(tuple(self.depth(env, d) for d, _ in pos))
        parts.append(tuple(sorted(str((k, v)) for k, v in env.known.items() if k[0] != "a")))
        done = 0
        while True:
            moved = False
            while rn.todo:
                c = rn.todo.pop(0)
                parts.append(rn.val(st.heap.get(c[1]) if c[0] == "H" else st.frames[c[1]].locals[c[2]]))
                moved = True
            ids = [k[1] for k in rn.ids]
            if done < len(ids):
                i = ids[done]
                done += 1
                moved = True
                parts.append(tuple(sorted((str(k[2]), tuple(sorted(v)) if type(v) is frozenset else v)
                                          for k, v in env.known.items() if k[0] == "a" and k[1] == i)))
                parts.append(tuple(sorted(str(k[2]) for k in env.ended if k[1] == i)))
                parts.append(tuple(sorted(str(k[2]) for k in env.gave if k[1] == i)))
                for k in sorted((k for k in env.lists if k[1] == i), key=str):
                    parts.append((str(k[2]), tuple(rn.val(("D", "a", x, (), 0)) for x in env.lists[k])))
            if not moved:
                return tuple(parts)

    def forget(self, st, pos):
        """Elements of lists that are behind: what was known of them is forgotten."""
        env = st.env
        live = set()
        for d, _ in pos:
            i = d[2]
            live.add(i)
            while i in env.owner:
                i = env.owner[i][1]
                live.add(i)
        todo = [d for d, _ in pos]
        seen = set()
        while todo:
            d = todo.pop()
            if d[2] in seen:
                continue
            seen.add(d[2])
            live.add(d[2])
            for k, xs in env.lists.items():
                if k[1] == d[2] and any(self.under(env, ("D",) + k + (None,), q) for q, _ in pos):
                    todo += [("D", "a", x, (), None) for x in xs]
        for k in [k for k in env.known if k[0] == "a" and k[1] not in live and k[1]]:
            del env.known[k]
        for k in [k for k in env.lists if k[1] not in live and k[1]]:
            del env.lists[k]
        env.behind = frozenset(x for xs in env.lists.values() for x in xs if x not in seen)
        env.ended = frozenset(k for k in env.ended if k[1] in live or not k[1])
        env.gave = frozenset(k for k in env.gave if k[1] in live or not k[1])

    def begin(self, ty):
        self.root_ty = ty
        st = State(AstEnv(self))
        h = st.alloc(("D", "a", 0, (), ty))
        st.env.cell = None
        return st, ("R", ("H", h), (), None)


class Walk:
    def __init__(self, p, prop, tier):
        self.p = p
        self.prop = prop
        self.tier = tier
        self.res = Result()
        self.states = self.calls = 0
        self.analysed = []
        self.limit = time.time() + 100
        self.most_calls = 40000
        self.t0 = time.time()

    def bad(self, inst, kind, title, why):
        b = self.p.bodies[inst.body]
        where = "%s (%s)" % (inst.path, ":".join(map(str, b.loc[:2])) if b.loc else "?")
        self.res.violations.append(Violation("%s:%s:%s" % (self.prop, inst.path, kind), "%s: %s" % (where, title),
                                             ["path:"] + ["  " + x for x in why]))

    def undecided(self, inst, e):
        self.res.undecided.append(Violation("undecided:%s" % inst.path, "not established: %s uses a construct the analysis "
                                            "does not cover: %s" % (inst.path, e)))

    def turn(self, dom, st, call, args):
        """Every outcome of a call: (result, state, why)."""
        st.frames.append(NFrame("top", list(args), {"inst": call, "rty": natives.ret_type(dom.m, call)}, None))
        st.steps = 0
        work = [(st, ())]
        while work:
            s, why = work.pop()
            self.calls += 1
            if self.calls > self.most_calls or time.time() > self.limit:
                raise Unsupported("too many cases")
            try:
                c = s.copy()
                dom.m.run(c)
                yield c.result, c, why
            except Split as e:
                for label, g in reversed(e.options):
                    x = c.copy()
                    x.steps = 0
                    g(x)
                    work.append((x, why + (label,)))

    def compare(self, st, why, f):
        """Runs f(state), forking when it asks."""
        work = [(st, why)]
        while work:
            s, w = work.pop()
            try:
                yield f(s), s, w
            except Split as e:
                for label, g in reversed(e.options):
                    x = s.copy()
                    g(x)
                    work.append((x, w + (label,)))

    def iterator(self, dom, ix, ty):
        inst = self.p.insts[ix]
        it = next((x for x in self.p.iters if x["fn"] == ix), None)
        if it is None:
            return True
        if inst.path not in self.analysed:
            self.analysed.append(inst.path)
        rty = natives.ret_type(dom.m, it["next"])

        def call(s):
            s.env.asked = {}
            s.frames.append(NFrame("top", [("R", ("H", s.env.cell), (), None)], {"inst": it["next"], "rty": rty}, None))
            s.steps = 0

        why = ()
        try:
            st, r = dom.begin(ty)
            work, seen = [], set()
            for v, s, why in self.turn(dom, st, ix, [r]):
                s.env.cell = s.alloc(v)
                call(s)
                work.append((s, ((("D", "a", 0, (), ty), 0),), why))
            dom.m.on_turn = dom.cut
            while work:
                s, pos, why = work.pop()
                try:
                    dom.m.run(s)
                    for (out, left), c, w in self.compare(s, why, lambda z: self.follow(dom, z, pos, z.result)):
                        w = (w + (dom.said(c.env, out),))[-30:]
                        self.calls += 1
                        dom.tidy(c, left)
                        k = dom.key(c, left)
                        if k not in seen:
                            seen.add(k)
                            self.states += 1
                            call(c)
                            work.append((c, left, w))
                except Split as e:
                    for label, g in reversed(e.options):
                        x = s.copy()
                        x.steps = 0
                        g(x)
                        work.append((x, pos, (why + (label,))[-30:]))
                except Cut:
                    pos = dom.advance(s, pos)
                    dom.tidy(s, pos)
                    k = dom.key(s, pos)
                    if k not in seen:
                        seen.add(k)
                        self.states += 1
                        s.steps = 0
                        work.append((s, pos, why))
                if len(seen) > 60000 or time.time() > self.limit:
                    raise Unsupported("too many states")
        except Mismatch as e:
            self.bad(inst, "leaf", str(e), why)
        except Panic as e:
            self.bad(inst, "panic", "the iterator panics: %s" % e.what, why)
        except NoProgress as e:
            self.bad(inst, "spin", "a call of next does not return", why)
        except (Unsupported, TypeError, KeyError, IndexError, AttributeError) as e:
            if str(e).startswith("too many"):
                return False
            self.undecided(inst, e)
        finally:
            dom.m.on_turn = None
        return True

    def follow(self, dom, st, pos, v):
        k = natives.opt_variant(dom.m, st, v)
        out = dom.datum(st, natives.opt_payload(dom.m, st, v)) if k else None
        return out, dom.expect(st, pos, out)

    # ---- ranges
    def ends(self, dom, st, d, out, last):
        """Is `out` the position at the start (end) of d?"""
        env, p = st.env, self.p
        if out[1:3] == d[1:3] and out[3] == d[3] + ("end" if last else "start",):
            return
        i = next(i for i, f in enumerate(p.types[dom.leaf]["vs"][0]["f"]) if f[1] == self.range_ty)
        for n, x in enumerate(("first", "more")):
            if out[1:4] == d[1:3] + (d[3] + (x, (0, i), (0, int(last))),) and (
                    env.known.get(("n",) + d[1:4]) == n + 1 if last else n == 0):
                return
        if d[4] == dom.leaf:
            fs = p.types[d[4]]["vs"][0]["f"]
            i = next(i for i, f in enumerate(fs) if f[1] == self.range_ty)
            if out[1:4] != d[1:3] + (d[3] + ((0, i), (0, int(last))),):
                raise Mismatch("the range %s at %s where it should at %s of %s" % (
                    "ends" if last else "starts", dom.title(env, out), "the end" if last else "the start", dom.title(env, d)))
            return
        ps = dom.parts(st, d, dom.under(env, out, d))
        if ps is None:
            raise Mismatch("the range %s at %s whatever %s is" % ("ends" if last else "starts", dom.title(env, out), dom.title(env, d)))
        for x in (reversed(ps) if last else ps):
            y = x
            while p.types[y[4]].get("box"):
                y = y[:4] + (p.types[y[4]]["args"][0],)
            t = p.types[y[4]]
            if t.get("path") == "std::option::Option" or t.get("path") in SEQS:
                qs = dom.parts(st, y, dom.under(env, out, y))
                if qs is None:
                    raise Mismatch("the range %s at %s whether or not there is %s" % (
                        "ends" if last else "starts", dom.title(env, out), dom.title(env, y)))
                if not qs:
                    continue
                return self.ends(dom, st, qs[-1] if last else qs[0], out, last)
            return self.ends(dom, st, y, out, last)
        raise Mismatch("the range of a node without tokens")

    def range(self, dom, ix, ty):
        inst = self.p.insts[ix]
        if inst.path not in self.analysed:
            self.analysed.append(inst.path)
        try:
            st, r = dom.begin(ty)
            for v, s, why in self.turn(dom, st, ix, [r]):
                if v is None or v[0] != "A" or len(v[3]) != 2:
                    raise Unsupported("the result is not a pair of positions")
                root = ("D", "a", 0, (), ty)
                outs = [dom.datum(s, x) for x in v[3]]
                for o, last in zip(outs, (False, True)):
                    try:
                        for _ in self.compare(s, why, lambda z: self.ends(dom, z, root, o, last)):
                            self.states += 1
                    except Mismatch as e:
                        self.bad(inst, "end" if last else "start", str(e), why)
        except Panic as e:
            self.bad(inst, "panic", "panics: %s" % e.what, [])
        except (Unsupported, TypeError, KeyError, IndexError, AttributeError) as e:
            if str(e).startswith("too many"):
                return False
            self.undecided(inst, e)
        return True


def check(prop, p, tier):
    w = Walk(p, prop, tier)
    res = w.res
    try:
        tok, err, w.range_ty = find_adt(p, "Token"), find_adt(p, "ASTErrorType"), find_adt(p, "Range")
    except Unsupported as e:
        res.undecided.append(Violation("anchor:" + str(e), "not established: %s" % e))
        return res
    deep = tier == "thorough"
    what, leaf, least, lengths, inner, total, floor = {
        "C23": ("tokens", tok, 1, 24 if deep else 10, 1, 1000, 9),
        "C24": ("range", tok, 1, 8 if deep else 4, 1, 1000, 5),
        "C25": ("iter_errors", err, 0, 2, 3 if deep else 2, 6 if deep else 5, 1)}[prop]
    dom = Dom(p, what, leaf, least, lengths, inner, total)
    bounds = {}
    for ix, ty in sorted(dom.fns.items()):
        if not dom.has_leaf(ty) or ty == leaf:
            continue
        for cut in (0, 1, 2, 3):
            dom.lengths = min(lengths, (lengths, 4 if lengths > 4 else 3, 2, 1 if least else 2)[cut])
            dom.total = min(total, (total, 4, 3, 2)[cut])
            w.limit = time.time() + (150 if deep else 50)
            w.most_calls = w.calls + 40000
            if (w.range if prop == "C24" else w.iterator)(dom, ix, ty):
                if cut:
                    bounds[p.insts[ix].path] = "lists of at most %d elements, %d open at a time" % (dom.lengths, dom.total)
                break
        else:
            w.undecided(p.insts[ix], "too many states")
    res.floor("functions", len(w.analysed), floor)
    res.floor("states", w.states, floor * 2)
    res.coverage = {
        "explanation": "Every function `%s` of an AST type is run from its MIR on a symbolic node (variants, options and list "
                       "lengths are what the code asks) and what it gives is compared with the leaves of the node in source "
                       "order; nested nodes are covered by induction." % what,
        "functions": w.analysed, "states": w.states, "calls_of_next": w.calls, "nested_nodes_taken_as_opaque": dom.opaque_used,
        "bound": "lists of at most %d elements%s" % (lengths, ", nested at most %d lists deep, at most %d elements of lists open at a time" % (inner + 1, total) if prop == "C25" else ""),
        "lower_bounds_of_iterators_that_collect_first": bounds,
        "obligations": w.calls, "discharged": w.calls}
    res.assumptions = ["The standard library's Vec, VecDeque, Option and iterator adaptors behave as documented."]
    return res
