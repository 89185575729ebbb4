"""C27, C28: clone and comparison of tokens and AST nodes, decided from the MIR of the impls: each
is run on values whose parts are opaque, so that its outcome shows which parts it depends on."""
import itertools

from .core import Result, Violation
from .interp import Interp, NullEnv, Panic, Split, State, Unsupported
from .parserdom import find_adt

ORD = ("<", "=", ">")
HOLDS = {"Eq": "=", "Ne": "<>", "Lt": "<", "Le": "<=", "Gt": ">", "Ge": ">="}


# functions that give the same value in another form, and functions whose result says less than the value
SAME = ("as_str", "as_ref", "borrow", "deref", "as_slice", "as_bytes", "as_mut_str", "into_boxed_str", "into_string", "to_vec",
        "into", "from", "as_deref", "cloned", "copied")
LESS = ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase", "trim", "trim_start", "trim_end", "len",
        "abs", "round", "floor", "ceil", "trunc", "signum", "is_empty_")
WEAK = ("eq_ignore_ascii_case", "starts_with", "ends_with", "contains")


def ordering(p):
    if not hasattr(p, "ordering_ty"):
        p.ordering_ty = next((i for i, t in enumerate(p.types) if t["k"] == "adt" and t.get("path") == "std::cmp::Ordering"), None)
    return p.ordering_ty


class ValEnv(NullEnv):
    def __init__(self):
        self.rel = {}

    def copy(self):
        e = ValEnv()
        e.rel = dict(self.rel)
        return e

    def of(self, a, b):
        if a == b:
            return "="
        if (b, a) in self.rel:
            return "".join({"<": ">", "=": "=", ">": "<"}[c] for c in self.rel[(b, a)])
        return self.rel.get((a, b), "<=>")

    def put(self, a, b, r):
        self.rel.pop((b, a), None)
        self.rel[(a, b)] = r
        for mark in (" of ", " as "):
            if "=" not in r and mark in a and mark in b:
                x, y = (a.split(mark, 1)[1], b.split(mark, 1)[1]) if mark == " of " else (a.rsplit(mark, 1)[0], b.rsplit(mark, 1)[0])
                if a.replace(x, "") == b.replace(y, ""):  # what says less of the two is different, so they are
                    self.put(x, y, "".join(c for c in self.of(x, y) if c != "="))

    def ask(self, a, b, parts):
        """The part the relation of a and b is in; asks if it is not known."""
        now = self.of(a, b)
        ways = [(p, "".join(c for c in now if c in p)) for p in parts]
        ways = [(p, w) for p, w in ways if w]
        if len(ways) == 1:
            return ways[0][0]
        raise Split([("%s %s %s" % (a, "".join(w), b), (lambda w: lambda s: s.env.put(a, b, w))(w)) for _, w in ways])

    def binop(self, m, st, op, a, b, ty):
        if a is not None and b is not None and a[0] == "X" and b[0] == "X":
            if op in HOLDS:
                yes = HOLDS[op]
                no = "".join(c for c in "<=>" if c not in yes)
                return ("i", int(self.ask(a[1], b[1], (yes, no)) == yes))
            if op == "Cmp":
                return ("A", ordering(m.p), "<=>".index(self.ask(a[1], b[1], ORD)), ())
        return None

    def cast_int(self, m, st, a, sty, dty):
        """A number of another type: the same if the type holds every number of the first."""
        if a is None or a[0] != "X":
            return None
        s, d = m.T(sty), m.T(dty)
        if s["k"] in ("int", "uint", "char", "bool") and d["k"] in ("int", "uint"):
            x, y = s.get("bits", 32), d.get("bits", 64)
            if s["k"] == d["k"] and y >= x or y > x and s["k"] != "int":
                return a
        return ("X", "%s as %s" % (a[1], d["n"]))


class Runner:
    def __init__(self, p):
        self.p = p
        self.m = Interp(p)
        self.m.STEP_LIMIT = 20000
        for i, x in enumerate(p.insts):
            last = x.path.split("::")[-1]
            if last in ("eq", "ne") and "PartialEq" in x.path:
                self.m.prims[i] = self.eq
            elif last == "clone" and "Clone" in x.path or last in ("to_owned", "to_string"):
                self.m.prims[i] = self.clone
            elif last in ("partial_cmp", "cmp") and ("PartialOrd" in x.path or "Ord" in x.path):
                self.m.prims[i] = self.cmp
            elif not x.local and last in SAME and "collections" not in x.path and "iter" not in x.path:
                self.m.prims[i] = self.same
            elif not x.local and last in LESS:
                self.m.prims[i] = self.less
            elif not x.local and last in WEAK:
                self.m.prims[i] = self.weak
        self.calls = 0

    def opaque(self, st, v):
        n = 0
        while v is not None and v[0] in ("R", "B", "It") and n < 5:
            try:
                v = self.m.read_ref(st, v)
            except Exception:
                return None
            n += 1
        return v[1] if v is not None and v[0] == "X" else None

    def eq(self, m, st, inst, args):
        a, b = self.opaque(st, args[0]), self.opaque(st, args[1])
        if a is None or b is None:
            return NotImplemented
        self.calls += 1
        yes = st.env.ask(a, b, ("=", "<>")) == "="
        return ("i", int(yes != (inst.path.split("::")[-1] == "ne")))

    def clone(self, m, st, inst, args):
        a = self.opaque(st, args[0])
        if a is None:
            return NotImplemented
        self.calls += 1
        return ("X", a)

    def same(self, m, st, inst, args):
        a = self.opaque(st, args[0]) if len(args) == 1 else None
        return NotImplemented if a is None else ("X", a)

    def less(self, m, st, inst, args):
        a = self.opaque(st, args[0]) if len(args) == 1 else None
        return NotImplemented if a is None else ("X", "%s of %s" % (inst.path.split("::")[-1], a))

    def weak(self, m, st, inst, args):
        a, b = (self.opaque(st, args[0]), self.opaque(st, args[1])) if len(args) == 2 else (None, None)
        if a is None or b is None:
            return NotImplemented
        if st.env.of(a, b) == "=":
            return ("i", 1)
        n = inst.path.split("::")[-1]
        return ("i", int(st.env.ask("%s of %s" % (n, a), "%s of %s" % (n, b), ("=", "<>")) == "="))

    def cmp(self, m, st, inst, args):
        a, b = self.opaque(st, args[0]), self.opaque(st, args[1])
        if a is None or b is None:
            return NotImplemented
        self.calls += 1
        ret = m.p.bodies[inst.body].locals[0] if inst.body is not None else None
        r = ("A", ordering(m.p), "<=>".index(st.env.ask(a, b, ORD)), ())
        return ("A", ret, 1, (r,)) if inst.path.endswith("partial_cmp") else r

    def leaves(self, inst, values):
        """(result, relations) of every path of inst on references to the values."""
        st = State(ValEnv())
        self.m.push_body(st, inst, [("R", ("H", st.alloc(v)), (), None) for v in values], None)
        work, out = [st], []
        while work:
            s = work.pop()
            try:
                self.m.run(s)
                out.append((s.result, s.env))
            except Split as e:
                for _, f in e.options:
                    c = s.copy()
                    c.steps = 0
                    f(c)
                    work.append(c)
            if len(out) + len(work) > 5000:
                raise Unsupported("too many paths")
        return out


def adt_name(p, ty):
    return p.types[ty].get("path") or p.types[ty]["n"]


def graph(p, roots):
    """Every local type of which the roots are made."""
    seen, todo, out = set(), list(roots), []
    while todo:
        t = todo.pop()
        if t in seen or t is None:
            continue
        seen.add(t)
        x = p.types[t]
        if x["k"] == "adt":
            if x.get("local"):
                out.append(t)
                for v in x["vs"]:
                    todo += [f[1] for f in v["f"]]
            todo += [a for a in x.get("args", ()) if type(a) is int]
        elif x["k"] in ("tuple", "closure"):
            todo += list(x["f"])
        elif x["k"] in ("array", "slice"):
            todo.append(x["of"])
        elif x["k"] in ("ref", "ptr"):
            todo.append(x["to"])
    return sorted(out)


def impls(p, trait, method, ty):
    """The local function that implements a trait's method for a type, if it has one."""
    n = p.types[ty]["n"]
    path = p.types[ty].get("path") or n
    out = []
    for x in p.insts:
        if x.local and x.body is not None and x.path.split("::")[-1] == method and \
                (x.path.startswith("<%s as " % path) or x.path.startswith("<%s as " % n)) and trait in x.path:
            b = p.bodies[x.body]
            if b.argc >= 1 and p.types[b.locals[1]]["k"] == "ref" and p.types[b.locals[1]]["to"] == ty:
                out.append(x)
    return out[0] if out else None


SEQS = ("std::vec::Vec", "std::collections::VecDeque")
MOST = 400


def opaque_value(p, ty, var, name):
    """A value of a variant whose parts are opaque."""
    return ("A", ty, var, tuple(("X", "%s.%s" % (name, f[0])) for f in p.types[ty]["vs"][var]["f"]))


def spelt(p, ty, var, name, level):
    """Values of a variant in which structs are spelt out and lists are of 0, 1 or 2 elements; at level 2
    the elements are too."""
    return [("A", ty, var, c) for c in itertools.islice(itertools.product(*[
        spelt_part(p, f[1], "%s.%s" % (name, f[0]), level) for f in p.types[ty]["vs"][var]["f"]]), MOST)]


def spelt_part(p, ty, name, level):
    x = p.types[ty]
    if x["k"] == "adt" and x.get("local") and not x.get("enum") and len(x["vs"]) == 1:
        return spelt(p, ty, 0, name, level)
    if x["k"] == "adt" and (x.get("path") == "std::option::Option" or
                            level == 2 and x.get("local") and x.get("enum") and len(x["vs"]) <= 4):
        out = []
        for v, var in enumerate(x["vs"]):
            out += [("A", ty, v, c) for c in itertools.product(*[
                spelt_part(p, f[1], "%s.%s.%s" % (name, var["n"], f[0]), level) if level == 2 and p.types[f[1]].get("enum")
                else [("X", "%s.%s.%s" % (name, var["n"], f[0]))] for f in var["f"]])]
        return out
    if x["k"] == "adt" and x.get("path") in SEQS:
        e = x["args"][0]
        out = [("Q", None, ())]
        for n in (1, 2)[:2 if level < 2 else 1]:
            if level < 2:
                out.append(("Q", None, tuple(("X", "%s[%d]" % (name, i)) for i in range(n))))
            elif p.types[e].get("enum"):
                for v in range(len(p.types[e]["vs"])):
                    out.append(("Q", None, (opaque_value(p, e, v, name + "[0]"),) + tuple(
                        ("X", "%s[%d]" % (name, i)) for i in range(1, n))))
        return out
    return [("X", name)]


def joined(env, a, b):
    """How two parts relate: '=' if all they are made of is equal, what the relation says otherwise.
    Positions count by line and column."""
    if a[0] != b[0]:
        return "<>"
    if a[0] == "X":
        return env.of(a[1], b[1])
    if a[0] == "Q":
        if len(a[2]) != len(b[2]):
            return "<>"
        rs = [joined(env, x, y) for x, y in zip(a[2], b[2])]
    else:
        if a[2] != b[2]:
            return "<>"
        rs = [joined(env, x, y) for x, y in zip(a[3], b[3]) if x[0] != "X" or not x[1].endswith((".bytes", ".chars"))]
    if all(r == "=" for r in rs):
        return "="
    return "<>" if any("=" not in r for r in rs) else "<=>"


def truth(v):
    if v is None or v[0] != "i":
        raise Unsupported("the result is not known")
    return bool(v[1])


class Check:
    def __init__(self, p):
        self.p = p
        self.r = Runner(p)
        self.res = Result()
        self.paths = self.bounded = 0
        self.compared = []

    def bad(self, key, title, text=()):
        self.res.violations.append(Violation(key, title, text))

    def where(self, inst):
        b = self.p.bodies[inst.body]
        return "%s (%s)" % (inst.path, ":".join(map(str, b.loc[:2])) if b.loc else "?")

    def guard(self, inst, f):
        try:
            f()
        except Panic as e:
            self.bad("panic:" + inst.path, "%s panics: %s" % (self.where(inst), e.what))
        except (Unsupported, TypeError, KeyError, IndexError, AttributeError) as e:
            self.res.undecided.append(Violation("undecided:" + inst.path, "not established: %s uses a construct the "
                                                "analysis does not cover: %s" % (self.where(inst), e)))

    def vname(self, ty, i):
        return self.p.types[ty]["vs"][i]["n"]

    def outcomes(self, inst, shapes):
        """(arguments, result, relations) of every path on values of these shapes. The values are spelt out
        as far as the code looks into them."""
        try:
            args = [opaque_value(self.p, *x) for x in shapes]
            return [(args, v, e) for v, e in self.r.leaves(inst, args)]
        except (Unsupported, AttributeError) as e:
            why = e
        for level in (1, 2):
            out = []
            try:
                ways = [spelt(self.p, *x, level) for x in shapes]
                if len(ways) == 2 and len(ways[0]) * len(ways[1]) > MOST:
                    continue
                for args in itertools.product(*ways):
                    out += [(args, v, e) for v, e in self.r.leaves(inst, list(args))]
                self.bounded += any("Q" in str(w) for w in ways)
                return out
            except (Unsupported, AttributeError) as e:
                why = e
        raise why if isinstance(why, Unsupported) else Unsupported(str(why))

    # ---- equality
    def equality(self, inst, ty, neg=False, only=None):
        """Equal exactly when of one variant with all parts (or those named in only) equal."""
        p = self.p
        vs = p.types[ty]["vs"]
        self.compared.append(inst.path)
        for i in range(len(vs)):
            names = [f[0] for f in vs[i]["f"]]
            for j in range(len(vs)):
                for (a, b), v, env in self.outcomes(inst, [(ty, i, "a"), (ty, j, "b")]):
                    self.paths += 1
                    got = truth(v) != neg
                    if i != j:
                        if got:
                            self.bad("eq:%s:%s" % (inst.path, self.vname(ty, i)), "%s: a %s equals a %s" % (
                                self.where(inst), self.vname(ty, i), self.vname(ty, j)))
                        continue
                    rel = {n: joined(env, x, y) for n, x, y in zip(names, a[3], b[3]) if only is None or n in only}
                    if got:
                        for n, r in rel.items():
                            if r != "=":
                                self.bad("eq:%s:%s" % (inst.path, n), "%s: two values are equal although their %s %s" % (
                                    self.where(inst), n, "is not compared" if r == "<=>" else "differs"))
                    elif not any("=" not in r for r in rel.values()):
                        self.bad("ne:%s:%s" % (inst.path, self.vname(ty, i)),
                                 "%s: two values of kind %s can be unequal although all their parts are equal" % (
                                     self.where(inst), self.vname(ty, i)))

    def cloning(self, inst, ty):
        p = self.p
        for i, x in enumerate(p.types[ty]["vs"]):
            for (a,), v, env in self.outcomes(inst, [(ty, i, "a")]):
                self.paths += 1
                if v is None or v[0] != "A":
                    raise Unsupported("the result is not known")
                if v[2] != i:
                    self.bad("clone:%s" % inst.path, "%s: the clone of a %s is a %s" % (
                        self.where(inst), self.vname(ty, i), self.vname(ty, v[2])))
                    continue
                for n, got, want in zip([f[0] for f in x["f"]], v[3], a[3]):
                    if got != want:
                        self.bad("clone:%s:%s" % (inst.path, n), "%s: the %s of the clone is not that of the original" % (
                            self.where(inst), n))
        self.compared.append(inst.path)

    # ---- order
    def order(self, inst, ty, kind):
        """By line, then by column."""
        p = self.p
        self.compared.append(inst.path)
        for v, env in self.r.leaves(inst, [opaque_value(p, ty, 0, "a"), opaque_value(p, ty, 0, "b")]):
            self.paths += 1
            l, c = env.of("a.line", "b.line"), env.of("a.column", "b.column")
            possible = set(l) - {"="} | (set(c) if "=" in l else set())
            if kind in ("partial_cmp", "cmp"):
                while v is not None and v[0] == "A" and len(v[3]) == 1:
                    v = v[3][0] if kind == "cmp" or v[2] == 1 else None
                if v is None or v[0] not in ("A", "i") or v[0] == "A" and v[3]:
                    self.bad("cmp:" + inst.path, "%s: two positions are not ordered" % self.where(inst))
                    continue
                got = {"<=>"[v[2]]} if v[0] == "A" else {"<" if v[1] < 0 else ">" if v[1] else "="}
            else:
                t = truth(v)
                yes = {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[kind]
                got = {x for x in "<=>" if (x in yes) == t}
            if not possible <= got:
                self.bad("cmp:%s:%s" % (inst.path, "".join(sorted(possible - got))),
                         "%s: positions whose line is %s and whose column is %s compare as %s" % (
                             self.where(inst), show(l), show(c), "/".join(show(x) for x in sorted(got))))


def show(r):
    return {"<": "less", "=": "equal", ">": "greater", "<=>": "anything", "<>": "different"}.get(
        r, " or ".join(show(c) for c in r))


def positions(ck):
    """C28, and the part of C27 about positions and ranges."""
    p = ck.p
    pos, rng = find_adt(p, "Position"), find_adt(p, "Range")
    n = 0
    for neg, name in ((False, "eq"), (True, "ne")):
        x = impls(p, "PartialEq", name, pos)
        if x is not None:
            n += 1
            ck.guard(x, lambda: ck.equality(x, pos, neg, only=("line", "column")))
        y = impls(p, "PartialEq", name, rng)
        if y is not None:
            n += 1
            ck.guard(y, lambda: ck.equality(y, rng, neg))
    for trait, names in (("PartialOrd", ("partial_cmp", "lt", "le", "gt", "ge")), ("Ord>", ("cmp",))):
        for name in names:
            x = impls(p, trait, name, pos)
            if x is not None:
                n += 1
                ck.guard(x, lambda: ck.order(x, pos, name))
    return n


def check(prop, p, tier):
    ck = Check(p)
    res = ck.res
    try:
        roots = [find_adt(p, n) for n in ("Token", "TokenError", "ASTBlock", "ASTErrorType")]
        pos = find_adt(p, "Position")
        n = positions(ck)
    except Unsupported as e:
        res.undecided.append(Violation("anchor:" + str(e), "not established: %s" % e))
        return res
    res.floor("comparisons of positions and ranges", n, 3)
    if prop == "C27":
        types = graph(p, roots)
        items = {x["ty"]: x for x in p.items if x["kind"] == "adt" and "ty" in x}
        for t in types:
            name = adt_name(p, t)
            has = items.get(t)
            if has is None:
                res.undecided.append(Violation("type:" + name, "not established: nothing is known of the type " + name))
                continue
            where = ":".join(map(str, has["loc"][:2]))
            for tr in ("Send", "Sync", "Clone", "PartialEq"):
                if tr not in has["has"]:
                    ck.bad("%s:%s" % (tr, name), "%s (%s): the type is not %s" % (name, where, tr))
            if has["lifetimes"]:
                ck.bad("owned:" + name, "%s (%s): the type borrows its data" % (name, where))
            if "Drop" in has["has"]:
                ck.bad("drop:" + name, "%s (%s): dropping the type runs code of its own" % (name, where))
            for neg, m in ((False, "eq"), (True, "ne")):
                x = impls(p, "PartialEq", m, t)
                if x is not None and t != pos:
                    ck.guard(x, lambda: ck.equality(x, t, neg))
            x = impls(p, "Clone", "clone", t)
            if x is not None:
                ck.guard(x, lambda: ck.cloning(x, t))
        res.floor("types", len(types), 30)
        res.floor("impls of clone and eq", len(ck.compared), 50)
        res.coverage["types"] = [adt_name(p, t) for t in types]
    res.coverage.update({
        "explanation": "The MIR of every impl of Clone, PartialEq and PartialOrd of these types is run on values with "
                       "opaque parts; on every path the result is compared with what the parts' equality or order says. "
                       "Comparisons and clones of the parts' own types are taken as atoms (each is checked itself). "
                       "Send, Sync, Clone, PartialEq and Drop are asked of rustc's trait solver.",
        "functions": sorted(set(ck.compared)), "paths": ck.paths, "calls_of_parts": ck.r.calls,
        "hand_written_impls_that_walk_a_list": "%d (decided for lists of up to 2 elements)" % ck.bounded,
        "obligations": ck.paths, "discharged": ck.paths})
    res.assumptions = ["Clone and PartialEq of the standard library's types (String, Vec, VecDeque, Box, Option, numbers) "
                       "copy and compare all that they hold; a float that is not a number does not occur (C07)."]
    return res
