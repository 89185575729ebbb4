"""Interpreter of the reference descriptions (spec_*.txt): a small Python-like language.

A description is compiled to flat code, so that a running reference is plain data (function, program
counter, locals) that can be copied, compared and put into the key of an abstract state. Only
assignments, if / while / break / return, `is None` tests, not / and / or, calls of the
description's own functions and calls of the primitives given by the domain are allowed.
"""
import ast

NIL = ("nil",)


class RefError(Exception):
    pass


class Func:
    __slots__ = ("name", "params", "code", "live", "ix")


class _Compiler:
    def __init__(self, fn, funcs, prims, consts):
        self.code = []
        self.n = 0
        self.funcs = funcs
        self.prims = prims
        self.consts = consts
        self.breaks = []
        self.conts = []
        self.fn = fn

    def emit(self, *i):
        self.code.append(list(i))
        return len(self.code) - 1

    def tmp(self):
        self.n += 1
        return "$%d" % self.n

    def err(self, node, what):
        raise RefError("line %d: %s" % (getattr(node, "lineno", 0), what))

    def expr(self, e):
        """Compiles e; returns an operand ('v', name) or ('c', value)."""
        if isinstance(e, ast.Name):
            if e.id in self.consts:
                return ("c", self.consts[e.id])
            return ("v", e.id)
        if isinstance(e, ast.Constant):
            if e.value is None:
                return ("c", NIL)
            if isinstance(e.value, bool):
                return ("c", ("i", int(e.value)))
            if isinstance(e.value, int):
                return ("c", ("i", e.value))
            return ("c", e.value)
        if isinstance(e, ast.List):
            if e.elts:
                self.err(e, "only empty lists")
            return ("c", ("Q", None, ()))
        if isinstance(e, ast.Call):
            return self.call(e)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a = self.expr(e.left)
            b = e.comparators[0]
            if isinstance(e.ops[0], (ast.Is, ast.IsNot)) and isinstance(b, ast.Constant) and b.value is None:
                t = self.tmp()
                self.emit("isnil", t, a, isinstance(e.ops[0], ast.IsNot))
                return ("v", t)
            names = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}
            op = names.get(type(e.ops[0]))
            if op and "$" + op in self.prims:
                t = self.tmp()
                self.emit("call", t, "$" + op, [a, self.expr(b)], {})
                return ("v", t)
        if isinstance(e, ast.BinOp):
            names = {ast.Add: "add", ast.Sub: "sub"}
            op = names.get(type(e.op))
            if op and "$" + op in self.prims:
                a, b = self.expr(e.left), self.expr(e.right)
                t = self.tmp()
                self.emit("call", t, "$" + op, [a, b], {})
                return ("v", t)
        if isinstance(e, (ast.UnaryOp, ast.BoolOp)):
            t = self.tmp()
            self.emit("mov", t, ("c", ("i", 1)))
            j = self.cond(e)
            end = self.emit("jmp", None)
            for x in j:
                self.code[x][-1] = len(self.code)
            self.emit("mov", t, ("c", ("i", 0)))
            self.code[end][1] = len(self.code)
            return ("v", t)
        self.err(e, "unsupported expression " + ast.dump(e)[:80])

    def call(self, e):
        if isinstance(e.func, ast.Attribute) and e.func.attr == "append" and isinstance(e.func.value, ast.Name):
            a = self.expr(e.args[0])
            self.emit("append", e.func.value.id, a)
            return ("c", NIL)
        if not isinstance(e.func, ast.Name):
            self.err(e, "unsupported call")
        args = [self.expr(a) for a in e.args]
        kw = {k.arg: self.expr(k.value) for k in e.keywords}
        t = self.tmp()
        name = e.func.id
        if name in self.funcs:
            if kw:
                self.err(e, "keyword arguments of a description function")
            self.emit("user", t, name, args)
        elif name in self.prims:
            self.emit("call", t, name, args, kw)
        else:
            self.err(e, "unknown function " + name)
        return ("v", t)

    def cond(self, e):
        """Compiles a condition; returns the instructions that jump when it is false."""
        if isinstance(e, ast.Constant) and e.value is True:
            return []
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
            out = []
            for v in e.values:
                out += self.cond(v)
            return out
        if isinstance(e, ast.BoolOp):
            oks = []
            for v in e.values[:-1]:
                f = self.cond(v)
                oks.append(self.emit("jmp", None))
                for x in f:
                    self.code[x][-1] = len(self.code)
            last = self.cond(e.values[-1])
            for x in oks:
                self.code[x][1] = len(self.code)
            return last
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            f = self.cond(e.operand)
            j = self.emit("jmp", None)
            for x in f:
                self.code[x][-1] = len(self.code)
            return [j]
        a = self.expr(e)
        return [self.emit("jf", a, None)]

    def patch(self, js):
        for x in js:
            self.code[x][-1] = len(self.code)

    def body(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        if isinstance(s, ast.Assign):
            if len(s.targets) != 1 or not isinstance(s.targets[0], ast.Name):
                self.err(s, "unsupported assignment")
            a = self.expr(s.value)
            self.emit("mov", s.targets[0].id, a)
        elif isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant):
                return
            self.expr(s.value)
        elif isinstance(s, ast.Return):
            a = self.expr(s.value) if s.value is not None else ("c", NIL)
            self.emit("ret", a)
        elif isinstance(s, ast.If):
            f = self.cond(s.test)
            self.body(s.body)
            if s.orelse:
                j = self.emit("jmp", None)
                self.patch(f)
                self.body(s.orelse)
                self.patch([j])
            else:
                self.patch(f)
        elif isinstance(s, ast.While):
            top = len(self.code)
            f = self.cond(s.test)
            self.breaks.append([])
            self.conts.append(top)
            self.body(s.body)
            self.emit("jmp", top)
            self.patch(f)
            self.patch(self.breaks.pop())
            self.conts.pop()
        elif isinstance(s, ast.Break):
            self.breaks[-1].append(self.emit("jmp", None))
        elif isinstance(s, ast.Continue):
            self.emit("jmp", self.conts[-1])
        elif isinstance(s, ast.Pass):
            pass
        else:
            self.err(s, "unsupported statement")


class Program:
    def __init__(self, text, prims, consts=None):
        tree = ast.parse(text)
        defs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.prims = prims
        self.funcs = {}
        for name, n in defs.items():
            c = _Compiler(name, defs, prims, consts or {})
            c.body(n.body)
            c.emit("ret", ("c", NIL))
            f = Func()
            f.name = name
            f.params = [a.arg for a in n.args.args]
            f.code = c.code
            f.ix = len(self.funcs)
            f.live = self.liveness(c.code)
            self.funcs[name] = f

    @staticmethod
    def liveness(code):
        n = len(code)
        live = [frozenset()] * (n + 1)

        def uses(ops):
            return {o[1] for o in ops if isinstance(o, tuple) and o[0] == "v"}
        changed = True
        while changed:
            changed = False
            for i in range(n - 1, -1, -1):
                c = code[i]
                k = c[0]
                if k == "jmp":
                    l = set(live[c[1]])
                elif k == "jf":
                    l = set(live[c[2]]) | set(live[i + 1]) | uses([c[1]])
                elif k == "ret":
                    l = uses([c[1]])
                elif k == "append":
                    l = set(live[i + 1]) | {c[1]} | uses([c[2]])
                elif k == "mov":
                    l = (set(live[i + 1]) - {c[1]}) | uses([c[2]])
                elif k == "isnil":
                    l = (set(live[i + 1]) - {c[1]}) | uses([c[2]])
                else:
                    args = c[3]
                    kw = c[4] if k == "call" else {}
                    l = (set(live[i + 1]) - {c[1]}) | uses(args) | uses(kw.values())
                l = frozenset(l)
                if l != live[i]:
                    live[i] = l
                    changed = True
        return live


class Ref:
    """A running reference: frames of (function, pc, locals)."""
    __slots__ = ("prog", "frames", "result", "failed")

    def __init__(self, prog, fn=None, args=()):
        self.prog = prog
        self.frames = []
        self.result = None
        self.failed = False
        if fn is not None:
            f = prog.funcs[fn]
            self.frames.append([f, 0, dict(zip(f.params, args))])

    def copy(self):
        r = Ref(self.prog)
        r.frames = [[f, pc, dict(l)] for f, pc, l in self.frames]
        r.result = self.result
        r.failed = self.failed
        return r

    def run(self, ctx, limit=20000):
        """Runs until the reference returns or a primitive raises Split / Event."""
        prims = self.prog.prims
        n = 0
        while self.frames:
            n += 1
            if n > limit:
                raise RefError("the reference loops without an event")
            fr = self.frames[-1]
            f, pc, loc = fr
            c = f.code[pc]
            k = c[0]

            def val(o):
                if o[0] == "c":
                    return o[1]
                return loc[o[1]]
            if k == "mov":
                loc[c[1]] = val(c[2])
            elif k == "jmp":
                fr[1] = c[1]
                continue
            elif k == "jf":
                v = val(c[1])
                if v[0] != "i":
                    raise RefError("condition is not a boolean: %r" % (v,))
                fr[1] = pc + 1 if v[1] else c[2]
                continue
            elif k == "isnil":
                loc[c[1]] = ("i", int((val(c[2]) == NIL) != c[3]))
            elif k == "append":
                q = loc[c[1]]
                loc[c[1]] = ("Q", q[1], q[2] + (val(c[2]),))
            elif k == "user":
                g = self.prog.funcs[c[2]]
                args = [val(a) for a in c[3]]
                if len(args) != len(g.params):
                    raise RefError("arguments of " + c[2])
                # tail call
                if f.code[pc + 1][0] == "ret" and f.code[pc + 1][1] == ("v", c[1]):
                    self.frames[-1] = [g, 0, dict(zip(g.params, args))]
                else:
                    self.frames.append([g, 0, dict(zip(g.params, args))])
                continue
            elif k == "call":
                v = prims[c[2]](ctx, *[val(a) for a in c[3]], **{x: val(y) for x, y in c[4].items()})
                if v is FAILED:
                    return
                loc[c[1]] = v
            elif k == "ret":
                v = val(c[1])
                self.frames.pop()
                self.give(v)
                continue
            fr[1] = pc + 1

    def give(self, v):
        """Delivers the value of a finished call."""
        if not self.frames:
            self.result = v
            return
        fr = self.frames[-1]
        c = fr[0].code[fr[1]]
        fr[2][c[1]] = v
        fr[1] += 1

    def fail(self, e):
        self.frames = []
        self.result = e
        self.failed = True

    def key(self, rn):
        parts = []
        n = len(self.frames)
        for i, (f, pc, loc) in enumerate(self.frames):
            live = f.live[pc] if i == n - 1 else f.live[pc + 1]
            if i != n - 1:
                dst = f.code[pc][1]
                live = [x for x in live if x != dst]
            parts.append((f.ix, pc, tuple([(x, rn.val(loc[x])) for x in sorted(live) if x in loc])))
        return tuple(parts)

    def prune(self):
        n = len(self.frames)
        for i, fr in enumerate(self.frames):
            f, pc, loc = fr
            live = f.live[pc] if i == n - 1 else f.live[pc + 1]
            for x in [x for x in loc if x not in live]:
                del loc[x]

    def longest(self):
        """Length of the longest list held."""
        best = 0

        def walk(v):
            nonlocal best
            if type(v) is tuple:
                if v and v[0] == "Q":
                    best = max(best, len(v[2]))
                for x in v:
                    if type(x) is tuple:
                        walk(x)
        for f, pc, loc in self.frames:
            for v in loc.values():
                walk(v)
        return best

    def where(self):
        return [f.name for f, pc, l in self.frames]


class _Failed:
    pass


FAILED = _Failed()
