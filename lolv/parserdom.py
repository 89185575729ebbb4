"""Domain of the parser analysis: an abstract stream of tokens behind the statement iterator.

A token is a symbolic datum refined lazily: `cls[id]` is the set of token classes ("atoms") it may
still belong to. The statement iterator is represented by what it guarantees (checked separately,
C11): it hands out the tokens of the current statement, and next_statement moves to the next one.
"""
from . import natives
from .interp import PUSHED, Event, NFrame, NullEnv, Split, Unsupported, State, Frame
from .joint import Engine, Joint, Mismatch, stack_of
from .refint import FAILED, NIL, Program, Ref


class TokenTypes:
    """Atoms of the token type, enumerated from the type definitions."""

    def __init__(self, p):
        self.p = p
        self.token = find_adt(p, "Token", ["lexer"])
        self.tt = find_adt(p, "TokenType", ["lexer"])
        self.tt_field = None
        for i, (n, ty) in enumerate(x[:2] for x in p.types[self.token]["vs"][0]["f"]):
            if ty == self.tt:
                self.tt_field = i
        if self.tt_field is None:
            raise Unsupported("Token has no field of type TokenType")
        self.keywords = find_adt(p, "Keywords", ["lexer"])
        self.atoms = []
        self._enum(self.tt, (), ())
        self.all = frozenset(range(len(self.atoms)))
        self.sets = {}

    def _enum(self, ty, prefix, names):
        p = self.p
        for vi, v in enumerate(p.types[ty]["vs"]):
            fs = v["f"]
            nm = names + (v["n"],)
            if len(fs) == 1:
                ft = p.types[fs[0][1]]
                if ft["k"] == "adt" and ft.get("enum") and (ft.get("path") or "").startswith("lexer"):
                    self._enum(fs[0][1], prefix + (vi,), nm)
                    continue
                if v["n"] == "Symbol":
                    self.atoms.append((prefix + (vi, "?"), nm + ("?",)))
                    self.atoms.append((prefix + (vi, ""), nm + ("other",)))
                    continue
            self.atoms.append((prefix + (vi,), nm))

    def cls(self, *names):
        """The set of atoms of the classes named ('Keyword.SRS', 'Identifier', 'Value', ...)."""
        s = self.sets.get(names)
        if s is None:
            s = set()
            for n in names:
                parts = tuple(n.split("."))
                m = {i for i, (c, nm) in enumerate(self.atoms) if nm[:len(parts)] == parts}
                if not m:
                    raise Unsupported("the token type has no class " + n)
                s |= m
            s = self.sets[names] = frozenset(s)
        return s

    def describe(self, atoms):
        if len(atoms) == len(self.all):
            return "any token"
        # group by leading class
        names = [".".join(self.atoms[a][1]) for a in sorted(atoms)]
        if len(names) > 5:
            tops = {}
            for a in atoms:
                tops.setdefault(self.atoms[a][1][0], []).append(a)
            out = []
            for t, xs in sorted(tops.items()):
                full = len(self.cls(t))
                if len(xs) == full:
                    out.append(t)
                elif len(xs) <= 2:
                    out += [".".join(self.atoms[a][1]) for a in xs]
                else:
                    out.append("%s(%d of %d)" % (t, len(xs), full))
            return "{" + ", ".join(out) + "}"
        return "|".join(names)


def find_adt(p, name, prefixes=None):
    c = [i for i, t in enumerate(p.types) if t["k"] == "adt" and (t.get("path") or "").split("::")[-1] == name
         and (t["path"].startswith("lexer") or t["path"].startswith("parser"))]
    if prefixes:
        d = [i for i in c if any(p.types[i]["path"].startswith(x) for x in prefixes)]
        c = d or c
    if len(c) != 1:
        raise Unsupported("type %s is not unique or missing (%d)" % (name, len(c)))
    return c[0]


class TokEnv(NullEnv):
    def __init__(self, tt, stream_atoms):
        self.tt = tt
        self.stream = stream_atoms
        self.cls = {}
        self.known = {}
        self.la = None
        self.start = False
        self.n = 0
        self.raw_la = None
        self.raw_got = None

    def copy(self):
        e = TokEnv.__new__(type(self))
        e.__dict__.update(self.__dict__)
        e.cls = dict(self.cls)
        e.known = dict(self.known)
        return e

    def fresh(self):
        self.n += 1
        return self.n

    def new_token(self, atoms=None):
        i = self.fresh()
        self.cls[i] = atoms if atoms is not None else self.stream
        return i

    def tokval(self, i):
        return ("D", "tok", i, (), self.tt.token)

    # ---- lookahead
    def look(self):
        """The state of the next position: ('tok', id) or 'end'; splits when unknown."""
        if self.la is None:
            def tok(s):
                s.env.la = ("tok", s.env.new_token())

            def end(s):
                s.env.la = "end"
            raise Split([("a token follows in the statement", tok),
                         ("the program ends" if self.start else "the statement ends", end)])
        return self.la

    # ---- symbolic data
    def atom_path(self, d):
        """Position of d inside the atoms of its token, or None."""
        path = d[3]
        if d[1] != "tok" or not path or path[0] != (0, self.tt.tt_field):
            return None
        return path[1:]

    def _atom_matches(self, code, path):
        """Is the datum at `path` below the token type present for this atom?"""
        for i, (v, f) in enumerate(path):
            if i >= len(code) or code[i] != v or f != 0:
                return False
        return True

    def variants(self, m, st, d):
        path = self.atom_path(d)
        if path is not None and m.p.types[d[4]].get("enum"):
            k = len(path)
            out = set()
            for a in self.cls[d[2]]:
                code = self.tt.atoms[a][0]
                if self._atom_matches(code, path) and len(code) > k:
                    out.add(code[k])
            if out and all(isinstance(x, int) for x in out):
                return frozenset(out)
        key = d[1:4]
        s = self.known.get(key)
        if s is None:
            t = m.p.types[d[4]]
            if not t.get("enum"):
                return frozenset([0])
            s = frozenset(range(len(t["vs"])))
        return s

    def restrict(self, m, st, d, vs):
        path = self.atom_path(d)
        if path is not None:
            k = len(path)
            keep = frozenset(a for a in self.cls[d[2]]
                             if self._atom_matches(self.tt.atoms[a][0], path)
                             and len(self.tt.atoms[a][0]) > k and self.tt.atoms[a][0][k] in vs)
            if keep:
                self.cls[d[2]] = keep
                return
        self.known[d[1:4]] = frozenset(vs)

    def known_variant(self, m, st, d):
        vs = self.variants(m, st, d)
        if len(vs) != 1:
            m.split_variants(st, d)
        return next(iter(vs))

    def project(self, m, st, d, variant, i, ty):
        if d[1] == "si":
            raise Unsupported("direct access to the fields of the statement iterator")
        path = d[3] + ((variant, i),)
        if m.p.types[ty]["k"] == "adt" and m.p.types[ty].get("box"):
            # a box is transparent: its content is the datum
            h = st.alloc(("D", d[1], d[2], path, m.p.types[ty]["args"][0]))
            return ("B", h)
        return ("D", d[1], d[2], path, ty)

    def element(self, m, st, v, e):
        raise Unsupported("element of an opaque sequence")

    def describe(self, m, d):
        return "%s%d%s" % (d[1], d[2], "".join("." + str(x[1]) for x in d[3]))

    def assume(self, st, key, val):
        self.known[key] = val

    def str_eq(self, m, st, x, y):
        d, c = (x, y) if x[0] == "D" else (y, x)
        if d[0] != "D":
            raise Unsupported("string comparison")
        path = self.atom_path(d)
        if path is not None and c[0] == "S":
            k = len(path)
            hit, miss = set(), set()
            for a in self.cls[d[2]]:
                code = self.tt.atoms[a][0]
                if self._atom_matches(code, path) and len(code) > k and isinstance(code[k], str):
                    if c[1] == "?":
                        (hit if code[k] == "?" else miss).add(a)
                    elif code[k] != "?":
                        hit = None
                        break
                    else:
                        miss.add(a)
            if hit is not None and (hit or miss):
                if not miss:
                    return True
                if not hit:
                    return False
                raise Split([("the symbol is '?'", lambda s: s.env._setcls(d[2], frozenset(hit))),
                             ("the symbol is not '?'", lambda s: s.env._setcls(d[2], frozenset(miss)))])
        key = ("streq", d, c)
        v = self.known.get(key)
        if v is None:
            raise Split([("the strings are equal", lambda s: s.env.assume(s, key, True)),
                         ("the strings differ", lambda s: s.env.assume(s, key, False))])
        return v

    def _setcls(self, i, s):
        self.cls[i] = s

    def seq_op(self, ctx, op, r, s, args):
        m, st = ctx.m, ctx.st
        if s is not None and s[0] == "D" and s[1] == "raw":
            if op in ("into_iter",):
                return ("It", "raw")
            if op in ("iter",):
                return ("It", "rawref")
            if op == "len":
                return ("N", 0)
        if s is not None and s[0] == "Q" and s[1] is not None:
            if op == "len":
                return ("N", min(1 + len(s[2]), 4))
            if op == "into_iter":
                return ("It", "segown", s[1], s[2])
            if op == "iter":
                return ("It", "segref", r, len(s[2]))
            if op in ("push_front", "insert"):
                # some other list; its length and its last items are still known
                if op == "push_front" or args[0] == ("i", 0):
                    m.write_ref(st, r, ("Q", ("#", "seg", self.fresh()), s[2]))
                    return natives.unit(ctx)
                m.write_ref(st, r, ("Q", ("#", "seg", self.fresh()), ()))
                return natives.unit(ctx)
        raise Unsupported("%s on an abstract sequence" % op)

    def iter_op(self, ctx, op, r, it):
        if it is not None and it[0] == "It" and it[1] in ("raw", "rawref"):
            if op == "next":
                x = self.raw_take()
                ty = ctx.ret_type()
                if x is None:
                    return ("A", ty, 0, ())
                if it[1] == "rawref":
                    x = ("R", ("C", x), (), None)
                return ("A", ty, 1, (x,))
            if op == "len":
                return ("N", 0)
        if it is not None and it[0] == "It" and it[1] == "segown" and it[3] and op in ("last", "next_back"):
            if op == "next_back":
                ctx.m.write_ref(ctx.st, r, it[:3] + (it[3][:-1],))
            return natives.some(ctx, it[3][-1])
        if it is not None and it[0] == "It" and it[1] == "segref" and it[3] and op in ("last", "next_back"):
            if op == "next_back":
                ctx.m.write_ref(ctx.st, r, it[:3] + (it[3] - 1,))
            return natives.some(ctx, natives.elem_ref(it[2], it[3] - 1))
        if it is not None and it[0] == "It" and it[1] in ("segown", "segref") and op in ("len", "count"):
            return ("N", 1)
        raise Unsupported("%s on an abstract iterator" % op)

    def raw_take(self):
        """Consumes one token of the argument of parse (an event), or None at its end."""
        if self.raw_got is not None:
            v = self.raw_got
            self.raw_got = None
            return v
        if self.raw_la == "end":
            return None
        raise Event("raw")

    def iter_take(self, m, st, d, i):
        it = st.frames[d].locals[i]
        if it[1] == "raw":
            return self.raw_take()
        raise Unsupported("abstract iterator")

    def iter_take_ref(self, m, st, d, i, ref):
        it = m.read_ref(st, ref) if ref is not None else st.frames[d].locals[i]
        x = None
        if it[1] in ("raw", "rawref"):
            x = self.raw_take()
            if x is not None and it[1] == "rawref":
                x = ("R", ("C", x), (), None)
            return x
        raise Unsupported("abstract iterator")

    # ---- text in tokens: each question has one answer per text, that is all that is known
    def native(self, ctx, inst, name, args):
        m, st = ctx.m, ctx.st
        try:
            d = natives.as_view(ctx, args[0]) if args else None
        except Unsupported:
            d = None
        if d is None or d[0] not in ("D", "S"):
            raise Unsupported("string operation " + inst.path)
        if name in ("len", "is_empty") and len(args) == 1:
            n = self.str_len(m, st, d)
            if name == "len":
                return n
            return self.binop(m, st, "Eq", n, ("i", 0), None) or natives.boolean(n == ("i", 0))
        if name in ("as_str", "as_bytes", "as_mut_str", "as_ref", "borrow", "deref", "trim_matches_none"):
            return d
        if name in ("to_string", "to_owned", "clone", "into_boxed_str", "into_string"):
            return ("Str", d)
        if name in ("starts_with", "ends_with", "contains", "eq_ignore_ascii_case") and len(args) == 2:
            x = args[1]
            while x is not None and x[0] == "R":
                x = m.read_ref(st, x)
            if x is not None and x[0] == "Str":
                x = x[1]
            if x is not None and x[0] == "i":
                x = ("S", chr(x[1]))
            if x is None or x[0] != "S":
                raise Unsupported("string operation " + inst.path)
            d = self.symbol(st, d)
            if d[0] == "S":
                a, b = d[1], x[1]
                return natives.boolean({"starts_with": a.startswith(b), "ends_with": a.endswith(b), "contains": b in a,
                                        "eq_ignore_ascii_case": a.lower() == b.lower()}[name])
            return natives.boolean(self.memo(("streq", d, ("S", name + " " + x[1])), "%s %r" % (name, x[1])))
        raise Unsupported("string operation " + inst.path)

    def memo(self, key, what):
        v = self.known.get(key)
        if v is None:
            raise Split([(what, lambda s: s.env.assume(s, key, True)), ("not " + what, lambda s: s.env.assume(s, key, False))])
        return v

    def symbol(self, st, d):
        """The text of a symbol token is '?' or not."""
        path = self.atom_path(d) if d[0] == "D" else None
        if path is None:
            return d
        k = len(path)
        codes = {a: self.tt.atoms[a][0] for a in self.cls[d[2]]}
        hit = {a for a, c in codes.items() if self._atom_matches(c, path) and len(c) > k and c[k] == "?"}
        if not hit:
            return d
        if len(hit) == len(codes):
            return ("S", "?")
        miss = frozenset(codes) - hit
        raise Split([("the symbol is '?'", lambda s: s.env._setcls(d[2], frozenset(hit))),
                     ("the symbol is not '?'", lambda s: s.env._setcls(d[2], miss))])

    def str_len(self, m, st, a):
        if a is not None and a[0] == "Str":
            a = a[1]
        if a is not None and a[0] == "D":
            a = self.symbol(st, a)
        if a is not None and a[0] == "S":
            return ("i", len(a[1].encode()))
        if a is not None and a[0] == "D":
            return ("Ln", a)
        return ("T",)

    def binop(self, m, st, op, a, b, ty):
        if a is None or b is None or "Ln" not in (a[0], b[0]) or op not in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return None
        if a[0] != "Ln":
            a, b = b, a
            op = {"Lt": "Gt", "Le": "Ge", "Gt": "Lt", "Ge": "Le"}.get(op, op)
        if b[0] != "i":
            return ("i", int(op in ("Eq", "Le", "Ge"))) if a == b else None
        k = b[1]
        key = ("streq", a[1], ("S", "length"))
        lo, hi = self.known.get(key, (0, 1 << 62))
        parts = {"Lt": (k - 1,), "Ge": (k - 1,), "Le": (k,), "Gt": (k,), "Eq": (k - 1, k), "Ne": (k - 1, k)}[op]
        cuts = [c for c in parts if lo <= c < hi]
        if cuts:
            ways, x = [], lo
            for c in cuts + [hi]:
                ways.append((x, c))
                x = c + 1
            raise Split([("the length is %d..%s" % (w[0], w[1] if w[1] < 1 << 62 else ""),
                          (lambda w: lambda s: s.env.assume(s, key, w))(w)) for w in ways])
        return ("i", int({"Lt": lo < k, "Ge": lo >= k, "Le": lo <= k, "Gt": lo > k, "Eq": lo == hi == k,
                          "Ne": not lo == hi == k}[op]))

    def seq_len(self, m, st, a):
        return ("T",)


# ---- finding the functions the analysis is anchored at ------------------------------------------
def ret_ty(p, inst):
    return p.bodies[inst.body].locals[0] if inst.body is not None else None


def arg_tys(p, inst):
    b = p.bodies[inst.body]
    return b.locals[1:b.argc + 1]


class Anchors:
    def __init__(self, p, tt):
        self.p = p
        T = p.types
        self.si = find_adt(p, "StatementIterator")
        self.expr_ty = find_adt(p, "ASTExpression")
        self.node_ty = find_adt(p, "Node")
        self.err_ty = find_adt(p, "ASTErrorType")
        self.block_ty = find_adt(p, "ASTBlock")

        def is_si_ref(t):
            return T[t]["k"] == "ref" and T[t]["to"] == self.si

        def opt_of(t, x):
            return T[t]["k"] == "adt" and T[t]["path"] == "std::option::Option" and T[t]["args"][0] == x
        loc = [i for i in p.insts if i.local and i.body is not None]

        def one(what, preferred, pred):
            c = [i for i in loc if i.path == preferred and pred(i)]
            if not c:
                c = [i for i in loc if pred(i) and "{closure" not in i.path]
            if len(c) != 1:
                raise Unsupported("cannot identify %s (%d candidates)" % (what, len(c)))
            return c[0]
        SI = "parser::statement_iterator::StatementIterator"
        self.next = one("the iterator's next", "<%s as std::iter::Iterator>::next" % SI,
                        lambda i: i.trait is not None and i.name == "next" and is_si_ref(arg_tys(p, i)[0]))
        self.peek = one("the iterator's peek", SI + "::peek",
                        lambda i: len(arg_tys(p, i)) == 1 and is_si_ref(arg_tys(p, i)[0]) and
                        T[ret_ty(p, i)]["k"] == "adt" and T[ret_ty(p, i)]["path"] == "std::option::Option" and
                        T[T[ret_ty(p, i)]["args"][0]]["k"] == "ref" and T[T[ret_ty(p, i)]["args"][0]]["to"] == tt.token)
        self.adv = one("next_statement", SI + "::next_statement",
                       lambda i: len(arg_tys(p, i)) == 1 and is_si_ref(arg_tys(p, i)[0]) and
                       "VecDeque<" in T[ret_ty(p, i)]["n"] and T[ret_ty(p, i)]["k"] == "adt")
        self.new = one("StatementIterator::new", SI + "::new",
                       lambda i: len(arg_tys(p, i)) == 1 and ret_ty(p, i) == self.si and i.name == "new")

        def parser_fn(ret_arg):
            def pred(i):
                a = arg_tys(p, i)
                r = T[ret_ty(p, i)]
                return len(a) == 2 and tt.token in a and any(is_si_ref(x) for x in a) and r["k"] == "adt" \
                    and r["path"] == "std::result::Result" and r["args"][:2] == [ret_arg, self.err_ty]
            return pred
        self.expr = one("the expression parser", "parser::expression::ASTExpression::parse", parser_fn(self.expr_ty))
        self.stmt = one("the statement parser", "parser::statements::parse_statement", parser_fn(self.node_ty))
        self.parse = one("parse", "parser::parse",
                         lambda i: len(arg_tys(p, i)) == 1 and ret_ty(p, i) == self.block_ty and
                         "Vec<" in T[arg_tys(p, i)[0]]["n"])


class ParserDomain:
    """Compares the events of the implementation and of the reference grammar."""

    def __init__(self, m, tt, anchors, root):
        self.m = m
        self.tt = tt
        self.a = anchors
        self.root = root
        self.p = m.p
        self.first = None
        self.obligations = {}
        self.err_seen = {}

    # ---- primitives of the implementation
    def prims(self):
        a = self.a

        def opt(inst, v):
            ty = natives.ret_type(self.m, inst.ix)
            return ("A", ty, 1, (v,)) if v is not None else ("A", ty, 0, ())

        def nxt(m, st, inst, args):
            la = st.env.look()
            if la == "end":
                return opt(inst, None)
            raise Event("next", inst.ix)

        def peek(m, st, inst, args):
            la = st.env.look()
            if la == "end":
                return opt(inst, None)
            return opt(inst, ("R", ("C", st.env.tokval(la[1])), (), None))

        def adv(m, st, inst, args):
            top = st.frames[-1]
            t = None
            if isinstance(top, Frame):
                t = top.body.blocks[top.bb][1]
            nf = NFrame("si_rest", [("Q", None, ())], {"ret": natives.ret_type(m, inst.ix)})
            nf.ret = (t[3], t[4]) if t is not None else None
            st.frames.append(nf)
            return PUSHED

        def expr(m, st, inst, args):
            raise Event("expr", pick(m, st, args, self.tt.token), inst.ix)

        def stmt(m, st, inst, args):
            raise Event("stmt", pick(m, st, args, self.tt.token), inst.ix)

        def new(m, st, inst, args):
            if self.root != "parse":
                raise Unsupported("a second statement iterator")
            raise Event("start", args[0], inst.ix)

        return {a.next.ix: nxt, a.peek.ix: peek, a.adv.ix: adv, a.expr.ix: expr, a.stmt.ix: stmt,
                a.new.ix: new}

    # ---- engine interface
    def roots(self, j):
        e = j.env
        out = []
        if self.first is not None:
            out.append(("D", "tok", self.first, (), self.tt.token))
        if isinstance(e.la, tuple):
            out.append(("#", "tok", e.la[1]))
        else:
            out.append(e.la)
        out.append(e.start)
        out.append(e.raw_la)
        out.append(e.raw_got)
        return tuple(out)

    def env_key(self, j, rn):
        e = j.env
        out = []
        for (k, n), x in sorted(rn.ids.items(), key=lambda kv: kv[1]):
            if k == "tok":
                out.append((x, e.cls.get(n)))
        live = set(rn.ids)
        ks = []
        for key, v in e.known.items():
            if key[0] == "streq":
                if all(y[0] != "D" or (y[1], y[2]) in live for y in key[1:]):
                    ks.append((("streq",) + tuple(rn.val(y) for y in key[1:]), v))
            elif (key[0], key[1]) in live:
                ks.append(((key[0], rn.ids[(key[0], key[1])], key[2]), v))
        ks.sort(key=repr)
        return (tuple(out), tuple(ks))

    def forget(self, j, rn):
        e = j.env
        live = set(rn.ids)
        for n in [n for n in e.cls if ("tok", n) not in live]:
            del e.cls[n]
        for key in list(e.known):
            if key[0] == "streq":
                if not all(y[0] != "D" or (y[1], y[2]) in live for y in key[1:]):
                    del e.known[key]
            elif (key[0], key[1]) not in live:
                del e.known[key]

    def same(self, j, iv, rv):
        try:
            return self.diff(j, iv, rv) is None
        except (Unsupported, Split):
            return False

    def diff(self, j, iv, rv, path="result"):
        """None if the implementation's value iv is the reference's value rv, else a message."""
        st = j.st
        if iv is None:
            return "%s is not initialised" % path
        if iv[0] == "B":
            return self.diff(j, st.heap.get(iv[1]), rv, path)
        if iv[0] == "Dv":
            iv = iv[1]
        if rv[0] == "D" and iv[0] == "D":
            if iv[1:4] == rv[1:4]:
                return None
            return "%s is %s, expected %s" % (path, self.show(j, iv), self.show(j, rv))
        if rv[0] == "D" and iv[0] == "A":
            t = self.p.types[iv[1]] if iv[1] is not None else None
            if t is None or iv[1] != rv[4]:
                return "%s is %s, expected %s" % (path, self.show(j, iv), self.show(j, rv))
            if t.get("enum") and st.env.variants(self.m, st, rv) != frozenset([iv[2]]):
                return "%s is %s, expected %s" % (path, self.show(j, iv), self.show(j, rv))
            for i, x in enumerate(iv[3]):
                fty = self.p.field_ty(iv[1], iv[2], i)
                y = ("D", rv[1], rv[2], rv[3] + ((iv[2], i),), fty)
                r = self.diff(j, x, y, "%s.%s" % (path, self.p.field_name(iv[1], iv[2], i)))
                if r:
                    return "%s is rebuilt: %s" % (path, r)
            return None
        if rv[0] == "A" and iv[0] == "D":
            t = self.p.types[iv[4]]
            if (rv[1] is not None and rv[1] != iv[4]) or t["k"] != "adt" or \
                    (rv[1] is None and t["path"] != "std::option::Option"):
                return "%s is %s, expected %s" % (path, self.show(j, iv), self.show(j, rv))
            if t.get("enum") and st.env.variants(self.m, st, iv) != frozenset([rv[2]]):
                return "%s is %s, expected %s" % (path, self.show(j, iv), self.show(j, rv))
            for i, y in enumerate(rv[3]):
                fty = self.p.field_ty(iv[4], rv[2], i)
                x = ("D", iv[1], iv[2], iv[3] + ((rv[2], i),), fty)
                r = self.diff(j, x, y, path)
                if r:
                    return r
            return None
        if rv[0] == "A" and iv[0] == "A":
            if rv[1] is not None and iv[1] is not None and rv[1] != iv[1]:
                return "%s is %s, expected %s" % (path, self.show(j, iv), self.show(j, rv))
            if iv[2] != rv[2] or len(iv[3]) != len(rv[3]):
                return "%s is %s, expected %s" % (path, self.show(j, iv), self.show(j, rv))
            for i, (x, y) in enumerate(zip(iv[3], rv[3])):
                nm = self.p.field_name(iv[1], iv[2], i) if iv[1] is not None else str(i)
                r = self.diff(j, x, y, "%s.%s" % (path, nm))
                if r:
                    return r
            return None
        if rv[0] == "Q" and iv[0] == "Q":
            if iv[1] != rv[1] or len(iv[2]) != len(rv[2]):
                return "%s has other items: %s, expected %s" % (path, self.show(j, iv), self.show(j, rv))
            for i, (x, y) in enumerate(zip(iv[2], rv[2])):
                r = self.diff(j, x, y, "%s[%d]" % (path, i))
                if r:
                    return r
            return None
        if iv == rv:
            return None
        return "%s is %s, expected %s" % (path, self.show(j, iv), self.show(j, rv))

    def show(self, j, v, depth=0):
        if v is None:
            return "?"
        if v == NIL:
            return "nothing"
        if v[0] == "B":
            return self.show(j, j.st.heap.get(v[1]), depth)
        if v[0] == "Dv":
            v = v[1]
        if v[0] == "D":
            nm = {"tok": "token", "expr": "expression", "err": "error", "node": "statement"}.get(v[1], v[1])
            s = "%s#%s" % (nm, v[2])
            if v[1] == "tok" and v[2] in j.env.cls:
                s += "(%s)" % self.tt.describe(j.env.cls[v[2]])
            for x in v[3]:
                s += ".%d" % x[1]
            return s
        if v[0] == "A":
            t = self.p.types[v[1]] if v[1] is not None else None
            if t is not None and t["k"] == "adt":
                nm = t["path"].split("::")[-1]
                if t.get("enum"):
                    vn = t["vs"][v[2]]["n"]
                    nm = vn if nm in ("Option", "Result") else nm + "::" + vn
            else:
                nm = "" if t is not None or v[3] or v[2] else "None"
                if t is None and v[2] == 1:
                    nm = "Some"
            if depth > 6:
                return nm + "(..)"
            if not v[3]:
                return nm
            return nm + "(" + ", ".join(self.show(j, x, depth + 1) for x in v[3]) + ")"
        if v[0] == "Q":
            s = ", ".join(self.show(j, x, depth + 1) for x in v[2])
            return "[" + (".. " if v[1] is not None else "") + s + "]"
        return str(v[1]) if len(v) > 1 else v[0]

    def step(self, eng, j, sev):
        ev = j.ev
        m = self.m
        if ev[0] == "ret" or sev[0] == "ret":
            if ev[0] != sev[0]:
                raise Mismatch("event", "%s where %s" % (self.show_ev(j, ev, "the code"), self.show_ev(j, sev, "the grammar")),
                               self.where(j))
            self.finish(eng, j, ev[1], j.ref.result)
            return None
        if ev[0] != sev[0]:
            raise Mismatch("event", "%s where %s" % (self.show_ev(j, ev, "the code"), self.show_ev(j, sev, "the grammar")),
                           self.where(j))
        j.info = dict(j.info, stack=stack_of(j.st))
        k = ev[0]
        if k == "next":
            def f(x):
                e = x.env
                i = e.la[1]
                e.la = None
                e.start = False
                v = e.tokval(i)
                if isinstance(x.st.frames[-1], NFrame) and x.st.frames[-1].kind == "si_rest":
                    m.resume_native(x.st, x.st.frames[-1], v)
                else:
                    m.finish_call(x.st, ("A", natives.ret_type(m, ev[1]), 1, (v,)))
                x.ref.give(v)
            i = j.env.la[1]
            return [("token#%d %s is consumed" % (i, self.tt.describe(j.env.cls[i])), f)]
        if k == "adv":
            def f(x):
                e = x.env
                e.la = None
                e.start = True
                m.finish_call(x.st, ("A", None, 0, ()))
                x.ref.give(NIL)
            return [("the next statement starts", f)]
        if k in ("expr", "stmt"):
            r = self.diff(j, ev[1], sev[1], "the token given to the %s parser" % ("expression" if k == "expr" else "statement"))
            if r:
                raise Mismatch("event", r, self.where(j))
            rty = natives.ret_type(m, ev[2])
            okty = self.a.expr_ty if k == "expr" else self.a.node_ty

            def ok(x):
                e = x.env
                e.la = None
                e.start = False
                v = ("D", "expr" if k == "expr" else "node", e.fresh(), (), okty)
                m.finish_call(x.st, ("A", rty, 0, (v,)))
                x.ref.give(v)

            def err(x):
                e = x.env
                e.la = None
                e.start = False
                v = ("D", "err", e.fresh(), (), self.a.err_ty)
                m.finish_call(x.st, ("A", rty, 1, (v,)))
                if k == "expr":
                    x.ref.fail(v)
                else:
                    x.ref.give(self.node_err(v))
            what = "expression" if k == "expr" else "statement"
            return [("the nested %s is parsed" % what, ok), ("the nested %s is malformed" % what, err)]
        if k == "raw":
            def tok(x):
                e = x.env
                v = e.tokval(e.new_token(self.tt.all))
                e.raw_got = v
                x.ref.give(v)

            def end(x):
                x.env.raw_la = "end"
                x.ref.give(NIL)
            return [("a token is given", tok), ("the tokens end", end)]
        if k == "start":
            r = self.diff(j, ev[1], sev[1], "the tokens parsed")
            if r:
                raise Mismatch("result", r, self.where(j))
            self.count("filter")

            def f(x):
                x.info = dict(x.info, started=True)
                x.env.la = None
                x.env.start = False
                m.finish_call(x.st, ("D", "si", 0, (), self.a.si))
                x.ref.give(NIL)
            return [("the statements are read", f)]
        raise Unsupported("event " + k)

    def node_err(self, e):
        ty = self.a.node_ty
        for i, v in enumerate(self.p.types[ty]["vs"]):
            if len(v["f"]) == 1 and v["f"][0][1] == self.a.err_ty:
                return ("A", ty, i, (e,))
        raise Unsupported("the statement node has no error variant")

    def show_ev(self, j, ev, who):
        k = ev[0]
        if k == "ret":
            v = ev[1]
            if who == "the grammar":
                return "%s %s" % (who, ("reports " if j.ref.failed else "gives ") + self.show(j, v))
            return "%s returns %s" % (who, self.show(j, v))
        if k == "next":
            i = j.env.la[1]
            return "%s takes token#%d(%s)" % (who, i, self.tt.describe(j.env.cls[i]))
        if k == "adv":
            return "%s moves to the next statement" % who
        if k in ("expr", "stmt"):
            return "%s parses %s from %s" % (who, "an expression" if k == "expr" else "a statement", self.show(j, ev[1]))
        if k == "raw":
            return "%s takes the next token" % who
        return "%s starts reading statements" % who

    def where(self, j):
        return stack_of(j.st) or j.info.get("stack", [])

    def count(self, key, n=1):
        self.obligations[key] = self.obligations.get(key, 0) + n

    def finish(self, eng, j, iv, rv):
        """Both have returned: compare the results."""
        st = j.st
        failed = j.ref.failed
        cons = self.construct(j)
        if self.root == "parse":
            exp = rv
            r = self.diff(j, iv, exp)
        else:
            if iv is None or iv[0] != "A":
                raise Unsupported("the parser's result is not known")
            if iv[2] != (1 if failed else 0):
                raise Mismatch("result", "the code returns %s where the grammar %s %s" % (
                    self.show(j, iv), "reports" if failed else "gives", self.show(j, rv)), self.where(j))
            r = self.diff(j, iv[3][0], rv, "the error" if failed else "the node")
        if r:
            raise Mismatch("result", r, self.where(j))
        self.count((cons, "err" if failed else "ok"))
        if failed and rv[0] == "A":
            nm = self.show(j, rv).split("(")[0]
            if rv[3] and rv[3][0][0] == "A":
                nm += "::" + self.show(j, rv[3][0]).split("(")[0]
            self.err_seen[nm] = self.err_seen.get(nm, 0) + 1

    # ---- attribution
    def construct(self, j):
        """The construct of the first token, as far as it is determined."""
        if self.first is None:
            return "program"
        names = {self.tt.atoms[a][1] for a in j.env.cls.get(self.first, ())}
        return construct_of(names, self.root)

    def classify(self, eng, f):
        j = f.joint
        if f.kind == "panic":
            f.props = ["C09"]
            if self.root == "parse":
                f.props.append("C12")
            return
        if f.kind == "nontermination":
            f.props = ["C10"]
            return
        if self.root == "parse":
            f.props = ["C12"] if j.info.get("started") else ["C22"]
            return
        props = set()
        names = {self.tt.atoms[a][1] for a in j.env.cls.get(self.first, ())}
        for n in names:
            props |= set(PROPS_OF.get(construct_of([n], self.root), ()))
        ref_err = j.ref.failed
        impl_err = bool(j.ev and j.ev[0] == "ret" and j.ev[1] is not None and j.ev[1][0] == "A" and j.ev[1][2] == 1)
        if f.kind == "result" and ref_err and impl_err:
            # both reject the statement: only the error differs
            f.props = ["C21"]
            return
        if ref_err or impl_err or f.kind != "result":
            props.add("C21")
        fns = [n for n, _ in f.stack]
        rf = j.ref.where()
        evs = {j.ev[0] if j.ev else None}
        if any(x.startswith("block_") or x in ("finish_statement", "end_of_line") for x in rf) or \
                any("parser::blocks::" in n for n in fns) or "adv" in evs or "stmt" in evs:
            props.add("C12")
        if any(x in ("identifier", "variable", "var") for x in rf) or \
                any("variable_access" in n or "identifier::Identifier" in n for n in fns):
            props.add("C20")
        if "ASTType" in f.message:
            props.add("C20")
        if not ref_err and (impl_err or f.kind != "result"):
            # a construct of the grammar is not accepted as it is written
            props.add("C29")
        f.props = sorted(props)


BINARY = ["BOTH_OF", "EITHER_OF", "WON_OF", "SUM_OF", "DIFF_OF", "PRODUKT_OF", "QUOSHUNT_OF", "MOD_OF",
          "BIGGR_OF", "SMALLR_OF", "BOTH_SAEM", "DIFFRINT"]
OPERATORS = BINARY + ["NOT", "ALL_OF", "ANY_OF", "SMOOSH"]
CONS = {}
for _k in OPERATORS:
    CONS[("Keyword", _k)] = "operator"
for _k, _c in (("I_HAS_A", "i_has_a"), ("VISIBLE", "visible"), ("GIMMEH", "gimmeh"), ("FOUND_YR", "found_yr"),
               ("HAI", "hai"), ("KTHXBYE", "kthxbye"), ("GTFO", "gtfo"), ("I_IZ", "i_iz"),
               ("IM_IN_YR", "im_in_yr"), ("HOW_IZ_I", "how_iz_i"), ("WTF", "wtf"), ("O_RLY", "o_rly"),
               ("SRS", "variable"), ("NOOB", "value")):
    CONS[("Keyword", _k)] = _c
PROPS_OF = {"operator": ["C19"], "i_has_a": ["C13"], "visible": ["C14"], "gimmeh": ["C14"],
            "found_yr": ["C14"], "hai": ["C14"], "kthxbye": ["C14"], "gtfo": ["C14"], "i_iz": ["C15"],
            "how_iz_i": ["C15"], "im_in_yr": ["C16"], "o_rly": ["C17"], "wtf": ["C18"],
            "variable": ["C20"], "variable statement": ["C13"], "value": ["C20"], "other": ["C21"],
            "several": ["C21"], "program": ["C12"]}


def construct_of(names, root):
    out = set()
    for n in names:
        if n[0] == "Identifier":
            out.add("variable")
        elif n[0] == "Value":
            out.add("value")
        elif n[0] == "Keyword":
            out.add(CONS.get(n[:2], "other"))
        else:
            out.add("other")
    if len(out) != 1:
        return "several"
    c = out.pop()
    if c == "variable" and root == "stmt":
        return "variable statement"
    return c


def pick(m, st, args, ty):
    """The token among the arguments of a parser function."""
    for a in args:
        if a is not None and a[0] == "D" and a[4] == ty:
            return a
        if a is not None and a[0] == "A" and a[1] == ty:
            return a
    raise Unsupported("token argument")


@natives.resume("si_rest")
def _si_rest(m, st, fr):
    if fr.pending is not None:
        v = fr.pending[1]
        fr.pending = None
        if v[0] == "A" and v[1] is None:          # moved to the next statement
            m.native_return(st, fr.locals[0])
            return
        a = fr.locals[0]
        fr.locals[0] = ("Q", a[1], a[2] + (v,))
    la = st.env.look()
    if la == "end":
        if st.env.start:
            m.native_return(st, fr.locals[0])
            return
        raise Event("adv")
    raise Event("next", None)


# ---- primitives of the reference grammar --------------------------------------------------------
class Shapes:
    """Builds node values from type and field names."""

    def __init__(self, p):
        self.p = p
        self.cache = {}

    def lookup(self, name):
        r = self.cache.get(name)
        if r is None:
            parts = name.split("::")
            ty = find_adt(self.p, parts[0])
            v = 0
            if len(parts) > 1:
                v = self.p.variant_ix(ty, parts[1])
                if v is None:
                    raise Unsupported("%s has no variant %s" % (parts[0], parts[1]))
            fields = {x[0]: i for i, x in enumerate(self.p.types[ty]["vs"][v]["f"])}
            r = self.cache[name] = (ty, v, fields)
        return r

    def make(self, name, args, kw):
        ty, v, fields = self.lookup(name)
        vals = [None] * len(fields)
        for i, a in enumerate(args):
            vals[i] = a
        for k, a in kw.items():
            if k not in fields:
                raise Unsupported("%s has no field %s" % (name, k))
            vals[fields[k]] = a
        if any(x is None for x in vals):
            raise Unsupported("%s has other fields than the grammar" % name)
        return ("A", ty, v, tuple(vals))


NONE = ("A", None, 0, ())


def ref_prims(tt, shapes):
    def split_cls(env, i, s, what):
        cur = env.cls[i]
        hit = cur & s
        if not hit:
            return False
        if hit == cur:
            return True
        miss = cur - s
        raise Split([("token#%d is %s" % (i, tt.describe(hit)), lambda st: st.env._setcls(i, hit)),
                     ("token#%d is not %s" % (i, tt.describe(hit)) if len(hit) < len(miss) else
                      "token#%d is %s" % (i, tt.describe(miss)), lambda st: st.env._setcls(i, miss))])

    def is_(j, t, *names):
        if t[0] != "D" or t[1] != "tok":
            raise Unsupported("class test of a token")
        return ("i", int(split_cls(j.env, t[2], tt.cls(*names), names)))

    def peek(j):
        la = j.env.look()
        return NIL if la == "end" else j.env.tokval(la[1])

    def peek_is(j, *names):
        la = j.env.look()
        if la == "end":
            return ("i", 0)
        return ("i", int(split_cls(j.env, la[1], tt.cls(*names), names)))

    def next_(j):
        la = j.env.look()
        if la == "end":
            return NIL
        raise Event("next")

    def adv(j):
        la = j.env.look()
        if la == "end" and j.env.start:
            return NIL
        raise Event("adv")

    def fail(j, e):
        j.ref.fail(e)
        return FAILED

    def raw_next(j):
        if j.env.raw_la == "end":
            return NIL
        raise Event("raw")

    def event(kind):
        def f(j, *a):
            raise Event(kind, *a)
        return f

    def ident_name(j, i):
        ty, v, fields = shapes.lookup("Identifier")
        return i[3][fields["name"]]
    return {
        "is_": is_, "peek": peek, "peek_is": peek_is, "next": next_, "adv": adv, "fail": fail,
        "EXPR": event("expr"), "STMT": event("stmt"), "start": event("start"), "raw_next": raw_next,
        "mk": lambda j, ty__, *a, **kw: shapes.make(ty__, a, kw),
        "mkv": lambda j, ty, v, x: shapes.make(ty + "::" + v, (x,), {}),
        "Some": lambda j, x: ("A", None, 1, (x,)),
        "pair": lambda j, a, b: ("P", a, b), "fst": lambda j, p: p[1], "snd": lambda j, p: p[2],
        "ident_name": ident_name,
    }


ROOTS = {"expr": "expression", "stmt": "statement", "parse": "program"}


class ParserAnalysis:
    def __init__(self, p, fold=True, **kw):
        import os
        from .interp import Interp
        self.p = p
        self.kw = kw
        self.fold = fold
        self.tt = TokenTypes(p)
        self.anchors = Anchors(p, self.tt)
        self.shapes = Shapes(p)
        text = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "spec_parser.txt")).read()
        self.prog = Program(text, ref_prims(self.tt, self.shapes), {"none": NONE})
        hidden = self.tt.cls("Comma", "Ellipsis", "CommentSingleLine", "CommentMultiLine")
        self.stream = self.tt.all - hidden

    def run(self, root, first=None):
        from .interp import Interp
        m = Interp(self.p)
        d = ParserDomain(m, self.tt, self.anchors, root)
        m.prims = d.prims()
        env = TokEnv(self.tt, self.stream)
        st = State(env)
        a = self.anchors
        if root == "parse":
            inst = a.parse
            args = [("D", "raw", 0, (), arg_tys(self.p, inst)[0])]
            ref = Ref(self.prog, "program")
        else:
            inst = a.expr if root == "expr" else a.stmt
            t = env.new_token(first)
            d.first = t
            si = st.alloc(("D", "si", 0, (), a.si))
            args = []
            for ty in arg_tys(self.p, inst):
                args.append(env.tokval(t) if ty == self.tt.token else ("R", ("H", si), (), None))
            ref = Ref(self.prog, ROOTS[root], [env.tokval(t)])
        m.push_body(st, inst, args, None)
        j = Joint(st, ref)
        eng = Engine(m, d, fold=self.fold, **self.kw)
        eng.explore(j)
        return m, d, eng
