"""Abstract interpreter for the exported MIR.

The interpreter executes one abstract state until it needs a choice that the abstract state does not
determine (`Split`: the caller forks the state, one copy per option, and each copy re-executes the
same construct), until it reaches an event the analysis watches (`Event`), or until it finishes.
Values are immutable tuples:

  ('i', n)                      integer, bool, char
  ('f', x)                      float constant
  ('S', text)                   constant string slice
  ('A', ty, variant, fields)    struct / enum / tuple / closure / array
  ('R', cell, proj, meta)       reference; cell ('L', frame, local) | ('H', n) | ('C', value)
  ('B', n)                      Box, pointing to heap cell n
  ('F', inst)                   function item
  ('Q', seg, items)             Vec / VecDeque (seg: None or an abstract prefix segment)
  ('It', kind, ...)             library iterators modelled by this file
  ('D', kind, id, path, ty)     symbolic datum, refined lazily by the domain
  ('disc', D)                   discriminant of a symbolic datum
  ('T',)                        unknown scalar

Anything not understood raises Unsupported: the analysis then reports that it could not establish
the property (fail closed).
"""

UNIT = None


class Unsupported(Exception):
    pass


class NoProgress(Unsupported):
    """The code runs on without consuming input."""


class Split(Exception):
    """options: list of (label, function(state) -> None)."""

    def __init__(self, options):
        self.options = options


class Panic(Exception):
    def __init__(self, what, loc=None):
        self.what = what
        self.loc = loc


class Event(Exception):
    """Raised by a primitive: the analysis handles it and then calls state.finish_call(value)."""

    def __init__(self, kind, *args):
        self.kind = kind
        self.args = args


class PushFrame(Exception):
    def __init__(self, frame):
        self.frame = frame


PANIC_PREFIX = ("core::panicking::", "std::rt::panic", "std::rt::begin_panic",
                "core::str::slice_error_fail", "core::slice::index::slice_", "std::option::unwrap_failed",
                "std::option::expect_failed", "std::result::unwrap_failed", "std::process::abort",
                "std::panicking::", "core::panic", "std::process::exit", "std::cell::panic_",
                "std::alloc::handle_alloc_error")


class Frame:
    __slots__ = ("body", "bb", "si", "locals", "ret", "inst", "arrived", "loops")

    def __init__(self, body, locs, ret, inst=None):
        self.body = body
        self.bb = 0
        self.si = 0
        self.locals = locs
        self.ret = ret          # (place, target) in the caller, or None
        self.inst = inst
        self.arrived = False    # at the start of a block
        self.loops = {}         # loop head -> how far the loop has got (turns.py)

    def copy(self):
        f = Frame.__new__(Frame)
        f.arrived = self.arrived
        f.loops = self.loops
        f.body = self.body
        f.bb = self.bb
        f.si = self.si
        f.locals = list(self.locals)
        f.ret = self.ret
        f.inst = self.inst
        return f

    def key(self, st, depth, live):
        return (self.body.ix, self.bb, self.si)


class NFrame:
    """A library loop modelled by this file, between two calls it makes."""
    __slots__ = ("kind", "locals", "data", "ret", "pending")

    def __init__(self, kind, locs, data, ret=None):
        self.kind = kind
        self.locals = locs
        self.data = data
        self.ret = ret
        self.pending = None

    def copy(self):
        f = NFrame(self.kind, list(self.locals), self.data, self.ret)
        f.pending = self.pending
        return f


class State:
    __slots__ = ("frames", "heap", "nheap", "env", "result", "steps")

    def __init__(self, env):
        self.frames = []
        self.heap = {}
        self.nheap = 0
        self.env = env
        self.result = None
        self.steps = 0

    def copy(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.heap = dict(self.heap)
        s.nheap = self.nheap
        s.env = self.env.copy()
        s.result = self.result
        s.steps = self.steps
        return s

    def alloc(self, v):
        n = self.nheap
        self.nheap = n + 1
        self.heap[n] = v
        return n


def is_int(v):
    return v is not None and v[0] == "i"


MASKS = {}


class Interp:
    STEP_LIMIT = 60000

    def __init__(self, prog, prims=None):
        self.p = prog
        self.prims = prims or {}          # inst ix -> handler(interp, st, inst, args, call)
        self.natives = {}
        self.native_cache = {}
        self.const_cache = {}
        self.covered = {}                 # body ix -> set of blocks visited
        self.sites = 0
        self.on_turn = None               # called when a loop head is reached
        from . import natives
        natives.install(self)

    # ---- types ---------------------------------------------------------------------------
    def T(self, i):
        return self.p.types[i]

    def place_ty(self, fr, place):
        ty = fr.body.locals[place[0]]
        for e in place[1:]:
            if e[0] == "f":
                ty = e[2]
            elif e[0] == "d":
                ty = self.pointee(ty)
            elif e[0] in ("i", "ci"):
                ty = self.T(ty)["of"]
        return ty

    def pointee(self, ty):
        t = self.T(ty)
        if t["k"] in ("ref", "ptr"):
            return t["to"]
        if t["k"] == "adt" and t.get("box"):
            return t["args"][0]
        raise Unsupported("pointee of " + t["n"])

    # ---- memory --------------------------------------------------------------------------
    def cell_get(self, st, cell):
        k = cell[0]
        if k == "L":
            return st.frames[cell[1]].locals[cell[2]]
        if k == "H":
            return st.heap[cell[1]]
        if k == "C":
            return cell[1]
        raise Unsupported("cell " + str(k))

    def cell_set(self, st, cell, v):
        k = cell[0]
        if k == "L":
            st.frames[cell[1]].locals[cell[2]] = v
        elif k == "H":
            st.heap[cell[1]] = v
        else:
            raise Unsupported("write to constant memory")

    def read_ref(self, st, r):
        """The value a reference points to."""
        if r is None:
            raise Unsupported("use of uninitialised reference")
        if r[0] == "R":
            v = self.cell_get(st, r[1])
            for e in r[2]:
                v = self.step_get(st, v, e)
            return v
        if r[0] == "B":
            return st.heap[r[1]]
        if r[0] in ("S", "D", "V"):      # string slices stand for their pointee
            return r
        raise Unsupported("dereference of " + str(r[0]))

    def write_ref(self, st, r, v):
        if r is not None and r[0] == "R":
            self.write_path(st, r[1], r[2], v)
        elif r is not None and r[0] == "B":
            st.heap[r[1]] = v
        else:
            raise Unsupported("write through " + str(r and r[0]))

    def write_path(self, st, cell, proj, v):
        if not proj:
            self.cell_set(st, cell, v)
            return
        base = self.cell_get(st, cell)
        self.cell_set(st, cell, self.upd(st, base, proj, 0, v))

    def upd(self, st, base, proj, i, v):
        if i == len(proj):
            return v
        e = proj[i]
        k = e[0]
        if k == "v":
            if base is not None and base[0] == "A" and base[2] == e[1]:
                return self.upd(st, base, proj, i + 1, v)
            if base is not None and base[0] == "D":
                base = self.expand(st, base, e[1])
                return self.upd(st, base, proj, i + 1, v)
            raise Unsupported("write into another variant")
        if k == "f":
            if base is not None and base[0] == "D":
                base = self.expand(st, base, 0)
            if base is None:
                base = ("A", e[3] if len(e) > 3 else None, 0, (None,) * (e[1] + 1))
            if base[0] == "B" :
                raise Unsupported("write into box field")
            if base[0] != "A":
                raise Unsupported("field write on " + str(base[0]))
            fs = list(base[3])
            while len(fs) <= e[1]:
                fs.append(None)
            fs[e[1]] = self.upd(st, fs[e[1]], proj, i + 1, v)
            return ("A", base[1], base[2], tuple(fs))
        if k == "e":
            if base is not None and base[0] == "Q" and base[1] is None or base is not None and base[0] == "Q" and e[1] >= 0:
                items = list(base[2])
                ix = e[1]
                if base[1] is not None and len(e) < 3:
                    raise Unsupported("element write after fold")
                items[ix] = self.upd(st, items[ix], proj, i + 1, v)
                return ("Q", base[1], tuple(items))
            if base is not None and base[0] == "A":
                fs = list(base[3])
                fs[e[1]] = self.upd(st, fs[e[1]], proj, i + 1, v)
                return ("A", base[1], base[2], tuple(fs))
            raise Unsupported("element write")
        raise Unsupported("write projection " + str(k))

    def expand(self, st, d, variant):
        """A symbolic datum as an aggregate of its symbolic fields."""
        ty = d[4]
        t = self.T(ty)
        if t["k"] == "adt" and t.get("enum"):
            variant = st.env.known_variant(self, st, d)
        n = self.p.nfields(ty, variant)
        if t["k"] not in ("adt", "tuple", "closure"):
            raise Unsupported("expand " + t["n"])
        fields = tuple(st.env.project(self, st, d, variant, i, self.p.field_ty(ty, variant, i))
                       for i in range(n))
        return ("A", ty, variant, fields)

    def step_get(self, st, v, e):
        k = e[0]
        if v is None:
            raise Unsupported("read of uninitialised value")
        if k == "v":
            if v[0] == "A":
                if v[2] != e[1]:
                    raise Unsupported("downcast to another variant")
                return v
            if v[0] == "D":
                return ("Dv", v, e[1])
            if v[0] in ("It",):
                return v
            raise Unsupported("downcast of " + v[0])
        if k == "f":
            if v[0] == "A":
                fs = v[3]
                if e[1] >= len(fs):
                    raise Unsupported("read of missing field")
                return fs[e[1]]
            if v[0] == "B":
                return v
            if v[0] == "D":
                return st.env.project(self, st, v, 0, e[1], e[2])
            if v[0] == "Dv":
                return st.env.project(self, st, v[1], v[2], e[1], e[2])
            if v[0] == "R":      # NonNull / Unique wrappers around a pointer
                return v
            raise Unsupported("field of " + v[0])
        if k == "e":
            if v[0] == "Q":
                if e[1] < 0 or e[1] >= len(v[2]):
                    raise Unsupported("element out of the known range")
                return v[2][e[1]]
            if v[0] == "A":
                return v[3][e[1]]
            if v[0] == "D":
                return st.env.element(self, st, v, e)
            raise Unsupported("element of " + v[0])
        if k == "x":
            return st.env.element(self, st, v, e)
        raise Unsupported("projection " + str(k))

    def resolve(self, st, fr, place, depth):
        """The (cell, proj, meta) a place denotes; cell may be ('V', value) for string slices."""
        cell = ("L", depth, place[0])
        proj = ()
        meta = None
        for e in place[1:]:
            k = e[0]
            if k == "d":
                v = self.cell_get(st, cell)
                for x in proj:
                    v = self.step_get(st, v, x)
                if v is None:
                    raise Unsupported("dereference of uninitialised value")
                if v[0] == "R":
                    cell, proj, meta = v[1], v[2], v[3]
                elif v[0] == "B":
                    cell, proj, meta = ("H", v[1]), (), (v[2] if len(v) > 2 else None)
                elif v[0] in ("S", "D", "V", "F") or v[0] == "X" and len(v) == 2:
                    cell, proj, meta = ("C", v), (), None
                else:
                    raise Unsupported("dereference of " + v[0])
            elif k == "f":
                # fields of a Box are transparent
                if self._is_box(st, cell, proj):
                    continue
                proj = proj + (("f", e[1], e[2]),)
            elif k == "v":
                proj = proj + (("v", e[1]),)
            elif k == "i":
                iv = fr.locals[e[1]]
                base = self.cell_get(st, cell)
                for x in proj:
                    base = self.step_get(st, base, x)
                proj = proj + (self.index_elem(st, base, iv, meta),)
            elif k == "ci":
                base = self.cell_get(st, cell)
                for x in proj:
                    base = self.step_get(st, base, x)
                proj = proj + (self.const_index(st, base, e, meta),)
            else:
                raise Unsupported("place projection " + str(e))
        return cell, proj, meta

    def _is_box(self, st, cell, proj):
        v = self.cell_get(st, cell)
        for x in proj:
            if v is None:
                return False
            v = self.step_get(st, v, x)
        return v is not None and v[0] == "B"

    def index_elem(self, st, base, iv, meta):
        off = 0
        if meta is not None and meta[0] == "sl":
            off = meta[1]
        if base is not None and base[0] == "V" and iv is not None:
            return ("x", iv)
        if is_int(iv):
            return ("e", iv[1] + off)
        raise Unsupported("symbolic index")

    def const_index(self, st, base, e, meta):
        off = 0
        n = None
        if meta is not None and meta[0] == "sl":
            off, n = meta[1], meta[2]
        elif base[0] == "A":
            n = len(base[3])
        elif base[0] == "Q" and base[1] is None:
            n = len(base[2])
        if e[3]:
            if n is None:
                raise Unsupported("index from an unknown end")
            return ("e", off + n - e[1])
        return ("e", off + e[1])

    def read_place(self, st, fr, place, depth):
        if len(place) == 1:
            return fr.locals[place[0]]
        cell, proj, meta = self.resolve(st, fr, place, depth)
        v = self.cell_get(st, cell)
        for e in proj:
            v = self.step_get(st, v, e)
        if v is not None and v[0] == "Dv":
            v = v[1]
        return v

    def write_place(self, st, fr, place, depth, v):
        if len(place) == 1:
            fr.locals[place[0]] = v
            return
        cell, proj, meta = self.resolve_w(st, fr, place, depth)
        self.write_path(st, cell, proj, v)

    def resolve_w(self, st, fr, place, depth):
        # writing: aggregates may still be uninitialised, so field steps are not checked
        if any(e[0] not in ("f", "v") for e in place[1:]):
            # resolve up to the last deref/index, then append
            last = max(i for i, e in enumerate(place) if i and e[0] not in ("f", "v"))
            cell, proj, meta = self.resolve(st, fr, place[:last + 1], depth)
            rest = place[last + 1:]
        else:
            cell, proj, meta = ("L", depth, place[0]), (), None
            rest = place[1:]
        for e in rest:
            proj = proj + ((("f", e[1], e[2]) if e[0] == "f" else ("v", e[1])),)
        return cell, proj, meta

    # ---- operands ------------------------------------------------------------------------
    def operand(self, st, fr, o, depth):
        k = o[0]
        if k == "c" or k == "m":
            return self.read_place(st, fr, o[1], depth)
        if k == "k":
            return self.const(st, o)
        if k == "rc":
            return ("i", 0)
        raise Unsupported("operand " + str(o))

    def const(self, st, o):
        k = o[1]
        if k == "int":
            t = self.T(o[3])
            if t["k"] == "adt":
                return self.scalar_adt(o[2], o[3], t)
            return ("i", o[2])
        if k == "str":
            return ("S", o[2])
        if k == "agg":
            return ("A", o[3], o[2][0], tuple(self.const(st, x) for x in o[2][1]))
        if k == "fn":
            return ("F", o[2])
        if k == "fnaddr":
            return ("F", o[2])
        if k == "zst":
            return self.zst(o[3])
        if k == "body":
            key = o[2]
            if key not in self.const_cache:
                self.const_cache[key] = self.eval_body(self.p.bodies[o[2]])
            return self.const_cache[key]
        if k == "static":
            return ("R", ("C", ("static", o[2])), (), None)
        return ("T",)

    def scalar_adt(self, x, ty, t):
        """A constant of a structured type that the compiler stores as one scalar."""
        if t.get("enum"):
            if all(not v["f"] for v in t["vs"]):
                for i, v in enumerate(t["vs"]):
                    if v["d"] == x or (v["d"] - x) % 256 == 0 and -128 <= v["d"] <= 255:
                        return ("A", ty, i, ())
            if t["path"] == "std::option::Option" and self.T(t["args"][0])["k"] in ("ref", "ptr") and x == 0:
                return ("A", ty, 0, ())
            raise Unsupported("constant of type " + t["n"])
        fs = t["vs"][0]["f"]
        if len(fs) == 1:
            it = self.T(fs[0][1])
            inner = self.scalar_adt(x, fs[0][1], it) if it["k"] == "adt" else ("i", x)
            return ("A", ty, 0, (inner,))
        raise Unsupported("constant of type " + t["n"])

    def zst(self, ty):
        t = self.T(ty)
        if t["k"] == "fndef":
            return ("F", t["inst"]) if t.get("inst") is not None else ("T",)
        if t["k"] in ("tuple", "closure", "adt"):
            n = self.p.nfields(ty, 0)
            if n == 0:
                return ("A", ty, 0, ())
            return ("A", ty, 0, tuple(self.zst(self.p.field_ty(ty, 0, i)) for i in range(n)))
        if t["k"] == "array":
            return ("A", ty, 0, ())
        return ("A", ty, 0, ())

    def eval_body(self, body):
        """Evaluates a constant or promoted body (it is closed, so its value is fixed)."""
        st = State(NullEnv())
        f = Frame(body, [None] * body.nlocals, None)
        st.frames.append(f)
        self.run(st)
        return self.freeze(st, st.result)

    def freeze(self, st, v):
        if not isinstance(v, tuple):
            return v
        if v and v[0] == "R" and v[1][0] in ("L", "H"):
            base = self.frozen_cell(st, v[1])
            return ("R", ("C", base), v[2], v[3])
        if v and v[0] == "A":
            return ("A", v[1], v[2], tuple(self.freeze(st, x) for x in v[3]))
        if v and v[0] == "Q":
            return ("Q", v[1], tuple(self.freeze(st, x) for x in v[2]))
        return v

    def frozen_cell(self, st, cell):
        if cell[0] == "L":
            return self.freeze(st, st.last_locals[cell[2]] if False else self._dead[cell[2]])
        return self.freeze(st, st.heap[cell[1]])

    # ---- rvalues -------------------------------------------------------------------------
    def rvalue(self, st, fr, r, depth):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1], depth)
        if k == "ref":
            pl = r[1]
            cell, proj, meta = self.resolve(st, fr, pl, depth)
            # reborrow of a string slice / domain reference
            if not proj and cell[0] == "C" and cell[1] is not None and isinstance(cell[1], tuple) \
                    and cell[1] and cell[1][0] in ("S", "V", "F"):
                return cell[1]
            return ("R", cell, proj, meta)
        if k == "discr":
            v = self.read_place(st, fr, r[1], depth)
            if v is None:
                v = self.only_value(self.place_ty(fr, r[1]))
            return self.discr(st, v, r[2])
        if k == "agg":
            ops = tuple(self.operand(st, fr, o, depth) for o in r[4])
            kn = r[1]
            if kn == "rawptr":
                return self.rawptr(st, ops, r[2])
            if kn == "other":
                raise Unsupported("aggregate")
            if kn == "adt" and r[5] is not None:
                # union
                fs = [None] * (r[5] + 1)
                fs[r[5]] = ops[0]
                return ("A", r[2], r[3], tuple(fs))
            return ("A", r[2], r[3], ops)
        if k == "bin":
            a = self.operand(st, fr, r[2], depth)
            b = self.operand(st, fr, r[3], depth)
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(st, fr, r[2], depth)
            return self.unop(st, r[1], a, r[3])
        if k == "cast":
            return self.cast(st, fr, r, depth)
        if k == "repeat":
            v = self.operand(st, fr, r[1], depth)
            if r[2] is None or r[2] > 4096:
                raise Unsupported("repeat")
            return ("A", None, 0, (v,) * r[2])
        if k == "tls":
            raise Unsupported("thread local")
        raise Unsupported("rvalue " + str(k))

    def only_value(self, ty):
        """The value of a type that has just one (the compiler does not write those)."""
        t = self.T(ty)
        if t["k"] != "adt" or not t.get("enum"):
            return None
        vs = [i for i, v in enumerate(t["vs"]) if not any(self.T(f[1])["k"] == "never" or self.T(f[1]).get("enum") and
                                                          not self.T(f[1])["vs"] for f in v["f"])]
        return ("A", ty, vs[0], ()) if len(vs) == 1 and not t["vs"][vs[0]]["f"] else None

    def rawptr(self, st, ops, ty):
        p, m = ops
        if p is not None and p[0] == "R":
            if is_int(m):
                return ("R", p[1], p[2], ("sl", 0, m[1]))
            return ("R", p[1], p[2], p[3])
        raise Unsupported("raw pointer aggregate")

    def discr(self, st, v, ty):
        if v is None:
            raise Unsupported("discriminant of uninitialised value")
        if v[0] == "Dv":
            v = v[1]
        if v[0] == "A":
            t = self.T(v[1] if v[1] is not None else ty)
            if t["k"] == "adt" and t.get("enum"):
                return ("i", t["vs"][v[2]]["d"])
            return ("i", 0)
        if v[0] == "D":
            ds = st.env.variants(self, st, v)
            if len(ds) == 1:
                return ("i", self.p.discr_of(v[4], next(iter(ds))))
            return ("disc", v)
        if v[0] == "T":
            return ("T",)
        raise Unsupported("discriminant of " + v[0])

    def choose_bool(self, st, key, a=None, b=None):
        """An undetermined boolean, remembered under `key` by the domain (if it can)."""
        raise Split([("%s=true" % (key,), lambda s: s.env.assume(s, key, True)),
                     ("%s=false" % (key,), lambda s: s.env.assume(s, key, False))])

    def binop(self, st, op, a, b, ty):
        if a is None or b is None:
            raise Unsupported("operation on uninitialised value")
        if a[0] == "i" and b[0] == "i":
            return self.binop_int(op, a[1], b[1], ty)
        if a[0] == "disc" or b[0] == "disc":
            if a[0] == "disc" and b[0] == "disc":
                if a == b:
                    return ("i", 1 if op in ("Eq", "Le", "Ge") else 0)
                self.split_variants(st, a[1])
            d, c = (a[1], b) if a[0] == "disc" else (b[1], a)
            if c[0] != "i":
                return ("T",)
            vs = st.env.variants(self, st, d)
            def cmp(v):
                x = self.p.discr_of(d[4], v)
                l, r = (x, c[1]) if a[0] == "disc" else (c[1], x)
                return self.binop_int(op, l, r, ty)
            outs = {}
            for v in vs:
                outs.setdefault(cmp(v), set()).add(v)
            if len(outs) == 1:
                return next(iter(outs))
            raise Split([("%s in %s" % (st.env.describe(self, d), self.vnames(d[4], g)),
                          (lambda g: lambda s: s.env.restrict(self, s, d, frozenset(g)))(g))
                         for g in outs.values()])
        if a[0] == "N" or b[0] == "N":
            r = self.binop_count(op, a, b)
            if r is not None:
                return r
        if op == "Offset":
            raise Unsupported("pointer arithmetic")
        if op in ("Eq", "Ne") and a[0] == "R" and b[0] == "R":
            return ("i", int((a[1:3] == b[1:3]) == (op == "Eq")))
        if op == "BitAnd" and ("i", 0) in (a, b):
            return ("i", 0)
        r = st.env.binop(self, st, op, a, b, ty)
        if r is not None:
            return r
        if op.endswith("WithOverflow"):
            return ("A", None, 0, (("T",), ("T",)))
        return ("T",)

    def binop_count(self, op, a, b):
        """Operations on ('N', k): an unknown number of items, at least k (and far below 2^63)."""
        if a[0] == "i" and b[0] == "N":
            sw = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le", "Eq": "Eq", "Ne": "Ne"}
            if op in sw:
                return self.binop_count(sw[op], b, a)
            if op.startswith("Add"):
                return self.binop_count(op, b, a)
            return None
        if a[0] != "N" or b[0] != "i":
            return None
        k, c = a[1], b[1]
        if op in ("Eq", "Ne") and c < k:
            return ("i", int(op == "Ne"))
        if op in ("Lt", "Ge") and c <= k:
            return ("i", int(op == "Ge"))
        if op in ("Le", "Gt") and c < k:
            return ("i", int(op == "Gt"))
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base == "Add" and c >= 0:
            r = ("N", min(k + c, 4))
        elif base == "Sub" and 0 <= c <= k:
            r = ("N", k - c)
        else:
            return None
        if op.endswith("WithOverflow"):
            return ("A", None, 0, (r, ("i", 0)))
        return r

    def vnames(self, ty, vs):
        names = [self.T(ty)["vs"][v]["n"] for v in sorted(vs)]
        return "|".join(names) if len(names) <= 6 else "|".join(names[:5]) + "|..(%d)" % len(names)

    def split_variants(self, st, d):
        vs = sorted(st.env.variants(self, st, d))
        raise Split([("%s is %s" % (st.env.describe(self, d), self.vnames(d[4], [v])),
                      (lambda v: lambda s: s.env.restrict(self, s, d, frozenset([v])))(v))
                     for v in vs])

    def int_info(self, ty):
        t = self.T(ty)
        if t["k"] in ("int", "uint"):
            return t["k"] == "int", t.get("bits", 64)
        if t["k"] == "bool":
            return False, 1
        if t["k"] == "char":
            return False, 32
        return True, 128

    def wrap(self, x, ty):
        sg, bits = self.int_info(ty)
        x &= (1 << bits) - 1
        if sg and x >> (bits - 1):
            x -= 1 << bits
        return x

    def binop_int(self, op, x, y, ty):
        if op == "Eq":
            return ("i", int(x == y))
        if op == "Ne":
            return ("i", int(x != y))
        if op == "Lt":
            return ("i", int(x < y))
        if op == "Le":
            return ("i", int(x <= y))
        if op == "Gt":
            return ("i", int(x > y))
        if op == "Ge":
            return ("i", int(x >= y))
        if op == "Cmp":
            return ("A", None, 0 if x < y else 1 if x == y else 2, ())
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base == "Add":
            r = x + y
        elif base == "Sub":
            r = x - y
        elif base == "Mul":
            r = x * y
        elif base == "BitAnd":
            r = x & y
        elif base == "BitOr":
            r = x | y
        elif base == "BitXor":
            r = x ^ y
        elif base == "Div" and y:
            r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        elif base == "Rem" and y:
            r = abs(x) % abs(y) * (1 if x >= 0 else -1)
        elif base == "Shl":
            r = x << (y & 127)
        elif base == "Shr":
            r = x >> (y & 127)
        else:
            raise Unsupported("binary operation " + op)
        w = self.wrap(r, ty)
        if op.endswith("WithOverflow"):
            return ("A", None, 0, (("i", w), ("i", int(w != r))))
        return ("i", w)

    def unop(self, st, op, a, ty):
        if a is not None and a[0] == "i":
            if op == "Not":
                return ("i", int(not a[1])) if self.T(ty)["k"] == "bool" else ("i", self.wrap(~a[1], ty))
            if op == "Neg":
                return ("i", self.wrap(-a[1], ty))
        if op == "PtrMetadata":
            if a is not None and a[0] == "R":
                if a[3] is not None and a[3][0] == "sl":
                    return ("i", a[3][2])
                if a[3] is None or a[3][0] in ("arr",):
                    v = self.read_ref(st, a)
                    if v is not None and v[0] == "A":
                        return ("i", len(v[3]))
                    n = self.seq_len(st, v)
                    if n is not None:
                        return n
                return st.env.seq_len(self, st, a)
            return st.env.str_len(self, st, a)
        r = st.env.unop(self, st, op, a, ty)
        return r if r is not None else ("T",)

    def seq_len(self, st, v):
        if v is not None and v[0] == "Q" and v[1] is None:
            return ("i", len(v[2]))
        return None

    def cast(self, st, fr, r, depth):
        kind, op, sty, dty, extra = r[1], r[2], r[3], r[4], r[5]
        a = self.operand(st, fr, op, depth)
        if kind in ("IntToInt",):
            if a is not None and a[0] == "i":
                return ("i", self.wrap(a[1], dty))
            if a is not None and a[0] == "A" and not a[3]:
                return ("i", self.T(a[1])["vs"][a[2]]["d"])
            if a is not None and a[0] == "N":
                return a
            x = st.env.cast_int(self, st, a, sty, dty)
            return x if x is not None else ("T",)
        if kind == "Unsize":
            if extra is None:
                return a
            if extra[0] == "dyn":
                if a is not None and a[0] == "R":
                    return ("R", a[1], a[2], ("vt", tuple(x if x is None or isinstance(x, int) else None for x in extra[2])))
                if a is not None and a[0] == "B":
                    return ("B", a[1], ("vt", tuple(x if x is None or isinstance(x, int) else None for x in extra[2])))
                if a is not None and a[0] == "A" and len(a[3]) >= 1:
                    return a
            if extra[0] == "slice":
                if a is not None and a[0] == "R":
                    return ("R", a[1], a[2], ("sl", 0, extra[1]))
                if a is not None and a[0] == "B":
                    return a
            raise Unsupported("unsize")
        if kind in ("PtrToPtr", "Transmute", "BoxDerefTransmute", "FnPtrToPtr", "Subtype", "MutToConstPointer"):
            if a is not None and a[0] in ("R", "B", "S", "V", "D"):
                if a[0] == "B" and kind == "Transmute":
                    return a
                return a
            if kind == "Transmute":
                ts, td = self.T(sty), self.T(dty)
                if a is not None and a[0] == "i" and td["k"] in ("int", "uint", "bool", "char"):
                    return ("i", self.wrap(a[1], dty))
                if a is not None and a[0] == "A" and td["k"] == "adt" and ts["k"] == "adt":
                    return ("A", dty, a[2], a[3])
                if a is not None and a[0] == "i" and td["k"] == "adt" and td.get("enum"):
                    v = self.p.variant_by_discr(dty, a[1])
                    if v is not None:
                        return ("A", dty, v, ())
                if a is not None and a[0] in ("A", "F"):
                    return a
            raise Unsupported("cast " + kind)
        if kind.startswith("ClosureFnPointer"):
            return ("F", self.closure_inst(sty), sty)
        if kind.startswith("ReifyFnPointer"):
            if isinstance(extra, int):
                return ("F", extra)
            if a is not None and a[0] == "F":
                return a
            raise Unsupported("function pointer")
        if kind.startswith("UnsafeFnPointer") or kind.startswith("MutToConst"):
            return a
        x = st.env.cast_int(self, st, a, sty, dty)
        if x is not None:
            return x
        if a is not None and a[0] in ("T", "G"):
            return ("T",)
        raise Unsupported("cast " + kind)

    # ---- running -------------------------------------------------------------------------
    def run(self, st):
        """Runs until the state finishes (st.result set), or raises Split / Event / Panic."""
        from . import natives
        while st.frames:
            st.steps += 1
            if st.steps > self.STEP_LIMIT:
                raise NoProgress("runs on without consuming input (loop)")
            fr = st.frames[-1]
            if isinstance(fr, NFrame):
                natives.RESUME[fr.kind](self, st, fr)
                continue
            depth = len(st.frames) - 1
            stmts, term, loc = fr.body.blocks[fr.bb]
            if fr.arrived:
                fr.arrived = False
                if self.on_turn is not None and fr.bb in fr.body.loop_heads():
                    self.on_turn(st, fr)
            if fr.si == 0:
                self.covered.setdefault(fr.body.ix, set()).add(fr.bb)
            while fr.si < len(stmts):
                x = stmts[fr.si]
                if x[0] == "=":
                    v = self.rvalue(st, fr, x[2], depth)
                    if v is not None and v[0] == "A" and v[1] is None and x[2][0] == "bin":
                        v = ("A", self.place_ty(fr, x[1]), v[2], v[3])
                    self.write_place(st, fr, x[1], depth, v)
                elif x[0] == "sd":
                    self.set_discr(st, fr, x[1], x[2], depth)
                fr.si += 1
            self.terminator(st, fr, term, depth, loc)

    def set_discr(self, st, fr, place, var, depth):
        ty = self.place_ty(fr, place)
        try:
            v = self.read_place(st, fr, place, depth)
        except Unsupported:
            v = None
        fs = v[3] if v is not None and v[0] == "A" else ()
        self.write_place(st, fr, place, depth, ("A", ty, var, fs))

    def goto(self, fr, bb):
        fr.bb = bb
        fr.si = 0
        fr.arrived = True

    def terminator(self, st, fr, t, depth, loc):
        k = t[0]
        if k == "goto":
            self.goto(fr, t[1])
        elif k == "switch":
            v = self.operand(st, fr, t[1], depth)
            self.switch(st, fr, v, t)
        elif k == "ret":
            self.do_return(st)
        elif k == "drop":
            self.goto(fr, t[2])
        elif k == "call":
            self.call(st, fr, t, depth, loc)
        elif k == "assert":
            if t[3][0].startswith(("MisalignedPointerDereference", "NullPointerDereference", "NullReferenceConstructed")):
                self.goto(fr, t[4])      # pointers here come from references and boxes only
                return
            v = self.operand(st, fr, t[1], depth)
            if v is not None and v[0] == "i":
                if bool(v[1]) == bool(t[2]):
                    self.goto(fr, t[4])
                    return
                raise Panic("assertion %s" % (t[3][0],), (fr.body.name, loc))
            if st.env.assert_ok(self, st, t, v):
                self.goto(fr, t[4])
                return
            raise Panic("possible failing assertion %s" % (t[3][0],), (fr.body.name, loc))
        elif k == "unreachable":
            raise Panic("unreachable code reached", (fr.body.name, loc))
        else:
            raise Unsupported("terminator " + k)

    def switch(self, st, fr, v, t):
        if v is None:
            raise Unsupported("switch on uninitialised value")
        if v[0] == "i":
            for val, bb in t[2]:
                if val == v[1] or (v[1] < 0 and t[4] is not None and val == v[1] % (1 << 128)):
                    self.goto(fr, bb)
                    return
            sg, bits = self.int_info(t[4])
            if v[1] < 0:
                for val, bb in t[2]:
                    if val == v[1] % (1 << bits):
                        self.goto(fr, bb)
                        return
            self.goto(fr, t[3])
            return
        if v[0] == "disc":
            d = v[1]
            vs = st.env.variants(self, st, d)
            byval = {val: bb for val, bb in t[2]}
            groups = {}
            for x in vs:
                groups.setdefault(byval.get(self.p.discr_of(d[4], x), t[3]), set()).add(x)
            if len(groups) == 1:
                self.goto(fr, next(iter(groups)))
                return
            raise Split([("%s is %s" % (st.env.describe(self, d), self.vnames(d[4], g)),
                          (lambda g: lambda s: s.env.restrict(self, s, d, frozenset(g)))(g))
                         for g in groups.values()])
        r = st.env.switch(self, st, fr, v, t)
        if r is not None:
            self.goto(fr, r)
            return
        if v[0] in ("T", "N"):
            targets = []
            for val, bb in t[2]:
                if bb not in targets and not (v[0] == "N" and val < v[1]):
                    targets.append(bb)
            if t[3] not in targets:
                targets.append(t[3])
            depth = len(st.frames) - 1
            raise Split([("unknown branch", (lambda bb: lambda s: self.goto(s.frames[depth], bb))(bb))
                         for bb in targets])
        raise Unsupported("switch on " + str(v[0]))

    def do_return(self, st):
        fr = st.frames[-1]
        v = fr.locals[0]
        if v is None and fr.body.locals:
            v = self.default_unit(fr.body.locals[0])
        if len(st.frames) == 1:
            self._dead = fr.locals
            st.result = v
            st.frames.pop()
            return
        st.frames.pop()
        self.deliver(st, fr.ret, v)

    def default_unit(self, ty):
        t = self.T(ty)
        if t["k"] == "tuple" and not t["f"]:
            return ("A", ty, 0, ())
        return None

    def deliver(self, st, ret, v):
        """Gives the value of a finished call to the frame now on top."""
        top = st.frames[-1]
        if isinstance(top, NFrame):
            self.resume_native(st, top, v)
            return
        place, target = ret
        self.write_place(st, top, place, len(st.frames) - 1, v)
        if target is None:
            raise Panic("call that does not return returned", None)
        self.goto(top, target)

    def finish_call(self, st, v):
        """Completes the call (at the top frame's terminator) that raised an Event."""
        self.deliver_top(st, v)

    def deliver_top(self, st, v):
        top = st.frames[-1]
        if isinstance(top, NFrame):
            self.resume_native(st, top, v)
            return
        t = top.body.blocks[top.bb][1]
        if t[4] is None:
            raise Panic("diverging call returned", None)
        self.write_place(st, top, t[3], len(st.frames) - 1, v)
        self.goto(top, t[4])

    # ---- calls ---------------------------------------------------------------------------
    def call(self, st, fr, t, depth, loc):
        self.sites += 1
        f = self.operand(st, fr, t[1], depth)
        args = [self.operand(st, fr, a, depth) for a in t[2]]
        if f is None or f[0] != "F":
            raise Unsupported("call of " + str(f and f[0]))
        if len(f) == 3:
            args = [self.closure_recv(st, f), ("A", None, 0, tuple(args))]
        self.call_inst(st, f[1], args, t, loc)

    def closure_recv(self, st, f):
        """The receiver of a closure without captures that is called through a function pointer."""
        body = self.p.bodies[self.p.insts[f[1]].body]
        v = ("A", f[2], 0, ())
        if self.T(body.locals[1])["k"] == "ref":
            return ("R", ("H", st.alloc(v)), (), None)
        return v

    def call_inst(self, st, ix, args, t, loc=None):
        """Calls instance ix from the top frame. t: the call terminator, or None from an NFrame."""
        inst = self.p.insts[ix]
        if inst.kind == "virtual":
            self.call_virtual(st, inst, args, t, loc)
            return
        h = self.prims.get(ix)
        if h is not None:
            v = h(self, st, inst, args)
            if v is PUSHED:
                return
            if v is not NotImplemented:
                self.deliver_call(st, t, v)
                return
        if inst.ctor is not None:
            self.deliver_call(st, t, ("A", inst.ctor[0], inst.ctor[1], tuple(args)))
            return
        n = self.native_cache.get(ix, 0)
        if n == 0:
            from . import natives
            n = natives.lookup(self, inst)
            self.native_cache[ix] = n
        if n is not None:
            ctx = CallCtx(self, st, inst, t, loc)
            v = n(ctx, *args)
            if v is not NotImplemented:
                if v is not PUSHED:
                    self.deliver_call(st, t, v)
                return
        if inst.path.startswith(PANIC_PREFIX):
            fr = st.frames[-1]
            where = (fr.body.name if isinstance(fr, Frame) else "?", loc)
            raise Panic("call of %s" % inst.path, where)
        if inst.body is None:
            raise Unsupported("call of %s (no model)" % inst.full)
        self.push_body(st, inst, args, t)

    def push_body(self, st, inst, args, t):
        body = self.p.bodies[inst.body]
        locs = [None] * body.nlocals
        if body.spread is not None:
            sp = body.spread
            for i in range(1, sp):
                locs[i] = args[i - 1]
            tup = tuple(args[sp - 1:])
            if len(tup) == 1 and tup[0] is not None and tup[0][0] == "A" and \
                    self.T(body.locals[sp])["k"] == "tuple" and len(args) == body.argc:
                locs[sp] = tup[0]
            else:
                locs[sp] = ("A", body.locals[sp], 0, tup)
        elif t is not None and self.is_closure(body) and args and args[-1] is not None and \
                args[-1][0] == "A" and len(args) == 2:
            # the arguments of a closure are passed as a tuple
            args = [args[0]] + list(args[1][3])
            if len(args) != body.argc:
                raise Unsupported("arguments of " + inst.full)
            for i, a in enumerate(args):
                locs[i + 1] = a
        elif len(args) != body.argc:
            # closure call through Fn*: the last argument is a tuple of the arguments
            last = args[-1]
            if last is None or last[0] != "A":
                raise Unsupported("arguments of " + inst.full)
            args = args[:-1] + list(last[3])
            if len(args) != body.argc:
                if len(args) == body.argc + 1:   # function item called through Fn*
                    args = args[1:]
                else:
                    raise Unsupported("arguments of " + inst.full)
            for i, a in enumerate(args):
                locs[i + 1] = a
        else:
            for i, a in enumerate(args):
                locs[i + 1] = a
        top = st.frames[-1] if st.frames else None
        ret = None
        if t is not None and top is not None and isinstance(top, Frame):
            ret = (t[3], t[4])
            # tail call: the caller only passes the result on
            if t[4] is not None and t[3] == [0] and top.body.trivially_returns(t[4]) and \
                    not refs_frame(locs, len(st.frames) - 1) and len(st.frames) > 1 and \
                    not self.heap_refs(st, len(st.frames) - 1):
                f = Frame(body, locs, top.ret, inst)
                st.frames[-1] = f
                return
        f = Frame(body, locs, ret, inst)
        st.frames.append(f)
        if len(st.frames) > 400:
            raise NoProgress("runs on without consuming input (recursion)")

    def is_closure(self, body):
        if body.argc < 1:
            return False
        t = self.T(body.locals[1])
        if t["k"] == "ref":
            t = self.T(t["to"])
        return t["k"] == "closure" and t["path"] == body.inst.path

    def heap_refs(self, st, depth):
        return any(refs_frame(v, depth) for v in st.heap.values())

    def deliver_call(self, st, t, v):
        top = st.frames[-1]
        if isinstance(top, NFrame):
            self.resume_native(st, top, v)
            return
        if t is None:
            t = top.body.blocks[top.bb][1]
        if t[4] is None:
            raise Panic("diverging call returned", None)
        self.write_place(st, top, t[3], len(st.frames) - 1, v)
        self.goto(top, t[4])

    def call_virtual(self, st, inst, args, t, loc):
        r = args[0]
        if r is None or r[0] not in ("R", "B"):
            raise Unsupported("virtual call on " + str(r and r[0]))
        meta = r[3] if r[0] == "R" else (r[2] if len(r) > 2 else None)
        if meta is None or meta[0] != "vt":
            raise Unsupported("virtual call on an unknown object")
        tgt = meta[1][inst.vidx]
        if tgt is None:
            raise Unsupported("virtual call slot")
        thin = ("R", r[1], r[2], None) if r[0] == "R" else ("R", ("H", r[1]), (), None)
        self.call_inst(st, tgt, [thin] + args[1:], t, loc)

    def call_value(self, st, fv, args, t=None):
        """Calls a callable value (function item, closure, reference to either) with args."""
        tgt, recv = self.callee(st, fv)
        ins = self.p.insts[tgt]
        if recv is not None:
            if ins.body is not None and self.p.bodies[ins.body].argc == len(args) + 1:
                self.call_inst(st, tgt, [recv] + args, t)
                return
            raise Unsupported("closure arguments")
        self.call_inst(st, tgt, args, t)

    def callee(self, st, fv):
        """(instance, receiver) of a callable value given by value or by reference."""
        v = fv
        n = 0
        while v is not None and v[0] in ("R", "B"):
            meta = v[3] if v[0] == "R" else (v[2] if len(v) > 2 else None)
            if meta is not None and meta[0] == "vt":
                for x in meta[1]:
                    if x is not None and self.p.insts[x].kind in ("item",) :
                        return x, (("R", v[1], v[2], None) if v[0] == "R" else ("R", ("H", v[1]), (), None))
                raise Unsupported("dyn callable")
            fv, v = v, self.read_ref(st, v)
            n += 1
            if n > 8:
                raise Unsupported("callable")
        if v is None:
            raise Unsupported("callable")
        if v[0] == "F":
            return v[1], (self.closure_recv(st, v) if len(v) == 3 else None)
        if v[0] == "A" and v[1] is not None and self.T(v[1])["k"] == "closure":
            call = self.closure_inst(v[1])
            ins = self.p.insts[call]
            body = self.p.bodies[ins.body]
            byref = self.T(body.locals[1])["k"] == "ref"
            if byref:
                if n == 0:
                    h = st.alloc(v)
                    return call, ("R", ("H", h), (), None)
                return call, fv
            return call, v
        raise Unsupported("callable " + v[0])

    def closure_inst(self, ty):
        m = self.__dict__.setdefault("_clos", None)
        if m is None:
            m = {}
            for x in self.p.insts:
                if x.body is not None and x.kind == "item":
                    b = self.p.bodies[x.body]
                    if b.argc >= 1:
                        t = b.locals[1]
                        tt = self.T(t)
                        if tt["k"] == "ref":
                            t = tt["to"]
                            tt = self.T(t)
                        if tt["k"] == "closure" and tt["path"] == x.path:
                            m[t] = x.ix
            self._clos = m
        if ty not in m:
            raise Unsupported("closure body of " + self.T(ty)["n"])
        return m[ty]

    # ---- native frames -------------------------------------------------------------------
    def resume_native(self, st, fr, v):
        """Delivers the value of a call made by native frame fr; it is consumed by the next step."""
        fr.pending = ("p", v)

    def native_return(self, st, v):
        """Ends the native frame on top with value v."""
        fr = st.frames.pop()
        if not st.frames:
            st.result = v
            return
        top = st.frames[-1]
        if isinstance(top, NFrame):
            self.resume_native(st, top, v)
            return
        self.deliver(st, fr.ret, v)


class _Pushed:
    pass


PUSHED = _Pushed()


class CallCtx:
    __slots__ = ("m", "st", "inst", "t", "loc")

    def __init__(self, m, st, inst, t, loc):
        self.m = m
        self.st = st
        self.inst = inst
        self.t = t
        self.loc = loc

    @property
    def dest_ty(self):
        """Type of the call's destination."""
        fr = self.st.frames[-1]
        if self.t is None or isinstance(fr, NFrame):
            return self.ret_hint()
        return self.m.place_ty(fr, self.t[3])

    def ret_hint(self):
        fr = self.st.frames[-1]
        if isinstance(fr, NFrame) and isinstance(fr.data, dict) and fr.data.get("rty") is not None:
            return fr.data["rty"]
        return None

    def ret_type(self):
        from . import natives
        ty = natives.ret_type(self.m, self.inst.ix)
        return ty if ty is not None else self.dest_ty

    def aux(self, ty):
        a = self.inst.aux.get(ty)
        if a is None:
            a = self.m.p.aux.get(ty)
        return a

    def push(self, nf):
        nf.ret = (self.t[3], self.t[4]) if self.t is not None else None
        self.st.frames.append(nf)
        return PUSHED

    def panic(self, what):
        fr = self.st.frames[-1]
        raise Panic(what, (fr.body.name if isinstance(fr, Frame) else "?", self.loc))


def refs_frame(v, depth):
    """Does a value contain a reference to the locals of frame `depth`?"""
    if isinstance(v, (tuple, list)):
        if len(v) == 3 and v[0] == "L" and v[1] == depth and isinstance(v[2], int):
            return True
        for x in v:
            if isinstance(x, (tuple, list)) and refs_frame(x, depth):
                return True
    return False


class NullEnv:
    """Domain with no symbolic data."""

    def copy(self):
        return self

    def binop(self, m, st, op, a, b, ty):
        return None

    def unop(self, m, st, op, a, ty):
        return None

    def cast_int(self, m, st, a, sty, dty):
        return None

    def switch(self, m, st, fr, v, t):
        return None

    def assert_ok(self, m, st, t, v):
        return False

    def str_len(self, m, st, a):
        raise Unsupported("length")

    def seq_len(self, m, st, a):
        raise Unsupported("length")

    def describe(self, m, d):
        return "?"

    def native(self, ctx, name, args):
        return NotImplemented


# ---- canonical keys ---------------------------------------------------------------------------
class Renamer:
    """Renames ids by first visit, collecting the reachable cells."""

    def __init__(self, st, pred=None):
        self.st = st
        self.ids = {}
        self.heap = {}
        self.out_heap = []
        self.todo = []
        self.cells = {}

    def id(self, k, n):
        key = (k, n)
        x = self.ids.get(key)
        if x is None:
            x = len(self.ids)
            self.ids[key] = x
        return x

    def val(self, v):
        if type(v) is not tuple or not v:
            return v
        h = v[0]
        if h == "i" or h == "S" or h == "F" or h == "T" or h == "N":
            return v
        if h == "D":
            return ("D", v[1], self.id(v[1], v[2]), v[3], v[4])
        if h == "#":     # a bare id: ('#', kind, n)
            return ("#", v[1], self.id(v[1], v[2]))
        if h == "B":
            return ("B", self.hid(v[1])) + v[2:]
        if h == "H" and len(v) == 2:
            return ("H", self.hid(v[1]))
        if h == "L" and len(v) == 3:
            self.need_local(v[1], v[2])
            return v
        return tuple([self.val(x) if type(x) is tuple else x for x in v])

    def hid(self, n):
        x = self.heap.get(n)
        if x is None:
            x = len(self.heap)
            self.heap[n] = x
            self.todo.append(("H", n))
        return x

    def need_local(self, d, l):
        if (d, l) not in self.cells:
            self.cells[(d, l)] = True
            self.todo.append(("L", d, l))


def canon(st, extra=()):
    """Canonical, hashable form of a state and the renaming used."""
    rn = Renamer(st)
    parts = []
    n = len(st.frames)
    for d, fr in enumerate(st.frames):
        if isinstance(fr, NFrame):
            locs = []
            for i, v in enumerate(fr.locals):
                rn.cells[(d, i)] = True
                locs.append((i, rn.val(v)))
            parts.append((fr.kind, tuple(locs), rn.val(fr.pending), fr.ret and str(fr.ret)))
            continue
        body = fr.body
        if d == n - 1:
            live = body.live_at(fr.bb, fr.si)
        else:
            t = body.blocks[fr.bb][1]
            live = set(body.liveness()[t[4]]) if t[0] == "call" and t[4] is not None else set()
            if t[0] == "call":
                Body = type(body)
                Body._dest(t[3], live)
        locs = []
        for i in sorted(live):
            rn.cells[(d, i)] = True
        for i in sorted(live):
            v = fr.locals[i]
            if v is not None:
                locs.append((i, rn.val(v)))
        parts.append((body.ix, fr.bb, fr.si, tuple(locs)))
    tail = []
    ex = [rn.val(x) if type(x) is tuple else x for x in extra]
    while rn.todo:
        c = rn.todo.pop(0)
        if c[0] == "H":
            tail.append(("H", rn.heap[c[1]], rn.val(st.heap.get(c[1]))))
        else:
            tail.append((c[0], c[1], c[2], rn.val(st.frames[c[1]].locals[c[2]])))
    return (tuple(parts), tuple(ex), tuple(tail)), rn
