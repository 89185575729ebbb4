"""Loads the exported MIR program (see driver/driver.rs) into Python objects."""
import json


class Body:
    __slots__ = ("ix", "name", "argc", "spread", "locals", "blocks", "names", "loc", "livein",
                 "heads", "inst", "synthetic", "trivret", "nlocals")

    def __init__(self, ix, d):
        self.ix = ix
        self.name = d["name"]
        self.argc = d["argc"]
        self.spread = d.get("spread")
        self.locals = d["locals"]
        self.nlocals = len(d["locals"])
        self.blocks = [(b["s"], b["t"], b.get("loc")) for b in d["blocks"]]
        self.names = d.get("names", [])
        self.loc = d.get("loc")
        self.livein = None
        self.heads = None
        self.trivret = {}
        self.inst = None
        self.synthetic = False

    # ---- control flow helpers -------------------------------------------------------------
    def succs(self, bb):
        t = self.blocks[bb][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        return []

    def loop_heads(self):
        if self.heads is not None:
            return self.heads
        heads = set()
        color = {}
        stack = [(0, iter(self.succs(0)))]
        color[0] = 1
        while stack:
            n, it = stack[-1]
            for m in it:
                c = color.get(m, 0)
                if c == 0:
                    color[m] = 1
                    stack.append((m, iter(self.succs(m))))
                    break
                if c == 1:
                    heads.add(m)
            else:
                color[n] = 2
                stack.pop()
        self.heads = heads
        return heads

    # ---- liveness (drops and storage markers are not uses) ----------------------------------
    @staticmethod
    def _place_uses(p, out):
        out.add(p[0])
        for e in p[1:]:
            if e[0] == "i":
                out.add(e[1])

    @classmethod
    def _op_uses(cls, o, out):
        if o[0] in ("c", "m"):
            cls._place_uses(o[1], out)

    @classmethod
    def _rv_uses(cls, r, out):
        k = r[0]
        if k == "use":
            cls._op_uses(r[1], out)
        elif k == "repeat":
            cls._op_uses(r[1], out)
        elif k == "ref":
            cls._place_uses(r[1], out)
        elif k == "cast":
            cls._op_uses(r[2], out)
        elif k == "bin":
            cls._op_uses(r[2], out)
            cls._op_uses(r[3], out)
        elif k == "un":
            cls._op_uses(r[2], out)
        elif k == "discr":
            cls._place_uses(r[1], out)
        elif k == "agg":
            for o in r[4]:
                cls._op_uses(o, out)

    @classmethod
    def _dest(cls, p, live):
        """Effect of writing place p on the live set (backward)."""
        if len(p) == 1:
            live.discard(p[0])
        else:
            if any(e[0] == "d" for e in p[1:]):
                live.add(p[0])
            for e in p[1:]:
                if e[0] == "i":
                    live.add(e[1])

    def _term_back(self, t, live):
        k = t[0]
        if k == "switch":
            self._op_uses(t[1], live)
        elif k == "call":
            self._dest(t[3], live)
            self._op_uses(t[1], live)
            for a in t[2]:
                self._op_uses(a, live)
        elif k == "assert":
            self._op_uses(t[1], live)
            for o in t[3][1:]:
                if isinstance(o, list):
                    self._op_uses(o, live)
        elif k == "ret":
            live.add(0)

    def liveness(self):
        if self.livein is not None:
            return self.livein
        n = len(self.blocks)
        livein = [frozenset()] * n
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                st, t, _ = self.blocks[b]
                live = set()
                for m in self.succs(b):
                    live |= livein[m]
                self._term_back(t, live)
                for x in reversed(st):
                    if x[0] == "=":
                        self._dest(x[1], live)
                        self._rv_uses(x[2], live)
                    elif x[0] == "dead":
                        live.discard(x[1])
                    elif x[0] == "assume":
                        pass
                if live != livein[b]:
                    livein[b] = frozenset(live)
                    changed = True
        self.livein = livein
        return livein

    def live_at(self, b, si):
        """Locals live before statement si of block b."""
        if not si:
            return self.liveness()[b]
        c = self.__dict__.setdefault("_live_at", {}) if hasattr(self, "__dict__") else {}
        r = c.get((b, si))
        if r is None:
            livein = self.liveness()
            st, t, _ = self.blocks[b]
            live = set()
            for m in self.succs(b):
                live |= livein[m]
            self._term_back(t, live)
            for x in reversed(st[si:]):
                if x[0] == "=":
                    self._dest(x[1], live)
                    self._rv_uses(x[2], live)
                elif x[0] == "dead":
                    live.discard(x[1])
            r = c[(b, si)] = frozenset(live)
        return r

    def trivially_returns(self, bb):
        """True if from bb the function returns without doing anything (tail position)."""
        if bb in self.trivret:
            return self.trivret[bb]
        seen = set()
        b = bb
        ok = False
        while b is not None and b not in seen:
            seen.add(b)
            st, t, _ = self.blocks[b]
            if any(x[0] == "=" or x[0] == "sd" for x in st):
                break
            if t[0] == "ret":
                ok = True
                break
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "drop":
                b = t[2]
            else:
                break
        self.trivret[bb] = ok
        return ok


class Inst:
    __slots__ = ("ix", "path", "full", "kind", "local", "name", "loc", "krate", "vidx", "gargs",
                 "trait", "self_ty", "derived", "intrait", "body", "aux", "ctor", "stopped", "ret")

    def __init__(self, ix, d):
        self.ix = ix
        self.path = d["path"]
        self.full = d["full"]
        self.kind = d["kind"]
        self.local = d["local"]
        self.name = d["name"]
        self.loc = d["loc"]
        self.krate = d["krate"]
        self.vidx = d.get("vidx")
        self.gargs = d["gargs"]
        self.trait = d.get("trait")
        self.self_ty = d.get("self")
        self.derived = d.get("derived", False)
        self.intrait = d.get("intrait")
        self.body = d.get("body")
        self.aux = {int(k): v for k, v in d.get("aux", {}).items()}
        self.ctor = d.get("ctor")
        self.stopped = d.get("stopped")
        self.ret = d.get("ret")


class Prog:
    def __init__(self, path):
        with open(path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.insts = [Inst(i, x) for i, x in enumerate(d["insts"])]
        self.bodies = [Body(i, x) for i, x in enumerate(d["bodies"])]
        self._local = [d["bodies"][x["body"]] for x in d["insts"] if x.get("local") and x.get("body") is not None]
        self.roots = d["roots"]
        self.iters = d.get("iters", [])
        self.items = d["items"]
        self.generic = d["generic"]
        self.unsafe_blocks = d["unsafe_blocks"]
        for x in self.insts:
            if x.body is not None:
                self.bodies[x.body].inst = x
        self.by_path = {}
        for x in self.insts:
            self.by_path.setdefault(x.path, []).append(x)
        self.aux = {}
        for x in self.insts:
            for k, v in x.aux.items():
                self.aux.setdefault(k, {}).update(v)
        self.ty_by_name = {t["n"]: i for i, t in enumerate(self.types)}
        self._variant_cache = {}

    def points(self):
        """The non-ASCII characters that the crate's own code names."""
        from .text import points_of
        return points_of(self._local, {i for i, t in enumerate(self.types) if t["k"] == "char" or
                                       t["k"] == "uint" and t.get("bits") == 32})

    def ty(self, i):
        return self.types[i]

    def adt_path(self, i):
        return self.types[i].get("path")

    def find(self, path):
        """The unique instance with this path, or None."""
        v = self.by_path.get(path)
        return v[0] if v else None

    def field_ty(self, ty, var, i):
        t = self.types[ty]
        k = t["k"]
        if k == "adt":
            return t["vs"][var]["f"][i][1]
        if k in ("tuple", "closure"):
            return t["f"][i]
        if k in ("array", "slice"):
            return t["of"]
        return None

    def field_name(self, ty, var, i):
        t = self.types[ty]
        if t["k"] == "adt":
            return t["vs"][var]["f"][i][0]
        return str(i)

    def nfields(self, ty, var=0):
        t = self.types[ty]
        if t["k"] == "adt":
            return len(t["vs"][var]["f"])
        if t["k"] in ("tuple", "closure"):
            return len(t["f"])
        return 0

    def discr_of(self, ty, var):
        return self.types[ty]["vs"][var]["d"]

    def variant_by_discr(self, ty, d):
        for i, v in enumerate(self.types[ty]["vs"]):
            if v["d"] == d:
                return i
        return None

    def variant_ix(self, ty, name):
        for i, v in enumerate(self.types[ty]["vs"]):
            if v["n"] == name:
                return i
        return None
