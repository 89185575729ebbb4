"""Termination of the loops of the tokenizer's MIR: every loop must have a part of its state that
gets strictly further on every turn, and that cannot go on for ever: the start of a text or of an
iterator over a text (which moves towards its end), an index into a list, a count that never
exceeds the text. The turns are those the abstract interpretation passes."""
from .interp import Frame, NoProgress
from .text import FS

EQ, GE, ADV, BAD, CHG = "=", ">", "+", "-", "~"


class Turns:
    """Mixed into LexEngine."""

    def turns_init(self):
        self.ranks = {}         # (body, loop head) -> parts that advanced on every turn
        self.turn_count = {}
        self.gone = set()       # loops with a turn that gets nowhere (reported)
        self.loose = {}         # (body, loop head) -> why it is not known to end
        self.m.on_turn = self.on_turn

    # ---- what may measure progress
    def parts(self, st, fr, head):
        out = {}
        for i in sorted(fr.body.live_at(head, 0)):
            v = fr.locals[i]
            if v is not None:
                self.walk(st, v, (i,), out, 3, fr.body.locals[i])
        return out

    def walk(self, st, v, path, out, deref, ty=None, pos=False):
        if type(v) is not tuple or not v:
            return
        h = v[0]
        if h == "Str":
            self.walk(st, v[1], path, out, deref)
        elif h == "V":
            out[path + ("s",)] = v[1]
            out[path + ("e",)] = v[2]
        elif h == "It":
            if v[1] == "own":
                out[path + ("d",)] = ("i", len(v[2]))
            elif v[1] == "ref":
                out[path + ("u",)] = ("i", v[3])
                out[path + ("d",)] = ("i", v[4])
            elif len(v) > 3 and type(v[2]) is tuple and v[2] and v[2][0] == "bd":
                out[path + ("s",)] = v[2]
                out[path + ("e",)] = v[3]
                for k, x in enumerate(v[4:]):
                    if type(x) is int:
                        out[path + (k, "u")] = ("i", x)
            else:
                out[path + ("x",)] = v
        elif h in ("i", "t"):
            if not pos or pos in ("B", "C"):
                out[path + ("p" if pos else "u",)] = v
                out[path + ("d",)] = v
        elif h == "A":
            p = v[1] == self.d.pos
            if v[1] is not None and len(v[3]) == 2 and v[3][0] is not None and v[3][1] is not None and \
                    v[3][1][0] == "A" and self.m.T(v[1]).get("n", "").split("<")[0].endswith("Peekable"):
                # what is left: the rest of the iterator and the element looked at already
                inner = {}
                self.walk(st, v[3][0], (), inner, deref)
                for c, x in inner.items():
                    if c[-1] == "s":
                        out[path + c[:-1] + ("k",)] = ("pk", x, v[3][1][2])
            out[path + ("x",)] = ("i", v[2])
            for i, x in enumerate(v[3]):
                if type(x) is tuple:
                    self.walk(st, x, path + (v[2], i), out, deref,
                              pos=self.d.posf[i] if p and i < len(self.d.posf) else False)
        elif h == "R":
            if deref:
                try:
                    x = self.m.read_ref(st, v)
                except Exception:
                    return
                self.walk(st, x, path + ("*",), out, deref - 1)
        elif h == "S":
            out[path + ("d",)] = ("i", len(v[1]))
            out[path + ("x",)] = v
        elif h in ("F", "bd"):
            pass
        else:
            out[path + ("x",)] = v

    def compare(self, env, kind, a, b):
        """How the part got from a to b."""
        if a == b:
            return EQ
        if kind == "x":
            return CHG
        if kind == "k":
            r = self.compare(env, "s", a[1], b[1])
            if r in (EQ, GE) and a[2] != b[2]:
                return ADV if b[2] == 0 else BAD
            return r
        if a[0] != b[0] and not (a[0] in ("i", "t") and b[0] in ("i", "t")):
            return BAD
        if a[0] == "bd":
            a, b = (env.root(a[1]), env.root(b[1]))
            if a == b:
                return EQ
            if a not in env.bd or b not in env.bd:
                return BAD
            i, j = env.ix(a), env.ix(b)
            if kind == "e":
                i, j = j, i
            if i > j:
                return BAD
            return ADV if any(e[0] == "ch" or e[2] for e in env.el[i:j]) else GE
        try:
            va, vb = env.vec(a), env.vec(b)
        except KeyError:
            return BAD
        d = dict(vb)
        for k, x in va.items():
            d[k] = d.get(k, 0) - x
            if not d[k]:
                del d[k]
        if not d:
            return EQ
        lo, hi = env.interval(d)
        if kind == "d":
            return ADV if hi < 0 else BAD
        if lo <= 0:
            return BAD
        if kind == "p" or b[0] == "t":
            # no larger than the text
            e = dict(vb)
            for k, x in env.fvec("B", env.end()).items():
                e[k] = e.get(k, 0) - x
                if not e[k]:
                    del e[k]
            if env.interval(e)[1] > 0:
                return GE if kind == "p" else BAD
        return ADV

    # ---- bookkeeping
    def on_turn(self, st, fr):
        env = st.env
        head = fr.bb
        key = (fr.body.ix, head)
        now = self.parts(st, fr, head)
        rec = fr.loops.get(head)
        if rec is not None:
            self.turn_count[key] = self.turn_count.get(key, 0) + 1
            got = self.settled(env, rec, now)
            adv = {c for c, (s, _) in got.items() if s == ADV}
            old = self.ranks.get(key)
            new = adv if old is None else old & adv
            self.ranks[key] = new
            if not new:
                if all(s == EQ or (s == GE and c[-1] == "p") or c[-1] == "d" and s == BAD and c[:-1] + ("p",) in got
                       for c, (s, _) in got.items()) and set(got) == set(now):
                    self.gone.add(key)
                    raise NoProgress("the loop goes round without getting any further in the text")
                self.loose.setdefault(key, "no part of the state gets further on every turn")
        loops = dict(fr.loops)
        loops[head] = {c: (EQ, v) for c, v in now.items()}
        fr.loops = loops

    def settled(self, env, rec, now):
        out = {}
        for c, (s, v) in rec.items():
            if s in (BAD, CHG):
                out[c] = (s, None)
                continue
            w = now.get(c)
            if w is None:
                out[c] = (BAD, None)
                continue
            if v is None:
                out[c] = (s, None)
                continue
            r = self.compare(env, c[-1], v, w)
            if r in (BAD, CHG):
                out[c] = (r, None)
            elif ADV in (r, s):
                out[c] = (ADV, None)
            else:
                out[c] = (GE if GE in (r, s) else EQ, None)
        return out

    def settle(self, j):
        """Before the boundaries change: how far every loop under way has got on this turn."""
        for fr in j.st.frames:
            if isinstance(fr, Frame) and fr.loops:
                fr.loops = {h: self.settled(j.env, rec, self.parts(j.st, fr, h)) for h, rec in fr.loops.items()}

    def remember(self, j):
        """After the boundaries changed; the part of the key that says how far the loops have got."""
        key = []
        for d, fr in enumerate(j.st.frames):
            if isinstance(fr, Frame) and fr.loops:
                loops = {}
                for h, rec in sorted(fr.loops.items()):
                    now = self.parts(j.st, fr, h)
                    loops[h] = {c: (s, now.get(c)) for c, (s, _) in rec.items()}
                    rank = self.ranks.get((fr.body.ix, h))
                    key.append((d, h, tuple(sorted((str(c), s) for c, (s, _) in rec.items()
                                                   if rank is None or c in rank))))
                fr.loops = loops
        return tuple(key)
