"""C01-C08: the tokenizer against its reference, to a fixpoint (see lexdomain.py)."""
import os
import time

from . import text
from .core import Result, Violation
from .interp import Interp, NullEnv, State, Unsupported
from .sicheck import add_findings

# token kinds and how many comparisons of each are the least that make sense
FLOORS = {"Symbol": 8, "String": 3, "end": 1, "Float": 6, "Int": 4, "Identifier": 20, "Keyword": 30, "NOOB": 1,
          "Boolean": 2, "Ellipsis": 2, "BukkitSlotAccess": 1, "error": 1, "CommentMultiLine": 1,
          "CommentSingleLine": 2, "QuestionMark": 1, "ExclamationMark": 1, "Comma": 1}
RELEVANT = {"C03": None, "C04": None, "C01": None, "C02": None,
            "C05": ["Keyword"], "C06": ["Keyword", "Identifier", "Boolean", "NOOB"],
            "C07": ["Int", "Float", "String", "Boolean", "NOOB"],
            "C08": ["Identifier", "Comma", "ExclamationMark", "QuestionMark", "BukkitSlotAccess", "Ellipsis", "Symbol",
                    "CommentSingleLine", "CommentMultiLine", "error"]}
DEADLINE = float(os.environ.get("LOLV_DEADLINE", "450"))


def check(prop, p, tier):
    res = Result()
    text.configure(p.points())
    from . import lexdomain             # after the characters are known
    try:
        m, d, e = lexdomain.analyse(p, deadline=time.time() + DEADLINE)
    except Unsupported as x:
        res.undecided.append(Violation("anchor:" + str(x), "the tokenizer cannot be analysed: %s" % x))
        return res
    add_findings(res, prop, d, e)
    name = lambda k: p.bodies[k[0]].name
    if prop == "C02":
        for k, why in e.loose.items():
            if k not in e.gone:
                res.undecided.append(Violation("loop:%s" % name(k), "not established: the loop in %s (block %d) is not "
                                               "known to end: %s" % (name(k), k[1], why)))
    table = keyword_table(p, d, res) if prop == "C05" else None
    fns = sorted(p.bodies[b].name for b in m.covered if p.bodies[b].inst is not None)
    res.coverage = {
        "explanation": "Abstract interpretation of the tokenizer's MIR over a text of unbounded length next to a reference "
                       "tokenizer, to a fixpoint; every token the code adds is compared with the reference in kind, "
                       "value, content and range, every slice with its bounds and character boundaries.",
        "states": e.states, "events": e.events, "case_splits": e.splits, "reference_alternatives": len(d.spec.alternatives),
        "tokens_compared": dict(d.obligations), "keywords_compared": sorted(d.kwseen),
        "functions": [f for f in fns if f.split("::")[0] in ("lexer", "to_string_slice") or "Position" in f or "Range" in f],
        "functions_interpreted": len(fns), "call_sites_interpreted": m.sites,
        "obligations": sum(d.obligations.values()), "discharged": sum(d.obligations.values()),
        "refined_control_points": len(d.refined)}
    if prop == "C02":
        res.coverage["loops"] = [{"function": name(k), "block": k[1], "turns": e.turn_count[k],
                                  "advances_on_every_turn": sorted(map(str, r))} for k, r in sorted(e.ranks.items())]
    if table is not None:
        res.coverage["keyword_table"] = table
    if not e.findings and not e.unsupported:
        for k in RELEVANT[prop] or FLOORS:
            res.floor("comparisons of %s" % k, d.obligations.get(k, 0), FLOORS[k])
        if prop == "C02":
            res.floor("loops", len(e.ranks), 1)
        if prop in ("C05", "C06"):
            own = {"BTW", "OBTW", "WIN", "FAIL", "NOOB"}
            res.floor("keywords compared", len(d.kwseen), len([k for k in d.kwnames if k not in own]))
    res.assumptions = ["A text is shorter than 2 GiB, so that its counts fit the position's fields.",
                       "str::parse accepts and evaluates numbers as documented: a lexeme of digits with an optional sign "
                       "is an i32 unless too large; one with one dot and a digit is an f32.",
                       "The models of str, String, Chars and CharIndices (lolv/text.py) are right."]
    return res


def keyword_table(p, d, res):
    """Spelling of every keyword and the list that is searched, by constant propagation."""
    names = d.kwnames
    spelled = {}
    for x in methods(p, "to_string_slice", 1, d.keywords):
        for i, n in enumerate(names):
            s = const(p, x, ("A", d.keywords, i, ()))
            while s is not None and s[0] in ("Str", "R") and type(s[1]) is tuple and s[1] and s[1][0] in ("S", "Str"):
                s = s[1]
            if s is None or s[0] != "S":
                continue
            want = n.replace("_", " ")
            spelled[n] = s[1]
            if s[1] != want:
                res.violations.append(Violation("spelling:" + n, "%s: Keywords::%s is spelled %r, not %r" % (
                    x.path, n, s[1], want)))
    listed = []
    for x in methods(p, "iter", 0, None):
        v = const(p, x, None)
        vs = sequence(v, d.keywords)
        if vs is None:
            continue
        listed.append(len(vs))
        for i, n in enumerate(names):
            if vs.count(i) != 1:
                res.violations.append(Violation("list:" + n, "%s: Keywords::%s is listed %s" % (
                    x.path, n, "%d times" % vs.count(i) if vs.count(i) else "not at all")))
    if len(set(spelled.values())) != len(spelled):
        res.violations.append(Violation("spelling:twice", "two keywords have the same spelling"))
    return {"spellings": spelled, "lists": listed}


def sequence(v, adt):
    """The variants in the constant list inside an iterator."""
    if type(v) is not tuple:
        return None
    if len(v) > 1 and all(type(x) is tuple and len(x) == 4 and x[0] == "A" and x[1] == adt for x in v):
        return [x[2] for x in v]
    for x in v:
        r = sequence(x, adt)
        if r is not None:
            return r
    return None


def methods(p, name, argc, adt):
    for x in p.insts:
        if x.body is None or x.path.split("::")[-1] != name:
            continue
        b = p.bodies[x.body]
        if b.argc != argc:
            continue
        if argc:
            t = p.types[b.locals[1]]
            if t["k"] != "ref" or t["to"] != adt:
                continue
        elif "Keywords" not in x.path:
            continue
        yield x


def const(p, x, arg):
    m = Interp(p)
    st = State(NullEnv())
    args = []
    if arg is not None:
        args = [("R", ("H", st.alloc(arg)), (), None)]
    m.push_body(st, x, args, None)
    try:
        m.run(st)
    except Exception:
        return None
    v = st.result
    try:
        while v is not None and v[0] == "It" and v[1] == "ref" or v is not None and v[0] == "R":
            v = m.read_ref(st, v[2] if v[0] == "It" else v)
    except Exception:
        pass
    return v
