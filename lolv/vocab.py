"""C29: what the parser requires the tokenizer can produce, and tokenize_and_parse joins the two.

1. The vocabulary: the kinds of token and keywords that the tokenizer is found to add (analysis of C01-C08)
   against those which the reference grammar asks for where it accepts a construct; and every disagreement of
   the tokenizer with its reference in the kind of a token, and of the parser with the reference grammar where
   the grammar goes on and the code does not.
2. The seam: tokenize_and_parse is run on a text of which nothing is known, with tokenize and parse opaque.
"""
import os
import re
import time

from . import natives
from .core import Result, Violation
from .interp import Interp, NFrame, NoProgress, Panic, Split, State, Unsupported
from .parserdom import find_adt
from .walk import AstEnv

HERE = os.path.dirname(os.path.abspath(__file__))
# accepted besides the kind that the tokenizer produces for the same word
TWICE = {"Keyword.NOOB": "Value", "Symbol.?": "QuestionMark"}
COMMENTS = {"CommentSingleLine", "CommentMultiLine"}
SILENT = COMMENTS | {"Comma", "Ellipsis"}


def tested():
    """Class names the reference grammar tests for: name -> lines."""
    out = {}
    with open(os.path.join(HERE, "spec_parser.txt")) as f:
        for n, line in enumerate(f, 1):
            line = line.split("#")[0]
            for call in re.finditer(r"\b(?:is_|peek_is|next_is|stops?)\(([^()]*)\)", line):
                for s in re.findall(r'"([^"]+)"', call.group(1)):
                    out.setdefault(s, []).append(n)
            for s in re.findall(r'"(Keyword\.[A-Z_]+)"', line):
                if n not in out.setdefault(s, []):
                    out[s].append(n)
    return out


# ---- the seam ----------------------------------------------------------------------------------
class SeamEnv(AstEnv):
    def native(self, ctx, inst, name, args):
        v = args[0] if args else None
        for _ in range(4):
            if v is None or v[0] != "R":
                break
            v = ctx.m.read_ref(ctx.st, v)
        if v is not None and v[0] == "Str":
            v = v[1]
        if v is not None and v[0] == "D" and v[1] == "text":
            if name in ("clone", "to_string", "to_owned", "into_string", "from", "into"):
                return ("D", "text", v[2], v[3], v[4])
            if name in ("as_str", "as_ref", "borrow", "deref", "as_mut_str"):
                return v
            if name == "is_empty":
                k = self.known.get(("empty", v[2]))
                if k is None:
                    raise Split([("the text is%s empty" % ("" if b else " not"),
                                  lambda s, b=b: s.env.assume(s, ("empty", v[2]), b)) for b in (1, 0)])
                return ("i", k)
            if name in ("to_uppercase", "to_lowercase", "to_ascii_uppercase", "to_ascii_lowercase"):
                return ("Str", ("D", "text", v[2], v[3] + (name,), v[4]))
            if name in ("replace", "trim_start", "trim") and (len(args) == 1 or not same(ctx, args[1:])):
                r = ("D", "text", v[2], v[3] + (name,), v[4])
                return ("Str", r) if name == "replace" else r
        raise Unsupported("string operation " + inst.path)

    def str_eq(self, m, st, x, y):
        raise Unsupported("comparison of the text")

    def copy(self):
        e = AstEnv.copy(self)
        e.__class__ = SeamEnv
        e.parsed = dict(self.parsed)
        return e


def same(ctx, args):
    """Two known strings that are the same (replacing one by the other changes nothing)."""
    vs = []
    for a in args:
        try:
            vs.append(natives.as_view(ctx, a))
        except Unsupported:
            vs.append(a)
    return len(vs) == 2 and vs[0] == vs[1]


class Stub:
    """What SeamEnv needs to know of its domain."""

    def __init__(self, p, most):
        self.p = p
        self.size = most

    def most(self, env, d):
        return self.size

    def name(self, env, d):
        return "tokens" if d[1] == "a" else "text"

    def title(self, env, d):
        return "tokens"


class Seam:
    def __init__(self, p, most):
        self.p = p
        self.m = Interp(p)
        self.m.STEP_LIMIT = 20000
        self.stub = Stub(p, most)
        self.cases = 0
        self.findings = []
        self.token, self.tty = find_adt(p, "Token"), find_adt(p, "TokenType")
        self.tokenize = self.function("tokenize", "lexer")
        self.parse = self.function("parse", "parser")
        self.top = self.function("tokenize_and_parse", None)
        self.m.prims[self.tokenize] = self.on_tokenize
        self.m.prims[self.parse] = self.on_parse

    def function(self, name, module):
        c = [i for i, x in enumerate(self.p.insts) if x.local and x.body is not None and x.kind == "item"
             and x.path.split("::")[-1] == name and (module is None or x.path.startswith(module + "::"))
             and "{" not in x.path]
        if len(c) > 1:
            c = [i for i in c if self.p.insts[i].path.count("::") == min(self.p.insts[j].path.count("::") for j in c)]
        if len(c) != 1:
            raise Unsupported("the function %s is missing or not unique" % name)
        return c[0]

    def plain(self, st, v):
        for _ in range(6):
            if v is not None and v[0] == "R":
                v = self.m.read_ref(st, v)
            elif v is not None and v[0] == "Str":
                v = v[1]
            else:
                break
        return v

    def on_tokenize(self, m, st, inst, args):
        v = self.plain(st, args[0])
        if v is None or v[0] != "D" or v[1] != "text":
            raise Unsupported("the text that is tokenized")
        n = sum(1 for k in st.env.known if k[0] == "tokenized")
        st.env.known[("tokenized", n)] = v
        return ("D", "a", v[2], (("of",) + v[3],), m.p.bodies[inst.body].locals[0]) if v[3] else \
            ("D", "a", 0, (), m.p.bodies[inst.body].locals[0])

    def on_parse(self, m, st, inst, args):
        v = args[0]
        n = len(st.env.parsed)
        st.env.parsed[n] = v
        return ("D", "ast", n, (), m.p.bodies[inst.body].locals[0])

    def run(self):
        m, p = self.m, self.p
        env = SeamEnv(self.stub)
        env.parsed = {}
        st = State(env)
        b = p.bodies[p.insts[self.top].body]
        if b.argc != 1:
            raise Unsupported("tokenize_and_parse takes %d arguments" % b.argc)
        st.frames.append(NFrame("top", [("D", "text", 0, (), b.locals[1])], {"inst": self.top, "rty": b.locals[0]}, None))
        work = [(st, ())]
        while work:
            s, why = work.pop()
            self.cases += 1
            if self.cases > 4000:
                raise Unsupported("too many cases")
            try:
                c = s.copy()
                m.run(c)
                self.judge(c, why)
            except Split as e:
                for label, g in reversed(e.options):
                    x = s.copy()
                    x.steps = 0
                    g(x)
                    work.append((x, why + (label,)))
            except Panic as e:
                self.findings.append(("panic", "tokenize_and_parse panics: %s" % e.what, why))
            except NoProgress:
                self.findings.append(("spin", "tokenize_and_parse does not return", why))

    def kinds(self, st, d):
        """The names of the kinds the token d may have."""
        t = self.p.types[self.tty]
        i = next(i for i, f in enumerate(self.p.types[self.token]["vs"][0]["f"]) if f[1] == self.tty)
        vs = st.env.variants(self.m, st, ("D", d[1], d[2], d[3] + ((0, i),), self.tty))
        return {t["vs"][v]["n"] for v in vs}

    def judge(self, st, why):
        env, m = st.env, self.m
        bad = lambda kind, text: self.findings.append((kind, text, why))
        v = self.plain(st, st.result)
        for k, t in env.known.items():
            if k[0] == "tokenized" and t[3]:
                return bad("text", "tokenize_and_parse tokenizes the text changed by %s" % ", ".join(t[3]))
        rk = frozenset(env.variants(m, st, ("D", "a", 0, (), self.p.bodies[self.p.insts[self.tokenize].body].locals[0])))
        if v is None or v[0] not in ("A", "D"):
            raise Unsupported("the result of tokenize_and_parse")
        done = any(k[0] == "tokenized" for k in env.known)
        if v[0] == "D":
            raise Unsupported("the result of tokenize_and_parse")
        if v[2] == 1:
            x = self.plain(st, v[3][0])
            if not done or rk == {0}:
                return bad("error", "tokenize_and_parse gives an error although the tokenizer does not")
            if x is not None and x[0] == "D" and x[1:4] == ("a", 0, ((1, 0),)):
                return
            raise Unsupported("the error of tokenize_and_parse")
        if done and rk == {1}:
            return bad("error", "tokenize_and_parse gives a syntax tree although the tokenizer reports an error")
        x = self.plain(st, v[3][0])
        if x is not None and x[0] == "D" and x[1] == "ast":
            return self.tokens(st, env.parsed[x[2]], bad)
        n = self.nodes(st, x)
        if n is None:
            raise Unsupported("the syntax tree that tokenize_and_parse gives")
        if n > 0:
            raise Unsupported("a syntax tree that is not made by parse")
        if not done:
            if env.known.get(("empty", 0)) == 1:
                return
            return bad("skipped", "tokenize_and_parse gives an empty syntax tree without tokenizing the text")
        want = self.expected(env)
        if want is None:
            return bad("skipped", "tokenize_and_parse gives an empty syntax tree whatever the tokens are")
        if any(self.kinds(st, d) - SILENT for d in want):
            bad("skipped", "tokenize_and_parse gives an empty syntax tree although there are tokens")

    def nodes(self, st, x):
        """The number of statements of a block built in place."""
        if x is None or x[0] != "A" or len(x[3]) != 1:
            return None
        q = self.plain(st, x[3][0])
        return len(q[2]) if q is not None and q[0] == "Q" and q[1] is None else None

    def expected(self, env):
        xs = env.lists.get(("a", 0, ((0, 0),)))
        return None if xs is None else [("D", "a", x, (), self.token) for x in xs]

    def tokens(self, st, v, bad):
        env = st.env
        v = self.plain(st, v)
        if v is not None and v[0] == "D" and v[1:4] == ("a", 0, ((0, 0),)):
            return                                # untouched
        if v is None or v[0] != "Q" or v[1] is not None:
            raise Unsupported("the tokens that are parsed")
        want = self.expected(env)
        if want is None:
            if not v[2]:
                return bad("tokens", "no tokens are parsed although the text may have some")
            raise Unsupported("the tokens that are parsed")
        got = []
        for x in v[2]:
            x = self.plain(st, x)
            if x is not None and x[0] == "A" and all(f is not None and f[0] == "D" and f[:3] == x[3][0][:3] and
                                                     f[3] == ((0, i),) for i, f in enumerate(x[3])):
                x = x[3][0][:3] + ((), self.token)           # taken apart and put together again
            if x is None or x[0] != "D" or x[1] != "a":
                if x is not None and x[0] == "A":
                    return bad("tokens", "a token is parsed that is not the tokenizer's")
                raise Unsupported("a token that is parsed")
            got.append(x[1:4])
        i = 0
        for d in want:
            if i < len(got) and got[i] == d[1:4]:
                i += 1
            elif self.kinds(st, d) - COMMENTS:
                return bad("tokens", "token %d of %d is not given to the parser in its place" % (want.index(d) + 1, len(want)))
        if i < len(got):
            bad("tokens", "more tokens are parsed than the tokenizer gives")


# ---- the check ---------------------------------------------------------------------------------
def check(prop, p, tier):
    res = Result()
    from . import parsercheck
    # the parser first: it forks, and the analysis of the tokenizer changes global tables
    outs = []
    try:
        outs = parsercheck.run_jobs(p, parsercheck.ALL)
    except Unsupported as e:
        res.undecided.append(Violation("anchor:" + str(e), "the parser cannot be analysed: %s" % e))
    accepted = {}
    for o in outs:
        for kind, msg, trace, stack, props, cons in o["findings"]:
            if "C29" in props:
                fn, where = parsercheck.locate(stack)
                res.violations.append(Violation(
                    "%s:%s:%s:%s" % (kind, cons, fn, parsercheck.skeleton(msg)), "%s (%s): %s" % (fn, where, msg),
                    ["construct: %s" % cons, "call path: " + " > ".join(n for n, _ in stack), "path:"] +
                    ["  " + t for t in trace]))
        for msg, trace, stack in o["unsupported"]:
            fn, where = parsercheck.locate(stack)
            res.undecided.append(Violation("undecided:%s:%s" % (fn, msg), "not established: %s (%s) uses a construct the "
                                           "analysis does not cover: %s" % (fn, where, msg)))
        for k, n in o["obligations"].items():
            if type(k) is tuple and k[1] == "ok":
                accepted[k[0]] = accepted.get(k[0], 0) + n
    # the tokenizer
    from . import lexcheck, text
    from .sicheck import add_findings
    text.configure(p.points())
    from . import lexdomain
    made, d = None, None
    try:
        m, d, e = lexdomain.analyse(p, deadline=time.time() + min(350, lexcheck.DEADLINE))
        add_findings(res, prop, d, e)
        made = {k for k in d.obligations if k not in ("end", "error", "Keyword", "Int", "Float", "String", "Boolean", "NOOB")}
        if set(d.obligations) & {"Int", "Float", "String", "Boolean", "NOOB"}:
            made.add("Value")
        made |= {"Keyword." + k for k in d.kwseen}
    except Unsupported as x:
        res.undecided.append(Violation("anchor:" + str(x), "the tokenizer cannot be analysed: %s" % x))
    asked = tested()
    missing = []
    if made is not None:
        for name, lines in sorted(asked.items()):
            if name not in made and TWICE.get(name) not in made:
                missing.append(name)
        if missing and not e.unsupported and not res.undecided and len(e.findings) < e.max_findings:
            for name in missing:
                res.violations.append(Violation("missing:" + name, "lexer::tokenize never adds a %s token, which the parser "
                                                "requires (reference grammar, line %s)" % (name, asked[name][0])))
    # the seam
    seam = None
    try:
        seam = Seam(p, 5 if tier == "thorough" else 3)
        seam.run()
    except (Unsupported, TypeError, KeyError, IndexError, AttributeError) as x:
        res.undecided.append(Violation("seam:" + str(x), "not established: tokenize_and_parse uses a construct the analysis "
                                       "does not cover: %s" % x))
    seen = set()
    for kind, msg, why in seam.findings if seam else ():
        if kind not in seen:
            seen.add(kind)
            b = p.bodies[p.insts[seam.top].body]
            res.violations.append(Violation("seam:" + kind, "tokenize_and_parse (%s): %s" % (
                ":".join(map(str, b.loc[:2])) if b.loc else "?", msg), ["path:"] + ["  " + x for x in why]))
    res.floor("kinds and keywords the grammar tests for", len(asked), 50)
    if not res.violations:
        res.floor("cases of tokenize_and_parse", seam.cases if seam else 0, 2)
        res.floor("constructs accepted", len(accepted), 12)
        res.floor("kinds and keywords the tokenizer produces", len(made or ()), 60)
    res.coverage = {
        "explanation": "Vocabularies: what the tokenizer's MIR is found to add (analysis next to its reference) against what "
                       "the reference grammar requires where it accepts, the parser's MIR being compared with the "
                       "grammar; and the MIR of tokenize_and_parse with tokenize and parse opaque.",
        "asked_by_the_parser": sorted(asked), "made_by_the_tokenizer": sorted(made or ()),
        "accepted_besides": TWICE, "constructs_accepted": accepted, "cases_of_tokenize_and_parse": seam.cases if seam else 0,
        "obligations": len(asked) + (seam.cases if seam else 0), "discharged": len(asked) - len(missing) + (seam.cases if seam else 0)}
    res.assumptions = ["What C01-C08 and C12-C20 assume.", "tokenize_and_parse was run on at most %d tokens." % (seam.stub.size if seam else 0)]
    return res
