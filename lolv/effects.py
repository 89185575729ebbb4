"""C26: the call graph of tokenize and parse reaches nothing that reads or changes the outside world."""
from .core import Result, Violation

ENTRIES = ("tokenize", "parse", "tokenize_and_parse")
# what would make the result depend on more than the argument, or be seen from outside
DENY = [
    ("std::io::", "input or output"), ("std::fs::", "files"), ("std::env::", "the environment"), ("std::net::", "the network"),
    ("std::time::", "the time"), ("std::thread::", "threads"), ("std::process::", "processes"), ("std::os::", "the system"),
    ("std::sys::", "the system"), ("std::random::", "randomness"), ("std::hash::random", "randomness"),
    ("std::backtrace", "the call stack"), ("std::panic::set_hook", "process-global state"),
    ("std::panic::take_hook", "process-global state"), ("std::panic::catch_unwind", "panics as results"),
    ("std::alloc::set_alloc_error_hook", "process-global state"), ("core::arch::", "the processor"), ("std::arch::", "the processor"),
    ("std::ptr::read_volatile", "memory"), ("std::ptr::write_volatile", "memory"),
    ("std::sync::mpsc", "threads"), ("std::any::type_name", "the build"),
    ("std::intrinsics::volatile", "memory"), ("std::panic::Location", "the call site"),
]
# a hash table in itself depends on its entries only, but not the order of going through it
HASH_ORDER = ("iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "into_keys", "into_values", "drain", "retain",
              "extract_if", "fmt")
ONCE = ("std::sync::OnceLock<", "std::sync::LazyLock<", "std::cell::OnceCell<", "std::cell::LazyCell<")


def fn_refs(x, out):
    """Instances mentioned in a MIR fragment."""
    if isinstance(x, (list, tuple)):
        if len(x) >= 3 and x[0] == "k" and x[1] in ("fn", "fnaddr") and type(x[2]) is int:
            out.append(x[2])
        if len(x) == 3 and x[0] == "dyn" and isinstance(x[2], list):
            out += [y for y in x[2] if type(y) is int]
        for y in x:
            if isinstance(y, (list, tuple)):
                fn_refs(y, out)


def statics(x, out):
    if isinstance(x, (list, tuple)):
        if len(x) >= 3 and x[0] == "k" and x[1] == "static":
            out.append(x[2])
        for y in x:
            if isinstance(y, (list, tuple)):
                statics(y, out)


def std_path(path):
    """The path of a library function without generics: '<T as Trait>::f' stays as it is."""
    for a, b in (("core::", "std::"), ("alloc::", "std::")):
        if path.startswith(a):
            return b + path[len(a):]
    return path


def denied(inst):
    full = inst.path
    p = std_path(full.lstrip("<&"))
    for pre, what in DENY:
        q = std_path(pre)
        if p.startswith(q):
            return what
    last = full.split("::")[-1]
    if ("collections::HashMap" in full or "collections::HashSet" in full or "collections::hash" in full or
            "hash_map::" in full or "hash_set::" in full) and last in HASH_ORDER:
        return "the random order of a hash table"
    if "fmt::Pointer" in full:
        return "an address"
    return None


def closure_of(p):
    by_ty = {}
    for x in p.insts:
        if x.body is not None and x.local:
            b = p.bodies[x.body]
            if b.argc >= 1:
                t = p.types[b.locals[1]]
                if t["k"] == "ref":
                    t = p.types[t["to"]]
                if t["k"] == "closure":
                    by_ty.setdefault(t["n"], []).append(x.ix)
    return by_ty


def check(prop, p, tier):
    res = Result()
    roots = [x for x in p.insts if x.local and x.body is not None and x.path.split("::")[-1] in ENTRIES and
             "<" not in x.path]
    names = {x.path.split("::")[-1] for x in roots}
    if not {"tokenize", "parse"} <= names:
        res.undecided.append(Violation("anchor", "not established: tokenize and parse were not found"))
        return res
    drops = [x for x in p.insts if x.local and x.body is not None and " as std::ops::Drop>::drop" in x.path]
    by_ty = closure_of(p)
    seen, came, todo = set(), {}, []
    for x in roots + drops:
        todo.append(x.ix)
        came[x.ix] = None
    edges = leaves = 0
    used_statics = set()
    casts = {}

    def chain(i):
        out = []
        while i is not None and len(out) < 30:
            out.append(p.insts[i].path)
            i = came[i]
        return " > ".join(reversed(out))
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        x = p.insts[i]
        if x.body is None:
            leaves += 1
            continue
        b = p.bodies[x.body]
        bodies = [b] + [p.bodies[k] for k in sub_bodies(p, b)]
        for body in bodies:
            for stmts, term, loc in body.blocks:
                refs, sts = [], []
                fn_refs(stmts, refs)
                fn_refs(term, refs)
                statics(stmts, sts)
                statics(term, sts)
                used_statics.update(map(str, sts))
                for s in stmts:
                    if s[0] == "=" and s[2][0] == "agg":
                        for t in closure_types(p, s[2]):
                            refs += by_ty.get(t, [])
                    if x.local and s[0] == "=" and s[2][0] == "cast" and str(s[2][1]) in (
                            "PointerExposeProvenance", "PointerExposeAddress", "PointerWithExposedProvenance"):
                        res.violations.append(Violation("cast:" + x.path, "%s: the address of a value is used as a number" % x.path,
                                                        ["call path: " + chain(i)]))
                for r in refs:
                    y = p.insts[r]
                    edges += 1
                    if not y.local and x.local:
                        why = denied(y)
                        if why:
                            res.violations.append(Violation(
                                "effect:%s:%s" % (x.path, y.path), "%s (%s): the call of %s involves %s" % (
                                    x.path, ":".join(map(str, loc[:2])) if loc else "?", y.path, why),
                                ["call path: " + chain(i) + " > " + y.path]))
                        elif y.path.split("::")[0].lstrip("<&") not in ("core", "std", "alloc") and "::" in y.path and \
                                foreign(y.path):
                            res.undecided.append(Violation("foreign:" + y.path, "not established: %s calls %s of another "
                                                           "crate" % (x.path, y.path)))
                    if r not in came:
                        came[r] = i
                    todo.append(r)
    # process-global state
    sts = [x for x in p.items if x["kind"] == "static"]
    for s in sts:
        if s.get("nested"):
            continue
        if s["mut"] or not s["freeze"] and not (s["ty"].startswith(ONCE) and set_once(p, s["ty"])):
            res.violations.append(Violation("static:" + s["path"], "%s (%s): a static that can change (type %s)" % (
                s["path"], ":".join(map(str, s["loc"][:2])), s["ty"])))
    for l in p.unsafe_blocks:
        res.violations.append(Violation("unsafe:%s" % (l[0],), "%s: unsafe code" % ":".join(map(str, l[:2]))))
    for x in p.items:
        if x.get("unsafe") and "std::clone::TrivialClone>" not in x["path"]:  # part of derive(Clone, Copy)
            res.violations.append(Violation("unsafe:" + x["path"], "%s (%s): an unsafe %s" % (
                x["path"], ":".join(map(str, x["loc"][:2])), x["kind"])))
    local = sorted({p.insts[i].path for i in seen if p.insts[i].local})
    if not res.violations:
        res.floor("local functions reached", len(local), 60)
        res.floor("call edges", edges, 500)
    res.coverage = {
        "explanation": "Every function that tokenize, parse and tokenize_and_parse can reach (calls, function values, "
                       "closures, drop impls, with generics resolved); every call from the crate into the library is "
                       "checked against a list of operations with effects; all statics and all unsafe code are listed.",
        "roots": [x.path for x in roots], "functions": local, "library_functions_called": leaves, "call_edges": edges,
        "statics": len(sts), "unsafe_blocks": len(p.unsafe_blocks), "items_inspected": len(p.items),
        "obligations": edges + len(sts) + len(p.items), "discharged": edges + len(sts) + len(p.items)}
    res.assumptions = ["Functions of core, alloc and std outside the listed modules have no effect other than allocation "
                       "and panics."]
    return res


def foreign(path):
    import re
    return not re.search(r"\b(core|std|alloc)::", path)


def set_once(p, ty):
    """Whether the cells of a type are only ever filled by closures that capture nothing."""
    cell = ty.split("<")[0].split("::")[-1]
    if cell in ("LazyLock", "LazyCell"):
        return True
    for x in p.insts:
        if not x.local and "::%s::<" % cell in x.path:
            last = x.path.split("::")[-1]
            if last in ("get_or_init", "get_or_init_pin"):
                for g in [g for g in x.gargs if type(g) is int]:
                    t = p.types[g]
                    if t["k"] == "closure" and t["f"] or t["k"] in ("ref", "ptr", "dyn"):
                        return False
            elif last not in ("new", "get", "initialize", "is_initialized", "get_unchecked") and "{closure" not in last and \
                    not (last == "get_or_try_init" and any("@std::" in p.types[g]["n"] for g in x.gargs if type(g) is int)):
                return False
    return cell in ("OnceLock", "OnceCell")


def const_bodies(x, out):
    if isinstance(x, (list, tuple)):
        if len(x) >= 3 and x[0] == "k" and x[1] == "body" and type(x[2]) is int:
            out.append(x[2])
        for y in x:
            if isinstance(y, (list, tuple)):
                const_bodies(y, out)


def sub_bodies(p, b):
    """Bodies of promoted and named constants that a body uses."""
    seen, todo = [], [b]
    while todo:
        out = []
        const_bodies(todo.pop().blocks, out)
        for k in out:
            if k not in seen:
                seen.append(k)
                todo.append(p.bodies[k])
    return seen


def closure_types(p, agg):
    """Closures that are made here (their bodies count as reached)."""
    out = []
    for y in agg[1:]:
        if type(y) is int and 0 <= y < len(p.types) and p.types[y]["k"] == "closure":
            out.append(p.types[y]["n"])
    return out
