"""Models of the library functions that the interpreter does not take from their MIR."""
from .interp import (PUSHED, NFrame, Panic, Split, Unsupported, is_int)

TABLE = {}
RESUME = {}


def native(*paths):
    def deco(f):
        for p in paths:
            TABLE[p] = f
        return f
    return deco


def resume(kind):
    def deco(f):
        RESUME[kind] = f
        return f
    return deco


def install(m):
    pass


def norm(path):
    """Method path without generic parameters: 'std::vec::Vec::push'."""
    out = []
    depth = 0
    i = 0
    # drop a leading <T as Trait> wrapper but keep its text
    while i < len(path):
        c = path[i]
        if c == "<":
            depth += 1
        elif c == ">" and path[i - 1] != "-":
            depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return "".join(out).replace("::::", "::")


def lookup(m, inst):
    p = inst.path
    f = TABLE.get(p)
    if f is not None:
        return f
    n = inst.name
    tr = inst.trait
    if tr == "std::clone::Clone" and n == "clone" :
        return clone
    if tr == "std::borrow::ToOwned" and n == "to_owned":
        return to_owned
    if p.startswith("<"):
        # trait method on a library type
        key = None
        if " as " in p:
            self_part = p[1:].split(" as ")[0]
            key = (norm(self_part).rstrip(":"), n)
        f = TRAIT.get(key)
        if f is not None:
            return f
    q = norm(p)
    f = TABLE.get(q)
    if f is not None:
        return f
    if q.startswith("core::slice::") or q.startswith("std::slice::"):
        f = SLICE.get(n)
        if f is not None:
            return f
    if q.startswith(("core::str::", "std::str::", "std::string::")) or p.startswith(
            ("<std::string::", "<str as", "<std::str::", "core::str::", "std::char::", "core::char",
             "core::num::", "std::string::", "<char as", "<T as std::string::ToString")) or \
            p.startswith(("std::char::", "core::unicode")):
        if n in INTS and p.startswith("core::num::"):
            def num(ctx, *a):
                r = int_op(ctx, n, a)
                return ctx.st.env.native(ctx, inst, n, list(a)) if r is None else r
            return num

        def dom(ctx, *a):
            return ctx.st.env.native(ctx, inst, n, list(a))
        return dom
    if inst.kind == "intrinsic":
        f = INTRINSIC.get(n)
        if f is None and n in INTS:
            def num(ctx, *a):
                r = int_op(ctx, n, a)
                return NotImplemented if r is None else r
            return num
        return f
    return None


INTS = {"saturating_sub": lambda a, b: max(a - b, 0), "saturating_add": lambda a, b: a + b, "abs_diff": lambda a, b: abs(a - b)}


def int_op(ctx, n, args):
    """An operation on known unsigned integers that are small."""
    if len(args) == 2 and all(a is not None and a[0] == "i" and 0 <= a[1] < 100 for a in args) and ctx.m.T(ctx.dest_ty)["n"] == "usize":
        return ("i", INTS[n](args[0][1], args[1][1]))
    return None


# ---- helpers -----------------------------------------------------------------------------------
def variant_named(m, ty, name):
    return m.p.variant_ix(ty, name)


def some(ctx, v, ty=None):
    ty = ty if ty is not None else ctx.dest_ty
    return ("A", ty, 1, (v,))


def none(ctx, ty=None):
    ty = ty if ty is not None else ctx.dest_ty
    return ("A", ty, 0, ())


def unit(ctx):
    return ("A", ctx.dest_ty, 0, ())


def boolean(b):
    return ("i", int(b))


def opt_variant(m, st, v):
    """0 / 1 for an Option value, splitting if it is symbolic."""
    if v is None:
        raise Unsupported("uninitialised Option")
    if v[0] == "A":
        return v[2]
    if v[0] == "D":
        vs = st.env.variants(m, st, v)
        if len(vs) > 1:
            m.split_variants(st, v)
        return next(iter(vs))
    raise Unsupported("Option " + v[0])


def opt_payload(m, st, v):
    if v[0] == "A":
        return v[3][0]
    return st.env.project(m, st, v, 1, 0, m.p.field_ty(v[4], 1, 0))


# ---- clone / mem / box -------------------------------------------------------------------------
def clone(ctx, r):
    v = ctx.m.read_ref(ctx.st, r)
    if v is not None and v[0] == "Dv":
        v = v[1]
    return v


def to_owned(ctx, r):
    v = ctx.m.read_ref(ctx.st, r)
    if v[0] in ("S", "V"):
        return ("Str", v)
    return v


@native("std::intrinsics::integer_min", "std::intrinsics::integer_max")
def integer_min(ctx, a, b):
    r = ctx.m.binop(ctx.st, "Lt", a, b, ctx.inst.gargs[0])
    if r is None or r[0] != "i":
        return ("T",)
    return (a if r[1] else b) if ctx.inst.path.endswith("min") else (b if r[1] else a)


@native("std::mem::replace")
def mem_replace(ctx, r, v):
    old = ctx.m.read_ref(ctx.st, r)
    ctx.m.write_ref(ctx.st, r, v)
    return old


@native("std::mem::take")
def mem_take(ctx, r):
    old = ctx.m.read_ref(ctx.st, r)
    ctx.m.write_ref(ctx.st, r, default_value(ctx, ctx.dest_ty))
    return old


@native("std::mem::swap")
def mem_swap(ctx, a, b):
    m, st = ctx.m, ctx.st
    x, y = m.read_ref(st, a), m.read_ref(st, b)
    m.write_ref(st, a, y)
    m.write_ref(st, b, x)
    return unit(ctx)


@native("std::mem::drop", "std::mem::forget")
def mem_drop(ctx, v):
    return unit(ctx)


@native("std::mem::size_of", "std::mem::align_of")
def size_of(ctx):
    return ("T",)


@native("std::fmt::Arguments::from_str", "std::fmt::Arguments::new", "std::fmt::Arguments::new_const",
        "std::fmt::Arguments::new_v1", "std::fmt::Arguments::new_v1_formatted", "std::fmt::Arguments::from_str_nonconst",
        "std::fmt::rt::Argument::new_display", "std::fmt::rt::Argument::new_debug", "std::fmt::rt::Argument::none",
        "std::fmt::format", "std::fmt::rt::Placeholder::new")
def fmt_args(ctx, *args):
    """Text made for people: nothing is known of it, and it decides nothing."""
    return ("T",)


def default_value(ctx, ty):
    t = ctx.m.T(ty)
    if t["k"] == "adt":
        n = t["path"]
        if n == "std::option::Option":
            return ("A", ty, 0, ())
        if n in ("std::vec::Vec", "std::collections::VecDeque"):
            return ("Q", None, ())
        if n == "std::string::String":
            return ("Str", ("S", ""))
    if t["k"] in ("int", "uint", "bool"):
        return ("i", 0)
    if t["k"] == "tuple":
        return ("A", ty, 0, tuple(default_value(ctx, x) for x in t["f"]))
    raise Unsupported("default of " + t["n"])


@native("std::option::Option::take")
def option_take(ctx, r):
    old = ctx.m.read_ref(ctx.st, r)
    if old is not None and old[0] == "Dv":
        old = old[1]
    ctx.m.write_ref(ctx.st, r, ("A", ctx.dest_ty, 0, ()))
    return old


@native("std::option::Option::replace")
def option_replace(ctx, r, v):
    old = ctx.m.read_ref(ctx.st, r)
    ctx.m.write_ref(ctx.st, r, some(ctx, v))
    return old


@native("std::boxed::Box::new")
def box_new(ctx, v):
    return ("B", ctx.st.alloc(v))


@native("std::boxed::Box::new_uninit")
def box_new_uninit(ctx):
    return ("B", ctx.st.alloc(None))


@native("std::boxed::box_assume_init_into_vec_unsafe")
def box_into_vec(ctx, b):
    v = ctx.st.heap[b[1]]
    while v is not None and v[0] == "A" and (v[1] is None or ctx.m.T(v[1])["k"] != "array"):
        # MaybeUninit { value: ManuallyDrop { value } }, partly described
        fs = [x for x in v[3] if x is not None]
        if len(fs) != 1:
            raise Unsupported("boxed array")
        v = fs[0]
    if v is None or v[0] != "A":
        raise Unsupported("boxed array")
    return ("Q", None, v[3])


def box_deref(ctx, r):
    v = ctx.m.read_ref(ctx.st, r)
    if v is not None and v[0] == "B":
        return ("R", ("H", v[1]), (), v[2] if len(v) > 2 else None)
    return NotImplemented


@native("std::boxed::Box::as_ref", "std::boxed::Box::as_mut")
def _ba(ctx, r):
    return box_deref(ctx, r)


# ---- sequences ---------------------------------------------------------------------------------
@native("std::vec::Vec::new", "std::collections::VecDeque::new")
def seq_new(ctx):
    return ("Q", None, ())


@native("std::vec::Vec::with_capacity", "std::collections::VecDeque::with_capacity")
def seq_with_capacity(ctx, n):
    return ("Q", None, ())


def seq_default(ctx):
    return ("Q", None, ())


def seq(ctx, r):
    v = ctx.m.read_ref(ctx.st, r)
    if v is None:
        raise Unsupported("uninitialised sequence")
    if v[0] == "Dv":
        v = v[1]
    return v


def on_push(m, st, s, v):
    """Lets the domain absorb an item added to a sequence: (sequence, None), else (sequence, item)."""
    f = getattr(st.env, "absorb", None)
    return f(m, st, s, v) if f is not None else (s, v)


@native("std::vec::Vec::push", "std::collections::VecDeque::push_back")
def seq_push(ctx, r, v):
    s = seq(ctx, r)
    if s[0] != "Q":
        return ctx.st.env.seq_op(ctx, "push", r, s, [v])
    s, v = on_push(ctx.m, ctx.st, s, v)
    if v is None:
        ctx.m.write_ref(ctx.st, r, s)
        return unit(ctx)
    ctx.m.write_ref(ctx.st, r, ("Q", s[1], s[2] + (v,)))
    return unit(ctx)


@native("std::collections::VecDeque::push_front")
def seq_push_front(ctx, r, v):
    s = seq(ctx, r)
    if s[0] != "Q" or s[1] is not None:
        return ctx.st.env.seq_op(ctx, "push_front", r, s, [v])
    ctx.m.write_ref(ctx.st, r, ("Q", None, (v,) + s[2]))
    return unit(ctx)


@native("std::vec::Vec::insert", "std::collections::VecDeque::insert")
def seq_insert(ctx, r, i, v):
    s = seq(ctx, r)
    if s[0] == "Q" and s[1] is None and is_int(i):
        if i[1] > len(s[2]):
            ctx.panic("insertion index out of bounds")
        ctx.m.write_ref(ctx.st, r, ("Q", None, s[2][:i[1]] + (v,) + s[2][i[1]:]))
        return unit(ctx)
    return ctx.st.env.seq_op(ctx, "insert", r, s, [i, v])


@native("std::vec::Vec::pop", "std::collections::VecDeque::pop_back")
def seq_pop(ctx, r):
    s = seq(ctx, r)
    if s[0] != "Q" or (s[1] is not None and not s[2]):
        return ctx.st.env.seq_op(ctx, "pop", r, s, [])
    if not s[2]:
        return none(ctx)
    ctx.m.write_ref(ctx.st, r, ("Q", s[1], s[2][:-1]))
    return some(ctx, s[2][-1])


@native("std::vec::Vec::remove")
def seq_remove(ctx, r, i):
    s = seq(ctx, r)
    if s[0] == "Q" and s[1] is None and is_int(i):
        if i[1] >= len(s[2]):
            ctx.panic("removal index out of bounds")
        ctx.m.write_ref(ctx.st, r, ("Q", None, s[2][:i[1]] + s[2][i[1] + 1:]))
        return s[2][i[1]]
    return ctx.st.env.seq_op(ctx, "remove", r, s, [i])


@native("std::vec::Vec::truncate", "std::collections::VecDeque::truncate")
def seq_truncate(ctx, r, n):
    s = seq(ctx, r)
    if s[0] == "Q" and s[1] is None and is_int(n):
        ctx.m.write_ref(ctx.st, r, ("Q", None, s[2][:n[1]]))
        return unit(ctx)
    return ctx.st.env.seq_op(ctx, "truncate", r, s, [n])


@native("std::collections::VecDeque::pop_front")
def seq_pop_front(ctx, r):
    s = seq(ctx, r)
    if s[0] != "Q" or s[1] is not None:
        return ctx.st.env.seq_op(ctx, "pop_front", r, s, [])
    if not s[2]:
        return none(ctx)
    ctx.m.write_ref(ctx.st, r, ("Q", None, s[2][1:]))
    return some(ctx, s[2][0])


@native("std::vec::Vec::len", "std::collections::VecDeque::len")
def seq_len(ctx, r):
    s = seq(ctx, r)
    if s[0] != "Q" or s[1] is not None:
        return ctx.st.env.seq_op(ctx, "len", r, s, [])
    return ("i", len(s[2]))


@native("std::vec::Vec::is_empty", "std::collections::VecDeque::is_empty")
def seq_is_empty(ctx, r):
    s = seq(ctx, r)
    if s[0] != "Q":
        return ctx.st.env.seq_op(ctx, "is_empty", r, s, [])
    return boolean(s[1] is None and not s[2])


@native("std::vec::Vec::clear", "std::collections::VecDeque::clear")
def seq_clear(ctx, r):
    ctx.m.write_ref(ctx.st, r, ("Q", None, ()))
    return unit(ctx)


@native("std::vec::Vec::reserve", "std::collections::VecDeque::reserve", "std::vec::Vec::shrink_to_fit")
def seq_reserve(ctx, r, *n):
    return unit(ctx)


@native("std::vec::Vec::append", "std::collections::VecDeque::append")
def seq_append(ctx, a, b):
    x, y = seq(ctx, a), seq(ctx, b)
    if x[0] == "Q" and y[0] == "Q" and y[1] is None:
        ctx.m.write_ref(ctx.st, a, ("Q", x[1], x[2] + y[2]))
        ctx.m.write_ref(ctx.st, b, ("Q", None, ()))
        return unit(ctx)
    if x[0] == "Q" and y[0] == "Q" and x == ("Q", None, ()):
        ctx.m.write_ref(ctx.st, a, y)
        ctx.m.write_ref(ctx.st, b, x)
        return unit(ctx)
    return ctx.st.env.seq_op(ctx, "append", a, x, [b])


@native("std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "std::collections::VecDeque::make_contiguous")
def seq_as_slice(ctx, r):
    return r


def seq_deref(ctx, r):
    return r


def elem_ref(r, i):
    return ("R", r[1], r[2] + (("e", i),), None)


def bounds(ctx, r, s):
    """(offset, length) of the slice r points to; length None if unknown."""
    meta = r[3] if r[0] == "R" else None
    if meta is not None and meta[0] == "sl":
        return meta[1], meta[2]
    if s[0] == "Q":
        return 0, (len(s[2]) if s[1] is None else None)
    if s[0] == "A":
        return 0, len(s[3])
    return 0, None


@native("std::collections::VecDeque::back", "std::collections::VecDeque::back_mut")
def seq_last(ctx, r):
    s = seq(ctx, r)
    if s[0] == "Q":
        off, n = bounds(ctx, r, s)
        if n is None:
            if s[2]:
                return some(ctx, elem_ref(r, len(s[2]) - 1))
        else:
            if n == 0:
                return none(ctx)
            return some(ctx, elem_ref(r, off + n - 1))
    elif s[0] == "A":
        off, n = bounds(ctx, r, s)
        return some(ctx, elem_ref(r, off + n - 1)) if n else none(ctx)
    return ctx.st.env.seq_op(ctx, "last", r, s, [])


@native("std::collections::VecDeque::front", "std::collections::VecDeque::front_mut")
def seq_first(ctx, r):
    s = seq(ctx, r)
    if s[0] in ("Q", "A"):
        off, n = bounds(ctx, r, s)
        if n is not None:
            return some(ctx, elem_ref(r, off)) if n else none(ctx)
    return ctx.st.env.seq_op(ctx, "first", r, s, [])


@native("std::collections::VecDeque::get", "std::collections::VecDeque::get_mut")
def seq_get(ctx, r, i):
    s = seq(ctx, r)
    if s[0] in ("Q", "A") and is_int(i):
        off, n = bounds(ctx, r, s)
        if n is not None:
            return some(ctx, elem_ref(r, off + i[1])) if i[1] < n else none(ctx)
    return ctx.st.env.seq_op(ctx, "get", r, s, [i])


def seq_index(ctx, r, i):
    s = seq(ctx, r)
    if s[0] in ("Q", "A") and is_int(i):
        off, n = bounds(ctx, r, s)
        if n is not None:
            if i[1] < n:
                return elem_ref(r, off + i[1])
            ctx.panic("index out of bounds")
    if s[0] in ("Q", "A") and i is not None and i[0] == "A" and i[1] is not None:
        off, n = bounds(ctx, r, s)
        nm = ctx.m.T(i[1])["n"]
        if n is not None:
            lo, hi = 0, n
            vals = [x[1] if is_int(x) else None for x in i[3]]
            if "RangeFull" in nm:
                pass
            elif "RangeFrom" in nm:
                lo = vals[0]
            elif "RangeTo<" in nm:
                hi = vals[0]
            elif "std::ops::Range<" in nm:
                lo, hi = vals[0], vals[1]
            else:
                raise Unsupported("slice index " + nm)
            if lo is None or hi is None:
                raise Unsupported("symbolic slice index")
            if lo > hi or hi > n:
                ctx.panic("slice index out of bounds")
            return ("R", r[1], r[2], ("sl", off + lo, hi - lo))
    return ctx.st.env.seq_op(ctx, "index", r, s, [i])


def seq_iter(ctx, r):
    s = seq(ctx, r)
    if s[0] in ("Q", "A"):
        off, n = bounds(ctx, r, s)
        if n is not None:
            return ("It", "ref", r[:3] + (None,), off, off + n)
    return ctx.st.env.seq_op(ctx, "iter", r, s, [])


@native("std::collections::VecDeque::iter", "std::collections::VecDeque::iter_mut")
def _vd_iter(ctx, r):
    return seq_iter(ctx, r)


def seq_into_iter(ctx, v):
    if v is not None and v[0] == "Q" and v[1] is None:
        return ("It", "own", v[2])
    if v is not None and v[0] == "R":
        return seq_iter(ctx, v)
    return ctx.st.env.seq_op(ctx, "into_iter", None, v, [])


def it_next(ctx, r):
    it = ctx.m.read_ref(ctx.st, r)
    if it is None:
        raise Unsupported("iterator")
    if it[0] == "It" and it[1] == "own":
        if not it[2]:
            return none(ctx)
        ctx.m.write_ref(ctx.st, r, ("It", "own", it[2][1:]))
        return some(ctx, it[2][0])
    if it[0] == "It" and it[1] == "ref":
        if it[3] >= it[4]:
            return none(ctx)
        ctx.m.write_ref(ctx.st, r, ("It", "ref", it[2], it[3] + 1, it[4]))
        return some(ctx, elem_ref(it[2], it[3]))
    return ctx.st.env.iter_op(ctx, "next", r, it)


def it_next_back(ctx, r):
    it = ctx.m.read_ref(ctx.st, r)
    if it is None:
        raise Unsupported("iterator")
    if it[0] == "It" and it[1] == "own":
        if not it[2]:
            return none(ctx)
        ctx.m.write_ref(ctx.st, r, ("It", "own", it[2][:-1]))
        return some(ctx, it[2][-1])
    if it[0] == "It" and it[1] == "ref":
        if it[3] >= it[4]:
            return none(ctx)
        ctx.m.write_ref(ctx.st, r, ("It", "ref", it[2], it[3], it[4] - 1))
        return some(ctx, elem_ref(it[2], it[4] - 1))
    return ctx.st.env.iter_op(ctx, "next_back", r, it)


def it_len(ctx, r):
    it = ctx.m.read_ref(ctx.st, r)
    if it is not None and it[0] == "It":
        if it[1] == "own":
            return ("i", len(it[2]))
        if it[1] == "ref":
            return ("i", it[4] - it[3])
    return ctx.st.env.iter_op(ctx, "len", r, it)


def it_count(ctx, it):
    if it is not None and it[0] == "It":
        if it[1] == "own":
            return ("i", len(it[2]))
        if it[1] == "ref":
            return ("i", it[4] - it[3])
    return ctx.st.env.iter_op(ctx, "count", None, it)


def it_size(ctx, r):
    """TrustedRandomAccessNoCoerce::size."""
    it = ctx.m.read_ref(ctx.st, r)
    if it is not None and it[0] == "It":
        return ("i", len(it[2]) if it[1] == "own" else it[4] - it[3])
    raise Unsupported("size of an iterator")


def it_get_unchecked(ctx, r, i):
    it = ctx.m.read_ref(ctx.st, r)
    if it is not None and it[0] == "It" and i is not None and i[0] == "i":
        return elem_ref(it[2], it[3] + i[1]) if it[1] == "ref" else it[2][i[1]]
    raise Unsupported("element of an iterator")


def it_size_hint(ctx, r):
    it = ctx.m.read_ref(ctx.st, r)
    ty = ctx.dest_ty
    fs = ctx.m.T(ty)["f"]
    if it is not None and it[0] == "It":
        n = it_size(ctx, r)
        return ("A", ty, 0, (n, ("A", fs[1], 1, (n,))))
    return ("A", ty, 0, (("i", 0), ("A", fs[1], 0, ())))


def it_as_slice(ctx, r):
    return NotImplemented


def identity(ctx, v):
    return v


# from_iter / extend / collect ------------------------------------------------------------------
def iter_type(ctx):
    """The type argument that is iterated (the last generic argument)."""
    return ctx.inst.gargs[-1]


def from_iter(ctx, it):
    ty = iter_type(ctx)
    return start_loop(ctx, "collect", it, ty, ("Q", None, ()))


def extend(ctx, r, it):
    ty = iter_type(ctx)
    v = ctx.st.env.seq_extend(ctx, r, it) if hasattr(ctx.st.env, "seq_extend") else None
    if v is not None:
        return v
    return start_loop(ctx, "extend", it, ty, r)


def start_loop(ctx, kind, it, ty, acc):
    aux = ctx.aux(ty) or {}
    if "next" in aux:
        f = NFrame(kind, [it, acc], {"next": aux["next"], "rty": None, "ty": ctx.dest_ty})
        return ctx.push(f)
    if "into_iter" in aux:
        ii = ctx.m.p.insts[aux["into_iter"]]
        f = NFrame(kind + "0", [it, acc], {"into": aux["into_iter"], "rty": None, "ty": ctx.dest_ty})
        return ctx.push(f)
    raise Unsupported("iteration over " + ctx.m.T(ty)["n"])


def _next_of(m, st, ty):
    a = m.p.aux.get(ty)
    if a and "next" in a:
        return a["next"]
    raise Unsupported("next of " + m.T(ty)["n"])


def opt_ty_of(m, inst):
    """Return type of instance `inst` (from its body, or by searching a call)."""
    if inst.body is not None:
        return m.p.bodies[inst.body].locals[0]
    return inst.ret


def ret_type(m, ix):
    """The type returned by instance ix, from its body or any call of it."""
    c = m.__dict__.setdefault("_rety", {})
    if ix not in c:
        c[ix] = opt_ty_of(m, m.p.insts[ix])
        if c[ix] is None:
            for b in m.p.bodies:
                for s, t, l in b.blocks:
                    if t[0] == "call" and t[1][0] == "k" and t[1][1] == "fn" and t[1][2] == ix and len(t[3]) == 1:
                        c[ix] = b.locals[t[3][0]]
                        break
                if c[ix] is not None:
                    break
        if c[ix] is None:
            r = m.p.insts[ix].aux
            c[ix] = m.p.rets.get(ix) if hasattr(m.p, "rets") else None
    return c[ix]


def _loop(extend_):
    def step(m, st, fr):
        if fr.pending is None:
            fr.data = dict(fr.data, rty=ret_type(m, fr.data["next"]))
            m.call_inst(st, fr.data["next"], [("R", ("L", len(st.frames) - 1, 0), (), None)], None)
            return
        v = fr.pending[1]
        k = opt_variant(m, st, v)
        if k == 0:
            if extend_:
                m.native_return(st, ("A", fr.data["ty"], 0, ()))
            else:
                m.native_return(st, fr.locals[1])
            return
        x = opt_payload(m, st, v)
        r = None
        a = fr.locals[1]
        if extend_:
            r = a
            a = m.read_ref(st, r)
            if a is None or a[0] != "Q":
                raise Unsupported("extend of a symbolic sequence")
        a, x = on_push(m, st, a, x)
        fr.pending = None
        if x is not None:
            a = ("Q", a[1], a[2] + (x,))
        if extend_:
            m.write_ref(st, r, a)
        else:
            fr.locals[1] = a
    return step


RESUME["collect"] = _loop(False)
RESUME["extend"] = _loop(True)


def _loop0(kind):
    def step(m, st, fr):
        if fr.pending is None:
            fr.data = dict(fr.data, rty=ret_type(m, fr.data["into"]))
            m.call_inst(st, fr.data["into"], [fr.locals[0]], None)
            return
        rt = ret_type(m, fr.data["into"])
        if rt is None:
            raise Unsupported("iterator type")
        fr.locals[0] = fr.pending[1]
        fr.pending = None
        fr.kind = kind
        fr.data = dict(fr.data, next=_next_of(m, st, rt))
    return step


RESUME["collect0"] = _loop0("collect")
RESUME["extend0"] = _loop0("extend")


@native("std::vec::Vec::retain", "std::collections::VecDeque::retain")
def seq_retain(ctx, r, f):
    s = seq(ctx, r)
    it = None
    if s[0] == "Q" and s[1] is None:
        it = ("It", "own", s[2])
    else:
        it = ctx.st.env.seq_op(ctx, "into_iter", None, s, [])
    nf = NFrame("retain", [it, ("Q", None, ()), r, f, None], {"ty": ctx.dest_ty, "ctxinst": ctx.inst.ix})
    return ctx.push(nf)


@resume("retain")
def _retain(m, st, fr):
    from .interp import CallCtx
    d = len(st.frames) - 1
    if fr.pending is None:
        it = fr.locals[0]
        if it[0] == "It" and it[1] == "own":
            if not it[2]:
                r, acc = fr.locals[2], fr.locals[1]
                m.write_ref(st, r, acc)
                m.native_return(st, ("A", fr.data["ty"], 0, ()))
                return
            fr.locals[4] = it[2][0]
            fr.locals[0] = ("It", "own", it[2][1:])
        else:
            x = st.env.iter_take(m, st, d, 0)
            if x is None:
                r, acc = fr.locals[2], fr.locals[1]
                m.write_ref(st, r, acc)
                m.native_return(st, ("A", fr.data["ty"], 0, ()))
                return
            fr.locals[4] = x
        m.call_value(st, ("R", ("L", d, 3), (), None), [("R", ("L", d, 4), (), None)])
        return
    v = fr.pending[1]
    if not is_int(v):
        raise Unsupported("retain predicate")
    if v[1]:
        a = fr.locals[1]
        fr.locals[1] = ("Q", a[1], a[2] + (fr.locals[4],))
    fr.locals[4] = None
    fr.pending = None


# for_each style library loops are taken from MIR.

# ---- strings (owned) ---------------------------------------------------------------------------
def string_view(ctx, r):
    v = ctx.m.read_ref(ctx.st, r) if r[0] == "R" else r
    return as_view(ctx, v)


def as_view(ctx, v):
    while v is not None and v[0] == "R":
        v = ctx.m.read_ref(ctx.st, v)
    if v is None:
        raise Unsupported("string")
    if v[0] == "Str":
        return v[1]
    if v[0] in ("S", "V"):
        return v
    if v[0] == "D":
        return v
    raise Unsupported("string " + v[0])


def str_eq(neg):
    def f(ctx, a, b):
        x, y = as_view(ctx, a), as_view(ctx, b)
        if x[0] == "S" and y[0] == "S":
            return boolean((x[1] == y[1]) != neg)
        if x == y:
            return boolean(not neg)
        r = ctx.st.env.str_eq(ctx.m, ctx.st, x, y)
        return boolean(r != neg)
    return f


def string_from(ctx, v):
    return ("Str", as_view(ctx, v))


# ---- discriminant ------------------------------------------------------------------------------
def discriminant_value(ctx, r):
    v = ctx.m.read_ref(ctx.st, r)
    ty = ctx.inst.gargs[0]
    return ctx.m.discr(ctx.st, v, ty)


@native("std::mem::discriminant")
def mem_discriminant(ctx, r):
    v = ctx.m.read_ref(ctx.st, r)
    ty = ctx.inst.gargs[0]
    return ("A", ctx.dest_ty, 0, (ctx.m.discr(ctx.st, v, ty),))


def disc_eq(neg):
    def f(ctx, a, b):
        x, y = ctx.m.read_ref(ctx.st, a), ctx.m.read_ref(ctx.st, b)
        r = ctx.m.binop(ctx.st, "Ne" if neg else "Eq", x[3][0], y[3][0], ctx.m.p.ty_by_name.get("isize", 0))
        return r
    return f


def black_box(ctx, v):
    return v


def cold(ctx, *a):
    return ("i", 0) if False else unit(ctx)


INTRINSIC = {
    "discriminant_value": discriminant_value,
    "size_of": size_of,
    "min_align_of": size_of,
    "align_of": size_of,
    "black_box": black_box,
    "assume": lambda ctx, v: unit(ctx),
    "likely": lambda ctx, v: v,
    "unlikely": lambda ctx, v: v,
    "cold_path": lambda ctx: unit(ctx),
    "ub_checks": lambda ctx: ("i", 0),
    "read_via_copy": lambda ctx, r: ctx.m.read_ref(ctx.st, r),
    "write_via_move": lambda ctx, r, v: (ctx.m.write_ref(ctx.st, r, v), unit(ctx))[1],
    "forget": lambda ctx, v: unit(ctx),
    "needs_drop": lambda ctx: ("i", 0),
    "transmute": lambda ctx, v: v,
}

SLICE = {
    "first": seq_first, "last": seq_last, "get": seq_get, "iter": seq_iter, "iter_mut": seq_iter,
    "len": seq_len, "is_empty": seq_is_empty, "first_mut": seq_first, "last_mut": seq_last,
    "get_mut": seq_get,
}


def slice_len(ctx, r):
    s = seq(ctx, r)
    off, n = bounds(ctx, r, s)
    if n is not None:
        return ("i", n)
    return ctx.st.env.seq_op(ctx, "len", r, s, [])


def slice_is_empty(ctx, r):
    s = seq(ctx, r)
    off, n = bounds(ctx, r, s)
    if n is not None:
        return boolean(n == 0)
    if s[0] == "Q":
        return boolean(s[1] is None and not s[2])
    return ctx.st.env.seq_op(ctx, "is_empty", r, s, [])


def to_vec(ctx, r):
    s = seq(ctx, r)
    if s[0] == "A":
        return ("Q", None, s[3])
    return s


SLICE["len"] = slice_len
SLICE["is_empty"] = slice_is_empty
SLICE["to_vec"] = to_vec
SLICE["into_vec"] = to_vec


def seq_convert(ctx, v):
    """Vec <-> VecDeque, array -> Vec."""
    if v is not None and v[0] == "A":
        return ("Q", None, v[3])
    return v


TRAIT = {}
for _t in ("std::vec::Vec", "std::collections::VecDeque"):
    TRAIT[(_t, "from_iter")] = from_iter
    TRAIT[(_t, "extend")] = extend
    TRAIT[(_t, "into_iter")] = seq_into_iter
    TRAIT[(_t, "deref")] = seq_deref
    TRAIT[(_t, "deref_mut")] = seq_deref
    TRAIT[(_t, "index")] = seq_index
    TRAIT[(_t, "index_mut")] = seq_index
    TRAIT[(_t, "default")] = seq_default
    TRAIT[(_t, "from")] = seq_convert
    TRAIT[(_t, "as_ref")] = seq_deref
    TRAIT[(_t, "borrow")] = seq_deref
    TRAIT[("&'a " + _t, "into_iter")] = seq_iter
    TRAIT[("&" + _t, "into_iter")] = seq_iter
for _t in ("std::vec::IntoIter", "std::slice::Iter", "std::slice::IterMut", "std::collections::vec_deque::Iter",
           "std::collections::vec_deque::IntoIter", "std::array::IntoIter", "std::vec::Drain",
           "std::collections::vec_deque::Drain"):
    TRAIT[(_t, "next")] = it_next
    TRAIT[(_t, "next_back")] = it_next_back
    TRAIT[(_t, "len")] = it_len
    TRAIT[(_t, "count")] = it_count
    TRAIT[(_t, "size_hint")] = it_size_hint
    TRAIT[(_t, "size")] = it_size
    TRAIT[(_t, "__iterator_get_unchecked")] = it_get_unchecked
    TRAIT[(_t, "into_iter")] = identity


def array_into_iter(ctx, v):
    if v is not None and v[0] == "A":
        return ("It", "own", v[3])
    return NotImplemented


TABLE["std::array::iter::into_iter"] = array_into_iter
TRAIT[("std::string::String", "eq")] = str_eq(False)
TRAIT[("std::string::String", "ne")] = str_eq(True)
TRAIT[("str", "eq")] = str_eq(False)
TRAIT[("str", "ne")] = str_eq(True)
TRAIT[("&'a str", "eq")] = str_eq(False)
TRAIT[("&str", "eq")] = str_eq(False)
TRAIT[("std::string::String", "deref")] = string_view
TRAIT[("std::string::String", "as_ref")] = string_view
TRAIT[("std::string::String", "borrow")] = string_view
TRAIT[("std::string::String", "from")] = string_from
TRAIT[("std::string::String", "default")] = lambda ctx: ("Str", ("S", ""))
TRAIT[("std::mem::Discriminant", "eq")] = disc_eq(False)
TRAIT[("std::mem::Discriminant", "ne")] = disc_eq(True)
TRAIT[("std::boxed::Box", "deref")] = box_deref
TRAIT[("std::boxed::Box", "deref_mut")] = box_deref
TRAIT[("std::boxed::Box", "as_ref")] = box_deref
TRAIT[("std::boxed::Box", "as_mut")] = box_deref
TRAIT[("std::boxed::Box", "borrow")] = box_deref
TABLE["std::string::String::as_str"] = string_view
TABLE["core::str::traits::eq"] = str_eq(False)
TABLE["core::slice::first"] = seq_first
TABLE["std::array::iter"] = seq_iter


# ---- folds over library iterators ----------------------------------------------------------------
def take_item(m, st, d, i):
    """The next item of the iterator in local i of frame d (or behind the reference there)."""
    it = st.frames[d].locals[i]
    ref = None
    if it is not None and it[0] == "R":
        ref = it
        it = m.read_ref(st, it)
    if it is None or it[0] != "It":
        raise Unsupported("iterator")
    if it[1] == "own":
        if not it[2]:
            return None
        x, new = it[2][0], ("It", "own", it[2][1:])
    elif it[1] == "ref":
        if it[3] >= it[4]:
            return None
        x, new = elem_ref(it[2], it[3]), ("It", "ref", it[2], it[3] + 1, it[4])
    else:
        return st.env.iter_take_ref(m, st, d, i, ref)
    if ref is not None:
        m.write_ref(st, ref, new)
    else:
        st.frames[d].locals[i] = new
    return x


def fold(ctx, it, init, f):
    return ctx.push(NFrame("fold", [it, init, f], {"ty": ctx.ret_type()}))


def rfold(ctx, it, init, f):
    if it is None or it[0] != "It" or it[1] not in ("own", "ref"):
        raise Unsupported("folding an iterator from its end")
    xs = tuple(reversed(it[2])) if it[1] == "own" else tuple(elem_ref(it[2], i) for i in range(it[4] - 1, it[3] - 1, -1))
    return ctx.push(NFrame("fold", [("It", "own", xs), init, f], {"ty": ctx.ret_type()}))


def try_fold(ctx, it, init, f):
    return ctx.push(NFrame("try_fold", [it, init, f], {"ty": ctx.ret_type()}))


def for_each(ctx, it, f):
    return ctx.push(NFrame("for_each", [it, None, f], {"ty": ctx.ret_type()}))


@resume("fold")
def _fold(m, st, fr):
    d = len(st.frames) - 1
    if fr.pending is not None:
        fr.locals[1] = fr.pending[1]
        fr.pending = None
    x = take_item(m, st, d, 0)
    if x is None:
        m.native_return(st, fr.locals[1])
        return
    acc = fr.locals[1]
    m.call_value(st, ("R", ("L", d, 2), (), None), [acc, x])


@resume("for_each")
def _for_each(m, st, fr):
    d = len(st.frames) - 1
    fr.pending = None
    x = take_item(m, st, d, 0)
    if x is None:
        m.native_return(st, ("A", fr.data["ty"], 0, ()))
        return
    m.call_value(st, ("R", ("L", d, 2), (), None), [x])


@resume("try_fold")
def _try_fold(m, st, fr):
    d = len(st.frames) - 1
    ty = fr.data["ty"]
    t = m.T(ty)
    cont = 1 if t.get("path") == "std::option::Option" else 0
    if fr.pending is not None:
        v = fr.pending[1]
        k = opt_variant(m, st, v)
        if k != cont:
            m.native_return(st, v)
            return
        fr.locals[1] = opt_payload(m, st, v) if v[0] == "A" else st.env.project(m, st, v, k, 0, m.p.field_ty(v[4], k, 0))
        fr.pending = None
    x = take_item(m, st, d, 0)
    if x is None:
        m.native_return(st, ("A", ty, cont, (fr.locals[1],)))
        return
    m.call_value(st, ("R", ("L", d, 2), (), None), [fr.locals[1], x])


for _t in ("std::vec::IntoIter", "std::slice::Iter", "std::slice::IterMut", "std::collections::vec_deque::Iter",
           "std::collections::vec_deque::IntoIter", "std::array::IntoIter"):
    TRAIT[(_t, "fold")] = fold
    TRAIT[(_t, "rfold")] = rfold
    TRAIT[(_t, "try_fold")] = try_fold
    TRAIT[(_t, "for_each")] = for_each


# ---- searches over library iterators -------------------------------------------------------------
def _search(kind):
    def f(ctx, it, fn):
        return ctx.push(NFrame(kind, [it, None, fn], {"ty": ctx.ret_type()}))
    return f


def _search_step(kind):
    def step(m, st, fr):
        d = len(st.frames) - 1
        ty = fr.data["ty"]
        if fr.pending is not None:
            v = fr.pending[1]
            fr.pending = None
            if kind == "find_map":
                k = opt_variant(m, st, v)
                if k == 1:
                    m.native_return(st, v)
                    return
            else:
                if not is_int(v):
                    raise Unsupported("undetermined predicate")
                hit = bool(v[1])
                if kind == "any" and hit:
                    m.native_return(st, ("i", 1))
                    return
                if kind == "all" and not hit:
                    m.native_return(st, ("i", 0))
                    return
                if kind == "find" and hit:
                    m.native_return(st, ("A", ty, 1, (fr.locals[1],)))
                    return
                if kind == "position":
                    n = fr.data.get("n", 0)
                    if hit:
                        m.native_return(st, ("A", ty, 1, (("i", n),)))
                        return
                    fr.data = dict(fr.data, n=n + 1)
        x = take_item(m, st, d, 0)
        if x is None:
            m.native_return(st, ("i", int(kind == "all")) if kind in ("any", "all") else ("A", ty, 0, ()))
            return
        fr.locals[1] = x
        m.call_value(st, ("R", ("L", d, 2), (), None), [("R", ("L", d, 1), (), None) if kind == "find" else x])
    return step


for _k in ("any", "all", "find", "position", "find_map"):
    RESUME["search_" + _k] = _search_step(_k)
    for _t in ("std::slice::Iter", "std::slice::IterMut"):
        TRAIT[(_t, _k)] = _search("search_" + _k)


def it_last(ctx, it):
    if it is not None and it[0] == "It":
        if it[1] == "own":
            return some(ctx, it[2][-1]) if it[2] else none(ctx)
        if it[1] == "ref":
            return some(ctx, elem_ref(it[2], it[4] - 1)) if it[4] > it[3] else none(ctx)
    return ctx.st.env.iter_op(ctx, "last", None, it)


def it_nth(ctx, r, n):
    it = ctx.m.read_ref(ctx.st, r)
    if it is not None and it[0] == "It" and is_int(n):
        if it[1] == "own":
            ctx.m.write_ref(ctx.st, r, ("It", "own", it[2][n[1] + 1:]))
            return some(ctx, it[2][n[1]]) if n[1] < len(it[2]) else none(ctx)
        if it[1] == "ref":
            lo = it[3] + n[1]
            ctx.m.write_ref(ctx.st, r, ("It", "ref", it[2], min(lo + 1, it[4]), it[4]))
            return some(ctx, elem_ref(it[2], lo)) if lo < it[4] else none(ctx)
    return ctx.st.env.iter_op(ctx, "nth", r, it)


for _t in ("std::vec::IntoIter", "std::slice::Iter", "std::slice::IterMut", "std::collections::vec_deque::Iter",
           "std::collections::vec_deque::IntoIter", "std::array::IntoIter"):
    TRAIT[(_t, "last")] = it_last
    TRAIT[(_t, "nth")] = it_nth


# ---- membership ----------------------------------------------------------------------------------
def seq_contains(ctx, r, x):
    s = seq(ctx, r)
    off, n = bounds(ctx, r, s) if s[0] in ("Q", "A") else (0, None)
    if n is None:
        return ctx.st.env.seq_op(ctx, "contains", r, s, [x])
    ty = ctx.inst.gargs[0]
    aux = ctx.aux(ty) or {}
    if "eq" not in aux:
        if n == 0:
            return boolean(False)
        k = ctx.m.T(ty)["k"]
        if k in ("int", "uint", "bool", "char"):
            v = ctx.m.read_ref(ctx.st, x)
            items = [ctx.m.read_ref(ctx.st, elem_ref(r, off + i)) for i in range(n)]
            if v[0] == "i" and all(y[0] == "i" for y in items):
                return boolean(v in items)
        return ctx.st.env.seq_op(ctx, "contains", r, s, [x])
    return ctx.push(NFrame("contains", [r[:3] + (None,), x], {"i": off, "end": off + n, "eq": aux["eq"]}))


@resume("contains")
def _contains(m, st, fr):
    if fr.pending is not None:
        v = fr.pending[1]
        fr.pending = None
        if not is_int(v):
            raise Unsupported("undetermined comparison")
        if v[1]:
            m.native_return(st, ("i", 1))
            return
    i = fr.data["i"]
    if i >= fr.data["end"]:
        m.native_return(st, ("i", 0))
        return
    fr.data = dict(fr.data, i=i + 1)
    m.call_inst(st, fr.data["eq"], [elem_ref(fr.locals[0], i), fr.locals[1]], None)


SLICE["contains"] = seq_contains
TABLE["std::collections::VecDeque::contains"] = seq_contains
