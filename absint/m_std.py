"""Models of the standard library modules the project uses (and near relatives)."""
from . import ints as I
from .values import *  # noqa
from . import m_num as N
from . import m_ct as C
from . import models as M
from .models import T


def B(name, fn, lazy=False):
    return Builtin(name, fn, lazy)


def silent(kind):
    return Opaque(kind, True)


# ------------------------------------------------------------------ struct
_CODES = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False), "i": (4, True), "I": (4, False),
          "l": (4, True), "L": (4, False), "q": (8, True), "Q": (8, False), "?": (1, False)}


def parse_fmt(it, fmt):
    if type(fmt) is bytes:
        fmt = fmt.decode()
    if type(fmt) is not str:
        raise Imprecise("struct format")
    import re
    order = "little"
    native = True
    if fmt and fmt[0] in "@=<>!":
        order = "big" if fmt[0] in ">!" else "little"
        native = fmt[0] == "@"
        fmt = fmt[1:]
    out = []
    off = 0
    for n, c in re.findall(r"\s*(\d*)([a-zA-Z?])", fmt):
        if c in "sx":
            out.append((c, int(n) if n else 1))
            off += int(n) if n else 1
        elif c in _CODES:
            for _ in range(int(n) if n else 1):
                sz = _CODES[c][0]
                if native and c in "lL":
                    sz = 8
                if native and off % sz:
                    out.append(("x", sz - off % sz))
                    off += sz - off % sz
                out.append((c, sz))
                off += sz
        elif c in "fd":
            for _ in range(int(n) if n else 1):
                out.append((c, 4 if c == "f" else 8))
                off += out[-1][1]
        else:
            it.throw("struct.error", "bad char in struct format")
    return order, out


def s_pack(it, a, k):
    try:
        order, codes = parse_fmt(it, a[0])
    except Imprecise as e:
        return it.imprecise(str(e))
    args = a[1:]
    out = []
    need = sum(1 for c, _ in codes if c != "x")
    if need != len(args):
        return it.throw("struct.error", "pack expected %d items for packing (got %d)" % (need, len(args)))
    i = 0
    for c, n in codes:
        if c == "x":
            out += [0] * n
            continue
        v = args[i]
        i += 1
        if c == "s":
            items = it.seq_items(v)
            if items is None:
                return it.throw("struct.error", "argument for 's' must be a bytes object")
            out += (items + [0] * n)[:n]
            continue
        if c in "fd":
            if c == "f":
                if not it.is_intlike(v) and type(v) not in (float, SFloat):
                    return it.throw("struct.error", "required argument is not a float")
                b = N.f32_bits(it, v)
            elif type(v) is float or type(v) is int:
                import struct
                b = I.bits_of(struct.unpack("<Q", struct.pack("<d", v))[0], 64)
            else:
                b = I.bits_of(I.op("f64enc", (str(v),), 0, (1 << 64) - 1), 64)
        elif c == "?":
            b = I.bits_of(it.intval(it.truth(v)), 8)
        else:
            if not it.is_intlike(v):
                return it.throw("struct.error", "required argument is not an integer")
            v = it.intval(v)
            signed = _CODES[c][1]
            lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << 8 * n) - 1)
            it.fork_on(it.order("Lt", v, lo), lambda: it.throw("struct.error", "argument out of range"), lambda: None)
            it.fork_on(it.order("Gt", v, hi), lambda: it.throw("struct.error", "argument out of range"), lambda: None)
            b = I.bits_of(v, 8 * n, it.st.facts)
        bs = [I.from_bits(b[8 * j:8 * j + 8]) for j in range(n)]
        out += bs[::-1] if order == "big" else bs
    return M.mkbytes(out)


def s_unpack(it, fmt, items, exact=True):
    try:
        order, codes = parse_fmt(it, fmt)
    except Imprecise as e:
        return it.imprecise(str(e))
    size = sum(n for _, n in codes)
    if (exact and len(items) != size) or len(items) < size:
        return it.throw("struct.error", "unpack requires a buffer of %d bytes" % size)
    out = []
    p = 0
    for c, n in codes:
        chunk = items[p:p + n]
        p += n
        if c == "x":
            continue
        if c == "s":
            out.append(M.mkbytes(chunk))
            continue
        if order == "big":
            chunk = chunk[::-1]
        bits = []
        for x in chunk:
            bits += I.bits_of(it.intval(x), 8, it.st.facts)
        if c == "f":
            out.append(N.f32_value(bits))
        elif c == "d":
            out.append(N.opfloat("f64", str(I.from_bits(bits))))
        elif c == "?":
            out.append(it.truth(I.from_bits(bits)))
        else:
            out.append(I.from_bits(bits, _CODES[c][1]))
    return tuple(out)


def buf_items(it, v):
    x = it.seq_items(v)
    if x is None and type(v) is Ref and it.o(v).kind == "ct":
        b = C.ct_bytes(it, v)
        x = it.seq_items(b)
    if x is None:
        it.throw("TypeError", "a bytes-like object is required, not '%s'" % it.typeof(v).name)
    return x


def s_iter(it, a, k):
    items = buf_items(it, a[1])
    order, codes = parse_fmt(it, a[0])
    n = sum(x for _, x in codes)
    return it.new_iter([s_unpack(it, a[0], items[i:i + n]) for i in range(0, len(items), n)])


def s_Struct(it, a, k):
    o = Opaque("struct.Struct", True)
    f = a[0]
    it.hooks.setdefault("struct.Struct", None)
    o.silent = True
    d = {"pack": B("pack", lambda it, b, k: s_pack(it, [f] + b, k)),
         "unpack": B("unpack", lambda it, b, k: s_unpack(it, f, buf_items(it, b[0]))),
         "unpack_from": B("unpack_from", lambda it, b, k: s_unpack(it, f, buf_items(it, b[0])[(b[1] if len(b) > 1 else k.get("offset", 0)):], False)),
         "size": sum(n for _, n in parse_fmt(it, f)[1]), "format": f}
    cls = ClassV("Struct", [T["object"]], None, "struct", "object")
    cls.set_mro()
    return it.alloc(O("inst", cls, d))


STRUCT = {
    "pack": B("pack", s_pack),
    "unpack": B("unpack", lambda it, a, k: s_unpack(it, a[0], buf_items(it, a[1]))),
    "unpack_from": B("unpack_from", lambda it, a, k: s_unpack(it, a[0], buf_items(it, a[1])[(a[2] if len(a) > 2 else k.get("offset", 0)):], False)),
    "calcsize": B("calcsize", lambda it, a, k: sum(n for _, n in parse_fmt(it, a[0])[1])),
    "iter_unpack": B("iter_unpack", s_iter),
    "Struct": B("Struct", s_Struct),
    "error": T["struct.error"],
}


# ------------------------------------------------------------------ socket
def dotted(items):
    parts = []
    for i, x in enumerate(items):
        if i:
            parts.append(".")
        parts.append(str(x) if type(x) is int else Piece("dec", x))
    return mkstr(parts)


def undot(s):
    """four byte values of a dotted address, None when malformed, ... when unknown"""
    if type(s) is str:
        p = s.split(".")
        if len(p) == 4 and all(x.isdigit() and int(x) < 256 for x in p):
            return [int(x) for x in p]
        return None
    out = []
    want = True
    for p in s.parts:
        if type(p) is Piece and p.kind == "dec":
            if not want:
                return Ellipsis
            out.append(p.arg)
            want = False
        elif type(p) is str:
            toks = p.split(".")
            for i, t in enumerate(toks):
                if i:
                    want = True
                if t:
                    if not t.isdigit() or not want:
                        return Ellipsis
                    out.append(int(t))
                    want = False
        else:
            return Ellipsis
    return out if len(out) == 4 else Ellipsis


def inet_aton(it, a, k):
    if type(a[0]) not in (str, SStr):
        return it.throw("TypeError", "inet_aton() argument 1 must be str")
    v = undot(a[0])
    if v is None:
        return it.throw("OSError", "illegal IP address string passed to inet_aton")
    if v is Ellipsis:
        return it.imprecise("inet_aton of unknown text")
    for x in v:
        lo, hi = I.rng(x, it.st.facts)
        if lo < 0 or hi > 255:
            return it.imprecise("address byte out of range")
    return M.mkbytes(v)


def inet_ntoa(it, a, k):
    items = it.seq_items(a[0])
    if items is None:
        return it.throw("TypeError", "a bytes-like object is required")
    if len(items) != 4:
        return it.throw("OSError", "packed IP wrong length")
    return dotted(items)


def swap(n):
    def f(it, a, k):
        b = I.bits_of(it.intval(a[0]), 8 * n, it.st.facts)
        by = [b[8 * i:8 * i + 8] for i in range(n)][::-1]
        return I.from_bits([x for y in by for x in y])
    return f


def sock_attr(name):
    if name in ("error", "timeout", "gaierror"):
        return T["OSError"]
    if name == "INADDR_ANY":
        return 0
    return UNDEF


SOCKET = {
    "inet_aton": B("inet_aton", inet_aton), "inet_ntoa": B("inet_ntoa", inet_ntoa),
    "inet_pton": B("inet_pton", lambda it, a, k: inet_aton(it, a[1:], k)),
    "inet_ntop": B("inet_ntop", lambda it, a, k: inet_ntoa(it, a[1:], k)),
    "htons": B("htons", swap(2)), "ntohs": B("ntohs", swap(2)),
    "htonl": B("htonl", swap(4)), "ntohl": B("ntohl", swap(4)),
    "error": T["OSError"], "timeout": T["TimeoutError"], "INADDR_ANY": 0,
}


# ------------------------------------------------------------------ ipaddress
def ip_obj(it, a, k):
    v = a[0]
    if it.is_intlike(v):
        b = I.bits_of(it.intval(v), 32, it.st.facts)
        items = [I.from_bits(b[8 * i:8 * i + 8]) for i in range(4)][::-1]
    elif type(v) in (str, SStr):
        items = undot(v)
        if items is None:
            return it.throw("ValueError", "not an IPv4 address")
        if items is Ellipsis:
            return it.imprecise("address text")
    else:
        items = it.seq_items(v)
        if items is None or len(items) != 4:
            return it.throw("ValueError", "not an IPv4 address")
    cls = ClassV("IPv4Address", [T["object"]], None, "ipaddress", "IPv4Address")
    cls.set_mro()
    M.METHODS.setdefault("IPv4Address", {})
    s = dotted(items)
    for nm in ("__str__", "__int__"):
        pass
    n = 0
    for x in items:
        n = I.add(I.shl(n, 8), x)
    return it.alloc(O("inst", IPCLS, {"packed": M.mkbytes(items), "_s": s, "exploded": s, "compressed": s, "_ip": n}))


IPCLS = ClassV("IPv4Address", [T["object"]], None, "ipaddress", "IPv4Address")
IPCLS.set_mro()
M.METHODS["IPv4Address"] = {}


# ------------------------------------------------------------------ inspect
def is_datadesc(it, v):
    if type(v) in (Prop, CField):
        return True
    if type(v) is Opaque and v.kind == "getset_descriptor":
        return True
    if type(v) is Ref:
        o = it.o(v)
        if type(o) is O and o.kind == "inst" and o.cls is not None:
            return it.find_user(o.cls, "__set__") is not None or it.find_user(o.cls, "__delete__") is not None
    return False


def getmembers(it, a, k):
    v = a[0]
    pred = a[1] if len(a) > 1 else k.get("predicate")
    c = v if type(v) is ClassV else it.typeof(v)
    seen = {}
    for b in c.mro:
        if b.ns is not None:
            for n, x in it.o(Ref(b.ns)).d.items():
                seen.setdefault(n, x)
        if b.enum:
            for n, x in b.enum.items():
                seen.setdefault(n, x)
    gs = Opaque("getset_descriptor", True)
    if c.issub(T["_CData"]):
        for n in ("_b_base_", "_b_needsfree_", "_objects"):
            seen.setdefault(n, gs)
    if not c.native:
        seen.setdefault("__weakref__", gs)
    if type(v) is Ref and it.o(v).d:
        seen.update(it.o(v).d)
    if type(v) is ModuleV:
        seen = dict(it.o(Ref(v.ns)).d)
    out = it.new_list([])
    for n in sorted(seen):
        if type(v) is Ref and type(seen[n]) in (Prop, CField, Func):
            x = it.getattr(v, n)
        elif type(seen[n]) is ClassM or type(seen[n]) is StaticM:
            x = it.getattr(v, n)
        else:
            x = seen[n]
        t = it.call(pred, [x]) if pred is not None else True

        def add():
            it.over(out, lambda q: it.w(q).items.append((n, x)))
        it.fork_on(it.truth(t), add, lambda: None)
    return out


INSPECT = {
    "getmembers": B("getmembers", getmembers),
    "isdatadescriptor": B("isdatadescriptor", lambda it, a, k: is_datadesc(it, a[0])),
    "isclass": B("isclass", lambda it, a, k: type(a[0]) is ClassV),
    "isfunction": B("isfunction", lambda it, a, k: type(a[0]) is Func),
    "ismethod": B("ismethod", lambda it, a, k: type(a[0]) is Bound),
    "ismodule": B("ismodule", lambda it, a, k: type(a[0]) is ModuleV),
    "iscoroutinefunction": B("iscoroutinefunction", lambda it, a, k: type(a[0]) is Func and
                             a[0].node.__class__.__name__ == "AsyncFunctionDef"),
}


# ------------------------------------------------------------------ math / decimal
def copysign(it, a, k):
    m, s = a
    fm = N.tofl(it, m)
    if fm is None or N.tofl(it, s) is None:
        return it.throw("TypeError", "must be real number")
    am = N.float_abs(it, fm)
    if type(s) is float:
        import math
        return it.over(am, lambda x: x if math.copysign(1, s) > 0 else N.float_unary(it, "USub", x))
    neg = it.truth(it.order("Lt", s, 0))
    return it.over(am, lambda x: it.fork_on(neg, lambda: N.float_unary(it, "USub", x), lambda: x))


def floorlike(which):
    def f(it, a, k):
        v = a[0]
        if it.is_intlike(v):
            return it.intval(v)
        if type(v) is float:
            import math
            return getattr(math, which)(v)
        l = N.aslin(v)
        if l and l[0].denominator == 1 and l[2] == 0:
            return I.mulc(l[1], l[0].numerator)
        if which == "trunc":
            return N.to_int(it, v)
        return I.op(which, (str(v),), -(1 << 63), 1 << 63)
    return f


def host_math(name):
    import math

    def f(it, a, k):
        if all(type(x) in (int, float) for x in a):
            try:
                return getattr(math, name)(*a)
            except ValueError as e:
                return it.throw("ValueError", str(e))
            except OverflowError as e:
                return it.throw("OverflowError", str(e))
        if name in ("isnan", "isinf") and type(a[0]) in (SFloat, I.SInt):
            return False if type(a[0]) is I.SInt or a[0].kind == "lin" else Unknown(name)
        if name == "isfinite" and (type(a[0]) is I.SInt or getattr(a[0], "kind", "") == "lin"):
            return True
        return N.opfloat(name, *a)
    return B(name, f)


import math as _math
MATH = {n: host_math(n) for n in ("sqrt", "log", "log2", "log10", "exp", "pow", "isnan", "isinf", "isfinite", "fmod", "fabs", "ldexp", "frexp", "gcd", "isclose")}
MATH.update({"copysign": B("copysign", copysign), "floor": B("floor", floorlike("floor")), "ceil": B("ceil", floorlike("ceil")),
             "trunc": B("trunc", floorlike("trunc")), "pi": _math.pi, "e": _math.e, "inf": float("inf"), "nan": float("nan")})


def _decimal_round(it, a, k):
    return it.imprecise("Decimal method")


M.meth("Decimal", "quantize")(_decimal_round)
M.meth("Decimal", "to_integral_value")(lambda it, a, k: N.do_round(it, a[0], 0))


# ------------------------------------------------------------------ functools / itertools / operator / ...
def ft_reduce(it, a, k):
    def go(xs):
        xs = list(xs)
        if len(a) > 2:
            r = a[2]
        else:
            if not xs:
                return it.throw("TypeError", "reduce() of empty iterable with no initial value")
            r = xs.pop(0)
        for x in xs:
            r = it.call(a[0], [r, x])
        return r
    return it.iter_over(a[1], go)


def ft_partial(it, a, k):
    f, pre = a[0], a[1:]
    return B("partial", lambda it, b, kk: it.call(f, pre + b, {**k, **kk}), True)


def ft_wraps(it, a, k):
    src = a[0]

    def deco(it, b, kk):
        f = b[0]
        while type(src) is Bound or type(src) is Func:
            g = src.func if type(src) is Bound else src
            if type(g) is Func and type(f) is Func:
                r = Func(f.node, f.name, f.env, f.gns, f.defaults, f.kwdefaults, f.module)
                r.__dict__.update(f.__dict__)
                r.name, r.qual = g.name, g.qual
                r.wrapped = g
                return r
            break
        return f
    return B("wraps", deco, True)


def ft_lru(it, a, k):
    def deco(fn):
        memo = it.alloc(O("dict", None, None, []))

        def call(it, b, kk):
            key = tuple(b) + tuple(v for kv in sorted(kk.items()) for v in kv)
            return it.dict_find(memo, key, lambda i: it.o(memo).items[i][1], lambda: miss(it, b, kk, key))

        def miss(it, b, kk, key):
            r = it.call(fn, b, kk)
            it.dict_set(memo, key, r)
            return r
        bb = B("cached", call)
        bb.method = True
        bb.attrs = {"cache_clear": B("cache_clear", lambda it, x, y: None), "__wrapped__": fn}
        return bb
    if a and type(a[0]) in (Func, Builtin):
        return deco(a[0])
    return B("lru_cache", lambda it, b, kk: deco(b[0]))


def ft_total(it, a, k):
    c = a[0]
    d = it.w(Ref(c.ns)).d
    if "__lt__" in d:
        lt = d["__lt__"]
        mk = lambda fn: _m(fn)
        d.setdefault("__gt__", mk(lambda it, b, kk: it.fork_on(it.truth(it.call(lt, b)), lambda: False, lambda: it.neg_truth(it.eq(*b)))))
        d.setdefault("__le__", mk(lambda it, b, kk: it.fork_on(it.truth(it.call(lt, b)), lambda: True, lambda: it.eq(*b))))
        d.setdefault("__ge__", mk(lambda it, b, kk: it.neg_truth(it.truth(it.call(lt, b)))))
    return c


def _m(fn):
    b = Builtin("total", fn)
    b.method = True
    return b


def ft_cached_property(it, a, k):
    p = Prop(a[0])
    p.cached = True
    p.name = getattr(a[0], "name", None)
    return p


def ft_singledispatch(it, a, k):
    reg = []
    base = a[0]

    def call(it, b, kk):
        tv = it.typeof(b[0])
        best = base
        for c in tv.mro:
            hit = [f for t, f in reg if t is c]
            if hit:
                best = hit[-1]
                break
        return it.call(best, b, kk)
    d = B("singledispatch", call)

    def register(it, b, kk):
        if len(b) == 2:
            reg.append((b[0], b[1]))
            return b[1]
        if type(b[0]) is ClassV:
            def deco(it, c, kk):
                reg.append((b[0], c[0]))
                return c[0]
            return B("register", deco)
        fn = b[0]
        ann = fn.node.args.args[0].annotation
        from .interp import Frame
        t = it.ev(ann, Frame(fn.env, fn.gns, None, fn.module, fn.path, fn.name))
        reg.append((t, fn))
        return fn
    d.attrs = {"register": B("register", register), "__wrapped__": base}
    return d


def bisect_fn(right):
    def f(it, a, k):
        names = ["a", "x", "lo", "hi"]
        p = dict(zip(names, a))
        p.update(k)
        key = k.get("key")
        x = p["x"]

        def go(xs):
            lo, hi = p.get("lo", 0), p.get("hi")
            if type(lo) is not int or not (hi is None or type(hi) is int):
                return it.imprecise("bisect bounds")
            hi = len(xs) if hi is None else hi

            def place(i):
                # in a sorted list the first element that is (not) greater
                while i < hi:
                    y = it.call(key, [xs[i]]) if key is not None else xs[i]
                    c = it.truth(it.compare("Lt", x, y) if right else it.compare("Lt", y, x))
                    stop = c if right else it.neg_truth(c)
                    if stop is True:
                        return i
                    if stop is False:
                        i += 1
                        continue
                    j = i
                    return it.fork_on(stop, lambda: j, lambda: place(j + 1))
                return hi
            return place(lo)
        return it.iter_over(p["a"], go)
    return f


def insort_fn(right):
    bis = bisect_fn(right)

    def f(it, a, k):
        p = dict(zip(["a", "x", "lo", "hi"], a))
        p.update(k)
        x, key = p["x"], k.get("key")
        q = {n: v for n, v in p.items() if n not in ("a", "x")}
        pos = bis(it, [p["a"], it.call(key, [x]) if key is not None else x], q)
        it.call(it.getattr(p["a"], "insert"), [pos, x])
    return f


BISECT = {"bisect": B("bisect", bisect_fn(True)), "bisect_right": B("bisect_right", bisect_fn(True)),
          "bisect_left": B("bisect_left", bisect_fn(False)), "insort": B("insort", insort_fn(True)),
          "insort_right": B("insort_right", insort_fn(True)), "insort_left": B("insort_left", insort_fn(False))}

FUNCTOOLS = {"reduce": B("reduce", ft_reduce, True), "partial": B("partial", ft_partial, True), "wraps": B("wraps", ft_wraps, True),
             "lru_cache": B("lru_cache", ft_lru), "cache": B("cache", ft_lru), "total_ordering": B("total_ordering", ft_total),
             "cached_property": B("cached_property", ft_cached_property), "singledispatch": B("singledispatch", ft_singledispatch),
             "cmp_to_key": B("cmp_to_key", lambda it, a, k: it.imprecise("cmp_to_key"))}


def it_chain(it, a, k):
    from .m_types import multi_iter
    return multi_iter(it, a, lambda xss: it.new_iter([x for xs in xss for x in xs]))


def it_islice(it, a, k):
    args = a[1:]

    def go(xs):
        return it.new_iter(xs[slice(*args)])
    if type(a[0]) is Builtin and a[0].name == "count":
        c = a[0].attrs
        n = args[-1] if len(args) < 3 else args[1]
        if type(n) is int:
            return it.new_iter([it.binop("Add", c["start"], it.binop("Mult", c["step"], i)) for i in range(n)][slice(*args)])
    if any(type(x) is not int and x is not None for x in args):
        return it.imprecise("islice bounds")
    return it.iter_over(a[0], go)


def it_count(it, a, k):
    b = B("count", lambda it, a, k: None)
    b.attrs = {"start": a[0] if a else k.get("start", 0), "step": a[1] if len(a) > 1 else k.get("step", 1)}
    return b


def it_zip_longest(it, a, k):
    from itertools import zip_longest
    from .m_types import multi_iter
    fv = k.get("fillvalue")
    return multi_iter(it, a, lambda xss: it.new_iter(list(zip_longest(*xss, fillvalue=fv))))


def it_product(it, a, k):
    from itertools import product
    from .m_types import multi_iter
    rep = k.get("repeat", 1)
    return multi_iter(it, a, lambda xss: it.new_iter(list(product(*xss, repeat=rep))))


def it_accum(it, a, k):
    def go(xs):
        out = []
        for i, x in enumerate(xs):
            out.append(x if i == 0 else (it.call(a[1], [out[-1], x]) if len(a) > 1 else it.binop("Add", out[-1], x)))
        return it.new_iter(out)
    return it.iter_over(a[0], go)


def it_take(neg):
    def f(it, a, k):
        def go(xs):
            def rec(i):
                if i == len(xs):
                    return it.new_iter([] if neg else xs)
                t = it.truth(it.call(a[0], [xs[i]]))
                return it.fork_on(t, lambda: rec(i + 1), lambda: it.new_iter(xs[i:] if neg else xs[:i]))
            return rec(0)
        return it.iter_over(a[1], go)
    return f


def it_repeat(it, a, k):
    if len(a) > 1 and type(a[1]) is int:
        return it.new_iter([a[0]] * a[1])
    return it.imprecise("infinite repeat")


def it_groupby(it, a, k):
    key = k.get("key", a[1] if len(a) > 1 else None)

    def go(xs):
        xs = list(xs)
        ks = [x if key is None else it.call(key, [x]) for x in xs]

        def rec(i, cur, groups):
            if i == len(xs):
                return it.new_iter([(kk, it.new_iter(g)) for kk, g in groups + ([cur] if cur else [])])
            if cur is None:
                return rec(i + 1, (ks[i], [xs[i]]), groups)
            return it.fork_on(it.eq(cur[0], ks[i]), lambda: rec(i + 1, (cur[0], cur[1] + [xs[i]]), groups),
                              lambda: rec(i + 1, (ks[i], [xs[i]]), groups + [cur]))
        return rec(0, None, [])
    return it.iter_over(a[0], go)


def it_compress(it, a, k):
    from .m_types import multi_iter

    def go(xss):
        n = min(len(xss[0]), len(xss[1]))

        def rec(i, out):
            if i == n:
                return it.new_iter(out)
            return it.fork_on(it.truth(xss[1][i]), lambda: rec(i + 1, out + [xss[0][i]]), lambda: rec(i + 1, out))
        return rec(0, [])
    return multi_iter(it, a, go)


def it_comb(fn):
    def f(it, a, k):
        import itertools
        r = k.get("r", a[1] if len(a) > 1 else None)
        if r is not None and type(r) is not int:
            return it.imprecise("itertools." + fn)
        return it.iter_over(a[0], lambda xs: it.new_iter(list(getattr(itertools, fn)(xs, r) if r is not None else
                                                              itertools.permutations(xs))))
    return f


def it_filterfalse(it, a, k):
    def go(xs):
        def rec(i, out):
            if i == len(xs):
                return it.new_iter(out)
            t = it.truth(it.call(a[0], [xs[i]]) if a[0] is not None else xs[i])
            return it.fork_on(t, lambda: rec(i + 1, out), lambda: rec(i + 1, out + [xs[i]]))
        return rec(0, [])
    return it.iter_over(a[1], go)


def it_starmap(it, a, k):
    return it.iter_over(a[1], lambda xs: it.new_iter([it.call(a[0], it.iterate(x)) for x in xs]))


def it_pairwise(it, a, k):
    return it.iter_over(a[0], lambda xs: it.new_iter(list(zip(xs, xs[1:]))))


_chain = B("chain", it_chain, True)
_chain.attrs = {"from_iterable": B("from_iterable", lambda it, a, k: it.iter_over(a[0], lambda xs: it_chain(it, xs, {})))}
ITERTOOLS = {"chain": _chain, "islice": B("islice", it_islice), "count": B("count", it_count), "zip_longest": B("zip_longest", it_zip_longest),
             "product": B("product", it_product), "accumulate": B("accumulate", it_accum), "takewhile": B("takewhile", it_take(False)),
             "dropwhile": B("dropwhile", it_take(True)), "repeat": B("repeat", it_repeat), "starmap": B("starmap", it_starmap),
             "pairwise": B("pairwise", it_pairwise), "groupby": B("groupby", it_groupby), "compress": B("compress", it_compress),
             "combinations": B("combinations", it_comb("combinations")), "permutations": B("permutations", it_comb("permutations")),
             "filterfalse": B("filterfalse", it_filterfalse)}


def op_attrgetter(it, a, k):
    def get(it, x, path):
        for p in path.split("."):
            x = it.getattr(x, p)
        return x
    if len(a) == 1:
        return B("attrgetter", lambda it, b, kk: get(it, b[0], a[0]))
    return B("attrgetter", lambda it, b, kk: tuple(get(it, b[0], p) for p in a))


OPERATOR = {"attrgetter": B("attrgetter", op_attrgetter),
            "itemgetter": B("itemgetter", lambda it, a, k: B("itemgetter", lambda it, b, kk: it.getitem(b[0], a[0]) if len(a) == 1 else tuple(it.getitem(b[0], x) for x in a))),
            "methodcaller": B("methodcaller", lambda it, a, k: B("methodcaller", lambda it, b, kk: it.call(it.getattr(b[0], a[0]), a[1:], k)))}
for _n, _o in (("add", "Add"), ("sub", "Sub"), ("mul", "Mult"), ("and_", "BitAnd"), ("or_", "BitOr"), ("xor", "BitXor"),
               ("lshift", "LShift"), ("rshift", "RShift"), ("mod", "Mod"), ("floordiv", "FloorDiv"), ("truediv", "Div"), ("concat", "Add")):
    OPERATOR[_n] = B(_n, lambda it, a, k, _o=_o: it.binop(_o, a[0], a[1]))
for _n, _o in (("eq", "Eq"), ("ne", "NotEq"), ("lt", "Lt"), ("le", "LtE"), ("gt", "Gt"), ("ge", "GtE"), ("is_", "Is"), ("is_not", "IsNot")):
    OPERATOR[_n] = B(_n, lambda it, a, k, _o=_o: it.compare(_o, a[0], a[1]))
OPERATOR["contains"] = B("contains", lambda it, a, k: it.contains(a[0], a[1]))
OPERATOR["index"] = B("index", lambda it, a, k: it.intval(a[0]) if it.is_intlike(a[0]) else (
    it.call(it.getattr(a[0], "__index__"), []) if type(a[0]) is Ref else
    it.throw("TypeError", "'%s' object cannot be interpreted as an integer" % it.typeof(a[0]).name)))
for _n, _o in (("neg", "USub"), ("pos", "UAdd"), ("invert", "Invert"), ("inv", "Invert")):
    OPERATOR[_n] = B(_n, lambda it, a, k, _o=_o: it.over(a[0], lambda x: it.M.unary(it, _o, x)))
OPERATOR["truth"] = B("truth", lambda it, a, k: it.truth(a[0]))
OPERATOR["pow"] = B("pow", lambda it, a, k: it.binop("Pow", a[0], a[1]))
OPERATOR["getitem"] = B("getitem", lambda it, a, k: it.getitem(a[0], a[1]))
OPERATOR["not_"] = B("not_", lambda it, a, k: it.neg_truth(it.truth(a[0])))


# ------------------------------------------------------------------ collections / dataclasses / contextlib / copy
def namedtuple(it, a, k):
    spec = a[1]
    names = spec.replace(",", " ").split() if type(spec) is str else it.iterate(spec)
    dv = k.get("defaults")
    d = {}
    if dv is not None:
        vals = it.iterate(dv)
        d = dict(zip(names[len(names) - len(vals):], vals))
    return M.make_nt(it, a[0], names, d)


def deque(it, a, k):
    src = k.get("iterable", a[0] if a else None)
    ml = k.get("maxlen", a[1] if len(a) > 1 else None)
    if ml is not None and type(ml) is not int:
        return it.imprecise("deque length")

    def go(xs):
        r = it.new_list(list(xs)[max(0, len(xs) - ml):] if ml is not None else list(xs), DEQUE)
        it.w(r).x = ("maxlen", ml)
        return r
    return it.iter_over(src, go) if src is not None else go([])


def dq_max(o):
    return o.x[1] if type(o.x) is tuple and o.x and o.x[0] == "maxlen" else None


DEQUE = ClassV("deque", [T["list"]], None, "collections", "deque")
DEQUE.set_mro()
M.METHODS["deque"] = {}
T["deque"] = DEQUE


@M.meth("deque", "popleft")
def _(it, a, k):
    if not it.o(a[0]).items:
        return it.throw("IndexError", "pop from an empty deque")
    return it.w(a[0]).items.pop(0)


@M.meth("deque", "appendleft")
def _(it, a, k):
    o = it.w(a[0])
    o.items.insert(0, a[1])
    m = dq_max(o)
    if m is not None and len(o.items) > m:
        o.items.pop()


@M.meth("deque", "append")
def _(it, a, k):
    o = it.w(a[0])
    o.items.append(a[1])
    m = dq_max(o)
    if m is not None and len(o.items) > m:
        o.items.pop(0)


@M.meth("deque", "extend")
def _(it, a, k):
    def go(xs):
        for x in list(xs):
            M.METHODS["deque"]["append"].fn(it, [a[0], x], {})
    return it.iter_over(a[1], go)


@M.meth("deque", "extendleft")
def _(it, a, k):
    def go(xs):
        for x in list(xs):
            M.METHODS["deque"]["appendleft"].fn(it, [a[0], x], {})
    return it.iter_over(a[1], go)


@M.meth("deque", "rotate")
def _(it, a, k):
    n = a[1] if len(a) > 1 else 1
    if type(n) is not int:
        return it.imprecise("deque.rotate")
    o = it.w(a[0])
    if o.items:
        n %= len(o.items)
        o.items[:] = o.items[-n:] + o.items[:-n] if n else o.items


COLLECTIONS = {"namedtuple": B("namedtuple", namedtuple), "OrderedDict": T["OrderedDict"], "defaultdict": T["defaultdict"],
               "deque": B("deque", deque), "Counter": B("Counter", lambda it, a, k: it.imprecise("Counter")),
               "abc": None}


def dc_field(it, a, k):
    return ("dcfield", k)


def dc_make(it, c, opts):
    fields, defaults = [], {}
    for b in reversed(c.mro):
        if b.native:
            continue
        if b.dataclass and b is not c:
            for f in b.dataclass:
                if f not in fields:
                    fields.append(f)
            defaults.update(b.dc_defaults)
    d = it.w(Ref(c.ns)).d
    for n in getattr(c, "ann", ()):
        if n not in fields:
            fields.append(n)
        if n in d:
            defaults[n] = d[n]
            v = d[n]
            if type(v) is tuple and len(v) == 2 and v[0] == "dcfield":
                if "default" in v[1]:
                    d[n] = v[1]["default"]
                    defaults[n] = d[n]
                else:
                    del d[n]
    c.dataclass, c.dc_defaults = fields, defaults
    c.frozen = opts.get("frozen") is True
    c.dc_eq = opts.get("eq", True) is not False
    c.dc_hash = (c.frozen and c.dc_eq) or opts.get("unsafe_hash") is True
    if opts.get("order") is True:
        for nm, op in (("__lt__", "Lt"), ("__le__", "LtE"), ("__gt__", "Gt"), ("__ge__", "GtE")):
            def cmp(it, a, k, op=op):
                x, y = a
                if type(y) is not Ref or it.o(y).cls is not it.o(x).cls:
                    return it.throw("TypeError", "'%s' not supported between instances" % op)
                return it.order_seq(op, [it.o(x).d[f] for f in fields], [it.o(y).d[f] for f in fields])
            bb = Builtin(nm, cmp, True)
            bb.method = True
            d.setdefault(nm, bb)

    def init(it, a, k):
        self, rest = a[0], a[1:]
        if len(rest) > len(fields):
            return it.throw("TypeError", "__init__() takes %d positional arguments" % (len(fields) + 1))
        vals = dict(zip(fields, rest))
        for n, v in k.items():
            if n not in fields or n in vals:
                return it.throw("TypeError", "__init__() got an unexpected keyword argument '%s'" % n)
            vals[n] = v
        for n in fields:
            if n not in vals:
                if n not in defaults:
                    return it.throw("TypeError", "__init__() missing argument '%s'" % n)
                v = defaults[n]
                if type(v) is tuple and len(v) == 2 and v[0] == "dcfield":
                    v = it.call(v[1]["default_factory"], [])
                vals[n] = v
        if c.frozen:
            it.w(self).d.update(vals)
            it.attrs_changed(self.id)
        else:
            for n in fields:
                it.setattr(self, n, vals[n])
        p = it.find_user(c, "__post_init__")
        if p is not None:
            it.call(Bound(p, self), [])
        return None
    b = Builtin("__init__", init, True)
    b.method = True
    d.setdefault("__init__", b)
    return c


def dataclass(it, a, k):
    if a and type(a[0]) is ClassV:
        return dc_make(it, a[0], k)
    return B("dataclass", lambda it, b, kk: dc_make(it, b[0], k))


def dc_replace(it, a, k):
    o = it.o(a[0])
    d = {f: o.d[f] for f in o.cls.dataclass}
    d.update(k)
    return it.instantiate(o.cls, [], d)


def do_copy(it, v, deep, memo=None):
    memo = {} if memo is None else memo
    t = type(v)
    if t is VSet:
        return it.over(v, lambda x: do_copy(it, x, deep, memo))
    if t is tuple:
        return tuple(do_copy(it, x, deep, memo) for x in v) if deep else v
    if t is not Ref:
        return v
    if v.id in memo:
        return memo[v.id]

    def one(v):
        o = it.o(v)
        if o.cls is not None:
            m = it.find_user(o.cls, "__deepcopy__" if deep else "__copy__")
            if m is not None:
                return it.call(Bound(m, v), [it.new_dict()] if deep else [])
        if o.kind == "ct":
            n = C.sizeof(it, o.cls)

            def cp(b):
                bits = it.o(b).items[8 * o.x[1]:8 * (o.x[1] + n)]
                nb = C.new_buf(it, n, bits)
                return it.alloc(O("ct", o.cls, dict(o.d or {}), None, (nb.id, 0)))
            r = it.over(Ref(o.x[0]), cp)
            memo[v.id] = r
            return r
        n = o.clone()
        n.site = None
        r = it.alloc(n)
        memo[v.id] = r
        if deep:
            c = lambda x: do_copy(it, x, True, memo)
            if n.d is not None:
                n.d = {k: c(x) for k, x in n.d.items()}
            if o.kind in ("dict", "set"):
                n.items = [[c(p[0]), c(p[1])] for p in o.items]
            elif type(n.items) is list:
                n.items = [c(x) for x in n.items]
        return r
    return it.over(v, one)


COPY = {"copy": B("copy", lambda it, a, k: do_copy(it, a[0], False)),
        "deepcopy": B("deepcopy", lambda it, a, k: do_copy(it, a[0], True))}


# ------------------------------------------------------------------ asyncio
def aio_datagram(it, root, args, kw):
    it.event("call", root, "create_datagram_endpoint", args[1:], kw)
    tr = it.notes.get("transport")
    proto = it.call(args[0], [])
    if tr is None:
        tr = Opaque("transport")

    def thunk():
        return (tr, proto)
    return Coro(thunk, "create_datagram_endpoint")


def aio_run(it, root, args, kw):
    it.event("call", root, "run_until_complete", ())
    return it.over(args[0], lambda c: M.await_(it, c))


def aio_task(it, root, args, kw):
    c = args[0]
    it.event("task", root, c.what if type(c) is Coro else "?", (c,))
    return c


HOOKS = {"*.create_datagram_endpoint": aio_datagram, "*.run_until_complete": aio_run, "*.create_task": aio_task,
         "*.ensure_future": aio_task}


def aio_run_top(it, a, k):
    return it.over(a[0], lambda c: M.await_(it, c))


LOOP = Opaque("loop")
ASYNCIO = {
    "DatagramProtocol": T["DatagramProtocol"], "Protocol": T["DatagramProtocol"], "BaseProtocol": T["DatagramProtocol"],
    "CancelledError": T["CancelledError"], "TimeoutError": T["TimeoutError"], "InvalidStateError": T["InvalidStateError"],
    "IncompleteReadError": T["IncompleteReadError"],
    "get_event_loop": B("get_event_loop", lambda it, a, k: LOOP), "get_running_loop": B("get_running_loop", lambda it, a, k: LOOP),
    "new_event_loop": B("new_event_loop", lambda it, a, k: LOOP), "set_event_loop": B("set_event_loop", lambda it, a, k: None),
    "run": B("run", aio_run_top),
    "iscoroutinefunction": INSPECT["iscoroutinefunction"],
}


# ------------------------------------------------------------------ logging and friends
LOGLEVELS = {"DEBUG": 10, "INFO": 20, "WARNING": 30, "ERROR": 40, "CRITICAL": 50, "NOTSET": 0, "FATAL": 50, "WARN": 30}

CTYPES = {n: T[n] for n in list(C.SIMPLE) + list(C.ALIASES)}
for _n in ("Structure", "LittleEndianStructure", "BigEndianStructure", "Union", "LittleEndianUnion", "BigEndianUnion"):
    CTYPES[_n] = T[_n]


def ct_sizeof(it, a, k):
    v = a[0]
    n = C.sizeof(it, v if type(v) is ClassV else it.typeof(v))
    if n is None:
        return it.throw("TypeError", "this type has no size")
    return n


CTYPES["sizeof"] = B("sizeof", ct_sizeof)

TYPING = {"NamedTuple": T["NamedTuple"], "TYPE_CHECKING": False,
          "cast": B("cast", lambda it, a, k: a[1]), "overload": B("overload", lambda it, a, k: a[0]),
          "TypeVar": B("TypeVar", lambda it, a, k: silent("typing.TypeVar")),
          "NewType": B("NewType", lambda it, a, k: a[1]),
          "get_type_hints": B("get_type_hints", lambda it, a, k: it.imprecise("get_type_hints")),
          "final": B("final", lambda it, a, k: a[0]), "no_type_check": B("no_type_check", lambda it, a, k: a[0]),
          "Iterable": T["Iterable"], "Sequence": T["Sequence"], "Sized": T["Sized"], "Collection": T["Collection"],
          "Callable": T["Callable"], "List": T["list"], "Dict": T["dict"], "Set": T["set"], "Tuple": T["tuple"],
          "Mapping": T["dict"], "Type": T["type"]}

ENUM = {"Enum": T["Enum"], "IntEnum": T["IntEnum"], "StrEnum": T["StrEnum"], "Flag": T["Flag"], "IntFlag": T["IntFlag"],
        "auto": B("auto", lambda it, a, k: M.AUTO), "unique": B("unique", lambda it, a, k: uniq(it, a[0])),
        "EnumMeta": T["type"], "EnumType": T["type"]}


def uniq(it, c):
    if c.enum_alias:
        return it.throw("ValueError", "duplicate values found in enum")
    return c


CONTEXTLIB = {"suppress": B("suppress", lambda it, a, k: ("suppress", tuple(a))),
              "contextmanager": B("contextmanager", lambda it, a, k: it.imprecise("contextmanager")),
              "nullcontext": B("nullcontext", lambda it, a, k: a[0] if a else None)}

BINASCII = {"hexlify": B("hexlify", lambda it, a, k: it.over(_hex(it, a[0]), lambda s: M.str_encode(it, [s], {}))),
            "unhexlify": B("unhexlify", lambda it, a, k: M.bytes_fromhex(it, "bytes", a[0] if type(a[0]) in (str, SStr) else M.bytes_decode(it, [a[0]], {}))),
            "Error": T["ValueError"]}


def _hex(it, v):
    from .m_types import do_hex
    return do_hex(it, buf_items(it, v), [])


MODULES = {
    "struct": STRUCT, "socket": SOCKET, "inspect": INSPECT, "math": MATH, "bisect": BISECT, "functools": FUNCTOOLS, "itertools": ITERTOOLS,
    "operator": OPERATOR, "collections": COLLECTIONS, "asyncio": ASYNCIO, "ctypes": CTYPES, "typing": TYPING, "enum": ENUM,
    "contextlib": CONTEXTLIB, "copy": COPY, "binascii": BINASCII,
    "typing_extensions": TYPING,
    "decimal": {"Decimal": T["Decimal"], "InvalidOperation": T["InvalidOperation"]},
    "dataclasses": {"dataclass": B("dataclass", dataclass), "field": B("field", dc_field), "replace": B("replace", dc_replace),
                    "fields": B("fields", lambda it, a, k: it.imprecise("dataclasses.fields")),
                    "asdict": B("asdict", lambda it, a, k: it.new_dict([[f, it.o(a[0]).d[f]] for f in it.o(a[0]).cls.dataclass]))},
    "abc": {"ABC": T["ABC"], "ABCMeta": T["type"], "abstractmethod": B("abstractmethod", lambda it, a, k: a[0])},
    "logging": dict(LOGLEVELS, Handler=T["object"]),
    "sys": {"byteorder": "little", "maxsize": (1 << 63) - 1, "version_info": (3, 12, 3, "final", 0), "platform": "linux"},
    "ipaddress": {"ip_address": B("ip_address", ip_obj), "IPv4Address": B("IPv4Address", ip_obj)},
    "collections.abc": {"Iterable": T["Iterable"], "Sequence": T["Sequence"], "Sized": T["Sized"],
                        "Collection": T["Collection"], "Callable": T["Callable"], "Mapping": T["dict"],
                        "Iterator": T["Iterator"], "Hashable": T["Hashable"]},
    "builtins": M.BUILTINS,
    "types": {"SimpleNamespace": B("SimpleNamespace", lambda it, a, k: it.alloc(O("inst", SNS, dict(k)))),
              "MappingProxyType": B("MappingProxyType", lambda it, a, k: a[0]),
              "FunctionType": T["function"], "ModuleType": T["module"]},
    "warnings": {"warn": B("warn", lambda it, a, k: None)},
    "os": {"linesep": "\n", "sep": "/"},
    "string": {"hexdigits": "0123456789abcdefABCDEF", "digits": "0123456789"},
    "weakref": {},
}
SNS = ClassV("SimpleNamespace", [T["object"]], None, "types", "SimpleNamespace")
SNS.set_mro()
M.METHODS["SimpleNamespace"] = {}
SILENT = {"logging", "typing", "typing_extensions", "sys", "time", "threading", "warnings", "unittest", "doctest", "types",
          "traceback", "datetime", "weakref"}


def stdlib_module(it, name):
    it.hooks.setdefault("*.create_datagram_endpoint", aio_datagram)
    for k, v in HOOKS.items():
        it.hooks.setdefault(k, v)
    ns = it.alloc(O("ns", None, {"__name__": name}))
    # visible on every path, also when the import is met on one path only
    it.base.setdefault(ns.id, O("ns", None, {"__name__": name}))
    return ModuleV(name, ns.id, None)


def module_attr(it, mod, name):
    if mod.path is not None:
        return UNDEF
    d = MODULES.get(mod.name)
    if d is not None and name in d and d[name] is not None:
        return d[name]
    full = mod.name + "." + name
    if full in MODULES or full in it.modules:
        return it.import_module(full)
    if mod.name in ("ctypes", "struct", "enum", "math"):
        import importlib
        if not hasattr(importlib.import_module(mod.name), name):
            return UNDEF
    root = mod.name.split(".")[0]
    if root == "errno" or (root == "socket" and name.isupper()):
        return Opaque(full, True)
    return Opaque(full, root in SILENT)


def _quiet(name):
    @M.meth("DatagramProtocol", name)
    def _(it, a, k):
        return None


# what the protocols of asyncio do by themselves
for _n in ("connection_made", "connection_lost", "pause_writing", "resume_writing", "datagram_received", "error_received",
           "data_received", "eof_received"):
    _quiet(_n)
