"""Methods of built-in types and built-in functions."""
from . import ints as I
from .values import *  # noqa
from . import m_num as N
from . import m_ct as C
from . import models as M
from .models import T, METHODS, BUILTINS, meth, builtin


def B(name, fn):
    return Builtin(name, fn)


def lazyself(native, name):
    """method whose arguments may stay sets of alternatives"""
    def dec(fn):
        def f(it, a, k):
            return it.over(a[0], lambda s: fn(it, s, a[1:], k))
        meth(native, name, True)(f)
        return fn
    return dec


# ------------------------------------------------------------------ object
@meth("object", "__init__")
def _(it, a, k):
    return None


@meth("object", "__getattribute__")
def _(it, a, k):
    if type(a[0]) is Ref:
        o = it.o(a[0])
        r = it.generic_getattr(a[0], o, o.cls or it.typeof(a[0]), a[1])
        if r is UNDEF:
            return it.throw("AttributeError", "'%s' object has no attribute '%s'" % (it.typeof(a[0]).name, a[1]))
        return r
    return it.getattr(a[0], a[1])


@meth("object", "__setattr__")
def _(it, a, k):
    if type(a[0]) is Ref:
        return it.generic_setattr(a[0], a[1], a[2])
    return it.setattr(a[0], a[1], a[2])


@meth("object", "__delattr__")
def _(it, a, k):
    return it.delattr(a[0], a[1])


@meth("object", "__eq__")
def _(it, a, k):
    e = it.eq_default(a[0], a[1]) if type(a[0]) is Ref else it.eq(a[0], a[1])
    if e is False and type(a[0]) is Ref and type(a[1]) is not Ref:
        return NotImplemented
    return e


@meth("object", "__ne__")
def _(it, a, k):
    return it.neg_truth(it.eq(a[0], a[1]))


@meth("object", "__hash__")
def _(it, a, k):
    v = a[0]
    if type(v) is Ref:
        return I.op("idhash", (v.id,), 0, (1 << 61))
    return do_hash(it, v)


@meth("object", "__repr__")
def _(it, a, k):
    v = a[0]
    if type(v) is Ref and it.find_user(it.o(v).cls, "__repr__"):
        return mkstr((Piece("objrepr", it.o(v).cls.name),))
    return N.to_str(it, v, True)


@meth("object", "__str__")
def _(it, a, k):
    v = a[0]
    if type(v) is Ref:
        return N.to_str(it, v, True)
    return N.to_str(it, v, False)


@meth("object", "__format__")
def _(it, a, k):
    return it.over(N.to_str(it, a[0], False), lambda s: N.apply_spec(it, s, a[1]))


@meth("object", "__init_subclass__")
def _(it, a, k):
    return None


@meth("object", "__dir__")
def _(it, a, k):
    return it.imprecise("dir")


def _new(it, a, k):
    cls = a[0]
    if type(cls) is not ClassV:
        return it.throw("TypeError", "object.__new__(X): X is not a type object")
    if cls.native:
        return M.construct(it, cls, a[1:], k)
    return it.alloc_instance(cls, a[1:], k)


for _n in ("object", "tuple", "list", "dict", "set"):
    METHODS[_n]["__new__"] = StaticM(B("__new__", _new))


# ------------------------------------------------------------------ exceptions
@meth("BaseException", "__init__")
def _(it, a, k):
    it.w(a[0]).d["args"] = tuple(a[1:])


@meth("BaseException", "with_traceback")
def _(it, a, k):
    return a[0]


@meth("BaseException", "add_note")
def _(it, a, k):
    return None


# ------------------------------------------------------------------ list
@meth("list", "__init__", True)
def _(it, a, k):
    s = a[0]
    if len(a) > 1:
        def st(xs):
            it.over(s, lambda r: setattr(it.w(r), "items", list(xs)))
        it.iter_over(a[1], st)
    else:
        it.over(s, lambda r: setattr(it.w(r), "items", []))
    return None


@lazyself("list", "append")
def _(it, s, a, k):
    if len(a) != 1:
        return it.throw("TypeError", "append() takes exactly one argument")
    if it.o(s).x == "bytearray":
        a = M.as_bytes_items(it, a)
    it.w(s).items.append(a[0])


@lazyself("list", "extend")
def _(it, s, a, k):
    def add(xs):
        def go(q):
            it.w(q).items.extend(M.as_bytes_items(it, xs) if it.o(q).x == "bytearray" else xs)
        it.over(s, go)
    it.iter_over(a[0], add)


@lazyself("list", "insert")
def _(it, s, a, k):
    def one(i):
        if type(i) is not int:
            return it.imprecise("insert position")
        it.over(s, lambda q: it.w(q).items.insert(i, a[1]))
    it.over(it.split_int(it.intval(a[0])) if type(a[0]) is not VSet else a[0], one)


@meth("list", "pop")
def _(it, a, k):
    i = a[1] if len(a) > 1 else -1
    n = len(it.o(a[0]).items)
    if n == 0:
        return it.throw("IndexError", "pop from empty list")

    def one(j):
        j = it.norm_index(j, n)
        return it.w(a[0]).items.pop(j)
    return it.over(it.split_int(it.intval(i), n), one)


@meth("list", "clear")
def _(it, a, k):
    it.w(a[0]).items = []


@meth("list", "copy")
def _(it, a, k):
    r = it.new_list(it.o(a[0]).items)
    it.w(r).x = it.o(a[0]).x
    return r


@meth("list", "reverse")
def _(it, a, k):
    it.w(a[0]).items.reverse()


def find_index(it, items, x, found, missing, i=0):
    while i < len(items):
        e = it.truth(it.eq_or_is(items[i], x))
        if e is True:
            return found(i)
        if e is False:
            i += 1
            continue
        j = i
        return it.fork_on(e, lambda: found(j), lambda: find_index(it, items, x, found, missing, j + 1))
    return missing()


@meth("list", "index")
def _(it, a, k):
    s = a[2] if len(a) > 2 else 0
    return find_index(it, it.o(a[0]).items, a[1], lambda i: i,
                      lambda: it.throw("ValueError", "is not in list"), s)


@meth("tuple", "index")
def _(it, a, k):
    return find_index(it, it.seq_items(a[0]), a[1], lambda i: i,
                      lambda: it.throw("ValueError", "tuple.index(x): x not in tuple"))


def count_(it, items, x):
    n = 0
    for y in items:
        e = it.truth(it.eq_or_is(y, x))
        n = I.add(n, it.intval(e)) if type(e) in (bool, SBool) else it.imprecise("count")
    return n


@meth("list", "count")
def _(it, a, k):
    return count_(it, it.o(a[0]).items, a[1])


@meth("tuple", "count")
def _(it, a, k):
    return count_(it, it.seq_items(a[0]), a[1])


@meth("list", "remove")
def _(it, a, k):
    def found(i):
        del it.w(a[0]).items[i]
    return find_index(it, it.o(a[0]).items, a[1], found,
                      lambda: it.throw("ValueError", "list.remove(x): x not in list"))


def do_sort(it, items, key, reverse):
    ks = [(it.call(key, [x]) if key is not None else x, x) for x in items]

    def insert(sorted_, x, i=0):
        # stable: x goes before the first element greater than it
        while i < len(sorted_):
            l = it.truth(it.compare("Lt", x[0], sorted_[i][0]) if not reverse
                         else it.compare("Lt", sorted_[i][0], x[0]))
            if l is True:
                return sorted_[:i] + [x] + sorted_[i:]
            if l is False:
                i += 1
                continue
            raise NeedFork(l)
        return sorted_ + [x]

    def run(done, rest):
        if not rest:
            return it.new_list([p[1] for p in done])

        def place(i):
            while i < len(done):
                l = it.truth(it.compare("Lt", rest[0][0], done[i][0]) if not reverse
                             else it.compare("Lt", done[i][0], rest[0][0]))
                if l is True:
                    return run(done[:i] + [rest[0]] + done[i:], rest[1:])
                if l is False:
                    i += 1
                    continue
                j = i
                return it.fork_on(l, lambda: run(done[:j] + [rest[0]] + done[j:], rest[1:]), lambda: place(j + 1))
            return run(done + [rest[0]], rest[1:])
        return place(0)
    return run([], ks)


class NeedFork(Exception):
    pass


@meth("list", "sort")
def _(it, a, k):
    r = do_sort(it, it.o(a[0]).items, k.get("key"), it.truth(k.get("reverse", False)) is True)

    def put(x):
        it.w(a[0]).items = list(it.o(x).items)
    it.over(r, put)


@meth("list", "__len__")
def _(it, a, k):
    return len(it.o(a[0]).items)


@meth("list", "__iter__")
def _(it, a, k):
    return it.new_iter(it.o(a[0]).items)


@meth("list", "__getitem__")
def _(it, a, k):
    o = it.o(a[0])
    if o.kind == "list":
        if type(a[1]) is SliceV:
            return it.getitem1(it.new_list(o.items), a[1])
        i = it.split_int(it.intval(a[1]), len(o.items))
        return it.over(i, lambda j: o.items[it.norm_index(j, len(o.items))])
    return it.throw("TypeError", "getitem")


@meth("list", "__setitem__")
def _(it, a, k):
    o = it.o(a[0])
    i = it.split_int(it.intval(a[1]), len(o.items))

    def st(j):
        j = it.norm_index(j, len(o.items))
        it.w(a[0]).items[j] = a[2]
    it.over(i, st)


@meth("list", "__contains__")
def _(it, a, k):
    return it.any_of(it.o(a[0]).items, a[1], it.eq_or_is)


@meth("list", "__eq__")
def _(it, a, k):
    return it.eq_default(a[0], a[1])


@meth("list", "__add__")
def _(it, a, k):
    return it.new_list(it.o(a[0]).items + it.iterate(a[1]))


@meth("list", "__repr__")
def _(it, a, k):
    return N.concat(it, ["[", N.join_repr(it, it.o(a[0]).items), "]"])


@meth("list", "hex")
def _(it, a, k):
    return do_hex(it, it.o(a[0]).items, a[1:])


@meth("list", "decode")
def _(it, a, k):
    return M.bytes_decode(it, a, k)


# ------------------------------------------------------------------ tuple / namedtuple
@meth("tuple", "_replace")
def _(it, a, k):
    o = it.o(a[0])
    d = dict(zip(o.cls.nt_fields, o.items))
    for n, v in k.items():
        if n not in d:
            return it.throw("ValueError", "Got unexpected field names")
        d[n] = v
    return it.instantiate(o.cls, [], d)


@meth("tuple", "_asdict")
def _(it, a, k):
    o = it.o(a[0])
    return it.new_dict([[n, v] for n, v in zip(o.cls.nt_fields, o.items)])


@meth("tuple", "__len__")
def _(it, a, k):
    return len(it.seq_items(a[0]))


@meth("tuple", "__iter__")
def _(it, a, k):
    return it.new_iter(it.seq_items(a[0]))


@meth("tuple", "__eq__")
def _(it, a, k):
    if it.seq_items(a[1]) is None:
        return NotImplemented
    return it.all_eq(list(zip(it.seq_items(a[0]), it.seq_items(a[1])))) \
        if len(it.seq_items(a[0])) == len(it.seq_items(a[1])) else False


@meth("tuple", "__hash__")
def _(it, a, k):
    return do_hash(it, tuple(it.seq_items(a[0])))


@meth("tuple", "__getitem__")
def _(it, a, k):
    return it.getitem1(tuple(it.seq_items(a[0])), a[1])


@meth("tuple", "__repr__")
def _(it, a, k):
    o = it.o(a[0]) if type(a[0]) is Ref else None
    if o is not None and o.cls.nt_fields:
        out = [o.cls.name, "("]
        for i, (f, v) in enumerate(zip(o.cls.nt_fields, o.items)):
            out += [", " if i else "", f + "=", it.over(v, lambda x: N.to_str(it, x, True))]
        out.append(")")
        return N.concat(it, out)
    return N.to_str(it, tuple(it.seq_items(a[0])), True)


# ------------------------------------------------------------------ dict
@meth("dict", "__init__")
def _(it, a, k):
    s = a[0]
    if len(a) > 1:
        for p in M.dict_pairs(it, a[1]):
            it.dict_set(s, p[0], p[1])
    for n, v in k.items():
        it.dict_set(s, n, v)


@lazyself("dict", "get")
def _(it, s, a, k):
    return it.dict_get(s, a[0], a[1] if len(a) > 1 else k.get("default"))


@lazyself("dict", "setdefault")
def _(it, s, a, k):
    d = a[1] if len(a) > 1 else None

    def missing():
        it.w(s).items.append([a[0], d])
        it.dict_changed(s)
        return d
    return it.dict_find(s, a[0], lambda i: it.o(s).items[i][1], missing)


@meth("dict", "pop")
def _(it, a, k):
    s = a[0]

    def found(i):
        v = it.o(s).items[i][1]
        del it.w(s).items[i]
        it.dict_changed(s)
        return v

    def missing():
        if len(a) > 2:
            return a[2]
        return it.throw("KeyError", a[1])
    return it.dict_find(s, a[1], found, missing)


@meth("dict", "popitem")
def _(it, a, k):
    if not it.o(a[0]).items:
        return it.throw("KeyError", "popitem(): dictionary is empty")
    p = it.w(a[0]).items.pop()
    it.dict_changed(a[0])
    return (p[0], p[1])


@meth("dict", "keys")
def _(it, a, k):
    return set_view(it, [p[0] for p in it.o(a[0]).items])


def set_view(it, items):
    return it.alloc(O("set", None, None, [[x, None] for x in items], "ordered"))


def dict_view(it, r, items):
    v = it.new_list(items)
    if type(r) is Ref:
        it.w(v).x = ("view", r.id, len(items))
    return v


@meth("dict", "values")
def _(it, a, k):
    return dict_view(it, a[0], [p[1] for p in it.o(a[0]).items])


@meth("dict", "items")
def _(it, a, k):
    return dict_view(it, a[0], [(p[0], p[1]) for p in it.o(a[0]).items])


@meth("dict", "clear")
def _(it, a, k):
    it.w(a[0]).items = []
    it.dict_changed(a[0])


@meth("dict", "copy")
def _(it, a, k):
    r = it.new_dict(it.o(a[0]).items)
    it.w(r).x = it.o(a[0]).x
    return r


@meth("dict", "update")
def _(it, a, k):
    if len(a) > 1:
        for p in M.dict_pairs(it, a[1]):
            it.dict_set(a[0], p[0], p[1])
    for n, v in k.items():
        it.dict_set(a[0], n, v)


@meth("dict", "__len__")
def _(it, a, k):
    return len(it.o(a[0]).items)


@meth("dict", "__contains__")
def _(it, a, k):
    return it.any_of([p[0] for p in it.o(a[0]).items], a[1], it.key_eq)


@lazyself("dict", "__getitem__")
def _(it, s, a, k):
    return it.dict_get(s, a[0])


@lazyself("dict", "__setitem__")
def _(it, s, a, k):
    it.dict_set(s, a[0], a[1])


@meth("dict", "__iter__")
def _(it, a, k):
    return it.new_iter([p[0] for p in it.o(a[0]).items])


@meth("dict", "__delitem__")
def _(it, a, k):
    it.dict_del(a[0], a[1])


# ------------------------------------------------------------------ set
@meth("set", "add")
def _(it, a, k):
    M.set_add(it, a[0], a[1])


@meth("set", "discard")
def _(it, a, k):
    def found(i):
        del it.w(a[0]).items[i]
    it.dict_find(a[0], a[1], found, lambda: None)


@meth("set", "remove")
def _(it, a, k):
    it.dict_del(a[0], a[1])


@meth("set", "pop")
def _(it, a, k):
    o = it.o(a[0])
    if not o.items:
        return it.throw("KeyError", "pop from an empty set")
    if len(o.items) > 1:
        it.imprecise("set.pop order")
    return it.w(a[0]).items.pop(0)[0]


@meth("set", "clear")
def _(it, a, k):
    it.w(a[0]).items = []


@meth("set", "copy")
def _(it, a, k):
    return it.alloc(O("set", None, None, [list(p) for p in it.o(a[0]).items]))


@meth("set", "__len__")
def _(it, a, k):
    return len(it.o(a[0]).items)


@meth("set", "__contains__")
def _(it, a, k):
    return it.any_of([p[0] for p in it.o(a[0]).items], a[1], it.key_eq)


@meth("set", "__iter__")
def _(it, a, k):
    return it.iter_over(a[0], it.new_iter)


def _setop(name, op):
    @meth("set", name)
    def _(it, a, k):
        r = a[0]
        if len(a) == 1:
            return it.alloc(O("set", None, None, [list(p) for p in it.o(r).items]))
        for x in a[1:]:
            r = it.over(r, lambda q: it.iter_over(x, lambda xs: M.binop(it, op, q, M.set_from(it, xs))))
        return r


for _n, _o in (("union", "BitOr"), ("difference", "Sub"), ("intersection", "BitAnd"), ("symmetric_difference", "BitXor")):
    _setop(_n, _o)


def _setup(name, op):
    @meth("set", name)
    def _(it, a, k):
        for x in a[1:]:
            def go(xs):
                r = M.binop(it, op, a[0], M.set_from(it, xs))
                it.over(r, lambda q: setattr(it.w(a[0]), "items", [list(p) for p in it.o(q).items]))
            it.iter_over(x, go)


for _n, _o in (("update", "BitOr"), ("difference_update", "Sub"), ("intersection_update", "BitAnd")):
    _setup(_n, _o)


def subset(it, xs, b):
    if not xs:
        return True
    return it.fork_on(it.truth(it.contains(b, xs[0])), lambda: subset(it, xs[1:], b), lambda: False)


@meth("set", "issubset")
def _(it, a, k):
    return subset(it, [p[0] for p in it.o(a[0]).items], a[1])


@meth("set", "issuperset")
def _(it, a, k):
    return it.iter_over(a[1], lambda xs: subset(it, xs, a[0]))


@meth("set", "isdisjoint")
def _(it, a, k):
    def go(xs):
        if not xs:
            return True
        return it.fork_on(it.truth(it.contains(a[0], xs[0])), lambda: False, lambda: go(xs[1:]))
    return it.iter_over(a[1], go)


# ------------------------------------------------------------------ iterator
@meth("iterator", "__iter__")
def _(it, a, k):
    return a[0]


@meth("iterator", "close")
def _(it, a, k):
    return None


@meth("iterator", "send")
def _(it, a, k):
    return it.imprecise("generator send")


# ------------------------------------------------------------------ property
@meth("property", "__get__")
def _(it, a, k):
    return it.call(a[0].fget, [a[1]])


# ------------------------------------------------------------------ int
@meth("int", "to_bytes")
def _(it, a, k):
    x = it.intval(a[0])
    n = a[1] if len(a) > 1 else k.get("length", 1)
    order = M.byte_order(it, a, k, 2)
    signed = k.get("signed", False) is True
    if type(n) is not int:
        return it.imprecise("to_bytes length")
    lo, hi = I.rng(x, it.st.facts)
    mn, mx = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << 8 * n) - 1)

    def ok():
        b = I.bits_of(x, 8 * n, it.st.facts)
        items = [I.from_bits(b[8 * i:8 * i + 8]) for i in range(n)]
        if order == "big":
            items.reverse()
        return M.mkbytes(items)
    bad = lambda: it.throw("OverflowError", "int too big to convert" if hi > mx else "can't convert negative int to unsigned")
    return it.fork_on(it.order("Lt", x, mn), bad,
                      lambda: it.fork_on(it.order("Gt", x, mx), bad, ok))


@meth("int", "bit_length")
def _(it, a, k):
    x = it.intval(a[0])
    if type(x) is int:
        return x.bit_length()
    return I.op("bit_length", (x,), 0, 64)


@meth("int", "conjugate")
def _(it, a, k):
    return it.intval(a[0])


@meth("int", "__index__")
def _(it, a, k):
    return it.intval(a[0])


METHODS["int"]["__int__"] = METHODS["int"]["__index__"]


def _intdun(name, op):
    @meth("int", name)
    def _(it, a, k):
        return M.binop(it, op, a[0], a[1])


for _o, _n in M.AUGNAMES.items():
    _intdun("__" + _n[3:], _o)


def _intcmp(name, op):
    @meth("int", name)
    def _(it, a, k):
        return it.compare(op, a[0], a[1])


for _o, _n in (("Eq", "__eq__"), ("NotEq", "__ne__"), ("Lt", "__lt__"), ("LtE", "__le__"), ("Gt", "__gt__"), ("GtE", "__ge__")):
    _intcmp(_n, _o)


@meth("float", "is_integer")
def _(it, a, k):
    v = a[0]
    if type(v) is float:
        return v.is_integer()
    return Unknown("is_integer")


# ------------------------------------------------------------------ str
def host_str(name):
    @meth("str", name)
    def _(it, a, k):
        s = a[0]
        if type(s) is str and all(type(x) in (str, int, tuple) or x is None for x in a[1:]):
            try:
                r = getattr(s, name)(*a[1:], **k)
            except (ValueError, TypeError) as e:
                return it.throw(type(e).__name__, str(e))
            if type(r) is list:
                return it.new_list(r)
            return r
        return sym_str(it, name, s, a[1:], k)


def sym_str(it, name, s, a, k):
    if type(s) is str and not all(type(x) in (str, int, tuple, SStr) or x is None for x in a):
        return it.throw("TypeError", "must be str, not %s" % it.typeof(a[0]).name)
    ch = list(s) if type(s) is str else s.chars()
    if name in ("upper", "lower", "casefold"):
        if all(type(p) is str or type(p) is Ch or (type(p) is Piece and p.kind in ("dec", "float")) for p in s.parts):
            out = []
            for p in s.parts:
                if type(p) is str:
                    out.append(p.upper() if name == "upper" else p.lower())
                elif type(p) is Ch:
                    out.append(Ch(p.nib, name == "upper"))
                else:
                    out.append(p)
            return mkstr(out)
    if name in ("zfill", "rjust", "ljust", "center") and ch is not None and type(a[0]) is int:
        f = "0" if name == "zfill" else (a[1] if len(a) > 1 else " ")
        pad = max(0, a[0] - len(ch))
        if name in ("zfill", "rjust"):
            return mkstr([f * pad, s])
        if name == "ljust":
            return mkstr([s, f * pad])
    if name in ("strip", "rstrip", "lstrip"):
        chars = a[0] if a and a[0] is not None else " \t\n\r\x0b\x0c"
        if ch is not None and type(chars) is str and not (set(chars) & set("0123456789abcdefABCDEF")):
            i, j = 0, len(ch)
            if name != "rstrip":
                while i < j and type(ch[i]) is str and ch[i] in chars:
                    i += 1
            if name != "lstrip":
                while j > i and type(ch[j - 1]) is str and ch[j - 1] in chars:
                    j -= 1
            return mkstr(ch[i:j])
        if ch is None and all(not (set(p) & set(chars)) for p in s.parts if type(p) is str) and \
                all(type(p) is str or type(p) is Ch or p.kind == "dec" for p in s.parts):
            return s
    if name in ("startswith", "endswith") and type(a[0]) is str and len(a) == 1:
        t = list(a[0])
        if ch is not None:
            if len(ch) < len(t):
                return False
            sub = ch[:len(t)] if name == "startswith" else ch[len(ch) - len(t):]
            return it.eq(mkstr(sub), a[0])
        p = s.parts[0] if name == "startswith" else s.parts[-1]
        if type(p) is str and len(p) >= len(t):
            return p.startswith(a[0]) if name == "startswith" else p.endswith(a[0])
        if name == "startswith" and type(p) is Piece and p.kind == "dec" and t and t[0] not in "0123456789-":
            return False
    if name == "split" and a and type(a[0]) is str and len(a[0]) == 1 and not (a[0] in "0123456789abcdefABCDEF-"):
        if all(type(p) is str or type(p) is Ch or (type(p) is Piece and p.kind == "dec") for p in s.parts):
            out, cur = [], []
            for p in s.parts:
                if type(p) is str:
                    bits = p.split(a[0])
                    cur.append(bits[0])
                    for b in bits[1:]:
                        out.append(mkstr(cur))
                        cur = [b]
                else:
                    cur.append(p)
            out.append(mkstr(cur))
            return it.new_list(out)
    if name == "replace" and type(a[0]) is str and type(a[1]) is str and \
            not set(a[0]) & set("0123456789abcdefABCDEF-"):
        if all(type(p) is str or type(p) is Ch or (type(p) is Piece and p.kind == "dec") for p in s.parts):
            return mkstr([p.replace(a[0], a[1]) if type(p) is str else p for p in s.parts])
    if name == "join":
        return Unknown("join")
    if name in ("startswith", "endswith", "isdigit", "isalnum", "isalpha", "isspace", "isupper", "islower", "isidentifier", "isdecimal", "isnumeric"):
        return SBool("p", (name, str(s)) + tuple(map(str, a)))
    if name in ("find", "index", "count", "rfind"):
        return it.imprecise("str.%s of unknown text" % name)
    if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
        return it.imprecise("str.%s of unknown text" % name)
    return SStr((Piece(name, (str(s),) + tuple(map(str, a))),))


for _n in ("upper", "lower", "casefold", "strip", "rstrip", "lstrip", "startswith", "endswith", "split", "rsplit",
           "splitlines", "replace", "find", "rfind", "index", "count", "zfill", "rjust", "ljust", "center",
           "isdigit", "isalnum", "isalpha", "isspace", "isupper", "islower", "isidentifier", "isdecimal", "isnumeric",
           "title", "capitalize", "partition", "rpartition", "removeprefix", "removesuffix", "swapcase", "expandtabs", "translate"):
    host_str(_n)


@meth("str", "format")
def _(it, a, k):
    return N.str_format(it, a[0], a[1:], k)


@meth("str", "__format__")
def _(it, a, k):
    return N.apply_spec(it, a[0], a[1])


@meth("str", "__len__")
def _(it, a, k):
    return do_len(it, a[0])


@meth("str", "join", True)
def _(it, a, k):
    def j(p):
        sep, src = p

        def go(xs):
            def fin(ys):
                out = []
                for i, y in enumerate(ys):
                    if type(y) is Unknown:
                        return y
                    if type(y) not in (str, SStr):
                        return it.throw("TypeError", "sequence item %d: expected str instance, %s found" % (i, it.typeof(y).name))
                    if i:
                        out.append(sep)
                    out.append(y)
                return mkstr(out)
            return it.over_all(list(xs), fin)
        return it.iter_over(src, go)
    return it.over_all(list(a), j)


@meth("str", "encode")
def _(it, a, k):
    return M.str_encode(it, a, k)


def str_encode(it, a, k):
    s = a[0]
    if type(s) is str:
        try:
            return s.encode(*a[1:], **k)
        except (UnicodeError, LookupError) as e:
            return it.throw(type(e).__name__ if type(e).__name__ in T else "ValueError", str(e))
    ch = s.chars()
    if ch is None:
        return BytesV((Piece("encoded", s),))
    out = []
    for c in ch:
        if type(c) is str:
            out.extend(c.encode())
        else:
            out.append(I.op("chr" + str(c.upper), (c.nib,), 48, 102))
            it.notes.setdefault("chr", {})[out[-1]] = c
    return M.mkbytes(out)


def bytes_decode(it, a, k):
    s = a[0]
    items = it.seq_items(s)
    if items is None:
        return it.throw("TypeError", "decoding to str: need a bytes-like object")
    if len(items) == 1 and type(items[0]) is Piece:
        return items[0].arg
    if all(type(x) is int for x in items):
        try:
            return bytes(items).decode(*a[1:], **k)
        except (UnicodeError, LookupError) as e:
            return it.throw("UnicodeDecodeError", str(e))
    out = []
    tab = it.notes.get("chr", {})
    for x in items:
        if type(x) is int:
            out.append(chr(x))
        elif x in tab:
            out.append(tab[x])
        else:
            out.append(Piece("chr", str(x)))
    return mkstr(out)


# ------------------------------------------------------------------ bytes
def do_hex(it, items, a):
    if a and type(a[0]) is str:
        parts = []
        for i, x in enumerate(items):
            if i:
                parts.append(a[0])
            parts.append(do_hex(it, [x], []))
        return mkstr(parts)
    chs = []
    for x in items:
        if type(x) is int:
            chs.append("%02x" % x)
            continue
        b = I.bits_of(x, 8, it.st.facts)
        chs.append(Ch(I.from_bits(b[4:]), False))
        chs.append(Ch(I.from_bits(b[:4]), False))
    return mkstr(chs)


@meth("bytes", "hex")
def _(it, a, k):
    return do_hex(it, it.seq_items(a[0]), a[1:])


@meth("bytes", "tolist")
def _(it, a, k):
    return it.new_list(list(it.seq_items(a[0])))


@meth("bytes", "tobytes")
def _(it, a, k):
    return a[0]


@meth("bytes", "decode")
def _(it, a, k):
    return M.bytes_decode(it, a, k)


@meth("bytes", "join")
def _(it, a, k):
    def go(xs):
        out = []
        for i, x in enumerate(xs):
            if i:
                out += it.seq_items(a[0])
            out += it.seq_items(x)
        return M.mkbytes(out)
    return it.iter_over(a[1], go)


def host_bytes(name):
    @meth("bytes", name)
    def _(it, a, k):
        if type(a[0]) is bytes and all(type(x) in (bytes, int) or x is None for x in a[1:]):
            r = getattr(a[0], name)(*a[1:])
            return it.new_list(r) if type(r) is list else r
        items = it.seq_items(a[0])
        if items is not None and all(type(x) is int for x in items) and type(a[0]) is not bytes and \
                all(type(x) in (bytes, int) or x is None for x in a[1:]):
            try:
                r = getattr(bytes(items), name)(*a[1:])
            except ValueError as e:
                return it.throw("ValueError", str(e))
            if type(r) is bytes and type(a[0]) is Ref:
                q = it.new_list(list(r))
                it.w(q).x = "bytearray"
                return q
            return it.new_list(r) if type(r) is list else r
        if name in ("find", "index") and len(a) == 2 and items is not None:
            sub = [a[1]] if it.is_intlike(a[1]) else it.seq_items(a[1])
            if sub is not None:
                def at(i):
                    if i + len(sub) > len(items):
                        return -1 if name == "find" else it.throw("ValueError", "subsection not found")
                    return it.fork_on(it.all_eq(list(zip(items[i:i + len(sub)], sub))), lambda: i, lambda: at(i + 1))
                return at(0)
        if name == "count" and len(a) == 2 and items is not None and it.is_intlike(a[1]):
            def cnt(i, n):
                if i == len(items):
                    return n
                return it.fork_on(it.eq(items[i], a[1]), lambda: cnt(i + 1, n + 1), lambda: cnt(i + 1, n))
            return cnt(0, 0)
        if name in ("ljust", "rjust") and items is not None and type(a[1]) is int:
            pad = list(a[2] if len(a) > 2 else b" ") * max(0, a[1] - len(items))
            out = items + pad if name == "ljust" else pad + items
            if type(a[0]) is Ref:
                q = it.new_list(list(out))
                it.w(q).x = "bytearray"
                return q
            return M.mkbytes(list(out))
        if name in ("startswith", "endswith") and type(a[1]) is bytes:
            t = list(a[1])
            if len(items) < len(t):
                return False
            return it.eq(M.mkbytes(items[:len(t)] if name == "startswith" else items[len(items) - len(t):]), a[1])
        if name in ("strip", "rstrip"):
            if len(items) == 1 and type(items[0]) is Piece:
                return it.over(sym_str(it, name, items[0].arg, [x.decode("latin1") for x in a[1:]], {})
                               if type(items[0].arg) is SStr else getattr(items[0].arg, name)(),
                               lambda s: str_encode(it, [s], {}))
            j = len(items)
            cs = list(a[1]) if len(a) > 1 else list(b" \t\n\r\x0b\x0c")
            while j and type(items[j - 1]) is int and items[j - 1] in cs:
                j -= 1
            i = 0
            if name == "strip":
                while i < j and type(items[i]) is int and items[i] in cs:
                    i += 1
            return M.mkbytes(items[i:j])
        return it.imprecise("bytes.%s" % name)


for _n in ("startswith", "endswith", "strip", "rstrip", "lstrip", "find", "index", "count", "split", "replace",
           "upper", "lower", "isdigit", "ljust", "rjust"):
    host_bytes(_n)


@meth("bytes", "__len__")
def _(it, a, k):
    return len(it.seq_items(a[0]))


# ------------------------------------------------------------------ ctypes
@meth("_CData", "__init__")
def _(it, a, k):
    if C.simple_of(it.o(a[0]).cls):
        return C.simple_init(it, a, k)
    return C.ct_init(it, a, k)


for _n in C.SIMPLE:
    METHODS[_n]["value"] = CField("value", T[_n], 0, C.SIMPLE[_n][0])


@meth("_CData", "__bytes__")
def _(it, a, k):
    return C.ct_bytes(it, a[0])


# ------------------------------------------------------------------ functions
def do_len(it, v):
    t = type(v)
    if t in (str, bytes, tuple):
        return len(v)
    if t is SStr:
        ch = v.chars()
        if ch is not None:
            return len(ch)
        return I.op("len", (str(v),), 0, 1 << 20)
    if t is BytesV:
        if any(type(x) is Piece for x in v.items):
            return I.op("len", (str(v),), 0, 1 << 20)
        return len(v.items)
    if t is RangeV:
        if all(type(x) is int for x in (v.a, v.b, v.s)):
            return len(it.range_list(v))
        if v.s == 1:
            d = it.binop("Sub", v.b, v.a)
            return it.fork_on(it.order("Lt", d, 0), lambda: 0, lambda: d)
        return it.imprecise("len of range")
    if t is ClassV and v.enum is not None:
        return len(v.enum)
    if t is Unknown:
        return v
    if t is Ref:
        o = it.o(v)
        if o.cls is not None:
            m = it.find_user(o.cls, "__len__")
            if m is not None:
                return it.call(Bound(m, v), [])
        if o.kind in ("list", "dict", "set") or (o.kind == "inst" and o.items is not None):
            return len(o.items)
    if it.model_gap(v):
        return it.imprecise("len of %s" % it.typeof(v).name)
    return it.throw("TypeError", "object of type '%s' has no len()" % it.typeof(v).name)


def do_hash(it, v):
    if type(v) is VSet:
        return it.over(v, lambda x: do_hash(it, x))
    it.check_hashable(v)
    if it.is_intlike(v):
        return it.intval(v)
    if type(v) is Ref:
        o = it.o(v)
        if o.cls is not None:
            m = it.class_attr(o.cls, "__hash__")
            if type(m) is Func:
                return it.call(Bound(m, v), [])
        if o.kind == "inst" and o.items is not None:
            return do_hash(it, tuple(o.items))
        if o.cls is not None and o.cls.dataclass:
            return do_hash(it, tuple(o.d.get(f) for f in o.cls.dataclass))
        return I.op("idhash", (v.id,), 0, 1 << 61)
    if type(v) is tuple:
        hs = [do_hash(it, x) for x in v]
        if any(type(h) is Unknown for h in hs):
            return Unknown("hash")
        return it.over_all(hs, lambda p: I.op("hash", tuple(p), -(1 << 61), 1 << 61))
    return I.op("hash", (type(v).__name__, str(v)), -(1 << 61), 1 << 61)


builtin("len")(lambda it, a, k: do_len(it, a[0]) if len(a) == 1 else it.throw("TypeError", "len() takes exactly one argument"))
builtin("hash")(lambda it, a, k: do_hash(it, a[0]))
builtin("id")(lambda it, a, k: I.op("id", (repr(a[0]),), 0, 1 << 62))
builtin("repr")(lambda it, a, k: N.to_str(it, a[0], True))
builtin("ascii")(lambda it, a, k: N.to_str(it, a[0], True))
builtin("format")(lambda it, a, k: N.format_value(it, a[0], a[1] if len(a) > 1 else ""))
builtin("callable")(lambda it, a, k: type(a[0]) in (Func, Builtin, Bound, ClassV) or
                    (type(a[0]) is Ref and it.class_attr(it.typeof(a[0]), "__call__") is not UNDEF))
builtin("isinstance")(lambda it, a, k: it.isinstance_(a[0], a[1]))
builtin("print")(lambda it, a, k: None)
builtin("input")(lambda it, a, k: SStr((Piece("input", str(it.site())),)))
builtin("open")(lambda it, a, k: Opaque("open()"))
builtin("exit")(lambda it, a, k: it.throw("SystemExit"))
builtin("__import__")(lambda it, a, k: it.import_module(a[0]))


@builtin("issubclass")
def _(it, a, k):
    c, d = a
    if type(c) is not ClassV:
        return it.throw("TypeError", "issubclass() arg 1 must be a class")
    ds = d if type(d) is tuple else (d,)
    return any(c.issub(x) for x in ds)


@builtin("getattr", True)
def _(it, a, k):
    def nm(p):
        n = p[0]
        if type(n) is SStr and len(n.parts) == 1 and type(n.parts[0]) is Piece and n.parts[0].kind == "enumname" \
                and type(a[0]) is ClassV and a[0].enum is not None:
            return M.enum_by_name(it, a[0], n)
        if type(n) is not str:
            if type(n) is SStr:
                return it.imprecise("attribute with unknown name")
            return it.throw("TypeError", "attribute name must be string, not '%s'" % it.typeof(n).name)
        return it.getattr(a[0], n, a[2] if len(a) > 2 else UNDEF)
    return it.over_all([a[1]], nm)


@builtin("setattr", True)
def _(it, a, k):
    def nm(n):
        if type(n) is not str:
            if type(n) is SStr:
                return it.imprecise("attribute with unknown name")
            return it.throw("TypeError", "attribute name must be string")
        it.setattr(a[0], n, a[2])
    it.over(a[1], nm)


@builtin("delattr")
def _(it, a, k):
    it.delattr(a[0], a[1])


@builtin("hasattr")
def _(it, a, k):
    saved = it.raises
    it.raises = []
    base = it.st
    try:
        it.getattr(a[0], a[1])
        r = True
    except Dead:
        r = None
    rs, it.raises = it.raises, saved
    if r is True and not rs:
        return True
    bad = [x for x in rs if not it.o_at(x).cls.issub(T["AttributeError"])]
    it.raises.extend(bad)
    att = [x for x in rs if x not in bad]
    if r is True:
        return it.join(base, [(True, it.st)] + [(False, st) for _, st in att]) if att else True
    if not att:
        raise Dead()
    return it.join(base, [(False, st) for _, st in att])


@builtin("vars")
def _(it, a, k):
    return it.getattr(a[0], "__dict__")


@builtin("dir")
def _(it, a, k):
    v = a[0]
    names = set()
    c = v if type(v) is ClassV else (it.typeof(v) if type(v) is not ModuleV else None)
    if type(v) is ModuleV:
        names |= set(it.o(Ref(v.ns)).d)
    else:
        for b in c.mro:
            if b.ns is not None:
                names |= set(it.o(Ref(b.ns)).d)
            if b.enum:
                names |= set(b.enum)
        if type(v) is Ref and it.o(v).d:
            names |= set(it.o(v).d)
    return it.new_list(sorted(names))


@builtin("abs")
def _(it, a, k):
    v = a[0]
    if it.is_intlike(v):
        x = it.intval(v)
        if type(x) is int:
            return abs(x)
        return it.fork_on(it.order("Lt", x, 0), lambda: I.neg(x), lambda: x)
    if type(v) in (float, SFloat, SDec):
        return N.float_abs(it, v)
    if type(v) is Ref:
        m = it.class_attr(it.typeof(v), "__abs__")
        if type(m) is Func:
            return it.call(Bound(m, v), [])
    return it.throw("TypeError", "bad operand type for abs()")


@builtin("round")
def _(it, a, k):
    nd = a[1] if len(a) > 1 else k.get("ndigits")
    if not it.is_intlike(a[0]) and type(a[0]) not in (float, SFloat, SDec):
        return it.throw("TypeError", "type doesn't define __round__ method")
    return N.do_round(it, a[0], nd)


@builtin("pow")
def _(it, a, k):
    r = M.binop(it, "Pow", a[0], a[1])
    if len(a) > 2 and a[2] is not None:
        return it.over(r, lambda x: M.binop(it, "Mod", x, a[2]))
    return r


@builtin("divmod")
def _(it, a, k):
    return (M.binop(it, "FloorDiv", a[0], a[1]), M.binop(it, "Mod", a[0], a[1]))


def _based(conv, pre):
    def f(it, a, k):
        if not it.is_intlike(a[0]):
            return it.throw("TypeError", "'%s' object cannot be interpreted as an integer" % it.typeof(a[0]).name)
        return N.fmt_int(it, it.intval(a[0]), 0, False, conv, True)
    return f


for _n, _c in (("hex", "x"), ("bin", "b"), ("oct", "o")):
    builtin(_n)(_based(_c, ""))


@builtin("chr")
def _(it, a, k):
    x = it.intval(a[0])
    if type(x) is int:
        return chr(x)
    return SStr((Piece("chr", str(x)),))


@builtin("ord")
def _(it, a, k):
    s = a[0]
    if type(s) is str and len(s) == 1:
        return ord(s)
    if type(s) in (str, bytes) and len(s) != 1:
        return it.throw("TypeError", "ord() expected a character")
    if type(s) is bytes:
        return s[0]
    if type(s) is SStr and len(s.parts) == 1 and type(s.parts[0]) is Piece and s.parts[0].kind == "chr":
        return I.op("ord", (str(s),), 0, 0x10FFFF)
    return I.op("ord", (str(s),), 0, 0x10FFFF)


@builtin("sum", True)
def _(it, a, k):
    start = a[1] if len(a) > 1 else k.get("start", 0)

    def go(xs):
        r = start
        for x in xs:
            r = it.binop("Add", r, x)
        return r
    return it.iter_over(a[0], go)


def extremum(name, op):
    def f(it, a, k):
        key = k.get("key")

        def pick(xs):
            if not xs:
                if "default" in k:
                    return k["default"]
                return it.throw("ValueError", "%s() arg is an empty sequence" % name)

            def go(best, rest):
                if not rest:
                    return best
                kb = it.call(key, [best]) if key is not None else best
                kx = it.call(key, [rest[0]]) if key is not None else rest[0]
                c = it.truth(it.compare(op, kx, kb))
                if type(best) is I.SInt or type(rest[0]) is I.SInt:
                    return it.fork_on(c, lambda: go(rest[0], rest[1:]), lambda: go(best, rest[1:]))
                return it.fork_on(c, lambda: go(rest[0], rest[1:]), lambda: go(best, rest[1:]))
            return go(xs[0], xs[1:])
        if len(a) == 1:
            return it.iter_over(a[0], pick)
        return pick(list(a))
    builtin(name, True)(f)


extremum("min", "Lt")
extremum("max", "Gt")


@builtin("any", True)
def _(it, a, k):
    def go(xs):
        if not xs:
            return False
        return it.over(xs[0], lambda x: it.fork_on(it.truth(x), lambda: True, lambda: go(xs[1:])))
    return it.iter_over(a[0], go)


@builtin("all", True)
def _(it, a, k):
    def go(xs):
        if not xs:
            return True
        return it.over(xs[0], lambda x: it.fork_on(it.truth(x), lambda: go(xs[1:]), lambda: False))
    return it.iter_over(a[0], go)


def multi_iter(it, srcs, fn):
    refs = [x for x in srcs if type(x) is Ref and type(it.o(x)) is O and it.o(x).kind == "iter"]
    if len(set(refs)) < len(refs):
        # the same iterator several times: it is dealt out round robin
        if len(refs) == len(srcs) and len(set(refs)) == 1:
            xs = it.iterate(refs[0])
            n = len(srcs)
            return fn([xs[i::n][:len(xs) // n] for i in range(n)])
        it.imprecise("one iterator among several sources")

    def go(done, rest):
        if not rest:
            return fn(done)
        if type(rest[0]) is Builtin and rest[0].name == "count":
            return go(done + [rest[0]], rest[1:])
        return it.iter_over(rest[0], lambda xs: go(done + [xs], rest[1:]))
    return go([], list(srcs))


def _cnt(xss):
    n = min([len(x) for x in xss if type(x) is list] or [0])
    out = []
    for x in xss:
        if type(x) is list:
            out.append(x[:n])
        else:
            out.append([I.add(x.attrs["start"], I.mulc(i, x.attrs["step"])) if type(x.attrs["start"]) is I.SInt
                        else x.attrs["start"] + i * x.attrs["step"] for i in range(n)])
    return out


@builtin("zip", True)
def _(it, a, k):
    strict = k.get("strict", False)

    def fin(xss):
        xss = [x for x in xss]
        if strict is True and len({len(x) for x in xss}) > 1:
            return it.throw("ValueError", "zip() argument lengths differ")
        return it.new_iter(list(zip(*_cnt(xss)))) if xss else it.new_iter([])
    return multi_iter(it, a, fin)


@builtin("map", True)
def _(it, a, k):
    return multi_iter(it, a[1:], lambda xss: it.new_iter([it.call(a[0], list(p)) for p in zip(*_cnt(xss))]))


@builtin("filter", True)
def _(it, a, k):
    def go(xs):
        r = it.new_list([])
        for x in xs:
            t = it.call(a[0], [x]) if a[0] is not None else x

            def keep():
                it.over(r, lambda q: it.w(q).items.append(x))
            it.over(t, lambda tv: it.fork_on(it.truth(tv), keep, lambda: None))
        return it.over(r, lambda q: it.new_iter(it.o(q).items))
    return it.iter_over(a[1], go)


@builtin("enumerate", True)
def _(it, a, k):
    s = a[1] if len(a) > 1 else k.get("start", 0)
    return it.iter_over(a[0], lambda xs: it.new_iter([(M.binop(it, "Add", i, s), x) for i, x in enumerate(xs)]))


@builtin("reversed", True)
def _(it, a, k):
    def one(v):
        if type(v) is Ref and it.o(v).cls is not None:
            m = it.find_user(it.o(v).cls, "__reversed__")
            if m is not None:
                return it.call(Bound(m, v), [])
        return it.iter_over(v, lambda xs: it.new_iter(xs[::-1]))
    return it.over(a[0], one)


@builtin("sorted", True)
def _(it, a, k):
    return it.iter_over(a[0], lambda xs: do_sort(it, xs, k.get("key"), it.truth(k.get("reverse", False)) is True))


@builtin("iter")
def _(it, a, k):
    v = a[0]
    if len(a) > 1:
        out = []
        for _ in range(1200):
            x = it.call(a[0], [])
            e = it.truth(it.eq_or_is(x, a[1]))
            if e is True:
                return it.new_iter(out)
            if e is not False:
                break
            out.append(x)
        return it.imprecise("iter with sentinel")
    if type(v) is Ref:
        o = it.o(v)
        if o.kind == "iter":
            return v
        if o.cls is not None:
            m = it.find_user(o.cls, "__iter__")
            if m is not None:
                return it.call(Bound(m, v), [])
    return it.iter_over(v, lambda xs: it.new_iter(xs))


builtin("next")(lambda it, a, k: M.next_(it, a, k))
builtin("aiter")(lambda it, a, k: a[0])

for _n in ("object", "int", "bool", "str", "float", "bytes", "bytearray", "tuple", "list", "dict", "set", "frozenset",
           "type", "range", "slice", "property", "staticmethod", "classmethod", "memoryview", "complex", "super"):
    BUILTINS[_n] = T[_n]
for _ln in M.EXC.split("\n"):
    _n = _ln.split()[0]
    if _n not in ("struct.error", "CancelledError", "InvalidOperation", "InvalidStateError", "IncompleteReadError"):
        BUILTINS[_n] = T[_n]
BUILTINS["IOError"] = BUILTINS["EnvironmentError"] = T["OSError"]
BUILTINS["NotImplemented"] = NotImplemented
BUILTINS["Ellipsis"] = Ellipsis
BUILTINS["__debug__"] = True
BUILTINS["__builtins__"] = Opaque("builtins")
BUILTINS["__doc__"] = None
BUILTINS["__spec__"] = None
BUILTINS["__package__"] = None

METHODS["bytearray"] = dict(METHODS["bytes"])
METHODS["bytearray"].update(METHODS["list"])
for _n in ("index", "count", "sort"):
    METHODS["bytearray"].pop(_n, None)
for _n in ("index", "count"):
    METHODS["bytearray"][_n] = METHODS["bytes"][_n]
