"""Models of the built-in types, functions and of class creation."""
import ast

from . import ints as I
from .values import *  # noqa
from . import m_num as N
from . import m_ct as C
from .m_num import format_value, float_cmp, opaque_text  # noqa  (used by interp)
from .m_ct import ct_read, ct_write, ct_alloc  # noqa

T = {}
METHODS = {}
BUILTINS = {}
AUGNAMES = {"Add": "__iadd__", "Sub": "__isub__", "Mult": "__imul__", "Div": "__itruediv__",
            "FloorDiv": "__ifloordiv__", "Mod": "__imod__", "Pow": "__ipow__", "BitAnd": "__iand__",
            "BitOr": "__ior__", "BitXor": "__ixor__", "LShift": "__ilshift__", "RShift": "__irshift__",
            "MatMult": "__imatmul__"}
BINNAMES = {k: ("__" + v[3:], "__r" + v[3:]) for k, v in AUGNAMES.items()}


def _cls(name, *bases):
    c = ClassV(name, [T[b] for b in bases] if bases else ([T["object"]] if "object" in T else []),
               None, "builtins", name)
    c.set_mro()
    T[name] = c
    METHODS.setdefault(name, {})
    return c


def meth(native, name=None, lazy=False):
    def dec(fn):
        b = Builtin(name or fn.__name__.rstrip("_"), fn, lazy)
        b.method = True
        METHODS[native][name or fn.__name__.rstrip("_")] = b
        return fn
    return dec


def builtin(name, lazy=False):
    def dec(fn):
        BUILTINS[name] = Builtin(name, fn, lazy)
        return fn
    return dec


EXC = """BaseException
Exception BaseException
KeyboardInterrupt BaseException
SystemExit BaseException
GeneratorExit BaseException
CancelledError BaseException
ArithmeticError Exception
ZeroDivisionError ArithmeticError
OverflowError ArithmeticError
AssertionError Exception
AttributeError Exception
BufferError Exception
EOFError Exception
ImportError Exception
ModuleNotFoundError ImportError
LookupError Exception
IndexError LookupError
KeyError LookupError
MemoryError Exception
NameError Exception
UnboundLocalError NameError
OSError Exception
ConnectionError OSError
ConnectionResetError ConnectionError
ConnectionRefusedError ConnectionError
ConnectionAbortedError ConnectionError
BrokenPipeError ConnectionError
FileNotFoundError OSError
InterruptedError OSError
TimeoutError OSError
PermissionError OSError
ReferenceError Exception
RuntimeError Exception
NotImplementedError RuntimeError
RecursionError RuntimeError
StopIteration Exception
StopAsyncIteration Exception
SyntaxError Exception
SystemError Exception
TypeError Exception
ValueError Exception
UnicodeError ValueError
UnicodeDecodeError UnicodeError
UnicodeEncodeError UnicodeError
Warning Exception
DeprecationWarning Warning
UserWarning Warning
RuntimeWarning Warning
struct.error Exception
InvalidOperation ArithmeticError
InvalidStateError Exception
IncompleteReadError EOFError"""


def _init_types():
    _cls("object")
    for n in ("int", "str", "float", "bytes", "bytearray", "tuple", "list", "dict", "set", "type", "NoneType",
              "function", "method", "range", "slice", "module", "property", "iterator", "Decimal", "complex",
              "Fraction", "memoryview", "_CData", "Enum", "ABC", "NamedTuple", "DatagramProtocol", "Protocol",
              "staticmethod", "classmethod", "super", "TypedDict",
              "Iterable", "Sequence", "Sized", "Collection", "Callable", "Mapping", "Iterator", "Hashable"):
        _cls(n)
    _cls("bool", "int")
    _cls("frozenset", "set")
    _cls("defaultdict", "dict")
    _cls("OrderedDict", "dict")
    _cls("Structure", "_CData")
    _cls("LittleEndianStructure", "Structure")
    _cls("BigEndianStructure", "Structure")
    _cls("Union", "_CData")
    _cls("LittleEndianUnion", "Union")
    _cls("BigEndianUnion", "Union")
    for n in C.SIMPLE:
        c = _cls(n, "_CData")
    for a, n in C.ALIASES.items():
        T[a] = T[n]
    _cls("IntEnum", "int", "Enum")
    _cls("StrEnum", "str", "Enum")
    _cls("Flag", "Enum")
    _cls("IntFlag", "int", "Flag")
    for ln in EXC.split("\n"):
        p = ln.split()
        _cls(p[0], *(p[1:] or ["object"]))
    T["IOError"] = T["EnvironmentError"] = T["OSError"]


_init_types()


def mkbytes(items):
    items = list(items)
    if all(type(x) is int for x in items):
        return bytes(items)
    return BytesV(items)


def as_bytes_items(it, items):
    out = []
    for x in items:
        if type(x) is VSet or type(x) is Unknown:
            x = it.imprecise("byte alternatives")
            out.append(x)
            continue
        if not it.is_intlike(x):
            it.throw("TypeError", "'%s' object cannot be interpreted as an integer" % it.typeof(x).name)
        x = it.intval(x)
        lo, hi = I.rng(x, it.st.facts)
        if lo < 0 or hi > 255:
            if hi < 0 or lo > 255:
                it.throw("ValueError", "bytes must be in range(0, 256)")
            bad = it.fork_on(it.order("Lt", x, 0), lambda: True, lambda: it.order("Gt", x, 255))
            it.fork_on(it.truth(bad), lambda: it.throw("ValueError", "bytes must be in range(0, 256)"), lambda: None)
        out.append(x)
    return out


# ------------------------------------------------------------------ operators
def union_args(it, v):
    if type(v) is tuple:
        return v
    return None


def unary(it, opn, v):
    if type(v) is Unknown:
        return v
    if it.is_intlike(v):
        x = it.intval(v)
        if opn == "USub":
            return I.neg(x) if type(x) is I.SInt else -x
        if opn == "UAdd":
            return x
        return I.invert(x) if type(x) is I.SInt else ~x
    if type(v) in (float, SFloat, SDec):
        if opn == "Invert":
            return it.throw("TypeError", "bad operand type for unary ~")
        return N.float_unary(it, opn, v)
    if type(v) is Ref:
        o = it.o(v)
        if o.cls is not None:
            m = it.class_attr(o.cls, {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[opn])
            if type(m) is Func:
                return it.call(Bound(m, v), [])
    return it.throw("TypeError", "bad operand type for unary operator")


def binop(it, opn, a, b):
    ta, tb = type(a), type(b)
    if ta is Unknown or tb is Unknown:
        return Unknown("operation on unknown")
    if it.is_intlike(a) and it.is_intlike(b):
        if ta in (bool, SBool) and tb in (bool, SBool) and opn in ("BitAnd", "BitOr", "BitXor"):
            if opn == "BitAnd":
                return it.fork_on(it.truth(a), lambda: it.truth(b), lambda: False)
            if opn == "BitOr":
                return it.fork_on(it.truth(a), lambda: True, lambda: it.truth(b))
            return it.fork_on(it.truth(a), lambda: it.neg_truth(it.truth(b)), lambda: it.truth(b))
        return N.int_binop(it, opn, it.intval(a), it.intval(b))
    fl = (float, SFloat, SDec)
    if (ta in fl or it.is_intlike(a)) and (tb in fl or it.is_intlike(b)):
        if SDec in (ta, tb) and (ta in (float, SFloat) or tb in (float, SFloat)):
            return it.throw("TypeError", "unsupported operand type(s): Decimal and float")
        return N.float_binop(it, opn, N.tofl(it, a), N.tofl(it, b))
    # user operators
    if ta is Ref or tb is Ref:
        l, r = BINNAMES[opn]
        for x, y, nm in ((a, b, l), (b, a, r)):
            if type(x) is Ref and it.o(x).cls is not None:
                m = it.class_attr(it.o(x).cls, nm)
                if type(m) is Func:
                    res = it.call(Bound(m, x), [y])
                    if res is not NotImplemented:
                        return res
    if opn == "Mod" and ta in (str, SStr):
        return N.percent(it, a, b)
    if opn == "Add":
        if ta in (str, SStr) and tb in (str, SStr):
            return mkstr((a, b))
        if ta in (bytes, BytesV):
            ib = it.seq_items(b)
            if tb in (bytes, BytesV) or (tb is Ref and it.o(b).x == "bytearray"):
                return mkbytes(it.seq_items(a) + ib)
        ka, kb = seqkind(it, a), seqkind(it, b)
        if ka and ka == kb:
            items = it.seq_items(a) + it.seq_items(b)
            if ka == "tuple":
                return tuple(items)
            if ka == "list":
                return it.new_list(items)
        if ka == "bytearray" and (kb == "bytearray" or tb in (bytes, BytesV)):
            r = it.new_list(it.seq_items(a) + it.seq_items(b))
            it.w(r).x = "bytearray"
            return r
    if opn == "Mult":
        for x, n in ((a, b), (b, a)):
            if it.is_intlike(n) and not it.is_intlike(x):
                k = seqkind(it, x)
                if k or type(x) in (str, SStr, bytes, BytesV):
                    def rep(q, x=x, k=k):
                        if type(q) is not int:
                            return it.imprecise("repetition count")
                        if type(x) is str:
                            return x * q
                        if type(x) is SStr:
                            return mkstr([x] * q)
                        items = it.seq_items(x) * q
                        if k == "tuple":
                            return tuple(items)
                        if k in ("list", "bytearray"):
                            r = it.new_list(items)
                            if k == "bytearray":
                                it.w(r).x = "bytearray"
                            return r
                        return mkbytes(items)
                    return it.over(it.split_int(it.intval(n)), rep)
    if ta is Ref and tb is Ref:
        oa, ob = it.o(a), it.o(b)
        if oa.kind == "set" and ob.kind == "set" or \
                (opn in ("Sub", "BitAnd", "BitOr") and {oa.kind, ob.kind} <= {"set", "dict"} and "set" in (oa.kind, ob.kind)):
            if opn == "BitOr":
                return set_from(it, [p[0] for p in oa.items] + [p[0] for p in ob.items])
            if opn in ("Sub", "BitAnd", "BitXor"):
                keys = [p[0] for p in oa.items]
                r = it.alloc(O("set", None, None, []))
                for k in keys:
                    inb = it.contains(b, k)
                    if opn == "BitAnd":
                        it.fork_on(it.truth(inb), lambda: set_add(it, r, k), lambda: None)
                    else:
                        it.fork_on(it.truth(inb), lambda: None, lambda: set_add(it, r, k))
                if opn == "BitXor":
                    for p in ob.items:
                        k = p[0]
                        it.fork_on(it.truth(it.contains(a, k)), lambda: None, lambda: set_add(it, r, k))
                return r
        if oa.kind == "dict" and ob.kind == "dict" and opn == "BitOr":
            r = it.new_dict(oa.items)
            for k, v in ob.items:
                it.dict_set(r, k, v)
            return r
    if opn == "BitOr" and (ta in (ClassV, tuple) or a is None) and (tb in (ClassV, tuple) or b is None):
        f = lambda x: list(x) if type(x) is tuple else [T["NoneType"] if x is None else x]
        return tuple(f(a) + f(b))
    if opn == "BitOr" and (Opaque in (ta, tb)):
        return Opaque("typing.Union", True)
    if Opaque in (ta, tb) or OpaqueM in (ta, tb):
        return Unknown("operation on %r" % (a if ta in (Opaque, OpaqueM) else b,))
    if it.model_gap(a) or it.model_gap(b):
        return it.imprecise("%s of %s and %s" % (opn, it.typeof(a).name, it.typeof(b).name))
    return it.throw("TypeError", "unsupported operand type(s) for %s: '%s' and '%s'" % (
        opn, it.typeof(a).name, it.typeof(b).name))


def seqkind(it, v):
    if type(v) is tuple:
        return "tuple"
    if type(v) is Ref:
        o = it.o(v)
        if o.kind == "list":
            return "bytearray" if o.x == "bytearray" else "list"
        if o.kind == "inst" and o.items is not None:
            return "tuple"
    return None


# ------------------------------------------------------------------ sets / dicts
def set_add(it, r, x):
    it.dict_set(r, x, None)


def set_from(it, items):
    r = it.alloc(O("set", None, None, []))
    for x in items:
        set_add(it, r, x)
    return r


def dict_pairs(it, v):
    if type(v) is Ref:
        o = it.o(v)
        if type(o) is O and o.kind == "dict":
            return [list(p) for p in o.items]
        if type(o) is O and o.cls is not None and it.find_user(o.cls, "keys"):
            ks = it.iterate(it.call(it.getattr(v, "keys"), []))
            return [[k, it.getitem(v, k)] for k in ks]
        out = []
        for p in it.iterate(v):
            q = it.seq_items(p)
            if q is None or len(q) != 2:
                it.throw("ValueError", "dictionary update sequence element")
            out.append(q)
        return out
    out = []
    for p in it.iterate(v):
        q = it.seq_items(p)
        if q is None or len(q) != 2:
            it.throw("ValueError", "dictionary update sequence element")
        out.append(q)
    return out


# ------------------------------------------------------------------ classes
NSCLASS = {}


def make_class(it, name, bases, ns, module, kws, site):
    flat = []
    for b in bases:
        if type(b) is not ClassV:
            return it.throw("TypeError", "bases must be types")
        flat.append(b)
    isnt = T["NamedTuple"] in flat
    if isnt:
        flat = [T["tuple"] if b is T["NamedTuple"] else b for b in flat]
    flat = [b for b in flat if b.native not in ("Iterable", "Sequence", "Sized", "Collection", "Callable",
                                                "Mapping", "Iterator", "Hashable", "ABC", "Protocol")] or [T["object"]]
    c = ClassV(name, flat, ns, module)
    try:
        c.set_mro()
    except TypeError:
        return it.throw("TypeError", "Cannot create a consistent method resolution order")
    c.site = site
    NSCLASS[ns] = c
    mc = kws.get("metaclass")
    if type(mc) is ClassV and not mc.native:
        it.imprecise("user metaclass")
    o = it.w(Ref(ns))
    ann = o.d.pop("__ann__", ())
    c.ann = ann
    if isnt:
        c.nt_fields = [n for n in ann]
        c.nt_defaults = {n: o.d.pop(n) for n in list(ann) if n in o.d}
    else:
        for b in c.mro[1:]:
            if b.nt_fields is not None:
                c.nt_fields, c.nt_defaults = b.nt_fields, b.nt_defaults
                break
    if T["Enum"] in c.mro:
        make_enum(it, c)
    if T["Structure"] in c.mro or T["Union"] in c.mro:
        f = it.o(Ref(ns)).d.get("_fields_")
        if f is not None:
            pack = it.o(Ref(ns)).d.get("_pack_")
            C.build(it, c, it.iterate(f), pack if type(pack) is int else None)
    for k, v in list(it.o(Ref(ns)).d.items()):
        if type(v) is Prop:
            v.name = v.name or k
        if type(v) is Ref:
            vo = it.o(v)
            if type(vo) is O and vo.kind == "inst" and vo.cls is not None:
                m = it.find_user(vo.cls, "__set_name__")
                if m is not None:
                    it.call(Bound(m, v), [c, k])
    for b in c.mro[1:]:
        if b.native:
            break
        m = it.o(Ref(b.ns)).d.get("__init_subclass__")
        if m is not None:
            f = m.f if type(m) is ClassM else m
            it.call(f, [c], {k: v for k, v in kws.items() if k != "metaclass"})
            break
    return c


class _Auto:
    pass


AUTO = _Auto()


def make_enum(it, c):
    d = it.w(Ref(c.ns)).d
    c.enum, c.enum_alias = {}, {}
    isint = T["int"] in c.mro
    last = 0
    flag = T["Flag"] in c.mro
    usernew = None
    for b in c.mro:
        if b.native:
            continue
        if "__new__" in it.o(Ref(b.ns)).d:
            usernew = it.o(Ref(b.ns)).d["__new__"]
    init = it.find_user(c, "__init__")
    for k, v in list(d.items()):
        if k.startswith("__") and k.endswith("__") or k in ("_ignore_", "_missing_", "_generate_next_value_"):
            continue
        if type(v) in (Func, Prop, StaticM, ClassM, CField, ClassV, Builtin):
            continue
        del d[k]
        args = None
        if v is AUTO:
            v = (1 << last.bit_length()) if flag and type(last) is int else last + 1
        if type(v) is tuple and any(x is AUTO for x in v):
            it.imprecise("auto() in tuple")
        if usernew is not None:
            it.imprecise("enum with __new__")
        raw = v
        if isint:
            if type(v) is tuple:
                v = call_int(it, list(v), {})
            elif not it.is_intlike(v):
                v = call_int(it, [v], {})
            v = it.intval(v)
        if type(v) is int:
            last = v
        for m in c.enum.values():
            if it.same(m.value, v):
                c.enum_alias[k] = m
                break
        else:
            m = EnumM(c, k, v)
            c.enum[k] = m
            if init is not None:
                m.attrs = it.alloc(O("inst", c, {}))
                it.imprecise("enum with __init__")
    return c


def enum_lookup(it, cls, val):
    if type(val) is Unknown:
        return val
    if type(val) in (EnumM, SEnum) and val.cls is cls:
        return val
    isint = it.enum_is_int(cls)
    ms = list(cls.enum.values())

    def missing():
        m = it.find_user(cls, "_missing_")
        if m is not None:
            f = m.f if type(m) is ClassM else m

            def chk(r):
                if r is None:
                    return it.throw("ValueError", mkstr((N.to_str(it, val, True), " is not a valid %s" % cls.name)))
                return r
            return it.over(it.call(f, [cls, val]), chk)
        if T["Flag"] in cls.mro:
            return it.imprecise("flag composition")
        return it.over(N.to_str(it, val, True),
                       lambda s: it.throw("ValueError", mkstr((s, " is not a valid %s" % cls.name))))
    if it.is_intlike(val):
        x = it.intval(val)
        if type(x) is int:
            for m in ms:
                if it.is_intlike(m) and it.intval(m) == x or (type(m.value) is int and m.value == x):
                    return m
            return missing()
        vals = {it.intval(m.value): m for m in ms if it.is_intlike(m.value)}
        lo, hi = I.rng(x, it.st.facts)
        if hi - lo < 4096:
            need = [k for k in range(lo, hi + 1)]
            if all(k in vals for k in need):
                return SEnum(cls, x)
        elif not any(lo <= k <= hi for k in vals):
            return missing()

        def go(i):
            if i == len(order):
                return missing()
            k = order[i]
            e = it.eq(x, k)
            return it.fork_on(e, lambda: vals[k], lambda: go(i + 1))
        order = [k for k in vals if lo <= k <= hi]
        return go(0)

    def go2(i):
        if i == len(ms):
            return missing()
        e = it.truth(it.eq(ms[i].value, val))
        return it.fork_on(e, lambda: ms[i], lambda: go2(i + 1))
    return go2(0)


def enum_by_name(it, cls, k):
    if type(k) is str:
        m = cls.enum.get(k) or (cls.enum_alias or {}).get(k)
        if m is None:
            return it.throw("KeyError", k)
        return m
    if type(k) is SStr and len(k.parts) == 1 and type(k.parts[0]) is Piece and k.parts[0].kind == "enumname":
        c2, v = k.parts[0].arg
        if c2 is cls:
            return SEnum(cls, v)
    return it.imprecise("enum member by unknown name")


def nt_bind(it, cls, args, kw):
    f = cls.nt_fields
    if len(args) > len(f):
        it.throw("TypeError", "%s.__new__() takes %d positional arguments but %d were given" % (cls.name, len(f) + 1, len(args) + 1))
    out = list(args) + [UNDEF] * (len(f) - len(args))
    for k, v in kw.items():
        if k not in f:
            it.throw("TypeError", "%s.__new__() got an unexpected keyword argument '%s'" % (cls.name, k))
        i = f.index(k)
        if out[i] is not UNDEF:
            it.throw("TypeError", "multiple values for argument '%s'" % k)
        out[i] = v
    for i, k in enumerate(f):
        if out[i] is UNDEF:
            if cls.nt_defaults and k in cls.nt_defaults:
                out[i] = cls.nt_defaults[k]
            else:
                it.throw("TypeError", "%s.__new__() missing required argument: '%s'" % (cls.name, k))
    return out


def class_extra(it, c, name):
    if name == "_fields" and c.nt_fields is not None:
        return tuple(c.nt_fields)
    if name == "_make" and c.nt_fields is not None:
        return Builtin("_make", lambda it, a, k: it.iter_over(a[0], lambda xs: it.instantiate(c, xs, {})))
    if name == "_field_defaults" and c.nt_fields is not None:
        return it.new_dict([[k, v] for k, v in (c.nt_defaults or {}).items()])
    if name == "_member_map_" and c.enum is not None:
        return it.new_dict([[k, v] for k, v in c.enum.items()])
    if name in ("_value2member_map_",) and c.enum is not None:
        return it.new_dict([[v.value, v] for k, v in c.enum.items()])
    if name == "_member_names_" and c.enum is not None:
        return it.new_list(list(c.enum))
    if name == "mro":
        return Builtin("mro", lambda it, a, k: it.new_list(c.mro))
    if name == "__call__":
        return Builtin("__call__", lambda it, a, k: it.instantiate(c, a, k))
    if name == "__subclasses__":
        return Builtin("__subclasses__", lambda it, a, k: it.new_list([x for x in NSCLASS.values() if c in x.bases]))
    if name in ("from_buffer_copy", "from_buffer") and (C.layout_of(c) or C.simple_of(c)):
        return Builtin(name, lambda it, a, k: C.from_buffer_copy(it, [c] + a, k))
    if name == "fromhex" and (c.native in ("bytes", "bytearray") or c is T["bytearray"]):
        return Builtin("fromhex", lambda it, a, k: bytes_fromhex(it, "bytearray" if c is T["bytearray"] else c.native, a[0]))
    if name == "from_bytes" and c.native in ("int", "bool"):
        return Builtin("from_bytes", lambda it, a, k: int_from_bytes(it, a, k))
    if name == "fromkeys" and c.native_base() == "dict":
        def fk(it, a, k):
            r = it.new_dict()

            def add(items):
                for x in items:
                    it.dict_set(r, x, a[1] if len(a) > 1 else None)
                return r
            return it.iter_over(a[0], add)
        return Builtin("fromkeys", fk)
    if name == "maketrans":
        return Builtin("maketrans", lambda it, a, k: Unknown("maketrans"))
    if c.native:
        return UNDEF
    return UNDEF


def super0(it, fr):
    f = fr.func
    env = fr.env
    cls = NSCLASS.get(f.cls) if f is not None else None
    if cls is None:
        # nested function: look outwards
        for g in reversed(it.frames):
            if g.func is not None and g.func.cls in NSCLASS:
                f, env, cls = g.func, g.env, NSCLASS[g.func.cls]
                break
        else:
            return it.throw("RuntimeError", "super(): no arguments")
    a = f.node.args
    first = (a.posonlyargs + a.args)[0].arg
    i = env
    while i is not None:
        d = it.st.get(i).d
        if first in d:
            return it.over(d[first], lambda x: Super(cls, x))
        i = it.st.get(i).x
    return it.throw("RuntimeError", "super(): no arguments")


def globals_(it, fr):
    return it.attr_dict(Ref(fr.gns))


# ------------------------------------------------------------------ opaque objects
def opaque_getattr(it, v, name):
    h = it.hooks.get(v.kind + "." + name)
    if h is not None and not callable(h):
        return h
    if name == "__name__":
        return v.kind.split(".")[-1]
    return OpaqueM(v, name)


def opaque_root(v):
    names = []
    while type(v) is OpaqueM:
        names.append(v.name)
        v = v.obj
    return v, list(reversed(names))


def opaque_item(it, v, k):
    root, names = opaque_root(v)
    if root.silent:
        return Opaque(root.kind + "[]", True)
    it.event("getitem", root, ".".join(names), (k,))
    return Opaque(root.kind + "[]")


def opaque_call(it, f, args, kw):
    root, names = opaque_root(f)
    key = ".".join([root.kind] + names)
    h = it.hooks.get(key)
    if h is None and names:
        h = it.hooks.get("*." + names[-1])
    if h is not None:
        return h(it, root, args, kw)
    if root.silent:
        return Opaque(key + "()", True)
    for a in list(args) + list(kw.values()):
        if type(a) is Unknown:
            it.imprecise("unknown value passed to %s" % key)
    it.event("call", root, ".".join(names), args, kw)
    return Opaque(key + "()")


def opaque_class(it, v):
    key = v.kind if type(v) is Opaque else repr(v)
    name = key.split(".")[-1]
    if name in T:
        return T[name]
    if name in ("Generic", "Protocol"):
        return T["object"]
    c = it.opaque_classes.get(key)
    if c is None:
        c = ClassV(name, [T["object"]], None, "opaque", "object")
        c.set_mro()
        it.opaque_classes[key] = c
    return c


def await_(it, v):
    if type(v) is Coro:
        return v.thunk()
    if type(v) is Ref:
        o = it.o(v)
        if o.cls is not None:
            m = it.find_user(o.cls, "__await__")
            if m is not None:
                r = it.call(Bound(m, v), [])
                it.iter_over(r, lambda xs: None)
                return None
        return it.throw("TypeError", "object %s can't be used in 'await' expression" % it.typeof(v).name)
    if type(v) in (Opaque, OpaqueM, Unknown):
        return v
    return it.throw("TypeError", "object %s can't be used in 'await' expression" % it.typeof(v).name)


def next_(it, args, kw):
    r = args[0]
    default = args[1] if len(args) > 1 else UNDEF

    def one(r):
        if type(r) is Builtin and r.name == "count":
            return it.imprecise("next of count")
        if type(r) is not Ref:
            if it.model_gap(r):
                return it.imprecise("next of %s" % it.typeof(r).name)
            return it.throw("TypeError", "not an iterator")
        o = it.o(r)
        if o.kind != "iter":
            m = it.class_attr(o.cls, "__next__") if o.cls else UNDEF
            if type(m) is Func:
                return it.call(Bound(m, r), [])
            return it.throw("TypeError", "'%s' object is not an iterator" % it.typeof(r).name)
        if (o.x or 0) < len(o.items):
            v = o.items[o.x or 0]
            it.w(r).x = (o.x or 0) + 1
            return v
        if default is not UNDEF:
            return default
        return it.throw("StopIteration")
    return it.over(r, one)


# ------------------------------------------------------------------ native construction
def call_int(it, args, kw):
    if not args:
        return 0
    v = args[0]
    base = args[1] if len(args) > 1 else kw.get("base")
    if type(v) in (str, SStr):
        return N.parse_int(it, v, 10 if base is None else base)
    if base is not None and type(v) in (bytes,):
        return N.parse_int(it, v.decode("latin1"), base)
    if base is not None:
        return it.throw("TypeError", "int() can't convert non-string with explicit base")
    if it.is_intlike(v):
        return it.intval(v)
    if type(v) in (float, SFloat, SDec):
        return N.to_int(it, v)
    if type(v) is Ref:
        o = it.o(v)
        for nm in ("__int__", "__index__", "__trunc__"):
            m = it.class_attr(o.cls, nm) if o.cls else UNDEF
            if type(m) is Func:
                return it.call(Bound(m, v), [])
    if type(v) is Unknown:
        return v
    return it.throw("TypeError", "int() argument must be a string, a bytes-like object or a real number, not '%s'" % it.typeof(v).name)


def construct(it, cls, args, kw):
    n = cls.native
    if n == "object":
        return it.alloc(O("inst", cls, {}))
    if n == "int":
        return call_int(it, args and [args[0]] + list(args[1:]) or [], kw) if not args or type(args[0]) is not VSet else \
            it.over_all(list(args), lambda p: call_int(it, p, kw))
    if n == "type" and len(args) == 1:
        return it.over(args[0], lambda x: it.typeof(x))
    if n in ("list", "tuple", "set", "frozenset", "dict", "defaultdict", "OrderedDict"):
        return it.over_all(list(args), lambda p: construct1(it, cls, n, p, kw)) if n in ("tuple", "list", "set", "frozenset") else \
            construct1(it, cls, n, args, kw)
    if T["BaseException"] in cls.mro:
        return it.alloc(O("inst", cls, {"args": tuple(args)}))
    vs = list(args)
    names = list(kw)
    return it.over_all(vs + [kw[k] for k in names],
                       lambda p: construct1(it, cls, n, p[:len(vs)], dict(zip(names, p[len(vs):]))))


def construct1(it, cls, n, args, kw):
    if n == "bool":
        return it.truth(args[0]) if args else False
    if n == "str":
        if not args:
            return ""
        if len(args) > 1 or "encoding" in kw:
            return bytes_decode(it, [args[0]], {})
        return N.to_str(it, args[0], False)
    if n == "float":
        return call_float(it, args)
    if n == "Decimal":
        return call_decimal(it, args)
    if n == "tuple":
        if not args:
            return ()
        return it.iter_over(args[0], lambda xs: tuple(xs))
    if n == "list":
        if not args:
            return it.new_list([])
        return it.iter_over(args[0], lambda xs: it.new_list(xs))
    if n in ("set", "frozenset"):
        if not args:
            return it.alloc(O("set", None, None, []))
        return it.iter_over(args[0], lambda xs: set_from(it, xs))
    if n in ("dict", "OrderedDict", "defaultdict"):
        r = it.new_dict()
        if n == "defaultdict":
            it.w(r).x = args[0] if args and args[0] is not None else "dd"
            args = args[1:]
        if args:
            it.over(args[0], lambda s: [it.dict_set(r, k, v) for k, v in dict_pairs(it, s)] and None)
        for k, v in kw.items():
            it.dict_set(r, k, v)
        return r
    if n in ("bytes", "bytearray"):
        return mk_bytes_obj(it, n, args, kw)
    if n == "memoryview":
        return args[0] if type(args[0]) in (bytes, BytesV) else mkbytes(it.seq_items(args[0]))
    if n == "range":
        a = [it.intval(x) if it.is_intlike(x) else it.throw("TypeError", "'%s' object cannot be interpreted as an integer" % it.typeof(x).name) for x in args]
        if len(a) == 1:
            a = [0, a[0], 1]
        elif len(a) == 2:
            a = a + [1]
        if type(a[2]) is not int:
            a[2] = it.split_int(a[2])
        if a[2] == 0:
            return it.throw("ValueError", "range() arg 3 must not be zero")
        return RangeV(*a)
    if n == "slice":
        return SliceV(*([None, args[0], None] if len(args) == 1 else list(args) + [None] * (3 - len(args))))
    if n == "type":
        if len(args) == 1:
            return it.typeof(args[0])
        ns = it.alloc(O("ns", None, {k: v for k, v in dict_pairs(it, args[2])}, None, None))
        return make_class(it, args[0], list(args[1]) or [T["object"]], ns.id, "?", {}, it.site())
    if n == "property":
        p = Prop(*(list(args) + [kw.get(k) for k in ("fget", "fset", "fdel")[len(args):]]))
        return p
    if n == "staticmethod":
        return StaticM(args[0])
    if n == "classmethod":
        return ClassM(args[0])
    if n == "super":
        if not args:
            return it.imprecise("indirect super()")
        return Super(args[0], args[1])
    if n in C.SIMPLE:
        b = C.new_buf(it, C.SIMPLE[n][0])
        r = it.alloc(O("ct", cls, {}, None, (b.id, 0)))
        if args:
            it.setattr(r, "value", args[0])
        return r
    if n == "NamedTuple":
        fields = []
        for p in it.iterate(args[1]):
            q = it.seq_items(p)
            fields.append(q[0])
        return make_nt(it, args[0], fields, {})
    if n == "Enum" or n == "IntEnum":
        ns = it.alloc(O("ns", None, {}, None, None))
        spec = args[1]
        d = it.w(ns).d
        if type(spec) is str:
            for i, k in enumerate(spec.replace(",", " ").split()):
                d[k] = i + 1
        elif type(spec) is Ref and it.o(spec).kind == "dict":
            for k, v in it.o(spec).items:
                d[k] = v
        else:
            for i, p in enumerate(it.iterate(spec)):
                q = it.seq_items(p)
                if q is not None:
                    d[q[0]] = q[1]
                else:
                    d[p] = i + 1
        return make_class(it, args[0], [cls], ns.id, "?", {}, it.site())
    if n in ("DatagramProtocol", "Protocol", "ABC", "NoneType"):
        return it.alloc(O("inst", cls, {}))
    if n == "Fraction" or n == "complex":
        return it.imprecise(n)
    return it.imprecise("construction of %s" % n)


def make_nt(it, name, fields, defaults):
    ns = it.alloc(O("ns", None, {}, None, None))
    c = ClassV(name, [T["tuple"]], ns.id, "?")
    c.set_mro()
    NSCLASS[ns.id] = c
    c.nt_fields, c.nt_defaults = list(fields), defaults
    c.site = it.site()
    return c


def call_float(it, args):
    if not args:
        return 0.0
    v = args[0]
    if type(v) in (float, SFloat):
        return v
    if type(v) is SDec:
        return N.lin(v.q, v.n, v.eps) if v.kind == "lin" else N.opfloat("float", v)
    if it.is_intlike(v):
        return N.tofl(it, v)
    if type(v) is str:
        try:
            return float(v)
        except ValueError:
            return it.throw("ValueError", "could not convert string to float")
    if type(v) is SStr:
        if len(v.parts) == 1 and type(v.parts[0]) is Piece and v.parts[0].kind == "float":
            return call_float(it, [v.parts[0].arg])
        return N.opfloat("float", v)
    return it.throw("TypeError", "float() argument must be a string or a real number, not '%s'" % it.typeof(v).name)


def call_decimal(it, args):
    from fractions import Fraction
    if not args:
        return N.lin(0, 1, 0.0, SDec)
    v = args[0]
    if type(v) is SDec:
        return v
    if type(v) is float:
        if v != v or abs(v) == float("inf"):
            return N.opfloat("Decimal", v, cls=SDec)
        return SDec("lin", Fraction(v), 1, 0.0)
    if type(v) is SFloat:
        if v.kind == "lin":
            return SDec("lin", v.q, v.n, v.eps)
        return N.opfloat("Decimal", v, cls=SDec)
    if it.is_intlike(v):
        return SDec("lin", Fraction(1), it.intval(v), 0.0)
    if type(v) is str:
        try:
            return SDec("lin", Fraction(v.strip()), 1, 0.0)
        except ValueError:
            return it.throw("InvalidOperation")
    if type(v) is SStr and len(v.parts) == 1 and type(v.parts[0]) is Piece and v.parts[0].kind in ("dec", "float"):
        return call_decimal(it, [v.parts[0].arg])
    return it.throw("TypeError", "conversion to Decimal is not supported")


def mk_bytes_obj(it, n, args, kw):
    def fin(items):
        items = as_bytes_items(it, items)
        if n == "bytes":
            return mkbytes(items)
        r = it.new_list(items)
        it.w(r).x = "bytearray"
        return r
    if not args:
        return fin([])
    v = args[0]
    if type(v) in (str, SStr):
        if len(args) < 2 and "encoding" not in kw:
            return it.throw("TypeError", "string argument without an encoding")
        v = str_encode(it, [v], {})
        return fin(it.seq_items(v)) if type(v) is not Unknown else v
    if it.is_intlike(v):
        return it.over(it.split_int(it.intval(v)), lambda k: fin([0] * k) if type(k) is int and k >= 0 else
                       (it.throw("ValueError", "negative count") if type(k) is int else k))
    if type(v) is Ref and it.o(v).kind == "ct":
        return it.over(C.ct_bytes(it, v), lambda b: fin(it.seq_items(b)))
    if type(v) is Ref and it.o(v).cls is not None:
        m = it.find_user(it.o(v).cls, "__bytes__")
        if m is not None:
            return it.over(it.call(Bound(m, v), []), lambda b: fin(it.seq_items(b)))
    return it.iter_over(v, fin)


def bytes_fromhex(it, kind, s):
    def fin(items):
        if kind == "bytes":
            return mkbytes(items)
        r = it.new_list(items)
        it.w(r).x = "bytearray"
        return r
    if type(s) is str:
        try:
            return fin(list(bytes.fromhex(s)))
        except ValueError as e:
            return it.throw("ValueError", str(e))
    if type(s) is not SStr:
        return it.throw("TypeError", "fromhex() argument must be str, not %s" % it.typeof(s).name)
    ch = s.chars()
    if ch is None:
        return it.imprecise("fromhex of unknown text")
    out = []
    i = 0
    while i < len(ch):
        if type(ch[i]) is str and ch[i].isspace():
            i += 1
            continue
        if i + 1 >= len(ch):
            return it.throw("ValueError", "non-hexadecimal number found in fromhex()")
        v = []
        for c in ch[i:i + 2]:
            if type(c) is str:
                if c not in "0123456789abcdefABCDEF":
                    return it.throw("ValueError", "non-hexadecimal number found in fromhex()")
                v.append(int(c, 16))
            else:
                v.append(c.nib)
        out.append(I.add(I.shl(v[0], 4), v[1]))
        i += 2
    return fin(out)


def byte_order(it, a, k, i, dflt="big"):
    o = a[i] if len(a) > i else k.get("byteorder", dflt)
    if o not in ("big", "little"):
        it.throw("ValueError", "byteorder must be either 'little' or 'big'")
    return o


def int_from_bytes(it, a, k):
    items = it.seq_items(a[0] if a else k["bytes"])
    if items is None:
        return it.iter_over(a[0], lambda xs: int_from_bytes(it, [mkbytes(as_bytes_items(it, xs))] + a[1:], k))
    order = byte_order(it, a, k, 1)
    if order == "big":
        items = items[::-1]
    bits = []
    for x in items:
        bits += I.bits_of(it.intval(x), 8, it.st.facts)
    signed = k.get("signed", False)
    return I.from_bits(bits, bool(signed)) if bits else 0


from . import m_types  # noqa  (registers methods and functions)
from .m_types import bytes_decode, str_encode  # noqa
from .m_std import stdlib_module, module_attr  # noqa


def setup(it):
    it.opaque_classes = {}
    r = it.alloc(O("list", None, None, []))
    it.evid = r.id
    it.freeze()
