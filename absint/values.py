"""Abstract values and the copy-on-write abstract heap."""
from . import ints as I


class Ref:
    __slots__ = ("id",)
    _pool = {}

    def __new__(cls, i):
        r = cls._pool.get(i)
        if r is None:
            r = object.__new__(cls)
            r.id = i
            cls._pool[i] = r
        return r

    def __repr__(self):
        return "#%d" % self.id


class _Undef:
    def __repr__(self):
        return "<unbound>"


UNDEF = _Undef()


class ClassV:
    def __init__(self, name, bases, ns, module="", native=None):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module
        self.native = native
        self.enum = None          # dict name->EnumM when an enum class
        self.enum_alias = None
        self.nt_fields = None     # namedtuple fields
        self.nt_defaults = None
        self.layout = None        # ctypes layout
        self.mro = None
        self.site = None
        self.dataclass = None

    def set_mro(self):
        seqs = [list(b.mro) for b in self.bases] + [list(self.bases)]
        out = [self]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                c = s[0]
                if not any(c in x[1:] for x in seqs):
                    break
            else:
                raise TypeError("mro conflict")
            out.append(c)
            for s in seqs:
                if s[0] is c:
                    del s[0]
        self.mro = out

    def native_base(self):
        for c in self.mro:
            if c.native and c.native != "object":
                return c.native
        return None

    def issub(self, other):
        return other in self.mro

    def __repr__(self):
        return "<class %s.%s>" % (self.module, self.name)


class Func:
    def __init__(self, node, name, env, gns, defaults, kwdefaults, module):
        self.node, self.name, self.env, self.gns = node, name, env, gns
        self.defaults, self.kwdefaults, self.module = defaults, kwdefaults, module
        self.cls = None
        self.qual = name
        self.info = None
        self.ns = None

    def __repr__(self):
        return "<function %s.%s>" % (self.module, self.qual)


class Bound:
    __slots__ = ("func", "self_")

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_

    def __eq__(self, o):
        return type(o) is Bound and o.func is self.func and o.self_ is self.self_

    def __hash__(self):
        return hash((id(self.func), id(self.self_)))

    def __repr__(self):
        return "<bound %r of %r>" % (self.func, self.self_)


class Builtin:
    def __init__(self, name, fn, lazy=False):
        self.name, self.fn = name, fn
        self.lazy = lazy          # gets VSet arguments unexpanded

    def __repr__(self):
        return "<builtin %s>" % self.name


class Prop:
    def __init__(self, fget=None, fset=None, fdel=None):
        self.fget, self.fset, self.fdel = fget, fset, fdel
        self.name = None
        self.cached = False


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class CField:
    """ctypes field descriptor"""

    def __init__(self, name, ftype, off, size, bitoff=None, bitsize=None, big=False):
        self.name, self.ftype, self.off, self.size = name, ftype, off, size
        self.bitoff, self.bitsize, self.big = bitoff, bitsize, big


class ModuleV:
    def __init__(self, name, ns, path=None):
        self.name, self.ns, self.path = name, ns, path

    def __repr__(self):
        return "<module %s>" % self.name


class EnumM:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value

    def __repr__(self):
        return "%s.%s" % (self.cls.name, self.name)


class SEnum:
    __slots__ = ("cls", "val")

    def __init__(self, cls, val):
        self.cls, self.val = cls, val

    def __eq__(self, o):
        return type(o) is SEnum and o.cls is self.cls and o.val is self.val

    def __hash__(self):
        return hash((id(self.cls), id(self.val)))

    def __repr__(self):
        return "%s(%r)" % (self.cls.name, self.val)


class SBool:
    """undecided truth value: ('eq'|'le', form) [form OP 0] or ('p', key)"""
    __slots__ = ("kind", "arg", "neg")

    def __init__(self, kind, arg, neg=False):
        self.kind, self.arg, self.neg = kind, arg, neg

    def inv(self):
        return SBool(self.kind, self.arg, not self.neg)

    def __eq__(self, o):
        return type(o) is SBool and (o.kind, o.arg, o.neg) == (self.kind, self.arg, self.neg)

    def __hash__(self):
        return hash((self.kind, self.arg, self.neg))

    def __repr__(self):
        s = {"eq": "==", "le": "<="}.get(self.kind)
        r = "%r %s 0" % (self.arg, s) if s else "%s" % (self.arg,)
        return "not(%s)" % r if self.neg else r


class BytesV:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __eq__(self, o):
        return type(o) is BytesV and o.items == self.items

    def __hash__(self):
        return hash(self.items)

    def __repr__(self):
        return "bytes(%s)" % ", ".join(map(str, self.items))


class Ch:
    """one hexadecimal digit character of a 4-bit value"""
    __slots__ = ("nib", "upper")

    def __init__(self, nib, upper=None):
        self.nib, self.upper = nib, upper   # upper None: case unknown

    def __eq__(self, o):
        return type(o) is Ch and o.nib is self.nib and o.upper == self.upper

    def __hash__(self):
        return hash((id(self.nib), self.upper))

    def __repr__(self):
        return "hex<%s>" % I.fmt(self.nib)


class Piece:
    """uninterpreted text (decimal rendering, input string, enum name ...)"""
    __slots__ = ("kind", "arg")

    def __init__(self, kind, arg):
        self.kind, self.arg = kind, arg

    def __eq__(self, o):
        return type(o) is Piece and o.kind == self.kind and o.arg == self.arg

    def __hash__(self):
        return hash((self.kind, str(self.arg)))

    def __repr__(self):
        return "%s<%s>" % (self.kind, self.arg)


class SStr:
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __eq__(self, o):
        return type(o) is SStr and o.parts == self.parts

    def __hash__(self):
        return hash(self.parts)

    def chars(self):
        """list of 1-char items or None when some piece has unknown length"""
        out = []
        for p in self.parts:
            if type(p) is str:
                out.extend(p)
            elif type(p) is Ch:
                out.append(p)
            else:
                return None
        return out

    def __repr__(self):
        return "str(%s)" % "".join(p if type(p) is str else repr(p) for p in self.parts)


def mkstr(parts):
    out = []
    for p in parts:
        if type(p) is SStr:
            for q in p.parts:
                if type(q) is str and out and type(out[-1]) is str:
                    out[-1] += q
                else:
                    out.append(q)
        elif type(p) is str:
            if p:
                if out and type(out[-1]) is str:
                    out[-1] += p
                else:
                    out.append(p)
        elif type(p) is Ch and type(p.nib) is int:
            s = "%x" % p.nib
            if p.upper:
                s = s.upper()
            if p.upper is None and not s.isdigit():
                out.append(p)
            elif out and type(out[-1]) is str:
                out[-1] += s
            else:
                out.append(s)
        else:
            out.append(p)
    if not out:
        return ""
    if len(out) == 1 and type(out[0]) is str:
        return out[0]
    return SStr(out)


class SFloat:
    """q*n +- eps (n an abstract integer) / ieee single of bits / opaque"""
    __slots__ = ("kind", "q", "n", "eps", "tag")

    def __init__(self, kind, q=None, n=None, eps=0.0, tag=None):
        self.kind, self.q, self.n, self.eps, self.tag = kind, q, n, eps, tag

    def key(self):
        return (self.kind, self.q, self.n, self.eps, self.tag)

    def __eq__(self, o):
        return type(o) is SFloat and o.key() == self.key()

    def __hash__(self):
        return hash((self.kind, self.q, id(self.n), self.tag))

    def __repr__(self):
        if self.kind == "lin":
            return "%s*(%s)+-%.2g" % (self.q, self.n, self.eps)
        return "%s<%s>" % (self.kind, self.n if self.n is not None else self.tag)


class SDec(SFloat):
    """decimal.Decimal with the same abstraction"""
    __slots__ = ()

    def __eq__(self, o):
        return type(o) is SDec and o.key() == self.key()

    __hash__ = SFloat.__hash__


class Super:
    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class RangeV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class SliceV:
    def __init__(self, a, b, s):
        self.a, self.b, self.s = a, b, s


class Coro:
    def __init__(self, thunk, what, info=None):
        self.thunk, self.what, self.info = thunk, what, info


class Unknown:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "<unknown: %s>" % self.why


class Opaque:
    """an object of the environment; calls on it are recorded as events"""

    def __init__(self, kind, silent=False):
        self.kind, self.silent = kind, silent

    def __repr__(self):
        return "<%s>" % self.kind


class OpaqueM:
    def __init__(self, obj, name):
        self.obj, self.name = obj, name

    def __repr__(self):
        return "<%s.%s>" % (self.obj.kind, self.name)


class VSet:
    """finite set of alternatives, each with the facts under which it holds"""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "{%s}" % " | ".join(repr(v) for v, _ in self.alts)


class O:
    """heap object"""
    __slots__ = ("kind", "cls", "d", "items", "x", "site", "own")

    def __init__(self, kind, cls=None, d=None, items=None, x=None, site=None):
        self.kind, self.cls, self.d, self.items, self.x, self.site = kind, cls, d, items, x, site
        self.own = None

    def clone(self):
        o = O(self.kind, self.cls,
              dict(self.d) if self.d is not None else None,
              list(self.items) if type(self.items) is list else self.items,
              self.x, self.site)
        return o

    def __repr__(self):
        return "<%s %s %s %s>" % (self.kind, self.cls.name if self.cls else "", self.d, self.items)


class AltsO:
    """join of structurally different versions of one heap object"""
    __slots__ = ("alts", "own")

    def __init__(self, alts):
        self.alts = alts
        self.own = None

    def clone(self):
        return AltsO(list(self.alts))


class Log:
    """the objects written by a state since it was forked off"""
    __slots__ = ("up", "ids", "depth")

    def __init__(self, up):
        self.up = up
        self.ids = set()
        self.depth = up.depth + 1 if up else 0


def written(a, b, out):
    """the objects written by either of two states since they parted; False if they have no common origin"""
    while a is not b:
        if a is None or b is None:
            return False
        if a.depth >= b.depth:
            out |= a.ids
            a = a.up
        else:
            out |= b.ids
            b = b.up
    return True


class State:
    __slots__ = ("base", "heap", "facts", "tok", "imp", "log")

    def __init__(self, base):
        self.base = base
        self.heap = {}
        self.log = Log(None)
        self.facts = I.Facts()
        self.tok = object()
        self.imp = ()

    def fork(self):
        s = State(self.base)
        s.heap = dict(self.heap)
        s.facts = self.facts.copy()
        s.imp = self.imp
        self.tok = object()
        up = self.log
        if not up.ids and up.up is not None:
            up = up.up          # nothing was written here since
        else:
            self.log = Log(up)
        s.log = Log(up)
        return s

    def get(self, i):
        o = self.heap.get(i)
        if o is None:
            o = self.base[i]
        return o

    def mut(self, i):
        o = self.heap.get(i)
        if o is None:
            o = self.base[i]
        if o.own is not self.tok:
            o = o.clone()
            o.own = self.tok
            self.heap[i] = o
            self.log.ids.add(i)
        return o

    def put(self, i, o):
        o.own = self.tok
        self.heap[i] = o
        self.log.ids.add(i)

    def assume(self, sb, truth):
        t = truth != sb.neg
        if sb.kind in ("eq", "le"):
            return self.facts.assume(sb.kind, sb.arg, t)
        return self.facts.set_pred(sb.arg, t)

    def decide(self, sb):
        if sb.kind in ("eq", "le"):
            r = self.facts.cmp(sb.kind, sb.arg)
        else:
            r = self.facts.preds.get(sb.arg)
        if r is None:
            return None
        return r != sb.neg


class Dead(Exception):
    """no normal continuation from here"""


class Imprecise(Exception):
    pass
