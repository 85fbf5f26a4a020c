"""Abstract interpreter over Python syntax trees.

Flow-sensitive and interprocedural: undecided branches are analysed on both
sides and the abstract states are joined where control flow meets again.
Nothing of the analysed program is imported or executed.
"""
import ast
import asyncio
import builtins
import collections
import ctypes
import decimal
import enum
import fractions
import itertools
import os
import sys

from . import ints as I
from .values import *  # noqa

sys.setrecursionlimit(60000)


class Frame:
    __slots__ = ("env", "gns", "func", "returns", "loops", "node", "module", "path",
                 "isclass", "yields", "name", "exc")

    def __init__(self, env, gns, func, module, path, name):
        self.env, self.gns, self.func = env, gns, func
        self.returns, self.loops = [], []
        self.node = None
        self.module, self.path, self.name = module, path, name
        self.isclass = False
        self.yields = None
        self.exc = None


class Loop:
    __slots__ = ("breaks", "continues")

    def __init__(self):
        self.breaks, self.continues = [], []


class FInfo:
    __slots__ = ("locals", "globals", "nonlocals", "isgen")


def _targets(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            _targets(e, out)
    elif isinstance(t, ast.Starred):
        _targets(t.value, out)


def finfo(node):
    fi = FInfo()
    fi.locals, fi.globals, fi.nonlocals, fi.isgen = set(), set(), set(), False
    a = node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        fi.locals.add(x.arg)
    if a.vararg:
        fi.locals.add(a.vararg.arg)
    if a.kwarg:
        fi.locals.add(a.kwarg.arg)

    def walk(n, comp=False):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            fi.locals.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for m in ast.walk(n):
                if isinstance(m, ast.NamedExpr):
                    fi.locals.add(m.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            fi.isgen = True
        if isinstance(n, ast.Global):
            fi.globals.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            fi.nonlocals.update(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            fi.locals.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            fi.locals.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                fi.locals.add((al.asname or al.name).split(".")[0])
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            fi.locals.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            fi.locals.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    fi.locals -= fi.globals
    fi.locals -= fi.nonlocals
    return fi


DUPS = 3
MERGEALTS = 8
MAXALTS = 80
_NID = itertools.count(1)      # object ids are unique across interpreters
MAXLOOP = 1200


def _realfn():
    pass


class _RealS(ctypes.Structure):
    pass


class _Hashed:
    def __init__(self, h, x):
        self.h, self.x = h, x

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o


# native classes of the model and the real types they stand for
REAL = {n: getattr(builtins, n) for n in (
    "int", "bool", "str", "float", "bytes", "bytearray", "tuple", "list", "dict", "set", "frozenset", "type", "range",
    "slice", "property", "complex", "memoryview")}
REAL.update(NoneType=type(None), Decimal=decimal.Decimal, Fraction=fractions.Fraction, defaultdict=collections.defaultdict,
            Enum=enum.IntFlag, IntEnum=enum.IntEnum, IntFlag=enum.IntFlag, Flag=enum.Flag, StrEnum=enum.StrEnum)
REAL["DatagramProtocol"] = type("Protocols", (asyncio.Protocol, asyncio.DatagramProtocol), {})
REAL.update({n: v for n, v in vars(builtins).items() if isinstance(v, type) and issubclass(v, BaseException)})


class Interp:
    def __init__(self, root):
        self.root = root
        self.base = {}
        self.st = State(self.base)
        self.modules = {}
        self.raises = []
        self.frames = []
        self.depth = 0
        self.steps = 0
        self.finfos = {}
        self.analysed = set()       # functions analysed
        self.calls = 0
        self.branches = 0
        self.joins = 0
        self.hooks = {}
        self.dispatch = {}
        self.loaded_paths = []
        self.extra_main = None
        self.notes = {}
        self.reset_context()
        from . import models
        self.M = models
        models.setup(self)

    def reset_context(self):
        """forget where-was-it-written bookkeeping (reports only)"""
        self.wsites = {}
        self.adict, self.aowner = {}, {}     # attribute dictionaries: of an owner, owners of
        self.plog = {}
        self.recent = collections.deque(maxlen=400)

    def log_pred(self, sb):
        """remember a condition followed both ways (candidates for case splits)"""
        if sb.neg:
            sb = sb.inv()
        if sb not in self.plog and len(self.plog) < 4000:
            self.plog[sb] = self.site()

    def wrote(self, i):
        s = self.site()
        if s is not None and not s[0].startswith("__"):
            l = self.wsites.setdefault(i, [])
            if s not in l and len(l) < 12:
                l.append(s)

    # ------------------------------------------------------------- heap
    def alloc(self, o):
        i = next(_NID)
        if o.site is None:
            o.site = self.site()
        o.own = self.st.tok
        self.st.heap[i] = o
        self.st.log.ids.add(i)
        return Ref(i)

    def site(self):
        for f in reversed(self.frames):
            if f.node is not None:
                return (f.path, f.name, getattr(f.node, "lineno", 0))
        return None

    def stack(self):
        return tuple((f.path, f.name, getattr(f.node, "lineno", 0)) for f in self.frames)

    def o(self, ref):
        return self.st.get(ref.id)

    def w(self, ref):
        return self.st.mut(ref.id)

    def freeze(self):
        """make the current heap the shared base for later contexts"""
        self.base.update(self.st.heap)
        self.st = State(self.base)

    def fresh(self):
        self.st = State(self.base)
        self.raises = []
        self.frames = []
        return self.st

    def imprecise(self, why):
        s = self.site()
        w = "%s at %s" % (why, s)
        if w not in self.st.imp:
            self.st.imp += (w,)
        return Unknown(why)

    # ------------------------------------------------------------- join
    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if type(a) is tuple:
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if type(a) in (int, str, bytes, bool, Bound, SBool, SStr, SFloat, SDec, SEnum, BytesV, Ch):
            return a == b
        if type(a) is float:
            return repr(a) == repr(b)
        return False

    def join_vals(self, lst):
        out = []
        for v, g in lst:
            alts = [(x, g | h) for x, h in v.alts] if type(v) is VSet else [(v, g)]
            for x, h in alts:
                dup = 0
                for k, (y, h2) in enumerate(out):
                    if self.same(x, y):
                        m = h & h2
                        dup += 1
                        if len(m) in (len(h), len(h2)) or dup > DUPS:
                            out[k] = (y, m)
                            break
                else:
                    out.append((x, h))
        if len(out) > 1 and DUPS and all(self.same(out[0][0], y) for y, _ in out[1:]):
            return out[0][0]
        if len(out) == 1:
            return out[0][0]
        if len(out) > MAXALTS:
            return Unknown("too many alternatives")
        return VSet(out)

    def join_obj(self, lst):
        flat = []
        for o, g in lst:
            if type(o) is AltsO:
                flat.extend((x, g | h) for x, h in o.alts)
            else:
                flat.append((o, g))
        lst = []
        for o, g in flat:
            for k, (y, h) in enumerate(lst):
                if y is o:
                    lst[k] = (y, g & h)
                    break
            else:
                lst.append((o, g))
        if len(lst) == 1:
            return lst[0][0]
        o0 = lst[0][0]
        kind = o0.kind
        simple = all(o.kind == kind and o.cls is o0.cls for o, _ in lst)
        if simple:
            n = o0.clone()
            if o0.d is not None:
                keys = []
                for o, _ in lst:
                    for k in o.d:
                        if k not in n.d or k not in keys:
                            if k not in keys:
                                keys.append(k)
                nd = {}
                for k in keys:
                    nd[k] = self.join_vals([(o.d.get(k, UNDEF), g) for o, g in lst])
                n.d = nd
            if kind in ("ns", "inst", "cell"):
                if all(o.items == o0.items and o.x == o0.x for o, _ in lst):
                    return n
            elif kind in ("list", "iter"):
                if all(len(o.items) == len(o0.items) and o.x == o0.x for o, _ in lst):
                    n.items = [self.join_vals([(o.items[i], g) for o, g in lst])
                               for i in range(len(o0.items))]
                    return n
            elif kind in ("dict", "set"):
                if all(len(o.items) == len(o0.items) and
                       all(self.same(p[0], q[0]) for p, q in zip(o.items, o0.items))
                       for o, _ in lst):
                    n.items = [[p[0], self.join_vals([(o.items[i][1], g) for o, g in lst])]
                               for i, p in enumerate(o0.items)]
                    return n
            elif kind == "buf":
                if all(o.items == o0.items for o, _ in lst):
                    return o0
        if len(lst) > MERGEALTS and simple and kind in ("list", "iter"):
            # many alternatives of few lengths: one per length
            by = {}
            for o, g in lst:
                by.setdefault((len(o.items), repr(o.x)), []).append((o, g))
            if len(by) < len(lst):
                lst = [(self.join_obj(x), frozenset.intersection(*[frozenset(g) for _, g in x])) for x in by.values()]
                if len(lst) == 1:
                    return lst[0][0]
        if len(lst) > MAXALTS:
            self.imprecise("too many heap alternatives")
            return lst[0][0]
        return AltsO(lst)

    def join(self, base, outs):
        if len(outs) == 1:
            v, self.st = outs[0]
            return v
        self.joins += 1
        sts = [s for _, s in outs]
        res = State(base.base)
        res.facts = I.join_facts(base.facts, [s.facts for s in sts])
        n = len(base.facts.log)
        guards = [frozenset(s.facts.log[n:]) for s in sts]
        common = frozenset.intersection(*guards)
        guards = [g - common for g in guards]
        self.st = res
        ids = set()
        if all([written(s.log, base.log, ids) for s in sts]):
            # what none of them has written is as it was
            res.heap = dict(base.heap)
            up = base.log
            base.log = Log(up)
            res.log = Log(up)
            res.log.ids |= ids
        else:
            for s in sts:
                ids.update(s.heap)
        bget = base.base.get
        for i in ids:
            objs = []
            first = None
            allsame = True
            for s, g in zip(sts, guards):
                o = s.heap.get(i)
                if o is None:
                    o = bget(i)
                if o is None:
                    continue
                if first is None:
                    first = o
                elif o is not first:
                    allsame = False
                objs.append((o, g))
            if allsame:
                res.heap[i] = first
            else:
                res.heap[i] = self.join_obj(objs)
        imp = ()
        for s in sts:
            for x in s.imp:
                if x not in imp:
                    imp += (x,)
        res.imp = imp
        self.st = res
        return self.join_vals([(v, g) for (v, _), g in zip(outs, guards)])

    # ------------------------------------------------------------- splits
    def over(self, v, fn):
        """apply fn to every alternative of v, joining the results"""
        if type(v) is VSet:
            base = self.st
            outs = []
            for x, g in v.alts:
                st = base.fork()
                if not st.facts.apply(g):
                    continue
                self.st = st
                try:
                    r = self.over(x, fn)
                    outs.append((r, self.st))
                except Dead:
                    pass
            if not outs:
                raise Dead()
            return self.join(base, outs)
        if type(v) is Ref:
            o = self.st.get(v.id)
            if type(o) is AltsO:
                base = self.st
                outs = []
                for x, g in o.alts:
                    st = base.fork()
                    if not st.facts.apply(g):
                        continue
                    st.heap[v.id] = x
                    st.log.ids.add(v.id)
                    self.st = st
                    try:
                        r = fn(v)
                        outs.append((r, self.st))
                    except Dead:
                        pass
                if not outs:
                    raise Dead()
                return self.join(base, outs)
        return fn(v)

    def over_all(self, vs, fn):
        """vs: list of values; fn(list) with every VSet expanded"""
        for k, v in enumerate(vs):
            if type(v) is VSet or (type(v) is Ref and type(self.st.get(v.id)) is AltsO):
                def one(x, k=k):
                    return self.over_rest(vs[:k] + [x], vs[k + 1:], fn)
                return self.over(v, one)
        return fn(vs)

    def over_rest(self, done, rest, fn):
        for k, v in enumerate(rest):
            if type(v) is VSet or (type(v) is Ref and type(self.st.get(v.id)) is AltsO):
                def one(x, k=k):
                    return self.over_rest(done + rest[:k] + [x], rest[k + 1:], fn)
                return self.over(v, one)
        return fn(done + rest)

    def fork_on(self, tv, fthen, felse):
        """run fthen / felse according to the abstract truth value tv"""
        if tv is True:
            return fthen()
        if tv is False:
            return felse()
        if type(tv) is SBool:
            d = self.st.decide(tv)
            if d is not None:
                return fthen() if d else felse()
            self.branches += 1
            self.log_pred(tv)
            base = self.st
            outs = []
            for val, fn in ((True, fthen), (False, felse)):
                st = base.fork()
                if not st.assume(tv, val):
                    continue
                self.st = st
                try:
                    r = fn()
                    outs.append((r, self.st))
                except Dead:
                    pass
            if not outs:
                raise Dead()
            return self.join(base, outs)
        if type(tv) is VSet:
            return self.over(tv, lambda x: self.fork_on(self.truth(x), fthen, felse))
        if type(tv) is Unknown:
            base = self.st
            outs = []
            for fn in (fthen, felse):
                st = base.fork()
                self.st = st
                self.imprecise("undecidable condition (%s)" % tv.why)
                try:
                    r = fn()
                    outs.append((r, self.st))
                except Dead:
                    pass
            if not outs:
                raise Dead()
            return self.join(base, outs)
        return self.fork_on(self.truth(tv), fthen, felse)

    def split_int(self, v, cap=None):
        """abstract integer -> VSet of the constants it can be (<= 600)"""
        if type(v) is not I.SInt:
            return v
        f = self.st.facts
        v = I.subst(v, f)
        if type(v) is not I.SInt:
            return v
        lo, hi = I.rng(v, f)
        if lo == hi:
            return lo
        top = hi
        if cap is not None and hi > cap:
            top = max(cap, lo)
        if top - lo > 600:
            return self.imprecise("integer with %d possible values used as a size" % (hi - lo + 1))
        key, s, g = I.normkey(v.t)
        m = s * g
        alts = []
        for k in range(lo, top + 1):
            if cap is not None and k == top and hi > top:
                # k stands for every value >= cap
                st = f.copy()
                if st.assume("le", I.sub(top, v), True):
                    alts.append((k, frozenset(st.log[len(f.log):])))
                continue
            if (k - v.c) % m if m > 0 else (v.c - k) % -m:
                continue
            kv = (k - v.c) // m
            st = f.copy()
            if st.set_rng(key, kv, kv):
                alts.append((k, frozenset(st.log[len(f.log):])))
        if len(alts) == 1:
            return alts[0][0]
        for k, _ in alts:
            self.log_pred(SBool("eq", I.sub(v, k)))
        return VSet(alts)

    # ------------------------------------------------------------- truth / compare
    def truth(self, v):
        t = type(v)
        if v is None:
            return False
        if t is bool:
            return v
        if t is int or t is float or t is str or t is bytes or t is tuple:
            return bool(v)
        if t is SBool:
            d = self.st.decide(v)
            return v if d is None else d
        if t is I.SInt:
            return self.eqz(v, True)
        if t is EnumM:
            if self.is_intlike(v):
                return self.truth(self.intval(v))
            return True
        if t is SEnum:
            if self.enum_is_int(v.cls):
                return self.truth(v.val)
            return True
        if t is VSet:
            return v
        if t is Unknown:
            return v
        if t is SStr:
            if any(type(p) is str or type(p) is Ch for p in v.parts):
                return True
            return SBool("p", ("nonempty", v))
        if t is BytesV:
            return len(v.items) > 0
        if t is RangeV:
            return len(self.range_list(v)) > 0
        if t is SFloat or t is SDec:
            if v.kind == "lin" and v.eps == 0:
                return self.eqz(v.n, True)
            return Unknown("float truth")
        if t is Ref:
            def one(r):
                o = self.o(r)
                if o.kind in ("list", "dict", "set"):
                    f = self.find_user(o.cls, "__bool__") or self.find_user(o.cls, "__len__")
                    if f is None:
                        return len(o.items) > 0
                if o.cls is not None:
                    for nm in ("__bool__", "__len__"):
                        m = self.class_attr(o.cls, nm)
                        if m is not UNDEF and type(m) is Func:
                            return self.truth(self.call(Bound(m, r), []))
                if o.kind == "inst" and o.items is not None:
                    return len(o.items) > 0
                return True
            return self.over(v, one)
        return True

    def eqz(self, form, neg=False):
        d = self.st.facts.cmp("eq", form)
        if d is not None:
            return d != neg
        form = I.subst(form, self.st.facts)
        if type(form) is I.SInt:
            form = I.canon_eq(form)
        return SBool("eq", form, neg)

    def lez(self, form):
        d = self.st.facts.cmp("le", form)
        if d is not None:
            return d
        return SBool("le", I.subst(form, self.st.facts))

    def neg_truth(self, tv):
        if type(tv) is bool:
            return not tv
        if type(tv) is SBool:
            return tv.inv()
        if type(tv) is Unknown:
            return tv
        if type(tv) is VSet:
            return self.over(tv, lambda x: self.neg_truth(self.truth(x)))
        return self.neg_truth(self.truth(tv))

    def enum_is_int(self, cls):
        return self.M.T["int"] in cls.mro

    def is_intlike(self, v):
        t = type(v)
        return t is int or t is bool or t is I.SInt or t is SBool or \
            (t in (EnumM, SEnum) and self.enum_is_int(v.cls))

    def intval(self, v):
        """int-like -> int/SInt"""
        t = type(v)
        if t is int or t is I.SInt:
            return v
        if t is bool:
            return int(v)
        if t is EnumM:
            return self.intval(v.value)
        if t is SEnum:
            return v.val
        if t is SBool:
            d = self.st.decide(v)
            if d is not None:
                return int(d)
            if v.kind == "eq":
                f = v.arg
                if len(f.t) == 1:       # a single bit compared with a constant
                    (b, k), = f.t
                    if f.c in (0, -k):
                        isone = f.c == -k
                        x = I.bit(b)
                        return x if isone != v.neg else I.sub(1, x)
            b = I.op("bool", (v.kind, v.arg), 0, 1)
            return I.sub(1, b) if v.neg else b
        return None

    def eq(self, a, b):
        """abstract a == b -> bool/SBool/VSet/Unknown"""
        if type(a) is VSet:
            return self.over(a, lambda x: self.eq(x, b))
        if type(b) is VSet:
            return self.over(b, lambda x: self.eq(a, x))
        ta, tb = type(a), type(b)
        if ta is Unknown or tb is Unknown:
            return Unknown("comparison with unknown")
        if ta is SBool and tb in (SBool, bool):
            if a == b:
                return True
            return self.fork_on(a, lambda: self.truth(b), lambda: self.neg_truth(self.truth(b)))
        if tb is SBool and ta is bool:
            return self.eq(b, a)
        if self.is_intlike(a) and self.is_intlike(b):
            x, y = self.intval(a), self.intval(b)
            if type(x) is int and type(y) is int:
                return x == y
            if x is None or y is None:
                return Unknown("int")
            return self.eqz(I.sub(x, y))
        if ta in (SFloat, SDec, float) or tb in (SFloat, SDec, float):
            return self.M.float_cmp(self, "eq", a, b)
        if ta is tuple and tb is tuple:
            if len(a) != len(b):
                return False
            return self.all_eq(list(zip(a, b)))
        if ta in (EnumM, SEnum) and tb in (EnumM, SEnum):
            if a.cls is not b.cls:
                return False
            return self.eq(a.value if ta is EnumM else a.val, b.value if tb is EnumM else b.val)
        if ta in (str, SStr) and tb in (str, SStr):
            if a == b and ta is tb:
                return True
            if ta is str and tb is str:
                return False
            return self.str_eq(a, b)
        if ta in (bytes, BytesV) and tb in (bytes, BytesV):
            x = tuple(a) if ta is bytes else a.items
            y = tuple(b) if tb is bytes else b.items
            if len(x) != len(y):
                return False
            return self.all_eq(list(zip(x, y)))
        if ta is Ref or tb is Ref:
            return self.over_all([a, b], lambda p: self.eq_ref(p[0], p[1]))
        if ta is RangeV and tb is RangeV:
            return self.range_list(a) == self.range_list(b)
        if ta is Bound and tb is Bound:
            return a == b
        if a is b:
            return True
        if ta in (Opaque, OpaqueM) or tb in (Opaque, OpaqueM):
            return False
        return False

    def str_known(self, s):
        """the text with the pieces written out whose values are known"""
        f = self.st.facts
        if type(s) is not SStr or not f.bits:
            return s
        out = []
        for p in s.parts:
            if type(p) is Ch:
                v = I.reduce_ops(p.nib, f)
                if type(v) is int and (v < 10 or p.upper is not None):
                    p = "%X" % v if p.upper else "%x" % v
            elif type(p) is Piece and p.kind == "dec":
                v = I.reduce_ops(p.arg, f)
                if type(v) is int:
                    p = str(v)
            out.append(p)
        return mkstr(tuple(out))

    def str_eq(self, a, b):
        a, b = self.str_known(a), self.str_known(b)
        if type(a) is str and type(b) is str:
            return a == b
        if type(a) is SStr and a == b:
            return True
        ca = list(a) if type(a) is str else a.chars()
        cb = list(b) if type(b) is str else b.chars()
        if ca is not None and cb is not None:
            if len(ca) != len(cb):
                return False
            prs, small, vague = [], [], False
            for x, y in zip(ca, cb):
                if type(x) is str and type(y) is str:
                    if x != y:
                        return False
                elif type(x) is Ch and type(y) is Ch:
                    prs.append((x.nib, y.nib))
                    if x.upper is None or y.upper is None:
                        vague = vague or x.nib is not y.nib
                    elif x.upper != y.upper:
                        small.append(x.nib)
                else:
                    if type(y) is Ch:
                        x, y = y, x
                    if y not in "0123456789abcdefABCDEF":
                        return False
                    if y.isalpha() and x.upper is None:
                        vague = True
                    elif y.isalpha() and x.upper != y.isupper():
                        return False
                    prs.append((x.nib, int(y, 16)))

            def rest():
                # letters of different case are different
                def digits(l):
                    if not l:
                        if vague:
                            return SBool("p", ("streq",) + tuple(sorted((str(a), str(b)))))
                        return True
                    t = self.lez(I.sub(l[0], 9)) if type(l[0]) is I.SInt else l[0] <= 9
                    return self.fork_on(t, lambda: digits(l[1:]), lambda: False)
                return digits(small)
            if not small and not vague:
                return self.all_eq(prs)
            return self.fork_on(self.all_eq(prs), rest, lambda: False)
        prs = self.dec_pairs(a, b)
        if prs is not None:
            return self.all_eq(prs) if prs is not False else False
        return SBool("p", ("streq",) + tuple(sorted((str(a), str(b)))))

    def dec_pairs(self, a, b):
        """texts of decimal and hexadecimal renderings among other text, walked side by side: the numbers
        that have to be equal for the texts to be (None: they cannot be aligned; False: never equal)"""
        def tokens(s):
            out = []
            for p in (s,) if type(s) is str else s.parts:
                out.extend(p if type(p) is str else (p,))
            return out

        def ends(l, i):
            return i == len(l) or type(l[i]) is str and not l[i].isdecimal()
        a, b = tokens(a), tokens(b)
        i = j = 0
        prs = []
        while i < len(a) and j < len(b):
            x, y = a[i], b[j]
            if type(y) is Piece and type(x) is not Piece or type(y) is Ch and type(x) is str:
                a, b, i, j, x, y = b, a, j, i, y, x
            if type(x) is str:
                if x != y:
                    return False
            elif type(x) is Ch:
                if type(y) is str:
                    if y not in "0123456789abcdefABCDEF":
                        return False
                    if y.isalpha() and (x.upper is None or x.upper != y.isupper()):
                        return None if x.upper is None else False
                    prs.append((x.nib, int(y, 16)))
                elif x.upper is None or x.upper != y.upper:
                    return None
                else:
                    prs.append((x.nib, y.nib))
            elif type(y) is Piece and x == y:
                pass
            elif x.kind != "dec" or not ends(a, i + 1):
                return None
            elif type(y) is Piece:
                if y.kind != "dec" or not ends(b, j + 1):
                    return None
                prs.append((x.arg, y.arg))
            elif type(y) is str:
                k = j + 1 if y == "-" else j
                while k < len(b) and type(b[k]) is str and b[k].isdecimal():
                    k += 1
                if k < len(b) and type(b[k]) is not str:
                    return None
                n = "".join(b[j:k])
                if n.lstrip("-") == "" or str(int(n)) != n:
                    return False
                prs.append((x.arg, int(n)))
                j = k - 1
            else:
                return None
            i += 1
            j += 1
        rest = a[i:] + b[j:]
        if rest:
            return False if any(type(t) is not Piece or t.kind == "dec" for t in rest) else None
        return prs

    def all_eq(self, prs):
        r = True
        if not prs:
            return True
        t = self.eq(*prs[0])
        rest = prs[1:]
        if t is False:
            return False
        if t is True:
            return self.all_eq(rest)
        # undecided: any definite mismatch later decides
        for x, y in rest:
            if self.is_intlike(x) and self.is_intlike(y) and self.eq(x, y) is False:
                return False
        if not rest:
            return t
        return self.fork_on(t, lambda: self.all_eq(rest), lambda: False)

    def eq_ref(self, a, b):
        for p, q in ((a, b), (b, a)):
            if type(p) is Ref:
                o = self.o(p)
                if o.cls is not None:
                    m = self.class_attr(o.cls, "__eq__")
                    if type(m) is Func:
                        r = self.call(Bound(m, p), [q])
                        return self.over(r, lambda x: self.eq_default(a, b) if x is NotImplemented else self.truth(x))
        return self.eq_default(a, b)

    def eq_default(self, a, b):
        if type(a) is Ref and type(b) is Ref:
            if a is b:
                return True
            oa, ob = self.o(a), self.o(b)
            if oa.kind == "list" and ob.kind == "list":
                if len(oa.items) != len(ob.items):
                    return False
                return self.all_eq(list(zip(oa.items, ob.items)))
            if oa.kind == "inst" and oa.items is not None and ob.kind == "inst" and ob.items is not None:
                if oa.cls is not ob.cls and False:
                    return False
                if len(oa.items) != len(ob.items):
                    return False
                return self.all_eq(list(zip(oa.items, ob.items)))
            if oa.kind == "inst" and oa.cls and oa.cls.dataclass and getattr(oa.cls, "dc_eq", True) and oa.cls is ob.cls:
                return self.all_eq([(oa.d.get(f), ob.d.get(f)) for f in oa.cls.dataclass])
            if oa.kind == ob.kind and oa.kind in ("dict", "set"):
                if len(oa.items) != len(ob.items):
                    return False
                prs = []
                for k, v in oa.items:
                    hit = [w for k2, w in ob.items if self.eq(k, k2) is True]
                    if not hit:
                        return False
                    prs.append((v, hit[0]))
                return self.all_eq(prs)
            return False
        x, y = (a, b) if type(a) is Ref else (b, a)
        o = self.o(x)
        if o.kind == "inst" and o.items is not None and type(y) is tuple:
            if len(y) != len(o.items):
                return False
            return self.all_eq(list(zip(o.items, y)))
        if o.kind == "list" and o.x == "bytearray" and type(y) in (bytes, BytesV):
            yy = tuple(y) if type(y) is bytes else y.items
            if len(yy) != len(o.items):
                return False
            return self.all_eq(list(zip(o.items, yy)))
        return False

    def ident(self, a, b):
        """a is b"""
        if type(a) is VSet:
            return self.over(a, lambda x: self.ident(x, b))
        if type(b) is VSet:
            return self.over(b, lambda x: self.ident(a, x))
        if a is b:
            return True
        ta, tb = type(a), type(b)
        if ta is Unknown or tb is Unknown:
            return Unknown("identity of unknown")
        if ta in (EnumM, SEnum) and tb in (EnumM, SEnum):
            return self.eq(a, b)
        if ta in (bool, SBool) and tb in (bool, SBool):
            return self.eq(a, b)
        if ta in (int, I.SInt, str, SStr, bytes, BytesV) and ta is tb or \
                {ta, tb} <= {int, I.SInt}:
            # identity of equal numbers/strings is not observable reliably
            e = self.eq(a, b)
            if e is False:
                return False
            if ta is tb and ta in (int, str, bytes) and a == b:
                return True
            return Unknown("identity of equal immutable values")
        if ta is Bound and tb is Bound:
            return False
        return False

    def compare(self, opn, a, b):
        if opn == "Eq":
            return self.eq(a, b)
        if opn == "NotEq":
            if type(a) is Ref:
                o = self.o(a)
                if type(o) is not AltsO and o.cls is not None:
                    m = self.class_attr(o.cls, "__ne__")
                    if type(m) is Func:
                        return self.truth(self.call(Bound(m, a), [b]))
            return self.neg_truth(self.eq(a, b))
        if opn == "Is":
            return self.ident(a, b)
        if opn == "IsNot":
            return self.neg_truth(self.ident(a, b))
        if opn == "In":
            return self.contains(b, a)
        if opn == "NotIn":
            return self.neg_truth(self.contains(b, a))
        return self.over_all([a, b], lambda p: self.order(opn, p[0], p[1]))

    def order(self, opn, a, b):
        ta, tb = type(a), type(b)
        if ta is Unknown or tb is Unknown:
            return Unknown("ordering of unknown")
        if self.is_intlike(a) and self.is_intlike(b):
            x, y = self.intval(a), self.intval(b)
            if type(x) is int and type(y) is int:
                return {"Lt": x < y, "LtE": x <= y, "Gt": x > y, "GtE": x >= y}[opn]
            d = I.sub(x, y)
            if opn == "LtE":
                return self.lez(d)
            if opn == "Lt":
                return self.lez(I.add(d, 1))
            if opn == "Gt":
                return self.neg_truth(self.lez(d))
            return self.neg_truth(self.lez(I.add(d, 1)))
        if ta in (SFloat, SDec, float) or tb in (SFloat, SDec, float):
            return self.M.float_cmp(self, opn, a, b)
        if ta is str and tb is str or ta is bytes and tb is bytes:
            return {"Lt": a < b, "LtE": a <= b, "Gt": a > b, "GtE": a >= b}[opn]
        la, lb = self.seq_items(a), self.seq_items(b)
        if la is not None and lb is not None and ta is not Ref or \
                (ta is Ref and self.o(a).kind == "list" and la is not None and lb is not None):
            return self.order_seq(opn, list(la), list(lb))
        if ta is Ref or tb is Ref:
            names = {"Lt": ("__lt__", "__gt__"), "LtE": ("__le__", "__ge__"),
                     "Gt": ("__gt__", "__lt__"), "GtE": ("__ge__", "__le__")}[opn]
            for p, q, nm in ((a, b, names[0]), (b, a, names[1])):
                if type(p) is Ref and self.o(p).cls is not None:
                    m = self.class_attr(self.o(p).cls, nm)
                    if type(m) is Func or type(m) is Builtin and self.o(p).cls.dataclass:
                        return self.truth(self.call(Bound(m, p), [q]))
            if ta is Ref and tb is Ref and self.o(a).kind == "set" and self.o(b).kind == "set":
                return self.set_cmp(opn, a, b)
            if la is not None and lb is not None:
                return self.order_seq(opn, list(la), list(lb))
        if self.model_gap(a) or self.model_gap(b):
            self.imprecise("comparison of %s and %s" % (self.typeof(a).name, self.typeof(b).name))
            return Unknown("comparison")
        return self.throw("TypeError", "'%s' not supported between instances" % opn)

    def set_cmp(self, opn, a, b):
        """subset relations"""
        if opn in ("Gt", "GtE"):
            return self.set_cmp({"Gt": "Lt", "GtE": "LtE"}[opn], b, a)
        ia, ib = [p[0] for p in self.o(a).items], [p[0] for p in self.o(b).items]

        def sub(i):
            if i == len(ia):
                return len(ia) < len(ib) if opn == "Lt" else True
            return self.fork_on(self.any_of(ib, ia[i], self.key_eq), lambda: sub(i + 1), lambda: False)
        return sub(0)

    def order_seq(self, opn, la, lb):
        if not la or not lb:
            return {"Lt": len(la) < len(lb), "LtE": len(la) <= len(lb),
                    "Gt": len(la) > len(lb), "GtE": len(la) >= len(lb)}[opn]
        e = self.eq(la[0], lb[0])
        strict = {"Lt": "Lt", "LtE": "Lt", "Gt": "Gt", "GtE": "Gt"}[opn]
        return self.fork_on(e, lambda: self.order_seq(opn, la[1:], lb[1:]),
                            lambda: self.truth(self.compare(strict, la[0], lb[0])))

    def hkey(self, v):
        """hashable host key for fully concrete values, else None"""
        t = type(v)
        if t in (int, str, bytes, bool, float) or v is None:
            return (v,)
        if t is EnumM:
            if self.enum_is_int(v.cls):
                return self.hkey(v.value)
            return (v,)
        if t is tuple:
            ks = [self.hkey(x) for x in v]
            if any(k is None for k in ks):
                return None
            return ("t",) + tuple(ks)
        if t in (ClassV, Func, Builtin, ModuleV, Opaque):
            return (v,)
        if t is Bound:
            return (v,)
        return None

    def check_hashable(self, v):
        if type(v) is Ref:
            o = self.o(v)
            if type(o) is AltsO:
                return
            if o.kind in ("dict", "set") or (o.kind == "list"):
                if o.cls is None or o.cls.native or self.find_user(o.cls, "__hash__") is None:
                    self.throw("TypeError", "unhashable type: '%s'" % o.kind)
            if o.cls is not None and o.kind in ("inst", "ct"):
                for c in o.cls.mro:
                    if c.native:
                        continue
                    ns = self.o(Ref(c.ns)).d
                    if "__hash__" in ns:
                        if ns["__hash__"] is None:
                            self.throw("TypeError", "unhashable type: '%s'" % o.cls.name)
                        return
                    if c.dataclass and getattr(c, "dc_hash", False):
                        for f in c.dataclass:
                            self.check_hashable(o.d.get(f))
                        return
                    if "__eq__" in ns or c.dataclass and getattr(c, "dc_eq", True):
                        self.throw("TypeError", "unhashable type: '%s'" % o.cls.name)
        elif type(v) is tuple:
            for x in v:
                self.check_hashable(x)

    def key_eq(self, a, b):
        """are a and b the same dictionary key"""
        if a is b:
            return True
        ha, hb = self.hkey(a), self.hkey(b)
        if ha is not None and hb is not None:
            return ha == hb
        if type(a) is Ref or type(b) is Ref:
            def one(p):
                x, y = p
                if x is y:
                    return True
                h1, h2 = self.hash_of(x), self.hash_of(y)
                if self.is_intlike(h1) and self.is_intlike(h2):
                    he = self.eq(h1, h2)
                    return self.fork_on(he, lambda: self.truth(self.eq(x, y)), lambda: False)
                if isinstance(h1, tuple) != isinstance(h2, tuple):
                    # identity hash against value hash: never equal in practice
                    return False
                return self.eq(x, y)
            return self.over_all([a, b], one)
        return self.eq(a, b)

    def hash_of(self, v):
        if type(v) is Ref:
            o = self.o(v)
            if o.cls is not None:
                m = self.class_attr(o.cls, "__hash__")
                if type(m) is Func:
                    return self.call(Bound(m, v), [])
            if o.kind == "inst" and o.items is not None:
                return ("hash", tuple(o.items))
            return ("id", v.id)
        if self.is_intlike(v):
            return self.intval(v)
        return ("hash", v)

    def contains(self, cont, x):
        if type(cont) is VSet:
            return self.over(cont, lambda c: self.contains(c, x))
        if type(x) is VSet:
            return self.over(x, lambda y: self.contains(cont, y))
        t = type(cont)
        if t in (str, SStr):
            if t is str and type(x) is str:
                return x in cont
            if type(x) not in (str, SStr, Unknown):
                return self.throw("TypeError", "'in <string>' requires string as left operand, not %s" % self.typeof(x).name)
            return SBool("p", ("in", str(x), str(cont)))
        ct = self.typeof(cont).name if t is not Ref or type(self.o(cont)) is not AltsO else None
        if ct in ("bytes", "bytearray") and not self.is_intlike(x):
            items = self.seq_items(cont)
            sub = self.seq_items(x) if self.typeof(x).name in ("bytes", "bytearray") else None
            if items is None or sub is None:
                if items is None or type(x) is Unknown or self.model_gap(x):
                    return Unknown("subsequence")
                return self.throw("TypeError", "a bytes-like object is required, not '%s'" % self.typeof(x).name)
            n = len(sub)

            def at(i):
                if i + n > len(items):
                    return False
                return self.fork_on(self.all_eq(list(zip(items[i:i + n], sub))), lambda: True, lambda: at(i + 1))
            return at(0)
        if t is Ref:
            def one(c):
                o = self.o(c)
                if o.kind == "inst" and o.cls is not None:
                    m = self.class_attr(o.cls, "__contains__")
                    if type(m) is Func:
                        return self.truth(self.call(Bound(m, c), [x]))
                if o.kind in ("dict", "set"):
                    self.check_hashable(x)
                    return self.any_of([p[0] for p in o.items], x, self.key_eq)
                items = self.iterate(c)
                return self.any_of(items, x, self.eq_or_is)
            return self.over(cont, one)
        if t is RangeV:
            a, b, s = cont.a, cont.b, cont.s
            if s == 1 and self.is_intlike(x):
                lo = self.order("LtE", a, x)
                return self.fork_on(lo, lambda: self.order("Lt", x, b), lambda: False)
        if t is ClassV and cont.enum is not None:
            if type(x) in (EnumM, SEnum):
                return x.cls is cont
            return self.any_of([m.value for m in cont.enum.values()], x, self.eq)
        items = self.iterate(cont)
        return self.any_of(items, x, self.eq_or_is)

    def eq_or_is(self, a, b):
        if a is b and type(a) not in (I.SInt,):
            return True
        return self.eq(a, b)

    def any_of(self, items, x, eqf):
        # definite hit first (no side effects in equality)
        for i, it in enumerate(items):
            r = self.truth(eqf(it, x))
            if r is True:
                return True
            if r is False:
                continue
            rest = items[i + 1:]
            return self.fork_on(r, lambda: True, lambda: self.any_of(rest, x, eqf))
        return False

    # ------------------------------------------------------------- exceptions
    def make_exc(self, name, msg=""):
        cls = self.M.T[name] if isinstance(name, str) else name
        r = self.alloc(O("inst", cls, {"args": (msg,) if msg != "" else ()}))
        return r

    def throw(self, exc, msg=""):
        if isinstance(exc, str) or type(exc) is ClassV:
            if exc == "TypeError" and type(msg) is str:
                msg = self.M.opaque_text(msg)      # the interpreter's wording is no part of the model
            exc = self.make_exc(exc, msg)
        if type(exc) is Ref:
            o = self.w(exc)
            if o.x is None:
                o.x = self.stack()
        self.raises.append((exc, self.st))
        raise Dead()

    # ------------------------------------------------------------- class lookups
    def class_attr(self, cls, name):
        for c in cls.mro:
            if c.ns is not None:
                o = self.st.get(c.ns)
                if name in o.d:
                    return o.d[name]
            if c.native:
                m = self.M.METHODS.get(c.native, {}).get(name)
                if m is not None:
                    return m
        return UNDEF

    def find_user(self, cls, name):
        if cls is None:
            return None
        for c in cls.mro:
            if c.native:
                continue
            o = self.st.get(c.ns)
            if name in o.d:
                return o.d[name]
        return None

    def typeof(self, v):
        T = self.M.T
        t = type(v)
        if t is Ref:
            o = self.o(v)
            if type(o) is AltsO:
                o = o.alts[0][0]
            if o.cls is not None:
                return o.cls
            return T.get(o.x if o.x in ("bytearray",) else o.kind, T["object"])
        if t is bool or t is SBool:
            return T["bool"]
        if t is int or t is I.SInt:
            return T["int"]
        if t is str or t is SStr:
            return T["str"]
        if t is float or t is SFloat:
            return T["float"]
        if t is SDec:
            return T["Decimal"]
        if t is bytes or t is BytesV:
            return T["bytes"]
        if t is tuple:
            return T["tuple"]
        if t in (EnumM, SEnum):
            return v.cls
        if t is ClassV:
            return T["type"]
        if v is None:
            return T["NoneType"]
        if t in (Func, Builtin):
            return T["function"]
        if t is Bound:
            return T["method"]
        if t is RangeV:
            return T["range"]
        if t is SliceV:
            return T["slice"]
        if t is ModuleV:
            return T["module"]
        if t is Prop:
            return T["property"]
        if t is Opaque:
            return T["object"]
        return T["object"]

    def isinstance_(self, v, cls):
        if type(v) is VSet:
            return self.over(v, lambda x: self.isinstance_(x, cls))
        if type(v) is Unknown:
            return Unknown("isinstance of unknown")
        if type(cls) is tuple:
            r = False
            for c in cls:
                x = self.isinstance_(v, c)
                if x is True:
                    return True
                if x is not False:
                    r = x
            return r
        if type(cls) is Opaque or type(cls) is Unknown:
            return Unknown("isinstance against %r" % (cls,))
        if type(cls) is not ClassV:
            u = self.M.union_args(self, cls)
            if u is not None:
                return self.isinstance_(v, u)
            return self.throw("TypeError", "isinstance() arg 2 must be a type")
        tv = self.typeof(v)
        if cls.native in ("Iterable", "Sequence", "Sized", "Collection"):
            if tv.native in ("list", "tuple", "dict", "set", "str", "bytes", "range") or tv.native_base() in ("list", "tuple", "dict", "set"):
                return True
        if cls.native == "Callable":
            return type(v) in (Func, Builtin, Bound, ClassV)
        return tv.issub(cls)

    # ------------------------------------------------------------- attributes
    def getattr(self, v, name, default=UNDEF):
        t = type(v)
        if t is VSet:
            return self.over(v, lambda x: self.getattr(x, name, default))
        if t is Ref:
            o = self.st.get(v.id)
            if type(o) is AltsO:
                return self.over(v, lambda x: self.getattr(x, name, default))
        r = self.getattr1(v, name)
        if r is UNDEF:
            if self.real_has(v, name):
                return self.imprecise("attribute %s of %s" % (name, self.typeof(v).name))
            if default is not UNDEF:
                return default
            tn = v.name if t in (ClassV, ModuleV) else self.typeof(v).name
            return self.throw("AttributeError", "'%s' object has no attribute '%s'" % (tn, name))
        if type(r) is VSet and any(x is UNDEF for x, _ in r.alts):
            return self.over(r, lambda x: x if x is not UNDEF else (
                default if default is not UNDEF else
                self.throw("AttributeError", "attribute '%s' not set" % name)))
        return r

    def bind(self, a, v, cls):
        """descriptor protocol for class attribute a accessed through v"""
        t = type(a)
        if t is Func:
            return Bound(a, v)
        if t is Builtin and getattr(a, "method", False):
            return Bound(a, v)
        if t is Prop:
            if a.cached and type(v) is Ref:
                o = self.o(v)
                if a.name in o.d:
                    return o.d[a.name]
                r = self.call(a.fget, [v])
                self.w(v).d[a.name] = r
                self.attrs_changed(v.id)
                return r
            if a.fget is None:
                return self.throw("AttributeError", "unreadable attribute")
            return self.call(a.fget, [v])
        if t is StaticM:
            return a.f
        if t is ClassM:
            return Bound(a.f, cls)
        if t is CField:
            return self.M.ct_read(self, v, a)
        if t is Ref:
            o = self.o(a)
            if type(o) is O and o.kind == "inst" and o.cls is not None:
                g = self.class_attr(o.cls, "__get__")
                if type(g) is Func:
                    return self.call(Bound(g, a), [v, cls])
        return a

    def getattr1(self, v, name):
        t = type(v)
        if t is Ref:
            o = self.o(v)
            cls = o.cls or self.typeof(v)
            ga = self.find_user(cls, "__getattribute__")
            if ga is not None:
                return self.call(Bound(ga, v), [name])
            return self.generic_getattr(v, o, cls, name)
        if t is ModuleV:
            d = self.o(Ref(v.ns)).d
            if name in d:
                return d[name]
            sub = self.modules.get(v.name + "." + name)
            if sub is not None and v.path is not None and self.is_pkg(v):
                if self.o(Ref(sub.ns)).x != "loading-hidden":
                    return UNDEF
            if name == "__name__":
                return v.name
            if name == "__dict__":
                return self.attr_dict(Ref(v.ns))
            g = d.get("__getattr__")
            if type(g) is Func:
                return self.call(g, [name])
            h = self.M.module_attr(self, v, name)
            return h
        if t is ClassV:
            return self.class_getattr(v, name)
        if t is Super:
            mro = self.typeof(v.obj).mro if type(v.obj) is not ClassV else v.obj.mro
            k = mro.index(v.cls)
            for c in mro[k + 1:]:
                if c.ns is not None:
                    d = self.st.get(c.ns).d
                    if name in d:
                        return self.bind(d[name], v.obj, v.obj if type(v.obj) is ClassV else self.typeof(v.obj))
                if c.native:
                    m = self.M.METHODS.get(c.native, {}).get(name)
                    if m is not None:
                        return self.bind(m, v.obj, self.typeof(v.obj))
            return UNDEF
        if t is EnumM:
            if name in ("value", "_value_"):
                return v.value
            if name in ("name", "_name_"):
                return v.name
            a = self.class_attr(v.cls, name)
            if a is UNDEF:
                return UNDEF
            return self.bind(a, v, v.cls)
        if t is SEnum:
            if name in ("value", "_value_"):
                return v.val
            if name in ("name", "_name_"):
                return SStr((Piece("enumname", (v.cls, v.val)),))
            a = self.class_attr(v.cls, name)
            if a is UNDEF:
                return UNDEF
            return self.bind(a, v, v.cls)
        if t is Opaque:
            return self.M.opaque_getattr(self, v, name)
        if t is OpaqueM:
            return OpaqueM(v, name)
        if t is Unknown:
            return Unknown("attribute %s of %s" % (name, v.why))
        if t is Func:
            if name in ("__name__",):
                return v.name
            if name == "__qualname__":
                return v.qual
            if name == "__doc__":
                return ast.get_docstring(v.node) if not isinstance(v.node, ast.Lambda) else None
            if name == "__module__":
                return v.module
            if name == "__wrapped__" and getattr(v, "wrapped", None) is not None:
                return v.wrapped
            if name == "__wrapped__" or name == "__dict__" or v.ns is not None:
                if v.ns is not None:
                    d = self.o(Ref(v.ns)).d
                    if name in d:
                        return d[name]
            if name == "__defaults__":
                return v.defaults
            if name == "__get__":
                return Builtin("__get__", lambda it, a, k: Bound(v, a[0]) if a[0] is not None else v)
            if name == "__call__":
                return v
            return UNDEF
        if t is Bound:
            if name == "__self__":
                return v.self_
            if name == "__func__":
                return v.func
            return self.getattr1(v.func, name)
        if t is Builtin:
            if name in ("__name__", "__qualname__"):
                return v.name
            f = getattr(v, "attrs", {}).get(name)
            return f if f is not None else UNDEF
        if t is Prop:
            if name in ("setter", "getter", "deleter"):
                def dec(it, a, k, v=v, name=name):
                    p = Prop(v.fget, v.fset, v.fdel)
                    setattr(p, {"setter": "fset", "getter": "fget", "deleter": "fdel"}[name], a[0])
                    return p
                return Builtin(name, dec)
            if name in ("fget", "fset", "fdel"):
                return getattr(v, name)
            return UNDEF
        if t is CField:
            if name == "size":
                if v.bitsize is not None:
                    return (v.bitsize << 16) + v.bitoff
                return v.size
            if name == "offset":
                return v.off
            return UNDEF
        if t is SliceV:
            return {"start": v.a, "stop": v.b, "step": v.s}.get(name, UNDEF)
        if t is RangeV and name in ("start", "stop", "step"):
            return {"start": v.a, "stop": v.b, "step": v.s}[name]
        cls = self.typeof(v)
        if name == "__class__":
            return cls
        m = self.class_attr(cls, name)
        if m is UNDEF:
            if name in ("real", "numerator") and self.is_intlike(v):
                return v
            return UNDEF
        return self.bind(m, v, cls)

    def is_pkg(self, m):
        return m.path is not None and m.path.endswith("__init__.py")

    def generic_getattr(self, v, o, cls, name):
        a = UNDEF
        for c in cls.mro:
            if c.ns is not None:
                d = self.st.get(c.ns).d
                if name in d:
                    a = d[name]
                    break
            if c.native:
                m = self.M.METHODS.get(c.native, {}).get(name)
                if m is not None:
                    a = m
                    break
        if type(a) in (Prop, CField) and not getattr(a, "cached", False):
            return self.bind(a, v, cls)
        if o.d is not None and name in o.d:
            return o.d[name]
        if a is not UNDEF:
            if type(a) is VSet:
                return self.over(a, lambda x: self.bind(x, v, cls))
            return self.bind(a, v, cls)
        if cls.nt_fields and o.items is not None and name in cls.nt_fields:
            return o.items[cls.nt_fields.index(name)]
        if name == "__class__":
            return cls
        if name == "__dict__" and o.d is not None and self.slots_of(cls) is None:
            return self.attr_dict(v)
        g = self.find_user(cls, "__getattr__")
        if g is not None:
            return self.call(Bound(g, v), [name])
        if o.kind == "iter" and name == "__next__":
            return Builtin("__next__", lambda it, a, k: it.M.next_(it, [v], {}))
        return UNDEF

    def class_getattr(self, c, name):
        a = UNDEF
        for b in c.mro:
            if b.enum is not None:
                m = b.enum.get(name) or (b.enum_alias or {}).get(name)
                if m is not None:
                    return m
            if b.ns is not None:
                d = self.st.get(b.ns).d
                if name in d:
                    a = d[name]
                    break
            if b.native:
                m = self.M.METHODS.get(b.native, {}).get(name)
                if m is not None:
                    a = m
                    break
        if a is not UNDEF:
            if type(a) is StaticM:
                return a.f
            if type(a) is ClassM:
                return Bound(a.f, c)
            return a
        if name == "__name__" or name == "__qualname__":
            return c.name
        if name == "__module__":
            return c.module
        if name == "__mro__":
            return tuple(c.mro)
        if name == "__bases__":
            return tuple(c.bases)
        if name == "__doc__":
            return None
        if name == "__dict__":
            d = self.st.get(c.ns).d if c.ns is not None else {}
            return self.alloc(O("dict", None, None, [[k, x] for k, x in d.items()]))
        if name == "__members__" and c.enum is not None:
            its = list(c.enum.items()) + list((c.enum_alias or {}).items())
            return self.alloc(O("dict", None, None, [[k, x] for k, x in its]))
        if name == "_member_map_" and c.enum is not None:
            return self.alloc(O("dict", None, None, [[k, x] for k, x in c.enum.items()]))
        if name == "_value2member_map_" and c.enum is not None:
            return self.alloc(O("dict", None, None, [[x.value, x] for k, x in c.enum.items()]))
        if name == "_fields" and c.nt_fields is not None:
            return tuple(c.nt_fields)
        if name == "__annotations__":
            return self.alloc(O("dict", None, None, []))
        h = self.M.class_extra(self, c, name)
        return h

    def setattr(self, v, name, val):
        t = type(v)
        if t is VSet:
            return self.over(v, lambda x: self.setattr(x, name, val))
        if t is Ref:
            if type(self.st.get(v.id)) is AltsO:
                return self.over(v, lambda x: self.setattr(x, name, val))
            o = self.o(v)
            cls = o.cls
            if cls is not None:
                sa = self.find_user(cls, "__setattr__")
                if sa is not None:
                    self.call(Bound(sa, v), [name, val])
                    return
                self.generic_setattr(v, name, val)
                return
            return self.throw("AttributeError", "no attribute %s" % name)
        if t is ModuleV:
            self.w(Ref(v.ns)).d[name] = val
            self.attrs_changed(v.ns)
            return
        if t is ClassV:
            if v.ns is None:
                return self.throw("TypeError", "cannot set attribute of built-in type")
            self.w(Ref(v.ns)).d[name] = val
            return
        if t is Func:
            if v.ns is None:
                r = self.alloc(O("ns", None, {}))
                v.ns = r.id
                self.base.setdefault(r.id, O("ns", None, {}))
            self.w(Ref(v.ns)).d[name] = val
            return
        if t in (Opaque, OpaqueM):
            self.event("setattr", v, name, (val,))
            return
        if t is Unknown:
            self.imprecise("attribute store on unknown")
            return
        return self.throw("AttributeError", "'%s' object attribute '%s' is read-only" % (self.typeof(v).name, name))

    def generic_setattr(self, v, name, val):
        o = self.o(v)
        cls = o.cls
        if name == "__dict__" and o.d is not None:
            self.over(val, lambda x: self.attr_dict_assign(v, x))
            return
        a = self.class_attr(cls, name)
        if type(a) is Prop and not a.cached:
            if a.fset is None:
                return self.throw("AttributeError", "property '%s' has no setter" % name)
            self.call(a.fset, [v, val])
            return
        if type(a) is CField:
            self.M.ct_write(self, v, a, val)
            return
        if type(a) is Ref:
            ao = self.o(a)
            if type(ao) is O and ao.cls is not None:
                s = self.class_attr(ao.cls, "__set__")
                if type(s) is Func:
                    self.call(Bound(s, a), [v, val])
                    return
        if o.d is None or (cls.nt_fields and name in cls.nt_fields):
            return self.throw("AttributeError", "can't set attribute '%s'" % name)
        if cls.dataclass and getattr(cls, "frozen", False) and o.x != "init":
            return self.throw("AttributeError", "cannot assign to field '%s'" % name)
        slots = self.slots_of(cls)
        if slots is not None and name not in slots:
            return self.throw("AttributeError", "'%s' object has no attribute '%s'" % (cls.name, name))
        self.w(v).d[name] = val
        self.attrs_changed(v.id)
        self.wrote(v.id)

    # ------------------------------------------------- attribute dictionaries
    def attr_dict(self, v):
        """the live dictionary of the attributes of an object or module"""
        d = self.o(v).d or {}
        names = [n for n in d if n != "__ann__"]

        def made(vals):
            items = [[n, x] for n, x in zip(names, vals) if x is not UNDEF]
            i = self.adict.get(v.id)
            if i is None:
                r = self.alloc(O("dict", None, None, items))
                self.adict[v.id] = r.id
                self.aowner[r.id] = {v.id}
                return r
            self.st.put(i, O("dict", None, None, items))
            return Ref(i)
        if any(type(d[n]) is VSet and any(x is UNDEF for x, _ in d[n].alts) for n in names):
            return self.over_all([d[n] for n in names], made)
        return made([d[n] for n in names])

    def attr_dict_assign(self, v, x):
        if type(x) is not Ref or self.o(x).kind != "dict":
            return self.throw("TypeError", "__dict__ must be set to a dictionary")
        old = self.adict.get(v.id)
        if old is not None:
            self.aowner[old] = self.aowner[old] - {v.id}
        self.adict[v.id] = x.id
        self.aowner[x.id] = self.aowner.get(x.id, set()) | {v.id}
        self.dict_changed(x)

    def attrs_changed(self, i):
        """the attributes of object i were changed: bring its dictionary up to date"""
        k = self.adict.get(i) if self.adict else None
        if k is None or (k not in self.st.heap and k not in self.st.base):
            return
        self.attr_dict(Ref(i))
        self.dict_changed(Ref(k), i)

    def dict_changed(self, r, but=None):
        """dictionary r was changed: bring the attributes of its owners up to date"""
        if not self.aowner:
            return
        for i in self.aowner.get(r.id, ()):
            if i == but or (i not in self.st.heap and i not in self.st.base):
                continue
            items = self.o(r).items
            if not all(type(p[0]) is str for p in items):
                self.imprecise("attribute with unknown name")
                return

            def one(x):
                o = self.w(x)
                keep = {"__ann__": o.d["__ann__"]} if "__ann__" in (o.d or {}) else {}
                o.d = {p[0]: p[1] for p in items}
                o.d.update(keep)
                self.wrote(x.id)
            self.over(Ref(i), one)

    def slots_of(self, cls):
        out = []
        for c in cls.mro:
            if c.native:
                if c.native == "object":
                    continue
                return None
            d = self.st.get(c.ns).d
            if "__slots__" not in d:
                return None
            s = d["__slots__"]
            if type(s) is str:
                out.append(s)
            else:
                its = self.seq_items(s)
                if its is None:
                    return None
                out.extend(its)
        if "__dict__" in out:
            return None
        return out

    def delattr(self, v, name):
        if type(v) is Ref:
            o = self.o(v)
            if o.d is not None and name in o.d:
                del self.w(v).d[name]
                self.attrs_changed(v.id)
                return
        if type(v) in (ClassV, ModuleV):
            d = self.w(Ref(v.ns)).d
            if name in d:
                del d[name]
                return
        return self.throw("AttributeError", name)

    # ------------------------------------------------------------- events
    def event(self, kind, obj, name, args, kw=None):
        ev = self.st.heap.get(self.evid) or self.st.base.get(self.evid)
        o = self.st.mut(self.evid)
        o.items.append((kind, obj, name, tuple(args), tuple((kw or {}).items()), self.site()))

    def events(self):
        o = self.st.get(self.evid)
        return o

    # ------------------------------------------------------------- sequences
    def seq_items(self, v):
        """host list of items of a tuple/list/bytes-like value or None"""
        t = type(v)
        if t is tuple:
            return list(v)
        if t is bytes:
            return list(v)
        if t is BytesV:
            return list(v.items)
        if t is Ref:
            o = self.o(v)
            if type(o) is AltsO:
                return None
            if o.kind == "list":
                return list(o.items)
            if o.kind == "inst" and o.items is not None:
                return list(o.items)
        return None

    def range_list(self, r):
        return range(r.a, r.b, r.s)

    def iterate(self, v):
        """host list of the values produced by iterating v (v not a VSet)"""
        t = type(v)
        if t is tuple:
            return list(v)
        if t is str:
            return list(v)
        if t is SStr:
            c = v.chars()
            if c is None:
                raise Imprecise("iteration over text of unknown length")
            return [x if type(x) is str else mkstr((x,)) for x in c]
        if t is bytes:
            return list(v)
        if t is BytesV:
            return list(v.items)
        if t is RangeV:
            if all(type(x) is int for x in (v.a, v.b, v.s)):
                r = range(v.a, v.b, v.s)
                if len(r) > 100000:
                    raise Imprecise("very long range")
                return list(r)
            raise Imprecise("range with unknown bounds")
        if t is ClassV and v.enum is not None:
            return list(v.enum.values())
        if t is Ref:
            o = self.o(v)
            if type(o) is AltsO:
                raise Imprecise("iteration over alternatives")
            if o.cls is not None and o.kind in ("inst", "list", "dict"):
                m = self.find_user(o.cls, "__iter__")
                if m is not None:
                    r = self.call(Bound(m, v), [])
                    if r is v:
                        return self.drain_next(v)
                    return self.iterate(r)
            if o.kind == "list":
                return list(o.items)
            if o.kind in ("dict", "set"):
                return [p[0] for p in o.items]
            if o.kind == "iter":
                its = o.items[o.x or 0:]
                self.w(v).x = len(o.items)
                return its
            if o.kind == "inst" and o.items is not None:
                return list(o.items)
            if o.cls is not None:
                gi = self.class_attr(o.cls, "__getitem__")
                if type(gi) is Func:
                    raise Imprecise("iteration through __getitem__")
            if self.model_gap(v):
                raise Imprecise("iteration over %s" % self.typeof(v).name)
            self.throw("TypeError", "'%s' object is not iterable" % self.typeof(v).name)
        if t in (Unknown,):
            raise Imprecise("iteration over unknown (%s)" % v.why)
        if t in (Opaque, OpaqueM):
            raise Imprecise("iteration over %r" % (v,))
        if self.model_gap(v):
            raise Imprecise("iteration over %s" % self.typeof(v).name)
        self.throw("TypeError", "'%s' object is not iterable" % self.typeof(v).name)

    def model_gap(self, v):
        """may the real object support an operation the model lacks?"""
        t = type(v)
        if t in (Builtin, StaticM, ClassM, Prop, CField, Opaque, OpaqueM, Unknown, SliceV):
            return True
        if t is ClassV:
            return v.native is not None and v.native not in REAL or v.enum is not None
        if t is Ref:
            o = self.o(v)
            if type(o) is not O or o.kind not in ("inst", "list", "dict", "set", "iter", "ct", "ns"):
                return True
            if o.cls is not None:
                return any(c.native and c.native not in REAL and c.native not in ("object", "iterator", "_CData", "ABC")
                           for c in o.cls.mro)
        return False

    def real_has(self, v, name):
        """does the real native type behind v have attribute name?"""
        t = type(v)
        if type(name) is not str:
            return False
        if t is Ref and type(self.o(v)) is not O:
            return True
        if t in (Func, Bound, Builtin):
            return hasattr(_realfn, name)
        if t is ModuleV:
            return False
        if t is ClassV:
            if hasattr(type, name):
                return True
            mro = v.mro
        else:
            mro = (self.o(v).cls or self.typeof(v)).mro if t is Ref else self.typeof(v).mro
        for c in mro:
            if c.native and c.native != "object":
                r = REAL.get(c.native)
                if r is None:
                    if c.native in ("iterator", "ABC", "object"):
                        if hasattr(iter([]), name):
                            return True
                        continue
                    return c.native not in ("_CData",) or hasattr(_RealS, name)
                if hasattr(r, name):
                    return True
        return hasattr(object, name)

    def set_order(self, r, o):
        """orders in which a set may be iterated: the real one when all hashes are known"""
        its = [p[0] for p in o.items]
        if o.x == "ordered" or len(its) < 2:
            return its, None
        hs = []
        for x in its:
            if type(x) is str or type(x) is bytes or type(x) is tuple:
                return its, its[::-1]
            h = self.intval(x) if self.is_intlike(x) else None
            if h is None and type(x) is Ref:
                xo = self.o(x)
                m = self.class_attr(xo.cls, "__hash__") if type(xo) is O and xo.cls is not None else UNDEF
                if type(m) is Func:
                    h = self.call(Bound(m, x), [])
            if type(h) is I.SInt:
                h = I.subst(h, self.st.facts)
            if type(h) is not int:
                return its, its[::-1]
            hs.append(h)
        sim = set()
        for h, x in zip(hs, its):
            sim.add(_Hashed(h, x))
        return [q.x for q in sim], None

    def drain_next(self, v):
        out = []
        for _ in range(MAXLOOP):
            self.raises, saved = [], self.raises
            try:
                r = self.getattr(v, "__next__")
                x = self.call(r, [])
                ok = True
            except Dead:
                ok = False
            rs, self.raises = self.raises, saved
            if rs and ok:
                raise Imprecise("iterator may stop")
            if not ok:
                if len(rs) == 1 and self.o_at(rs[0]).cls is self.M.T["StopIteration"]:
                    self.st = rs[0][1]
                    return out
                self.raises.extend(rs)
                raise Dead()
            out.append(x)
        raise Imprecise("unbounded iterator")

    def o_at(self, r):
        return r[1].get(r[0].id)

    def iter_over(self, v, fn):
        """fn(host list) for an iterable value, splitting alternatives"""
        def one(x):
            if type(x) is RangeV and not all(type(q) is int for q in (x.a, x.b, x.s)):
                a, b, s = self.split_int(x.a), self.split_int(x.b), x.s
                return self.over_all([a, b], lambda p: fn(list(range(p[0], p[1], s)))
                                     if all(type(q) is int for q in p) else fn_imp("range"))
            try:
                if type(x) is Ref and self.o(x).kind == "set" and \
                        (self.o(x).cls is None or self.find_user(self.o(x).cls, "__iter__") is None):
                    a, b = self.set_order(x, self.o(x))
                    if b is not None:
                        return self.fork_on(SBool("p", ("setorder", x.id, len(a))), lambda: fn(a), lambda: fn(b))
                    return fn(a)
                items = self.iterate(x)
            except Imprecise as e:
                return fn_imp(str(e))
            return fn(items)

        def fn_imp(why):
            self.imprecise(why)
            return fn([])
        return self.over(v, one)

    def new_list(self, items, cls=None):
        return self.alloc(O("list", cls, {} if cls is not None else None, list(items)))

    def new_iter(self, items):
        return self.alloc(O("iter", self.M.T["iterator"], None, list(items), 0))

    def new_dict(self, pairs=()):
        return self.alloc(O("dict", None, None, [list(p) for p in pairs]))

    # dictionary access
    def dict_find(self, ref, key, found, missing):
        """run found(index) / missing() according to key lookup"""
        def one(p):
            r, k = p
            self.check_hashable(k)
            items = self.o(r).items
            hk = self.hkey(k)

            def go(i):
                its = self.o(r).items
                while i < len(its):
                    k2 = its[i][0]
                    h2 = self.hkey(k2)
                    if hk is not None and h2 is not None:
                        if hk == h2:
                            return found(i)
                        i += 1
                        continue
                    e = self.truth(self.key_eq(k2, k))
                    if e is True:
                        return found(i)
                    if e is False:
                        i += 1
                        continue
                    j = i
                    return self.fork_on(e, lambda: found(j), lambda: go(j + 1))
                return missing()
            return go(0)
        return self.over_all([ref, key], one)

    def dict_get(self, ref, key, default=UNDEF):
        def missing():
            if default is UNDEF:
                o = self.o(ref)
                if o.cls is not None:
                    m = self.find_user(o.cls, "__missing__")
                    if m is not None:
                        return self.call(Bound(m, ref), [key])
                if o.x is not None and o.x != "dd":
                    v = self.call(o.x, [])
                    self.dict_set(ref, key, v)
                    return v
                exc = self.make_exc("KeyError")
                self.w(exc).d["args"] = (key,)
                return self.throw(exc)
            return default
        return self.dict_find(ref, key, lambda i: self.o(ref).items[i][1], missing)

    def dict_set(self, ref, key, val):
        def found(i):
            o = self.w(ref)
            o.items[i] = [o.items[i][0], val]
            self.dict_changed(ref)

        def missing():
            self.w(ref).items.append([key, val])
            self.dict_changed(ref)
        # the key object itself must be unsplit when stored
        self.dict_find(ref, key, found, missing) if type(key) is not VSet else \
            self.over(key, lambda k: self.dict_set(ref, k, val))

    def dict_del(self, ref, key):
        def found(i):
            del self.w(ref).items[i]
            self.dict_changed(ref)

        def missing():
            exc = self.make_exc("KeyError")
            self.w(exc).d["args"] = (key,)
            return self.throw(exc)
        self.dict_find(ref, key, found, missing)

    def norm_index(self, i, n, what="list"):
        if type(i) is int or type(i) is bool:
            if i < 0:
                i += n
            if not 0 <= i < n:
                self.throw("IndexError", "%s index out of range" % what)
            return i
        return None

    def getitem(self, v, k):
        return self.over_all([v, k], lambda p: self.getitem1(p[0], p[1]))

    def slice_bounds(self, k, n):
        def c(x):
            if x is None or type(x) is int:
                return x
            if self.is_intlike(x):
                y = self.intval(x)
                return y
            return self.call_index(x)
        return c(k.a), c(k.b), c(k.s)

    def call_index(self, x):
        self.throw("TypeError", "slice indices must be integers")

    def getitem1(self, v, k):
        t = type(v)
        if t is Unknown or type(k) is Unknown:
            return Unknown("subscript of unknown")
        if t is ClassV:
            if v.enum is not None:
                return self.M.enum_by_name(self, v, k)
            cg = self.class_attr(v, "__class_getitem__")
            if cg is not UNDEF:
                return self.call(self.class_getattr(v, "__class_getitem__"), [k])
            return v          # generic alias
        if t in (Opaque, OpaqueM):
            if t is Opaque and v.kind.startswith("typing"):
                return v
            return self.M.opaque_item(self, v, k)
        if t is Ref:
            o = self.o(v)
            if o.cls is not None:
                m = self.find_user(o.cls, "__getitem__")
                if m is not None:
                    return self.call(Bound(m, v), [k])
            if o.kind == "dict":
                return self.dict_get(v, k)
        if t is RangeV:
            r = list(self.range_list(v))
            if type(k) is SliceV:
                return tuple(r[slice(k.a, k.b, k.s)])
            v = tuple(r)
            t = tuple
        if t in (str, SStr):
            ch = list(v) if t is str else v.chars()
            if ch is None:
                if type(k) is SliceV:
                    return SStr((Piece("slice", (v, k.a, k.b, k.s)),))
                return SStr((Piece("index", (v, str(k))),))
            if type(k) is SliceV:
                a, b, s = self.slice_bounds(k, len(ch))
                a, b = self.split_int(a, len(ch)), self.split_int(b, len(ch))
                return self.over_all([a, b], lambda p: mkstr(ch[slice(p[0], p[1], s)]))
            k = self.intval(k) if self.is_intlike(k) else k
            k = self.split_int(k, len(ch))
            return self.over(k, lambda i: mkstr((ch[self.norm_index(i, len(ch), "string")],)))
        items = self.seq_items(v)
        if items is None:
            m = self.class_attr(self.typeof(v), "__getitem__")
            if m is not UNDEF and t is Ref:
                return self.call(Bound(m, v), [k])
            if self.model_gap(v):
                return self.imprecise("subscript of %s" % self.typeof(v).name)
            return self.throw("TypeError", "'%s' object is not subscriptable" % self.typeof(v).name)
        n = len(items)

        def wrap(sub):
            if t is tuple or (t is Ref and self.o(v).kind == "inst"):
                return tuple(sub)
            if t in (bytes, BytesV):
                return self.M.mkbytes(sub)
            o = self.o(v)
            r = self.new_list(sub)
            if o.x == "bytearray":
                self.w(r).x = "bytearray"
            return r
        if type(k) is SliceV:
            a, b, s = self.slice_bounds(k, n)
            if s is not None and type(s) is not int:
                return self.imprecise("unknown slice step")
            a, b = self.split_int(a, n), self.split_int(b, n)
            if type(a) is Unknown or type(b) is Unknown:
                return self.imprecise("unknown slice bounds")
            return self.over_all([a, b], lambda p: wrap(items[slice(p[0], p[1], s)]))
        if not self.is_intlike(k):
            return self.throw("TypeError", "indices must be integers or slices")
        k = self.split_int(self.intval(k), n)
        if type(k) is Unknown:
            return self.imprecise("unknown index")
        return self.over(k, lambda i: items[self.norm_index(i, n)])

    def setitem(self, v, k, val):
        def one(p):
            v, k = p
            t = type(v)
            if t is Unknown:
                self.imprecise("store into unknown")
                return None
            if t in (Opaque, OpaqueM):
                self.event("setitem", v, "[]", (k, val))
                return None
            if t is not Ref:
                return self.throw("TypeError", "'%s' object does not support item assignment" % self.typeof(v).name)
            o = self.o(v)
            if o.cls is not None:
                m = self.find_user(o.cls, "__setitem__")
                if m is not None:
                    self.call(Bound(m, v), [k, val])
                    return None
            if o.kind == "dict":
                self.dict_set(v, k, val)
                return None
            if o.kind == "list":
                if type(k) is SliceV:
                    if all(x is None or type(x) is int for x in (k.a, k.b, k.s)):
                        return self.iter_over(val, lambda items: self._setslice(
                            v, k, self.M.as_bytes_items(self, items) if o.x == "bytearray" else items))
                    self.imprecise("unknown slice store")
                    return None
                kk = self.split_int(self.intval(k), len(o.items)) if self.is_intlike(k) else \
                    self.throw("TypeError", "list indices must be integers")

                def st(i):
                    i = self.norm_index(i, len(self.o(v).items), "list assignment")
                    if o.x == "bytearray":
                        return self.over(val, lambda b: self.w(v).items.__setitem__(i, self.M.as_bytes_items(self, [b])[0]))
                    self.w(v).items[i] = val
                return self.over(kk, st)
            m = self.class_attr(o.cls, "__setitem__") if o.cls else UNDEF
            if m is not UNDEF:
                self.call(Bound(m, v), [k, val])
                return None
            return self.throw("TypeError", "object does not support item assignment")
        return self.over_all([v, k], one)

    def _setslice(self, v, k, items):
        self.w(v).items[slice(k.a, k.b, k.s)] = items

    def delitem(self, v, k):
        def one(p):
            v, k = p
            if type(v) is Ref:
                o = self.o(v)
                if o.cls is not None:
                    m = self.find_user(o.cls, "__delitem__")
                    if m is not None:
                        self.call(Bound(m, v), [k])
                        return None
                if o.kind == "dict":
                    self.dict_del(v, k)
                    return None
                if o.kind == "list":
                    if type(k) is SliceV:
                        del self.w(v).items[slice(k.a, k.b, k.s)]
                        return None
                    kk = self.split_int(self.intval(k), len(o.items))

                    def st(i):
                        i = self.norm_index(i, len(self.o(v).items))
                        del self.w(v).items[i]
                    return self.over(kk, st)
            return self.throw("TypeError", "object doesn't support item deletion")
        return self.over_all([v, k], one)

    # ------------------------------------------------------------- calls
    def call(self, f, args, kw=None):
        kw = kw or {}
        t = type(f)
        if t is VSet:
            return self.over(f, lambda x: self.call(x, args, kw))
        if t is Func:
            return self.call_func(f, args, kw)
        if t is Bound:
            g = f.func
            return self.call(g, [f.self_] + list(args), kw)
        if t is Builtin:
            if f.lazy:
                return f.fn(self, list(args), kw)
            if not kw:
                return self.over_all(args if type(args) is list else list(args), lambda p: f.fn(self, p, {}))
            names = list(kw)
            n = len(args)
            vs = list(args) + [kw[k] for k in names]
            return self.over_all(vs, lambda p: f.fn(self, p[:n], dict(zip(names, p[n:]))))
        if t is ClassV:
            return self.instantiate(f, args, kw)
        if t is StaticM:
            return self.call(f.f, args, kw)
        if t is Ref:
            o = self.o(f)
            if type(o) is AltsO:
                return self.over(f, lambda x: self.call(x, args, kw))
            m = self.class_attr(o.cls, "__call__") if o.cls else UNDEF
            if m is not UNDEF:
                return self.call(self.bind(m, f, o.cls), args, kw)
        if t in (Opaque, OpaqueM):
            return self.M.opaque_call(self, f, args, kw)
        if t is Unknown:
            return self.imprecise("call of unknown (%s)" % f.why)
        if self.model_gap(f):
            return self.imprecise("call of %s" % self.typeof(f).name)
        return self.throw("TypeError", "'%s' object is not callable" % self.typeof(f).name)

    def info(self, node):
        fi = self.finfos.get(node)
        if fi is None:
            fi = self.finfos[node] = finfo(node)
        return fi

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        npos = len(a.posonlyargs)
        d = {}
        if len(args) > len(names) and not a.vararg:
            self.throw("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)))
        for n, v in zip(names, args):
            d[n] = v
        if a.vararg:
            d[a.vararg.arg] = tuple(args[len(names):])
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names[npos:] or k in kwonly:
                if k in d:
                    self.throw("TypeError", "%s() got multiple values for argument '%s'" % (f.name, k))
                d[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                self.throw("TypeError", "%s() got an unexpected keyword argument '%s'" % (f.name, k))
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n not in d:
                j = i - (len(names) - nd)
                if j >= 0:
                    d[n] = f.defaults[j]
                else:
                    self.throw("TypeError", "%s() missing required argument: '%s'" % (f.name, n))
        for n in kwonly:
            if n not in d:
                if n in f.kwdefaults:
                    d[n] = f.kwdefaults[n]
                else:
                    self.throw("TypeError", "%s() missing required keyword-only argument: '%s'" % (f.name, n))
        if a.kwarg:
            d[a.kwarg.arg] = self.new_dict([[k, v] for k, v in extra.items()])
        return d

    def call_func(self, f, args, kw):
        if isinstance(f.node, ast.AsyncFunctionDef):
            return Coro(lambda: self.run_func(f, args, kw), f.qual)
        return self.run_func(f, args, kw)

    def run_func(self, f, args, kw):
        self.depth += 1
        self.calls += 1
        if self.depth > 150:
            self.depth -= 1
            return self.throw("RecursionError", "maximum recursion depth exceeded")
        self.analysed.add((f.module, f.qual))
        self.recent.append((f.path, f.qual, f.node.lineno))
        try:
            d = self.bind_args(f, args, kw)
            env = self.alloc(O("ns", None, d, None, f.env))
            path = f.path
            fr = Frame(env.id, f.gns, f, f.module, path, f.qual)
            fi = self.info(f.node)
            if fi.isgen:
                fr.yields = self.new_list([])
            base = self.st
            self.frames.append(fr)
            try:
                if isinstance(f.node, ast.Lambda):
                    return self.ev(f.node.body, fr)
                try:
                    self.block(f.node.body, fr)
                    fr.returns.append((None, self.st))
                except Dead:
                    pass
            finally:
                self.frames.pop()
            if not fr.returns:
                raise Dead()
            r = self.join(base, fr.returns)
            if fi.isgen:
                return self.over(fr.yields, lambda y: self.new_iter(self.o(y).items))
            return r
        finally:
            self.depth -= 1

    def instantiate(self, cls, args, kw):
        if cls.enum is not None:
            return self.over(args[0], lambda a: self.M.enum_lookup(self, cls, a))
        n = self.find_user(cls, "__new__")
        if n is not None and not cls.native:
            f = n.f if type(n) is StaticM else n
            r = self.call(f, [cls] + list(args), kw)

            def after(x):
                if type(x) is Ref and self.o(x).cls is not None and self.o(x).cls.issub(cls):
                    self.init_instance(x, cls, args, kw)
                return x
            return self.over(r, after)
        if cls.native:
            return self.M.construct(self, cls, args, kw)
        r = self.alloc_instance(cls, args, kw)
        if type(r) is Ref:
            self.init_instance(r, cls, args, kw)
        return r

    def init_instance(self, r, cls, args, kw):
        i = self.class_attr(cls, "__init__")
        if i is not UNDEF:
            self.call(Bound(i, r), list(args), kw)

    def alloc_instance(self, cls, args, kw):
        nb = cls.native_base()
        if nb in ("BigEndianStructure", "LittleEndianStructure"):
            nb = "Structure"
        elif nb in ("BigEndianUnion", "LittleEndianUnion"):
            nb = "Union"
        elif nb == "frozenset":
            nb = "set"
        elif nb in ("defaultdict", "OrderedDict"):
            nb = "dict"
        if nb == "list":
            return self.new_list([], cls)
        if nb in ("dict",):
            return self.alloc(O("dict", cls, {}, []))
        if nb in ("set",):
            return self.alloc(O("set", cls, {}, []))
        if nb in ("Structure", "Union"):
            return self.M.ct_alloc(self, cls)
        if nb == "tuple":
            if cls.nt_fields is not None:
                return self.alloc(O("inst", cls, {}, self.M.nt_bind(self, cls, args, kw)))
            return self.alloc(O("inst", cls, {}, self.iterate(args[0]) if args else []))
        if nb in ("int", "str", "float", "bytes"):
            return self.imprecise("subclass of %s" % nb)
        r = self.alloc(O("inst", cls, {}))
        if self.M.T["BaseException"] in cls.mro:
            self.w(r).d["args"] = tuple(args)
        return r

    # ------------------------------------------------------------- names
    def load(self, name, fr):
        i = fr.env
        first = True
        while i is not None:
            o = self.st.get(i)
            if name in o.d:
                v = o.d[name]
                if type(v) is VSet and any(x is UNDEF for x, _ in v.alts):
                    return self.over(v, lambda x: x if x is not UNDEF else
                                     self.throw("UnboundLocalError", "local variable '%s' referenced before assignment" % name))
                if v is UNDEF:
                    return self.throw("UnboundLocalError", "local variable '%s'" % name)
                return v
            if first and fr.func is not None and not isinstance(fr.func.node, ast.Lambda) and o.kind == "ns" \
                    and name in self.info(fr.func.node).locals and not o.site == "comp":
                return self.throw("UnboundLocalError", "local variable '%s' referenced before assignment" % name)
            first = o.site == "comp" and first
            i = o.x
        d = self.st.get(fr.gns).d
        if name in d:
            v = d[name]
            if type(v) is VSet and any(x is UNDEF for x, _ in v.alts):
                return self.over(v, lambda x: x if x is not UNDEF else
                                 self.throw("NameError", "name '%s' is not defined" % name))
            return v
        b = self.M.BUILTINS.get(name, UNDEF)
        if b is UNDEF:
            if name == "__name__":
                return fr.module
            if name == "__file__":
                return fr.path
            return self.throw("NameError", "name '%s' is not defined" % name)
        return b

    def store(self, name, val, fr):
        if fr.isclass or fr.func is None:
            if fr.func is None and not fr.isclass and fr.env is None:
                self.w(Ref(fr.gns)).d[name] = val
                self.attrs_changed(fr.gns)
                return
            self.w(Ref(fr.env)).d[name] = val
            return
        fi = self.info(fr.func.node)
        if name in fi.globals:
            self.w(Ref(fr.gns)).d[name] = val
            self.attrs_changed(fr.gns)
            return
        if name in fi.nonlocals:
            i = self.st.get(fr.env).x
            while i is not None:
                if name in self.st.get(i).d:
                    self.w(Ref(i)).d[name] = val
                    return
                i = self.st.get(i).x
            return self.throw("NameError", name)
        self.w(Ref(fr.env)).d[name] = val

    # ------------------------------------------------------------- statements
    def block(self, stmts, fr):
        for s in stmts:
            fr.node = s
            self.steps += 1
            getattr(self, "x_" + s.__class__.__name__)(s, fr)

    def x_Expr(self, s, fr):
        self.ev(s.value, fr)

    def x_Pass(self, s, fr):
        pass

    def x_Return(self, s, fr):
        v = self.ev(s.value, fr) if s.value is not None else None
        fr.returns.append((v, self.st))
        raise Dead()

    def x_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def x_AnnAssign(self, s, fr):
        if fr.isclass and isinstance(s.target, ast.Name):
            o = self.w(Ref(fr.env))
            ann = o.d.get("__ann__", ())
            o.d["__ann__"] = ann + (s.target.id,)
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def x_AugAssign(self, s, fr):
        t = s.target
        opn = s.op.__class__.__name__
        if isinstance(t, ast.Name):
            cur = self.load(t.id, fr)
            v = self.ev(s.value, fr)
            self.store(t.id, self.aug(opn, cur, v), fr)
        elif isinstance(t, ast.Attribute):
            obj = self.ev(t.value, fr)
            cur = self.getattr(obj, t.attr)
            v = self.ev(s.value, fr)
            self.setattr(obj, t.attr, self.aug(opn, cur, v))
        else:
            obj = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            cur = self.getitem(obj, k)
            v = self.ev(s.value, fr)
            self.setitem(obj, k, self.aug(opn, cur, v))

    def aug(self, opn, a, b):
        def one(p):
            x, y = p
            if type(x) is Ref:
                o = self.o(x)
                nm = self.M.AUGNAMES[opn]
                m = self.class_attr(o.cls, nm) if o.cls is not None else UNDEF
                if type(m) is Func:
                    return self.call(Bound(m, x), [y])
                if o.kind == "list" and opn == "Add":
                    if o.x == "bytearray" and self.typeof(y).name not in ("bytes", "bytearray", "memoryview", "object"):
                        return self.throw("TypeError", "can't concat to bytearray")

                    def ext(items):
                        self.w(x).items.extend(self.M.as_bytes_items(self, items) if o.x == "bytearray" else items)
                        return x
                    return self.iter_over(y, ext)
                if o.kind == "set" and opn in ("BitOr", "Sub", "BitAnd"):
                    r = self.binop(opn, x, y)
                    self.w(x).items = list(self.o(r).items)
                    return x
            return self.binop(opn, x, y)
        return self.over_all([a, b], one)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            obj = self.ev(t.value, fr)
            k = self.ev(t.slice, fr)
            self.setitem(obj, k, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            def un(items):
                n = len(t.elts)
                star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
                if star:
                    i = star[0]
                    if len(items) < n - 1:
                        self.throw("ValueError", "not enough values to unpack")
                    after = n - 1 - i
                    mid = self.new_list(items[i:len(items) - after])
                    vals = items[:i] + [mid] + items[len(items) - after:]
                    for e, x in zip(t.elts, vals):
                        self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
                    return None
                if len(items) != n:
                    self.throw("ValueError", "wrong number of values to unpack (expected %d, got %d)" % (n, len(items)))
                for e, x in zip(t.elts, items):
                    self.assign(e, x, fr)
            if type(v) is tuple:
                un(list(v))
            elif type(v) is Unknown:
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, Unknown("unpacked " + v.why), fr)
            elif type(v) is VSet and all(type(x) is tuple and len(x) == len(t.elts) for x, _ in v.alts) \
                    and not any(isinstance(e, ast.Starred) for e in t.elts):
                for i, e in enumerate(t.elts):
                    self.assign(e, self.join_vals([(x[i], g) for x, g in v.alts]), fr)
            else:
                self.iter_over(v, un)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, fr)

    def x_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if fr.func is None and not fr.isclass:
                    self.w(Ref(fr.gns)).d.pop(t.id, None)
                    self.attrs_changed(fr.gns)
                else:
                    d = self.w(Ref(fr.env)).d
                    if t.id not in d:
                        self.throw("UnboundLocalError", t.id)
                    del d[t.id]
            elif isinstance(t, ast.Attribute):
                self.delattr(self.ev(t.value, fr), t.attr)
            elif isinstance(t, ast.Subscript):
                self.delitem(self.ev(t.value, fr), self.ev(t.slice, fr))

    def cond(self, test, fr, fthen, felse):
        """branch on a test expression"""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.cond(test.operand, fr, felse, fthen)
        if isinstance(test, ast.BoolOp):
            def go(vals):
                if len(vals) == 1:
                    return self.cond(vals[0], fr, fthen, felse)
                if isinstance(test.op, ast.And):
                    return self.cond(vals[0], fr, lambda: go(vals[1:]), felse)
                return self.cond(vals[0], fr, fthen, lambda: go(vals[1:]))
            return go(test.values)
        # narrow local names holding alternatives
        nm = self.vset_name(test, fr)
        if nm is not None:
            v = self.load(nm, fr)
            if type(v) is VSet:
                def one(x):
                    self.store_local(nm, x, fr)
                    return self.cond(test, fr, fthen, felse)
                return self.over(v, one)
        return self.fork_on(self.truth(self.ev(test, fr)), fthen, felse)

    def vset_name(self, test, fr):
        if fr.env is None or fr.isclass:
            return None
        names = getattr(test, "_kx_names", None)
        if names is None:
            names = test._kx_names = [n.id for n in ast.walk(test) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)]
        d = self.st.get(fr.env).d
        for n in names:
            if type(d.get(n)) is VSet:
                return n
        return None

    def store_local(self, name, v, fr):
        self.w(Ref(fr.env)).d[name] = v

    def x_If(self, s, fr):
        self.cond(s.test, fr, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr))

    def run_loop_body(self, body, fr, lp):
        base = self.st
        lp.continues = []
        fr.loops.append(lp)
        outs = []
        try:
            self.block(body, fr)
            outs.append((None, self.st))
        except Dead:
            pass
        finally:
            fr.loops.pop()
        outs += lp.continues
        lp.continues = []
        if not outs:
            return False
        self.join(base, outs)
        return True

    def x_While(self, s, fr):
        lp = Loop()
        base0 = self.st
        exits = []
        n = 0
        alive = True
        while alive:
            n += 1
            base = self.st
            tr, fl = [], []

            def t():
                tr.append(self.st)
                raise Dead()

            def e():
                fl.append(self.st)
                raise Dead()
            try:
                self.cond(s.test, fr, t, e)
            except Dead:
                pass
            exits += [(None, x) for x in fl]
            if not tr:
                break
            self.join(base, [(None, x) for x in tr])
            if n > MAXLOOP:
                self.imprecise("loop not bounded")
                exits.append((None, self.havoc(s, fr)))
                break
            alive = self.run_loop_body(s.body, fr, lp)
        outs = []
        if exits:
            self.join(base0, exits)
            if s.orelse:
                try:
                    self.block(s.orelse, fr)
                    outs.append((None, self.st))
                except Dead:
                    pass
            else:
                outs.append((None, self.st))
        outs += lp.breaks
        if not outs:
            raise Dead()
        self.join(base0, outs)

    def havoc(self, s, fr):
        names = set()
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
        for n in names:
            self.store(n, Unknown("loop variable"), fr)
        return self.st

    def x_For(self, s, fr):
        it = self.ev(s.iter, fr)
        self.for_over(it, s, fr)

    x_AsyncFor = x_For

    def for_over(self, it, s, fr):
        def run(x):
            base0 = self.st
            live = None
            kind = self.o(x).kind if type(x) is Ref else None
            if kind == "list" and (self.o(x).cls is None or not self.find_user(self.o(x).cls, "__iter__")):
                live = x
            if type(x) is Builtin and x.name == "count":
                kind = "count"
            lp = Loop()
            fr_node = fr.node

            def loop(get):
                i = 0
                outs = []
                alive = True
                while True:
                    ok, v = get(i)
                    if not ok:
                        break
                    i += 1
                    if i > 5000:
                        self.imprecise("loop not bounded")
                        break
                    fr.node = s
                    self.assign(s.target, v, fr)
                    if not self.run_loop_body(s.body, fr, lp):
                        alive = False
                        break
                if alive:
                    if s.orelse:
                        try:
                            self.block(s.orelse, fr)
                            outs.append((None, self.st))
                        except Dead:
                            pass
                    else:
                        outs.append((None, self.st))
                outs += lp.breaks
                if not outs:
                    raise Dead()
                self.join(base0, outs)

            if kind == "count":
                def get(i):
                    if i > MAXLOOP:
                        self.imprecise("loop not bounded")
                        return False, None
                    return True, self.binop("Add", x.attrs["start"], self.binop("Mult", i, x.attrs["step"]))
                loop(get)
            elif kind == "iter":
                def get(i):
                    o = self.o(x)
                    if type(o) is AltsO:
                        self.imprecise("iterator advanced differently")
                        o = o.alts[0][0]
                    k = o.x or 0
                    if k < len(o.items):
                        self.w(x).x = k + 1
                        return True, o.items[k]
                    return False, None
                loop(get)
            elif live is not None:
                def get(i):
                    o = self.o(live)
                    if type(o) is AltsO:
                        self.imprecise("list changed differently while iterated")
                        o = o.alts[0][0]
                    if type(o.x) is tuple and o.x[0] == "view" and i:
                        self.check_size(Ref(o.x[1]), o.x[2])
                    if i < len(o.items):
                        return True, o.items[i]
                    return False, None
                loop(get)
            else:
                def with_items(items):
                    nonlocal base0
                    base0 = self.st

                    def get(i):
                        if kind in ("dict", "set") and i:
                            self.check_size(x, len(items))
                        return (True, items[i]) if i < len(items) else (False, None)
                    loop(get)
                self.iter_over(x, with_items)
        self.over(it, run)

    def check_size(self, r, n):
        """RuntimeError when the container iterated over has changed its size"""
        def one(q):
            o = self.o(q)
            if type(o) is O and o.kind in ("dict", "set") and len(o.items) != n:
                self.throw("RuntimeError", "changed size during iteration")
        self.over(r, one)

    def x_Break(self, s, fr):
        fr.loops[-1].breaks.append((None, self.st))
        raise Dead()

    def x_Continue(self, s, fr):
        fr.loops[-1].continues.append((None, self.st))
        raise Dead()

    def x_Raise(self, s, fr):
        if s.exc is None:
            for f in reversed(self.frames):
                if f.exc is not None:
                    self.raises.append((f.exc, self.st))
                    raise Dead()
            return self.throw("RuntimeError", "No active exception to reraise")
        e = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)

        def one(x):
            if type(x) is ClassV:
                x = self.call(x, [])
            if type(x) is Unknown:
                self.imprecise("raise of unknown")
                return self.throw("Exception", "unknown")
            if type(x) is Opaque or (type(x) is Ref and not self.typeof(x).issub(self.M.T["BaseException"])):
                return self.throw("TypeError", "exceptions must derive from BaseException")
            return self.throw(x)
        self.over(e, one)

    def x_Try(self, s, fr):
        base0 = self.st
        saved = self.raises
        self.raises = []
        # intercept control flow when a finally clause must see it
        fin = bool(s.finalbody)
        if fin:
            sv_ret, fr.returns = fr.returns, []
            sv_lp = None
            if fr.loops:
                sv_lp = fr.loops
                fr.loops = list(fr.loops)
                tl = Loop()
                fr.loops[-1] = tl
        outs = []
        try:
            self.block(s.body, fr)
            normal = True
        except Dead:
            normal = False
        body_raises = self.raises
        self.raises = []
        if normal:
            try:
                if s.orelse:
                    self.block(s.orelse, fr)
                outs.append((None, self.st))
            except Dead:
                pass
        pending = list(self.raises)      # from orelse
        self.raises = []
        for exc, st in body_raises:
            self.handle(exc, st, s.handlers, fr, outs, pending)
        if fin:
            rets, fr.returns = fr.returns, sv_ret
            brk, cnt = [], []
            if sv_lp is not None:
                brk, cnt = tl.breaks, tl.continues
                fr.loops = sv_lp
            self.raises = saved

            def runfin(st):
                self.st = st
                self.block(s.finalbody, fr)
                return self.st
            nouts = []
            for v, st in outs:
                try:
                    nouts.append((v, runfin(st)))
                except Dead:
                    pass
            for v, st in rets:
                try:
                    fr.returns.append((v, runfin(st)))
                except Dead:
                    pass
            for lst, nm in ((brk, "breaks"), (cnt, "continues")):
                for v, st in lst:
                    try:
                        getattr(fr.loops[-1], nm).append((v, runfin(st)))
                    except Dead:
                        pass
            for exc, st in pending:
                try:
                    s2 = runfin(st)
                    self.raises.append((exc, s2))
                except Dead:
                    pass
            outs = nouts
        else:
            self.raises = saved
            self.raises.extend(pending)
        if not outs:
            raise Dead()
        self.join(base0, outs)

    x_TryStar = x_Try

    def handle(self, exc, st, handlers, fr, outs, pending):
        self.st = st
        alive = True
        for h in handlers:
            if h.type is None:
                m = True
            else:
                saved = self.raises
                self.raises = []
                try:
                    tv = self.ev(h.type, fr)
                    m = self.exc_match(exc, tv)
                except Dead:
                    pending.extend(self.raises)
                    self.raises = saved
                    return
                self.raises = saved
            if m is False:
                continue
            if m is not True:
                self.imprecise("handler match")
            if h.name:
                self.store(h.name, exc, fr)
            old = fr.exc
            fr.exc = exc
            saved = self.raises
            self.raises = []
            try:
                self.block(h.body, fr)
                if h.name and fr.env is not None:
                    self.w(Ref(fr.env)).d.pop(h.name, None)
                outs.append((None, self.st))
            except Dead:
                pass
            pending.extend(self.raises)
            self.raises = saved
            fr.exc = old
            return
        pending.append((exc, st))

    def exc_match(self, exc, tv):
        if type(tv) is tuple:
            r = False
            for t in tv:
                x = self.exc_match(exc, t)
                if x is True:
                    return True
                if x is not False:
                    r = x
            return r
        if type(tv) is ClassV:
            return self.typeof(exc).issub(tv)
        return Unknown("handler type %r" % (tv,))

    def x_With(self, s, fr):
        self.with_items(s.items, s.body, fr)

    x_AsyncWith = x_With

    def with_items(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        cm = self.ev(it.context_expr, fr)
        T = self.M.T
        if type(cm) is tuple and len(cm) == 2 and cm[0] == "suppress":
            types = cm[1]
            base0 = self.st
            saved = self.raises
            self.raises = []
            outs = []
            try:
                self.with_items(items[1:], body, fr)
                outs.append((None, self.st))
            except Dead:
                pass
            rs, self.raises = self.raises, saved
            for exc, st in rs:
                self.st = st
                if self.exc_match(exc, types) is True:
                    outs.append((None, st))
                else:
                    self.raises.append((exc, st))
            if not outs:
                raise Dead()
            self.join(base0, outs)
            return
        if type(cm) is Ref and self.o(cm).kind in ("inst",):
            v = self.call(self.getattr(cm, "__enter__" if self.getattr(cm, "__enter__", None) is not None else "__aenter__"), [])
            if type(v) is Coro:
                v = v.thunk()
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            base0 = self.st
            saved = self.raises
            self.raises = []
            sv_ret, fr.returns = fr.returns, []
            outs = []
            try:
                self.with_items(items[1:], body, fr)
                outs.append((None, self.st))
            except Dead:
                pass
            rs, self.raises = self.raises, saved
            rets, fr.returns = fr.returns, sv_ret

            def ex(st, args):
                self.st = st
                return self.call(self.getattr(cm, "__exit__"), args)
            nouts = []
            for v, st in outs:
                try:
                    ex(st, [None, None, None])
                    nouts.append((None, self.st))
                except Dead:
                    pass
            for v, st in rets:
                try:
                    ex(st, [None, None, None])
                    fr.returns.append((v, self.st))
                except Dead:
                    pass
            for exc, st in rs:
                try:
                    sup = self.truth(ex(st, [self.typeof(exc), exc, None]))
                    if sup is True:
                        nouts.append((None, self.st))
                    else:
                        if sup is not False:
                            self.imprecise("__exit__ result")
                        self.raises.append((exc, self.st))
                except Dead:
                    pass
            if not nouts:
                raise Dead()
            self.join(base0, nouts)
            return
        v = cm
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, fr)
        self.with_items(items[1:], body, fr)

    def x_Assert(self, s, fr):
        def bad():
            if s.msg is not None:
                self.ev(s.msg, fr)
            self.throw("AssertionError")
        self.cond(s.test, fr, lambda: None, bad)

    def x_Global(self, s, fr):
        pass

    x_Nonlocal = x_Global

    def x_TypeAlias(self, s, fr):
        pass

    def x_Import(self, s, fr):
        for al in s.names:
            m = self.import_module(al.name)
            if al.asname:
                self.store(al.asname, m, fr)
            else:
                top = al.name.split(".")[0]
                self.store(top, self.modules[top], fr)

    def x_ImportFrom(self, s, fr):
        name = s.module or ""
        if s.level:
            cur = self.modules[fr.module]
            pk = fr.module.split(".")
            if not self.is_pkg(cur):
                pk = pk[:-1]
            pk = pk[:len(pk) - (s.level - 1)]
            name = ".".join(pk + ([s.module] if s.module else []))
        if name == "__future__":
            return
        m = self.import_module(name)
        for al in s.names:
            if al.name == "*":
                d = self.o(Ref(m.ns)).d
                allv = d.get("__all__")
                names = self.seq_items(allv) if allv is not None else [k for k in d if not k.startswith("_")]
                for k in names:
                    self.store(k, d[k], fr)
                continue
            self.store(al.asname or al.name, self.import_from(m, name, al.name), fr)

    def import_from(self, m, name, attr):
        d = self.o(Ref(m.ns)).d
        if attr in d:
            return d[attr]
        full = name + "." + attr
        if m.path is not None:
            if self.is_pkg(m) and self.find_module(full):
                sub = self.import_module(full)
                return sub
            # circular import: the submodule may be in sys.modules already
            if full in self.modules:
                return self.modules[full]
            return self.throw("ImportError", "cannot import name '%s' from '%s'" % (attr, name))
        v = self.M.module_attr(self, m, attr)
        if v is UNDEF:
            return self.throw("ImportError", "cannot import name '%s' from '%s'" % (attr, name))
        return v

    def x_FunctionDef(self, s, fr):
        f = self.make_func(s, fr, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            v = self.decorate(dv, v)
        self.store(s.name, v, fr)

    x_AsyncFunctionDef = x_FunctionDef

    def decorate(self, dv, v):
        return self.call(dv, [v])

    def make_func(self, node, fr, name):
        a = node.args
        defaults = tuple(self.ev(x, fr) for x in a.defaults)
        kwd = {}
        for k, x in zip(a.kwonlyargs, a.kw_defaults):
            if x is not None:
                kwd[k.arg] = self.ev(x, fr)
        env = fr.env
        if fr.isclass:
            env = self.st.get(fr.env).x
        f = Func(node, name, env, fr.gns, defaults, kwd, fr.module)
        f.path = fr.path
        f.qual = (fr.name + "." + name) if fr.name and fr.name != "<module>" else name
        if fr.isclass:
            f.cls = fr.env      # class namespace id, resolved for super()
        return f

    def x_ClassDef(self, s, fr):
        bases = []
        for b in s.bases:
            v = self.ev(b, fr)
            if type(v) is Opaque and v.kind == "typing.Generic":
                continue
            if type(v) is Unknown or type(v) is Opaque or type(v) is OpaqueM:
                v = self.M.opaque_class(self, v)
            bases.append(v)
        kws = {}
        for k in s.keywords:
            if k.arg:
                kws[k.arg] = self.ev(k.value, fr)
        if not bases:
            bases = [self.M.T["object"]]
        ns = self.alloc(O("ns", None, {}, None, fr.env if not fr.isclass else self.st.get(fr.env).x))
        cf = Frame(ns.id, fr.gns, fr.func if False else None, fr.module, fr.path,
                   (fr.name + "." + s.name) if fr.name and fr.name != "<module>" else s.name)
        cf.isclass = True
        self.frames.append(cf)
        try:
            self.block(s.body, cf)
        finally:
            self.frames.pop()
        v = self.M.make_class(self, s.name, bases, ns.id, fr.module, kws,
                              (fr.path, s.name, s.lineno))
        for d in reversed(s.decorator_list):
            v = self.call(self.ev(d, fr), [v])
        self.store(s.name, v, fr)

    def x_Match(self, s, fr):
        subj = self.ev(s.subject, fr)

        def go(cases):
            if not cases:
                return None
            c = cases[0]

            def body():
                if c.guard is not None:
                    return self.cond(c.guard, fr, lambda: self.block(c.body, fr), lambda: go(cases[1:]))
                return self.block(c.body, fr)
            return self.match(c.pattern, subj, fr, body, lambda: go(cases[1:]))
        self.over(subj, lambda x: (self._set_subj(x), go(s.cases))[1]) if False else self._match_over(subj, s, fr)

    def _match_over(self, subj, s, fr):
        def run(x):
            def go(cases):
                if not cases:
                    return None
                c = cases[0]

                def body():
                    if c.guard is not None:
                        return self.cond(c.guard, fr, lambda: self.block(c.body, fr), lambda: go(cases[1:]))
                    return self.block(c.body, fr)
                return self.match(c.pattern, x, fr, body, lambda: go(cases[1:]))
            return go(s.cases)
        self.over(subj, run)

    def match(self, p, v, fr, yes, no):
        if isinstance(p, ast.MatchValue):
            return self.fork_on(self.truth(self.eq(v, self.ev(p.value, fr))), yes, no)
        if isinstance(p, ast.MatchSingleton):
            return self.fork_on(self.ident(v, p.value), yes, no)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store(p.name, v, fr)
                return yes()

            def y():
                if p.name:
                    self.store(p.name, v, fr)
                return yes()
            return self.match(p.pattern, v, fr, y, no)
        if isinstance(p, ast.MatchOr):
            def go(ps):
                if not ps:
                    return no()
                return self.match(ps[0], v, fr, yes, lambda: go(ps[1:]))
            return go(p.patterns)
        if isinstance(p, ast.MatchSequence):
            items = self.seq_items(v)
            if items is None or type(v) in (bytes, BytesV):
                return no()
            star = [i for i, e in enumerate(p.patterns) if isinstance(e, ast.MatchStar)]
            if not star:
                if len(items) != len(p.patterns):
                    return no()
                prs = list(zip(p.patterns, items))
            else:
                i = star[0]
                if len(items) < len(p.patterns) - 1:
                    return no()
                after = len(p.patterns) - 1 - i
                prs = list(zip(p.patterns[:i], items[:i]))
                if p.patterns[i].name:
                    self.store(p.patterns[i].name, self.new_list(items[i:len(items) - after]), fr)
                prs += list(zip(p.patterns[i + 1:], items[len(items) - after:]))

            def go(prs):
                if not prs:
                    return yes()
                return self.match(prs[0][0], prs[0][1], fr, lambda: go(prs[1:]), no)
            return go(prs)
        if isinstance(p, ast.MatchClass):
            cls = self.ev(p.cls, fr)

            def inner():
                prs = []
                if p.patterns:
                    if cls.native in ("int", "str", "float", "bytes", "bool", "list", "tuple", "dict"):
                        prs.append((p.patterns[0], v))
                    else:
                        ma = self.class_attr(cls, "__match_args__")
                        names = self.seq_items(ma) if ma is not UNDEF else (cls.nt_fields or cls.dataclass or [])
                        for q, n in zip(p.patterns, names):
                            prs.append((q, self.getattr(v, n)))
                for n, q in zip(p.kwd_attrs, p.kwd_patterns):
                    x = self.getattr(v, n, UNDEF if False else None)
                    prs.append((q, x))

                def go(prs):
                    if not prs:
                        return yes()
                    return self.match(prs[0][0], prs[0][1], fr, lambda: go(prs[1:]), no)
                return go(prs)
            return self.fork_on(self.isinstance_(v, cls), inner, no)
        if isinstance(p, ast.MatchMapping):
            self.imprecise("mapping pattern")
            return self.fork_on(Unknown("mapping pattern"), yes, no)
        raise Imprecise("pattern")

    # ------------------------------------------------------------- expressions
    def ev(self, e, fr):
        c = e.__class__
        f = self.dispatch.get(c)
        if f is None:
            f = self.dispatch[c] = getattr(self, "e_" + c.__name__)
        return f(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load(e.id, fr)

    def e_Attribute(self, e, fr):
        v = self.ev(e.value, fr)
        return self.getattr(v, e.attr)

    def e_Tuple(self, e, fr):
        return self.elts_k(e.elts, fr, tuple)

    def e_List(self, e, fr):
        return self.elts_k(e.elts, fr, self.new_list)

    def elts_k(self, elts, fr, fin):
        """the elements of a display or the arguments of a call, starred ones spread; fin gets the list"""
        if not any(isinstance(x, ast.Starred) for x in elts):
            return fin([self.ev(x, fr) for x in elts])

        def go(i, out):
            while i < len(elts) and not isinstance(elts[i], ast.Starred):
                out = out + [self.ev(elts[i], fr)]
                i += 1
            if i == len(elts):
                return fin(out)
            return self.iter_over(self.ev(elts[i].value, fr), lambda xs: go(i + 1, out + list(xs)))
        return go(0, [])

    def pick(self, v):
        """a VSet where a split is not possible: keep only if unique"""
        self.imprecise("alternatives in starred expression")
        if type(v) is VSet:
            return v.alts[0][0]
        return v

    def e_Set(self, e, fr):
        def fin(xs):
            r = self.alloc(O("set", None, None, []))
            for x in xs:
                self.M.set_add(self, r, x)
            return r
        return self.elts_k(e.elts, fr, fin)

    def e_Dict(self, e, fr):
        r = self.new_dict()
        for k, v in zip(e.keys, e.values):
            if k is None:
                src = self.ev(v, fr)

                def upd(s):
                    for p in self.M.dict_pairs(self, s):
                        self.dict_set(r, p[0], p[1])
                self.over(src, upd)
            else:
                kk = self.ev(k, fr)
                self.dict_set(r, kk, self.ev(v, fr))
        return r

    def e_BoolOp(self, e, fr):
        def go(vals):
            v = self.ev(vals[0], fr)
            if len(vals) == 1:
                return v
            return self.over(v, lambda x: self.boolop1(e.op, x, lambda: go(vals[1:])))
        return go(e.values)

    def boolop1(self, op, x, rest):
        tv = self.truth(x)
        if isinstance(op, ast.And):
            return self.fork_on(tv, rest, lambda: x if type(x) is not SBool else False)
        return self.fork_on(tv, lambda: x if type(x) is not SBool else True, rest)

    def e_IfExp(self, e, fr):
        return self.cond(e.test, fr, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_Compare(self, e, fr):
        def go(left, ops, comps):
            right = self.ev(comps[0], fr)
            r = self.compare(ops[0].__class__.__name__, left, right)
            if len(ops) == 1:
                return r
            return self.over(r, lambda x: self.fork_on(self.truth(x), lambda: go(right, ops[1:], comps[1:]), lambda: False))
        return go(self.ev(e.left, fr), e.ops, e.comparators)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        opn = e.op.__class__.__name__
        if opn == "Not":
            return self.over(v, lambda x: self.neg_truth(self.truth(x)))
        return self.over(v, lambda x: self.M.unary(self, opn, x))

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(e.op.__class__.__name__, a, b)

    def binop(self, opn, a, b):
        return self.over_all([a, b], lambda p: self.M.binop(self, opn, p[0], p[1]))

    def e_Subscript(self, e, fr):
        v = self.ev(e.value, fr)
        k = self.ev(e.slice, fr)
        return self.getitem(v, k)

    def e_Slice(self, e, fr):
        a = self.ev(e.lower, fr) if e.lower else None
        b = self.ev(e.upper, fr) if e.upper else None
        s = self.ev(e.step, fr) if e.step else None
        if any(type(x) is VSet for x in (a, b, s)):
            return self.over_all([a, b, s], lambda p: SliceV(*p))
        return SliceV(a, b, s)

    def e_Call(self, e, fr):
        # super() needs the frame
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            return self.M.super0(self, fr)
        if isinstance(e.func, ast.Name) and e.func.id in ("locals", "vars") and not e.args:
            d = self.o(Ref(fr.env)).d if fr.env is not None else self.o(Ref(fr.gns)).d
            return self.new_dict([[k, v] for k, v in d.items()])
        if isinstance(e.func, ast.Name) and e.func.id == "globals" and not e.args:
            return self.M.globals_(self, fr)
        f = self.ev(e.func, fr)
        if type(f) is Builtin and f.name in ("any", "all", "next") and e.args and isinstance(e.args[0], ast.GeneratorExp) \
                and f is self.M.BUILTINS[f.name] and not e.keywords and len(e.args) <= 2:
            return self.lazy_first(f.name, e, fr)

        def keywords(args):
            if not e.keywords:
                return finish(args, {})
            return kws(args, 0, {})

        def kws(args, i, kw):
            while i < len(e.keywords):
                k = e.keywords[i]
                v = self.ev(k.value, fr)
                i += 1
                if k.arg is None:
                    if type(v) is VSet or type(v) is Ref and type(self.o(v)) is AltsO:
                        def spread(x, i=i, kw=kw):
                            return kws(args, i, dict(kw, **dict(self.M.dict_pairs(self, x))))
                        return self.over(v, spread)
                    for kk, vv in self.M.dict_pairs(self, v):
                        kw[kk] = vv
                else:
                    kw[k.arg] = v
            return finish(args, kw)

        def finish(args, kw):
            old = fr.node
            if getattr(e, "lineno", None):
                fr.node = e
            r = self.call(f, args, kw)
            fr.node = old
            return r
        return self.elts_k(e.args, fr, keywords)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        # in a comprehension the target lives in the enclosing function
        if fr.env is not None and self.st.get(fr.env).site == "comp":
            i = fr.env
            while self.st.get(i).site == "comp":
                i = self.st.get(i).x
            self.w(Ref(i)).d[e.target.id] = v
        else:
            self.store(e.target.id, v, fr)
        return v

    def comp(self, e, fr, emit, lazy=None):
        env = self.alloc(O("ns", None, {}, None, fr.env if not fr.isclass else fr.env, "comp"))
        cf = Frame(env.id, fr.gns, fr.func, fr.module, fr.path, fr.name)
        cf.node = fr.node
        cf.exc = fr.exc
        self.frames.append(cf)

        def assign(t, v):
            if isinstance(t, ast.Name):
                self.w(env).d[t.id] = v
            elif isinstance(t, (ast.Tuple, ast.List)):
                def un(items):
                    if len(items) != len(t.elts):
                        self.throw("ValueError", "unpack")
                    for a, b in zip(t.elts, items):
                        assign(a, b)
                self.iter_over(v, un) if type(v) is not tuple else un(list(v))
            else:
                self.assign(t, v, cf)

        def gen(gs):
            if not gs:
                emit(cf)
                return
            g = gs[0]
            it = self.ev(g.iter, fr if g is e.generators[0] else cf)

            def run(items):
                for x in items:
                    assign(g.target, x)

                    def ifs(tests):
                        if not tests:
                            return gen(gs[1:])
                        return self.cond(tests[0], cf, lambda: ifs(tests[1:]), lambda: None)
                    ifs(g.ifs)
            self.iter_over(it, run)

        def lgen(gs, more):
            """continuation passing variant: more() goes on with the next element"""
            if not gs:
                return lazy[0](cf, self.ev(e.elt, cf), more)
            g = gs[0]
            it = self.ev(g.iter, fr if g is e.generators[0] else cf)

            def element(x, nxt):
                assign(g.target, x)

                def ifs(tests):
                    if not tests:
                        return lgen(gs[1:], nxt)
                    return self.cond(tests[0], cf, lambda: ifs(tests[1:]), nxt)
                return ifs(g.ifs)

            def over(x):
                if type(x) is Builtin and x.name == "count":
                    def cnt(i):
                        if i > MAXLOOP:
                            return self.imprecise("unbounded iterator")
                        return element(self.binop("Add", x.attrs["start"], self.binop("Mult", i, x.attrs["step"])),
                                       lambda: cnt(i + 1))
                    return cnt(0)

                def run(items, i=0):
                    if i == len(items):
                        return more()
                    return element(items[i], lambda: run(items, i + 1))
                return self.iter_over(x, run)
            return self.over(it, over)
        try:
            if lazy is not None:
                return lgen(e.generators, lazy[1])
            gen(e.generators)
        finally:
            self.frames.pop()

    def lazy_first(self, what, e, fr):
        """any/all/next of a generator expression: stops at the deciding element"""
        default = self.ev(e.args[1], fr) if len(e.args) > 1 else UNDEF

        def step(cf, v, more):
            if what == "next":
                return v
            return self.over(v, lambda x: self.fork_on(self.truth(x), (lambda: True) if what == "any" else more,
                                                       more if what == "any" else (lambda: False)))

        def end():
            if what == "next":
                return default if default is not UNDEF else self.throw("StopIteration")
            return what == "all"
        return self.comp(e.args[0], fr, None, (step, end))

    def e_ListComp(self, e, fr):
        r = self.new_list([])

        def emit(cf):
            v = self.ev(e.elt, cf)
            self.over(r, lambda rr: self.w(rr).items.append(v))
        self.comp(e, fr, emit)
        return r

    def e_GeneratorExp(self, e, fr):
        r = self.e_ListComp(e, fr)
        return self.over(r, lambda x: self.new_iter(self.o(x).items))

    def e_SetComp(self, e, fr):
        r = self.alloc(O("set", None, None, []))
        self.comp(e, fr, lambda cf: self.M.set_add(self, r, self.ev(e.elt, cf)))
        return r

    def e_DictComp(self, e, fr):
        r = self.new_dict()

        def emit(cf):
            k = self.ev(e.key, cf)
            self.dict_set(r, k, self.ev(e.value, cf))
        self.comp(e, fr, emit)
        return r

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.e_FormattedValue(v, fr))
        return self.over_all(parts, lambda p: mkstr(p))

    def e_FormattedValue(self, e, fr):
        v = self.ev(e.value, fr)
        spec = ""
        if e.format_spec is not None:
            spec = self.e_JoinedStr(e.format_spec, fr)
        conv = {-1: "", 115: "s", 114: "r", 97: "a"}[e.conversion]
        return self.over_all([v, spec], lambda p: self.M.format_value(self, p[0], p[1], conv))

    def e_Await(self, e, fr):
        v = self.ev(e.value, fr)
        return self.over(v, lambda x: self.M.await_(self, x))

    def e_Yield(self, e, fr):
        v = self.ev(e.value, fr) if e.value is not None else None
        f = fr
        y = f.yields
        if y is None:
            for f in reversed(self.frames):
                if f.yields is not None:
                    y = f.yields
                    break
        self.over(y, lambda r: self.w(r).items.append(v))
        return None

    def e_YieldFrom(self, e, fr):
        v = self.ev(e.value, fr)

        def add(items):
            self.over(fr.yields, lambda r: self.w(r).items.extend(items))
        self.iter_over(v, add)
        return None

    def e_Starred(self, e, fr):
        return self.ev(e.value, fr)

    # ------------------------------------------------------------- modules
    def find_module(self, name):
        p = os.path.join(self.root, *name.split("."))
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isdir(p) and name.split(".")[0] in ("knx_stack",):
            return p + os.sep        # namespace package
        return None

    def import_module(self, name):
        parts = name.split(".")
        m = None
        for k in range(1, len(parts) + 1):
            nm = ".".join(parts[:k])
            if nm in self.modules:
                m = self.modules[nm]
                continue
            path = self.find_module(nm)
            if path is None:
                if k > 1 and m is not None and m.path is not None:
                    return self.throw("ModuleNotFoundError", "No module named '%s'" % nm)
                m = self.M.stdlib_module(self, nm)
                self.modules[nm] = m
                if k > 1:
                    up = self.modules[".".join(parts[:k - 1])].ns
                    self.w(Ref(up)).d[parts[k - 1]] = m
                    if up in self.base:
                        self.base[up].d.setdefault(parts[k - 1], m)
                continue
            ns = self.alloc(O("ns", None, {"__name__": nm}))
            m = ModuleV(nm, ns.id, path)
            self.modules[nm] = m
            if os.path.isfile(path):
                self.run_module(m, path)
            if k > 1:
                self.w(Ref(self.modules[".".join(parts[:k - 1])].ns)).d[parts[k - 1]] = m
        return m

    def preload(self):
        """import what functions of the loaded modules import when they run,
        so that the module exists on every path of every later context"""
        done = set()
        while True:
            todo = [m for m in list(self.modules.values()) if m.path and m.name not in done and os.path.isfile(m.path)]
            if not todo:
                return
            for m in todo:
                done.add(m.name)
                with open(m.path, encoding="utf-8") as fh:
                    tree = ast.parse(fh.read(), m.path)
                for fn in ast.walk(tree):
                    if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        continue
                    for s in ast.walk(fn):
                        names = []
                        if isinstance(s, ast.Import):
                            names = [a.name for a in s.names]
                        elif isinstance(s, ast.ImportFrom):
                            name = s.module or ""
                            if s.level:
                                pk = m.name.split(".")
                                pk = pk if self.is_pkg(m) else pk[:-1]
                                pk = pk[:len(pk) - (s.level - 1)]
                                name = ".".join(pk + ([s.module] if s.module else []))
                            names = [name] + [name + "." + a.name for a in s.names if self.find_module(name + "." + a.name)]
                        for n in names:
                            if n and n != "__future__" and n not in self.modules:
                                p = n.split(".")
                                if self.find_module(p[0]) is None or self.find_module(n):
                                    self.import_module(n)

    def run_module(self, m, path):
        with open(path, encoding="utf-8") as fh:
            src = fh.read()
        tree = ast.parse(src, path)
        rel = os.path.relpath(path, self.root)
        self.loaded_paths.append(rel)
        fr = Frame(None, m.ns, None, m.name, rel, "<module>")
        self.frames.append(fr)
        try:
            self.block(tree.body, fr)
        finally:
            self.frames.pop()

    def run_source(self, src, names, modname="__harness__"):
        """analyse a client program text; returns its global namespace"""
        tree = ast.parse(src, modname)
        ns = self.alloc(O("ns", None, dict(names)))
        self.modules.setdefault(modname, ModuleV(modname, ns.id, modname))
        fr = Frame(None, ns.id, None, modname, modname, "<module>")
        self.frames.append(fr)
        try:
            self.block(tree.body, fr)
        finally:
            self.frames.pop()
        return ns

