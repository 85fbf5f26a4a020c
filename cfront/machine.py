"""The abstract C machine: memory, integer conversions, and loading of a C file.

A pointer is (block number, offset); a block is a list of octets, None where
nothing was written yet.  Every access is checked against the extent, the
lifetime and the initialisation of its block; a wrong one raises CError at the
C line of the access.
"""
import os

from absint import ints as I
from absint.interp import Interp
from absint.values import *  # noqa
from absint import models as M
from kx.core import Session
from . import front


class CSession(Session):
    """one interpreter with the environment (Python text) and a C file loaded"""

    def __init__(self, root, spec, prelude, pid, source, entries=("main",)):
        import ast
        self.pid = pid
        self.it = it = Interp(root)
        self.recs, self.failures, self.undecided, self.sites, self.notes = [], [], [], {}, {}
        it.evid_session = self
        self.lib_error = None
        self.names = {}
        self.text = prelude + spec
        self.prelude_lines = prelude.count("\n")
        names = {n: Builtin(n, fn) for n, fn in self.builtins().items()}
        it.fresh()
        self.ns = it.run_source(self.text, names, "__spec__")
        self.env = it.o(self.ns).d
        try:
            unit = front.Unit(os.path.join(root, source))
            tree = unit.translate(entries)
        except front.Unsupported as e:
            self.lib_error = ["%s: %s" % (source, e)]
            return
        missing = sorted(n for n in unit.extern if front.fname(n) not in self.env)
        if missing:
            self.lib_error = ["%s uses library functions the analysis has no model of: %s" % (source, missing)]
            return
        ns = it.alloc(O("ns", None, dict(self.env)))
        it.modules.setdefault(source, ModuleV(source, ns.id, source))
        fr = it_frame(ns.id, source)
        it.frames.append(fr)
        try:
            it.block(tree.body, fr)
        finally:
            it.frames.pop()
        for e in entries:
            it.w(self.ns).d["c_" + e] = it.o(ns).d[front.fname(e)]
        if it.st.imp or it.raises:
            self.lib_error = ["imprecise while loading: %s %s" % (it.st.imp, self.describe_raises())]
        it.freeze()
        self.spec_sites = {}
        for node in ast.walk(ast.parse(self.text)):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and \
                    node.func.id in ("check", "check_eq") and len(node.args) > 1:
                lab = node.args[2 if node.func.id == "check_eq" and len(node.args) > 2 else 1]
                self.spec_sites[node.lineno] = ast.unparse(lab)
        self.base_analysed = set(it.analysed)

    # ---------------------------------------------------------------- natives
    def bad(self, msg):
        self.it.throw(self.env["CError"], msg)

    def what(self, i):
        return self.names.get(i, "object")

    def cells(self, p, n, how):
        """the octets p..p+n, checked"""
        if type(p) is not tuple:
            self.bad("%s through the null pointer" % how if p == 0 else "%s through a number used as pointer" % how)
        i, o = p
        b = self.it.st.get(i)
        if type(b) is AltsO:
            raise Imprecise("memory block of several shapes")
        if b.x == "freed":
            self.bad("%s of %s after its lifetime" % (how, self.what(i)))
        if type(o) is not int:
            return b, None
        if o < 0 or o + n > len(b.items):
            self.bad("%s of %d octet(s) at offset %d of %s, which has %d" % (how, n, o, self.what(i), len(b.items)))
        return b, o

    def builtins(self):
        S = self
        d = Session.builtins(self)
        it = self.it

        def block(items, name, x=None):
            r = it.alloc(O("list", None, None, items, x))
            S.names[r.id] = name
            return (r.id, 0)

        def c_local(it, a, k):
            p = block([None] * a[1], a[0])
            fr = S.frame()
            if fr is not None:
                it.w(fr).items.append(p[0])
            return p

        def c_zero(it, a, k):
            return block([0] * a[1], a[0])

        def c_extern(it, a, k):
            for n, p in S.externs:
                if n == a[0]:
                    return p
            p = block([0] * a[1], a[0])
            S.externs.append((a[0], p))
            return p

        def c_text(it, a, k):
            return block(list(it.o(a[0]).items), "a string literal", "const")

        def c_new(it, a, k):
            """dynamic memory of a[1] octets, uninitialised"""
            return block([None] * a[1] if len(a) < 3 else [a[2]] * a[1], a[0])

        def c_free(it, a, k):
            p = a[0]
            if p == 0:
                return None
            S.cells(p, 0, "release")
            if p[1] != 0:
                S.bad("release of a pointer inside of an object")
            if S.what(p[0]) != "dynamic memory":
                S.bad("release of %s" % S.what(p[0]))
            it.st.mut(p[0]).x = "freed"
            return None

        S.externs = []

        def c_enter(it, a, k):
            return it.new_list([])

        def c_leave(it, a, k):
            for i in it.o(a[0]).items:
                it.st.mut(i).x = "freed"
            return None

        def value(cells, n, signed, p):
            if n == 1:
                v = cells[0]
                if v is None:
                    S.bad("use of an indeterminate octet of %s (offset %s)" % (S.what(p[0]), p[1]))
                if type(v) is tuple:
                    raise Imprecise("octet of a pointer")
                if signed:
                    return tosigned(v, 8)
                return v
            if any(c is None for c in cells):
                S.bad("use of indeterminate memory of %s (offset %s)" % (S.what(p[0]), p[1]))
            if type(cells[0]) is tuple:
                if n == 8 and all(type(c) is tuple and c[0] is cells[0][0] and c[1] == j for j, c in enumerate(cells)):
                    return cells[0][0].v
                raise Imprecise("part of a pointer")
            v = 0
            for j, c in enumerate(cells):
                if type(c) is tuple:
                    raise Imprecise("part of a pointer")
                v = I.add(v, I.mulc(c, 1 << (8 * j)))
            return tosigned(v, 8 * n) if signed else v

        def tosigned(v, bits):
            if type(v) is not I.SInt:
                return front.wrap(v, bits, True)
            lo, hi = I.rng(v, it.st.facts)
            if hi < 1 << (bits - 1):
                return v
            if lo >= 1 << (bits - 1):
                return I.sub(v, 1 << bits)
            return I.trunc(v, bits, True, it.st.facts)

        def table(p, n):
            """entry of a table of known octets that rise or fall evenly over all indices possible"""
            if n != 1 or type(p[1]) is not I.SInt:
                return None
            b = it.st.get(p[0])
            if type(b) is AltsO or b.x == "freed":
                return None
            lo, hi = I.rng(p[1], it.st.facts)
            if lo < 0 or hi >= len(b.items) or hi == lo:
                return None
            cs = b.items[lo:hi + 1]
            if any(type(c) is not int for c in cs):
                return None
            d = cs[1] - cs[0]
            if any(y - x != d for x, y in zip(cs, cs[1:])):
                return None
            return I.add(I.mulc(I.sub(p[1], lo), d), cs[0]) if d else cs[0]

        def c_ld(it, a, k):
            p, n, signed = a
            if type(p) is tuple and type(p[1]) is not int:
                v = table(p, n)
                if v is not None:
                    return tosigned(v, 8) if signed else v

                def go(o):
                    return c_ld(it, [(p[0], o), n, signed], k)
                return it.over(it.split_int(p[1]), go)
            b, o = S.cells(p, n, "read")
            cs = b.items[o:o + n]
            for j, c in enumerate(cs):
                if type(c) is VSet:
                    def go(x, j=j):
                        ys = cs[:j] + [x] + cs[j + 1:]
                        return value(ys, n, signed, p)
                    return it.over(c, go)
            return value(cs, n, signed, p)

        def c_st(it, a, k):
            p, n, v = a
            if type(p) is tuple and type(p[1]) is not int:
                raise Imprecise("write at a symbolic offset")
            b, o = S.cells(p, n, "write")
            if b.x == "const":
                S.bad("write into a string literal")
            b = it.st.mut(p[0])
            if type(v) in (tuple, Func, Builtin, Bound) or type(v) is VSet:
                if n == 1 and type(v) is VSet:
                    b.items[o] = v
                    return v
                h = Held(v)
                b.items[o:o + n] = [(h, j) for j in range(n)]
                return v
            it.wrote(p[0])
            if type(v) is bool:
                v = int(v)
            if type(v) is int:
                b.items[o:o + n] = [(v >> (8 * j)) & 255 for j in range(n)]
            elif type(v) is I.SInt:
                if n == 1:
                    b.items[o] = cast(v, 8, False)
                else:
                    u = cast(v, 8 * n, False)
                    b.items[o:o + n] = [I.trunc(I.shr(u, 8 * j, it.st.facts), 8, False, it.st.facts) for j in range(n)]
            else:
                raise Imprecise("store of %r" % (v,))
            return v

        def c_peek(it, a, k):
            """octets without a check of initialisation: None where indeterminate"""
            b, o = S.cells(a[0], a[1], "read")
            return it.new_list(b.items[o:o + a[1]])

        def c_poke(it, a, k):
            items = list(it.o(a[1]).items)
            b, o = S.cells(a[0], len(items), "write")
            if b.x == "const":
                S.bad("write into a string literal")
            it.wrote(a[0][0])
            it.st.mut(a[0][0]).items[o:o + len(items)] = items
            return None

        def c_copy(it, a, k):
            dst, src, n = a
            if n == 0:
                return dst
            s, o = S.cells(src, n, "read")
            data = s.items[o:o + n]
            b, o = S.cells(dst, n, "write")
            if b.x == "const":
                S.bad("write into a string literal")
            it.st.mut(dst[0]).items[o:o + n] = data
            return dst

        def c_dup(it, a, k):
            s, o = S.cells(a[0], a[1], "read")
            return block(s.items[o:o + a[1]], "argument")

        def c_clear(it, a, k):
            S.cells(a[0], a[1], "write")
            o = a[0][1]
            it.st.mut(a[0][0]).items[o:o + a[1]] = [0] * a[1]
            return None

        def c_room(it, a, k):
            """octets left in the object behind a pointer"""
            b, o = S.cells(a[0], 0, "access")
            return len(b.items) - o

        def c_add(it, a, k):
            p, o = a
            if type(p) is not tuple:
                if o == 0:
                    return p
                S.bad("arithmetic on the null pointer")
            return (p[0], I.add(p[1], o))

        def c_diff(it, a, k):
            p, q, n = a
            if type(p) is not tuple or type(q) is not tuple or p[0] != q[0]:
                S.bad("comparison or difference of pointers to different objects")
            d = I.sub(p[1], q[1])
            return c_div(it, [d, n], k) if n != 1 else d

        def cast(v, bits, signed):
            if type(v) is not I.SInt:
                if type(v) in (int, bool):
                    return front.wrap(int(v), bits, signed)
                raise Imprecise("integer conversion of %r" % (v,))
            lo, hi = I.rng(v, it.st.facts)
            a, b = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
            if a <= lo and hi <= b:
                return v
            w = 1 << bits
            if lo // w == hi // w and not signed:
                return I.sub(v, lo // w * w)
            if signed and (lo + w // 2) // w == (hi + w // 2) // w:
                return I.sub(v, (lo + w // 2) // w * w)
            return I.trunc(v, bits, signed, it.st.facts)

        def c_int(it, a, k):
            return cast(a[0], a[1], bool(a[2]))

        def c_sgn(it, a, k):
            v, bits = a
            if type(v) is int:
                if -(1 << (bits - 1)) <= v < 1 << (bits - 1):
                    return v
                S.bad("signed overflow")
            if type(v) is not I.SInt:
                raise Imprecise("arithmetic result %r" % (v,))
            lo, hi = I.rng(v, it.st.facts)
            if -(1 << (bits - 1)) <= lo and hi < 1 << (bits - 1):
                return v
            raise Imprecise("possible signed overflow")

        def c_div(it, a, k):
            x, y = a
            if type(y) is not int:
                raise Imprecise("division by a symbolic value")
            if y == 0:
                S.bad("division by zero")
            if type(x) is int:
                q = abs(x) // abs(y)
                return q if (x < 0) == (y < 0) else -q
            lo, hi = I.rng(x, it.st.facts)
            if lo >= 0 and y > 0:
                return I.floordiv(x, y, it.st.facts)
            raise Imprecise("division of a possibly negative value")

        def c_mod(it, a, k):
            x, y = a
            if type(y) is not int:
                raise Imprecise("division by a symbolic value")
            if y == 0:
                S.bad("division by zero")
            if type(x) is int:
                return x - y * c_div(it, [x, y], k)
            lo, hi = I.rng(x, it.st.facts)
            if lo >= 0 and y > 0:
                return I.mod(x, y, it.st.facts)
            raise Imprecise("division of a possibly negative value")

        def c_amount(it, a, k):
            n, bits = a
            if type(n) is int and 0 <= n < bits:
                return n
            if type(n) is int:
                S.bad("shift by %d of a %d bit value" % (n, bits))
            return n

        def c_upd(it, a, k):
            p, n, signed, f, post = a
            old = c_ld(it, [p, n, signed], k)
            new = it.call(f, [old], {})
            c_st(it, [p, n, new], k)
            return old if post else new

        def c_first(it, a, k):
            return a[0]

        def c_second(it, a, k):
            return a[1]

        def c_name(it, a, k):
            return S.what(a[0][0]) if type(a[0]) is tuple else "null"

        for f in (c_local, c_zero, c_extern, c_text, c_new, c_free, c_enter, c_leave, c_ld, c_st, c_peek, c_poke, c_copy,
                  c_dup, c_clear, c_room, c_add, c_diff, c_int, c_sgn, c_div, c_mod, c_amount, c_upd, c_first, c_second, c_name):
            d[f.__name__] = f
        return d

    def frame(self):
        """the objects of the activation that is running"""
        for f in reversed(self.it.frames):
            if f.env is not None:
                v = self.it.st.get(f.env).d.get("c_frame")
                if v is not None:
                    return v
        return None


class Held:
    """a pointer stored in memory"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Held and self.v == o.v

    def __hash__(self):
        return hash(self.v)


def it_frame(nsid, name):
    from absint.interp import Frame
    return Frame(None, nsid, None, name, name, "<module>")
