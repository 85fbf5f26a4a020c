"""Numbers, floats and text formatting."""
import struct as _struct
from fractions import Fraction

from . import ints as I
from .values import *  # noqa

REL = 2.0 ** -50


# ------------------------------------------------------------------ ints
def int_binop(it, opn, x, y):
    f = it.st.facts
    sx, sy = type(x) is I.SInt, type(y) is I.SInt
    if not sx and not sy:
        try:
            if opn == "Add":
                return x + y
            if opn == "Sub":
                return x - y
            if opn == "Mult":
                return x * y
            if opn == "FloorDiv":
                return x // y
            if opn == "Mod":
                return x % y
            if opn == "Pow":
                if abs(y) > 4096 and abs(x) > 1:
                    return it.imprecise("huge power")
                return x ** y
            if opn == "LShift":
                if y > 1 << 16:
                    return it.imprecise("huge shift")
                return x << y
            if opn == "RShift":
                return x >> y
            if opn == "BitAnd":
                return x & y
            if opn == "BitOr":
                return x | y
            if opn == "BitXor":
                return x ^ y
            if opn == "Div":
                return x / y
        except ZeroDivisionError:
            return it.throw("ZeroDivisionError", "division by zero")
        except ValueError as e:
            return it.throw("ValueError", str(e))
        return it.throw("TypeError", "unsupported operand %s" % opn)
    if opn == "Add":
        return I.add(x, y)
    if opn == "Sub":
        return I.sub(x, y)
    if opn == "Mult":
        if not sy:
            return I.mulc(x, y)
        if not sx:
            return I.mulc(y, x)
        return sym_mul(it, x, y)
    if opn in ("BitAnd", "BitOr", "BitXor"):
        return I.bitwise({"BitAnd": "and", "BitOr": "or", "BitXor": "xor"}[opn], x, y, f)
    if opn in ("LShift", "RShift", "Pow"):
        if sy:
            lo, hi = I.rng(y, f)
            if hi - lo > 64:
                return it.imprecise("shift by an unknown amount")
            ys = it.split_int(y)
            return it.over(ys, lambda k: int_binop(it, opn, x, k))
        if opn == "Pow":
            if y == 0:
                return 1
            if y == 1:
                return x
            if y == 2:
                return sym_mul(it, x, x)
            return it.imprecise("power of unknown")
        if y < 0:
            return it.throw("ValueError", "negative shift count")
        return I.shl(x, y) if opn == "LShift" else I.shr(x, y, f)
    if opn in ("FloorDiv", "Mod"):
        if sy:
            lo, hi = I.rng(y, f)
            if lo <= 0 <= hi:
                z = it.eqz(y)
                if z is True:
                    return it.throw("ZeroDivisionError", "division by zero")
                if z is not False:
                    return it.fork_on(z, lambda: it.throw("ZeroDivisionError", "division by zero"),
                                      lambda: int_binop(it, opn, x, y))
            ys = it.split_int(y) if hi - lo <= 64 else None
            if ys is None:
                return I.op(opn.lower(), (x, y), -(1 << 64), 1 << 64)
            return it.over(ys, lambda k: int_binop(it, opn, x, k))
        if y == 0:
            return it.throw("ZeroDivisionError", "division by zero")
        if y < 0:
            x, y = I.neg(x), -y
            if opn == "Mod":
                return I.neg(int_binop(it, opn, x, y))
        return I.floordiv(x, y, f) if opn == "FloorDiv" else I.mod(x, y, f)
    if opn == "Div":
        return float_binop(it, "Div", tofl(it, x), tofl(it, y))
    return it.throw("TypeError", "unsupported operand %s" % opn)


def sym_mul(it, x, y):
    f = it.st.facts
    for a, b in ((x, y), (y, x)):
        lo, hi = I.rng(b, f)
        if hi - lo <= 1:
            return it.over(it.split_int(b), lambda k: I.mulc(a, k) if type(k) is int else k)
    a0, a1 = I.rng(x, f)
    b0, b1 = I.rng(y, f)
    ps = (a0 * b0, a0 * b1, a1 * b0, a1 * b1)
    a, b = sorted((x, y), key=str)
    return I.op("mul", (a, b), min(ps), max(ps))


# ------------------------------------------------------------------ floats
def lin(q, n, eps, cls=None):
    """q*n +- eps as an abstract float"""
    q = Fraction(q)
    cls = cls or SFloat
    if type(n) is int and eps == 0 and cls is SFloat:
        v = q * n
        fl = float(v)
        if Fraction(fl) == v:
            return fl
    if type(n) is I.SInt:
        # pull a common factor out of the integer form
        key, s, g = I.normkey(n.t)
        if n.c == 0 and s * g != 1:
            q, n = q * s * g, I.mulc(n, 1)
            n = I._mk(0, dict(key))
        hi = max(abs(v) for v in I.rng(n))
        if q.denominator > 10 ** 7:
            q2 = q.limit_denominator(10 ** 6)
            if abs(float(q2 - q)) * max(1, hi) < 1e-7 * max(1.0, abs(float(q))):
                eps += abs(float(q2 - q)) * hi
                q = q2
    return cls("lin", q, n, eps)


def tofl(it, v):
    t = type(v)
    if t in (SFloat, SDec):
        return v
    if t is float:
        return v
    if it.is_intlike(v):
        v = it.intval(v)
        if type(v) is int:
            return float(v) if abs(v) < 1 << 53 else SFloat("lin", Fraction(v), 1, 0.0)
        return SFloat("lin", Fraction(1), v, 0.0)
    return None


def aslin(v):
    """(q, n, eps) of a float-like value, or None"""
    if type(v) is float:
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(v), 1, 0.0
    if type(v) in (SFloat, SDec) and v.kind == "lin":
        return v.q, v.n, v.eps
    return None


def mag(it, l):
    q, n, eps = l
    lo, hi = I.rng(n, it.st.facts)
    return abs(float(q)) * max(abs(lo), abs(hi)) + eps


def opfloat(name, *args, cls=SFloat):
    return cls("op", tag=(name,) + tuple(str(a) for a in args))


def float_binop(it, opn, a, b):
    dec = type(a) is SDec or type(b) is SDec
    cls = SDec if dec else SFloat
    if type(a) is float and type(b) is float and not dec:
        try:
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b,
                    "Div": lambda: a / b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b,
                    "Pow": lambda: a ** b}[opn]()
        except ZeroDivisionError:
            return it.throw("ZeroDivisionError", "float division by zero")
        except OverflowError:
            return it.throw("OverflowError", "float")
        except KeyError:
            return it.throw("TypeError", "unsupported operand for float")
    la, lb = aslin(a), aslin(b)
    if la is None or lb is None:
        if opn in ("BitAnd", "BitOr", "BitXor", "LShift", "RShift"):
            return it.throw("TypeError", "unsupported operand for float")
        return opfloat(opn, a, b, cls=cls)
    ca, cb = type(la[1]) is int, type(lb[1]) is int
    if opn == "Mult":
        if ca and not cb:
            la, lb, ca, cb = lb, la, cb, ca
        if cb:
            k = lb[0] * lb[1]
            e = la[2] * abs(float(k)) + lb[2] * mag(it, la)
            r = (la[0] * k, la[1], 0.0)
            e += mag(it, r) * REL if not _exact(it, r) or e else 0.0
            return lin(la[0] * k, la[1], e, cls)
        p = sym_mul(it, la[1], lb[1])

        def mk(p):
            if type(p) is Unknown:
                return p
            r = (la[0] * lb[0], p, 0.0)
            e = la[2] * mag(it, lb) + lb[2] * mag(it, la)
            e += mag(it, r) * REL if not _exact(it, r) or e else 0.0
            return lin(r[0], p, e, cls)
        return it.over(p, mk)
    if opn == "Div":
        if cb:
            k = lb[0] * lb[1]
            if k == 0:
                return it.throw("ZeroDivisionError", "float division by zero")
            e = la[2] / abs(float(k)) + lb[2] * mag(it, la) / float(k) ** 2
            r = (la[0] / k, la[1], 0.0)
            e += mag(it, r) * REL if not _exact(it, r) or e else 0.0
            return lin(r[0], la[1], e, cls)
        return opfloat("Div", a, b, cls=cls)
    if opn in ("Add", "Sub"):
        sg = 1 if opn == "Add" else -1
        qa, qb = la[0], lb[0]
        den = qa.denominator * qb.denominator // _gcd(qa.denominator, qb.denominator)
        ia, ib = int(qa * den), int(qb * den)
        if den < 10 ** 12 or (ca and cb):
            g = _gcd(abs(ia), abs(ib)) or 1
            n = I.add(I.mulc(la[1], ia // g), I.mulc(lb[1], sg * ib // g))
            r = (Fraction(g, den), n, 0.0)
            e = la[2] + lb[2]
            e += mag(it, r) * REL if not _exact(it, r) or e else 0.0
            return lin(r[0], n, e, cls)
    return opfloat(opn, a, b, cls=cls)


def _gcd(a, b):
    from math import gcd
    return gcd(a, b)


def _exact(it, r):
    """is q*n always exactly representable as a double"""
    q, n, _ = r
    d = q.denominator
    if d & (d - 1):
        return False
    lo, hi = I.rng(n, it.st.facts)
    return abs(q.numerator) * max(abs(lo), abs(hi)) < 1 << 53 and d < 1 << 60


def float_unary(it, opn, v):
    if type(v) is float:
        return -v if opn == "USub" else v
    if opn == "UAdd":
        return v
    l = aslin(v)
    if l is None:
        return opfloat(opn, v, cls=type(v))
    return lin(-l[0], l[1], l[2], type(v))


def float_abs(it, v):
    if type(v) is float:
        return abs(v)
    l = aslin(v)
    if l is None:
        return opfloat("abs", v, cls=type(v))
    return it.fork_on(it.order("Lt", v, 0), lambda: float_unary(it, "USub", v), lambda: v)


def float_cmp(it, opn, a, b):
    fa, fb = tofl(it, a), tofl(it, b)
    if fa is None or fb is None:
        if opn == "eq":
            return False
        return it.throw("TypeError", "ordering of float and %s" % it.typeof(b if fa is not None else a).name)
    if type(fa) is float and type(fb) is float:
        return {"eq": fa == fb, "Lt": fa < fb, "LtE": fa <= fb, "Gt": fa > fb, "GtE": fa >= fb}[opn]
    la, lb = aslin(fa), aslin(fb)
    if la is None or lb is None:
        if opn == "eq" and fa == fb:
            return True
        return Unknown("comparison of %r and %r" % (fa, fb))
    qa, qb = la[0], lb[0]
    den = qa.denominator * qb.denominator // _gcd(qa.denominator, qb.denominator)
    d = I.sub(I.mulc(la[1], int(qa * den)), I.mulc(lb[1], int(qb * den)))
    d = I.resum(I.subst(d, it.st.facts))
    eps = la[2] + lb[2]
    # zero operand: the error of q*n is relative, hence vanishes with n
    zero = (la[1] == 0 and la[2] == 0) or (lb[1] == 0 and lb[2] == 0) or \
        (type(fa) is float and fa == 0.0) or (type(fb) is float and fb == 0.0)
    if eps and not zero:
        lo, hi = I.rng(d, it.st.facts)
        e = Fraction(eps) * den
        if lo > e:
            r = 1
        elif hi < -e:
            r = -1
        else:
            # distinguishable when the gap between multiples exceeds the error
            if type(d) is I.SInt:
                key, s, g = I.normkey(d.t)
                off = d.c % g
                if e < min(off, g - off):
                    eps = 0
            if eps:
                return Unknown("comparison within rounding error: %s of %s (%s)" % (opn, d, float(eps)))
            r = None
        if r is not None:
            return {"eq": False, "Lt": r < 0, "LtE": r < 0, "Gt": r > 0, "GtE": r > 0}[opn]
    if type(d) is int:
        return {"eq": d == 0, "Lt": d < 0, "LtE": d <= 0, "Gt": d > 0, "GtE": d >= 0}[opn]
    return it.eq(d, 0) if opn == "eq" else it.order(opn, d, 0)


def to_int(it, v):
    """int(v) for a float-like v (truncation)"""
    if type(v) is float:
        try:
            return int(v)
        except (ValueError, OverflowError) as e:
            return it.throw(type(e).__name__, str(e))
    l = aslin(v)
    if l is None:
        return I.op("int", (str(v),), -(1 << 63), 1 << 63)
    q, n, eps = l
    if q.denominator == 1 and eps == 0:
        return I.mulc(n, q.numerator)
    if eps == 0 and type(n) is int:
        return int(q * n)
    if eps == 0 and q < 0:
        return it.over(to_int(it, lin(-q, n, 0.0)), I.neg)
    if eps == 0 and q > 0:
        lo, hi = I.rng(n, it.st.facts)
        if lo >= 0:
            return I.floordiv(I.mulc(n, q.numerator), q.denominator, it.st.facts)
        return it.fork_on(it.order("GtE", n, 0),
                          lambda: I.floordiv(I.mulc(n, q.numerator), q.denominator, it.st.facts),
                          lambda: I.neg(I.floordiv(I.mulc(n, -q.numerator), q.denominator, it.st.facts)))
    lo, hi = I.rng(n, it.st.facts)
    m = int(abs(q) * max(abs(lo), abs(hi)) + 1)
    return I.op("trunc", (str(v),), -m, m)


def do_round(it, v, nd):
    if it.is_intlike(v):
        return it.intval(v)
    if type(v) is float:
        try:
            return round(v) if nd is None else round(v, nd)
        except (ValueError, OverflowError) as e:
            return it.throw(type(e).__name__, str(e))
    l = aslin(v)
    if l is None:
        if nd is None:
            return I.op("round", (str(v),), -(1 << 63), 1 << 63)
        return opfloat("round%s" % nd, v, cls=type(v))
    q, n, eps = l
    step = Fraction(1, 10 ** (nd or 0)) if (nd or 0) >= 0 else Fraction(10 ** (-nd))
    r = q / step
    if r.denominator == 1 and eps < float(step) / 2:
        if nd is None:
            return I.mulc(n, r.numerator)
        e = 0.0 if type(v) is SDec or step == 1 else mag(it, (q, n, 0.0)) * REL
        return lin(q, n, e, type(v))
    if nd is None:
        if type(n) is int and eps == 0:
            return round(q * n)
        lo, hi = I.rng(n, it.st.facts)
        m = int(abs(q) * max(abs(lo), abs(hi)) + 1)
        return I.op("round", (str(v),), -m, m)
    if type(v) is SDec and type(n) is int:
        return lin(Fraction(round(Fraction(q) * n / step)) * step, 1, 0.0, SDec)
    return lin(q, n, eps + float(step) / 2, type(v))


# ------------------------------------------------------------------ text
def ndigits(it, v, width, base_bits, mk):
    """split on the number of base-2^k digits of v >= 0"""
    lo, hi = I.rng(v, it.st.facts)
    k = max(1, width)
    top = 1 << (base_bits * k)
    if hi < top:
        return mk(k)
    return it.fork_on(it.lez(I.sub(v, top - 1)), lambda: mk(k),
                      lambda: ndigits(it, v, k + 1, base_bits, mk))


def fmt_int(it, v, width, zero, conv, alt=False, sign=""):
    """v int/SInt rendered with %[0][width]conv"""
    if type(v) is not int:
        lo, hi = I.rng(v, it.st.facts)
        if lo is not None and lo == hi:
            v = lo
    if type(v) is int:
        s = {"x": "%x", "X": "%X", "d": "%d", "o": "%o"}.get(conv)
        if conv == "b":
            s = bin(v)[2:] if v >= 0 else "-" + bin(v)[3:]
        else:
            s = s % v
        if alt:
            neg = s.startswith("-")
            s = s.lstrip("-")
            p = {"x": "0x", "X": "0X", "b": "0b", "o": "0o"}.get(conv, "")
            s = p + (s.rjust(width - len(p) - neg, "0") if zero else s)
            if neg:
                s = "-" + s
        if sign in ("+", " ") and sign and v >= 0:
            s = sign + s
        if len(s) < width:
            if zero and not alt:
                neg = s[0] in "+- "
                s = (s[0] if neg else "") + s[neg:].rjust(width - neg, "0")
            else:
                s = s.rjust(width)
        return s
    if conv in ("x", "X") and sign == "":
        lo, hi = I.rng(v, it.st.facts)
        if lo < 0:
            return it.fork_on(it.order("Lt", v, 0),
                              lambda: mkstr(("-", fmt_int(it, I.neg(v), 0, False, conv))) if width == 0 else
                              it.imprecise("negative hex"),
                              lambda: fmt_int(it, v, width, zero, conv, alt))
        pre = ("0x" if conv == "x" else "0X") if alt else ""
        w = max(0, width - len(pre)) if zero else 0

        def mk(k):
            b = I.bits_of(v, 4 * k, it.st.facts)
            chs = [Ch(I.from_bits(b[4 * i:4 * i + 4]), conv == "X") for i in range(k - 1, -1, -1)]
            if not zero and width > k + len(pre):
                return mkstr([" " * (width - k - len(pre)), pre] + chs)
            return mkstr([pre] + chs)
        return ndigits(it, v, w, 4, mk)
    if width == 0 and conv == "d":
        return mkstr((Piece("dec", v),))
    return mkstr((Piece("fmt", ("%s%d%s%s" % ("0" if zero else "", width, conv, sign), v)),))


def apply_spec(it, v, spec):
    """format(v, spec) for int-like / str / float v"""
    if type(spec) is not str:
        return mkstr((Piece("fmt", (str(spec), v)),))
    if spec == "":
        return to_str(it, v, False)
    import re
    m = re.fullmatch(r"(?:(.)?([<>=^]))?([+\- ]?)(#?)(0?)(\d*)([,_]?)(?:\.(\d+))?([a-zA-Z%]?)", spec)
    if not m:
        return it.throw("ValueError", "Invalid format specifier")
    fill, align, sign, alt, zero, width, grp, prec, typ = m.groups()
    w = int(width) if width else 0
    if it.is_intlike(v) and typ in ("", "d", "x", "X", "b", "o") and not grp and prec is None:
        iv = it.intval(v)
        if type(iv) is int:
            return format(iv, spec)
        z = bool(zero) or (fill == "0" and align in (">", "="))
        if (not align or z or w == 0) and sign in ("", "-"):
            return fmt_int(it, iv, w, z, typ or "d", bool(alt))
    if type(v) in (str, float):
        try:
            return format(v, spec)
        except ValueError as e:
            return it.throw("ValueError", str(e))
    if type(v) is SStr:
        ch = v.chars()
        if ch is not None and typ in ("", "s") and prec is None and not sign and not alt and not grp:
            pad = max(0, w - len(ch))
            f = fill or ("0" if zero else " ")
            if align == ">":
                return mkstr([f * pad, v])
            if align in (None, "<"):
                return mkstr([v, f * pad])
    if it.is_intlike(v) or type(v) in (SFloat, SDec, SStr):
        return mkstr((Piece("fmt", (spec, v)),))
    return it.throw("TypeError", "unsupported format string passed to %s.__format__" % it.typeof(v).name)


def format_value(it, v, spec, conv=""):
    if conv in ("r", "a"):
        return it.over(to_str(it, v, True), lambda s: apply_spec(it, s, spec) if spec != "" else s)
    if conv == "s":
        return it.over(to_str(it, v, False), lambda s: apply_spec(it, s, spec) if spec != "" else s)
    if type(v) is Ref:
        o = it.o(v)
        if o.cls is not None:
            m = it.find_user(o.cls, "__format__")
            if m is not None:
                return it.call(Bound(m, v), [spec])
        if spec == "":
            return to_str(it, v, False)
        return it.throw("TypeError", "unsupported format string")
    if type(v) in (EnumM, SEnum) and not it.enum_is_int(v.cls):
        return it.over(to_str(it, v, False), lambda s: apply_spec(it, s, spec) if spec != "" else s)
    return apply_spec(it, v, spec)


def concat(it, parts):
    return it.over_all(list(parts), lambda p: mkstr(p) if not any(type(x) is Unknown for x in p)
                       else next(x for x in p if type(x) is Unknown))


def join_repr(it, vals, sep=", "):
    out = []
    for i, v in enumerate(vals):
        if i:
            out.append(sep)
        out.append(it.over(v, lambda x: to_str(it, x, True)))
    return concat(it, out) if out else ""


def to_str(it, v, rep):
    t = type(v)
    if t is VSet:
        return it.over(v, lambda x: to_str(it, x, rep))
    if t is str:
        return repr(v) if rep else v
    if t is SStr:
        return mkstr(("'", v, "'")) if rep else v
    if v is None or t is bool or t is int or t is float:
        return repr(v)
    if t is bytes:
        return repr(v)
    if t is I.SInt:
        return mkstr((Piece("dec", v),))
    if t is SBool:
        return it.fork_on(v, lambda: "True", lambda: "False")
    if t in (SFloat, SDec):
        return mkstr((Piece("float", v),))
    if t is tuple:
        if not v:
            return "()"
        return concat(it, ["(", join_repr(it, v), ",)" if len(v) == 1 else ")"])
    if t in (EnumM, SEnum):
        m = it.find_user(v.cls, "__repr__" if rep else "__str__")
        if m is not None and type(m) is Func:
            return it.call(Bound(m, v), [])
        nm = it.getattr(v, "name")
        if rep:
            return concat(it, ["<%s." % v.cls.name, nm, ": ", to_str(it, it.getattr(v, "value"), True), ">"])
        if it.enum_is_int(v.cls):
            return to_str(it, it.intval(v), False)
        if it.M.T["str"] in v.cls.mro and it.M.T.get("StrEnum") in v.cls.mro:
            return it.getattr(v, "value")
        return concat(it, ["%s." % v.cls.name, nm])
    if t is ClassV:
        if v.enum is not None:
            return "<enum '%s'>" % v.name
        return "<class '%s'>" % (v.name if v.native else "%s.%s" % (v.module, v.name))
    if t is Unknown:
        return v
    if t is Ref:
        return it.over(v, lambda r: ref_str(it, r, rep))
    if t is BytesV:
        return mkstr((Piece("bytes", v),))
    return mkstr((Piece("repr", repr(v)),))


def ref_str(it, r, rep):
    o = it.o(r)
    cls = o.cls
    if cls is not None:
        names = ("__repr__",) if rep else ("__str__", "__repr__")
        for nm in names:
            m = it.find_user(cls, nm)
            if m is not None:
                def chk(s):
                    if type(s) in (str, SStr, Unknown):
                        return s
                    return it.throw("TypeError", "%s returned non-string" % nm)
                return it.over(it.call(it.bind(m, r, cls), []), chk)
    if cls is not None and it.M.T["BaseException"] in cls.mro:
        args = o.d.get("args", ())
        if type(args) is tuple:
            if rep:
                return concat(it, [cls.name, "(", join_repr(it, args), ")"])
            if len(args) == 0:
                return ""
            if len(args) == 1:
                return to_str(it, args[0], it.M.T["KeyError"] in cls.mro)
            return to_str(it, args, True)
        return mkstr((Piece("exc", cls.name),))
    if o.kind == "list":
        if o.x == "bytearray":
            if all(type(x) is int for x in o.items):
                return repr(bytearray(o.items))
            return mkstr((Piece("bytearray", tuple(map(str, o.items))),))
        return concat(it, ["[", join_repr(it, o.items), "]"])
    if o.kind == "set":
        if not o.items:
            return "set()"
        return concat(it, ["{", join_repr(it, [p[0] for p in o.items]), "}"])
    if o.kind == "dict":
        out = ["{"]
        for i, (k, v) in enumerate(o.items):
            if i:
                out.append(", ")
            out += [to_str(it, k, True), ": ", it.over(v, lambda x: to_str(it, x, True))]
        out.append("}")
        return concat(it, out)
    if o.kind == "inst" and cls.nt_fields and o.items is not None:
        out = [cls.name, "("]
        for i, (k, v) in enumerate(zip(cls.nt_fields, o.items)):
            out += [", " if i else "", k + "=", it.over(v, lambda x: to_str(it, x, True))]
        out.append(")")
        return concat(it, out)
    if o.kind == "inst" and o.items is not None:
        return to_str(it, tuple(o.items), True)
    if o.kind == "inst" and cls.dataclass:
        out = [cls.name, "("]
        for i, k in enumerate(cls.dataclass):
            out += [", " if i else "", k + "=", it.over(o.d.get(k), lambda x: to_str(it, x, True))]
        out.append(")")
        return concat(it, out)
    return mkstr((Piece("objrepr", cls.name if cls else o.kind),))


def opaque_text(msg):
    return mkstr((Piece("message", msg),))


def percent(it, fmt, arg):
    """printf-style formatting"""
    import re
    if type(fmt) is not str:
        return mkstr((Piece("fmt", (str(fmt), str(arg))),))
    dct = None
    if type(arg) is tuple:
        args = list(arg)
    elif type(arg) is Ref and it.o(arg).kind == "inst" and it.o(arg).items is not None:
        args = list(it.o(arg).items)
    else:
        args = [arg]
        if type(arg) is Ref and it.o(arg).kind == "dict":
            dct = arg
    out = []
    pos = 0
    n = 0
    for m in re.finditer(r"%(?:\((\w+)\))?([#0\- +]*)(\*|\d+)?(?:\.(\*|\d+))?[hlL]?([a-zA-Z%])", fmt):
        out.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            out.append("%")
            continue
        if width == "*":
            if n >= len(args):
                return it.throw("TypeError", "not enough arguments for format string")
            wv = args[n]
            n += 1
            if type(wv) is not int:
                return it.imprecise("format width")
            width = str(wv)
        if key is not None:
            if dct is None:
                return it.throw("TypeError", "format requires a mapping")
            a = it.dict_get(dct, key)
        else:
            if n >= len(args):
                return it.throw("TypeError", "not enough arguments for format string")
            a = args[n]
            n += 1

        def one(a, flags=flags, width=width, prec=prec, conv=conv):
            w = int(width) if width else 0
            if conv in "diuxXo":
                if conv in "diu":
                    conv = "d"
                if type(a) in (float, SFloat, SDec) and conv == "d":
                    a = to_int(it, a)
                if not it.is_intlike(a):
                    return it.throw("TypeError", "%%%s format: an integer is required, not %s" % (conv, it.typeof(a).name))
                a = it.intval(a)
                sign = "+" if "+" in flags else " " if " " in flags else ""
                if prec:
                    return fmt_int(it, a, max(w, int(prec)), True, conv, "#" in flags)
                if "-" in flags and w:
                    s = fmt_int(it, a, 0, False, conv, "#" in flags, sign)
                    return s.ljust(w) if type(s) is str else mkstr((Piece("fmt", (conv, a)),))
                return fmt_int(it, a, w, "0" in flags, conv, "#" in flags, sign)
            if conv in "sra":
                s = to_str(it, a, conv != "s")
                if type(s) is str:
                    if prec:
                        s = s[:int(prec)]
                    return s.ljust(w) if "-" in flags else s.rjust(w)
                return s
            if conv == "c":
                return mkstr((Piece("chr", str(a)),)) if type(a) is not int else chr(a)
            if conv in "eEfFgG":
                if type(a) in (int, float):
                    return ("%" + flags + (width or "") + ("." + prec if prec else "") + conv) % a
                if not it.is_intlike(a) and type(a) not in (SFloat, SDec):
                    return it.throw("TypeError", "must be real number, not %s" % it.typeof(a).name)
                return mkstr((Piece("fmt", (flags + (width or "") + "." + (prec or "") + conv, a)),))
            return it.throw("ValueError", "unsupported format character")
        out.append(it.over(a, one))
    rest = fmt[pos:]
    if "%" in rest:
        return it.throw("ValueError", "incomplete format")
    out.append(rest)
    if dct is None and n < len(args) and type(arg) is tuple:
        return it.throw("TypeError", "not all arguments converted during string formatting")
    if dct is None and n == 0 and type(arg) is not tuple and not out[:-1]:
        return it.throw("TypeError", "not all arguments converted during string formatting")
    return concat(it, out)


def str_format(it, fmt, args, kw):
    import string
    if type(fmt) is not str:
        return mkstr((Piece("fmt", (str(fmt), str(args))),))
    out = []
    auto = 0
    try:
        parsed = list(string.Formatter().parse(fmt))
    except ValueError as e:
        return it.throw("ValueError", str(e))
    for lit, field, spec, conv in parsed:
        out.append(lit)
        if field is None:
            continue
        import re
        m = re.match(r"[^.\[]*", field)
        head, rest = m.group(0), field[m.end():]
        if head == "":
            k = auto
            auto += 1
        elif head.isdigit():
            k = int(head)
        else:
            k = head
        if type(k) is int:
            if k >= len(args):
                return it.throw("IndexError", "Replacement index %d out of range" % k)
            v = args[k]
        else:
            if k not in kw:
                return it.throw("KeyError", k)
            v = kw[k]
        for a, b in re.findall(r"\.(\w+)|\[([^\]]*)\]", rest):
            if a:
                v = it.getattr(v, a)
            else:
                v = it.getitem(v, int(b) if b.isdigit() else b)
        if spec and "{" in spec:
            def nest(mm):
                nonlocal auto
                h = mm.group(1)
                if h == "":
                    x = args[auto]
                    auto += 1
                elif h.isdigit():
                    x = args[int(h)]
                else:
                    x = kw[h]
                return str(x)
            spec = re.sub(r"\{(\w*)\}", nest, spec)
        out.append(it.over(v, lambda x: format_value(it, x, spec or "", conv or "")))
    return concat(it, out)


def parse_int(it, s, base):
    """int(s, base)"""
    if type(s) is str:
        try:
            return int(s, base)
        except ValueError:
            return it.throw("ValueError", "invalid literal for int() with base %d: %r" % (base, s))
    parts = s.parts
    if base == 10 and len(parts) == 1 and type(parts[0]) is Piece and parts[0].kind == "dec":
        return parts[0].arg
    if base == 16:
        ch = s.chars()
        if ch is not None:
            if len(ch) > 2 and ch[0] == "0" and ch[1] in ("x", "X"):
                ch = ch[2:]
            r = 0
            for c in ch:
                if type(c) is str:
                    if c not in "0123456789abcdefABCDEF":
                        return it.throw("ValueError", "invalid literal for int() with base 16")
                    n = int(c, 16)
                else:
                    n = c.nib
                r = I.add(I.shl(r, 4), n)
            return r
    if len(parts) == 1 and type(parts[0]) is Piece and parts[0].kind == "fmt" and base == 10 \
            and parts[0].arg[0].endswith("d"):
        return parts[0].arg[1]
    if any(type(p) is Piece for p in parts):
        # text coming from outside: any integer or an error
        return it.fork_on(SBool("p", ("isint", str(s), base)),
                          lambda: I.op("int", (str(s), base), -(1 << 63), 1 << 63),
                          lambda: it.throw("ValueError", "invalid literal for int()"))
    return it.throw("ValueError", "invalid literal for int()")


def f32_bits(it, v):
    """32 IEEE bits of a float-like abstract value"""
    if it.is_intlike(v):
        v = tofl(it, v)
    if type(v) is float:
        try:
            return I.bits_of(_struct.unpack("<I", _struct.pack("<f", v))[0], 32)
        except OverflowError:
            return I.bits_of(0x7F800000 if v > 0 else 0xFF800000, 32)
    if v.kind == "f32":
        return I.bits_of(v.n, 32, it.st.facts)
    return I.bits_of(I.op("f32enc", (str(v),), 0, (1 << 32) - 1), 32)


def f32_value(bits):
    n = I.from_bits(bits)
    if type(n) is int:
        return _struct.unpack("<f", _struct.pack("<I", n))[0]
    return SFloat("f32", n=n)
