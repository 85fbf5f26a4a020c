"""Integer abstract domain: known bits + bit provenance + intervals.

Every abstract integer is kept in one canonical form

        c + sum(coef_b * b)

where each b is one *bit of an input atom* (a free input of the analysed
program, or an uninterpreted operation on such inputs).  Masks, shifts,
bit-field stores, byte splitting/joining all map this form onto itself, so two
expressions computing the same placement of the same input bits get the same
canonical form (value numbering), however they are written.  What cannot be
kept in that form becomes an uninterpreted atom with an interval.
"""
from math import gcd


class Atom:
    __slots__ = ("id", "kind", "name", "args", "lo", "hi", "w", "signed")

    def __repr__(self):
        if self.kind == "var":
            return self.name
        return "%s(%s)" % (self.name, ", ".join(map(str, self.args)))


_atoms = {}
ATOMS = []


def atom(kind, name, args, lo, hi):
    k = (kind, name, args, lo, hi)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(ATOMS)
        a.kind, a.name, a.args, a.lo, a.hi = kind, name, args, lo, hi
        a.signed = lo < 0
        if a.signed:
            a.w = max(hi.bit_length(), (-lo - 1).bit_length()) + 1
        else:
            a.w = max(1, hi.bit_length())
        ATOMS.append(a)
        _atoms[k] = a
    return a


_lins = {}


def atom_by_name(n):
    for a in ATOMS:
        if a.kind == "var" and a.name == n:
            return a.id
    return None


class SInt:
    """c + sum(coef*bit); interned, so identity is structural equality."""
    __slots__ = ("c", "t", "__weakref__")

    def __repr__(self):
        return fmt(self)


def _mk(c, terms):
    """terms: dict bit->coef"""
    t = tuple(sorted((b, k) for b, k in terms.items() if k))
    if not t:
        return c
    key = (c, t)
    v = _lins.get(key)
    if v is None:
        v = SInt()
        v.c, v.t = c, t
        _lins[key] = v
    return v


def var(name, lo, hi):
    if lo == hi:
        return lo
    a = atom("var", name, (), lo, hi)
    return from_atom(a)


def from_atom(a):
    d = {}
    for i in range(a.w):
        d[(a.id, i)] = -(1 << i) if (a.signed and i == a.w - 1) else (1 << i)
    return _mk(0, d)


def op(name, args, lo, hi):
    if lo == hi:
        return lo
    return from_atom(atom("op", name, tuple(args), lo, hi))


def bit(b):
    return _mk(0, {b: 1})


def is_sym(x):
    return type(x) is SInt


def is_int(x):
    return type(x) is SInt or type(x) is int or type(x) is bool


def _ct(x):
    if type(x) is SInt:
        return x.c, x.t
    return int(x), ()


def add(a, b):
    if type(a) is int and type(b) is int:
        return a + b
    ca, ta = _ct(a)
    cb, tb = _ct(b)
    d = dict(ta)
    for bt, k in tb:
        d[bt] = d.get(bt, 0) + k
    return _mk(ca + cb, d)


def neg(a):
    return mulc(a, -1)


def sub(a, b):
    if type(a) is int and type(b) is int:
        return a - b
    return add(a, neg(b))


def mulc(a, k):
    if type(a) is int:
        return a * k
    c, t = _ct(a)
    return _mk(c * k, {b: x * k for b, x in t})


def rng(a, facts=None):
    """interval of a under facts"""
    if type(a) is not SInt:
        return int(a), int(a)
    a0 = a
    if facts is not None and facts.bits:
        a = subst(a, facts)
        if type(a) is not SInt:
            return a, a
    lo = hi = a.c
    by = {}
    alt = []
    for (aid, i), k in a.t:
        by.setdefault(aid, []).append((i, k))
    for aid, lst in by.items():
        at = ATOMS[aid]
        i0, k0 = lst[0]
        n = at.w - i0
        ok = len(lst) == n and k0 % 1 == 0
        if ok and n > 1 or (ok and n == 1):
            # contiguous from i0 to the top with proportional weights?
            if at.signed and n == 1:
                base = -k0
            else:
                base = k0
            for j, (i, k) in enumerate(lst):
                wgt = base << j
                if at.signed and i == at.w - 1:
                    wgt = -wgt
                if i != i0 + j or k != wgt:
                    ok = False
                    break
        if ok:
            alo, ahi = at.lo, at.hi
            if facts is not None:
                r = facts.rng.get(from_atom(at).t)
                if r:
                    alo, ahi = max(alo, r[0]), min(ahi, r[1])
            if at.kind == "op" and not at.signed:
                if at.name == "sum" and facts is not None:
                    r = rng(at.args[0], facts)
                    alo, ahi = max(alo, r[0]), min(ahi, r[1])
                if (at.name == "sum" or at.name[:3] == "div" and at.name[3:].isdigit()) and len(by) > 1:
                    alt.append((at, i0, base))
            alo >>= i0
            ahi >>= i0
            if base > 0:
                lo += base * alo
                hi += base * ahi
            else:
                lo += base * ahi
                hi += base * alo
        else:
            for i, k in lst:
                if k > 0:
                    hi += k
                else:
                    lo += k
    for at, i0, base in alt[:2]:
        # base * (atom >> i0), with the atom a sum or a quotient: in terms of its operand
        k = int(at.name[3:]) if at.name[:3] == "div" else 1
        if base % (k << i0):
            continue
        q = base >> i0
        rest = _mk(a.c, {b: x for b, x in a.t if b[0] != at.id})
        l2, h2 = rng(add(rest, mulc(at.args[0], q // k)), facts)
        for w in ((1 << i0) - 1) * q, (k - 1) * (q // k):
            if w > 0:
                l2 -= w
            else:
                h2 -= w
        lo, hi = max(lo, l2), min(hi, h2)
    if facts is not None and facts.rng:
        for v in ((a,) if a is a0 else (a, a0)):
            key, s, g = normkey(v.t)
            r = facts.rng.get(key)
            if r:
                m = s * g
                l2, h2 = v.c + m * r[0], v.c + m * r[1]
                if l2 > h2:
                    l2, h2 = h2, l2
                lo, hi = max(lo, l2), min(hi, h2)
    return lo, hi


_nk = {}


def normkey(t):
    """homogeneous part -> (canonical key, sign, gcd) with t == sign*gcd*key"""
    r = _nk.get(t)
    if r is None:
        g = 0
        for _, k in t:
            g = gcd(g, abs(k))
        # sign: make the largest |coef| term positive (ties: first)
        best = max(t, key=lambda x: abs(x[1]))
        s = 1 if best[1] > 0 else -1
        # a signed atom's own top bit is negative by nature
        aids = {b[0] for b, _ in t}
        if len(aids) == 1:
            at = ATOMS[next(iter(aids))]
            if at.signed and best[0][1] == at.w - 1 and len(t) > 1:
                s = -s
        if s == 1 and g == 1:
            key = t
        else:
            key = tuple((b, k // (s * g)) for b, k in t)
        r = (key, s, g)
        _nk[t] = r
    return r


def subst(a, facts):
    if type(a) is not SInt or facts is None or not facts.bits:
        return a
    bs = facts.bits
    for b, k in a.t:
        if b in bs:
            break
    else:
        return a
    c = a.c
    d = {}
    for b, k in a.t:
        v = bs.get(b)
        if v is None:
            d[b] = k
        elif v:
            c += k
    return _mk(c, d)


def eval_op(at, args):
    """value of an operation atom with constant operands (None: not evaluated)"""
    n = at.name
    if any(type(x) is not int for x in args) or not args:
        return None
    x = args[0]
    try:
        if n == "sum":
            r = x
        elif n[:4] == "mod_":
            r = x % int(n[4:])
        elif n[:3] in ("mod", "div") and n[3:].isdigit():
            r = x % (1 << int(n[3:])) if n[0] == "m" else x // int(n[3:])
        elif n == "bit_length":
            r = x.bit_length()
        elif len(args) == 2:
            y = args[1]
            r = {"mul": lambda: x * y, "floordiv": lambda: x // y, "mod": lambda: x % y, "lshift": lambda: x << min(y, 99),
                 "rshift": lambda: x >> y, "bit_and": lambda: x & y, "bit_or": lambda: x | y, "bit_xor": lambda: x ^ y,
                 "and": lambda: x & y, "or": lambda: x | y, "xor": lambda: x ^ y}[n]()
        else:
            return None
    except (KeyError, ZeroDivisionError, ValueError):
        return None
    return r if at.lo <= r <= at.hi else None


def reduce_ops(a, facts, depth=6):
    """subst, with the operations on known numbers evaluated"""
    a = subst(a, facts)
    if type(a) is not SInt or not depth or not facts.bits:
        return a
    vals = {}
    for aid in {b[0] for b, _ in a.t}:
        at = ATOMS[aid]
        if at.kind != "op":
            continue
        args = []
        for x in at.args:
            if type(x) is SInt:
                x = reduce_ops(x, facts, depth - 1)
            if type(x) is not int:
                break
            args.append(x)
        else:
            v = eval_op(at, args)
            if v is not None:
                vals[aid] = v
    if not vals:
        return a
    c, d = a.c, {}
    for b, k in a.t:
        v = vals.get(b[0])
        if v is None:
            d[b] = k
        elif (v >> b[1]) & 1:
            c += k
    return _mk(c, d)


def _pow2(k):
    return k > 0 and (k & (k - 1)) == 0


def bits_of(a, n, facts=None):
    """n low bits (two's complement) of a: list of 0/1/(aid,i)/('~',aid,i)"""
    if type(a) is not SInt:
        a = int(a)
        return [(a >> i) & 1 for i in range(n)]
    a = subst(a, facts)
    if type(a) is not SInt:
        return [(a >> i) & 1 for i in range(n)]
    r = _try_bits(a, n)
    if r is not None:
        return r
    # reduce modulo 2^n
    m = 1 << n
    d = {}
    for b, k in a.t:
        k %= m
        if k:
            d[b] = k
    red = _flatten(_mk(a.c % m, d), n)
    if type(red) is not SInt:
        return [(red >> i) & 1 for i in range(n)]
    r = _try_bits(red, n)
    if r is not None:
        return r
    z = a.c
    for _, k in a.t:
        z |= k
    z = (z & -z).bit_length() - 1
    if z:
        return ([0] * z + bits_of(_mk(a.c >> z, {b: k >> z for b, k in a.t}), n - z, facts))[:n] if z < n else [0] * n
    lo, hi = rng(a, facts)
    if 0 <= lo and hi < m:
        at = atom("op", "sum", (a,), 0, (1 << max(1, hi.bit_length())) - 1)
        return [(at.id, i) if i < at.w else 0 for i in range(n)]
    # low bits not touched by carries stay as they are
    at = atom("op", "mod%d" % n, (red,), 0, m - 1)
    return [(at.id, i) for i in range(n)]


def _flatten(a, n):
    """modulo 2^n: a residue modulo 2^k scaled by s (s*2^k == 0 mod 2^n) counts
    as s times the number it is the residue of"""
    m = 1 << n
    while type(a) is SInt:
        dt = dict(a.t)
        for (aid, i), k in a.t:
            at = ATOMS[aid]
            if i or at.kind != "op" or at.name[:3] != "mod" or not at.name[3:].isdigit():
                continue
            w = int(at.name[3:])
            if (k << w) % m or at.w != w:
                continue
            if any((dt.get((aid, j), 0) - (k << j)) % m for j in range(w)):
                continue
            rest = {b: x for b, x in a.t if b[0] != aid}
            e = add(_mk(a.c, rest), mulc(at.args[0], k))
            if type(e) is not SInt:
                a = e % m
            else:
                a = _mk(e.c % m, {b: x % m for b, x in e.t})
            break
        else:
            break
    return a


def _try_bits(a, n):
    c = a.c
    pos = {}
    top = None
    for b, k in a.t:
        if _pow2(k):
            i = k.bit_length() - 1
            if i in pos:
                return None
            pos[i] = b
        elif _pow2(-k):
            i = (-k).bit_length() - 1
            if i in pos:
                return None
            pos[i] = ("~",) + b
            c += k  # -2^i b = 2^i(1-b) - 2^i
        else:
            return None
    mx = max(pos)
    if c < 0:
        # signed: only the top weight negative
        if pos[mx][0] == "~" and c + (1 << mx) >= 0:
            c += 1 << mx
            if c >> mx:
                return None
            topb = pos[mx][1:]
            out = []
            for i in range(max(n, mx + 1)):
                if i >= mx:
                    out.append(topb)
                elif i in pos:
                    if (c >> i) & 1:
                        return None
                    out.append(pos[i])
                else:
                    out.append((c >> i) & 1)
            return out[:n]
        return None
    out = []
    for i in range(max(n, mx + 1, c.bit_length())):
        if i in pos:
            if (c >> i) & 1:
                return None
            out.append(pos[i])
        else:
            out.append((c >> i) & 1)
    if len(out) < n:
        out += [0] * (n - len(out))
    return out[:n]


def from_bits(bits, signed=False):
    c = 0
    d = {}
    n = len(bits)
    for i, b in enumerate(bits):
        w = 1 << i
        if signed and i == n - 1:
            w = -w
        if b == 0:
            continue
        if b == 1:
            c += w
        elif b[0] == "~":
            c += w
            bb = (b[1], b[2])
            d[bb] = d.get(bb, 0) - w
        else:
            d[b] = d.get(b, 0) + w
    return _mk(c, d)


def bnot(b):
    if b == 0:
        return 1
    if b == 1:
        return 0
    if b[0] == "~":
        return (b[1], b[2])
    return ("~",) + b


def _bitop(name, x, y):
    if name == "and":
        if x == 0 or y == 0:
            return 0
        if x == 1:
            return y
        if y == 1:
            return x
        if x == y:
            return x
        if x == bnot(y):
            return 0
    elif name == "or":
        if x == 1 or y == 1:
            return 1
        if x == 0:
            return y
        if y == 0:
            return x
        if x == y:
            return x
        if x == bnot(y):
            return 1
    else:
        if x == 0:
            return y
        if y == 0:
            return x
        if x == 1:
            return bnot(y)
        if y == 1:
            return bnot(x)
        if x == y:
            return 0
        if x == bnot(y):
            return 1
    a = atom("op", "bit" + name, tuple(sorted((x, y), key=str)), 0, 1)
    return (a.id, 0)


def width(a, facts=None):
    lo, hi = rng(a, facts)
    if lo >= 0:
        return max(1, hi.bit_length()), False
    return max(hi.bit_length() if hi > 0 else 0, (-lo - 1).bit_length()) + 1, True


def bitwise(name, a, b, facts=None):
    if type(a) is not SInt and type(b) is not SInt:
        a, b = int(a), int(b)
        return a & b if name == "and" else a | b if name == "or" else a ^ b
    wa, sa = width(a, facts)
    wb, sb = width(b, facts)
    if name == "and" and not (sa and sb):
        n = min(wa if not sa else 10**9, wb if not sb else 10**9)
        s = False
    else:
        n = max(wa, wb) + 1
        s = sa or sb
        if not s:
            n -= 1
    x = bits_of(a, n, facts)
    y = bits_of(b, n, facts)
    return from_bits([_bitop(name, p, q) for p, q in zip(x, y)], s)


def invert(a):
    return sub(-1, a)


def shl(a, n):
    return mulc(a, 1 << n)


def shr(a, n, facts=None):
    if type(a) is not SInt:
        return int(a) >> n
    w, s = width(a, facts)
    if w <= n and not s:
        return 0
    b = bits_of(a, max(w, n + 1), facts)
    return from_bits(b[n:], s)


def trunc(a, n, signed=False, facts=None):
    return from_bits(bits_of(a, n, facts), signed)


def floordiv(a, k, facts=None):
    """k: positive int constant"""
    if type(a) is not SInt:
        return int(a) // k
    if _pow2(k):
        return shr(a, k.bit_length() - 1, facts)
    if a.c % k == 0 and all(c % k == 0 for _, c in a.t):
        return _mk(a.c // k, {b: c // k for b, c in a.t})
    lo, hi = rng(a, facts)
    if lo // k == hi // k:
        return lo // k
    return op("div%d" % k, (a,), lo // k, hi // k)


def mod(a, k, facts=None):
    if type(a) is not SInt:
        return int(a) % k
    a = subst(a, facts)
    if type(a) is not SInt:
        return a % k
    lo, hi = rng(a, facts)
    if lo // k == hi // k:
        return sub(a, (lo // k) * k)
    if _pow2(k):
        return trunc(a, k.bit_length() - 1, False, facts)
    d = {b: c % k for b, c in a.t}
    red = _mk(a.c % k, d)
    if type(red) is not SInt:
        return red
    return op("mod_%d" % k, (red,), 0, k - 1)


def fmt(a):
    if type(a) is not SInt:
        return str(a)
    by = {}
    for (aid, i), k in a.t:
        by.setdefault(aid, []).append((i, k))
    out = []
    for aid, lst in sorted(by.items()):
        at = ATOMS[aid]
        full = from_atom(at).t
        ks = {k // (fk[1]) if fk[1] and k % fk[1] == 0 else None
              for (i, k), fk in zip(lst, full)} if len(lst) == len(full) else {None}
        if len(ks) == 1 and None not in ks:
            k = next(iter(ks))
            out.append(("%s" % at) if k == 1 else "%d*%s" % (k, at))
        else:
            # try contiguous run
            i0, k0 = lst[0]
            run = all(i == i0 + j and k == k0 << j for j, (i, k) in enumerate(lst))
            if run and len(lst) > 1:
                pre = "" if k0 == 1 else "%d*" % k0
                out.append("%s%s[%d..%d]" % (pre, at, lst[-1][0], i0))
            else:
                for i, k in lst:
                    pre = "" if k == 1 else "%d*" % k
                    out.append("%s%s[%d]" % (pre, at, i))
    if a.c or not out:
        out.append(str(a.c))
    return " + ".join(out)


def opaque(a, facts=None):
    """does the value contain uninterpreted operation atoms?"""
    if type(a) is not SInt:
        return False
    return any(ATOMS[b[0]].kind != "var" for b, _ in a.t)


_whole = {}


def whole_vars(t):
    """atom -> coefficient of the inputs which occur whole in a form"""
    r = _whole.get(t)
    if r is None:
        by = {}
        for (aid, i), k in t:
            by.setdefault(aid, []).append((i, k))
        r = {}
        for aid, lst in by.items():
            at = ATOMS[aid]
            if at.kind == "var" and len(lst) == at.w:
                base = -lst[0][1] if at.signed and at.w == 1 else lst[0][1]
                if all(i == j and k == (-base << j if at.signed and j == at.w - 1 else base << j) for j, (i, k) in enumerate(lst)):
                    r[aid] = base
        _whole[t] = r
    return r


class Facts:
    """What is known about the inputs on the current control-flow point."""
    __slots__ = ("bits", "rng", "neq", "preds", "log", "res", "eqv")

    def __init__(self):
        self.bits, self.rng, self.neq, self.preds = {}, {}, {}, {}
        self.log = ()
        self.res = None
        self.eqv = None         # input -> (the form it is known to equal, the input it equals bit by bit)

    def copy(self):
        f = Facts()
        f.bits, f.rng = dict(self.bits), dict(self.rng)
        f.neq, f.preds = dict(self.neq), dict(self.preds)
        f.log = self.log
        f.res = None if self.res is None else dict(self.res)
        f.eqv = None if self.eqv is None else dict(self.eqv)
        return f

    # -- known equalities of inputs
    def rewrite(self, d):
        """a form with the inputs replaced that are known to equal others"""
        e = self.eqv
        if type(d) is not SInt:
            return d
        for b, _ in d.t:
            if b[0] in e:
                break
        else:
            return d
        wh = whole_vars(d.t)
        out = d
        for aid in {b[0] for b, _ in d.t}:
            q = e.get(aid)
            if q is None:
                continue
            k = wh.get(aid)
            if k is not None:
                out = add(sub(out, mulc(from_atom(ATOMS[aid]), k)), mulc(q[0], k))
            elif q[1] is not None:
                mine = {b: k for b, k in d.t if b[0] == aid}
                out = add(sub(out, _mk(0, mine)), _mk(0, {(q[1], b[1]): k for b, k in mine.items()}))
        return out

    def _learn(self, key, v):
        """key == v: one of its inputs is expressed by the others"""
        if self.eqv and any(b[0] in self.eqv for b, _ in key):
            return True
        aids = {b[0] for b, _ in key}
        if len(aids) < 2 or len(aids) > 4:
            return True
        wh = whole_vars(key)
        if len(wh) != len(aids):
            return True
        c = [a for a, k in wh.items() if k in (1, -1)]
        if not c:
            return True
        x = max(c)
        k = wh[x]
        at = ATOMS[x]
        expr = mulc(sub(v, _mk(0, {b: w for b, w in key if b[0] != x})), k)
        same = None
        if len(aids) == 2 and expr.c == 0:
            y, = aids - {x}
            o = ATOMS[y]
            if expr is from_atom(o) and o.w == at.w and not o.signed and not at.signed:
                same = y
        if self.eqv is None:
            self.eqv = {}
        self.eqv[x] = (expr, same)
        for a, (f, q) in list(self.eqv.items()):
            if a != x and any(b[0] == x for b, _ in f.t):
                f = self.rewrite(f)
                if type(f) is not SInt:
                    del self.eqv[a]
                    continue
                self.eqv[a] = (f, same if q == x else None)
        if not self._within(expr, *rng(from_atom(at), self)) or not self.set_rng(from_atom(at).t, *rng(expr, self)):
            return False
        if same is not None:
            for b, w in list(self.bits.items()):
                if len(b) == 2 and b[0] == x and not self.set_bit((same, b[1]), w):
                    return False
        for f, (lo, hi) in list(self.rng.items()):
            if any(b[0] == x for b, _ in f) and not self._derive(f, lo, hi):
                return False
        for f, ne in list(self.neq.items()):
            if any(b[0] == x for b, _ in f) and not all(self._differs(f, n) for n in ne):
                return False
        return True

    def _within(self, d, lo, hi):
        """lo <= d <= hi"""
        if type(d) is not SInt:
            return lo <= d <= hi
        key, s, g = normkey(d.t)
        if s > 0:
            a, b = -((d.c - lo) // g), (hi - d.c) // g
        else:
            a, b = -((hi - d.c) // g), (d.c - lo) // g
        return a <= b and self.set_rng(key, a, b)

    def _derive(self, key, lo, hi):
        d = self.rewrite(_mk(0, dict(key)))
        return True if type(d) is SInt and d.t == key else self._within(d, lo, hi)

    def _differs(self, key, n):
        d = self.rewrite(_mk(-n, dict(key)))
        if type(d) is not SInt:
            return d != 0
        if d.t == key:
            return True
        k, s, g = normkey(d.t)
        if (-d.c) % g:
            return True
        return self.set_neq(k, (-d.c) // (s * g))

    # -- assumptions; all return False on contradiction
    def set_bit(self, b, v):
        if b[0] == "~":
            b, v = (b[1], b[2]), 1 - v
        o = self.bits.get(b)
        if o is not None:
            return o == v
        self.bits[b] = v
        self.log += (("bit", b, v),)
        if self.eqv and len(b) == 2:
            q = self.eqv.get(b[0])
            if q is not None and q[1] is not None and not self.set_bit((q[1], b[1]), v):
                return False
        if len(b) == 2:
            at = ATOMS[b[0]]
            if not at.signed and (at.lo or at.hi != (1 << at.w) - 1):
                return self._fits(at, self.bits)
        return True

    def _fits(self, at, bits):
        """can an atom with these known bits be within its bounds?"""
        small = big = 0
        for i in range(at.w):
            v = bits.get((at.id, i))
            if v:
                small += 1 << i
                big += 1 << i
            elif v is None:
                big += 1 << i
        return big >= at.lo and small <= at.hi

    def set_pred(self, p, v):
        o = self.preds.get(p)
        if o is not None:
            return o == v
        self.preds[p] = v
        self.log += (("pred", p, v),)
        return True

    def set_rng(self, key, lo, hi):
        base = _mk(0, dict(key))
        l0, h0 = rng(base, self)
        lo, hi = max(lo, l0), min(hi, h0)
        ne = self.neq.get(key, ())
        while lo in ne:
            lo += 1
        while hi in ne:
            hi -= 1
        if lo > hi:
            return False
        if (lo, hi) != (l0, h0):
            self.rng[key] = (lo, hi)
            self.log += (("rng", key, lo, hi),)
            if not self.residue(key):
                return False
            aids = {b[0] for b, _ in key}
            if len(aids) == 1:
                at = ATOMS[next(iter(aids))]
                if at.kind == "op" and not at.signed and at.name in ("sum",) or \
                        at.kind == "op" and at.name[:3] == "div":
                    i0 = key[0][0][1]
                    if len(key) == at.w - i0 and all(b[1] == i0 + j and k == 1 << j for j, (b, k) in enumerate(key)):
                        if i0:
                            if not self.set_rng(from_atom(at).t, lo << i0, (hi << i0) + (1 << i0) - 1):
                                return False
                        elif at.name == "sum" and type(at.args[0]) is SInt:
                            x = at.args[0]
                            k2, s2, g2 = normkey(x.t)
                            m2 = s2 * g2
                            if m2 > 0:
                                b2 = (-((x.c - lo) // m2), (hi - x.c) // m2)
                            else:
                                b2 = (-((hi - x.c) // -m2), (x.c - lo) // -m2)
                            if b2[0] > b2[1] or not self.set_rng(k2, *b2):
                                return False
            if lo == hi:
                bt = _try_bits(base, max(1, width(base)[0]))
                if bt is not None:
                    for i, b in enumerate(bt):
                        if type(b) is tuple:
                            if not self.set_bit(b, (lo >> i) & 1):
                                return False
                        elif b != ((lo >> i) & 1):
                            return False
                if len(aids) > 1 and not self._learn(key, lo):
                    return False
            if self.eqv and not self._derive(key, lo, hi):
                return False
        return True

    def set_neq(self, key, v):
        base = _mk(0, dict(key))
        lo, hi = rng(base, self)
        if lo == hi == v:
            return False
        if v < lo or v > hi:
            return True
        s = self.neq.get(key, frozenset())
        if v not in s:
            self.neq[key] = s | {v}
            self.log += (("neq", key, v),)
            if not self.residue(key):
                return False
            if self.eqv and not self._differs(key, v):
                return False
        if v == lo or v == hi:
            return self.set_rng(key, lo, hi)
        return True

    # -- residue classes: mod(L + c, m) for all c, and linear forms congruent
    # to +-L, constrain one set of residues of L
    def residue(self, key):
        r = _mod_atom(key)
        if r is None:
            if self.res:
                return all(self._narrow(key, m) for m in {m for m, _ in self.res})
            return True
        m, red = r
        cls = _res_class(red.t, m)
        if cls is None:
            return True
        if self.res is None:
            self.res = {}
        if (m, cls[0]) not in self.res:
            self.res[(m, cls[0])] = (1 << m) - 1
            for k in list(self.rng) + [k for k in self.neq if k not in self.rng]:
                if k is not key and not self._narrow(k, m):
                    return False
        return self._narrow(key, m)

    def _member(self, key, m):
        """the class of residues modulo m the form belongs to: (class, sign, offset)"""
        r = _mod_atom(key)
        if r is not None:
            if r[0] != m:
                return None
            cls = _res_class(r[1].t, m)
            return cls and (cls[0], cls[1], r[1].c)
        cls = _res_class(key, m)
        return cls and (cls[0], cls[1], 0)

    def _narrow(self, key, m):
        mb = self._member(key, m)
        if mb is None:
            return True
        old = self.res.get((m, mb[0]))
        if old is None:
            return True
        vals = self.values(key)
        if vals is None:
            return True
        new = 0
        for v in vals:
            new |= 1 << (mb[1] * (v - mb[2]) % m)
        new &= old
        self.res[(m, mb[0])] = new
        return new != 0

    def values(self, key, limit=1100):
        """values the form may take (None: too many)"""
        lo, hi = rng(_mk(0, dict(key)), self)
        if hi - lo > limit:
            return None
        ne = self.neq.get(key, ())
        out = [v for v in range(lo, hi + 1) if v not in ne]
        for m in {m for m, _ in self.res or ()}:
            mb = self._member(key, m)
            t = mb and self.res.get((m, mb[0]))
            if t is not None and t != (1 << m) - 1:
                out = [v for v in out if t >> (mb[1] * (v - mb[2]) % m) & 1]
        return out

    def apply(self, g):
        for e in g:
            if e[0] == "bit":
                ok = self.set_bit(e[1], e[2])
            elif e[0] == "pred":
                ok = self.set_pred(e[1], e[2])
            elif e[0] == "rng":
                ok = self.set_rng(e[1], e[2], e[3])
            else:
                ok = self.set_neq(e[1], e[2])
            if not ok:
                return False
        return True

    def cmp(self, opname, d):
        """decide d OP 0 -> True/False/None; opname in eq, le"""
        r = self._cmp(opname, d)
        if r is None and self.eqv:
            e = self.rewrite(d)
            if e is not d:
                r = self._cmp(opname, e)
        return r

    def _cmp(self, opname, d):
        d = resum(subst(d, self))
        if opname == "eq" and type(d) is SInt:
            c = canon_eq(d)
            if c is not d:
                d = subst(c, self)
        if type(d) is SInt and self.bits and any(ATOMS[b[0]].kind == "op" for b, _ in d.t):
            d = reduce_ops(d, self)
        if type(d) is not SInt:
            return d == 0 if opname == "eq" else d <= 0
        lo, hi = rng(d, self)
        if self.res and lo <= 0 <= hi and (lo, hi) != (0, 0):
            key, s, g = normkey(d.t)
            vals = self.values(key)
            if vals is not None:
                if not vals:
                    return None
                vals = [d.c + s * g * v for v in vals]
                lo, hi = min(vals), max(vals)
                if opname == "eq" and 0 not in vals:
                    return False
        if opname == "le":
            if hi <= 0:
                return True
            if lo > 0:
                return False
            return None
        if lo > 0 or hi < 0:
            return False
        if lo == hi == 0:
            return True
        key, s, g = normkey(d.t)
        if (-d.c) % g:
            return False
        v = (-d.c) // (s * g)
        if v in self.neq.get(key, ()):
            return False
        # parity of the whole form: lowest weight bits
        r = _try_bits(_mk(0, dict(key)), max(width(_mk(0, dict(key)))[0], 1))
        if r is not None:
            if v < 0 and 0 in (0,) and rng(_mk(0, dict(key)), self)[0] >= 0:
                return False
            want = None
            for i, b in enumerate(r):
                if b in (0, 1):
                    if b != ((v >> i) & 1):
                        return False
                elif len(b) == 2:
                    at = ATOMS[b[0]]
                    if not at.signed and (at.lo or at.hi != (1 << at.w) - 1):
                        want = want or {}
                        want.setdefault(b[0], dict())[b] = (v >> i) & 1
            if v >= 0 and (v >> len(r)):
                return False
            for aid, w in (want or {}).items():
                for i in range(ATOMS[aid].w):
                    k = self.bits.get((aid, i))
                    if k is not None:
                        w[(aid, i)] = k
                if not self._fits(ATOMS[aid], w):
                    return False
        # modular contradiction: all low-weight terms absent
        return None

    def assume(self, opname, d, truth):
        d = resum(subst(d, self))
        if opname == "eq" and type(d) is SInt:
            c = canon_eq(d)
            if c is not d:
                d = subst(c, self)
        if type(d) is not SInt:
            r = d == 0 if opname == "eq" else d <= 0
            return r == truth
        key, s, g = normkey(d.t)
        m = s * g
        # m*key + c  OP 0
        if opname == "eq":
            if (-d.c) % m if m > 0 else (d.c % -m):
                return not truth
            v = (-d.c) // m
            if truth:
                if not self.set_rng(key, v, v):
                    return False
                self._prop_eq(d)
                return True
            return self.set_neq(key, v)
        base = _mk(0, dict(key))
        lo, hi = rng(base, self)
        if not truth:       # m*key + c >= 1
            if m > 0:
                return self.set_rng(key, -((d.c - 1) // m), hi)
            return self.set_rng(key, lo, (d.c - 1) // (-m))
        # m*key + c <= 0
        if m > 0:
            return self.set_rng(key, lo, (-d.c) // m)
        return self.set_rng(key, -((-d.c) // (-m)), hi)

    def _prop_eq(self, d):
        pass


_modatom = {}


def _mod_atom(key):
    """(modulus, operand) of a form which is one whole residue atom"""
    r = _modatom.get(key, 0)
    if r == 0:
        r = None
        at = ATOMS[key[0][0][0]]
        if at.kind == "op" and at.name[:3] == "mod" and len(key) == at.w and type(at.args[0]) is SInt \
                and from_atom(at).t == key:
            m = int(at.name[4:]) if at.name[3] == "_" else 1 << int(at.name[3:])
            if m <= 1024:
                r = (m, at.args[0])
        _modatom[key] = r
    return r


_resclass = {}


def _res_class(t, m):
    """homogeneous form modulo m, up to sign: (canonical form, sign)"""
    k = (t, m)
    r = _resclass.get(k, 0)
    if r == 0:
        e = _mk(0, {b: x % m for b, x in t})
        if type(e) is SInt and _pow2(m):
            e = _flatten(e, m.bit_length() - 1)
        if type(e) is not SInt or e.c:
            r = None
        else:
            a = tuple((b, x % m) for b, x in e.t if x % m)
            n = tuple((b, -x % m) for b, x in a)
            r = None if not a else (a, 1) if a <= n else (n, -1)
        _resclass[k] = r
    return r


_resum = {}


def resum(d):
    """the upper bits of a sum together with its residue are the sum"""
    if type(d) is not SInt:
        return d
    r = _resum.get(d)
    if r is None:
        r = _resum[d] = _resum1(d)
    return r


def _resum1(d):
    for _ in range(8):
        if type(d) is not SInt:
            return d
        by = {}
        for (aid, i), k in d.t:
            by.setdefault(aid, []).append((i, k))
        for aid, lst in by.items():
            at = ATOMS[aid]
            if at.kind != "op" or at.name != "sum":
                continue
            n, c = lst[0]
            if len(lst) != at.w - n or any(i != n + j or k != c << j for j, (i, k) in enumerate(lst)) or c % (1 << n):
                continue
            c >>= n
            # 2^n * (upper bits) == the sum - its residue modulo 2^n
            e = add(_mk(d.c, {b: k for b, k in d.t if b[0] != aid}), mulc(at.args[0], c))
            if n:
                e = sub(e, mulc(from_bits(bits_of(at.args[0], n)), c))
            if type(e) is not SInt or len({b[0] for b, _ in e.t}) < len(by):
                d = e
                break
        else:
            return d
    return d


_canon = {}


def canon_eq(d):
    """d == 0 where d compares with a residue modulo 2^n: one form per residue
    relation, however the comparison is written (x == (y + 1) % 256,
    (x - y - 1) % 256 == 0, (x + 255) & 255 == y ...)"""
    r = _canon.get(d)
    if r is None:
        r = _canon[d] = _canon_eq(d)
    return r


def _canon_eq(d):
    best = None
    for (aid, i), k in d.t:
        at = ATOMS[aid]
        if i == 0 and k in (1, -1) and at.kind == "op" and at.name[:3] == "mod" and at.name[3:].isdigit():
            best = (aid, k)
            break
    if best is None:
        return d
    aid, k = best
    at = ATOMS[aid]
    n = int(at.name[3:])
    m = 1 << n
    full = from_atom(at)
    dt = dict(d.t)
    if at.w != n or any(dt.get(b) != k * w for b, w in full.t):
        return d
    lo, hi = rng(d)
    if lo <= -m or hi >= m:
        return d
    e = add(sub(d, mulc(full, k)), mulc(at.args[0], k))
    e = _flatten(e, n)
    if type(e) is not SInt:
        return e % m
    c = e.c % m
    t = {b: x % m for b, x in e.t if x % m}
    if not t:
        return c
    cent = {b: (x - m if x > m // 2 else x) for b, x in t.items()}
    # the top weight follows the sign of the rest of its atom, else either sign
    by = {}
    for (x, i), w in cent.items():
        if w != m // 2:
            by.setdefault(x, []).append(w)
    u = dict(cent)
    for b, w in cent.items():
        if w == m // 2 and by.get(b[0]) and all(y < 0 for y in by[b[0]]):
            u[b] = -w
    flipped = {b: (-w if w == m // 2 else w) for b, w in cent.items()}
    for cand in (u, cent, flipped):
        for cc in (c, c - m):
            f = _mk(cc, cand)
            lo, hi = rng(f)
            if lo > -m and hi < m:
                return f
    a1 = (tuple(sorted(t.items())), c)
    t2 = {b: (-x) % m for b, x in t.items()}
    a2 = (tuple(sorted(t2.items())), (-c) % m)
    t, c = (t, c) if a1 <= a2 else (t2, (-c) % m)
    return trunc(_mk(c, t), n)


def join_facts(base, lst):
    f = base.copy()
    n = len(base.log)
    deltas = [x.log[n:] for x in lst]
    common = set(deltas[0])
    for d in deltas[1:]:
        common &= set(d)
    for e in deltas[0]:
        if e in common:
            f.apply((e,))
    # interval hull
    keys = set(lst[0].rng)
    for x in lst[1:]:
        keys &= set(x.rng)
    for k in keys:
        lo = min(x.rng[k][0] for x in lst)
        hi = max(x.rng[k][1] for x in lst)
        f.set_rng(k, lo, hi)
    return f
