"""Concrete reading of an abstract counterexample.

An abstract state carries facts (known bits, intervals, disequalities) about
the free inputs.  When an obligation is not established, this module looks for
an assignment of the inputs that satisfies the facts and falsifies the
obligation, by evaluating the abstract expressions themselves.  Only when one
is found is the obligation reported as violated; otherwise the analysis says
that it could not decide.
"""
import math
import random
from decimal import Decimal
from fractions import Fraction

from absint import ints as I
from absint.values import SFloat, SDec, SBool, SStr


class CannotEval(Exception):
    pass


def expand(atoms):
    """input variables behind a set of atom ids (ops are followed)"""
    out, seen, todo = set(), set(), list(atoms)
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        at = I.ATOMS[a]
        if at.kind == "var":
            out.add(a)
            continue
        for x in at.args:
            todo.extend(atoms_of(x))
    return out


def atoms_of(x):
    if type(x) is I.SInt:
        return {b[0] for b, _ in x.t}
    if type(x) in (SFloat, SDec):
        r = set()
        for y in (x.q, x.n, x.tag):
            r |= atoms_of(y)
        return r
    if type(x) is tuple:
        r = set()
        for y in x:
            r |= atoms_of(y)
        return r
    return set()


class Env:
    def __init__(self, vals):
        self.vals = vals          # atom id -> int (two's complement width w)
        self.memo = {}

    def atom(self, aid):
        v = self.vals.get(aid)
        if v is not None:
            return v
        v = self.memo.get(aid)
        if v is None:
            at = I.ATOMS[aid]
            if at.kind == "var":
                v = self.vals.setdefault(aid, max(at.lo, 0) if at.lo <= 0 <= at.hi else at.lo)
            else:
                v = self.op(at)
            self.memo[aid] = v
        return v

    def op(self, at):
        n, a = at.name, at.args
        if n.startswith("div") and n[3:].isdigit():
            return self.ev(a[0]) // int(n[3:])
        if n.startswith("mod_"):
            return self.ev(a[0]) % int(n[4:])
        if n == "sum":
            return self.ev(a[0])
        if n[:3] == "mod" and n[3:].isdigit():
            return self.ev(a[0]) % (1 << int(n[3:]))
        if n == "mul":
            return self.ev(a[0]) * self.ev(a[1])
        if n == "bool":
            return int(self.pred(a[0], a[1]))
        if n in ("floordiv", "mod", "pow", "lshift", "rshift", "and", "or", "xor", "bitand", "bitor", "bitxor"):
            x, y = self.ev(a[0]), self.ev(a[1])
            try:
                return {"floordiv": lambda: x // y, "mod": lambda: x % y, "pow": lambda: x ** y if y < 64 else 0,
                        "lshift": lambda: x << min(y, 64), "rshift": lambda: x >> y}.get(
                            n, lambda: {"a": x & y, "o": x | y, "x": x ^ y}[n.replace("bit", "")[0]])()
            except (ZeroDivisionError, ValueError):
                raise CannotEval(n)
        if n in ("trunc", "round", "floor", "ceil", "int"):
            if type(a[0]) in (SFloat, SDec):
                x = self.flt(a[0])
                return {"trunc": math.trunc, "int": math.trunc, "round": round, "floor": math.floor,
                        "ceil": math.ceil}[n](x)
        if n == "bit_length":
            return self.ev(a[0]).bit_length()
        if n.startswith("bit") and len(a) == 2 and n in ("bit_and", "bit_or", "bit_xor"):
            x, y = self.ev(a[0]), self.ev(a[1])
            return {"bit_and": x & y, "bit_or": x | y, "bit_xor": x ^ y}[n]
        raise CannotEval(n)

    def flt(self, f):
        if f.kind == "lin":
            q = f.q if type(f.q) in (Fraction, int, float, Decimal) else None
            if q is None:
                raise CannotEval("float")
            return Fraction(q) * self.ev(f.n)
        raise CannotEval("float")

    def bit(self, b):
        aid, i = b
        return (self.atom(aid) >> i) & 1

    def ev(self, x):
        if type(x) is not I.SInt:
            if type(x) in (int, bool):
                return int(x)
            raise CannotEval(str(type(x)))
        r = x.c
        for b, k in x.t:
            if self.bit(b):
                r += k
        return r

    def pred(self, kind, arg):
        if kind == "eq":
            return self.ev(arg) == 0
        if kind == "le":
            return self.ev(arg) <= 0
        raise CannotEval("predicate %s" % (arg,))

    def sb(self, sb):
        return self.pred(sb.kind, sb.arg) != sb.neg


def constraints(facts):
    """list of (form, lo, hi) from facts; disequalities separately"""
    cons = []
    for b, v in facts.bits.items():
        if len(b) == 2:
            cons.append((I.bit(b), v, v))
    for key, (lo, hi) in facts.rng.items():
        cons.append((I._mk(0, dict(key)), lo, hi))
    ne = []
    for key, vs in facts.neq.items():
        for v in vs:
            ne.append((I._mk(0, dict(key)), v))
    return cons, ne


def holds(vals, cons, ne):
    env = Env(dict(vals))
    return all(lo <= env.ev(f) <= hi for f, lo, hi in cons) and all(env.ev(f) != v for f, v in ne)


def find(facts, falsify=None, tries=400, seed=1):
    """assignment name->int satisfying facts (and making the SBool `falsify`
    false when given), or None.  Second result: True when some part of the
    facts could not be evaluated."""
    cons, ne = constraints(facts)
    approx = bool(facts.preds)
    extra = None
    if falsify is not None:
        t = falsify.neg            # the predicate must take this value
        if falsify.kind in ("eq", "le"):
            f = falsify.arg
            if falsify.kind == "eq":
                if t:
                    cons.append((f, 0, 0))
                else:
                    ne.append((f, 0))
            else:
                if t:
                    cons.append((f, -(1 << 80), 0))
                else:
                    cons.append((f, 1, 1 << 80))
        else:
            return None, True
    cons = [(f, lo, hi) for f, lo, hi in cons if type(f) is I.SInt]
    ids = set()
    for f, _, _ in cons:
        ids |= {b[0] for b, _ in f.t}
    for f, _ in ne:
        ids |= atoms_of(f)
    variables = expand(ids)
    rnd = random.Random(seed)
    fixed = {}
    for f, lo, hi in cons:
        if lo == hi and len(f.t) == 1 and f.c == 0 and f.t[0][1] == 1:
            fixed[f.t[0][0]] = lo
    lin = sorted((c for c in cons if not (len(c[0].t) == 1 and c[1] == c[2])),
                 key=lambda c: (c[2] - c[1] > 0, c[2] - c[1], len(c[0].t)))
    evalfail = False
    searches = 0
    computed = expand({a for a in ids if I.ATOMS[a].kind != "var"})
    for attempt in range(tries):
        bits = {}
        for aid in variables:
            at = I.ATOMS[aid]
            mode = attempt % 4
            if mode == 0:
                v = rnd.randint(at.lo, at.hi)
            elif mode == 1:
                v = rnd.choice((at.lo, at.hi, rnd.randint(at.lo, at.hi)))
            elif mode == 2:
                v = min(max(rnd.getrandbits(3), at.lo), at.hi)
            else:
                v = at.lo if at.lo >= 0 else 0
                if rnd.random() < .4:
                    v = rnd.randint(at.lo, at.hi)
            for i in range(at.w):
                bits[(aid, i)] = (v >> i) & 1
        locked = set()
        for b, v in fixed.items():
            if b in bits:
                bits[b] = v
                locked.add(b)
        ok = True
        for rnd_pass in range(3):
            for f, lo, hi in lin:
                if any(b not in bits for b, _ in f.t):
                    continue
                cur = f.c + sum(k for b, k in f.t if bits[b])
                if lo <= cur <= hi:
                    if lo == hi:
                        locked.update(b for b, _ in f.t)
                    continue
                terms = sorted((t for t in f.t if t[0] not in locked), key=lambda t: -abs(t[1]))
                if rnd_pass and attempt & 1:
                    terms = sorted((t for t in f.t if t[0] not in fixed), key=lambda t: -abs(t[1]))
                for b, k in terms:
                    if lo <= cur <= hi:
                        break
                    d = -k if bits[b] else k
                    new = cur + d
                    dist = max(lo - cur, cur - hi, 0)
                    nd = max(lo - new, new - hi, 0)
                    if nd < dist:
                        bits[b] ^= 1
                        cur = new
                if lo == hi and lo <= cur <= hi:
                    locked.update(b for b, _ in f.t)
        vals = {}
        for aid in variables:
            at = I.ATOMS[aid]
            v = sum(bits[(aid, i)] << i for i in range(at.w))
            if at.signed and v >> (at.w - 1):
                v -= 1 << at.w
            if not at.lo <= v <= at.hi:
                ok = False
                break
            vals[aid] = v
        if not ok:
            continue
        try:
            good = holds(vals, cons, ne)
            if not good and computed and searches < 12:
                # constraints on computed values: vary one input at a time
                searches += 1
                for aid in sorted(computed):
                    at = I.ATOMS[aid]
                    cand = range(at.lo, at.hi + 1) if at.hi - at.lo < 300 else \
                        [rnd.randint(at.lo, at.hi) for _ in range(60)]
                    keep = vals[aid]
                    for x in cand:
                        vals[aid] = x
                        if holds(vals, cons, ne):
                            good = True
                            break
                    if good:
                        break
                    vals[aid] = keep
        except CannotEval:
            evalfail = True
            continue
        if good:
            names = {I.ATOMS[a].name: v for a, v in sorted(vals.items())}
            return names, approx
    return None, approx or evalfail
