"""Running client programs through the abstract interpreter.

A *spec* is Python text describing a most-general client of the library: it
builds inputs from free symbols, calls the library and states obligations with
check()/check_eq()/fail().  The text, like the library, is only ever
interpreted abstractly (absint); it is never executed.
"""
import ast
import os
import sys
import time
import traceback

from absint import ints as I
from absint.interp import Interp
from absint.values import *  # noqa
from absint import models as M
from . import witness

sys.setrecursionlimit(60000)


class Prop:
    def __init__(self, pid, title, spec, contexts, rule, assumptions=(), anchors=(), floor=None):
        self.id, self.title, self.spec, self.contexts = pid, title, spec, contexts
        self.rule, self.assumptions = rule, list(assumptions)
        self.anchors = list(anchors)     # (module path suffix) files that must be analysed
        self.floor = floor or {}


class Failure:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def as_dict(self):
        return dict(self.__dict__)


class Session:
    """one interpreter with the library and the spec text loaded"""

    def __init__(self, root, spec, prelude, pid):
        self.pid = pid
        self.it = it = Interp(root)
        self.recs = []
        self.failures = []
        self.undecided = []
        self.sites = {}
        self.notes = {}
        it.evid_session = self
        names = {n: Builtin(n, fn) for n, fn in self.builtins().items()}
        self.lib_error = None
        it.fresh()
        try:
            it.import_module("knx_stack")
            it.preload()
        except Dead:
            self.lib_error = self.describe_raises()
            return
        self.prelude_lines = prelude.count("\n")
        self.text = prelude + spec
        self.ns = it.run_source(self.text, names, "__spec__")
        if it.st.imp:
            self.lib_error = ["imprecise while loading: %s" % x for x in it.st.imp]
        it.freeze()
        self.spec_sites = {}
        for node in ast.walk(ast.parse(self.text)):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and \
                    node.func.id in ("check", "check_eq") and len(node.args) > 1:
                lab = node.args[2 if node.func.id == "check_eq" and len(node.args) > 2 else 1]
                self.spec_sites[node.lineno] = ast.unparse(lab)
        self.base_analysed = set(it.analysed)

    # ---------------------------------------------------------------- run
    def run(self, fn, params, budget=600):
        """analyse one context; where the joined analysis leaves an alarm, the
        input space is partitioned along the conditions the program tests and
        each cell is analysed on its own (until the alarm is gone, or stands
        in a cell in which every condition is decided)"""
        t0 = time.time()
        res = self.run_once(fn, params, ())
        if res["failures"] or res["undecided"] or res["imp"]:
            self.left = budget
            self.deadline = t0 + 240
            total = dict(res, cells=1)
            out = self.refine(fn, params, (), res, total)
            if out is None:          # every cell is clean
                total.update(failures=[], undecided=[], imp=[])
            else:
                total.update(failures=out["failures"], undecided=out["undecided"], imp=out["imp"])
            res = total
        res["wall"] = time.time() - t0
        return res

    def add(self, total, r):
        total["cells"] += 1
        for k in ("calls", "branches", "joins", "ok"):
            total[k] += r[k]
        total["functions"] = sorted(set(total["functions"]) | set(r["functions"]))
        for k, v in r["sites"].items():
            total["sites"][k] = total["sites"].get(k, 0) + v

    def clean(self, r):
        return not (r["failures"] or r["undecided"] or r["imp"])

    def refine(self, fn, params, cell, r, total):
        """None when every sub-cell is clean, else a result that stands"""
        if self.clean(r):
            return None
        if not r["plog"]:
            return self.stands(r)
        if self.left <= 0 or time.time() > self.deadline:
            r = dict(r)
            r["undecided"] = r["undecided"] + [dict(u, why="partitioning budget exhausted") for u in r["failures"]]
            r["failures"] = []
            return r
        # follow the counterexample into its cell
        for f in r["failures"][:2]:
            q = self.confirm(fn, params, cell, r, f, total)
            if q is not None:
                return q
        p = self.pick(r)
        worst = None
        for val in (True, False):
            sub = cell + ((p, val),)
            self.left -= 1
            q = self.run_once(fn, params, sub)
            self.add(total, q)
            out = self.refine(fn, params, sub, q, total)
            if out is not None:
                if out["failures"]:
                    return out
                worst = worst or out
        return worst

    def stands(self, r):
        return r

    def confirm(self, fn, params, cell, r, f, total):
        w = f["witness"]
        if w is None:
            return None
        env = witness.Env({I.atom_by_name(n): v for n, v in w.items() if I.atom_by_name(n) is not None})
        cur = cell
        have = {p for p, _ in cell}
        for _ in range(6):
            new = ()
            for p in r["plog"]:
                if p in have:
                    continue
                try:
                    v = env.sb(p)
                except witness.CannotEval:
                    continue
                new += ((p, v),)
                have.add(p)
            if not new:
                return None
            cur = cur + new
            self.left -= 1
            r = self.run_once(fn, params, cur)
            self.add(total, r)
            if self.clean(r):
                return None
            if not r["plog"]:
                return r if r["failures"] else None
        return None

    def pick(self, r):
        atoms = set()
        for f in r["failures"] + r["undecided"]:
            atoms |= set(f.get("atoms", ()))
        best = None
        for n, p in enumerate(r["plog"]):
            if type(p.arg) is not I.SInt:
                if best is None:
                    best = (-1, p)
                continue
            vs = witness.expand(witness.atoms_of(p.arg))
            score = (1 if vs & atoms else 0, -n)
            if best is None or best[0] == -1 or score > best[0]:
                best = (score, p)
        return best[1]

    def run_once(self, fn, params, cell):
        it = self.it
        it.fresh()
        self.ctx = "%s(%s)" % (fn, ", ".join("%s=%r" % kv for kv in sorted(params.items())))
        self.recs = []
        c0 = dict(ok=0, sites={})
        self.cur = c0
        self.failures, self.undecided = [], []
        it.calls = it.branches = it.joins = 0
        it.analysed = set()
        it.reset_context()
        imp = ()
        feasible = all(it.st.assume(p, v) for p, v in cell)
        if feasible:
            try:
                f = it.o(self.ns).d[fn]
                it.frames = []
                try:
                    it.call(f, [], {k: v for k, v in params.items()})
                    imp = it.st.imp
                except Dead:
                    pass
                for exc, est in it.raises:
                    self.unhandled(exc, est)
                    imp += tuple(x for x in est.imp if x not in imp)
            except Imprecise as e:
                imp += (str(e),)
            except (RecursionError, MemoryError) as e:
                imp += ("analysis gave up: %r" % e,)
            except Exception as e:      # a construct the analysis does not know
                tb = traceback.extract_tb(e.__traceback__)[-1]
                imp += ("analysis error %s: %s (%s:%d) while at %s" % (
                    type(e).__name__, e, os.path.basename(tb.filename), tb.lineno, it.stack()[-3:]),)
        done = {p for p, _ in cell}
        return dict(ctx=self.ctx, ok=c0["ok"], sites=c0["sites"], failures=[f.as_dict() for f in self.failures],
                    undecided=list(self.undecided), imp=list(imp), calls=it.calls, branches=it.branches,
                    joins=it.joins, functions=sorted(x for x in it.analysed if not x[0].startswith("__")),
                    plog=[p for p in it.plog if p not in done], cells=1)

    # ------------------------------------------------------------- reporting
    def describe_raises(self):
        out = []
        for exc, est in self.it.raises:
            o = est.get(exc.id)
            out.append("%s%s at %s" % (o.cls.name, o.d.get("args", ()), o.site))
        return out

    def constructs(self, st, about):
        """where the values involved were made or last written"""
        it = self.it
        out = []
        for a in about:
            for r in self.refs(st, a):
                o = st.get(r.id)
                for p in (o.alts if type(o) is AltsO else [(o, ())]):
                    s = p[0].site
                    if s and not s[0].startswith("__") and s not in out:
                        out.append(s)
                for s in it.wsites.get(r.id, ()):
                    if s and not s[0].startswith("__") and s not in out:
                        out.append(s)
        return out[:12]

    def refs(self, st, v, depth=0):
        if type(v) is VSet:
            for x, _ in v.alts:
                yield from self.refs(st, x, depth)
        elif type(v) is Ref:
            yield v
            try:
                o = st.get(v.id)
            except KeyError:
                return
            if type(o) is AltsO or depth > 2:
                return
            if o.kind == "ct":
                yield Ref(o.x[0])
            for x in (o.items or []) if o.kind in ("list", "inst", "iter") else []:
                yield from self.refs(st, x, depth + 1)
            for x in (o.d or {}).values() if o.kind == "inst" else []:
                yield from self.refs(st, x, depth + 1)
        elif type(v) is tuple:
            for x in v:
                yield from self.refs(st, x, depth + 1)

    def record_failure(self, label, st, sb, detail, about=(), site=None, exc=None):
        it = self.it
        w, approx = witness.find(st.facts, sb)
        line = 0
        for f in reversed(it.frames):
            if f.path == "__spec__" and f.node is not None:
                line = f.node.lineno
                break
        cons = list(site) if site else self.constructs(st, about)
        if not cons:
            cons = [s for s in it.recent if not s[0].startswith("__")][-6:]
        atoms = set()
        if sb is not None:
            it.log_pred(sb)
            atoms |= witness.expand(witness.atoms_of(sb.arg)) if type(sb.arg) is I.SInt else set()
        for e in st.facts.rng:
            atoms |= witness.expand({b[0] for b, _ in e})
        for b in st.facts.bits:
            if len(b) == 2:
                atoms |= witness.expand({b[0]})
        d = dict(atoms=sorted(atoms), label=label, spec_line=line, context=self.ctx, detail=detail, constructs=cons,
                 witness=w, approximate=approx, facts=describe_facts(st.facts))
        if st.imp:
            self.undecided.append(dict(d, why="imprecise state: %s" % (st.imp,)))
        elif w is None:
            self.undecided.append(dict(d, why="no concrete counterexample could be derived"))
        elif approx:
            self.undecided.append(dict(d, why="counterexample depends on a predicate that cannot be evaluated"))
        else:
            self.failures.append(Failure(**d))

    def unhandled(self, exc, est):
        o = est.get(exc.id)
        site = o.site
        self.it.frames = []
        self.record_failure("unexpected exception: %s" % o.cls.name, est, None,
                            "%s%s" % (o.cls.name, tuple(map(str, o.d.get("args", ())))),
                            site=[site] if site else None)

    # ------------------------------------------------------------- builtins
    def builtins(self):
        S = self

        def done(it, ok=True):
            line = 0
            for f in reversed(it.frames):
                if f.path == "__spec__" and f.node is not None:
                    line = f.node.lineno
                    break
            S.cur["sites"][line] = S.cur["sites"].get(line, 0) + 1
            if ok:
                S.cur["ok"] += 1

        def decide(it, tv, label, detail, about):
            if type(tv) is VSet:
                return it.over(tv, lambda x: decide(it, it.truth(x), label, detail, about))
            if type(tv) is Unknown:
                done(it, False)
                S.undecided.append(dict(label=label, context=S.ctx, why="unknown: %s" % tv.why, detail=detail()))
                it.imprecise("obligation not evaluable")
                return None
            if type(tv) is SBool:
                d = it.st.decide(tv)
                tv = d if d is not None else tv
            if tv is True:
                done(it)
                return None
            done(it, False)
            if tv is False:
                S.record_failure(label, it.st, None, detail(), about)
                return None
            n = len(S.undecided)
            S.record_failure(label, it.st, tv, detail(), about)
            if not it.st.assume(tv, True):
                raise Dead()
            return None

        def check(it, a, k):
            label = a[1] if len(a) > 1 else "obligation"
            decide(it, it.truth(a[0]), plain(label), lambda: "condition %s" % show(it, a[0]), a[2:])
            return None

        def check_eq(it, a, k):
            def go(p):
                x, y = p

                def det():
                    return "got %s, expected %s" % (show(it, x), show(it, y))
                tv = it.eq(x, y)
                decide(it, tv, plain(a[2]), det, [x] + a[3:])
                return None
            if type(a[2]) is not str:
                pass
            return it.over_all([a[0], a[1]], go)

        def fail(it, a, k):
            label = plain(a[0])
            done(it, False)
            site = None
            about = a[1:]
            det = label
            for x in about:
                if type(x) is Ref and it.o(x).cls is not None and M.T["BaseException"] in it.o(x).cls.mro:
                    o = it.o(x)
                    site = [o.site] if o.site else None
                    if o.x and type(o.x) is tuple:
                        site = [s for s in o.x if s and type(s) is tuple and not str(s[0]).startswith("__")][-8:] or site
                    det += ": %s%s" % (o.cls.name, tuple(map(str, o.d.get("args", ()))))
                else:
                    det += " [%s]" % show(it, x)
            S.record_failure(label, it.st, None, det, about, site=site)
            return None

        def assume(it, a, k):
            tv = it.truth(a[0])
            if type(tv) is VSet:
                # keep only alternatives where it holds
                def one(x):
                    return assume(it, [x], k)
                return it.over(tv, one)
            if tv is True:
                return None
            if tv is False:
                raise Dead()
            if type(tv) is Unknown:
                it.imprecise("assumption not evaluable")
                return None
            if not it.st.assume(tv, True):
                raise Dead()
            return None

        def sym(it, a, k):
            return I.var(a[0], a[1], a[2])

        def split(it, a, k):
            """case distinction over the values of a small integer"""
            return it.split_int(a[0])

        def bits(it, a, k):
            return I.bits_of(a[0], a[1])

        def snapshot(it, a, k):
            return Snapshot(tuple(snap(it, x, set()) for x in a))

        def same_snapshot(it, a, k):
            x, y = a
            if x.v == y.v:
                return True
            return VSnapDiff(it, x, y)

        def shares(it, a, k):
            A, B = {}, {}
            reach(it, a[0], A, "")
            reach(it, a[1], B, "")
            common = [A[i] for i in A if i in B]
            return it.new_list(sorted(common))

        def classes_in(it, a, k):
            """classes of a module namespace (name order)"""
            return it.new_list([])

        def is_sym(it, a, k):
            return type(a[0]) is I.SInt

        def note(it, a, k):
            return None

        def cls_name(it, a, k):
            return it.over(a[0], lambda v: it.typeof(v).name)

        def events(it, a, k):
            return it.new_list([tuple(e) for e in it.events()]) if it.evid else it.new_list([])

        def opaque(it, a, k):
            return Opaque(a[0], bool(k.get("silent", False)))

        def fake(it, a, k):
            """what a call outside of the library (asyncio, sockets) does"""
            it.hooks[a[0]] = lambda it, root, args, kw, f=a[1]: it.call(f, list(args), dict(kw))
            return None

        def concrete(it, a, k):
            """force the abstract value of one outcome at a time"""
            return a[0]

        return dict(check=check, check_eq=check_eq, fail=fail, assume=assume, sym=sym, split=split,
                    snapshot=snapshot, same_snapshot=same_snapshot, shares=shares, cls_name=cls_name,
                    is_sym=is_sym, opaque=opaque, events=events, fake=fake)


class Snapshot:
    def __init__(self, v):
        self.v = v


def VSnapDiff(it, x, y):
    """snapshots differ structurally: compare leaf by leaf"""
    res = [True]

    def go(a, b):
        if res[0] is False:
            return
        if a == b:
            return
        if type(a) is tuple and type(b) is tuple and len(a) == len(b):
            for p, q in zip(a, b):
                go(p, q)
            return
        if I.is_int(a) and I.is_int(b):
            d = I.subst(I.sub(a, b), it.st.facts)
            if type(d) is I.SInt:
                res.append(it.eqz(d))
            elif d != 0:
                res[0] = False
            return
        res[0] = False
    go(x.v, y.v)
    if res[0] is False:
        return False
    tv = True
    for s in res[1:]:
        if s is True:
            continue
        return s
    return tv


def snap(it, v, seen):
    st = it.st
    if type(v) is VSet:
        alts = [x for x, g in v.alts]
        live = []
        for x, g in v.alts:
            f = st.fork()
            if f.facts.apply(g):
                live.append(x)
        if len(live) == 1:
            return snap(it, live[0], seen)
        return ("alts",) + tuple((snap(it, x, seen), tuple(sorted(map(str, g)))) for x, g in v.alts)
    if type(v) is Ref:
        o = st.get(v.id)
        if v.id in seen:
            return ("seen", o.kind if type(o) is not AltsO else "alts")
        seen = seen | {v.id}
        if type(o) is AltsO:
            live = []
            for x, g in o.alts:
                f = st.fork()
                if f.facts.apply(g):
                    live.append((x, g))
            if len(live) == 1:
                return snap_o(it, live[0][0], seen)
            return ("alts",) + tuple((snap_o(it, x, seen), tuple(sorted(map(str, g)))) for x, g in live)
        return snap_o(it, o, seen)
    if type(v) is tuple:
        return ("tuple",) + tuple(snap(it, x, seen) for x in v)
    if type(v) is I.SInt:
        return I.subst(v, st.facts)
    if type(v) in (Func, ClassV, Builtin, ModuleV, Bound):
        return ("obj", str(v))
    return v


def snap_o(it, o, seen):
    out = [o.kind, o.cls.name if o.cls else ""]
    if o.kind == "ct":
        bufid, off = o.x
        lay = o.cls.layout
        b = it.st.get(bufid)
        if type(b) is AltsO:
            return ("ctalts", snap(it, Ref(bufid), seen))
        items = b.items[8 * off:8 * (off + (lay.size if lay else 0))]
        n = I.subst(I.from_bits(items), it.st.facts) if items else 0
        extra = tuple(sorted((k, snap(it, x, seen)) for k, x in (o.d or {}).items()))
        return ("ct", o.cls.name, n, extra)
    if o.kind == "dict":
        for k, x in o.items:
            out.append(("pair", snap(it, k, seen), snap(it, x, seen)))
        return tuple(out)
    if o.kind == "set":
        return tuple(out) + tuple(sorted((snap(it, k, seen) for k, x in o.items), key=str))
    if o.d:
        for k in sorted(o.d):
            out.append((k, snap(it, o.d[k], seen)))
    if o.items is not None:
        for x in o.items:
            out.append(snap(it, x, seen))
    if o.kind == "buf":
        return tuple(out)
    return tuple(out)


def reach(it, v, acc, path, depth=0):
    """mutable objects reachable from v: id -> access path"""
    if depth > 12:
        return
    if type(v) is VSet:
        for x, _ in v.alts:
            reach(it, x, acc, path, depth)
        return
    if type(v) is tuple:
        for i, x in enumerate(v):
            reach(it, x, acc, "%s[%d]" % (path, i), depth + 1)
        return
    if type(v) is not Ref or v.id in acc:
        return
    o = it.st.get(v.id)
    for p in ([a for a, _ in o.alts] if type(o) is AltsO else [o]):
        if p.kind in ("list", "dict", "set", "inst", "ct", "iter"):
            if not (p.kind == "inst" and p.cls is not None and p.cls.nt_fields is not None):
                acc[v.id] = path or "."
        if p.kind == "ct":
            acc[p.x[0]] = (path or ".") + "<memory>"
        for k, x in (p.d or {}).items():
            reach(it, x, acc, "%s.%s" % (path, k), depth + 1)
        if p.kind in ("dict",):
            for k, x in p.items:
                reach(it, k, acc, path + "{key}", depth + 1)
                reach(it, x, acc, path + "{}", depth + 1)
        elif p.kind in ("set",):
            for k, x in p.items:
                reach(it, k, acc, path + "{}", depth + 1)
        elif p.kind in ("list", "inst", "iter"):
            for i, x in enumerate(p.items or []):
                reach(it, x, acc, path + "[]", depth + 1)


def plain(x):
    return x if type(x) is str else str(x)


def show(it, v, depth=0):
    if type(v) is I.SInt:
        return I.fmt(I.subst(v, it.st.facts))
    if type(v) is VSet:
        return "one of {%s}" % "; ".join(show(it, x, depth + 1) for x, _ in v.alts[:8])
    if type(v) is SBool:
        return "%s%s(%s)" % ("not " if v.neg else "", v.kind,
                             I.fmt(v.arg) if type(v.arg) is I.SInt else v.arg)
    if type(v) is Ref:
        o = it.st.get(v.id)
        if type(o) is AltsO:
            return "(%d versions)" % len(o.alts)
        n = o.cls.name if o.cls is not None else o.kind
        if o.kind == "ct":
            b = it.st.get(o.x[0])
            if type(b) is AltsO or o.cls.layout is None:
                return n
            x = b.items[8 * o.x[1]:8 * (o.x[1] + o.cls.layout.size)]
            return "%s<%s>" % (n, I.fmt(I.subst(I.from_bits(x), it.st.facts)))
        if depth > 3:
            return n
        if o.kind in ("list", "inst", "tuple") and o.items is not None:
            return "%s[%s]" % (n, ", ".join(show(it, x, depth + 1) for x in o.items[:40]))
        if o.kind == "inst":
            return "%s(%s)" % (n, ", ".join("%s=%s" % (k, show(it, x, depth + 1)) for k, x in list(o.d.items())[:8]))
        return n
    if type(v) is tuple:
        return "(%s)" % ", ".join(show(it, x, depth + 1) for x in v)
    return str(v)


def describe_facts(f):
    out = []
    by = {}
    for b, v in f.bits.items():
        if len(b) == 2:
            by.setdefault(b[0], {})[b[1]] = v
    for aid, m in sorted(by.items()):
        at = I.ATOMS[aid]
        out.append("%s=%s" % (at, "".join(str(m.get(i, "?")) for i in reversed(range(at.w)))))
    for key, (lo, hi) in list(f.rng.items())[:24]:
        if len(key) > 1:
            out.append("%s in [%d,%d]" % (I.fmt(I._mk(0, dict(key))), lo, hi))
    for key, vs in list(f.neq.items())[:24]:
        out.append("%s not in %s" % (I.fmt(I._mk(0, dict(key))), sorted(vs)))
    for p, v in f.preds.items():
        out.append("%s is %s" % (p, v))
    return out
