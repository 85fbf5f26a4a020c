"""python3 -m kx.run <property> [quick|thorough]   (cwd /verif)

exit 0: every obligation of the property was established (or is a listed
        known finding); exit 1: a violation, with a VIOLATION line;
exit 2: the analysis could not decide (analysis broken, not a verdict).
"""
import importlib
import json
import multiprocessing
import os
import re
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("KX_REPO", "/repo")
sys.path.insert(0, VERIF)

from kx import registry  # noqa: E402


def known_findings():
    out = []
    p = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for ln in open(p, encoding="utf-8"):
            if ln.startswith("known: "):
                out.append(json.loads(ln[len("known: "):]))
    return out


def matches(k, pid, f):
    if k["property"] != pid:
        return False
    if k["label"] != f["label"]:
        return False
    if not re.fullmatch(k.get("context", ".*"), f["context"]):
        return False
    if "detail" in k and not re.fullmatch(k["detail"], str(f["detail"])):
        return False
    w = k.get("construct")
    if w and not any("%s:%s" % (c[0], c[1]) == w for c in f["constructs"]):
        return False
    return True


_S = None


def _one(ctx):
    r = _S.run(ctx[0], ctx[1])
    r.pop("plog", None)
    return r


def run_contexts(session, contexts, jobs):
    global _S
    _S = session
    if jobs <= 1 or len(contexts) < 3:
        return [_one(c) for c in contexts]
    mp = multiprocessing.get_context("fork")
    known = known_findings()
    out, t0, why = {}, time.time(), None
    step = max(1, min(8, len(contexts) // (jobs * 4) or 1))
    with mp.Pool(min(jobs, len(contexts))) as pool:
        # every kind of context gets its turn early: a violation one kind shows is not kept waiting by another
        turn = {}
        todo = []
        for n, c in enumerate(contexts):
            turn[c[0]] = turn.get(c[0], 0) + 1
            todo.append((turn[c[0]], n, c))
        todo = [(n, c) for _, n, c in sorted(todo, key=lambda t: t[:2])]
        it = pool.imap_unordered(_at, [todo[i:i + step] for i in range(0, len(todo), step)])
        found = False
        while len(out) < len(contexts):
            left = t0 + (ENOUGH if found else LIMIT) - time.time()
            try:
                part = it.next(max(left, 0.01))
            except multiprocessing.TimeoutError:
                pool.terminate()
                break
            for n, r in part:
                out[n] = r
                found = found or any(not any(matches(k, session.pid, f) for k in known) for f in r["failures"])
    res = [out[n] for n in sorted(out)]
    if len(res) < len(contexts):
        session.stopped = len(contexts) - len(res)
    return res


# properties whose deepest exploration costs seconds only: the quick check carries it out as well
DEEP = ("C02 C03 C04 C05 C06 C09 C10 C11 C13 C14 C15 C16 C17 C18 C21 C22 C23 C24 C25 C26 C27 C33 C35 C38 C39 C40 C41 C42 C46").split()

ENOUGH, LIMIT = 60, 780      # seconds: after the first violation; altogether


def _at(part):
    return [(n, _one(c)) for n, c in part]


def analyse(prop, tier, jobs=8):
    """-> (results, session errors)"""
    from kx.core import Session
    s = prop.session(REPO) if hasattr(prop, "session") else Session(REPO, prop.spec, registry.prelude(), prop.id)
    if s.lib_error:
        return [], s, s.lib_error
    ctxs = list(prop.contexts("thorough" if prop.id in DEEP else tier))
    return run_contexts(s, ctxs, jobs), s, []


def main(argv):
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    prop = registry.get(pid)
    if hasattr(prop, "main"):
        out = prop.main(REPO, tier)
    else:
        out = interp_main(prop, tier)
    failures, undecided, coverage = out
    known = known_findings()
    violations, hits = [], {}
    for f in failures:
        for n, k in enumerate(known):
            if matches(k, pid, f):
                hits[n] = hits.get(n, 0) + 1
                break
        else:
            violations.append(f)
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
              coverage=coverage, wall_s=round(time.time() - t0, 2),
              assumptions=prop.assumptions, violations=len(violations))
    coverage["known_findings_seen"] = sum(hits.values())
    coverage["undecided"] = len(undecided)
    os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
    rp = os.path.join(VERIF, "evidence", "replay", "%s.json" % pid)
    if violations or undecided:
        with open(rp, "w") as fh:
            json.dump(dict(property=pid, title=prop.title, rule=prop.rule, violations=violations[:40],
                           undecided=undecided[:40]), fh, indent=1, default=str)
    elif os.path.exists(rp):
        os.remove(rp)
    with open(os.path.join(VERIF, "evidence", "%s.json" % pid), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    for n, c in sorted(hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, known[n]["what"]))
    if violations:
        seen = set()
        for f in violations:
            key = (f["label"], tuple(map(str, f["constructs"][:2])))
            if key in seen:
                continue
            seen.add(key)
            if len(seen) > 6:
                break
            print("  [%s] %s: %s" % (f["context"], f["label"], str(f["detail"])[:400]))
            for c in f["constructs"][-5:]:
                print("      at %s" % (":".join(map(str, c)) if isinstance(c, (tuple, list)) else c))
            print("      witness %s" % (json.dumps(f["witness"], default=str)[:400]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if undecided:
        for u in undecided[:5]:
            print("UNDECIDED property=%s %s" % (pid, json.dumps(u, default=str)[:1200]))
        return 2
    print("%s: %s (%.1fs)" % (pid, coverage["explanation"], time.time() - t0))
    return 0


def interp_main(prop, tier):
    res, session, errs = analyse(prop, tier)
    failures, undecided = [], []
    if errs:
        # the library does not even load: nothing can be concluded
        undecided.append(dict(label="library loads", context="import", why=str(errs)[:2000]))
        return failures, undecided, dict(explanation="library could not be loaded by the analysis", contexts=0)
    ok, calls, br, jn, cells = 0, 0, 0, 0, 0
    funcs, sites = set(), {}
    for r in res:
        failures += r["failures"]
        undecided += r["undecided"]
        for x in r["imp"]:
            undecided.append(dict(label="precision", context=r["ctx"], why=x))
        ok += r["ok"]
        calls += r["calls"]
        cells += r["cells"]
        br += r["branches"]
        jn += r["joins"]
        funcs |= {tuple(x) for x in r["functions"]}
        for k, v in r["sites"].items():
            sites[k] = sites.get(k, 0) + v
        if not r["sites"] and not r["failures"] and not r["undecided"] and not r["imp"]:
            undecided.append(dict(label="vacuous", context=r["ctx"], why="no obligation was reached"))
    used = {c.split("(")[0] for c in (r["ctx"] for r in res)}
    if getattr(session, "stopped", 0):
        undecided.append(dict(label="time", context="", why="%d contexts were not analysed in time" % session.stopped))
    elif not failures:
        for line, lab in session.spec_sites.items():
            if line > session.prelude_lines and line not in sites:
                undecided.append(dict(label="vacuous", context="spec line %d" % line,
                                      why="obligation %s never reached" % lab))
    away = [a for a in prop.anchors if not any(m == a or m.startswith(a + ".") for m, q in funcs)]
    cov = dict(explanation="abstract interpretation of %d contexts: %d obligations established, %d function "
               "bodies analysed through %d calls; rule: %s" % (len(res), ok, len(funcs), calls, prop.rule),
               contexts=len(res), cells_after_partitioning=cells, obligations=ok, functions=len(funcs), calls=calls,
               undecided_branches_followed_both_ways=br, joins=jn,
               functions_analysed=sorted("%s.%s" % f for f in funcs),
               entry_points=sorted(used), anchors_not_reached=away)
    return failures, undecided, cov


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
