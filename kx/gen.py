"""python3.12 -m kx.gen: write properties.jsonl and MANIFEST.json from kx/meta.py and the registry"""
import json
import os

from kx import registry
from kx.meta import META

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "static analysis: abstract interpretation (bit-provenance value flow) of the source over a most-general client"
NOTE = ("Established for every value of the free inputs in each analysed context, from the source alone (the library is "
        "neither imported nor executed). Trusts the abstract semantics of Python and of the modelled library functions in "
        "absint/; contexts (table layouts, payload lengths, history lengths) are bounded as the evidence lists.")


def main():
    props = registry.load()
    with open(os.path.join(VERIF, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for pid in sorted(META):
            m = dict(META[pid])
            m.pop("na", None)
            fh.write(json.dumps(m) + "\n")
    checks, na = [], []
    for pid in sorted(META):
        if pid in props:
            p = props[pid]
            checks.append(dict(property=pid, quick_cmd="python3.12 -m kx.run %s quick" % pid,
                               thorough_cmd="python3.12 -m kx.run %s thorough" % pid,
                               technique=getattr(p, "technique", None) or TECH, level="other",
                               level_note=getattr(p, "note", None) or NOTE))
        else:
            na.append(dict(property=pid, reason=META[pid].get("na") or "no check built yet"))
    man = dict(version=1, setup_cmd="python3.12 -m compileall -q absint kx cfront", checks=checks, not_applicable=na,
               notes="Analyses are stdlib-only Python 3.12; KX_REPO overrides the analysed tree (default /repo).")
    with open(os.path.join(VERIF, "MANIFEST.json"), "w", encoding="utf-8") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


if __name__ == "__main__":
    main()
