"""Maintainer's tool, never run by a check: write entries for the findings of one property.

    OAK_FACTS_DIR=... python3 oak/mkknown.py PROPERTY WITNESSES.json

WITNESSES maps a finding's key to what was seen when the real code ran on a concrete input.
Findings without a witness are listed and left out.
"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts, report
from registry import CHECKS
from lexdom import iv_or


def main():
    prop, wit = sys.argv[1], json.load(open(sys.argv[2]))
    F = facts.Facts.existing(os.environ["OAK_FACTS_DIR"])
    res = report.Result(prop)
    CHECKS[prop].run(F, res, "quick")
    ents = {}
    for f in res.findings:
        w = wit.get(f.key)
        if w is None:
            print("no witness: %s   %s" % (f.key, f.show()))
            continue
        e = ents.get(f.key)
        if e is None:
            e = ents[f.key] = {"property": prop, "key": f.key, "what": "%s [%s] %s" % (f.file, f.rule, w)}
            if f.group:
                e.update(group=f.group, site=f.site, count=0, chars=[])
        if f.group:
            e["count"] += 1
            e["chars"] = None if f.chars is None or e["chars"] is None else [list(x) for x in iv_or(tuple(map(tuple, e["chars"])), tuple(map(tuple, f.chars)))]
    old = json.load(open(report.KNOWN)) if os.path.exists(report.KNOWN) else []
    keep = [k for k in old if k["property"] != prop or k.get("status") == "fixed"]
    out = keep + [ents[k] for k in sorted(ents)]
    with open(report.KNOWN, "w") as f:
        f.write("[\n" + ",\n".join(json.dumps(e, ensure_ascii=True) for e in out) + "\n]\n")
    print("%d entries for %s" % (len(ents), prop))


if __name__ == "__main__":
    main()
