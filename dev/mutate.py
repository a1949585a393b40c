"""Development aid: mutates functions at MIR level and counts how many mutants the specification
comparison reports.  mutate.py SPEC CRATES [max per function]"""
import sys, os, copy, random, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "oak"))
sys.setrecursionlimit(20000)
from facts import Facts
from sym import Engine
import conform

SW = {"Lt": "Le", "Le": "Lt", "Gt": "Ge", "Ge": "Gt", "Eq": "Ne", "Ne": "Eq", "Add": "Sub", "Sub": "Add", "AddWithOverflow": "SubWithOverflow", "SubWithOverflow": "AddWithOverflow",
      "Mul": "Add", "BitAnd": "BitOr", "BitOr": "BitAnd"}
CALLS = {"saturating_sub": "wrapping_sub", "min": "max", "max": "min", "is_some": "is_none", "is_none": "is_some", "is_ok": "is_err", "first": "last", "last": "first", "any": "all", "all": "any",
         "trim": "trim_end", "starts_with": "ends_with", "push_back": "push_front"}


def sites(fn):
    out = []
    for bi, b in enumerate(fn["bbs"]):
        if not b:
            continue
        for si, s in enumerate(b[0]):
            if s[0] != "=":
                continue
            rv = s[2]
            if rv[0] == "bin" and rv[1] in SW:
                out.append(("op", bi, si))
            if len(s[1]) > 1:
                out.append(("del", bi, si))
            for oi, o in enumerate(rv):
                if isinstance(o, list) and o and o[0] == "k" and isinstance(o[1], dict) and isinstance(o[1].get("v"), int):
                    out.append(("const", bi, si, oi))
            if rv[0] == "agg":
                for oi, o in enumerate(rv[2]):
                    if o[0] == "k" and isinstance(o[1].get("v"), int):
                        out.append(("aconst", bi, si, oi))
                ty = lambda o: fn["locals"][o[1][0]][0] if o[0] in "cm" and len(o[1]) == 1 else o[1].get("ty") if o[0] == "k" else None
                for oi in range(len(rv[2]) - 1):
                    if ty(rv[2][oi]) != ty(rv[2][oi + 1]) or ty(rv[2][oi]) is None:
                        continue
                    out.append(("aswap", bi, si, oi))
        t = b[1]
        if t[0] == "switch" and len(t[2]) >= 1:
            out.append(("swap", bi))
        if t[0] == "call" and t[4] is not None:
            if fn["locals"][t[3][0]][0] == "()":
                out.append(("nocall", bi))
            for oi, o in enumerate(t[2]):
                if o[0] == "k" and isinstance(o[1].get("v"), int):
                    out.append(("cconst", bi, oi))
                if o[0] == "k" and isinstance(o[1].get("s"), str):
                    out.append(("cstr", bi, oi))
            n = t[1].get("f", "").rsplit("::", 1)[-1] if isinstance(t[1], dict) else ""
            if n in CALLS:
                out.append(("callee", bi))
    return out


def bump(c):
    c["v"] = (0 if c["v"] else 1) if c.get("ty") == "bool" else c["v"] + 1


def apply(fn, m):
    f = dict(fn)
    f.pop("_loops", None)
    f["bbs"] = copy.deepcopy(fn["bbs"])
    b = f["bbs"][m[1]]
    k = m[0]
    if k == "op":
        b[0][m[2]][2][1] = SW[b[0][m[2]][2][1]]
    elif k == "del":
        del b[0][m[2]]
    elif k == "const":
        bump(b[0][m[2]][2][m[3]][1])
    elif k == "aconst":
        bump(b[0][m[2]][2][2][m[3]][1])
    elif k == "aswap":
        l = b[0][m[2]][2][2]
        l[m[3]], l[m[3] + 1] = l[m[3] + 1], l[m[3]]
    elif k == "swap":
        t = b[1]
        o = f["bbs"][t[3]]
        if o is None or o[1][0] == "unreachable":
            if len(t[2]) > 1:
                t[2][0][1], t[2][1][1] = t[2][1][1], t[2][0][1]
        else:
            t[2][0][1], t[3] = t[3], t[2][0][1]
    elif k == "nocall":
        t = b[1]
        b[1] = ["goto", t[4]]
    elif k == "cconst":
        bump(b[1][2][m[2]][1])
    elif k == "cstr":
        b[1][2][m[2]][1]["s"] += "x"
    elif k == "callee":
        c = b[1][1]
        for q in ("f", "r"):
            if c.get(q):
                h, t = c[q].rsplit("::", 1)
                c[q] = h + "::" + CALLS[t] if t in CALLS else c[q]
    return f


def main():
    spec, crates = sys.argv[1], sys.argv[2].split(",")
    cap = int(sys.argv[3]) if len(sys.argv) > 3 else 12
    only = sys.argv[4] if len(sys.argv) > 4 else None
    F = Facts.existing(os.environ.get("OAK_FACTS_DIR", "/tmp/w/facts"))
    E = Engine(F, crates)
    tw = conform.twins_of(E)
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "oak", "spec")
    specs = conform.read(open(os.path.join(here, spec + ".spec")).read())
    rnd = random.Random(5)
    tot = {}
    import conformcheck
    eff = conformcheck.effectful(specs, E)
    for k, sp in specs.items():
        if only and only not in k:
            continue
        fn = E.fns[k]
        ss = sites(fn)
        rnd.shuffle(ss)
        for m in ss[:cap]:
            try:
                E.fns[k] = apply(fn, m)
                M = conformcheck.Closures(E, specs, tw, eff)
                c = M.canon(k, k)
                if c is None:
                    r = "exc"
                elif c.partial:
                    r = "partial"
                else:
                    c = M.matched(sp, c)
                    v = conform.compare(sp, c, tw, effects=eff, tries=24, budget=20)
                    r = "killed" if v.diffs else "unknown" if v.unknown else "same" if v.same == len(sp.leaves) == len(c.leaves) else "missed"
            except Exception as e:
                r = "exc"
                if only:
                    raise
            finally:
                E.fns[k] = fn
            tot[(r, m[0])] = tot.get((r, m[0]), 0) + 1
            if r in ("missed", "unknown", "exc") or only:
                print(r, k, m, fn["bbs"][m[1]][0][m[2]][3] if len(m) > 2 and m[0] in ("op", "del", "const") else fn["bbs"][m[1]][1][5:6], v.unknown[0][2] if r == "unknown" else "")
    agg = {}
    for (r, k), n in tot.items():
        agg[r] = agg.get(r, 0) + n
    print(agg)
    print({k: n for k, n in sorted(tot.items()) if k[0] in ("missed", "same", "unknown")})


if __name__ == "__main__":
    main()
