"""Writes a draft specification from the current source, for review: mkspec.py SPEC CRATES pattern...
(patterns are regular expressions over function keys; `-pattern` excludes)"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from facts import Facts
from sym import Engine
import conform
from terms import contains

HERE = os.path.dirname(os.path.abspath(__file__))


def closures_in(f):
    out = set()
    for l in f.leaves:
        for t in [c for c, _ in l.conds] + ([l.ret] if l.ret is not None else []) + list(l.mem.values()) + list(l.ev) + list(l.vals) + [x for y in l.loops for x in y]:
            contains(t, lambda x: x[0] == "clo" and (out.add(x[1]) or False))
    return out


def called(E, key):
    """public functions reached from here through private ones"""
    out, todo, seen = set(), [key], set()
    while todo:
        k = todo.pop()
        if k in seen or k not in E.fns:
            continue
        seen.add(k)
        for b in E.fns[k].get("bbs") or []:
            if b and b[1][0] == "call" and isinstance(b[1][1], dict):
                for n in (b[1][1].get("r"), b[1][1].get("f")):
                    f = E.fns.get(n)
                    if f and f.get("bbs") and n != key:
                        if public(f):
                            out.add(n)
                        else:
                            todo.append(n)
                        break
        todo += [x for x in E.fns if x.startswith(k + "::{closure")]
    return sorted(out)


def public(f):
    return (f.get("vis") is True or bool(f.get("trait"))) and not f.get("derived") and f.get("kind") != "Closure"


SIMPLE = {}


def simple(E, k):
    if k not in SIMPLE:
        c = conform.canon(E, k)
        SIMPLE[k] = not c.partial and not any(e for l in c.leaves for e in l.loops)
    return SIMPLE[k]


CALLS = {}


def calls_of(E, k):
    """direct callees of ours, closures counted with the function that makes them"""
    if k not in CALLS:
        out = set()
        for b in E.fns[k].get("bbs") or []:
            if b and b[1][0] == "call" and isinstance(b[1][1], dict):
                for n in (b[1][1].get("r"), b[1][1].get("f")):
                    f = E.fns.get(n)
                    if f and f.get("bbs"):
                        out.add(n)
                        break
        out |= {x for x in E.fns if x.startswith(k + "::{closure")}
        CALLS[k] = out
    return CALLS[k]


def recursive(E, key):
    """named functions reached from here that can call themselves again"""
    def reach(k):
        seen, todo = set(), list(calls_of(E, k))
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += calls_of(E, x)
        return seen
    if key not in E.fns:
        return []
    return sorted(k for k in reach(key) if k != key and "{closure" not in k and not E.fns[k].get("derived") and k in reach(k))


def draft(E, key, small=4000, given=()):
    """canonical form, with public callees taken as given when the whole is too large"""
    c = conform.canon(E, key, given)
    rec = recursive(E, key)
    if rec:
        used = {conform.base(x) for x in conform.vocab(conform.canon(E, key, list(given) + rec))}
        given = list(given) + [k for k in rec if k in used]
    c = conform.canon(E, key, given)
    c = conform.canon(E, key, given)
    if not c.partial and any(e for l in c.leaves for e in l.loops):
        # loops of public callees are specified there
        loopy = [k for k in called(E, key) if not simple(E, k)]
        if loopy:
            c2 = conform.canon(E, key, list(given) + loopy)
            used = {conform.base(x) for x in conform.vocab(c2)} if not c2.partial else ()
            loopy = [k for k in loopy if k in used]
            if loopy:
                given = list(given) + loopy
                c = conform.canon(E, key, given)
    n = len(conform.write(c)) if not c.partial else None
    if n is not None and n <= small:
        return c
    pubs = [k for k, f in E.fns.items() if k != key and f.get("kind") != "Closure" and (f.get("vis") is True or f.get("trait")) and "{closure" not in k and not f.get("derived")]
    c2 = conform.canon(E, key, list(given) + pubs)
    if c2.partial:
        c4 = conform.canon(E, key, list(given) + pubs + [k for k in E.fns if k != key and E.fns[k].get("kind") in ("Fn", "AssocFn") and not E.fns[k].get("derived")])
        if c4.partial:
            return c
        c2 = c4
        pubs = [k for k in E.fns]
    used = {conform.base(x) for x in conform.vocab(c2)}
    c2.opaque = sorted(set(given) | {p for p in pubs if p in used})
    c3 = conform.canon(E, key, c2.opaque)       # the header must be exact: only what is actually taken as given
    if not c3.partial and (n is None or len(conform.write(c3)) < .7 * n):
        return c3
    return c


def one(E, x):
    inc = [p for p in x["pats"] if not p.startswith("-")]
    exc = [p[1:] for p in x["pats"] if p.startswith("-")]
    keys = [k for k, f in E.fns.items() if f.get("bbs") and f.get("kind") in ("Fn", "AssocFn") and not f.get("derived") and "serde_core" not in k and " as core::fmt::Debug>" not in k and " as core::hash::Hash>" not in k
            and "::_::" not in k and any(re.search(p, k) for p in inc) and not any(re.search(p, k) for p in exc)]
    todo, seen = sorted(keys), set()
    text, bad = [], []
    while todo:
        k = todo.pop(0)
        if k in seen or k not in E.fns:
            continue
        seen.add(k)
        c = draft(E, k)
        if c.partial:
            bad.append((k, c.partial))
            continue
        if "{closure" in k:
            c.pub = False
        import specs
        c.holds = [h for pat, hs in specs.HOLDS if re.search(pat, k) for h in hs]
        text.append(conform.write(c))
        todo = sorted(y for y in closures_in(c) if y not in seen) + todo
    open(os.path.join(HERE, "spec", x["id"] + ".spec"), "w").write("\n".join(text))
    print(x["id"], "functions", len(text), "bytes", sum(map(len, text)), "undecided", bad, flush=True)


def main():
    """mkspec.py ID… : drafts the specifications of these properties from the current source, for review"""
    import specs
    ids = sys.argv[1:]
    d = os.environ.get("OAK_FACTS_DIR")
    F = Facts.existing(d) if d else Facts()
    engines = {}
    for x in specs.S:
        if ids and x["id"] not in ids:
            continue
        k = tuple(x["crates"])
        if k not in engines:
            engines[k] = Engine(F, list(k))
            SIMPLE.clear()
            CALLS.clear()
        one(engines[k], x)


if __name__ == "__main__":
    main()
