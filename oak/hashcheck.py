"""Equal values hash equally: what a hand-written `hash` feeds to the hasher is something `eq` compares."""
import conform
from sym import Engine

HASH = " as core::hash::Hash>::hash"


def terms(t):
    if isinstance(t, tuple):
        if t:
            yield t
        for x in t:
            yield from terms(x)


def place(t, arg):
    """the path below the argument that the term reads, outermost last; None when it does not read below it"""
    out = []
    while isinstance(t, tuple) and t:
        if t == ("arg", arg):
            return tuple(reversed(out))
        if t[0] == "fld" and len(t) == 3:
            out.append("." + str(t[2]))
        elif t[0] == "as" and len(t) == 3:
            out.append("@" + str(t[2]))
        elif t[0] not in ("*", "rv", "len"):
            return None
        t = t[1]
    return None


def places(t, arg):
    """all maximal paths below the argument inside the term"""
    p = place(t, arg)
    if p is not None:
        return {p}
    return {q for x in t if isinstance(x, tuple) for q in places(x, arg)} if isinstance(t, tuple) else set()


def check(crates, floor):
    def go(F, res, tier):
        E = Engine(F, crates)
        for key in sorted(k for k in E.fns if k.endswith(HASH)):
            ty = key[1:-len(HASH)]
            f = E.fns[key]
            eqs = [k for k in E.fns if k.startswith("<%s as core::cmp::PartialEq<" % ty) and k.endswith(">::eq")]
            if len(eqs) != 1 or f.get("derived") and E.fns[eqs[0]].get("derived"):
                continue
            h, e = conform.canon(E, key, []), conform.canon(E, eqs[0], [])
            res.count("types with a hash or equality of their own")
            if h.partial or e.partial:
                res.notes.append("%s: not analysable" % ty)
                continue
            compared = set()
            for l in e.leaves:
                for t in [c for c, b in l.conds] + [l.ret]:
                    for x in terms(t):
                        if x[0] in ("eq", "==") and len(x) == 3:
                            a, b = (place(x[1], 0), place(x[2], 1))
                            if a is None:
                                a, b = (place(x[2], 0), place(x[1], 1))
                            if a is not None and a == b:
                                compared.add(a)
                        elif x[0] == "eq0" and x[1][0] == "lin" and x[1][1] == 0 and len(x[1][2]) == 2 and sum(c for y, c in x[1][2]) == 0:
                            ps = [(place(y, 0), place(y, 1)) for y, c in x[1][2]]
                            a, b = [p or q for p, q in ps]
                            if a is not None and a == b:
                                compared.add(a)
                        elif x[0] == "is":
                            for i in (0, 1):
                                p = place(x[1], i)
                                if p is not None:
                                    compared.add(p + ("is",))
            for l in h.leaves:
                for ev in l.ev:
                    if not (isinstance(ev, tuple) and ev and ev[0] == "call" and ev[2]):
                        continue
                    n = ev[1]
                    if "ptr::" in n or any(x[0] == "call" and "as_ptr" in str(x[1]) or x[0] == "op" and ("Pointer" in str(x[1]) or "Addr" in str(x[1]) or "Expose" in str(x[1])) for x in terms(ev[2])):
                        res.add("hash", "%s:address" % ty, "%s: the hash takes in an address, which equality does not compare" % ty, f["file"], f["line"])
                    if "discriminant" in n:
                        continue
                    for p in places(ev[2][0], 0):
                        res.count("parts hashed")
                        if not any(p[:len(c)] == c for c in compared if c[-1:] != ("is",)):
                            res.add("hash", "%s:%s" % (ty, "".join(p)), "%s: the hash takes in %s, which equality does not compare" % (ty, "".join(p) or "the value"), f["file"], f["line"])
        res.floor("types with a hash or equality of their own", floor)
    return go
