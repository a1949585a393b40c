"""Does the source cursor's byte-wise advance leave it on a character boundary?

Decided on the MIR of the method: a store to the position makes it unaligned; the true edge of
`is_char_boundary` applied to a value computed from the position, a boundary search of the standard
library, or a store of the source's length make it aligned.  Every path to a return must be aligned.
"""
ALIGNERS = ("ceil_char_boundary", "floor_char_boundary")
FIELD = ".offset"


class _Fn:
    def __init__(self, c, fn):
        self.c, self.fn = c, fn
        self.defs = {}
        for b in fn["bbs"]:
            if b is None:
                continue
            for s in b[0]:
                if s[0] == "=" and len(s[1]) == 1:
                    self.defs.setdefault(s[1][0], []).append(s[2])
            t = b[1]
            if t[0] == "call":
                d = t[3]
                if d and len(d) == 1:
                    self.defs.setdefault(d[0], []).append(("call", t[1], t[2]))

    def mentions(self, o, test, d=0, seen=None):
        """a value computed (transitively) from something satisfying test"""
        seen = seen if seen is not None else set()
        if test(o):
            return True
        if isinstance(o, (list, tuple)):
            if o and o[0] in ("c", "m") and isinstance(o[1], list):
                l = o[1][0]
                if l in seen:
                    return False
                seen.add(l)
                return any(self.mentions(x, test, d + 1, seen) for x in self.defs.get(l, ()))
            return any(self.mentions(x, test, d + 1, seen) for x in o if isinstance(x, (list, tuple, dict)))
        return False


def is_offset(o):
    return isinstance(o, list) and o and o[0] in ("c", "m") and isinstance(o[1], list) and FIELD in o[1]


def summary(c, key, depth=0):
    """-> dict(aligned=post aligned on every path, breaks=[line of stores that can reach a return])"""
    fn = c.fns[key]
    F = _Fn(c, fn)

    def callee(t):
        f = t[1]
        return (f.get("r") or f.get("f") or "") if isinstance(f, dict) else ""

    def is_call(o, names):
        """the value is exactly the result of a call to one of these"""
        for _ in range(8):
            if isinstance(o, tuple):
                return any(str(callee((0, o[1]))).endswith(n) for n in names)
            if o and o[0] == "use":
                o = o[1]
            elif o and o[0] in ("c", "m") and len(o[1]) == 1 and len(F.defs.get(o[1][0], ())) == 1:
                o = F.defs[o[1][0]][0]
            else:
                return False
        return False

    # forward may-analysis: the set of stores that can leave the position unaligned here
    inn = {0: frozenset(["entry"])}
    work = [0]
    bad = {}
    ok = True
    while work:
        b = work.pop()
        cur = set(inn[b])
        stmts, t = fn["bbs"][b]
        for s in stmts:
            if s[0] == "=" and FIELD in s[1] and "*" in s[1]:
                rv = s[2]
                cur = {s[3]}
                # offset = length()
                if is_call(rv, ("::length",)):
                    cur = set()
                elif rv[0] == "use" and F.mentions(rv, lambda x: isinstance(x, tuple) and x[0] == "call" and any(a in str(callee((0, x[1]))) for a in ALIGNERS)):
                    cur = set()
        outs = []
        if t[0] == "switch":
            op = t[1]
            d = None
            neg = False
            o = op
            for _ in range(8):
                if o and o[0] in ("c", "m") and len(o[1]) == 1 and len(F.defs.get(o[1][0], ())) == 1:
                    d = F.defs[o[1][0]][0]
                    if isinstance(d, list) and d[0] == "use":
                        o = d[1]
                        continue
                    if isinstance(d, list) and d[0] == "un" and d[1] in ("Not", "not"):
                        neg = not neg
                        o = d[2]
                        continue
                break
            test = isinstance(d, tuple) and str(callee((0, d[1]))).endswith("is_char_boundary") and F.mentions(d[2], is_offset)
            for v, bb in t[2]:
                e = set(cur)
                if test and (v in (1, "1")) != neg:
                    e = set()
                outs.append((bb, e))
            e = set(cur)
            if test and [v for v, _ in t[2]] in ([0], ["0"]) and not neg:
                e = set()
            if test and [v for v, _ in t[2]] in ([1], ["1"]) and neg:
                e = set()
            outs.append((t[3], e))
        elif t[0] == "call":
            k = callee(t)
            if depth < 3 and k in c.all_fns and "SourceCursor" in k and k != key and c.all_fns[k]["argc"] and "&mut" in str(c.all_fns[k]["locals"][1][0]):
                r = summary(c, k, depth + 1)
                if r["aligned"]:
                    cur = set()
                elif r["stores"]:
                    cur = cur | r["stores"]
            if t[4] is not None:
                outs.append((t[4], cur))
        elif t[0] == "return":
            for x in cur:
                bad[x] = True
        elif t[0] == "goto":
            outs.append((t[1], cur))
        elif t[0] == "drop":
            outs.append((t[2], cur))
        elif t[0] == "assert":
            outs.append((t[4], cur))
        for bb, e in outs:
            old = inn.get(bb)
            new = frozenset(e) if old is None else old | e
            if new != old:
                inn[bb] = new
                work.append(bb)
    return dict(aligned=not bad, stores={x for x in bad if x != "entry"}, fn=fn)


def advance_rounds(core):
    """does a byte-wise advance always come to rest on a character boundary?"""
    for k in core.fns:
        if k.endswith("SourceCursor::advance_bytes"):
            return summary(core, k)
    return None


if __name__ == "__main__":
    import sys, facts
    F = facts.Facts.existing(sys.argv[1])
    c = F.crate("oak_core")
    for k in c.fns:
        if "SourceCursor" in k and c.fns[k]["argc"]:
            r = summary(c, k)
            print(k, r["aligned"], r["stores"])
