"""Path-sensitive abstract interpreter over the MIR facts (no execution, no solver).

The abstract store follows ONE input stream (characters for lexers, token kinds for
parsers).  Positions in the stream are pairs (segment, index): inside a segment every
item is individually known (`chars`), between segments an unknown non-zero number of
items was skipped.  Everything else is a small value domain:

  ("u",)                 unknown
  ("i", n)               integer / bool / char constant
  ("s", text)            string constant
  ("p", seg, idx)        stream position
  ("C", uid)             item read from the stream; st.chars[uid] = (intervals, maybe_eof)
  ("l8", uid)            utf-8 width of that item
  ("E", adt, variant, ((field, value), ...))   struct / enum value
  ("T", (v, ...))        tuple or array
  ("clo", key, (v, ...)) closure
  ("ref", root, proj)    reference to a local (root = local number or ("A", n) slot)
  ("rv", v)              reference to an anonymous value
  ("tag", name)          the stream object itself or one of its parts
  ("cmp", op, a, b) ("not", b) ("in", uid, may, must)    undecided conditions

Functions are interpreted through memoised summaries keyed by the canonical entry state.
"""
import sys
import heapq
from facts import succs, loops, dominators

U = ("u",)
UNIT = ("T", ())
MAXC = 0x10FFFF
FULL = ((0, MAXC),)
ASCII = ((0, 0x7F),)
NONASCII = ((0x80, MAXC),)


# ------------------------------------------------------------------ interval sets
def iv_norm(l):
    l = sorted(l)
    out = []
    for a, b in l:
        if a > b:
            continue
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def iv_and(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0])
        b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def iv_not(x):
    out = []
    p = 0
    for a, b in x:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAXC:
        out.append((p, MAXC))
    return tuple(out)


def iv_or(x, y):
    return iv_norm(list(x) + list(y))


def iv_minus(x, y):
    return iv_and(x, iv_not(y))


def iv_str(s):
    return iv_norm([(ord(c), ord(c)) for c in s])


def iv_single(iv):
    if len(iv) == 1 and iv[0][0] == iv[0][1]:
        return iv[0][0]
    return None


def width(c):
    return 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4


def iv_width(iv):
    """utf-8 width shared by the whole set, or None."""
    if not iv:
        return None
    w = width(iv[0][0])
    if width(iv[-1][1]) == w:
        return w
    return None


def iv_show(iv):
    if iv == FULL:
        return "any"
    out = []
    for a, b in iv[:12]:
        f = lambda c: repr(chr(c))[1:-1] if 32 <= c < 127 else "U+%04X" % c
        out.append(f(a) if a == b else f(a) + ".." + f(b))
    return " ".join(out) + (" ..." if len(iv) > 12 else "")


def iv_chars(lo_hi):
    return iv_norm([(ord(a), ord(b)) for a, b in lo_hi])


_ws = [c for c in range(0x3100) if chr(c).isspace() and c not in (0x1C, 0x1D, 0x1E, 0x1F)]
WS = iv_norm([(c, c) for c in _ws])
DIG = iv_chars(["09"])
LOW = iv_chars(["az"])
UP = iv_chars(["AZ"])
ALPHA = iv_or(LOW, UP)
ALNUM = iv_or(ALPHA, DIG)
HEX = iv_or(DIG, iv_chars(["af", "AF"]))
PUNCT = iv_norm([(0x21, 0x2F), (0x3A, 0x40), (0x5B, 0x60), (0x7B, 0x7E)])


# Non-ASCII membership of the Unicode predicates.  A fixed, mutually consistent choice of
# real ranges (every member really has the property): is_alphabetic stays a subset of
# is_alphanumeric, cases stay inside letters, marks are neither.  Code points outside the
# listed ranges stand for "no property".
_NA_LOW = iv_norm([(0xAA, 0xAA), (0xB5, 0xB5), (0xBA, 0xBA), (0xDF, 0xF6), (0xF8, 0xFF), (0x3AC, 0x3CE), (0x430, 0x45F)])
_NA_UP = iv_norm([(0xC0, 0xD6), (0xD8, 0xDE), (0x391, 0x3A1), (0x3A3, 0x3A9), (0x400, 0x42F)])
_NA_ALPHA = iv_or(iv_or(_NA_LOW, _NA_UP), iv_norm([(0x1BB, 0x1BB), (0x294, 0x294), (0x5D0, 0x5EA), (0x3041, 0x3096), (0x4E00, 0x9FFF), (0xAC00, 0xD7A3), (0x20000, 0x2A6DF)]))
_NA_NUM = iv_norm([(0xB2, 0xB3), (0xB9, 0xB9), (0xBC, 0xBE), (0x660, 0x669), (0x2460, 0x249B), (0xFF10, 0xFF19), (0x1D7CE, 0x1D7FF)])
_NA_ND = iv_norm([(0x660, 0x669), (0xFF10, 0xFF19), (0x1D7CE, 0x1D7FF)])
_NA_MARK = iv_norm([(0x300, 0x344), (0x1D165, 0x1D165)])


def _x(asc, *extra):
    for e in extra:
        asc = iv_or(asc, e)
    return (asc, asc)


# name -> (may-set when true, must-set: members for which it is certainly true)
CHAR_PRED = {
    "is_ascii": (ASCII, ASCII),
    "is_ascii_digit": (DIG, DIG), "is_ascii_alphabetic": (ALPHA, ALPHA), "is_ascii_alphanumeric": (ALNUM, ALNUM),
    "is_ascii_lowercase": (LOW, LOW), "is_ascii_uppercase": (UP, UP), "is_ascii_hexdigit": (HEX, HEX),
    "is_ascii_punctuation": (PUNCT, PUNCT), "is_ascii_graphic": (((0x21, 0x7E),),) * 2,
    "is_ascii_whitespace": (iv_str(" \t\n\r\x0c"),) * 2,
    "is_ascii_control": (((0, 0x1F), (0x7F, 0x7F)),) * 2,
    "is_whitespace": (WS, WS),
    "is_alphabetic": _x(ALPHA, _NA_ALPHA), "is_alphanumeric": _x(ALNUM, _NA_ALPHA, _NA_NUM), "is_numeric": _x(DIG, _NA_NUM),
    "is_lowercase": _x(LOW, _NA_LOW), "is_uppercase": _x(UP, _NA_UP),
    "is_control": (((0, 0x1F), (0x7F, 0x9F)),) * 2,
    "is_xid_start": _x(ALPHA, _NA_ALPHA), "is_xid_continue": _x(ALNUM, iv_str("_"), _NA_ALPHA, _NA_ND, _NA_MARK),
}


class St:
    __slots__ = ("env", "segs", "chars", "cur", "done", "orig", "marks", "hv", "bases", "nuid", "live", "x", "fz", "mo")

    def __init__(s):
        s.env = {}
        s.segs = ((),)
        s.chars = {}
        s.cur = (0, 0)
        s.done = (0, 0)      # frontier; "?" unknown
        s.orig = None        # site of the first uncovered advance
        s.marks = {}         # loop header -> (pid, key)
        s.hv = False         # something outside the model changed
        s.bases = (0,)       # index in the previous segment where the unknown skip began
        s.nuid = 1
        s.live = False
        s.x = None           # domain extra (hashable)
        s.mo = None          # site that moved the position inside a character
        s.fz = frozenset()   # items an undecided function has looked at

    def copy(s):
        n = St.__new__(St)
        n.env = dict(s.env)
        n.segs = s.segs
        n.chars = dict(s.chars)
        n.cur = s.cur
        n.done = s.done
        n.orig = s.orig
        n.marks = dict(s.marks)
        n.hv = s.hv
        n.bases = s.bases
        n.nuid = s.nuid
        n.live = s.live
        n.x = s.x
        n.fz = s.fz
        n.mo = s.mo
        return n


WINDOW = 3
CAP = 3              # small integers are tracked exactly up to here
NOINFO = (FULL, True)


def walk_vals(v, fp, fc):
    """visit positions and uids inside a value"""
    k = v[0]
    if k == "p":
        fp((v[1], v[2]))
    elif k == "C" or k == "l8":
        fc(v[1])
    elif k == "in":
        fc(v[1])
    elif k == "E":
        for _, x in v[3]:
            walk_vals(x, fp, fc)
    elif k == "T":
        for x in v[1]:
            walk_vals(x, fp, fc)
    elif k == "clo":
        for x in v[2]:
            walk_vals(x, fp, fc)
    elif k == "rv" or k == "not":
        walk_vals(v[1], fp, fc)
    elif k == "cmp":
        walk_vals(v[2], fp, fc)
        walk_vals(v[3], fp, fc)
    elif k == "rest" or k == "eofq" or k == "rlen" or k == "rb" or k == "lenq":
        fp(v[1])
    elif k == "ceq":
        fc(v[1])
        fc(v[2])


def map_vals(v, mp, mc):
    k = v[0]
    if k == "p":
        q = mp((v[1], v[2]))
        return ("p",) + q if q is not None else U
    if k == "C" or k == "l8":
        q = mc(v[1])
        return (k, q) if q is not None else U
    if k == "in":
        q = mc(v[1])
        return (k, q, v[2], v[3]) if q is not None else U
    if k == "E":
        if not v[3]:
            return v
        return ("E", v[1], v[2], tuple((n, map_vals(x, mp, mc)) for n, x in v[3]))
    if k == "T":
        if not v[1]:
            return v
        return ("T", tuple(map_vals(x, mp, mc) for x in v[1]))
    if k == "clo":
        return ("clo", v[1], tuple(map_vals(x, mp, mc) for x in v[2]))
    if k == "rv" or k == "not":
        return (k, map_vals(v[1], mp, mc))
    if k == "cmp":
        return ("cmp", v[1], map_vals(v[2], mp, mc), map_vals(v[3], mp, mc))
    if k == "rest" or k == "eofq" or k == "rlen" or k == "rb":
        q = mp(v[1])
        return (k, q) if q is not None else U
    if k == "lenq":
        q = mp(v[1])
        return (k, q, v[2]) if q is not None else U
    if k == "ceq":
        a, b = mc(v[1]), mc(v[2])
        return (k, a, b) if a is not None and b is not None else U
    return v


def ceil_pid(p):
    """first character boundary at or after p (a position inside a character is a float)"""
    return p if p[1].__class__ is int else (p[0], int(p[1]) + 1)


def _sortkey(k):
    return (0, k) if isinstance(k, int) else (1, str(k))


def normalise(st):
    """Renumber positions and items canonically and cut item knowledge that is out of
    every window.  Rewrites st in place and returns its skeleton (everything except the
    item sets, which are joined)."""
    pids = set()
    env = st.env
    keys = sorted(env, key=_sortkey)
    order = []
    cs, ci = ceil_pid(st.cur)
    if ci == len(st.segs[cs]):
        # every state knows about the item at the current position, if only that it may be anything
        u = st.nuid
        st.nuid += 1
        st.chars[u] = NOINFO
        st.segs = st.segs[:cs] + (st.segs[cs] + (u,),) + st.segs[cs + 1:]
    for k in keys:
        walk_vals(env[k], pids.add, order.append)
    pids.add(st.cur)
    if st.done.__class__ is tuple:
        pids.add(st.done)
    for m in st.marks.values():
        pids.add(m[0])
    mids = [p for p in pids if p[1].__class__ is float]
    for p in mids:
        # a position inside a character keeps the boundaries on both sides
        pids.discard(p)
        pids.add((p[0], int(p[1])))
        pids.add((p[0], int(p[1]) + 1))
    curb = ceil_pid(st.cur)
    envu = set(order)
    chars = st.chars
    segs, bases = st.segs, st.bases
    newsegs = []
    newbases = []
    pmap = {}
    bys = {}
    for p in pids:
        bys.setdefault(p[0], []).append(p[1])
    prev = None
    for s in sorted(bys):
        idxs = set(bys[s])
        items = segs[s]
        n = len(items)
        while n and (n - 1 not in idxs or (s, n - 1) != curb) and n not in idxs and items[n - 1] not in envu and chars.get(items[n - 1], NOINFO) == NOINFO:
            n -= 1
        keep = set()
        for i in idxs:
            for j in range(i, min(i + (WINDOW if (s, i) == curb else 1), n)):
                keep.add(j)
        if s == curb[0]:
            for j in range(curb[1] + WINDOW, n):
                if j not in keep and chars.get(items[j], NOINFO) != NOINFO:
                    # what was read there is forgotten: later tests of it may contradict it
                    st.fz = st.fz.union([0] + [-u for u in items[curb[1]:curb[1] + WINDOW]])
                    break
        cur = []
        first = None
        last = None
        for i in sorted(keep | idxs):
            if first is None:
                first = i
                # base of this segment relative to the previous kept one
                if newsegs:
                    if prev == s - 1:
                        newbases.append(min(len(newsegs[-1]), max(0, bases[s] - prevfirst)))
                    else:
                        newbases.append(len(newsegs[-1]) if bases[prev + 1] - prevfirst >= len(newsegs[-1]) else max(0, bases[prev + 1] - prevfirst))
                else:
                    newbases.append(0)
            elif i != last + 1:
                newsegs.append(cur)
                newbases.append(len(cur))
                cur = []
                first = i
            if i in idxs:
                pmap[(s, i)] = (len(newsegs), len(cur))
            if i in keep:
                cur.append(items[i])
            last = i
        newsegs.append(cur)
        prev, prevfirst = s, first
    umap = {}
    for sg in newsegs:
        for u in sg:
            if u not in umap:
                umap[u] = len(umap) + 1
    for u in order:
        if u not in umap:
            umap[u] = len(umap) + 1
    st.chars = {n: chars.get(u, NOINFO) for u, n in umap.items()}
    for p in mids:
        q = pmap[(p[0], int(p[1]))]
        pmap[p] = (q[0], q[1] + (p[1] - int(p[1])))
    mp = pmap.get
    mc = umap.get
    st.env = nenv = {k: map_vals(env[k], mp, mc) for k in keys}
    st.segs = tuple(tuple(umap[u] for u in sg) for sg in newsegs)
    st.bases = tuple(newbases)
    st.cur = pmap[st.cur]
    if st.done.__class__ is tuple:
        st.done = pmap[st.done]
    st.nuid = len(umap) + 1
    if st.fz:
        st.fz = frozenset(umap[u] if u > 0 else -umap[-u] if u else 0 for u in st.fz if abs(u) in umap or not u)
    st.marks = {h: (pmap[m[0]], m[1]) for h, m in st.marks.items()}
    return (tuple(nenv.items()), st.segs, st.bases, st.cur, st.done, st.orig and st.orig[:2],
            tuple(sorted(st.marks.items())), st.live, st.x, st.mo, tuple(sorted(u for u in st.fz if u < 0)))


def cskey(st):
    return (tuple(sorted(st.chars.items())), st.orig, st.hv, st.fz)


def absorb(old, new):
    """join the item sets of `new` into `old` (same skeleton); True when old grew"""
    grew = False
    oc = old.chars
    if new.hv and not old.hv:
        old.hv = True
        grew = True
    if not new.fz <= old.fz:
        old.fz |= new.fz
        grew = True
    for u, (iv, e) in new.chars.items():
        iv0, e0 = oc[u]
        if iv0 == iv and e0 == e:
            continue
        iv1 = iv0 if iv0 == iv else iv_or(iv0, iv)
        e1 = e0 or e
        if iv1 != iv0 or e1 != e0:
            oc[u] = (iv1, e1)
            grew = True
    if new.orig is not None and new.orig != old.orig:
        iv1 = iv_or(old.orig[2], new.orig[2])
        if iv1 != old.orig[2]:
            old.orig = old.orig[:2] + (iv1,)
            grew = True
    return grew


BOXES = 4


def merge_in(boxes, st):
    """Add st to the boxes of one skeleton.  Two boxes are joined when the join is exact
    (they differ in one component, or one contains the other); otherwise they stay apart,
    up to BOXES of them.  -> the state to continue with, or None when nothing is new."""
    best = None
    for o in boxes:
        diff = 0
        sub = sup = True
        oc = o.chars
        for u, (iv, e) in st.chars.items():
            iv0, e0 = oc[u]
            if iv0 == iv and e0 == e:
                continue
            diff += 1
            if sub and (e and not e0 or (iv0 != iv and iv_minus(iv, iv0))):
                sub = False
            if sup and (e0 and not e or (iv0 != iv and iv_minus(iv0, iv))):
                sup = False
        if st.orig != o.orig and st.orig is not None:
            if st.orig[2] != o.orig[2]:
                diff += 1
                if iv_minus(st.orig[2], o.orig[2]):
                    sub = False
                if iv_minus(o.orig[2], st.orig[2]):
                    sup = False
        if st.hv != o.hv:
            diff += 1
            if st.hv:
                sub = False
            else:
                sup = False
        if st.fz != o.fz:
            # a box with fewer doubts answers for one with more
            diff += 2
            if not o.fz <= st.fz:
                sub = False
            sup = sup and st.fz <= o.fz
        if sub:
            return None
        if diff <= 1 or sup:
            best = o
            break
    if best is None:
        if len(boxes) < BOXES:
            boxes.append(st.copy())
            return st
        best = boxes[-1]
        if not best.hv:
            best.hv = True
        absorb(best, st)
    elif best.fz != st.fz:
        # st covers the old box and doubts less
        absorb(best, st)
        best.fz = st.fz
    else:
        absorb(best, st)
    return best.copy()


def definite(st, v):
    """the value is known well enough to be compared between two visits of a loop header"""
    k = v[0]
    if k in ("i", "s", "tag", "fn", "bytes", "it"):
        return True
    if k == "p":
        return v[1] == st.cur[0]
    if k == "E":
        return all(definite(st, x) for _, x in v[3])
    if k in ("T", "clo"):
        return all(definite(st, x) for x in v[1 if k == "T" else 2])
    if k == "ref":
        return True     # the referent is compared on its own
    if k == "rv":
        return definite(st, v[1])
    return False


def loopkey(st):
    """header key for stuck detection: positions by rank, items erased"""
    pids = {st.cur}
    if st.done.__class__ is tuple:
        pids.add(st.done)
    for v in st.env.values():
        walk_vals(v, pids.add, lambda u: None)
    rank = {p: (0, i) for i, p in enumerate(sorted(pids))}
    zero = lambda u: 0
    cs, ci = st.cur
    rank = {p: r if p[0] != cs else (1, p[1] - ci) for p, r in rank.items()}
    env = tuple((k, map_vals(st.env[k], rank.get, zero)) for k in sorted(st.env, key=_sortkey))
    return hash((env, rank[st.cur], rank[st.done] if st.done.__class__ is tuple else st.done, st.live, st.x))


class FnInfo:
    """per-function precomputation"""

    def __init__(self, fn, tagger):
        self.fn = fn
        bbs = fn["bbs"]
        n = len(bbs)
        preds = [0] * n
        reach = {0}
        st = [0]
        while st:
            b = st.pop()
            if bbs[b] is None:
                continue
            for s in succs(bbs[b]):
                preds[s] += 1
                if s not in reach:
                    reach.add(s)
                    st.append(s)
        lp, self.back = loops(fn)
        self.headers = set(lp)
        self.body = lp
        self.join = {b for b in reach if preds[b] >= 2} | self.headers
        idom, order, _ = dominators(fn)
        self.rpo = {b: i for i, b in enumerate(order)}
        self.reach = reach
        self.tags = {}
        for i, l in enumerate(fn["locals"]):
            t = tagger(l[0])
            if t:
                self.tags[i] = ("tag", t)
        self.borrowed = set()
        for b in reach:
            if bbs[b] is None:
                continue
            for s in bbs[b][0]:
                if s[0] == "=" and s[2][0] in ("ref", "raw") and "*" not in s[2][2][1:]:
                    self.borrowed.add(s[2][2][0])
        self.livein = self._liveness(reach)
        self._carried = {}
        self.tested = set()      # enums this body discriminates
        for b in reach:
            if bbs[b] is None:
                continue
            for s in bbs[b][0]:
                if s[0] == "=" and s[2][0] == "discr" and len(s[2]) > 2:
                    self.tested.add(s[2][2])

    def carried(self, h):
        """locals assigned somewhere in the loop and live at its header"""
        c = self._carried.get(h)
        if c is None:
            c = set()
            for b in self.body[h]:
                bb = self.fn["bbs"][b]
                if bb is None:
                    continue
                for s in bb[0]:
                    if s[0] == "=":
                        c.add(s[1][0])
                if bb[1][0] == "call":
                    c.add(bb[1][3][0])
            c = self._carried[h] = {l for l in c & self.livein[h] if l not in self.tags}
        return c

    def _liveness(self, reach):
        bbs = self.fn["bbs"]
        use = {}
        defs = {}

        def op_use(o, u, d):
            if o[0] != "k" and o[1][0] not in d:
                u.add(o[1][0])

        def pl_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
        for b in reach:
            u, d = set(), set()
            use[b], defs[b] = u, d
            if bbs[b] is None:
                continue
            for s in bbs[b][0]:
                if s[0] == "=":
                    rv = s[2]
                    for x in _rv_places(rv):
                        pl_use(x, u, d)
                    if len(s[1]) > 1:
                        pl_use(s[1], u, d)
                    else:
                        d.add(s[1][0])
            t = bbs[b][1]
            k = t[0]
            if k == "switch" or k == "assert":
                op_use(t[1], u, d)
            elif k == "call":
                for a in t[2]:
                    op_use(a, u, d)
                if isinstance(t[1], list):
                    op_use(t[1], u, d)
                elif isinstance(t[1].get("op"), list):
                    op_use(t[1]["op"], u, d)
                if len(t[3]) > 1:
                    pl_use(t[3], u, d)
            elif k == "return":
                if 0 not in d:
                    u.add(0)
            elif k == "yield":
                op_use(t[1], u, d)
        live = {b: set(use[b]) for b in reach}
        changed = True
        order = sorted(reach, reverse=True)
        while changed:
            changed = False
            for b in order:
                if bbs[b] is None:
                    continue
                out = set()
                for s in succs(bbs[b]):
                    out |= live.get(s, set())
                t = bbs[b][1]
                if t[0] == "call" and len(t[3]) == 1:
                    out = out - {t[3][0]}
                new = use[b] | (out - defs[b])
                if new != live[b]:
                    live[b] = new
                    changed = True
        return live


def _rv_places(rv):
    k = rv[0]
    if k in ("use", "rep"):
        return [rv[1][1]] if rv[1][0] != "k" else []
    if k in ("ref", "raw"):
        return [rv[2]]
    if k == "cast":
        return [rv[2][1]] if rv[2][0] != "k" else []
    if k == "un":
        return [rv[2][1]] if rv[2][0] != "k" else []
    if k == "bin":
        return [o[1] for o in rv[2:4] if o[0] != "k"]
    if k == "discr":
        return [rv[1]]
    if k == "agg":
        return [o[1] for o in rv[2] if o[0] != "k"]
    return []


class Summary:
    __slots__ = ("exits", "keys", "users", "entry", "fnkey", "queued", "runs")

    def __init__(self):
        self.exits = []
        self.keys = set()
        self.users = set()
        self.runs = 0


DISCR = {
    "core::option::Option": {"None": 0, "Some": 1},
    "core::result::Result": {"Ok": 0, "Err": 1},
    "core::ops::control_flow::ControlFlow": {"Continue": 0, "Break": 1},
    "alloc::borrow::Cow": {"Borrowed": 0, "Owned": 1},
    "core::cmp::Ordering": {"Less": -1, "Equal": 0, "Greater": 1},
}
NOFIELD = {"None", "Less", "Equal", "Greater"}


def some(v):
    return ("E", "core::option::Option", "Some", (("0", v),))


NONE = ("E", "core::option::Option", "None", ())


def ok(v):
    return ("E", "core::result::Result", "Ok", (("0", v),))


class Budget(Exception):
    pass


class Engine:
    """domain: object providing tag(ty), call(engine, st, name, args, callee, site) -> None | [(st, ret)],
    field(tagname, field) -> value, and event hooks."""

    def __init__(self, fnindex, adts, domain, trace=False):
        self.fns = fnindex
        self.adts = adts
        self.dom = domain
        self.infos = {}
        self.memo = {}
        self.stack = []
        self.steps = 0
        self.max_steps = 600_000
        self.calls_resolved = 0
        self.fn_seen = set()
        self.events = {}
        self.trace = trace
        self.cap = 400
        self.widened = set()
        self.dirty = set()
        self.depth = 0
        self.seq = 1
        self.deleg = {}

    # -------------------------------------------------------------- events
    def event(self, kind, key, **info):
        k = (kind, key)
        if k not in self.events:
            self.events[k] = info

    # -------------------------------------------------------------- places
    def info(self, fn):
        k = fn["key"] + "@" + fn["crate"]
        i = self.infos.get(k)
        if i is None:
            i = self.infos[k] = FnInfo(fn, self.dom.tag)
        return i

    def project(self, st, v, projs):
        for i, p in enumerate(projs):
            k = v[0]
            if k == "u":
                return U
            if p == "*":
                if k == "ref":
                    v = self.read_root(st, v[1], v[2])
                elif k == "rv":
                    v = v[1]
                # tags, strings and closures are their own referents
                continue
            if k == "ref":      # auto (should not happen)
                v = self.read_root(st, v[1], v[2])
                k = v[0]
            c = p[0]
            if c == ".":
                name = p[1:]
                if k == "E":
                    for n, x in v[3]:
                        if n == name:
                            v = x
                            break
                    else:
                        return U
                elif k == "T":
                    if name.isdigit() and int(name) < len(v[1]):
                        v = v[1][int(name)]
                    else:
                        return U
                elif k == "clo":
                    if name.isdigit() and int(name) < len(v[2]):
                        v = v[2][int(name)]
                    else:
                        fn = self.fns.get(v[1])
                        caps = (fn or {}).get("caps")
                        if caps and name in caps:
                            v = v[2][caps.index(name)]
                        else:
                            return U
                elif k == "tag":
                    v = self.dom.field(v[1], name)
                else:
                    return U
            elif c == "@":
                if k == "E" and v[2] != p[1:]:
                    return U
                if k != "E":
                    return U
            elif c == "[":
                if p[1] == "_" and p[2:-1].isdigit():
                    ix = st.env.get(int(p[2:-1]), U)
                    if ix[0] == "i" and k == "T" and 0 <= ix[1] < len(v[1]):
                        v = v[1][ix[1]]
                    elif k == "rb":
                        v = self.dom.byte_of(self, st, v, ix)
                    else:
                        return U
                elif k == "T" and p[1:-1].isdigit() and int(p[1:-1]) < len(v[1]):
                    v = v[1][int(p[1:-1])]
                else:
                    return U
            else:
                return U
        return v

    def read_root(self, st, root, proj):
        v = st.env.get(root)
        if v is None:
            if isinstance(root, int):
                t = self.cur_info.tags.get(root)
                if t is None:
                    return U
                v = t
            else:
                return U
        if not proj:
            return v
        return self.project(st, v, proj)

    def read(self, st, place):
        return self.read_root(st, place[0], place[1:])

    def write(self, st, place, val):
        self.write_root(st, place[0], tuple(place[1:]), val)

    def write_root(self, st, root, proj, val):
        env = st.env
        if not proj:
            if val == U:
                env.pop(root, None)
            else:
                env[root] = val
            return
        # resolve the leading derefs
        for i, p in enumerate(proj):
            if p == "*":
                base = self.read_root(st, root, proj[:i])
                if base[0] == "ref":
                    self.write_root(st, base[1], tuple(base[2]) + tuple(proj[i + 1:]), val)
                elif base[0] == "tag":
                    self.dom.write_field(self, st, base[1], proj[i + 1:], val)
                else:
                    st.hv = True
                return
        base = env.get(root)
        if base is None:
            if proj == (".0",) or proj == (".1",):
                pass
            return
        nv = self.update(base, proj, val)
        if nv == U:
            env.pop(root, None)
        else:
            env[root] = nv

    def update(self, v, proj, val):
        if not proj:
            return val
        p = proj[0]
        k = v[0]
        if p[0] == "@":
            if k == "E" and v[2] == p[1:]:
                return self.update(v, proj[1:], val)
            return U
        if p[0] == ".":
            name = p[1:]
            if k == "E":
                fs = []
                hit = False
                for n, x in v[3]:
                    if n == name:
                        x = self.update(x, proj[1:], val)
                        hit = True
                    fs.append((n, x))
                if not hit:
                    return U
                return ("E", v[1], v[2], tuple(fs))
            if k == "T" and name.isdigit() and int(name) < len(v[1]):
                l = list(v[1])
                l[int(name)] = self.update(l[int(name)], proj[1:], val)
                return ("T", tuple(l))
            if k == "clo" and name.isdigit() and int(name) < len(v[2]):
                l = list(v[2])
                l[int(name)] = self.update(l[int(name)], proj[1:], val)
                return ("clo", v[1], tuple(l))
            if k == "tag":
                return v
        if v[0] == "u":
            return U
        return U

    # -------------------------------------------------------------- operands
    def operand(self, st, o):
        if o[0] != "k":
            return self.read(st, o[1])
        c = o[1]
        if "v" in c:
            return ("i", c["v"])
        if "s" in c:
            return ("s", c["s"])
        if "fn" in c:
            return ("fn", c["fn"] if isinstance(c["fn"], str) else c["fn"].get("r") or c["fn"].get("f"))
        if "prom" in c:
            return self.promoted(c["prom"])
        if "static" in c:
            return self.dom.static(self, c["static"])
        if "b" in c:
            return ("bytes", tuple(c["b"]))
        ty = c.get("ty", "")
        if ty == "()":
            return UNIT
        if ty.startswith("{closure@") or ty.startswith("&{closure@"):
            return U
        if "item" in c:
            v = self.dom.item(self, c)
            if v is not None:
                return v
        return U

    def promoted(self, n):
        fi = self.cur_info
        cache = fi.__dict__.setdefault("promv", {})
        if n in cache:
            return cache[n]
        cache[n] = U
        body = fi.fn.get("proms")
        v = U
        try:
            if body and n < len(body):
                v = self.const_body(body[n])
        except Exception:
            v = U
        cache[n] = v
        return v

    def const_body(self, body):
        """straight-line evaluation of a promoted / const body"""
        st = St()
        save = self.cur_info
        fake = {"key": "prom", "crate": "", "bbs": body["bbs"], "locals": body["locals"], "proms": body.get("proms")}
        info = FnInfo(fake, lambda t: None)
        info.fn["proms"] = save.fn.get("proms") if save else None
        self.cur_info = info
        try:
            b = 0
            for _ in range(200):
                bb = body["bbs"][b]
                for s in bb[0]:
                    if s[0] == "=":
                        r = self.rvalue(st, s[2])
                        assert len(r) == 1
                        self.write(st, s[1], r[0][1])
                t = bb[1]
                if t[0] == "return":
                    return self.deref_all(st, st.env.get(0, U))
                if t[0] == "goto":
                    b = t[1]
                elif t[0] in ("drop",):
                    b = t[2]
                elif t[0] == "assert":
                    b = t[4]
                elif t[0] == "call" and isinstance(t[1], dict) and t[4] is not None and len(t[2]) >= 1 \
                        and (t[1].get("f") or "").rsplit("::", 1)[-1] in ("into_iter", "iter", "copied", "cloned", "collect", "from_iter", "from", "into", "to_vec", "as_slice", "deref", "as_ref", "to_owned"):
                    self.write(st, t[3], self.strip(st, self.operand(st, t[2][0])))
                    b = t[4]
                elif t[0] == "call" and isinstance(t[1], dict) and t[4] is not None and (t[1].get("f") or "").endswith("RangeInclusive::new"):
                    lo, hi = (self.operand(st, o) for o in t[2])
                    self.write(st, t[3], ("E", "core::ops::range::RangeInclusive", "RangeInclusive", (("start", lo), ("end", hi))))
                    b = t[4]
                else:
                    return U
            return U
        finally:
            self.cur_info = save

    def deref_all(self, st, v):
        k = v[0]
        if k == "ref":
            return ("rv", self.deref_all(st, self.read_root(st, v[1], v[2])))
        if k == "E":
            return ("E", v[1], v[2], tuple((n, self.deref_all(st, x)) for n, x in v[3]))
        if k == "T":
            return ("T", tuple(self.deref_all(st, x) for x in v[1]))
        if k == "rv":
            return ("rv", self.deref_all(st, v[1]))
        if k == "clo":
            return ("clo", v[1], tuple(self.deref_all(st, x) for x in v[2]))
        return v

    def strip(self, st, v):
        while v[0] in ("ref", "rv"):
            v = self.read_root(st, v[1], v[2]) if v[0] == "ref" else v[1]
        return v

    # -------------------------------------------------------------- rvalues
    def rvalue(self, st, rv):
        """-> list of (state, value); usually a single pair"""
        k = rv[0]
        if k == "use":
            return [(st, self.operand(st, rv[1]))]
        if k == "ref":
            pl = rv[2]
            root, proj = pl[0], tuple(pl[1:])
            # normalise through derefs
            for i in range(len(proj) - 1, -1, -1):
                if proj[i] == "*":
                    base = self.read_root(st, root, proj[:i])
                    rest = proj[i + 1:]
                    if base[0] == "ref":
                        return [(st, ("ref", base[1], tuple(base[2]) + rest))]
                    v = self.project(st, base, ("*",) + rest)
                    if v[0] in ("u",):
                        return [(st, U)]
                    if v[0] in ("tag", "s", "bytes", "rest"):
                        return [(st, v)]
                    return [(st, ("rv", v))]
            v = self.read_root(st, root, proj)
            if v[0] in ("tag", "s", "bytes", "rest"):
                return [(st, v)]
            return [(st, ("ref", root, proj))]
        if k == "agg":
            h = rv[1]
            vals = tuple(self.operand(st, o) for o in rv[2])
            if h[0] == "adt":
                names = h[3] if len(h) > 3 and h[3] else [str(i) for i in range(len(vals))]
                if h[1] in self.dom.opaque:
                    return [(st, U)]
                if not vals and h[1] not in self.cur_info.tested and not self.dom.track_enum(h[1], self.adts.get(h[1])):
                    return [(st, U)]
                return [(st, ("E", h[1], h[2], tuple(zip(names, vals))))]
            if h[0] == "closure":
                return [(st, ("clo", h[1], vals))]
            if h[0] in ("tuple", "array"):
                if len(vals) > 300:
                    return [(st, U)]
                return [(st, ("T", vals))]
            return [(st, U)]
        if k == "bin":
            a = self.operand(st, rv[2])
            b = self.operand(st, rv[3])
            return [(st, self.binop(st, rv[1], a, b))]
        if k == "un":
            a = self.operand(st, rv[2])
            if rv[1] == "Not":
                if a[0] == "i" and a[1] in (0, 1):
                    return [(st, ("i", 1 - a[1]))]
                if a[0] in ("cmp", "in", "not", "eofq", "ceq", "lenq"):
                    return [(st, a[1] if a[0] == "not" else ("not", a))]
                return [(st, U)]
            if rv[1] == "PtrMetadata":
                v = self.strip(st, a)
                if v[0] == "T":
                    return [(st, ("i", len(v[1])))]
                if v[0] == "s":
                    return [(st, ("i", len(v[1].encode())))]
                if v[0] == "bytes":
                    return [(st, ("i", len(v[1])))]
                if v[0] == "rb":
                    return [(st, ("rlen", v[1]))]
            return [(st, U)]
        if k == "cast":
            a = self.operand(st, rv[2])
            if rv[1] == "int":
                if a[0] == "i":
                    return [(st, a)]
                if a[0] == "C":
                    if rv[3] in ("u32", "usize", "u64", "i32", "i64", "char"):
                        return [(st, a)]
                    iv = st.chars.get(a[1], (FULL, True))[0]
                    if iv and iv[-1][1] < 0x80:
                        return [(st, a)]
                    return [(st, U)]
                if a[0] in ("p", "l8"):
                    return [(st, a)]
                return [(st, U)]
            if rv[1].startswith("coerce"):
                return [(st, a)]
            return [(st, U)]
        if k == "discr":
            v = self.read(st, rv[1])
            if v[0] == "E":
                d = self.discr(v[1], v[2])
                return [(st, ("i", d) if d is not None else U)]
            if v[0] == "C":
                return [(st, v)]
            adt = rv[2] if len(rv) > 2 else None
            if v[0] == "u" and adt in DISCR and adt != "core::cmp::Ordering":
                # split the unknown value so that later tests of the same place agree
                pl = rv[1]
                root, proj = pl[0], tuple(pl[1:])
                if "*" not in proj and not proj:
                    out = []
                    self.dom.undecided_branch(self, st)
                    for name, d in DISCR[adt].items():
                        n = st.copy()
                        fl = () if name in NOFIELD else (("0", U),)
                        n.env[root] = ("E", adt, name, fl)
                        out.append((n, ("i", d)))
                    return out
            return [(st, U)]
        if k == "rep":
            return [(st, U)]
        return [(st, U)]

    def discr(self, adt, variant):
        d = DISCR.get(adt)
        if d:
            return d.get(variant)
        a = self.adts.get(adt)
        if a:
            for v in a["vs"]:
                if v["n"] == variant:
                    return v["d"]
        return None

    def binop(self, st, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return self.compare(st, op, a, b)
        ov = op.endswith("WithOverflow")
        base = op[:-12] if ov else op.replace("Unchecked", "")
        r = U
        if a[0] == "i" and b[0] == "i" and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            try:
                if base == "Add":
                    r = x + y
                elif base == "Sub":
                    r = x - y
                elif base == "Mul":
                    r = x * y
                elif base == "BitAnd":
                    r = x & y
                elif base == "BitOr":
                    r = x | y
                elif base == "BitXor":
                    r = x ^ y
                else:
                    r = U
            except Exception:
                r = U
            if r is not U:
                if -CAP <= r <= CAP or self.in_const:
                    r = ("i", r)
                else:
                    r = ("nz",) if base == "Add" and r > 0 else U
        else:
            r = self.dom.arith(self, st, base, a, b)
        if r is U and base in ("BitAnd", "BitOr"):
            # boolean connectives on conditions
            for p, q in ((a, b), (b, a)):
                if p[0] == "i" and p[1] in (0, 1):
                    if base == "BitAnd":
                        r = q if p[1] == 1 else ("i", 0)
                    else:
                        r = q if p[1] == 0 else ("i", 1)
        if r is U and base in ("Add", "Sub", "Mul", "Div", "Rem"):
            if a[0] not in ("p",) and b[0] not in ("p",):
                st.hv = True
                st.marks = {}
        if ov:
            return ("T", (r, ("i", 0)))
        return r

    in_const = False
    seenlog = None

    def compare(self, st, op, a, b):
        if a[0] == "i" and b[0] == "i":
            x, y = a[1], b[1]
            r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
            return ("i", 1 if r else 0)
        if a[0] == "C" and b[0] == "C" and a[1] == b[1]:
            return ("i", 1 if op in ("Eq", "Le", "Ge") else 0)
        if a[0] == "C" and b[0] == "i":
            return self.charcmp(st, op, a[1], b[1])
        if a[0] == "i" and b[0] == "C":
            sw = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            return self.charcmp(st, sw, b[1], a[1])
        if a[0] == "C" and b[0] == "C":
            if op == "Eq" or op == "Ne":
                x = st.chars.get(a[1], (FULL, 0))[0]
                y = st.chars.get(b[1], (FULL, 0))[0]
                if not iv_and(x, y):
                    return ("i", 1 if op == "Ne" else 0)
                if iv_single(y) is not None:
                    return self.charcmp(st, op, a[1], iv_single(y))
                if iv_single(x) is not None:
                    return self.charcmp(st, op, b[1], iv_single(x))
                return ("ceq", a[1], b[1]) if op == "Eq" else ("not", ("ceq", a[1], b[1]))
            return U
        r = self.dom.compare(self, st, op, a, b)
        if r is not None:
            return r
        if a[0] == "s" and b[0] == "s" and op in ("Eq", "Ne"):
            return ("i", int((a[1] == b[1]) == (op == "Eq")))
        return U

    def charcmp(self, st, op, uid, c):
        s = {"Eq": ((c, c),), "Ne": iv_not(((c, c),)), "Lt": ((0, c - 1),) if c > 0 else (), "Le": ((0, c),),
             "Gt": ((c + 1, MAXC),), "Ge": ((c, MAXC),)}[op]
        return self.inset(st, uid, s, s)

    def inset(self, st, uid, may, must):
        iv = st.chars.get(uid, (FULL, True))[0]
        if not iv_and(iv, may):
            return ("i", 0)
        if not iv_minus(iv, must):
            return ("i", 1)
        return ("in", uid, may, must)

    # -------------------------------------------------------------- conditions
    def assume(self, st, v, truth):
        """refine st with (v == truth); returns list of states (possibly empty)"""
        k = v[0]
        if k == "i":
            return [st] if bool(v[1]) == truth else []
        if k == "not":
            return self.assume(st, v[1], not truth)
        if k == "in":
            uid, may, must = v[1], v[2], v[3]
            iv, e = st.chars.get(uid, (FULL, False))
            iv2 = iv_and(iv, may) if truth else iv_minus(iv, must)
            if not iv2:
                return []
            if iv2 != iv:
                st.chars[uid] = (iv2, e)
            return [st]
        if k == "ceq":
            if truth:
                a, b = v[1], v[2]
                x, e1 = st.chars.get(a, NOINFO)
                y, e2 = st.chars.get(b, NOINFO)
                z = iv_and(x, y)
                if not z:
                    return []
                st.chars[a] = st.chars[b] = (z, False)
                # from here on both names denote one item
                sub = lambda u: a if u == b else u
                same = lambda p: p
                st.env = {k: map_vals(w, same, sub) for k, w in st.env.items()}
                st.segs = tuple(tuple(sub(u) for u in sg) for sg in st.segs)
            return [st]
        r = self.dom.assume(self, st, v, truth)
        if r is not None:
            return r
        return [st]

    def switch(self, st, op, arms, otherwise):
        v = self.operand(st, op)
        if v[0] == "i":
            for c, b in arms:
                if c == v[1]:
                    return [(b, st)]
            return [(otherwise, st)]
        if v[0] == "C":
            uid = v[1]
            out = []
            rest = st.chars.get(uid, (FULL, False))
            iv, e = rest
            for c, b in arms:
                s = iv_and(iv, ((c, c),))
                if s:
                    n = st.copy()
                    n.chars[uid] = (s, e)
                    out.append((b, n))
                    iv = iv_minus(iv, ((c, c),))
            if iv:
                n = st.copy()
                n.chars[uid] = (iv, e)
                out.append((otherwise, n))
            return out
        if v[0] in ("in", "not", "cmp", "ceq", "eofq", "lenq") or v[0] in self.dom.conds:
            out = []
            used = set()
            for c, b in arms:
                if c in (0, 1):
                    used.add(c)
                    for s in self.assume(st.copy(), v, c == 1):
                        out.append((b, s))
            for c in (0, 1):
                if c not in used:
                    for s in self.assume(st.copy(), v, c == 1):
                        out.append((otherwise, s))
            return out
        # unknown: every arm; a switch on a plain local pins it
        self.dom.undecided_branch(self, st)
        out = []
        pin = None
        if op[0] != "k" and len(op[1]) == 1:
            pin = op[1][0]
        bbs = self.cur_info.fn["bbs"]
        vals = []
        for c, b in arms:
            n = st.copy()
            vals.append(c)
            out.append((b, n))
        ob = bbs[otherwise]
        if ob is not None and not (ob[1][0] == "unreachable" and not ob[0]):
            out.append((otherwise, st.copy()))
        return out

    # -------------------------------------------------------------- function bodies
    def run_fn(self, fn, entry, key):
        """interpret one body; returns list of exit states (env has 'ret' and the slots)"""
        info = self.info(fn)
        bbs = fn["bbs"]
        seen = {}
        if self.seenlog is not None:
            self.seenlog[(fn['key'], len(self.seenlog))] = seen
        exits = {}
        work = [(0, 0, 0, entry)]
        headers, join, livein, borrowed = info.headers, info.join, info.livein, info.borrowed
        self.fn_seen.add(fn["key"])
        while work:
            _, _, b, st = heapq.heappop(work)
            self.cur_info = info
            # ---- arrival at a join
            if b in join:
                live = livein[b]
                for l in list(st.env):
                    if isinstance(l, int) and l not in live and l not in borrowed:
                        del st.env[l]
                if b in headers:
                    st.marks.pop(b, None)
                    st.marks[b] = (st.cur, loopkey(st))
                k2 = normalise(st)
                sb = seen.setdefault(b, {})
                if k2 not in sb and len(sb) > self.cap:
                    self.widen(st)
                    self.widened.add(fn["key"])
                    k2 = normalise(st)
                    if len(sb) > 6 * self.cap:
                        raise Budget("%s: more than %d abstract states at one point" % (fn["key"], 6 * self.cap))
                st = merge_in(sb.setdefault(k2, []), st)
                if st is None:
                    continue
            self.steps += 1
            if self.steps > self.max_steps:
                raise Budget("step budget exhausted in " + fn["key"])
            blk = bbs[b]
            if blk is None:
                continue
            states = [st]
            for s in blk[0]:
                if s[0] == "=":
                    nxt = []
                    for x in states:
                        for y, v in self.rvalue(x, s[2]):
                            self.write(y, s[1], v)
                            nxt.append(y)
                    states = nxt
                elif s[0] == "dead":
                    l = s[1]
                    for x in states:
                        x.env.pop(l, None)
                elif s[0] == "setd":
                    for x in states:
                        self.write(x, s[1], U)
            t = blk[1]
            k = t[0]
            for st in states:
                self.cur_info = info
                if k == "goto":
                    self.go(work, info, fn, b, t[1], st)
                elif k == "switch":
                    for nb, ns in self.switch(st, t[1], t[2], t[3]):
                        self.go(work, info, fn, b, nb, ns)
                elif k == "drop":
                    self.go(work, info, fn, b, t[2], st)
                elif k == "assert":
                    self.go(work, info, fn, b, t[4], st)
                elif k == "call":
                    if t[4] is None:
                        self.dom.diverge(self, st, t, fn)
                        continue
                    for ns, rv in self.call(st, t, fn, info):
                        self.cur_info = info
                        self.write(ns, t[3], rv)
                        self.go(work, info, fn, b, t[4], ns)
                elif k == "return":
                    self.cur_info = info
                    n = st
                    env = {q: w for q, w in n.env.items() if not isinstance(q, int)}
                    rv = self.read_root(n, 0, ())
                    rv = self.export(n, rv)
                    env["ret"] = rv
                    n.env = env
                    n.marks = {}
                    merge_in(exits.setdefault(normalise(n), []), n)
                elif k == "yield":
                    self.go(work, info, fn, b, t[2], st)
        return [v for l in exits.values() for v in l], {(k, cskey(v)) for k, l in exits.items() for v in l}

    def export(self, st, v):
        """return values must not refer to dead locals"""
        k = v[0]
        if k == "ref":
            if isinstance(v[1], int):
                return U
            return v
        if k == "E":
            return ("E", v[1], v[2], tuple((n, self.export(st, x)) for n, x in v[3]))
        if k == "T":
            return ("T", tuple(self.export(st, x) for x in v[1]))
        if k == "clo":
            return ("clo", v[1], tuple(self.export(st, x) for x in v[2]))
        if k == "rv":
            return ("rv", self.export(st, v[1]))
        return v

    def widen(self, st):
        for l in list(st.env):
            if isinstance(l, int) and l not in self.cur_info.tags:
                v = st.env[l]
                if v[0] not in ("p", "ref", "clo"):
                    del st.env[l]
        self.dom.widen(self, st)

    def go(self, work, info, fn, b, nb, st):
        if (b, nb) in info.back and nb in info.headers:
            m = st.marks.get(nb)
            if m is not None and st.cur == m[0]:
                probe = st.copy()
                live = info.livein[nb]
                for l in list(probe.env):
                    if isinstance(l, int) and l not in live and l not in info.borrowed:
                        del probe.env[l]
                if loopkey(probe) == m[1] and all(definite(st, st.env.get(l, U)) for l in info.carried(nb)):
                    self.dom.stuck(self, st, fn, nb)
                    return
            st.marks.pop(nb, None)
        if st.marks:
            body = info.body
            for h in [h for h in st.marks if nb not in body[h]]:
                del st.marks[h]
        self.seq += 1
        heapq.heappush(work, (info.rpo.get(nb, 0), self.seq, nb, st))

    # -------------------------------------------------------------- calls
    def call(self, st, t, fn, info):
        callee = t[1]
        args = [self.operand(st, a) for a in t[2]]
        if isinstance(callee, list):
            callee = {"f": "?indirect", "op": callee}
        name = callee.get("r") or callee.get("f") or "?indirect"
        d = self.delegate(name)
        while d is not None:
            self.fn_seen.add(name)
            callee, amap = d
            args = [self.delegated(st, args, x) for x in amap]
            name = callee.get("r") or callee.get("f")
            d = self.delegate(name)
        site = (fn, t[5] if len(t) > 5 else 0)
        anyitem = [a for a in args if self.strip(st, a)[0] == "C"]
        r = self.dom.call(self, st, name, args, callee, site)
        if r is None:
            return self.invoke(st, name, args, callee, site)
        if anyitem and len(t[3]) == 1 and fn["locals"][t[3][0]][0] == "bool":
            for x, v in r:
                if v == U:
                    # an undecided predicate of an item: branches on it are not free choices
                    x.hv = True
                    x.marks = {}
        return r

    def delegated(self, st, args, x):
        if x[0] == "k":
            return self.operand(st, x)
        v = args[x[1] - 1] if x[1] - 1 < len(args) else U
        return self.project(st, v, x[2]) if x[2] else v

    def delegate(self, name):
        """a function of the tracked object whose whole body forwards to one call on it"""
        if name in self.deleg:
            return self.deleg[name]
        r = None
        fn = self.fns.get(name)
        if fn is not None and self.dom.may_delegate(name):
            r = self._delegate(fn)
        self.deleg[name] = r
        return r

    def _delegate(self, fn):
        bbs = fn["bbs"]
        val = {i: ("a", i, ()) for i in range(1, fn["argc"] + 1)}
        call = None
        b = 0
        seen = set()
        while True:
            if b in seen or bbs[b] is None:
                return None
            seen.add(b)
            for s in bbs[b][0]:
                if s[0] != "=":
                    continue
                pl, rv = s[1], s[2]
                if len(pl) != 1:
                    return None
                if rv[0] == "use" and rv[1][0] == "k":
                    val[pl[0]] = rv[1]
                    continue
                if rv[0] == "use":
                    src = rv[1][1]
                elif rv[0] == "ref":
                    src = rv[2]
                else:
                    return None
                v = val.get(src[0])
                if v is None or v[0] == "k" and len(src) > 1 and src[1:] != ["*"]:
                    return None
                if v[0] == "a":
                    v = ("a", v[1], tuple(v[2]) + tuple(src[1:]))
                val[pl[0]] = v
            t = bbs[b][1]
            if t[0] == "goto":
                b = t[1]
            elif t[0] == "drop":
                b = t[2]
            elif t[0] == "call":
                if call is not None or t[4] is None or not isinstance(t[1], dict) or len(t[3]) != 1:
                    return None
                am = []
                for o in t[2]:
                    if o[0] == "k":
                        am.append(o)
                        continue
                    v = val.get(o[1][0])
                    if v is None:
                        return None
                    if v[0] == "k":
                        am.append(v)
                        continue
                    pj = tuple(v[2]) + tuple(o[1][1:])
                    if v[1] == 1:
                        # the object itself or one of its fields, any number of reborrows
                        pj = tuple(p for p in pj if p != "*")
                        if len(pj) > 1:
                            return None
                    else:
                        pj = tuple(p for p in pj if p != "*")
                        if pj:
                            return None
                    am.append(("a", v[1], pj))
                call = (t[1], am)
                val[t[3][0]] = ("ret",)
                b = t[4]
            elif t[0] == "return":
                break
            else:
                return None
        if call is None or not call[1] or call[1][0][0] != "a" or call[1][0][1] != 1:
            return None
        rv = val.get(0)
        if rv is None or rv == ("ret",) or (rv[0] == "k" and rv[1].get("ty") == "()"):
            return call
        return None

    def invoke(self, st, name, args, callee, site):
        f = callee.get("f", "")
        # closures and function values
        if f in ("core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once", "core::ops::function::Fn::call") and len(args) == 2:
            c = self.strip(st, args[0])
            tup = self.strip(st, args[1])
            if tup[0] == "T":
                r = self.call_value(st, c, args[0], list(tup[1]), site)
                if r is not None:
                    return r
            return self.havoc_call(st, args, name, site)
        fn = self.fns.get(name)
        if fn is None and callee.get("op"):
            v = self.operand(st, callee["op"])
            r = self.call_value(st, v, v, args, site)
            if r is not None:
                return r
        if fn is not None and self.dom.enter(self, fn, name, st, args):
            return self.call_fn(st, fn, args, site)
        return self.havoc_call(st, args, name, site)

    def call_value(self, st, c, cref, args, site):
        if c[0] == "clo":
            fn = self.fns.get(c[1])
            if fn is None:
                return None
            # closure bodies take the environment by reference or by value
            envty = fn["locals"][1][0] if fn["argc"] >= 1 else ""
            a0 = cref if envty.startswith("&") else c
            if envty.startswith("&") and cref[0] not in ("ref", "rv"):
                a0 = ("rv", c)
            # closure bodies receive the tuple elements as separate arguments
            return self.call_fn(st, fn, [a0] + args, site)
        if c[0] == "fn":
            r = self.dom.call(self, st, c[1], args, {"f": c[1]}, site)
            if r is not None:
                return r
            fn = self.fns.get(c[1])
            if fn is None:
                return None
            return self.call_fn(st, fn, args, site)
        return None

    def havoc_value(self, st, v):
        k = v[0]
        if k == "ref":
            self.write_root(st, v[1], tuple(v[2]), U)
        elif k == "clo":
            for x in v[2]:
                self.havoc_value(st, x)
        elif k == "E":
            for _, x in v[3]:
                self.havoc_value(st, x)
        elif k == "T":
            for x in v[1]:
                self.havoc_value(st, x)

    def havoc_call(self, st, args, name, site):
        """unknown function: forget what it can reach through references"""
        touched = False
        for a in args:
            if self.contains_tag(st, a):
                touched = True
        if not self.dom.pure(name):
            for a in args:
                if a[0] == "ref" or a[0] in ("clo", "E", "T"):
                    self.havoc_value(st, a)
            st.hv = True
            st.marks = {}
        else:
            us = [v[1] for v in (self.strip(st, a) for a in args) if v[0] == "C"]
            if us:
                # an undecided function of an item: later branches on it are not free choices
                st.fz = st.fz.union(us)
                if st.marks:
                    st.hv = True
                    st.marks = {}
        if touched and not self.dom.pure(name):
            return self.dom.havoc_stream(self, st, name, site)
        return [(st, U)]

    def contains_tag(self, st, v, d=0):
        k = v[0]
        if k == "tag":
            return v[1] in self.dom.streamtags
        if d > 4:
            return False
        if k == "ref":
            return self.contains_tag(st, self.read_root(st, v[1], v[2]), d + 1)
        if k == "rv":
            return self.contains_tag(st, v[1], d + 1)
        if k == "E":
            return any(self.contains_tag(st, x, d + 1) for _, x in v[3])
        if k in ("T",):
            return any(self.contains_tag(st, x, d + 1) for x in v[1])
        if k == "clo":
            return any(self.contains_tag(st, x, d + 1) for x in v[2])
        return False

    def call_fn(self, st, fn, args, site):
        """memoised call. Caller locals stay behind; referenced locals travel in slots."""
        e = St()
        e.segs = st.segs
        e.bases = st.bases
        e.chars = dict(st.chars)
        e.cur = st.cur
        e.done = st.done
        e.orig = st.orig
        e.nuid = st.nuid
        e.live = st.live
        e.x = st.x
        e.fz = st.fz
        e.mo = st.mo
        slots = []       # (caller root, proj)
        index = {}

        def imp(v):
            k = v[0]
            if k == "ref":
                tgt = (v[1], tuple(v[2]))
                val = self.read_root(st, v[1], v[2])
                if val[0] == "tag":
                    return val
                if tgt not in index:
                    n = len(slots)
                    index[tgt] = n
                    slots.append(tgt)
                    w = imp(val)
                    if w != U:
                        e.env[("A", n)] = w
                return ("ref", ("A", index[tgt]), ())
            if k == "E":
                return ("E", v[1], v[2], tuple((n, imp(x)) for n, x in v[3]))
            if k == "T":
                return ("T", tuple(imp(x) for x in v[1]))
            if k == "clo":
                return ("clo", v[1], tuple(imp(x) for x in v[2]))
            if k == "rv":
                return ("rv", imp(v[1]))
            return v
        argc = fn["argc"]
        for i, a in enumerate(args[:argc]):
            v = imp(a)
            v = self.dom.coarsen_arg(self, fn, i, v)
            if v != U:
                e.env[i + 1] = v
        # anchors: positions and items the caller still needs
        pids, uids = set(), set()
        for v in st.env.values():
            walk_vals(v, pids.add, uids.add)
        for m in st.marks.values():
            pids.add(m[0])
        inarg_p, inarg_u = set(), set()
        plist = sorted(pids)
        ulist = sorted(uids)
        for n, p in enumerate(plist):
            e.env[("~p", n)] = ("p",) + p
        for n, u in enumerate(ulist):
            e.env[("~u", n)] = ("C", u)
        key0 = normalise(e)
        key = (fn["key"], fn["crate"], key0, cskey(e))
        s = self.memo.get(key)
        if s is None:
            s = self.memo[key] = Summary()
            self.dom.enter_call(self, key, fn, site, st)
            entry = e.copy()
            s.entry = e
            self.evaluate(fn, key, s, entry)
        else:
            if key in self.stackset:
                self.dom.recursion(self, key, fn, site, st)
                s.users.add(self.stack[-1] if self.stack else None)
                self.recursed.add(key)
        out = []
        for x in s.exits:
            n = self.comeback(st, x, slots, plist, ulist)
            self.dom.returned(self, n[0], fn, site)
            out.append(n)
        return out

    stackset = set()
    recursed = set()

    def evaluate(self, fn, key, s, entry):
        self.stack.append(key)
        self.stackset.add(key)
        self.depth += 1
        if self.depth > 60:
            raise Budget("call depth in " + fn["key"])
        save = self.cur_info if hasattr(self, "cur_info") else None
        try:
            while True:
                s.runs += 1
                self.recursed.discard(key)
                exits, ks = self.run_fn(fn, entry.copy(), key)
                if ks == s.keys or s.runs > 6:
                    s.exits = exits
                    s.keys = ks
                    break
                s.exits = exits
                s.keys = ks
                if key not in self.recursed:
                    break
        finally:
            self.depth -= 1
            self.stack.pop()
            self.stackset.discard(key)
            self.cur_info = save

    def comeback(self, st, x, slots, plist, ulist):
        """apply exit state x of a callee to caller state st"""
        n = st.copy()
        pm = {}
        for i, p in enumerate(plist):
            v = x.env.get(("~p", i))
            pm[p] = (v[1], v[2]) if v is not None and v[0] == "p" else None
        um = {}
        for i, u in enumerate(ulist):
            v = x.env.get(("~u", i))
            um[u] = v[1] if v is not None and v[0] == "C" else None
        mp = pm.get
        mc = um.get
        n.env = {k: map_vals(v, mp, mc) for k, v in st.env.items()}
        n.env = {k: v for k, v in n.env.items() if v != U}
        n.segs = x.segs
        n.bases = x.bases
        n.chars = dict(x.chars)
        n.cur = x.cur
        n.done = x.done
        n.orig = x.orig
        n.nuid = x.nuid
        n.live = x.live
        n.x = x.x
        n.fz = x.fz
        n.mo = x.mo
        marks = {}
        if not x.hv:
            for h, m in st.marks.items():
                q = pm.get(m[0])
                if q is not None:
                    marks[h] = (q, m[1])
        n.marks = marks
        n.hv = st.hv or x.hv

        def exp(v):
            k = v[0]
            if k == "ref":
                if isinstance(v[1], tuple) and v[1][0] == "A":
                    root, proj = slots[v[1][1]]
                    return ("ref", root, tuple(proj) + tuple(v[2]))
                return U
            if k == "E":
                return ("E", v[1], v[2], tuple((a, exp(b)) for a, b in v[3]))
            if k == "T":
                return ("T", tuple(exp(b) for b in v[1]))
            if k == "clo":
                return ("clo", v[1], tuple(exp(b) for b in v[2]))
            if k == "rv":
                return ("rv", exp(v[1]))
            return v
        for i, (root, proj) in enumerate(slots):
            v = exp(x.env.get(("A", i), U))
            self.write_root(n, root, tuple(proj), v)
        return n, exp(x.env.get("ret", U))
