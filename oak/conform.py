"""Compares what a function computes (sym.py summaries) with its written specification.

A specification is a list of guarded outcomes in the term language of specio.py.  Both sides are
partitions of the function's inputs into cases.  Cases that are the same term need no work;
for the rest, a violation needs a witness: an assignment of values to the uninterpreted parts
(random interpretation of the terms, as in Gulwani and Necula's analysis) under which the guards
of a specified case and of a computed case both hold while the outcomes differ.  The program is
not run and no solver is asked; no witness means no report."""
import hashlib, random, re, struct, time, zlib
from fractions import Fraction
from terms import *
import terms, specio

# ---------------------------------------------------------------- canonical summaries


_dig = {}
COMM = {"min", "max", "and", "or", "eq"}
COMMOPS = {"fAdd", "fMul", "BitAnd", "BitOr", "BitXor", "Mul"}


def digest(t):
    """structural digest, the same whatever order commutative parts were built in"""
    if isinstance(t, (tuple, frozenset)):
        r = _dig.get(t)
        if r is None:
            if isinstance(t, frozenset):
                r = ("fs",) + tuple(sorted(digest(x) for x in t))
            else:
                k = t[0] if t and isinstance(t[0], str) else None
                if k == "lin":
                    r = ("lin", t[1]) + tuple(sorted((digest(a), c) for a, c in t[2]))
                elif k == "eq0" and t[1][0] == "lin":
                    l = sorted((digest(a), c) for a, c in t[1][2])
                    n = -1 if l[0][1] < 0 else 1
                    r = ("eq0", n * t[1][1]) + tuple((a, n * c) for a, c in l)
                elif k in COMM:
                    r = (k,) + tuple(sorted(digest(x) for x in t[1:]))
                elif k == "op" and len(t) == 4 and t[1] in COMMOPS:
                    r = (k, t[1]) + tuple(sorted(digest(x) for x in t[2:]))
                elif k == "case" and len(t) == 2:
                    r = (k,) + tuple(sorted((digest(c), digest(x)) for c, x in t[1]))
                elif k == "upd" and len(t) == 3:
                    r = (k, digest(t[1])) + tuple(sorted(digest(x) for x in t[2]))
                else:
                    r = tuple(digest(x) for x in t)
            r = _dig[t] = hashlib.md5(repr(r).encode()).hexdigest()
        return r
    return t if isinstance(t, str) else repr(t)


DUAL = {"None": "Some", "Err": "Ok", "Break": "Continue", "Borrowed": "Owned"}


def dcond(c, t):
    while c[0] == "not":
        c, t = c[1], not t
    if c[0] == "is" and c[2] in DUAL:
        c, t = ("is", c[1], DUAL[c[2]]), not t
    if c[0] == "lt0" and c[1][0] == "lin" and min((digest(a), k) for a, k in c[1][2])[1] < 0:
        # x < 0  is  not (-x - 1 < 0)
        return (digest(("lt0", ("lin", -c[1][1] - 1, tuple((a, -k) for a, k in c[1][2])))), not t)
    return (digest(c), t)


class Leaf:
    """one guarded outcome: kind ret | panic | back; `vals` for back edges are the loop values after the pass"""
    __slots__ = ("kind", "loop", "conds", "ret", "mem", "ev", "vals", "loops", "line", "_key", "gates", "ways")

    def __init__(s, kind):
        s._key = None
        s.ways = ()         # for each loop: which of the ways of reaching it (None: the only one)
        s.gates = None      # for a pass of a loop: what must hold before the loop is reached, in each way of reaching it
        s.kind, s.loop, s.conds, s.ret, s.mem, s.ev, s.vals, s.loops, s.line = kind, None, (), None, {}, (), (), (), 0

    def key(s):
        if s._key is None:
            D = digest
            s._key = (s.kind, s.loop, frozenset(dcond(c, t) for c, t in s.conds), D(s.ret), frozenset((D(a), D(b)) for a, b in s.mem.items()), D(s.ev), D(s.vals), D(s.loops))
        return s._key


class Fn:
    def __init__(s, key):
        s.key, s.leaves, s.opaque, s.partial, s.argc, s.file, s.line, s.pub = key, [], [], None, 0, "", 0, True
        s.holds = ()        # what the constructors of the types involved see to (conditions)
        s.takes = None      # parameter types of a function that is not public


def loop_rename(path_loops, own=None):
    m = {}
    for l, name in zip(path_loops, loop_names(path_loops)):
        m[("u", l.id)] = ("u", name)
        # order by entry value, then by name: independent of declaration order
        for j, n in enumerate(free_vars(l)):
            m[("lv", l.id, n)] = ("lv", name, "v%d" % j)
    return m


def loop_names(loops):
    """C0, C1, … for loops in closed form (only the number of passes is left), L0, L1, … for the others"""
    out, nc, nl = [], 0, 0
    for l in loops:
        if free_vars(l):
            out.append("L%d" % nl)
            nl += 1
        else:
            out.append("C%d" % nc)
            nc += 1
    return out


def free_vars(l):
    free = [n for n in l.vars if n not in l.closed]
    free.sort(key=lambda n: (digest(l.entry[n]) if l.entry[n] is not None else "", n))
    return free


IGN_EV = ("core::fmt", "alloc::fmt")


def canon(E, key, opaque=(), ignore=None):
    save = E.opaque
    E.opaque = set(save) | set(opaque)
    try:
        s = E.summary(key)
    finally:
        E.opaque = save
    f = Fn(key)
    f.partial, f.argc, f.file, f.line = s.partial, s.fn["argc"], s.fn.get("file", ""), s.fn.get("line", 0)
    f.opaque = list(opaque)
    f.pub = (s.fn.get("vis") is True or bool(s.fn.get("trait"))) and "{closure" not in key
    f.takes = takes(E, key)
    if s.partial:
        return f
    # every guarded outcome with the loops it lies behind
    raw = []
    done = set()

    def backs(prefix, i, l):
        for cs, vals, ev, st in l.backs:
            ls = list(prefix) + [l] + [x for x in st.loops[i:] if x is not l]
            lf = Leaf("back")
            free = free_vars(l)
            raw.append((lf, ls, i, cs, [E.content(st, vals[n]) if vals[n] is not None else ("unk", "?") for n in free], ev, st, None))
            inner(ls, i + 1)

    def inner(ls, start):
        for j in range(start, len(ls)):
            k = tuple(id(x) for x in ls[:j + 1])
            if k not in done:
                done.add(k)
                backs(ls[:j], j, ls[j])

    for p in s.paths:
        lf = Leaf(p.kind)
        lf.line = p.line
        mem = {}
        if p.kind == "ret":
            for r, v in p.mem.items():
                if r[0] == "P" and v != ("*", r[1]):
                    mem[r[1]] = E.content(p, v)
        raw.append((lf, list(p.loops), None, p.conds, [E.content(p, p.ret)] if p.kind == "ret" else [], p.events if p.kind == "ret" else (), p, mem))
        inner(list(p.loops), 0)

    # loops that only compute closed forms and have a single way out leave no trace
    vac = {}
    for lf, ls, own, cs, vals, ev, st, mem in raw:
        for l in ls:
            if id(l) in vac:
                continue
            vac[id(l)] = l if not free_vars(l) and not any([e for e in b[2] if not e.f.startswith(IGN_EV)] for b in l.backs) else None
    exits = {i: set() for i, l in vac.items() if l is not None}
    for lf, ls, own, cs, vals, ev, st, mem in raw:
        for n, l in enumerate(ls):
            if exits.get(id(l)) is None or own is not None and ls[own] is l:
                continue
            u = ("u", l.id)
            has = lambda t: contains(t, lambda x: x == u)
            where = [c for c in cs if has(c[0])]
            if len(where) != 1 or any(has(v) for v in vals) or any(has(tuple(e.args)) for e in ev) or mem and any(has(k) or has(v) for k, v in mem.items()) \
                    or any(has(l2.entry[v]) for l2 in ls[n + 1:] for v in free_vars(l2) if l2.entry[v] is not None) or lf.kind == "panic":
                exits[id(l)] = None
            else:
                exits[id(l)].add(where[0])
    gone = {i for i, e in exits.items() if e is not None and len(e) == 1}
    seen, num = {}, {}

    def conds(cs, m, drop):
        out = []
        for c, t in cs:
            if (c, t) in drop:
                continue
            c = subst(c, m)
            while c[0] == "not":
                c, t = c[1], not t
            if c[0] == "k":
                continue
            c = as_cond(c)
            if (c, t) not in out:
                out.append((c, t))
        return tuple(out)

    def evs(l, m):
        return tuple(subst(("call", e.f, tuple(e.args)), m) for e in l if not e.f.startswith(IGN_EV))

    for lf, ls, own, cs, vals, ev, st, mem in raw:
        if own is not None and id(ls[own]) in gone:
            continue
        if own is not None and vac[id(ls[own])] is not None:
            continue            # the complement of the exits, nothing else
        keep = [l for l in ls if id(l) not in gone]
        drop = set()
        for l in ls:
            if id(l) in gone:
                drop |= exits[id(l)]
        m = loop_rename(keep)
        lf.conds = conds(cs, m, drop)
        lf.ev = evs(ev, m)
        lf.loops = tuple(tuple(subst(l.entry[n], m) if l.entry[n] is not None else ("unk", "?") for n in free_vars(l)) for l in keep)
        if own is not None:
            lf.loop = [n for n, l in zip(loop_names(keep), keep) if l is ls[own]][0]
            lf.vals = tuple(subst(v, m) for v in vals)
        elif lf.kind == "ret":
            lf.ret = subst(vals[0], m)
            for k, v in mem.items():
                k, v = subst(k, m), subst(v, m)
                if v != ("*", k):
                    lf.mem[k] = v
        lf.ways = [{num.setdefault(id(l), len(num))} for l in keep]
        o = seen.get(lf.key())
        if o is None:
            seen[lf.key()] = lf
            f.leaves.append(lf)
        else:
            for a, b in zip(o.ways, lf.ways):
                a |= b
    settle_ways(f)
    return f


def settle_ways(f):
    """ways of reaching a loop that no case tells apart are one"""
    at = {}
    for n, l in enumerate(f.leaves):
        for w in l.ways:
            for x in w:
                at.setdefault(x, set()).add(n)
    rep, byset = {}, {}
    for x in sorted(at):
        rep[x] = byset.setdefault(frozenset(at[x]), x)
    only = {}
    for l in f.leaves:
        for i, w in enumerate(l.ways):
            only.setdefault(l.loops[:i + 1], set()).update(rep[x] for x in w)
    names = {}
    for l in f.leaves:
        ws = []
        for i, w in enumerate(l.ways):
            r = {rep[x] for x in w}
            ws.append(None if len(only[l.loops[:i + 1]]) == 1 or r == only[l.loops[:i + 1]] else frozenset(names.setdefault(x, len(names)) for x in sorted(r)))
        l.ways = tuple(ws)


def way(l, i):
    return l.ways[i] if i < len(l.ways) else None


def ways_meet(a, b, i):
    x, y = way(a, i), way(b, i)
    return x is None or y is None or not x.isdisjoint(y)


def takes(E, key):
    """parameter types (of a closure: without what it captures)"""
    fn = E.fns[key]
    ts = [l[0] for l in fn["locals"][1:fn["argc"] + 1]]
    if "{closure" in key:
        ts = ts[1:]
    return "; ".join(re.sub(r"\{closure@[^}]*\}", "{closure}", re.sub(r"'\w+ ?", "", x)) for x in ts) or "nothing"


def leaf_loops(l):
    out, nc, nl = [], 0, 0
    for e in l.loops:
        if e:
            out.append("L%d" % nl)
            nl += 1
        else:
            out.append("C%d" % nc)
            nc += 1
    return out


# ---------------------------------------------------------------- text form
def write(f):
    W = specio.w
    out = ["fn " + f.key + ("" if f.pub else "  [private]")]
    if not f.pub and f.takes:
        out.append("  takes " + f.takes)
    for o in sorted(f.opaque):
        out.append("  given " + o)
    for c in f.holds:
        out.append("  holds " + c)
    roots = []
    for l in f.leaves:
        roots += [c for c, t in l.conds] + [x for y in l.loops for x in y] + list(l.ev) + [x for y in l.mem.items() for x in y] + list(l.vals) + ([l.ret] if l.ret is not None else [])
    try:
        for n, t in specio.share(roots):
            out.append("  let %s = %s" % (n, t))
        return write_leaves(f, out)
    finally:
        specio.NAMES.clear()


def write_leaves(f, out):
    W = specio.w
    for l in f.leaves:
        out.append("case" if l.kind != "back" else "pass " + l.loop)
        for c, t in l.conds:
            out.append("  if " + ("" if t else "not ") + W(c))
        for i, (nm, e) in enumerate(zip(leaf_loops(l), l.loops)):
            out.append("  loop " + nm + ("" if way(l, i) is None else " @" + ",".join(str(x) for x in sorted(way(l, i)))) + "".join(" | v%d from %s" % (j, W(x)) for j, x in enumerate(e)))
        for e in l.ev:
            out.append("  do " + W(e))
        for p, v in sorted(l.mem.items(), key=lambda x: W(x[0])):
            out.append("  set %s := %s" % (W(p), W(v)))
        if l.kind == "back":
            for j, v in enumerate(l.vals):
                out.append("  then v%d := %s" % (j, W(v)))
        elif l.kind == "panic":
            out.append("  panics")
        else:
            out.append("  ret " + W(l.ret))
    return "\n".join(out) + "\n"


def read(text):
    """-> {key: Fn}"""
    env = {}
    P = lambda x: specio.parse(x, env)
    fns = {}
    f = l = None
    for ln in text.split("\n"):
        s = ln.strip()
        if not s or s.startswith("#"):
            continue
        if ln.startswith("fn "):
            s = s[3:]
            pub = True
            if s.endswith("[private]"):
                pub, s = False, s[:-9].strip()
            f = Fn(s)
            f.pub = pub
            fns[s] = f
            l = None
            env.clear()
        elif s.startswith("let "):
            n, t = s[4:].split(" = ", 1)
            env[n] = P(t)
        elif s.startswith("takes ") and l is None:
            f.takes = s[6:]
        elif s.startswith("holds "):
            f.holds += (P(s[6:]),)
        elif s.startswith("given "):
            f.opaque.append(s[6:])
        elif ln == "case" or ln.startswith("pass "):
            l = Leaf("ret" if ln == "case" else "back")
            if l.kind == "back":
                l.loop = ln[5:].strip()
            f.leaves.append(l)
        elif s.startswith("if "):
            s = s[3:]
            t = True
            if s.startswith("not "):
                t, s = False, s[4:]
            c = P(s)
            while c[0] == "not":
                c, t = c[1], not t
            l.conds += ((as_cond(c), t),)
        elif s.startswith("loop "):
            parts = split_bar(s)
            l.loops += (tuple(P(x.split(" from ", 1)[1]) for x in parts[1:]),)
            l.ways += (frozenset(int(x) for x in parts[0].split("@")[1].split(",")) if "@" in parts[0] else None,)
        elif s.startswith("do "):
            l.ev += (P(s[3:]),)
        elif s.startswith("set "):
            a, b = s[4:].split(" := ", 1)
            l.mem[P(a)] = P(b)
        elif s.startswith("then "):
            l.vals += (P(s.split(" := ", 1)[1]),)
        elif s == "panics":
            l.kind = "panic"
        elif s.startswith("ret "):
            l.ret = P(s[4:])
        else:
            raise ValueError("spec line: " + ln)
    return fns


def split_bar(s):
    out, cur, d, instr = [], "", 0, False
    i = 0
    while i < len(s):
        ch = s[i]
        if instr:
            cur += ch
            if ch == "\\":
                cur += s[i + 1]
                i += 1
            elif ch == '"':
                instr = False
        elif ch == '"':
            instr = True
            cur += ch
        elif s.startswith(" | v", i) and " from " in s[i:i + 12]:
            out.append(cur)
            cur = ""
            i += 2
        else:
            cur += ch
        i += 1
    out.append(cur)
    return out


# ---------------------------------------------------------------- random interpretation
class Reject(Exception):
    pass


class Unknown(Exception):
    pass


def h(x):
    return zlib.crc32(repr(x).encode())


class Val:
    """one assignment to the uninterpreted parts of terms"""

    def __init__(s, rnd, twins):
        s.rnd, s.twins = rnd, twins
        s.ints, s.variant, s.alias = {}, {}, {}
        s.touched = []
        s.memo = {}
        s.names = {}
        s.choice = {}
        s.guess = False
        s.env = {}          # loop variables and pass counts with a value of their own
        s.changed = False
        s.reshaped, s.folds = False, frozenset()
        s.keep = None       # functions known to differ from those they replace
        s.pool = ()         # numbers the two sides speak of
        s.must, s.words = frozenset(), ()       # text predicates only one side uses: computed on texts made of these
        s.blind = False     # something was not compared

    def name(s, key):
        n = s.names.get(key)
        if n is None:
            n = s.names[key] = ("o", len(s.names))
            s.names[n] = key
        return n

    def op(s, key):
        """the opaque value with this key"""
        if key in s.env:
            return s.env[key]
        v = s.name(key)
        n = 0
        while v in s.alias and n < 20:
            v = s.alias[v]
            n += 1
        return v

    def unify(s):
        """calls whose arguments turned out to be equal numbers have one result"""
        def number(x):
            if isinstance(x, tuple) and x and x[0] == "o":
                x = s.final(x)
                if x[0] != "o" or x in s.ints:
                    return s.ints.get(x, x)
                n = s.final(s.names[("len", x)]) if ("len", x) in s.names else None
                n = s.ints.get(n) if n is not None and not isinstance(n, int) else n
                if n is not None and 0 <= n <= 12:
                    return ("seq", tuple(number(s.op(("idx", x, i))) for i in range(n)))
                return x
            if isinstance(x, tuple) and x:
                return tuple(number(y) for y in x)
            return x
        for _ in range(4):
            seen, done = {}, True
            for k, o in [(k, o) for k, o in s.names.items() if isinstance(o, tuple) and len(o) == 2 and o[0] == "o" and isinstance(k, tuple)]:
                if k[0] not in ("call", "fld", "*", "len", "true") or k in s.env:
                    continue
                try:
                    q = tuple(number(x) for x in k)
                    o = s.final(o)
                    if o[0] != "o":
                        continue
                    was = seen.setdefault(q, o)
                except TypeError:
                    continue
                if was != o:
                    s.alias[o] = was
                    done = False
            if done:
                return

    def final(s, v):
        n = 0
        while v in s.alias and n < 20:
            v = s.alias[v]
            n += 1
        return v

    def int_of(s, v):
        if isinstance(v, int):
            return v
        if isinstance(v, tuple) and v and v[0] == "o":
            if v not in s.ints:
                r = s.rnd.random()
                if s.pool and s.rnd.random() < .12 and s.names.get(v, ("len",))[0] not in ("len", "u", "lv", "idx", "eq", "true", "bnd"):
                    s.ints[v] = max(0, s.rnd.choice(s.pool) + s.rnd.choice((0, 0, -1, 1)))
                else:
                    s.ints[v] = s.rnd.randint(0, 3) if r < .6 else s.rnd.randint(0, 12) if r < .9 else s.rnd.randint(0, 300)
            s.touched.append(v)
            return s.ints[v]
        if isinstance(v, tuple) and v and v[0] == "chr":
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "r" and v[1].denominator == 1:
            return v[1].numerator
        raise Reject()

    def real_of(s, v):
        """floating-point numbers are read as real numbers"""
        if isinstance(v, tuple) and v and v[0] == "r":
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "o" and v not in s.ints and s.names.get(v, ("",))[0] in ("arg", "fld") and s.rnd.random() < .3:
            s.ints[v] = s.rnd.randint(-9, -1)
        return Fraction(s.int_of(v))

    def real(s, op, a, b):
        x, y = s.real_of(a), s.real_of(b)
        if op == "fAdd":
            return ("r", x + y)
        if op == "fSub":
            return ("r", x - y)
        if op == "fMul":
            return ("r", x * y)
        if op == "fDiv":
            if y == 0:
                raise Reject()
            return ("r", x / y)
        return None

    def charof(s, v):
        """the character a predicate is about; one not chosen yet is drawn from the interesting ones"""
        while isinstance(v, tuple) and v and v[0] == "rv":
            v = v[1]
        if isinstance(v, tuple) and v and v[0] == "o" and v not in s.ints:
            s.ints[v] = s.rnd.choice(CHARPOOL)
        return v

    def unref(s, v):
        while isinstance(v, tuple) and v and v[0] == "rv":
            v = v[1]
        return v

    def chartext(s, v):
        """the text of one character"""
        n = s.int_of(s.charof(v))
        if not 0 <= n < 0x110000 or 0xD800 <= n < 0xE000:
            raise Reject()
        return ("s", chr(n))

    def text(s, v):
        """the characters of a text"""
        if v[0] == "s":
            return [ord(c) for c in v[1]]
        if v[0] == "catv":
            return [c for x in v[1] for c in s.text(s.unref(x))]
        if v[0] == "o" and s.names.get(v, ("",))[0] in ("arg", "fld", "*", "as", "idx", "lv", "slice"):
            return list(s.seq(s.op(("call", "str::chars", (v,)))))
        raise Reject()

    def word(s, v, other=False):
        """a text known so far only by name is taken to be one of the interesting ones"""
        n = s.ints.get(s.names.get(("len", v)))
        l = [w for w in s.words if n is None or len(w.encode()) == n]
        if not l or v in s.variant or v in s.ints or s.names.get(v, ("arg",))[0] not in ("arg", "fld", "*", "as", "idx", "lv", "slice", "call"):
            raise Reject()
        s.alias[v] = ("s", s.rnd.choice(l))
        s.memo = {}
        s.changed = True
        return s.alias[v]

    def text_fn(s, t):
        v = s.unref(s.ev(t[2][0]))
        if isinstance(v, tuple) and v[0] == "o":
            v = s.word(v)
        if not isinstance(v, tuple) or v[0] != "s":
            raise Reject()
        s.touched.append(("txt", v))
        a = v[1]
        p = t[2][1] if len(t[2]) > 1 else None
        if p is not None and p[0] not in ("k", "str"):
            q = s.unref(s.ev(p))
            if isinstance(q, tuple) and q[0] == "o":
                q = s.word(q)
            if isinstance(q, int) and 0 <= q < 0x110000:
                q = ("s", chr(q))
            if not isinstance(q, tuple) or q[0] != "s":
                raise Reject()
            s.touched.append(("txt", q))
            p = ("str", q[1])
        p = None if p is None else chr(p[1]) if p[0] == "k" else p[1]
        n = t[1].rsplit("::", 1)[-1]
        r = TEXTFN[n](a, p)
        if isinstance(r, str):
            return ("s", r)
        if r is None or isinstance(r, tuple):
            return ("agg", "core::option::Option", "None", ()) if r is None else ("agg", "core::option::Option", "Some", (("0", ("s", r[0]) if isinstance(r[0], str) else r[0]),))
        return int(r)

    def boundary(s, v, i):
        """is `i` a character boundary of the text `v`: known at its ends and outside"""
        if i < 0:
            raise Reject()
        if isinstance(v, tuple) and v[0] == "seq":
            return s.op(("bnd", v, i))
        n = s.seq_len(v)
        if i == 0 or i == n:
            return 1
        if i > n:
            return 0
        if v[0] == "s":
            return int(v[1].encode()[i] & 0xC0 != 0x80)
        return s.op(("bnd", v, i))

    def truth(s, v):
        return s.int_of(v) != 0

    def ev(s, t):
        r = s.memo.get(t)
        if r is None:
            try:
                r = s.memo[t] = s.ev1(t)
            except TypeError:       # a value of another type than the guess expects
                raise Reject()
        return r

    def seq_len(s, v):
        if not isinstance(v, tuple):
            raise Reject()
        if v[0] == "seq":
            return len(v[1])
        if v[0] == "s":
            return len(v[1].encode())
        if v[0] == "catv":
            return sum(s.seq_len(x) for x in v[1])
        if v[0] == "o":
            k = s.op(("len", v))
            q = s.names.get(v, ("",))
            if q[0] == "post" and k not in s.ints:
                c = s.names.get(q[-1], ("",))
                if c[0] == "call" and c[1].startswith("[T]::") and c[1][5:] in terms.PERMUTE:
                    return s.seq_len(s.unref(c[2][0]))
            if q[0] == "call" and q[1] == "str::chars" and k not in s.ints and k[0] == "o":
                try:        # as many characters as bytes, or fewer
                    n = s.seq_len(q[2][0])
                    s.ints[k] = s.rnd.randint((n + 3) // 4, n)
                except Reject:
                    pass
            if k not in s.ints and k[0] == "o":
                s.ints[k] = s.rnd.randint(0, 4)
            return s.int_of(k)
        raise Reject()

    def seq(s, v):
        """as a concrete sequence"""
        if v[0] == "seq":
            return v[1]
        n = s.seq_len(v)
        if n > 80:
            raise Reject()
        return tuple(s.index(v, i) for i in range(n))

    def index(s, v, i):
        if v[0] == "seq":
            if 0 <= i < len(v[1]):
                return v[1][i]
            raise Reject()
        if v[0] == "s":
            b = v[1].encode()
            if 0 <= i < len(b):
                return b[i]
            raise Reject()
        return s.op(("idx", v, i))

    def fld(s, v, f):
        if v[0] == "agg":
            for n, x in v[3]:
                if n == f:
                    return x
            return s.op(("fld", v, f))
        if v[0] == "clo":
            return v[2][int(f)] if f.isdigit() and int(f) < len(v[2]) else s.op(("fld", v, f))
        return s.op(("fld", v, f))

    def is_variant(s, v, name):
        if v[0] == "agg":
            return v[2] == name
        if v[0] != "o":
            raise Reject()
        a = s.variant.get(v)
        if a is None:
            a = s.variant[v] = [None, set()]
        s.touched.append(("is", v, name))
        if a[0] is not None:
            return a[0] == name
        if name in a[1]:
            return False
        s.set_variant(v, name, s.rnd.random() < .5)
        return s.variant[v][0] == name

    def set_variant(s, v, name, yes):
        a = s.variant.setdefault(v, [None, set()])
        if yes:
            a[0] = name
            a[1] = set()
        else:
            if a[0] == name:
                a[0] = None
            a[1].add(name)
            tw = s.twins.get(name)
            if tw:
                left = [x for x in tw if x not in a[1]]
                if len(left) == 1:
                    a[0] = left[0]

    def cond(s, c):
        """truth of a condition term"""
        k = c[0]
        if k == "not":
            return not s.cond(c[1])
        return s.truth(s.ev(c))

    def ev1(s, t):
        k = t[0]
        if k == "k":
            return t[1] if isinstance(t[1], int) else ("kc", t[1])
        if k == "lin":
            r = t[1]
            for a, c in t[2]:
                v = s.ev(a)
                r += c * (v[1] if isinstance(v, tuple) and v and v[0] == "r" else s.int_of(v))
            return ("r", r) if isinstance(r, Fraction) else r
        if k == "ltr":
            return 1 if s.real_of(s.ev(t[1])) < s.real_of(s.ev(t[2])) else 0
        if k == "const" and t[1] == "float":
            n = int(str(t[2]), 16)
            x = struct.unpack(">d", n.to_bytes(8, "big"))[0] if n > 0xffffffff or n == 0 else struct.unpack(">f", n.to_bytes(4, "big"))[0]
            return ("r", Fraction(x)) if x == x and abs(x) != float("inf") else s.op(t)
        if k == "call" and s.must and base(t[1]) in s.must:
            return s.text_fn(t)
        if k == "call" and t[1] in REALFN:
            return ("r", REALFN[t[1]](*[s.real_of(s.ev(x)) for x in t[2]]))
        if k == "call" and t[1] in CHARFN and len(t[2]) == 1:
            c = s.charof(s.ev(t[2][0]))
            r = CHARFN[t[1]](s.int_of(c))
            if r is None:
                raise Reject()
            return r
        if k == "call" and t[1] == "char" and len(t[2]) == 1:
            return s.chartext(s.ev(t[2][0]))
        if k == "call" and t[1] == "str::chars" and len(t[2]) == 1:
            v = s.unref(s.ev(t[2][0]))
            if isinstance(v, tuple) and v[0] in ("s", "catv"):
                return ("seq", tuple(s.text(v)))
        if k == "call" and t[1] == "str::replace" and len(t[2]) == 3 and t[2][1][0] == "k":
            w = s.ev(t[2][2])
            if isinstance(w, tuple) and w[0] == "s":
                out = ""
                for c in s.text(s.unref(s.ev(t[2][0]))):
                    x = s.chartext(c)[1]
                    out += w[1] if ord(x) == t[2][1][1] else x
                return ("s", out)
        if k == "call" and t[1] == "str::is_char_boundary" and len(t[2]) == 2:
            v = s.ev(t[2][0])
            return s.boundary(v[1] if isinstance(v, tuple) and v[0] == "rv" else v if isinstance(v, tuple) and v[0] == "s" else s.op(("*", v)), s.int_of(s.ev(t[2][1])))
        if k == "validrange" and len(t) == 4:
            v, lo, hi = s.ev(t[1]), s.int_of(s.ev(t[2])), s.int_of(s.ev(t[3]))
            if lo > hi:
                return 0
            bs = [s.boundary(v, i) for i in (lo, hi)]
            if 0 in bs:
                return 0
            bs = [x for x in bs if not isinstance(x, int)]
            return bs[0] if len(bs) == 1 else int(all(s.truth(s.op(("true", x))) for x in bs))
        if k == "true":
            v = s.ev(t[1])
            return v if isinstance(v, int) else s.op(("true", v))
        if k == "str":
            return ("s", t[1])
        if k == "lt0":
            return 1 if s.int_of(s.ev(t[1])) < 0 else 0
        if k == "eq0":
            return 1 if s.int_of(s.ev(t[1])) == 0 else 0
        if k == "eq":
            a, b = s.ev(t[1]), s.ev(t[2])
            r = s.same(a, b)
            if r is None:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, tuple) and x[0] == "o" and isinstance(y, tuple) and y[0] in ("s", "agg", "seq", "catv") and x not in s.ints and x not in s.variant and ("len", x) not in s.names:
                        d = s.choice.get(("eqd", x, y))
                        if d is None:
                            d = s.choice[("eqd", x, y)] = s.rnd.random() < .5
                            if d:
                                s.alias[x] = y
                                s.memo = {}
                                s.changed = True
                        s.touched.append(("eq", a, b))
                        return 1 if d else 0
                key = ("eq",) + tuple(sorted((a, b), key=repr))
                o = s.op(key)
                s.ints.setdefault(o, s.rnd.randint(0, 1))
                s.touched.append(o)
                return 1 if s.ints[o] else 0
            if not r and a[0] == "o" and b[0] == "o" and a not in s.ints and b not in s.ints:
                key = ("eqd", a, b) if repr(a) < repr(b) else ("eqd", b, a)
                d = s.choice.get(key)
                if d is None:
                    d = s.choice[key] = s.rnd.random() < .5
                    if d:
                        s.alias[a] = b
                        s.memo = {}
                        s.changed = True
                        return 1
            if not r:
                s.touched.append(("eq", a, b))
            return 1 if r else 0
        if k == "not":
            return 0 if s.truth(s.ev(t[1])) else 1
        if k == "and":
            for x in t[1:]:
                if not s.truth(s.ev(x)):
                    return 0
            return 1
        if k == "or":
            for x in t[1:]:
                if s.truth(s.ev(x)):
                    return 1
            return 0
        if k == "is":
            return 1 if s.is_variant(s.ev(t[1]), t[2]) else 0
        if k == "fld":
            return s.fld(s.ev(t[1]), t[2])
        if k == "as":
            v = s.ev(t[1])
            if v[0] == "agg":
                if v[2] != t[2]:
                    raise Reject()
                return v
            if v[0] == "o":
                return s.op(("as", v, t[2]))
            raise Reject()
        if k == "agg":
            if t[1] == "[]":
                return ("seq", tuple(s.ev(x) for _, x in t[3]))
            vs = tuple((n, s.ev(x)) for n, x in t[3])
            if t[1] == "range" and len(vs) == 2 and all(v[0] == "o" for _, v in vs if isinstance(v, tuple)):
                # the bounds of a range put together again are that range
                whole = {q[1] for n, x in t[3] if x[0] == "fld" and x[2] == n for q in [x]}
                if len(whole) == 1 and all(x[0] == "fld" and x[2] == n for n, x in t[3]):
                    w = s.ev(next(iter(whole)))
                    if isinstance(w, tuple) and w[0] == "o":
                        return w
            return ("agg", t[1], t[2], vs)
        if k == "upd":
            v = s.ev(t[1])
            vals = [(f, s.ev(x)) for f, x in t[2]]
            if v[0] == "agg":
                d = dict(v[3])
                for f, x in vals:
                    if f.startswith("@"):
                        vn, fn = f[1:].split(".", 1)
                        if vn == v[2]:
                            d[fn] = x
                    else:
                        d[f] = x
                return ("agg", v[1], v[2], tuple((n, d[n]) for n in [n for n, _ in v[3]]) + tuple((n, d[n]) for n in d if n not in dict(v[3])))
            return ("upd", v, tuple(sorted(vals, key=repr)))
        if k == "len":
            return s.seq_len(s.ev(t[1]))
        if k == "idx":
            return s.index(s.ev(t[1]), s.int_of(s.ev(t[2])))
        if k == "max0":
            return max(0, s.int_of(s.ev(t[1])))
        if k in ("min", "max"):
            return (min if k == "min" else max)(s.int_of(s.ev(t[1])), s.int_of(s.ev(t[2])))
        if k == "case":
            for cs, x in t[1]:
                if all(s.cond(c) for c in cs):
                    return s.ev(x)
            raise Reject()
        if k == "sum":
            lo, hi = s.int_of(s.ev(t[1])), s.int_of(s.ev(t[2]))
            if hi - lo > 12:
                raise Reject()
            r = 0
            for i in range(lo, hi):
                r += s.int_of(s.ev(subst(t[3], {("bv", t[4]): K(i)})))
            return r
        if k == "vnew":
            return ("seq", ())
        if k == "vpush":
            v, x = s.ev(t[1]), s.ev(t[2])
            if isinstance(v, tuple) and v[0] == "o" and s.seq_len(v) > 60:      # too long to be written out
                r = s.op(("vpush", v, x))
                s.ints[s.op(("len", r))] = s.seq_len(v) + 1
                return r
            return ("seq", s.seq(v) + (x,))
        if k == "vtrunc":
            return ("seq", s.seq(s.ev(t[1]))[:max(0, s.int_of(s.ev(t[2])))])
        if k == "vpop":
            return ("seq", s.seq(s.ev(t[1]))[:-1])
        if k == "vcat" and len(t) == 3:
            return ("seq", s.seq(s.ev(t[1])) + s.seq(s.ev(t[2])))
        if k == "slice":
            v = s.ev(t[1])
            lo, hi = s.int_of(s.ev(t[2])), s.int_of(s.ev(t[3]))
            if v[0] == "o":
                if lo == 0 and s.op(("len", v)) in s.ints and s.ints[s.op(("len", v))] == hi:
                    return v
                r = s.op(("slice", v, lo, hi))
                if r[0] == "o":
                    s.ints[s.op(("len", r))] = hi - lo
                if hi < lo:
                    raise Reject()
                return r
            q = s.seq(v)
            if not 0 <= lo <= hi <= len(q):
                raise Reject()
            return ("seq", q[lo:hi])
        if k == "vmap":
            lo, hi = s.int_of(s.ev(t[1])), s.int_of(s.ev(t[2]))
            if hi - lo > 12 or hi < lo:
                raise Reject()
            return ("seq", tuple(s.ev(subst(t[3], {("bv", t[4]): K(i)})) for i in range(lo, hi)))
        if k == "iset":
            q = list(s.seq(s.ev(t[1])))
            i = s.int_of(s.ev(t[2]))
            if not 0 <= i < len(q):
                raise Reject()
            q[i] = s.ev(t[3])
            return ("seq", tuple(q))
        if k == "*":
            v = s.ev(t[1])
            if v[0] == "rv":
                return v[1]
            return s.op(("*", v))
        if k == "rv":
            v = s.ev(t[1])
            return ("rv", v)
        if k == "ref" and t[1][0] == "P" and all(isinstance(x, str) and x[0] in ".@" for x in t[2]):
            # a reference into something known: told from others by what is there
            v = s.ev(("*", t[1][1]))
            for x in t[2]:
                if x[0] == "@":
                    v = s.op(("as", v, x[1:])) if v[0] == "o" else v
                else:
                    v = s.fld(v, x[1:])
            return ("rv", v)
        if k == "op":
            a, b = s.ev(t[2]), s.ev(t[3]) if len(t) > 3 else None
            if b is not None and t[1].startswith("f"):
                r = s.real(t[1], a, b)
                if r is not None:
                    return r
            if t[1] == "cast:IntToFloat":
                return ("r", Fraction(s.int_of(a)))
            if t[1] == "Neg" and isinstance(a, tuple) and a[0] == "r":
                return ("r", -a[1])
            if b is not None and not t[1].startswith("f"):
                x, y = s.int_of(a), s.int_of(b)
                o = t[1]
                if o == "Mul":
                    return x * y
                if o in ("Div", "Rem"):
                    if y == 0:
                        raise Reject()
                    return x // y if o == "Div" else x % y
                if o == "BitAnd" and x >= 0 and y >= 0:
                    return x & y
                if o == "BitOr" and x >= 0 and y >= 0:
                    return x | y
                if o == "BitXor" and x >= 0 and y >= 0:
                    return x ^ y
                if o == "Shl" and 0 <= y < 64:
                    return x << y
                if o == "Shr" and 0 <= y < 64:
                    return x >> y
            return s.op(("op", t[1], a, b))
        if k == "cat":
            return s.cat(t)
        if k == "clo":
            return ("clo", t[1], tuple(s.ev(x) for x in t[2]))
        if k in ("u", "lv", "arg", "bv", "unk", "sym", "const", "tls", "fnitem"):
            return s.op(t)
        if k == "call" and t[1] in ("std::path::Path::join", "std::path::PathBuf::join") and len(t[2]) == 2:
            b = s.unref(s.part(t[2][1]))
            if isinstance(b, tuple) and b[0] == "o" and s.truth(s.op(("true", s.op(("call", "std::path::Path::is_absolute", (b,)))))):
                return b
        if k == "call" and t[1] in EXTREMES and len(t) == 3:
            v, n = s.unref(s.part(t[2][0])), 0
            while isinstance(v, tuple) and v[0] == "agg" and v[1] in ("it.map", "it.rev", "it.cloned", "it.copied", "it.enum") and n < 9:
                v, n = s.unref(s.fld(v, "inner")), n + 1
            if isinstance(v, tuple) and v[0] == "agg" and v[1] in ("it.slice", "it.own") and s.int_of(s.fld(v, "pos")) >= s.int_of(s.fld(v, "end")):
                return ("agg", "Option", "None", ())
        if k == "hins" and t[3][0] == "agg" and not t[3][3]:
            # a set that has the element stays the same
            m = s.part(t[1])
            va = s.variant.get(s.name(("hget", m, s.part(t[2]))))
            if va and va[0] == "Some":
                return m
        if k == "call" and len(t) == 3:
            # handing over a value or a reference to it is the same to the one called
            return s.op((k, s.part(t[1]), tuple(s.unref(s.part(x)) for x in t[2])))
        # anything else: uninterpreted
        return s.op((k,) + tuple(s.part(x) for x in t[1:]))

    def cat(s, t):
        out = []
        for x in t[1]:
            v = s.part(x)
            if isinstance(v, tuple) and v and v[0] == "catv":
                items = v[1]
            else:
                items = (v,)
            for y in items:
                if y[0] == "s" and out and out[-1][0] == "s":
                    out[-1] = ("s", out[-1][1] + y[1])
                elif y != ("s", ""):
                    out.append(y)
        if len(out) == 1 and out[0][0] == "s":
            return out[0]
        return ("catv", tuple(out))

    def part(s, x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and x[0] in HEADS2:
                return s.ev(x)
            return tuple(s.part(y) for y in x)
        if isinstance(x, frozenset):
            return frozenset(s.part(y) for y in x)
        return x

    # equality of values: True / False / None (cannot tell)
    def same(s, a, b, d=0):
        if a == b:
            return True
        if d > 12:
            return None
        if isinstance(a, int) or isinstance(b, int):
            if isinstance(a, int) and isinstance(b, int):
                return False
            o = b if isinstance(a, int) else a
            n = a if isinstance(a, int) else b
            if o[0] == "r":
                return o[1] == n
            if o[0] == "o":
                if n in (0, 1) and ("true", o) in s.names:
                    return s.truth(s.op(("true", o))) == bool(n)
                return s.int_of(o) == n
            return None
        ka, kb = a[0], b[0]
        if ka == "r" or kb == "r":
            if {ka, kb} <= {"r", "o"}:
                return s.real_of(a) == s.real_of(b)
            return None
        if ka == "o" and kb == "o":
            # numbers?
            if a in s.ints and b in s.ints:
                if s.ints[a] != s.ints[b]:
                    return False
                return None
            if ("true", a) in s.names and ("true", b) in s.names:
                return s.truth(s.op(("true", a))) == s.truth(s.op(("true", b)))
            return False
        if ka == "o" or kb == "o":
            o, v = (a, b) if ka == "o" else (b, a)
            if v[0] == "agg":
                if not v[2] and not v[3] and v[1].startswith("serde_json::"):
                    return False if s.guess else None       # one of many values
                if v[2] and v[2] != v[1].rsplit("::", 1)[-1]:
                    va = s.variant.get(o)
                    if va is None or va[0] is None:
                        if va and v[2] in va[1]:
                            return False
                        if s.guess and len(s.twins.get(v[2]) or (0, 0)) > 1:
                            s.set_variant(o, v[2], False)
                            return False
                        return None
                    if va[0] != v[2]:
                        return False
                    inner = s.op(("as", o, v[2]))
                else:
                    inner = o
                res = True
                for n, x in v[3]:
                    r = s.same(s.fld(inner, n), x, d + 1)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
            if v[0] == "seq":
                if s.seq_len(o) != len(v[1]):
                    return False
                return s.all_same([(s.index(o, i), x) for i, x in enumerate(v[1])], d)
            if v[0] == "rv":
                return s.same(s.op(("*", o)), v[1], d + 1)
            if v[0] == "upd":
                res = True
                r = s.same(o, v[1], d + 1)
                if r is not True:
                    return None
                for f, x in v[2]:
                    if f.startswith("@"):
                        vn, fn = f[1:].split(".", 1)
                        y = s.fld(s.op(("as", o, vn)), fn)
                    else:
                        y = s.fld(o, f)
                    r = s.same(y, x, d + 1)
                    if r is False:
                        return False
                    if r is None:
                        res = None
                return res
            if v == ("s", "") and s.ints.get(s.names.get(("len", o))) == 0:
                return True
            if v[0] in ("s", "catv") and s.guess and o not in s.ints:
                return False
            return None
        if ka != kb:
            if {ka, kb} == {"catv", "s"}:
                # the literal pieces occur in the text, in order
                q, i = a[1] if ka == "s" else b[1], 0
                pieces = a[1] if ka == "catv" else b[1]
                for x in pieces:
                    if x[0] == "s":
                        i = q.find(x[1], i)
                        if i < 0:
                            return False
                        i += len(x[1])
                return None
            if {ka, kb} == {"seq", "s"} or "upd" in (ka, kb) or "kc" in (ka, kb):
                return None
            if "rv" in (ka, kb):
                p, q = (a[1], b) if ka == "rv" else (a, b[1])
                return s.same(p, q, d + 1) if (q if ka == "rv" else p)[0] in ("s", "catv", "seq", "agg") else None
            return None
        if ka == "agg":
            if a[1] != b[1] or a[2] != b[2]:
                return False if a[1] == b[1] else None
            db = dict(b[3])
            if set(db) != {n for n, _ in a[3]}:
                return None
            return s.all_same([(x, db[n]) for n, x in a[3]], d)
        if ka == "seq":
            if len(a[1]) != len(b[1]):
                return False
            return s.all_same(list(zip(a[1], b[1])), d)
        if ka == "rv":
            return s.same(a[1], b[1], d + 1)
        if ka == "s" or ka == "kc":
            return False
        if ka == "upd":
            r = s.same(a[1], b[1], d + 1)
            if r is not True:
                return None
            fs = {f for f, _ in a[2]} | {f for f, _ in b[2]}
            da, db = dict(a[2]), dict(b[2])
            pairs = []
            for f in fs:
                def get(dd, base):
                    if f in dd:
                        return dd[f]
                    if f.startswith("@"):
                        vn, fn = f[1:].split(".", 1)
                        return s.fld(s.op(("as", base, vn)), fn) if base[0] == "o" else s.fld(base, fn)
                    return s.fld(base, f)
                pairs.append((get(da, a[1]), get(db, b[1])))
            return s.all_same(pairs, d)
        if ka == "catv":
            la, lb = a[1], b[1]
            if len(la) != len(lb):
                lits = lambda l: "".join(x[1] for x in l if x[0] == "s")
                oa, ob = [x for x in la if x[0] != "s"], [x for x in lb if x[0] != "s"]
                if oa == ob:
                    return False if lits(la) != lits(lb) else None
                # a piece more or less
                short, long_ = (oa, ob) if len(oa) < len(ob) else (ob, oa)
                it = list(long_)
                for x in short:
                    if x not in it:
                        return None
                    it.remove(x)
                return False if len(short) < len(long_) else None
            for x, y in zip(la, lb):
                r = s.same(x, y, d + 1)
                if r is not True:
                    return False if r is False and x[0] == y[0] else r
            return True
        if ka == "clo":
            if base(a[1]) != base(b[1]) or len(a[2]) != len(b[2]):
                return None
            return s.all_same(list(zip(a[2], b[2])), d)
        return None

    def all_same(s, pairs, d):
        res = True
        for x, y in pairs:
            r = s.same(x, y, d + 1)
            if r is False:
                return False
            if r is None:
                res = None
        return res

    # ---- make a condition hold by changing one assigned part
    def repair(s, c, want):
        t = list(s.touched)
        s.rnd.shuffle(t)
        while c[0] == "not":
            c, want = c[1], not want
        if c[0] in ("lt0", "eq0"):
            p = lin_parts(c[1])
            ats = [(a, k) for a, k in p[1].items()]
            s.rnd.shuffle(ats)
            cur = s.int_of(s.ev(c[1]))
            for a, k in ats:
                v = s.ev(a)
                if isinstance(v, int) and a[0] == "call" and a[1] in CHARFN and s.rechar(a):
                    return True
                if isinstance(v, int):
                    # a length, or something computed
                    if a[0] == "len":
                        b = s.ev(a[1])
                        if b[0] != "o":
                            continue
                        v = s.op(("len", b))
                    else:
                        continue
                if v not in s.ints:
                    continue
                rest = cur - k * s.ints[v]
                if c[0] == "eq0":
                    if want:
                        if rest % k:
                            continue
                        nv = -rest // k
                    else:
                        nv = s.ints[v] + s.rnd.randint(1, 3)
                else:
                    j = s.rnd.choice((0, 0, 1, 2))
                    if want:      # rest + k*nv < 0
                        nv = (-rest - 1 - j) // k if k > 0 else -((-rest - 1 - j) // -k) if False else None
                        if k > 0:
                            nv = (-rest - 1) // k - j
                        else:
                            nv = (rest // -k) + 1 + j
                    else:         # rest + k*nv >= 0
                        if k > 0:
                            nv = -(rest // k) + j
                        else:
                            nv = rest // -k - j
                if nv < 0:
                    continue
                s.ints[v] = nv
                return True
            # fall through to touched parts
        if c[0] == "is":
            v = s.ev(c[1])
            if v[0] == "o":
                s.set_variant(v, c[2], want)
                return True
        if c[0] == "eq":
            a, b = s.ev(c[1]), s.ev(c[2])
            for x, y in ((a, b), (b, a)):
                if x[:1] == ("s",) and y[:1] == ("s",) if isinstance(x, tuple) and isinstance(y, tuple) else False:
                    # a value taken to be one constant
                    os = [o for o, v in s.alias.items() if v == x]
                    if os and (want or x == y):
                        o = s.rnd.choice(os)
                        s.choice[("eqd", o, x)] = False
                        del s.alias[o]
                        if want:
                            s.alias[o] = y
                            s.choice[("eqd", o, y)] = True
                        return True
            if want:
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, tuple) and x[0] == "o" and x not in s.ints:
                        s.alias[x] = y
                        return True
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, tuple) and x[0] == "o":
                        if isinstance(y, int):
                            s.ints[x] = y
                        elif y in s.ints:
                            s.ints[x] = s.ints[y]
                            s.alias[x] = y
                        else:
                            s.alias[x] = y
                        return True
            elif isinstance(a, tuple) and a[0] == "o" and a in s.ints:
                s.ints[a] += s.rnd.randint(1, 3)
                return True
            elif isinstance(b, tuple) and b[0] == "o" and b in s.ints:
                s.ints[b] += s.rnd.randint(1, 3)
                return True
        if c[0] == "call" and c[1] in CHARFN and s.rechar(c, want):
            return True
        if s.must and contains(c, lambda x: x[0] == "call" and base(x[1]) in s.must):
            return s.reword()
        v = s.ev(c) if c[0] not in ("lt0", "eq0", "eq", "is") else None
        if isinstance(v, tuple) and v[0] == "o":
            s.ints[v] = 1 if want else 0
            return True
        for x in t:
            if x in s.ints:
                s.ints[x] = s.rnd.randint(0, 8)
                return True
            if isinstance(x, tuple) and x[0] == "is":
                s.set_variant(x[1], x[2], s.rnd.random() < .5)
                return True
        return False

    def rechar(s, c, want=None):
        """another character for a predicate"""
        v = s.charof(s.ev(c[2][0]))
        if not (isinstance(v, tuple) and v[0] == "o"):
            return False
        pool = [x for x in CHARPOOL if want is None or (CHARFN[c[1]](x) != 0) == want]
        if not pool:
            return False
        s.ints[v] = s.rnd.choice(pool)
        return True

    def satisfy(s, conds, limit=60):
        for _ in range(limit):
            s.memo = {}
            s.touched = []
            bad = None
            for c, w in conds:
                s.touched = []
                try:
                    v = s.cond(c)
                except Reject:
                    if not s.shake():
                        return False
                    bad = True
                    break
                if v != w:
                    try:
                        if not s.repair(c, w):
                            return False
                    except Reject:
                        if not s.shake():
                            return False
                    bad = True
                    break
            if bad is None:
                return True
        return False

    def reword(s):
        """another text in place of one chosen before"""
        os = [o for o, v in s.alias.items() if v[0] == "s"]
        if not os:
            return False
        o = s.rnd.choice(os)
        del s.alias[o]
        s.word(o)
        return True

    def shake(s):
        if s.touched:
            x = s.rnd.choice(s.touched)
            if x in s.ints:
                s.ints[x] = s.rnd.randint(0, 6)
                return True
            if isinstance(x, tuple) and x and x[0] == "is":
                s.set_variant(x[1], x[2], s.rnd.random() < .5)
                return True
        if s.ints:
            k = s.rnd.choice(list(s.ints))
            s.ints[k] = s.rnd.randint(0, 6)
            return True
        return False


HEADS2 = HEADS | {"and", "or", "cmp3", "display", "validrange", "hnew", "catrep", "skip", "char", "entry0", "P", "true", "lt0", "u", "lv", "post", "discr"}


# ---------------------------------------------------------------- comparison
# unmodelled library functions whose meaning is known to differ from each other, so that swapping
# one for another is a difference and not an unknown
FAMILIES = [x.split() for x in """
starts_with ends_with contains
trim trim_start trim_end trim_matches trim_start_matches trim_end_matches
find rfind
split rsplit splitn rsplitn split_terminator split_inclusive lines split_whitespace
split_once rsplit_once
to_lowercase to_uppercase to_ascii_lowercase to_ascii_uppercase
chars bytes encode_utf16 char_indices
strip_prefix strip_suffix
max min
max_by min_by
max_by_key min_by_key
take_while skip_while
parent file_name file_stem extension
is_file is_dir exists
create_dir create_dir_all
remove_file remove_dir remove_dir_all
sin cos tan
ceil floor round trunc
as_secs as_millis as_micros as_nanos
is_create is_modify is_remove is_access
replace replacen
modified created accessed
as_str as_u64 as_i64 as_bool as_f64 as_object as_array
""".strip().splitlines()]
FAMILY = {n: i for i, g in enumerate(FAMILIES) for n in g}
LIBRARY = re.compile(r"^(str|char|u8|f64|\[T\]|std::|core::|alloc::|notify|notify_types::|serde_json::|crossterm::)")


EXTREMES = {"core::iter::traits::iterator::Iterator::" + x for x in ("max", "min", "last", "reduce", "max_by", "min_by", "max_by_key", "min_by_key")}


TEXTFN = {
    "starts_with": lambda a, p: a.startswith(p), "ends_with": lambda a, p: a.endswith(p), "contains": lambda a, p: p in a,
    "trim": lambda a, p: a.strip(), "trim_start": lambda a, p: a.lstrip(), "trim_end": lambda a, p: a.rstrip(),
    "eq_ignore_ascii_case": lambda a, p: a.lower() == p.lower(), "to_lowercase": lambda a, p: a.lower(), "to_uppercase": lambda a, p: a.upper(),
    "to_ascii_lowercase": lambda a, p: a.lower(), "to_ascii_uppercase": lambda a, p: a.upper(),
    "strip_prefix": lambda a, p: (a[len(p):],) if a.startswith(p) else None, "strip_suffix": lambda a, p: (a[:len(a) - len(p)],) if a.endswith(p) else None,
    "trim_start_matches": lambda a, p: a if not p else re.sub(r"^(?:%s)+" % re.escape(p), "", a), "trim_end_matches": lambda a, p: a if not p else re.sub(r"(?:%s)+$" % re.escape(p), "", a)}
ONE = ("trim", "trim_start", "trim_end", "to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase")


def textual(spec, impl, names):
    """those of the functions that are predicates on text known to us, asked about constants"""
    ok, words = set(), set()
    for n in names:
        m = n.rsplit("::", 1)[-1]
        if not re.match(r"^(str|alloc::str)::", n) or m not in TEXTFN:
            continue
        good = True
        for f in (spec, impl):
            for t in all_of(f, lambda x: x[0] == "call" and len(x) == 3 and base(x[1]) == n):
                if m in ONE:
                    good = good and len(t[2]) == 1
                elif len(t[2]) == 2 and (t[2][1][0] == "str" or t[2][1][0] == "k" and isinstance(t[2][1][1], int) and 0 < t[2][1][1] < 0x110000):
                    words.add(t[2][1][1] if t[2][1][0] == "str" else chr(t[2][1][1]))
                elif len(t[2]) == 2 and t[2][1][0] in ("arg", "fld", "*", "rv", "slice", "lv", "idx"):
                    words |= {"xyz", "ab", "XY"}
                else:
                    good = False
        if good:
            ok.add(n)
    if ok:
        for f in (spec, impl):
            words |= {t[1] for t in all_of(f, lambda x: x[0] == "str") if len(t[1]) < 12}
        words = {w for w in words if len(w) < 12}
        ws = sorted(words)
        out = {"", "x", " ", "a b", "xy", "Ab"} | words
        for w in ws[:12]:
            out |= {w + "x", "x" + w, w + w, w[:-1], w[1:], " " + w, w + " ", w.upper(), "x" + w + "y"}
        words = out
    return frozenset(ok), tuple(sorted(words))


def family(name):
    return FAMILY.get(name.rsplit("::", 1)[-1]) if LIBRARY.match(name) else None


# functions of one character whose values are computed (on ASCII and on a few characters beyond it)
def _tab(*names):
    return {n: i for i, n in enumerate(names)}


BEYOND = {      # control, whitespace, alphabetic, numeric, lowercase, uppercase
    0x85: (1, 1, 0, 0, 0, 0), 0xA0: (0, 1, 0, 0, 0, 0), 0xE9: (0, 0, 1, 0, 1, 0), 0xC9: (0, 0, 1, 0, 0, 1), 0x4E2D: (0, 0, 1, 0, 0, 0),
    0xB2: (0, 0, 0, 1, 0, 0), 0x663: (0, 0, 0, 1, 0, 0), 0x2014: (0, 0, 0, 0, 0, 0), 0x2028: (0, 1, 0, 0, 0, 0), 0x1F600: (0, 0, 0, 0, 0, 0),
    0x200B: (0, 0, 0, 0, 0, 0), 0x3000: (0, 1, 0, 0, 0, 0), 0x9F: (1, 0, 0, 0, 0, 0), 0x416: (0, 0, 1, 0, 0, 1), 0x10400: (0, 0, 1, 0, 0, 1)}
CHARPOOL = [0, 1, 8, 9, 10, 11, 12, 13, 27, 31, 32, 33, 34, 35, 36, 38, 39, 42, 45, 47, 48, 57, 58, 60, 62, 64, 65, 70, 71, 90, 91, 92, 93, 94, 95, 96, 97, 102, 103,
            122, 123, 126, 127] + list(BEYOND)


def _cls(i):
    def f(c):
        if c < 128:
            ch = chr(c)
            return int((c < 32 or c == 127, c in (9, 10, 11, 12, 13, 32), ch.isalpha(), ch.isdigit(), ch.islower(), ch.isupper())[i])
        return BEYOND[c][i] if c in BEYOND else None
    return f


_A = lambda f: (lambda c: int(c < 128 and bool(f(chr(c)))))
ASCII_CLASS = {
    "is_ascii": lambda c: int(c < 128), "is_ascii_digit": _A(lambda x: x.isdigit()), "is_ascii_alphabetic": _A(lambda x: x.isalpha()),
    "is_ascii_alphanumeric": _A(lambda x: x.isalnum()), "is_ascii_control": _A(lambda x: ord(x) < 32 or ord(x) == 127),
    "is_ascii_whitespace": _A(lambda x: ord(x) in (9, 10, 12, 13, 32)), "is_ascii_lowercase": _A(lambda x: x.islower()),
    "is_ascii_uppercase": _A(lambda x: x.isupper()), "is_ascii_hexdigit": _A(lambda x: x in "0123456789abcdefABCDEF"),
    "is_ascii_punctuation": _A(lambda x: 33 <= ord(x) < 127 and not x.isalnum()), "is_ascii_graphic": _A(lambda x: 33 <= ord(x) < 127)}
REALFN = {"f64::max": max, "f64::min": min, "f64::abs": abs}
CHARFN = {"u8::" + n: f for n, f in ASCII_CLASS.items()}
CHARFN.update({"char::" + n: f for n, f in ASCII_CLASS.items()})
CHARFN.update({
    "char::is_control": _cls(0), "char::is_whitespace": _cls(1), "char::is_alphabetic": _cls(2), "char::is_numeric": _cls(3), "char::is_lowercase": _cls(4),
    "char::is_uppercase": _cls(5), "char::is_alphanumeric": lambda c: None if _cls(2)(c) is None else _cls(2)(c) | _cls(3)(c),
    "char::len_utf8": lambda c: 1 if c < 0x80 else 2 if c < 0x800 else 3 if c < 0x10000 else 4, "char::len_utf16": lambda c: 1 if c < 0x10000 else 2})


def calls(t, out, keep=None):
    """the functions named in a term; terms under a call of `keep` are passed over"""
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, frozenset):
            st.extend(x)
        elif isinstance(x, dict):
            for a, b in x.items():
                st.append(a)
                st.append(b)
        elif isinstance(x, tuple) and x:
            if id(x) in seen:
                continue
            seen.add(id(x))
            if x[0] == "len" and len(x) == 2 and isinstance(x[1], tuple) and x[1] and x[1][0] == "call" and x[1][1] == "str::chars":
                st.extend(x[1][2])      # the number of characters of a text
                continue
            if x[0] == "call" and len(x) == 3 and isinstance(x[1], str):
                if keep and base(x[1]) in keep:
                    continue
                if x[1] not in CHARFN and x[1] not in REALFN:
                    out.add(x[1])
            elif x[0] == "unk" and len(x) > 1:
                out.add("unk:" + str(x[1]))
            elif x[0] in ("clo", "fnitem") and x[1].endswith("!"):
                out.add(x[1])
            st.extend(y for y in x if isinstance(y, (tuple, frozenset)))
    return out


def vocab(f, keep=None):
    out = set()
    for l in f.leaves:
        for c, _ in l.conds:
            calls(c, out, keep)
        if l.ret is not None:
            calls(l.ret, out, keep)
        calls(l.mem, out, keep)
        calls(l.ev, out, keep)
        calls(l.vals, out, keep)
        calls(l.loops, out, keep)
    return out


def base(name):
    return re.sub(r"::\{closure#\d+\}", "::{closure}", name)


def contradictory(a, b):
    """syntactically exclusive guards"""
    d = dict(b.conds)
    for c, t in a.conds:
        if c in d and d[c] != t:
            return True
        if c[0] == "is" and t:
            for c2, t2 in b.conds:
                if t2 and c2[0] == "is" and c2[1] == c[1] and c2[2] != c[2]:
                    return True
    return False


class Verdict:
    def __init__(s):
        s.diffs, s.unknown, s.same, s.cut = [], [], 0, False
        s.tried = False     # some outcomes are written differently: told apart on sampled values only


def describe(l):
    g = " and ".join(("" if t else "not ") + specio.w(c) for c, t in l.conds) or "always"
    return g if len(g) < 700 else g[:700] + "…"


def outcome_text(l):
    if l.kind == "panic":
        return "panics"
    if l.kind == "back":
        return "repeats %s with %s" % (l.loop, ", ".join(specio.w(v) for v in l.vals))
    x = "returns " + specio.w(l.ret)
    for p, v in l.mem.items():
        x += "; *%s = %s" % (specio.w(p), specio.w(v))
    for e in l.ev:
        x += "; calls " + specio.w(e)
    return x if len(x) < 900 else x[:900] + "…"


def compare(spec, impl, twins, effects=None, facets=("ret", "mem", "ev"), tries=24, seed=1, budget=60):
    """-> Verdict.  `effects`: callee names whose calls are part of the specified behaviour"""
    v = Verdict()
    sk = {}
    for l in spec.leaves:
        sk.setdefault(l.key(), []).append(l)
    su, iu = [], []
    matched = set()
    for l in impl.leaves:
        if l.key() in sk:
            v.same += 1
            matched.add(l.key())
        else:
            iu.append(l)
    su = [l for l in spec.leaves if l.key() not in matched]
    if not iu and not su:
        return v
    v.tried = True
    vs, vi = {base(x) for x in vocab(spec)}, {base(x) for x in vocab(impl)}
    new, lost = vi - vs, vs - vi
    # one library function put in the place of a related one: known to differ
    fams = {family(x) for x in new} & {family(x) for x in lost} - {None}
    keep = {x for x in new | lost if family(x) in fams}
    own = lambda x: x.rsplit("::", 1)[0]
    if base(impl.key) in new and impl.key == spec.key:      # calls itself where it called another method of its type
        keep |= {x for x in new | lost if x == base(impl.key) or x in lost and own(x) == own(base(impl.key))} if any(own(x) == own(base(impl.key)) for x in lost) else set()
    if keep:
        vs, vi = {base(x) for x in vocab(spec, keep)}, {base(x) for x in vocab(impl, keep)}
        new, lost = vi - vs, vs - vi
    must, words = textual(spec, impl, new | lost)
    new, lost = new - must, lost - must
    atoms = {c for l in spec.leaves for c, _ in l.conds}
    maxloops = lambda f: (max([len(l.loops) for l in f.leaves] or [0]))
    nskel = lambda f: sorted({tuple(len(x) for x in l.loops if x) for l in f.leaves})
    skel_changed = nskel(spec) != nskel(impl) or other_use(spec, impl)

    def has(l, names):
        if not names:
            return False
        out = set()
        calls(tuple(c for c, _ in l.conds), out, keep)
        return any(base(x) in names for x in out)

    spec2, impl2 = [tag(l, "S") for l in spec.leaves], [tag(l, "I") for l in impl.leaves]
    set_gates(spec2, "S")
    set_gates(impl2, "I")
    mono_s, mono_i = monotone(spec2), monotone(impl2)
    pos_s, pos_i = {id(l): n for n, l in enumerate(spec.leaves)}, {id(l): n for n, l in enumerate(impl.leaves)}
    inl = lost & {base(x) for x in spec.opaque}     # functions taken as given that the code now spells out
    pool = sorted({abs(n) for l in su + iu for n in numbers(l)})
    rnd = random.Random(seed)
    reported = set()
    hopeless = set()
    gather, other_means = folds(impl), reshaped(spec, impl, lost)

    def attempt(conds):
        val = Val(random.Random(rnd.random()), twins)
        val.keep, val.pool, val.must, val.words, val.reshaped, val.folds = keep, pool, must, words, other_means, gather
        if not val.satisfy(list(conds) + [(c, True) for c in spec.holds]):
            return
        for _ in range(6):
            val.changed = False
            val.memo = {}
            try:
                na, nb = locate(val, spec2, "S"), locate(val, impl2, "I")
            except Reject:
                return
            if not val.changed:
                break
        if na is None or nb is None or val.changed or not sorted_searches(val):
            return
        try:
            if not all(val.cond(c) for c in spec.holds):
                return
        except Reject:
            return
        a, b = spec2[na], impl2[nb]
        try:
            if not all(val.cond(c) == t for c, t in mono_s[na] + mono_i[nb]):
                return
        except Reject:
            return
        if (na, nb) in reported or (na, nb) in hopeless:
            return
        if spec.leaves[na].key() == impl.leaves[nb].key():
            return
        if skel_changed and any(x for l in (a, b) for x in l.loops):
            unrolled(val, na, nb)
            return
        if has(b, new) or (has(a, lost) and any(c not in atoms for c, _ in impl.leaves[nb].conds)):
            hopeless.add((na, nb))
            v.unknown.append((spec.leaves[na], impl.leaves[nb], "guards use functions the specification does not mention"))
            return
        try:
            if not entered(val, a, b):
                return
            val.guess = True
            r = differ(val, a, b, new, inl, effects, facets, twins)
            if r and not (reachable(val, spec2, a) and reachable(val, impl2, b)):
                return
            if r:       # once more on settled choices
                val.unify()
                val.memo = {}
                r = locate(val, spec2, "S") == na and locate(val, impl2, "I") == nb and differ(val, a, b, new, inl, effects, facets, twins)
        except Reject:
            return
        if not r and val.blind and not v.unknown:
            v.unknown.append((spec.leaves[na], impl.leaves[nb], "uses functions the specification does not mention"))
        if r:
            reported.add((na, nb))
            v.diffs.append((spec.leaves[na], impl.leaves[nb], r))

    def unrolled(val, na, nb):
        """loops that no longer correspond: the recurrences of both sides are unrolled a few passes"""
        try:
            val.guess = True
            val.memo = {}
            ra, rb = unroll(val, spec.leaves), unroll(val, impl.leaves)
            if ra is None or rb is None:
                raise Reject()
            used = set()
            for l in ra[0] + rb[0]:
                if has(l, new) or has(l, lost):
                    v.unknown.append((spec.leaves[na], impl.leaves[nb], "guards use functions the specification does not mention"))
                    return
            r = differ_unrolled(val, ra, rb, new, inl, effects, facets)
            if r:
                val.unify()
                val.memo = {}
                ra, rb = unroll(val, spec.leaves), unroll(val, impl.leaves)
                r = ra and rb and differ_unrolled(val, ra, rb, new, inl, effects, facets)
        except Reject:
            r = None
        if r:
            v.diffs.append((ra[0][-1], rb[0][-1], r))
        elif not v.unknown:
            v.unknown.append((spec.leaves[na], impl.leaves[nb], "loops were restructured"))

    def passes(a, b):
        """what one pass of a loop in closed form does besides counting"""
        both = list(a.conds) + [x for x in b.conds if x not in a.conds]
        val = Val(random.Random(rnd.random()), twins)
        val.keep, val.pool, val.must, val.words, val.reshaped, val.folds = keep, pool, must, words, other_means, gather
        try:
            if not val.satisfy(both):
                return
            val.guess = True
            val.memo = {}
            if not all(val.cond(c) == t for c, t in both):
                return
            r = differ(val, a, b, new, inl, effects, ("ev",), twins)
        except Reject:
            return
        if r:
            v.diffs.append((a, b, r))

    if effects is not None:
        # something done on the specified ways that the code no longer does anywhere, with nothing in its place
        acts = lambda f: {e[1] for l in f.leaves for e in l.ev if effects(e[1])}
        aa, ab = acts(spec), acts(impl)
        if not new and not ab - aa:
            for e in sorted(aa - ab):
                if base(e) in lost and (base(e) not in inl or len(impl.leaves) < len(spec.leaves)):
                    a = next(l for l in spec.leaves if any(x[1] == e for x in l.ev))
                    v.diffs.append((a, a, "no longer calls %s" % e))
                    return v
        cp = lambda ls: [l for l in ls if l.kind == "back" and l.loop[0] == "C"]
        ca, cb = cp(su), cp(iu)
        eff = lambda ls: [l for l in ls if any(effects(e[1]) for e in l.ev)]
        if eff(ca) or eff(cb):
            for a in cp(spec.leaves):
                for b in cp(impl.leaves):
                    if (a in ca or b in cb) and a.loop == b.loop and len(a.loops) == len(b.loops) and not contradictory(a, b) and not has(b, new) and not has(a, lost):
                        for k in range(tries):
                            passes(a, b)
                            if v.diffs:
                                return v
    cpass = lambda l: l.kind == "back" and l.loop[0] == "C"
    su, iu = [l for l in su if not cpass(l)], [l for l in iu if not cpass(l)]
    # each case that differs, from either side, then the places where two of them meet
    end = time.time() + budget
    todo = [cs + [c for c in m if c not in cs] for l, m in [(spec2[pos_s[id(x)]], mono_s[pos_s[id(x)]]) for x in su] + [(impl2[pos_i[id(x)]], mono_i[pos_i[id(x)]]) for x in iu]
            for cs in guarded(l)]
    for r in range(tries):
        for cs in todo:
            attempt(cs)
            if v.diffs:
                return v
            if time.time() > end:
                v.cut = True
                return v
    for x in su:
        ta = spec2[pos_s[id(x)]]
        for y in iu:
            if contradictory(x, y):
                continue
            tb = impl2[pos_i[id(y)]]
            ga, gb = guarded(ta), guarded(tb)
            for k in range(tries // 2):
                ca, cb = rnd.choice(ga), rnd.choice(gb)
                both = ca + [c for c in cb if c not in ca]
                attempt(both)
                if v.diffs:
                    return v
                if time.time() > end:
                    v.cut = True
                    return v
    return v
    return v


def numbers(l):
    """the larger numbers an outcome speaks of"""
    out = set()
    for t in leaf_terms(l):
        contains(t, lambda x: (x[0] == "k" and isinstance(x[1], int) and 12 < abs(x[1]) < 1 << 40 and out.add(x[1]))
                 or x[0] == "lin" and isinstance(x[1], int) and 12 < abs(x[1]) < 1 << 40 and out.add(x[1]))
    return out


def leaf_terms(l):
    yield from (c for c, _ in l.conds)
    if l.ret is not None:
        yield l.ret
    for p, x in l.mem.items():
        yield p
        yield x
    yield from l.ev
    yield from l.vals
    for y in l.loops:
        yield from y


def all_of(f, pred):
    """the distinct terms in a function's outcomes for which `pred` holds"""
    out = []
    seen = set()
    for l in f.leaves:
        for t in leaf_terms(l):
            contains(t, lambda x: pred(x) and x not in seen and (seen.add(x) or out.append(x) or False))
    return out


def replaced(f, m):
    """the function with terms put in place of others"""
    if not m:
        return f
    g = Fn(f.key)
    g.opaque, g.partial, g.argc, g.file, g.line, g.pub, g.takes = f.opaque, f.partial, f.argc, f.file, f.line, f.pub, f.takes
    memo = {}
    S = lambda x: subst(x, m, memo)
    for l in f.leaves:
        r = Leaf(l.kind)
        r.loop, r.line, r.ways = l.loop, l.line, l.ways
        r.conds = tuple((S(c), t) for c, t in l.conds)
        r.ret = S(l.ret) if l.ret is not None else None
        r.mem = {S(p): S(x) for p, x in l.mem.items()}
        r.ev = tuple(S(e) for e in l.ev)
        r.vals = tuple(S(x) for x in l.vals)
        r.loops = tuple(tuple(S(x) for x in y) for y in l.loops)
        g.leaves.append(r)
    return g


def plain(f):
    """a function whose meaning is one outcome reached whatever it is given: its calls can be spelled out"""
    if len(f.leaves) != 1 or f.partial:
        return False
    l = f.leaves[0]
    if any(x == ("call", f.key) for t in leaf_terms(l) for x in [t[:2]]):
        return False
    return l.kind == "ret" and not l.conds and not any(l.loops) and not l.loops and len(l.ev) <= 2 and not any(contains(t, lambda x: x[0] in ("bv", "lv", "u", "entry0", "unk")) for t in leaf_terms(l)) \
        and all(p[0] == "arg" for p in l.mem)


def spelled(f, given):
    """the function with the calls of the plain functions `given` (name -> Fn) replaced by what they do"""
    for _ in range(8):
        inner = all_of(f, lambda x: x[0] == "call" and len(x) == 3 and x[1] in given and not any(contains(a, lambda y: y[0] == "call" and len(y) == 3 and y[1] in given) for a in x[2]))
        if not inner:
            break
        m, acts = {}, {}
        for c in inner:
            l = given[c[1]].leaves[0]
            am = {("arg", i): a for i, a in enumerate(c[2])}
            m[c] = subst(l.ret, am)
            for i, a in enumerate(c[2]):
                w = l.mem.get(("arg", i))
                m["post", str(i), c] = subst(w if w is not None else ("*", ("arg", i)), am)
            acts[c] = tuple(subst(e, am) for e in l.ev)
        g = replaced(f, m)
        for l, o in zip(g.leaves, f.leaves):
            ev = []
            for e in o.ev:
                ev += acts[e] if e in acts else [subst(e, m)]
            l.ev = tuple(ev)
        g.holds = f.holds
        f = g
    return f


# library functions that return part of what they are given, or a changed copy of it: with one of them put in between, the outcome is not the specified one for every input
LOSSY = re.compile(r"^(str|\[T\]|(alloc|core|std)::[\w:<> ]+)::(trim\w*|to_(ascii_)?(lower|upper)case|replace|replacen|dedup\w*|take|take_while|skip|skip_while|step_by|filter|rev|truncate|retain|"
                   r"sort\w*|reverse|repeat|min|max|clamp|saturating_\w+|wrapping_\w+|abs|floor|ceil|round|trunc|escape_\w+|dedup)$")


def stripped(f, names):
    """the function as if those calls handed on what they are given"""
    for _ in range(6):
        inner = all_of(f, lambda x: x[0] == "call" and len(x) == 3 and x[1] in names and x[2] and not any(contains(a, lambda y: y[0] == "call" and len(y) == 3 and y[1] in names) for a in x[2]))
        if not inner:
            break
        m = {}
        for c in inner:
            a = c[2][0]
            m[c] = a
            m["post", "0", c] = a[1] if a[0] == "rv" else ("*", a)
        g = replaced(f, m)
        g.holds = f.holds
        f = g
    for l in f.leaves:
        l.ev = tuple(e for e in l.ev if e[0] == "call")
    return f


def inserted(spec, impl):
    """the library functions that make the only difference -> their names"""
    names = {n for n in vocab(impl) - vocab(spec) if LOSSY.match(n)}
    if not names:
        return None
    g = stripped(impl, names)
    a, b = {l.key() for l in spec.leaves if l.kind != "panic"}, {l.key() for l in g.leaves if l.kind != "panic"}
    return sorted(names) if a == b else None


def tag(l, side):
    """the leaf with the pass counts of its closed-form loops named apart from the other side's"""
    m = {("u", n): ("u", side + n) for n in leaf_loops(l) if n[0] == "C"}
    if not m:
        return l
    r = Leaf(l.kind)
    r.loop, r.line, r.ways = l.loop, l.line, l.ways
    r.conds = tuple((subst(c, m), t) for c, t in l.conds)
    r.ret = subst(l.ret, m) if l.ret is not None else None
    r.mem = {subst(p, m): subst(x, m) for p, x in l.mem.items()}
    r.ev = tuple(subst(e, m) for e in l.ev)
    r.vals = tuple(subst(x, m) for x in l.vals)
    r.loops = tuple(tuple(subst(x, m) for x in y) for y in l.loops)
    return r


def set_gates(leaves, side):
    """a pass of a loop happens only where the loop is reached: its guards up to there, read off the other cases that go through it"""
    for l in leaves:
        l.gates = None
        if l.kind != "back" or l.loop[0] == "C":
            continue
        k = leaf_loops(l).index(l.loop)
        g = []
        for o in leaves:
            if o.kind == "back" and o.loop == l.loop or o.loops[:k + 1] != l.loops[:k + 1] or not all(ways_meet(l, o, i) for i in range(k + 1)):
                continue
            bad = set(leaf_loops(o)[k:])
            bad |= {side + x for x in bad}
            cs = tuple((c, t) for c, t in o.conds if bad.isdisjoint(mentions(c)))
            if cs not in g:
                g.append(cs)
        # a pass that looks inside a variant is not reached on the way of another one
        used = set()
        for t in leaf_terms(l):
            contains(t, lambda x: x[0] == "as" and used.add((x[1], x[2])))
        if used:
            def fits(cs):
                for c, t in cs:
                    if c[0] == "is":
                        for b, n in used:
                            if b == c[1] and (n == c[2]) != t and (n == c[2] or t):
                                return False
                return True
            g = [cs for cs in g if fits(cs)] or g
        if g and () not in g:
            l.gates = g


def monotone(leaves):
    """what the loop variables of each case keep to: one that only shrinks stays at or below its first value, one that only grows at or above"""
    groups = {}
    for l in leaves:
        if l.kind == "back" and l.loop[0] != "C":
            k = leaf_loops(l).index(l.loop)
            groups.setdefault((l.loop, l.loops[:k + 1]), []).append(l)
    facts = {}
    for (nm, loops), ls in groups.items():
        for j, e in enumerate(loops[-1]):
            x = ("lv", nm, "v%d" % j)
            steps = []
            for l in ls:
                d = ZERO if l.vals[j] == x else sub(l.vals[j], x) if l.vals[j][0] == "lin" else None
                if d is None or d[0] != "k":
                    break
                steps.append(d[1])
            else:
                if any(steps) and contains(e, lambda y: y == x) is False:
                    if all(s <= 0 for s in steps):
                        facts.setdefault((nm, loops), []).append((lt(e, x), False))
                    elif all(s >= 0 for s in steps):
                        facts.setdefault((nm, loops), []).append((lt(x, e), False))
    out = []
    for l in leaves:
        cs = []
        for i, nm in enumerate(leaf_loops(l)):
            cs += [(c, t) for c, t in facts.get((nm, l.loops[:i + 1]), ()) if c[0] != "k"]
        out.append(cs)
    return out


def guarded(l, limit=4):
    """condition lists that lead to the case"""
    if not l.gates:
        return [list(l.conds)]
    return [list(g) + [c for c in l.conds if c not in g] for g in l.gates[:limit]]


def locate(val, leaves, side):
    """the case the assignment falls in: pass counts of closed-form loops are the least that let a case apply"""
    def holds(l):
        return ((l.kind != "back" or l.loop[0] != "C") and all(val.cond(c) == t for c, t in l.conds)
                and (not l.gates or any(all(val.cond(c) == t for c, t in g) for g in l.gates)))

    for n, l in enumerate(leaves):
        if not any(not e for e in l.loops) and holds(l):
            return n
    depth = max([sum(1 for e in l.loops if not e) for l in leaves] or [0])
    if not depth:
        return None
    names = [val.op(("u", "%sC%d" % (side, i))) for i in range(depth)]
    cand = [(n, l, sum(1 for e in l.loops if not e)) for n, l in enumerate(leaves) if any(not e for e in l.loops)]
    # shortest first, least first
    import itertools
    lim = 9 if depth == 1 else 6 if depth == 2 else 4
    if depth > 3:
        raise Reject()
    best = None
    for d in range(1, depth + 1):
        for tup in itertools.product(range(lim), repeat=d):
            if best is not None and tup[:len(best[0])] >= best[0][:len(tup)]:
                break
            for x, k in zip(names, tup):
                val.ints[x] = k
            val.memo = {}
            for n, l, dd in cand:
                if dd == d and holds(l):
                    best = (tup, n)
                    break
            if best is not None and best[0] == tup:
                break
    if best is None:
        return None
    for x, k in zip(names, best[0]):
        val.ints[x] = k
    val.memo = {}
    return best[1]


def entered(val, a, b):
    """before the first pass of a loop its variables have the values it is entered with"""
    start = {}
    for l in (b, a):
        for nm, e in zip(leaf_loops(l), l.loops):
            if e and nm[0] == "L" and val.int_of(val.op(("u", nm))) == 0:
                for j, x in enumerate(e):
                    key = ("lv", nm, "v%d" % j)
                    y = val.ev(x)
                    if key in start and val.same(start[key], y) is not True:
                        return True     # they differ in that
                    start[key] = y
    for key, y in start.items():
        val.env[key] = y
    val.memo = {}
    return not start or all(val.cond(c) == t for l in (a, b) for c, t in l.conds)


def reachable(val, leaves, l):
    """no loop on the way to this case was left in an earlier pass than the one it is in"""
    names = leaf_loops(l)
    for i, nm in enumerate(names):
        if nm[0] != "L":
            continue
        n = val.int_of(val.op(("u", nm)))
        if not isinstance(n, int):
            continue
        if n > 400:
            return False
        later = set(names[i:])
        for o in leaves:
            on = leaf_loops(o)
            if on[:i + 1] != names[:i + 1] or o.loops[:i + 1] != l.loops[:i + 1] or o.kind == "back" and (o.loop[0] == "C" or on.index(o.loop) >= i):
                continue
            inner = set(on[i + 1:])
            if any(loop_state(c, nm) or inner and open_terms(c, inner) for c, _ in o.conds):
                continue
            if not any(nm in mentions(c) for c, _ in o.conds):
                continue
            for m in range(n):
                val.env[("u", nm)] = m
                val.memo = {}
                try:
                    hit = all(val.cond(c) == t for c, t in o.conds)
                except Reject:
                    hit = False
                finally:
                    del val.env[("u", nm)]
                    val.memo = {}
                if hit:
                    return False
    return True


def loop_state(c, nm):
    return contains(c, lambda x: x[0] == "lv" and x[1] == nm)


_mention = {}


def mentions(c):
    """the loops a condition speaks of"""
    r = _mention.get(c)
    if r is None:
        r = set()
        st, seen = [c], set()
        while st:
            x = st.pop()
            if isinstance(x, frozenset):
                st.extend(x)
            elif isinstance(x, tuple) and x:
                if id(x) in seen:
                    continue
                seen.add(id(x))
                if x[0] in ("u", "lv") and len(x) > 1 and isinstance(x[1], str):
                    r.add(x[1])
                st.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        r = _mention[c] = frozenset(r)
    return r


def open_terms(c, names):
    """mentions loops not entered yet"""
    return not names.isdisjoint(mentions(c))


def unroll(val, leaves, limit=14):
    """follows the cases from the entry values of the loops -> (leaves passed, events, final leaf) with everything evaluated"""
    env0 = val.env
    val.env = {}
    entered, ways = [], []      # loops under way, and the entry values seen as those they were entered with
    roads = []                  # and the ways by which they can have been reached
    trail, events = [], []
    try:
        for _ in range(limit):
            val.memo = {}
            n = len(entered)
            cand = []
            done = None
            for l in leaves:
                if l.kind == "back" and l.loop[0] == "C":
                    continue
                names = leaf_loops(l)
                if names[:n] != entered or any(l.loops[i] not in ways[i] for i in range(n)):
                    continue
                if any(way(l, i) is not None and roads[i] is not None and way(l, i).isdisjoint(roads[i]) for i in range(n)):
                    continue
                ahead = set(names[n:])
                ok = True
                for c, t in l.conds:
                    if ahead and open_terms(c, ahead):
                        continue
                    if val.cond(c) != t:
                        ok = False
                        break
                if not ok:
                    continue
                if not ahead:
                    done = l
                    break
                cand.append((l, names[n]))
            if done is not None:
                l = done
                trail.append(l)
                events += [val.ev(e) for e in l.ev] if l.kind != "back" else [val.ev(e) for e in l.ev]
                if l.kind == "panic":
                    return trail, events, ("panic",)
                if l.kind == "ret":
                    return trail, events, ("ret", val.ev(l.ret), {val.ev(p): (val.ev(x), p, x) for p, x in l.mem.items()}, dict(val.env))
                vals = [val.ev(x) for x in l.vals]
                k = leaf_loops(l).index(l.loop)
                for x in leaf_loops(l)[k + 1:]:
                    for key in [q for q in val.env if q[1] == x]:
                        del val.env[key]
                entered, ways, roads = entered[:k + 1], ways[:k + 1], roads[:k + 1]
                for j, x in enumerate(vals):
                    val.env[("lv", l.loop, "v%d" % j)] = x
                val.env[("u", l.loop)] = val.env[("u", l.loop)] + 1
                continue
            if not cand:
                return None
            # the cases that leave the loop say which one it is and how it is entered; those that repeat it do not
            lead = [x for x in cand if x[0].kind != "back"] or cand
            nm = lead[0][1]
            if any(x[1] != nm for x in lead):
                return None
            cand = [x for x in cand if x[1] == nm]
            rd = [way(l, n) for l, _ in lead]
            roads = roads + [None if None in rd else frozenset().union(*rd)]
            if nm[0] == "L":
                entry = None
                starts = {}
                for l, _ in cand:
                    try:
                        starts.setdefault(l.loops[n], tuple(val.ev(x) for x in l.loops[n]))
                    except Reject:
                        pass        # not a value these inputs have: a case they do not reach
                for l, _ in lead:
                    e = starts.get(l.loops[n])
                    if entry is None:
                        entry = e
                    elif e is not None and entry != e:
                        return None
                if entry is None:
                    return None
                ways = ways + [{x for x, e in starts.items() if e == entry}]
                for j, x in enumerate(entry):
                    val.env[("lv", nm, "v%d" % j)] = x
                val.env[("u", nm)] = 0
                entered = entered + [nm]
            else:
                hit = False
                for k in range(9):
                    val.env[("u", nm)] = k
                    val.memo = {}
                    for l, _ in cand:
                        ahead = set(leaf_loops(l)[n + 1:])
                        if all(ahead and open_terms(c, ahead) or val.cond(c) == t for c, t in l.conds):
                            hit = True
                            break
                    if hit:
                        break
                if not hit:
                    return None
                ways = ways + [{l.loops[n] for l, _ in cand}]
                entered = entered + [nm]
        return None
    finally:
        val.env = env0
        val.memo = {}


def differ_unrolled(val, ra, rb, new, inl, effects, facets):
    fa, fb = ra[2], rb[2]
    a, b = ra[0][-1], rb[0][-1]
    if fa[0] == "panic" and fb[0] != "panic":
        return None
    if fa[0] != fb[0]:
        return "specified: %s; computed: %s (after %d and %d passes)" % (outcome_text(a), outcome_text(b), len(ra[0]) - 1, len(rb[0]) - 1)
    if fa[0] == "panic":
        return None

    def blind(x, y):
        return new and any(base(c) in new for c in calls(y, set(), val.keep)) or inl and any(base(c) in inl for c in calls(x, set(), val.keep))

    if any(blind(x, y) for l in ra[0] for x in list(l.vals) for y in [("k", 0)]) or any(blind(("k", 0), y) for l in rb[0] for y in list(l.vals) + list(l.ev)):
        return None
    if "ret" in facets and not blind(a.ret, b.ret) and val.same(fa[1], fb[1]) is False:
        return "returns %s instead of %s (after %d and %d passes of its loops)" % (specio.w(b.ret), specio.w(a.ret), len(rb[0]) - 1, len(ra[0]) - 1)
    if "mem" in facets:
        for p in set(fa[2]) | set(fb[2]):
            pt = (fa[2].get(p) or fb[2].get(p))[1]
            x = fa[2][p][0] if p in fa[2] else val.op(("*", p))
            y = fb[2][p][0] if p in fb[2] else val.op(("*", p))
            tx = fa[2][p][2] if p in fa[2] else ("*", pt)
            ty = fb[2][p][2] if p in fb[2] else ("*", pt)
            if not blind(tx, ty) and val.same(x, y) is False:
                return "leaves *%s = %s instead of %s (after %d and %d passes of its loops)" % (specio.w(pt), specio.w(ty), specio.w(tx), len(rb[0]) - 1, len(ra[0]) - 1)
    if "ev" in facets and effects is not None and not new and not inl:
        na = [e for l in ra[0] for e in l.ev if effects(e[1])]
        nb = [e for l in rb[0] for e in l.ev if effects(e[1])]
        if [e[1] for e in na] != [e[1] for e in nb] and sorted({e[1] for e in na}) != sorted({e[1] for e in nb}):
            return "calls %s instead of %s" % ([e[1] for e in nb], [e[1] for e in na])
    return None


def byte_count(x, y):
    """one side counts the bytes of a text character by character, the other takes its length: not told apart here"""
    wide = lambda t: t[0] == "call" and t[1] == "char::len_utf8"
    if contains(x, wide) or not contains(y, wide):
        return False
    texts = set()
    contains(y, lambda t: t[0] == "call" and t[1] == "str::chars" and texts.add(t[2][0]))
    return contains(x, lambda t: t[0] == "len" and t[1] in texts)


MOVES = re.compile(r"^oak_core::(source::cursor::SourceCursor|lexer::LexerState)::(take_while\w*|skip_\w+)$")


def span_of_move(x):
    """looks at the span that a move reports: its ends are where the cursor was and is, which can be asked of the cursor as well"""
    return contains(x, lambda t: t[0] == "fld" and t[2] in ("start", "end") and t[1][0] == "call" and len(t[1]) == 3 and MOVES.match(t[1][1]) is not None)


NUMBER = {"k", "lin", "len", "sum", "min", "max", "max0", "trunc"}
SEQUENCE = {"vnew", "vpush", "vtrunc", "vpop", "vmap", "iset", "slice"}


def uses(f):
    """how the variables of the loops are used: counted with, measured and indexed, or handed to a function to change"""
    out = {}
    var = lambda t: isinstance(t, tuple) and len(t) == 3 and t[0] == "lv"
    note = lambda t, k: out.setdefault(t, set()).add(k)

    def visit(t):
        if t[0] == "len" and var(t[1]):
            note(t[1], "seq")
        elif t[0] == "idx" and len(t) > 2:
            if var(t[1]):
                note(t[1], "seq")
            if var(t[2]):
                note(t[2], "num")
        elif t[0] == "lin":
            for x in t[2:]:
                for y in (x if isinstance(x, (tuple, frozenset)) else ()):
                    if var(y):
                        note(y, "num")
                    elif isinstance(y, tuple) and y and var(y[0]):
                        note(y[0], "num")
        elif t[0] == "call" and len(t) == 3 and not LIBRARY.match(t[1]) and t[2] and t[2][0][0] == "rv" and var(t[2][0][1]):
            note(t[2][0][1], "self")
        return False
    for l in f.leaves:
        for t in leaf_terms(l):
            contains(t, visit)
    return out


def other_use(spec, impl):
    a, b = uses(spec), uses(impl)
    return any(x in b and not a[x] & b[x] for x in a)


def folds(f):
    """variables that only collect the smallest or the largest of what a loop comes by: another value of the same kind to start from may do as well"""
    out, bad = set(), set()
    for l in f.leaves:
        if l.kind == "back":
            for j, x in enumerate(l.vals):
                v = ("lv", l.loop, "v%d" % j)
                if x[0] in ("min", "max") and contains(x, lambda t: t == v):
                    out.add((l.loop, j))
                elif x != v:
                    bad.add((l.loop, j))
    return out - bad


# library functions that change a sequence in place and can stand for one another
MUTATORS = {"alloc::vec::Vec::" + x for x in "drain splice truncate extend retain clear append split_off resize insert remove".split()}


def reshaped(spec, impl, lost):
    """the code changes its sequences by other means than specified, and not just by leaving some of them out"""
    gone = {x for x in lost if x in MUTATORS}
    if not gone:
        return False

    def strip(t):
        if isinstance(t, frozenset):
            return frozenset(strip(z) for z in t)
        if not isinstance(t, tuple):
            return t
        if len(t) == 3 and t[0] == "post" and isinstance(t[2], tuple) and t[2][0] == "call" and base(t[2][1]) in gone and t[2][2]:
            z = t[2][2][0]
            return strip(z[1] if z[0] == "rv" else ("*", z))
        return tuple(strip(z) for z in t)
    ways = lambda f: {strip(t) for t in all_of(f, lambda x: x[0] == "call" and len(x) == 3 and base(x[1]) in MUTATORS - gone)}
    return bool(ways(impl) - ways(spec))


def apart(x, y):
    """values of different sorts: the same thing is kept in another form, which is not followed here"""
    def sort(t):
        if t[0] == "post" and t[1] == "0" and t[2][0] == "call" and t[2][1].startswith("[T]::"):
            return "s"
        return "n" if t[0] in NUMBER else "s" if t[0] in SEQUENCE else "r" if t[0] == "rv" else "a" if t[0] == "agg" else None
    a, b = sort(x), sort(y)
    if a and b and a != b and {a, b} & {"n"}:
        return True
    if x[0] == "vpush" and y[0] == "vpush" and not (x[1][0] == "agg" or y[1][0] == "agg"):
        a, b = sort(x[2]), sort(y[2])
        num = lambda t, s: s == "n" or t[0] in ("u",)
        return num(x[2], a) and b in ("r", "a") or num(y[2], b) and a in ("r", "a")
    return False


def sorted_searches(val):
    """positions found by binary search in one sequence are in the order of the values looked for"""
    seen = {}
    for key, nm in list(val.names.items()):
        if isinstance(key, tuple) and len(key) == 3 and key[0] == "call" and key[1] == "[T]::binary_search":
            va = val.variant.get(nm)
            if va is None or va[0] not in ("Ok", "Err"):
                continue
            p = val.ints.get(val.names.get(("fld", val.names.get(("as", nm, va[0])), "0")))
            x = key[2][1]
            if p is None or not isinstance(x, int) and x not in val.ints:
                continue
            x = x if isinstance(x, int) else val.ints[x]
            a = key[2][0]
            for b in (a, val.names.get(("*", a))):
                n = val.ints.get(val.names.get(("len", b)))
                if n is not None and p > n - (va[0] == "Ok"):
                    return False
            seen.setdefault(a, []).append((x, p, va[0] == "Ok"))
    for l in seen.values():
        for x, p, hit in l:
            for y, q, hit2 in l:
                if x == y and (p, hit) != (q, hit2) or x < y and q < p + hit:
                    return False
    return True


def differ(val, a, b, new, inl, effects, facets, twins):
    """a definite difference between two outcomes under one assignment -> text"""
    fa, fb = [x for x in a.loops if x], [x for x in b.loops if x]
    b_names = [n for n, x in zip(leaf_loops(b), b.loops) if x]
    if any(apart(p, q) for x, y in zip(fa, fb) for p, q in zip(x, y)):
        return None         # the loops carry something else
    if a.kind == "panic" and b.kind != "panic":
        return None         # nobody relies on it
    if a.kind != b.kind:
        return "specified: %s; computed: %s" % (outcome_text(a), outcome_text(b))
    if a.kind == "panic":
        return None
    if a.kind == "back" and a.loop != b.loop:
        return None

    def ne(x, y):
        """definitely different"""
        if val.reshaped and any(base(c) in MUTATORS for c in calls(x, set()) | calls(y, set())):
            val.blind = True
            return False
        if new and (any(base(c) in new for c in calls(y, set(), val.keep))):
            val.blind = True
            return False
        if inl and any(base(c) in inl for c in calls(x, set(), val.keep)):
            val.blind = True
            return False
        if byte_count(x, y) or byte_count(y, x):
            return False
        if span_of_move(x) != span_of_move(y):
            val.blind = True
            return False
        ex, ey = val.ev(x), val.ev(y)
        return val.same(ex, ey) is False

    def nearg(x, y):
        """arguments: a value or a reference to it"""
        while x[0] == "rv":
            x = x[1]
        while y[0] == "rv":
            y = y[1]
        return ne(x, y)

    if len(fa) == len(fb):
        for i, (x, y) in enumerate(zip(fa, fb)):
            for j, (p, q) in enumerate(zip(x, y)):
                if ne(p, q) and not (q[0] != "k" and (b_names[i], j) in val.folds):
                    return "loop %d starts with %s instead of %s" % (i, specio.w(q), specio.w(p))
    if a.kind == "back":
        if any(apart(x, y) for x, y in zip(a.vals, b.vals)):
            return None
        for j, (x, y) in enumerate(zip(a.vals, b.vals)):
            if ne(x, y):
                return "a pass of %s leaves %s instead of %s" % (a.loop, specio.w(y), specio.w(x))
    if "ret" in facets and a.kind == "ret" and ne(a.ret, b.ret):
        return "returns %s instead of %s" % (specio.w(b.ret), specio.w(a.ret))
    if "mem" in facets and a.kind == "ret":
        ma = {val.ev(p): (p, x) for p, x in a.mem.items()}
        mb = {val.ev(p): (p, x) for p, x in b.mem.items()}
        for p in set(ma) | set(mb):
            pt = (ma.get(p) or mb.get(p))[0]
            x = ma[p][1] if p in ma else ("*", pt)
            y = mb[p][1] if p in mb else ("*", pt)
            if ne(x, y):
                return "leaves *%s = %s instead of %s" % (specio.w(pt), specio.w(y), specio.w(x))
    if "ev" in facets and effects is not None:
        ea = [e for e in a.ev if effects(e[1])]
        eb = [e for e in b.ev if effects(e[1])]
        na, nb = [e[1] for e in ea], [e[1] for e in eb]
        if na != nb:
            if not any(base(x) in new for x in nb):
                return "calls %s instead of %s" % ([specio.w(e) for e in eb], [specio.w(e) for e in ea])
        else:
            for x, y in zip(ea, eb):
                if len(x[2]) == len(y[2]):
                    for p, q in zip(x[2], y[2]):
                        if nearg(p, q):
                            return "calls %s instead of %s" % (specio.w(y), specio.w(x))
    return None


def twins_of(E):
    """variant name -> the complete list of variants, when every type agrees"""
    import sym
    m = {}
    for vs in list(sym.VARIANTS.values()):
        for n in vs:
            m[n] = list(vs)
    for a in E.adts.values():
        if a["kind"].lower() == "enum":
            ns = [x["n"] for x in a["vs"]]
            for n in ns:
                if n in m and m[n] != ns:
                    m[n] = None
                elif n not in m:
                    m[n] = ns
    return {k: v for k, v in m.items() if v}
