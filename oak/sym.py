"""Function summaries by abstract interpretation of MIR in a value-numbering domain.

For a function this computes, per control-flow path, the value it returns, what it leaves in
memory reachable from its arguments, and the calls it makes, all as canonical terms (terms.py)
over the values at entry.  Loops are widened: whatever a pass changes becomes a fresh
loop value; running sums and counters get their closed form.  Nothing is executed and no
solver is involved; branch conditions are only compared syntactically after
normalisation.  Anything not understood becomes an opaque term, and paths that exceed the
bounds make the summary `partial`, which the rules treat as undecided, never as a violation."""
from terms import *
import terms
from facts import loops as cfg_loops


class Limit(Exception):
    pass


VARIANTS = {
    "core::option::Option": {"None": 0, "Some": 1},
    "core::result::Result": {"Ok": 0, "Err": 1},
    "core::ops::control_flow::ControlFlow": {"Continue": 0, "Break": 1},
    "core::cmp::Ordering": {"Less": -1, "Equal": 0, "Greater": 1},
    "alloc::borrow::Cow": {"Borrowed": 0, "Owned": 1},
    "core::task::poll::Poll": {"Ready": 0, "Pending": 1},
}
OPT = "core::option::Option"
RES = "core::result::Result"
NONE = ("agg", OPT, "None", ())


def some(x):
    return ("agg", OPT, "Some", (("0", x),))


def ok(x):
    return ("agg", RES, "Ok", (("0", x),))


def err(x):
    return ("agg", RES, "Err", (("0", x),))


def tup(*xs):
    return ("agg", "()", "", tuple((str(i), x) for i, x in enumerate(xs)))


def rng(a, b):
    return ("agg", "range", "", (("start", a), ("end", b)))


BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64, "u128": 128, "i128": 128, "char": 32, "bool": 1}


class Path:
    __slots__ = ("conds", "mem", "events", "loops", "ret", "kind", "line", "notes", "cdict", "alias", "dead")

    def __init__(s):
        s.conds = ()
        s.cdict = {}
        s.mem = {}
        s.events = ()
        s.loops = ()
        s.ret = None
        s.kind = None
        s.line = 0
        s.notes = ()

    def copy(s):
        n = Path.__new__(Path)
        n.conds, n.events, n.loops, n.ret, n.kind, n.line, n.notes = s.conds, s.events, s.loops, s.ret, s.kind, s.line, s.notes
        n.mem = dict(s.mem)
        n.cdict = dict(s.cdict)
        return n


class Event:
    __slots__ = ("f", "args", "ret", "line", "fn", "nconds")

    def __init__(s, f, args, ret, line, fn, nconds=0):
        s.f, s.args, s.ret, s.line, s.fn, s.nconds = f, args, ret, line, fn, nconds

    def __repr__(s):
        return "%s(%s)" % (s.f.rsplit("::", 2)[-2] + "::" + s.f.rsplit("::", 1)[-1] if "::" in s.f else s.f, ", ".join(map(show, s.args)))


class Loop:
    """entry: {name: value before}, vars: {name: lv term}, backs: [(conds, {name: value after}, events)]"""
    __slots__ = ("id", "entry", "vars", "backs", "fn", "line", "closed", "counter", "pre")

    def __init__(s, id, fn, line):
        s.id, s.fn, s.line = id, fn, line
        s.entry, s.vars, s.backs, s.closed, s.counter = {}, {}, [], {}, None


class Summary:
    def __init__(s, fn):
        s.fn, s.paths, s.partial = fn, [], None


class Frame:
    __slots__ = ("fn", "fid", "loops", "depth", "active", "crate")

    def __init__(s, fn, fid, depth):
        s.fn, s.fid, s.depth = fn, fid, depth
        if "_loops" not in fn:
            l, _ = cfg_loops(fn)
            order = {h: i for i, h in enumerate(sorted(l))}
            fn["_loops"] = {h: order[h] for h in l}
        s.loops = fn["_loops"]
        s.active = []


def short(name):
    parts = name.split("::")
    return "::".join(parts[-2:])


class Engine:
    MAXPATHS = 600
    MAXSTEPS = 60000
    MAXDEPTH = 9

    def __init__(self, F, crates, opaque=(), inline=None, events=(), keep_asserts=False):
        self.F = F
        self.fns, self.adts, self.impls = {}, {}, {}
        for c in crates:
            cr = c if not isinstance(c, str) else F.crate(c)
            self.fns.update(cr.fns)
            self.adts.update(cr.adts)
        self.opaque = set(opaque)       # suffixes never inlined
        self.inline = inline
        self.nroot = 0
        self.statics = {}

    # ------------------------------------------------------------ entry
    def find(self, suffix, all=False):
        r = [k for k in self.fns if k == suffix or k.endswith("::" + suffix) or k.endswith(suffix) and suffix.startswith("<")]
        r = [k for k in r if "#" not in k.rsplit("::", 1)[-1]]
        if all:
            return r
        return r[0] if len(r) == 1 else None

    def summary(self, key, args=None, pre=()):
        fn = self.fns[key]
        s = Summary(fn)
        self.steps = 0
        self.npaths = 0
        self.stack = [key]
        st = Path()
        if args is None:
            args = [("arg", i) for i in range(fn["argc"])]
        try:
            for c, t in pre:
                st = self.assume(st, c, t)
                if st is None:
                    return s
            s.paths = [self.clean(p) for p in self.call_fn(st, fn, list(args), 0, top=True)]
        except Limit as e:
            s.partial = str(e)
        except RecursionError:
            s.partial = "recursion"
        return s

    def clean(self, p):
        return p

    # ------------------------------------------------------------ conditions
    def value_of(self, st, c):
        """truth of a condition term on this path: True, False or None"""
        if c[0] == "k":
            return bool(c[1])
        if c[0] == "not":
            v = self.value_of(st, c[1])
            return None if v is None else not v
        d = st.cdict
        if c in d:
            return d[c]
        if c[0] == "and":
            vs = [self.value_of(st, x) for x in c[1:]]
            return False if False in vs else True if None not in vs else None
        if c[0] == "or":
            vs = [self.value_of(st, x) for x in c[1:]]
            return True if True in vs else False if None not in vs else None
        if c[0] == "is":
            for a, t in d.items():
                if a[0] == "is" and a[1] == c[1] and t and a[2] != c[2]:
                    return False
            return None
        if c[0] == "eq":
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if y[0] in ("k", "str"):
                    for a, t in d.items():
                        if a[0] == "eq" and t and a != c:
                            for p, q in ((a[1], a[2]), (a[2], a[1])):
                                if p == x and q[0] in ("k", "str") and q != y:
                                    return False
            return None
        if c[0] in ("lt0", "eq0"):
            p = lin_parts(c[1])
            key = tuple(sorted((okey(a), k) for a, k in p[1].items()))
            lo, hi = None, None       # bounds on L (variable part)
            ne = []
            for a, t in d.items():
                if a[0] not in ("lt0", "eq0"):
                    continue
                q = lin_parts(a[1])
                kq = tuple(sorted((okey(x), k) for x, k in q[1].items()))
                s = 1
                if kq != key:
                    kn = tuple(sorted((okey(x), -k) for x, k in q[1].items()))
                    if kn != key:
                        continue
                    s = -1
                c0 = q[0]
                if a[0] == "eq0":
                    if t:
                        v = -c0 * s
                        lo = v if lo is None else max(lo, v)
                        hi = v if hi is None else min(hi, v)
                    else:
                        ne.append(-c0 * s)
                elif s == 1:
                    if t:        # L + c0 < 0
                        hi = -c0 - 1 if hi is None else min(hi, -c0 - 1)
                    else:
                        lo = -c0 if lo is None else max(lo, -c0)
                else:
                    if t:        # -L + c0 < 0 -> L > c0
                        lo = c0 + 1 if lo is None else max(lo, c0 + 1)
                    else:
                        hi = c0 if hi is None else min(hi, c0)
            if len(p[1]) == 1:
                (a, k), = p[1].items()
                if nonneg(a) or a[0] == "u":
                    if k > 0:
                        lo = 0 if lo is None else max(lo, 0)
                    else:
                        hi = 0 if hi is None else min(hi, 0)
            for _ in range(3):
                if lo is not None and lo in ne:
                    lo += 1
                if hi is not None and hi in ne:
                    hi -= 1
            if c[0] == "lt0":
                if hi is not None and hi + p[0] < 0:
                    return True
                if lo is not None and lo + p[0] >= 0:
                    return False
            else:
                v = -p[0]
                if lo is not None and hi is not None and lo == hi == v:
                    return True
                if (lo is not None and v < lo) or (hi is not None and v > hi) or v in ne:
                    return False
            return None
        return None

    def assume(self, st, c, truth):
        """-> new state or None when contradictory"""
        while c[0] == "not":
            c, truth = c[1], not truth
        c = as_cond(c)
        v = self.value_of(st, c)
        if v is not None:
            return st if v == truth else None
        if c[0] == "and" and truth or c[0] == "or" and not truth:
            for x in c[1:]:
                st = self.assume(st, x, truth)
                if st is None:
                    return None
            return st
        n = st.copy()
        n.cdict[c] = truth
        n.conds = st.conds + ((c, truth),)
        return n

    def branch(self, st, c):
        """-> [(state, bool)]"""
        if c[0] == "not":
            return [(s, not b) for s, b in self.branch(st, c[1])]
        v = self.value_of(st, c)
        if v is not None:
            return [(st, v)]
        if c[0] == "and":
            out = []
            rest = [(st, True)]
            for x in c[1:]:
                nxt = []
                for s, _ in rest:
                    for s2, b in self.branch(s, x):
                        (nxt if b else out).append((s2, b))
                rest = nxt
            return out + rest
        if c[0] == "or":
            out = []
            rest = [(st, False)]
            for x in c[1:]:
                nxt = []
                for s, _ in rest:
                    for s2, b in self.branch(s, x):
                        (out if b else nxt).append((s2, b))
                rest = nxt
            return out + rest
        out = []
        for b in (True, False):
            s = self.assume(st, c, b)
            if s is not None:
                out.append((s, b))
        return out

    def variants(self, adt):
        v = VARIANTS.get(adt)
        if v:
            return v
        a = self.adts.get(adt)
        if a and a["kind"].lower() == "enum":
            return {x["n"]: x["d"] for x in a["vs"]}
        return None

    def split_variant(self, st, v, adt):
        """-> [(state, variant name, value)]"""
        if v[0] == "agg":
            return [(st, v[2], v)]
        if v[0] == "case":
            out = []
            for cs, x in v[1]:
                s = st
                for c in cs:
                    s = self.assume(s, c, True)
                    if s is None:
                        break
                if s is not None:
                    out += self.split_variant(s, x, adt)
            return out
        vs = self.variants(adt)
        if v[0] == "cmp3":
            out = []
            for s, b in self.branch(st, lt(v[1], v[2])):
                if b:
                    out.append((s, "Less", v))
                else:
                    for s2, b2 in self.branch(s, eq(v[1], v[2])):
                        out.append((s2, "Equal" if b2 else "Greater", v))
            return out
        if vs is None:
            return [(st, None, v)]
        base = v
        out = []
        names = list(vs)
        if v[0] == "upd":
            base = v[1]
        if len(names) == 2:
            # one canonical atom for two-variant types
            for s, b in self.branch(st, ("is", base, names[1])):
                out.append((s, names[1] if b else names[0], v))
            return out
        for n in names:
            s = self.assume(st, ("is", base, n), True)
            if s is not None:
                if s is st:
                    return [(st, n, v)]
                out.append((s, n, v))
        return out

    # ------------------------------------------------------------ memory
    def root_value(self, st, root):
        v = st.mem.get(root)
        if v is None:
            if root[0] == "P":
                v = self.initial(root[1])
            else:
                v = ("unk", root)
        return v

    def initial(self, ptr):
        return ("*", ptr)

    def resolve(self, st, fr, place):
        """place -> (root, projs tuple) with derefs followed"""
        root = ("L", fr.fid, place[0])
        projs = ()
        for e in place[1:]:
            if e == "*":
                v = self.get(st, root, projs)
                if v[0] == "ref":
                    root, projs = v[1], v[2]
                elif v[0] == "box":
                    projs = projs + ("*",)
                elif v[0] == "rv":
                    root, projs = ("T", v[1]), ()
                    if root not in st.mem:
                        st.mem[root] = v[1]
                elif v[0] == "str":
                    root, projs = ("T", v), ()
                    st.mem[root] = v
                else:
                    root, projs = ("P", v), ()
            elif e[0] == "[":
                b = e[1:-1]
                if b.startswith("_"):
                    projs = projs + (("pidx", self.get(st, ("L", fr.fid, int(b[1:])), ())),)
                elif ".." in b:
                    projs = projs + (("psub", b),)
                elif b.startswith("-"):
                    v = self.get(st, root, projs)
                    projs = projs + (("pidx", sub(length(v), K(int(b[1:])))),)
                else:
                    projs = projs + (("pidx", K(int(b))),)
            else:
                projs = projs + (e,)
        return root, projs

    def get(self, st, root, projs):
        v = self.root_value(st, root)
        return self.proj(st, v, projs)

    def proj(self, st, v, projs):
        for i, e in enumerate(projs):
            if isinstance(e, tuple):
                if e[0] == "pidx":
                    v = idx(v, e[1])
                else:
                    a, b = e[1].split("..")
                    lo = K(int(a))
                    hi = sub(length(v), K(int(b[1:]))) if b.startswith("-") else K(int(b))
                    v = ("slice", v, lo, hi)
            elif e == "*":
                if v[0] == "box":
                    v = v[1]
                elif v[0] == "rv":
                    v = v[1]
                elif v[0] == "ref":
                    v = self.get(st, v[1], v[2])
                else:
                    v = self.root_value(st, ("P", v))
            elif e[0] == "@":
                v = as_variant(v, e[1:])
            elif e[0] == ".":
                if v[0] == "case":
                    v = mk_case([(c, fld(x, e[1:])) for c, x in v[1]])
                else:
                    v = fld(v, e[1:])
            else:
                pass
        return v

    def put(self, st, root, projs, x):
        if not projs:
            st.mem[root] = x
            return
        v = self.root_value(st, root)
        st.mem[root] = self.update(st, v, projs, x)

    def update(self, st, v, projs, x):
        if not projs:
            return x
        e = projs[0]
        if isinstance(e, tuple):
            if e[0] == "pidx":
                return set_idx(v, e[1], self.update(st, idx(v, e[1]), projs[1:], x))
            return ("unk", "subslice write")
        if e == "*":
            if v[0] == "box":
                return ("box", self.update(st, v[1], projs[1:], x))
            if v[0] == "ref":
                self.put(st, v[1], v[2] + tuple(projs[1:]), x)
                return v
            self.put(st, ("P", v), tuple(projs[1:]), x)
            return v
        if e[0] == "@":
            if v[0] == "agg":
                return self.update(st, v, projs[1:], x)
            if len(projs) >= 2 and isinstance(projs[1], str) and projs[1][0] == ".":
                name = e + projs[1]
                cur = fld(as_variant(v, e[1:]), projs[1][1:])
                new = self.update(st, cur, projs[2:], x)
                if new == cur:
                    return v
                if v[0] == "upd":
                    d = dict(v[2])
                    d[name] = new
                    return ("upd", v[1], tuple(sorted(d.items())))
                return ("upd", v, ((name, new),))
            return x
        if e[0] == ".":
            return set_fld(v, e[1:], self.update(st, fld(v, e[1:]), projs[1:], x))
        return x

    def read(self, st, fr, place):
        root, projs = self.resolve(st, fr, place)
        return self.get(st, root, projs)

    def write(self, st, fr, place, x):
        root, projs = self.resolve(st, fr, place)
        self.put(st, root, projs, x)

    # content behind a pointer value
    def deref(self, st, v):
        if v[0] == "ref":
            return self.get(st, v[1], v[2])
        if v[0] in ("rv", "box"):
            return v[1]
        if v[0] == "str":
            return v
        return self.root_value(st, ("P", v))

    def store(self, st, p, x):
        if p[0] == "ref":
            self.put(st, p[1], p[2], x)
        elif p[0] == "rv":
            pass
        else:
            st.mem[("P", p)] = x

    def point(self, p, *projs):
        """pointer to a part of what p points to"""
        if p[0] == "ref":
            return ("ref", p[1], p[2] + projs)
        if p[0] == "rv":
            return ("ref", ("T", p[1]), projs)
        return ("ref", ("P", p), projs)

    def canon_ptr(self, st, p):
        return p

    def content(self, st, v, d=0, seen=()):
        """value with pointers to local storage replaced by what they point to"""
        if d > 12:
            return v
        k = v[0]
        if k == "ref":
            if v[1][0] in ("L", "T", "H"):
                return ("rv", self.content(st, self.get(st, v[1], v[2]), d + 1))
            if v[1][0] == "P":
                x = self.get(st, v[1], v[2])
                if not v[2] and x == ("*", v[1][1]):
                    return v[1][1]
                return ("rv", self.content(st, x, d + 1))
            return v
        if k == "rv":
            x = self.content(st, v[1], d + 1)
            if x[0] == "*":
                return x[1]
            return ("rv", x)
        if k == "agg":
            return ("agg", v[1], v[2], tuple((n, self.content(st, x, d + 1)) for n, x in v[3]))
        if k == "clo":
            return ("clo", v[1], tuple(self.content(st, x, d + 1) for x in v[2]))
        if k == "vpush":
            return ("vpush", self.content(st, v[1], d + 1), self.content(st, v[2], d + 1))
        if k == "box":
            return ("box", self.content(st, v[1], d + 1))
        if k == "arg" or k == "fld" or k == "idx":
            # an opaque pointer whose pointee was written on this path
            if ("P", v) in st.mem and st.mem[("P", v)] != ("*", v):
                return ("rv", self.content(st, st.mem[("P", v)], d + 1))
        return v

    # ------------------------------------------------------------ operands, rvalues
    def operand(self, st, fr, o):
        if o[0] != "k":
            return self.read(st, fr, o[1])
        c = o[1]
        if "v" in c:
            return K(c["v"])
        if "s" in c:
            return ("str", c["s"])
        if "b" in c:
            return ("rv", ("agg", "[]", "", tuple((str(i), K(b)) for i, b in enumerate(c["b"]))))
        if "fn" in c:
            f = c["fn"]
            return ("fnitem", f.get("r") or f["f"], f["f"])
        if "prom" in c:
            return self.promoted(fr, c["prom"])
        if "static" in c:
            return ("const", "static", c["static"])
        if "bits" in c:
            return ("const", "float", c["bits"])
        ty = c.get("ty", "")
        if ty == "()":
            return UNIT
        if "item" in c:
            r = self.const_item(c["item"], fr)
            if r is not None:
                return r
            return ("const", c["item"], tuple(c.get("g", ())))
        if "param" in c:
            return ("const", "param", c["param"])
        return ("const", "?", ty)

    def const_item(self, key, fr):
        fn = self.fns.get(key)
        if fn is None or fn.get("kind") not in ("const", "Const", "AssocConst", "assoc_const", "static"):
            return None
        if "_cv" not in fn:
            fn["_cv"] = None
            try:
                ps = self.call_fn(Path(), fn, [], 3)
                if len(ps) == 1 and ps[0].kind == "ret":
                    fn["_cv"] = self.content(ps[0], ps[0].ret)
            except Limit:
                pass
        return fn["_cv"]

    def promoted(self, fr, n):
        proms = fr.fn.get("proms") or []
        if n >= len(proms):
            return ("const", "prom", fr.fn["key"], n)
        body = proms[n]
        if "_v" not in body:
            body["_v"] = ("const", "prom", fr.fn["key"], n)
            fake = {"key": fr.fn["key"] + "::{prom%d}" % n, "bbs": body["bbs"], "locals": body["locals"], "proms": body.get("proms") or proms, "argc": 0, "crate": fr.fn.get("crate")}
            try:
                ps = self.call_fn(Path(), fake, [], 3)
                if len(ps) == 1 and ps[0].kind == "ret":
                    body["_v"] = self.content(ps[0], ps[0].ret)
            except Limit:
                pass
        return body["_v"]

    def ltype(self, fr, o):
        """type string of an operand, when it is a plain local or constant"""
        if o[0] == "k":
            return o[1].get("ty", "")
        p = o[1]
        if len(p) == 1:
            return fr.fn["locals"][p[0]][0]
        return ""

    def rvalue(self, st, fr, rv, dest=None):
        k = rv[0]
        if k == "use":
            return self.operand(st, fr, rv[1])
        if k in ("ref", "raw"):
            root, projs = self.resolve(st, fr, rv[2])
            if root[0] == "P" and not projs and root not in st.mem:
                return root[1]
            if root[0] == "P" and not projs:
                return root[1] if True else ("ref", root, projs)
            if root[0] == "T" and not projs:
                v = st.mem[root]
                return v if v[0] == "str" else ("ref", root, projs)
            return ("ref", root, projs)
        if k == "agg":
            h = rv[1]
            vals = [self.operand(st, fr, o) for o in rv[2]]
            if h[0] == "adt":
                names = h[3] if len(h) > 3 and h[3] else [str(i) for i in range(len(vals))]
                adt = h[1]
                var = h[2]
                if adt in ("core::range::Range", "core::ops::range::Range", "core::range::legacy::Range"):
                    return ("agg", "range", "", tuple(zip(names, vals)))
                a = self.adts.get(adt)
                if a and a["kind"].lower() == "union":
                    return ("op", "union", *vals)
                return ("agg", adt, var if self.variants(adt) else "", tuple(zip(names, vals)))
            if h[0] == "closure":
                return ("clo", h[1], tuple(vals))
            if h[0] == "tuple":
                return tup(*vals)
            if h[0] == "array":
                return ("agg", "[]", "", tuple((str(i), x) for i, x in enumerate(vals)))
            if h[0] == "coroutine":
                return ("clo", h[1], tuple(vals))
            return ("op", "rawptr") + tuple(vals)
        if k == "bin":
            return self.binop(st, fr, rv[1], self.operand(st, fr, rv[2]), self.operand(st, fr, rv[3]), self.ltype(fr, rv[2]) or self.ltype(fr, rv[3]))
        if k == "un":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "Not":
                ty = self.ltype(fr, rv[2])
                if ty == "bool" or a[0] in ("lt0", "eq0", "eq", "not", "is", "ltr", "and", "or"):
                    return mk_not(a)
                return ("op", "BitNot", a)
            if rv[1] == "Neg":
                return scale(a, -1) if lin_parts(a) else ("op", "Neg", a)
            if rv[1] == "PtrMetadata":
                return length(self.deref(st, a))
            return ("op", rv[1], a)
        if k == "cast":
            a = self.operand(st, fr, rv[2])
            if rv[1] == "int":
                to, frm = rv[3], rv[4]
                if to in BITS and BITS[to] < 32 and BITS.get(frm, 64) > BITS[to] and not is_k(a):
                    return ("trunc", to, a)
                return a
            if rv[1] in ("transmute", "ptr") or rv[1].startswith("coerce"):
                return a
            return ("op", "cast:" + rv[1], a)
        if k == "discr":
            v = self.read(st, fr, rv[1])
            return ("discr", v, rv[2] if len(rv) > 2 else "")
        if k == "rep":
            return ("op", "repeat", self.operand(st, fr, rv[1]), ("str", str(rv[2])))
        if k == "tls":
            return ("const", "tls", rv[1])
        return ("unk", k)

    def binop(self, st, fr, op, a, b, ty=""):
        real = ty in ("f32", "f64")
        if op in ("Lt", "Le", "Gt", "Ge"):
            if op == "Lt":
                return lt(a, b, real)
            if op == "Gt":
                return lt(b, a, real)
            if op == "Le":
                return le(a, b, real)
            return le(b, a, real)
        if op in ("Eq", "Ne"):
            if ty == "bool" or a[0] in ("lt0", "eq0", "eq", "not", "is", "and", "or") or b[0] in ("lt0", "eq0", "eq", "not", "is"):
                if is_k(a):
                    a, b = b, a
                if is_k(b):
                    r = a if b[1] else mk_not(a)
                else:
                    r = eq(a, b)
            elif ty in BITS and ty not in ("char",) and ty != "bool":
                d = sub(a, b)
                if d[0] == "k":
                    r = K(1 if d[1] == 0 else 0)
                elif is_k(a) or is_k(b) or True:
                    p = lin_parts(d)
                    if p is None:
                        r = eq(a, b)
                    else:
                        first = min(p[1], key=okey)
                        if p[1][first] < 0:
                            d = scale(d, -1)
                        r = ("eq0", d)
            else:
                r = eq(a, b)
            return r if op == "Eq" else mk_not(r)
        ov = op.endswith("WithOverflow")
        base = op[:-12] if ov else op.replace("Unchecked", "")
        if real:
            if base in ("Add", "Mul") and okey(a) > okey(b):
                a, b = b, a
            r = ("op", "f" + base, a, b)
        elif base == "Add":
            r = add(a, b)
        elif base == "Sub":
            r = sub(a, b)
        elif base == "Mul":
            r = mul(a, b)
        elif base in ("BitAnd", "BitOr") and (ty == "bool" or a[0] in ("lt0", "eq0", "eq", "not", "is", "and", "or")):
            r = self.conj(a, b) if base == "BitAnd" else mk_not(self.conj(mk_not(a), mk_not(b)))
        elif is_k(a) and is_k(b) and isinstance(a[1], int) and isinstance(b[1], int):
            x, y = a[1], b[1]
            try:
                r = K({"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y, "Div": x // y if y else 0, "Rem": x % y if y else 0,
                       "Shl": x << y if 0 <= y < 128 else 0, "Shr": x >> y if 0 <= y < 128 else 0}[base])
            except KeyError:
                r = ("op", base, a, b)
        else:
            if base in ("BitAnd", "BitOr", "BitXor") and okey(a) > okey(b):
                a, b = b, a
            if base in ("Cmp",):
                r = ("cmp3", a, b)
            else:
                r = ("op", base, a, b)
        if ov:
            return tup(r, FALSE)
        return r

    def conj(self, a, b):
        if a == FALSE or b == FALSE:
            return FALSE
        if a == TRUE:
            return b
        if b == TRUE:
            return a
        xs = []
        for x in (a, b):
            xs += list(x[1:]) if x[0] == "and" else [x]
        return ("and",) + tuple(sorted(set(xs), key=okey))

    # ------------------------------------------------------------ running a body
    def call_fn(self, st, fn, args, depth, top=False):
        if depth > self.MAXDEPTH:
            raise Limit("depth " + fn["key"])
        self.nframe = getattr(self, "nframe", 0)
        fid = (depth, short(fn["key"]), len(self.stack) if hasattr(self, "stack") else 0)
        # the same function can be live twice (recursion): make the id unique on this stack
        fid = fid + (self.fresh_id(),)
        fr = Frame(fn, fid, depth)
        st = st.copy()
        for i, a in enumerate(args):
            st.mem[("L", fid, i + 1)] = a
        outs = self.run(fr, 0, st)
        res = []
        for o in outs:
            kind = o[0]
            if kind == "ret":
                s = o[1]
                s.ret = s.mem.get(("L", fid, 0), UNIT)
                s.ret = self.escape(s, s.ret, fid)
                s.kind = "ret"
                if not top:
                    for k in [k for k in s.mem if k[0] == "L" and k[1] == fid]:
                        del s.mem[k]
                res.append(s)
            elif kind == "panic":
                s = o[1]
                s.kind = "panic"
                res.append(s)
            else:
                raise Limit("stray back edge")
        return res

    def fresh_id(self):
        self.nfid = getattr(self, "nfid", 0) + 1
        return self.nfid

    def escape(self, st, v, fid):
        """no pointer to this frame's locals can outlive it, except inside values we made up"""
        if v[0] == "ref" and v[1][0] == "L" and v[1][1] == fid:
            return ("rv", self.content(st, self.get(st, v[1], v[2])))
        if v[0] == "agg" and v[3]:
            return ("agg", v[1], v[2], tuple((n, self.escape(st, x, fid)) for n, x in v[3]))
        return v

    def run(self, fr, bb, st):
        """-> list of ("ret", st) | ("panic", st) | ("back", st, header)"""
        out = []
        work = [(bb, st, True)]
        bbs = fr.fn["bbs"]
        while work:
            b, st, first = work.pop()
            while True:
                if b in fr.loops and not (first and fr.active and fr.active[-1] == b):
                    if b in fr.active:
                        out.append(("back", st, b))
                        break
                    out += self.loop(fr, b, st)
                    break
                first = False
                self.steps += 1
                if self.steps > self.MAXSTEPS:
                    raise Limit("steps")
                blk = bbs[b]
                if blk is None:
                    break
                for s in blk[0]:
                    if s[0] == "=":
                        st_ = st
                        v = self.rvalue(st_, fr, s[2])
                        self.write(st_, fr, s[1], v)
                    elif s[0] == "setd":
                        self.write(st, fr, s[1], ("agg", "?", str(s[2]), ()))
                    elif s[0] == "dead":
                        pass
                t = blk[1]
                k = t[0]
                if k == "goto":
                    b = t[1]
                    continue
                if k == "return":
                    out.append(("ret", st))
                    self.npaths += 1
                    break
                if k == "drop":
                    self.on_drop(st, fr, t)
                    b = t[2]
                    continue
                if k == "assert":
                    b = self.on_assert(st, fr, t, out)
                    if b is None:
                        break
                    continue
                if k == "unreachable":
                    break
                if k == "switch":
                    nx = self.switch(st, fr, t)
                    if not nx:
                        break
                    for s2, b2 in nx[1:]:
                        work.append((b2, s2.copy(), False))
                    if len(work) > self.MAXPATHS:
                        raise Limit("paths")
                    st, b = nx[0]
                    if len(nx) > 1:
                        st = st.copy()
                    continue
                if k == "call":
                    rs = self.call(st, fr, t)
                    live = []
                    for s2, v in rs:
                        if v is None:
                            s2.kind = "panic"
                            s2.line = t[5] if len(t) > 5 else 0
                            out.append(("panic", s2))
                        elif t[4] is None:
                            s2.line = t[5] if len(t) > 5 else 0
                            out.append(("panic", s2))
                        else:
                            self.write(s2, fr, t[3], v)
                            live.append(s2)
                    if not live:
                        break
                    for s2 in live[1:]:
                        work.append((t[4], s2, False))
                    if len(work) > self.MAXPATHS:
                        raise Limit("paths")
                    st, b = live[0], t[4]
                    continue
                if k == "yield":
                    self.write(st, fr, t[3] if len(t) > 3 and isinstance(t[3], list) else [0], ("unk", "yield"))
                    b = t[2]
                    continue
                break
            if self.npaths > self.MAXPATHS * 4:
                raise Limit("paths")
        return out

    def on_drop(self, st, fr, t):
        pass

    def on_assert(self, st, fr, t, out):
        """index checks split off a panicking path; arithmetic overflow is not followed"""
        c = self.operand(st, fr, t[1])
        if c[0] != "k" and len(t) > 3 and is_bounds(t):
            p = self.assume(st, c, not t[2])
            if p is not None:
                p = p.copy()
                p.kind = "panic"
                out.append(("panic", p))
            s = self.assume(st, c, bool(t[2]))
            if s is None:
                return None
            if s is not st:
                st.cdict, st.conds = s.cdict, s.conds
        elif c[0] == "k" and bool(c[1]) != bool(t[2]) and is_bounds(t):
            p = st.copy()
            p.kind = "panic"
            out.append(("panic", p))
            return None
        return t[4]

    def switch(self, st, fr, t):
        v = self.operand(st, fr, t[1])
        arms, other = t[2], t[3]
        if v[0] == "discr":
            adt = v[2]
            x = v[1]
            vs = self.variants(adt)
            if x[0] == "agg" and x[1] == "?":
                return [(st, other)]
            out = []
            if vs is None and not (x[0] == "agg"):
                v = ("call", "discriminant", (x,))
            else:
                for s, name, _ in self.split_variant(st, x, adt):
                    d = (vs or {}).get(name)
                    tgt = other
                    for val, bb in arms:
                        if val == d or (d is not None and d < 0 and val in (d + 256, d + 2 ** 64, d + 2 ** 128, d + 2 ** 32)):
                            tgt = bb
                    out.append((s, tgt))
                return out
        if is_k(v):
            for val, bb in arms:
                if val == v[1]:
                    return [(st, bb)]
            return [(st, other)]
        ty = t[5] if len(t) > 5 else ""
        if v[0] == "case":
            out = []
            for cs, x in v[1]:
                s = st
                for c in cs:
                    s = self.assume(s, c, True)
                    if s is None:
                        break
                if s is not None:
                    self.write_tmp = None
                    fake = list(t)
                    s2 = s.copy()
                    out += self.switch_value(s2, x, arms, other, ty)
            return out
        return self.switch_value(st, v, arms, other, ty)

    def switch_value(self, st, v, arms, other, ty):
        if is_k(v):
            for val, bb in arms:
                if val == v[1]:
                    return [(st, bb)]
            return [(st, other)]
        if ty == "bool" or v[0] in ("lt0", "eq0", "eq", "not", "is", "ltr", "and", "or"):
            out = []
            d = dict((val, bb) for val, bb in arms)
            for s, b in self.branch(st, self.as_cond(v)):
                out.append((s, d.get(1 if b else 0, other)))
            return out
        out = []
        s = st
        for val, bb in arms:
            c = self.int_eq(v, K(val), ty)
            n = self.assume(s, c, True)
            if n is not None:
                out.append((n, bb))
                if n is s:
                    return out
            s = self.assume(s, c, False)
            if s is None:
                return out
        out.append((s, other))
        return out

    def int_eq(self, a, b, ty):
        if ty == "char":
            return eq(a, b)
        d = sub(a, b)
        p = lin_parts(d)
        if p is None:
            return eq(a, b)
        if not p[1]:
            return K(1 if p[0] == 0 else 0)
        first = min(p[1], key=okey)
        if p[1][first] < 0:
            d = scale(d, -1)
        return ("eq0", d)

    def as_cond(self, v):
        if v[0] in ("lt0", "eq0", "eq", "not", "is", "ltr", "and", "or", "k"):
            return v
        return ("true", v)

    # ------------------------------------------------------------ loops
    def diff(self, a, b, path, out):
        """paths at which two values differ"""
        if a == b:
            return
        if a[0] == "agg" and b[0] == "agg" and a[1] == b[1] and a[2] == b[2] and [n for n, _ in a[3]] == [n for n, _ in b[3]] and a[3] and a[1] != "[]":
            for (n, x), (_, y) in zip(a[3], b[3]):
                self.diff(x, y, path + ("." + n,), out)
            return
        ba, bb = (a[1] if a[0] == "upd" else a), (b[1] if b[0] == "upd" else b)
        if ba == bb and (a[0] == "upd" or b[0] == "upd"):
            keys = {n for n, _ in (a[2] if a[0] == "upd" else ())} | {n for n, _ in (b[2] if b[0] == "upd" else ())}
            for n in keys:
                if n.startswith("@"):
                    vn, f = n[1:].split(".", 1)
                    self.diff(fld(as_variant(a, vn), f), fld(as_variant(b, vn), f), path + ("@" + vn, "." + f), out)
                else:
                    self.diff(fld(a, n), fld(b, n), path + ("." + n,), out)
            return
        out.add(path)

    def lname(self, fr, root, path):
        if root[0] == "L":
            nm = ""
            if root[1] == fr.fid:
                l = fr.fn["locals"][root[2]]
                nm = l[1] if len(l) > 1 and l[1] else "_%d" % root[2]
            else:
                nm = "%s._%s" % (root[1][1], root[2])
            base = nm
        elif root[0] == "P":
            base = show(root[1]) + "^"
        else:
            base = str(root[0])
        return base + "".join(p if isinstance(p, str) else "[%s]" % show(p[1]) for p in path)

    def loop(self, fr, h, st):
        lid = "%s#%d" % (short(fr.fn["key"]), fr.loops[h])
        if fr.depth:
            lid += "/%d" % fr.depth
        body = lambda s: self.run_from(fr, h, s)
        return self.widen(fr, lid, st, body, h, fr.fn["bbs"][h][1])

    def run_from(self, fr, h, st):
        fr.active.append(h)
        try:
            outs = self.run(fr, h, st.copy())
        finally:
            fr.active.pop()
        return outs

    def widen(self, fr, lid, st, body, h, term=None):
        # no loop number is used twice on a path
        n = sum(1 for l in st.loops if l.id.split("'")[0] == lid)
        lid = lid + "'" * n
        changed = {}
        closed = {}
        def covered(root, d):
            return any(q[0] == root and d[:len(q[1])] == q[1] for q in changed)

        for attempt in range(14):
            s1 = st.copy()
            lvs = {}
            for (root, path), cf in changed.items():
                nm = self.lname(fr, root, path)
                lvs[(root, path)] = closed.get((root, path)) or ("lv", lid, nm)
                self.put_path(s1, root, path, lvs[(root, path)])
            outs = body(s1)
            backs = [o for o in outs if o[0] == "back" and o[2] == h]
            new = set()
            for o in backs:
                m = o[1].mem
                for root, v1 in s1.mem.items():
                    v2 = m.get(root)
                    if v2 is not None and v2 != v1:
                        ds = set()
                        self.diff(v1, v2, (), ds)
                        for d in ds:
                            if not covered(root, d):
                                new.add((root, d))
                for root, v2 in m.items():
                    # pointees first touched inside the loop
                    if root[0] == "P" and root not in s1.mem:
                        v1 = self.root_value(s1, root)
                        if v1 != v2:
                            ds = set()
                            self.diff(v1, v2, (), ds)
                            for d in ds:
                                if not covered(root, d) and not contains(root[1], lambda t: t[0] == "lv" and t[1] == lid):
                                    new.add((root, d))
            if new:
                for r in new:
                    # a coarser path replaces finer ones
                    for q in [q for q in changed if q[0] == r[0] and q[1][:len(r[1])] == r[1]]:
                        del changed[q]
                    if not any(q[0] == r[0] and r[1][:len(q[1])] == q[1] for q in changed):
                        changed[r] = True
                closed = {}
                continue
            # stable: try closed forms
            if not closed and backs and changed:
                closed = self.closed_forms(fr, lid, st, changed, lvs, backs)
                if closed:
                    continue
            break
        else:
            raise Limit("loop does not stabilise: " + lid)
        rec = Loop(lid, fr.fn["key"], 0)
        for (root, path), lv in lvs.items():
            nm = self.lname(fr, root, path)
            rec.vars[nm] = lv
            rec.entry[nm] = self.get_path(st, root, path)
        nc = len(s1.conds)
        ne = len(s1.events)
        for o in backs:
            vals = {}
            for (root, path), lv in lvs.items():
                vals[self.lname(fr, root, path)] = self.get_path(o[1], root, path)
            rec.backs.append((o[1].conds[nc:], vals, o[1].events[ne:], o[1]))
        rec.closed = {self.lname(fr, r, p): v for (r, p), v in closed.items()}
        res = []
        for o in outs:
            if o[0] == "back" and o[2] == h:
                continue
            if rec.backs:
                o[1].loops = o[1].loops[:len(st.loops)] + (rec,) + o[1].loops[len(st.loops):]
            res.append(o)
        if closed:
            # tests passed by every repetition: failing one of them is what ends the loop
            held = [{(c, t) for c, t in b[0]} for b in rec.backs]
            held = set.intersection(*held) if held else set()
            res = [self.at_exit(o, closed, lid, held) for o in res]
        return res

    def get_path(self, st, root, path):
        return self.proj(st, self.root_value(st, root), path)

    def put_path(self, st, root, path, x):
        if not path:
            st.mem[root] = x
        else:
            st.mem[root] = self.update(st, self.root_value(st, root), path, x)

    def closed_forms(self, fr, lid, st, changed, lvs, backs):
        """counters and running sums, expressed through one counter of the loop"""
        steps = {}
        for key, lv in lvs.items():
            ds = []
            for o in backs:
                v = self.get_path(o[1], *key)
                d = sub(v, lv) if lin_parts(v) is not None else None
                ds.append((frozenset((c if t else mk_not(c)) for c, t in o[1].conds[len(st.conds):]), d))
            steps[key] = ds
        mylv = set(lvs.values())
        counter = None
        cands = sorted(changed, key=lambda k: (0 if "pos" in str(k[1]) else 1, self.lname(fr, *k)))
        for key in cands:
            ds = {d for _, d in steps[key]}
            if ds == {ONE}:
                counter = key
                break
        out = {}
        if counter is None:
            return out
        c0 = self.get_path(st, *counter)
        n = ("lv", lid, "#")
        cform = n if c0 == ZERO else add(n, c0)
        # n counts completed passes from zero; the counter itself is c0 + n
        N = ("u", lid)
        cform = add(N, c0)
        out[counter] = cform
        base = {lvs[counter]: cform}
        for key in cands:
            if key == counter:
                continue
            ds = steps[key]
            if any(d is None for _, d in ds):
                continue
            vals = {d for _, d in ds}
            v0 = self.get_path(st, *key)
            if len(vals) == 1 and is_k(next(iter(vals))):
                d = next(iter(vals))
                out[key] = add(v0, scale(N, d[1]))
                base[lvs[key]] = out[key]
        changed_more = True
        while changed_more:
            changed_more = False
            for key in cands:
                if key in out:
                    continue
                ds = steps[key]
                if any(d is None for _, d in ds):
                    continue
                alts = []
                good = True
                for cs, d in ds:
                    d = subst(d, base)
                    cs = frozenset(subst(c, base) for c in cs)
                    if contains(d, lambda t: t in mylv):
                        good = False
                        break
                    alts.append((cs, d))
                if not good:
                    continue
                # conditions on other loop values may go when the rest still tells the cases apart
                slim = [(frozenset(c for c in cs if not contains(c, lambda t: t in mylv)), d) for cs, d in alts]
                if all(a[1] == b[1] or any(mk_not(c) in b[0] for c in a[0]) for i, a in enumerate(slim) for b in slim[:i]):
                    alts = slim
                # drop conditions that do not matter: shared ones
                body = mk_case(alts)
                if body[0] == "case":
                    if contains(body, lambda t: t in mylv):
                        continue
                    body = mk_case([(cs, x) for cs, x in body[1]])
                bv = "j%d" % self.sumdepth(body)
                v0 = self.get_path(st, *key)
                out[key] = add(v0, mk_sum(ZERO, N, subst(body, {N: ("bv", bv)}), bv))
                base[lvs[key]] = out[key]
                changed_more = True
        return out

    def sumdepth(self, t):
        n = 0
        while contains(t, lambda x: x[0] == "sum" and x[4] == "j%d" % n):
            n += 1
        return n

    def at_exit(self, o, closed, lid, held):
        """on the exit where the counter reached its bound, use the bound"""
        N = ("u", lid)
        s = o[1]
        for c, t in s.conds:
            b = None
            if c[0] == "lt0" and (c, not t) in held:
                p = lin_parts(c[1])
                k = p[1].get(N)
                if k == 1 and not t:            # not (N - M < 0): N >= M, and N only grows by one: N == M
                    b = sub(N, c[1])
                elif k == -1 and t:             # M - N < 0, and N only grows by one: N == M + 1
                    b = add(add(c[1], N), ONE)
            if b is not None and not contains(b, lambda x: x == N) and not contains(b, lambda x: x[0] == "lv" and x[1] == lid):
                m = {N: b}
                memo = {}
                s.mem = {(r if r[0] != "P" else ("P", subst(r[1], m, memo))): subst(v, m, memo) for r, v in s.mem.items()}
                s.conds = tuple((subst(c2, m, memo), t2) if c2 != c else (c2, t2) for c2, t2 in s.conds)
                s.conds = tuple((c2, t2) for c2, t2 in s.conds if c2[0] != "k")
                s.cdict = {c2: t2 for c2, t2 in s.conds}
                if s.ret is not None:
                    s.ret = subst(s.ret, m, memo)
                s.events = tuple(Event(e.f, [subst(a, m, memo) for a in e.args], subst(e.ret, m, memo) if e.ret else e.ret, e.line, e.fn, e.nconds) for e in s.events)
                break
        return o

    # ------------------------------------------------------------ calls
    def call(self, st, fr, t):
        f = t[1]
        line = t[5] if len(t) > 5 else 0
        args = [self.operand(st, fr, o) for o in t[2]]
        if not isinstance(f, dict):
            return self.call_value(st, fr, self.operand(st, fr, f), args, line)
        if "f" not in f:
            if "op" in f:
                return self.call_value(st, fr, self.operand(st, fr, f["op"]), args, line)
            return self.opaque_call(st, fr, "?", args, line)
        return self.invoke(st, fr, f["f"], f.get("r"), args, line, f)

    def call_value(self, st, fr, v, args, line):
        v0 = v
        n = 0
        while v[0] in ("ref", "rv") and n < 5:
            v = self.deref(st, v)
            n += 1
        if v[0] == "fnitem" and v[1].endswith("::{ctor}"):
            r = self.construct(v[1][:-8], args)
            if r is not None:
                return [(st, r)]
        if v[0] == "fnitem":
            return self.invoke(st, fr, v[2], v[1] if v[1] != v[2] else None, args, line, {})
        if v[0] == "clo":
            fn = self.fns.get(v[1])
            if fn is None:
                return self.opaque_call(st, fr, v[1], args, line)
            selfty = fn["locals"][1][0]
            if selfty.startswith("&"):
                me = v0 if v0[0] in ("ref",) else ("rv", v)
                if me[0] == "rv":
                    st = st.copy()
                    root = ("T", ("clo", v[1], v[2], self.fresh_id()))
                    st.mem[root] = v
                    me = ("ref", root, ())
            else:
                me = v
            return self.enter(st, fr, fn, [me] + args, line)
        return self.opaque_call(st, fr, "call", [v0] + args, line)

    def construct(self, path, args):
        """the value a tuple constructor used as a function makes"""
        fs = tuple((str(i), x) for i, x in enumerate(args))
        if path in self.adts and not self.variants(path):
            return ("agg", path, "", fs)
        adt, _, var = path.rpartition("::")
        vs = self.variants(adt)
        if vs and var in vs:
            return ("agg", adt, var, fs)
        if adt in ("core::option::Option", "core::result::Result", "alloc::borrow::Cow", "core::ops::control_flow::ControlFlow"):
            return ("agg", adt, var, fs)
        return None

    def enter(self, st, fr, fn, args, line):
        key = fn["key"]
        if sum(1 for k in self.stack if k == key) > 0:
            return self.opaque_call(st, fr, key, args, line)
        self.stack.append(key)
        try:
            ps = self.call_fn(st, fn, args, fr.depth + 1)
        finally:
            self.stack.pop()
        return [(p, p.ret if p.kind == "ret" else None) for p in ps]

    def is_opaque(self, key):
        if key in self.opaque:
            return True
        return any(key.endswith(o) for o in self.opaque if o.startswith("::") or o.startswith(">"))

    def invoke(self, st, fr, name, resolved, args, line, f):
        for nm in ([resolved] if resolved else []) + [name]:
            if self.is_opaque(nm):
                return self.opaque_call(st, fr, nm, args, line)
        if name.startswith("core::ops::function::Fn") and len(args) == 2:
            # a direct call of a closure or function value: the arguments come as a tuple
            x = args[1]
            if x[0] in ("ref", "rv"):
                x = self.deref(st, x)
            h = args[0]
            n = 0
            while h[0] in ("ref", "rv") and n < 5:
                h = self.deref(st, h)
                n += 1
            if x[0] == "agg" and x[1] == "()" and h[0] in ("clo", "fnitem"):
                return self.call_value(st, fr, args[0], [y for _, y in x[3]], line)
        import model
        m = model.lookup(name, resolved)
        if m is not None and (resolved or name) not in self.fns:
            r = m(self, st, fr, args, line, name, resolved, f)
            if r is not None:
                return r
        for nm in (resolved, name):
            if nm:
                fn = self.fns.get(nm)
                if fn is not None and fn.get("bbs") and not fn.get("coroutine"):
                    if fn.get("intrait") and not resolved and f.get("t"):
                        break       # default body of a trait method: the implementor may differ
                    if self.inline is None or self.inline(nm):
                        return self.enter(st, fr, fn, args, line)
        return self.opaque_call(st, fr, resolved or name, args, line)

    def opaque_call(self, st, fr, name, args, line, pure=False):
        st = st.copy()
        cargs = tuple(self.content(st, a) for a in args)
        r = ("call", name, cargs)
        st.events = st.events + (Event(name, cargs, r, line, fr.fn["key"], len(st.conds)),)
        if not pure and name not in LOOKS:
            for i, a in enumerate(args):
                self.clobber(st, fr, a, i, r, name)
        if name.startswith(LEXST) and self.is_opaque(LEXST + "get_position") and args:
            fn = self.fns.get(name)
            if fn and fn["locals"][0][0].startswith("core::range::Range<usize>") and args[0][0] in ("arg", "ref", "rv"):
                # a run skipped over reaches from the position before to the position after (property X01)
                pos = lambda a: ("call", LEXST + "get_position", (a,))
                return [(st, ("agg", "range", "", (("start", pos(cargs[0])), ("end", pos(("rv", ("post", "0", r)))))))]
        return [(st, r)]

    def mutable_arg(self, fr, name, i):
        fn = self.fns.get(name)
        if fn and fn.get("locals") and i + 1 < len(fn["locals"]):
            return fn["locals"][i + 1][0].startswith("&mut")
        return None

    def clobber(self, st, fr, a, i, r, name):
        """what an unknown callee may have changed"""
        mu = self.mutable_arg(fr, name, i)
        if mu is False:
            return
        if a[0] == "ref":
            if mu is True or self.is_mut(fr, name, i, a):
                old = self.get(st, a[1], a[2])
                if old[0] in ("clo", "fnitem"):
                    return
                self.put(st, a[1], a[2], ("post", str(i), r))
        elif a[0] in ("arg", "fld", "lv", "call", "idx"):
            if mu is True or self.is_mut(fr, name, i, a):
                st.mem[("P", a)] = ("post", str(i), r)

    def is_mut(self, fr, name, i, a):
        t = getattr(self, "cur_types", None)
        if t and i < len(t):
            return t[i].startswith("&mut") or t[i].startswith("*mut")
        return False


LEXST = "oak_core::lexer::LexerState::"
# take &mut self to page in the text at the position, and leave nothing else behind (each is specified in X01/X02)
LOOKS = {LEXST + n for n in ("rest", "rest_bytes", "peek", "peek_next", "peek_next_n", "peek_byte", "starts_with", "current")} | \
    {"oak_core::source::cursor::SourceCursor::" + n for n in ("rest", "chunk_end", "peek_char", "peek_next_n", "peek_next_char", "peek_byte", "starts_with", "find_str")}


def type_of_operand(fr, o):
    if o[0] == "k":
        return o[1].get("ty", "")
    p = o[1]
    if len(p) == 1:
        return fr.fn["locals"][p[0]][0]
    return ""


_old_call = Engine.call


def _call(self, st, fr, t):
    save = getattr(self, "cur_types", None)
    self.cur_types = [type_of_operand(fr, o) for o in t[2]]
    try:
        return _old_call(self, st, fr, t)
    finally:
        self.cur_types = save


Engine.call = _call


# ---------------------------------------------------------------- convenience for the rules
def final_value(eng, p, ptr):
    """contents of *ptr when the path ends"""
    return eng.content(p, eng.deref(p, ptr))


def is_bounds(t):
    return isinstance(t[3], (list, tuple)) and t[3] and t[3][0] in ("bounds", "rem0", "div0")
