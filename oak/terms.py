"""Value-number terms: canonical descriptions of what a program computes.

A term is a tuple.  Integers live in a linear normal form, comparisons in one canonical
orientation, so two ways of writing the same value get the same number."""

_ord = {}


def okey(t):
    n = _ord.get(t)
    if n is None:
        n = _ord[t] = len(_ord)
    return n


def K(n):
    return ("k", n)


TRUE, FALSE, ZERO, ONE = K(1), K(0), K(0), K(1)
UNIT = ("agg", "()", "", ())


def is_k(t):
    return t[0] == "k"


def lin_parts(t):
    """-> (const, dict atom->coef) or None when t is not numeric-looking"""
    if t[0] == "k":
        if isinstance(t[1], int):
            return t[1], {}
        return None
    if t[0] == "lin":
        return t[1], dict(t[2])
    return 0, {t: 1}


def mk_lin(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return K(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return ("lin", c, tuple(sorted(d.items(), key=lambda x: okey(x[0]))))


def add(a, b, s=1):
    if a[0] in ("k", "lin") or b[0] in ("k", "lin") or True:
        pa, pb = lin_parts(a), lin_parts(b)
        if pa is None or pb is None:
            return ("op", "Add" if s == 1 else "Sub", a, b)
        c = pa[0] + s * pb[0]
        d = pa[1]
        for k, v in pb[1].items():
            d[k] = d.get(k, 0) + s * v
        return mk_lin(c, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    pa = lin_parts(a)
    return mk_lin(pa[0] * n, {k: v * n for k, v in pa[1].items()})


def mul(a, b):
    if a[0] == "k" and isinstance(a[1], int):
        return scale(b, a[1])
    if b[0] == "k" and isinstance(b[1], int):
        return scale(a, b[1])
    if okey(a) > okey(b):
        a, b = b, a
    return ("op", "Mul", a, b)


def nonneg(t):
    """terms known never negative"""
    if t[0] == "k":
        return isinstance(t[1], int) and t[1] >= 0
    if t[0] == "lin":
        return t[1] >= 0 and all(k > 0 and nonneg(a) for a, k in t[2])
    if t[0] == "sum":
        b = t[3]
        return all(nonneg(x) or x[0] not in ("k", "lin") for x in ([x for _, x in b[1]] if b[0] == "case" else [b]))
    return t[0] in ("len", "max0", "cnt", "u")


# ---- conditions: canonical atoms  ("lt0", lin)  ("eq0", lin)  ("eq", a, b)  ("is", t, variant) ...
CONDS = frozenset(("lt0", "eq0", "eq", "not", "is", "ltr", "and", "or", "k", "true"))


def as_cond(t):
    """the condition that the boolean `t` is true"""
    return t if t[0] in CONDS else ("true", t)


def mk_not(t):
    t = as_cond(t)
    if t[0] == "k":
        return K(0 if t[1] else 1)
    if t[0] == "not":
        return t[1]
    if t[0] == "lt0":
        # not (d < 0)  <=>  -d - 1 < 0 ; choose one canonical side
        return ("not", t)
    return ("not", t)


def lt(a, b, real=False):
    """a < b"""
    d = sub(a, b)
    if d[0] == "k" and isinstance(d[1], int):
        return K(1 if d[1] < 0 else 0)
    if real:
        return ("ltr", a, b)
    if nonneg(d):
        return FALSE
    n = sub(K(-1), d)          # not(d<0) == n<0
    if nonneg(n):
        return TRUE
    # canonical: first atom (lowest order) has positive coefficient
    p = lin_parts(d)
    first = min(p[1], key=okey)
    if p[1][first] > 0:
        return ("lt0", d)
    return ("not", ("lt0", n))


def le(a, b, real=False):
    return mk_not(lt(b, a, real))


def eq(a, b):
    if a == b:
        return TRUE
    if a[0] == "k" and b[0] == "k":
        return K(1 if a[1] == b[1] else 0)
    if a[0] == "str" and b[0] == "str":
        return K(1 if a[1] == b[1] else 0)
    if a[0] == "agg" and b[0] == "agg" and a[1] == b[1]:
        if a[2] != b[2]:
            return FALSE
        if not a[3]:
            return TRUE
    num = ("k", "lin", "len", "sum", "cnt", "max0", "min", "max")
    if a[0] in num or b[0] in num:
        d = sub(a, b)
        if d[0] == "k":
            return K(1 if d[1] == 0 else 0)
        p = lin_parts(d)
        first = min(p[1], key=okey)
        if p[1][first] < 0:
            d = scale(d, -1)
        return ("eq0", d)
    if okey(a) > okey(b):
        a, b = b, a
    return ("eq", a, b)


def fld(v, f):
    k = v[0]
    if k == "agg":
        for n, x in v[3]:
            if n == f:
                return x
        return ("fld", v, f)
    if k == "upd":
        for n, x in v[2]:
            if n == f:
                return x
        return fld(v[1], f)
    if k == "as":
        b = v[1]
        if b[0] == "upd":
            for n, x in b[2]:
                if n == "@" + v[2] + "." + f:
                    return x
            return fld(as_variant(b[1], v[2]), f)
        return ("fld", v, f)
    if k == "clo":
        return v[2][int(f)] if f.isdigit() and int(f) < len(v[2]) else ("fld", v, f)
    if k == "case":
        return mk_case([(c, fld(x, f)) for c, x in v[1]])
    return ("fld", v, f)


def as_variant(v, name):
    if v[0] == "agg":
        return v
    if v[0] == "case":
        return mk_case([(c, as_variant(x, name)) for c, x in v[1]])
    return ("as", v, name)


def mk_case(alts):
    vals = {x for _, x in alts}
    if len(vals) == 1:
        return alts[0][1]
    # merge equal values, drop condition literals shared by all alternatives
    common = frozenset.intersection(*[c for c, _ in alts])
    return ("case", tuple(sorted(((c - common, x) for c, x in alts), key=lambda z: (okey(z[1]), sorted(map(okey, z[0]))))))


def set_fld(v, f, x):
    k = v[0]
    if k == "agg":
        if any(n == f for n, _ in v[3]):
            return ("agg", v[1], v[2], tuple((n, x if n == f else y) for n, y in v[3]))
        return ("agg", v[1], v[2], v[3] + ((f, x),))
    if k == "upd":
        d = dict(v[2])
        d[f] = x
        if x == fld(v[1], f):
            del d[f]
        if not d:
            return v[1]
        return ("upd", v[1], tuple(sorted(d.items())))
    if k == "clo" and f.isdigit() and int(f) < len(v[2]):
        l = list(v[2])
        l[int(f)] = x
        return ("clo", v[1], tuple(l))
    if x == fld(v, f):
        return v
    return ("upd", v, ((f, x),))


def length(v):
    k = v[0]
    if k == "vnew":
        return ZERO
    if k == "vpush":
        return add(length(v[1]), ONE)
    if k == "agg" and v[1] == "[]":
        return K(len(v[3]))
    if k == "str":
        return K(len(v[1].encode()))
    if k == "slice":
        return sub(v[3], v[2])
    if k == "vmap":
        return sub(v[2], v[1])
    if k == "iset":
        return length(v[1])
    if k == "vtrunc":
        return mk_min(length(v[1]), v[2])
    if k == "vpop":
        return sub(length(v[1]), ONE)
    if k == "asstr" or k == "asbytes":
        return length(v[1])
    if k == "call" and v[1] == "str::chars" and v[2][0][0] == "str":
        return K(len(v[2][0][1]))
    if k == "call" and v[1] == "str::chars" and v[2][0][0] == "cat":
        n = ZERO
        for x in v[2][0][1]:
            n = add(n, length(("call", "str::chars", (x,))))
        return n
    if k == "post" and v[1] == "0" and v[2][0] == "call" and v[2][1].startswith("[T]::") and v[2][1][5:] in PERMUTE and v[2][2][0][0] == "rv":
        return length(v[2][2][0][1])
    return ("len", v)


# what these do to a slice leaves its length as it was
PERMUTE = ("sort", "sort_by", "sort_by_key", "sort_by_cached_key", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key", "reverse", "swap", "fill", "rotate_left", "rotate_right")


def mk_min(a, b):
    d = sub(a, b)
    if nonneg(d):
        return b
    if nonneg(scale(d, -1)):
        return a
    if okey(a) > okey(b):
        a, b = b, a
    return ("min", a, b)


def mk_max(a, b):
    d = sub(a, b)
    if nonneg(d):
        return a
    if nonneg(scale(d, -1)):
        return b
    if okey(a) > okey(b):
        a, b = b, a
    return ("max", a, b)


def max0(d):
    """saturating result"""
    if d[0] == "k":
        return K(max(0, d[1]))
    if nonneg(d):
        return d
    return ("max0", d)


def idx(v, i):
    k = v[0]
    if k == "vpush":
        n = length(v[1])
        if i == n:
            return v[2]
        d = sub(n, i)
        if d[0] == "k" and d[1] > 0:
            return idx(v[1], i)
        if nonneg(sub(d, ONE)):
            return idx(v[1], i)
    if k == "agg" and v[1] == "[]" and i[0] == "k" and 0 <= i[1] < len(v[3]):
        return v[3][i[1]][1]
    if k == "slice":
        return idx(v[1], add(i, v[2]))
    if k == "iset":
        if v[2] == i:
            return v[3]
        d = sub(v[2], i)
        if d[0] == "k" and d[1] != 0:
            return idx(v[1], i)
    if k == "vmap":
        return subst(v[3], {("bv", v[4]): add(i, v[1])})
    return ("idx", v, i)


def set_idx(v, i, x):
    if v[0] == "agg" and v[1] == "[]" and i[0] == "k":
        return ("agg", "[]", "", tuple((n, x if int(n) == i[1] else y) for n, y in v[3]))
    if v[0] == "vpush" and i == length(v[1]):
        return ("vpush", v[1], x)
    if v[0] == "iset" and v[2] == i:
        v = v[1]
    if idx(v, i) == x:
        return v
    return ("iset", v, i, x)


def subst(t, m, memo=None):
    """replace terms; rebuilds with the smart constructors"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    if t in memo:
        return memo[t]
    k = t[0]
    if k in ("k", "str", "arg", "bv", "fnitem", "vnew", "unk", "sym", "const"):
        return t
    r = None
    S = lambda x: subst(x, m, memo)
    if k == "lin":
        r = K(t[1])
        for a, c in t[2]:
            r = add(r, scale(S(a), c)) if lin_parts(S(a)) else ("op", "Add", r, S(a))
    elif k == "lt0":
        d = S(t[1])
        r = lt(d, ZERO)
    elif k == "eq0":
        r = eq(S(t[1]), ZERO)
    elif k == "eq":
        r = eq(S(t[1]), S(t[2]))
    elif k == "not":
        r = mk_not(S(t[1]))
    elif k == "fld":
        r = fld(S(t[1]), t[2])
    elif k == "as":
        r = as_variant(S(t[1]), t[2])
    elif k == "len":
        r = length(S(t[1]))
    elif k == "idx":
        r = idx(S(t[1]), S(t[2]))
    elif k == "max0":
        r = max0(S(t[1]))
    elif k == "min":
        r = mk_min(S(t[1]), S(t[2]))
    elif k == "max":
        r = mk_max(S(t[1]), S(t[2]))
    elif k == "case":
        r = mk_case([(frozenset(S(c) for c in cs), S(x)) for cs, x in t[1]])
    elif k == "sum":
        r = mk_sum(S(t[1]), S(t[2]), S(t[3]), t[4])
    elif k == "cat":
        r = ("str", "")
        for x in t[1]:
            r = cat_terms(r, S(x))
    elif k == "op" and t[1] == "Mul":
        r = mul(S(t[2]), S(t[3]))
    elif k == "display" and t[1] == "d":
        v = S(t[2])
        r = ("str", str(v[1])) if v[0] == "k" else (v if v[0] in ("str", "cat") else ("display", "d", v))
    elif k == "*" and S(t[1])[0] == "rv":
        r = S(t[1])[1]
    elif k == "upd":
        r = S(t[1])
        for f, x in t[2]:
            x = S(x)
            if not f.startswith("@"):
                r = set_fld(r, f, x) if r[0] in ("agg", "upd") else ("upd", r, ((f, x),))
            elif r[0] == "upd":
                r = ("upd", r[1], tuple(sorted({**dict(r[2]), f: x}.items())))
            else:
                r = ("upd", r, ((f, x),))
    else:
        r = tuple(sub_any(x, S) for x in t)
    memo[t] = r
    return r


def sub_any(x, S):
    if isinstance(x, tuple) and x:
        if isinstance(x[0], str) and x[0] in HEADS:
            return S(x)
        return tuple(sub_any(y, S) if isinstance(y, (tuple, frozenset)) else y for y in x)
    if isinstance(x, frozenset):
        return frozenset(sub_any(y, S) for y in x)
    return x


def cat_terms(s, x):
    parts = list(s[1]) if s[0] == "cat" else ([] if s == ("str", "") else [s])
    for y in (x[1] if x[0] == "cat" else [x]):
        if y == ("str", ""):
            continue
        if y[0] == "str" and parts and parts[-1][0] == "str":
            parts[-1] = ("str", parts[-1][1] + y[1])
        else:
            parts.append(y)
    return ("str", "") if not parts else parts[0] if len(parts) == 1 else ("cat", tuple(parts))


HEADS = {"display", "k", "str", "arg", "bv", "fnitem", "vnew", "unk", "sym", "const", "lin", "lt0", "ltr", "eq0", "eq", "not", "fld", "as", "len", "idx",
         "max0", "min", "max", "case", "sum", "op", "agg", "upd", "clo", "call", "post", "lv", "vpush", "vtrunc", "vpop", "vmap", "iset", "slice",
         "*", "ref", "rv", "box", "is", "discr", "trunc", "cat", "asstr", "asbytes", "hins", "hdel", "hget", "cnt", "ptr", "tls", "vrev", "vcat", "u"}

_bvn = [0]


def mk_sum(lo, hi, body, bv):
    if body[0] == "k" and body[1] == 0:
        return ZERO
    d = sub(hi, lo)
    if d[0] == "k" and d[1] <= 0:
        return ZERO
    if lo == ZERO and body[0] == "call" and body[1] == "char::len_utf16" and body[2][0][0] == "idx" and body[2][0][2] == ("bv", bv):
        # the code units of all the characters of a text
        q = body[2][0][1]
        if q[0] == "call" and q[1] == "str::chars" and hi == ("len", q):
            return ("len", ("call", "str::encode_utf16", q[2]))
    return ("sum", lo, hi, body, bv)


def contains(t, pred):
    st = [t]
    seen = set()
    while st:
        x = st.pop()
        if isinstance(x, frozenset):
            st.extend(x)
            continue
        if not isinstance(x, tuple) or not x:
            continue
        i = id(x)
        if i in seen:
            continue
        seen.add(i)
        if isinstance(x[0], str) and x[0] in HEADS and pred(x):
            return True
        st.extend(y for y in x if isinstance(y, (tuple, frozenset)))
    return False


def show(t, d=0):
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return "()"
    k = t[0]
    if d > 14:
        return "…"
    s = lambda x: show(x, d + 1)
    if k == "k":
        return str(t[1])
    if k == "str":
        return repr(t[1])
    if k == "arg":
        return "a%d" % t[1]
    if k == "lin":
        out = []
        for a, c in t[2]:
            out.append(("+" if c > 0 else "-") + ("" if abs(c) == 1 else str(abs(c)) + "*") + s(a))
        if t[1]:
            out.append("%+d" % t[1])
        return "(" + " ".join(out).lstrip("+") + ")"
    if k == "lt0":
        return "(%s < 0)" % s(t[1])
    if k == "eq0":
        return "(%s == 0)" % s(t[1])
    if k == "eq":
        return "(%s == %s)" % (s(t[1]), s(t[2]))
    if k == "not":
        return "!" + s(t[1])
    if k == "fld":
        return s(t[1]) + "." + t[2]
    if k == "as":
        return s(t[1]) + "@" + t[2]
    if k == "*":
        return "*" + s(t[1])
    if k == "len":
        return "len(%s)" % s(t[1])
    if k == "idx":
        return "%s[%s]" % (s(t[1]), s(t[2]))
    if k == "agg":
        nm = t[1].rsplit("::", 1)[-1]
        if t[2] and t[2] != nm:
            nm += "::" + t[2]
        return nm + "{" + ", ".join("%s: %s" % (n, s(x)) for n, x in t[3]) + "}"
    if k == "upd":
        return "{%s with %s}" % (s(t[1]), ", ".join("%s=%s" % (n, s(x)) for n, x in t[2]))
    if k == "call":
        return t[1].rsplit("::", 2)[-2] + "::" + t[1].rsplit("::", 1)[-1] + "(" + ", ".join(s(x) for x in t[2]) + ")" if "::" in t[1] else t[1] + "(" + ", ".join(s(x) for x in t[2]) + ")"
    if k == "post":
        return "post%s[%s]" % (t[1], s(t[2]))
    if k == "lv":
        return "lv<%s>" % (",".join(str(x) if not isinstance(x, tuple) else show(x) if x and x[0] in HEADS else ".".join(map(str, x)) for x in t[1:]))
    if k == "ref":
        return "&%s%s" % (".".join(map(str, t[1])) if isinstance(t[1][-1], (int, str)) else "(" + show(t[1]) + ")", "".join(str(p) if isinstance(p, str) else "[%s]" % s(p[1]) for p in t[2]))
    if k == "rv":
        return "&(" + s(t[1]) + ")"
    if k == "case":
        return "case{" + "; ".join(" & ".join(sorted(map(show, c))) + " => " + s(x) for c, x in t[1]) + "}"
    if k == "sum":
        return "Σ[%s≤%s<%s] %s" % (s(t[1]), t[4], s(t[2]), s(t[3]))
    if k == "bv":
        return str(t[1])
    if k == "is":
        return "%s is %s" % (s(t[1]), t[2])
    if k == "cat":
        return "cat(" + " ~ ".join(s(x) for x in t[1]) + ")"
    if k == "clo":
        return "λ" + t[1].rsplit("::", 2)[-2] + "::" + t[1].rsplit("::", 1)[-1]
    return k + "(" + ", ".join(s(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"
