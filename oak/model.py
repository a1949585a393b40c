"""What the standard-library calls used by the analysed crates mean, as term operations."""
from terms import *
import sym
from sym import some, ok, err, tup, rng, NONE, OPT, RES

CF = "core::ops::control_flow::ControlFlow"
M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


PASS = ("MAX", "")


def lookup(name, resolved):
    s = sym.short(name)
    f = M.get(name) or M.get(s)
    if f is None and resolved:
        f = M.get(resolved)
    if f is None:
        tr = s.rsplit("::", 1)[-1]
        if name.startswith("core::iter::traits::iterator::Iterator::"):
            return None
    return f


def full(E, st, v):
    """content behind any number of pointers"""
    n = 0
    while n < 6:
        if v[0] in ("ref", "rv"):
            v = E.deref(st, v)
        else:
            break
        n += 1
    return v


def dd(E, st, v):
    """what a pointer argument points to, as plain content"""
    return E.content(st, E.deref(st, v))


def isv(E, v, adt, name):
    if v[0] == "agg":
        return K(1 if v[2] == name else 0)
    vs = E.variants(adt)
    if vs and len(vs) == 2:
        n = list(vs)
        base = v[1] if v[0] == "upd" else v
        c = ("is", base, n[1])
        return c if name == n[1] else mk_not(c)
    return ("is", v, name)


def eqv(E, st, a, b, d=0):
    a, b = full(E, st, a), full(E, st, b)
    a, b = E.content(st, a), E.content(st, b)
    if a == b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x[0] == "agg" and x[1] not in ("()", "[]", "range", "?") and not x[3] and y[0] != "agg":
            return isv(E, y, x[1], x[2])
    if a[0] == "agg" and b[0] == "agg" and a[1] == b[1]:
        if a[2] != b[2]:
            return FALSE
        if [n for n, _ in a[3]] == [n for n, _ in b[3]] and d < 4:
            r = TRUE
            for (n, x), (_, y) in zip(a[3], b[3]):
                r = E.conj(r, eqv(E, st, x, y, d + 1))
            return r
    return eq(a, b)


# ---------------------------------------------------------------- identity-like
@model("hint::must_use", "intrinsics::likely", "intrinsics::unlikely", "borrow::Cow::into_owned", "str::to_string", "ToOwned::to_owned", "string::String::as_str",
       "str::to_owned", "string::String::into_boxed_str", "[T]::to_vec", "path::Path::to_path_buf", "path::PathBuf::as_path", "Cow::into_owned", "String::as_str",
       "Iterator::by_ref", "Pin::new_unchecked", "IntoFuture::into_future", "String::as_mut_str", "NonZero::get", "NonNull::as_ptr", "NonNull::new_unchecked", "Wrapping::new")
def ident(E, st, fr, a, line, name, res, f):
    v = a[0]
    if name.endswith(("to_owned", "to_vec", "to_string", "to_path_buf", "into_owned")) and v[0] in ("ref", "rv", "arg", "fld", "idx"):
        return [(st, dd(E, st, v))] if v[0] in ("ref", "rv") else [(st, E.content(st, E.deref(st, v)))]
    return [(st, v)]


@model("ToString::to_string")
def to_string(E, st, fr, a, line, name, res, f):
    g = (f or {}).get("g") or []
    ty = g[0] if g else ""
    if ty in ("str", "&str", "alloc::string::String", "&alloc::string::String") or ty.startswith("alloc::borrow::Cow"):
        v = full(E, st, a[0])
        return [(st, plain_str(E, st, v))]
    return [(st, shown(E, st, a[0], ty))]


def plain_str(E, st, v):
    if v[0] == "arg" or v[0] == "fld" and False:
        return E.deref(st, v)
    return v


@model("Clone::clone", "Option::cloned", "Option::copied")
def clone(E, st, fr, a, line, name, res, f):
    if name.endswith(("cloned", "copied")):
        out = []
        for s, n, v in E.split_variant(st, a[0], OPT):
            out.append((s, NONE if n == "None" else some(E.content(s, E.deref(s, fld(as_variant(v, "Some"), "0"))))))
        return out
    if res and res in E.fns and not E.fns[res].get("derived"):
        return None
    return [(st, dd(E, st, a[0]))]


@model("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "Vec::as_slice", "Vec::as_mut_slice")
def deref(E, st, fr, a, line, name, res, f):
    if res and res in E.fns:
        return None
    p = a[0]
    v = E.deref(st, p)
    if v[0] == "agg" and v[1] == "guard":
        return [(st, fld(v, "p"))]
    r = res or ""
    g0 = ((f or {}).get("g") or [""])[0]
    if any(x in r for x in ("Arc as", "Rc as", "Box as", "LazyLock", "OnceLock")) or any(g0.startswith(x) for x in ("alloc::boxed::Box", "alloc::sync::Arc", "triomphe::arc::Arc")):
        if v[0] in ("box",):
            return [(st, E.point(p, "*") if p[0] == "ref" else ("rv", v[1]))]
        if v[0] in ("rv", "ref"):
            return [(st, v)]
        return [(st, v)]
    if "Cow" in r or g0.startswith("alloc::borrow::Cow"):
        if v[0] == "agg":
            x = fld(v, "0")
            return [(st, x if v[2] == "Borrowed" else ("rv", x))]
        return [(st, p)]
    return [(st, p)]


@model("From::from", "Into::into")
def into(E, st, fr, a, line, name, res, f):
    g = (f or {}).get("g") or []
    if res and res in E.fns:
        return None
    dst = src = ""
    if name.endswith("Into::into") and len(g) >= 2:
        src, dst = g[0], g[1]
        for k in E.fns:
            if k.endswith("::from") and k.startswith("<" + dst.split("<")[0] + " as core::convert::From<"):
                inner = k.split("core::convert::From<", 1)[1].rsplit(">>::from", 1)[0]
                if inner.split("<")[0] == src.split("<")[0]:
                    return E.enter(st, fr, E.fns[k], a, line)
    elif len(g) >= 2:
        dst, src = g[0], g[1]
    strs = ("alloc::string::String", "&str", "str", "alloc::sync::Arc<str>", "triomphe::arc::Arc<str>", "std::path::PathBuf", "alloc::boxed::Box<str>", "&alloc::string::String")
    if src == dst and src:
        return [(st, a[0])]
    if src in strs and dst in strs or (dst.startswith(("alloc::sync::Arc<", "triomphe::arc::Arc<", "alloc::boxed::Box<", "alloc::borrow::Cow"))):
        v = a[0]
        if src in ("&str", "&alloc::string::String") and not dst.startswith("alloc::borrow::Cow"):
            v = full(E, st, v)
        return [(st, v)]
    if src in ("u8", "u16", "u32", "char", "bool") and dst in ("u16", "u32", "u64", "usize", "i64", "i32", "char", "f64", "u128"):
        return [(st, a[0])]
    return [(st, ("call", "into", (("str", dst), E.content(st, a[0]))))]


@model("Default::default")
def default(E, st, fr, a, line, name, res, f):
    if res and res in E.fns and E.fns[res].get("bbs"):
        return None
    r = res or ""
    g = ((f or {}).get("g") or [""])[0]
    if "Vec" in r or "VecDeque" in r:
        return [(st, ("vnew",))]
    if "String" in r:
        return [(st, ("str", ""))]
    if "Option" in r:
        return [(st, NONE)]
    if "HashMap" in r or "HashSet" in r or "BTreeMap" in r:
        return [(st, ("hnew",))]
    if r.startswith("<bool") or r.startswith("<usize") or r.startswith("<u") or r.startswith("<i"):
        return [(st, ZERO)]
    return [(st, ("call", "default", (("str", g or r),)))]


def default_of(ty):
    """what `Default` gives for a library type"""
    ty = ty.strip()
    h = ty.split("<", 1)[0].rsplit("::", 1)[-1]
    if h in ("Vec", "VecDeque"):
        return ("vnew",)
    if h == "String" or ty in ("&str", "&'static str", "str"):
        return ("str", "")
    if h == "Option":
        return NONE
    if h in ("HashMap", "HashSet", "BTreeMap", "BTreeSet"):
        return ("hnew",)
    if ty in ("bool", "char") or ty in sym.BITS:
        return ZERO
    return ("call", "default", (("str", ty),))


# ---------------------------------------------------------------- comparison, numbers
@model("PartialEq::eq", "PartialEq::ne")
def peq(E, st, fr, a, line, name, res, f):
    if res and res in E.fns and not E.fns[res].get("derived"):
        rs = E.enter(st, fr, E.fns[res], a, line)
        return [(s, mk_not(v) if v is not None and name.endswith("ne") else v) for s, v in rs]
    c = eqv(E, st, a[0], a[1])
    return [(st, c if name.endswith("eq") else mk_not(c))]


@model("PartialOrd::lt", "PartialOrd::le", "PartialOrd::gt", "PartialOrd::ge")
def pord(E, st, fr, a, line, name, res, f):
    if res and res in E.fns:
        return None
    x, y = (E.content(st, full(E, st, v)) for v in a)
    n = name[-2:]
    return [(st, {"lt": lt(x, y), "le": le(x, y), "gt": lt(y, x), "ge": le(y, x)}[n])]


@model("Ord::cmp", "PartialOrd::partial_cmp", "f64::total_cmp")
def pcmp(E, st, fr, a, line, name, res, f):
    if res and res in E.fns and not E.fns[res].get("derived"):
        return None
    x, y = (E.content(st, full(E, st, v)) for v in a)
    r = ("cmp3", x, y)
    return [(st, some(r) if "partial" in name else r)]


@model("Ord::min", "cmp::min", "Ord::max", "cmp::max")
def pmin(E, st, fr, a, line, name, res, f):
    return [(st, (mk_min if name.endswith("min") else mk_max)(a[0], a[1]))]


@model("usize::saturating_sub", "u32::saturating_sub", "u64::saturating_sub", "u8::saturating_sub", "u16::saturating_sub")
def ssub(E, st, fr, a, line, name, res, f):
    v = E.value_of(st, lt(a[0], a[1]))
    if v is False:
        return [(st, sub(a[0], a[1]))]
    return [(st, max0(sub(a[0], a[1])))]


@model("usize::saturating_add", "u32::saturating_add", "usize::wrapping_add", "u32::wrapping_add", "u64::wrapping_add", "usize::unchecked_add", "u8::saturating_add")
def sadd(E, st, fr, a, line, name, res, f):
    return [(st, add(a[0], a[1]))]


@model("usize::wrapping_sub", "u32::wrapping_sub")
def wsub(E, st, fr, a, line, name, res, f):
    return [(st, sub(a[0], a[1]))]


@model("usize::checked_add", "u32::checked_add")
def cadd(E, st, fr, a, line, name, res, f):
    return [(st, some(add(a[0], a[1])))]


@model("usize::checked_sub", "u32::checked_sub")
def csub(E, st, fr, a, line, name, res, f):
    return [(s, NONE if b else some(sub(a[0], a[1]))) for s, b in E.branch(st, lt(a[0], a[1]))]


@model("Add::add", "Sub::sub")
def ops_add(E, st, fr, a, line, name, res, f):
    if res and res in E.fns:
        return None
    if res and ("String" in res):
        return [(st, cat(E, st, a[0], a[1]))]
    x, y = (full(E, st, v) for v in a)
    return [(st, add(x, y) if name.endswith("add") else sub(x, y))]


@model("AddAssign::add_assign", "SubAssign::sub_assign")
def ops_adda(E, st, fr, a, line, name, res, f):
    if res and res in E.fns:
        return None
    st = st.copy()
    o = E.deref(st, a[0])
    if res and "String" in res:
        E.store(st, a[0], cat(E, st, o, a[1]))
    else:
        x = full(E, st, a[1])
        E.store(st, a[0], add(o, x) if name.endswith("add_assign") else sub(o, x))
    return [(st, UNIT)]


@model("Not::not")
def ops_not(E, st, fr, a, line, name, res, f):
    if res and (res in E.fns or "Mask" in res):
        return None
    return [(st, mk_not(full(E, st, a[0])))]


# ---------------------------------------------------------------- Option / Result
def opt(E, st, v, fs, fn_):
    """split an Option value: fs(state, payload), fn_(state)"""
    out = []
    for s, n, x in E.split_variant(st, v, OPT):
        out += fs(s, fld(as_variant(x, "Some"), "0")) if n == "Some" else fn_(s)
    return out


def resl(E, st, v, fo, fe):
    out = []
    for s, n, x in E.split_variant(st, v, RES):
        out += fo(s, fld(as_variant(x, "Ok"), "0")) if n == "Ok" else fe(s, fld(as_variant(x, "Err"), "0"))
    return out


def moved_on(st, s):
    """anything but the path condition (and finished frames) differs"""
    return s.events != st.events or len(s.loops) != len(st.loops) or any(s.mem.get(k) != v for k, v in st.mem.items()) or any(k not in st.mem and k[0] != "L" for k in s.mem)


def joined(st, outs):
    """two outcomes that differ in nothing but the value become one, with a value by cases"""
    if len(outs) < 2 or len(outs) > 3:
        return outs
    n = len(st.conds)
    alts = []
    for s, r in outs:
        if r is None or r[0] in ("ref", "rv", "agg", "clo", "case") or moved_on(st, s) or len(s.conds) != n + 1 or s.conds[:n] != st.conds:
            return outs
        c, t = s.conds[n]
        alts.append((frozenset([c if t else mk_not(c)]), r))
    return [(st, mk_case(alts))]


def one(v):
    return lambda s, *x: [(s, v(*x) if callable(v) else v)]


def app(E, fr, fv, args, line, wrap=lambda v: v):
    def g(s, *x):
        return [(s2, wrap(r) if r is not None else None) for s2, r in E.call_value(s, fr, fv, list(x) if args is None else args(*x), line)]
    return g


@model("Option::map")
def o_map(E, st, fr, a, line, *z):
    return opt(E, st, a[0], app(E, fr, a[1], None, line, some), one(NONE))


@model("Option::and_then")
def o_and_then(E, st, fr, a, line, *z):
    return opt(E, st, a[0], app(E, fr, a[1], None, line), one(NONE))


@model("Option::filter")
def o_filter(E, st, fr, a, line, *z):
    def f(s, x):
        out = []
        for s2, r in E.call_value(s, fr, a[1], [("rv", x)], line):
            if r is None:
                out.append((s2, None))
                continue
            for s3, b in E.branch(s2, E.as_cond(r)):
                out.append((s3, some(x) if b else NONE))
        return out
    return opt(E, st, a[0], f, one(NONE))


@model("Option::map_or")
def o_map_or(E, st, fr, a, line, *z):
    return joined(st, opt(E, st, a[0], app(E, fr, a[2], None, line), one(a[1])))


@model("Option::map_or_else")
def o_map_or_else(E, st, fr, a, line, *z):
    return joined(st, opt(E, st, a[0], app(E, fr, a[2], None, line), app(E, fr, a[1], None, line)))


@model("Option::is_some_and")
def o_isa(E, st, fr, a, line, *z):
    return opt(E, st, a[0], app(E, fr, a[1], None, line), one(FALSE))


@model("Option::is_none_or")
def o_ino(E, st, fr, a, line, *z):
    return opt(E, st, a[0], app(E, fr, a[1], None, line), one(TRUE))


@model("Option::unwrap_or")
def o_unwrap_or(E, st, fr, a, line, *z):
    return joined(st, opt(E, st, a[0], one(lambda x: x), one(a[1])))


@model("Option::unwrap_or_else")
def o_unwrap_or_else(E, st, fr, a, line, *z):
    return joined(st, opt(E, st, a[0], one(lambda x: x), app(E, fr, a[1], None, line)))


@model("Option::unwrap_or_default")
def o_uod(E, st, fr, a, line, name, res, f):
    return joined(st, opt(E, st, a[0], one(lambda x: x), one(default_of(((f or {}).get("g") or [""])[0]))))


@model("Option::or")
def o_or(E, st, fr, a, line, *z):
    return opt(E, st, a[0], one(some), one(a[1]))


@model("Option::or_else")
def o_or_else(E, st, fr, a, line, *z):
    return opt(E, st, a[0], one(some), app(E, fr, a[1], None, line))


@model("Option::ok_or")
def o_ok_or(E, st, fr, a, line, *z):
    return opt(E, st, a[0], one(ok), one(err(a[1])))


@model("Option::ok_or_else")
def o_ok_or_else(E, st, fr, a, line, *z):
    return opt(E, st, a[0], one(ok), app(E, fr, a[1], None, line, err))


@model("Option::unwrap", "Option::expect")
def o_unwrap(E, st, fr, a, line, *z):
    return opt(E, st, a[0], one(lambda x: x), lambda s: [(s.copy(), None)])


@model("Option::is_some", "Option::is_none")
def o_is(E, st, fr, a, line, name, *z):
    v = full(E, st, a[0])
    c = isv(E, v, OPT, "Some") if v[0] != "case" else None
    if c is None:
        return [(s, K(1 if n == "Some" else 0) if name.endswith("some") else K(0 if n == "Some" else 1)) for s, n, _ in E.split_variant(st, v, OPT)]
    return [(st, c if name.endswith("some") else mk_not(c))]


@model("Mask::all", "Mask::any")
def mask_all(E, st, fr, a, line, name, res, f):
    """all: none is unset; any: there is a first one set"""
    res = res or name
    if not res.startswith("core::core_simd::masks::Mask::"):
        return None
    m, pre = full(E, st, a[0]), res.rsplit("::", 1)[0]
    if name.endswith("all"):
        m = ("call", "<%s as core::ops::bit::Not>::not" % pre, (m,))
    c = isv(E, ("call", pre + "::first_set", (m,)), OPT, "Some")
    return None if c is None else [(st, mk_not(c) if name.endswith("all") else c)]


@model("Option::as_ref", "Option::as_mut")
def o_as_ref(E, st, fr, a, line, name, *z):
    p = a[0]
    v = E.deref(st, p)
    return opt(E, st, v, lambda s, x: [(s, some(E.point(p, "@Some", ".0")))], one(NONE))


@model("Option::as_deref", "Option::as_deref_mut")
def o_as_deref(E, st, fr, a, line, name, *z):
    p = a[0]
    v = E.deref(st, p)
    return opt(E, st, v, lambda s, x: [(s, some(x[1] and E.point(p, "@Some", ".0") if x[0] != "box" else ("rv", x[1])))], one(NONE))


@model("Option::take")
def o_take(E, st, fr, a, line, *z):
    st = st.copy()
    v = E.deref(st, a[0])
    E.store(st, a[0], NONE)
    return [(st, v)]


@model("Option::insert", "Option::replace")
def o_insert(E, st, fr, a, line, name, *z):
    st = st.copy()
    v = E.deref(st, a[0])
    E.store(st, a[0], some(a[1]))
    return [(st, v if name.endswith("replace") else E.point(a[0], "@Some", ".0"))]


@model("Option::get_or_insert_with")
def o_goiw(E, st, fr, a, line, *z):
    p = a[0]
    v = E.deref(st, p)

    def none(s):
        out = []
        for s2, r in E.call_value(s, fr, a[1], [], line):
            if r is None:
                out.append((s2, None))
            else:
                s2 = s2.copy()
                E.store(s2, p, some(r))
                out.append((s2, E.point(p, "@Some", ".0")))
        return out
    return opt(E, st, v, lambda s, x: [(s, E.point(p, "@Some", ".0"))], none)


@model("Option::get_or_insert")
def o_goi(E, st, fr, a, line, *z):
    p = a[0]

    def none(s):
        s = s.copy()
        E.store(s, p, some(a[1]))
        return [(s, E.point(p, "@Some", ".0"))]
    return opt(E, st, E.deref(st, p), lambda s, x: [(s, E.point(p, "@Some", ".0"))], none)


@model("Option::zip")
def o_zip(E, st, fr, a, line, *z):
    return opt(E, st, a[0], lambda s, x: opt(E, s, a[1], one(lambda y: some(tup(x, y))), one(NONE)), one(NONE))


@model("Result::ok")
def r_ok(E, st, fr, a, line, *z):
    return resl(E, st, a[0], one(some), one(lambda e: NONE))


@model("Result::err")
def r_err(E, st, fr, a, line, *z):
    return resl(E, st, a[0], one(lambda x: NONE), one(some))


@model("Result::map")
def r_map(E, st, fr, a, line, *z):
    return resl(E, st, a[0], app(E, fr, a[1], None, line, ok), one(err))


@model("Result::map_err")
def r_map_err(E, st, fr, a, line, *z):
    return resl(E, st, a[0], one(ok), app(E, fr, a[1], None, line, err))


@model("Result::and_then")
def r_and_then(E, st, fr, a, line, *z):
    return resl(E, st, a[0], app(E, fr, a[1], None, line), one(err))


@model("Result::unwrap_or_else")
def r_uoe(E, st, fr, a, line, *z):
    return joined(st, resl(E, st, a[0], one(lambda x: x), app(E, fr, a[1], None, line)))


@model("Result::unwrap_or")
def r_uo(E, st, fr, a, line, *z):
    return joined(st, resl(E, st, a[0], one(lambda x: x), one(lambda e: a[1])))


@model("Result::unwrap_or_default")
def r_uod(E, st, fr, a, line, name, res, f):
    return joined(st, resl(E, st, a[0], one(lambda x: x), one(lambda e: default_of(((f or {}).get("g") or [""])[0]))))


@model("Result::unwrap", "Result::expect")
def r_unwrap(E, st, fr, a, line, *z):
    return resl(E, st, a[0], one(lambda x: x), lambda s, e: [(s.copy(), None)])


@model("Result::is_ok", "Result::is_err")
def r_is(E, st, fr, a, line, name, *z):
    v = full(E, st, a[0])
    if v[0] == "case":
        return [(s, K(1 if (n == "Ok") == name.endswith("ok") else 0)) for s, n, _ in E.split_variant(st, v, RES)]
    c = isv(E, v, RES, "Err")
    return [(st, c if name.endswith("err") else mk_not(c))]


@model("Result::as_ref", "Result::as_mut")
def r_as_ref(E, st, fr, a, line, *z):
    p = a[0]
    return resl(E, st, E.deref(st, p), lambda s, x: [(s, ok(E.point(p, "@Ok", ".0")))], lambda s, x: [(s, err(E.point(p, "@Err", ".0")))])


def cf(v, x):
    return ("agg", CF, v, (("0", x),))


@model("Try::branch")
def t_branch(E, st, fr, a, line, name, res, f):
    r = res or ""
    if "Option" in r:
        return opt(E, st, a[0], one(lambda x: cf("Continue", x)), one(cf("Break", NONE)))
    if "Result" in r:
        return resl(E, st, a[0], one(lambda x: cf("Continue", x)), one(lambda e: cf("Break", err(e))))
    return None


@model("FromResidual::from_residual")
def t_res(E, st, fr, a, line, name, res, f):
    return [(st, a[0])]


# ---------------------------------------------------------------- memory
@model("Box::new", "Arc::new", "Rc::new", "Pin::new", "Box::pin")
def box(E, st, fr, a, line, *z):
    return [(st, ("box", a[0]))]


@model("mem::replace")
def replace(E, st, fr, a, line, *z):
    st = st.copy()
    o = E.deref(st, a[0])
    E.store(st, a[0], a[1])
    return [(st, o)]


@model("mem::take")
def take(E, st, fr, a, line, name, res, f):
    st = st.copy()
    o = E.deref(st, a[0])
    g = ((f or {}).get("g") or [""])[0]
    d = ("vnew",) if "Vec" in g else NONE if "Option" in g else ("str", "") if "String" in g else ("hnew",) if "Map" in g or "Set" in g else ZERO if g in sym.BITS else ("call", "default", (("str", g),))
    E.store(st, a[0], d)
    return [(st, o)]


@model("mem::swap")
def swap(E, st, fr, a, line, *z):
    st = st.copy()
    x, y = E.deref(st, a[0]), E.deref(st, a[1])
    E.store(st, a[0], y)
    E.store(st, a[1], x)
    return [(st, UNIT)]


@model("mem::drop", "mem::forget")
def mdrop(E, st, fr, a, line, name, *z):
    st = st.copy()
    st.events = st.events + (sym.Event(name, (E.content(st, a[0]),), UNIT, line, fr.fn["key"], len(st.conds)),)
    return [(st, UNIT)]


@model("ptr::eq")
def ptreq(E, st, fr, a, line, *z):
    return [(st, ("eq",) + tuple(sorted((("ptr", a[0]), ("ptr", a[1])), key=okey)) if a[0] != a[1] else TRUE)]


@model("Cell::get")
def cellget(E, st, fr, a, line, *z):
    return [(st, E.deref(st, E.point(a[0], ".value")))]


@model("Cell::set")
def cellset(E, st, fr, a, line, *z):
    st = st.copy()
    E.store(st, E.point(a[0], ".value"), a[1])
    return [(st, UNIT)]


@model("UnsafeCell::get")
def ucget(E, st, fr, a, line, *z):
    return [(st, E.point(a[0], ".value"))]


@model("UnsafeCell::new", "Cell::new", "RefCell::new", "Mutex::new", "RwLock::new")
def cellnew(E, st, fr, a, line, name, *z):
    return [(st, ("agg", sym.short(name).split("::")[0], "", (("value", a[0]),)))]


@model("RefCell::borrow", "RefCell::borrow_mut", "Mutex::lock", "RwLock::read", "RwLock::write", "RwLock::upgradable_read")
def lock(E, st, fr, a, line, name, *z):
    st = st.copy()
    p = E.point(a[0], ".value")
    g = ("agg", "guard", "", (("p", p), ("kind", ("str", sym.short(name)))))
    st.events = st.events + (sym.Event("lock:" + sym.short(name), (lockname(E, st, a[0]),), g, line, fr.fn["key"], len(st.conds)),)
    return [(st, ok(g) if "std::sync" in name else g)]


def lockname(E, st, p):
    if p[0] == "ref":
        return ("ptr", p)
    return ("ptr", p)


# ---------------------------------------------------------------- sequences
def seqlen(E, st, p):
    v = E.deref(st, p)
    if v[0] in ("ref", "rv"):
        v = full(E, st, v)
    return length(v)


@model("[T]::len", "Vec::len", "str::len", "String::len", "ExactSizeIterator::len", "VecDeque::len")
def slen(E, st, fr, a, line, name, res, f):
    v = E.deref(st, a[0])
    if v[0] == "agg" and v[1].startswith("it."):
        return [(st, sub(fld(v, "end"), fld(v, "pos")))] if fld(v, "end")[0] != "fld" else None
    return [(st, seqlen(E, st, a[0]))]


@model("[T]::is_empty", "Vec::is_empty", "str::is_empty", "String::is_empty", "VecDeque::is_empty")
def sempty(E, st, fr, a, line, *z):
    n = seqlen(E, st, a[0])
    return [(st, E.int_eq(n, ZERO, "usize"))]


@model("Vec::new", "Vec::with_capacity", "VecDeque::new")
def vnew(E, st, fr, a, line, *z):
    return [(st, ("vnew",))]


@model("Vec::reserve", "Vec::reserve_exact", "Vec::shrink_to_fit", "VecDeque::reserve", "VecDeque::shrink_to_fit", "String::reserve", "String::reserve_exact",
       "String::shrink_to_fit", "HashMap::reserve", "HashMap::shrink_to_fit", "HashSet::reserve", "HashSet::shrink_to_fit")
def room(E, st, fr, a, line, *z):
    """only the capacity changes"""
    return [(st, UNIT)]


@model("String::new", "String::with_capacity")
def strnew(E, st, fr, a, line, *z):
    return [(st, ("str", ""))]


@model("Vec::push", "VecDeque::push_back")
def vpush(E, st, fr, a, line, *z):
    st = st.copy()
    E.store(st, a[0], ("vpush", E.deref(st, a[0]), E.content(st, a[1]) if a[1][0] in ("ref",) and a[1][1][0] in ("L",) else a[1]))
    return [(st, UNIT)]


@model("Vec::pop")
def vpop(E, st, fr, a, line, *z):
    v = E.deref(st, a[0])
    out = []
    for s, b in E.branch(st, E.int_eq(length(v), ZERO, "usize")):
        if b:
            out.append((s, NONE))
        else:
            s = s.copy()
            x = idx(v, sub(length(v), ONE))
            E.store(s, a[0], v[1] if v[0] == "vpush" else ("vpop", v))
            out.append((s, some(x)))
    return out


@model("Vec::truncate")
def vtrunc(E, st, fr, a, line, *z):
    st = st.copy()
    v = E.deref(st, a[0])
    E.store(st, a[0], mk_trunc(v, a[1]))
    return [(st, UNIT)]


def mk_trunc(v, n):
    while v[0] == "vpush":
        d = sub(length(v[1]), n)
        if nonneg(d):
            v = v[1]
        else:
            break
    if v[0] == "vtrunc":
        return ("vtrunc", v[1], mk_min(v[2], n))
    if length(v) == n:
        return v
    if n == ZERO:
        return ("vnew",)
    return ("vtrunc", v, n)


@model("Vec::clear", "String::clear", "HashMap::clear", "HashSet::clear")
def vclear(E, st, fr, a, line, name, *z):
    st = st.copy()
    E.store(st, a[0], ("str", "") if "String" in name else ("hnew",) if "Hash" in name else ("vnew",))
    return [(st, UNIT)]


def vcat(a, b):
    if b[0] == "vnew":
        return a
    if a[0] == "vnew":
        return b
    if b[0] == "agg" and b[1] == "[]":
        for _, x in b[3]:
            a = ("vpush", a, x)
        return a
    return ("vcat", a, b)


@model("Vec::extend_from_slice")
def vext(E, st, fr, a, line, *z):
    st = st.copy()
    E.store(st, a[0], vcat(E.deref(st, a[0]), E.content(st, E.deref(st, a[1]))))
    return [(st, UNIT)]


@model("Box::new_uninit")
def newuninit(E, st, fr, a, line, *z):
    st = st.copy()
    root = ("T", ("uninit", E.fresh_id()))
    hole = ("unk", "?")
    st.mem[root] = ("agg", "MaybeUninit", "MaybeUninit", (("value", ("agg", "ManuallyDrop", "ManuallyDrop", (("value", hole),))),))
    return [(st, ("ref", root, ()))]


@model("box_assume_init_into_vec_unsafe", "boxed::box_assume_init_into_vec_unsafe", "slice::into_vec", "[T]::into_vec")
def intovec(E, st, fr, a, line, *z):
    v = a[0]
    if v[0] == "ref" and v[1][0] == "T" and v[1][1][0] == "uninit":
        v = fld(fld(E.deref(st, v), "value"), "value")
    while v[0] in ("box", "rv"):
        v = v[1]
    if v[0] == "agg" and v[1] == "[]":
        r = ("vnew",)
        for _, x in v[3]:
            r = ("vpush", r, x)
        return [(st, r)]
    return None


def rbounds(E, st, r, v):
    """(lo, hi) of an index expression that is a range, or None"""
    if r[0] == "agg":
        n = r[1]
        if n == "range":
            return fld(r, "start"), fld(r, "end")
        if n.endswith("RangeFrom"):
            return fld(r, "start"), length(v)
        if n.endswith("RangeTo"):
            return ZERO, fld(r, "end")
        if n.endswith("RangeFull"):
            return ZERO, length(v)
        if n.endswith("RangeInclusive"):
            return fld(r, "start"), add(fld(r, "end") if fld(r, "end")[0] != "fld" else fld(r, "last"), ONE)
        if n.endswith("RangeToInclusive"):
            return ZERO, add(fld(r, "end"), ONE)
    return None


@model("RangeInclusive::new")
def rincl(E, st, fr, a, line, *z):
    return [(st, ("agg", "core::ops::range::RangeInclusive", "", (("start", a[0]), ("end", a[1]))))]


def mk_slice(v, lo, hi):
    if lo == ZERO and hi == length(v):
        return v
    if v[0] == "slice":
        return ("slice", v[1], add(v[2], lo), add(v[2], hi))
    if v[0] == "str" and is_k(lo) and is_k(hi):
        try:
            return ("str", v[1].encode()[lo[1]:hi[1]].decode())
        except Exception:
            pass
    return ("slice", v, lo, hi)


@model("Index::index", "IndexMut::index_mut", "[T]::get_unchecked", "str::get_unchecked", "[T]::get_unchecked_mut")
def index(E, st, fr, a, line, name, res, f):
    if res and res in E.fns:
        return None
    p, i = a
    if res and ("HashMap" in res or "Map as" in res):
        return None
    v = full(E, st, E.deref(st, p))
    if v[0] == "agg" and v[1] == "guard":
        return None
    if i[0] == "agg":
        b = rbounds(E, st, i, v)
        if b is None:
            return None
        return [(st, ("rv", mk_slice(E.content(st, v), *b)))]
    g = (f or {}).get("g") or []
    if any("Range" in x for x in g):
        lo, hi = fld(i, "start"), fld(i, "end")
        gg = " ".join(g)
        if "RangeFrom" in gg or "RangeTo" in gg or "Inclusive" in gg or "RangeFull" in gg:
            return None
        return [(st, ("rv", mk_slice(E.content(st, v), lo, hi)))]
    if "unchecked" not in name:
        s = E.assume(st, lt(i, length(v)), True)
        if s is not None:
            st = s
    q = p
    n = 0
    while E.deref(st, q)[0] in ("ref", "rv") and n < 4:
        q = E.deref(st, q)
        n += 1
    return [(st, E.point(q, ("pidx", i)))]


@model("[T]::get", "str::get", "[T]::get_mut", "Vec::get")
def sget(E, st, fr, a, line, name, res, f):
    p, i = a
    v = full(E, st, E.deref(st, p))
    if i[0] == "agg":
        b = rbounds(E, st, i, v)
        if b is None:
            return None
        lo, hi = b
        if "str" in name:
            c = ("validrange", E.content(st, v), lo, hi)
            return [(s, some(("rv", mk_slice(E.content(s, v), lo, hi))) if t else NONE) for s, t in E.branch(st, ("true", c))]
        out = []
        for s, t in E.branch(st, E.conj(le(lo, hi), le(hi, length(v)))):
            out.append((s, some(("rv", mk_slice(E.content(s, v), lo, hi))) if t else NONE))
        return out
    g = (f or {}).get("g") or []
    if any("Range" in x for x in g) or "str" in name:
        c = ("validrange", E.content(st, v), i)
        return [(s, some(("rv", ("op", "slice", E.content(s, v), i))) if t else NONE) for s, t in E.branch(st, ("true", c))]
    return [(s, some(E.point(p, ("pidx", i))) if t else NONE) for s, t in E.branch(st, lt(i, length(v)))]


@model("[T]::first", "[T]::last", "[T]::last_mut", "[T]::first_mut")
def sfirst(E, st, fr, a, line, name, *z):
    p = a[0]
    v = full(E, st, E.deref(st, p))
    n = length(v)
    i = ZERO if "first" in name else sub(n, ONE)
    return [(s, NONE if t else some(E.point(p, ("pidx", i)))) for s, t in E.branch(st, E.int_eq(n, ZERO, "usize"))]


@model("str::as_bytes", "String::as_bytes", "str::as_ptr", "[T]::as_ptr", "String::as_mut_vec")
def asbytes(E, st, fr, a, line, *z):
    return [(st, a[0])]


# ---------------------------------------------------------------- strings
def text(E, st, x):
    """the text a string value or any pointer to it denotes"""
    x = E.content(st, full(E, st, x))
    n = 0
    while n < 8:
        if x[0] == "arg" or x[0] in ("fld", "idx", "lv", "call"):
            y = E.content(st, E.deref(st, x))
            if y == ("*", x):
                break
            x = y
        elif x[0] == "rv":
            x = x[1]
        elif x[0] == "*":
            x = x[1]
        elif x[0] == "box":
            x = x[1]
        else:
            break
        n += 1
    return x


cat2 = cat_terms


def cat(E, st, s, x):
    while s[0] == "*" and s[1][0] in ("fld",):
        s = s[1]
    return cat2(s, text(E, st, x))


# ---------------------------------------------------------------- formatting
STRS = ("str", "alloc::string::String", "alloc::borrow::Cow", "alloc::boxed::Box<str>", "alloc::sync::Arc<str>", "triomphe::arc::Arc<str>", "oak_core::source::arc_str")
INTS = ("usize", "isize", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "u128", "i128")


def strip_ty(ty):
    ty = ty.strip()
    while ty.startswith("&"):
        ty = ty[1:].lstrip()
        ty = ty[4:] if ty.startswith("mut ") else ty
        if ty.startswith("'"):
            ty = ty.split(" ", 1)[1] if " " in ty else ty
    return ty


def shown(E, st, x, ty, spec="d"):
    """text of a value printed with Display (d) or another formatter"""
    ty = strip_ty(ty)
    if spec == "d":
        if ty.startswith(STRS):
            return text(E, st, x)
        v = text(E, st, x)
        if ty == "char":
            return ("str", chr(v[1])) if v[0] == "k" else ("call", "char", (v,))
        if ty in INTS and is_k(v):
            return ("str", str(v[1]))
        if ty == "bool" and is_k(v):
            return ("str", "true" if v[1] else "false")
        if ty == "bool":
            return ("display", "bool", v)
        if v[0] in ("cat", "str"):
            return v
        return ("display", "d", v)
    return ("display", spec, text(E, st, x))


@model("Argument::new_display", "Argument::new_debug", "Argument::new_lower_hex", "Argument::new_upper_hex", "Argument::new_octal", "Argument::new_binary",
       "Argument::new_lower_exp", "Argument::new_upper_exp", "Argument::new_pointer", "Argument::from_usize")
def fmtarg(E, st, fr, a, line, name, res, f):
    kind = {"new_display": "d", "new_debug": "?", "new_lower_hex": "x", "new_upper_hex": "X", "new_octal": "o", "new_binary": "b", "from_usize": "n"}.get(name.rsplit("::", 1)[-1], name.rsplit("::", 1)[-1])
    ty = ((f or {}).get("g") or [""])[0]
    return [(st, ("agg", "fmtarg", "", (("kind", ("str", kind)), ("v", shown(E, st, a[0], ty, kind)), ("raw", text(E, st, a[0])))))]


@model("Arguments::new", "Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_const")
def fmtargs(E, st, fr, a, line, name, res, f):
    if "from_str" in name:
        return [(st, ("agg", "fmtargs", "", (("text", text(E, st, a[0])),)))]
    tpl = E.content(st, full(E, st, a[0]))
    args = E.content(st, full(E, st, a[1])) if len(a) > 1 else ("agg", "[]", "", ())
    if tpl[0] != "agg" or not all(x[0] == "k" for _, x in tpl[3]) or args[0] != "agg":
        return None
    b = [x[1] for _, x in tpl[3]]
    av = [x for _, x in args[3]]
    out = ("str", "")
    i = n = 0
    while i < len(b) and b[i] != 0:
        c = b[i]
        i += 1
        if c < 0x80:
            out = cat2(out, ("str", bytes(b[i:i + c]).decode("utf-8", "replace")))
            i += c
        elif c == 0x80:
            k = b[i] | b[i + 1] << 8
            i += 2
            out = cat2(out, ("str", bytes(b[i:i + k]).decode("utf-8", "replace")))
            i += k
        else:
            opts = []
            def u16():
                nonlocal i
                r = b[i] | b[i + 1] << 8
                i += 2
                return r
            if c & 1:
                fl = b[i] | b[i + 1] << 8 | b[i + 2] << 16 | b[i + 3] << 24
                i += 4
                opts.append("f%x" % fl)
            extra = []
            if c & 2:
                w = u16()
                if c & 16:
                    extra.append(("w", w))
                    opts.append("w*")
                else:
                    opts.append("w%d" % w)
            if c & 4:
                w = u16()
                if c & 32:
                    extra.append(("p", w))
                    opts.append("p*")
                else:
                    opts.append("p%d" % w)
            if c & 8:
                n = u16()
            if n >= len(av) or av[n][0] != "agg":
                return None
            ag = av[n]
            n += 1
            kind = fld(ag, "kind")[1]
            if not opts:
                out = cat2(out, fld(ag, "v"))
            else:
                xs = tuple(fld(av[w], "raw") if w < len(av) else ("unk", "?") for _, w in extra)
                out = cat2(out, ("display", kind + ":" + ",".join(opts), fld(ag, "raw")) + xs)
    return [(st, ("agg", "fmtargs", "", (("text", out),)))]


def args_text(v):
    if v[0] == "agg" and v[1] == "fmtargs":
        return fld(v, "text")
    return ("call", "text_of", (v,))


@model("fmt::format", "alloc::fmt::format")
def fmt_format(E, st, fr, a, line, *z):
    return [(st, args_text(full(E, st, a[0])))]


@model("Formatter::write_fmt", "fmt::Write::write_fmt", "core::fmt::Write::write_fmt", "core::fmt::Formatter::write_fmt")
def write_fmt(E, st, fr, a, line, name, res, f):
    st = st.copy()
    E.store(st, a[0], cat2(E.deref(st, a[0]), args_text(full(E, st, a[1]))))
    return [(st, ok(UNIT))]


@model("Formatter::write_str", "core::fmt::Formatter::write_str", "core::fmt::Write::write_str", "Formatter::pad")
def write_str(E, st, fr, a, line, name, res, f):
    st = st.copy()
    E.store(st, a[0], cat(E, st, E.deref(st, a[0]), a[1]))
    return [(st, ok(UNIT))]


@model("Formatter::write_char", "core::fmt::Write::write_char")
def write_char(E, st, fr, a, line, name, res, f):
    st = st.copy()
    x = a[1]
    E.store(st, a[0], cat2(E.deref(st, a[0]), ("str", chr(x[1])) if x[0] == "k" else ("call", "char", (x,))))
    return [(st, ok(UNIT))]


@model("core::fmt::Display::fmt", "core::fmt::Debug::fmt", "Display::fmt", "Debug::fmt")
def display_fmt(E, st, fr, a, line, name, res, f):
    if res and res in E.fns and E.fns[res].get("bbs"):
        return None
    ty = ((f or {}).get("g") or [""])[0]
    st = st.copy()
    E.store(st, a[1], cat2(E.deref(st, a[1]), shown(E, st, a[0], ty, "d" if "Display" in name else "?")))
    return [(st, ok(UNIT))]


@model("String::push_str")
def push_str(E, st, fr, a, line, *z):
    st = st.copy()
    E.store(st, a[0], cat(E, st, E.deref(st, a[0]), a[1]))
    return [(st, UNIT)]


@model("String::push")
def push_ch(E, st, fr, a, line, *z):
    st = st.copy()
    x = a[1]
    x = ("str", chr(x[1])) if x[0] == "k" else ("call", "char", (x,))
    E.store(st, a[0], cat(E, st, E.deref(st, a[0]), x))
    return [(st, UNIT)]


# ---------------------------------------------------------------- maps
def key_of(E, st, k):
    return E.content(st, full(E, st, k))


def hget(m, k):
    if m[0] == "hnew":
        return NONE
    if m[0] == "hins":
        if m[2] == k:
            return some(m[3])
        if k[0] in ("k", "str") and m[2][0] == k[0]:
            return hget(m[1], k)
    if m[0] == "hdel":
        if m[2] == k:
            return NONE
        if k[0] in ("k", "str") and m[2][0] == k[0]:
            return hget(m[1], k)
    return ("hget", m, k)


_proj = sym.Engine.proj
_update = sym.Engine.update


def proj2(self, st, v, projs):
    for i, e in enumerate(projs):
        if isinstance(e, tuple) and e[0] == "pkey":
            v = _proj(self, st, v, projs[:i])
            return proj2(self, st, fld(as_variant(hget(v, e[1]), "Some"), "0"), projs[i + 1:])
    return _proj(self, st, v, projs)


def update2(self, st, v, projs, x):
    if projs and isinstance(projs[0], tuple) and projs[0][0] == "pkey":
        cur = fld(as_variant(hget(v, projs[0][1]), "Some"), "0")
        return mk_hins(v, projs[0][1], self.update(st, cur, projs[1:], x))
    return _update(self, st, v, projs, x)


def mk_hins(m, k, x):
    if m[0] == "hins" and m[2] == k or m[0] == "hdel" and m[2] == k:
        m = m[1]
    return ("hins", m, k, x)


sym.Engine.proj = proj2
sym.Engine.update = update2


@model("HashMap::new", "HashMap::with_capacity", "HashSet::new", "DashMap::new", "BTreeMap::new", "BTreeSet::new", "HashSet::with_capacity")
def hnew(E, st, fr, a, line, *z):
    return [(st, ("hnew",))]


@model("HashMap::get", "DashMap::get", "HashMap::get_mut", "DashMap::get_mut", "BTreeMap::get", "BTreeMap::get_mut")
def hm_get(E, st, fr, a, line, name, *z):
    m = E.deref(st, a[0])
    k = key_of(E, st, a[1])
    r = hget(m, k)
    g = lambda p: ("agg", "guard", "", (("p", p), ("kind", ("str", "dash"))))
    if r[0] == "agg":
        if r[2] == "None":
            return [(st, NONE)]
        p = E.point(a[0], ("pkey", k))
        return [(st, some(g(p) if "DashMap" in name else p))]
    out = []
    for s, b in E.branch(st, ("is", r, "Some")):
        p = E.point(a[0], ("pkey", k))
        out.append((s, some(g(p) if "DashMap" in name else p) if b else NONE))
    return out


@model("Ref::value", "RefMut::value", "RefMut::value_mut", "RefMulti::value", "RefMulti::key", "RefMulti::pair")
def dref(E, st, fr, a, line, name, *z):
    v = E.deref(st, a[0])
    if "RefMulti" in name:
        if v[0] == "idx" and v[1][0] == "call" and v[1][1] == "DashMap::iter":
            k, w = fld(v, "0"), fld(v, "1")
            return [(st, w if name.endswith("value") else k if name.endswith("key") else tup(k, w))]
        return None
    if v[0] == "agg" and v[1] == "guard":
        return [(st, fld(v, "p"))]
    return None


@model("HashMap::contains_key", "DashMap::contains_key", "HashSet::contains", "BTreeMap::contains_key", "BTreeSet::contains")
def hm_has(E, st, fr, a, line, *z):
    r = hget(E.deref(st, a[0]), key_of(E, st, a[1]))
    if r[0] == "agg":
        return [(st, K(1 if r[2] == "Some" else 0))]
    return [(st, ("is", r, "Some"))]


@model("HashMap::insert", "DashMap::insert", "HashSet::insert", "BTreeMap::insert", "BTreeSet::insert")
def hm_ins(E, st, fr, a, line, name, *z):
    st = st.copy()
    m = E.deref(st, a[0])
    k = key_of(E, st, a[1])
    r = hget(m, k)
    E.store(st, a[0], mk_hins(m, k, a[2] if len(a) > 2 else UNIT))
    if "Set" in name:
        if r[0] == "agg":
            return [(st, K(0 if r[2] == "Some" else 1))]
        return [(st, mk_not(("is", r, "Some")))]
    return [(st, r)]


@model("HashMap::remove", "DashMap::remove", "HashSet::remove", "BTreeMap::remove")
def hm_rem(E, st, fr, a, line, name, *z):
    st = st.copy()
    m = E.deref(st, a[0])
    k = key_of(E, st, a[1])
    r = hget(m, k)
    if m[0] in ("hins", "hdel") and m[2] == k:
        m = m[1]
    E.store(st, a[0], ("hdel", m, k))
    if "Set" in name:
        return [(st, K(1 if r[2] == "Some" else 0) if r[0] == "agg" else ("is", r, "Some"))]
    return [(st, r)]


@model("HashMap::entry", "DashMap::entry", "BTreeMap::entry")
def hm_entry(E, st, fr, a, line, *z):
    return [(st, ("agg", "entry", "", (("map", a[0]), ("key", key_of(E, st, a[1])))))]


@model("Entry::or_default", "Entry::or_insert", "Entry::or_insert_with")
def hm_or(E, st, fr, a, line, name, res, f):
    e = a[0]
    if not (e[0] == "agg" and e[1] == "entry"):
        return None
    mp, k = fld(e, "map"), fld(e, "key")
    m = E.deref(st, mp)
    r = hget(m, k)
    p = E.point(mp, ("pkey", k))
    out = []
    st_list = [(st, r[2] == "Some")] if r[0] == "agg" else E.branch(st, ("is", r, "Some"))
    for s, b in st_list:
        if b:
            out.append((s, p))
            continue
        if name.endswith("or_default"):
            g = (f or {}).get("g") or []
            ty = " ".join(g)
            last = g[-1] if g else ""
            d = ("vnew",) if "Vec<" in last else ("hnew",) if ("Map<" in last or "Set<" in last) else ("call", "default", (("str", last),))
            vals = [(s.copy(), d)]
        elif name.endswith("or_insert"):
            vals = [(s.copy(), a[1])]
        else:
            vals = E.call_value(s, fr, a[1], [], line)
        for s2, d in vals:
            if d is None:
                out.append((s2, None))
                continue
            s2 = s2.copy()
            E.store(s2, mp, mk_hins(E.deref(s2, mp), k, d))
            out.append((s2, p))
    return out


@model("HashMap::len", "HashSet::len", "DashMap::len")
def hm_len(E, st, fr, a, line, *z):
    return [(st, length(E.deref(st, a[0])))]


@model("HashMap::is_empty", "HashSet::is_empty", "DashMap::is_empty")
def hm_empty(E, st, fr, a, line, *z):
    return [(st, E.int_eq(length(E.deref(st, a[0])), ZERO, "usize"))]


# ---------------------------------------------------------------- iterators
def it(kind, **k):
    return ("agg", "it." + kind, "", tuple(k.items()))


def as_iter(E, st, v, byref=None):
    """an iterator value for anything iterable"""
    if v[0] == "agg" and v[1].startswith("it."):
        return v
    if v[0] == "agg" and v[1] == "range":
        return it("range", pos=fld(v, "start"), end=fld(v, "end"))
    if v[0] == "agg" and v[1].endswith("RangeInclusive"):
        return it("range", pos=fld(v, "start"), end=add(fld(v, "end"), ONE))
    return None


@model("[T]::iter", "[T]::iter_mut", "Vec::iter")
def s_iter(E, st, fr, a, line, *z):
    p = a[0]
    n = 0
    while E.deref(st, p)[0] in ("ref", "rv") and n < 4:
        p = E.deref(st, p)
        n += 1
    return [(st, it("slice", seq=p, pos=ZERO, end=seqlen(E, st, p)))]


@model("str::chars", "str::char_indices", "str::bytes", "str::lines", "str::split", "HashMap::iter", "HashMap::keys", "HashMap::values", "HashSet::iter", "DashMap::iter",
       "str::split_whitespace", "HashMap::values_mut", "BTreeMap::iter", "str::encode_utf16", "HashMap::iter_mut", "str::split_terminator", "HashMap::into_values", "BTreeMap::values", "BTreeMap::keys")
def o_iter(E, st, fr, a, line, name, *z):
    seq = ("call", sym.short(name), tuple(E.content(st, full(E, st, x)) for x in a))
    if seq[1] == "str::char_indices":
        return [(st, it("own", seq=seq, pos=ZERO, end=("len", ("call", "str::chars", seq[2]))))]
    return [(st, it("own", seq=seq, pos=ZERO, end=("len", seq)))]


PATFN = ("str::starts_with", "str::ends_with", "str::contains", "str::find", "str::rfind", "str::split", "str::rsplit", "str::split_once", "str::rsplit_once", "str::trim_matches",
         "str::trim_start_matches", "str::trim_end_matches", "str::strip_prefix", "str::strip_suffix", "str::replace", "str::matches", "str::split_terminator", "str::splitn")


@model(*[x for x in PATFN if x not in ("str::split", "str::split_terminator")])
def strpat(E, st, fr, a, line, name, *z):
    """a pattern of one character, however it is written"""
    i = 2 if name.endswith("splitn") else 1
    p, q = pattern(E, st, a[i])
    if p is None:
        return None
    sn = sym.short(name)
    if len(p) > 1 and sn in ("str::starts_with", "str::ends_with", "str::contains"):
        cs = []
        for c in p:
            (st, r), = E.opaque_call(st, fr, name, [a[0], c], line, pure=True)
            cs.append(("true", r))
        return [(st, ("or",) + tuple(cs))]
    x = p[0] if len(p) == 1 else q
    if x == a[i]:
        return None
    return E.opaque_call(st, fr, name, list(a[:i]) + [x] + list(a[i + 1:]), line, pure=True)


def pattern(E, st, v):
    """the characters a pattern stands for, and the pattern they make together"""
    n = 0
    while v[0] in ("ref", "rv") and n < 4:
        v = E.deref(st, v)
        n += 1
    if v[0] == "str" and len(v[1]) == 1:
        return [K(ord(v[1]))], K(ord(v[1]))
    if v[0] == "k":
        return [v], v
    if v[0] == "agg" and v[1] == "[]" and v[3]:
        cs = sorted({E.content(st, x) for _, x in v[3]}, key=repr)
        if all(c[0] == "k" for c in cs):
            return cs, ("agg", "[]", v[2], tuple((str(i), c) for i, c in enumerate(cs)))
    return None, None


@model("Path::is_relative")
def p_rel(E, st, fr, a, line, name, *z):
    (st, r), = E.opaque_call(st, fr, name.replace("is_relative", "is_absolute"), a, line, pure=True)
    return [(st, mk_not(("true", r)))]


@model("IntoIterator::into_iter")
def into_iter(E, st, fr, a, line, name, res, f):
    v = a[0]
    x = as_iter(E, st, v)
    if x is not None:
        return [(st, x)]
    r = res or ""
    g = ((f or {}).get("g") or [""])[0]
    if res and res in E.fns:
        return None
    if r.startswith("<I as"):
        return [(st, v)]
    if g.startswith("&") or r.startswith("<&"):
        if "Hash" in g or "Map" in g or "Hash" in r:
            seq = ("call", "HashMap::iter", (E.content(st, full(E, st, v)),))
            return [(st, it("own", seq=seq, pos=ZERO, end=("len", seq)))]
        if "Option" in g:
            return None
        return s_iter(E, st, fr, a, line)
    if "Option" in r or "Option" in g:
        return None
    if "Vec" in r or "Vec" in g or "[" in g:
        return [(st, it("own", seq=v, pos=ZERO, end=length(v)))]
    if "Hash" in r or "Hash" in g:
        seq = ("call", "HashMap::into_iter", (E.content(st, v),))
        return [(st, it("own", seq=seq, pos=ZERO, end=("len", seq)))]
    return [(st, v)]


def bound(v):
    return E


@model("Iterator::map", "Iterator::filter", "Iterator::filter_map", "Iterator::rev", "Iterator::enumerate", "Iterator::copied", "Iterator::cloned", "Iterator::zip", "Iterator::skip",
       "Iterator::take", "Iterator::take_while", "Iterator::peekable", "Iterator::chain", "Iterator::skip_while", "Iterator::step_by", "Iterator::flat_map", "Iterator::flatten", "Iterator::inspect", "Iterator::fuse", "Iterator::map_while")
def adapters(E, st, fr, a, line, name, res, f):
    k = name.rsplit("::", 1)[-1]
    inner = as_iter(E, st, a[0]) or a[0]
    if k in ("fuse",):
        return [(st, inner)]
    if k == "map":
        return [(st, it("map", inner=inner, f=a[1]))]
    if k in ("filter", "filter_map"):
        return [(st, it(k, inner=inner, f=a[1]))]
    if k == "enumerate":
        return [(st, it("enum", inner=inner, n=ZERO))]
    if k in ("copied", "cloned"):
        return [(st, it("copied", inner=inner))]
    if k == "rev":
        return [(st, it("rev", inner=inner))]
    if k == "zip":
        b = as_iter(E, st, a[1])
        if b is None and a[1][0] in ("ref", "arg", "fld"):
            b = s_iter(E, st, fr, [a[1]], line)[0][1]
        if b is not None:
            return [(st, it("zip", a=inner, b=b))]
    if k == "skip" and inner[0] == "agg" and inner[1] in ("it.slice", "it.own", "it.range"):
        return [(st, set_fld(inner, "pos", add(fld(inner, "pos"), a[1])))]
    if k == "skip" and inner[0] == "agg" and inner[1] == "it.enum":
        i2 = fld(inner, "inner")
        if i2[1] in ("it.slice", "it.own", "it.range"):
            return [(st, it("enum", inner=set_fld(i2, "pos", add(fld(i2, "pos"), a[1])), n=add(fld(inner, "n"), a[1])))]
    if k == "take":
        return [(st, it("take", inner=inner, left=a[1]))]
    seq = ("call", "Iterator::" + k, tuple(E.content(st, x) for x in [inner] + list(a[1:])))
    return [(st, it("own", seq=seq, pos=ZERO, end=("len", seq)))]


SKIP = ("skip",)


def item(q, i):
    """element `i` of a library sequence; characters come with the bytes before them"""
    if q[0] == "call" and q[1] == "str::char_indices":
        c = ("call", "str::chars", q[2])
        bv = "j%d" % _sumdepth(c)
        return tup(mk_sum(ZERO, i, ("call", "char::len_utf8", (idx(c, ("bv", bv)),)), bv), idx(c, i))
    return idx(q, i)


def _sumdepth(t):
    n = 0
    while contains(t, lambda x: x[0] == "sum" and x[4] == "j%d" % n):
        n += 1
    return n


@model("Iterator::nth")
def i_nth(E, st, fr, a, line, name, res, f):
    if res and res in E.fns:
        return None
    p = a[0]
    v = E.deref(st, p)
    n = 0
    while v[0] in ("ref",) and n < 3:
        p = v
        v = E.deref(st, p)
        n += 1
    if v[0] != "agg" or v[1] not in ("it.slice", "it.own", "it.range"):
        return None
    pos, end = add(fld(v, "pos"), a[1]), fld(v, "end")
    v2 = set_fld(v, "pos", pos)
    r = it_next(E, st, fr, v2, line)
    out = []
    for s, x, v3 in r:
        s = s.copy()
        E.store(s, p, set_fld(v, "pos", end) if x is None else v3)
        out.append((s, NONE if x is None else some(x)))
    return out


def it_next(E, st, fr, v, line, back=False):
    """-> [(state, item | None | SKIP, iterator after)] or None when not understood"""
    if v[0] != "agg" or not v[1].startswith("it."):
        # an iterator type of the analysed crates
        return None
    k = v[1][3:]
    if k in ("slice", "own", "range"):
        pos, end = fld(v, "pos"), fld(v, "end")
        out = []
        for s, b in E.branch(st, lt(pos, end)):
            if not b:
                out.append((s, None, v))
                continue
            i = sub(end, ONE) if back else pos
            x = i if k == "range" else item(fld(v, "seq"), i) if k == "own" else E.point(fld(v, "seq"), ("pidx", i))
            out.append((s, x, set_fld(v, "end", sub(end, ONE)) if back else set_fld(v, "pos", add(pos, ONE))))
        return out
    if k in ("map", "filter", "filter_map"):
        r = it_next(E, st, fr, fld(v, "inner"), line, back)
        if r is None:
            return None
        out = []
        for s, x, i2 in r:
            v2 = set_fld(v, "inner", i2)
            if x is None or x == SKIP:
                out.append((s, x, v2))
                continue
            for s2, y in E.call_value(s, fr, fld(v, "f"), [x if k != "filter" else ("rv", x)], line):
                if y is None:
                    continue
                if k == "map":
                    out.append((s2, y, v2))
                elif k == "filter":
                    for s3, b in E.branch(s2, E.as_cond(y)):
                        out.append((s3, x if b else SKIP, v2))
                else:
                    for s3, n, z in E.split_variant(s2, y, OPT):
                        out.append((s3, fld(as_variant(z, "Some"), "0") if n == "Some" else SKIP, v2))
        return out
    if k == "enum":
        if back:
            i2 = fld(v, "inner")
            if i2[1] not in ("it.slice", "it.own", "it.range"):
                return None
            r = it_next(E, st, fr, i2, line, True)
            return [(s, x if x is None else tup(add(fld(v, "n"), sub(sub(fld(i2, "end"), fld(i2, "pos")), ONE)), x), set_fld(v, "inner", j)) for s, x, j in r]
        r = it_next(E, st, fr, fld(v, "inner"), line)
        if r is None:
            return None
        out = []
        for s, x, i2 in r:
            v2 = set_fld(v, "inner", i2)
            if x is None or x == SKIP:
                out.append((s, x, v2))
            else:
                out.append((s, tup(fld(v, "n"), x), set_fld(v2, "n", add(fld(v, "n"), ONE))))
        return out
    if k == "copied":
        r = it_next(E, st, fr, fld(v, "inner"), line, back)
        return None if r is None else [(s, x if x is None or x == SKIP else E.content(s, E.deref(s, x)), set_fld(v, "inner", i2)) for s, x, i2 in r]
    if k == "rev":
        r = it_next(E, st, fr, fld(v, "inner"), line, not back)
        return None if r is None else [(s, x, set_fld(v, "inner", i2)) for s, x, i2 in r]
    if k == "take" and not back:
        out = []
        left = fld(v, "left")
        for s, b in E.branch(st, E.int_eq(left, ZERO, "usize")):
            if b:
                out.append((s, None, v))
                continue
            r = it_next(E, s, fr, fld(v, "inner"), line)
            if r is None:
                return None
            for s2, x, i2 in r:
                v2 = set_fld(v, "inner", i2)
                out.append((s2, x, v2 if x is None or x == SKIP else set_fld(v2, "left", sub(left, ONE))))
        return out
    if k == "zip" and not back:
        r = it_next(E, st, fr, fld(v, "a"), line)
        if r is None:
            return None
        out = []
        for s, x, i2 in r:
            v2 = set_fld(v, "a", i2)
            if x is None:
                out.append((s, None, v2))
                continue
            r2 = it_next(E, s, fr, fld(v, "b"), line)
            if r2 is None:
                return None
            for s2, y, j2 in r2:
                out.append((s2, None if y is None else tup(x, y), set_fld(v2, "b", j2)))
        return out
    return None


@model("Iterator::next", "DoubleEndedIterator::next_back")
def i_next(E, st, fr, a, line, name, res, f):
    if res and res in E.fns:
        return None
    p = a[0]
    v = E.deref(st, p)
    n = 0
    while v[0] in ("ref",) and n < 3:
        p = v
        v = E.deref(st, p)
        n += 1
    r = it_next(E, st, fr, v, line, name.endswith("back"))
    if r is None or any(x == SKIP for _, x, _ in r):
        return None
    out = []
    for s, x, v2 in r:
        s = s.copy()
        E.store(s, p, v2)
        out.append((s, NONE if x is None else some(x)))
    return out


def consume(E, st, fr, itv, line, what, step, accs):
    """Run an iterator to its end as a loop.  step(state, item) -> [(state, stop?)];
    accs: initial accumulator values by name.  -> [(state, stopped)] with accumulators in memory"""
    lid = "%s/%s" % (sym.short(fr.fn["key"]), what)
    # number the loops of one function in order
    fr_roots = {}
    st = st.copy()
    rid = ("H", E.fresh_id())
    root = lambda n: rid + (n,)
    st.mem[root("it")] = itv
    for n, v in accs.items():
        st.mem[root(n)] = v
    if itv[0] != "agg" or not itv[1].startswith("it."):
        return None, root

    class Bad(Exception):
        pass

    def body(s):
        s = s.copy()
        r = it_next(E, s, fr, s.mem[root("it")], line)
        if r is None:
            raise Bad()
        outs = []
        for s2, x, v2 in r:
            s2 = s2.copy()
            s2.mem[root("it")] = v2
            if x is None:
                outs.append(("end", s2))
            elif x == SKIP:
                outs.append(("back", s2, rid))
            else:
                for s3, stop in step(s2, x, root):
                    if stop is None:
                        outs.append(("panic", s3))
                    else:
                        outs.append(("stop", s3) if stop else ("back", s3, rid))
        return outs
    try:
        outs = E.widen(fr, lid, st, body, rid)
    except Bad:
        return None, root
    return outs, root


def lname2(self, fr, root, path):
    if root[0] == "H":
        return str(root[2]) + "".join(p if isinstance(p, str) else "[%s]" % show(p[1]) for p in path)
    return _lname(self, fr, root, path)


_lname = sym.Engine.lname
sym.Engine.lname = lname2


@model("Iterator::sum", "Iterator::count", "Iterator::collect", "Iterator::for_each", "Iterator::any", "Iterator::all", "Iterator::position", "Iterator::fold", "Iterator::find",
       "Iterator::find_map", "Iterator::last", "Vec::extend", "Extend::extend")
def consumers(E, st, fr, a, line, name, res, f):
    k = name.rsplit("::", 1)[-1]
    if k == "extend":
        itv = as_iter(E, st, a[1])
        if itv is None:
            g = (f or {}).get("g") or []
            gi = g[-1] if g else ""
            if gi.startswith("&") and ("Vec" in gi or "[" in gi):
                itv = it("copied", inner=s_iter(E, st, fr, [a[1]], line)[0][1])
            elif "Vec<" in gi:
                itv = it("own", seq=a[1], pos=ZERO, end=length(a[1]))
            else:
                return None
    else:
        v0 = a[0]
        if v0[0] == "ref":
            v1 = E.deref(st, v0)
            if v1[0] == "agg" and v1[1].startswith("it."):
                v0 = v1
        itv = as_iter(E, st, v0)
    if itv is None:
        return None
    if k == "count" and itv[1] in ("it.slice", "it.own", "it.range"):
        return [(st, sub(fld(itv, "end"), fld(itv, "pos")))]
    if k == "extend" or k == "collect":
        g = " ".join((f or {}).get("g") or [])
        if k == "collect":
            last = ((f or {}).get("g") or [""])[-1]
            if last == "alloc::string::String" or last.startswith("std::collections::hash::map::HashMap"):
                return collect_other(E, st, fr, itv, line, last) or generic(E, st, fr, a, itv, k, last)
            if not last.startswith("alloc::vec::Vec"):
                return generic(E, st, fr, a, itv, k, last)
            acc0 = ("vnew",)
        else:
            acc0 = E.deref(st, a[0])
        if itv[1] == "it.own" and fld(itv, "pos") == ZERO:
            r = vcat(acc0, fld(itv, "seq"))
            st = st.copy()
            if k == "extend":
                E.store(st, a[0], r)
                return [(st, UNIT)]
            return [(st, r)]

        def step(s, x, root):
            s.mem[root("acc")] = ("vpush", s.mem[root("acc")], E.content(s, x) if x[0] in ("ref", "rv") and x[1][0] == "L" else x)
            return [(s, False)]
        outs, root = consume(E, st, fr, itv, line, k, step, {"acc": acc0})
        if outs is None:
            return None
        res_ = []
        for o in outs:
            s = o[1]
            v = s.mem[root("acc")]
            if k == "extend":
                E.store(s, a[0], v)
                res_.append((s, UNIT))
            else:
                res_.append((s, v))
        return res_
    if k in ("sum", "count"):
        def step(s, x, root):
            s.mem[root("acc")] = add(s.mem[root("acc")], x if k == "sum" else ONE)
            return [(s, False)]
        outs, root = consume(E, st, fr, itv, line, k, step, {"acc": ZERO})
        return None if outs is None else [(o[1], o[1].mem[root("acc")]) for o in outs]
    if k == "for_each":
        def step(s, x, root):
            return [(s2, False if r is not None else None) for s2, r in E.call_value(s, fr, a[1], [x], line)]
        outs, root = consume(E, st, fr, itv, line, k, step, {})
        return None if outs is None else [(o[1], UNIT if o[0] != "panic" else None) for o in outs]
    if k == "fold":
        def step(s, x, root):
            out = []
            for s2, r in E.call_value(s, fr, a[2], [s.mem[root("acc")], x], line):
                if r is None:
                    out.append((s2, None))
                else:
                    s2 = s2.copy()
                    s2.mem[root("acc")] = r
                    out.append((s2, False))
            return out
        outs, root = consume(E, st, fr, itv, line, k, step, {"acc": a[1]})
        return None if outs is None else [(o[1], o[1].mem[root("acc")] if o[0] != "panic" else None) for o in outs]
    if k in ("any", "all", "position", "find"):
        def step(s, x, root):
            out = []
            for s2, r in E.call_value(s, fr, a[1], [x if k != "find" else ("rv", x)], line):
                if r is None:
                    out.append((s2, None))
                    continue
                for s3, b in E.branch(s2, E.as_cond(r)):
                    s3 = s3.copy()
                    if b != (k == "all"):
                        s3.mem[root("res")] = x if k == "find" else s3.mem[root("n")]
                        out.append((s3, True))
                    else:
                        s3.mem[root("n")] = add(s3.mem[root("n")], ONE)
                        out.append((s3, False))
            return out
        outs, root = consume(E, st, fr, itv, line, k, step, {"n": ZERO})
        if outs is None:
            return None
        out = []
        for o in outs:
            s = o[1]
            if o[0] == "panic":
                out.append((s, None))
            elif o[0] == "stop":
                out.append((s, K(1) if k == "any" else K(0) if k == "all" else some(s.mem[root("res")])))
            else:
                out.append((s, K(0) if k == "any" else K(1) if k == "all" else NONE))
        return out
    if k == "find_map":
        def step(s, x, root):
            out = []
            for s2, r in E.call_value(s, fr, a[1], [x], line):
                if r is None:
                    out.append((s2, None))
                    continue
                for s3, n, z in E.split_variant(s2, r, OPT):
                    s3 = s3.copy()
                    if n == "Some":
                        s3.mem[root("res")] = fld(as_variant(z, "Some"), "0")
                    out.append((s3, n == "Some"))
            return out
        outs, root = consume(E, st, fr, itv, line, k, step, {})
        return None if outs is None else [(o[1], None if o[0] == "panic" else some(o[1].mem[root("res")]) if o[0] == "stop" else NONE) for o in outs]
    return None


def generic(E, st, fr, a, itv, k, ty):
    seq = ("call", "collect:" + ty.split("<")[0], (E.content(st, itv),))
    return [(st, seq)]


def chars_of(E, itv):
    """True when an iterator yields characters, False when text, None when unclear"""
    n = 0
    while itv[0] == "agg" and itv[1].startswith("it.") and n < 10:
        n += 1
        k = itv[1][3:]
        if k == "map":
            f = fld(itv, "f")
            fn = E.fns.get(f[1]) if f[0] == "clo" else None
            if fn is None:
                return None
            r = fn.get("ret") or fn["locals"][0][0]
            return True if r == "char" else False if strip_ty(r).startswith(STRS) else None
        if k == "own":
            q = fld(itv, "seq")
            return True if q[0] == "call" and q[1] == "str::chars" else None
        if k in ("filter", "rev", "take", "skip", "copied", "enum"):
            itv = fld(itv, "inner")
            continue
        return None
    return None


def collect_other(E, st, fr, itv, line, ty):
    if ty == "alloc::string::String":
        ch = chars_of(E, itv)
        if ch is None:
            return None
        if itv[1] == "it.own" and fld(itv, "pos") == ZERO:
            return [(st, fld(itv, "seq")[2][0])] if fld(itv, "seq")[1] == "str::chars" else None

        def step(s, x, root):
            if ch:
                x = full(E, s, x)
                y = ("str", chr(x[1])) if x[0] == "k" else ("call", "char", (x,))
            else:
                y = text(E, s, x)
            s.mem[root("acc")] = cat2(s.mem[root("acc")], y)
            return [(s, False)]
        acc0 = ("str", "")
    else:
        def step(s, x, root):
            if x[0] == "agg" and x[1] == "()":
                k, v = fld(x, "0"), fld(x, "1")
            else:
                k, v = fld(x, "0"), fld(x, "1")
            s.mem[root("acc")] = mk_hins(s.mem[root("acc")], key_of(E, s, k), E.content(s, v))
            return [(s, False)]
        acc0 = ("hnew",)
    outs, root = consume(E, st, fr, itv, line, "collect", step, {"acc": acc0})
    if outs is None:
        return None
    return [(o[1], o[1].mem[root("acc")] if o[0] != "panic" else None) for o in outs]


# ---------------------------------------------------------------- async
POLL = "core::task::poll::Poll"


@model("Future::poll", "core::future::future::Future::poll")
def fut_poll(E, st, fr, a, line, name, res, f):
    v = a[0]
    n = 0
    while n < 8:
        if v[0] in ("ref", "rv"):
            v = E.deref(st, v)
        elif v[0] == "agg" and v[1].endswith("Pin"):
            v = v[3][0][1]
        elif v[0] == "box":
            v = v[1]
        else:
            break
        n += 1
    ready = lambda x: ("agg", POLL, "Ready", (("0", x),))
    if v[0] == "clo" and v[1] in E.fns and E.fns[v[1]].get("bbs") and v[1] not in E.stack and not E.is_opaque(v[1]):
        return [(s, None if r is None else ready(r)) for s, r in E.enter(st, fr, E.fns[v[1]], [v, ("unk", "cx")], line)]
    c = E.content(st, v)
    st = st.copy()
    r = ("call", "await", (c,))
    st.events = st.events + (sym.Event("await", (c,), r, line, fr.fn["key"], len(st.conds)),)
    return [(st, ready(r))]


@model("Box::pin", "boxed::Box::pin", "Pin::new", "pin::Pin::new")
def box_pin(E, st, fr, a, line, name, res, f):
    return [(st, a[0])]


@model("future::get_context", "core::future::get_context")
def get_cx(E, st, fr, a, line, *z):
    return [(st, ("unk", "cx"))]
