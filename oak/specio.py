"""Readable text form of terms and of function specifications, and its parser.

    fn  <key>
    case <condition>            (all must hold; `always` when there is none)
         <condition>
      ret <term>
      set *<pointer> = <term>
      do <callee>(<args>)
      panics
    loop L0
      var name from <entry term>
      pass <conditions> : name = <term>, ...
"""
import re
from terms import *
import terms

FUNCS = {"len", "max0", "min", "max", "vpush", "vtrunc", "vpop", "vmap", "iset", "slice", "rv", "box", "discr", "trunc", "cat", "hins", "hdel", "hget", "ptr", "vcat",
         "cmp3", "ltr", "true", "and", "or", "op", "const", "clo", "ref", "fnitem", "unk", "P", "validrange", "sym", "display", "vnew", "hnew", "catrep", "skip", "char", "entry0"}
OPS = {"Div", "Rem", "Mul", "BitAnd"}


def q(s):
    return '"' + s.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n").replace("\r", "\\r").replace("\t", "\\t") + '"'


NAMES = {}       # terms with a name of their own while a function is written


def w(t):
    """term -> text"""
    if NAMES:
        n = NAMES.get(t)
        if n is not None:
            return n
    return w1(t)


def w1(t):
    k = t[0]
    if k == "k":
        return str(t[1])
    if k == "str":
        return q(t[1])
    if k == "arg":
        return "$%d" % t[1]
    if k == "bv":
        return "?" + t[1]
    if k == "lin":
        out = ""
        for a, c in sorted(t[2], key=lambda x: w(x[0])):
            s = "-" if c < 0 else "+"
            out += " %s %s%s" % (s, "" if abs(c) == 1 else "%d*" % abs(c), w(a))
        if t[1]:
            out += " %s %d" % ("-" if t[1] < 0 else "+", abs(t[1]))
        out = out.strip()
        if out.startswith("+ "):
            out = out[2:]
        elif out.startswith("- "):
            out = "-" + out[2:]
        return "(" + out + ")"
    if k == "lt0":
        p, n = split_sides(t[1])
        return "(%s < %s)" % (p, n)
    if k == "eq0":
        p, n = split_sides(t[1])
        return "(%s == %s)" % (p, n)
    if k == "eq":
        return "(%s === %s)" % tuple(sorted((w(t[1]), w(t[2]))))
    if k == "not":
        return "!" + w(t[1])
    if k == "is":
        return "(%s is %s)" % (w(t[1]), t[2])
    if k == "fld":
        return w(t[1]) + "." + t[2]
    if k == "as":
        return w(t[1]) + "@" + t[2]
    if k == "idx":
        return "%s[%s]" % (w(t[1]), w(t[2]))
    if k == "*":
        return "(*%s)" % w(t[1])
    if k == "agg":
        if t[1] == "()":
            return "tup{" + ", ".join("%s: %s" % (n, w(x)) for n, x in t[3]) + "}"
        return "new %s%s{%s}" % (q(t[1]), (" " + t[2]) if t[2] else "", ", ".join("%s: %s" % (n, w(x)) for n, x in t[3]))
    if k == "upd":
        return "(%s with {%s})" % (w(t[1]), ", ".join("%s: %s" % (n, w(x)) for n, x in t[2]))
    if k == "call":
        return "call %s(%s)" % (q(t[1]), ", ".join(w(x) for x in t[2]))
    if k == "post":
        return "post(%s, %s)" % (t[1], w(t[2]))
    if k == "lv":
        return "lv(%s, %s)" % (q(t[1]), q(t[2]))
    if k == "u":
        return "n(%s)" % q(t[1])
    if k == "case":
        return "case{" + "; ".join(" & ".join(sorted(w(c) for c in cs)) + " => " + w(x) for cs, x in t[1]) + "}"
    if k == "sum":
        return "sum(%s, %s, %s, %s)" % (t[4], w(t[1]), w(t[2]), w(t[3]))
    if k == "vmap":
        return "seq(%s, %s, %s, %s)" % (t[4], w(t[1]), w(t[2]), w(t[3]))
    # generic: head(args) with nested tuples
    return k + "(" + ", ".join(wx(x) for x in t[1:]) + ")"


def wx(x):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and (x[0] in HEADS or x[0] in FUNCS):
            return w(x)
        return "<" + ", ".join(wx(y) for y in x) + ">"
    if isinstance(x, str):
        return "'" + x.replace("\\", "\\\\").replace("'", "\\'").replace("\n", "\\n") + "'"
    if isinstance(x, int):
        return "#" + str(x)
    raise ValueError(repr(x))


def split_sides(l):
    c, d = lin_parts(l)
    pos = mk_lin(max(c, 0), {a: k for a, k in d.items() if k > 0})
    neg = mk_lin(max(-c, 0), {a: -k for a, k in d.items() if k < 0})
    f = lambda t: w1(t)[1:-1] if t[0] == "lin" else w(t)
    return f(pos), f(neg)


TOK = re.compile(r'\s*("(?:[^"\\]|\\.)*"|\'(?:[^\'\\]|\\.)*\'|#-?\d+|%\d+|\d+|\?[A-Za-z_]\w*|\$\d+|===|==|=>|[A-Za-z_]\w*|[-+*!&<>(){}\[\].,:;@=])')


def unq(s):
    return re.sub(r"\\(.)", lambda m: {"n": "\n", "r": "\r", "t": "\t"}.get(m.group(1), m.group(1)), s[1:-1])


class Parser:
    def __init__(self, s, env=None):
        self.toks = []
        self.env = env or {}
        p = 0
        s = s.rstrip()
        while p < len(s):
            m = TOK.match(s, p)
            if not m:
                raise ValueError("bad term near %r" % s[p:p + 40])
            self.toks.append(m.group(1))
            p = m.end()
        self.i = 0

    def peek(self, n=0):
        return self.toks[self.i + n] if self.i + n < len(self.toks) else ""

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def want(self, t):
        x = self.next()
        if x != t:
            raise ValueError("expected %r got %r in %s" % (t, x, " ".join(self.toks[max(0, self.i - 12):self.i + 6])))

    def linear(self):
        neg = False
        if self.peek() == "-":
            self.next()
            neg = True
        r = self.product()
        if neg:
            r = scale(r, -1)
        while self.peek() in ("+", "-"):
            o = self.next()
            r = add(r, self.product(), 1 if o == "+" else -1)
        return r

    def product(self):
        if re.fullmatch(r"\d+", self.peek()) and self.peek(1) == "*":
            n = int(self.next())
            self.next()
            return scale(self.post(), n)
        return self.post()

    def post(self):
        t = self.prim()
        while True:
            p = self.peek()
            if p == ".":
                self.next()
                t = fld(t, self.next())
            elif p == "@":
                self.next()
                t = as_variant(t, self.next())
            elif p == "[":
                self.next()
                i = self.linear()
                self.want("]")
                t = idx(t, i)
            else:
                return t

    def cond_or_linear(self):
        a = self.linear()
        p = self.peek()
        if p == "<":
            self.next()
            return lt(a, self.linear())
        if p == "==":
            self.next()
            return mk_eq0(a, self.linear())
        if p == "===":
            self.next()
            b = self.linear()
            return eq(a, b)
        if p == "is":
            self.next()
            return ("is", a, self.next())
        return a

    def fields(self, end):
        out = []
        while self.peek() != end:
            n = self.next()
            if n == "@":
                n += self.next()
                self.want(".")
                n += "." + self.next()
            self.want(":")
            out.append((n, self.linear()))
            if self.peek() == ",":
                self.next()
        self.want(end)
        return tuple(out)

    def args(self):
        self.want("(")
        out = []
        while self.peek() != ")":
            out.append(self.arg())
            if self.peek() == ",":
                self.next()
        self.want(")")
        return out

    def arg(self):
        p = self.peek()
        if p.startswith("'"):
            self.next()
            return re.sub(r"\\(.)", lambda m: {"n": "\n"}.get(m.group(1), m.group(1)), p[1:-1])
        if p.startswith("#"):
            self.next()
            return int(p[1:])
        if p == "<":
            self.next()
            out = []
            while self.peek() != ">":
                out.append(self.arg())
                if self.peek() == ",":
                    self.next()
            self.want(">")
            return tuple(out)
        return self.linear()

    def prim(self):
        p = self.next()
        if re.fullmatch(r"\d+", p):
            return K(int(p))
        if p.startswith('"'):
            return ("str", unq(p))
        if p.startswith("$"):
            return ("arg", int(p[1:]))
        if p.startswith("%"):
            return self.env[p]
        if p.startswith("?"):
            return ("bv", p[1:])
        if p == "-":
            return scale(self.post(), -1)
        if p == "!":
            return mk_not(self.post())
        if p == "(":
            if self.peek() == "*":
                self.next()
                t = ("*", self.linear())
                self.want(")")
                return t
            a = self.cond_or_linear()
            if self.peek() == "with":
                self.next()
                self.want("{")
                f = self.fields("}")
                self.want(")")
                return ("upd", a, tuple(sorted(f)))
            self.want(")")
            return a
        if p == "tup":
            self.want("{")
            return ("agg", "()", "", self.fields("}"))
        if p == "new":
            n = unq(self.next())
            v = self.next() if self.peek() != "{" else ""
            self.want("{")
            return ("agg", n, v, self.fields("}"))
        if p == "call":
            n = unq(self.next())
            return ("call", n, tuple(self.args()))
        if p == "post":
            self.want("(")
            i = self.next()
            self.want(",")
            t = self.linear()
            self.want(")")
            return ("post", i, t)
        if p == "lv":
            self.want("(")
            a = unq(self.next())
            self.want(",")
            b = unq(self.next())
            self.want(")")
            return ("lv", a, b)
        if p == "n" and self.peek() == "(":
            self.want("(")
            a = unq(self.next())
            self.want(")")
            return ("u", a)
        if p in ("sum", "seq"):
            self.want("(")
            bv = self.next()
            self.want(",")
            lo = self.linear()
            self.want(",")
            hi = self.linear()
            self.want(",")
            b = self.linear()
            self.want(")")
            return (p if p == "sum" else "vmap", lo, hi, b, bv)
        if p == "case":
            self.want("{")
            alts = []
            while self.peek() != "}":
                cs = []
                while self.peek() != "=>":
                    cs.append(self.post())
                    if self.peek() == "&":
                        self.next()
                self.want("=>")
                alts.append((frozenset(cs), self.linear()))
                if self.peek() == ";":
                    self.next()
            self.want("}")
            return mk_case(alts)
        if p in FUNCS or p in HEADS:
            return (p,) + tuple(self.args())
        raise ValueError("unexpected %r in %s" % (p, " ".join(self.toks[max(0, self.i - 10):self.i + 6])))


def mk_eq0(a, b):
    d = sub(a, b)
    if d[0] == "k":
        return K(1 if d[1] == 0 else 0)
    p = lin_parts(d)
    first = min(p[1], key=okey)
    if p[1][first] < 0:
        d = scale(d, -1)
    return ("eq0", d)


def kids(x):
    """immediate subterms, through nested plain tuples"""
    for y in x[1:] if x and isinstance(x[0], str) else x:
        if isinstance(y, (tuple, frozenset)):
            y = tuple(sorted(y, key=repr)) if isinstance(y, frozenset) else y
            if y and isinstance(y[0], str) and (y[0] in HEADS or y[0] in FUNCS):
                yield y
            else:
                yield from kids(("",) + y)


def share(roots, least=60):
    """names for subterms that occur more than once -> [(name, term)] in order of definition"""
    refs, size, order = {}, {}, []
    seen = set()

    def go(t):
        if t in seen:
            return
        seen.add(t)
        n = 6
        for y in kids(t):
            refs[y] = refs.get(y, 0) + 1
            go(y)
            n += min(size[y], 200)
        size[t] = n
        order.append(t)
    for t in roots:
        refs[t] = refs.get(t, 0) + 1
        go(t)
    out = []
    for t in order:
        if refs[t] > 1 and t[0] not in ("k", "arg", "str", "bv", "lv", "u") and size[t] > 24 and len(w1(t)) > least:
            n = "%%%d" % (len(out) + 1)
            out.append((n, w1(t)))
            NAMES[t] = n
    return out


def parse(s, env=None):
    p = Parser(s, env)
    t = p.cond_or_linear()
    if p.i != len(p.toks):
        raise ValueError("trailing text in " + s)
    return t
