"""Lexer domain: the stream is the source text, positions are byte offsets on character
boundaries, `done` is the end of the last emitted token."""
from interp import *
import re

LS, CUR, TOKS, SRC = ("tag", "LS"), ("tag", "CUR"), ("tag", "TOKS"), ("tag", "SRC")
EMPTY = ()
WIDTHS = ((0, 0x7F, 1), (0x80, 0x7FF, 2), (0x800, 0xFFFF, 3), (0x10000, MAXC, 4))
UNSEEN = ((0, 0x7F), (0x80, MAXC))     # some character that no test has looked at
CORE = "oak_core"

PURE_PREFIX = ("core::fmt::", "core::cmp::", "core::clone::Clone::clone", "alloc::string::", "core::str::", "str::", "char::", "alloc::vec::Vec::len",
               "alloc::vec::Vec::is_empty", "core::ops::deref::Deref", "core::slice::", "alloc::borrow::", "core::convert::", "core::iter::traits::collect",
               "core::option::", "core::result::", "alloc::fmt::", "core::ops::index::", "std::sync::lazy_lock", "oak_core::errors::", "core::default::Default",
               "alloc::str::", "core::mem::", "slice::", "core::num::", "u8::", "usize::", "alloc::slice::", "core::borrow::", "core::array::", "core::any::",
               "core::hash::", "core::char::", "u32::", "hashbrown::", "std::collections::")


def norm_ty(t):
    t = t.lstrip("&")
    while True:
        n = re.sub(r"^(&|mut |'[a-z_0-9]+ |\*const |\*mut )", "", t)
        if n == t:
            return t
        t = n


def iv_chars_of(iv):
    return [c for l, h in iv for c in range(l, h + 1)]


class LexDomain:
    conds = ()
    streamtags = ("LS", "CUR", "TOKS")
    opaque = ()

    def __init__(self, crate, rounds=False):
        """rounds: a byte-wise advance always comes to rest on a character boundary"""
        self.crate = crate
        self.statics = {}
        self.undecided = {}
        self.counts = {"push": 0, "advance": 0, "setpos": 0, "finish": 0, "loops": 0, "new": 0}
        self.discharged = set()
        self.sites = {}
        self.rounds = rounds

    # ---------------------------------------------------------------- typing
    def tag(self, ty):
        t = norm_ty(ty)
        if t.startswith("oak_core::lexer::LexerState<"):
            return "LS"
        if t.startswith("oak_core::source::cursor::SourceCursor<"):
            return "CUR"
        return None

    def field(self, tag, name):
        if tag == "LS":
            if name == "cursor":
                return CUR
            if name == "tokens":
                return TOKS
        if tag == "CUR":
            if name == "source":
                return SRC
        return U

    def write_field(self, eng, st, tag, proj, val):
        pass

    def static(self, eng, name):
        if name in self.statics:
            return self.statics[name]
        self.statics[name] = U
        v = U
        fn = eng.fns.get(name + "::{closure#0}") or eng.fns.get(name)
        if fn is not None:
            cl = None
            for k in (name + "::{closure#0}", name):
                f = eng.fns.get(k)
                if f is None:
                    continue
                save = getattr(eng, "cur_info", None)
                try:
                    eng.in_const = True
                    eng.cur_info = eng.info(f)
                    v = eng.const_body(f)
                    if v[0] == "rv":
                        v = v[1]
                except Exception:
                    v = U
                finally:
                    eng.in_const = False
                    eng.cur_info = save
                if v != U:
                    break
        self.statics[name] = ("rv", v) if v != U else U
        return self.statics[name]

    def item(self, eng, c):
        it = c.get("item")
        f = eng.fns.get(it)
        if f is None:
            return None
        return self.static(eng, it) if False else None

    def track_enum(self, name, adt):
        if name in DISCR:
            return True
        if adt is None:
            return False
        return len(adt["vs"]) <= 8

    def coarsen_arg(self, eng, fn, i, v):
        return v

    def pure(self, name):
        if name.startswith(PURE_PREFIX):
            return True
        if name.startswith("<"):
            m = re.match(r"<(.*) as ([\w:]+)", name)
            if m and m.group(2).startswith(PURE_PREFIX):
                return True
        return False

    def enter(self, eng, fn, name, st, args):
        if name.startswith("oak_core::source::"):
            return False
        for a in args:
            if eng.contains_tag(st, a) or self.interesting(eng, st, a):
                return True
        return not args

    def interesting(self, eng, st, v, d=0):
        k = v[0]
        if k in ("C", "p", "clo", "fn"):
            return True
        if d > 3:
            return False
        if k == "ref":
            return self.interesting(eng, st, eng.read_root(st, v[1], v[2]), d + 1)
        if k == "rv":
            return self.interesting(eng, st, v[1], d + 1)
        if k == "E":
            return any(self.interesting(eng, st, x, d + 1) for _, x in v[3])
        if k == "T":
            return any(self.interesting(eng, st, x, d + 1) for x in v[1])
        return False

    def may_delegate(self, name):
        return name.startswith("oak_core::lexer::LexerState::")

    def enter_call(self, eng, key, fn, site, st):
        pass

    def recursion(self, eng, key, fn, site, st):
        pass

    def widen(self, eng, st):
        if st.cur[0] >= len(st.segs):
            return
        st.segs = tuple(sg[:1] if i else sg[:2] for i, sg in enumerate(st.segs)) if False else st.segs

    def diverge(self, eng, st, t, fn):
        pass

    # ---------------------------------------------------------------- events
    def is_core(self, fn):
        return fn["crate"] == CORE and not fn["key"].startswith("oak_core::lexer::scan_")

    def emit(self, eng, st, kind, site, iv=None, note=""):
        fn, line = site
        if self.is_core(fn):
            p = (kind, iv, note or fn["key"].rsplit("::", 1)[-1])
            if p not in st.x:
                st.x = st.x + (p,)
            return
        k = (kind, fn["key"], fn["file"], line, note)
        e = eng.events.get(k)
        if e is None:
            eng.events[k] = iv if iv is not None else EMPTY
        elif iv is not None:
            eng.events[k] = iv_or(e, iv)

    def emit_mid(self, eng, st, kind, site, pid):
        """report at the place that moved inside the character"""
        u = self.item_at(st, pid)
        iv = (iv_and(st.chars[u][0], NONASCII) if u is not None else ()) or NONASCII
        mo = st.mo
        if mo is None or mo[0] == "core:":
            self.emit(eng, st, kind, site, iv, "inside a character")
            return
        k = (kind, mo[0], mo[1], mo[2], "inside a character")
        eng.events[k] = iv_or(eng.events.get(k, EMPTY), iv)

    def returned(self, eng, st, fn, site):
        cf, line = site
        if st.mo is not None and st.mo[0] == "core:" and not self.is_core(cf):
            st.mo = (cf["key"], cf["file"], line)
        if st.x and not self.is_core(cf):
            x, st.x = st.x, ()
            for kind, iv, note in x:
                self.emit(eng, st, kind, site, iv, note)
        if st.orig is not None and not self.is_core(cf) and st.orig[0].startswith("core:"):
            st.orig = (cf["key"], "%s:%d" % (cf["file"], line), st.orig[2])

    def stuck(self, eng, st, fn, header):
        line = 0
        for b in [header] + sorted(eng.info(fn).body.get(header, ())):
            bb = fn["bbs"][b]
            if bb is None:
                continue
            t = bb[1]
            ls = [x[3] for x in bb[0] if x[0] == "="]
            if t[0] == "call" and len(t) > 5:
                ls.append(t[5])
            ls = [l for l in ls if isinstance(l, int) and l > 0]
            if ls:
                line = min(ls)
                break
        iv = None
        if st.cur[1].__class__ is float:
            return self.emit_mid(eng, st, "stuck", (fn, line), st.cur)
        s, i = st.cur
        u = self.item_at(st, st.cur)
        if u is not None and (u in st.fz or -u in st.fz):
            return self.undec("a pass without progress after an undecided test", (fn, line))
        if i < len(st.segs[s]):
            c = st.chars.get(st.segs[s][i], NOINFO)
            iv = c[0]
            if c[1]:
                iv = iv + ((MAXC + 1, MAXC + 1),)
        else:
            iv = FULL + ((MAXC + 1, MAXC + 1),)
        self.emit(eng, st, "stuck", (fn, line), iv)

    # ---------------------------------------------------------------- stream movement
    def item_at(self, st, pid):
        s, i = pid
        i = int(i)
        sg = st.segs[s]
        return sg[i] if i < len(sg) else None

    def fresh(self, st, iv=FULL, e=True):
        u = st.nuid
        st.nuid += 1
        st.chars[u] = (iv, e)
        return u

    def ensure(self, st, pid):
        """uid of the item at pid, creating knowledge-free entries; None if not extendable"""
        s, i = ceil_pid(pid)
        sg = st.segs[s]
        if i < len(sg):
            return sg[i]
        if i > len(sg):
            return None
        if s < len(st.segs) - 1 and i >= st.bases[s + 1]:
            # beyond the part certified to lie before the next segment: the entry is
            # attached only when no later position can be confused with it
            return self.fresh(st)
        u = self.fresh(st)
        st.segs = st.segs[:s] + (sg + (u,),) + st.segs[s + 1:]
        return u

    def at(self, st, pid):
        """-> [(state, uid or None)] with None meaning end of input at pid"""
        pid = ceil_pid(pid)
        u = self.ensure(st, pid)
        if u is None:
            return [(st, self.fresh(st, FULL, False)), (st.copy(), None)]
        iv, e = st.chars[u]
        out = []
        if iv:
            n = st.copy() if e else st
            n.chars[u] = (iv, False)
            out.append((n, u))
        if e:
            n = st
            if iv:
                n = st
            n.chars = dict(n.chars)
            n.chars[u] = (EMPTY, True)
            out.append((n, None))
        return out

    def look(self, st, pid, k):
        """item k places after pid: [(state, uid|None)]"""
        res = []
        todo = [(st, ceil_pid(pid), k)]
        while todo:
            s, p, n = todo.pop()
            for t, u in self.at(s, p):
                if u is None or n == 0:
                    res.append((t, u))
                else:
                    todo.append((t, (p[0], p[1] + 1), n - 1))
        return res

    def invalidate(self, st, pid):
        """positions after pid lose their meaning"""
        keep = lambda p: p if p <= pid else None
        st.env = {k: map_vals(v, keep, lambda u: u) for k, v in st.env.items()}
        st.env = {k: v for k, v in st.env.items() if v != U}
        if st.done.__class__ is tuple and st.done > pid:
            st.done = "?"
        st.marks = {h: m for h, m in st.marks.items() if m[0] <= pid}

    def note_orig(self, st, site, iv):
        if st.done == st.cur and st.orig is None:
            fn, line = site
            if self.is_core(fn):
                st.orig = ("core:", "", iv)
            else:
                st.orig = (fn["key"], "%s:%d" % (fn["file"], line), iv)

    def later_refs(self, st, pid):
        """is some referenced position greater than pid?"""
        hit = []

        def f(p):
            if p > pid:
                hit.append(p)
        for v in st.env.values():
            walk_vals(v, f, lambda u: None)
        for m in st.marks.values():
            f(m[0])
        if st.done.__class__ is tuple:
            f(st.done)
        return bool(hit)

    def step(self, st, site):
        """move over one existing item (caller made sure it is not EOF)"""
        s, i = st.cur = ceil_pid(st.cur)
        u = self.item_at(st, st.cur)
        if u is None:
            u = self.ensure(st, st.cur)
            iv, e = st.chars[u]
            st.chars[u] = (iv, False)
        self.note_orig(st, site, st.chars[u][0])
        if s < len(st.segs) - 1 and i + 1 > st.bases[s + 1]:
            if self.later_refs(st, (s, i)) :
                # order relative to later positions unknown unless they are in this segment
                far = (s, 10 ** 6)
                self.invalidate(st, far)
            st.segs = st.segs[:s + 1]
            st.bases = st.bases[:s + 1]
        if i >= len(st.segs[s]):
            st.segs = st.segs[:s] + (st.segs[s] + (u,),) + st.segs[s + 1:]
        st.cur = (s, i + 1)

    def jump(self, st, site, iv=None):
        """advance by an unknown non-zero amount"""
        st.cur = ceil_pid(st.cur)
        u = self.item_at(st, st.cur)
        if u is not None:
            c, e = st.chars[u]
            st.chars[u] = (c, False)
        self.note_orig(st, site, iv if iv is not None else (st.chars[u][0] if u is not None else FULL))
        s, i = st.cur
        self.invalidate(st, (s, i))
        st.segs = st.segs[:s + 1] + ((),)
        st.bases = st.bases[:s + 1] + (i,)
        st.cur = (s + 1, 0)

    def ateof(self, st, pid):
        """states in which pid is end of input (0 or 1) and not (0 or 1)"""
        if pid[1].__class__ is float:
            return [], [st]
        e, n = [], []
        for t, u in self.at(st, pid):
            (e if u is None else n).append(t)
        return e, n

    def adv_unknown(self, st, site, nz):
        e, n = self.ateof(st.copy(), st.cur)
        out = list(e)
        for t in n:
            if not nz:
                z = t.copy()
                u = self.item_at(z, z.cur)
                if u is not None and z.chars[u][0] == FULL:
                    z.chars[u] = (UNSEEN, False)
                out.append(z)
            self.jump(t, site)
            out.append(t)
        return out

    def adv_const(self, st, n, site):
        """advance by n bytes, n a constant"""
        out = []
        moved = st.cur[1].__class__ is float
        todo = [(st, n)]
        while todo:
            s, k = todo.pop()
            if k == 0:
                out.append(s)
                continue
            c = s.cur
            if c[1].__class__ is float:
                # inside a character; the fraction says how many of its bytes are left
                i = int(c[1])
                left = int((i + 1 - c[1]) * 4)
                if k < left:
                    s.cur = (c[0], c[1] + 0.25 * k)
                    out.append(s)
                else:
                    s.cur = (c[0], i)
                    self.step(s, site)
                    todo.append((s, k - left))
                continue
            u0 = self.item_at(s, c)
            fresh = u0 is None or s.chars[u0] == NOINFO
            for t, u in self.at(s, c):
                if u is None:
                    out.append(t)
                    continue
                iv, fz = t.chars[u][0], u in t.fz or -u in t.fz
                w = iv_width(iv)
                if w is not None and w <= k:
                    self.step(t, site)
                    todo.append((t, k - w))
                elif self.rounds and k == 1:
                    self.step(t, site)
                    out.append(t)
                elif fz or (iv == UNSEEN or fresh) and 0 in t.fz:
                    self.undec("advance by a constant over an unobserved character", site)
                    if k == 1:
                        self.step(t, site)
                    else:
                        self.jump(t, site)
                    out.append(t)
                else:
                    mid = False
                    for lo, hi, w in WIDTHS:
                        x = iv_and(iv, ((lo, hi),))
                        if not x or mid and w > k:
                            continue            # one width stands for all that end inside
                        mid = mid or w > k
                        q = t.copy()
                        q.chars[u] = (x, False)
                        if w <= k:
                            self.step(q, site)
                            todo.append((q, k - w))
                        elif self.rounds:
                            self.step(q, site)
                            out.append(q)
                        else:
                            self.note_orig(q, site, x)
                            q.cur = (c[0], c[1] + 1 - 0.25 * (w - k))
                            if not moved:
                                f, l = site
                                q.mo = ("core:", "", 0) if self.is_core(f) else (f["key"], f["file"], l)
                            out.append(q)
        return out

    def advance(self, eng, st, v, site):
        eng_ref[0] = eng
        self.counts["advance"] += 1
        k = v[0]
        if k == "i":
            if v[1] < 0 or v[1] > 64:
                return self.adv_unknown(st, site, True)
            return self.adv_const(st, v[1], site)
        if k == "l8":
            cur = self.item_at(st, st.cur) if st.cur[1].__class__ is int else None
            if cur == v[1] and cur is not None:
                iv, e = st.chars[cur]
                st.chars[cur] = (iv, False)
                self.step(st, site)
                return [st]
            wv = iv_width(st.chars.get(v[1], NOINFO)[0])
            if wv is not None:
                return self.adv_const(st, wv, site)
            if st.cur[1].__class__ is float and v[1] in st.chars:
                out = []
                for lo, hi, w in WIDTHS:
                    x = iv_and(st.chars[v[1]][0], ((lo, hi),))
                    if x:
                        t = st.copy()
                        t.chars[v[1]] = (x, t.chars[v[1]][1])
                        out += self.adv_const(t, w, site)
                return out
            self.undec("advance by the width of another character", site)
            return self.adv_unknown(st, site, True)
        if k == "rlen" and v[1] == st.cur:
            e, n = self.ateof(st.copy(), st.cur)
            for t in n:
                self.jump(t, site)
                u = self.ensure(t, t.cur)
                t.chars[u] = (EMPTY, True)
            return e + n
        if k == "nz":
            return self.adv_unknown(st, site, True)
        if k == "ff":
            out = self.adv_unknown(st, site, True)
            for t in out:
                u = self.ensure(t, t.cur)
                t.chars[u] = (((v[1], v[1]),), False)
            return out
        return self.adv_unknown(st, site, False)

    def widths(self, st, u):
        """split a state by the encoded width of one of its items"""
        iv = st.chars[u][0]
        w = iv_width(iv)
        if w is not None:
            return [(st, w)]
        out = []
        for lo, hi, w in WIDTHS:
            x = iv_and(iv, ((lo, hi),))
            if x:
                t = st.copy()
                t.chars[u] = (x, st.chars[u][1])
                out.append((t, w))
        return out

    def byte_at(self, st, pid, k):
        """byte k of the text starting at pid: [(state, value or None)]"""
        out = []
        todo = [(st, pid, k)]
        while todo:
            s, p, n = todo.pop()
            for t, u in self.at(s, p):
                if u is None:
                    out.append((t, None))
                    continue
                for q, w in self.widths(t, u):
                    if n >= w:
                        todo.append((q, (p[0], p[1] + 1), n - w))
                    elif w == 1:
                        out.append((q, ("C", u)))
                    else:
                        x = self.fresh(q, ((0x80, 0xBF),) if n else ((0xC2, 0xF4),), False)
                        out.append((q, ("C", x)))
        return out

    def byte_of(self, eng, st, v, ix):
        """bytes[i] inside an expression (cannot split the state)"""
        if ix[0] == "ff":
            return ("i", ix[1])
        if ix[0] == "i":
            r = self.byte_at(st.copy(), v[1], ix[1])
            if len(r) == 1 and r[0][1] is not None:
                return r[0][1] if r[0][1][1] in st.chars else U
        self.blind(st)
        return U

    def blind(self, st):
        """the code looked at text the model does not follow"""
        st.fz = st.fz.union((0,))

    def undecided_branch(self, eng, st):
        """both arms are explored although the items in view may decide between them"""
        s, i = ceil_pid(st.cur)
        sg = st.segs[s]
        if i < len(sg):
            st.fz = st.fz.union([-u for u in sg[i:i + 3] if st.chars.get(u, NOINFO) != NOINFO])

    def undec(self, what, site):
        k = (what, site[0]["key"], site[1])
        self.undecided[k] = self.undecided.get(k, 0) + 1

    def set_position(self, eng, st, v, site):
        eng_ref[0] = eng
        self.counts["setpos"] += 1
        if v[0] == "p":
            tgt = (v[1], v[2])
            if tgt > st.cur:
                self.note_orig(st, site, FULL)
            st.cur = tgt
            if st.orig is not None and (st.done == st.cur):
                st.orig = None
            return [st]
        if v[0] == "plen":
            e, n = self.ateof(st.copy(), st.cur)
            for t in n:
                self.jump(t, site)
                u = self.ensure(t, t.cur)
                t.chars[u] = (EMPTY, True)
            return e + n
        self.undec("set_position to an untracked offset", site)
        return [self.lost(st)]

    def lost(self, st):
        st.env = {k: map_vals(v, lambda p: None, lambda u: None) for k, v in st.env.items()}
        st.env = {k: v for k, v in st.env.items() if v != U}
        st.segs = ((),)
        st.bases = (0,)
        st.chars = {}
        st.cur = (0, 0)
        st.done = "?"
        st.orig = None
        st.marks = {}
        return st

    def havoc_stream(self, eng, st, name, site):
        self.undec("stream handed to unmodelled function " + name, site)
        return [(self.lost(st), U)]

    # ---------------------------------------------------------------- token emission
    def push(self, eng, st, tok, site):
        self.counts["push"] += 1
        eng_ref[0] = eng
        s = e = U
        if tok[0] == "E":
            for n, v in tok[3]:
                if n == "span":
                    v = eng.strip(st, v)
                    if v[0] == "E":
                        d = dict(v[3])
                        s, e = d.get("start", U), d.get("end", U)
        if s[0] == "plen" and e[0] == "plen":
            # the zero-width end marker
            if st.done == "?":
                self.undec("end marker after an untracked position", site)
            elif st.done > st.cur:
                self.emit(eng, st, "beyond", site, None, "the last token ends after the final position")
            elif st.done != st.cur:
                self.report_gap(eng, st, site, "before the end marker")
            es, ns = self.ateof(st.copy(), st.cur)
            if ns:
                self.emit(eng, st, "early-end", site, None, "end marker pushed while input may remain")
            if es:
                st = es[0]
            st.done = st.cur
            st.orig = None
            return [(st, UNIT)]
        if s[0] != "p" or e[0] != "p" or st.done == "?":
            self.undec("token span not tracked", site)
            if e[0] == "p" and (e[1], e[2]) <= st.cur:
                st.done = (e[1], e[2])
            else:
                st.done = "?" if e[0] != "p" else (e[1], e[2])
            st.orig = None
            if st.done == "?" and e == U:
                # most likely an offset computed from the current position
                st.done = st.cur
            return [(st, UNIT)]
        sp, ep = (s[1], s[2]), (e[1], e[2])
        if ep < sp:
            self.emit(eng, st, "reversed", site)
        if ep != sp:
            for x in (sp, ep):
                if x[1].__class__ is float:
                    self.emit_mid(eng, st, "split", site, x)
        if sp > st.done:
            self.report_gap(eng, st, site, "")
        elif sp < st.done and ep > sp:
            self.emit(eng, st, "overlap", site, None, "token starts before the end of the previous one")
        self.discharged.add((site[0]["key"], site[1]))
        if ep[1].__class__ is int and st.cur[1].__class__ is int:
            st.mo = None
        if ep > sp:
            st.fz = frozenset(u for u in st.fz if u > 0)
        st.done = ep
        st.orig = None
        if ep != sp and (ep[1].__class__ is float or sp[1].__class__ is float):
            ep = self.resync(st)
        if ep < st.cur:
            st.orig = (site[0]["key"], "%s:%d" % (site[0]["file"], site[1]), st.chars[self.item_at(st, ep)][0] if self.item_at(st, ep) else FULL)
            if self.is_core(site[0]):
                st.orig = ("core:", "", st.orig[2])
        return [(st, UNIT)]

    def resync(self, st):
        """after a reported defect the analysis goes on from character boundaries"""
        cur, done = st.cur, st.done
        fl = lambda p: ceil_pid(p) if p == cur or p == done else (p[0], int(p[1]))
        st.env = {k: map_vals(v, fl, lambda u: u) for k, v in st.env.items()}
        st.cur = ceil_pid(st.cur)
        st.done = ceil_pid(st.done)
        st.marks = {h: (fl(m[0]), m[1]) for h, m in st.marks.items()}
        self.ensure(st, st.done)
        self.ensure(st, st.cur)
        st.mo = None
        return st.done

    def report_gap(self, eng, st, site, note):
        if st.done.__class__ is tuple and st.done[1].__class__ is float:
            return self.emit_mid(eng, st, "split", site, st.done)
        o = st.orig
        u = self.item_at(st, st.done) if st.done.__class__ is tuple else None
        if u in st.fz or u is not None and -u in st.fz:
            return self.undec("uncovered text after an undecided test of it", site)
        iv = o[2] if o else FULL
        u = self.item_at(st, st.done)
        if u is not None:
            iv2 = iv_and(iv, st.chars[u][0])
            iv = iv2 or iv
        if o is None or o[0] == "core:":
            self.emit(eng, st, "gap", site, iv, "")
            return
        k = ("gap", o[0], o[1].rsplit(":", 1)[0], int(o[1].rsplit(":", 1)[1]), "")
        eng.events[k] = iv_or(eng.events.get(k, EMPTY), iv)

    def finish(self, eng, st, site):
        self.counts["finish"] += 1
        if st.done != "?" and st.done > st.cur:
            self.emit(eng, st, "beyond", site, None, "the last token ends after the final position")
        elif st.done != "?" and st.done != st.cur:
            self.report_gap(eng, st, site, "at finish")
        es, ns = self.ateof(st.copy(), st.cur)
        res = U
        if ns:
            iv = FULL
            u = self.item_at(ns[0], ns[0].cur)
            if u is not None:
                iv = ns[0].chars[u][0]
            self.emit(eng, st, "early-end", site, iv, "finish while input may remain")

    # ---------------------------------------------------------------- helpers
    def charset_arg(self, eng, st, v):
        """set of characters denoted by a pattern value, or None"""
        v = eng.strip(st, v)
        if v[0] == "i":
            return ((v[1], v[1]),)
        if v[0] == "T":
            out = []
            for x in v[1]:
                x = eng.strip(st, x)
                if x[0] != "i":
                    return None
                out.append((x[1], x[1]))
            return iv_norm(out)
        return None

    def starts_with(self, eng, st, pid, pat, consume, site):
        """-> [(state, bool value)]"""
        v = eng.strip(st, pat)
        if v[0] != "s":
            # unknown pattern
            self.blind(st)
            e, n = self.ateof(st.copy(), pid)
            out = [(t, ("i", 0)) for t in e]
            for t in n:
                out.append((t.copy(), ("i", 0)))
                if consume:
                    self.jump(t, site)
                out.append((t, ("i", 1)))
            return out
        text = v[1]
        if text == "":
            return [(st, ("i", 1))]
        out = []
        cur = [(st.copy(), ceil_pid(pid))]
        for idx, ch in enumerate(text):
            c = ord(ch)
            nxt = []
            for s, p in cur:
                u = self.ensure(s, p)
                if u is None:
                    u = self.fresh(s)
                iv, e = s.chars[u]
                hit = iv_and(iv, ((c, c),))
                miss = iv_minus(iv, ((c, c),))
                if miss or e:
                    f = s.copy()
                    f.chars[u] = (miss, e)
                    out.append((f, ("i", 0)))
                if hit:
                    s.chars[u] = (hit, False)
                    nxt.append((s, (p[0], p[1] + 1)))
            cur = nxt
        for s, p in cur:
            if consume:
                if s.cur[1].__class__ is float:
                    for t in self.adv_const(s, len(text.encode()), site):
                        out.append((t, ("i", 1)))
                    continue
                for _ in text:
                    self.step(s, site)
            out.append((s, ("i", 1)))
        # joining the failures keeps the case split small when only the tail differs
        return out

    def pred_call(self, eng, st, pred, arg, site):
        """evaluate a closure predicate on one item: [(state, truth)]"""
        c = eng.strip(st, pred)
        r = eng.call_value(st, c, pred, [arg], site)
        if r is None:
            if c[0] == "u" or c[0] == "fn":
                nm = c[1].rsplit("::", 1)[-1] if c[0] == "fn" and isinstance(c[1], str) else ""
                if nm in CHAR_PRED and arg[0] == "C":
                    may, must = CHAR_PRED[nm]
                    return self.split(eng, st, eng.inset(st, arg[1], may, must))
            return [(st.copy(), True), (st, False)]
        out = []
        for s, v in r:
            out += self.split(eng, s, v)
        return out

    def split(self, eng, st, v):
        if v[0] == "i":
            return [(st, bool(v[1]))]
        out = []
        for truth in (True, False):
            for s in eng.assume(st.copy(), v, truth):
                out.append((s, truth))
        return out

    def take_while(self, eng, st, pred, site, byte=False, sets=None):
        """cursor-level take_while: zero or more items satisfying pred, then one that does not"""
        if st.cur[1].__class__ is float:
            if not byte:
                self.emit_mid(eng, st, "split", site, st.cur)
            start = ("p",) + st.cur
            st.cur = ceil_pid(st.cur)
            return [(t, ("E", "core::range::Range", "Range", (("start", start), ("end", ("p",) + t.cur)))) for t, _ in self.take_while(eng, st, pred, site, byte, sets)]
        start = ("p",) + st.cur
        out = []
        stk = [(st, 0)]
        while stk:
            s, phase = stk.pop()
            for t, u in self.at(s.copy(), s.cur):
                if u is None:
                    out.append(t)
                    continue
                if sets is not None:
                    res = self.split(eng, t, eng.inset(t, u, sets[0], sets[1]))
                elif byte:
                    res = self.byte_pred(eng, t, pred, u, site)
                else:
                    t.env["%tw"] = ("C", u)
                    res = self.pred_call(eng, t, pred, ("C", u), site)
                for r, truth in res:
                    uu = r.env.pop("%tw", None)
                    if truth:
                        if phase >= 1:
                            continue
                        self.jump(r, site)
                        stk.append((r, 1))
                    else:
                        out.append(r)
        res = []
        for t in out:
            t.env.pop("%tw", None)
            res.append((t, ("E", "core::range::Range", "Range", (("start", start), ("end", ("p",) + t.cur)))))
        # start may have been invalidated only if positions were re-scanned
        return res

    def byte_pred(self, eng, st, pred, u, site):
        """predicate on the first byte of an item; ASCII items are their own byte"""
        iv = st.chars[u][0]
        out = []
        a = iv_and(iv, ASCII)
        if a:
            t = st.copy()
            t.chars[u] = (a, False)
            t.env["%tw"] = ("C", u)
            out += self.pred_call(eng, t, pred, ("C", u), site)
        b = iv_minus(iv, ASCII)
        if b:
            t = st.copy()
            t.chars[u] = (b, False)
            t.env["%tw"] = ("C", u)
            out += self.pred_call(eng, t, pred, U, site)
        return out

    def arith(self, eng, st, op, a, b):
        if op == "Add":
            if b[0] == "p":
                a, b = b, a
            if a[0] == "p":
                pid = (a[1], a[2])
                if pid[1].__class__ is float:
                    return a if b == ("i", 0) else U
                if b[0] == "i" and b[1] == 0:
                    return a
                if b[0] == "l8":
                    u = self.item_at(st, pid)
                    if u == b[1]:
                        return ("p", pid[0], pid[1] + 1)
                    return U
                if b[0] == "i":
                    s, i = pid
                    n = b[1]
                    sg = st.segs[s]
                    while n > 0 and i < len(sg):
                        w = iv_width(st.chars[sg[i]][0])
                        if w is None or w > n:
                            return U
                        n -= w
                        i += 1
                    return ("p", s, i) if n == 0 else U
                if b[0] == "rlen":
                    return ("plen",)
                return U
            if a[0] == "l8" and b[0] == "i" and b[1] >= 0 or a[0] == "i" and b[0] == "l8" and a[1] >= 0:
                return ("nz",)
            if a[0] in ("nz", "l8") and b[0] in ("nz", "l8"):
                return ("nz",)
            if a[0] == "nz" and b[0] == "i" and b[1] >= 0 or b[0] == "nz" and a[0] == "i" and a[1] >= 0:
                return ("nz",)
            return U
        if op == "Sub":
            if a[0] == "p" and b[0] == "p":
                if a == b:
                    return ("i", 0)
                if a > b:
                    # known small distance?
                    if a[2].__class__ is float or b[2].__class__ is float:
                        return ("nz",)
                    if a[1] == b[1]:
                        n = 0
                        for i in range(b[2], a[2]):
                            w = iv_width(st.chars[st.segs[a[1]][i]][0]) if i < len(st.segs[a[1]]) else None
                            if w is None:
                                return ("nz",)
                            n += w
                        return ("i", n)
                    return ("nz",)
            return U
        return U

    def compare(self, eng, st, op, a, b):
        if a[0] == "p" and b[0] == "p":
            x, y = (a[1], a[2]), (b[1], b[2])
            r = {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
            return ("i", int(r))
        if b[0] == "p" and a[0] == "plen":
            sw = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            return self.compare(eng, st, sw, b, a)
        if a[0] == "p" and b[0] == "plen":
            q = ("eofq", (a[1], a[2]))
            if op in ("Lt", "Ne"):
                return ("not", q)
            if op in ("Ge", "Eq"):
                return q
            return ("i", 1 if op == "Le" else 0)
        if a[0] == "rlen" and b[0] == "i" and b[1] > 0:
            # length compared with a small constant
            q = lambda n: ("lenq", a[1], n)       # length >= n
            n = b[1]
            return {"Ge": q(n), "Lt": ("not", q(n)), "Gt": q(n + 1), "Le": ("not", q(n + 1))}.get(op, None)
        if a[0] == "i" and b[0] in ("rlen", "nz", "l8"):
            sw = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            return self.compare(eng, st, sw, b, a)
        if a[0] == "rlen" and b[0] == "i" and b[1] == 0:
            q = ("eofq", a[1])
            return {"Eq": q, "Le": q, "Ne": ("not", q), "Gt": ("not", q), "Ge": ("i", 1), "Lt": ("i", 0)}[op]
        if a[0] in ("nz", "l8") and b[0] == "i" and b[1] == 0:
            return {"Eq": ("i", 0), "Le": ("i", 0), "Ne": ("i", 1), "Gt": ("i", 1), "Ge": ("i", 1), "Lt": ("i", 0)}[op]
        if a[0] == "E" and b[0] == "E" and op in ("Eq", "Ne"):
            return self.structeq(eng, st, op, a, b)
        return None

    def structeq(self, eng, st, op, a, b):
        if a[2] != b[2]:
            return ("i", int(op == "Ne"))
        if not a[3]:
            return ("i", int(op == "Eq"))
        if len(a[3]) == 1 and len(b[3]) == 1:
            x, y = eng.strip(st, a[3][0][1]), eng.strip(st, b[3][0][1])
            return eng.compare(st, op, x, y)
        return U

    def assume(self, eng, st, v, truth):
        if v[0] == "eofq":
            e, n = self.ateof(st, v[1])
            return e if truth else n
        if v[0] == "lenq":
            out = []
            todo = [(st, v[1], v[2])]
            while todo:
                s, p, n = todo.pop()
                if n <= 0:
                    if truth:
                        out.append(s)
                    continue
                for t, u in self.at(s, p):
                    if u is None:
                        if not truth:
                            out.append(t)
                        continue
                    for q, w in self.widths(t, u):
                        todo.append((q, (p[0], p[1] + 1), n - w))
            return out
        return None

    # ---------------------------------------------------------------- calls
    def call(self, eng, st, name, args, callee, site):
        eng_ref[0] = eng
        short = name.rsplit("::", 1)[-1]
        if name.startswith("oak_core::source::cursor::SourceCursor::"):
            return self.cursor_call(eng, st, short, args, site)
        if name.startswith("oak_core::lexer::LexerState::"):
            args = [LS] + args[1:] if args else args
            r = self.state_call(eng, st, short, args, site)
            if r is not None:
                return r
            return None
        f = callee.get("f", name)
        fs = f.rsplit("::", 1)[-1]
        a0 = args[0] if args else U
        if name == "alloc::vec::Vec::push" and a0 == TOKS:
            return self.push(eng, st, args[1], site)
        if a0 == TOKS:
            if fs in ("len", "last", "is_empty", "deref", "as_slice", "iter", "get", "first"):
                return [(st, U)]
            if fs in ("into",):
                return [(st, U)]
            self.undec("token list touched by " + name, site)
            return [(st, U)]
        if f == "oak_core::source::Source::length" and a0 == SRC:
            return [(st, ("plen",))]
        if f == "oak_core::source::Source::get_char_at" and a0 == SRC:
            return self.state_call(eng, st, "get_char_at", args, site)
        if f.startswith("oak_core::source::Source::") and a0 == SRC:
            self.blind(st)
            return [(st, U)]
        if f.startswith("oak_core::source::Source::"):
            return [(st, ("plen",) if fs == "length" and self.single_source else U)]
        if f == "oak_core::lexer::LexerCache::set_lex_output":
            self.counts["cached"] = self.counts.get("cached", 0) + 1
            return [(st, UNIT)]
        if name.startswith("char::") or f.startswith("char::"):
            return self.char_call(eng, st, fs, args, site)
        return self.std_call(eng, st, name, f, fs, args, callee, site)

    single_source = True

    def char_call(self, eng, st, fs, args, site):
        v = eng.strip(st, args[0]) if args else U
        if fs == "len_utf8":
            if v[0] == "C":
                w = iv_width(st.chars.get(v[1], NOINFO)[0])
                return [(st, ("i", w) if w is not None else ("l8", v[1]))]
            if v[0] == "i":
                return [(st, ("i", width(v[1])))]
            return [(st, ("nz",))]
        if fs in CHAR_PRED:
            may, must = CHAR_PRED[fs]
            if v[0] == "C":
                return [(st, eng.inset(st, v[1], may, must))]
            if v[0] == "i":
                c = ((v[1], v[1]),)
                if iv_and(c, must):
                    return [(st, ("i", 1))]
                if not iv_and(c, may):
                    return [(st, ("i", 0))]
            return [(st, U)]
        if fs == "is_digit" and v[0] == "C" and args[1][0] == "i":
            r = args[1][1]
            s = iv_norm([(48, 48 + min(r, 10) - 1)] + ([(97, 97 + r - 11), (65, 65 + r - 11)] if r > 10 else []))
            return [(st, eng.inset(st, v[1], s, s))]
        if fs == "eq_ignore_ascii_case":
            w = eng.strip(st, args[1])
            if v[0] == "C" and w[0] == "i":
                s = iv_norm([(ord(c), ord(c)) for c in {chr(w[1]).lower(), chr(w[1]).upper()}])
                return [(st, eng.inset(st, v[1], s, s))]
        return [(st, U)]

    def cursor_call(self, eng, st, short, args, site):
        v = args[1] if len(args) > 1 else U
        if short == "position":
            return [(st, ("p",) + st.cur)]
        if short == "set_position":
            old = ("p",) + st.cur
            res = []
            for t in self.set_position(eng, st, v, site):
                o = old if old[1] < len(t.segs) else U
                res.append((t, o))
            return res
        if short == "source":
            return [(st, SRC)]
        if short == "advance_bytes":
            return [(t, ("p",) + t.cur) for t in self.advance(eng, st, v, site)]
        if short in ("peek_char",):
            return [(t, some(("C", u)) if u is not None else NONE) for t, u in self.at(st, st.cur)]
        if short == "peek_byte":
            return self.as_bytes(self.at(st, st.cur))
        if short == "advance_char":
            out = []
            for t, u in self.at(st, st.cur):
                if u is None:
                    out.append((t, NONE))
                else:
                    self.step(t, site)
                    out.append((t, some(("C", u))))
            return out
        if short == "advance_byte":
            out = []
            for t, u in self.at(st, st.cur):
                if u is None:
                    out.append((t, NONE))
                else:
                    for q in self.adv_const(t, 1, site):
                        out.append((q, some(("C", u) if iv_width(q.chars.get(u, NOINFO)[0]) == 1 else U)))
            return out
        if short == "peek_next_char" and st.cur[1].__class__ is float:
            return self.peek_n(eng, st, U)
        if short == "peek_next_char":
            return [(t, some(("C", u)) if u is not None else NONE) for t, u in self.look(st, st.cur, 1)]
        if short == "peek_next_n":
            return self.peek_n(eng, st, v)
        if short == "rest":
            # from inside a character the core returns the empty string
            return [(st, ("rest", st.cur) if st.cur[1].__class__ is int else ("s", ""))]
        if short == "chunk_end":
            return [(st, U)]
        if short == "starts_with":
            return self.starts_with(eng, st, st.cur, v, False, site)
        if short == "consume_if_starts_with":
            return self.starts_with(eng, st, st.cur, v, True, site)
        if short == "take_while":
            return self.take_while(eng, st, v, site)
        if short == "take_while_byte":
            return self.take_while(eng, st, v, site, byte=True)
        if short == "skip_ascii_whitespace":
            s = iv_str(" \t\n\r")
            return self.take_while(eng, st, U, site, sets=(iv_str(" \t\n\r\x0b\x0c"), s))
        if short == "skip_ascii_digits":
            return self.take_while(eng, st, U, site, sets=(DIG, DIG))
        if short == "skip_ascii_ident_continue":
            s = iv_or(ALNUM, iv_str("_"))
            return self.take_while(eng, st, U, site, sets=(s, s))
        if short == "skip_until":
            if v[0] == "i":
                s = iv_not(((v[1], v[1]),))
                return self.take_while(eng, st, U, site, sets=(s, s))
            return self.take_while(eng, st, U, site)
        if short in ("find_str", "find_char"):
            self.blind(st)
            return [(st, U)]
        if short in ("new", "new_at"):
            return [(st, CUR)]
        return [(st, U)]

    def as_bytes(self, lst):
        out = []
        for t, u in lst:
            if u is None:
                out.append((t, NONE))
                continue
            iv = t.chars[u][0]
            a, b = iv_and(iv, ASCII), iv_minus(iv, ASCII)
            if a and b:
                t2 = t.copy()
                t2.chars[u] = (b, False)
                out.append((t2, some(U)))
            elif b:
                out.append((t, some(U)))
                continue
            t.chars[u] = (a, False)
            out.append((t, some(("C", u))))
        return out

    def peek_n(self, eng, st, v):
        """peek at the char `v` bytes ahead"""
        if v[0] == "l8":
            u = self.item_at(st, st.cur)
            if u == v[1] and st.cur[1].__class__ is int:
                return [(t, some(("C", x)) if x is not None else NONE) for t, x in self.look(st, st.cur, 1)]
            v = U
        if v[0] != "i" or v[1] > 24:
            self.blind(st)
            t = st.copy()
            u = self.fresh(t, FULL, False)
            return [(t, some(("C", u))), (st, NONE)]
        out = []
        todo = [(st, st.cur, v[1])]
        c = st.cur
        if c[1].__class__ is float:
            i = int(c[1])
            left = int((i + 1 - c[1]) * 4)
            if v[1] < left:
                return [(st, NONE)]
            todo = [(st, ceil_pid(c), v[1] - left)]
        while todo:
            s, p, n = todo.pop()
            for t, u in self.at(s, p):
                if u is None:
                    out.append((t, NONE))
                    continue
                if n == 0:
                    out.append((t, some(("C", u))))
                    continue
                iv = t.chars[u][0]
                w = iv_width(iv)
                if w is not None and w <= n:
                    todo.append((t, (p[0], p[1] + 1), n - w))
                elif w is not None:
                    out.append((t, NONE))
                else:
                    a = iv_and(iv, ASCII)
                    b = iv_minus(iv, ASCII)
                    if a:
                        t2 = t.copy()
                        t2.chars[u] = (a, False)
                        todo.append((t2, (p[0], p[1] + 1), n - 1))
                    t.chars[u] = (b, False)
                    for lo, hi, w in WIDTHS[1:]:
                        x = iv_and(b, ((lo, hi),))
                        if x:
                            t3 = t.copy()
                            t3.chars[u] = (x, False)
                            if w <= n:
                                todo.append((t3, (p[0], p[1] + 1), n - w))
                            else:
                                out.append((t3, NONE))
        return out

    def state_call(self, eng, st, short, args, site):
        if short in ("new", "new_with_cache"):
            self.counts["new"] += 1
            if st.live:
                self.undec("a second lexer state is created", site)
                return [(self.lost(st), U)]
            st.live = True
            st.segs = ((),)
            st.bases = (0,)
            st.cur = st.done = (0, 0)
            st.orig = None
            return [(st, LS)]
        if short == "finish":
            v = eng.strip(st, args[1]) if len(args) > 1 else U
            if v[0] == "E" and v[2] == "Err":
                return [(st, U)]
            self.finish(eng, st, site)
            return [(st, U)]
        if short == "get_text_in":
            r = eng.strip(st, args[1]) if len(args) > 1 else U
            if r[0] == "E":
                b, e = dict(r[3]).get("start", U), dict(r[3]).get("end", U)
                if b[0] == "p" and b == e:
                    return [(st, ("s", ""))]        # the text of an empty range
            self.blind(st)
            return [(st, U)]
        if short in ("get_char_at", "get_text_from", "get_tokens", "add_error", "rest_bytes", "tokens", "get_length"):
            if short == "get_text_from":
                self.blind(st)
            if short == "rest_bytes" and st.cur[1].__class__ is int:
                return [(st, ("rb", st.cur))]
            if short == "get_length":
                return [(st, ("plen",))]
            if short == "get_char_at":
                v = args[1]
                if v[0] == "p":
                    pid = (v[1], v[2])
                    if pid[1].__class__ is float:
                        return [(st, NONE)]
                    return [(t, some(("C", u)) if u is not None else NONE) for t, u in self.at(st, pid)]
                self.blind(st)
                return [(st, U)]
            if short == "tokens":
                return [(st, TOKS)]
            return [(st, UNIT if short == "add_error" else U)]
        return None

    # ---------------------------------------------------------------- standard library
    def std_call(self, eng, st, name, f, fs, args, callee, site):
        a0 = args[0] if args else U
        if f.startswith("core::cmp::PartialEq::") and len(args) == 2 and fs in ("eq", "ne"):
            a, b = eng.strip(st, args[0]), eng.strip(st, args[1])
            op = "Eq" if fs == "eq" else "Ne"
            if a[0] == "u" or b[0] == "u":
                return [(st, U)]
            return [(st, eng.compare(st, op, a, b))]
        if f.startswith("core::cmp::PartialOrd::") and len(args) == 2 and fs in ("lt", "le", "gt", "ge"):
            a, b = eng.strip(st, args[0]), eng.strip(st, args[1])
            return [(st, eng.compare(st, fs.capitalize(), a, b))]
        if f.startswith("core::option::Option::") or f.startswith("core::result::Result::"):
            r = self.option_call(eng, st, fs, args, site)
            if r is not None:
                return r
        if f == "core::ops::try_trait::Try::branch":
            v = a0
            if v[0] == "E" and v[2] in ("Ok", "Some"):
                return [(st, ("E", "core::ops::control_flow::ControlFlow", "Continue", (("0", v[3][0][1]),)))]
            if v[0] == "E" and v[2] in ("Err", "None"):
                return [(st, ("E", "core::ops::control_flow::ControlFlow", "Break", (("0", v),)))]
            if v[0] == "u":
                t = st.copy()
                g = callee.get("g", [""])[0]
                res = ("E", "core::result::Result", "Err", (("0", U),)) if g.startswith("core::result") else (NONE if g.startswith("core::option") else U)
                return [(st, ("E", "core::ops::control_flow::ControlFlow", "Continue", (("0", U),))),
                        (t, ("E", "core::ops::control_flow::ControlFlow", "Break", (("0", res),)))]
        if f == "core::ops::try_trait::FromResidual::from_residual":
            return [(st, a0)]
        if f == "core::ops::try_trait::Try::from_output":
            g = callee.get("g", [""])[0]
            return [(st, ok(a0) if g.startswith("core::result") else some(a0))]
        if f in ("core::convert::Into::into", "core::convert::From::from", "core::clone::Clone::clone", "core::convert::AsRef::as_ref", "core::borrow::Borrow::borrow",
                 "core::ops::deref::Deref::deref", "alloc::borrow::ToOwned::to_owned", "core::iter::traits::collect::IntoIterator::into_iter", "std::sync::lazy_lock::LazyLock::force"):
            fn = eng.fns.get(name)
            if fn is not None and f in ("core::convert::Into::into", "core::convert::From::from", "core::ops::deref::Deref::deref"):
                return None
            v = eng.strip(st, a0) if f not in ("core::iter::traits::collect::IntoIterator::into_iter",) else a0
            if f.endswith("into_iter"):
                it = self.iterator(eng, st, v)
                if it is not None:
                    return [(st, it)]
            if v[0] == "T" and (f.startswith("core::ops::deref") or f.endswith("force") or f.endswith("as_ref") or f.endswith("borrow")):
                return [(st, ("rv", v))]
            if v[0] in ("C", "i", "p", "s", "E", "tag", "rest", "l8", "plen"):
                if f.startswith("core::ops::deref") or f.endswith("force") or f.endswith("as_ref"):
                    return [(st, v if v[0] in ("tag", "s", "rest") else ("rv", v))]
                return [(st, v)]
            if f.endswith("into_iter"):
                if v[0] == "rest":
                    return [(st, v)]
                self.touch(eng, st, v)
                return [(st, U)]
            return [(st, U)]
        if f.startswith("core::ops::bit::Not::not"):
            v = eng.strip(st, a0)
            if v[0] == "i":
                return [(st, ("i", 1 - v[1]))]
            return [(st, U)]
        if f.startswith("core::ops::range::Range") or f.startswith("core::range::Range"):
            if fs == "contains":
                r = eng.strip(st, a0)
                v = eng.strip(st, args[1])
                if r[0] == "E" and v[0] == "C":
                    d = dict(r[3])
                    lo, hi = d.get("start", U), d.get("end", d.get("last", U))
                    lo, hi = eng.strip(st, lo), eng.strip(st, hi)
                    if lo[0] == "i" and hi[0] == "i":
                        h = hi[1] if r[2] != "Range" else hi[1] - 1
                        return [(st, eng.inset(st, v[1], ((lo[1], h),), ((lo[1], h),)))]
                return [(st, U)]
            if f.endswith("RangeInclusive::new"):
                return [(st, ("E", "core::ops::range::RangeInclusive", "RangeInclusive", (("start", a0), ("end", args[1]))))]
            if fs == "is_empty":
                r = eng.strip(st, a0)
                if r[0] == "E":
                    d = dict(r[3])
                    s, e = d.get("start", U), d.get("end", U)
                    if s[0] == "p" and e[0] == "p":
                        return [(st, ("i", int(s >= e)))]
                return [(st, U)]
        if fs == "find_first_of_4" and len(args) == 5:
            b = eng.strip(st, a0)
            if b[0] == "rb" and b[1] == st.cur:
                cs = ()
                for x in args[1:]:
                    x = eng.strip(st, x)
                    if x[0] == "i":
                        cs = iv_or(cs, ((x[1], x[1]),))
                    elif x[0] == "C":
                        cs = iv_or(cs, st.chars.get(x[1], NOINFO)[0])
                    else:
                        cs = None
                        break
                if cs and sum(h - l + 1 for l, h in cs) <= 6 and not iv_minus(cs, ASCII):
                    out = []
                    for t, u in self.at(st, b[1]):
                        if u is None:
                            out.append((t, NONE))
                            continue
                        iv = t.chars[u][0]
                        for c in iv_chars_of(cs):
                            x = iv_and(iv, ((c, c),))
                            if x:
                                q = t.copy()
                                q.chars[u] = (x, False)
                                out.append((q, some(("i", 0))))
                        x = iv_minus(iv, cs)
                        if x:
                            t.chars[u] = (x, False)
                            for c in iv_chars_of(cs):
                                out.append((t.copy(), some(("ff", c))))
                            out.append((t, NONE))
                    return out
        if fs in ("get_unchecked", "get", "index", "first") and a0[0] in ("rb", "ref", "rv"):
            b = eng.strip(st, a0)
            if b[0] == "rb":
                ix = args[1] if len(args) > 1 else ("i", 0)
                if ix[0] == "ff":
                    return [(st, some(("i", ix[1])) if fs == "get" else ("rv", ("i", ix[1])))]
                if ix[0] == "i":
                    out = []
                    for t, v in self.byte_at(st, b[1], ix[1]):
                        if v is None:
                            if fs in ("get", "first"):
                                out.append((t, NONE))
                            continue
                        out.append((t, some(("rv", v)) if fs in ("get", "first") else ("rv", v)))
                    return out
                self.blind(st)
                return [(st, U)]
        if f in ("slice::len", "core::slice::len", "slice::is_empty") and a0[0] in ("rb", "ref", "rv"):
            b = eng.strip(st, a0)
            if b[0] == "rb":
                return [(st, ("rlen", b[1]) if fs == "len" else ("eofq", b[1]))]
        if fs == "contains" and len(args) == 2:
            s = eng.strip(st, a0)
            v = eng.strip(st, args[1])
            cs = None
            if s[0] == "s":
                cs = iv_str(s[1])
                if v[0] == "s":
                    return [(st, ("i", int(v[1] in s[1])))]
            elif s[0] == "T":
                cs = self.charset_arg(eng, st, s)
            if cs is not None and v[0] == "C":
                return [(st, eng.inset(st, v[1], cs, cs))]
            if cs is not None and v[0] == "i":
                return [(st, ("i", int(bool(iv_and(cs, ((v[1], v[1]),))))))]
            return [(st, U)]
        if f.startswith("str::") or f.startswith("core::str::") or f.startswith("alloc::str::"):
            s = eng.strip(st, a0)
            if s[0] == "rest" and s[1] == st.cur:
                if fs == "is_empty":
                    return [(st, ("eofq", s[1]))]
                if fs == "len":
                    return [(st, ("rlen", s[1]))]
                if fs in ("chars", "as_bytes", "char_indices", "bytes"):
                    if fs == "as_bytes":
                        return [(st, ("rb", s[1]))]
                    if fs != "chars":
                        self.blind(st)
                    return [(st, s if fs == "chars" else U)]
                if fs == "starts_with":
                    p = eng.strip(st, args[1])
                    if p[0] == "s":
                        return self.starts_with(eng, st, s[1], p, False, site)
                    cs = self.charset_arg(eng, st, p)
                    if cs is not None:
                        out = []
                        for t, u in self.at(st, s[1]):
                            if u is None:
                                out.append((t, ("i", 0)))
                            else:
                                out.append((t, eng.inset(t, u, cs, cs)))
                        return out
                    self.blind(st)
                    return [(st, U)]
            if s[0] == "rest":
                self.blind(st)
            if s[0] == "s":
                p = eng.strip(st, args[1]) if len(args) > 1 else U
                if fs in ("starts_with", "ends_with") and p[0] == "s":
                    return [(st, ("i", int(s[1].startswith(p[1]) if fs == "starts_with" else s[1].endswith(p[1]))))]
                if fs == "len":
                    return [(st, ("i", len(s[1].encode())))]
                if fs == "is_empty":
                    return [(st, ("i", int(not s[1])))]
            return [(st, U)]
        if f in ("slice::iter", "core::slice::iter", "str::chars", "core::str::chars"):
            it = self.iterator(eng, st, a0)
            if it is not None:
                return [(st, it)]
        if f.startswith("core::iter::traits::iterator::Iterator::") and fs in ("enumerate", "copied", "cloned") and a0[0] == "it":
            return [(st, a0[:3] + (1,) if fs == "enumerate" else ("it", tuple(eng.strip(st, x) for x in a0[1]), a0[2], a0[3]))]
        if f == "core::iter::traits::iterator::Iterator::next":
            v = a0
            s = eng.strip(st, a0)
            if s[0] == "it" and v[0] == "ref":
                _, vals, i, en = s
                if i >= len(vals):
                    return [(st, NONE)]
                eng.write_root(st, v[1], tuple(v[2]), ("it", vals, i + 1, en))
                x = vals[i]
                return [(st, some(("T", (("i", i), x)) if en else x))]
            if s[0] == "rest" and s[1] == st.cur:
                res = [(t, some(("C", u)) if u is not None else NONE) for t, u in self.at(st, s[1])]
                for t, _ in res:
                    if v[0] == "ref":
                        eng.write_root(t, v[1], tuple(v[2]), U)
                return res
            self.touch(eng, st, a0)
            t = st.copy()
            g = callee.get("g", [""])[0]
            x = U
            return [(st, NONE), (t, some(x))]
        if f == "core::iter::traits::iterator::Iterator::nth":
            s = eng.strip(st, a0)
            if s[0] == "rest" and s[1] == st.cur and args[1][0] == "i" and args[1][1] < 8:
                return [(t, some(("C", u)) if u is not None else NONE) for t, u in self.look(st, s[1], args[1][1])]
            self.touch(eng, st, a0)
            return [(st, U)]
        return None

    def iterator(self, eng, st, v):
        """iterator over a constant array or literal string, walked element by element"""
        if v[0] == "it":
            return v
        byref = v[0] in ("ref", "rv")
        w = eng.strip(st, v)
        if w[0] == "s":
            return ("it", tuple(("i", ord(c)) for c in w[1]), 0, 0) if len(w[1]) <= 40 else None
        if w[0] != "T" or len(w[1]) > 80:
            return None
        hit = []

        def const(x):
            k = x[0]
            if k in ("i", "s"):
                return True
            if k == "E":
                return all(const(y) for _, y in x[3])
            if k == "T":
                return all(const(y) for y in x[1])
            if k == "rv":
                return const(x[1])
            return False
        vals = []
        for x in w[1]:
            x = eng.deref_all(st, x)
            if x[0] == "T":
                # components that are not constant (token kinds, say) are dropped one by one
                x = ("T", tuple(y if const(y) else U for y in x[1]))
            elif not const(x):
                x = U
            vals.append(("rv", x) if byref else x)
        return ("it", tuple(vals), 0, 0)

    def touch(self, eng, st, v):
        """an iterator or other opaque object moved on"""
        if v[0] == "ref":
            eng.write_root(st, v[1], tuple(v[2]), U)
        st.hv = True
        st.marks = {}
        self.blind(st)

    def option_call(self, eng, st, fs, args, site):
        a = args[0]
        v = eng.strip(st, a)
        isref = a[0] in ("ref", "rv")
        if v[0] == "u":
            if fs in ("map_or", "map", "is_some_and", "and_then", "unwrap_or_else", "map_or_else", "is_none_or", "filter", "or_else", "ok_or_else", "unwrap_or_default"):
                # closures may touch the stream: run them for their effect on an unknown value
                for x in args[1:]:
                    if eng.contains_tag(st, x):
                        return None
                return [(st, U)]
            return [(st, U)]
        if v[0] != "E":
            return None
        has = v[2] in ("Some", "Ok")
        pay = v[3][0][1] if v[3] else U
        if fs in ("is_some", "is_ok"):
            return [(st, ("i", int(has)))]
        if fs in ("is_none", "is_err"):
            return [(st, ("i", int(not has)))]
        if fs in ("unwrap", "expect", "unwrap_unchecked"):
            return [(st, pay)] if has else []
        if fs == "unwrap_or":
            return [(st, pay if has else args[1])]
        if fs in ("unwrap_or_default",):
            return [(st, pay if has else U)]
        if fs in ("copied", "cloned"):
            return [(st, some(eng.strip(st, pay)) if has else NONE)]
        if fs == "as_ref":
            return [(st, ("E", v[1], v[2], (("0", ("rv", pay)),)) if v[3] else v)]
        if fs in ("is_some_and", "is_ok_and"):
            if not has:
                return [(st, ("i", 0))]
            return self.callv(eng, st, args[1], [pay], site)
        if fs == "is_none_or":
            if not has:
                return [(st, ("i", 1))]
            return self.callv(eng, st, args[1], [pay], site)
        if fs == "map_or":
            if not has:
                return [(st, args[1])]
            return self.callv(eng, st, args[2], [pay], site)
        if fs == "map_or_else":
            if not has:
                return self.callv(eng, st, args[1], [], site)
            return self.callv(eng, st, args[2], [pay], site)
        if fs == "map":
            if not has:
                return [(st, v)]
            return [(t, ("E", v[1], v[2], (("0", r),))) for t, r in self.callv(eng, st, args[1], [pay], site)]
        if fs == "and_then":
            if not has:
                return [(st, v)]
            return self.callv(eng, st, args[1], [pay], site)
        if fs == "unwrap_or_else":
            if has:
                return [(st, pay)]
            return self.callv(eng, st, args[1], [], site)
        if fs == "filter":
            if not has:
                return [(st, v)]
            out = []
            for t, r in self.callv(eng, st, args[1], [("rv", pay)], site):
                for q, truth in self.split(eng, t, r):
                    out.append((q, v if truth else NONE))
            return out
        if fs == "ok":
            return [(st, some(pay) if has else NONE)]
        if fs in ("ok_or", "ok_or_else"):
            return [(st, ok(pay) if has else ("E", "core::result::Result", "Err", (("0", U),)))]
        if fs == "or_else":
            if has:
                return [(st, v)]
            return self.callv(eng, st, args[1], [], site)
        return None

    def callv(self, eng, st, c, args, site):
        r = eng.call_value(st, eng.strip(st, c), c, args, site)
        if r is None:
            s = eng.strip(st, c)
            if s[0] == "fn" and isinstance(s[1], str) and s[1].startswith("char::"):
                return self.char_call(eng, st, s[1].rsplit("::", 1)[-1], args, site)
            return [(st, U)]
        return r


eng_ref = [None]
