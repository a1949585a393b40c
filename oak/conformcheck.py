"""Properties decided by comparing functions with their written specification."""
from collections import Counter
import os, re, time
import conform
from sym import Engine, LOOKS

HERE = os.path.dirname(os.path.abspath(__file__))
# library calls that do something beside returning a value; of all others only the result matters
ACTS = re.compile(r"(QueueableCommand|ExecutableCommand)>::|::(flush|write_fmt|write_all|write_str|read_line|read_to_end|read_exact|_print|_eprint)$|^crossterm::(event::read|terminal::\w+able_raw_mode)$"
                  r"|^core::ops::function::Fn(Once|Mut)?::call|^std::fs::(write|create_dir|create_dir_all|remove_\w+|rename|copy)$|^std::fs::File::create|^std::process::|^std::env::set"
                  r"|Watcher>::(un)?watch$|^alloc::alloc::(alloc|dealloc|realloc)|LocalKey::(try_)?with$|^\*mut T::write|::(send|spawn|block_on)$|^log::|^tracing")
# methods of ours without a body to look at (traits users implement) that do something
OURS = re.compile(r"^oak_.*::(prompt|hover|completion|references|diagnostics|definition|document_symbols|search|handle_\w+|visit_\w+|walk_\w+|set_\w+|write_\w+|remove_\w+|update_\w+|parse|lex|infix|prefix|primary|apply_edits_range|replace_range|\w+_generation|initialized?|shutdown|did_\w+)$")


def effectful(specs, E):
    """a call counts as an effect when nothing is known about it and its result may be ignored"""
    cache = {}
    impls = {}
    for k, f in E.fns.items():
        if f.get("trait") and "{closure" not in k and f.get("bbs"):
            impls.setdefault(f["trait"] + "::" + k.split("#")[0].rsplit("::", 1)[-1], f)

    def eff(name):
        r = cache.get(name)
        if r is None:
            r = cache[name] = eff1(name)
        return r

    def eff1(name):
        if name in LOOKS:
            return False
        fn = E.fns.get(name)
        if fn is None or not fn.get("bbs"):
            fn = impls.get(name)
        if fn is not None and fn.get("bbs"):
            # a function of ours kept as given: what it returns is seen in the outcome, effects are not
            ret = fn["locals"][0][0]
            return ret in ("()", "!") or any(l[0].startswith("&mut") for l in fn["locals"][1:fn["argc"] + 1])
        return bool(ACTS.search(name) or OURS.search(name))
    return eff


def population(spec):
    """functions the written specification covers"""
    with open(os.path.join(HERE, "spec", spec + ".spec")) as f:
        return sum(1 for l in f if l.startswith("fn "))


_plain = {}


def plain_of(name, specs):
    """the specification of a plain function, in this property's or in another one's"""
    if name in specs:
        f = specs[name]
        return f if "{closure" not in name and conform.plain(f) else None
    if not _plain:
        for n in sorted(os.listdir(os.path.join(HERE, "spec"))):
            if n.endswith(".spec"):
                for part in open(os.path.join(HERE, "spec", n)).read().split("\nfn "):
                    k = part.split("\n", 1)[0].split(" ")[0]
                    if part.count("\ncase") == 1 and "{closure" not in k:
                        _plain.setdefault(k, "\nfn " + part)
    f = _plain.get(name)
    if isinstance(f, str):
        try:
            f = next(iter(conform.read(f).values()))
            f = f if conform.plain(f) else None
        except Exception:
            f = None
        _plain[name] = f
    return f


def run(spec, crates, floor=None, only=None):
    """only: the functions (pattern) another property relies on"""
    def go(F, res, tier):
        text = open(os.path.join(HERE, "spec", spec + ".spec")).read()
        specs = conform.read(text)
        E = Engine(F, crates)
        tw = conform.twins_of(E)
        eff = effectful(specs, E)
        have = set(E.fns)
        tries, budget, total = (24, 45, 450) if tier == "quick" else (120, 300, 3000)
        t0 = time.time()
        M = Closures(E, specs, tw, eff)
        for k, sp in sorted(specs.items(), key=lambda x: (x[0].count("{closure"), x[0])):
            if only and not re.search(only, k):
                continue
            res.count("functions specified")
            left = total - (time.time() - t0)
            fn = E.fns.get(k)
            if fn is None or not fn.get("bbs"):
                if sp.pub and not moved(k, E):
                    res.add("anchor", "anchor:" + k, "public function %s no longer exists" % k)
                else:
                    res.notes.append("%s no longer exists under this name; not compared" % k)
                continue
            if "{closure" in k and M.to.get(k) != k:
                if M.to.get(k):
                    res.count("functions shown to meet their specification")
                else:
                    res.notes.append("%s is no longer used in this form; not compared" % k)
                continue
            if not sp.pub and sp.takes and sp.takes != conform.takes(E, k):
                res.notes.append("%s: different parameters; not compared" % k)
                continue
            c = M.canon(k, k)
            if c is None or c.partial:
                res.notes.append("%s: not analysable (%s)" % (k, M.why.get(k) or c and c.partial))
                continue
            c = M.matched(sp, c)
            try:
                v = conform.compare(sp, c, tw, effects=eff, tries=tries, budget=max(2, min(budget, left / 8)))
                if v.diffs or v.unknown:        # one side may spell out what the other leaves to a function
                    called = lambda f: Counter(x[1] for x in conform.all_of(f, lambda x: x[0] == "call" and len(x) == 3))
                    ca, cb = called(sp), called(c)
                    use = {n for n in ca.keys() | cb.keys() if n != k and n in have}
                    if any(ca[n] != cb[n] for n in use):
                        given = {n: f for n in use for f in [plain_of(n, specs)] if f}
                    else:
                        given = {}
                    if any(ca[n] != cb[n] for n in given):
                        w = conform.compare(conform.spelled(sp, given), conform.spelled(c, given), tw, effects=eff, tries=tries, budget=max(2, min(budget, left / 8)))
                        w.same = max(v.same, w.same)
                        v = w
                if not v.diffs and v.unknown:
                    extra = conform.inserted(sp, c)
                    if extra:
                        v.diffs.append((c.leaves[0], c.leaves[0], "differs from what is specified in passing values through %s" % ", ".join(extra)))
            except (ArithmeticError, AttributeError, LookupError, TypeError, UnboundLocalError, ValueError, RecursionError) as e:
                res.notes.append("%s: could not be compared (%r)" % (k, e))
                continue
            res.count("guarded outcomes computed", len(c.leaves))
            res.count("outcomes identical to the specification", v.same)
            if v.diffs:
                a, b, r = v.diffs[0]
                res.add("conformance", "fn:" + k, "%s: when %s: %s" % (k, conform.describe(b), r), c.file, c.line)
            elif v.cut:
                res.notes.append("%s: comparison stopped at its time bound" % k)
            elif v.unknown:
                res.notes.append("%s: %s" % (k, v.unknown[0][2]))
            elif v.tried:
                res.count("functions in which no disagreement was found")
            else:
                res.count("functions shown to meet their specification")
        if floor:
            res.floor("functions specified", floor)
    return go


class Closures:
    """which closure of the code stands for which of the specification: by what they do, not by their number"""

    def __init__(s, E, specs, tw, eff):
        s.E, s.specs, s.tw, s.eff = E, specs, tw, eff
        s.to = {}           # closure of the specification -> of the code
        s.cache, s.why = {}, {}

    def canon(s, k, sk):
        """what function k of the code does, looked at as the specification of sk is written"""
        r = s.cache.get((k, sk))
        if r is None:
            try:
                r = conform.canon(s.E, k, s.specs[sk].opaque)
            except Exception as e:          # a construct the analysis does not know
                s.why[k] = repr(e)[:120]
                r = False
            s.cache[k, sk] = r
        return r or None

    def equal(s, sk, k, d):
        """closure k does what sk says; None when that cannot be told"""
        c = s.canon(k, sk)
        if c is None or c.partial:
            return None
        c = s.matched(s.specs[sk], c, d + 1)
        v = conform.compare(s.specs[sk], c, s.tw, effects=s.eff, tries=6, budget=4)
        return False if v.diffs else None if v.unknown or v.cut else True

    def matched(s, sp, c, d=0):
        """the outcomes of the code with its closures named as in the specification"""
        E = s.E
        clos = lambda f: conform.all_of(f, lambda x: x[0] == "clo")
        need, have = {}, {}
        for t in clos(sp):
            need.setdefault(t[1], len(t[2]))
        cl = clos(c)
        for t in cl:
            have.setdefault(t[1], len(t[2]))
        m = {}
        free = sorted(need)
        todo = []
        for i in sorted(have):
            if i in free and i in s.specs and i in E.fns and s.specs[i].takes == conform.takes(E, i) and need[i] == have[i] and s.canon(i, i) and not s.canon(i, i).partial \
                    and {l.key() for l in s.canon(i, i).leaves} == {l.key() for l in s.specs[i].leaves}:
                m[i] = i
                free.remove(i)
            else:
                todo.append(i)
        if d < 4:
            for i in list(todo):
                for k in sorted(free, key=lambda k: (k != i, k)):
                    if k in s.specs and i in E.fns and s.specs[k].takes == conform.takes(E, i) and need[k] == have[i] and s.equal(k, i, d):
                        m[i] = k
                        free.remove(k)
                        todo.remove(i)
                        break
        for i in todo:
            if i in free and i in s.specs and i in E.fns and s.specs[i].takes == conform.takes(E, i) and need[i] == have[i] and len(need) == len(have):
                m[i] = i            # compared in its own right
                free.remove(i)
        for i, k in m.items():
            s.to[k] = i
        ren = {}
        # a function named where the specification has a closure that only calls it, or the other way round
        fi = lambda f: {t[1]: t for t in conform.all_of(f, lambda x: x[0] == "fnitem" and not x[1].endswith("::{ctor}"))}
        named, wanted = fi(c), fi(sp)
        for n, t in named.items():
            if n not in wanted:
                k = next((k for k in free if not need[k] and k in s.specs and forwards(s.specs[k]) == n), None)
                ren[t] = ("clo", k, ()) if k else ("fnitem", n + "!", t[2])
                if k:
                    free.remove(k)
        for t in cl:
            if t[1] in todo and t[1] not in m and not t[2] and s.canon(t[1], t[1]):
                n = forwards(s.canon(t[1], t[1]))
                if n in wanted and n not in named:
                    ren[t] = wanted[n]
        for t in cl:
            if t in ren:
                continue
            n = m.get(t[1])
            if n is None:
                n = t[1] + "!"
            if n != t[1]:
                ren[t] = ("clo", n, t[2])
        # private functions kept as given whose parameters have changed
        for t in conform.all_of(c, lambda x: x[0] == "call" and len(x) == 3 and x[1] in sp.opaque):
            k = t[1]
            if k in s.specs and not s.specs[k].pub and s.specs[k].takes and k in E.fns and s.specs[k].takes != conform.takes(E, k):
                ren[t] = ("call", k + "!", t[2])
        return conform.replaced(c, ren)


def forwards(f):
    """the function a closure does nothing but call with what it is given"""
    if len(f.leaves) == 1 and f.leaves[0].kind == "ret" and not f.leaves[0].conds and not f.leaves[0].mem:
        t = f.leaves[0].ret
        if t[0] == "call" and len(t) == 3 and t[2] == tuple(("arg", i + 1) for i in range(len(t[2]))):
            return t[1]
    return None


def moved(k, E):
    """the function exists in another module of the same crate"""
    tail = "::".join(k.split("::")[-2:])
    return any(x.endswith(tail) and x.split("::")[0] == k.split("::")[0] for x in E.fns)
