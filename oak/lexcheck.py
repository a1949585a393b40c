"""Lexer properties: run the lexer interpretation over every language's lexer."""
import multiprocessing as mp, os, sys
from interp import Engine, St, Budget
from lexdom import LexDomain, iv_show
import conformcheck, cursorcheck

KINDS = {
    "tiling": {"gap": "text is consumed without a token covering it", "overlap": "a token starts before the previous one ends", "reversed": "a token ends before it starts",
               "beyond": "a token ends after the final position", "early-end": "the lexer can finish before the end of the text"},
    "boundary": {"split": "the position can come to rest inside a multi-byte character"},
    "progress": {"stuck": "a pass of a loop can leave the position, and everything the loop depends on, unchanged"},
}
# what the interpretation takes as given about the reading and recording operations is compared with their specifications
BASIS = [
    ("S03", r"SourceCursor::(?!find_str|rest$|source$)"),
    ("X01", r"LexerState::(?!get_text|source$|rest$|get_tokens)"),
    ("X03", r"LexerState::(new_with_cache|finish_with_cache|fully_reused)"),
    ("S01", r"(chunk_at|length|get_char_at|TextChunk::\w+)$"),
    ("S02", r"(chunk_at|length|get_char_at)$"),
    ("S05", r"."),
]
_F = None


def lexers(F):
    """(crate, key) of every implementation of the lexer trait that has a body"""
    out = []
    for n in sorted(F.files):
        if n == "oak_core":
            continue
        c = F.crate(n)
        for k, f in c.fns.items():
            if " as oak_core::lexer::Lexer<" in k and k.endswith("::lex"):
                out.append((n, k))
    return out


def _one(a):
    name, key, rounds = a
    core, c = _F.crate("oak_core"), _F.crate(name)
    fns = dict(core.fns)
    fns.update(c.fns)
    adts = dict(core.adts)
    adts.update(c.adts)
    d = LexDomain(name, rounds)
    e = Engine(fns, adts, d)
    if os.environ.get("VERIF_TIER") == "thorough" or (len(sys.argv) > 2 and sys.argv[2] == "thorough"):
        e.max_steps *= 4
    st = St()
    st.x = ()
    err = None
    try:
        e.cur_info = e.info(fns[key])
        e.call_fn(st, fns[key], [], (fns[key], 0))
    except Budget as ex:
        err = "budget: %s" % ex
    except Exception as ex:
        import traceback
        err = "internal: %s: %s" % (type(ex).__name__, traceback.format_exc()[-300:])
    return dict(crate=name, key=key, events=dict(e.events), undecided=dict(d.undecided), counts=dict(d.counts), discharged=len(d.discharged),
                steps=e.steps, err=err, fns=sorted(e.fn_seen))


def analyse(F):
    global _F
    _F = F
    r = cursorcheck.advance_rounds(F.crate("oak_core"))
    rounds = bool(r and r["aligned"])
    todo = [(n, k, rounds) for n, k in lexers(F)]
    # the slow ones first
    todo.sort(key=lambda x: -sum(os.path.getsize(F.files[x[0]]) for _ in (0,)))
    with mp.Pool(min(8, os.cpu_count() or 2)) as p:
        return p.map(_one, todo, chunksize=1), r


def check(which):
    kinds = KINDS[which]

    def run(F, res, tier):
        rs, adv = analyse(F)
        core_fns = set()
        for r in rs:
            res.count("lexers")
            res.count("functions_interpreted", len(r["fns"]))
            res.count("token_pushes_checked", r["counts"].get("push", 0))
            res.count("cursor_moves_interpreted", r["counts"].get("advance", 0))
            res.count("abstract_steps", r["steps"])
            core_fns.update(f for f in r["fns"] if f.startswith("oak_core::"))
            if r["err"]:
                res.count("lexers_not_decided")
                res.notes.append("%s: %s" % (r["crate"], r["err"][:200]))
                if r["err"].startswith("internal"):
                    print("note: " + r["err"])
                continue
            for u in r["undecided"]:
                res.notes.append("%s: %s (%s:%s)" % (r["crate"], u[0], u[1].split("::", 1)[-1], u[2]))
            for (kind, fn, file, line, note), iv in sorted(r["events"].items(), key=str):
                if kind not in kinds:
                    continue
                msg = "%s in %s%s%s" % (kinds[kind], fn.split("::", 1)[-1], (" (" + note + ")") if note else "", (" for " + iv_show(iv)) if iv else "")
                chars = [list(x) for x in iv] if iv and kind in ("gap", "stuck", "early-end") else None
                res.add(kind, "%s/%s/%s" % (r["crate"], kind, fn), msg, file, line, chars=chars, group="%s/%s" % (r["crate"], kind), site=fn)
        for spec, only in BASIS:
            conformcheck.run(spec, ["oak_core"], None, only)(F, res, tier)
        res.floor("functions specified", 60)
        if which == "boundary":
            if adv is None:
                res.add("coverage-floor", "floor:advance_bytes", "the cursor's byte-wise advance was not found: the analysis lost its anchor")
            elif not adv["aligned"]:
                # the individual places are reported above, because the position is then not rounded for them
                res.add("unaligned-advance", "core/unaligned-advance", "a byte-wise advance can return with the position inside a multi-byte character (no boundary test on a path from the store to the return)",
                        adv["fn"]["file"], adv["fn"]["line"])
            res.coverage["advance_proved_aligned"] = int(bool(adv and adv["aligned"]))
        res.coverage["core_functions_interpreted"] = len(core_fns)
        res.floor("lexers", 111)
        res.floor("token_pushes_checked", 8000)
        if res.coverage.get("lexers_not_decided", 0) > 6:
            res.add("coverage-floor", "floor:undecided-lexers", "%d lexers could not be decided" % res.coverage["lexers_not_decided"])
    return run
