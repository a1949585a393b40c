"""J01: what a type writes when serialised is what it reads back.

For every type with both a Serialize and a Deserialize implementation, the summary of `serialize` gives the names written and
the field (or variant) written under each, and the summary of the reader's name lookup gives the field (or variant) each name is
read into. The two must agree, every field must be written, and what may be left out must be what is filled in when missing."""
import re
import conform
from sym import Engine

SER = " as serde_core::ser::Serialize>::serialize"
DE = " as serde_core::de::Deserialize>::deserialize"


def terms(t):
    if isinstance(t, tuple):
        yield t
        for x in t:
            yield from terms(x)


def path(t):
    """the place below the value that a term reads: (variant, field), or None"""
    for x in terms(t):
        if x and x[0] == "fld" and len(x) == 3 and isinstance(x[2], str):
            b, v = x[1], None
            if b[0] == "as":
                b, v = b[1], b[2]
            if b in (("*", ("arg", 0)), ("arg", 0)):
                return v, x[2]
    return None


def written(E, key):
    """for each way of finishing without failure: (conditions, [(name, place)]), and the variants written by name"""
    c = conform.canon(E, key, [])
    if c.partial:
        return None
    rows, variants = [], {}
    for l in c.leaves:
        if l.kind != "ret":
            continue
        fields, done = [], False
        for e in l.ev:
            if not (isinstance(e, tuple) and e and e[0] == "call"):
                continue
            n, a = e[1].rsplit("::", 1)[-1], e[2]
            if n == "serialize_field" and len(a) == 3 and a[1][0] == "str":
                fields.append((a[1][1], path(a[2])))
            elif n == "serialize_entry" and len(a) == 3 and a[1][0] == "str":
                fields.append((a[1][1], path(a[2])))
            elif n == "end":
                done = True
            elif n in ("serialize_unit_variant", "serialize_newtype_variant", "serialize_struct_variant", "serialize_tuple_variant") and a[3][0] == "str":
                v = [t[2] for t, b in l.conds if b and t[0] == "is" and t[1] == ("*", ("arg", 0))]
                if not v:
                    v = [None]
                variants.setdefault(a[3][1], set()).add((v[0], a[2][1] if a[2][0] == "k" else None))
        if done:
            rows.append((l.conds, fields))
    return rows, variants, c


def names_read(E, key):
    """name -> number of the field or variant it is read into"""
    c = conform.canon(E, key, [])
    if c.partial:
        return None
    out = {}
    for l in c.leaves:
        pos = [t for t, b in l.conds if b and t[0] == "eq"]
        if len(pos) != 1 or l.kind != "ret":
            continue
        s = [x[1] for x in pos[0][1:] if isinstance(x, tuple) and x[0] == "str"]
        f = [x[2] for x in terms(l.ret) if x and x[0] == "agg" and len(x) > 2 and str(x[2]).startswith("__field")]
        if len(s) == 1 and len(f) == 1:
            out[s[0]] = int(f[0][7:])
    return out


def withs(fns, what):
    """the modules whose functions write (read) single fields"""
    out = []
    for f in fns:
        for b in f["bbs"]:
            t = b and b[1]
            if t and t[0] == "call" and isinstance(t[1], dict):
                m = re.match(r"(\w+(?:::\w+)*)::%s$" % what, t[1].get("r") or t[1].get("f") or "")
                if m:
                    out.append(m.group(1))
    return sorted(out)


def check(crates, floor):
    def go(F, res, tier):
        E = Engine(F, crates)
        at = {}
        for k, f in E.fns.items():
            at.setdefault((f["file"], f["line"], f["crate"]), []).append(k)
        adts = {}
        for c in crates:
            adts.update(F.crate(c).adts)
        for key in sorted(k for k in E.fns if k.endswith(SER) and "::_::" not in k):
            ty = key[1:-len(SER)]
            f = E.fns[key]
            de = E.fns.get("<%s%s" % (ty, DE))
            a = adts.get(ty)
            if de is None or a is None:
                continue
            res.count("types written and read")
            if not (f.get("derived") and de.get("derived")):
                res.notes.append("%s: reads or writes itself; not compared" % ty)
                continue
            near = at[f["file"], f["line"], f["crate"]]
            vs = [k for k in near if "__FieldVisitor as serde_core::de::Visitor>::visit_str" in k]
            w = written(E, key)
            if w is None or len(vs) > 1:
                res.notes.append("%s: not analysable" % ty)
                continue
            rows, variants, c = w
            read = names_read(E, vs[0]) if vs else {}
            if read is None:
                res.notes.append("%s: not analysable" % ty)
                continue

            def bad(what, msg):
                res.add("serialised form", "%s:%s" % (ty, what), "%s: %s" % (ty, msg), f["file"], f["line"])
            if a["kind"] == "Struct":
                fs = a["vs"][0]["fs"]
                if fs and fs[0][0] == "0":
                    continue
                ignore = {n for n, t, *_ in fs if "PhantomData" in str(t)}
                order = [n for n, t, *_ in fs]
                ever = {}
                for conds, fields in rows:
                    for n, p in fields:
                        ever.setdefault(n, set()).add(p)
                for n, ps in sorted(ever.items()):
                    for v, fld in (p for p in ps if p):
                        res.count("fields compared")
                        if n not in read:
                            bad(fld, "field %s is written as %r, which is not a name it is read from" % (fld, n))
                        elif len(read) >= 1 and set(read.values()) == set(range(len(order))) and order[read[n]] != fld:
                            bad(fld, "%r is written from field %s and read into field %s" % (n, fld, order[read[n]]))
                got = {fld for ps in ever.values() for p in ps if p for fld in [p[1]]}
                if rows:
                    for n in order:
                        if n not in got and n not in ignore:
                            bad(n, "field %s is never written" % n)
                maps = [k for k in near if "__Visitor as serde_core::de::Visitor>::visit_map" in k]
                need = required(E.fns[maps[0]]) if len(maps) == 1 else set()
                types = {n: str(t) for n, t, *_ in fs}
                for conds, fields in rows:
                    have = {p[1] for n, p in fields if p}
                    for n in order:
                        if n in have or n not in got:
                            continue
                        some = [b for t, b in conds if t[0] == "is" and t[2] == "Some" and path(t[1]) == (None, n)]
                        option = types[n].startswith("core::option::Option<")
                        if option and some == [False]:
                            continue
                        name = [x for x, ps in ever.items() if (None, n) in ps]
                        if option and some == [True]:
                            bad(n, "field %s is left out although it has a value" % n)
                        elif not option and name and name[0] in need:
                            bad(n, "field %s may be left out, but is required when read" % n)
            else:
                if not variants or not read:
                    res.notes.append("%s: written in another form than by variant name; not compared" % ty)
                    continue
                num = {v["n"]: i for i, v in enumerate(a["vs"])}
                seen = set()
                for n, ws in sorted(variants.items()):
                    for v, i in ws:
                        res.count("variants compared")
                        seen.add(v)
                        if n not in read:
                            bad(str(v), "variant %s is written as %r, which is not a name it is read from" % (v, n))
                        elif v is not None and v in num and set(read.values()) == set(range(len(num))) and read[n] != num[v]:
                            bad(str(v), "%r is written for variant %s and read as variant %s" % (n, v, a["vs"][read[n]]["n"]))
            sw = withs([E.fns[k] for k in near if "__SerializeWith as" in k], "serialize")
            dw = withs([E.fns[k] for k in near if "__DeserializeWith as" in k and "::visit_seq::" not in k], "deserialize")
            res.count("fields with a form of their own", len(sw))
            if sw and dw and set(sw) != set(dw):
                bad("with", "fields are written by %s and read by %s" % (", ".join(sorted(set(sw))), ", ".join(sorted(set(dw)))))
        res.floor("types written and read", floor)
    return go


def required(fn):
    """names whose absence the reader reports"""
    out = set()
    for b in fn["bbs"]:
        t = b and b[1]
        if t and t[0] == "call" and isinstance(t[1], dict) and (t[1].get("f") or "").endswith("::missing_field"):
            for x in t[2]:
                if x[0] == "k" and isinstance(x[1], dict) and isinstance(x[1].get("s"), str):
                    out.add(x[1]["s"])
    return out


# names and numbers the protocols define (JSON-RPC 2.0, LSP 3.17), for the messages modelled under those names
WIRE = {
    "oak_mcp::JsonRpcRequest": "jsonrpc id method params", "oak_mcp::JsonRpcResponse": "jsonrpc id result? error?", "oak_mcp::JsonRpcError": "code message data?",
    "oak_mcp::JsonRpcNotification": "jsonrpc method params",
    "oak_lsp::types::Position": "line character", "oak_lsp::types::LspRange": "start end", "oak_lsp::types::Location": "uri range", "oak_lsp::types::TextEdit": "range",
    "oak_lsp::types::Diagnostic": "range severity code source message", "oak_lsp::types::Hover": "contents range", "oak_lsp::types::CompletionItem": "label kind detail documentation",
    "oak_lsp::types::DocumentHighlight": "range kind", "oak_lsp::types::Color": "red green blue alpha", "oak_lsp::types::ColorInformation": "range color",
    "oak_lsp::types::InlayHint": "position label kind", "oak_lsp::types::Command": "title command arguments", "oak_lsp::types::CodeAction": "title kind diagnostics edit command disabled",
    "oak_lsp::types::CodeActionDisabled": "reason", "oak_lsp::types::WorkspaceEdit": "changes", "oak_lsp::types::SymbolInformation": "name kind location",
    "oak_lsp::types::WorkspaceSymbol": "name kind location", "oak_lsp::types::SelectionRange": "range parent", "oak_lsp::types::SemanticTokens": "data",
    "oak_lsp::types::SignatureHelp": "signatures", "oak_lsp::types::SignatureInformation": "label documentation parameters", "oak_lsp::types::ParameterInformation": "label documentation",
    "oak_lsp::types::WorkspaceFolder": "uri name",
    "oak_lsp::handlers::UriRequest": "uri", "oak_lsp::handlers::RangeRequest": "uri range", "oak_lsp::handlers::PositionRequest": "uri position", "oak_lsp::handlers::QueryRequest": "query",
    "oak_lsp::handlers::RenameRequest": "uri range"}


def seq(names, first=1):
    return {n: i for i, n in enumerate(names.split(), first)}


NUMBERS = {
    "oak_lsp::types::SymbolKind": seq("File Module Namespace Package Class Method Property Field Constructor Enum Interface Function Variable Constant String Number Boolean Array Object Key "
                                      "Null EnumMember Struct Event Operator TypeParameter"),
    "oak_lsp::types::CompletionItemKind": seq("Text Method Function Constructor Field Variable Class Interface Module Property Unit Value Enum Keyword Snippet Color File Reference Folder "
                                              "EnumMember Constant Struct Event Operator TypeParameter"),
    "oak_lsp::types::DiagnosticSeverity": seq("Error Warning Information Hint"),
    "oak_lsp::types::DocumentHighlightKind": seq("Text Read Write"),
    "oak_lsp::types::InlayHintKind": seq("Type Parameter")}


def wire(crates):
    def go(F, res, tier):
        E = Engine(F, crates)
        at, adts = {}, {}
        for k, f in E.fns.items():
            at.setdefault((f["file"], f["line"], f["crate"]), []).append(k)
        for c in crates:
            adts.update(F.crate(c).adts)

        def home(ty):
            if ty in adts:
                return ty
            l = [k for k in adts if k.rsplit("::", 1)[-1] == ty.rsplit("::", 1)[-1] and k.split("::")[0] == ty.split("::")[0]]
            return l[0] if len(l) == 1 else None
        for ty0, names in sorted(WIRE.items()):
            ty = home(ty0)
            if ty is None:
                res.add("anchor", "anchor:" + ty0, "message type %s no longer exists" % ty0)
                continue
            res.count("message types")
            se, de = E.fns.get("<%s%s" % (ty, SER)), E.fns.get("<%s%s" % (ty, DE))
            order = [f[0] for f in adts[ty]["vs"][0]["fs"]]
            if not se and not de:
                res.add("message", ty0, "%s can neither be written nor read" % ty, adts[ty]["file"], adts[ty]["line"])
                continue

            def bad(what, msg):
                res.add("message", "%s:%s" % (ty0, what), "%s: %s" % (ty, msg), adts[ty]["file"], adts[ty]["line"])
            w = written(E, "<%s%s" % (ty, SER)) if se and se.get("derived") else None
            if w and w[0]:
                ever = {n: p for conds, fields in w[0] for n, p in fields}
                for n in names.split():
                    res.count("names written")
                    o = n.endswith("?")
                    n = n.rstrip("?")
                    p = ever.get(n)
                    if p is None:
                        bad(n, "nothing is written under the name %r" % n)
                    elif o and n in order and not any(n not in [x for x, q in fields] for conds, fields in w[0]):
                        bad(n, "%r is written even when there is none" % n)
            elif se:
                res.notes.append("%s: writes itself; not compared" % ty)
            if de and de.get("derived"):
                vs = [k for k in at[de["file"], de["line"], de["crate"]] if "__FieldVisitor as serde_core::de::Visitor>::visit_str" in k]
                read = names_read(E, vs[0]) if len(vs) == 1 else None
                if read is None:
                    res.notes.append("%s: not analysable" % ty)
                else:
                    for n in names.split():
                        res.count("names read")
                        n = n.rstrip("?")
                        if n not in read:
                            bad(n + " read", "the name %r is not read" % n)
                        elif len(order) == len(set(read.values())) and n in order and order[read[n]] != n:
                            bad(n + " read", "%r is read into field %s" % (n, order[read[n]]))
            elif de:
                res.notes.append("%s: reads itself; not compared" % ty)
        for ty0, nums in sorted(NUMBERS.items()):
            ty = home(ty0)
            if ty is None:
                res.add("anchor", "anchor:" + ty0, "type %s no longer exists" % ty0)
                continue
            have = {v["n"]: v["d"] for v in adts[ty]["vs"]}
            for n, d in nums.items():
                res.count("numbers")
                if n not in have:
                    res.add("number", "%s::%s" % (ty0, n), "%s has no %s (%d)" % (ty, n, d), adts[ty]["file"], adts[ty]["line"])
                elif have[n] != d:
                    res.add("number", "%s::%s" % (ty0, n), "%s::%s is %s, the protocol's number is %d" % (ty, n, have[n], d), adts[ty]["file"], adts[ty]["line"])
        res.floor("message types", len(WIRE))
    return go
