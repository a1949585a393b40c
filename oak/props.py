"""The properties as data; `python3 oak/props.py` rewrites properties.jsonl and MANIFEST.json."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

P = []
NA = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                               mechanism=[dict(zip(("name", "where"), m)) for m in mechanism], observe_at=list(observe), hook_needed=None), note=note))
    if na:
        NA.append((id, na))


LEX = ["examples/*/src/lexer/*.rs", "projects/oak-core/src/lexer/*.rs", "projects/oak-core/src/source/cursor.rs"]
p("L01", "Tokens cover the source text without gaps or overlaps",
  "For every language, when lexing succeeds the produced tokens, read in order, cover the source text completely: the first starts at 0, each starts exactly where the previous one ended, and the end-of-stream token sits at the end of the text. No character of the input is dropped between two tokens and none belongs to two of them.",
  ["inputs"], "every source text, for each of the language lexers",
  "The tests lex a few dozen sample files per language; whether a rarely used branch (an unterminated literal, a lone operator character, an unknown symbol) forgets its token shows only on the inputs that reach it.",
  LEX, [("run loop of each lexer", "examples/*/src/lexer/mod.rs"), ("add_token, add_eof", "projects/oak-core/src/lexer/mod.rs")],
  state=[("position", "where the lexer stands in the text", "LexerState::cursor"), ("tokens", "the spans emitted so far", "LexerState::tokens")],
  observe=["LexOutput tokens returned by lex"],
  note="Decides every path of 108 of the 111 lexers over symbolic text; three lexers exceed the step budget and paths that compare text the model does not follow are left undecided and listed in the evidence.")
p("L02", "Lexing always terminates",
  "For every language and every input, the lexer reaches the end of the text: no loop can repeat without either consuming input or changing something that makes it stop.",
  ["inputs"], "every source text, for each of the language lexers",
  "A hang needs the one character or prefix on which some branch reports success without consuming anything; sample files do not contain it.",
  LEX, [("run loop with progress guard", "examples/*/src/lexer/mod.rs"), ("advance_if_dead_lock", "projects/oak-core/src/lexer/mod.rs")],
  state=[("position", "where the lexer stands in the text", "LexerState::cursor")], observe=["lex returns"],
  note="Decides loops whose progress is the text position, a counter or an iterator, in 108 of 111 lexers.")
p("L03", "Token boundaries never fall inside a character",
  "For every language and every input, each position the lexer stops at, and so each token's start and end, lies on a boundary between characters, so that slicing the source by any token never fails.",
  ["inputs"], "every source text containing multi-byte characters, for each of the language lexers",
  "The sample inputs are almost purely ASCII, where every byte position is a character boundary.",
  LEX, [("byte-wise advance", "projects/oak-core/src/source/cursor.rs"), ("advance calls of each lexer", "examples/*/src/lexer/mod.rs")],
  state=[("position", "byte offset of the cursor", "SourceCursor::offset")], observe=["token spans", "str slicing by token span"],
  note="The cursor's advance is shown to round to boundaries on all paths; positions computed by arithmetic or set directly are followed through every lexer.")


def wire_props():
    p("J02", "Messages carry the names and numbers their protocols define",
      "Requests, responses, errors and notifications are written and read with the member names of JSON-RPC 2.0, and a result or error that is absent is left out. Positions, ranges, locations, edits, diagnostics, completions, symbols and hints are written and read with their LSP member names wherever those are modelled, and the kinds and severities have the LSP numbers.",
      ["inputs"], "every message of every modelled type",
      "No test inspects a serialised message or a kind's number, and a renamed member still round-trips within the program.",
      ["projects/oak-mcp/src/lib.rs", "projects/oak-lsp/src/types.rs", "projects/oak-lsp/src/handlers.rs"],
      [("derived serialisers and readers", "projects/oak-mcp/src/lib.rs"), ("kind numbers", "projects/oak-lsp/src/types.rs")],
      observe=["JSON text of the messages", "SymbolKind and CompletionItemKind as numbers"],
      note="Compares names and numbers with tables of the protocols; types the repository names or shapes differently from the protocol are compared only in the members they share.")


def spec_props():
    import specs
    for x in specs.S:
        p(x["id"], x["title"], x["statement"], x["over"], x["text"], x["why"], x["files"],
          [(o, x["files"][0]) for o in x["observe"]], observe=x["observe"],
          note=x.get("note") or "Decides the listed functions one by one on all their paths, with library calls and the functions taken as given in the specification uninterpreted; functions beyond the analysis bounds are listed in the evidence and not judged.")


def main():
    spec_props()
    wire_props()
    from registry import CHECKS
    V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(V + "/properties.jsonl", "w") as f:
        for x in P:
            x = {k: v for k, v in x.items() if k != "note"}
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x, ensure_ascii=False) + "\n")
    nas = dict(NA)
    checks = []
    for x in P:
        i = x["id"]
        if i in nas:
            assert i not in CHECKS
            continue
        c = CHECKS[i]
        checks.append(dict(property=i, quick_cmd="python3 oak/run.py %s quick" % i, thorough_cmd="python3 oak/run.py %s thorough" % i,
                           technique=c.technique, level=c.level, level_note=x["note"]))
    assert set(CHECKS) == {c["property"] for c in checks}, set(CHECKS) ^ {c["property"] for c in checks}
    m = dict(version=1, setup_cmd="python3 oak/setup.py", checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes="No hooks: the checks read what the compiler produced for the unmodified source.")
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)


if __name__ == "__main__":
    main()
