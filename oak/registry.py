"""property id -> how it is decided"""
import lexcheck


class Check:
    def __init__(self, run, explanation, level="other", packages=None, technique=""):
        self.run, self.explanation, self.level, self.packages, self.technique = run, explanation, level, packages, technique


CHECKS = {}


def reg(pid, run, explanation, technique, **k):
    CHECKS[pid] = Check(run, explanation, technique=technique, **k)


LEXTECH = "abstract interpretation of each lexer's MIR over symbolic text positions and character sets"
reg("L01", lexcheck.check("tiling"), "Every lexer's compiled code is interpreted over symbolic text positions and character sets; each token creation is checked to start where the previous one ended and the end marker to sit at the end of the text.", LEXTECH)
reg("L02", lexcheck.check("progress"), "Every loop of every lexer is checked: no pass may return to the loop head with position and loop-carried state unchanged.", LEXTECH)
reg("L03", lexcheck.check("boundary"), "Every advance of every lexer is checked against the encoded widths of the characters possible at that point; a position inside a multi-byte character that a token or a further read uses is reported.", LEXTECH)

SPECTECH = "function summaries by dataflow analysis of MIR (gated value numbering), compared with a written specification by random interpretation of terms"


def both(*runs):
    def go(F, res, tier):
        for r in runs:
            r(F, res, tier)
    return go


def spec_checks():
    import conformcheck, specs, jsoncheck, hashcheck
    SD = specs.SERDE[1]
    more = {"J01": (jsoncheck.check(SD, 80), "Besides, the names each serialiser writes are compared with the names its reader accepts, field by field and alternative by alternative."),
            "T01": (hashcheck.check(["oak_core"], 3), "Besides, every part a hand-written hash takes in is looked for among the parts equality compares.")}
    for x in specs.S:
        n = conformcheck.population(x["id"])
        run, why = conformcheck.run(x["id"], x["crates"], n), ""
        if x["id"] in more:
            run, why = both(run, more[x["id"]][0]), " " + more[x["id"]][1]
        reg(x["id"], run,
            "Each function of the property is summarised from its MIR (cases, result, writes, calls with effects, loops as recurrences) and the summary is compared with the function's written specification; functions whose constructs the analysis does not know are listed, not judged." + why,
            SPECTECH, packages=x["packages"])
    reg("J02", jsoncheck.wire(["oak_core", "oak_lsp", "oak_mcp"]),
        "The names the message types' serialisers write and their readers accept, taken from their MIR, and the discriminants of the numbered types are compared with the tables of the protocols.",
        "name tables extracted by dataflow analysis of the serialisers' MIR, compared with the protocols' tables", packages=["oak-core", "oak-lsp", "oak-mcp"])


spec_checks()
