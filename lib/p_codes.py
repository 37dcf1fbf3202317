from runner import Suite, Model, Prop
import gen_codes as G


def rnd(salt, f, quick, thorough):
    return lambda ctx: [f(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P28": Prop("P28", [
        Suite("codemap", "CodeMapTrace", rnd("m", G.codemap, 600, 10000), note="the table of codes: codes of one to four bytes, ligatures, lookups both ways"),
        Suite("cmap", "CMapTrace", rnd("c", G.cmap, 700, 10000), note="CMaps of random clauses: strings to texts and identifiers, texts to strings"),
        Suite("simple", "SimpleTrace", rnd("s", G.simple, 250, 3000), note="encodings of one byte, with and without differences"),
        Suite("fonttext", "FontTextTrace", rnd("f", G.fonttext, 150, 1500), post=G.post, note="text written with fonts, read back before and after saving, by the library and by the CMaps of the file"),
        Suite("fonttext", "FontTextTrace", rnd("g", lambda r: G.fonttext(r, True), 6, 40), post=G.post, note="fonts of which more than 256 characters are used")],
        [Model("CodesModel", "MC_Codes.cfg", "MC_Codes_deep.cfg", timeout=2400, what="every small table of codes: texts come back from all strings they may get, a reader byte by byte splits strings as the specification, gathered ranges and code spaces lose nothing")]),
}
