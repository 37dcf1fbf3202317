from runner import Suite, Model, Prop
import gen_text as G


def rnd(salt, quick, thorough):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P18": Prop("P18", [Suite("text", "TextTrace", rnd("t", 900, 15000), note="texts of strings and names: made, read, compared, saved and reloaded")],
                [Model("TextModel", "MC_Text.cfg", "MC_Text_deep.cfg", what="every short text is read back from each of its encodings")]),
}
