from runner import Suite, Model, Prop
import gen_textex as G


def rnd(salt, f, quick, thorough):
    return lambda ctx: [f(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P24": Prop("P24", [
        Suite("textex", "TextExTrace", rnd("x", G.case, 500, 8000), note="pages with text by every operator, matrices, forms, three kinds of fonts; extraction with patterns, clips, words and rotations")],
        []),
}
