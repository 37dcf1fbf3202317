from runner import Suite, Model, Prop
import gen_painter as G


def rnd(salt, quick, thorough):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P22": Prop("P22", [Suite("painter", "PainterTrace", rnd("p", 700, 8000), G.post, note="legal sequences of painting calls on pages and forms over several sessions")],
                [Model("PainterModel", "MC_Painter.cfg", "MC_Painter_deep.cfg", what="calls of a painter which leaves out what has no effect: what it writes comes to the marks that were asked for, over sessions, Save and Restore")]),
}
