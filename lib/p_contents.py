from runner import Suite, Model, Prop
import gen_contents as G


def rnd(salt, quick, thorough, **kw):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i)), **kw) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P21": Prop("P21", [Suite("contents", "ContentsTrace", rnd("c", 800, 15000), note="random contents of pages and forms, read item by item; blocks read from the contents"),
                        Suite("contents", "ContentsTrace", rnd("f", 400, 6000, forms=True), note="forms showing each other")],
                [Model("ContentsModel", "MC_Contents.cfg", "MC_Contents_deep.cfg", timeout=300, what="reading terminates, never enters a form twice, delivers every token once and in order"),
                 Model("ContentsModel", "MC_Contents_flat.cfg", what="longer pages, forms not followed")]),
}
