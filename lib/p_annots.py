from runner import Suite, Model, Prop
import gen_annots as G


def rnd(salt, quick, thorough):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P14": Prop("P14", [Suite("annots", "AnnotsTrace", rnd("a", 900, 15000), note="histories of annotations of all types on pages, created, loaded, set, removed and saved")],
                [Model("AnnotsModel", "MC_Annots.cfg", "MC_Annots_deep.cfg", what="the lists of annotations with their index by reference: every short history of creations, removals and reloads keeps index and list in step; appearances are the last ones set")]),
}
