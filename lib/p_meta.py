from runner import Suite, Model, Prop
import gen_meta as G


def rnd(salt, quick, thorough):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P27": Prop("P27", [Suite("meta", "MetaTrace", rnd("m", 700, 12000), post=G.post, note="metadata read from both places, changed, synchronized, saved and reloaded")],
                [Model("MetaModel", "MC_Meta.cfg", "MC_Meta_deep.cfg", timeout=600, what="every short history of edits, synchronizations, saves: what was set is seen, the packet agrees after synchronizing, unknown properties stay")]),
}
