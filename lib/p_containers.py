from runner import Suite, Model, Prop
import gen_containers as G


def rnd(salt, quick, thorough):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P16": Prop("P16", [Suite("containers", "ContainersTrace", rnd("v", 1200, 40000), note="operations on objects, arrays and dictionaries, free and in a document")],
                [Model("ContainersModel", "MC_Containers.cfg", "MC_Containers_deep.cfg", timeout=800, what="all short histories of a program object and two document objects: copies share nothing, saves lose nothing, lookups end")]),
}
