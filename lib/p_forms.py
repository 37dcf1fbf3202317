from runner import Suite, Model, Prop
import gen_forms as G


def rnd(salt, quick, thorough):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P15": Prop("P15", [Suite("forms", "FormsTrace", rnd("f", 600, 9000), note="histories of fields: creation on forms, pages and below fields, flags, names, values, removal, saves")],
                [Model("FormsModel", "MC_Forms.cfg", "MC_Forms_deep.cfg", timeout=800, what="all short histories of a form with two pages: the tree stays sound, flags and values are what was set, new fields change no other, saving keeps everything")]),
}
