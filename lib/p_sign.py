from runner import Suite, Model, Prop
import gen_sign as G


def rnd(salt, quick, thorough):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P25": Prop("P25", [Suite("sign", "SigningTrace", rnd("s", 250, 4000), G.post, note="documents signed, edited, updated and signed again, of sizes around those of the buffers")],
                [Model("SigningModel", "MC_Signing.cfg", "MC_Signing_deep.cfg", what="updates and signatures of a growing file, the reading loop with every size of buffer, place and file: every signature covers all but its place and verifies after every later update")]),
}
