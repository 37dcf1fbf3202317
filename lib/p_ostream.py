from runner import Suite, Model, Prop
import gen_ostream as G


def rnd(salt, quick, thorough, lengths, **kw):
    def f(ctx):
        out = []
        for i in range(ctx.n(quick, thorough)):
            rng = ctx.rng("%s/%d" % (salt, i))
            out.append({"ops": G.history(rng, rng.choice(lengths), **kw)})
        return out
    return f


def stale(ctx):
    return [{"ops": G.stale(ctx.rng("stale/%d" % i))} for i in range(ctx.n(80, 1200))]


PROPS = {
    "P07": Prop("P07", [Suite("ostream", "ObjStreamTrace", rnd("st", 300, 4000, [8, 20, 40]), G.post, note="histories of writing, appending, reading in pieces, assigning, moving, unwrapping, saving and updating streams"),
                        Suite("ostream", "ObjStreamTrace", stale, G.post, note="streams replaced by streams with other filters and parameters"),
                        Suite("ostream", "ObjStreamTrace", rnd("big", 30, 300, [8, 15], big=True), G.post, note="data around the size of the copy buffers")],
                [Model("ObjStreamModel", "MC_ObjStream.cfg", "MC_ObjStream_deep.cfg", what="one operation at a time on a stream, readers see its data, failing operations lose nothing")]),
}
