from runner import Suite, Model, Prop
import gen_store as G


def F(salt, quick, thorough, **kw):
    def f(ctx):
        out = []
        for i in range(ctx.n(quick, thorough)):
            rng = ctx.rng("%s/%d" % (salt, i))
            out.append(G.foreign(rng, rounds=rng.choice([1, 1, 2, 3]), **kw))
        return out
    return f


def S(cases, note):
    return Suite("store", "StoreTrace", cases, G.post, note=note)


PROPS = {
    "P08": Prop("P08", [S(F("read", 250, 3000), "files of another producer, read in any order, released and read again, saved"),
                        S(F("edit", 250, 3000, edits=1), "files of another producer, changed, saved and updated"),
                        S(F("crypt", 120, 1500, edits=1, encrypted=True), "protected files of another producer")],
                [Model("ForeignModel", "MC_Foreign.cfg", "MC_Foreign_deep.cfg", timeout=900, what="the sections of every short history of revisions mean what their producer meant, and forget no generation")]),
}
