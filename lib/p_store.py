from runner import Suite, Model, Prop
import gen_store as G
import gen_cipher

MC = Model("StoreModel", "MC_Store.cfg", "MC_Store_deep.cfg", what="one object per number, references never reassigned, "
           "round trip, image closed under reachability, collection exact")


def from_spec(num, depth):
    def f(ctx):
        out = []
        for h in ctx.behaviours("StoreModel", cfg="Gen_Store.cfg", num=ctx.n(num, num * 10), depth=26):
            out.append({"ops": h})
        return out
    return f


def rnd(salt, quick, thorough, length, **kw):
    def f(ctx):
        out = []
        for i in range(ctx.n(quick, thorough)):
            rng = ctx.rng("%s/%d" % (salt, i))
            out.append(G.history(rng, rng.choice(length) if isinstance(length, list) else length, **kw))
        return out
    return f


def enc(salt, quick, thorough, length, **kw):
    def f(ctx):
        out = []
        for i in range(ctx.n(quick, thorough)):
            rng = ctx.rng("%s/%d" % (salt, i))
            out.append(G.history(rng, rng.choice(length), enc={}, update=rng.random() < .6, **kw))
        return out
    return f


def high(salt, quick, thorough, **kw):
    return lambda ctx: [G.foreign(ctx.rng("%s/%d" % (salt, i)), rounds=ctx.rng("%s/%d/r" % (salt, i)).choice([1, 2]), edits=1, high=True, **kw) for i in range(ctx.n(quick, thorough))]


def S(cases, note):
    return Suite("store", "StoreTrace", cases, G.post, note=note)


SPEC = S(from_spec(150, 22), "behaviours of StoreModel chosen by TLC")
HIST = dict(w={"new": 6, "remove": 5, "gc": 1.2, "put": 2, "clone": 2, "scalar": 0, "aadd": 0, "ains": 0, "aset": 0, "adel": 0,
               "setc": 0, "stream": .7, "replace": 1, "get": 2, "count": .3, "clear": 0, "del": 1})
PROPS = {
    "P01": Prop("P01", [SPEC, S(rnd("rt", 350, 4000, [6, 15, 30], update=False, reload_p=.1), "random histories with full saves in every mode and reloads")], [MC]),
    "P02": Prop("P02", [SPEC, S(rnd("up", 350, 4000, [6, 15, 30], update=True, reload_p=.25), "random histories with chains of incremental updates"),
                        S(rnd("cont", 150, 1500, [10, 20], update=True, reload_p=.2, w=dict(aadd=8, ains=5, aset=6, adel=4, setc=3, put=8, stream=1, new=5)), "container operations after reloading")], [MC]),
    "P03": Prop("P03", [SPEC, S(rnd("num", 350, 4000, [20, 40], update=True, reload_p=.15, **HIST), "create/remove/collect/reload histories")], [MC]),
    "P04": Prop("P04", [SPEC, S(rnd("gc", 300, 3000, [15, 30], update=True, reload_p=.1, anchor=.35,
                                    w={"new": 6, "put": 9, "gc": 2.5, "dump": 2.5, "del": 3, "scalar": 0, "stream": 1, "aadd": 5, "aset": 2, "adel": 2}),
                             "reference graphs with cycles, sharing and dangling references, collected and dumped")], [MC]),
    "P05": Prop("P05", [SPEC, S(rnd("lay", 350, 4000, [4, 12, 25], update=True, reload_p=.3, w={"remove": 4}), "files written in every mode, cross-reference sections scanned from the bytes"),
                        S(rnd("wide", 200, 2000, [8, 14], update=True, reload_p=.12, wide=1, anchor=.9, opts=("", "g", "gc", "g"),
                              w=dict(remove=3, new=1, clone=0, put=7, scalar=4, gc=0, dump=0, replace=0, get=0, count=0)), "updates of files with many objects")], [MC]),
    "P06": Prop("P06", [S(enc("enc", 350, 4000, [5, 10, 18], reload_p=.22, anchor=.8, opts=("g", "g", "", "gc", "gz"), w=dict(setenc=3, remove=.5, new=5, stream=4)), "histories with protection set, changed, kept over reloads and updates"),
                        S(high("high", 60, 800, protect=True), "files of another producer with numbers and generations of several bytes, protected and changed"),
                        S(high("highp", 60, 800, encrypted=True), "protected files of another producer with numbers and generations of several bytes"),
                        Suite("cipher", "CipherTrace", lambda ctx: [gen_cipher.case(ctx.rng("cipher/%d" % i)) for i in range(ctx.n(300, 4000))], gen_cipher.post,
                              note="data of objects of any number and generation, opened by an independent reader")], [MC]),
}
