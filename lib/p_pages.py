"""Pages, inherited attributes, outlines, imports between documents."""
from runner import Suite, Model, Prop
import gen_pages as G

MC = Model("PagesModel", "MC_Pages.cfg", "MC_Pages_deep.cfg", timeout=600,
           what="raw tree and outline operations refine the abstract page sequence and outline")


def from_spec(num):
    def f(ctx):
        return [{"ops": h} for h in ctx.behaviours("PagesModel", cfg="Gen_Pages.cfg", num=ctx.n(num, num * 10), depth=21)]
    return f


def rnd(salt, quick, thorough, length, **kw):
    def f(ctx):
        out = []
        for i in range(ctx.n(quick, thorough)):
            rng = ctx.rng("%s/%d" % (salt, i))
            out.append({"ops": G.history(rng, rng.choice(length), **kw)})
        return out
    return f


def S(cases, note):
    return Suite("pages", "PagesTrace", cases, note=note)


SPEC = S(from_spec(120), "behaviours of PagesModel chosen by TLC")
OUTL = dict(src=1, w=dict(append=.5, ochild=6, onext=5, oset=2, oerase=4, oroot=.5))
IMP = dict(src=2, w=dict(append=2, range=2, insert=3, ochild=2, onext=1, oset=.5))
PROPS = {
    "P09": Prop("P09", [SPEC, S(rnd("seq", 350, 4000, [8, 18, 30]), "random create/remove/move histories over nested page trees, with reloads"),
                        S(rnd("big", 25, 200, [25], maxp=40, depth=5), "larger and deeper trees")], [MC]),
    "P10": Prop("P10", [S(rnd("attr", 350, 4000, [6, 12], dens=.45, w=dict(attr=9, create=1, createAt=1, remove=1, view=5, content=.5)), "page trees with attributes at every level, edited"),
                        S(rnd("attrimp", 80, 1500, [6, 12], dens=.4, src=1, w=dict(attr=3, append=1.5, range=1.5, insert=2)), "the same with imports between documents")], [MC]),
    "P12": Prop("P12", [SPEC, S(rnd("outl", 350, 4000, [10, 20, 30], **OUTL), "random outline histories with imports and reloads")], [MC]),
    "P13": Prop("P13", [S(rnd("imp", 350, 4000, [6, 12, 20], **IMP), "random histories importing pages and outlines between three documents")], [MC]),
}
