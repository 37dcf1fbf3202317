from runner import Suite, Model, Prop
import gen_names as G


def rnd(salt, f, quick, thorough):
    return lambda ctx: [f(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P11": Prop("P11", [
        Suite("names", "NamesTrace", rnd("a", G.case, 600, 10000), note="name trees, named destinations and attachments, made by the library and by others, over histories of insertions and saves"),
        Suite("names", "NamesTrace", rnd("l", lambda r: G.large(r, r.choice([200, 700, 2600, 3600])), 8, 60), note="trees of several levels"),
        Suite("settings", "SettingsTrace", rnd("s", G.settings, 500, 8000), note="settings for viewing, language, base URI and extensions of the catalog")],
        [Model("NamesModel", "MC_Names.cfg", "MC_Names_deep.cfg", what="insertion with splitting keeps trees of nodes well-formed and lookups by limits right, for every order of insertions")]),
}
