from runner import Suite, Model, Prop
import gen_filters as G


def rnd(f, salt, quick, thorough):
    return lambda ctx: [f(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P19": Prop("P19", [Suite("filters", "FiltersTrace", rnd(G.dec_case, "dec", 800, 10000), G.post, note="encoded data in all spellings, decoded whole, in pieces and through streams with chains of filters"),
                        Suite("filters", "FiltersTrace", rnd(G.big_case, "big", 8, 160), G.post, note="LZW data with codes of every width"),
                        Suite("filters", "FiltersTrace", rnd(G.enc_case, "enc", 400, 6000), G.post, note="data encoded whole and in pieces, decoded by the specification")],
                [Model("FiltersModel", "MC_Filters.cfg", "MC_Filters_deep.cfg", what="every encoding an encoder may choose decodes to its data (run length, hexadecimal, LZW)")]),
}
