from runner import Suite, Model, Prop
import gen_syntax as G


def rnd(f, salt, quick, thorough):
    return lambda ctx: [f(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


MC = Model("SyntaxModel", "MC_Syntax.cfg", "MC_Syntax_deep.cfg", what="every small value is read back as written, in every neighbourhood")
PROPS = {
    "P17": Prop("P17", [Suite("syntax", "SyntaxTrace", rnd(G.read_case, "read", 2700, 20000), note="objects in random legal spellings, read"),
                        Suite("syntax", "SyntaxTrace", rnd(G.noise_case, "noise", 1200, 9000), note="short strings of significant characters, read"),
                        Suite("syntax", "SyntaxTrace", rnd(G.write_case, "write", 1800, 12000), note="objects written, the bytes read by the specification")], [MC]),
}
