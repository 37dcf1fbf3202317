from runner import Suite, Model, Prop
import gen_dates as G


def rnd(salt, quick, thorough):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i))) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P26": Prop("P26", [Suite("dates", "DatesTrace", rnd("d", 1200, 30000), note="texts of dates read, instants written")],
                [Model("DatesModel", "MC_Dates.cfg", "MC_Dates_deep.cfg", timeout=600, what="every day of chosen years in every zone is written and read back, the calendar agrees with counting day by day")]),
}
