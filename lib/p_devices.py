from runner import Suite, Model, Prop
import gen_devices as G


def rnd(salt, quick, thorough, **kw):
    return lambda ctx: [G.case(ctx.rng("%s/%d" % (salt, i)), **kw) for i in range(ctx.n(quick, thorough))]


PROPS = {
    "P20": Prop("P20", [Suite("devices", "DevicesTrace", rnd("d", 1500, 40000), note="operations on buffers, spans, streams and files"),
                        Suite("devices", "DevicesTrace", rnd("b", 60, 600, big=True), note="data longer than the library's buffers")],
                [Model("DevicesModel", "MC_Devices.cfg", "MC_Devices_deep.cfg", what="all short histories of a device: positions stay inside, writing is local, reading gives what was written, copying by chunks of any size copies all bytes once")]),
}
