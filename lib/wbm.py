"""A classic Wishbone initiator for simulated designs."""


class Master:
    """op() holds the request until it is acknowledged; `tick` is called with the observed values of every cycle."""
    def __init__(self, sim, bus, tick=None, outs=None, pokes=None, limit=60):
        self.sim, self.bus, self.tick, self.limit = sim, bus, tick, limit
        self.outs = dict(outs or {}, _ack=bus.ack, _dat=bus.dat_r)
        self.pokes = pokes or (lambda: [])

    def cycle(self, req=None):
        b = self.bus
        if req is None:
            p = [(b.cyc, 0), (b.stb, 0), (b.we, 0)]
        else:
            we, adr, dat, sel = req
            p = [(b.cyc, 1), (b.stb, 1), (b.we, we), (b.adr, adr), (b.dat_w, dat), (b.sel, sel)]
        o = self.sim.cycle(p + self.pokes(), self.outs)
        if self.tick:
            self.tick(o)
        return o

    def op(self, we, adr, dat=0, sel=None):
        if sel is None:
            sel = (1 << len(self.bus.sel)) - 1
        for _ in range(self.limit):
            o = self.cycle((we, adr, dat, sel))
            if o["_ack"]:
                return 1, o["_dat"]
        return 0, 0

    def idle(self, n=1):
        for _ in range(n):
            o = self.cycle()
        return o
