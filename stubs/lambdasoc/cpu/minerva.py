from amaranth import Elaboratable, Module, Signal
from amaranth_soc import wishbone


class MinervaCPU(Elaboratable):
    """Stand-in: the two bus initiators and the interrupt inputs of the processor, left to the test bench."""
    def __init__(self, **kwargs):
        self.kwargs = kwargs
        kw = dict(addr_width=30, data_width=32, granularity=8, features={"cti", "bte"})
        self.ibus, self.dbus = wishbone.Interface(name="ibus", **kw), wishbone.Interface(name="dbus", **kw)
        self.ip = Signal(32)

    def elaborate(self, platform):
        m = Module()
        seen = Signal(32)
        m.d.sync += seen.eq(self.ip)
        return m
