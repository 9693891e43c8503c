"""Stand-in for amaranth-soc's Wishbone to CSR bridge."""
from amaranth import Elaboratable, Module, Signal, Cat
from amaranth.utils import log2_int
from ..memory import MemoryMap
from ..wishbone import Interface


class WishboneCSRBridge(Elaboratable):
    def __init__(self, csr_bus, *, data_width=None, name=None):
        dw = data_width or csr_bus.data_width
        g = log2_int(dw // csr_bus.data_width)
        self.csr_bus = csr_bus
        self.wb_bus = Interface(addr_width=max(0, csr_bus.addr_width - g), data_width=dw, granularity=csr_bus.data_width)
        wb_map = MemoryMap(addr_width=max(csr_bus.addr_width, g, 1), data_width=csr_bus.data_width, name=name)
        wb_map.add_window(csr_bus.memory_map)
        self.wb_bus.memory_map = wb_map

    def elaborate(self, platform):
        m = Module()
        wb, csr = self.wb_bus, self.csr_bus
        n = len(wb.sel)
        w = csr.data_width
        cycle = Signal(range(n + 2))
        m.d.comb += csr.addr.eq(Cat(cycle[:log2_int(n)], wb.adr))
        with m.If(wb.cyc & wb.stb):
            with m.Switch(cycle):
                for i in range(n):
                    with m.Case(i):
                        if i > 0:
                            m.d.sync += wb.dat_r.word_select(i - 1, w).eq(csr.r_data)
                        m.d.comb += [csr.r_stb.eq(wb.sel[i] & ~wb.we), csr.w_data.eq(wb.dat_w.word_select(i, w)),
                                     csr.w_stb.eq(wb.sel[i] & wb.we)]
                        m.d.sync += cycle.eq(i + 1)
                with m.Case(n):
                    m.d.sync += [wb.dat_r.word_select(n - 1, w).eq(csr.r_data), wb.ack.eq(1), cycle.eq(n + 1)]
        with m.If(wb.ack):
            m.d.sync += [cycle.eq(0), wb.ack.eq(0)]
        return m
