"""Stand-in for amaranth-soc's CSR elements and multiplexer (same registered-access behaviour)."""
import enum
from amaranth import Elaboratable, Module, Record, Signal, Mux
from ..memory import MemoryMap

__all__ = ["Access", "Element", "Interface", "Multiplexer"]


class Access(enum.Enum):
    R, W, RW = "r", "w", "rw"

    def readable(self):
        return self is not self.W

    def writable(self):
        return self is not self.R


class Element(Record):
    def __init__(self, width, access, *, name=None, src_loc_at=0):
        self.width, self.access = width, Access(access)
        layout = []
        if self.access.readable():
            layout += [("r_data", width), ("r_stb", 1)]
        if self.access.writable():
            layout += [("w_data", width), ("w_stb", 1)]
        super().__init__(layout, name=name)


class Interface(Record):
    def __init__(self, *, addr_width, data_width, name=None):
        self.addr_width, self.data_width = addr_width, data_width
        self.memory_map = None
        super().__init__([("addr", addr_width), ("r_data", data_width), ("r_stb", 1), ("w_data", data_width), ("w_stb", 1)], name=name or "csr")


class Multiplexer(Elaboratable):
    def __init__(self, *, addr_width, data_width, alignment=0, name=None):
        self._map = MemoryMap(addr_width=addr_width, data_width=data_width, alignment=alignment, name=name)
        self._bus = None

    @property
    def bus(self):
        if self._bus is None:
            self._map._frozen = True
            self._bus = Interface(addr_width=self._map.addr_width, data_width=self._map.data_width)
            self._bus.memory_map = self._map
        return self._bus

    def align_to(self, alignment):
        return self._map.align_to(alignment)

    def add(self, elem, *, addr=None, alignment=None, extend=False):
        size = (elem.width + self._map.data_width - 1) // self._map.data_width
        return self._map.add_resource(elem, name=elem.name, size=size, addr=addr, alignment=alignment, extend=extend)

    def elaborate(self, platform):
        m = Module()
        bus, fanin = self.bus, 0
        for elem, name, (start, end) in self._map.resources():
            shadow = Signal(max(1, (end - start) * bus.data_width), name=f"{name}_shadow")
            en = Signal(end - start, name=f"{name}_en")
            if elem.access.readable():
                m.d.sync += en.eq(0)
            if elem.access.writable():
                m.d.comb += elem.w_data.eq(shadow)
                m.d.sync += elem.w_stb.eq(0)
            for off, addr in enumerate(range(start, end)):
                sl = shadow.word_select(off, bus.data_width)
                with m.If(bus.addr == addr):
                    if elem.access.readable():
                        if off == 0:
                            m.d.comb += elem.r_stb.eq(bus.r_stb)
                            with m.If(bus.r_stb):
                                m.d.sync += shadow.eq(elem.r_data)
                        m.d.sync += en[off].eq(bus.r_stb)
                    if elem.access.writable():
                        if addr == end - 1:
                            m.d.sync += elem.w_stb.eq(bus.w_stb)
                        with m.If(bus.w_stb):
                            m.d.sync += sl.eq(bus.w_data)
                if elem.access.readable():
                    fanin = fanin | Mux(en[off], sl, 0)
        m.d.comb += bus.r_data.eq(fanin)
        return m
