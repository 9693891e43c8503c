"""Stand-in for amaranth-soc's Wishbone interface, decoder and arbiter."""
from amaranth import Elaboratable, Module, Record, Signal, Cat
from amaranth.utils import log2_int
from .memory import MemoryMap

_W = {"err": 1, "rty": 1, "stall": 1, "lock": 1, "cti": 3, "bte": 2}


class Interface(Record):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        if granularity is None:
            granularity = data_width
        self.addr_width, self.data_width, self.granularity = addr_width, data_width, granularity
        self.features = set(features)
        self._map = None
        layout = [("adr", addr_width), ("dat_w", data_width), ("dat_r", data_width), ("sel", data_width // granularity),
                  ("cyc", 1), ("stb", 1), ("we", 1), ("ack", 1)]
        layout += [(f, _W[f]) for f in sorted(self.features)]
        super().__init__(layout, name=name or "wb")

    @property
    def memory_map(self):
        return self._map

    @memory_map.setter
    def memory_map(self, m):
        if m is not None:
            if m.data_width != self.granularity:
                raise ValueError("memory map has another data width than the bus granularity")
            if m.addr_width != max(1, self.addr_width + log2_int(self.data_width // self.granularity)):
                raise ValueError(f"memory map has address width {m.addr_width}, which does not fit the bus")
            m._frozen = True
        self._map = m

    def connect(self, sub):
        """self (initiator side) drives sub."""
        return [getattr(sub, n).eq(getattr(self, n)) for n in ("adr", "dat_w", "sel", "cyc", "stb", "we")] + \
               [self.dat_r.eq(sub.dat_r), self.ack.eq(sub.ack)]


class Decoder(Elaboratable):
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset(), alignment=0, name=None):
        self.data_width, self.granularity, self.features = data_width, granularity or data_width, features
        self._map = MemoryMap(addr_width=max(1, addr_width + log2_int(data_width // self.granularity)),
                              data_width=self.granularity, alignment=alignment, name=name)
        self._subs, self._bus = [], None

    @property
    def bus(self):
        if self._bus is None:
            g = log2_int(self.data_width // self.granularity)
            self._bus = Interface(addr_width=max(0, self._map.addr_width - g), data_width=self.data_width,
                                  granularity=self.granularity, features=self.features)
            self._bus._map = self._map
            self._map._frozen = True
        return self._bus

    def add(self, sub_bus, *, addr=None, sparse=False, extend=False):
        if sub_bus.granularity > self.granularity:
            raise ValueError("subordinate bus granularity is too coarse")
        if not sparse and sub_bus.data_width != self.data_width:
            raise ValueError("subordinate bus data width differs")
        r = self._map.add_window(sub_bus.memory_map, addr=addr, sparse=sparse, extend=extend)
        self._subs.append((sub_bus, r))
        return r

    def elaborate(self, platform):
        m = Module()
        bus = self.bus
        g = log2_int(self.data_width // self.granularity)
        ack = 0
        full = Signal(self._map.addr_width)
        m.d.comb += full.eq(Cat(Signal(g), bus.adr))
        for i, (sub, (a, b, ratio)) in enumerate(self._subs):
            m.d.comb += [sub.adr.eq((bus.adr - (a >> g)) ), sub.dat_w.eq(bus.dat_w),
                         sub.we.eq(bus.we), sub.stb.eq(bus.stb), sub.sel.eq(bus.sel)]
            with m.If((full >= a) & (full < b)):
                m.d.comb += [sub.cyc.eq(bus.cyc), bus.dat_r.eq(sub.dat_r)]
            ack = ack | sub.ack
        m.d.comb += bus.ack.eq(ack)
        return m


class Arbiter(Elaboratable):
    """Round robin between its initiators."""
    def __init__(self, *, addr_width, data_width, granularity=None, features=frozenset()):
        self.bus = Interface(addr_width=addr_width, data_width=data_width, granularity=granularity, features=features)
        self._intrs = []

    def add(self, bus):
        self._intrs.append(bus)

    def elaborate(self, platform):
        m = Module()
        n = len(self._intrs)
        grant = Signal(range(max(n, 2)))
        with m.If(~self.bus.cyc):
            with m.Switch(grant):
                for i in range(n):
                    with m.Case(i):
                        for p in reversed(range(i + 1, i + n)):
                            with m.If(self._intrs[p % n].cyc):
                                m.d.sync += grant.eq(p % n)
        with m.Switch(grant):
            for i, b in enumerate(self._intrs):
                with m.Case(i):
                    m.d.comb += [getattr(self.bus, f).eq(getattr(b, f)) for f in ("adr", "dat_w", "sel", "cyc", "stb", "we")]
                    m.d.comb += b.ack.eq(self.bus.ack)
        for b in self._intrs:
            m.d.comb += b.dat_r.eq(self.bus.dat_r)
        return m
