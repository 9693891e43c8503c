from amaranth import Elaboratable, Module, Memory
from amaranth.utils import log2_int
from amaranth_soc import wishbone, memory


class SRAMPeripheral(Elaboratable):
    """Stand-in: only its address space."""
    count = 0

    def __init__(self, *, size, data_width=32, granularity=8, writable=True):
        SRAMPeripheral.count += 1
        self.name = f"sram{SRAMPeripheral.count}"
        self._mem = Memory(width=data_width, depth=size * granularity // data_width)
        self.bus = wishbone.Interface(addr_width=log2_int(size * granularity // data_width), data_width=data_width, granularity=granularity)
        mm = memory.MemoryMap(addr_width=log2_int(size), data_width=granularity, name=self.name)
        mm.add_resource(self._mem, name="mem", size=size)
        self.bus.memory_map = mm

    def elaborate(self, platform):
        return Module()
