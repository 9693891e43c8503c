from amlib.soc.peripheral import Peripheral
from amaranth import Elaboratable, Module


class TimerPeripheral(Peripheral, Elaboratable):
    """Stand-in: a peripheral with registers and an interrupt."""
    def __init__(self, *, width):
        super().__init__(name="timer")
        bank = self.csr_bank()
        self._reload = bank.csr(width, "rw", name="reload")
        self._en = bank.csr(1, "rw", name="en")
        self._ctr = bank.csr(width, "rw", name="ctr")
        self._zero_ev = self.event(mode="rise", name="zero")
        self._bridge = self.bridge(data_width=32, granularity=8, alignment=2)
        self.bus, self.irq = self._bridge.bus, self._bridge.irq

    def elaborate(self, platform):
        m = Module()
        m.submodules.bridge = self._bridge
        return m
