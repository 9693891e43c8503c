from amlib.soc.peripheral import Peripheral
from amaranth import Elaboratable, Module


class AsyncSerial:
    def __init__(self, *, divisor, pins=None):
        self.divisor, self.pins = divisor, pins


class AsyncSerialPeripheral(Peripheral, Elaboratable):
    """Stand-in: a peripheral with registers and an interrupt."""
    def __init__(self, *, core):
        super().__init__(name="uart")
        self.core = core
        bank = self.csr_bank()
        self._divisor = bank.csr(24, "rw", name="divisor")
        self._rx_data = bank.csr(8, "r", name="rx_data")
        self._tx_data = bank.csr(8, "w", name="tx_data")
        self._rdy_ev = self.event(mode="level", name="rdy")
        self._bridge = self.bridge(data_width=32, granularity=8, alignment=2)
        self.bus, self.irq = self._bridge.bus, self._bridge.irq

    def elaborate(self, platform):
        m = Module()
        m.submodules.bridge = self._bridge
        return m
