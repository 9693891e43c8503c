from amaranth import Elaboratable, Module, Signal


class GenericInterruptController(Elaboratable):
    def __init__(self, *, width):
        self.width, self.lines = width, {}
        self.ip = Signal(width)

    def add_irq(self, line, index):
        if index in self.lines or not 0 <= index < self.width:
            raise ValueError("interrupt index is taken or out of range")
        self.lines[index] = line

    def elaborate(self, platform):
        m = Module()
        for i, l in self.lines.items():
            m.d.comb += self.ip[i].eq(l)
        return m
