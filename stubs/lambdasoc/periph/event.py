from amaranth import Signal


class IRQLine(Signal):
    def __init__(self, shape=1, *, name=None, src_loc_at=0):
        super().__init__(shape, name=name or "irq", src_loc_at=1 + src_loc_at)
    __hash__ = Signal.__hash__
