import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from seed import seed
C, S, SI = "amlib/io/i2c.py", "amlib/io/spi.py", "amlib/stream/i2c.py"
PADS = '''
from amaranth import Signal
from rtlsim import Sim
class Triple:
    def __init__(self): self.i, self.o, self.oe = Signal(reset=1), Signal(), Signal()
class Pads:
    def __init__(self): self.scl_t, self.sda_t = Triple(), Triple()
'''
INIT = PADS + '''
from amlib.io.i2c import I2CInitiator
class Bus:
    """bits: what the device sends at each clock low; stretch: cycles the device holds SCL after releasing time"""
    def __init__(self, period=16, stretch=0):
        self.p = Pads(); self.d = I2CInitiator(self.p, period); self.s = Sim(self.d); self.stretch = stretch
        self.wire = []; self.dev = []; self.k = -1; self.ps = 1; self.low = 0; self.sda = 1; self.hook = None
    def tick(self, **k):
        d, s, p = self.d, self.s, self.p
        scl = 1 - s.peek(p.scl_t.oe)
        if self.ps and not scl: self.k += 1; self.low = 0
        if not scl: self.low = 0
        elif self.low <= self.stretch: self.low += 1
        real = int(scl and self.low > self.stretch)
        if not real and self.low >= self.stretch - 2 or not self.stretch: self.sda = self.dev[self.k] if 0 <= self.k < len(self.dev) else 1
        sda = (1 - s.peek(p.sda_t.oe)) & self.sda
        if real and not getattr(self, "pr", 1): self.wire.append(sda)
        self.pr = real; self.ps = scl
        for n in ("start", "stop", "write", "read"): s.poke(getattr(d, n), k.get(n, 0))
        for n in ("data_i", "ack_i"):
            if n in k: s.poke(getattr(d, n), k[n])
        s.poke(p.scl_t.i, real); s.poke(p.sda_t.i, sda); s.settle(); s.edge(); s.settle()
    def idle(self):
        for _ in range(3000):
            if not self.s.peek(self.d.busy): return
            self.tick()
        raise AssertionError("busy forever")
    def cmd(self, **k):
        self.idle(); self.wire.clear(); self.k = -1; self.tick(**k)
        if self.hook: self.tick(**self.hook)
        self.tick(); self.tick(); self.idle()
'''

seed("I01-a", "I01", [(C, "            NextValue(bus.sda_o, ~r_ack),\n", "            NextValue(bus.sda_o, ~(r_ack & self.ack_i)),\n")],
 "ack_i changed while a read is going on", "the acknowledge sent after a read depends on ack_i at the end of the octet instead of the value latched with the command", INIT + '''
b = Bus(); b.cmd(start=1); b.dev = [1, 0, 1, 0, 0, 1, 0, 1, 1]; b.hook = dict(ack_i=0); b.cmd(read=1, ack_i=1)
assert b.s.peek(b.d.data_o) == 0xa5, hex(b.s.peek(b.d.data_o))
assert len(b.wire) == 9 and b.wire[8] == 0, b.wire
''')

seed("I01-b", "I01", [(C, "                    If((not clk_stretch) | (bus.scl_i == 1),\n                        NextState(next_state),", "                    If((not clk_stretch) | (bus.scl_i == 1) | (bitno == 0),\n                        NextState(next_state),")],
 "a device stretching the clock low in the first bit or the acknowledge bit of an octet", "the acknowledge (or first bit) is sampled before the stretched clock has risen", INIT + '''
b = Bus(stretch=30); b.cmd(start=1)
for ack in (0, 1):
    b.dev = [1] * 8 + [ack]; b.cmd(write=1, data_i=0x5a)
    assert b.wire[:8] == [0, 1, 0, 1, 1, 0, 1, 0], b.wire
    assert b.s.peek(b.d.ack_o) == 1 - ack, ack
''')

TGT = PADS + '''
from amlib.io.i2c import I2CTarget
class Bus:
    def __init__(self, addr):
        self.p = Pads(); self.d = I2CTarget(self.p); self.s = Sim(self.d, init=[(self.d.address, addr)]); self.scl = self.sda = 1
        self.ev = []; self.data = [0]; self.line = 1
    def tick(self, n=12):
        for _ in range(n):
            d, s = self.d, self.s
            self.line = self.sda & (1 - s.peek(self.p.sda_t.oe))
            s.poke(self.p.scl_t.i, self.scl); s.poke(self.p.sda_t.i, self.line); s.poke(d.ack_o, 1); s.poke(d.data_o, self.data[0]); s.settle()
            for n in ("start", "stop", "restart", "write", "read"):
                if s.peek(getattr(d, n)): self.ev.append((n, s.peek(d.data_i)) if n == "write" else n)
            if s.peek(d.read) and len(self.data) > 1: nxt = self.data.pop(0)
            s.edge(); s.settle()
    def bit(self, b):
        self.scl = 0; self.tick(3); self.sda = b; self.tick(); self.scl = 1; self.tick(); return self.line
    def start(self):
        if self.scl == 0 or self.sda == 0: self.scl = 0; self.tick(3); self.sda = 1; self.tick(); self.scl = 1; self.tick()
        self.sda = 0; self.tick()
    def stop(self):
        self.scl = 0; self.tick(3); self.sda = 0; self.tick(); self.scl = 1; self.tick(); self.sda = 1; self.tick()
    def byte(self, v):
        for i in range(8): self.bit(v >> (7 - i) & 1)
        return self.bit(1)
'''
seed("I02-a", "I02", [(C, "            ).Elif(bus.setup,\n                NextValue(bitno, 0),\n                NextState(\"ADDR-SHIFT\")", "            ).Elif(bus.setup,\n                NextState(\"ADDR-SHIFT\")")],
 "a repeated START (or STOP and START) in the middle of a byte, then a transaction for the target", "after an aborted byte the target counts the next address wrongly and does not answer", TGT + '''
b = Bus(0x2a); b.start(); assert b.byte(0x54) == 0; assert b.byte(0x11) == 0
b.bit(1); b.bit(0); b.bit(1); b.start()
assert b.byte(0x54) == 0, "own address not acknowledged after a repeated START in a byte"
assert b.byte(0x77) == 0; b.stop()
assert b.ev == ["start", ("write", 0x11), "restart", "start", ("write", 0x77), "stop"], b.ev
''')

seed("I02-b", "I02", [(C, "            ).Elif(bus.setup,\n                NextValue(bus.sda_o, 1),\n                NextState(\"WRITE-SHIFT\")\n            ).Elif(~bus.scl_i,", "            ).Elif(bus.setup,\n                NextValue(bus.sda_o, shreg_i[7] & ~shreg_i[6] | ~self.ack_o),\n                NextState(\"WRITE-SHIFT\")\n            ).Elif(~bus.scl_i,")],
 "the user keeps ack_o asserted beyond the acknowledge bit", "the target keeps pulling SDA after the acknowledge bit and corrupts the next byte", TGT + '''
b = Bus(0x2a); b.start(); assert b.byte(0x54) == 0; assert b.byte(0x11) == 0; assert b.byte(0xff) == 0; b.stop()
assert b.ev == ["start", ("write", 0x11), ("write", 0xff), "stop"], b.ev
''')

seed("I03-a", "I03", [(SI, "                with m.If(~i2c.busy & in_fifo.r_rdy & first):", "                with m.If(~i2c.busy & in_fifo.r_rdy & (first | (in_fifo.level == self._fifo_depth))),"[:-1] + ":")],
 "a full FIFO... (no first word pending)", "nothing", "raise SystemExit(0)\n") if False else None

DEV = '''
from rtlsim import Sim
from amlib.io.spi import SPIDeviceInterface
def word(s, d, pol, pha, bits, msb=True, per=8):
    out = []
    for b in bits:
        if pha == 0:
            s.poke(d.spi.sdi, b)
            for _ in range(per): s.edge()
            s.settle(); out.append(s.peek(d.spi.sdo)); s.poke(d.spi.sck, 1 - pol)
            for _ in range(per): s.edge()
            s.poke(d.spi.sck, pol)
        else:
            s.poke(d.spi.sck, 1 - pol); s.poke(d.spi.sdi, b)
            for _ in range(per): s.edge()
            s.settle(); out.append(s.peek(d.spi.sdo)); s.poke(d.spi.sck, pol)
            for _ in range(per): s.edge()
    for _ in range(per): s.edge()
    s.settle()
    return out
'''
seed("P01-a", "P01", [(S, "                current_tx   .eq(self.word_out),\n                bit_count    .eq(0),\n                is_first_bit .eq(1),", "                current_tx   .eq(self.word_out),\n                is_first_bit .eq(1),"),
 (S, "                m.d.sync += [\n                    bit_count    .eq(bit_count + 1),\n                    is_first_bit .eq(0)", "                m.d.sync += [\n                    bit_count    .eq(Mux(is_first_bit & (bit_count[-1:] == 0), 1, bit_count + 1)),\n                    is_first_bit .eq(0)")],
 "a selection that ends in the second half of a word, followed by another selection", "the bits of an aborted word are counted into the next selection when more than half of it had been received", DEV + '''
d = SPIDeviceInterface(word_size=8); s = Sim(d); got = []
def sel(v):
    s.poke(d.spi.cs, v)
    for _ in range(10): s.edge()
    s.settle()
sel(0); sel(1); word(s, d, 0, 0, [1, 0, 1, 0, 1, 1]); sel(0); sel(1); word(s, d, 0, 0, [1, 1, 0, 0, 0, 1, 0, 1]); sel(0)
assert s.peek(d.word_in) == 0xc5, hex(s.peek(d.word_in))
''')

seed("P01-b", "P01", [(S, "                    m.d.sync += current_rx.eq(Cat(current_rx[1:], sdi))", "                    m.d.sync += current_rx.eq(Cat(current_rx[1:], Mux(is_first_bit & self.clock_phase & ~self.clock_polarity, current_rx[0], sdi)))")],
 "LSB first, clock phase 1, polarity 0, first bit of the first word of a selection", "the first bit received in a selection is replaced by an old one", DEV + '''
for pol in (0, 1):
    for v in (0x35, 0x34, 0x01, 0xfe):
        d = SPIDeviceInterface(word_size=8, msb_first=False, clock_phase=1, clock_polarity=pol); s = Sim(d, init=[(d.spi.sck, pol)])
        for c in (0, 1):
            s.poke(d.spi.cs, c)
            for _ in range(10): s.edge()
        word(s, d, pol, 1, [v >> i & 1 for i in range(8)])
        assert s.peek(d.word_in) == v, (pol, v, s.peek(d.word_in))
''')
