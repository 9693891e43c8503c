import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from seed import seed
SI, IO, S2, BI, LA = "amlib/stream/i2c.py", "amlib/io/i2c.py", "amlib/io/i2s.py", "amlib/utils/bits.py", "amlib/debug/ila.py"
PADS = '''
from rtlsim import Sim
from amaranth import *
class T:
    def __init__(self, n): self.i, self.o, self.oe = Signal(reset=1, name=n + "i"), Signal(name=n + "o"), Signal(name=n + "e")
class Pads:
    def __init__(self): self.scl_t, self.sda_t = T("scl"), T("sda")
def decode(line):
    """(scl, sda) per cycle -> list of S, P, bytes"""
    out, cur, n = [], [], 0
    for (c0, d0), (c1, d1) in zip(line, line[1:]):
        if c0 and c1 and d0 and not d1: out.append("S"); cur = []
        elif c0 and c1 and not d0 and d1: out.append("P"); cur = []
        elif not c0 and c1:
            cur.append(d1)
            if len(cur) == 9: out.append(int("".join(map(str, cur[:8])), 2)); cur = []
    return out
'''
STR = PADS + '''
from amlib.stream.i2c import I2CStreamTransmitter
def send(packets, gap):
    p = Pads(); d = I2CStreamTransmitter(p, 8, clk_stretch=False); s = Sim(d); st = d.stream_in; line = []
    q = [(b, k == 0, k == len(x) - 1, gap if k == 0 else 0) for x in packets for k, b in enumerate(x)]
    w = 0
    for t in range(9000):
        scl, sda = 1 - s.peek(p.scl_t.oe), 1 - s.peek(p.sda_t.oe); line.append((scl, sda))
        s.poke(p.scl_t.i, scl); s.poke(p.sda_t.i, sda)
        if q and w >= q[0][3]:
            b, f, l, _ = q[0]
            s.poke(st.valid, 1); s.poke(st.payload, b); s.poke(st.first, f); s.poke(st.last, l); s.settle()
            if s.peek(st.ready): q.pop(0); w = 0
        else: s.poke(st.valid, 0); w += 1
        s.settle(); s.edge()
    return decode(line)
def want(packets): return [x for p in packets for x in ["S", *p, "P"]]
'''
seed("I03-a", "I03", [(SI, "                    with m.If(last):\n                        m.next = \"STOP\"", "                    with m.If(last & ~first):\n                        m.next = \"STOP\"")],
 "a packet of a single byte", "there is no STOP after a packet of one byte", STR + '''
for ps in ([[1, 2, 3]], [[0x55], [0xaa, 0x0f]]): assert send(ps, 0) == want(ps), send(ps, 0)
''')
seed("I03-b", "I03", [(SI, "                    m.d.comb += i2c.stop.eq(1)\n                    m.next = \"IDLE\"", "                    m.d.comb += i2c.stop.eq(~(in_fifo.r_rdy & first))\n                    m.next = \"IDLE\"")],
 "the next packet is waiting in the FIFO when the last byte of a packet is done", "packets sent back to back are joined by a repeated START instead of STOP and START", STR + '''
ps = [[1, 2, 3], [0x55, 0x77], [9, 8]]
assert send(ps, 900) == want(ps), send(ps, 900)
assert send(ps, 0) == want(ps), send(ps, 0)
''')
SYS = PADS + '''
from amlib.io.i2c import I2CInitiator, I2CTarget
class Sys:
    def __init__(self, addr):
        self.pi, self.pt = Pads(), Pads(); m = Module(); m.submodules.i = self.i = I2CInitiator(self.pi, 16); m.submodules.t = self.t = I2CTarget(self.pt)
        self.s = Sim(m, init=[(self.t.address, addr)]); self.ev = []; self.data = []
        for _ in range(5): self.tick()
    def tick(self):
        s = self.s; scl = 1 - (s.peek(self.pi.scl_t.oe) | s.peek(self.pt.scl_t.oe)); sda = 1 - (s.peek(self.pi.sda_t.oe) | s.peek(self.pt.sda_t.oe))
        for p in (self.pi, self.pt): s.poke(p.scl_t.i, scl); s.poke(p.sda_t.i, sda)
        s.poke(self.t.ack_o, 1); s.poke(self.t.data_o, self.data[0] if self.data else 0); s.settle()
        for k in ("start", "stop", "restart", "write", "read"):
            if s.peek(getattr(self.t, k)): self.ev.append((k, s.peek(self.t.data_i)) if k == "write" else k)
        rd = s.peek(self.t.read); s.edge()
        if rd and self.data: self.data.pop(0)
    def cmd(self, c, d=0, a=0):
        s = self.s; s.poke(self.i.data_i, d); s.poke(self.i.ack_i, a); s.poke(getattr(self.i, c), 1); self.tick(); s.poke(getattr(self.i, c), 0); self.tick()
        s.settle()
        while s.peek(self.i.busy): self.tick(); s.settle()
        for _ in range(8): self.tick()
        s.settle(); return s.peek(self.i.data_o) if c == "read" else s.peek(self.i.ack_o)
'''
seed("I04-a", "I04", [(IO, "                If(bus.scl_i & bus.sda_i,\n                    NextState(\"START-SDA-L\")", "                If(bus.scl_i & bus.sda_o,\n                    NextState(\"START-SDA-L\")")],
 "a repeated START directly after an acknowledged byte (the target still holds SDA)", "no START condition appears on the bus: the target takes the address for data", SYS + '''
b = Sys(0x2a)
b.cmd("start"); assert b.cmd("write", 0x54) == 1; assert b.cmd("write", 0x33) == 1; b.cmd("start"); assert b.cmd("write", 0x54) == 1; b.cmd("stop")
assert b.ev == ["start", ("write", 0x33), "restart", "start", "stop"], b.ev
b = Sys(0x2a); b.data = [0x81, 0x7e]
b.cmd("start"); assert b.cmd("write", 0x55) == 1; assert b.cmd("read", a=1) == 0x81; assert b.cmd("read", a=0) == 0x7e
assert b.ev == ["start", "read", "read", "stop"], b.ev
b.cmd("start"); assert b.cmd("write", 0x54) == 1; assert b.cmd("write", 0x33) == 1; b.cmd("stop")
assert b.ev == ["start", "read", "read", "stop", "start", ("write", 0x33), "stop"], b.ev
''')
seed("I01-c", "I01", [(IO, "            NextValue(bus.sda_o, ~r_ack),", "            NextValue(bus.sda_o, ~self.ack_i),")],
 "ack_i is changed after the read strobe", "the acknowledge bit is that of a later ack_i, not the one given with the command", SYS + '''
b = Sys(0x2a); b.data = [0x81, 0x7e, 0x55]
b.cmd("start"); assert b.cmd("write", 0x55) == 1
s = b.s
s.poke(b.i.ack_i, 1); s.poke(b.i.read, 1); b.tick(); s.poke(b.i.read, 0); s.poke(b.i.ack_i, 0); b.tick(); s.settle()
while s.peek(b.i.busy): b.tick(); s.settle()
assert s.peek(b.i.data_o) == 0x81
assert b.cmd("read", a=0) == 0x7e, "the first byte was not acknowledged"
''')
TX = '''
from rtlsim import Sim
from amaranth import *
from amlib.io.i2s import *
def tx(w, samples, slots, width=24, disable=None):
    """samples: list of (first, value), pushed at once; returns the words seen per word clock phase after enabling, standard format"""
    d = I2STransmitter(sample_width=width, fifo_depth=16); s = Sim(d, init=[(d.word_select_in, 1)]); st = d.stream_in
    for f, v in samples:
        s.poke(st.valid, 1); s.poke(st.first, f); s.poke(st.payload, v); s.settle(); assert s.peek(st.ready); s.edge()
    s.poke(st.valid, 0); s.poke(d.enable_in, 1); out = []; mis = und = 0; ws = 1
    for k in range(slots + 1):
        bits = []
        for b in range(w):
            for h in (0, 1):
                s.poke(d.serial_clock_in, h)
                if h == 0 and b == 0: ws = (k + 1) & 1; s.poke(d.word_select_in, ws)
                for _ in range(8):
                    s.settle(); mis += s.peek(d.mismatch_out); und += s.peek(d.underflow_out)
                    if h == 1 and _ == 0: bits.append(s.peek(d.serial_data_out))
                    s.edge()
        out.append(int("".join(map(str, bits[1:width + 1])), 2))
    return out, mis, und
'''
seed("U04-a", "U04", [(S2, "                                        with m.If(~first_flag):\n                                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))\n                                            m.d.comb += tx_fifo.r_en.eq(1)", "                                        m.d.comb += tx_fifo.r_en.eq(1)\n                                        with m.If(~first_flag):\n                                            m.d.sync += tx_shifter.eq(Cat(tx_fifo.r_data, offset))")],
 "a left sample arrives where a right one is expected (a right sample was lost)", "the sample that does not match the channel is thrown away instead of being kept for the next left channel", TX + '''
o, m, u = tx(32, [(1, 0x111111), (0, 0x222222), (1, 0x333333), (1, 0x444444), (0, 0x555555)], 9)
seq = [x for x in o if x]
assert seq == [0x111111, 0x222222, 0x333333, 0x444444, 0x555555], [hex(x) for x in o]
assert m == 1, m
''')
seed("U04-b", "U04", [(S2, "                    m.d.sync += [\n                        self.serial_data_out.eq(tx_shifter[sample_msb]),\n                        tx_shifter.eq(Cat(0, tx_shifter[:-1])),\n                        tx_cnt.eq(tx_cnt - 1)\n                    ]\n                    m.next = \"LEFT_WAIT\"", "                    m.d.sync += [\n                        self.serial_data_out.eq(tx_shifter[sample_msb]),\n                        tx_shifter.eq(Cat(tx_shifter[-1], tx_shifter[:-1])),\n                        tx_cnt.eq(tx_cnt - 1)\n                    ]\n                    m.next = \"LEFT_WAIT\"")],
 "an underflow in a right channel after a left sample", "instead of silence the left sample is sent again in the right channel", TX + '''
o, m, u = tx(32, [(1, 0x111111), (0, 0x222223), (1, 0x333333)], 7)
assert [x for x in o if x] == [0x111111, 0x222223, 0x333333], [hex(x) for x in o]
''')
RX = '''
from rtlsim import Sim
from amaranth import *
from amlib.io.i2s import *
def rx(slot, words, width=24, std=True, gaps=None, enable_at=0):
    d = I2SReceiver(sample_width=width, frame_format=I2S_FORMAT.STANDARD if std else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=16); s = Sim(d, init=[(d.word_select_in, int(std))]); got = []
    s.poke(d.enable_in, 1); s.poke(d.stream_out.ready, 1); prev = 0
    for k, v in enumerate([0, *words, 0, 0]):
        n = slot[k % len(slot)]
        bits = [(v >> (width - 1 - i)) & 1 for i in range(width)] + [1] * (n - width)
        for b in range(n):
            if std: bit = prev if b == 0 else bits[b - 1]
            else: bit = bits[b]
            for h in (0, 1):
                s.poke(d.serial_clock_in, h)
                if h == 0 and b == 0: s.poke(d.word_select_in, ((k + 1) & 1) if std else (k & 1))
                s.poke(d.serial_data_in, bit)
                for _ in range(8):
                    s.settle()
                    if s.peek(d.stream_out.valid): got.append((s.peek(d.stream_out.first), s.peek(d.stream_out.payload)))
                    s.edge()
        prev = bits[-1]
    return got
'''
seed("U05-b", "U05", [(S2, "                            m.next =  \"RIGHT\"", "                            m.next =  \"RIGHT\"\n                        with m.Elif(left_channel):\n                            m.d.sync += rx_cnt.eq(0)"), ] if False else
 [(S2, "                        with m.If((rx_cnt == 0) & left_channel):", "                        with m.If((rx_cnt == 0) & (left_channel | ~rx_fifo.w_rdy)):")],
 "the FIFO is full at the end of a right channel", "the receiver takes the next bits of the right channel for a left sample", RX.replace("s.poke(d.stream_out.ready, 1); prev = 0", "prev = 0").replace("    for k, v in", "    for k, v in", 1) + '''
def full(words, width=24):
    d = I2SReceiver(sample_width=width, fifo_depth=4); s = Sim(d, init=[(d.word_select_in, 1)]); got = []; s.poke(d.enable_in, 1)
    for k, v in enumerate([0, *words, 0, 0]):
        bits = [0] + [(v >> (width - 1 - i)) & 1 for i in range(width)] + [1] * 25
        for b, bit in enumerate(bits):
            if (k, b) == (9, 20): s.poke(d.stream_out.ready, 1)
            for h in (0, 1):
                s.poke(d.serial_clock_in, h); s.poke(d.serial_data_in, bit)
                if h == 0 and b == 0: s.poke(d.word_select_in, (k + 1) & 1)
                for _ in range(8):
                    s.settle()
                    if s.peek(d.stream_out.valid) and s.peek(d.stream_out.ready): got.append((s.peek(d.stream_out.first), s.peek(d.stream_out.payload)))
                    s.edge()
    return got
w = [0x100000 + k for k in range(1, 15)]
g = full(w); assert all(v == 0 or v in w and f == (v & 1) for f, v in g), [(f, hex(v)) for f, v in g]
''')
seed("U05-a", "U05", [(S2, "                                    rx_cnt      .eq(sample_width),\n                                    rx_delay_cnt.eq(rx_delay_val),\n                                ]\n                                m.next = \"LEFT\"", "                                    rx_cnt      .eq(Mux(rx_fifo.w_rdy, sample_width, sample_width - 1)),\n                                    rx_delay_cnt.eq(rx_delay_val),\n                                ]\n                                m.next = \"LEFT\"")],
 "the FIFO overflows at the end of a right channel", "the left sample after the overflow lacks its last bit", RX + '''
def full(words, width=24):
    d = I2SReceiver(sample_width=width, fifo_depth=4); s = Sim(d, init=[(d.word_select_in, 1)]); got = []; s.poke(d.enable_in, 1)
    for k, v in enumerate([0, *words, 0, 0]):
        bits = [0] + [(v >> (width - 1 - i)) & 1 for i in range(width)] + [1] * 25
        for b, bit in enumerate(bits):
            if (k, b) == (9, 20): s.poke(d.stream_out.ready, 1)
            for h in (0, 1):
                s.poke(d.serial_clock_in, h); s.poke(d.serial_data_in, bit)
                if h == 0 and b == 0: s.poke(d.word_select_in, (k + 1) & 1)
                for _ in range(8):
                    s.settle()
                    if s.peek(d.stream_out.valid) and s.peek(d.stream_out.ready): got.append((s.peek(d.stream_out.first), s.peek(d.stream_out.payload)))
                    s.edge()
    return got
w = [0x100000 + k for k in range(1, 15)]
g = full(w); assert all(v == 0 or v in w and f == (v & 1) for f, v in g), [(f, hex(v)) for f, v in g]
''')
B = "from amlib.utils.bits import bits\n"
seed("B01-a", "B01", [(BI, "        return self.__class__(self._int_ ^ other._int_, max(self._len_, other._len_))", "        return self.__class__(self._int_ ^ other._int_, self._len_ if self._len_ == other._len_ else None)")],
 "exclusive or of sequences of different lengths whose upper bits cancel", "leading zeros of the result are dropped", B + '''
assert bits("1010") ^ bits("1100") == bits("0110")
assert bits("1010") ^ bits("110011") == bits("111001")
assert bits("0010") ^ bits("10") == bits("0000"), bits("0010") ^ bits("10")
''')
seed("B01-b", "B01", [(BI, "            value |= bool(bit) << length", "            value |= int(bit) << length")],
 "an iterable with truthy items other than 0 and 1", "items like 2 or -1 set the wrong bits", B + '''
assert bits([1, 0, 1]) == bits("101"); assert bits([True, False]) == bits("01")
assert bits([2, 0, 0]) == bits("001"), bits([2, 0, 0])
assert bits(x & 4 for x in (4, 3, 12)) == bits("101")
''')
seed("B01-c", "B01", [(BI, "        return self._int_.to_bytes((self._len_ + 7) // 8, byteorder)", "        return (self._int_ if byteorder == \"little\" else self._int_ << (-self._len_ % 8)).to_bytes((self._len_ + 7) // 8, byteorder)")],
 "big endian bytes of a sequence whose length is no multiple of 8", "the value is left aligned: from_bytes does not give it back", B + '''
for n in (8, 16, 11, 3):
    b = bits(0x5a5 & (1 << n) - 1, n)
    assert bits.from_bytes(b.to_bytes("big"), n, "big") == b, n
    assert bits.from_bytes(b.to_bytes(), n) == b, n
''')
ILA = '''
from rtlsim import Sim
from amaranth import *
from amlib.debug.ila import *
'''
seed("A01-a", "A01", [(LA, "                    m.d.sync += [\n                        write_position .eq(0),\n                        self.complete  .eq(0),\n                    ]", "                    m.d.sync += self.complete.eq(0)")],
 "a second capture with a depth that is not a power of two", "the second capture does not start at address 0: samples are out of place", ILA + '''
for depth in (4, 6):
    x = Signal(8); d = IntegratedLogicAnalyzer(signals=[x], sample_depth=depth, samples_pretrigger=1); s = Sim(d); v = 0
    for cap in range(3):
        for _ in range(3): v += 1; s.poke(x, v); s.settle(); s.edge()
        v += 1; s.poke(x, v); s.poke(d.trigger, 1); s.settle(); s.edge(); s.poke(d.trigger, 0); t = v
        for _ in range(60):
            s.settle()
            if s.peek(d.complete): break
            v += 1; s.poke(x, v); s.settle(); s.edge()
        assert s.peek(d.complete)
        for a in range(depth):
            s.poke(d.captured_sample_number, a); s.settle(); s.edge(); s.settle()
            assert s.peek(d.captured_sample) == t - 1 + a, (depth, cap, a)
''')
seed("A01-b", "A01", [(LA, "                m.d.comb += sampling.eq(enabled)\n", "                m.d.comb += sampling.eq(enabled)\n                with m.If(self.trigger & ~sampling):\n                    m.d.sync += write_position.eq(0)\n")],
 "with_enable, and a second trigger in a disabled cycle of a running capture", "the capture starts over: the samples around the first trigger are overwritten", ILA + '''
x = Signal(8); d = IntegratedLogicAnalyzer(signals=[x], sample_depth=8, samples_pretrigger=0, with_enable=True); s = Sim(d); want = []
for k in range(60):
    en = k < 10 or k % 3 == 0; tr = k == 5 or k == 17
    s.poke(x, k); s.poke(d.enable, en); s.poke(d.trigger, tr)
    if k >= 5 and en: want.append(k)
    s.settle(); s.edge()
s.settle(); assert s.peek(d.complete)
for a in range(8):
    s.poke(d.captured_sample_number, a); s.settle(); s.edge(); s.settle()
    assert s.peek(d.captured_sample) == want[a], a
''')
SPI = ILA + '''
def ila(width, depth, reads):
    x = Signal(width); d = SyncSerialILA(signals=[x], sample_depth=depth, samples_pretrigger=0, clock_polarity=0, clock_phase=1); s = Sim(d); sp = d.spi
    vals = [(k * 0x1234567) & (1 << width) - 1 | 1 << (width - 1) for k in range(1, depth + 1)]
    s.poke(d.trigger, 1)
    for v in vals: s.poke(x, v); s.settle(); s.edge(); s.poke(d.trigger, 0)
    for _ in range(8): s.edge()
    w = 32
    while w < width: w *= 2
    for nbits in reads:
        s.poke(sp.cs, 1)
        for _ in range(8): s.edge()
        got = []
        for _ in range(nbits):
            s.poke(sp.sck, 1)
            for _ in range(6): s.settle(); s.edge()
            s.settle(); got.append(s.peek(sp.sdo)); s.poke(sp.sck, 0)
            for _ in range(6): s.settle(); s.edge()
        s.poke(sp.cs, 0)
        for _ in range(8): s.settle(); s.edge()
        want = [(vals[i // w] >> (w - 1 - i % w)) & 1 for i in range(nbits)]
        assert got == want, (width, nbits)
'''
seed("A02-a", "A02", [(LA, "        # Bolster our bits_per_word up to a power of two...\n        self.bits_per_sample = words_per_sample * 4 * 8\n        self.bits_per_sample = 2 ** ((self.bits_per_sample - 1).bit_length())\n\n        # ... and compute how many bits should be used.\n        self.bytes_per_sample = (self.bits_per_sample + 7) // 8\n\n        # Expose our ILA's trigger and status ports directly.\n        self.trigger   = self.ila.trigger\n        self.capturing = self.ila.capturing\n        self.sampling  = self.ila.sampling\n        self.complete  = self.ila.complete\n\n\n    def elaborate(self, platform):\n        m  = Module()\n        m.submodules.ila = self.ila\n", "        # Bolster our bits_per_word up to a power of two...\n        self.bits_per_sample = words_per_sample * 4 * 8\n\n        # ... and compute how many bits should be used.\n        self.bytes_per_sample = (self.bits_per_sample + 7) // 8\n\n        # Expose our ILA's trigger and status ports directly.\n        self.trigger   = self.ila.trigger\n        self.capturing = self.ila.capturing\n        self.sampling  = self.ila.sampling\n        self.complete  = self.ila.complete\n\n\n    def elaborate(self, platform):\n        m  = Module()\n        m.submodules.ila = self.ila\n")],
 "samples of 65 to 96 bits", "words are 96 instead of 128 bits", SPI + '''
ila(12, 4, [96]); ila(40, 4, [200]); ila(70, 4, [300])
''')
seed("A02-b", "A02", [(LA, "        with m.Else():\n            m.d.sync += current_sample_number.eq(0)\n", "        with m.Elif(self.ila.capturing):\n            m.d.sync += current_sample_number.eq(0)\n")],
 "a second selection after one that read at least one sample", "the second selection does not start with the first sample", SPI + '''
ila(12, 4, [128]); ila(12, 4, [128, 128]); ila(12, 6, [70, 150])
''')
STI = ILA + '''
def cap(depth, ready, n=2, **kw):
    x = Signal(8); d = StreamILA(signals=[x], sample_depth=depth, samples_pretrigger=0, **kw); s = Sim(d); st = d.stream; out = []; v = t = 0
    for c in range(n):
        cur, t0 = [], None
        for k in range(30 * depth + 60):
            v = (v + 1) & 255; s.poke(x, v); s.poke(d.trigger, k == 5)
            if k == 5: t0 = v
            s.settle(); val = s.peek(st.valid); r = ready(k, val); s.poke(st.ready, r); s.settle()
            if val and r: cur.append((s.peek(st.payload), s.peek(st.first), s.peek(st.last)))
            s.edge()
        assert cur == [((t0 + i) & 255, i == 0, i == depth - 1) for i in range(depth)], (depth, c, cur)
'''
seed("A03-a", "A03", [(LA, "                    m.d.sync += [\n                        current_sample_number  .eq(0),\n                        in_domain_stream.first      .eq(1)\n                    ]\n                    m.next = \"SENDING\"", "                    m.d.sync += in_domain_stream.first.eq(1)\n                    m.next = \"SENDING\"")],
 "a second readout with a depth that is not a power of two", "the second readout starts beyond the captured samples and sends too many words", STI + '''
cap(8, lambda k, v: 1); cap(6, lambda k, v: 1)
''')
seed("A03-b", "A03", [(LA, "                with m.If(self.ila.complete):\n                    m.d.sync += [", "                with m.If(self.ila.complete | self.trigger):\n                    m.d.sync += ["), ],
 "a second trigger while the capture runs", "the readout starts before the samples are there", STI + '''
cap(8, lambda k, v: 1)
x = Signal(8); d = StreamILA(signals=[x], sample_depth=8, samples_pretrigger=0, with_enable=True); s = Sim(d); st = d.stream; cur = []; s.poke(st.ready, 1); want = []
for k in range(1, 120):
    en = k < 6 or k % 4 == 0
    s.poke(x, k); s.poke(d.enable, en); s.poke(d.trigger, k in (5, 8)); s.settle()
    if k >= 5 and en: want.append(k)
    if s.peek(st.valid): cur.append(s.peek(st.payload))
    s.edge()
assert cur == want[:8], cur
''', stubs=True)
FE = ILA + '''
from amlib.utils.bits import bits
import io, tempfile, os, sys
class FE(ILAFrontend):
    def __init__(self, ila, raw): super().__init__(ila); self.raw = raw
    def _read_samples(self): return self.raw
'''
seed("A04-a", "A04", [(LA, "        signals = [Signal(shape=Shape(s.len, s.signed), name=s.name) for s in ila.signals]", "        signals = [Signal(shape=Shape(max(s.len, 2) if s.signed else s.len, s.signed), name=s.name) for s in ila.signals]")],
 "pickled parameters with a signed signal of one bit, followed by other signals", "after unpickling the signals behind it are cut out one bit too far up", FE + '''
a, b, c = Signal(3, name="a"), Signal(signed(1), name="b"), Signal(8, name="c")
d = StreamILA(signals=[a, b, c], sample_depth=4)
with tempfile.TemporaryDirectory() as t:
    ILACoreParameters(d).pickle(t + "/p"); p = ILACoreParameters.unpickle(t + "/p")
raw = [bits(0b10100101_1_011, 12), bits(0b00111100_0_101, 12)]
for par in (d, p):
    f = FE(par, raw); f.refresh()
    assert [int(x["c"]) for x in f.samples] == [0xa5, 0x3c], f.samples
''', stubs=True)
seed("A04-b", "A04", [(LA, "            byte_width=self.bytes_per_sample,\n            divisor", "            byte_width=(self.sample_width + 7) // 8,\n            divisor")],
 "samples of 17 to 24 bits (or 3, 5, 6, 7 ... bytes)", "the UART sends 3 bytes per sample, the frontend reads 4", FE + '''
def bytes_per(widths):
    sg = [Signal(w, name=f"x{i}") for i, w in enumerate(widths)]; d = AsyncSerialILA(signals=sg, sample_depth=4, divisor=8, samples_pretrigger=0); s = Sim(d); line = []
    for k in range(3000):
        s.poke(d.trigger, k == 5)
        for i, q in enumerate(sg): s.poke(q, (k * 3 + i + 1) & (1 << len(q)) - 1)
        s.settle(); line.append(s.peek(d.tx)); s.edge()
    n, i = 0, 0
    while i < len(line):
        if line[i]: i += 1
        else: n += 1; i += 76
    return n, d.bytes_per_sample * 4
for w in ([8], [8, 8], [12, 7], [1, 30]):
    n, e = bytes_per(w); assert n == e, (w, n, e)
''', stubs=True)
