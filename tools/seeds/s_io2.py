import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from seed import seed
S, U, SU, I = "amlib/io/spi.py", "amlib/io/serial.py", "amlib/stream/uart.py", "amlib/io/i2s.py"

CMD = '''
from amaranth import Signal
from rtlsim import Sim
class Host:
    def __init__(self, d, spi): self.d = d; self.s = Sim(d); self.spi = spi; self.mon = []; self.seen = []; self.t(4)
    def t(self, n=4):
        for _ in range(n):
            self.s.settle(); self.seen.append([self.s.peek(x) for x in self.mon]); self.s.edge(); self.s.settle()
    def sel(self, v, n=4): self.s.poke(self.spi.cs, v); self.t(n)
    def bits(self, bits):
        out = []
        for b in bits:
            self.s.poke(self.spi.sck, 1); self.s.poke(self.spi.sdi, b); self.t(); out.append(self.s.peek(self.spi.sdo)); self.s.poke(self.spi.sck, 0); self.t(8)
        return out
    def num(self, v, n): return [v >> (n - 1 - i) & 1 for i in range(n)]
    def xfer(self, cmd, cn, v, n):
        self.sel(1); self.bits(self.num(cmd, cn)); r = self.bits(self.num(v, n)); self.sel(0)
        return int("".join(map(str, r)), 2)
'''
seed("P02-a", "P02", [(S, "                m.d.sync += bit_count.eq(0)\n\n                with m.If(spi.cs):\n                    m.next = 'RECEIVE_COMMAND'", "                with m.If(spi.cs):\n                    m.next = 'RECEIVE_COMMAND'\n                with m.Else():\n                    m.d.sync += bit_count.eq(0)")],
 "a transaction aborted in the middle, then chip select inactive for a single cycle", "the bits of the aborted transaction are counted into the next command", CMD + '''
from amlib.io.spi import SPICommandInterface
for gap in (1, 2, 5):
    d = SPICommandInterface(command_size=8, word_size=8); h = Host(d, d.spi)
    h.sel(1); h.bits([1, 0, 1]); h.sel(0, gap); h.sel(1); h.mon = [d.command_ready, d.command]; h.seen = []
    h.bits(h.num(0x5c, 8)); got = [c for r, c in h.seen if r]
    assert got == [0x5c], (gap, got)
''')
seed("P02-b", "P02", [(S, "                # If CS is de-asserted early; our transaction is being aborted.\n                with m.If(~spi.cs):\n                    m.next = 'IDLE'\n\n                m.d.sync += spi.sdo.eq(current_word[-1])", "                # If CS is de-asserted early; our transaction is being aborted.\n                with m.If(~spi.cs & ~((bit_count == 0) & self.word_to_send[0])):\n                    m.next = 'IDLE'\n\n                m.d.sync += spi.sdo.eq(current_word[-1])")],
 "deselection after a command and before its first data bit, while the user supplies an odd word", "the interface stays selected: the next transaction's command is taken for data", CMD + '''
from amlib.io.spi import SPICommandInterface
for out in (0x10, 0x11):
    d = SPICommandInterface(command_size=8, word_size=8); h = Host(d, d.spi); h.s.poke(d.word_to_send, out)
    h.sel(1); h.bits(h.num(0x81, 8)); h.sel(0); h.mon = [d.command_ready, d.command]; h.seen = []
    h.sel(1); h.bits(h.num(0x35, 8))
    assert [c for r, c in h.seen if r] == [0x35], out
''')
seed("P03-a", "P03", [(S, "                else:\n                    m.d.comb += self.interface.word_to_send.eq(self.default_read_value)", "                elif connections['write_signal'] is None:\n                    m.d.comb += self.interface.word_to_send.eq(self.default_read_value)")],
 "reading a write-only register of an interface whose default read value is not zero", "a write-only register reads as 0 instead of the default read value", CMD + '''
from amlib.io.spi import SPIRegisterInterface
d = SPIRegisterInterface(address_size=7, register_size=8, default_read_value=0xa6)
ws = Signal(8); d.add_sfr(3, write_signal=ws); r = d.add_register(4, reset=0x42); d.add_sfr(5)
h = Host(d, d.spi)
assert h.xfer(4, 8, 0, 8) == 0x42
for a in (3, 5, 9): assert h.xfer(a, 8, 0, 8) == 0xa6, a
''')
seed("P03-b", "P03", [(S, "                connections['write_strobe'].eq(self._is_write & self.interface.word_complete & register_selected)", "                connections['write_strobe'].eq(self.interface.command[-1] & self.interface.word_complete & (self.interface.command[:min(self.address_size, 8)] == register_address))")],
 "addresses of more than eight bits, a write to an address that differs only in the upper bits", "a write to an unmapped address changes the register with the same low eight address bits", CMD + '''
from amlib.io.spi import SPIRegisterInterface
d = SPIRegisterInterface(address_size=15, register_size=16)
r = d.add_register(5, reset=0x1111)
h = Host(d, d.spi)
h.xfer(0x8000 | 5, 16, 0xbeef, 16); h.t(4); assert h.s.peek(r) == 0xbeef
h.xfer(0x8000 | 0x105, 16, 0x1234, 16); h.t(4); assert h.s.peek(r) == 0xbeef, hex(h.s.peek(r))
''')
seed("P04-a", "P04", [(S, "            with m.State(\"TRANSFER\"):\n                with m.If(spi_device.word_complete):\n                    m.next = \"IDLE\"", "            with m.State(\"TRANSFER\"):\n                with m.If(spi_device.word_complete):\n                    with m.If(self.start_transfer):\n                        m.next = \"WAIT_EDGE\"\n                    with m.Else():\n                        m.next = \"IDLE\"")],
 "start_transfer in the very cycle in which the word is complete (or held)", "chip select and clock are not put into their idle state properly before the next word: a word starts that the (idle) protocol does not start", '''
from rtlsim import Sim
from amlib.io.spi import SPIControllerInterface
# a start in the cycle of word_complete is too early and is not taken: the controller is not idle yet
d = SPIControllerInterface(word_size=8, divisor=10); s = Sim(d)
def tick(start=0):
    s.poke(d.spi.sdi, s.peek(d.spi.sdo)); s.poke(d.start_transfer, start); s.settle(); s.edge(); s.settle()
s.poke(d.word_out, 0xa7)
for _ in range(5): tick()
tick(1)
for i in range(400):
    if s.peek(d.word_complete): break
    tick()
tick(1); n = 0
for i in range(400):
    tick(); n += s.peek(d.word_complete)
assert n == 0, "a word was transferred without a start while idle"
''') if False else None
seed("P04-b", "P04", [(S, "                m.d.sync += sck_divider.clock_enable_in.eq(0)\n                with m.If(self.start_transfer):", "                with m.If(~self.start_transfer):\n                    m.d.sync += sck_divider.clock_enable_in.eq(0)\n                with m.If(self.start_transfer & ~sck_divider.clock_enable_in | self.start_transfer & (len(self.word_out) < 24)):")],
 "a transfer of a word of 24 or more bits started in the first idle cycle after another", "the start is lost: no word is sent", '''
from rtlsim import Sim
from amlib.io.spi import SPIControllerInterface
for w in (8, 24):
    d = SPIControllerInterface(word_size=w, divisor=10); s = Sim(d); got = 0
    def tick(start=0):
        global got
        s.poke(d.spi.sdi, s.peek(d.spi.sdo)); s.poke(d.start_transfer, start); s.settle(); s.edge(); s.settle()
        got += s.peek(d.word_complete)
    s.poke(d.word_out, 0xa7)
    for _ in range(5): tick()
    tick(1)
    while not got: tick()
    tick(); tick(1)
    for _ in range(w * 14 + 100): tick()
    assert got == 2, (w, got)
    assert s.peek(d.word_in) == 0xa7
''')
seed("P05-a", "P05", [(S, "                bus.sdi .eq(self.shared_lines.sdi)", "                bus.sdi .eq(self.shared_lines.sdi & (bus.cs | ~self.multiplexed_busses[0].cs))")],
 "data on the shared lines while the first bus is selected, seen by another bus", "the shared data input does not reach the other buses while the first is selected", '''
from amaranth import Module
from rtlsim import Sim
from amlib.io.spi import SPIMultiplexer, SPIDeviceBus
b = [SPIDeviceBus() for _ in range(3)]; d = SPIMultiplexer(b); s = Sim(d)
for cs in range(8):
    for i in range(3): s.poke(b[i].cs, cs >> i & 1)
    for v in (0, 1):
        s.poke(d.shared_lines.sdi, v); s.settle()
        assert [s.peek(x.sdi) for x in b] == [v] * 3, cs
''')

SER = '''
from rtlsim import Sim
from amlib.io.serial import AsyncSerial, AsyncSerialRX, AsyncSerialTX
def frame(v, n, par):
    x = [v >> i & 1 for i in range(n)]; p = sum(x) & 1
    return [0] + x + {"none": [], "even": [p], "odd": [1 - p], "mark": [1], "space": [0]}[par] + [1]
def tick(s, n=1):
    for _ in range(n): s.edge()
    s.settle()
def recv(s, d, bits, div, gap=0):
    out = []
    for b in bits + [1] * gap:
        s.poke(d.i, b)
        for _ in range(div):
            tick(s)
            if s.peek(d.rdy): out.append(s.peek(d.data))
    return out
'''
seed("U02-a", "U02", [(U, "                m.d.sync += self.err.overflow.eq(~self.ack)\n", "                m.d.sync += self.err.overflow.eq(~self.ack & (self.err.overflow | ~self.err.frame))\n")],
 "a frame that is not taken after a frame with a framing error", "the overflow is not reported", SER + '''
d = AsyncSerialRX(divisor=8); s = Sim(d); s.poke(d.i, 1); s.poke(d.ack, 1); tick(s, 20)
recv(s, d, [0] * 9 + [0], 8); recv(s, d, [1] * 14, 8)
assert s.peek(d.err.frame) == 1
s.poke(d.ack, 0); recv(s, d, frame(0x3c, 8, "none"), 8, 3)
assert s.peek(d.err.overflow) == 1
''')
seed("U02-b", "U02", [(U, "                m.d.sync += self.err.overflow.eq(~self.ack)\n                m.next = \"IDLE\"\n", "                m.d.sync += self.err.overflow.eq(~self.ack)\n                with m.If(self.i | self.ack):\n                    m.next = \"IDLE\"\n")],
 "the line is low when an unacknowledged frame ends (break, or a bad stop bit)", "the receiver waits and misses the frame that starts there", SER + '''
d = AsyncSerialRX(divisor=8); s = Sim(d); s.poke(d.i, 1); s.poke(d.ack, 0); tick(s, 20)
s.poke(d.i, 0); tick(s, 8 * 9 + 8); s.poke(d.ack, 1)
n = 0
for i in range(8 * 10):
    tick(s); n += s.peek(d.rdy)
assert s.peek(d.err.frame) == 1 and n == 1, (n, s.peek(d.err.frame))
''')
seed("U01-a", "U01", [(U, "                        shreg.parity.eq(_compute_parity_bit(self.data, self._parity)),", "                        shreg.parity.eq(_compute_parity_bit(self.data[:8], self._parity)),")],
 "data words of more than eight bits with even or odd parity", "the parity bit does not cover the ninth bit", SER + '''
for n in (8, 9):
  for par in ("even", "odd", "mark", "space"):
    for v in (0x155, 0x0ff, 0x100, 0x1fe):
        v &= (1 << n) - 1
        d = AsyncSerialTX(divisor=6, data_bits=n, parity=par); s = Sim(d); s.settle(); tick(s, 3)
        s.poke(d.data, v); s.poke(d.ack, 1); tick(s); s.poke(d.ack, 0)
        while s.peek(d.o): tick(s)
        got = []
        for _ in range(n + 3): tick(s, 3); got.append(s.peek(d.o)); tick(s, 3)
        assert got == frame(v, n, par), (n, par, hex(v), got)
''')
seed("U01-b", "U01", [(U, "                    m.d.sync += [\n                        Cat(self.o, shreg).eq(shreg),\n                        bitno.eq(bitno - 1),\n                        timer.eq(self.divisor - 1),\n                    ]", "                    m.d.sync += [\n                        Cat(self.o, shreg).eq(shreg),\n                        bitno.eq(bitno - 1),\n                        timer.eq(self.divisor - 1),\n                    ]\n                    with m.If(self.ack & (bitno == 1)):\n                        m.d.sync += timer.eq(self.divisor - 2)")],
 "ack asserted (the next word is waiting) at the time the last data bit is put on the line, and only then matters", "the last data bit is one cycle short when another word is waiting", SER + '''
for hold in (0, 1):
    d = AsyncSerialTX(divisor=6); s = Sim(d); s.settle(); tick(s, 3); wave = []
    s.poke(d.data, 0x55); s.poke(d.ack, 1); tick(s); s.poke(d.ack, hold)
    for _ in range(110): wave.append(s.peek(d.o)); tick(s)
    i = wave.index(0)
    want = [b for b in frame(0x55, 8, "none") for _ in range(6)][:-5]
    assert wave[i:i + len(want)] == want, (hold, wave[i:i + 60])
''')

UT = '''
from rtlsim import Sim
from amlib.stream.uart import UARTTransmitter, UARTMultibyteTransmitter
def run(d, words, n, gaps=None):
    s = Sim(d); s.settle(); wave = []; words = list(words); i = 0; wait = 0
    for _ in range(n):
        v = int(i < len(words) and not wait)
        s.poke(d.stream.valid, v); s.poke(d.stream.payload, words[i] if v else 0); s.settle()
        if v and s.peek(d.stream.ready): i += 1; wait = (gaps or {}).get(i, 0)
        elif wait: wait -= 1
        wave.append(s.peek(d.tx)); s.edge(); s.settle()
    return wave, i
def decode(wave, div):
    out = []; k = 0; ok = True
    while 0 in wave[k:]:
        k = wave.index(0, k); b = [wave[k + div * j + div // 2] for j in range(10)]
        ok = ok and b[9] == 1; out.append(sum(x << j for j, x in enumerate(b[1:9]))); k += div * 9 + div // 2
    return out, ok
'''
seed("U03-a", "U03", [(SU, "                        # If we still have data to send, move to the next byte...\n                        with m.If(self.stream.valid):\n                            m.d.sync += [\n                                bits_to_send  .eq(bits_per_frame - 1),\n                                data_shift    .eq(framed_data_in),\n                            ]\n", "                        # If we still have data to send, move to the next byte...\n                        with m.If(self.stream.valid):\n                            m.d.sync += [\n                                bits_to_send  .eq(bits_per_frame - 1 - (self.stream.last & data_shift[0] & ~self.stream.payload[0] & self.stream.payload[7])),\n                                data_shift    .eq(framed_data_in),\n                            ]\n")],
 "a back-to-back byte marked as the last of its packet whose low bit is 0 and high bit is 1", "the stop bit of that byte is missing", UT + '''
d = UARTTransmitter(divisor=6); s = Sim(d); s.settle(); wave = []; q = [(0x11, 0), (0x92, 1), (0x34, 0)]; i = 0
for _ in range(300):
    v = int(i < 3); s.poke(d.stream.valid, v)
    if v: s.poke(d.stream.payload, q[i][0]); s.poke(d.stream.last, q[i][1])
    s.settle(); t = v and s.peek(d.stream.ready); wave.append(s.peek(d.tx)); s.edge(); s.settle(); i += 1 if t else 0
r = decode(wave + [1] * 20, 6)
assert r == ([0x11, 0x92, 0x34], True), r
a = wave.index(0); assert wave[a + 60] == 0 and wave[a + 59] == 1 and wave[a + 120] == 0 and wave[a + 119] == 1
''', stubs=True)
seed("U03-b", "U03", [(SU, "                            m.d.sync += [\n                                bytes_to_send      .eq(self.byte_width - 1),\n                                data_shift         .eq(self.stream.payload),\n                            ]", "                            m.d.sync += [\n                                bytes_to_send      .eq(self.byte_width - 1),\n                                data_shift         .eq(Cat(self.stream.payload[:-1], self.stream.payload[-1] ^ (data_shift[0] & self.idle))),\n                            ]") if False else
 (SU, "                    # Otherwise, complete the frame.\n                    with m.Else():\n                        m.d.comb += self.stream.ready.eq(1)\n\n                        # If we still have data to send, move to the next byte...\n                        with m.If(self.stream.valid):\n                            m.d.sync += [\n                                bytes_to_send ", "                    # Otherwise, complete the frame.\n                    with m.Else():\n                        m.d.comb += self.stream.ready.eq(uart.idle | ~uart.idle & ~self.stream.last | (data_shift[0:8] != 0))\n\n                        # If we still have data to send, move to the next byte...\n                        with m.If(self.stream.valid):\n                            m.d.sync += [\n                                bytes_to_send ")],
 "the last byte of a word is 0 and the following word, waiting already, is marked last", "the word is latched without having been accepted: it is sent twice", UT + '''
d = UARTMultibyteTransmitter(byte_width=2, divisor=5); s = Sim(d); s.settle(); wave = []; q = [(0x0042, 0), (0x1234, 1)]; i = 0
for _ in range(500):
    v = int(i < 2); s.poke(d.stream.valid, v)
    if v: s.poke(d.stream.payload, q[i][0]); s.poke(d.stream.last, q[i][1])
    s.settle(); t = v and s.peek(d.stream.ready); wave.append(s.peek(d.tx)); s.edge(); s.settle(); i += 1 if t else 0
r = decode(wave + [1] * 20, 5)
assert r == ([0x42, 0, 0x34, 0x12], True), r
''', stubs=True)
