import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from seed import seed
SIM = "from rtlsim import Sim\nfrom amaranth import *\n"
T = "amlib/utils/timer.py"
seed("T01-a", "T01", [(T, "                with m.If(self.load_in > 0):\n                    m.d.sync += counter.eq(self.load_in)", "                with m.If((self.load_in > 0) & ~((counter == self.load_in) & (self.reload_in > self.load_in))):\n                    m.d.sync += counter.eq(self.load_in)")],
 "a run-time load value smaller than the reload value, timer left idle for an even number of cycles", "in idle the counter alternates between load and reload value, so a start may count the wrong one", SIM + '''
from amlib.utils.timer import Timer
for wait in (3, 4, 5):
    d = Timer(width=8); s = Sim(d); s.poke(d.load_in, 5); s.poke(d.reload_in, 9)
    for _ in range(wait): s.edge()
    s.poke(d.start, 1); s.settle(); s.edge(); s.poke(d.start, 0); n = 0
    s.settle()
    while not s.peek(d.done): s.edge(); s.settle(); n += 1
    assert n == 4, (wait, n)
''')
seed("T01-b", "T01", [(T, "            with m.State(\"RUNNING\"):\n                m.d.sync += counter.eq(counter - 1)\n                with m.If(counter == 1):", "            with m.State(\"RUNNING\"):\n                m.d.sync += counter.eq(counter - 1)\n                with m.If(counter[:16] == 1):")],
 "a load value above 65536", "the timer is done far too early (after the low 16 bits have counted down)", SIM + '''
from amlib.utils.timer import Timer
d = Timer(width=20); s = Sim(d, init=[(d.load_in, 0x10064)])
s.edge(); s.poke(d.start, 1); s.settle(); s.edge(); s.poke(d.start, 0); s.settle(); n = 1
while not s.peek(d.done): s.edge(); s.settle(); n += 1
assert n == 0x10064, n
''')
D = "amlib/io/debouncer.py"
seed("T02-a", "T02", [(D, "\t\twith m.If(idle):\n\t\t\tm.d.sync += cnt.eq(0)\n", "\t\twith m.If(idle & ~(cnt[14] & (btn_sync[0] != btn_sync[1]))):\n\t\t\tm.d.sync += cnt.eq(0)\n\t\twith m.Elif(idle):\n\t\t\tm.d.sync += cnt.eq(cnt)\n")],
 "a glitch of one cycle in the second half of the debounce time", "the wait is not restarted by the glitch", SIM + '''
from amlib.io.debouncer import Debouncer
d = Debouncer(); s = Sim(d, init=[(d.btn_in, 1)])
for _ in range(10): s.edge()
s.poke(d.btn_in, 0)
for _ in range(20000): s.edge()
s.poke(d.btn_in, 1); s.settle(); s.edge(); s.poke(d.btn_in, 0)
for _ in range(32000): s.edge()
s.settle(); assert s.peek(d.btn_state_out) == 0, "changed in spite of a glitch"
for _ in range(1500): s.edge()
s.settle(); assert s.peek(d.btn_state_out) == 1
''')
U, C = "amlib/utils/__init__.py", "amlib/utils/cdc.py"
seed("T03-a", "T03", [(C, "        delayed_strobe = Signal(to_cycles)\n", "        delayed_strobe = Signal(min(to_cycles, 16))\n")],
 "a delayed stretch to more than 16 cycles", "the strobe is stretched to 16 cycles only", SIM + """
from amlib.utils import stretch_strobe_signal
for delay in (False, True):
  for n in (1, 2, 15, 16, 17, 40):
    m = Module(); st = Signal(); o = stretch_strobe_signal(m, st, to_cycles=n, allow_delay=delay); s = Sim(m, init=[(st, 0)])
    t = 0
    for c in range(80):
        s.poke(st, c == 5); s.settle(); t += s.peek(o); s.edge()
    assert t == n, (delay, n, t)
""")
seed("T03-b", "T03", [(C, "        m.d.comb += output.eq(strobe | (delayed_strobe != 0))", "        m.d.comb += output.eq(strobe ^ (delayed_strobe != 0) | (delayed_strobe[:-1] != 0))")],
 "a second strobe in the very last cycle of the first one's stretch", "the output drops for that cycle", SIM + """
from amlib.utils import stretch_strobe_signal
for n in (2, 3, 5):
  for gap in range(1, 8):
    m = Module(); st = Signal(); o = stretch_strobe_signal(m, st, to_cycles=n); s = Sim(m, init=[(st, 0)]); w = []
    for c in range(30):
        s.poke(st, c in (5, 5 + gap)); s.settle(); w.append(s.peek(o)); s.edge()
    assert w == [int(5 <= c < 5 + n or 5 + gap <= c < 5 + gap + n) for c in range(30)], (n, gap, w)
""")
K = "amlib/utils/clockdivider.py"
seed("T04-a", "T04", [(K, "                m.d.sync += self.clock_out.eq(self.clock_polarity)", "                m.d.sync += self.clock_out.eq(self.clock_polarity & ~self.clock_out | (self.clock_out & (self._divisor % 2) & self.clock_polarity))")],
 "idle polarity 1, disabled while the output is high, for two or more half periods", "the clock keeps toggling or rests low after it is disabled", SIM + """
from amlib.utils.clockdivider import SimpleClockDivider
for div in (4, 6):
  for pol in (0, 1):
    d = SimpleClockDivider(div, pol); s = Sim(d); s.poke(d.clock_enable_in, 1)
    for on in range(1, 20):
        s.poke(d.clock_enable_in, 1)
        for _ in range(on): s.edge()
        s.poke(d.clock_enable_in, 0)
        for _ in range(div): s.edge()
        for _ in range(3 * div):
            s.edge(); s.settle(); assert s.peek(d.clock_out) == pol, (div, pol, on)
""")
V = "amlib/utils/dividingcounter.py"
seed("T04-b", "T04", [(V, "                with m.If(self.counter_out == (2 ** self.counter_out.width) - 1):\n                    m.d.sync += dividing_cycle_counter.eq(0)", "                with m.If((self.counter_out == (2 ** self.counter_out.width) - 1) & (dividing_cycle_counter != 0)):\n                    m.d.sync += dividing_cycle_counter.eq(0)")],
 "a divisor that divides 2**width - 1, main counter wrapping", "the phase of the divided count is not restarted at the wrap", SIM + """
from amlib.utils.dividingcounter import DividingCounter
for div, w in ((3, 4), (5, 4), (7, 3), (3, 3)):
    d = DividingCounter(div, w); s = Sim(d); s.poke(d.active_in, 1); n = 0; q = 0
    for c in range(200):
        s.edge(); s.settle(); n += 1
        if n % (1 << w) and n % (1 << w) % div == 0 or n % (1 << w) == 0 and 0: q += 1
        if n % (1 << w) == 0 and (1 << w) % div == 0: q += 1
        assert s.peek(d.divided_counter_out) == q % (1 << w), (div, w, c)
""")
R, F = "amlib/utils/shiftregister.py", "amlib/utils/lfsr.py"
seed("T05-a", "T05", [(R, "            m.d.sync += value.eq(Cat(value[1:], value[0])) if self.rotate else value.eq((value >> 1))", "            m.d.sync += value.eq(Cat(value[1:], value[0])) if self.rotate else value.eq((value.as_signed() >> 1))")],
 "a non-rotating output register shifting more often than it has bits, word with the top bit set", "ones instead of zeros follow the word", SIM + """
from amlib.utils.shiftregister import OutputShiftRegister
for v in (0x53, 0xd3):
    d = OutputShiftRegister(8); s = Sim(d); s.poke(d.value_in, v); s.poke(d.we_in, 1); s.settle(); s.edge(); s.poke(d.we_in, 0); s.poke(d.enable_in, 1); o = []
    for _ in range(12): s.settle(); o.append(s.peek(d.bit_out)); s.edge()
    assert o == [v >> i & 1 for i in range(12)], o
""")
seed("T05-b", "T05", [(F, "            value = ((value << 1) & mask) | feedback\n            if value == self.reset:", "            value = ((value << 1) & mask) | feedback\n            if value == min(self.reset, mask >> 1):")],
 "a reset value with the top bit set", "generate() does not end after one period (or ends early)", SIM + """
from itertools import islice
from amlib.utils.lfsr import LinearFeedbackShiftRegister as L
for r in (1, 5, 9, 15):
    assert len(list(islice(L(4, [4, 3], reset=r).generate(), 100))) == 15, r
    d = L(4, [4, 3], reset=r); s = Sim(d); hw = []
    for _ in range(15): s.settle(); hw.append(s.peek(d.value)); s.edge()
    assert hw == list(islice(d.generate(), 15)), r
""")
B = "amlib/utils/bus.py"
seed("T06-a", "T06", [(B, "operator.__or__, input_signals, 0)", "operator.__xor__, input_signals, 0)")],
 "the same or-ed bit high on two interfaces at the same time", "it cancels out", SIM + """
from amlib.utils.bus import OneHotMultiplexer
class I(Record):
    def __init__(self): super().__init__([("valid", 1), ("x", 3), ("r", 1)])
d = OneHotMultiplexer(interface_type=I, mux_signals=("valid",), or_signals=("x",), pass_signals=("r",)); i = [I() for _ in range(3)]; d.add_interfaces(i); s = Sim(d)
for a in range(8):
    for b in range(8):
        s.poke(i[0].x, a); s.poke(i[2].x, b); s.settle(); assert s.peek(d.output.x) == a | b, (a, b)
""")
seed("T06-b", "T06", [(B, "            for interface in self._inputs:\n                input_signal = self._get_signal(interface, identifier)\n                m.d.comb += input_signal.eq(output_signal)", "            for interface in self._inputs:\n                input_signal = self._get_signal(interface, identifier)\n                with m.If((encoder.o == self._inputs.index(interface)) | (len(self._inputs) < 4)):\n                    m.d.comb += input_signal.eq(output_signal)")],
 "four or more interfaces, a pass-back signal seen by an interface that is not the valid one", "only the valid interface sees the pass-back signal", SIM + """
from amlib.utils.bus import OneHotMultiplexer
class I:
    def __init__(self): self.valid = Signal(); self.r = Signal()
for n in (2, 3, 4, 5):
    d = OneHotMultiplexer(interface_type=I, mux_signals=("valid",), pass_signals=("r",)); i = [I() for _ in range(n)]; d.add_interfaces(i); s = Sim(d)
    s.poke(d.output.r, 1); s.settle(); assert [s.peek(x.r) for x in i] == [1] * n, n
""")
seed("T07-a", "T07", [(C, "            synchronize(m, signal[name], output=output[name],\n                    o_domain=o_domain, stages=stages)", "            synchronize(m, signal[name], output=output[name],\n                    o_domain=o_domain)")],
 "a nested record synchronized through more than two stages", "the leaves of the nested record only get the default two stages", SIM + """
from amlib.utils import synchronize
for st in (2, 3, 4):
    m = Module(); r = Record([("a", 2), ("n", [("b", 3)])]); o = synchronize(m, r, stages=st); s = Sim(m, init=[(r.a, 0)])
    s.poke(r.a, 3); s.poke(r.n.b, 5)
    for k in range(1, 7):
        s.settle(); s.edge(); s.settle(); assert s.peek(o.a) == (3 if k >= st else 0); assert s.peek(o.n.b) == (5 if k >= st else 0), (st, k)
""")
N = "amlib/io/led.py"
seed("L03-a", "L03", [(N, "        bar_value = Signal(range(self.maxvalue - self.minvalue))", "        bar_value = Signal(min(16, len(range(self.maxvalue - self.minvalue).__str__()) and (self.maxvalue - self.minvalue).bit_length()))")],
 "a bar range of more than 65536 values", "values in the upper part of the range show a short bar", SIM + """
from amlib.io.led import NumberToBitBar
for hi in (1000, 200000):
    d = NumberToBitBar(0, hi, 10); s = Sim(d); last = 0
    for v in range(0, hi + 1, hi // 50):
        s.poke(d.value_in, v); s.settle(); s.edge(); s.settle(); n = bin(s.peek(d.bitbar_out)).count("1")
        assert n >= last, (hi, v, n); last = n
""")
M7 = "amlib/io/max7219.py"
seed("L02-a", "L02", [(M7, "current_digits[Const(module * 8, 8) + digit_counter]", "current_digits[Const(module * 8 % 32, 8) + digit_counter]")],
 "a chain of five or more modules", "the fifth module shows the digits of the first", """
from rtlsim import Sim
from amlib.io.max7219 import SerialLEDArray
for n in (1, 5):
    d = SerialLEDArray(divisor=12, init_delay=5, no_modules=n, init_sequence=[[0xc, 1]]); s = Sim(d)
    for i in range(8 * n): s.poke(d.digits_in[i], 16 * (i // 8) + i % 8 + 1)
    s.poke(d.valid_in, 1); s.settle(); s.edge(); s.poke(d.valid_in, 0); frames = []; cur = None; pck = 0
    for _ in range(16 * n * 12 * 12 + 800):
        s.settle(); cs, ck, b = s.peek(d.spi_bus_out.cs), s.peek(d.spi_bus_out.sck), s.peek(d.spi_bus_out.sdo)
        if not cs and cur is None: cur = []
        if not cs and ck and not pck: cur.append(b)
        if cs and cur: frames.append(cur); cur = None
        pck = ck; s.edge()
    got = set()
    for f in frames[1:]:
        w = [int("".join(map(str, f[i:i + 16])), 2) for i in range(0, len(f), 16)]
        for k, x in enumerate(w): got.add((n - 1 - k, (x >> 8) - 1, x & 255))
    assert got == {(m, k, 16 * m + k + 1) for m in range(n) for k in range(8)}, (n, sorted(got))
""")
seed("L02-b", "L02", [(M7, "        with m.If(self.valid_in):\n            m.d.sync += Cat(current_digits).eq(Cat(self.digits_in))", "        with m.If(self.valid_in & ~spi_controller.word_complete):\n            m.d.sync += Cat(current_digits).eq(Cat(self.digits_in))")],
 "valid_in strobed exactly in the cycle in which a frame ends", "the update is lost", """
from rtlsim import Sim
from amlib.io.max7219 import SerialLEDArray
d = SerialLEDArray(divisor=12, init_delay=5, init_sequence=[[0xc, 1]]); s = Sim(d)
def frame(at=None, strobe=None):
    cur = []; pck = 0; idle = 0
    for t in range(3000):
        s.poke(d.valid_in, int(t == strobe)); s.settle()
        cs, ck, b = s.peek(d.spi_bus_out.cs), s.peek(d.spi_bus_out.sck), s.peek(d.spi_bus_out.sdo)
        if not cs and ck and not pck: cur.append(b)
        pck = ck; s.edge()
        if cs and cur: return int("".join(map(str, cur)), 2)
for t in list(range(0, 60)) + list(range(180, 290)):
    for i in range(8): s.poke(d.digits_in[i], (t * 3 + i * 17 + 1) % 256)
    for k in range(300):
        s.poke(d.valid_in, int(k == t)); s.settle(); s.edge()
    frame(); frame(); got = {}
    for _ in range(8): f = frame(); got[(f >> 8) - 1] = f & 255
    assert got == {i: (t * 3 + i * 17 + 1) % 256 for i in range(8)}, (t, got)
""")
W = "amlib/io/ws2812.py"
seed("L01-a", "L01", [(W, "            mem_write_port.en.eq(self.write_enable_in),", "            mem_write_port.en.eq(self.write_enable_in & ~((led_counter == self.led_address_in) & (bit_counter == 23))),")],
 "a colour written for the LED that is next in the transmission while the last bit of its predecessor is sent", "the colour is not stored", """
from rtlsim import Sim
from amlib.io.ws2812 import WS2812
d = WS2812(sys_clock_freq=8e6, no_leds=3); s = Sim(d)
def tick(): s.settle(); v = (s.peek(d.data_out), s.peek(d.done_out)); s.edge(); return v
def send(hook=None):
    out = []; hi = 0; done = 0; t = 0; s.poke(d.start_in, 1); tick(); s.poke(d.start_in, 0)
    while not done and t < 9000:
        if hook == t: s.poke(d.write_enable_in, 1)
        o, done = tick(); s.poke(d.write_enable_in, 0); t += 1
        if o: hi += 1
        elif hi: out.append(int(hi > 4)); hi = 0
    return [int("".join(map(str, out[i:i + 24])), 2) for i in range(0, 72, 24)]
s.poke(d.led_address_in, 1); c = 0
for t in range(400, 1200, 3):
    c = (c + 29) % 256; s.poke(d.red_in, c); send(t); g = send()
    assert g[1] == c << 8, (t, g)
""")
L = "amlib/stream/i2c.py"
open("/tmp/w/ok", "w").close()
