import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from seed import seed
SIM = "from rtlsim import Sim\nfrom amaranth import *\n"
F, I, H, C, B, R, T, V = ("amlib/dsp/" + x for x in ("fixedpointfirfilter.py", "fixedpointiirfilter.py", "fixedpointhbfilter.py", "fixedpointcicfilter.py", "filterbank.py", "resampler.py", "fixedpointfft.py", "convolution/mac.py"))

seed("D01-a", "D01", [(F, "                sum([((x[i] * taps[i]) >> self.fraction_width) for i in range(n)]))", "                sum([(((x[i] + x[n - 1 - i]) * taps[i]) >> self.fraction_width) for i in range(n // 2)],\n                    ((x[n // 2] * taps[n // 2]) >> self.fraction_width) if n & 1 else 0))")],
 "samples whose symmetric pair rounds down differently from the two products", "the folded form rounds once per pair of taps", SIM + '''
from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
import random
random.seed(3)
d = FixedPointFIRFilter(samplerate=48000, bitwidth=16, fraction_width=16, cutoff_freq=6000, filter_order=9, verbose=False); s = Sim(d)
h = [0] * 9; s.poke(d.enable_in, 1)
for _ in range(60):
    v = random.randrange(-3000, 3000); h = [v] + h[:-1]
    s.poke(d.signal_in, v); s.settle(); s.edge(); s.settle()
    assert s.peek(d.signal_out) == sum((a * b) >> 16 for a, b in zip(h, d.taps)), h
''')
seed("D01-b", "D01", [(F, "            a = Signal(signed(self.bitwidth))\n", "            a = Signal(signed(max(self.bitwidth - 1, 16)))\n")],
 "mac_loop with more than 17 bits, samples in the upper half of the range", "samples beyond half of the range wrap", SIM + '''
from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
for big in (1000, 100000, -131072, 131071):
    d = FixedPointFIRFilter(samplerate=48000, bitwidth=18, fraction_width=18, cutoff_freq=5000, filter_order=9, mac_loop=True, verbose=False); s = Sim(d)
    s.poke(d.signal_in, big); s.poke(d.enable_in, 1); s.settle(); s.edge(); s.poke(d.enable_in, 0)
    for _ in range(20): s.edge()
    s.settle(); assert s.peek(d.signal_out) == (big * d.taps[0]) >> 18, big
''')
seed("D02-a", "D02", [(I, "        a = [Const(n, signed(width)) for n in self.a[1:]]", "        a = [Const(n, signed(self.fraction_width + 3)) for n in self.a[1:]]")],
 "a filter of high order, whose recursive coefficients reach 4", "the coefficient wraps", SIM + '''
from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
for order in (1, 2, 4, 5):
    d = FixedPointIIRFilter(samplerate=48000, bitwidth=16, fraction_width=22, cutoff_freq=5000, filter_order=order); s = Sim(d)
    x = [0] * (order + 1); y = [0] * order; s.poke(d.enable_in, 1); out = 0
    for k in range(40):
        v = 30000 if k < 5 else 0
        s.poke(d.signal_in, v); s.settle(); s.edge(); s.settle()
        x = [v] + x[:-1]; y = [out] + y[:-1]
        out = sum((p * q) >> 22 for p, q in zip(x, d.b)) - sum((p * q) >> 22 for p, q in zip(y, d.a[1:]))
        out = (out + 32768) % 65536 - 32768
        assert s.peek(d.signal_out) == out, (order, k)
''')
seed("D02-b", "D02", [(I, "            m.d.sync += [y[i + 1].eq(y[i]) for i in range(n - 2)]\n", "            with m.If(self.signal_out != y[0]):\n                m.d.sync += [y[i + 1].eq(y[i]) for i in range(n - 2)]\n")],
 "two consecutive equal outputs that differ from an earlier one", "the output history is not shifted", SIM + '''
from amlib.dsp.fixedpointiirfilter import FixedPointIIRFilter
d = FixedPointIIRFilter(samplerate=48000, bitwidth=16, fraction_width=16, cutoff_freq=4000, filter_order=3); s = Sim(d)
x = [0] * 4; y = [0] * 3; s.poke(d.enable_in, 1); out = 0
for k in range(300):
    v = 200 if k % 60 < 2 else 0
    s.poke(d.signal_in, v); s.settle(); s.edge(); s.settle()
    x = [v] + x[:-1]; y = [out] + y[:-1]
    out = sum((p * q) >> 16 for p, q in zip(x, d.b)) - sum((p * q) >> 16 for p, q in zip(y, d.a[1:]))
    assert s.peek(d.signal_out) == out, k
''')
seed("D03-a", "D03", [(H, "        with m.If(self.strobe_out):\n            m.d.sync += self.strobe_out.eq(0)\n", "        with m.Elif(self.strobe_out):\n            m.d.sync += self.strobe_out.eq(0)\n")],
 "input strobes in consecutive cycles", "strobe_out stays high for two cycles", SIM + '''
from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
for gap in (3, 1, 0):
    d = FixedPointHBFilter(filter_order=7, verbose=False); s = Sim(d); out = 0
    for k in range(40):
        for j in range(gap + 1):
            s.poke(d.strobe_in, j == 0); s.settle(); out += s.peek(d.strobe_out); s.edge()
    s.poke(d.strobe_in, 0)
    for k in range(4): s.settle(); out += s.peek(d.strobe_out); s.edge()
    assert out == 20, (gap, out)
''')
seed("D03-b", "D03", [(H, "            a = Signal(signed(self.bitwidth + 1))\n", "            a = Signal(signed(self.bitwidth))\n")],
 "mac_loop, two symmetric samples whose sum exceeds the sample range", "the sum of the pair wraps", SIM + '''
from amlib.dsp.fixedpointhbfilter import FixedPointHBFilter
import random
random.seed(1)
d = FixedPointHBFilter(bitwidth=16, fraction_width=16, filter_order=7, mac_loop=True, verbose=False); s = Sim(d)
e = FixedPointHBFilter(bitwidth=16, fraction_width=16, filter_order=7, verbose=False); t = Sim(e)
for k in range(60):
    v = random.choice([32767, -32768, 20000, random.randrange(-5000, 5000)])
    for f, q in ((d, s), (e, t)):
        q.poke(f.signal_in, v); q.poke(f.strobe_in, 1); q.settle(); q.edge(); q.poke(f.strobe_in, 0)
        for _ in range(20): q.edge()
        q.settle()
    assert s.peek(d.signal_out) == t.peek(e.signal_out), k
''')
seed("D04-a", "D04", [(C, "        with m.If(comb_edge):\n            m.d.sync += y[0]", "        with m.Elif(comb_edge):\n            m.d.sync += y[0]")],
 "a strobe in the cycle after the one that completes a decimation period", "the combs wait and work on the wrong integrator value", SIM + '''
from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter
def outs(gap):
    d = FixedPointCICFilter(bitwidth=12, filter_stage=2, decimation=4, verbose=False); s = Sim(d); o = []
    s.poke(d.signal_in, 1)
    for k in range(80):
        for j in range(gap + 1):
            s.poke(d.strobe_in, j == 0); s.settle()
            if s.peek(d.strobe_out): o.append(s.peek(d.signal_out))
            s.edge()
    return o
a, b = outs(3), outs(0)
assert abs(len(a) - len(b)) <= 1 and a[:15] == b[:15], (a, b)
''')
seed("D04-b", "D04", [(C, "        x = Array(Signal(signed(width), name=f\"x{i}\") for i in range(n))", "        x = Array(Signal(signed(width if i == n - 1 else max(width - 1, self.bitwidth)), name=f\"x{i}\") for i in range(n))")],
 "an internal width beyond bitwidth and input near the full scale", "the earlier integrators wrap differently from the last", SIM + '''
from amlib.dsp.fixedpointcicfilter import FixedPointCICFilter
import random
random.seed(2)
R, N, W = 8, 3, 8
d = FixedPointCICFilter(bitwidth=W, filter_stage=N, decimation=R, verbose=False); s = Sim(d); o = []
s.poke(d.signal_in, 1)
for k in range(R * 40):
    s.poke(d.strobe_in, 1); s.settle(); s.edge(); s.poke(d.strobe_in, 0); s.settle()
    for _ in range(3):
        if s.peek(d.strobe_out): o.append(s.peek(d.signal_out))
        s.edge(); s.settle()
assert len(set(o[12:])) == 1, o
''')
seed("D05-a", "D05", [(B, "                                                filter_type=filter_type, verbose=verbose)\n                            for _ in range(num_instances)]\n        elif", "                                                verbose=verbose)\n                            for _ in range(num_instances)]\n        elif")],
 "a high pass IIR filter bank", "the filters are low pass", SIM + '''
from amlib.dsp.filterbank import Filterbank
d = Filterbank(2, samplerate=48000, bitwidth=16, fraction_width=16, cutoff_freq=6000, filter_structure="iir", filter_type="highpass", verbose=False); s = Sim(d)
s.poke(d.enable_in, 1); s.poke(d.signal_in, 5000)
for _ in range(400): s.edge()
s.settle(); assert abs(s.peek(d.signal_out)) < 100, s.peek(d.signal_out)
''')
seed("D05-b", "D05", [(B, "            if last_filter is not None:\n                m.d.comb += f.signal_in.eq(last_filter.signal_out)\n\n            last_filter = f", "            if last_filter is None:\n                last_filter = f\n            elif f is not last_filter:\n                m.d.comb += f.signal_in.eq(last_filter.signal_out)")],
 "a bank of three or more filters", "all but the last filter after the first are bypassed", SIM + '''
from amlib.dsp.filterbank import Filterbank
from amlib.dsp.fixedpointfirfilter import FixedPointFIRFilter
class Chain(Elaboratable):
    def __init__(self, n):
        self.f = [FixedPointFIRFilter(samplerate=48000, bitwidth=16, fraction_width=16, cutoff_freq=6000, filter_order=5, verbose=False) for _ in range(n)]
        self.enable_in, self.signal_in = Signal(), Signal(signed(16))
        self.signal_out = self.f[-1].signal_out
    def elaborate(self, _):
        m = Module(); m.submodules += self.f; x = self.signal_in
        for f in self.f:
            m.d.comb += [f.signal_in.eq(x), f.enable_in.eq(self.enable_in)]; x = f.signal_out
        return m
for n in (1, 2, 3):
    r = []
    for d in (Filterbank(n, samplerate=48000, bitwidth=16, fraction_width=16, cutoff_freq=6000, filter_order=5, verbose=False), Chain(n)):
        s = Sim(d); s.poke(d.enable_in, 1); o = []
        for k in range(30):
            s.poke(d.signal_in, 20000 if k == 2 else 0); s.settle(); s.edge(); s.settle(); o.append(s.peek(d.signal_out))
        r.append(o)
    assert r[0] == r[1], (n, r)
''')
seed("D06-a", "D06", [(R, "        headroom_bitwidth = int(math.ceil(self.bitwidth/8) * 9)", "        headroom_bitwidth = int(math.ceil(self.bitwidth * 9 / 8))")],
 "a bit width that is not a multiple of 8", "large samples wrap when they are prescaled", SIM + '''
from amlib.dsp.resampler import FractionalResampler
def run(v):
    d = FractionalResampler(input_samplerate=48000, upsample_factor=2, downsample_factor=1, filter_order=24, filter_cutoff=2000, bitwidth=12, prescale=8, verbose=False); s = Sim(d)
    s.poke(d.signal_out.ready, 1); s.poke(d.signal_in.valid, 1); s.poke(d.signal_in.payload, v & 4095); o = []
    for n in range(80):
        s.settle()
        if s.peek(d.signal_out.valid): o.append(s.peek(d.signal_out.payload))
        a = s.peek(d.signal_in.ready); s.edge()
        if a: s.poke(d.signal_in.payload, 0)
    return [x - 4096 if x & 2048 else x for x in o]
a, b = run(500), run(2000)
assert all(abs(4 * x - y) < 40 for x, y in zip(a, b)), (a, b)
''')
seed("D06-b", "D06", [(R, "            input_ready.eq((upsample_counter == 0) & (downsamplefifo.w_rdy)),", "            input_ready.eq(upsample_counter == 0),")],
 "output backpressure that fills the FIFO just between two input samples", "the sample accepted while the FIFO is full is lost", SIM + '''
from amlib.dsp.resampler import FractionalResampler
def run(stall):
    d = FractionalResampler(input_samplerate=48000, upsample_factor=3, downsample_factor=2, filter_order=8, filter_cutoff=20000, bitwidth=16, verbose=False); s = Sim(d)
    o = []; k = 0; n = 0
    while len(o) < 30 and n < 3000:
        s.poke(d.signal_out.ready, n % (stall + 1) == 0); s.poke(d.signal_in.valid, 1); s.poke(d.signal_in.payload, 100 * k + 50); s.settle()
        if s.peek(d.signal_in.ready): k += 1
        if s.peek(d.signal_out.valid) and s.peek(d.signal_out.ready): o.append(s.peek(d.signal_out.payload))
        s.edge(); n += 1
    return o
assert run(0) == run(9)
''')
seed("D07-a", "D07", [(V, "madd_values[i + self._slices].eq(madd_values[i + self._slices] + (right_sample * main_tap)),", "madd_values[i + self._slices].eq(madd_values[i] + (right_sample * main_tap)),")],
 "mono mode and a right channel that differs from the left one", "the right sums build on the left ones", SIM + '''
from amlib.dsp.convolution.mac import StereoConvolutionMAC, ConvolutionMode
import numpy as np
t = np.array([[1000 + 37 * i * i, 0] for i in range(8)])
for slices in (1, 2):
    d = StereoConvolutionMAC(t, samplerate=1, clockfrequency=8 // slices, bitwidth=16, convolutionMode=ConvolutionMode.MONO); s = Sim(d)
    s.poke(d.signal_out.ready, 1); h = [[0] * 8, [0] * 8]
    for k in range(20):
        o = []
        for c in (0, 1):
            v = (k * 977 + c * 12345) % 30000; h[c] = [v] + h[c][:-1]
            s.poke(d.signal_in.payload, v); s.poke(d.signal_in.first, c == 0); s.poke(d.signal_in.last, c == 1); s.poke(d.signal_in.valid, 1); s.settle()
            while not s.peek(d.signal_in.ready): s.edge(); s.settle()
            s.edge(); s.poke(d.signal_in.valid, 0)
        for _ in range(40):
            s.settle()
            if s.peek(d.signal_out.valid): o.append(s.peek(d.signal_out.payload))
            s.edge()
        w = [(sum(x * int(y[0]) for x, y in zip(h[c], t)) >> 16) & 65535 for c in (0, 1)]
        assert o == w, (k, o, w)
''')
seed("D07-b", "D07", [(V, "        sumSignalL = Signal(signed(self._bitwidth * 2))\n", "        sumSignalL = Signal(signed(self._bitwidth * 2 - 1))\n")],
 "a sum in the upper half of the range of the sum", "it wraps", SIM + '''
from amlib.dsp.convolution.mac import StereoConvolutionMAC, ConvolutionMode
import numpy as np
t = np.array([[32767, 32767]] * 4)
d = StereoConvolutionMAC(t, samplerate=1, clockfrequency=100, bitwidth=16, convolutionMode=ConvolutionMode.STEREO); s = Sim(d)
s.poke(d.signal_out.ready, 1); h = [0] * 4
for k in range(12):
    v = 14000; h = [v] + h[:-1]; o = []
    for c in (0, 1):
        s.poke(d.signal_in.payload, v); s.poke(d.signal_in.first, c == 0); s.poke(d.signal_in.last, c == 1); s.poke(d.signal_in.valid, 1); s.settle()
        while not s.peek(d.signal_in.ready): s.edge(); s.settle()
        s.edge(); s.poke(d.signal_in.valid, 0)
    for _ in range(40):
        s.settle()
        if s.peek(d.signal_out.valid): o.append(s.peek(d.signal_out.payload))
        s.edge()
    w = (sum(x * 32767 for x in h) >> 16) & 65535
    assert o == [w, w], (k, o, w)
''')
seed("D08-a", "D08", [(T, "            q_cooked.eq((wfr*self.in_q + wfi*self.in_i) >> (width-1)),", "            q_cooked.eq((wfr*self.in_q - wfi*self.in_i) >> (width-1)),")],
 "a loaded window with an imaginary part", "the imaginary part of the weighted sample has a wrong sign", SIM + '''
from amlib.dsp.fixedpointfft import FixedPointFFT
def fft(win):
    d = FixedPointFFT(bitwidth=16, pts=8, verbose=False); s = Sim(d); o = []
    def cyc(n=1):
        for _ in range(n):
            s.settle()
            if s.peek(d.strobe_out): o.append((s.peek(d.out_real), s.peek(d.out_imag)))
            s.edge()
    s.poke(d.wf_start, 1); cyc(); s.poke(d.wf_start, 0); cyc(3)
    for r, i in win:
        s.poke(d.wf_real, r); s.poke(d.wf_imag, i); s.poke(d.wf_strobe, 1); cyc(); s.poke(d.wf_strobe, 0); cyc(4)
    cyc(10); s.poke(d.start, 1); cyc(); s.poke(d.start, 0); cyc(3)
    for k in range(8):
        s.poke(d.in_i, 8000); s.poke(d.in_q, 0); s.poke(d.strobe_in, 1); cyc(); s.poke(d.strobe_in, 0); cyc(5)
    cyc(1000)
    return o
for w, (re, im) in (((32767, 0), (8000, 0)), ((0, 32767), (0, 8000)), ((20000, 20000), (4883, 4883))):
    o = fft([w] * 8)
    assert abs(o[0][0] - re) < 8 and abs(o[0][1] - im) < 8, (w, o)
''')
seed("D08-b", "D08", [(T, "        bw = width + self.stages\n", "        bw = width + self.stages - 1\n")],
 "a window and a signal that nearly reach the full scale in one bin", "the bin wraps", SIM + '''
from amlib.dsp.fixedpointfft import FixedPointFFT
def fft(a):
    d = FixedPointFFT(bitwidth=16, pts=8, verbose=False); s = Sim(d); o = []
    def cyc(n=1):
        for _ in range(n):
            s.settle()
            if s.peek(d.strobe_out): o.append((s.peek(d.out_real), s.peek(d.out_imag)))
            s.edge()
    s.poke(d.wf_start, 1); cyc(); s.poke(d.wf_start, 0); cyc(3)
    for _ in range(8):
        s.poke(d.wf_real, 32767); s.poke(d.wf_imag, 0); s.poke(d.wf_strobe, 1); cyc(); s.poke(d.wf_strobe, 0); cyc(4)
    cyc(10); s.poke(d.start, 1); cyc(); s.poke(d.start, 0); cyc(3)
    for k in range(8):
        s.poke(d.in_i, a); s.poke(d.in_q, 0); s.poke(d.strobe_in, 1); cyc(); s.poke(d.strobe_in, 0); cyc(5)
    cyc(1000)
    return o
for a in (1000, 12000, 30000, -30000):
    o = fft(a); assert abs(o[0][0] - a) < 8, (a, o)
''')
