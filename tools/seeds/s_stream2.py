import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from seed import seed
G, I, A = "amlib/stream/generator.py", "amlib/stream/__init__.py", "amlib/stream/arbiter.py"

seed("S04-b", "S04", [(G, "                            with m.If(ending_due_to_data_length & ending_due_to_max_length):\n                                m.d.comb += self.stream.valid.eq(valid_due_to_data_length & valid_due_to_max_length)",
 "                            with m.If(ending_due_to_data_length & ending_due_to_max_length):\n                                m.d.comb += self.stream.valid.eq(valid_due_to_max_length)")],
 "wide words: data whose length is no multiple of the word, and a length limit that ends in the last word beyond the data",
 "bytes beyond the data are marked valid when the limit exceeds the data within the last word", '''
from rtlsim import Sim
from amlib.stream import StreamInterface
from amlib.stream.generator import ConstantStreamGenerator
class Wide(StreamInterface):
    def __init__(self, payload_width=32): super().__init__(payload_width=32, valid_width=4)
d = ConstantStreamGenerator(bytes(range(1, 11)), data_width=32, stream_type=Wide, max_length_width=8); s = Sim(d); got = []
for i in range(20):
    o = s.cycle([(d.start, int(i == 2)), (d.max_length, 12), (d.stream.ready, 1)], dict(v=d.stream.valid))
    if o["v"]: got.append(o["v"])
assert got == [15, 15, 3], got
''')

seed("S05-b", "S05", [(G, "                            current_packet.eq(0),\n                        ]\n                        m.next = \"INIT\"",
 "                            current_packet.eq(self.start),\n                        ]\n                        m.next = \"INIT\"")],
 "start asserted in exactly the cycle of done", "a start request in the done cycle makes the next run use the second packet's length for the first packet", '''
from rtlsim import Sim
from amlib.stream.generator import PacketListStreamer
d = PacketListStreamer([b"abc", b"d"]); s = Sim(d); got = []
for i in range(80):
    o = s.cycle([(d.start, 1), (d.stream.ready, 1)], dict(v=d.stream.valid, p=d.stream.payload, l=d.stream.last))
    if o["v"]: got.append((chr(o["p"]), o["l"]))
one = [("a", 0), ("b", 0), ("c", 1), ("d", 1)]
assert len(got) > 12 and all(x == one[i % 4] for i, x in enumerate(got)), got
''')

seed("S03-a", "S03", [(I, "        if tap_ready:\n            core.append(self.ready.eq(interface.ready))", "        if tap_ready:\n            core.append(self.ready.eq(interface.ready & interface.valid[0]))")],
 "tap with tap_ready of a stream whose sink is ready while nothing (or no lowest lane) is valid", "the tapped ready only shows while the lowest valid bit is set", '''
from amaranth import *
from rtlsim import Sim
from amlib.stream import StreamInterface
class D(Elaboratable):
    def __init__(self): self.a, self.b = StreamInterface(valid_width=2), StreamInterface(valid_width=2)
    def elaborate(self, p):
        m = Module(); m.d.comb += self.b.tap(self.a, tap_ready=True); return m
d = D(); s = Sim(d)
for v in range(4):
    for r in range(2):
        s.poke(d.a.valid, v); s.poke(d.a.ready, r); s.settle()
        assert s.peek(d.b.ready) == r and s.peek(d.b.valid) == v, (v, r)
''')

seed("S03-b", "S03", [(I, "    if lastBit:\n        result.append(fifo.w_data[lastBit].eq(stream.last))", "    if lastBit:\n        result.append(fifo.w_data[lastBit].eq(stream.last & ~stream.first if firstBit and firstBit > lastBit else stream.last))")],
 "a one-word packet (first and last together) through a FIFO whose first bit lies above its last bit", "the last mark of one-word packets is lost in the FIFO word", '''
from amaranth import *
from rtlsim import Sim
from amaranth.lib.fifo import SyncFIFO
from amlib.stream import StreamInterface, connect_stream_to_fifo
class D(Elaboratable):
    def __init__(self): self.s, self.f = StreamInterface(), SyncFIFO(width=10, depth=4)
    def elaborate(self, p):
        m = Module(); m.submodules.f = self.f; m.d.comb += connect_stream_to_fifo(self.s, self.f, firstBit=9, lastBit=8); return m
d = D(); s = Sim(d)
for f in range(2):
    for l in range(2):
        s.poke(d.s.first, f); s.poke(d.s.last, l); s.poke(d.s.payload, 0x5a); s.settle()
        assert s.peek(d.f.w_data) == 0x5a | f << 9 | l << 8, (f, l)
''')

seed("S01-b", "S01", [(A, "            for stream_index in reversed(range(stream_count)):", "            for stream_index in [*range(min(2, stream_count), stream_count), *reversed(range(min(2, stream_count)))]:")],
 "four or more producers, the third and a later one becoming valid while the arbiter is free and the first two are silent", "among the third and later producers, the one added last is selected", '''
from rtlsim import Sim
from amlib.stream import StreamInterface
from amlib.stream.arbiter import StreamArbiter
d = StreamArbiter(); ins = [StreamInterface() for _ in range(4)]
for i in ins: d.add_stream(i)
s = Sim(d)
for k in range(3):
    o = s.cycle([(i.payload, 10 * (n + 1)) for n, i in enumerate(ins)] + [(ins[2].valid, 1), (ins[3].valid, 1), (d.source.ready, 1)], dict(v=d.source.valid, p=d.source.payload))
assert o == dict(v=1, p=30), o
''')
