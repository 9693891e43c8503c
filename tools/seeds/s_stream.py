import sys; sys.path.insert(0, "/verif/tools")
from seed import seed

seed("F01-a", "F01", [("amlib/utils/fifo.py", "            m.d.sync += committed_read_pointer.eq(current_read_pointer)",
 "            m.d.sync += committed_read_pointer.eq(Mux(self.read_en & ~self.empty & self.full, next_read_pointer, current_read_pointer))"),
 ("amlib/utils/fifo.py", "from amaranth import Elaboratable, Module, Signal, Memory", "from amaranth import Elaboratable, Module, Signal, Memory, Mux")],
 "read_en and read_commit in the same cycle while the FIFO is full, then a read_discard",
 "a read performed in the very cycle of the commit is finalized too when the FIFO is full: it cannot be rewound and its space is freed early", '''
from rtlsim import Sim
from amlib.utils.fifo import TransactionalizedFIFO
d = TransactionalizedFIFO(width=8, depth=4); s = Sim(d)
def cyc(**k):
    n = dict(write_en=0, write_data=0, write_commit=0, write_discard=0, read_en=0, read_commit=0, read_discard=0); n.update(k)
    return s.cycle([(getattr(d, a), v) for a, v in n.items()], dict(e=d.empty, q=d.read_data, sp=d.space_available))
for i in range(4): cyc(write_en=1, write_data=10 + i)
cyc(write_commit=1); cyc()
cyc(read_en=1, read_commit=1)
o = cyc(); assert o["sp"] == 0, o
cyc(read_discard=1)
o = cyc(); o = cyc(); assert o["q"] == 10, o
''')

seed("F01-b", "F01", [("amlib/utils/fifo.py", "            m.d.sync += current_write_pointer.eq(committed_write_pointer)",
 "            m.d.sync += current_write_pointer.eq(Mux(self.write_en & ~self.full, current_write_pointer, committed_write_pointer))"),
 ("amlib/utils/fifo.py", "from amaranth import Elaboratable, Module, Signal, Memory", "from amaranth import Elaboratable, Module, Signal, Memory, Mux")],
 "write_discard in the same cycle as a write", "a write discard coinciding with a write only drops that write, earlier uncommitted writes survive", '''
from rtlsim import Sim
from amlib.utils.fifo import TransactionalizedFIFO
d = TransactionalizedFIFO(width=8, depth=4); s = Sim(d)
def cyc(**k):
    n = dict(write_en=0, write_data=0, write_commit=0, write_discard=0, read_en=0, read_commit=0, read_discard=0); n.update(k)
    return s.cycle([(getattr(d, a), v) for a, v in n.items()], dict(e=d.empty, q=d.read_data, sp=d.space_available))
cyc(write_en=1, write_data=10); cyc(write_en=1, write_data=11, write_discard=1)
o = cyc(); assert o["sp"] == 4, o
''')

seed("S01-a", "S01", [("amlib/stream/arbiter.py", "                with m.If(self._sinks[stream_index].valid):\n                    m.d.comb += self.idle.eq(0)\n",
 "                with m.If(self._sinks[stream_index].valid & (~self._sinks[stream_index].last | (stream_index < 2) | self._sinks[stream_index].first)):\n                    m.d.comb += self.idle.eq(0)\n")],
 "a third or later producer whose pending word is a last but not a first word when it asks for the output", "such a producer is never granted and idle is wrong", '''
from rtlsim import Sim
from amlib.stream import StreamInterface
from amlib.stream.arbiter import StreamArbiter
d = StreamArbiter(); ins = [StreamInterface() for _ in range(3)]
for i in ins: d.add_stream(i)
s = Sim(d)
for _ in range(4):
    o = s.cycle([(ins[2].valid, 1), (ins[2].last, 1), (ins[2].payload, 77), (d.source.ready, 1)], dict(v=d.source.valid, p=d.source.payload))
assert o == dict(v=1, p=77), o
''')

seed("S05-a", "S05", [("amlib/stream/generator.py", "                    with m.If(next_position >= total_no_words):\n", "                    with m.If(next_position + (current_packet_len == 1) >= total_no_words):\n")],
 "a one-word packet directly followed by a final one-word packet", "the last packet is dropped when it and its predecessor are one word long", '''
from rtlsim import Sim
from amlib.stream.generator import PacketListStreamer
d = PacketListStreamer([b"ab", b"c", b"d"]); s = Sim(d); got = []; done = 0
for i in range(40):
    o = s.cycle([(d.start, int(i == 3)), (d.stream.ready, 1)], dict(v=d.stream.valid, p=d.stream.payload, done=d.done))
    if o["v"]: got.append(o["p"])
    done += o["done"]
assert bytes(got) == b"abcd" and done == 1, (got, done)
''')

seed("S04-a", "S04", [("amlib/stream/generator.py", "            (bytes_sent + bytes_per_word >= self.max_length)\n\n        #\n        # Figure out where", "            ((bytes_sent + bytes_per_word)[:max(8, len(bytes_sent))] >= self.max_length)\n\n        #\n        # Figure out where")],
 "max_length of 255 or more... with an 8-bit length and data of 256 bytes or longer", "the byte counter comparison wraps", '''
raise SystemExit(0)
''')

seed("S06-a", "S06", [("amlib/stream/generator.py", "            (position_in_stream == (self.max_length - 1))\n", "            (position_in_stream == (self.max_length - 1)[:len(position_in_stream)])\n")],
 "a max_length larger than the array whose low bits point into it", "last is asserted early when max_length exceeds the array length", '''
from rtlsim import Sim
from amlib.stream.generator import StreamSerializer
d = StreamSerializer(5, max_length_width=8); s = Sim(d); got = []
for i in range(20):
    o = s.cycle([(d.start, int(i == 1)), (d.stream.ready, 1), (d.max_length, 11)], dict(v=d.stream.valid, l=d.stream.last))
    if o["v"]: got.append(o["l"])
assert got == [0, 0, 0, 0, 1], got
''')
