import sys; sys.path.insert(0, __file__.rsplit("/", 2)[0])
from seed import seed
SIM = "from rtlsim import Sim\nfrom amaranth import *\n"
M, E, P, U, S, AR = ("amlib/" + x for x in ("soc/memory.py", "soc/event.py", "soc/peripheral.py", "soc/uart.py", "soc/simplesoc.py", "stream/arbiter.py"))
RAM = SIM + '''
from amlib.soc.memory import WishboneRAM, WishboneROM
def read(s, b, a, limit=8):
    s.poke(b.cyc, 1); s.poke(b.stb, 1); s.poke(b.we, 0); s.poke(b.adr, a); s.poke(b.sel, (1 << len(b.sel)) - 1)
    for _ in range(limit):
        s.settle(); k, v = s.peek(b.ack), s.peek(b.dat_r); s.edge()
        if k: return v
'''
seed("W01-a", "W01", [(M, "            self.bus.stb &\n            ~self.bus.ack\n", "            self.bus.stb\n")],
 "two transfers to different words in consecutive cycles", "the second one is acknowledged with the data of the first", RAM + '''
d = WishboneROM(list(range(100, 116)), addr_width=6); s = Sim(d); b = d.bus
for gap in (2, 0):
    for a in (3, 7, 1, 1, 15):
        v = read(s, b, a); assert v == 100 + a, (gap, a, v)
        s.poke(b.cyc, 0)
        for _ in range(gap): s.settle(); s.edge()
''', stubs=True)
seed("W01-c", "W01", [(M, "                    self.bus.stb &    # Valid data is being provided.\n", "                    (self.bus.stb | self.bus.ack) &    # Valid data is being provided.\n")],
 "stb falls in the cycle after a write while cyc stays high and the address already is another one", "a word is written that nobody asked for", RAM + '''
d = WishboneRAM(addr_width=6); s = Sim(d); b = d.bus
s.poke(b.cyc, 1); s.poke(b.stb, 1); s.poke(b.we, 1); s.poke(b.adr, 2); s.poke(b.dat_w, 77); s.poke(b.sel, 15); s.settle(); s.edge()
s.poke(b.stb, 0); s.poke(b.adr, 5); s.settle(); s.edge(); s.poke(b.cyc, 0); s.settle(); s.edge(); s.edge()
assert read(s, b, 2) == 77; s.poke(b.cyc, 0); s.settle(); s.edge(); s.edge()
v = read(s, b, 5); assert v == 0, v
''', stubs=True)
EV = SIM + '''
from amlib.soc.event import EventSource, InterruptSource
def step(s, d, e, stb, clr=None):
    s.poke(e.stb, stb); s.poke(d.pending.w_stb, clr is not None); s.poke(d.pending.w_data, clr or 0); s.settle(); s.edge(); s.settle(); return s.peek(d.pending.r_data)
'''
seed("W02-a", "W02", [(E, "            with m.If(event_trigger):\n", "            with m.If(event_trigger & ~(self.pending.w_stb & self.pending.w_data[i])):\n")],
 "an edge in the very cycle in which the bit is cleared", "the event is lost", EV + '''
for at in (2, 6, 5):
    e = EventSource(mode="rise", name="e"); d = InterruptSource([e], name="i"); s = Sim(d)
    assert step(s, d, e, 1) == 1; step(s, d, e, 0)
    for k in range(8): p = step(s, d, e, k == at, 1 if k == 5 else None)
    assert p == (at >= 5), (at, p)
''', stubs=True)
seed("W02-b", "W02", [(E, "                m.d.sync += event_stb_r.eq(event.stb)\n", "                with m.If(~self.pending.r_data[i] | ~self.pending.w_stb):\n                    m.d.sync += event_stb_r.eq(event.stb)\n")],
 "the strobe changes in the cycle in which the pending register is written", "the next cycle sees an edge a second time (or none)", EV + '''
for at in (3, 5, 4):
    e = EventSource(mode="rise", name="e"); d = InterruptSource([e], name="i"); s = Sim(d)
    got = [step(s, d, e, k >= at, 1 if k in (4, 5) else None) for k in range(8)]
    want = 1 if at == 5 else 0
    e2 = [int(k >= at and not (k >= 4 and at < 4) and not (k >= 5 and at < 5)) for k in range(8)]
    assert got == e2, (at, got, e2)
for at in (3, 5):
    e = EventSource(mode="fall", name="e"); d = InterruptSource([e], name="i"); s = Sim(d)
    step(s, d, e, 1); step(s, d, e, 0); step(s, d, e, 1)
    for k in range(8): p = step(s, d, e, k < at, 1 if k in (at + 1,) or k == at else None)
    assert p == 0, (at, p)
''', stubs=True)
PER = SIM + '''
from amlib.soc.peripheral import Peripheral
def addrs(*banks, win=None, al=2, ev=0):
    p = Peripheral(name="p")
    n = 0
    for bank, kw in banks:
        k = p.csr_bank(**kw)
        for a in bank: k.csr(8, "rw", name=f"r{n}", **({} if a is None else dict(addr=a))); n += 1
    for j in range(ev): p.event(mode="level", name=f"e{j}")
    b = p.bridge(data_width=32, granularity=8, alignment=al)
    return {i.name[-1]: i.start for i in b.bus.memory_map.all_resources()}
'''
seed("W03-a", "W03", [(P, "                csr_mux.add(elem, addr=elem_addr,", "                csr_mux.add(elem, addr=elem_addr or None,")],
 "a register placed at address 0 after other registers of its bank", "the request is ignored: it lies behind them", PER + '''
assert addrs(([None, None, 16, None], {})) == {"p_r0": 0, "p_r1": 4, "p_r2": 16, "p_r3": 20}
a = addrs(([4, 8, 0], {})); assert a == {"p_r0": 4, "p_r1": 8, "p_r2": 0}, a
''', stubs=True)
seed("W03-b", "W03", [(P, "        for elem, addr, alignment in self._csr_regs:\n", "        for elem, addr, alignment in sorted(self._csr_regs, key=lambda r: r[1] is None):\n")],
 "a bank in which registers without an address precede one with an address", "the registers are no longer in order", PER + '''
a = addrs(([None, None, 16, None], {})); assert a == {"p_r0": 0, "p_r1": 4, "p_r2": 16, "p_r3": 20}, a
''', stubs=True)
seed("W03-c", "W03", [(P, "            csr_mux.add(self._int_src.status,  extend=True)\n", "            csr_mux.add(self._int_src.status,  extend=True, alignment=alignment)\n"), (P, "            csr_mux.add(self._int_src.pending, extend=True)\n", "            csr_mux.add(self._int_src.pending, extend=True, addr=1 << alignment)\n"), (P, "            csr_mux.add(self._int_src.enable,  extend=True)\n", "            csr_mux.add(self._int_src.enable,  extend=True, addr=2 << alignment)\n")],
 "more events than fit into one aligned register (alignment 0 and 9 events)", "the interrupt registers overlap", PER + '''
for al, ev in ((2, 3), (2, 32), (0, 8), (0, 9), (1, 17)):
    a = addrs(([None], {}), al=al, ev=ev)
    n = (ev + 7) // 8; step = (n + (1 << al) - 1) >> al << al
    s = [a["p_ev_" + x] for x in ("status", "pending", "enable")]
    assert s[1] - s[0] == step and s[2] - s[1] == step, (al, ev, a)
''', stubs=True)
UA = SIM + '''
from amlib.soc.uart import UARTPeripheral
class D:
    def __init__(self, **kw):
        self.d = UARTPeripheral(divisor=6, divisor_bits=8, **kw); self.s = Sim(self.d, init=[(self.d.rx, 1)])
        self.a = {i.name[-1].split("UARTPeripheral")[-1].split("d_", 1)[-1]: i.start // 4 for i in self.d.bus.memory_map.all_resources()}
    def op(self, name, w=None):
        b, s = self.d.bus, self.s
        a = [v for k, v in self.a.items() if k.endswith(name)][0]
        for f, v in ((b.cyc, 1), (b.stb, 1), (b.we, w is not None), (b.adr, a), (b.dat_w, w or 0), (b.sel, 15)): s.poke(f, v)
        for _ in range(30):
            s.settle(); k, v = s.peek(b.ack), s.peek(b.dat_r); s.edge()
            if k: break
        s.poke(b.cyc, 0); s.poke(b.stb, 0); s.settle(); s.edge(); return v & 255
    def line(self, v):
        for bit in [0] + [v >> i & 1 for i in range(8)] + [1, 1]:
            self.s.poke(self.d.rx, bit); self.s.settle()
            for _ in range(6): self.s.edge()
'''
seed("W04-a", "W04", [(U, "            self._phy.rx.ack      .eq(self._rx_fifo.w_rdy),\n", "            self._phy.rx.ack      .eq(1),\n")],
 "more words arrive than the receive FIFO holds", "the overflow is not reported", UA + '''
d = D(rx_depth=4)
for k in range(4): d.line(k + 1)
assert d.op("rx_err") == 0
d.line(9); d.line(10)
err = d.op("rx_err")
assert [d.op("rx_data") for _ in range(4)] == [1, 2, 3, 4]
assert err & 1, err
''', stubs=True)
seed("W04-b", "W04", [(U, "        with m.If(self._divisor.w_stb):\n", "        with m.If(self._divisor.w_stb & self._phy.tx.rdy):\n")],
 "the divisor is written while a word is being sent", "the write is lost", UA + '''
d = D(); d.op("enabled", 1)
d.op("divisor", 7); assert d.op("divisor") == 7
d.op("tx_data", 0x55); d.op("divisor", 12); assert d.op("divisor") == 12
''', stubs=True)
seed("W04-c", "W04", [(U, "            self._tx_mty_ev.stb   .eq(~self._tx_fifo.r_rdy),\n", "            self._tx_mty_ev.stb   .eq(self._tx_fifo.r_level == 0),\n"), (U, "            self._rx_rdy.r_data   .eq(self._rx_fifo.r_rdy),\n", "            self._rx_rdy.r_data   .eq(self._rx_fifo.r_level[:-1].any()),\n")],
 "exactly 2^k words wait in a receive FIFO of depth 2^k", "the full FIFO is reported empty", UA + '''
d = D(rx_depth=4)
for k in range(4):
    assert d.op("rx_rdy") == (k > 0); d.line(k + 1)
assert d.op("rx_rdy") == 1
''', stubs=True)
SO = '''
from amlib.soc.simplesoc import SimpleSoC
from amlib.soc.peripheral import Peripheral
from amaranth import *
import io, re
class Box(Peripheral, Elaboratable):
    def __init__(self, name, ev=True):
        super().__init__(name=name); self.r = self.csr_bank().csr(8, "rw", name="r")
        if ev: self.e = self.event(mode="rise", name="e")
        b = self.bridge(data_width=32, granularity=8, alignment=2); self.bus = b.bus
        if ev: self.irq = b.irq
'''
seed("W05-a", "W05", [(S, 'emit(f"    irq_setmask(irq_getmask() & ~(1 << {irq}));")', 'emit(f"    irq_setmask(irq_getmask() ^ (1 << {irq}));")')],
 "an interrupt is disabled that is not enabled", "it becomes enabled", SO + '''
import subprocess, tempfile, os
soc = SimpleSoC(); a = soc.add_peripheral(Box("a")); b = soc.add_peripheral(Box("b")); f = io.StringIO(); soc.generate_c_header(file=f)
h = f.getvalue(); h = h[h.index("// Interrupts"):].replace("#endif", "")
with tempfile.TemporaryDirectory() as t:
    open(t + "/x.c", "w").write("#include <stdint.h>\\n#include <stdbool.h>\\nstatic uint32_t m; static uint32_t irq_getmask(void){return m;} static void irq_setmask(uint32_t v){m=v;} static uint32_t pending_irqs(void){return 2;}\\n" + h +
      "\\nint main(){ a_interrupt_enable(); if(m!=1) return 1; b_interrupt_enable(); a_interrupt_disable(); if(m!=2) return 2; a_interrupt_disable(); if(m!=2) return 3; return !(b_interrupt_pending() && !a_interrupt_pending()); }")
    subprocess.run(["gcc", "-w", "-o", t + "/x", t + "/x.c"], check=True); assert subprocess.run([t + "/x"]).returncode == 0
''', stubs=True)
seed("W05-b", "W05", [(S, "        addr_width = (size - 1).bit_length()\n\n        # ... and add it as a peripheral.", "        addr_width = size.bit_length() - 1\n\n        # ... and add it as a peripheral.")],
 "a RAM size that is not a power of two", "the RAM is smaller than requested", SO + '''
for size in (0x1000, 0x4000, 0x1800, 0x3001):
    soc = SimpleSoC(); soc.add_ram(size, addr=0x10000); f = io.StringIO(); soc.generate_ld_script(file=f)
    n = int(re.search("LENGTH = (0x[0-9a-f]+)", f.getvalue())[1], 16)
    assert n == 1 << (size - 1).bit_length(), (size, n)
    assert [s for r, a, s in soc.resources()] == [n]
''', stubs=True)
seed("W05-c", "W05", [(S, "            self.intc.add_irq(irq_line, self._next_irq_index)\n", "            self.intc.add_irq(irq_line, len(self._submodules))\n")],
 "a peripheral without interrupt (such as a memory) precedes an interrupting one", "the processor sees another interrupt number than the C header uses", SO + '''
import amlib.soc.simplesoc as m
for mem in (0, 2):
    soc = SimpleSoC()
    for k in range(mem): soc.add_ram(64)
    ps = [soc.add_peripheral(Box(n)) for n in "ab"]; f = io.StringIO(); soc.generate_c_header(file=f)
    num = {n: int(re.search(n + r"_interrupt_pending\\(void\\) {\\s*return pending_irqs\\(\\) & \\(1 << (\\d+)\\)", f.getvalue())[1]) for n in "ab"}
    got = {n: [i for i, l in soc.intc._irq_lines.items() if l is p.irq] if hasattr(soc.intc, "_irq_lines") else None for n, p in zip("ab", ps)}
    from rtlsim import Sim
    class T(Elaboratable):
        def elaborate(self, p):
            q = Module(); q.submodules += soc.intc; return q
    s = Sim(T())
    for n, p in zip("ab", ps):
        s.poke(p.irq, 1); s.settle(); s.edge(); s.settle(); ip = s.peek(soc.intc.ip); s.poke(p.irq, 0); s.edge()
        assert ip == 1 << num[n], (mem, n, ip, num)
''', stubs=True)
seed("S02-a", "S02", [(AR, "            with conditional(interface.valid):\n", "            with conditional(interface.valid & (self.output.ready | (interface is not self._inputs[-1]))):\n")],
 "the last producer is valid, no other one is, and the consumer is not ready", "the word is hidden until the consumer is ready, and changes with it", SIM + '''
from amlib.stream import StreamInterface
from amlib.stream.arbiter import StreamMultiplexer
d = StreamMultiplexer(); ins = [StreamInterface() for _ in range(3)]
for i in ins: d.add_input(i)
s = Sim(d)
for k, i in enumerate(ins): s.poke(i.payload, 10 + k)
for ready in (1, 0):
    for v in range(8):
        s.poke(d.output.ready, ready)
        for k, i in enumerate(ins): s.poke(i.valid, v >> k & 1)
        s.settle()
        w = next((k for k in range(3) if v >> k & 1), None)
        assert s.peek(d.output.valid) == (v > 0), (ready, v)
        if v: assert s.peek(d.output.payload) == 10 + w
        assert [s.peek(i.ready) for i in ins] == [int(ready and k == w) for k in range(3)]
''')
seed("S02-b", "S02", [(AR, "            # After our first iteration, use Elif instead of If.\n            conditional = m.Elif\n", "            # After our first iteration, use Elif instead of If.\n            if len(self._inputs) <= 4 or interface is not self._inputs[2]:\n                conditional = m.Elif\n            else:\n                conditional = m.If\n")],
 "five or more producers, one of the first three and a later one valid together", "the later one wins and both see ready", SIM + '''
from amlib.stream import StreamInterface
from amlib.stream.arbiter import StreamMultiplexer
for n in (1, 2, 3, 4, 5, 6):
    d = StreamMultiplexer(); ins = [StreamInterface() for _ in range(n)]
    for i in ins: d.add_input(i)
    s = Sim(d); s.poke(d.output.ready, 1)
    for k, i in enumerate(ins): s.poke(i.payload, 10 + k)
    for v in range(1 << n):
        for k, i in enumerate(ins): s.poke(i.valid, v >> k & 1)
        s.settle()
        w = next((k for k in range(n) if v >> k & 1), None)
        if v: assert s.peek(d.output.payload) == 10 + w, (n, v)
        assert [s.peek(i.ready) for i in ins] == [int(k == w) for k in range(n)], (n, v)
''')
