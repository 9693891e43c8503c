"""W05 SimpleSoC: generated systems, both processor buses, interrupts, and the generated C header and linker script."""
import io
import json
import os
import random
import re
import subprocess
import tempfile
import types
from amaranth import *
from rtlsim import Sim
from wbm import Master
from amlib.soc.simplesoc import SimpleSoC
from amlib.soc.memory import WishboneRAM, WishboneROM
from amlib.soc.peripheral import Peripheral

MC = [("MCSoc", "MCSoc.cfg")]
MC_THOROUGH = [("MCSoc", "MCSocT.cfg")]


class Box(Peripheral, Elaboratable):
    """A peripheral whose registers store what is written to them; optionally with one interrupt."""
    def __init__(self, name, widths, acc, ev, align=2):
        super().__init__(name=name)
        bank = self.csr_bank()
        self.regs = [bank.csr(w, a, name=f"r{i}") for i, (w, a) in enumerate(zip(widths, acc))]
        self.store = [Signal(w, name=f"s{i}") for i, w in enumerate(widths)]
        self.ev = self.event(mode=ev, name="tick") if ev else None
        self._bridge = self.bridge(data_width=32, granularity=8, alignment=align)
        self.bus = self._bridge.bus
        if ev:
            self.irq = self._bridge.irq

    def elaborate(self, platform):
        m = Module()
        m.submodules.bridge = self._bridge
        for e, s in zip(self.regs, self.store):
            if e.access.writable():
                with m.If(e.w_stb):
                    m.d.sync += s.eq(e.w_data)
            if e.access.readable():
                m.d.comb += e.r_data.eq(s)
        return m


def build(plan):
    soc = SimpleSoC(clock_frequency=int(60e6))
    parts, comps, mains = [], [], dict(rom=0, ram=0)
    if plan["bios"] == "first":
        add_bios(soc, plan, parts, comps)
    for c in plan["comps"]:
        a = {} if c["addr"] < 0 else dict(addr=c["addr"])
        init = []
        if c["kind"] == "rom":
            init = c["init"]
            if c["named"]:
                p = soc.add_peripheral(WishboneROM(bytes(init), addr_width=(c["size"] - 1).bit_length(), name=c["name"]), **a)
            else:
                p = soc.add_rom(bytes(init), c["size"], addr=c["addr"] if c["addr"] >= 0 else None, is_main_rom=c["main"])
        elif c["kind"] == "ram":
            if c["named"]:
                p = soc.add_peripheral(WishboneRAM(addr_width=(c["size"] - 1).bit_length(), name=c["name"]), **a)
            else:
                p = soc.add_ram(c["size"], addr=c["addr"] if c["addr"] >= 0 else None, is_main_mem=c["main"])
        else:
            p = soc.add_peripheral(Box(c["name"], c["widths"], c["acc"], c["ev"], c["align"]), **a)
        parts.append(p)
        comps.append(dict(addr=c["addr"], size=c["size"], kind=c["kind"], init=init, irq=int(bool(c.get("ev"))), name=c["name"]))
        if c["kind"] in mains and not c["named"] and c["main"] and not mains[c["kind"]]:
            mains[c["kind"]] = len(parts)
    if plan["bios"] == "last":
        add_bios(soc, plan, parts, comps)
    return soc, parts, comps, mains


def add_bios(soc, plan, parts, comps):
    soc.add_bios_and_peripherals(None, uart_baud_rate=115200, fixed_addresses=plan["fixed"])
    for p, kind, size, irq, at in ((soc.bootrom, "bios", 0x4000, 0, 0), (soc.scratchpad, "bios", 0x1000, 0, 0x10000),
                                   (soc.timer, "other", 1, 1, 0x20000), (soc.uart, "other", 1, 1, 0x30000)):
        parts.append(p)
        comps.append(dict(addr=at if plan["fixed"] else -1, size=size, kind=kind, init=[], irq=irq, name=p.name))


def listing(res, mapping):
    """resources() entries as [component, start, size] or [-register, start, size] (others are left out)."""
    out = []
    for info, start, size in res:
        k = mapping.get(id(info.resource))
        if k is not None:
            out.append([k, start, size])
    return out


DRIVER = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sys/mman.h>
enum { mstatus = 0x300 };
static unsigned csrs[0x1000];
static unsigned csr_get(int r) { return csrs[r]; }
static void csr_put(int r, unsigned v) { csrs[r] = v; }
#define read_csr(reg) csr_get(reg)
#define write_csr(reg, v) csr_put(reg, v)
#define set_csr(reg, v) csr_put(reg, csr_get(reg) | (v))
#define clear_csr(reg, v) csr_put(reg, csr_get(reg) & ~(v))
#include "soc.h"
static uint8_t pat(uint32_t a) { return (a * 7 + (a / 256) * 13 + 3) % 256; }
#define BASE @BASE@u
#define SIZE @SIZE@u
static void fill(void) { for (uint32_t a = BASE; a < BASE + SIZE; a++) *(volatile uint8_t *)(uintptr_t)a = pat(a); }
static void diff(void) { const char *s = ""; for (uint32_t a = BASE; a < BASE + SIZE; a++) { uint8_t v = *(volatile uint8_t *)(uintptr_t)a;
    if (v != pat(a)) { printf("%s[%u,%u]", s, a, v); s = ","; } } }
int main(void) {
  if (mmap((void *)(uintptr_t)BASE, SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0) != (void *)(uintptr_t)BASE) return 3;
  printf("[");
@BODY@
  printf("0]\n");
  return 0;
}
"""


def header(soc, d, parts, comps, regs, r, base, size, ev):
    """Compile the generated header, run its functions, append the events; returns what was wrong with it."""
    f = io.StringIO()
    soc.generate_c_header(macro_name="MYSOC", file=f, platform_name="check")
    body = []
    order = []
    for i, c in enumerate(comps):
        if c["kind"] in ("rom", "ram"):
            u = c["name"].upper()
            body.append(f'  printf("[%u,%u],", (unsigned){u}_ADDRESS, (unsigned){u}_SIZE);')
            order.append(("mem", i))
    for j, g in enumerate(regs):
        u = g["name"].upper()
        body.append(f'  printf("[%u,%u],", (unsigned){u}_ADDRESS, (unsigned){u}_SIZE);')
        order.append(("reg", j))
    for j, g in enumerate(regs):
        if "r" in g["acc"]:
            body.append(f'  fill(); printf("[%u,", (unsigned){g["name"]}_read()); printf("["); diff(); printf("]],");')
            order.append(("read", j))
        if "w" in g["acc"]:
            v = [0] * 4
            for o in range(4):
                p = ((g["start"] + o) * 7 + (g["start"] + o) // 256 * 13 + 3) % 256
                v[o] = r.choice([x for x in (0, 255, r.randrange(256), r.randrange(256)) if x != p] or [(p + 1) % 256])
            body.append(f'  fill(); {g["name"]}_write({int.from_bytes(bytes(v), "little")}u); printf("["); diff(); printf("],");')
            order.append(("write", j, v))
    n = 0
    for i, c in enumerate(comps):
        if c["irq"]:
            mask, pend = r.getrandbits(32), r.getrandbits(32)
            if r.random() < .5:
                pend ^= 1 << n                   # both polarities of the own bit
            nm = c["name"]
            body.append(f'  csrs[0x330] = {mask}u; csrs[0x360] = {pend}u; {nm}_interrupt_enable(); printf("[%u,", csrs[0x330]);'
                        f' csrs[0x330] = {mask}u; {nm}_interrupt_disable(); printf("%u,", csrs[0x330]); printf("%d],", {nm}_interrupt_pending());')
            order.append(("irq", i, mask, pend))
            n += 1
    body.append('  csrs[mstatus] = 0xa5u; irq_setie(1); printf("[%u,%u,", csrs[mstatus], irq_getie()); irq_setie(0); '
                'printf("%u,%u],", csrs[mstatus], irq_getie());')
    with tempfile.TemporaryDirectory(prefix="w05-") as t:
        open(t + "/soc.h", "w").write(f.getvalue())
        open(t + "/main.c", "w").write(DRIVER.replace("@BASE@", str(base)).replace("@SIZE@", str(size)).replace("@BODY@", "\n".join(body)))
        c = subprocess.run(["gcc", "-O1", "-w", "-fno-strict-aliasing", "-o", t + "/a.out", t + "/main.c"], capture_output=True, text=True)
        if c.returncode:
            return "the C header does not compile: " + c.stderr[:600], None, None
        o = subprocess.run([t + "/a.out"], capture_output=True, text=True, timeout=60)
        if o.returncode:
            return f"the program using the C header ended with {o.returncode}", None, None
    vals = json.loads(o.stdout)
    hmem, hreg = [[0, 0] for _ in comps], [[0, 0] for _ in regs]
    lst = lambda x: [x >> k & 1 for k in range(32)]
    n = 0
    for what, v in zip(order, vals):
        if what[0] == "mem":
            hmem[what[1]] = v
        elif what[0] == "reg":
            hreg[what[1]] = v
        elif what[0] == "read":
            g = regs[what[1]]
            ev.append(dict(k="cread", reg=what[1] + 1, v=list(v[0].to_bytes(4, "little"))[:g["end"] - g["start"]]))
            if v[1]:
                return f"{g['name']}_read writes", None, None
        elif what[0] == "write":
            ev.append(dict(k="cwrite", reg=what[1] + 1, v=what[2], changed=v))
        else:
            ev.append(dict(k="cirq", i=what[1] + 1, no=n, mask=lst(what[2]), pending=lst(what[3]), en=lst(v[0]), dis=lst(v[1]), pend=v[2]))
            n += 1
    if vals[-2] != [0xad, 1, 0xa5, 0]:
        return f"irq_setie/irq_getie: {vals[-2]}", None, None
    return None, hmem, hreg


def run(plan, n, seed):
    r = random.Random(f"w05-{seed}")
    cid = f"soc seed={seed}"
    soc, parts, comps, mains = build(plan)

    def fail(msg):
        return [dict(spec="TSoc", cfg={}, ev=[], id=cid, bad=msg)]
    wins = {id(o): (a, b) for o, (a, b, _) in soc.bus_decoder.bus.memory_map.windows()}
    rng = [list(wins.get(id(p.bus.memory_map), (0, 0))) for p in parts]
    infos = {id(i.resource): i for i in soc.memory_map.all_resources()}
    mapping, regs = {}, []
    for i, (p, c) in enumerate(zip(parts, comps)):
        if c["kind"] in ("rom", "ram"):
            mapping[id(p)] = i + 1
        elif c["kind"] == "bios":
            mapping[id(p._mem)] = i + 1
        elif c["kind"] == "per":
            for e, w, st in zip(p.regs, plan_of(plan, c["name"])["widths"], p.store):
                info = infos[id(e)]
                regs.append(dict(comp=i + 1, bytes=(w + 7) // 8, start=info.start, end=info.end, acc=e.access.value, name="_".join(info.name), e=e))
                mapping[id(e)] = -len(regs)
    ev = []
    omit = r.getrandbits(1)
    res = listing(soc.resources(omit_bios_mem=bool(omit)), mapping) if plan["bios"] or omit else listing(soc.resources(), mapping)
    f = io.StringIO()
    soc.generate_ld_script(file=f)
    ld = [[k, int(a, 16), int(b, 16)] for k, a, b in re.findall(r"^\s*(\w+)\s*:\s*ORIGIN\s*=\s*(0x[0-9a-fA-F]+),\s*LENGTH\s*=\s*(0x[0-9a-fA-F]+)\s*$", f.getvalue(), re.M)]
    hev = []
    lo = min(g["start"] for g in regs) if regs else 0x10000000
    hi = max(g["end"] for g in regs) if regs else 0x10000000
    base = lo & ~0xfff
    bad, hmem, hreg = header(soc, None, parts, comps, regs, r, base, ((hi - base) | 0xfff) + 1, hev)
    if bad:
        return fail(bad)
    main = soc.main_ram_address()
    soc.log_resources() if mains["ram"] else None
    ev.append(dict(k="map", rng=rng, reg=[[g["start"], g["end"]] for g in regs], res=res, omit=int(omit and bool(plan["bios"])), main=-1 if main is None else main,
                   ld=ld, hmem=hmem, hreg=hreg))
    ev += hev
    # the hardware
    sim = Sim(soc)
    boxes = [(i, p) for i, (p, c) in enumerate(zip(parts, comps)) if c["kind"] == "per"]
    irqp = [(i, p) for i, (p, c) in enumerate(zip(parts, comps)) if c["irq"]]
    outs = {f"l{i}": p.irq for i, p in irqp}
    outs["ip"] = soc.cpu.ip
    for k, b in (("i", soc.cpu.ibus), ("d", soc.cpu.dbus)):
        outs[k + "ack"], outs[k + "dat"] = b.ack, b.dat_r
    bus = dict(i=soc.cpu.ibus, d=soc.cpu.dbus)
    pend = dict(i=None, d=None)
    wait = dict(i=0, d=0)
    cells = []
    for i, c in enumerate(comps):
        if c["kind"] in ("rom", "ram"):
            cells.append((rng[i][0], rng[i][1], "rw", c["kind"]))
    for g in regs:
        if g["start"] // 4 == (g["end"] - 1) // 4:      # a register across two words takes two transfers
            cells.append((g["start"], g["end"], g["acc"], "reg"))
    irqs = [[k, next(j + 1 for j, q in enumerate(parts) if q is p)] for k, p in sorted(soc._irqs.items())]
    stb = {i: 0 for i, _ in boxes}
    en = []
    for i, p in irqp:
        if comps[i]["kind"] != "per":
            continue
        for x in soc.memory_map.all_resources():
            if x.name[-1] == f"{comps[i]['name']}_ev_enable":
                en.append((x.start, 1))
            if x.name[-1] == f"{comps[i]['name']}_ev_pending":
                en.append((x.start, None))
    # cells of interrupt registers, written now and then: [address, value]
    stuck = 0
    for t in range(n):
        pk = []
        for k in ("i", "d"):
            # a bus that has waited for long is let in: the arbiter switches when the other one ends its cycle
            if pend[k] is None and wait["d" if k == "i" else "i"] < 15 and r.random() < .5:
                if en and r.random() < .2:
                    a, v = r.choice(en)
                    pend[k] = (1, a, [1, 1, 1, 1], [r.getrandbits(1) if v is None else r.choice([1, 1, 0]), 0, 0, 0], 0)
                elif cells:
                    a, b, acc, kind = r.choice(cells)
                    at = r.choice([a, b - 1, r.randrange(a, b)]) & ~3
                    we = r.getrandbits(1)
                    if "w" not in acc:
                        we = 0
                    if "r" not in acc:
                        we = 1
                    sel = [int(a <= at + o < b) for o in range(4)] if kind == "reg" else r.choice([[1] * 4, [r.getrandbits(1) for _ in range(4)]])
                    # registers readable and writable are compared; write-only ones are only written
                    pend[k] = (we, at, sel, [r.randrange(256) for _ in range(4)], 1)
                wait[k] = 0
            q = pend[k]
            b = bus[k]
            if q is None:
                pk += [(b.cyc, 0), (b.stb, 0)]
            else:
                pk += [(b.cyc, 1), (b.stb, 1), (b.we, q[0]), (b.adr, q[1] // 4), (b.sel, sum(x << o for o, x in enumerate(q[2]))),
                       (b.dat_w, int.from_bytes(bytes(q[3]), "little"))]
        for i, p in boxes:
            if p.ev is not None:
                stb[i] ^= int(r.random() < .1)
                pk.append((p.ev.stb, stb[i]))
        o = sim.cycle(pk, outs)
        ev.append(dict(k="irq", irqs=irqs, ip=[o["ip"] >> x & 1 for x in range(32)], line=[o.get(f"l{i}", 0) for i in range(len(comps))]))
        for k in ("i", "d"):
            q = pend[k]
            if q is None:
                continue
            wait[k] += 1
            if o[k + "ack"] or wait[k] > 60:
                if q[4]:
                    ev.append(dict(k="bus", we=q[0], a=q[1], sel=q[2], w=q[3], r=list(o[k + "dat"].to_bytes(4, "little")), ack=o[k + "ack"]))
                elif not o[k + "ack"]:
                    return fail("a transfer to an interrupt register is not acknowledged")
                pend[k], wait[k] = None, 0
    cfg = dict(comps=[{k: c[k] for k in ("addr", "size", "kind", "init", "irq")} for c in comps],
               mems=[i + 1 for i, c in enumerate(comps) if c["kind"] in ("rom", "ram")],
               regs=[dict(comp=g["comp"], bytes=g["bytes"]) for g in regs], ram=mains["ram"], rom=mains["rom"])
    return [dict(spec="TSoc", cfg=cfg, ev=ev, id=cid)]


def plan_of(plan, name):
    return next(c for c in plan["comps"] if c["name"] == name)


def plan(r, bios):
    comps, c = [], 0
    hi = 0x10000000
    kinds = ["rom"] * r.randrange(0, 3) + ["ram"] * r.randrange(0, 4) + ["per"] * r.randrange(1, 6)
    r.shuffle(kinds)
    first = dict(rom=True, ram=True)
    fixed = hi
    for k in kinds:
        addr = -1
        if r.random() < .4 or k == "per" and fixed == hi:
            addr = fixed = fixed + 0x1000 * r.randrange(1, 4)
        size = r.choice([4, 8, 16, 64, 128, r.randrange(4, 200), 2 ** r.randrange(2, 8) + r.choice([-1, 1])])
        d = dict(kind=k, addr=addr, size=size)
        if k == "per":
            align = r.choice([2, 2, 1, 0])              # registers of 1, 2 or 4 bytes
            ws = [r.choice([8, 8, 16, 32] + [24] * (align > 0)) for _ in range(r.randrange(1, 4))]
            d.update(align=align, name=f"box{c}", widths=ws, acc=[r.choice(["rw", "rw", "r", "w"]) for _ in ws],
                     ev=r.choice([None, "level", "rise", "fall"]), size=1)
        else:
            named = not first[k]
            main = not named and r.random() < .8
            first[k] = False
            d.update(named=named, main=main, name=f"{k}{c}" if named else k)
            if k == "rom":
                d["init"] = [r.randrange(256) for _ in range(r.choice([size, r.randrange(1, size + 1)]))]
        comps.append(d)
        c += 1
    return dict(comps=comps, bios=bios, fixed=False)


def bios_jobs(r):
    p = plan(r, r.choice(["first", "last"]))
    if r.random() < .5:
        p.update(bios="first", fixed=True)
    return p


def api(_):
    bad = []
    with tempfile.TemporaryDirectory(prefix="w05-") as t:
        s = SimpleSoC()
        s.add_ram(64)
        s.build(name="x", build_dir=t)
        if hasattr(s, "built"):
            bad.append("a system without BIOS builds one")
        s = SimpleSoC(clock_frequency=int(48e6))
        s.add_bios_and_peripherals(None, uart_baud_rate=1000000)
        if s.uart.core.divisor != 48:
            bad.append(f"UART divisor {s.uart.core.divisor}")
        s.build(name="x", build_dir=t)
        if not hasattr(s, "built") or s.built.get("build_dir") != os.path.join(t, "soc") or s.built.get("name") != "x":
            bad.append("the BIOS is not built in the build directory")
    return [dict(spec="TSoc", cfg={}, ev=[], id="soc api", **(dict(bad="; ".join(bad)) if bad else {}))]


def jobs(tier, rng):
    yield "api", dict(_=0)
    for i in range(24 if tier == "quick" else 160):
        r = random.Random(rng.getrandbits(40))
        p = bios_jobs(r) if i % 4 == 3 else plan(r, None)
        yield "run", dict(plan=p, n=150 if tier == "quick" else 800, seed=rng.getrandbits(30))
