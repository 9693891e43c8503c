"""W03 Peripheral / CSRBank / PeripheralBridge: generated peripherals, mapped and accessed over Wishbone."""
import random
from amaranth import *
from rtlsim import Sim
from wbm import Master
from amlib.soc.peripheral import Peripheral, CSRBank, PeripheralBridge
from amlib.soc.event import EventSource, IRQLine
from amaranth_soc import wishbone, csr

MC = [("MCReg", "MCReg.cfg")]


class Dut(Peripheral, Elaboratable):
    def __init__(self, plan, **kw):
        super().__init__(name=plan["name"])
        self.elems, self.regs, self.evs, self.wins = [], [], [], []
        order = list(plan["banks"])
        for b, bank in enumerate(order):
            args = {}
            if bank["base"] >= 0:
                args["addr"] = bank["base"]
            if bank["al"] is not None:
                args["alignment"] = bank["al"]
            k = self.csr_bank(**args)
            for r in bank["regs"]:
                a = {}
                if r["addr"] >= 0:
                    a["addr"] = r["addr"]
                if r["al"] is not None:
                    a["alignment"] = r["al"]
                self.elems.append(k.csr(r["w"], r["acc"], name=r["name"], **a))
                bal = plan["al"] if bank["al"] is None else bank["al"]
                ral = plan["al"] if r["al"] is None else r["al"]
                self.regs.append(dict(bank=b, base=bank["base"], addr=r["addr"], al=max(bal, ral), size=(r["w"] + 7) // 8,
                                      acc=r["acc"], role=""))
        for w in plan["wins"]:
            a = dict(addr=w["addr"]) if w["addr"] >= 0 else {}
            self.wins.append(self.window(addr_width=w["aw"], data_width=32, granularity=8, **a))
        for i, mode in enumerate(plan["events"]):
            self.evs.append(self.event(mode=mode, name=f"ev{i}"))
        self._br = self.bridge(data_width=plan["dw"], granularity=8, alignment=plan["al"])
        self.bus = self._br.bus
        if self.evs:
            self.irq = self._br.irq
            for role, acc in (("status", "r"), ("pending", "rw"), ("enable", "rw")):
                self.regs.append(dict(bank=len(order), base=-1, addr=-1, al=plan["al"], size=(len(self.evs) + 7) // 8, acc=acc, role=role))

    def elaborate(self, platform):
        m = Module()
        m.submodules.bridge = self._br
        return m


def run(plan, n, seed):
    r = random.Random(f"w03-{seed}")
    d = Dut(plan)
    cid = f"peripheral seed={seed}"
    info = {}
    named = {}
    for i in d.bus.memory_map.all_resources():
        info[id(i.resource)] = i
        named.setdefault(i.name[-1], i)
    elems = list(d.elems)
    if d.evs:
        for role in ("status", "pending", "enable"):
            i = named.get(f"{plan['name']}_ev_{role}")
            if i is None:
                return [dict(spec="TReg", cfg={}, ev=[], id=cid, bad=f"no {role} register in the memory map")]
            elems.append(i.resource)
    rng = []
    for e in elems:
        i = info.get(id(e))
        rng.append([i.start, i.end] if i else [0, 0])
    names = [i["name"] for b in plan["banks"] for i in b["regs"]]
    for e, nm in zip(d.elems, names):
        if id(e) in info and info[id(e)].name[-1] != f"{plan['name']}_{nm}":
            return [dict(spec="TReg", cfg={}, ev=[], id=cid, bad="register has the wrong name")]
    win = []
    for w in d.wins:
        hit = [(a, b) for o, (a, b, _) in d.bus.memory_map.windows() if o is w.memory_map]
        win.append(list(hit[0]) if hit else [0, 0])
    ev = [dict(k="map", rng=rng, win=win)]
    sim = Sim(d)
    lanes = plan["dw"] // 8
    q = [0] * len(elems)
    stb = [0] * len(d.evs)
    slave = dict(ack=[0] * len(d.wins), dat=[0] * len(d.wins))
    acc = dict(rs=[0] * len(elems), ws=[0] * len(elems), wv=[0] * len(elems), seen=[0] * len(d.wins), got=None)

    def pokes():
        p = [(e.r_data, v) for e, v, g in zip(elems, q, d.regs) if "r" in g["acc"] and g["role"] == ""]
        p += [(s.stb, b) for s, b in zip(d.evs, stb)]
        for j, w in enumerate(d.wins):
            p += [(w.ack, slave["ack"][j]), (w.dat_r, slave["dat"][j])]
        return p
    outs = {}
    for i, (e, g) in enumerate(zip(elems, d.regs)):
        if "r" in g["acc"]:
            outs[f"r{i}"] = e.r_stb
        if "w" in g["acc"]:
            outs[f"w{i}"] = e.w_stb
            outs[f"v{i}"] = e.w_data
    for j, w in enumerate(d.wins):
        for f in ("cyc", "stb", "we", "adr", "sel", "dat_w"):
            outs[f"{f}{j}"] = getattr(w, f)
    if d.evs:
        outs["irq"] = d.irq

    def tick(o):
        for i in range(len(elems)):
            acc["rs"][i] += o.get(f"r{i}", 0)
            if o.get(f"w{i}", 0):
                acc["ws"][i] += 1
                acc["wv"][i] = o[f"v{i}"]
        for j in range(len(d.wins)):
            on = o[f"cyc{j}"] and o[f"stb{j}"]
            if slave["ack"][j]:
                slave["ack"][j] = 0
            elif on and r.random() < .5:
                slave["ack"][j] = 1
                acc["seen"][j] += 1
                acc["got"] = tuple(o[f"{f}{j}"] for f in ("we", "adr", "sel", "dat_w"))
    ms = Master(sim, d.bus, tick, outs, pokes)
    full = (1 << lanes) - 1
    for t in range(n):
        for k in ("rs", "ws", "wv"):
            acc[k] = [0] * len(elems)
        acc["seen"], acc["got"] = [0] * len(d.wins), None
        for i, g in enumerate(d.regs):
            if g["role"] == "":
                q[i] = r.getrandbits(min(31, len(elems[i].r_data))) if "r" in g["acc"] else 0
        x = r.random()
        if d.evs and x < .25:
            i = r.randrange(len(d.evs))
            stb[i] = 1
            ms.idle(2)
            stb[i] = 0
            o = ms.idle(3)
            ev.append(dict(k="pulse", i=i + 1, irq=o["irq"]))
        elif d.wins and x < .45:
            j = r.randrange(len(d.wins))
            slave["dat"] = [r.getrandbits(31) for _ in d.wins]
            size = 2 ** len(d.wins[j].adr)
            off = r.choice([0, size - 1, r.randrange(size)])
            we, dat, sel = r.getrandbits(1), r.getrandbits(32), r.choice([15, r.randrange(1, 16)])
            a, v = ms.op(we, win[j][0] // lanes + off, dat, sel)
            o = ms.idle(2)
            g = acc["got"]
            same = g is not None and g[:3] == (we, off, sel) and (not we or g[3] == dat) and (we or v == slave["dat"][j])
            ev.append(dict(k="win", w=j + 1, ack=a, seen=acc["seen"], same=int(same), rs=acc["rs"], ws=acc["ws"]))
        else:
            i = r.randrange(len(elems))
            we = r.getrandbits(1)
            g = d.regs[i]
            width = len(elems[i].w_data) if "w" in g["acc"] else len(elems[i].r_data)
            val = r.getrandbits(min(31, width))
            st, en = rng[i]
            # the whole register, first word first
            res, aall = 0, 1
            for wd in range(st // lanes, (en + lanes - 1) // lanes):
                lo = wd * lanes - st
                sel, dat = 0, 0
                for l in range(lanes):
                    if 0 <= lo + l < en - st:
                        sel |= 1 << l
                        dat |= ((val >> (8 * (lo + l))) & 255) << (8 * l)
                a, v = ms.op(we, wd, dat | (r.getrandbits(32) & ~sum(255 << (8 * l) for l in range(lanes) if sel >> l & 1) & (2 ** (8 * lanes) - 1)), sel)
                aall &= a
                for l in range(lanes):
                    if sel >> l & 1:
                        res |= ((v >> (8 * l)) & 255) << (8 * (lo + l))
                if r.random() < .3:
                    ms.idle(r.randrange(1, 3))
            o = ms.idle(3)
            ev.append(dict(k="bus", reg=i + 1, we=we, v=val, r=(res & ((1 << width) - 1)) if not we else 0, ack=aall, q=list(q), rs=acc["rs"],
                           ws=acc["ws"], wv=acc["wv"], seen=acc["seen"], irq=o.get("irq", 0)))
    return [dict(spec="TReg", cfg=dict(regs=d.regs, wins=[w["addr"] for w in plan["wins"]], nev=len(d.evs)), ev=ev, id=cid)]


def api(_):
    bad = []

    def raises(exc, f):
        try:
            f()
        except exc:
            return
        except Exception as e:
            bad.append(f"{exc.__name__} expected, {e!r} raised")
            return
        bad.append(f"no {exc.__name__}")

    class Plain(Peripheral):
        def __init__(self):
            super().__init__()
            bank = self.csr_bank()
            self._foo = bank.csr(8, "r")
            self._bar = bank.csr(8, "w")
            self._rdy = self.event(mode="rise")
            self._bridge = self.bridge(data_width=32, granularity=8, alignment=2)
    my_periph = Plain()
    if my_periph.name != "my_periph":
        bad.append(f"inferred name {my_periph.name}")
    if [e.name for e, *_ in next(my_periph.iter_csr_banks())[0].iter_csr_regs()] != ["my_periph_foo", "my_periph_bar"]:
        bad.append("inferred register names")
    if [e.name for e in my_periph.iter_events()] != ["_rdy"] or [e.mode for e in my_periph.iter_events()] != ["rise"]:
        bad.append("events")
    raises(NotImplementedError, lambda: my_periph.bus)
    raises(NotImplementedError, lambda: my_periph.irq)
    raises(TypeError, lambda: setattr(my_periph, "bus", 1))
    raises(TypeError, lambda: setattr(my_periph, "irq", 1))
    raises(TypeError, lambda: Peripheral(name=2))
    raises(TypeError, lambda: CSRBank().csr(8, "r", name=3))
    my_periph.bus = my_periph._bridge.bus
    my_periph.irq = my_periph._bridge.irq
    if my_periph.bus is not my_periph._bridge.bus or my_periph.irq is not my_periph._bridge.irq:
        bad.append("bus or irq is not what was assigned")

    class Quiet(Peripheral):
        def __init__(self):
            super().__init__(name="quiet")
            self.csr_bank().csr(8, "rw", name="a")
            self.br = self.bridge(data_width=32, granularity=8, alignment=2)
    if Quiet().br.irq is not None:
        bad.append("a peripheral without events has an interrupt line")
    return [dict(spec="TReg", cfg=dict(regs=[], wins=[], nev=0), ev=[], id="peripheral api", **(dict(bad="; ".join(bad)) if bad else {}))]


def plan(r, events, wins):
    dw = 32 if wins or r.random() < .7 else 8
    al = r.choice([2, 2, 3]) if dw == 32 else r.choice([0, 0, 1, 2])
    banks = []
    nb = r.randrange(1, 4)
    bases = [-1] * nb
    if r.random() < .4:                  # all banks at addresses of their own; what follows lies behind the last one
        low = [0, 0x800][:nb - 1] if nb < 3 else r.sample([0, 0x400, 0x800, 0xc00], nb - 1)
        bases = low + [0x1000]
    elif r.random() < .5:
        bases[-1] = 0x1000
    c = 0
    for b in range(nb):
        bal = r.choice([None, None, al + 1]) if r.random() < .5 else None
        regs, used, nxt = [], [], 0
        free = r.random() < .5           # registers at addresses in any order
        for _ in range(r.randrange(1, 6)):
            w = r.choice([1, 3, 8, 8, 9, 16, 24, 31, 32]) if r.random() < .8 else r.randrange(1, 32)
            ral = r.choice([None, None, None, al + 1, al + 2])
            step = 1 << max(al if bal is None else bal, al if ral is None else ral)
            size = ((w + 7) // 8 + step - 1) // step * step
            fits = lambda x: all(x + size <= u or v <= x for u, v in used)
            at = (nxt + step - 1) // step * step
            addr = -1
            if not fits(at) or free and r.random() < .4:
                addr = r.choice([x for x in [0, 0, 0] + list(range(0, 0x180, step)) if fits(x)])
                at = addr
            used.append((at, at + size))
            nxt = at + size
            regs.append(dict(w=w, acc=r.choice(["r", "w", "rw"]), addr=addr, al=ral, name=f"reg{c}"))
            c += 1
        banks.append(dict(base=bases[b], al=bal, regs=regs))
    return dict(name=r.choice(["uart0", "p", "gpio"]), dw=dw, al=al, banks=banks, events=events,
                wins=[dict(aw=r.randrange(2, 6), addr=0x2000 if i == 0 and r.random() < .4 else -1) for i in range(wins)])


def jobs(tier, rng):
    yield "api", dict(_=0)
    M = ("level", "rise", "fall")
    for i in range(40 if tier == "quick" else 400):
        r = random.Random(rng.getrandbits(40))
        evs = [] if i % 4 == 0 else [r.choice(M) for _ in range(r.choice([1, 2, 3, 8, 11]))]
        # a falling strobe raises the event too: every pulse counts once for every mode
        yield "run", dict(plan=plan(r, evs, i % 3), n=60 if tier == "quick" else 400, seed=rng.getrandbits(30))
