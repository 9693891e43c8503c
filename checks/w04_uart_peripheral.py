"""W04 UARTPeripheral: driven over Wishbone and over its line at the same time."""
import random
from amaranth import *
from rtlsim import Sim
from wbm import Master
from amlib.soc.uart import UARTPeripheral

MC = [("MCUp", "MCUp.cfg")]


def frame(data, bits, parity, bad_par=False):
    d = [(data >> i) & 1 for i in range(bits)]
    p = {"none": [], "mark": [1], "space": [0], "even": [sum(d) & 1], "odd": [1 - (sum(d) & 1)]}[parity]
    if bad_par:
        p = [1 - x for x in p]
    return [0] + d + p + [1]


class Line:
    """Decodes the transmitted line cycle by cycle; every bit must be stable for its whole time."""
    def __init__(self, bits, parity):
        self.bits, self.parity, self.cur, self.n = bits, parity, None, 0
        self.quiet = 0

    def step(self, o, div, drv):
        if self.cur is None:
            self.quiet += 1
            if o:
                return None
            self.cur, self.quiet, self.drv = [], 0, 1
        self.cur.append(o)
        if len(self.cur) <= (len(frame(0, self.bits, self.parity)) - 1) * div:
            self.drv &= drv
        nb = len(frame(0, self.bits, self.parity))
        if len(self.cur) == nb * div:
            b = [self.cur[i * div] for i in range(nb)]
            stable = all(self.cur[i] == b[i // div] for i in range(nb * div))
            v = sum(x << i for i, x in enumerate(b[1:1 + self.bits]))
            ok = stable and b == frame(v, self.bits, self.parity)
            self.cur = None
            return v, int(ok), self.drv
        return None


def run(bits, parity, div, txd, rxd, n, seed, pins, style, wide=0):
    r = random.Random(f"w04-{seed}")
    kw = dict(divisor=div, data_bits=bits, parity=parity, divisor_bits=8 if wide else r.choice([None, 8, 16]))
    pn = None
    if pins:
        pn = Record([("rx", [("i", 1)]), ("tx", [("o", 1)])])
        kw["pins"] = pn
    if (txd, rxd) != (16, 16):
        kw.update(tx_depth=txd, rx_depth=rxd)
    d = UARTPeripheral(**kw)
    rxs, txs = (pn.rx.i, pn.tx.o) if pins else (d.rx, d.tx)
    regs = {}
    for i in d.bus.memory_map.all_resources():
        regs.setdefault(i.name[-1], i.start // 4)
    cid = f"uart bits={bits} parity={parity} div={div} depths={txd},{rxd} pins={pins} style={style} seed={seed}"

    def reg(s):
        h = [a for k, a in regs.items() if k.endswith("_" + s)]
        return h[0] if len(h) == 1 else None
    A = {}
    for s in ("enabled", "divisor", "rx_data", "rx_rdy", "rx_err", "tx_data", "tx_rdy", "ev_status", "ev_pending", "ev_enable"):
        A[s] = reg(s)
        if A[s] is None:
            return [dict(spec="TUp", cfg={}, ev=[], id=cid, bad=f"no register {s}: {sorted(regs)}")]
    sim = Sim(d, init=[(rxs, 1)])
    ev = []
    st = dict(txw=-99, drv=0, div=div, rx=1, send=[], since=99, left=0, gap=0)
    line = Line(bits, parity)
    q = []                                # frames still to be sent to the receiver

    def tick(o):
        x = line.step(o["tx"], st["div"], o["drv"])
        st["drv"] = o["drv"]
        if x:
            ev.append(dict(k="line", v=x[0], ok=x[1], drv=x[2], race=int(sim.cycles - st["txw"] < 40)))
        if st["send"]:
            st["send"].pop(0)
            if not st["send"]:
                ev.append(st["ev"])
                st["since"] = 0
                st["gap"] = st["ev"]["gap"]
                st["rx"] = 1
        else:
            st["since"] += 1
            if st["gap"] > 0:
                st["gap"] -= 1
            elif q:
                v, fe, pe, gap = q.pop(0)
                pe = int(pe and parity != "none")
                if fe:                    # a start bit that vanishes: a frame of ones without a start bit
                    v = (1 << bits) - 1
                    st["send"] = [0] + [1] * (st["div"] * len(frame(0, bits, parity)) - 1)
                    pe = int(frame(v, bits, parity) != [0] + [1] * (len(frame(0, bits, parity)) - 1))
                else:
                    st["send"] = [x for x in frame(v, bits, parity, pe) for _ in range(st["div"])]
                st["ev"] = dict(k="rx", v=v, fe=fe, pe=pe, gap=gap, ack=1)
                st["since"] += 1
        st["rx"] = st["send"][0] if st["send"] else 1

    ms = Master(sim, d.bus, tick, dict(tx=txs, irq=d.irq, drv=d.driving), lambda: [(rxs, st["rx"])])

    def safe():
        """no frame can complete at the receiver during the next transfer, and the last one is settled"""
        while True:
            if st["send"]:
                if len(st["send"]) > st["div"] + 24 and st["since"] > 12:
                    return
                if len(st["send"]) > 1:
                    st["since"] += 1
            elif st["since"] > 12:
                if q and st["gap"] <= 14 and not (len(frame(0, bits, parity)) - 1) * st["div"] > 40:
                    pass
                else:
                    return
            ms.idle()
    rd = lambda name: ms.op(0, A[name])

    def wr(name, v):
        if name == "tx_data":
            st["txw"] = sim.cycles
        return ms.op(1, A[name], v)[0]
    m3 = lambda v: [v & 1, (v >> 1) & 1, (v >> 2) & 1]
    ev.append(dict(k="clr", v=[1, 1, 1], ack=wr("ev_pending", 7)))
    ev.append(dict(k="enable", v=1, ack=wr("enabled", 1)))
    nfr = len(frame(0, bits, parity))

    def drain():
        limit = (txd + 4) * nfr * st["div"] + 60
        line.quiet = 0
        for _ in range(limit):
            ms.idle()
            if line.quiet > 2 * nfr * st["div"] + 10:
                break
        ev.append(dict(k="drained", idle=int(line.cur is None), drv=st["drv"]))
        while q or st["send"] or st["since"] <= 12:
            ms.idle()
    for t in range(n):
        x = r.random()
        if x < .28:
            burst = r.choice([1, 1, 2, txd + 3]) if style != "rx" else 1
            for _ in range(burst):
                a, v = rd("tx_rdy")
                ev.append(dict(k="txrdy", v=v & 1, ack=a))
                if v & 1 or r.random() < .2:
                    w = r.getrandbits(bits)
                    # accepted for sure only if it was ready; a word written to a full FIFO is lost, but the FIFO may drain in between
                    if v & 1:
                        ev.append(dict(k="txw", v=w, rdy=1, ack=1))
                        ev[-1]["ack"] = wr("tx_data", w)
        elif x < .45:
            safe()
            a, v = rd("rx_rdy")
            ev.append(dict(k="rxrdy", v=v & 1, ack=a))
            if v & 1 and style != "lazy" or r.random() < .3:
                safe()
                a, v = rd("rx_data")
                ev.append(dict(k="rxr", v=v & ((1 << bits) - 1), ack=a))
        elif x < .65:
            for _ in range(r.choice([1, 1, 2, 3, rxd + 2 if style == "lazy" else 2])):
                q.append((r.getrandbits(bits), int(r.random() < .12), int(r.random() < .12), r.choice([0, 0, 0, 1, 5, 60])))
        elif x < .70:
            safe()
            a, v = rd("rx_err")
            ev.append(dict(k="rerr", v=m3(v), ack=a))
        elif x < .76:
            v = r.randrange(8)
            ev.append(dict(k="ien", v=m3(v), ack=wr("ev_enable", v)))
        elif x < .84:
            if r.random() < .6:
                drain()
            else:                             # the events, while several words are still waiting in the FIFO
                for _ in range(4):
                    a, v = rd("tx_rdy")
                    ev.append(dict(k="txrdy", v=v & 1, ack=a))
                    if v & 1:
                        w = r.getrandbits(bits)
                        ev.append(dict(k="txw", v=w, rdy=1, ack=1))
                        ev[-1]["ack"] = wr("tx_data", w)
                v = r.randrange(8)
                safe()
                ev.append(dict(k="clr", v=m3(v), ack=1))
                ev[-1]["ack"] = wr("ev_pending", v)
            safe()
            a, v = rd("ev_pending")
            o = ms.idle()
            ev.append(dict(k="pend", v=m3(v), irq=o["irq"], ack=a))
            if r.random() < .6:
                v = r.randrange(8)
                safe()
                ev.append(dict(k="clr", v=m3(v), ack=wr("ev_pending", v)))
                ms.idle(3)
        elif x < .88:
            en = r.getrandbits(1)
            ev.append(dict(k="enable", v=en, ack=wr("enabled", en)))
        elif x < .92:
            a, v = rd("divisor")
            ev.append(dict(k="rdiv", v=v, ack=a))
        elif x < .95 and div > 30:
            # while a word is being sent, within the time of one bit: another divisor and back again
            while q or st["send"] or st["since"] <= 12:
                ms.idle()
            for _ in range(2):
                w = r.getrandbits(bits)
                a, v = rd("tx_rdy")
                ev.append(dict(k="txrdy", v=v & 1, ack=a))
                if v & 1:
                    ev.append(dict(k="txw", v=w, rdy=1, ack=1))
                    ev[-1]["ack"] = wr("tx_data", w)
            for _ in range(st["div"] * nfr * 2):
                if line.cur is not None and len(line.cur) % st["div"] == 3:
                    t0 = sim.cycles
                    nd = r.choice([9, 33, 77])
                    ev.append(dict(k="div", v=nd, ack=wr("divisor", nd)))
                    a, v = rd("divisor")
                    ev.append(dict(k="rdiv", v=v, ack=a))
                    ev.append(dict(k="div", v=st["div"], ack=wr("divisor", st["div"])))
                    assert sim.cycles - t0 < st["div"] - 6, (sim.cycles - t0)
                    break
                ms.idle()
        elif x < .95 and style != "fixed":
            drain()
            nd = r.choice([5, 6, 7, div, div])
            ev.append(dict(k="div", v=nd, ack=1))
            ev[-1]["ack"] = wr("divisor", nd)
            st["div"] = nd
            ms.idle(4)
        else:
            ms.idle(r.choice([1, 5, 40, 200]))
    drain()
    safe()
    for _ in range(rxd + 1):
        a, v = rd("rx_rdy")
        ev.append(dict(k="rxrdy", v=v & 1, ack=a))
        if v & 1:
            a, v = rd("rx_data")
            ev.append(dict(k="rxr", v=v & ((1 << bits) - 1), ack=a))
    for e in ev:
        e.pop("gap", None)
    return [dict(spec="TUp", cfg=dict(div=div, txd=txd, rxd=rxd), ev=ev, id=cid)]


def jobs(tier, rng):
    P = ["none", "mark", "space", "even", "odd"]
    for i in range(32 if tier == "quick" else 300):
        dep = [(2, 2), (16, 16), (4, 2), (3, 5), (8, 4)][i % 5]
        if i % 8 == 5:
            yield "run", dict(bits=rng.choice([5, 8]), parity=P[i // 8 % 5], div=rng.choice([40, 50]), txd=dep[0], rxd=dep[1], n=80 if tier == "quick" else 200,
                              seed=rng.getrandbits(30), pins=0, style="mix", wide=1)
        yield "run", dict(bits=rng.choice([5, 7, 8, 8]), parity=P[i % 5] if i % 2 else "none", div=rng.choice([5, 6, 8, 11]), txd=dep[0], rxd=dep[1],
                          n=70 if tier == "quick" else 300, seed=rng.getrandbits(30), pins=int(i % 4 == 3), style=["mix", "lazy", "fixed", "rx"][i % 4])
