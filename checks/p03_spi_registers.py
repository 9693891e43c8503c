"""P03 SPIRegisterInterface."""
import random
from amaranth import Signal, Const
from rtlsim import Sim
from amlib.io.spi import SPIRegisterInterface
from checks.p02_spi_command import Host, plan, bits

MC = [("MCSpiReg", "MCSpiReg.cfg")]


def run(n, w, half, count, auto, seed):
    rng = random.Random(seed)
    default = rng.choice([0, (1 << w) - 1, rng.getrandbits(w)])
    d = SPIRegisterInterface(address_size=n, register_size=w, default_read_value=default, support_size_autonegotiation=auto)
    regs, sigs = [], []            # specification side, signals (read input, value, write strobe, read strobe, written value)
    space = list(range(1 if auto else 0, 1 << n)) if n < 12 else rng.sample(range(1, 1 << n), 40)
    rng.shuffle(space)
    if auto:
        regs.append(dict(a=bits(0, n), kind="const", size=w, val=[1] * w))
        sigs.append({})
    for a in space[:rng.randrange(2, 9)]:
        kind = rng.choice(["mem", "mem", "mem", "sig", "in", "const", "wo", "rw"])
        size, s = w, {}
        ws, rs = Signal(name=f"ws{a}"), Signal(name=f"rs{a}")
        if kind in ("mem", "sig"):
            size = rng.choice([w, w, rng.randrange(1, w + 1)])
            reset = rng.getrandbits(size)
            kw = dict(write_strobe=ws) if rng.random() < .6 else {}
            if rng.random() < .6:
                kw["read_strobe"] = rs
            if kind == "mem":
                if rng.random() < .3:
                    size = w
                    reset = 0
                else:
                    kw.update(size=size, reset=reset)
                s["val"] = d.add_register(a, **kw)
            else:
                s["val"] = Signal(size, reset=reset)
                assert d.add_register(a, value_signal=s["val"], **kw) is s["val"]
            s["ws"], s["rs"] = kw.get("write_strobe"), kw.get("read_strobe")
            regs.append(dict(a=bits(a, n), kind="mem", size=size, val=bits(reset, size)))
        elif kind == "const":
            v = rng.getrandbits(w)
            s["rs"] = rs
            d.add_read_only_register(a, read=v, read_strobe=rs)
            regs.append(dict(a=bits(a, n), kind="const", size=w, val=bits(v, w)))
        elif kind in ("in", "rw"):
            size = rng.choice([w, rng.randrange(1, w + 1)])
            s["in"] = Signal(size)
            s["rs"] = rs
            if kind == "in":
                d.add_read_only_register(a, read=s["in"], read_strobe=rs)
            else:
                s["wv"], s["ws"] = Signal(size), ws
                d.add_sfr(a, read=s["in"], read_strobe=rs, write_signal=s["wv"], write_strobe=ws)
            regs.append(dict(a=bits(a, n), kind="in", size=size, val=[]))
        else:
            s["wv"], s["ws"] = Signal(w), ws
            d.add_sfr(a, write_signal=s["wv"], write_strobe=ws)
            regs.append(dict(a=bits(a, n), kind="wo", size=w, val=[]))
        sigs.append(s)
    used = [r["a"] for r in regs]
    bad = None
    for a, exc in ((int("".join(map(str, used[-1])), 2), ValueError), (1 << n, AssertionError)):
        try:
            d.add_sfr(a, read=Const(0))
            bad = "an occupied or impossible register address was accepted"
        except exc:
            pass
    sim = Sim(d)
    R = range(len(regs))
    acc = {}

    def watch():
        for k in R:
            for key, nm in (("ws", "wsx"), ("rs", "rs")):
                if sigs[k].get(key) is not None:
                    acc[nm][k] += sim.peek(sigs[k][key])
            if sigs[k].get("wv") is not None and sim.peek(sigs[k]["ws"]):
                acc["wv"][k] = bits(sim.peek(sigs[k]["wv"]), regs[k]["size"])
    h = Host(sim, d.spi, half, rng, watch)
    ev = []

    def op(o, m):
        acc.update(wsx=[0 if sigs[k].get("ws") is not None else -1 for k in R],
                   rs=[0 if sigs[k].get("rs") is not None else -1 for k in R], wv=[[] for _ in R])
        inp = [[] for _ in R]
        for k in R:
            if "in" in sigs[k]:
                v = rng.getrandbits(regs[k]["size"])
                sim.poke(sigs[k]["in"], v)
                inp[k] = bits(v, regs[k]["size"])
        sdo = h.do(o, m)
        val = [bits(sim.peek(sigs[k]["val"]), regs[k]["size"]) if "val" in sigs[k] else [] for k in R]
        ev.append(dict(op=o, m=m, sdo=sdo, ws=[], inp=inp, val=val, idle=sim.peek(d.idle), stall=sim.peek(d.stalled),
                       **{k: list(v) for k, v in acc.items()}))

    def addr():
        wr = rng.getrandbits(1)
        if rng.random() < .8:
            a = rng.choice(used)
            a = int("".join(map(str, a)), 2)
            if rng.random() < .1:
                a ^= 1 << rng.randrange(n)
        else:
            a = rng.getrandbits(n)
        return wr << n | a
    op("des", 0)
    for o, m in plan(rng, n + 1, w, count, addr):
        op(o, m)
    return [dict(bad and dict(bad=bad) or {}, spec="TSpiReg", cfg=dict(n=n + 1, w=w, **{"def": bits(default, w)}, regs=regs), ev=ev,
                 id=f"registers n={n} w={w} half={half} auto={auto} seed={seed}")]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 12):
        for n in [2, 3, 7, 15]:
            for w in [1, 5, 8, 16, 32]:
                for auto in (True, False):
                    yield "run", dict(n=n, w=w, half=rng.choice([4, 5, 8]), count=14, auto=auto, seed=rng.getrandbits(30))
