"""W01 WishboneRAM / WishboneROM: classic Wishbone transfers against a memory model, every lane width, every initialiser."""
import os, random, tempfile
from rtlsim import Sim
from amlib.soc.memory import WishboneRAM, WishboneROM

MC = [("MCWb", "MCWb.cfg"), ("MCWb", "MCWbR.cfg")]
MC_THOROUGH = [("MCWb", "MCWbT.cfg")]


def split(v, lanes, g):
    return [(v >> (g * i)) & ((1 << g) - 1) for i in range(lanes)]


def run(kind, aw, dw, g, init, big, n, seed):
    """init: None | ("bytes", n) | ("file", n) | ("words", n); kind: ram | romram (read_only RAM) | rom."""
    r = random.Random(f"w01-{seed}")
    lanes = dw // g
    depth = 2 ** aw // lanes
    arg, words, raw = None, [], b""
    if init:
        how, cnt = init
        if how == "words":
            vals = [r.getrandbits(dw) & 0x7fffffff for _ in range(cnt)]
            arg, words = vals, [split(v, lanes, g) for v in vals]
        else:
            raw = bytearray(r.getrandbits(8) for _ in range(cnt))
            if g == 32:                       # lane values stay below 2^31
                for i in range(len(raw)):
                    if i % 4 == (0 if big else 3):
                        raw[i] &= 0x7f
            raw = arg = bytes(raw)
    path = None
    if init and init[0] == "file":
        f = tempfile.NamedTemporaryFile(delete=False, prefix="verif_w01_")
        f.write(bytes(len(raw)) if seed % 2 else raw)
        f.close()
        path = arg = f.name
    kw = dict(addr_width=aw, data_width=dw, granularity=g)
    try:
        if kind == "rom":
            d = WishboneROM(arg, **kw)
        else:
            if big:
                kw["byteorder"] = "big"
            d = WishboneRAM(init=arg, read_only=kind == "romram", **kw)
        if path and seed % 2:                 # the file is only read when the design is elaborated
            with open(path, "wb") as f:
                f.write(raw)
        sim = Sim(d)
    finally:
        if path:
            os.unlink(path)
    b = d.bus
    cid = f"{kind} aw={aw} dw={dw} g={g} init={init} big={big} seed={seed}"
    if len(b.sel) != lanes or len(b.dat_w) != dw or len(b.adr) != aw - (lanes.bit_length() - 1):
        return [dict(spec="TWb", cfg={}, ev=[], id=cid, bad="bus has the wrong shape")]
    ev = []
    cur, held = None, False
    hot = [r.randrange(depth) for _ in range(3)]
    p_w, p_gap, p_up, order = r.choice([.2, .5, .9]), r.choice([0, .3, .7]), r.choice([.01, .05, .4]), 0
    sweep = 2 * depth + 4
    for t in range(n + sweep):
        if t == n:
            order, cur, held = 0, None, False
        if cur is None or (not held and r.random() < .5):
            if t >= n or t < sweep and seed % 3 == 0:     # read everything once, in order
                cur = [1, 1, 0, order % depth, [1] * lanes, [0] * lanes]
                held = True
                order += 1
            else:
                held = r.random() >= p_gap
                c, s = (1, 1) if held else r.choice([(0, 0), (1, 0), (0, 1)])
                cur = [c, s, int(r.random() < p_w), r.choice(hot) if r.random() < .6 else r.randrange(depth),
                       [int(r.random() < .6) for _ in range(lanes)] if r.random() < .7 else [1] * lanes,
                       split(r.getrandbits(dw), lanes, g)]
                if g == 32:
                    cur[5] = [x & 0x7fffffff for x in cur[5]]
        c, s, we, adr, sel, w = cur
        o = sim.cycle([(b.cyc, c), (b.stb, s), (b.we, we), (b.adr, adr), (b.sel, sum(x << i for i, x in enumerate(sel))),
                       (b.dat_w, sum(x << (g * i) for i, x in enumerate(w)))], dict(a=b.ack, q=b.dat_r))
        ev.append(dict(cyc=c, stb=s, we=we, adr=adr, sel=sel, w=w, ack=o["a"], r=split(o["q"], lanes, g)))
        if held and (o["a"] or r.random() < p_up):         # (at times the initiator gives up)
            cur, held = None, False
        elif not held:
            cur = None
    cfg = dict(lanes=lanes, g=g, depth=depth, ro=int(kind != "ram"), bytes=list(raw), words=words, big=int(bool(big)))
    return [dict(spec="TWb", cfg=cfg, ev=ev, id=cid)]


def jobs(tier, rng):
    shapes = [(5, 32, 8), (4, 16, 8), (3, 8, 8), (3, 16, 16), (4, 32, 16), (3, 32, 32), (6, 64, 8), (2, 32, 8)]
    n = 350 if tier == "quick" else 3000
    i = 0
    for rep in range(1 if tier == "quick" else 6):
        for aw, dw, g in shapes:
            full = 2 ** aw * g // 8
            words = 2 ** aw * g // dw
            part = rng.randrange(1, full + 1)
            for kind, init, big in [("ram", None, 0), ("ram", ("bytes", part), 0), ("ram", ("bytes", full), 1),
                                    ("ram", ("words", rng.randrange(1, words + 1)), 0), ("ram", ("file", full), 0),
                                    ("romram", ("bytes", full), 0), ("rom", ("bytes", part), 0), ("rom", ("words", words), 0),
                                    ("rom", ("file", full), 0)]:
                i += 1
                yield "run", dict(kind=kind, aw=aw, dw=dw, g=g, init=init, big=big, n=n, seed=rng.getrandbits(30))
