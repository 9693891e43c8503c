"""S04 ConstantStreamGenerator."""
import random
from rtlsim import Sim
from amlib.stream import StreamInterface
from amlib.stream.generator import ConstantStreamGenerator

MC = [("MCGen", "MCGen.cfg"), ("MCGen", "MCGenW.cfg")]


def limbs(x):
    return [x & 0xffff, x >> 16]


def run(data, is_bytes, width, vw, mlw, endian, domain, cycles, seed):
    rng = random.Random(seed)
    src = bytes(data) if is_bytes else list(data)
    st = None
    kw = {}
    if width != 8 or vw != 1:
        kw = dict(data_width=width, stream_type=lambda payload_width=8: StreamInterface(payload_width=payload_width, valid_width=vw))
    d = ConstantStreamGenerator(src, domain=domain, max_length_width=mlw, data_endianness=endian, **kw)
    bpw = (width + 7) // 8
    if is_bytes and width != 8:
        words = [int.from_bytes(src[i:i + bpw], endian) for i in range(0, len(src), bpw)]
        nbytes = len(src)
        lastb = len(src) % bpw or bpw
    else:
        words = list(data)
        nbytes = len(words) * bpw
        lastb = bpw
    sim = Sim(d)
    outs = dict(v=d.stream.valid, f=d.stream.first, l=d.stream.last, p=d.stream.payload, done=d.done)
    if mlw:
        outs["ol"] = d.output_length
    spw = len(d.start_position)
    ev = []
    ml, sp, pr, ps = 0, 0, 1, 1
    running = False
    for c in range(cycles):
        if c % 40 == 0:
            pr, ps = rng.choice([.1, .5, .9, 1, 1]), rng.choice([.05, .5, 1])
        if not running:
            if mlw:
                ml = min((1 << mlw) - 1, rng.choice([0, 1, 2, rng.randrange(0, nbytes + 3), nbytes, nbytes - 1, nbytes + 1, 1000]))
            sp = rng.choice([0, 0, rng.randrange(0, 1 << spw), (1 << spw) - 1, len(words) - 1])
        elif rng.random() < .3:
            # the start position is taken when starting, what happens to it later must not matter
            sp = rng.randrange(0, 1 << spw)
        sp &= (1 << spw) - 1
        start, rdy = int(rng.random() < ps), int(rng.random() < pr)
        pokes = [(d.start, start), (d.stream.ready, rdy)]
        if spw:
            pokes.append((d.start_position, sp))
        if mlw:
            pokes.append((d.max_length, ml))
        o = sim.cycle(pokes, outs, domain)
        e = dict(start=start, rdy=rdy, sp=sp, ml=ml, v=o["v"], f=o["f"], l=o["l"], p=limbs(o["p"]),
                 done=o["done"], ol=o.get("ol", 0))
        if not running:
            running = bool(start and (ml > 0 or not mlw))
        elif o["done"]:
            running = False
        ev.append(e)
    cfg = dict(words=[limbs(w) for w in words], nbytes=nbytes, bpw=bpw, vw=vw, lastb=lastb, hasmax=int(bool(mlw)))
    return [dict(spec="TGen", cfg=cfg, ev=ev,
                 id=f"constgen len={len(data)} bytes={is_bytes} width={width} vw={vw} mlw={mlw} {endian} seed={seed}")]


def jobs(tier, rng):
    cycles = 600 if tier == "quick" else 4000
    lens = [1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100]
    for _ in range(1 if tier == "quick" else 10):
        for n in lens + [rng.choice([127, 128, 129]), rng.choice([255, 256, 257, 300])]:
            for wide in (0, 1, 2):
                width = 8 if wide == 0 else rng.choice([16, 24, 32, 32])
                is_bytes = wide == 1 or (wide == 0 and rng.random() < .5)
                if wide == 2:
                    width = rng.choice([1, 4, 7, 12, 20, 32])
                bpw = (width + 7) // 8
                hasmax = wide != 2 and rng.random() < .7
                yield "run", dict(data=[rng.getrandbits(8 if is_bytes else width) for _ in range(n)], is_bytes=is_bytes,
                                  width=width, vw=(rng.choice([1, bpw]) if wide == 1 else 1),
                                  mlw=rng.choice([n.bit_length() + 1, 8, 16, n.bit_length()]) if hasmax else None,
                                  endian=rng.choice(["little", "big"]), domain=rng.choice(["sync", "usb"]),
                                  cycles=cycles + 20 * n, seed=rng.getrandbits(30))
