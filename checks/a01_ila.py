"""A01 logic analyzer core."""
import random
from amaranth import Signal
from amlib.debug.ila import IntegratedLogicAnalyzer
from rtlsim import Sim, Intern

MC = [("MCIla", f"MCIla{k}.cfg") for k in "ABCDEF"]
MC_THOROUGH = [("MCIla", f"MCIla{k}.cfg") for k in "TUV"]


def run(p, depth, en, widths, n, seed, early):
    rng = random.Random(seed)
    sigs = [Signal(abs(w) if w > 0 else __import__("amaranth").signed(-w), name=f"s{i}") for i, w in enumerate(widths)]
    total = sum(abs(w) for w in widths)
    dut = IntegratedLogicAnalyzer(signals=sigs, sample_depth=depth, samples_pretrigger=p, with_enable=en)
    sim = Sim(dut)
    ev, name = [], Intern()
    trig_p, en_p, hold = .05, .5, 0
    for t in range(n):
        if t % 50 == 0:
            trig_p, en_p = rng.choice([.02, .1, .5]), rng.choice([.1, .3, .6, .9, 1])
        v = rng.getrandbits(total)
        if rng.random() < .2:
            v = rng.choice([0, (1 << total) - 1])
        parts, q = [], v
        for w, s in zip(widths, sigs):
            parts.append((s, q & ((1 << abs(w)) - 1)))
            q >>= abs(w)
        warm = t < p + 8 and not early
        trig = 0 if warm else int(rng.random() < trig_p and (hold <= 0 or rng.random() < .1))
        if trig:
            hold = depth + rng.choice([0, depth, 3 * depth])
        hold -= 1
        e = int(rng.random() < en_p)
        a = rng.randrange(depth)
        inp = parts + [(dut.trigger, trig), (dut.captured_sample_number, a)] + ([(dut.enable, e)] if en else [])
        o = sim.cycle(inp, dict(complete=dut.complete, capturing=dut.capturing, sampling=dut.sampling, data=dut.captured_sample))
        o["data"] = name(o["data"])
        ev.append({"in": name(v), "en": e, "trig": trig, "addr": a, **o})
    return [dict(spec="TIla", id=f"pre={p} depth={depth} enable={en} widths={widths} seed={seed} early={early}",
                 cfg=dict(p=p, depth=depth, en=en), ev=ev)]


def jobs(tier, rng):
    k = 5 if tier == "thorough" else 1
    for p in (0, 1, 2, 3, 4, 5, 8, 13):
        for en in (False, True):
            depth = rng.choice([max(p, 1), p + 1, p + 3, 16, 20])
            for early in (False, True):
                yield "run", dict(p=p, depth=max(depth, 2), en=en, widths=[1, 9, -7], n=700 * k, seed=rng.randrange(10**6), early=early)
    # deep memories, wide samples
    for depth, p, widths in [(rng.choice([63, 64, 65]), rng.choice([0, 2, 16, 31]), [31, 2]), (rng.choice([127, 128, 129]), rng.choice([1, 3, 17, 33, 64]), [rng.choice([32, 64, 65])]),
                             (rng.choice([255, 256, 257]), rng.choice([0, 4, 100]), [8, -32, 1])]:
        yield "run", dict(p=p, depth=depth, en=bool(rng.getrandbits(1)), widths=widths, n=(12 * depth + 4 * p) * k, seed=rng.randrange(10**6), early=False)
    for _ in range(12 * k):
        p = rng.randrange(0, 10)
        yield "run", dict(p=p, depth=rng.randrange(1, 34), en=bool(rng.getrandbits(1)), widths=[rng.choice([1, 3, -4, 8, 10])
                          for _ in range(rng.randrange(1, 4))], n=600 * k, seed=rng.randrange(10**6), early=bool(rng.getrandbits(1)))
