"""D08 fixed point FFT."""
import math, random
from amlib.dsp.fixedpointfft import FixedPointFFT
from dspkit import *

MC = [("MCFft", "MCFft4.cfg"), ("MCFft", "MCFft8.cfg")]


def signal(rng, w, n, limit):
    """Complex samples of a modulus below limit: a bin of larger ones need not
    be a sample of the output width."""
    def inside(r, i):
        m = math.hypot(r, i)
        return (r, i) if m < limit - 3 else (int(r * (limit - 4) / m), int(i * (limit - 4) / m))
    return [inside(r, i) for r, i in corners(rng, w, n, limit)]


def corners(rng, w, n, limit):
    """Tones, impulses, constants, noise: complex, each part within +-limit."""
    a = limit - 1
    k = rng.randrange(6)
    if k == 0:
        f, p = rng.randrange(n), rng.random() * 6
        return [(int(a * math.cos(2 * math.pi * f * i / n + p)), int(a * math.sin(2 * math.pi * f * i / n + p))) for i in range(n)]
    if k == 1:
        j = rng.randrange(n)
        return [(a, -a) if i == j else (0, 0) for i in range(n)]
    if k == 2:
        return [(rng.choice([a, -a - 1]), rng.choice([a, -a - 1])) for _ in range(n)]
    if k == 3:
        f = rng.uniform(0, n / 2)
        return [(int(a * math.cos(2 * math.pi * f * i / n)), 0) for i in range(n)]
    if k == 5:
        return [rng.choice([(a, 0), (-a, 0), (0, a), (0, -a)]) for _ in range(n)]
    return [(rng.randint(-a - 1, a), rng.randint(-a - 1, a)) for _ in range(n)]


def window(rng, w, n):
    one = 1 << (w - 1)
    k = rng.randrange(4)
    if k == 0:
        return [(one, 0)] * n, False
    if k == 1:
        # not -one: its product with the lowest sample is +one, which is no sample
        return [(rng.randint(-one + 1, one), 0) for _ in range(n)], False
    if k == 2:
        return [(int(one * (.5 - .5 * math.cos(2 * math.pi * i / n))), 0) for i in range(n)], False
    return [(rng.randint(-one, one), rng.randint(-one, one)) for _ in range(n)], True


def run(w, n, frames, seed):
    rng = random.Random(seed)
    dut = FixedPointFFT(bitwidth=w, pts=n, verbose=False)
    lg = n.bit_length() - 1
    ts = min(12, 29 - w - lg)
    sim = Sim(dut)
    ev = []
    st = dict(done=1)
    tid = f"bitwidth={w} pts={n} seed={seed}"
    one = 1 << (w - 1)
    w0 = [int((0.35875 - 0.48829 * math.cos(k * 2 * math.pi / n) + 0.14128 * math.cos(k * 4 * math.pi / n)
               - 0.01168 * math.cos(k * 6 * math.pi / n)) * one) for k in range(n)]

    def cyc(count=1, **pokes):
        for _ in range(count):
            r = sim.cycle([(getattr(dut, k), v) for k, v in pokes.items()],
                          dict(so=dut.strobe_out, r=dut.out_real, i=dut.out_imag, done=dut.done))
            if r["so"]:
                ev.append(dict(k="out", r=r["r"], i=r["i"], done=r["done"]))
            if r["done"] and not st["done"]:
                ev.append(dict(k="done"))
            st["done"] = r["done"]
        return r

    def junk():
        return {k: rng.randrange(-one, one) for k in ("in_i", "in_q", "wf_real", "wf_imag")}

    def busy(*names):
        """Requests that a block which is busy has no use for."""
        return dict(junk(), **{k: int(rng.random() < .2) for k in names})

    def wait(limit):
        outs = 0
        for j in range(limit):
            # the strobes and starts are those of an impatient user, but long before the end
            names = ("start", "wf_start", "strobe_in", "wf_strobe")
            r = cyc(**(busy(*names) if 4 < j < n or 0 < outs < n else dict(junk(), **{k: 0 for k in names})))
            outs += r["so"]
            if r["done"]:
                return True
        return False

    bad = None
    cplx = False
    limit_cycles = n * lg * 40 + 40 * n + 200
    for fr in range(frames):
        for _ in range(rng.choice([0, 1, 5])):
            r = cyc(**junk())
            ev.append(dict(k="idle", done=r["done"], so=r["so"]))
        if rng.random() < .5:
            win, cplx = window(rng, w, n)
            ev.append(dict(k="wstart"))
            cyc(wf_start=1)
            cyc(wf_start=0, **junk())
            cyc(2 + rng.choice([1, 1, 4]), **junk())
            for r, i in win:
                x = cyc(wf_real=r, wf_imag=i, wf_strobe=1)
                ev.append(dict(k="w", r=r, i=i, done=x["done"]))
                cyc(wf_strobe=0, **busy("start", "strobe_in", "wf_start"))
                cyc(2 + rng.choice([1, 1, 1, 3]), start=0, strobe_in=0, wf_start=0, **junk())
            if not wait(limit_cycles):
                bad = "loading the window does not end"
                break
        ev.append(dict(k="start"))
        cyc(start=1)
        cyc(start=0, **junk())
        cyc(2 + rng.choice([1, 1, 4]), **junk())
        for r, i in signal(rng, w, n, one // 2 - 1 if cplx else one):
            x = cyc(in_i=r, in_q=i, strobe_in=1)
            ev.append(dict(k="in", r=r, i=i, done=x["done"]))
            cyc(strobe_in=0, **busy("start", "wf_strobe", "wf_start"))
            cyc(2 + rng.choice([1, 1, 1, 3]), start=0, wf_strobe=0, wf_start=0, **junk())
        if not wait(limit_cycles):
            bad = "the transform does not end"
            break
    t = dict(spec="TFft", id=tid, cfg=dict(
        n=n, w=w, ts=ts, tol=4 + lg, w0=w0,
        ct=[round(math.cos(2 * math.pi * k / n) * (1 << ts)) for k in range(n)],
        st=[round(math.sin(2 * math.pi * k / n) * (1 << ts)) for k in range(n)]), ev=ev)
    if bad:
        t["bad"] = bad
    return [t]


def jobs(tier, rng):
    k = 5 if tier == "thorough" else 1
    for w, n, fr in ((8, 4, 24), (12, 4, 24), (10, 8, 16), (12, 8, 16), (12, 16, 8), (9, 16, 8), (12, 32, 5), (11, 64, 3)):
        for _ in range(2 * k):
            yield "run", dict(w=w, n=n, frames=fr, seed=rng.randrange(10**6))
    yield "run", dict(w=rng.choice([8, 10, 12]), n=128, frames=1, seed=rng.randrange(10**6))
    if k > 1:
        yield "run", dict(w=10, n=128, frames=4, seed=rng.randrange(10**6))
        yield "run", dict(w=10, n=256, frames=3, seed=rng.randrange(10**6))
