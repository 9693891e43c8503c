"""L01 WS2812."""
import contextlib, io, random
from rtlsim import Sim
from amlib.io.ws2812 import WS2812

MC = [("MCWs", "MCWs.cfg")]


def run(freq, n, rounds, mode, seed):
    rng = random.Random(seed)
    with contextlib.redirect_stdout(io.StringIO()):
        d = WS2812(sys_clock_freq=freq, no_leds=n)
        sim = Sim(d)
    per = int(freq // 800e3)
    cfg = dict(n=n, h0=int(.32 * per), h1=int(.64 * per), per=per, rst=int(freq * 50e-6), lat=3)
    ev, lev, ln, done, t, idle, drop = [], 1, 0, 0, 0, 0, rng.randrange(3, 60)
    limit = rounds * ((24 * n + 4) * (per + 1) + 3 * cfg["rst"] + 300) + 2000
    storm = (0, 0)
    special = [0, 0xffffff, 0x800001, 0x7ffffe]
    while done < rounds and t < limit:
        start = 0
        if ev and ev[-1]["op"] == "start" and mode != "hold":
            start = rng.random() < .01
        elif mode == "hold" or (drop == 0 and not idle):
            start = 1
        elif rng.random() < .001:
            start = 1                      # also while sending: ignored
        drop = max(0, drop - 1)
        if mode == "burst":
            # short storms of writes, so that what was written last lasts
            if t >= storm[1]:
                storm = (t + rng.randrange(2 * (24 * n * per + 2 * cfg["rst"])), 0)
                storm = (storm[0], storm[0] + rng.choice([3, per // 2, per, 2 * per]))
            dens = .8 if storm[0] <= t else 0
        else:
            dens = 0
        wr = rng.random() < dens or rng.random() < dict(burst=0, few=.002, many=.05, hold=.01)[mode] or (done == 0 and t < 3 * n and t % 3 == 1)
        a = t // 3 % n if t < 3 * n else rng.randrange(n)
        r, g, b = (rng.getrandbits(8) for _ in "rgb")
        if rng.random() < .1:
            v = rng.choice(special)
            g, r, b = v >> 16, v >> 8 & 255, v & 255
        sim.poke(d.red_in, r); sim.poke(d.green_in, g); sim.poke(d.blue_in, b)
        sim.poke(d.led_address_in, a); sim.poke(d.write_enable_in, wr); sim.poke(d.start_in, start)
        sim.settle()
        l = sim.peek(d.data_out)
        if l != lev:
            ev.append(dict(op="up" if l else "down", len=ln, t=t))
            lev, ln = l, 0
        ln += 1
        if wr:
            v = g << 16 | r << 8 | b
            ev.append(dict(op="write", a=a, t=t, v=[v >> (23 - i) & 1 for i in range(24)]))
        if sim.peek(d.done_out):
            ev.append(dict(op="done", len=ln))
            done, drop, idle = done + 1, rng.choice([0, 1, 2, 10, 100]), 0
        elif start:
            ev.append(dict(op="start"))
            idle = 1
        elif not idle:
            ev.append(dict(op="idle")) if drop == 3 else None
        sim.edge()
        t += 1
    tr = dict(spec="TWs", cfg=cfg, ev=ev, id=f"ws2812 freq={freq} n={n} {mode} seed={seed}")
    if done < rounds:
        tr["bad"] = "done is not strobed after all LEDs were sent"
    return [tr]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 6):
        for freq, n in [(8e6, 3), (8e6, 1), (10e6, 2), (12e6, 4), (16e6, 5), (25e6, 2), (50e6, 3), (48e6, 1), (8e6, 8), (20e6, 7), (9e6, 16), (100e6, 2)]:
            for mode in ("few", "many", "hold"):
                yield "run", dict(freq=freq, n=n, rounds=3, mode=mode, seed=rng.getrandbits(30))
        for n in (1, 2, 3):
            yield "run", dict(freq=8e6, n=n, rounds=25, mode="burst", seed=rng.getrandbits(30))
        # long strips, fast clocks
        yield "run", dict(freq=8e6, n=rng.choice([31, 32, 33, 60, 64, 65, 100, 128, 129, 144]), rounds=2, mode=rng.choice(["few", "many", "hold"]), seed=rng.getrandbits(30))
        yield "run", dict(freq=rng.choice([60e6, 120e6, 200e6, 33.333e6]), n=1, rounds=2, mode=rng.choice(["few", "many", "hold"]), seed=rng.getrandbits(30))
