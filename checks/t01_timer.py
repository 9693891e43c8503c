"""T01 Timer."""
import random
from rtlsim import Sim
from amlib.utils import Timer

MC = [("MCTimer", "MCTimer.cfg")]
TOURS = [dict(module="MCTimerG", cfg="MCTimerG.cfg", fn="replay", kwargs=dict(restart=1, width=2)),
         dict(module="MCTimerG", cfg="MCTimerG0.cfg", fn="replay", kwargs=dict(restart=0, width=2))]


def record(width, restart, const_load, const_reload, stim, name):
    d = Timer(width=width, load=const_load, reload=const_reload, allow_restart=bool(restart))
    sim = Sim(d)
    ev = []
    for i in stim:
        pokes = [(d.start, i["start"])]
        i = dict(i)
        if const_load is None:
            pokes.append((d.load_in, i["load"]))
        else:
            i["load"] = const_load
        if const_reload is None:
            pokes.append((d.reload_in, i["reload"]))
        else:
            i["reload"] = const_reload
        o = sim.cycle(pokes, dict(done=d.done, cnt=d.counter_out))
        ev.append({**i, **o})
    return dict(spec="TTimer", cfg=dict(restart=restart), ev=ev,
                id=f"timer width={width} load={const_load} reload={const_reload} restart={restart} {name}")


def replay(restart, width, walks):
    return [record(width, restart, None, None, w, f"model behaviour {j}") for j, w in enumerate(walks)]


def run(width, restart, cl, cr, cycles, seed):
    rng = random.Random(seed)
    top = min((1 << width) - 1, 2**30)

    def val():
        return min(top, rng.choice([0, 0, 1, 2, 3, rng.randrange(40), rng.randrange(top + 1), top, 7, 8]))

    def stim():
        load, reload, ps = val(), val(), .5
        for c in range(cycles):
            if rng.random() < .02:
                load = val() if rng.random() < .7 else 0
                reload = min(val(), 60) if rng.random() < .5 else 0
                ps = rng.choice([.02, .5, 1])
            yield dict(start=int(rng.random() < ps), load=load, reload=reload)
    return [record(width, restart, cl, cr, stim(), f"seed={seed}")]


def long(width, restart, load, reload, seed):
    """Loads of any size: the cycles of a plain countdown are summed up."""
    rng = random.Random(seed)
    d = Timer(width=width, allow_restart=bool(restart))
    sim = Sim(d)
    ev, sim_t, budget = [], 0, 0

    def cyc(start):
        return sim.cycle([(d.start, start), (d.load_in, load), (d.reload_in, reload)], dict(done=d.done, cnt=d.counter_out))

    def step(start):
        o = cyc(start)
        ev.append(dict(start=start, load=load, reload=reload, **o))
        return o
    for _ in range(rng.randrange(2, 5)):
        step(0)
    o = step(1)
    t = 0
    for _ in range(3):                       # the first period, then two periods of reload
        o = step(rng.getrandbits(1))
        n = 0
        first = None
        while t < 300000:
            t += 1
            p, o = o, cyc(int(rng.random() < .01))
            if o["done"] or p["done"] or o["cnt"] != p["cnt"] - 1 or o["cnt"] < 2:
                break
            first = o["cnt"] if first is None else first
            n += 1
        else:
            n = -1
        if n < 0:
            break
        if n:
            ev.append(dict(n=n, cnt=first))
        ev.append(dict(start=0, load=load, reload=reload, **o))
        while o["cnt"] and o["cnt"] < 3 and len(ev) < 60:
            o = step(0)
        step(0)
    return [dict(spec="TTimer", cfg=dict(restart=restart), ev=ev, id=f"timer width={width} long load={load} reload={reload} restart={restart} seed={seed}")]


def jobs(tier, rng):
    cycles = 1200 if tier == "quick" else 10000
    for _ in range(1 if tier == "quick" else 6):
        for width in [1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 30]:
            for restart in (0, 1):
                yield "run", dict(width=width, restart=restart, cl=None, cr=None, cycles=cycles, seed=rng.getrandbits(30))
        for width in [rng.choice([17, 18]), rng.choice([20, 30])]:
            for restart in (rng.getrandbits(1),):
                n = rng.randrange(65000, 1 << min(width, 18))
                yield "long", dict(width=width, restart=restart, load=n, reload=rng.choice([0, rng.randrange(1, 70000)]), seed=rng.getrandbits(30))
        for cl, cr in [(1, None), (5, None), (None, 1), (None, 3), (2, 3), (3, 1), (0, 4), (4, 0), (7, 2), (13, None)]:
            yield "run", dict(width=rng.choice([4, 5, 8, 16]), restart=rng.getrandbits(1) if cr is None or cr else 1, cl=cl, cr=cr,
                              cycles=cycles, seed=rng.getrandbits(30))
