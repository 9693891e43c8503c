"""T02 Debouncer."""
import random
from rtlsim import Sim
from amlib.io.debouncer import Debouncer

MC = [("MCDebounce", "MCDebounce.cfg")]
MAX = 2**15 - 1


def run(plan, seed):
    """plan: list of (level, cycles); recorded per cycle around every change of any signal, run-length
    encoded in between."""
    d = Debouncer()
    sim = Sim(d)
    outs = dict(st=d.btn_state_out, dn=d.btn_down_out, up=d.btn_up_out)
    ev, key, since = [], None, 0
    for b, n in plan:
        for _ in range(n):
            o = sim.cycle([(d.btn_in, b)], outs)
            k = (b, o["st"], o["dn"], o["up"])
            since = since + 1 if k == key else 0
            key = k
            if since > 6 and ev[-1]["n"] >= 1 and not (o["dn"] or o["up"]):
                if ev[-1]["n"] == 1 and since == 7:
                    ev.append(dict(b=b, n=1, **o))
                else:
                    ev[-1]["n"] += 1
            else:
                ev.append(dict(b=b, n=1, **o))
    return [dict(spec="TDebounce", cfg=dict(max=MAX), ev=ev, id=f"debounce seed={seed} stretches={len(plan)}")]


def jobs(tier, rng):
    for i in range(14 if tier == "quick" else 100):
        r = random.Random(rng.getrandbits(30))
        plan, total, level = [], 0, r.getrandbits(1)
        near = [MAX, MAX + 1, MAX + 2, MAX + 3, MAX - 1, MAX + 4, MAX + 20]
        while total < 260000:
            n = r.choice([1, 1, 2, 3, r.randrange(1, 200), r.randrange(200, 33000), 16384, 16383, 20000] + near)
            if r.random() < .5:
                n = r.choice(near)
            plan.append((level, n))
            total += n
            level ^= 1
        yield "run", dict(plan=plan, seed=rng.getrandbits(30))
