"""U05 I2SReceiver."""
import random
from rtlsim import Sim
from amlib.io.i2s import I2SReceiver, I2S_FORMAT
from checks.u04_i2s_tx import Wave

MC = [("MCI2S", "MCI2S0.cfg"), ("MCI2S", "MCI2S1.cfg")]


def run(w, std, depth, slots, mode, seed):
    rng = random.Random(seed)
    d = I2SReceiver(sample_width=w, frame_format=I2S_FORMAT.STANDARD if std else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=depth)
    hmin = rng.choice([6] * 11 + [15, 47])          # slow bit clocks
    slots = slots * 6 // hmin + 4
    wave = Wave(rng, w, std, hmin, hmin + 4)
    sim = Sim(d, init=[(d.word_select_in, wave.ws)])
    st = d.stream_out
    ev, sent, since, en, en_cnt, bit, armed = [], 0, 99, 0, rng.randrange(3), 0, 0
    rate = dict(full=1, some=.01, burst=.3)[mode]
    burst, wslast, tog = True, wave.ws, None
    while sent < slots:
        edge = wave.step()
        since = 0 if edge else since + 1
        to_next = wave.next_edge - wave.t
        if edge == "fall":
            bit = rng.getrandbits(1)
        if edge == "rise" and wave.ws != wslast:
            sent, wslast = sent + 1, wave.ws
            burst = rng.random() < .4 if mode == "burst" else True
        quiet = not ((wave.bck and since >= 5) or (not wave.bck and to_next >= 4))
        ready = 0 if quiet or not burst else rng.random() < rate
        sim.poke(d.serial_clock_in, wave.bck); sim.poke(d.word_select_in, wave.ws); sim.poke(d.serial_data_in, bit)
        sim.poke(st.ready, ready)
        if edge == "rise" and en:
            # 0: enabled, 1: a right channel was seen, 2..: reception has begun
            left = wave.ws ^ std
            armed = max(armed, 1) if not left else armed + (armed > 0)
        if edge and wave.bck:
            # a different moment of every bit period
            tog = rng.choice([(1, 3), (1, 4), (1, 5), (0, 0), (0, 1), (0, 2), (0, 3), (0, 4), (0, 5)])
        if (wave.bck, since) == tog:
            # (a receiver disabled before reception has begun may keep waiting for its left channel)
            en_cnt -= not en or armed > 4
            if en_cnt <= 0:
                en ^= 1
                armed = 0
                ev.append(dict(op="en", v=en))
                en_cnt = rng.randrange(2, 6) if not en else rng.choice([3, 40, 400, 10**9])
                sim.poke(d.enable_in, en)
        sim.settle()
        val = sim.peek(st.valid)
        if edge == "rise":
            ev.append(dict(op="rise", ws=wave.ws, d=bit, lev=sim.peek(d.fifo_level_out), val=val))
        if val and ready:
            p = sim.peek(st.payload)
            ev.append(dict(op="pop", f=sim.peek(st.first), l=sim.peek(st.last), b=[p >> (w - 1 - i) & 1 for i in range(w)]))
        sim.edge()
    return [dict(spec="TI2SRx", cfg=dict(std=std, w=w, depth=depth), ev=ev,
                 id=f"i2s receiver w={w} {'standard' if std else 'left justified'} depth={depth} {mode} seed={seed}")]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 8):
        for w in (24, 16, 32, 8, 17, 1, rng.choice([3, 4, 5, 7, 9, 12, 15, 31, 33, 63, 64, rng.randrange(3, 40)]), 2):
            for std in (1, 0):
                for mode in ("full", "some", "burst"):
                    yield "run", dict(w=w, std=std, depth=rng.choice([1, 2, 3, 4, 16, rng.choice([5, 8, 32])]), slots=60 if w > 8 else 120, mode=mode, seed=rng.getrandbits(30))
