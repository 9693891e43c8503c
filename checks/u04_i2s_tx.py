"""U04 I2STransmitter."""
import random
from rtlsim import Sim
from amlib.io.i2s import I2STransmitter, I2S_FORMAT

MC = [("MCI2S", "MCI2S0.cfg"), ("MCI2S", "MCI2S1.cfg")]


class Wave:
    """Bit and word clock of a codec: random half periods and channel lengths; everything changes
    on falling edges.  next() -> (t, kind) of the next edge."""
    def __init__(self, rng, w, std, hmin=6, hmax=10):
        self.rng, self.t, self.bck, self.ws = rng, 0, 0, rng.getrandbits(1)
        self.hmin, self.hmax = hmin, hmax
        self.lmin = w + std
        self.fixed = rng.choice([None, None, self.lmin, self.lmin + 1, max(32, self.lmin), rng.choice([33, 64, 65])])
        if self.fixed and self.fixed < self.lmin:
            self.fixed = self.lmin
        self.left = rng.randrange(1, self.lmin + 4)
        self.half = rng.choice([None, hmin, hmin + 1])
        self.plan()

    def plan(self):
        self.next_edge = self.t + (self.half or self.rng.randint(self.hmin, self.hmax))

    def step(self):
        """Advance one cycle; returns None, "rise" or "fall" when the pin has just changed."""
        self.t += 1
        if self.t < self.next_edge:
            return None
        self.bck ^= 1
        if not self.bck:
            self.left -= 1
            if self.left <= 0:
                self.ws ^= 1
                self.left = self.fixed or self.lmin + self.rng.choice([0, 0, 1, 2, 5])
        self.last_edge = self.t
        self.plan()
        return "rise" if self.bck else "fall"


def run(w, std, depth, slots, mode, seed):
    rng = random.Random(seed)
    d = I2STransmitter(sample_width=w, frame_format=I2S_FORMAT.STANDARD if std else I2S_FORMAT.LEFT_JUSTIFIED, fifo_depth=depth)
    hmin = rng.choice([6] * 11 + [15, 47])          # slow bit clocks
    slots = slots * 6 // hmin + 4
    wave = Wave(rng, w, std, hmin, hmin + 4)
    sim = Sim(d, init=[(d.word_select_in, wave.ws)])
    st = d.stream_in
    ev, u, m, sent, since, en, en_cnt, f, want = [], 0, 0, 0, 99, 0, rng.randrange(3), 1, rng.getrandbits(w)
    rate = dict(full=1, some=.02, rare=.004, burst=.3)[mode]
    wslast = wave.ws
    burst, tog = True, None
    while sent < slots:
        edge = wave.step()
        if edge:
            since = 0
        else:
            since += 1
        to_next = wave.next_edge - wave.t
        if edge == "rise":
            if wave.ws != wslast:
                sent, wslast = sent + 1, wave.ws
                burst = rng.random() < .5 if mode == "burst" else True
        # inputs of this cycle
        if std:
            quiet = not ((wave.bck and since >= 5) or (not wave.bck and to_next >= 4))
        else:
            quiet = not (wave.bck and since >= 1 and to_next >= 4)
        push = 0 if quiet or not burst else rng.random() < rate
        sim.poke(d.serial_clock_in, wave.bck); sim.poke(d.word_select_in, wave.ws)
        if rng.random() < .06:
            f = rng.getrandbits(1)
        want = rng.choice([want, rng.getrandbits(w), (1 << w) - 1, 1 << (w - 1), 1])
        sim.poke(st.valid, push); sim.poke(st.first, f); sim.poke(st.payload, want); sim.poke(st.last, rng.getrandbits(1))
        if edge and wave.bck:
            # a different moment of every bit period
            tog = rng.choice([(1, 3), (1, 4), (1, 5), (0, 0), (0, 1)] + [(0, 2), (0, 3), (0, 4), (0, 5)] * std + [])
        if (wave.bck, since) == tog:
            en_cnt -= 1
            if en_cnt <= 0:
                en ^= 1
                ev.append(dict(op="en", v=en))
                en_cnt = rng.randrange(2, 6) if not en else rng.choice([3, 40, 400, 10**9])
                sim.poke(d.enable_in, en)
        sim.settle()
        rdy = sim.peek(st.ready)
        if edge == "rise":
            ev.append(dict(op="rise", ws=wave.ws, d=sim.peek(d.serial_data_out), u=u, m=m, lev=sim.peek(d.fifo_level_out), rdy=rdy))
            u = m = 0
        if push and rdy:
            ev.append(dict(op="push", f=f, b=[want >> (w - 1 - i) & 1 for i in range(w)]))
            f ^= 1
        u += sim.peek(d.underflow_out); m += sim.peek(d.mismatch_out)
        sim.edge()
    return [dict(spec="TI2STx", cfg=dict(std=std, w=w, depth=depth), ev=ev,
                 id=f"i2s transmitter w={w} {'standard' if std else 'left justified'} depth={depth} {mode} seed={seed}")]


def jobs(tier, rng):
    for rep in range(1 if tier == "quick" else 8):
        for w in (24, 16, 32, 8, 17, 1, rng.choice([3, 4, 5, 7, 9, 12, 15, 31, 33, 63, 64, rng.randrange(3, 40)]), 2):
            for std in (1, 0):
                for mode in ("full", "some", "burst", "rare"):
                    yield "run", dict(w=w, std=std, depth=rng.choice([1, 2, 3, 4, 16, rng.choice([5, 8, 32])]), slots=60 if w > 8 else 120, mode=mode, seed=rng.getrandbits(30))
