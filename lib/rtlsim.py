"""Cycle-accurate driver for Amaranth designs under test.

Uses Amaranth's own simulator engine, but drives the clocks by hand: a cycle is
"apply inputs, settle, observe every output, rising edge(s), settle".  Everything read in a cycle is
therefore what a synchronous peer in the same clock domain would sample at the coming
edge, and several clock domains can be stepped in any schedule.
"""
import warnings
warnings.filterwarnings("ignore")
from amaranth import DomainRenamer, Signal
from amaranth.hdl.ast import Value
from amaranth.sim import Simulator


# Clock domains to rename in every design that is simulated: {"sync": "elsewhere"} places the design in
# another clock domain, with no domain called "sync" being clocked at all.  Set by the framework per job.
RENAME = {}


class Sim:
    def __init__(self, dut, *, init=None):
        self.sim = Simulator(DomainRenamer(RENAME)(dut) if RENAME else dut)
        eng = self.sim._engine
        self.state = eng._state
        self._procs = eng._processes
        self.domains = dict(self.sim._fragment.domains)
        for old, new in RENAME.items():
            self.domains.pop(old, None)
            if new in self.domains:
                self.domains[old] = self.domains.pop(new)
        self._idx = {}
        # Values the inputs have from the very beginning (before the first edge).
        eng.reset()
        for sig, v in (init.items() if isinstance(init, dict) else init or ()):
            self.poke(sig, v)
        self.step()
        self.cycles = 0

    def step(self):
        commit, procs = self.state.commit, self._procs
        for _ in range(5000):
            for p in procs:
                if p.runnable:
                    p.runnable = False
                    p.run()
            if commit(None):
                return
        raise RuntimeError("the design does not settle: combinational loop")

    def slot(self, sig):
        key = id(sig)
        s = self._idx.get(key)
        if s is None:
            sig_ = sig
            if not isinstance(sig_, Signal):
                sig_ = Value.cast(sig)
            assert isinstance(sig_, Signal), sig
            s = (self.state.slots[self.state.get_signal(sig_)], sig_)
            self._idx[key] = s
            self._keep = getattr(self, "_keep", [])
            self._keep.append(sig)
        return s

    def poke(self, sig, value):
        slot, s = self.slot(sig)
        w = len(s)
        value = int(value) & ((1 << w) - 1)
        if s.signed and w and value >> (w - 1):
            value -= 1 << w
        slot.set(value)

    def peek(self, sig):
        return int(self.slot(sig)[0].curr)

    def settle(self):
        self.step()

    def edge(self, *domains):
        """One rising+falling edge of every listed clock domain, simultaneously."""
        domains = domains or ("sync",)
        clks = [self.slot(self.domains[d].clk)[0] for d in domains if d in self.domains]
        for c in clks:
            c.set(1)
        self.step()
        for c in clks:
            c.set(0)
        self.step()
        self.cycles += 1

    def rst(self, domain):
        return self.domains[domain].rst

    def cycle(self, inputs, outputs, *domains):
        """poke dict, settle, sample outputs (dict name->signal), clock.  Returns dict."""
        for sig, v in inputs:
            self.poke(sig, v)
        self.step()
        obs = {k: self.peek(s) for k, s in outputs.items()}
        self.edge(*domains)
        return obs


class Intern:
    """Wide values as small names: equality is all the specifications of data paths look at.
    Values below 2^30 stay as they are, the k-th larger one becomes 2^30 + k."""
    def __init__(self):
        self.known = {}

    def __call__(self, v):
        return v if v < 1 << 30 else self.known.setdefault(v, (1 << 30) + len(self.known))
