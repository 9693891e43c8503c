"""S02 StreamMultiplexer."""
from checks import s01_arbiter
from checks.s01_arbiter import rand

MC = [("MCMux", "MCMux.cfg")]


def jobs(tier, rng):
    return s01_arbiter.jobs(tier, rng, "mux")
