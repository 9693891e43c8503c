"""A04 AsyncSerialILA with AsyncSerialILAFrontend: capture to decoded samples and VCD dump."""
import contextlib
import io
import os
import random
import re
import sys
import tempfile
import types
from amaranth import Module, ClockDomain
from amlib.debug import ila as ilamod
from rtlsim import Sim
from checks.a02_ila_spi import Capture, mksigs, lsb, accepted

MC = [("MCIlaStream", "MCIlaStreamA.cfg")]


class FakeSerial:
    """Stands in for pyserial: gives out the bytes received so far."""
    data = b""

    def __init__(self, *args, **kw):
        pass

    def reset_input_buffer(self):
        pass

    def read(self, n=1):
        d, FakeSerial.data = FakeSerial.data[:n], FakeSerial.data[n:]
        return d


def uart_decode(line, div):
    """Bytes of an 8n1 line, sampled in the middle of the bits; None when a frame is broken."""
    out, i = bytearray(), 0
    while i < len(line):
        if line[i] == 1:
            i += 1
            continue
        mid = [i + div * k + div // 2 for k in range(10)]
        if mid[-1] >= len(line):
            return None
        b = [line[m] for m in mid]
        if b[0] != 0 or b[9] != 1:
            return None
        out.append(sum(x << k for k, x in enumerate(b[1:9])))
        i = mid[-1]
    return bytes(out)


def vcd_parse(text):
    """{name: [(time, value), ...]} of all changes, and the scale."""
    names, changes, t = {}, {}, 0
    scale = re.search(r"\$timescale\s+(.*?)\s+\$end", text, re.S)[1].replace(" ", "")
    for m in re.finditer(r"\$var\s+\w+\s+\d+\s+(\S+)\s+(\S+)\s*(?:\[\S+\]\s*)?\$end", text):
        names[m[1]] = m[2]
    body = text[text.index("$enddefinitions"):]
    for tok in re.finditer(r"^#(\d+)|^b([01xz]+) (\S+)|^([01xz])(\S+)", body, re.M):
        if tok[1] is not None:
            t = int(tok[1])
        else:
            v, k = (tok[2], tok[3]) if tok[2] is not None else (tok[4], tok[5])
            if k in names:
                changes.setdefault(names[k], []).append((t, int(v, 2) if set(v) <= {"0", "1"} else None))
    return changes, scale


def at(changes, t):
    v = None
    for u, x in changes:
        if u <= t:
            v = x
    return v


RATES = [(100e6, 10, 1), (60e6, 50, 3), (12e6, 250, 3), (50e6, 20, 1), (25e6, 40, 1), (125e6, 8, 1), (1e6, 1000, 1), (30e6, 100, 3)]


def run(p, depth, en, widths, div, dom, rate, rounds, pickled, clock, seed):
    rng = random.Random(seed)
    sys.modules["serial"] = types.SimpleNamespace(Serial=FakeSerial)
    sigs = mksigs(widths)
    hz, pn, pd = rate
    dut = ilamod.AsyncSerialILA(signals=sigs, sample_depth=depth, divisor=div, samples_pretrigger=p, with_enable=en,
                                sample_rate=hz, domain=dom)
    top = Module()
    if dom != "sync":
        setattr(top.domains, dom, ClockDomain(dom, reset_less=False))
    top.submodules.dut = dut
    sim = Sim(top)
    line = []
    drv = Capture(dut, sim, sigs, en, rng)

    def cycle(en1, trig, free=0):
        inp, v = drv.stim(en1, trig)
        o = sim.cycle(inp, dict(drv.OUT, tx=dut.tx), dom)
        line.append(o.pop("tx"))
        return {"op": "cyc", "in": v, "en": en1, "trig": trig, "free": free, **o}

    ev, ws = [], [abs(w) for w in widths]
    nbytes = max(1, (1 << (sum(ws) - 1).bit_length()) // 8) * depth
    with tempfile.TemporaryDirectory() as tmp, contextlib.redirect_stdout(io.StringIO()):
        target = dut
        if pickled:
            f = os.path.join(tmp, "ila.P")
            ilamod.ILACoreParameters(dut).pickle(f)
            target = ilamod.ILACoreParameters.unpickle(f)
            keys = ["sample_width", "sample_depth", "sample_rate", "sample_period", "bits_per_sample", "bytes_per_sample"]
            same = all(getattr(target, k) == getattr(dut, k) for k in keys) and \
                [(s.name, len(s), s.signed) for s in target.signals] == [(s.name, len(s), s.signed) for s in sigs]
            ev.append(dict(op="params", same=int(same)))
        front = ilamod.AsyncSerialILAFrontend("/dev/none", ila=target)
        for _ in range(rounds):
            ev += [cycle(1, 0) for _ in range(2 * p + 8 + rng.randrange(6))]
            del line[:]
            ev.append(cycle(int(rng.random() < .8), 1, 1))
            ep, n, done = rng.choice([.3, .7, 1]), 0, 0
            while n < 60 * (depth + p + 8) and not done:
                ev.append(cycle(int(rng.random() < ep), int(rng.random() < .1 and not sim.peek(dut.complete))))
                n, done = n + 1, ev[-1]["complete"]
            # sending: triggers are ignored
            busy = (nbytes - 3 * nbytes // depth) * 10 * div        # the UART takes the last words early
            for k in range(nbytes * (10 * div + 8) + 40):
                e = cycle(int(rng.random() < ep), int(k < busy and rng.random() < .05))
                if e["trig"] or k % 50 == 0 or e["capturing"] or not e["complete"]:
                    ev.append(e)
                else:
                    ev.append(e) if k < 3 else None
            data = uart_decode(line, div)
            if data is None:
                return [dict(bad="the serial line carries whole frames", detail=f"seed={seed}", spec="TIlaUart", id="uart", cfg={}, ev=[])]
            FakeSerial.data = data
            how = rng.random()
            if how < .4:
                front.refresh()
                samples = front.samples
            else:
                front.samples = None
                samples = [s for _, s in front.enumerate_samples()]
            ev.append(dict(op="read", samples=[[[int(b) for b in s[sig.name]] for sig in sigs] for s in samples]))
            f = os.path.join(tmp, "t.vcd")
            how, g = rng.randrange(3), os.path.join(tmp, "t.gtkw")
            if how < 2:
                front.emit_vcd(f, gtkw_filename=g if how else None, add_clock=clock)
            else:
                # the viewer is only given the files
                def viewer(cmd, **kw):
                    names = [x for x in cmd if os.path.exists(x)]
                    for x in names:
                        with open(x) as i, open(f if x.endswith(".vcd") else g, "w") as o:
                            o.write(i.read().replace(x.replace(".gtkw", ".vcd"), f))
                    return types.SimpleNamespace(returncode=0)
                real, ilamod.subprocess = ilamod.subprocess, types.SimpleNamespace(run=viewer)
                try:
                    front.interactive_display(add_clock=clock)
                finally:
                    ilamod.subprocess = real
            if how:
                with open(g) as i:
                    lines = i.read().split("\n")
                want = (["ila.ila_clock"] if clock else []) + ["ila." + s.name for s in sigs]
                ev.append(dict(op="view", names=[want.index(x) + 1 if x in want else 0 for x in lines if x.startswith("ila.")], n=len(want)))
            ch, scale = vcd_parse(open(f).read())
            if scale != "1ns":
                return [dict(bad="VCD time scale", detail=scale, spec="TIlaUart", id="uart", cfg={}, ev=[])]
            times = [round(k * pn / pd) for k in range(depth)]
            for k, t in enumerate(times):
                vals = [at(ch.get(s.name, []), t) for s in sigs]
                ev.append(dict(op="vcd", k=k, t=t, vals=[lsb(v, w) if v is not None else [2] for v, w in zip(vals, ws)]))
                if k:        # not earlier either: just before, the sample before still holds
                    vals = [at(ch.get(s.name, []), t - 1) for s in sigs]
                    ev.append(dict(op="before", k=k - 1, vals=[lsb(v, w) if v is not None else [2] for v, w in zip(vals, ws)]))
            seen = sorted({t for s in sigs for t, _ in ch.get(s.name, [])})
            ev.append(dict(op="changes", only=int(set(seen) <= set(times))))
            if clock and depth > 1:
                ck = [(t, v) for t, v in ch.get("ila_clock", [])]
                for h, (t, lv) in enumerate(ck):
                    ev.append(dict(op="clk", h=h, t=t, lv=lv))
                ev.append(dict(op="clks", n=len(ck)))
    return [dict(spec="TIlaUart", id=f"uart pre={p} depth={depth} enable={en} widths={widths} div={div} {dom} rate={hz} pickled={pickled} clock={clock} seed={seed}",
                 cfg=dict(p=p, depth=depth, en=en, ws=ws, pn=pn, pd=pd), ev=accepted(ev))]


def jobs(tier, rng):
    k = 6 if tier == "thorough" else 1
    for _ in range(k):
        for widths in ([1], [8], [9], [3, -5], [1, 1, -8], [1, -1, 1], [16, -4], [30, 2], [12, 12, 12], [40, 20, -4], [5, -1, 3], [20, -1]):
            yield "run", dict(p=rng.choice([0, 1, 2, 3, 5]), depth=rng.choice([1, 2, 3, 7, 8, 12]), en=bool(rng.getrandbits(1)), widths=widths,
                              div=rng.choice([4, 5, 7, 10]), dom=rng.choice(["sync", "cap"]), rate=rng.choice(RATES), rounds=rng.choice([1, 2]),
                              pickled=bool(rng.getrandbits(1)), clock=bool(rng.getrandbits(1)), seed=rng.randrange(10**6))
        yield "run", dict(p=rng.choice([0, 1, 9, 17]), depth=rng.choice([64, 65, 100]), en=bool(rng.getrandbits(1)), widths=[5, -2], div=4,
                          dom="sync", rate=rng.choice(RATES), rounds=1, pickled=bool(rng.getrandbits(1)), clock=False, seed=rng.randrange(10**6))
        for r in RATES:
            yield "run", dict(p=0, depth=rng.choice([32, 60]), en=False, widths=[3, -2], div=4, dom="sync", rate=r, rounds=1,
                              pickled=False, clock=bool(rng.getrandbits(1)), seed=rng.randrange(10**6))
