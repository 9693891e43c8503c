"""Runner shared by all checks: model checking, driving the gateware, trace validation, verdict."""
import concurrent.futures as cf
import importlib, json, os, random, re, shutil, signal, sys, tempfile, time, traceback, zlib
import tlc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "known_findings.json")
INDEX = {}          # property id -> check module


def check_modules():
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if re.fullmatch(r"[a-z]\d\d_\w+\.py", f):
            INDEX[f[:3].upper()] = "checks." + f[:-3]
    return INDEX


class JobTimeout(Exception):
    pass


def _alarm(*_):
    raise JobTimeout("the simulation did not come to an end")


def run_job(modname, fn, kwargs, limit=500):
    """Runs in a worker process.  Returns (traces, error) - an exception raised while building or
    simulating the design under test is an observation about the design, not a harness failure."""
    try:
        mod = importlib.import_module(modname)
    except Exception:
        return [], "importing the code under test failed:\n" + traceback.format_exc()
    if sys.modules.get("rtlsim"):
        # One job in four places the design in a clock domain that is not called "sync".
        elsewhere = zlib.crc32(repr((fn, sorted(kwargs.items()))).encode()) % int(os.environ.get("AMLIB_RENAME", 4)) == 0
        sys.modules["rtlsim"].RENAME = {"sync": "elsewhere"} if elsewhere else {}
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, limit)     # processor time: a busy machine is no hang
    signal.alarm(3 * limit)
    try:
        traces = getattr(mod, fn)(**kwargs)
        return traces, None
    except tlc.TLCError:
        raise
    except BaseException:
        return [], traceback.format_exc()
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.alarm(0)


def load_known():
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            return json.load(f)
    return []


class Run:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.rng = random.Random(f"{seed}-{pid}-{tier}")
        self.scratch = tempfile.mkdtemp(prefix=f"verif_{pid}_")
        os.environ["AMLIB_SCRATCH"] = self.scratch
        self.states = self.transitions = 0
        self.cov = {}
        self.violations = []      # (clause, job, trace, detail)
        self.known_hits = []
        self.ntraces = 0
        self.nevents = 0
        self.samples = []
        self.t0 = time.time()

    # ---- phases -------------------------------------------------------------------------
    def model_check(self, mod):
        jobs = list(getattr(mod, "MC", []))
        if self.tier == "thorough":
            jobs += list(getattr(mod, "MC_THOROUGH", []))
        res = []
        with cf.ThreadPoolExecutor(4) as ex:
            futs = [ex.submit(tlc.model_check, m, c, self.scratch, False,
                              2400 if self.tier == "thorough" else 600, (), None, 2) for m, c in jobs]
            for f in futs:
                res.append(f.result())
        for r in res:
            self.states += r["states"]
            self.transitions += r["transitions"]
        self.cov["models"] = res

    def tour_jobs(self, mod):
        """Input sequences covering every transition of a TLC state graph -> jobs."""
        out = []
        tours = list(getattr(mod, "TOURS", []))
        cov = []
        for t in tours:
            r = tlc.model_check(t["module"], t["cfg"], self.scratch, dump=True)
            rng = random.Random(f"{self.seed}-tour-{t['cfg']}")
            walks, covered, total = tlc.transition_tour(
                r["graph"], rng, max_len=t.get("max_len", 400),
                max_steps=t.get("max_steps", 40000) * (4 if self.tier == "thorough" else 1))
            cov.append(dict(module=t["module"], cfg=t["cfg"], states=r["states"],
                            transitions_of_state_graph=total, transitions_replayed=covered,
                            behaviours=len(walks), steps=sum(map(len, walks))))
            self.states += r["states"]
            self.transitions += r["transitions"]
            n = t.get("chunk", 4)
            for i in range(0, len(walks), n):
                out.append((t["fn"], dict(t.get("kwargs", {}), walks=walks[i:i + n])))
        if cov:
            self.cov["replayed_model_behaviours"] = cov
        return out

    def drive(self, modname, jobs):
        results = []
        n = min(8, os.cpu_count() or 4)
        with cf.ProcessPoolExecutor(n) as ex:
            futs = [ex.submit(run_job, modname, fn, kw, 120 if self.tier == "quick" else 2400)
                    for fn, kw in jobs]
            for (fn, kw), f in zip(jobs, futs):
                traces, err = f.result()
                job = dict(module=modname, fn=fn, kwargs=kw)
                if err:
                    self.add_violation("the design could not be built or simulated", job, None, err)
                for t in traces:
                    t["job"] = job
                    results.append(t)
                if err and "JobTimeout" in err:    # a simulation that does not end is a violation already
                    for x in futs:
                        x.cancel()
                    for p in list(ex._processes.values()):
                        p.kill()
                    break
        return results

    def add_violation(self, clause, job, trace, detail):
        tid = (trace or {}).get("id", job["fn"] + " " + json.dumps(job["kwargs"], default=str)[:300])
        for k in load_known():
            if k.get("status") != "known" or k["property"] != self.pid:
                continue
            if re.fullmatch(k["trace"], tid) and re.fullmatch(k["clause"], clause):
                if k["id"] not in self.known_hits:
                    self.known_hits.append(k["id"])
                    print(f"KNOWN-FINDING: property={self.pid} {k['what']}", flush=True)
                return
        self.violations.append((clause, job, trace, detail))

    def validate(self, traces):
        by = {}
        for t in traces:
            by.setdefault(t["spec"], []).append(t)
        vcov = []
        for spec, ts in sorted(by.items()):
            ts_ok = []
            for t in ts:
                if t.get("bad"):          # harness-level observation, e.g. protocol never finished
                    self.add_violation(t["bad"], t["job"], t, t["bad"])
                else:
                    ts_ok.append(t)
            if not ts_ok:
                continue
            # Far more events than the unchanged tree gives (a design that hangs): the beginning is enough.
            cap = 1_500_000 if self.tier == "quick" else 10_000_000
            if sum(len(t["ev"]) for t in ts_ok) > cap:
                short = cap // len(ts_ok)
                for t in ts_ok:
                    t["ev"] = t["ev"][:short]
                self.cov["events_per_trace_limited_to"] = short
            stats, rejects, i = dict(states=0, transitions=0), [], 0
            while i < len(ts_ok):          # in batches that fit into TLC's memory
                n, size = 0, 0
                while i + n < len(ts_ok) and (n == 0 or size + len(ts_ok[i + n]["ev"]) <= 400_000):
                    size += len(ts_ok[i + n]["ev"])
                    n += 1
                st, rj = tlc.validate(spec, spec + ".cfg", ts_ok[i:i + n], self.scratch,
                                      timeout=500 if self.tier == "quick" else 3000, heap="8g")
                for k in stats:
                    stats[k] += st[k]
                rejects += [dict(r, trace=r["trace"] + i) for r in rj]
                i += n
            self.states += stats["states"]
            self.transitions += stats["transitions"]
            self.ntraces += len(ts_ok)
            ne = sum(len(t["ev"]) for t in ts_ok)
            self.nevents += ne
            vcov.append(dict(spec=spec, traces=len(ts_ok), events=ne, states=stats["states"],
                             configurations=len({json.dumps(t["cfg"], sort_keys=True) for t in ts_ok})))
            t = max(ts_ok, key=lambda t: 1 if t["ev"] else 0)
            self.samples.append(dict(spec=spec, id=t["id"], cfg=_short(t["cfg"]), first_events=t["ev"][:3]))
            for r in rejects:
                t = ts_ok[r["trace"]]
                self.add_violation(r["clause"], t["job"], t,
                                   f"trace {t['id']} event {r['step']}: {r['clause']}\n{r['detail']}")
        self.cov["trace_validation"] = vcov

    # ---- verdict --------------------------------------------------------------------------
    def finish(self):
        if not self.samples:
            self.samples.append("no trace was recorded")
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.ntraces, events_validated=self.nevents,
                   samples=self.samples[:6], **self.cov)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=cov, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations),
                  assumptions=["amaranth 0.4 pysim executes the gateware faithfully",
                               "TLC 1.8 evaluates the specification faithfully"])
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if not self.violations:
            print(f"OK property={self.pid} tier={self.tier} traces={self.ntraces} events={self.nevents} "
                  f"states={self.states} wall={ev['wall_s']}s")
            return 0
        rd = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rd, exist_ok=True)
        seen = {}
        for clause, job, trace, detail in self.violations:
            seen.setdefault(clause, []).append((job, trace, detail))
        for n, (clause, l) in enumerate(seen.items()):
            job, trace, detail = l[0]
            path = os.path.join(rd, f"{self.pid}-{n + 1}.json")
            with open(path, "w") as f:
                json.dump(dict(property=self.pid, clause=clause, count=len(l), job=job,
                               trace=trace and dict(id=trace["id"], spec=trace["spec"], cfg=trace["cfg"]),
                               detail=detail, seed=self.seed), f, indent=1, default=str)
            if n < 5:
                print(detail[:1500])
                print(f"VIOLATION property={self.pid} replay={path} clause={clause!r} ({len(l)}x)", flush=True)
        return 1


def _short(c):
    s = json.dumps(c)
    return c if len(s) < 600 else s[:600] + "..."


def main(argv):
    check_modules()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = None
    pid = None
    skip_mc = False
    it = iter(argv)
    for a in it:
        if a == "--tier":
            tier = next(it)
        elif a == "--seed":
            seed = int(next(it))
        elif a == "--replay":
            replay = next(it)
        elif a == "--no-mc":
            skip_mc = True
        else:
            pid = a
    if replay:
        with open(replay) as f:
            r = json.load(f)
        pid = r["property"]
    run = Run(pid, tier, seed)
    try:
        if replay:
            run.validate(run.drive(r["job"]["module"], [(r["job"]["fn"], r["job"]["kwargs"])]))
            return run.finish()
        modname = INDEX[pid]
        try:
            mod = importlib.import_module(modname)
        except Exception:
            run.add_violation("the code under test could not be imported",
                              dict(module=modname, fn="import", kwargs={}), None, traceback.format_exc())
            return run.finish()
        if not skip_mc:
            run.model_check(mod)
        jobs = [] if skip_mc else run.tour_jobs(mod)
        seen = set()                        # several rounds of random choices; what is not random is done once
        for rep in range(int(os.environ.get("AMLIB_REPS") or (getattr(mod, "REPS", 5) if tier == "quick" else 1))):
            for job in mod.jobs(tier, run.rng):
                key = repr(job)
                if key not in seen:
                    seen.add(key)
                    jobs.append(job)
        run.cov["driver_runs"] = len(jobs)
        run.validate(run.drive(modname, jobs))
        return run.finish()
    except tlc.TLCError as e:
        print(e.output[-6000:])
        print("MACHINERY FAILURE:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(run.scratch, ignore_errors=True)
