"""Running TLC: exhaustive model checking, state-graph export, batch trace validation."""
import json, os, re, shutil, subprocess, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    """The checker itself failed (parse error, evaluation error, out of memory...)."""
    def __init__(self, msg, output=""):
        super().__init__(msg)
        self.output = output


def _java(args, env=None, timeout=800, heap="6g"):
    tmpdir = os.environ.get("AMLIB_SCRATCH") or tempfile.gettempdir()
    cmd = ["java", "-XX:+UseParallelGC", "-Xss16m", f"-Xmx{heap}", f"-Djava.io.tmpdir={tmpdir}", f"-DTLA-Library={SPEC}",
           "-cp", CP, "tlc2.TLC"] + args
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                           cwd=SPEC, timeout=timeout, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        raise TLCError(f"TLC did not finish within {timeout} s")
    return p.returncode, p.stdout


def _counts(out):
    m = None
    for m in re.finditer(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out):
        pass
    if not m:
        return 0, 0
    return tuple(int(x.replace(",", "")) for x in m.groups())


def model_check(module, cfg, scratch, dump=False, timeout=800, extra=(), env=None, workers="auto"):
    """Exhaustive check.  Returns dict(states, transitions, graph?).  A violated invariant of the
    specification alone says the *design model* is inconsistent with its own properties."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    args = ["-config", os.path.join(SPEC, cfg), "-metadir", meta, "-workers", str(workers),
            "-noGenerateSpecTE", "-fp", "1"]
    dotfile = os.path.join(meta, "graph.dot")
    if dump:
        args += ["-dump", "dot", dotfile]
    args += list(extra)
    args += [os.path.join(SPEC, module + ".tla")]
    rc, out = _java(args, timeout=timeout, env=env)
    gen, dist = _counts(out)
    if rc != 0 or "No error has been found" not in out:
        raise TLCError(f"TLC on {module}/{cfg} ended with {rc}", out)
    res = dict(module=module, cfg=cfg, transitions=gen, states=dist)
    if dump:
        res["graph"] = parse_dot(dotfile)
    shutil.rmtree(meta, ignore_errors=True)
    return res


_NODE = re.compile(r'^(-?\d+) \[label="((?:[^"\\]|\\.)*)"(.*)\];?$')
_EDGE = re.compile(r'^(-?\d+) -> (-?\d+)')


def parse_dot(path):
    nodes, init, edges = {}, [], []
    with open(path) as f:
        for line in f:
            line = line.rstrip()
            m = _EDGE.match(line)
            if m:
                edges.append((m.group(1), m.group(2)))
                continue
            m = _NODE.match(line)
            if m:
                nodes[m.group(1)] = m.group(2)
                if "style = filled" in m.group(3):
                    init.append(m.group(1))
    return nodes, init, edges


_FIELD = re.compile(r'(\w+) \|-> (-?\d+|\\"[^"\\]*\\"|TRUE|FALSE)')


def node_input(label, var="inp"):
    """Extract the (flat) record held by variable `var` in a dumped state label."""
    label = label.replace("\\n", "\n").replace("\\\\", "\\")
    m = re.search(r'(?:^|\n)\s*(?:/\\ )?%s = \[(.*?)\](?:\n|$)' % var, label, re.S)
    if not m:
        return None
    rec = {}
    for k, v in _FIELD.findall(m.group(1)):
        if v == "TRUE":
            rec[k] = 1
        elif v == "FALSE":
            rec[k] = 0
        elif v[0] == "\\":
            rec[k] = v[2:-2]
        else:
            rec[k] = int(v)
    return rec


def _project(label, var):
    """The state label without the conjunct for the input variable."""
    label = label.replace("\\n", "\n").replace("\\\\", "\\")
    return re.sub(r'(?:^|\n)\s*(?:/\\ )?%s = \[.*?\](?=\n|$)' % var, "", label, flags=re.S)


def transition_tour(graph, rng, max_len=400, max_steps=60000, var="inp"):
    """Input sequences (walks from an initial state) that together take every transition
    (state, input) -> state' of TLC's state graph, until max_steps.
    Returns (list of input sequences, transitions covered, transitions in total)."""
    from collections import deque
    nodes, init, edges = graph
    group = {n: _project(lbl, var) for n, lbl in nodes.items()}
    inputs = {n: node_input(lbl, var) for n, lbl in nodes.items()}
    succ = {}
    for a, b in edges:
        succ.setdefault(group[a], {})[(tuple(sorted(inputs[b].items())), group[b])] = inputs[b]
    uncovered = {}
    for a, d in succ.items():
        l = list(d)
        rng.shuffle(l)
        uncovered[a] = l
    nbr = {}
    for a, d in succ.items():
        x = {}
        for k in d:
            x.setdefault(k[1], k)
        nbr[a] = x
    total = remaining = sum(len(x) for x in uncovered.values())
    covered, walks, steps = 0, [], 0

    def to_uncovered(a):
        prev = {a: None}
        q = deque([a])
        while q:
            x = q.popleft()
            if uncovered.get(x):
                path = []
                while prev[x] is not None:
                    px, k = prev[x]
                    path.append(k)
                    x = px
                return path[::-1]
            for y, k in nbr.get(x, {}).items():
                if y not in prev:
                    prev[y] = (x, k)
                    q.append(y)
        return None

    while remaining and steps < max_steps:
        cur = group[rng.choice(init)]
        walk, progress = [], False
        while len(walk) < max_len:
            if uncovered.get(cur):
                k = uncovered[cur].pop()
                remaining -= 1
                covered += 1
                progress = True
                walk.append(succ[cur][k])
                cur = k[1]
            else:
                path = to_uncovered(cur)
                if path is None:
                    break
                for k in path:
                    walk.append(succ[cur][k])
                    cur = k[1]
        steps += len(walk)
        walks.append(walk)
        if not progress:
            break
    return walks, covered, total


_REJ = re.compile(r'"REJECT\|(\d+)\|(\d+)\|([^"|]*)\|')


def validate(module, cfg, traces, scratch, timeout=800, heap="8g"):
    """Validate a batch of traces.  Returns (stats, rejects) with rejects a list of
    dict(trace=index, step=n, clause=..., state=...)."""
    meta = tempfile.mkdtemp(prefix="tlc_", dir=scratch)
    tf = os.path.join(meta, "traces.ndjson")
    with open(tf, "w") as f:
        for t in traces:
            f.write(json.dumps(dict(cfg=t["cfg"], ev=t["ev"]), separators=(",", ":")) + "\n")
    args = ["-config", os.path.join(SPEC, cfg), "-metadir", meta, "-workers", "auto", "-fp", "1",
            "-noGenerateSpecTE", "-deadlock", os.path.join(SPEC, module + ".tla")]
    rc, out = _java(args, env={"TRACEFILE": tf}, timeout=timeout, heap=heap)
    gen, dist = _counts(out)
    rejects = []
    for line in out.splitlines():
        m = _REJ.search(line)
        if m:
            rejects.append(dict(trace=int(m.group(1)) - 1, step=int(m.group(2)),
                                clause=m.group(3), detail=line.strip()[:6000]))
    done = "Model checking completed. No error has been found" in out
    if not done and not rejects:
        raise TLCError(f"trace validation {module} ended with {rc}", out)
    if done and not rejects:
        want = sum(len(t["ev"]) + 1 for t in traces)
        if dist != want:
            raise TLCError(f"trace validation consumed {dist} states, expected {want}", out)
    shutil.rmtree(meta, ignore_errors=True)
    return dict(states=dist, transitions=gen, clean=done, out=out), rejects
