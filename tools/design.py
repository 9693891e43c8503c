#!/usr/bin/env python3
"""Writes DESIGN.md: design_head.md + one section per property (props.py, checks, specs, evidence) + findings + seeds."""
import glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tools"))
from props import PROPS, NOT_APPLICABLE, COMMON
S = lambda *p: os.path.join(H, *p)
rd = lambda p: open(p).read()


def module_clauses(tname):
    t = rd(S("spec", tname + ".tla"))
    mod = re.search(r"EXTENDS\s+TraceKit|INSTANCE|EXTENDS\s+([^\n]+)", t)
    cfg = rd(S("spec", tname + ".cfg"))
    m = re.search(r"SStep\s*<-\s*(\w+)", cfg) or re.search(r"SStep\s*<-\s*(\w+)", t)
    step = m.group(1) if m else None
    names = re.findall(r"EXTENDS\s+([^\n]+)", t)
    mods = [x.strip() for n in names for x in n.split(",") if os.path.exists(S("spec", x.strip() + ".tla"))]
    for b in mods:
        if b in ("TraceKit", "Kit"):
            continue
        txt = rd(S("spec", b + ".tla"))
        k = re.search(r"^" + step + r"\(", txt, re.M) if step else None
        if k:
            rest = txt[k.start():]
            e = re.search(r"\n(\w+Init\(|\\\*\s*-{5}|=====)", rest[5:])
            body = rest[:e.start() + 5] if e else rest
            return b, step, re.findall(r'<<\s*"([^"]+)"\s*,', body)
    return (mods[-1] if mods else "?"), step, []


def consts(cfg):
    t = rd(S("spec", cfg))
    c = re.findall(r"CONSTANTS?\s+(.*?)(?=\n[A-Z]{4,}|\Z)", t, re.S)
    c = " ".join(" ".join(c).split())
    inv = " ".join(" ".join(re.findall(r"(?:INVARIANTS?|PROPERT(?:Y|IES))\s+([^\n]+)", t)).split())
    return c, inv


def fields(path):
    t = rd(path)
    out = {}
    for k in ("MC", "MC_THOROUGH", "TOURS"):
        m = re.search(rf"^{k} = (\[.*?\])\n\n", t, re.M | re.S)
        if m:
            try:
                out[k] = eval(m.group(1), dict(PARITIES=["none", "mark", "space", "even", "odd"]))
            except Exception:
                out[k] = []
    return out


seeds = {}
for d in sorted(glob.glob(S("seeded", "*"))):
    j = json.load(open(d + "/meta.json"))
    seeds.setdefault(j["property"], []).append((os.path.basename(d), j))
findings = json.load(open(S("known_findings.json")))
out = [rd(S("tools", "design_head.md"))]
out.append("\n## 5. The properties, one by one\n")
out.append("`MC` lines: model, constants, what TLC checks on it (`Agree`/`NoVerdict`/`Ok`: the judging specification accepts every behaviour of the closed model). "
           "`Judge` lines: the clauses TLC evaluates at every recorded clock cycle or event of the gateware. Cost figures are those of the last run on this machine (8 cores).\n")
for p in PROPS:
    f = glob.glob(S("checks", p["id"].lower() + "_*.py"))
    if not f:
        continue
    f = f[0]
    out.append(f"### {p['id']} - {p['title']}\n")
    out.append(p["statement"] + "\n")
    out.append(f"- quantified over: {p['all']}. Tests: {p['why']}")
    out.append("- code: " + "; ".join(f"{w} ({n})" for n, w in p["mech"]) + f" in {', '.join(p['files'])}; driver `checks/{os.path.basename(f)}`")
    doc = re.match(r'\s*"""(.*?)"""', rd(f), re.S)
    if doc:
        out.append("- driver: " + " ".join(doc.group(1).split()))
    fl = fields(f)
    for k in ("MC", "MC_THOROUGH"):
        for m, c in fl.get(k, []):
            cc, inv = consts(c)
            out.append(f"- MC{' (thorough)' if k != 'MC' else ''}: `{m}` / `{c}`" + (f": {cc}" if cc else "") + f"; checks {inv}")
    for t in fl.get("TOURS", []):
        out.append(f"- replay: every transition of the state graph of `{t['module']}` / `{t['cfg']}` is driven through the gateware")
    ev = S("evidence", p["id"] + ".json")
    if os.path.exists(ev):
        e = json.load(open(ev))
        cov = e["coverage"]
        for v in cov.get("trace_validation", []):
            b, step, cl = module_clauses(v["spec"])
            out.append(f"- Judge `{b}!{step}` ({v['traces']} executions, {v['events']} events, {v['configurations']} configurations in the quick tier): "
                       + "; ".join(dict.fromkeys(cl)))
        out.append(f"- cost: {e['wall_s']:.0f} s quick, {cov['states']} states examined by TLC")
    note = p["note"].replace(COMMON, "").strip()
    if note:
        out.append("- remarks: " + note)
    for x in findings:
        if x["property"] == p["id"]:
            out.append(f"- {x['status']}: {x['commit']} {x['what']}")
    for n, j in seeds.get(p["id"], []):
        out.append(f"- planted bug `{n}` caught: {j['what_it_breaks']}")
    out.append("")
out.append(rd(S("tools", "design_tail.md")))
open(S("DESIGN.md"), "w").write("\n".join(out))
print(len(out), "lines")
