#!/opt/venv/bin/python
"""mutate.py FILE FUNC-REGEX N SEED PROP... : random small source mutants of FILE (in scratch copies of /repo),
run the given checks (trace validation only) on each and print the survivors.  A sensitivity experiment, not a check."""
import ast, os, random, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f, rx, n, seed, props = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4]), sys.argv[5:]
src = open("/repo/" + f).read()
tree = ast.parse(src)
lines = src.split("\n")
spans = []
for c in ast.walk(tree):
    if isinstance(c, ast.ClassDef) and re.search(rx, c.name) and "Test" not in c.name:
        for m in c.body:
            if isinstance(m, ast.FunctionDef):
                spans.append((m.lineno - 1, m.end_lineno))
    if isinstance(c, ast.FunctionDef) and re.search(rx, c.name):
        spans.append((c.lineno - 1, c.end_lineno))
doc = set()
for c in ast.walk(tree):
    if isinstance(c, ast.Expr) and isinstance(c.value, ast.Constant) and isinstance(c.value.value, str):
        doc |= set(range(c.lineno - 1, c.end_lineno))
OPS = [(r"(?<![=<>!])==(?!=)", "!="), (r"!=", "=="), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
       (r" \+ ", " - "), (r" - ", " + "), (r" & ", " | "), (r" \| ", " & "), (r"~", ""), (r"\b(\d+)\b", lambda m: str(int(m[1]) + 1)),
       (r"\b([1-9]\d*)\b", lambda m: str(int(m[1]) - 1)), (r"\.eq\(1\)", ".eq(0)"), (r"\.eq\(0\)", ".eq(1)"), (r"\band\b", "or"), (r"\bor\b", "and"),
       (r"\bnot ", ""), (r"m\.Elif\(", "m.If("), (r"m\.d\.comb", "m.d.sync"), (r"\bif\b(?=.*:)", "if not"), (r"m\.If\((.*)\):", r"m.If(~(\1)):"),
       (r"m\.If\((.*)\):", r"m.If((\1) & 1 == 5):"), (r"m\.next = (.*)", "pass"), (r"^(\s*)[\w.]+\s*\.eq\(.*\),?$", r"\1")]
cand = []
for a, b in spans:
    for i in range(a, b):
        if i in doc or lines[i].strip().startswith(("#", "def ", '"""')):
            continue
        code = lines[i].split("  #")[0]
        for k, (p, r) in enumerate(OPS):
            for m in re.finditer(p, code):
                new = code[:m.start()] + m.expand(r) * (not callable(r)) if not callable(r) else code[:m.start()] + r(m)
                new += code[m.end():]
                if new != lines[i]:
                    cand.append((i, new))
cand = sorted(set(cand))
random.Random(seed).shuffle(cand)
print(len(cand), "candidates")
def one(j):
    i, new = cand[j]
    w = tempfile.mkdtemp(prefix="mut_")
    try:
        shutil.copytree("/repo/amlib", w + "/amlib")
        l = list(lines); l[i] = new
        s = "\n".join(l)
        try:
            compile(s, f, "exec")
        except SyntaxError:
            return None
        open(f"{w}/{f}", "w").write(s)
        e = dict(os.environ, AMLIB_REPO=w, PYTHONDONTWRITEBYTECODE="1")
        res = []
        for p in props:
            r = subprocess.run([H + "/run.py", p, "--no-mc"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            res.append(r.returncode)
            if r.returncode == 1:
                return ("K", None)
            if r.returncode == 2:
                return ("E", f"{i+1}: {lines[i].strip()}  ->  {new.strip()}\n" + r.stdout[-500:])
        return ("S", f"{i+1}: {lines[i].strip()}  ->  {new.strip()}")
    finally:
        shutil.rmtree(w, ignore_errors=True)
with ThreadPoolExecutor(3) as ex:
    out = [x for x in ex.map(one, range(min(n, len(cand)))) if x]
print("killed", sum(o[0] == "K" for o in out), "survived", sum(o[0] == "S" for o in out), "machinery", sum(o[0] == "E" for o in out))
for o in out:
    if o[0] != "K":
        print(o[0], o[1])
