#!/usr/bin/env python3
"""seed.py: helper to plant a bug.  seed(id, prop, file, [(old,new)...], needs, what, demo_source)"""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, edits, needs, what, demo, stubs=False):
    W = "/tmp/w/repo"
    subprocess.run(["rm", "-rf", "/tmp/w/repo"]); os.makedirs("/tmp/w", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", W], check=True)
    subprocess.run(["git", "-C", W, "checkout", "-q", "--", "."], check=True)
    for f, old, new in edits:
        p = os.path.join(W, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    open("/tmp/w/demo.py", "w").write(demo)
    subprocess.run([os.path.join(H, "tools/mkseed.sh"), id, prop, needs, what], check=True, stdout=subprocess.DEVNULL)
    if stubs:
        subprocess.run(["cp", "-r", os.path.join(H, "stubs"), os.path.join(H, "seeded", id, "stubs")], check=True)
