#!/opt/venv/bin/python
"""Entry point of every check:  run.py <PROPERTY> [--tier quick|thorough] | --replay FILE

Exit 0: property held on everything explored.  Exit 1 + VIOLATION line: it is broken.
Exit 2: the machinery itself failed.
"""
import os, sys
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("AMLIB_REPO", "/repo")
sys.path[:0] = [REPO, os.path.join(HERE, "lib"), os.path.join(HERE, "stubs"), HERE]
import framework
if __name__ == "__main__":
    sys.exit(framework.main(sys.argv[1:]))
