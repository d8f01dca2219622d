import sys, importlib
sys.setrecursionlimit(20000)
from .report import main
def run(pid):
    from .registry import CHECKS
    mod, fn = CHECKS[pid].rsplit(".", 1)
    m = importlib.import_module("vp.checks." + mod)
    return main(pid, getattr(m, fn))
if __name__ == "__main__":
    rc = 0
    for p in sys.argv[1:]: rc |= run(p)
    sys.exit(rc)
