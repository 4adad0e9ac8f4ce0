import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from sa import core
from checks import REGISTRY


def main():
    ids = sys.argv[1:2]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if ids == ["all"]:
        rc = 0
        for p in sorted(REGISTRY):
            r = os.spawnv(os.P_WAIT, sys.executable, [sys.executable, __file__, p, tier])
            rc = max(rc, r)
        return rc
    p = ids[0]
    mod, fn = REGISTRY[p]
    m = importlib.import_module("checks." + mod)
    return core.main(p, getattr(m, fn), tier)


if __name__ == "__main__":
    sys.exit(main())
