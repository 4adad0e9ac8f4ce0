"""Common driver: runs one property's analysis, compares with the known findings,
writes the evidence file and reports."""
import json, os, sys, time, traceback, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.jsonl")


class Broken(Exception):
    """the analysis lost its anchors: neither a pass nor a violation"""


class Result:
    def __init__(self, prop, level="other"):
        self.prop = prop
        self.level = level
        self.viol = []          # dicts: key, where, rule, msg, trail
        self.obl = 0
        self.ok = 0
        self.counts = {}
        self.samples = []
        self.rules = []
        self.assume = []
        self.notes = []
        self._floors = []

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def obligation(self, ok=True, n=1):
        self.obl += n
        if ok:
            self.ok += n

    def sample(self, s, limit=12):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, where, rule, msg, trail=None):
        """key: stable identity (no line numbers)"""
        if any(v["key"] == key and v["where"] == where for v in self.viol):
            return
        self.viol.append({"key": key, "where": where, "rule": rule, "msg": msg, "trail": trail or []})

    def floor(self, k, n, what):
        """an instance count below what was confirmed by hand means the rule lost its anchors"""
        have = self.counts.get(k, 0)
        if have < n:
            raise Broken("%s: expected at least %d %s, found %d" % (k, n, what, have))

    def need(self, cond, what):
        if not cond:
            raise Broken("anchor lost: " + what)
        return cond


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if not line:
                    continue
                d = json.loads(line)
                if d.get("status") == "known" and d.get("property") == prop:
                    out[d["key"]] = d
    return out


def main(prop, fn, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    R = Result(prop)
    os.makedirs(EVID, exist_ok=True)
    try:
        fn(R, tier)
    except Exception as e:
        # a definite violation found before the analysis broke still counts
        kf = known(prop)
        if not [v for v in R.viol if v["key"] not in kf]:
            print(''.join(traceback.format_exc().splitlines(True)[-8:]), file=sys.stderr)
            print("ANALYSIS-BROKEN property=%s %s: %s" % (prop, type(e).__name__, e))
            return 3
        R.notes.append("analysis stopped early: %s" % e)
    kf = known(prop)
    new, old = [], []
    for v in R.viol:
        (old if v["key"] in kf else new).append(v)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": R.level,
        "coverage": dict(
            explanation=" ".join(R.rules) or "static analysis of the resolved program",
            obligations=R.obl, discharged=R.ok, analysed=R.counts, samples=R.samples,
            checker_cmd="./check %s %s" % (prop, tier),
            trusted_base=["clang 18 front end (IR generation at -O0)", "LLVM mem2reg/inliner", "sa/*.py engines"],
        ),
        "assumptions": R.assume,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    if R.notes:
        ev["coverage"]["notes"] = R.notes
    if old:
        ev["coverage"]["known_findings"] = [v["key"] for v in old]
    rp = os.path.join(EVID, "%s.violations.json" % prop)
    if new:
        with open(rp, "w") as f:
            json.dump(new, f, indent=1)
        ev["coverage"]["violations"] = new[:40]
    elif os.path.exists(rp):
        os.unlink(rp)
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s: %d obligations, %d discharged, %s" % (prop, R.obl, R.ok,
          ", ".join("%s=%s" % kv for kv in sorted(R.counts.items()))))
    for v in old:
        print("KNOWN-FINDING: property=%s %s: %s" % (prop, v["where"], v["msg"]))
    for v in new:
        print("  %s: [%s] %s (key %s)" % (v["where"], v["rule"], v["msg"], v["key"]))
        for t in v["trail"][:12]:
            print("      " + str(t))
    if new:
        print("VIOLATION property=%s replay=%s" % (prop, rp))
        return 1
    return 0
