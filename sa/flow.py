"""Failure flow: the failure of an operation is never turned into success.

For every call of a fallible operation the failure outcome is propagated (property
simulation, interval correlated) to the exits of the enclosing function.  The hull of
the values returned there becomes the failure range with which the function's own
calls are judged, bottom-up to the program's exit status."""
from .esp import Sim, Client, NULL, NONNULL, TOP, INF, SWAP, meet, join, const, mk

NEG = (-INF, -1, True)
NONNEG = (0, INF, False)
ZERO = (0, 0, False)
POS = (1, INF, True)
NZ = (-INF, INF, True)


class Short:
    """failure outcome of a transfer: fewer items than operand `idx` asked for (down to `lo`)"""

    def __init__(self, idx, lo=0):
        self.idx, self.lo = idx, lo

    def count(self, x):
        return strip(x.fn, x.ops[self.idx])

    def range(self, sim, env, x):
        v = sim.val(env, x.ops[self.idx])
        return mk(self.lo, max(self.lo, v[1] - 1)) if v[1] < INF else (self.lo, INF, False)


def strip(f, o):
    while o[0] == "v":
        x = f.defs.get(o[1])
        if x is not None and x.op in ("sext", "zext", "freeze", "trunc", "bitcast"):
            o = x.ops[0]
            continue
        break
    return o


class FlowClient(Client):
    def __init__(self, site, fail, ok, absorb=None):
        self.site, self.fail, self.ok, self.absorb = site, fail, ok, absorb
        self.exits = []

    def init(self, f):
        self.f = f
        return [("N", {})]

    def step(self, ts, env, x):
        if ts == "F" and x.op == "icmp" and isinstance(self.fail, Short):
            return self.cmp_short(ts, x)
        if ts == "F" and x.op == "call" and x is not self.site and self.absorb and self.absorb(self.site, x):
            return [("N", None)]
        if ts == "N" and x is self.site:
            if isinstance(self.fail, Short):
                return [("F", {x.id: self.fail.range(self.sim, env, x)}), ("N", None)]
            if callable(self.fail):
                return self.fail(self.sim, env, x)
            r = []
            if self.fail is not None:
                r.append(("F", {x.id: self.fail}))
            if self.ok is not None:
                r.append(("N", {x.id: self.ok}))
            return r
        return None

    def cmp_short(self, ts, x):
        """the short count differs from (is below) the requested one"""
        w = self.fail.count(self.site)
        p = x.d["pred"]
        for a, b, q in ((x.ops[0], x.ops[1], p), (x.ops[1], x.ops[0], SWAP[p])):
            if strip(self.f, a) == ("v", self.site.id) and self.same(strip(self.f, b), w):
                v = {"eq": 0, "ne": 1, "ult": 1, "ule": 1, "ugt": 0, "uge": 0,
                     "slt": 1, "sle": 1, "sgt": 0, "sge": 0}[q]
                return [(ts, {x.id: const(v)})]
        return None

    def same(self, a, b, depth=0):
        """the same value, or two reads of the same variable / field"""
        if a == b:
            return True
        if depth > 6:
            return False
        if a[0] == "gep" and b[0] == "gep":
            return a[2:4] == b[2:4] and a[3] and self.same(a[1], b[1], depth + 1)
        if a[0] != "v" or b[0] != "v":
            return False
        x, y = self.f.defs.get(a[1]), self.f.defs.get(b[1])
        if x is None or y is None or x.op != y.op:
            return False
        if x.op == "load":
            return self.same(x.ops[0], y.ops[0], depth + 1)
        if x.op == "getelementptr":
            return (not x.d.get("var") and not y.d.get("var") and x.d.get("coff") == y.d.get("coff")
                    and self.same(x.ops[0], y.ops[0], depth + 1))
        if x.op in ("sext", "zext", "trunc", "bitcast"):
            return self.same(x.ops[0], y.ops[0], depth + 1)
        if x.op in ("add", "sub", "mul", "and", "or"):
            return all(self.same(p, q, depth + 1) for p, q in zip(x.ops, y.ops))
        return False

    def exit(self, ts, env, t):
        v = self.sim.val(env, t.ops[0]) if t.ops else None
        self.exits.append((ts, "ret", v, t, self.sim.path() if ts == "F" else None))

    def noreturn(self, ts, env, x):
        if x.callee in ("exit", "_exit", "_Exit"):
            self.exits.append((ts, "exit", self.sim.val(env, x.ops[0]), x, self.sim.path() if ts == "F" else None))
        else:
            self.exits.append((ts, "abort", None, x, None))


def convention(f):
    """the values of f's result that mean failure"""
    if f.ret == "i1":
        return ZERO
    if f.ret == "ptr":
        return NULL
    if f.ret == "i8":
        return ZERO
    if f.ret and f.ret[0] == "i":
        return NZ
    return None


class FailFlow:
    """leaves: callee -> (fail range, ok range) ; tolerate(f, x) -> reason or None"""

    def __init__(self, mod, leaves, tolerate, scope, absorb=None):
        self.absorb = absorb
        self.mod, self.leaves, self.tolerate, self.scope = mod, dict(leaves), tolerate, scope
        self.sum = {}
        self.busy = set()
        self.sites = 0
        self.tolerated = []
        self.bad = []
        self.checked = []

    def outcome(self, callee):
        """(fail, ok) of a call, or None when it cannot fail (in the sense of the leaves)"""
        if callee in self.leaves:
            return self.leaves[callee]
        f = self.mod.funcs.get(callee)
        if f is None or f.decl or not self.scope(f):
            return None
        return self.summary(f)

    def summary(self, f):
        if f.name in self.sum:
            return self.sum[f.name]
        if f.name in self.busy:
            return None
        self.busy.add(f.name)
        hull = None
        any_site = False
        for x in list(f.calls()):
            if x.callee is None:
                continue
            oc = self.outcome(x.callee)
            if oc is None or oc[0] is None:
                continue
            why = self.tolerate(f, x)
            if why:
                self.tolerated.append("%s in %s at %s: %s" % (x.callee, f.sname, x.where(), why))
                continue
            any_site = True
            self.sites += 1
            cl = FlowClient(x, oc[0], oc[1], self.absorb)
            Sim(f, cl).run()
            conv = convention(f)
            ok = True
            for ts, kind, v, t, path in cl.exits:
                if ts != "F":
                    continue
                if kind == "abort":
                    continue
                if kind == "exit":
                    if meet(v, ZERO) is not None:
                        ok = False
                        self.bad.append((f, x, t, "the process can exit with status 0", path))
                    continue
                if f.name == "main":
                    if v is None or meet(v, ZERO) is not None:
                        ok = False
                        self.bad.append((f, x, t, "main can return 0", path))
                    continue
                if conv is None:
                    ok = False
                    self.bad.append((f, x, t, "the function has no result to report it with", path))
                    continue
                if conv == NZ:
                    good = meet(v, ZERO) is None
                else:
                    good = v[0] == 0 and v[1] == 0
                if not good:
                    ok = False
                    self.bad.append((f, x, t, "the function can return a success value", path))
                    v = conv
                hull = v if hull is None else join(hull, v)
            self.checked.append((f, x, ok))
        self.busy.discard(f.name)
        res = None
        if hull is not None:
            conv = convention(f)
            res = (hull, ZERO if False else TOP)
        elif any_site and convention(f) is None:
            res = None
        self.sum[f.name] = res
        return res

    def run(self):
        for f in self.mod.defined.values():
            if self.scope(f):
                self.summary(f)
        return self
