"""C07: a file reported as written is complete (write / close failures are never dropped)."""
from sa.build import Tree
from sa.ir import Module, _op, opvals
from sa.esp import Sim, Client, INF, TOP, NULL, NONNULL, meet, join, const
from sa.flow import FailFlow, Short, convention, NZ, ZERO, strip
from checks.frontend import absorb

PASSES = "function(sroa,early-cse,jump-threading,dce)"
EOFR = (-INF, -1, True)
WRITERS = {"fwrite": (3, Short(2)), "fputs": (1, EOFR), "fputc": (1, EOFR), "putc": (1, EOFR), "fprintf": (0, EOFR),
           "vfprintf": (0, EOFR), "fflush": (0, EOFR)}
OPENERS = {"fopen": 1, "fopen64": 1, "fdopen": 1, "tmpfile": None}


def roots(f, o, seen=None):
    """where a stream operand comes from: acquisition calls, parameters, anything else"""
    seen = set() if seen is None else seen
    if o[0] != "v":
        return {("other",)} if o[0] != "n" else set()
    if o[1] in seen:
        return set()
    seen.add(o[1])
    x = f.defs.get(o[1])
    if x is None:
        return {("param", f.pidx[o[1]])}
    if x.op == "call" and x.callee in OPENERS:
        return {("open", x.id)}
    if x.op in ("phi",):
        r = set()
        for v, _ in x.d["inc"]:
            r |= roots(f, _op(v), seen)
        return r
    if x.op == "select":
        return roots(f, x.ops[1], seen) | roots(f, x.ops[2], seen)
    if x.op in ("bitcast", "freeze"):
        return roots(f, x.ops[0], seen)
    if x.op == "load" and x.ops[0][0] == "v":
        a = f.defs.get(x.ops[0][1])
        if a is not None and a.op == "alloca":
            r = set()
            for u in f.uses.get(a.id, []):
                if u.op == "store" and u.ops[1] == ("v", a.id):
                    r |= roots(f, u.ops[0], seen)
            return r or {("other",)}
    if x.op == "call" and x.callee:
        g = f.mod.defined.get(x.callee)
        if g is not None and g.ret == "ptr" and returns_stream(g):
            return {("open", x.id)}
    return {("other",)}


_rs = {}


def returns_stream(g):
    """g is a wrapper that returns a stream it opened for writing"""
    if g.name not in _rs:
        _rs[g.name] = False
        for x in g.insts():
            if x.op == "ret" and x.ops:
                for r in roots(g, x.ops[0]):
                    if r[0] == "open" and writable(g.mod, g.defs[r[1]]):
                        _rs[g.name] = True
    return _rs[g.name]


def writable(mod, x):
    if x.callee not in OPENERS:
        return True
    i = OPENERS[x.callee]
    if i is None:
        return True
    s = mod.gstr(x.ops[i])
    return s is None or any(c in s for c in "wa+")


class WClient(Client):
    """one write / close site fails; the stream's error indicator stays set until it is closed"""

    def __init__(self, eng, f, site, fail, ok, rts, sticky):
        self.eng, self.f, self.site, self.fail, self.ok, self.rts, self.sticky = eng, f, site, fail, ok, rts, sticky
        self.exits = []

    def init(self, f):
        return [("N", {})]

    def step(self, ts, env, x):
        if x.op == "icmp" and ts in ("F", "L") and isinstance(self.fail, Short):
            from sa.flow import FlowClient
            return FlowClient.cmp_short(self, ts, x)
        if x.op != "call":
            return None
        if ts == "N" and x is self.site:
            r = self.fail
            if isinstance(r, Short):
                r = r.range(self.sim, env, x)
            out = [("F" if self.sticky else "L", {x.id: r} if r is not None and x.ty else None)]
            out.append(("N", {x.id: self.ok} if self.ok is not None and x.ty else None))
            return out
        if ts == "F":
            if x.callee == "ferror" and roots(self.f, x.ops[0]) & self.rts:
                return [(ts, {x.id: NZ})]
            if x.callee == "clearerr" or x.callee == "rewind":
                if roots(self.f, x.ops[0]) & self.rts:
                    return [("L", None)]
            if ("open", x.id) in self.rts:
                return [("L", None)]
        return None

    same = None

    def exit(self, ts, env, t):
        if ts == "N":
            return
        v = self.sim.val(env, t.ops[0]) if t.ops else None
        self.exits.append((ts, v, t, self.sim.path()))

    def noreturn(self, ts, env, x):
        if ts != "N" and x.callee in ("exit", "_exit"):
            self.exits.append((ts, ("exit", self.sim.val(env, x.ops[0])), x, self.sim.path()))


from sa.flow import FlowClient
WClient.same = FlowClient.same


class Outputs:
    def __init__(self, mod, R, tolerate):
        self.mod, self.R, self.tolerate = mod, R, tolerate
        self.sum = {}      # (function, param) -> None | (range, sticky)
        self.busy = set()
        self.failing = {}  # function -> hull of the values returned after a failed output

    def sites(self, f):
        """(call, stream operand index, failure range, ok range, sticky)"""
        for x in f.calls():
            c = x.callee
            if c in WRITERS:
                i, r = WRITERS[c]
                if i < len(x.ops):
                    yield x, x.ops[i], r, None, True
            elif c == "fclose":
                yield x, x.ops[0], (-1, -1, True), ZERO, False
            elif c in self.mod.defined:
                g = self.mod.defined[c]
                for i, o in enumerate(x.ops):
                    if i < len(g.params) and g.params[i][1] == "ptr" and o[0] == "v":
                        s = self.summary(g, i)
                        if s is not None:
                            yield x, o, s[0], None, s[1]

    def summary(self, g, i):
        """effect of a failed write inside g on the stream passed as parameter i:
        None (never writes it) or (range of the result, still open)"""
        key = (g.name, i)
        if key in self.sum:
            return self.sum[key]
        self.sum[key] = None
        if not any(r for r in self.uses_stream(g, i)):
            return None
        self.function(g)
        return self.sum[key]

    def uses_stream(self, g, i, depth=0, seen=None):
        seen = seen if seen is not None else set()
        if (g.name, i) in seen or depth > 8:
            return
        seen.add((g.name, i))
        for x in g.calls():
            c = x.callee
            if c in WRITERS or c == "fclose":
                j = WRITERS[c][0] if c in WRITERS else 0
                if j < len(x.ops) and ("param", i) in roots(g, x.ops[j]):
                    yield True
            elif c in self.mod.defined:
                for j, o in enumerate(x.ops):
                    if o[0] == "v" and ("param", i) in roots(g, o):
                        yield from self.uses_stream(self.mod.defined[c], j, depth + 1, seen)

    def function(self, f):
        if f.name in self.busy:
            return
        self.busy.add(f.name)
        for x, o, rng, okr, sticky in list(self.sites(f)):
            rts = roots(f, o)
            own = set(r for r in rts if r[0] == "open" and writable(self.mod, f.defs[r[1]]))
            par = set(r for r in rts if r[0] == "param")
            if not own and not par:
                continue
            if own and self.tolerate(f, x, [f.defs[r[1]] for r in own]):
                continue
            cl = WClient(self, f, x, rng, okr, own | par, sticky)
            Sim(f, cl).run()
            conv = convention(f)
            for ts, v, t, path in cl.exits:
                if isinstance(v, tuple) and v and v[0] == "exit":
                    good = meet(v[1], ZERO) is None
                    v = None
                elif conv is None or v is None:
                    good = False
                elif conv == NZ:
                    good = meet(v, ZERO) is None
                else:
                    good = v[0] == v[1] == 0
                for p in par:
                    k = (f.name, p[1])
                    old = self.sum.get(k)
                    nv = v if old is None or old[0] is None else (None if v is None else join(old[0], v))
                    if old is not None and old[0] is None:
                        nv = None
                    # the stream is still open unless this site closed it
                    self.sum[k] = (nv, (ts == "F") and (old is None or old[1]))
                if own:
                    if not good:
                        self.R.violation("%s|%s|%s" % (f.sname, x.callee, "unreported"), t.where(), "output-complete",
                                         "a failed %s at %s (in %s) does not make the function fail" % (x.callee, x.where(), f.sname),
                                         ["path: " + " > ".join(path or [])])
                    if conv is not None and v is not None:
                        h = self.failing.get(f.name)
                        self.failing[f.name] = v if h is None else join(h, v)
            if own:
                self.R.count("output_sites")
                self.R.count("sites_in_" + f.sname)
                self.R.sample("%s in %s at %s" % (x.callee, f.sname, x.where()), 40)
                self.R.obligation(not any(v["key"].startswith("%s|%s|" % (f.sname, x.callee)) for v in self.R.viol))
        self.busy.discard(f.name)

    def run(self):
        for f in self.mod.defined.values():
            self.function(f)
        return self


def c07(R, tier):
    R.rules.append("Every stream opened for writing: a failed write leaves the stream's error indicator set and a failed close "
                   "returns EOF; from each such failure (in the function that opened the stream or in a callee it was passed to) "
                   "every feasible path must end in a failure result, i.e. the write result or ferror is tested, and so is the "
                   "close. The failure result of each writing function is then followed upwards through the callers to the exit "
                   "status like in C08.")
    m = Module(Tree().dump(("src", "tcc"), passes=PASSES))

    def tol(f, x, opens):
        for o in opens:
            if f.sname == "cjit_exec":
                return "the pid file: the program already runs when it is written, the status belongs to the program"
            if x.callee == "fclose" and f.file.endswith("cjit-ar.c") and o.callee in OPENERS and "+" in (m.gstr(o.ops[1]) or ""):
                return "scratch file of cjit-ar: its content was read back before it is closed and removed"
        return None
    O = Outputs(m, R, tol).run()
    R.floor("output_sites", 6, "write/close sites of output streams")
    R.need(len(O.failing) >= 3, "functions that report failed output")
    # upwards
    leaves = {n: (v, TOP) for n, v in O.failing.items()}

    def tol2(f, x):
        return None
    F = FailFlow(m, leaves, tol2, lambda f: f.name not in leaves, absorb).run()
    R.count("report_sites", F.sites)
    for f, x, ok in F.checked:
        R.obligation(ok)
        R.sample("result of %s in %s at %s" % (x.callee, f.sname, x.where()), 60)
    for f, x, t, why, path in F.bad:
        R.violation("%s|%s|dropped" % (f.sname, x.callee), t.where(), "output-failure-flow",
                    "the failed output reported by %s at %s (in %s) is lost: %s" % (x.callee, x.where(), f.sname, why),
                    ["path: " + " > ".join(path or [])])
