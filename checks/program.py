"""C09: the executed program's status is the process's status."""
from sa.build import Tree
from sa.ir import _op, opvals
from sa.esp import Sim, Client, INF, meet
from sa.flow import ZERO
from sa.focus import focus, bits

RUNNER = "cjit_exec"

# every status waitpid can deliver on Linux: exited, killed (with and without core), stopped, continued
ALL = frozenset([c << 8 for c in range(256)] + [s | k for s in range(1, 65) for k in (0, 0x80)] + [0x7f | s << 8 for s in range(1, 65)] + [0xffff])
EVAL = {
    "and": lambda a, w: a[0] & a[1], "or": lambda a, w: a[0] | a[1], "xor": lambda a, w: a[0] ^ a[1],
    "add": lambda a, w: a[0] + a[1], "sub": lambda a, w: a[0] - a[1], "mul": lambda a, w: a[0] * a[1],
    "shl": lambda a, w: a[0] << (a[1] & 63), "ashr": lambda a, w: a[0] >> (a[1] & 63),
    "lshr": lambda a, w: (a[0] & ((1 << w) - 1)) >> (a[1] & 63),
    "zext": lambda a, w: a[0] & ((1 << w) - 1), "sext": lambda a, w: a[0], "trunc": lambda a, w: a[0], "freeze": lambda a, w: a[0],
    "sdiv": lambda a, w: int(a[0] / a[1]) if a[1] else None,
}


def width(ty):
    return int(ty[1:]) if ty and ty[0] == "i" and ty[1:].isdigit() else 64


def width_of(f, o):
    x = f.defs.get(o[1]) if o[0] == "v" else None
    return width(x.ty) if x is not None else 64
START = "before"


def closure(f, o):
    """phis/selects feeding a value"""
    out, work = set(), [o]
    while work:
        o = work.pop()
        if o[0] != "v" or o[1] in out:
            continue
        x = f.defs.get(o[1])
        if x is not None and x.op in ("phi", "select", "zext", "sext", "trunc", "freeze"):
            out.add(o[1])
            if x.op == "phi":
                work += [_op(v) for v, _ in x.d["inc"]]
            else:
                work += [p for p in x.ops if p[0] == "v"]
    return out


class Exec(Client):
    """ts = (role, exited, phi choices); role: N before fork, C child, P parent after waitpid, W parent before"""

    def __init__(self, R, f, statusvar):
        self.R, self.f, self.sv = R, f, statusvar
        self.base = lambda x: x.op == "load" and self.sim.cell(x.ops[0]) == statusvar
        self.want = set()
        for x in f.insts():
            if x.op == "ret" and x.ops:
                self.want |= closure(f, x.ops[0])
            if x.op == "call" and x.callee in ("exit", "_exit"):
                self.want |= closure(f, x.ops[0])
        self.seen = {"child": 0, "exited": 0, "abnormal": 0, "entry": 0}
        self.entries = set()

    def init(self, f):
        return [(("N", None, ()), {})]

    def resolve(self, ts, o):
        ch = dict(ts[2])
        n = 0
        while o[0] == "v" and o[1] in ch and n < 50:
            o = ch[o[1]]
            n += 1
        return o

    def step(self, ts, env, x):
        role, ex, ch = ts
        if x.op == "call":
            if x.callee == "fork" or x.callee == "vfork":
                self.fork = x
                return [(("F", None, ch), {x.id: (-1, -1, True)}), (("C", None, ch), {x.id: ZERO}), (("W", None, ch), {x.id: (1, INF, True)})]
            if x.callee is None:
                self.entry(ts, env, x)
            if x.callee in ("waitpid", "wait4"):
                o = self.resolve(ts, x.ops[0])
                if role == "W":
                    if not self.same(o, ("v", self.fork.id)):
                        self.R.violation("cjit_exec|waitpid|pid", x.where(), "wait-target", "waits for something other than the started program")
                    fl = x.ops[2]
                    if fl[0] != "i" or fl[1] & 1:
                        self.R.violation("cjit_exec|waitpid|flags", x.where(), "wait-blocks", "waitpid may return before the program ended (WNOHANG)")
                    self.R.obligation(True, 2)
                    return [(("P", ALL, ch), {x.id: (1, INF, True)}), (("E", None, ch), {x.id: (-1, -1, True)})]
            if x.callee in ("exec", "execv", "execvp"):
                self.R.violation("cjit_exec|exec", x.where(), "entry", "replaces the process")
        return None

    def same(self, a, b):
        while a[0] == "v":
            x = self.f.defs.get(a[1])
            if a == b:
                return True
            if x is not None and x.op in ("sext", "zext", "trunc", "freeze"):
                a = x.ops[0]
                continue
            break
        return a == b

    def entry(self, ts, env, x):
        self.entries.add(x.id)
        self.seen["entry"] += 1
        if ts[0] != "C":
            self.R.violation("cjit_exec|entry|%s" % ts[0], x.where(), "entry-in-child", "the entry function can run outside of the child process")
        par = [("v", p[0]) for p in self.f.params]
        ok = len(x.ops) >= 2 and x.ops[0] == par[1] and x.ops[1] == par[2]
        self.R.obligation(ok)
        if not ok:
            self.R.violation("cjit_exec|entry|args", x.where(), "entry-args", "the entry function does not get the argument count and vector it was asked to run with")

    def phis(self, ts, env, phis, vals):
        role, ex, ch = ts
        d = dict(ch)
        ch0 = dict(ch)
        for p in phis:
            if p.id in self.want and p.id in vals:
                o = vals[p.id]
                n = 0
                while o[0] == "v" and o[1] in ch0 and n < 50:
                    o = ch0[o[1]]
                    n += 1
                d[p.id] = o
        return (role, ex, tuple(sorted(d.items())))

    def kind(self, o, ch, n=0):
        x = self.f.defs.get(o[1]) if o[0] == "v" else None
        if o[0] == "v" and o[1] in ch and n < 50:
            return self.kind(ch[o[1]], ch, n + 1)
        if x is None:
            return None
        if x.op in ("sext", "zext", "trunc", "freeze"):
            return self.kind(x.ops[0], ch, n + 1)
        if x.op == "call":
            return {"fork": "pid", "vfork": "pid", "waitpid": "waited", "wait4": "waited"}.get(x.callee)

    def ev(self, o, st, ch, n=0):
        """value of an expression of the wait status for one status; None when it depends on something else"""
        if o[0] == "i":
            return o[1]
        if o[0] != "v" or n > 60:
            return None
        if o[1] in ch:
            return self.ev(ch[o[1]], st, ch, n + 1)
        x = self.f.defs.get(o[1])
        if x is None:
            return None
        if self.base(x):
            return st
        w = width(x.ty)
        if x.op == "icmp":
            k = [self.kind(p, ch) for p in x.ops]
            if sorted(map(str, k)) == ["pid", "waited"]:    # a successful wait for one process returns its id
                return int(x.d["pred"] in ("eq", "sge", "sle", "uge", "ule"))
        a = [self.ev(p, st, ch, n + 1) for p in x.ops] if x.op in EVAL or x.op == "icmp" or x.op == "select" else None
        if a is None or None in a:
            return None
        m = (1 << w) - 1
        if x.op == "icmp":
            a, b = a
            if x.d["pred"][0] == "u":
                a, b = a & ((1 << 64) - 1), b & ((1 << 64) - 1)
            p = x.d["pred"]
            return int({"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p if p in ("eq", "ne") else p[1:]])
        if x.op == "select":
            return a[1] if a[0] else a[2]
        v = EVAL[x.op](a, width_of(self.f, x.ops[0]))
        if v is None:
            return None
        v &= m
        return v - (1 << w) if w > 1 and v >> (w - 1) else v

    def edge(self, ts, env, B, succ):
        role, sts, ch = ts
        if role != "P" or sts is None:
            return ts
        t = B.insts[-1]
        d = dict(ch)
        if t.op == "br" and t.ops and t.d["succ"][0] != t.d["succ"][1]:
            truth = succ == t.d["succ"][0]
            keep = frozenset(s for s in sts if self.ev(t.ops[0], s, d) in (None, int(truth), -int(truth)))
        elif t.op == "switch":
            def ok(s):
                v = self.ev(t.ops[0], s, d)
                if v is None:
                    return True
                return (t.d["succ"][1 + t.d["cases"].index(v)] if v in t.d["cases"] else t.d["succ"][0]) == succ
            keep = frozenset(s for s in sts if ok(s))
        else:
            return ts
        return (role, keep, ch) if keep else None

    def retval(self, ts, env, o):
        return self.resolve(ts, o)

    def exit(self, ts, env, t):
        role, ex, ch = ts
        R = self.R
        if role == "C":
            R.violation("cjit_exec|child|returns", t.where(), "child-exits", "the child process returns instead of exiting with the program's status")
        if role == "W":
            R.violation("cjit_exec|parent|nowait", t.where(), "parent-waits", "the parent can return without having waited for the program", self.sim.path())
        if role != "P":
            return
        o = self.resolve(ts, t.ops[0])
        d = dict(ch)
        v = self.sim.val(env, o)
        if ex is None:
            return      # waiting failed: reported as an error (the failure property)
        for st in sorted(ex):
            r = self.ev(o, st, d)
            low = st & 0x7f
            if low == 0:
                self.seen["exited"] += 1
                ok = r is not None and r & 0xff == st >> 8 and 0 <= r <= 255
                self.R.obligation(ok)
                if not ok:
                    R.violation("cjit_exec|status|exited", t.where(), "exit-status", "after a normal end with status %d the returned value is %s" % (st >> 8, "not derived from the wait status" if r is None else r), ["path: " + " > ".join(self.sim.path())])
                    break
            else:
                self.seen["abnormal"] += 1
                ok = (r & 0xff) != 0 if r is not None else meet(v, ZERO) is None
                self.R.obligation(ok)
                if not ok:
                    R.violation("cjit_exec|status|abnormal", t.where(), "abnormal-status", "a program that was %s can be reported as success" % ("stopped" if low == 0x7f else "killed by signal %d" % low), ["path: " + " > ".join(self.sim.path())])
                    break

    def noreturn(self, ts, env, x):
        if x.callee not in ("exit", "_exit", "_Exit"):
            return
        o = self.resolve(ts, x.ops[0])
        if ts[0] == "C":
            self.seen["child"] += 1
            d = self.f.defs.get(o[1]) if o[0] == "v" else None
            ok = d is not None and d.op == "call" and d.callee is None
            self.R.obligation(ok)
            if not ok:
                self.R.violation("cjit_exec|child|status", x.where(), "child-status", "the child does not exit with the value returned by the entry function")
            if x.callee != "exit":
                self.R.violation("cjit_exec|child|noflush", x.where(), "child-status", "the child leaves without flushing the program's output")


class MainClient(Client):
    def __init__(self, R, f):
        self.R, self.f, self.n = R, f, 0
        self.want = set()
        for x in f.insts():
            if (x.op == "ret" and x.ops) or (x.op == "call" and x.callee == "exit"):
                self.want |= closure(f, x.ops[0])

    def init(self, f):
        return [(START, {})]

    def step(self, ts, env, x):
        if x.op == "call" and x.callee == RUNNER:
            return [(frozenset([x.id]), None)]
        if ts != START and x.ty and x.id in self.want and x.op in ("trunc", "sext", "zext", "freeze") and x.ops[0][0] == "v" and x.ops[0][1] in ts:
            return [(ts | {x.id}, None)]
        return None

    def phis(self, ts, env, phis, vals):
        if ts == START:
            return ts
        add, rem = set(), set()
        for p in phis:
            o = vals.get(p.id)
            if o is not None and o[0] == "v" and o[1] in ts:
                add.add(p.id)
            elif p.id in ts:
                rem.add(p.id)
        return (ts - rem) | add

    def end(self, ts, o, x):
        if ts == START:
            return
        self.n += 1
        ok = o[0] == "v" and o[1] in ts
        self.R.obligation(ok)
        if not ok:
            self.R.violation("main|%s|status" % RUNNER, x.where(), "status-unchanged", "the status of the executed program is not what the process exits with", ["path: " + " > ".join(self.sim.path())])

    def exit(self, ts, env, t):
        self.end(ts, t.ops[0], t)

    def noreturn(self, ts, env, x):
        if x.callee in ("exit", "_exit"):
            self.end(ts, x.ops[0], x)


def c09(R, tier):
    R.rules.append("In the function that starts the program (helpers inlined): typestate fork -> child | parent. The child calls "
                   "the entry function with the argument vector it was given and exits with its result; only the child does. "
                   "The parent waits, blocking, for that child. A bit-provenance domain over the wait status decides that on "
                   "the paths where bits 0-6 are zero the returned value is exactly bits 8-15, and that on the other paths it "
                   "cannot be 0. In main that value reaches exit() unchanged.")
    T = Tree()
    m = focus(T, "src", [RUNNER, "main"], lambda x: x.callee in ("fork", "vfork", "waitpid", "wait4", RUNNER) or (x.callee is None and len(x.ops) >= 2 and x.fn.file.endswith("cjit.c")),
              stop=("_err", "_out"))
    f = R.need(m.defined.get(RUNNER), RUNNER)
    ws = [x for x in f.calls() if x.callee in ("waitpid", "wait4")]
    R.need(ws, "the wait call")
    R.need([x for x in f.calls() if x.callee in ("fork", "vfork")], "the fork call")
    R.count("wait_sites", len(ws))
    tmp = Sim(f, Client())
    sv = set(tmp.cell(w.ops[1]) for w in ws)
    R.need(len(sv) == 1, "one status variable")
    cl = Exec(R, f, sv.pop())
    Sim(f, cl).run()
    for k, v in cl.seen.items():
        R.count("paths_" + k, v)
    if not cl.seen["entry"]:
        R.violation("cjit_exec|entry|none", f.file.split("/")[-1], "entry", "the entry function is never called")
    elif not cl.seen["child"]:
        R.violation("cjit_exec|child|noexit", f.file.split("/")[-1], "child-exits", "the child never exits with the entry function's result")
    if not cl.seen["exited"]:
        R.violation("cjit_exec|status|never", f.file.split("/")[-1], "exit-status", "no path returns the decoded exit status")
    mf = R.need(m.defined.get("main"), "main")
    mc = MainClient(R, mf)
    Sim(mf, mc).run()
    R.count("main_ends_after_execution", mc.n)
    R.need(mc.n, "the end of main after the execution")
    R.assume.append("Linux wait status layout: exit code in bits 8-15, termination signal in bits 0-6")
