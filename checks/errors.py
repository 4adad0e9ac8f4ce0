"""C35: an error that was reported makes the operation fail.

The compiler reports many errors without stopping (_tcc_error_noabort prints, counts and goes on).  From every such report
the fact "an error was reported" is followed along every path, through the results of functions and the error counter, to
the function of the programming interface that was called: it must not report success."""
import re, os
from sa.build import Tree, REPO
from sa.ir import Module
from sa.esp import Sim, Client, const, INF

REPORT = "_tcc_error_noabort"
POS = (1, INF, True)
# the values of TCCState.output_type (libtcc.h; 6 is a position independent executable)
KINDS = {1: "memory", 2: "executable", 3: "object file", 4: "shared library", 5: "preprocessor output",
         6: "position independent executable"}
FATAL = "an error that ends the compilation"


class Flow(Client):
    """state (reported and counted: 1, reported and the counter reset: 2; site of the report, the result it came with says failure)"""
    def __init__(self, an, f, pend, ctx=()):
        self.an, self.f, self.pend, self.ctx = an, f, pend, ctx
        self.flags = dict((i, v) for k, i, v in ctx if k == "flags")
        self.bits = dict((i, v) for k, i, v in ctx if k == "bits")
        self.out = {}

    def init(self, f):
        env = {}
        for k, i, v in self.ctx:
            if k == "arg":
                env[f.params[i][0]] = const(v)
        return [((self.pend, "", False), env)]

    def step(self, ts, env, x):
        an = self.an
        op = x.op
        if op == "load":
            k = an.field(x, x.ops[0])
            if k == an.off:
                # relative to the value at the beginning of the operation
                return [(ts, {x.id: POS if ts[0] == 1 else const(0)})]
            if k == an.otoff:
                return [(ts, {x.id: const(an.kind)})]
        if op == "load" and self.flags:
            i = an.paramflags(self.f, x)
            if i in self.flags:
                return [(ts, {x.id: const(self.flags[i])})]
        if op == "and" and self.bits and x.ops[1][0] == "i" and x.ops[0][0] == "v":
            i = self.f.pidx.get(x.ops[0][1])
            if i in self.bits:
                ones, zeros = self.bits[i]
                k = x.ops[1][1]
                if k & ~(ones | zeros) == 0:
                    return [(ts, {x.id: const(k & ones)})]
        if op == "store" and an.field(x, x.ops[1]) == an.off:
            v = self.sim.val(env, x.ops[0])
            if v == const(0):
                return [((2 if ts[0] else 0,) + ts[1:], None)]
            return [((1, ts[1] or an.here(x), False), None)]
        if op == "call":
            c = x.callee
            if c is None:
                return None
            if "setjmp" in c and c not in an.m.defined and an.field(x, x.ops[0]) is not None:
                return [(ts, {x.id: const(0)}), ((1, FATAL, False), {x.id: POS})]
            if c == REPORT:
                return [((1, ts[1] or an.here(x), False), {x.id: const(-1)} if x.ty else None)]
            s = an.summary(self.f, x)
            if s is None:
                return None
            out = []
            for (lo, hi, nz), p, site in s[ts[0]]:
                upd = None
                if x.ty and x.ty != "void" and not (lo == -INF and hi == INF) and (x.ty != "ptr" or hi == 0 or nz):
                    upd = {x.id: (lo, hi, nz)}
                fail = ts[2]
                if p and not ts[0]:
                    fail = bool(nz)
                out.append(((p, (ts[1] or site) if p else "", fail if p else False), upd))
            return out
        return None

    def exit(self, ts, env, t):
        r = (-INF, INF, False)
        if t.ops:
            r = self.sim.val(env, t.ops[0])
        for c in classes(r):
            self.out.setdefault((c, ts[0]), (ts[1], t, self.sim.path()))


def classes(r):
    lo, hi, nz = r
    out = []
    if lo < 0:
        out.append((lo if lo > -4 else -INF, min(hi, -1), True))
    if lo <= 0 <= hi and not nz:
        out.append((0, 0, False))
    if hi > 0:
        out.append((lo, hi, True) if lo == hi else (1, INF, True))
    return out


def known(f, o, depth=0):
    """the bits of a 32 bit value known to be one and to be zero"""
    if o[0] == "i":
        return o[1] & 0xffffffff, ~o[1] & 0xffffffff
    d = f.defs.get(o[1]) if o[0] == "v" else None
    if d is not None and d.op in ("or", "and") and depth < 6:
        a, b = known(f, d.ops[0], depth + 1), known(f, d.ops[1], depth + 1)
        if d.op == "or":
            return a[0] | b[0], a[1] & b[1]
        return a[0] & b[0], a[1] | b[1]
    return 0, 0


ANY = ((-INF, INF, False), 0, ""), ((-INF, INF, False), 1, "an error in the source")
ANY1 = (((-INF, INF, False), 1, ""),)
ANY2 = (((-INF, INF, False), 2, ""), ((-INF, INF, False), 1, "an error in the source"))


class Analysis:
    def __init__(self, m, kind, api):
        self.m, self.kind = m, kind
        self.off = m.field_off("TCCState", "nb_errors")
        self.otoff = m.field_off("TCCState", "output_type")
        self.shflags = m.field_off("Section", "sh_flags")
        skip = (REPORT, "error1", "_tcc_error", "_tcc_warning")
        rev, fwd = {}, {}
        touch = set()
        self.created = {}
        for n, f in m.defined.items():
            for x in f.insts():
                if x.op == "call" and x.callee:
                    if x.callee in m.defined:
                        rev.setdefault(x.callee, set()).add(n)
                        if n not in skip:
                            fwd.setdefault(n, set()).add(x.callee)
                    if x.callee == REPORT:
                        touch.add(n)
                if x.op in ("load", "store") and self.field(x, x.ops[-1]) == self.off:
                    touch.add(n)
                if x.op == "store" and x.ops[0][0] == "v":
                    d = f.defs.get(x.ops[0][1])
                    k = self.field(x, x.ops[1])
                    if k is not None and d is not None and d.op == "call" and d.callee in ("new_symtab", "new_section"):
                        fl = d.ops[3]
                        self.created.setdefault(k, set()).add(fl[1] if fl[0] == "i" else None)
        self.created = {k: list(v)[0] for k, v in self.created.items() if len(v) == 1 and None not in v}
        touch -= set(skip)
        self.reports = set(touch)
        work = list(touch)
        while work:
            for c in rev.get(work.pop(), ()):
                if c not in touch and c not in skip:
                    touch.add(c)
                    work.append(c)
        self.touch, self.rev, self.fwd = touch, rev, fwd
        # what is only reached from inside a compilation: it can report errors in the source, which are counted; the
        # compilation itself looks at the counter, so that no precise summary is needed
        out = set()
        work = [a for a in api if a in m.defined]
        while work:
            n = work.pop()
            if n in out:
                continue
            out.add(n)
            if n != "tcc_compile":
                work.extend(fwd.get(n, ()))
        self.live = touch & out
        self.inner = touch - out
        self.sums = {}
        self.users = {}
        self.todo = []
        self.res = {}
        self.api = [a for a in api if a in self.live]

    def here(self, x):
        return "a report in %s" % x.fn.name

    def field(self, x, o):
        if o[0] != "v":
            return None
        d = x.fn.defs.get(o[1])
        if d is None or d.op != "getelementptr" or d.d.get("var"):
            return None
        if "TCCState" not in str(d.d.get("sty", d.d.get("ety", "TCCState"))):
            return None
        return d.d.get("coff")

    def paramflags(self, f, x):
        """the parameter of f whose sh_flags instruction x loads"""
        d = f.defs.get(x.ops[0][1]) if x.ops[0][0] == "v" else None
        if d is not None and d.op == "getelementptr" and not d.d.get("var") and d.d.get("coff") == self.shflags and d.ops[0][0] == "v":
            return f.pidx.get(d.ops[0][1])
        return None

    def context(self, f, x):
        g = self.m.defined[x.callee]
        out = []
        for i, o in enumerate(x.ops[:len(g.params)]):
            if o[0] == "i" and x.callee in self.reports:
                out.append(("arg", i, o[1]))
            elif o[0] == "v":
                d = f.defs.get(o[1])
                if d is not None and d.op in ("or", "and"):
                    ones, zeros = known(f, o)
                    if ones or zeros:
                        out.append(("bits", i, (ones, zeros)))
                if d is not None and d.op == "load":
                    k = self.field(d, d.ops[0])
                    if k in self.created and x.callee in self.reports:
                        out.append(("flags", i, self.created[k]))
        return tuple(out)

    def summary(self, f, x):
        c = x.callee
        if c in self.inner:
            return (ANY, ANY1, ANY2)
        if c not in self.live:
            return None
        if c == "tcc_add_file" and "tcc_add_file_internal" in self.live:
            # a library the linker adds by its name is not compiled
            name = self.m.gstr(x.ops[1])
            if name is not None and name.rsplit(".", 1)[-1] not in ("c", "h", "i", "s", "S"):
                key = ("tcc_add_file_internal", (("bits", 2, (0x50, 0)),))
                self.users.setdefault(key, set()).add(self.cur)
                return self.get(key)
        key = (c, self.context(f, x))
        self.users.setdefault(key, set()).add(self.cur)
        return self.get(key)

    def get(self, key):
        if key not in self.sums:
            self.sums[key] = ((), (), ())
            self.todo.append(key)
        return self.sums[key]

    def run(self):
        for a in self.api:
            self.get((a, ()))
        n = 0
        while self.todo:
            key = self.todo.pop()
            n += 1
            if n > 6000:
                raise RuntimeError("no fixpoint")
            self.cur = key
            f = self.m.defined[key[0]]
            new = []
            for p in (0, 1, 2):
                c = Flow(self, f, p, key[1])
                Sim(f, c, max_states=20000).run()
                self.res[(key, p)] = c
                d = {(k, q): s[0] for (k, q), s in c.out.items()}
                for k, q, site in self.sums[key][p]:
                    d.setdefault((k, q), site)
                new.append(tuple(sorted(((k, q, s) for (k, q), s in d.items()), key=str)))
            if [[(a, q) for a, q, _ in s] for s in new] != [[(a, q) for a, q, _ in s] for s in self.sums[key]]:
                self.sums[key] = tuple(new)
                for u in self.users.get(key, ()):
                    if u not in self.todo:
                        self.todo.append(u)
        self.rounds = n
        return self


def interface():
    """the functions libtcc.h declares that answer with an int"""
    src = open(os.path.join(REPO, "lib/tinycc/libtcc.h")).read()
    return re.findall(r"LIBTCCAPI\s+int\s+(\w+)\s*\(", src)
# what can be asked for each kind of output
WHICH = {"tcc_run": (1,), "tcc_relocate": (1,), "tcc_output_file": (2, 3, 4, 6)}
# its answer is advisory: cjit goes on with the options of CFLAGS that tcc does not know
LENIENT = {"tcc_set_options"}


def run(R, tier):
    R.rules += [
        "from every report of an error (a call of _tcc_error_noabort, or the jump that ends a compilation) no path leads to the end of a function of the programming interface that returns 0 or more",
        "the front end looks at the result of every interface function that can report an error",
    ]
    R.assume += [
        "the error counter is compared with its value at the beginning of the operation; code of functions only reached from inside tcc_compile is taken to report any number of errors, through the counter",
        "a section's flags are those it was created with (distinguishes the tables of shared libraries, where duplicates are no error)",
        "a library that the linker itself names (libgcc_s.so.1) is read as a binary",
        "an error of a program that is run (not of the tool) is reported by the exit status, C09",
    ]
    tree = Tree()
    m = Module(tree.dump("tcc"))
    api = interface()
    R.need(api, "the interface of libtcc.h")
    R.need(REPORT in m.defined, "the function that counts errors")
    bad = {}
    live = set()
    for kind in KINDS:
        A = Analysis(m, kind, api).run()
        live |= set(A.api)
        R.count("kinds_of_output")
        R.count("function_contexts", len(A.sums))
        R.count("summaries_computed", A.rounds)
        R.count("functions_that_report", len(A.reports & A.live))
        for n in A.api:
            if kind not in WHICH.get(n, tuple(KINDS)):
                continue
            c = A.res.get(((n, ()), 0))
            R.need(c is not None, "the analysis of " + n)
            R.count("interface_functions")
            lost = [(q, s) for (q, p), s in c.out.items() if p and q[1] >= 0]
            R.obligation(ok=not lost)
            R.sample("%s, %s: %s" % (n, KINDS[kind], "; ".join("%s..%s with%s an error" % (lim(q[0]), lim(q[1]), "" if p else "out") for (q, p) in sorted(c.out, key=str))))
            for q, (site, t, path) in lost:
                bad.setdefault((n, site), []).append((kind, t, path, chain(A, n, site)))
    for (n, site), l in sorted(bad.items()):
        kinds = ", ".join(KINDS[k] for k, _, _, _ in l)
        _, t, path, ch = l[0]
        R.violation("C35:lost:%s:%s" % (n, site), t.where(), "error",
                    "%s returns success although %s (%s); the error is lost on the way %s; last steps: %s" %
                    (n, site, kinds, " < ".join(ch), " ".join(path[-6:])))
    src = Module(tree.dump("src"))
    for f in src.defined.values():
        used = set()
        for x in f.insts():
            for o in x.ops:
                if o[0] == "v":
                    used.add(o[1])
            if x.op == "phi":
                for v, _ in x.d["inc"]:
                    if v and v[0] == "v":
                        used.add(v[1])
        for x in f.insts():
            if x.op == "call" and x.callee in live and x.callee not in LENIENT:
                R.count("calls_of_the_front_end")
                ok = x.id in used
                R.obligation(ok=ok)
                if not ok:
                    R.violation("C35:ignored:%s:%s" % (f.name, x.callee), x.where(), "ignored",
                                "%s ignores the result of %s, which says that an error was reported" % (f.name, x.callee))
    R.floor("interface_functions", 20, "functions of the interface, for each kind of output")
    R.floor("functions_that_report", 20, "functions that report errors")
    R.floor("calls_of_the_front_end", 4, "uses of the interface by the front end")


def lim(v):
    return "" if abs(v) >= INF else str(v)


def chain(A, n, site):
    """the functions that answer 0 although the error was reported below them"""
    out = [n]
    for key, p in sorted(A.res, key=str):
        c = A.res[(key, p)]
        if p == 0 and key[0] not in out:
            for (q, pend), s in c.out.items():
                if pend and q[0] <= 0 <= q[1] and s[0] == site and A.m.defined[key[0]].ret not in (None, "void"):
                    out.append(key[0])
                    break
    return out[:8]
