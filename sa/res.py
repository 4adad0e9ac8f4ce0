"""Ownership / typestate of acquired resources (files, descriptors, directories,
heap blocks, mappings): every acquisition is released exactly once on every path,
nothing is used or released after release.  Summary based, bottom-up."""
from .ir import _op, operands, opvals
from .esp import Sim, Client, NONNULL, NULL, meet, INF, opvals_list

NONNEG = (0, INF, False)
NEGV = (-INF, -1, True)


class Family:
    def __init__(self, name, acquire, release, transfer=(), failval=NULL, okval=NONNULL, nullok=True, borrow_all=True):
        self.name = name
        self.acquire = dict(acquire)     # callee -> None (result)
        self.release = dict(release)     # callee -> arg index
        self.transfer = dict(transfer)   # callee -> (arg index, 'ok'|'always')  consumed
        self.failval, self.okval = failval, okval
        self.nullok = nullok


def heap(extra_acq=(), extra_rel=()):
    acq = {k: None for k in ("malloc", "calloc", "strdup", "strndup", "realloc", "realpath_null", "reallocarray") + tuple(extra_acq)}
    rel = {"free": 0}
    rel.update({k: 0 for k in extra_rel})
    return Family("heap", acq, rel, transfer={"realloc": 0})


FILEF = Family("FILE", {k: None for k in ("fopen", "fopen64", "fdopen", "tmpfile", "popen")}, {"fclose": 0, "pclose": 0}, nullok=False)
FDF = Family("fd", {k: None for k in ("open", "open64", "creat", "mkstemp", "dup")}, {"close": 0}, transfer={"fdopen": 0},
             failval=NEGV, okval=NONNEG, nullok=False)
DIRF = Family("DIR", {"opendir": None}, {"closedir": 0}, nullok=False)
MAPF = Family("mmap", {"mmap": None, "mmap64": None}, {"munmap": 0}, failval=(-1, -1, True), okval=NONNULL)
DLF = Family("dl", {"dlopen": None}, {"dlclose": 0})


def liveness(f):
    use, deff = [], []
    n = len(f.blocks)
    phiuse = [set() for _ in range(n)]
    for B in f.blocks:
        u, d = set(), set()
        for x in B.insts:
            if x.op == "phi":
                d.add(x.id)
                for v, pb in x.d["inc"]:
                    for w in opvals(_op(v)):
                        phiuse[pb].add(w)
                continue
            for o in operands(x):
                for w in opvals(o):
                    if w not in d:
                        u.add(w)
            if x.ty is not None:
                d.add(x.id)
        use.append(u)
        deff.append(d)
    live_in = [set() for _ in range(n)]
    ch = True
    order = f.rpo()[::-1]
    while ch:
        ch = False
        for b in order:
            out = set(phiuse[b])
            for s in f.blocks[b].succ:
                out |= live_in[s]
            li = use[b] | (out - deff[b])
            if li != live_in[b]:
                live_in[b] = li
                ch = True
    return live_in


class ResClient(Client):
    """track one acquisition site (or one parameter) of family fam in function f"""

    def __init__(self, eng, f, fam, site=None, param=None):
        self.eng, self.f, self.fam, self.site, self.param = eng, f, fam, site, param
        self.live = eng.live(f)
        self.found = {}
        self.exits = []   # (status, returned?, retval env)

    def init(self, f):
        if self.param is not None:
            pid = f.params[self.param][0]
            return [(("O", frozenset([pid])), {pid: self.fam.okval})]
        return [(("N", frozenset()), {})]

    # -- helpers
    def rep(self, kind, x, msg):
        k = (kind, x.where())
        if k not in self.found:
            self.found[k] = (kind, x, msg, self.sim.path())

    def holds(self, al, o):
        """does operand o denote (a pointer into) the tracked resource?"""
        for v in opvals(o):
            if v in al:
                return True
        return False

    def offset(self, o):
        """byte offset of operand relative to an alias with offset 0, None if unknown"""
        return self.sim.cell(o)

    def step(self, ts, env, x):
        st, al = ts
        fam = self.fam
        op = x.op
        if st == "N":
            if self.site is not None and x is self.site:
                return [(("O", frozenset([x.id])), {x.id: fam.okval}),
                        (("N", al), {x.id: fam.failval}),
                        (("N", al), {x.id: fam.okval})] if x.id in self.live_after(x) or True else None
            return None
        if st in ("E",):
            return None
        # redefinition of an alias id
        if x.ty is not None and x.id in al and op != "phi":
            al = al - {x.id}
        new = al
        if op in ("getelementptr", "bitcast", "freeze") or (op in ("sext", "zext", "trunc") and fam.name == "fd"):
            if self.holds(al, x.ops[0]):
                new = al | {x.id}
        elif op == "select":
            if self.holds(al, x.ops[1]) or self.holds(al, x.ops[2]):
                new = al | {x.id}
        elif op in ("ptrtoint", "inttoptr") or (op in ("add", "sub", "and") and x.ty == "i64" and fam.name != "fd"):
            if any(self.holds(al, o) for o in x.ops):
                new = al | {x.id}
        elif op == "load":
            k = self.sim.cell(x.ops[0])
            if k is not None and ("c",) + k in al:
                new = al | {x.id}
            elif st == "C" and fam.name == "heap" and self.holds(al, x.ops[0]):
                self.rep("use-after-release", x, "memory read through a pointer that was already released")
        elif op == "store":
            k = self.sim.cell(x.ops[1])
            if k is not None and ("c",) + k in al:
                new = new - {("c",) + k}
            if self.holds(al, x.ops[0]):
                if k is not None and k[0] == "a" and (k[1] not in self.sim.esc or True):
                    new = new | {("c",) + k}
                elif st == "O":
                    return [(("E", frozenset()), None)]
            elif st == "C" and fam.name == "heap" and self.holds(al, x.ops[1]):
                self.rep("use-after-release", x, "memory written through a pointer that was already released")
        elif op == "call":
            r = self.call(st, al, env, x)
            if r is not None:
                return r
            return None if al == ts[1] else [((st, al), None)]
        elif op == "ret":
            pass
        if new != ts[1] or al != ts[1]:
            return [((st, new), None)]
        return None

    def live_after(self, x):
        return ()

    def call(self, st, al, env, x):
        fam = self.fam
        c = x.callee
        base = (st, al)
        if c and c.startswith("llvm.") and not c.startswith("llvm.mem"):
            return None
        rel = None
        if c in fam.release:
            i = fam.release[c]
            if i < len(x.ops) and self.holds(al, x.ops[i]):
                rel = i
        if rel is not None:
            o = x.ops[rel]
            if fam.name == "heap" and not self.exact(al, o):
                self.rep("bad-release", x, "release of a pointer that is not the start of the block")
            if st == "C":
                self.rep("double-release", x, "released twice")
                return [(("E", frozenset()), None)]
            return [(("C", al), None)]
        if c in fam.transfer:
            i = fam.transfer[c]
            always = isinstance(i, tuple)
            if always:
                i = i[0]
            if i < len(x.ops) and self.holds(al, x.ops[i]):
                if st == "C":
                    self.rep("use-after-release", x, "passed to %s after release" % c)
                    return [(("E", frozenset()), None)]
                # consumed on success, kept on failure
                res = [(("E", frozenset()), {x.id: NONNULL} if x.ty else None)]
                if x.ty and not always:
                    res.append((base, {x.id: NULL}))
                return res
        # other calls
        args = [(i, o) for i, o in enumerate(x.ops) if self.holds(al, o)]
        holders = []
        for i, o in enumerate(x.ops):
            k = self.sim.cell(o)
            if k is not None and k[0] == "a" and any(isinstance(a, tuple) and a[1] == "a" and a[2] == k[1] for a in al):
                holders.append(i)
        if not args and not holders:
            return None
        if st == "C":
            if args:
                if fam.name != "heap" or True:
                    self.rep("use-after-release", x, "passed to %s after release" % (c or "indirect call"))
                return [(("E", frozenset()), None)]
            return None
        if c is None:
            return [(("E", frozenset()), None)]   # indirect call: unknown
        out = []
        if holders:
            callee = self.eng.mod.funcs.get(c)
            if callee is not None and not callee.decl:
                if any(not self.eng.reads_only(callee, i) for i in holders):
                    return [(("E", frozenset()), None)]
        for i, o in args:
            s = self.eng.param_summary(c, i, fam, x)
            if s == "borrow":
                continue
            if s == "release":
                return [(("C", al), None)]
            if s == "retalias":
                out.append("alias")
                continue
            if isinstance(s, tuple) and s[0] == "cond":
                # released on some returns, depending on the result
                res = []
                if s[1] is not None:
                    res.append((("C", al), {x.id: s[1]} if x.ty else None))
                if s[2] is not None:
                    res.append((("O", al), {x.id: s[2]} if x.ty else None))
                return res
            return [(("E", frozenset()), None)]
        if "alias" in out and x.ty == "ptr":
            return [(("O", al | {x.id}), None)]
        return None

    def exact(self, al, o):
        """False when o certainly differs from the start of the block"""
        off = 0
        seen = set()
        while True:
            if o[0] == "gep":
                off += o[2]
                if not o[3]:
                    return False
                o = o[1]
                continue
            if o[0] == "v":
                x = self.f.defs.get(o[1])
                if x is not None and x.op == "getelementptr" and o[1] not in seen:
                    seen.add(o[1])
                    if x.d.get("var"):
                        return False
                    off += x.d["coff"]
                    o = x.ops[0]
                    continue
            return off == 0

    def phis(self, ts, env, phis, vals):
        st, al = ts
        if st in ("N", "E") or not phis:
            return ts
        add, rem = set(), set()
        for p in phis:
            o = vals.get(p.id)
            if o is not None and self.holds(al, o):
                add.add(p.id)
            elif p.id in al:
                rem.add(p.id)
        if add or rem:
            return (st, frozenset((al - rem) | add))
        return ts

    def edge(self, ts, env, B, succ):
        st, al = ts
        if st in ("N", "E"):
            return ts
        # a refinement may have shown that this is the failed acquisition
        live = self.live[succ]
        phid = {p.id for p in self.f.blocks[succ].insts if p.op == "phi"}
        keep = frozenset(a for a in al if isinstance(a, tuple) or a in live or a in phid)
        if not keep:
            # a block that cannot reach a return ends the process: the system releases
            if st == "O" and succ in self.eng.returning(self.f):
                t = B.insts[-1]
                self.lost(t, B)
            return None
        return (st, keep)

    def lost(self, t, B):
        if self.param is not None:
            self.exits.append(("O", False, None, t))
            return
        self.rep("leak", t, "the last reference is dropped without a release")

    def exit(self, ts, env, t):
        st, al = ts
        if st == "N":
            return
        ret = bool(t.ops) and self.holds(al, t.ops[0])
        rv = self.sim.val(env, t.ops[0]) if t.ops else None
        self.exits.append((st, ret, rv, t))
        if self.param is not None:
            return
        if st == "O" and not ret:
            self.rep("leak", t, "still held at function exit")
        if st == "C" and ret and self.fam.name != "fd":
            self.rep("use-after-release", t, "released and then returned to the caller")


class Engine:
    def __init__(self, mod, families, recursion_default="escape", ext_escape=(), skip_sites=()):
        self.mod = mod
        self.families = families
        self._live = {}
        self._psum = {}
        self._acq = {fam.name: dict(fam.acquire) for fam in families}
        self._ro = {}
        self._rets = {}
        self.ext_escape = dict(ext_escape)
        self.sites = 0
        self.skip_sites = set(skip_sites)
        self.results = []

    def live(self, f):
        if f.name not in self._live:
            self._live[f.name] = liveness(f)
        return self._live[f.name]

    def returning(self, f):
        """blocks from which a return is reachable"""
        if f.name not in self._rets:
            ok = set(B.i for B in f.blocks if B.insts and B.insts[-1].op == "ret")
            work = list(ok)
            while work:
                b = work.pop()
                for p in f.blocks[b].pred:
                    if p not in ok and not any(x.op == "call" and x.d.get("noreturn") for x in f.blocks[p].insts):
                        ok.add(p)
                        work.append(p)
            self._rets[f.name] = ok
        return self._rets[f.name]

    def reads_only(self, f, i, depth=0):
        """callee parameter i (pointer) is never written through / captured"""
        key = (f.name, i)
        if key in self._ro:
            return self._ro[key]
        self._ro[key] = False
        if i >= len(f.params):
            return False
        ok = True
        work, seen = [f.params[i][0]], set()
        while work and ok:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in f.uses.get(v, []):
                if u.op in ("getelementptr", "bitcast", "phi", "select"):
                    work.append(u.id)
                elif u.op in ("load", "icmp"):
                    pass
                elif u.op == "call":
                    c = self.mod.funcs.get(u.callee) if u.callee else None
                    if c is None or c.decl:
                        if u.callee in ("strlen", "strcmp", "fprintf", "memcmp", "strncmp"):
                            continue
                        ok = False
                    else:
                        for j, o in enumerate(u.ops):
                            if v in opvals_list(o) and not (depth < 4 and self.reads_only(c, j, depth + 1)):
                                ok = False
                else:
                    ok = False
        self._ro[key] = ok
        return ok

    def param_summary(self, cname, i, fam, x=None):
        if (cname, i) in self.ext_escape:
            return self.ext_escape[(cname, i)]
        f = self.mod.funcs.get(cname)
        if f is None or f.decl:
            if cname in ("setvbuf", "strchr", "strrchr", "strstr", "strcpy", "strcat", "strncpy", "memcpy", "strpbrk", "stpcpy", "fgets", "memchr", "memmove", "strncat", "realpath", "getcwd"):
                # results aliasing arguments
                if i == 0 and cname not in ("setvbuf",):
                    return "retalias"
            return "borrow"
        key = (cname, i, fam.name)
        if key in self._psum:
            return self._psum[key]
        self._psum[key] = "borrow"  # recursion: optimistic
        if i >= len(f.params):
            self._psum[key] = "escape" if f.vararg and False else "borrow"
            return self._psum[key]
        cl = ResClient(self, f, fam, param=i)
        try:
            Sim(f, cl).run()
        except RuntimeError:
            self._psum[key] = "escape"
            return "escape"
        sts = set((s, r) for s, r, _, _ in cl.exits)
        kinds = set(s for s, r in sts)
        if not cl.exits:
            res = "borrow"
        elif kinds == {"O"}:
            res = "retalias" if any(r for _, r in sts) else "borrow"
        elif kinds == {"C"}:
            res = "release"
        elif "E" in kinds:
            res = "escape"
        else:
            # mixture of released / still open: correlate with the return value
            rc = ro = None
            okc = True
            for s, r, rv, t in cl.exits:
                if rv is None:
                    okc = False
                    break
                if s == "C":
                    rc = rv if rc is None else (min(rc[0], rv[0]), max(rc[1], rv[1]), rc[2] and rv[2])
                else:
                    ro = rv if ro is None else (min(ro[0], rv[0]), max(ro[1], rv[1]), ro[2] and rv[2])
            res = ("cond", rc, ro) if okc and (rc is None or ro is None or meet(rc, ro) is None) else "escape"
        self._psum[key] = res
        return res

    def run(self, funcs=None):
        """analyse every acquisition site; iterate so that wrappers become acquirers"""
        fl = [f for f in self.mod.defined.values() if funcs is None or funcs(f)]
        for fam in self.families:
            acq = self._acq[fam.name]
            done = set()
            ch = True
            while ch:
                ch = False
                for f in fl:
                    for x in list(f.calls()):
                        if x.callee not in acq or (f.name, x.id) in done:
                            continue
                        if f.name in acq and x.callee == f.name:
                            continue
                        done.add((f.name, x.id))
                        ch = True
                        self.sites += 1
                        cl = ResClient(self, f, fam, site=x)
                        Sim(f, cl).run()
                        for k in cl.found.values():
                            self.results.append((fam.name, f, x) + k)
                        if any(r and s == "O" for s, r, _, _ in cl.exits) and f.name not in acq:
                            acq[f.name] = x
        return self.results
