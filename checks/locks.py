"""C30: the compiler's implicit state is used only while it is entered and released afterwards.
C31: every semaphore, mutex and spin lock is released on every path and never taken twice.

One analysis for both: a lock automaton per lock object, propagated flow- and context-sensitively over
the call graph (function summaries: entry state -> set of exit states, least fixpoint)."""
import re, os
from sa.build import Tree, REPO
from sa.ir import Module, irname, _op, operands

PASSES = "function(sroa,dce)"
ACQ = {"wait_sem", "pthread_mutex_lock", "pthread_spin_lock", "sem_wait", "pthread_rwlock_wrlock"}
REL = {"post_sem", "pthread_mutex_unlock", "pthread_spin_unlock", "sem_post", "pthread_rwlock_unlock"}
TRY = {"pthread_mutex_trylock", "pthread_spin_trylock", "sem_trywait"}
INIT = {"sem_init", "pthread_mutex_init", "pthread_spin_init"}
DESTROY = {"sem_destroy", "pthread_mutex_destroy", "pthread_spin_destroy"}
PRIM = ACQ | REL | TRY | INIT | DESTROY
FREE, HELD, SESS = "free", "held", "session"


def lockobj(x):
    o = x.ops[0] if x.ops else None
    while o and o[0] in ("gep", "ce"):
        o = o[1] if o[0] == "gep" else o[2]
    return o[1] if o and o[0] == "g" else None


class Auto:
    """summaries for one lock"""

    def __init__(self, R, m, lock, session=None, var=None):
        self.R, self.m, self.lock = R, m, lock
        self.session = session          # (struct, offset) of the flag that marks a session on the state
        self.var = var                  # global that is only valid while the lock is held
        self.sum = {}
        self.errs = {}
        self.where = {}
        self.tracked = set()
        if session:
            self.tracked = self._tracked()
        self.relevant = self._relevant()
        self.guards = self._guards()

    # -- which functions can change or look at the automaton
    def touches(self, x):
        if x.op == "call" and x.callee in PRIM and lockobj(x) == self.lock:
            return True
        if x.op == "call" and x.callee in ("_setjmp", "setjmp", "longjmp"):
            return self.session is not None
        if self.session and x.op in ("load", "store") and self.isflag(x):
            return True
        if self.var and x.op == "load" and x.ops[0] == ("g", self.var):
            return True
        if x.op == "store" and x.ops[1][0] == "g" and x.ops[1][1] in self.tracked:
            return True
        return False

    def _tracked(self):
        """integer globals compared with constants next to the session flag's functions: their value is
        correlated with the state (a pending #if expression exists only inside a session)"""
        files = {f.file for f in self.m.defined.values() if any(x.op == "call" and x.callee in PRIM and lockobj(x) == self.lock for x in f.insts())}
        out = set()
        for f in self.m.defined.values():
            if f.file in files:
                for B in f.blocks:
                    c = self.cond(f, B.insts[-1], any_cmp=True) if B.insts else None
                    if c and c[0][0] == "g" and len(out) < 4:
                        out.add(c[0][1])
        stored = {x.ops[1][1] for f in self.m.defined.values() for x in f.insts() if x.op == "store" and x.ops[1][0] == "g" and x.ops[0][0] == "i"}
        return out & stored

    def isflag(self, x):
        o = x.ops[1] if x.op == "store" else x.ops[0]
        f = x.fn
        for _ in range(4):
            p = None
            if o[0] == "gep":
                p = o[4] if len(o) > 4 else ()
                o = o[1]
            elif o[0] == "v":
                d = f.defs.get(o[1])
                if d is None or d.op != "getelementptr":
                    return False
                p = d.d.get("path", [])
                o = d.ops[0] if d.ops else ("n",)
            else:
                return False
            if any(e[0] == "s" and len(e) > 3 and self.field(e[1], e[2]) == self.session for e in p):
                return True
        return False

    def instate(self, f, o):
        """the pointer points into the structure that holds the session flag"""
        for _ in range(6):
            if o[0] == "gep":
                p, o = (o[4] if len(o) > 4 else ()), o[1]
            elif o[0] == "v" and o[1] in f.defs and f.defs[o[1]].op == "getelementptr":
                d = f.defs[o[1]]
                p, o = d.d.get("path", []), d.ops[0]
            else:
                return False
            for e in p:
                if e[0] == "s":
                    st = self.m.structs.get(e[1]) or self.m.structs.get(irname(e[1]))
                    if st and any(n == self.session for n, _, _, _ in st["fields"]):
                        return True
        return False

    def field(self, s, idx):
        st = self.m.structs.get(s) or self.m.structs.get(irname(s))
        if not st or idx >= len(st["fields"]):
            return None
        return st["fields"][idx][0]

    def _relevant(self):
        rel = set()
        for f in self.m.defined.values():
            if any(self.touches(x) for x in f.insts()):
                rel.add(f.name)
        ch = True
        while ch:
            ch = False
            for f in self.m.defined.values():
                if f.name not in rel and any(x.callee in rel for x in f.calls()):
                    rel.add(f.name)
                    ch = True
        return rel

    def _guards(self):
        """the global tested directly in front of the operations on the lock (`if (use_sem) lock`)"""
        g = {}
        for f in self.m.defined.values():
            for x in f.calls():
                if x.callee in (ACQ | REL) and lockobj(x) == self.lock and len(x.blk.pred) == 1:
                    c = self.cond(f, f.blocks[x.blk.pred[0]].insts[-1])
                    if c and c[0][0] == "g":
                        g[c[0][1]] = g.get(c[0][1], 0) + 1
        return {max(g, key=g.get)} if g else set()

    def cond(self, f, t, any_cmp=False):
        """(what is tested, nonzero on the true edge) for a branch on a load compared with zero;
        any_cmp: also `> c` with c >= 0, where only the true edge says something"""
        if t.op != "br" or not t.ops or t.ops[0][0] != "v":
            return None
        c = f.defs.get(t.ops[0][1])
        neg = False
        for _ in range(6):
            if c is None:
                return None
            if c.op == "icmp" and c.d.get("pred") in ("eq", "ne") and c.ops[1][0] in ("i", "n") and (c.ops[1][0] == "n" or c.ops[1][1] == 0):
                if c.d["pred"] == "eq":
                    neg = not neg
                o = c.ops[0]
            elif any_cmp and c.op == "icmp" and c.d.get("pred") in ("sgt", "ugt", "sge") and c.ops[1][0] == "i" and c.ops[1][1] >= (1 if c.d["pred"] == "sge" else 0):
                o = c.ops[0]
            elif c.op in ("zext", "sext", "trunc", "freeze"):
                o = c.ops[0]
            elif c.op == "xor" and c.ops[1][0] == "i" and c.ops[1][1] & 1:
                neg = not neg
                o = c.ops[0]
            elif c.op == "load":
                o = c.ops[0]
                if self.session and self.isflag(c):
                    return (("flag", c.id), not neg)
                if o[0] == "g":
                    return (("g", o[1]), not neg)
                return None
            else:
                return None
            if o[0] != "v":
                return None
            c = f.defs.get(o[1])
        return None

    def run(self, name, st):
        k = (name, st)
        if k in self.sum:
            return self.sum[k]
        self.sum[k] = frozenset()
        self.work = True
        return self.sum[k]

    def solve(self, roots):
        for r in roots:
            self.run(*r)
        n = 0
        names = {r[0] for r in roots}
        while True:
            n += 1
            # what an API function leaves behind is what the next one starts with
            left = {q for r in names for (a, b), v in list(self.sum.items()) if a == r and b[0] == FREE for q in v if q[0] == FREE}
            for q in left:
                for r in names:
                    self.run(r, q)
            before = dict(self.sum)
            for k in list(self.sum):
                self.sum[k] = self.analyse(*k)
            if self.sum == before or n > 60:
                break
        self.iters = n

    def err(self, f, st, x, kind, msg):
        self.errs.setdefault((f.name, kind, x.callee or x.op, msg), x)

    def analyse(self, name, st):
        f = self.m.defined.get(name)
        if f is None or name not in self.relevant:
            return frozenset([st])
        ins = {0: {st}}
        work = [0]
        exits = set()
        while work:
            b = work.pop()
            cur = set(ins[b])
            B = f.blocks[b]
            for x in B.insts:
                if x.op == "ret":
                    exits |= cur
                    break
                if x.op == "unreachable":
                    cur = set()
                    break
                cur = self.step(f, cur, x)
                if not cur:
                    break
            if not cur:
                continue
            t = B.insts[-1]
            c = self.cond(f, t, any_cmp=True) if t.op == "br" and len(B.succ) == 2 else None
            for i, s in enumerate(B.succ):
                out = set(cur)
                if c:
                    val = c[1] if i == 0 else not c[1]
                    if c[0][0] == "flag":
                        ld = f.defs[c[0][1]]
                        if ld.blk is B and not any(y.op == "call" and (y.callee in self.relevant or y.callee in PRIM) for y in B.insts[ld.idx:]):
                            out = {q for q in out if (q[0] == SESS) == val}
                    elif c[0][1] in self.guards:
                        if not val:
                            out = set()
                    elif c[0][1] in self.tracked and val:
                        out = {q for q in out if c[0][1] in q[1]}
                if not out:
                    continue
                old = ins.get(s, set())
                if not out <= old:
                    ins[s] = old | out
                    if s not in work:
                        work.append(s)
        return frozenset(exits) | self.sum[(name, st)]

    def step(self, f, cur, x):
        locks = {q[0] for q in cur}
        to = lambda s: {(s, q[1]) for q in cur}
        if x.op == "call":
            n = x.callee
            if n in PRIM:
                if lockobj(x) != self.lock:
                    return cur
                if n in ACQ:
                    if locks - {FREE}:
                        self.err(f, cur, x, "double-acquire", "takes %s while it is already held: the thread waits for itself" % self.lock)
                    return to(HELD)
                if n in REL:
                    if FREE in locks:
                        self.err(f, cur, x, "unheld-release", "releases %s on a path where it is not held" % self.lock)
                    return to(FREE)
                if n in TRY:
                    return to(HELD)
                return to(FREE) if n in INIT else cur
            if n in ("_setjmp", "setjmp"):
                return cur | {(SESS, frozenset(self.tracked))} if self.session and self.instate(f, x.ops[0]) else cur
            if n == "longjmp":
                if self.session and locks - {SESS}:
                    self.err(f, cur, x, "jump-out", "leaves by longjmp outside a compile session")
                return set()
            if n in self.relevant:
                out = set()
                for q in cur:
                    out |= self.run(n, q)
                self.R.count("calls")
                return out
            g = self.m.funcs.get(n) if n else None
            if g is not None and g.noreturn:
                return set()
            if n is None and not self.session and HELD in locks and self.program(f, x):
                self.err(f, cur, x, "program-code", "calls into the compiled program while holding %s (the program's code can need the lock)" % self.lock)
            return cur
        if self.session and x.op == "store" and self.isflag(x):
            v = x.ops[0]
            if v[0] == "i" and v[1] == 1:
                if FREE in locks:
                    self.err(f, cur, x, "session", "starts a compile session without having entered the state")
                return to(SESS)
            if v[0] == "i" and v[1] == 0:
                return {(HELD if q[0] == SESS else q[0], q[1]) for q in cur}
        if x.op == "store" and x.ops[1][0] == "g" and x.ops[1][1] in self.tracked:
            g = frozenset([x.ops[1][1]])
            if x.ops[0][0] == "i" and x.ops[0][1] == 0:
                return {(q[0], q[1] - g) for q in cur}
            return {(q[0], q[1] | g) for q in cur}
        if self.var and x.op == "load" and x.ops[0] == ("g", self.var) and FREE in locks:
            self.err(f, cur, x, "use-unentered", "uses %s on a path where no state is entered (it is NULL or belongs to another thread)" % self.var)
        return cur

    def program(self, f, x):
        """the called pointer is a symbol looked up in the compiled program"""
        o = x.d.get("fptr")
        seen = set()
        work = [_op(o)] if o else []
        while work:
            o = work.pop()
            if o[0] != "v" or o[1] in seen:
                continue
            seen.add(o[1])
            d = f.defs.get(o[1])
            if d is None:
                continue
            if d.op == "call" and d.callee in ("tcc_get_symbol", "get_sym_addr", "dlsym"):
                return True
            if d.op in ("phi", "select", "inttoptr", "ptrtoint", "bitcast"):
                work += [p for p in operands(d)]
        return False


Z = (FREE, frozenset())


def api(m):
    """functions called from outside the module: the public header and the front end"""
    names = set()
    p = os.path.join(REPO, "lib/tinycc/libtcc.h")
    if os.path.exists(p):
        names |= set(re.findall(r"\b(_?tcc_\w+)\s*\(", open(p, errors="replace").read()))
    return {n for n in names if n in m.defined}


def callbacks(m):
    """functions whose address is taken"""
    return {f.name for f in m.defined.values() if f.addrtaken}


def locks_of(m):
    out = set()
    for f in m.defined.values():
        for x in f.calls():
            if x.callee in ACQ | TRY and lockobj(x):
                out.add(lockobj(x))
    return out


def report(R, A, roots, names):
    for (fn, kind, what, msg), x in sorted(A.errs.items(), key=lambda e: e[0]):
        R.violation("%s|%s|%s|%s" % (A.lock, fn, kind, what), x.where(), kind, "%s %s" % (fn, msg))
    for n in sorted(names):
        ex = A.sum.get((n, Z), frozenset())
        bad = [q[0] for q in ex if q[0] != FREE]
        R.obligation(not bad)
        if bad:
            f = A.m.defined[n]
            R.violation("%s|%s|leaves-held" % (A.lock, n), "%s:%d" % (os.path.basename(f.file or "?"), f.line or 0), "balanced",
                        "%s can return with %s %s" % (n, A.lock, "still held" if HELD in bad else "still in a compile session"))


def c30(R, tier):
    T = Tree()
    m = Module(T.dump(("tcc",), passes=PASSES))
    src = Module(T.dump(("src",), passes=PASSES))
    names = api(m)
    for f in src.defined.values():
        for x in f.calls():
            if x.callee in m.defined:
                names.add(x.callee)
    flag = [n for s in m.structs.values() for n, o, z, t in s["fields"] if n == "error_set_jmp_enabled"]
    R.need(flag, "the session flag of the compiler state")
    en = m.defined.get("tcc_enter_state")
    R.need(en, "tcc_enter_state")
    lock = [lockobj(x) for x in en.calls() if x.callee in ACQ]
    R.need(lock and lock[0], "the lock taken by tcc_enter_state")
    A = Auto(R, m, lock[0], "error_set_jmp_enabled", "tcc_state" if "tcc_state" in m.globals else None)
    small = {f.name for f in m.defined.values() if f.internal and not f.addrtaken and sum(1 for _ in f.insts()) <= 25
             and not any(not (x.callee or "").startswith("llvm.") for x in f.calls()) and any(x.op == "load" and A.isflag(x) for x in f.insts())}
    if small:
        # helpers that only ask for the flag: their answer has to stay correlated with the branch on it
        m = Module(T.dump(("tcc",), passes="always-inline,function(sroa,dce)", inline=True, keep=tuple(sorted(names)),
                          noinline=tuple(n for n in m.defined if n not in small)))
        A = Auto(R, m, lock[0], "error_set_jmp_enabled", A.var)
    A.solve([(n, Z) for n in names])
    report(R, A, None, names)
    for k in A.sum:
        R.count("contexts")
        if k[0] in A.relevant:
            R.count("relevant_contexts")
    R.count("api", len(names))
    R.obligation(True, sum(1 for k in A.sum if k[0] in A.relevant))
    R.floor("api", 15, "API functions")
    R.floor("relevant_contexts", 50, "functions that enter, leave or use the state")
    R.rules.append("lock automaton free/entered/compile-session over the call graph with function summaries; rules: no second enter while entered, "
                   "no release while free, the implicit state is read only while entered, longjmp only from a session, every API function returns in state free.")
    R.assume.append("callbacks (error, backtrace functions) do not enter the compiler again")


def c31(R, tier):
    T = Tree()
    nl = 0
    for grp in ("tcc", "lib/tinycc/lib/bcheck.c", "lib/tinycc/lib/bt-exe.c", "src"):
        try:
            m = Module(T.dump((grp,) if "/" not in grp else [grp], passes=PASSES))
        except Exception:
            R.notes.append("no unit " + grp)
            continue
        cs = {"wait_sem", "post_sem"}
        for lock in sorted(locks_of(m)):
            if grp == "tcc" and lock == "tcc_compile_sem":
                continue
            A = Auto(R, m, lock)
            called = {x.callee for n in A.relevant for x in m.defined[n].calls()}
            names = {n for n in A.relevant if not m.defined[n].internal or n not in called or m.defined[n].addrtaken}
            # functions that only wrap one operation are part of the lock's interface
            wrap = {n for n in names if wrapper(m, n)}
            names -= wrap
            A.solve([(n, Z) for n in sorted(names)])
            report(R, A, None, names)
            R.count("functions", len([n for n in A.relevant]))
            R.count("locks")
            for n in sorted(wrap):
                R.sample("%s: wrapper %s" % (lock, n))
    R.floor("locks", 2, "lock objects")
    R.floor("functions", 20, "functions that use a lock")
    R.rules.append("lock automaton free/held per lock object over the call graph with function summaries: no acquire while held, no release while free, "
                   "every externally callable function returns with the lock free; a lock guarded by a global flag is analysed with the flag set.")


def wrapper(m, n):
    """straight-line function performing exactly one lock operation"""
    f = m.defined[n]
    ops = [x for x in f.calls() if x.callee in PRIM]
    if len(ops) != 1 or ops[0].callee not in ACQ | REL:
        return False
    return not [x for x in f.calls() if x.callee and x.callee not in PRIM and not x.callee.startswith("llvm.")] and len(f.blocks) <= 8
