"""C41: a pointer into a buffer that can grow is not used after the buffer may have been moved or released.

A *cell* is a place that holds the address of a heap block (a field of a section, a dynamic array, a global).  For every
function the analysis infers which cells it may reallocate or free (directly or through what it calls), written as access
paths from its parameters and the globals; which of its results point into the block of a cell; and which parameters it
still uses after such a call.  In each function the values derived from a cell's block are then followed over the control
flow: a use of one that is reachable from a call moving that same cell, without the value having been computed anew, is
reported.  Two access paths are taken for the same cell only when they are equal, so that a report is definite."""
import re
from sa.build import Tree
from sa.ir import Module, _op

RELEASE = {"free": 0, "realloc": 0, "tcc_free": 0, "tcc_realloc": 0, "reallocarray": 0}
DEPTH = 4
# a message about a bad #if expression prints the rest of that line, which holds no declaration or statement: nothing is generated
# ; a library is loaded in binary-only mode, which compiles nothing, so that options in a source's #pragma cannot change the search paths
NOEFFECT = {"error1", "pragma_parse"}
READD = {"set_elf_sym": 6, "put_elf_sym": 6}


HOW = {"read": "is read through", "written": "is written through", "copied": "is copied from or to", "released again": "is released again"}


class Fn:
    def __init__(self):
        self.eff = {}           # cell -> (how, text)
        self.mods = set()       # cells holding addresses that are overwritten
        self.ret = set()        # cells the result points into
        self.retall = None
        self.late = set()       # (parameter, cell): the parameter is used after the cell moved
        self.deref = set()      # parameters whose target is accessed
        self.rel = set()        # parameters that are released themselves

    def sig(self):
        return (frozenset(self.eff), frozenset(self.mods), frozenset(self.ret), frozenset(self.late), frozenset(self.deref), frozenset(self.rel))


def depth(P):
    r = P[0]
    return 0 if r[0] != "*" else 1 + depth(r[1])


def base(P):
    while P[0][0] == "*":
        P = P[0][1]
    return P[0]


def chain(P):
    """the cells whose contents P depends on"""
    while P[0][0] == "*":
        P = P[0][1]
        yield P


class Moved:
    def __init__(self, m, R, single=("struct.TCCState",)):
        self.m, self.R = m, R
        self.single = single
        self.sum = {n: Fn() for n in m.defined}
        self.pc = {}
        self.found = {}
        self.work = 0
        self.uses = 0
        self.data, self.link = m.field_off("Section", "data"), m.field_off("Section", "link")
        self.fill = m.field_off("Section", "data_offset")

    # ---------------------------------------------------------------- access paths
    def path(self, f, o, lvl=0):
        """(root, offset) of a pointer operand"""
        if o[0] == "g":
            return (("g", o[1]), 0)
        if o[0] == "gep":
            p = self.path(f, o[1], lvl + 1)
            if p is None or not o[3]:
                return None
            return (p[0], p[1] + o[2])
        if o[0] != "v":
            return None
        key = (f.name, o[1])
        if key in self.pc:
            return self.pc[key]
        self.pc[key] = ((("v", f.name, o[1])), 0)
        r = self.path1(f, o, lvl)
        if r is None or depth(r) > DEPTH:
            r = (("v", f.name, o[1]), 0)
        self.pc[key] = r
        return r

    def path1(self, f, o, lvl):
        if o[1] in f.pidx:
            return (("p", f.pidx[o[1]]), 0)
        x = f.defs.get(o[1])
        if x is None or lvl > 40:
            return None
        if x.op == "getelementptr":
            if x.d.get("ety", "").lstrip("%") in self.single:
                if x.d.get("var"):
                    return None
                return (("S", x.d["ety"]), x.d["coff"])
            if x.d.get("var"):
                return None
            p = self.path(f, x.ops[0], lvl + 1)
            return None if p is None else (p[0], p[1] + x.d["coff"])
        if x.op == "load" and x.ty == "ptr":
            p = self.path(f, x.ops[0], lvl + 1)
            return None if p is None else (("*", p), 0)
        if x.op in ("bitcast", "freeze"):
            return self.path(f, x.ops[0], lvl + 1)
        if x.op == "alloca":
            return None
        return None

    def subst(self, f, x, P):
        """a callee's access path at a call"""
        r = P[0]
        if r[0] == "p":
            if r[1] >= len(x.ops):
                return None
            a = self.path(f, x.ops[r[1]])
            return None if a is None else (a[0], a[1] + P[1])
        if r[0] == "*":
            q = self.subst(f, x, r[1])
            return None if q is None else (("*", q), P[1])
        if r[0] == "v":
            return None
        return P

    # ---------------------------------------------------------------- one function
    def callee(self, x):
        c = x.callee
        if not c or c.startswith("llvm."):
            return None
        return c

    def effects(self, f, x):
        """[(cell, text)], [overwritten cells], of a call"""
        c = self.callee(x)
        if c in RELEASE:
            return [], []
        s = self.sum.get(c)
        if s is None:
            return [], []
        out = []
        if self.readd(f, x):
            return [], []
        for P, t in s.eff.items():
            q = self.subst(f, x, P)
            if q is not None and depth(q) <= DEPTH:
                out.append((q, c))
        mods = []
        for P in s.mods:
            q = self.subst(f, x, P)
            if q is not None and depth(q) <= DEPTH:
                mods.append(q)
        return out, mods

    def readd(self, f, x):
        """a symbol is entered into a table under a name that is in that table's own strings: it is found there (set_elf_sym), or the
        tables were emptied before and are filled again in place (put_elf_sym); neither makes the tables grow"""
        j = READD.get(x.callee)
        if j is None or j >= len(x.ops) or x.ops[j][0] != "v":
            return False
        a, b = self.path(f, x.ops[0]), self.root(f, x.ops[j])
        if a is None or b is None or b[1] != 0 or b[0][0] != "*":
            return False
        c = b[0][1]                                     # the cell the name's block hangs on: table -> strings -> data
        if not (c[0][0] == "*" and c[0][1][0] == a[0] and c[1] == self.data and c[0][1][1] == a[1] + self.link):
            return False
        if x.callee == "set_elf_sym":
            return True
        tab = (("*", (a[0], a[1] + self.link)), self.fill)
        return any(y.op == "store" and y.ops[0][:2] == ("i", 0) and self.path(f, y.ops[1]) == tab for y in f.insts())

    def root(self, f, o):
        """the block a pointer is a place of"""
        while o[0] == "v":
            x = f.defs.get(o[1])
            if x is None or x.op not in ("getelementptr", "bitcast"):
                break
            o = x.ops[0]
        return self.path(f, o)

    def local(self, f, P):
        b = base(P)
        return b[0] == "v" and b[1] == f.name

    def analyse(self, f, report=False):
        S = Fn()
        st = {0: {}}
        init = {}
        for i, (pid, ty, *_) in enumerate(f.params):
            if ty == "ptr":
                init[pid] = (frozenset([("P", i)]), frozenset())
        st[0] = init
        work, seen = [0], {}
        order = {b: k for k, b in enumerate(f.rpo())}
        n = 0
        while work:
            work.sort(key=lambda b: -order.get(b, 0))
            b = work.pop()
            n += 1
            if n > 40 * len(f.blocks) + 400:
                break
            cur = dict(st[b])
            for x in f.blocks[b].insts:
                if x.op == "phi":
                    continue                            # set on the edge
                self.step(f, x, cur, S, report)
            for t in f.blocks[b].succ:
                nxt = dict(cur)
                vals = {}
                for x in f.blocks[t].insts:
                    if x.op != "phi":
                        break
                    vals[x.id] = None
                    if x.ty == "ptr":
                        for v, blk in x.d["inc"]:
                            if blk == b:
                                o = _op(v)
                                vals[x.id] = self.value(f, o, cur)
                for i in vals:
                    self.redefined(f, i, nxt)
                for i, v in vals.items():
                    if v is not None:                   # places inside an object this very step replaces are not followed
                        o = frozenset(c for c in v[0] if c[0] in ("P", "F") or base(c)[0] != "v" or base(c)[2] not in vals)
                        v = (o, v[1]) if o else None
                    if v is None:
                        nxt.pop(i, None)
                    else:
                        nxt[i] = v
                old = st.get(t)
                if old is None:
                    st[t] = nxt
                    work.append(t)
                else:
                    ch = False
                    for i, (o, s) in nxt.items():
                        if i not in old:
                            old[i] = (o, s)
                            ch = True
                        else:
                            o2, s2 = old[i][0] | o, old[i][1] | s
                            if (o2, s2) != old[i]:
                                old[i] = (o2, s2)
                                ch = True
                    if ch and t not in work:
                        work.append(t)
        S.ret = set(S.retall or ())
        return S

    def value(self, f, o, cur):
        """what a pointer operand is known to point into"""
        if o[0] == "v":
            return cur.get(o[1])
        return None

    def redefined(self, f, i, cur):
        if i in f.defs and f.defs[i].ty == "ptr":
            for k in [k for k, (o, s) in cur.items() if any(c[0] not in ("P", "F") and base(c) == ("v", f.name, i) for c in o)]:
                if k != i:
                    cur.pop(k)

    def use(self, f, x, o, cur, S, report, how):
        v = self.value(f, o, cur)
        if v is None:
            return
        self.uses += report
        for c in v[0]:
            if c[0] == "P":
                S.deref.add(c[1])
                for s in v[1]:
                    if s[0] != "F":
                        S.late.add((c[1], s[0]))
        if report:
            for s in v[1]:
                if s[0] in v[0] or s[0] == "F":
                    self.hit(f, x, s, how)

    def hit(self, f, x, s, how):
        k = (f.sname, self.show(f, s[0]) if s[0] != "F" else s[2], s[1] or "", how)
        self.found.setdefault(k, x)

    def move(self, f, cell, text, cur, S):
        if not self.local(f, cell):
            S.eff.setdefault(cell, text)
        for k, (o, s) in list(cur.items()):
            if cell in o or any(c[0] == "P" for c in o):
                cur[k] = (o, s | {(cell, text)})

    def step(self, f, x, cur, S, report):
        if x.op == "load":
            self.use(f, x, x.ops[0], cur, S, report, "read")
            self.redefined(f, x.id, cur)
            cur.pop(x.id, None)
            if x.ty == "ptr":
                P = self.path(f, x.ops[0])
                if P is not None:
                    d = cur.get(("cell", P))
                    if d:
                        cur[x.id] = (frozenset([P, ("F",)]), frozenset(d[1]))
                    else:
                        cur[x.id] = (frozenset([P]), frozenset())
            return
        if x.op == "store":
            self.use(f, x, x.ops[1], cur, S, report, "written")
            if x.d.get("vty") == "ptr":
                P = self.path(f, x.ops[1])
                if P is not None:
                    self.overwrite(f, P, cur, S)
            return
        if x.op in ("getelementptr", "bitcast", "freeze", "addrspacecast"):
            self.redefined(f, x.id, cur)
            v = self.value(f, x.ops[0], cur)
            if v is None:
                cur.pop(x.id, None)
            else:
                cur[x.id] = v
            return
        if x.op == "select" and x.ty == "ptr":
            self.redefined(f, x.id, cur)
            a, b = self.value(f, x.ops[1], cur), self.value(f, x.ops[2], cur)
            if a or b:
                a, b = a or (frozenset(), frozenset()), b or (frozenset(), frozenset())
                cur[x.id] = (a[0] | b[0], a[1] | b[1])
            else:
                cur.pop(x.id, None)
            return
        if x.op == "ret":
            if f.ret == "ptr" and x.ops:
                self.returned(f, x.ops[0], cur, S)
            return
        if x.op != "call":
            return
        c = self.callee(x)
        if c is None:
            if not x.callee:
                for k in [k for k in cur if isinstance(k, tuple)]:
                    del cur[k]
            if x.callee and x.callee.startswith(("llvm.mem",)):
                for o in x.ops[:2]:
                    if o and o[0] in ("v",):
                        self.use(f, x, o, cur, S, report, "copied")
            self.redefined(f, x.id, cur)
            cur.pop(x.id, None)
            return
        s = self.sum.get(c)
        if c in RELEASE:
            j = RELEASE[c]
            if j < len(x.ops):
                self.release(f, x, x.ops[j], c, cur, S, report)
        elif s is None:
            for o in x.ops:                             # a library function reads what it is given, and may fill it in
                if o and o[0] == "v":
                    self.use(f, x, o, cur, S, report, "passed to " + c)
                P = self.path(f, o) if o and o[0] in ("v", "g", "gep") else None
                if P is not None:
                    for k in [k for k in cur if isinstance(k, tuple) and (k[1][0] == P[0] or any(q[0] == P[0] for q in chain(k[1])))]:
                        del cur[k]
        else:
            for j, o in enumerate(x.ops):
                if o and o[0] == "v" and j in s.deref:
                    self.use(f, x, o, cur, S, report, "passed to " + c)
            eff, mods = self.effects(f, x)
            cells = {q for q, _ in eff}
            for j, P in s.late if not self.readd(f, x) else ():
                if j < len(x.ops) and x.ops[j] and x.ops[j][0] == "v":
                    v = cur.get(x.ops[j][1])
                    q = self.subst(f, x, P)
                    if v and q is not None:
                        for c0 in v[0]:
                            if c0[0] == "P" and not self.local(f, q):
                                S.late.add((c0[1], q))
                        if q in v[0] and report:
                            self.hit(f, x, (q, c), "used by %s after it moves the block" % c)
            for q, t in eff:
                self.move(f, q, t, cur, S)
            for q in mods:
                if q not in cells:
                    self.overwrite(f, q, cur, S, quiet=True)
            for j in s.rel:
                if j < len(x.ops) and x.ops[j]:
                    self.release(f, x, x.ops[j], c, cur, S, report)
        self.redefined(f, x.id, cur)
        cur.pop(x.id, None)
        if s is not None and s.ret and x.ty == "ptr":
            o = [self.subst(f, x, P) for P in s.ret]
            o = frozenset(q for q in o if q is not None and depth(q) <= DEPTH)
            if o:
                cur[x.id] = (o, frozenset())

    def returned(self, f, o, cur, S, seen=()):
        """the cells every non-null result points into"""
        x = f.defs.get(o[1]) if o[0] == "v" else None
        if o[0] == "n":
            return
        v = cur.get(o[1]) if o[0] == "v" else None
        got = frozenset()
        if x is not None and x.op != "phi" and v:
            got = frozenset(c for c in v[0] if c[0] not in ("P", "F") and not self.local(f, c) and not any(s[0] == c for s in v[1]))
        if x is not None and x.op == "phi":
            if x.id not in seen:
                for w, _ in x.d["inc"]:
                    self.returned(f, _op(w), cur, S, seen + (x.id,))
            return
        S.retall = got if S.retall is None else S.retall & got

    def overwrite(self, f, P, cur, S, quiet=False):
        if not self.local(f, P):
            S.mods.add(P)
        for k in [k for k in cur if isinstance(k, tuple) and (k[1] == P or P in chain(k[1]))]:
            del cur[k]
        for k, (o, s) in list(cur.items()):
            if any(c[0] not in ("P", "F") and (P == c or P in chain(c)) for c in o):
                # another object now: what is known about the old one no longer applies
                o2 = frozenset(c for c in o if c[0] in ("P", "F") or not (P == c or P in chain(c)))
                if any(t[0] == P for t in s) or any(t[0] == "F" for t in s):
                    continue                            # stays stale: the store publishes the moved block
                if o2:
                    cur[k] = (o2, s)
                else:
                    cur.pop(k)

    def release(self, f, x, o, c, cur, S, report):
        if o[0] != "v":
            return
        v = cur.get(o[1])
        if v is None:
            return
        if report:
            for s in v[1]:
                if s[0] in v[0] or s[0] == "F":
                    self.hit(f, x, s, "released again")
        p = self.path(f, o)
        whole = p is not None and p[1] == 0
        for c0 in list(v[0]):
            if c0[0] == "P":
                if whole:
                    S.rel.add(c0[1])
            elif c0[0] != "F" and self.isload(f, o):
                self.move(f, c0, c, cur, S)
        d = f.defs.get(o[1])
        nm = (d.nm if d is not None else None) or next((q[2] for q in f.params if q[0] == o[1]), "")
        if d is not None and d.op == "load" and whole:
            P = self.path(f, d.ops[0])
            if P is not None and P in v[0]:             # the place still holds the address of what was released
                cur[("cell", P)] = (frozenset([P]), frozenset([("F", c, nm or self.show(f, P))]))
        for k in self.aliases(f, o[1]):
            if k in cur:
                cur[k] = (cur[k][0] | {("F",)}, cur[k][1] | {("F", c, nm)})

    def isload(self, f, o):
        x = f.defs.get(o[1])
        return x is not None and x.op == "load"

    def aliases(self, f, i):
        out, todo = {i}, [i]
        while todo:
            k = todo.pop()
            for u in f.uses.get(k, []):
                if u.op in ("getelementptr", "bitcast") and u.ops[0] == ("v", k) and u.id not in out:
                    out.add(u.id)
                    todo.append(u.id)
        return out

    # ---------------------------------------------------------------- names
    def show(self, f, P):
        r, off = P
        if r[0] == "*":
            return "%s->%d" % (self.show(f, r[1]), off)
        if r[0] == "g":
            return "%s+%d" % (r[1], off) if off else r[1]
        if r[0] == "S":
            return "state+%d" % off
        if r[0] == "p":
            return "%s->%d" % (f.params[r[1]][2] if r[1] < len(f.params) else "?", off)
        x = f.defs.get(r[2])
        return "%s->%d" % (x.nm if x is not None and x.nm else "value", off)

    def run(self):
        callers = {}
        for n, f in self.m.defined.items():
            for x in f.calls():
                if x.callee in self.m.defined:
                    callers.setdefault(x.callee, set()).add(n)
        order, seen = [], set()
        for n in self.m.defined:                        # callees first
            st = [(n, iter(sorted({x.callee for x in self.m.defined[n].calls() if x.callee in self.m.defined})))]
            if n in seen:
                continue
            seen.add(n)
            while st:
                k, it = st[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c)
                        st.append((c, iter(sorted({x.callee for x in self.m.defined[c].calls() if x.callee in self.m.defined}))))
                        break
                else:
                    order.append(k)
                    st.pop()
        dirty = set(order)
        for rnd in range(60):
            ch = 0
            todo, dirty = dirty, set()
            for n in order:
                if n not in todo and n not in dirty:
                    continue
                dirty.discard(n)
                f = self.m.defined[n]
                s = self.analyse(f)
                self.work += 1
                if n in NOEFFECT:
                    s.eff, s.mods = {}, set()
                if s.sig() != self.sum[n].sig():
                    old = self.sum[n]
                    s.eff = {**s.eff, **old.eff}
                    s.mods |= old.mods
                    s.ret |= old.ret
                    s.late |= old.late
                    s.deref |= old.deref
                    s.rel |= old.rel
                    if s.sig() != old.sig():
                        ch += 1
                        dirty |= callers.get(n, set())
                    self.sum[n] = s
            if not dirty:
                break
        self.rounds = rnd
        for n, f in self.m.defined.items():
            self.analyse(f, report=True)
        return self


def run(R, tier):
    R.rules = ["A value computed from the address held in a cell (a field, a global, a dynamic array) is not dereferenced, copied from or passed on after "
               "a call that may reallocate or free what that cell holds, unless it was computed anew in between; nor is a block used after it was released. "
               "Which cells a function may move, which parameters it releases or still uses afterwards, and which cells its result points into are "
               "inferred for every function by a fixpoint over the call graph."]
    R.assume = ["two access paths denote the same cell only if they are equal (no aliasing is assumed); there is one compiler state",
                "a message about a bad #if expression generates no code; a library is loaded without compiling anything",
                "entering a symbol under a name of the same table finds it there, or refills tables that were emptied before"]
    T = Tree()
    for grp in ("tcc", "tccmain", "src"):
        m = Module(T.dump(grp))
        M = Moved(m, R).run()
        R.count("functions", len(m.defined))
        for n, s in M.sum.items():
            R.count("functions_moving_a_block", bool(s.eff))
            R.count("moved_cells", len(s.eff))
            R.count("results_into_a_block", bool(s.ret))
        R.count("uses_checked", M.uses)
        R.obligation(n=M.uses)
        for k in sorted(M.sum, key=lambda k: -len(M.sum[k].eff))[:1] + [k for k in ("section_ptr_add", "put_elf_sym", "dynarray_add", "cstr_cat") if k in M.sum]:
            R.sample("%s moves %s" % (k, ", ".join(sorted(M.show(m.defined[k], c) for c in M.sum[k].eff))[:200]))
        for (fn, cell, by, how), x in sorted(M.found.items()):
            by = re.sub(r"\.\d+$", "", by)
            how = re.sub(r"\.\d+$", "", how)
            R.obligation(ok=False)
            R.violation("C41:%s:%s:%s:%s" % (fn, cell, how, by), x.where(), "moved",
                        "%s: an address inside %s %s after %s may have moved or released it" % (fn, cell, HOW.get(how, "is " + how), by))
    R.floor("functions_moving_a_block", 60, "functions that reallocate a block")
    R.floor("uses_checked", 2000, "uses of addresses inside movable blocks")
