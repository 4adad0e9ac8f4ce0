"""C40: parsing modes, the scope level and the value stack are left as they were found.

A mode (a global such as parse_flags or nocode_wanted) is followed symbolically, relative to its value on entry, through
every function that can change it; what a callee does to it is its inferred summary.  A function whose ways out leave
the mode in different states, for the same result, has lost a restoration on one of them."""
import re
from sa.build import Tree
from sa.ir import Module, _op
from sa.esp import Sim, Client, const

ENTRY = ("e", 0)
LIMIT = 12                                  # further than this from where it started: it drifts


def ADD(a, n):
    if n == 0:
        return a
    if a[0] == "c" and isinstance(a[1], tuple):
        return ("c", (a[1][0], a[1][1] + n))
    if a[0] == "e":
        k = a[1] + n
        return ("e", k) if min(k % 65535, -k % 65535) <= LIMIT and abs(k) < 1 << 22 else ("drift",)
    if a[0] == "c":
        return ("c", a[1] + n)
    if a[0] == "b":
        return ("x", a, n)
    if a[0] == "x":
        return a[1] if a[2] + n == 0 else ("x", a[1], a[2] + n)
    return None


def BITS(a, keep, set_, auto):
    keep |= auto
    set_ &= ~auto
    if keep & 0xffffffff == 0xffffffff and set_ == 0:
        return a
    if a[0] == "c":
        return ("c", (a[1] & keep) | set_)
    if a == ENTRY:
        return ("b", keep & 0xffffffff, set_ & 0xffffffff)
    if a[0] == "b":
        return ("b", a[1] & keep & 0xffffffff, ((a[2] & keep) | set_) & 0xffffffff)
    return ("y", a, keep, set_)


class Mode:
    def __init__(self, name, size, rest=None, auto=0):
        self.name, self.size, self.rest, self.auto = name, size, rest, auto


class Follow(Client):
    def __init__(self, f, mode, sums, slice_, assumes):
        self.f, self.mode, self.sums, self.slice, self.assumes = f, mode, sums, slice_, assumes
        self.assume, self.unset = 0, set()
        self.out = set()
        self.lost = None
        self.site = {}
        self.alias = {}
        for x in f.insts():
            if x.op == "icmp" and x.d["pred"] in ("eq", "ne") and x.ops[0][0] == x.ops[1][0] == "v":
                for a, b in ((x.ops[0][1], x.ops[1][1]), (x.ops[1][1], x.ops[0][1])):
                    p = f.defs.get(a)
                    if p is not None and p.op == "phi" and any(_op(v) == ("v", b) for v, _ in p.d["inc"]):
                        self.alias.setdefault(a, set()).add(b)

    def init(self, f):
        return [((ENTRY, frozenset()), {})]

    def isvar(self, o):
        return o == ("g", self.mode.name)

    def value(self, ts, o):
        if o[0] == "i":
            return ("c", o[1])
        if o[0] == "v":
            for k, v in ts[1]:
                if k == o[1]:
                    return v
        if o[0] == "gep" and o[1][0] == "g":
            return ("c", (o[1][1], o[2]))
        if o[0] == "g":
            return ("c", (o[1], 0))
        return None

    def put(self, ts, i, v):
        s = frozenset(p for p in ts[1] if p[0] != i)
        return (ts[0], s if v is None else s | {(i, v)})

    def step(self, ts, env, x):
        op = x.op
        if op == "load" and self.isvar(x.ops[0]):
            return [(self.put(ts, x.id, ts[0]) if x.id in self.slice else ts, None)]
        if op == "store" and self.isvar(x.ops[1]):
            v = self.value(ts, x.ops[0])
            if v is None:
                a = self.sim.val(env, x.ops[0])
                if a[0] == a[1]:
                    v = ("c", a[0])
            if v is None:
                v = ("?", x.fn.name, x.idx, x.blk.i)
            return [((v, ts[1]), None)]
        if x.id in self.slice:
            v = None
            if op in ("add", "sub"):
                a, b = self.value(ts, x.ops[0]), self.value(ts, x.ops[1])
                if b is None:
                    t = self.sim.val(env, x.ops[1])
                    b = ("c", t[0]) if t[0] == t[1] else None
                if a and b and b[0] == "c" and isinstance(b[1], int):
                    v = ADD(a, b[1] if op == "add" else -b[1])
                elif a and b and op == "add" and a[0] == "c" and isinstance(a[1], int):
                    v = ADD(b, a[1])
            elif op in ("and", "or"):
                a, b = self.value(ts, x.ops[0]), self.value(ts, x.ops[1])
                if a and a[0] == "c" and isinstance(a[1], int):
                    a, b = b, a
                if a and b and b[0] == "c" and isinstance(b[1], int):
                    v = self.bits(a, b[1] if op == "and" else -1, b[1] if op == "or" else 0)
            elif op == "getelementptr":
                a = self.value(ts, x.ops[0])
                if a and not x.d.get("var"):
                    if a[0] == "c" and isinstance(a[1], tuple):
                        v = ("c", (a[1][0], a[1][1] + x.d["coff"]))
                    else:
                        v = ADD(a, x.d["coff"])
            elif op == "select":
                a, b = self.value(ts, x.ops[1]), self.value(ts, x.ops[2])
                if a == b:
                    v = a
                else:
                    c = self.sim.val(env, x.ops[0])
                    if c == const(0):
                        v = b
                    elif c[2]:
                        v = a
                    else:
                        return [(self.put(ts, x.id, a), None), (self.put(ts, x.id, b), None)]
            elif op in ("zext", "sext", "trunc", "freeze"):
                v = self.value(ts, x.ops[0])
            return [(self.put(ts, x.id, v), None)]
        if op == "call":
            s = self.sums.get(x.callee)
            if s is None:
                return None
            need = self.assumes.get(x.callee, 0)
            if need:
                c = ts[0]
                if c[0] == "b":
                    need &= ~c[2]
                    if need & ~c[1]:
                        self.unset.add((x.callee, need & ~c[1], x))
                    self.assume |= need & c[1]
                elif c[0] == "c" and isinstance(c[1], int):
                    if need & ~c[1]:
                        self.unset.add((x.callee, need & ~c[1], x))
                elif c == ENTRY:
                    self.assume |= need
            out = []
            for ret, v in s:
                upd = {x.id: const(ret)} if ret is not None and x.ty and x.ty != "ptr" else None
                out.append(((self.apply(ts[0], v), ts[1]), upd))
            return out
        return None

    def apply(self, cur, v):
        if v[0] == "e":
            return ADD(cur, v[1]) or ("?",)
        if v[0] == "c":
            return v
        if v[0] == "b":
            return self.bits(cur, v[1], v[2])
        return v

    def bits(self, a, keep, set_):
        v = BITS(a, keep, set_, self.mode.auto)
        if v[0] == "b" and not v[1] & v[2] and v[1] | v[2] == 0xffffffff:
            self.assume |= v[2]                     # cleared and set again: as it was if these were set before
            return ENTRY
        return v

    def phis(self, ts, env, phis, vals):
        new = {}
        for p in phis:
            if p.id in self.slice and p.id in vals:
                new[p.id] = self.value(ts, vals[p.id])
        for i, v in new.items():
            ts = self.put(ts, i, v)
        for p in phis:                                  # phi that is another value on this way in
            if p.id in self.alias:
                o = vals.get(p.id)
                ts = self.put(ts, ("=", p.id), o[1] if o and o[0] == "v" and o[1] in self.alias[p.id] else None)
        return ts

    def edge(self, ts, env, B, succ):
        t = B.insts[-1]
        if t.op == "br" and t.ops and t.ops[0][0] == "v" and t.d["succ"][0] != t.d["succ"][1]:
            x = self.f.defs.get(t.ops[0][1])
            if x is not None and x.op == "icmp" and x.d["pred"] in ("eq", "ne") and x.ops[0][0] == x.ops[1][0] == "v":
                a, b = x.ops[0][1], x.ops[1][1]
                if (("=", a), b) in ts[1] or (("=", b), a) in ts[1]:
                    same = succ == t.d["succ"][0 if x.d["pred"] == "eq" else 1]
                    if not same:
                        return None
        return ts

    def exit(self, ts, env, t):
        v = ts[0]
        ret = None
        if t.ops and t.ops[0][0] in ("i", "v") and self.f.ret != "ptr":
            a = self.sim.val(env, t.ops[0])
            if a[0] == a[1]:
                ret = a[0]
        if (ret, v) not in self.out:
            self.out.add((ret, v))
            self.site[(ret, v)] = (t, self.sim.path())


def slice_of(f, mode):
    """values that reach a store to the mode"""
    out, work = set(), []
    for x in f.insts():
        if x.op == "store" and x.ops[1] == ("g", mode.name) and x.ops[0][0] == "v":
            work.append(x.ops[0][1])
    while work:
        i = work.pop()
        if i in out:
            continue
        x = f.defs.get(i)
        if x is None:
            continue
        if x.op in ("load", "phi", "select", "add", "sub", "and", "or", "getelementptr", "zext", "sext", "trunc", "freeze"):
            out.add(i)
            if x.op == "load":
                continue
            ops = [_op(v) for v, _ in x.d["inc"]] if x.op == "phi" else x.ops
            work += [o[1] for o in ops if o[0] == "v"]
    return out


def resolve(outs):
    """one way per result where that tells them apart"""
    vals = {v for _, v in outs}
    if len(vals) <= 1:
        return {(None, v) for v in vals}, True
    by = {}
    for r, v in outs:
        by.setdefault(r, set()).add(v)
    if None not in by and all(len(s) == 1 for s in by.values()):
        return set(outs), True
    return set(outs), False


class Analysis:
    def __init__(self, m, mode):
        self.m, self.mode = m, mode
        rev, touch = {}, set()
        for n, f in m.defined.items():
            for x in f.insts():
                if x.op == "call" and x.callee in m.defined:
                    rev.setdefault(x.callee, set()).add(n)
                if x.op == "store" and x.ops[1] == ("g", mode.name):
                    touch.add(n)
        self.direct = set(touch)
        work = list(touch)
        while work:
            for c in rev.get(work.pop(), ()):
                if c not in touch:
                    touch.add(c)
                    work.append(c)
        self.touch = touch
        self.rev = rev

    def run(self, given={}):
        m, mode = self.m, self.mode
        sums = {n: frozenset() for n in self.touch}
        for n, v in given.items():
            if n in sums:
                sums[n] = frozenset([(None, v)])
        slices = {n: slice_of(m.defined[n], mode) for n in self.touch}
        order, seen = [], set()
        for n in sorted(self.touch):
            if n in seen:
                continue
            seen.add(n)
            st = [(n, iter(sorted({x.callee for x in m.defined[n].calls() if x.callee in self.touch})))]
            while st:
                k, it = st[-1]
                for c in it:
                    if c not in seen:
                        seen.add(c)
                        st.append((c, iter(sorted({x.callee for x in m.defined[c].calls() if x.callee in self.touch}))))
                        break
                else:
                    order.append(k)
                    st.pop()
        self.bad, self.failed, self.runs, self.unset = {}, {}, 0, {}
        assumes = {}
        dirty = set(order)
        for rnd in range(40):
            if not dirty:
                break
            todo, dirty = dirty, set()
            for n in order:
                if n in given or n not in todo and n not in dirty:
                    continue
                dirty.discard(n)
                f = m.defined[n]
                c = Follow(f, mode, sums, slices[n], assumes)
                self.runs += 1
                self.failed.pop(n, None)
                try:
                    Sim(f, c, max_states=6000).run()
                except RuntimeError as e:
                    self.failed[n] = str(e)
                    c.out = {(None, ENTRY)}
                if {v for _, v in c.out} == {("c", mode.rest)}:
                    c.out = {(None, ENTRY)}             # what it is outside every function
                outs, ok = resolve(c.out)
                self.bad.pop(n, None)
                self.unset[n] = c.unset
                if not ok:
                    self.bad[n] = (outs, dict(c.site))
                    outs = {(None, ENTRY)}              # reported here, once
                outs = frozenset(outs)
                if outs != sums[n] or c.assume & ~assumes.get(n, 0):
                    sums[n] = outs
                    assumes[n] = assumes.get(n, 0) | c.assume
                    dirty |= self.rev.get(n, set()) & self.touch
        self.sums, self.assumes = sums, assumes
        return self

    def phases(self):
        """functions that start a compilation: they set the mode, nobody depends on what it was before"""
        m = self.m
        jmp = {n for n in self.touch if any(x.callee and "setjmp" in x.callee for x in m.defined[n].calls())}
        roots = set(jmp)
        while True:
            more = {n for n in self.touch if n not in roots and self.rev.get(n) and self.rev[n] <= roots}
            if not more:
                break
            roots |= more
        # of these, the ones that set it whatever it was
        return {n for n in roots if n in jmp or n in self.bad and not any(v[0] == "e" for _, v in self.bad[n][0])}


def show(v):
    if v == ENTRY:
        return "as it was"
    if v[0] == "e":
        return "%+d" % v[1]
    if v[0] == "b":
        return "bits %#x cleared" % (~v[1] & 0xffffffff & ~v[2]) + (", %#x set" % v[2] if v[2] else "")
    if v[0] == "c":
        return "set to %s" % (v[1],)
    return "changed"


def modes(mac):
    def n(name, d):
        v = mac.get(name)
        return v if isinstance(v, int) else d
    rest = n("DATA_ONLY_WANTED", 0x80000000) & 0xffffffff
    rest -= (1 << 32) if rest >> 31 else 0
    auto = n("CODE_OFF_BIT", 0x20000000)
    return [Mode("parse_flags", 4), Mode("nocode_wanted", 4, rest=rest, auto=auto), Mode("local_scope", 4, rest=0),
            Mode("global_expr", 4, rest=0), Mode("pp_expr", 4, rest=0)]


def run(R, tier):
    R.rules = ["Every function leaves a mode of the compiler (token flags, code suppression, scope level, constant-expression and #if modes) as it found it, "
               "or changed by the same amount on every way out that gives the same result; loops do not shift it further on every turn; a flag cleared and "
               "set again was set before in every caller.  What each function does to a mode is inferred relative to its value on entry, and calls apply "
               "what was inferred for the callee, to a fixpoint over the call graph."]
    R.assume = ["an error message in the compiler does not return", "functions that start a compilation set modes; nothing depends on them before",
                "the value a mode has outside every function is the same at each point of entry (declarations are read one after the other)"]
    T = Tree()
    m = Module(T.dump("tcc"))
    for md in modes(T.macros()):
        if md.name not in m.globals:
            continue
        a = Analysis(m, md).run()
        R.count("modes", bool(a.direct))
        ph = a.phases()
        R.count("functions_changing_a_mode", len(a.direct))
        R.sample("%s: %d functions change it, %d can; it starts in %s" % (md.name, len(a.direct), len(a.touch), ", ".join(sorted(ph & a.direct))))
        for n in sorted(a.touch):
            f = m.defined[n]
            R.count("functions_followed")
            where = "%s:%s" % (f.file, f.line) if hasattr(f, "line") else next(f.insts()).where()
            good = True
            if n in a.failed:
                good = False
                R.obligation(ok=False)
                R.violation("C40:drift:%s:%s" % (md.name, n), where, "mode",
                            "%s: shifts %s further on every turn of a loop" % (n, md.name))
            elif n in a.bad and n not in ph:
                outs, site = a.bad[n]
                w = ["%s%s (%s)" % (show(v), "" if r is None else " when it returns %d" % r, " ".join(site[(r, v)][1][-6:]))
                     for r, v in sorted(outs, key=str) if (r, v) in site]
                good = False
                R.obligation(ok=False)
                R.violation("C40:lost:%s:%s" % (md.name, n), where, "mode",
                            "%s: does not leave %s alike on all ways out: %s" % (n, md.name, "; ".join(w)[:900]))
            for callee, bits, x in sorted(a.unset.get(n, ()), key=lambda u: (u[0], u[1])):
                good = False
                R.obligation(ok=False)
                R.violation("C40:unset:%s:%s:%s" % (md.name, n, callee), x.where(), "mode",
                            "%s: calls %s with %#x clear in %s, which %s turns on for good" % (n, callee, bits, md.name, callee))
            if good:
                R.obligation()
    R.floor("modes", 3, "modes of the compiler")
    R.floor("functions_followed", 300, "functions that can change a mode")
