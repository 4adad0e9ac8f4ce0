"""Property simulation (ESP-style dataflow).

A client automaton's state is propagated over the CFG together with an interval
environment for SSA values.  Facts are merged only between paths that are in the
same automaton state, so a branch that re-tests the outcome which drove the
automaton stays correlated, while the number of states stays linear.
"""
from .ir import _op, operands, opvals, opglobals

INF = 1 << 80
TOP = (-INF, INF, False)


def mk(lo, hi, nz=False):
    if lo > 0 or hi < 0:
        nz = True
    return (lo, hi, nz)


def const(c):
    return (c, c, c != 0)


NONNULL = (1, INF, True)
NULL = (0, 0, False)


def meet(a, b):
    lo, hi, nz = max(a[0], b[0]), min(a[1], b[1]), a[2] or b[2]
    if nz and lo == 0:
        lo = 1
    if nz and hi == 0:
        hi = -1
    if lo > hi:
        return None
    return (lo, hi, nz or lo > 0 or hi < 0)


def join(a, b):
    return (min(a[0], b[0]), max(a[1], b[1]), a[2] and b[2])


def width(ty):
    if ty and ty[0] == "i" and ty[1:].isdigit():
        return int(ty[1:])
    return 64


def tyrange(ty):
    if ty == "i1":
        return (0, 1, False)
    if ty == "ptr":
        return (0, INF, False)
    if ty and ty[0] == "i" and ty[1:].isdigit():
        w = int(ty[1:])
        return (-(1 << (w - 1)), (1 << (w - 1)) - 1, False)
    return TOP


SWAP = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
        "ule": "uge", "uge": "ule", "eq": "eq", "ne": "ne"}
NEG = {"slt": "sge", "sgt": "sle", "sle": "sgt", "sge": "slt", "ult": "uge", "ugt": "ule",
       "ule": "ugt", "uge": "ult", "eq": "ne", "ne": "eq"}


class Env(dict):
    pass


class Infeasible(Exception):
    pass


class Sim:
    def __init__(self, func, client, max_states=20000, flags=True):
        self.f = func
        self.flags = flagphis(func) if flags else {}
        self.client = client
        self.reports = []
        self.states = 0
        self.max_states = max_states
        self.esc = escaped_allocas(func)
        self.client.sim = self

    # ------------------------------------------------------------- values
    def val(self, env, o):
        k = o[0]
        if k == "i":
            if o[2] == 1:
                return const(o[1] & 1)
            return const(o[1])
        if k == "n":
            return NULL
        if k == "g" or k == "gep":
            return NONNULL if k == "g" or (o[1][0] == "g") else TOP
        if k == "v":
            v = env.get(o[1])
            if v is not None:
                return v
            x = self.f.defs.get(o[1])
            if x is not None:
                if x.op == "alloca":
                    return NONNULL
                return tyrange(x.ty)
            p = self.f.pidx.get(o[1])
            if p is not None:
                return tyrange(self.f.params[p][1])
        return TOP

    def setv(self, env, o, av):
        """refine value o by av; raise Infeasible on contradiction"""
        r = meet(self.val(env, o), av)
        if r is None:
            raise Infeasible()
        if o[0] == "v":
            env[o[1]] = r
            self._back(env, o[1], r)
        return r

    def _back(self, env, vid, r):
        """propagate a refinement to the operands of the defining instruction"""
        x = self.f.defs.get(vid)
        if x is None:
            return
        if x.op in ("zext", "sext", "freeze", "bitcast"):
            src = x.ops[0]
            if x.op == "zext" and x.d.get("sty") == "i1":
                if r == (0, 0, False):
                    self.cond(env, src, False)
                elif r[2]:
                    self.cond(env, src, True)
            elif src[0] == "v":
                cur = self.val(env, src)
                m = meet(cur, r) if (x.op != "zext" or cur[0] >= 0) else meet(cur, (-INF, INF, r[2])) if r[2] else (meet(cur, const(0)) if r == (0, 0, False) else cur)
                if m is None:
                    raise Infeasible()
                if m != cur:
                    env[src[1]] = m
                    self._back(env, src[1], m)
        elif x.op == "load":
            k = self.cell(x.ops[0])
            if k is not None and env.get(("ld", k)) == vid:
                env[("m", k)] = r
        elif x.op == "trunc" and x.ty == "i1":
            if r == const(1):
                self.setv(env, x.ops[0], (-INF, INF, True))
            elif r == const(0) and self.isbool(x.ops[0]):
                self.setv(env, x.ops[0], const(0))
        elif x.op == "add" and x.ops[1][0] == "i" and x.ops[0][0] == "v":
            c = x.ops[1][1]
            cur = self.val(env, x.ops[0])
            if cur[0] > -(1 << 62) and cur[1] < (1 << 62):
                m = meet(cur, (r[0] - c, r[1] - c, False))
                if m is None:
                    raise Infeasible()
                env[x.ops[0][1]] = m
        elif x.op == "phi":
            pass
        elif x.op == "icmp":
            if r == const(1):
                self.cond(env, ("v", vid), True, seen=True)
            elif r == const(0):
                self.cond(env, ("v", vid), False, seen=True)

    def isbool(self, o, depth=0):
        if o[0] == "i":
            return o[1] in (0, 1)
        if o[0] != "v" or depth > 6:
            return False
        x = self.f.defs.get(o[1])
        if x is None:
            p = self.f.pidx.get(o[1])
            return False
        if x.op == "zext" and x.d.get("sty") == "i1":
            return True
        if x.op == "phi":
            return all(self.isbool(_op(v), depth + 1) for v, _ in x.d["inc"])
        if x.op == "load" and x.ty == "i8":
            return True  # _Bool in memory (only reached through trunc to i1)
        if x.op == "call":
            return True
        return False

    # ------------------------------------------------------------- branches
    def cond(self, env, o, truth, seen=False):
        if o[0] == "i":
            if bool(o[1] & 1) != truth:
                raise Infeasible()
            return
        if o[0] != "v":
            return
        if not seen:
            r = meet(self.val(env, o), const(1 if truth else 0))
            if r is None:
                raise Infeasible()
            env[o[1]] = r
        x = self.f.defs.get(o[1])
        if x is None:
            return
        if x.op == "icmp":
            p = x.d["pred"]
            if not truth:
                p = NEG[p]
            a, b = x.ops
            self.cmp(env, p, a, b, x.d.get("oty"))
        elif x.op == "xor" and x.ops[1][0] == "i":
            self.cond(env, x.ops[0], not truth)
        elif x.op == "and" and x.ty == "i1":
            if truth:
                self.cond(env, x.ops[0], True)
                self.cond(env, x.ops[1], True)
        elif x.op == "or" and x.ty == "i1":
            if not truth:
                self.cond(env, x.ops[0], False)
                self.cond(env, x.ops[1], False)
        elif x.op == "select" and x.ty == "i1":
            c, a, b = x.ops
            if b[0] == "i" and not (b[1] & 1) and truth:      # c && a
                self.cond(env, c, True)
                self.cond(env, a, True)
            elif a[0] == "i" and (a[1] & 1) and not truth:    # c || b
                self.cond(env, c, False)
                self.cond(env, b, False)
        elif x.op == "trunc":
            if truth:
                self.setv(env, x.ops[0], (-INF, INF, True))
            elif self.isbool(x.ops[0]):
                self.setv(env, x.ops[0], const(0))
        elif x.op == "freeze":
            self.cond(env, x.ops[0], truth)

    def cmp(self, env, p, a, b, ty):
        va, vb = self.val(env, a), self.val(env, b)
        if p[0] == "u":
            if va[0] >= 0 and vb[0] >= 0:
                p = "s" + p[1:]
            else:
                # unsigned comparison on possibly negative values: only x u< c, x u<= c with c >= 0
                if p in ("ult", "ule") and vb[0] >= 0 and vb[1] < INF and b[0] == "i":
                    hi = vb[1] - (1 if p == "ult" else 0)
                    if hi < 0:
                        raise Infeasible()
                    self.setv(env, a, (0, hi, False))
                elif p in ("ugt", "uge") and va[0] >= 0 and a[0] == "i":
                    self.cmp(env, SWAP[p], b, a, ty)
                return
        if p == "eq":
            m = meet(va, vb)
            if m is None:
                raise Infeasible()
            self.setv(env, a, m)
            self.setv(env, b, m)
        elif p == "ne":
            if va[0] == va[1] == vb[0] == vb[1]:
                raise Infeasible()
            if a[0] == "v" and a == b:
                raise Infeasible()
            for u, w, vw in ((a, va, vb), (b, vb, va)):
                if vw[0] == vw[1]:
                    c = vw[0]
                    lo, hi, nz = w
                    if c == 0:
                        nz = True
                    if lo == c:
                        lo += 1
                    if hi == c:
                        hi -= 1
                    if lo > hi:
                        raise Infeasible()
                    self.setv(env, u, (lo, hi, nz))
        elif p in ("slt", "sle", "sgt", "sge"):
            if p in ("sgt", "sge"):
                a, b, va, vb = b, a, vb, va
                p = SWAP[p]
            d = 1 if p == "slt" else 0
            if va[0] > vb[1] - d:
                raise Infeasible()
            self.setv(env, a, (-INF, vb[1] - d, False))
            self.setv(env, b, (va[0] + d, INF, False))

    # ------------------------------------------------------------- memory cells
    def cell(self, o):
        """key of the memory cell an address operand denotes, or None"""
        off = 0
        while True:
            if o[0] == "gep":
                if not o[3]:
                    return None
                off += o[2]
                o = o[1]
                continue
            if o[0] == "g":
                return ("g", o[1], off)
            if o[0] == "v":
                x = self.f.defs.get(o[1])
                if x is None:
                    return ("p", o[1], off)
                if x.op == "getelementptr":
                    if x.d.get("var") or x.d.get("bad"):
                        return None
                    off += x.d["coff"]
                    o = x.ops[0]
                    continue
                if x.op in ("bitcast",):
                    o = x.ops[0]
                    continue
                if x.op == "alloca":
                    return ("a", o[1], off)
                return ("p", o[1], off)
            return None

    def base(self, o):
        while True:
            if o[0] == "gep":
                o = o[1]
                continue
            if o[0] == "v":
                x = self.f.defs.get(o[1])
                if x is not None and x.op in ("getelementptr", "bitcast"):
                    o = x.ops[0]
                    continue
                if x is not None and x.op == "alloca":
                    return ("a", o[1])
                return ("p", o[1])
            if o[0] == "g":
                return ("g", o[1])
            return None

    def kill_mem(self, env, base=None, exact=None):
        """forget memory facts a write through an unknown pointer / call may change"""
        for k in [k for k in env if isinstance(k, tuple) and k[0] in ("m", "ld")]:
            c = k[1]
            if c[0] == "a" and c[1] not in self.esc and base != ("a", c[1]):
                continue
            if exact is not None and c[:2] == exact[:2]:
                continue        # same object: the caller compares the offsets
            if base is not None:
                if base[0] == "a" and base[1] not in self.esc and c[:2] != base:
                    continue
                if base[0] in ("a", "g") and c[0] in ("a", "g") and c[:2] != base:
                    continue
            del env[k]

    # ------------------------------------------------------------- transfer
    def transfer(self, env, x):
        """default effect of a (non-terminator, non-phi) instruction on env"""
        op = x.op
        if x.ty is not None:
            env.pop(x.id, None)
        if op == "icmp":
            va, vb = self.val(env, x.ops[0]), self.val(env, x.ops[1])
            r = decide(x.d["pred"], va, vb)
            if r is not None:
                env[x.id] = const(1 if r else 0)
        elif op in ("zext", "freeze", "bitcast"):
            v = self.val(env, x.ops[0])
            if op == "zext" and v[0] < 0:
                v = (0, INF, v[2])
            if v != TOP:
                env[x.id] = v
        elif op == "sext":
            if x.d.get("sty") != "i1":
                v = self.val(env, x.ops[0])
                if v != TOP:
                    env[x.id] = v
        elif op == "trunc":
            v = self.val(env, x.ops[0])
            t = tyrange(x.ty)
            if x.ty == "i1":
                if v == const(0):
                    env[x.id] = const(0)
                elif v == const(1) or (v[2] and self.isbool(x.ops[0])):
                    env[x.id] = const(1)
            elif v[0] >= t[0] and v[1] <= t[1]:
                env[x.id] = v
        elif op == "select":
            c = self.val(env, x.ops[0])
            if c == const(1):
                env[x.id] = self.val(env, x.ops[1])
            elif c == const(0):
                env[x.id] = self.val(env, x.ops[2])
            else:
                env[x.id] = join(self.val(env, x.ops[1]), self.val(env, x.ops[2]))
        elif op in ("add", "sub"):
            a, b = self.val(env, x.ops[0]), self.val(env, x.ops[1])
            if op == "sub":
                b = (-b[1], -b[0], b[2])
            lo, hi = a[0] + b[0], a[1] + b[1]
            t = tyrange(x.ty)
            if lo >= t[0] and hi <= t[1]:
                env[x.id] = mk(lo, hi)
        elif op == "and":
            a, b = self.val(env, x.ops[0]), self.val(env, x.ops[1])
            if a[0] == a[1] and b[0] == b[1] and abs(a[0]) < INF and abs(b[0]) < INF:
                env[x.id] = const(a[0] & b[0])
            elif b[0] == b[1] and b[0] >= 0 and b[0] < INF:
                env[x.id] = (0, b[0], False)
            elif a == const(0) or b == const(0):
                env[x.id] = const(0)
        elif op == "or":
            a, b = self.val(env, x.ops[0]), self.val(env, x.ops[1])
            if a[0] == a[1] and b[0] == b[1] and abs(a[0]) < INF and abs(b[0]) < INF:
                env[x.id] = const(a[0] | b[0])
            elif a[2] or b[2]:
                env[x.id] = (-INF, INF, True)
        elif op == "xor":
            a, b = self.val(env, x.ops[0]), self.val(env, x.ops[1])
            if a[0] == a[1] and b[0] == b[1] and abs(a[0]) < INF and abs(b[0]) < INF:
                env[x.id] = const((a[0] ^ b[0]) & (1 if x.ty == "i1" else -1))
        elif op == "getelementptr":
            # a field of a non-null object is non-null; gep of possibly-null pointer: unknown
            b = self.val(env, x.ops[0])
            if b[2]:
                env[x.id] = NONNULL
            elif not x.d.get("var") and x.d.get("coff") == 0:
                env[x.id] = b
        elif op == "load":
            k = self.cell(x.ops[0])
            if k is not None:
                v = env.get(("m", k))
                if v is not None:
                    t = meet(v, tyrange(x.ty))
                    if t is not None:
                        env[x.id] = t
                env[("ld", k)] = x.id
        elif op == "store":
            k = self.cell(x.ops[1])
            b = self.base(x.ops[1])
            if k is not None and b[0] == "a" and b[1] not in self.esc:
                pass
            else:
                keep = None
                self.kill_mem(env, b, k)
            if k is not None:
                for kk in [c for c in env if isinstance(c, tuple) and c[0] in ("m", "ld") and c[1][:2] == k[:2]
                           and abs(c[1][2] - k[2]) < 8]:
                    del env[kk]
                env[("m", k)] = self.val(env, x.ops[0])
                if x.ops[0][0] == "v":
                    env[("ld", k)] = x.ops[0][1]
            elif b is not None:
                for kk in [c for c in env if isinstance(c, tuple) and c[0] in ("m", "ld") and c[1][:2] == b]:
                    del env[kk]
        elif op == "call":
            if not pure_call(x):
                self.kill_mem(env)
            if x.callee is not None and x.ty is not None:
                r = retrange(self.f.mod, x.callee)
                if r is not None:
                    env[x.id] = r

    def join_env(self, a, b, widen):
        r = {}
        for k, v in a.items():
            w = b.get(k)
            if w is None:
                continue
            if isinstance(k, tuple) and k[0] in ("ld", "F"):
                if v == w:
                    r[k] = v
                continue
            j = join(v, w)
            if widen and j != v:
                j = (j[0] if j[0] == v[0] else -INF, j[1] if j[1] == v[1] else INF, j[2] and v[2])
            if j != TOP:
                r[k] = j
        return r

    # ------------------------------------------------------------- driver
    def run(self):
        f, cl = self.f, self.client
        inn = {}      # (block, ts) -> env
        cnt = {}
        parent = {}
        work = []
        none = frozenset()
        for ts, upd in cl.init(f):
            env = dict(upd)
            inn[(0, ts, none)] = env
            parent[(0, ts, none)] = None
            work.append((0, ts, none))
        self.parent = parent
        order = {b: i for i, b in enumerate(f.rpo())}
        import heapq
        heap = []
        inq = set()

        def push(key):
            if key not in inq:
                inq.add(key)
                heapq.heappush(heap, (order.get(key[0], 1 << 30), str(key[1]), str(sorted(key[2], key=str)), len(inn), key))
        for k in work:
            push(k)
        while heap:
            key = heapq.heappop(heap)[-1]
            inq.discard(key)
            bi, ts0, _ = key
            self.cur = key
            B = f.blocks[bi]
            states = [(ts0, dict(inn[key]))]
            for x in B.insts:
                if x.op == "phi":
                    continue  # applied on the edge
                if x.op in ("br", "switch", "ret", "unreachable"):
                    break
                nxt = []
                for ts, env in states:
                    r = cl.step(ts, env, x)
                    if r is None:
                        self.transfer(env, x)
                        nxt.append((ts, env))
                    else:
                        for ts2, upd in r:
                            e2 = dict(env) if len(r) > 1 else env
                            self.transfer(e2, x)
                            if upd:
                                try:
                                    for k2, av in upd.items():
                                        if isinstance(k2, tuple):
                                            e2[k2] = av
                                        else:
                                            m = meet(e2.get(k2, self.val(e2, ("v", k2))), av)
                                            if m is None:
                                                raise Infeasible()
                                            e2[k2] = m
                                except Infeasible:
                                    continue
                            nxt.append((ts2, e2))
                states = self._dedup(nxt)
                if not states:
                    break
                if x.op == "call" and x.d.get("noreturn"):
                    for ts, env in states:
                        cl.noreturn(ts, env, x)
                    states = []
                    break
            if not states:
                continue
            t = B.insts[-1]
            for ts, env in states:
                if t.op == "ret":
                    cl.exit(ts, env, t)
                    continue
                if t.op == "unreachable":
                    continue
                for succ, e2 in self.edges(env, t):
                    # phis, simultaneously
                    SB = f.blocks[succ]
                    vals = {}
                    tsn = ts
                    phis = [p for p in SB.insts if p.op == "phi"]
                    for p in phis:
                        for v, pb in p.d["inc"]:
                            if pb == bi:
                                vals[p.id] = (self.val(e2, _op(v)), _op(v))
                                break
                    tsn = cl.phis(ts, e2, phis, {k: v[1] for k, v in vals.items()})
                    for k, (av, _) in vals.items():
                        if av != TOP:
                            e2[k] = av
                        else:
                            e2.pop(k, None)
                    tsn = cl.edge(tsn, e2, B, succ)
                    if tsn is None:
                        continue
                    fl = none
                    if self.flags:
                        for p in phis:
                            if p.id in self.flags:
                                o = vals[p.id][1] if p.id in vals else None
                                c = o[1] if o and o[0] == "i" else 0 if o and o[0] == "n" else None
                                if o and o[0] == "v" and ("F", o[1]) in e2:
                                    c = e2[("F", o[1])]
                                e2[("F", p.id)] = c
                        for k in [k for k in e2 if isinstance(k, tuple) and k[0] == "F" and succ not in self.flags[k[1]]]:
                            del e2[k]
                        fl = frozenset((k[1], v) for k, v in e2.items() if isinstance(k, tuple) and k[0] == "F")
                    k2 = (succ, tsn, fl)
                    if k2 not in inn:
                        self.states += 1
                        if self.states > self.max_states:
                            raise RuntimeError("state explosion in %s" % f.name)
                        inn[k2] = e2
                        parent[k2] = key
                        cnt[k2] = 1
                        push(k2)
                    else:
                        cnt[k2] += 1
                        j = self.join_env(inn[k2], e2, cnt[k2] > 4)
                        if j != inn[k2]:
                            inn[k2] = j
                            push(k2)
        self.inn = inn
        return self

    def _dedup(self, lst):
        if len(lst) <= 1:
            return lst
        d = {}
        out = []
        for ts, env in lst:
            if ts in d:
                i = d[ts]
                out[i] = (ts, self.join_env(out[i][1], env, False))
            else:
                d[ts] = len(out)
                out.append((ts, env))
        return out

    def edges(self, env, t):
        if t.op == "br":
            if not t.ops:
                yield t.d["succ"][0], dict(env)
                return
            for truth, s in ((True, t.d["succ"][0]), (False, t.d["succ"][1])):
                e = dict(env)
                try:
                    self.cond(e, t.ops[0], truth)
                except Infeasible:
                    continue
                yield s, e
        elif t.op == "switch":
            succ, cases = t.d["succ"], t.d["cases"]
            by = {}
            for c, s in zip(cases, succ[1:]):
                by.setdefault(s, []).append(c)
            for s, cs in by.items():
                if s == succ[0]:
                    continue
                e = dict(env)
                try:
                    self.setv(e, t.ops[0], (min(cs), max(cs), all(cs)))
                except Infeasible:
                    continue
                yield s, e
            e = dict(env)
            try:
                v = self.val(e, t.ops[0])
                for c in sorted(cases):
                    if v[0] == c:
                        v = (c + 1, v[1], v[2])
                for c in sorted(cases, reverse=True):
                    if v[1] == c:
                        v = (v[0], c - 1, v[2])
                if 0 in cases:
                    v = (v[0], v[1], True)
                if v[0] > v[1]:
                    raise Infeasible()
                self.setv(e, t.ops[0], v)
            except Infeasible:
                return
            yield succ[0], e

    def path(self, key=None, limit=14):
        """source lines of a witness path to the current block"""
        key = key or self.cur
        out = []
        seen = set()
        while key is not None and key not in seen:
            seen.add(key)
            B = self.f.blocks[key[0]]
            for x in reversed(B.insts):
                if x.loc and x.op in ("br", "switch", "call", "ret"):
                    w = x.where()
                    if not out or out[-1] != w:
                        out.append(w)
                    break
            key = self.parent.get(key)
        out.reverse()
        if len(out) > limit:
            out = out[:4] + ["..."] + out[-(limit - 5):]
        return out


def flagphis(f):
    """phis that record which way was taken (a constant on some way in, not loop-carried): id -> blocks
    from which a use of it can be reached.  Their value partitions the states, so that results stored in
    a variable and tested later keep their correlation."""
    order = {b: i for i, b in enumerate(f.rpo())}
    out = {}
    for x in f.insts():
        if x.op != "phi" or not x.ty or x.ty == "ptr" or not x.ty[1:].isdigit():
            continue
        inc = [(_op(v), b) for v, b in x.d["inc"]]
        if any(order.get(b, 0) >= order.get(x.blk.i, 0) for _, b in inc):
            continue
        if not any(v[0] == "i" or (v[0] == "v" and v[1] in out) for v, _ in inc):
            continue
        out[x.id] = None
    if len(out) > 40:
        return {}
    for i in out:
        # uses through casts and comparisons count where those are used
        live, work, seen, vals = set(), [], set(), [i]
        while vals:
            v = vals.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in f.uses.get(v, []):
                if u.op == "phi":
                    for w, b in u.d["inc"]:
                        if v in opvals_list(_op(w)):
                            work.append(b)
                else:
                    work.append(u.blk.i)
                    if u.op in ("icmp", "zext", "sext", "trunc", "xor", "and", "or", "freeze", "select"):
                        vals.append(u.id)
        while work:
            b = work.pop()
            if b in live:
                continue
            live.add(b)
            if b != f.defs[i].blk.i:
                work += f.blocks[b].pred
        out[i] = live
    return out


def decide(p, a, b):
    """truth of a p b on intervals, or None"""
    if p == "eq":
        if a[0] == a[1] == b[0] == b[1]:
            return True
        if meet(a, b) is None:
            return False
        return None
    if p == "ne":
        r = decide("eq", a, b)
        return None if r is None else not r
    if p[0] == "u":
        if a[0] < 0 or b[0] < 0:
            return None
        p = "s" + p[1:]
    if p == "slt":
        if a[1] < b[0]:
            return True
        if a[0] >= b[1]:
            return False
    elif p == "sle":
        if a[1] <= b[0]:
            return True
        if a[0] > b[1]:
            return False
    elif p == "sgt":
        return decide("slt", b, a)
    elif p == "sge":
        return decide("sle", b, a)
    return None


def retrange(mod, name, depth=0):
    """interval of the constants a function returns, None when something else is returned"""
    memo = mod.__dict__.setdefault("_retrange", {})
    if name in memo:
        return memo[name]
    memo[name] = None
    f = mod.defined.get(name)
    if f is None or f.ret is None or depth > 20:
        return None
    r = None
    for x in f.insts():
        if x.op == "ret" and x.ops:
            v = _constval(f, x.ops[0], depth, set())
            if v is None:
                return None
            if v != ():
                r = v if r is None else join(r, v)
    memo[name] = r
    return r


def _constval(f, o, depth, seen):
    if o[0] == "i":
        return const(o[1] & 1) if o[2] == 1 else const(o[1])
    if o[0] == "n":
        return NULL
    if o[0] == "v":
        if o[1] in seen:
            return ()
        seen.add(o[1])
        x = f.defs.get(o[1])
        if x is None:
            return None
        if x.op in ("phi", "select"):
            r = ()
            for w in ([_op(v) for v, _ in x.d["inc"]] if x.op == "phi" else x.ops[1:]):
                v = _constval(f, w, depth, seen)
                if v is None:
                    return None
                if v != ():
                    r = v if r == () else join(r, v)
            return r
        if x.op == "call" and x.callee:
            return retrange(f.mod, x.callee, depth + 1)
        if x.op == "zext" and x.d.get("sty") == "i1":
            return (0, 1, False)
    return None


PURE = set("""strlen strcmp strncmp strchr strrchr strstr strcasecmp strncasecmp memcmp memchr strspn strcspn
isatty getpid toupper tolower isspace isdigit isalpha isalnum __ctype_b_loc __errno_location strtol strtoul strtoull strtoll atoi
fprintf printf perror puts fputs putchar fputc fflush fclose close open open64 fopen fopen64 opendir closedir write access unlink rename remove rmdir mkdir
free malloc getenv strerror lseek lseek64 abs sysconf munmap mmap strdup dlclose dlopen dlsym dlerror""".split())
PUREPREFIX = ("llvm.",)


def pure_call(x):
    """calls that do not write memory visible to the analysed cells"""
    c = x.callee
    return c is not None and (c in PURE or c.startswith("llvm.dbg") or c.startswith("llvm.stack"))


def escaped_allocas(f):
    """allocas whose address is stored, returned, compared into unknown, or passed to a call"""
    esc = set()
    for x in f.insts():
        if x.op != "alloca":
            continue
        work, seen = [x.id], set()
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            for u in f.uses.get(v, []):
                if u.op in ("getelementptr", "bitcast", "phi", "select"):
                    work.append(u.id)
                elif u.op == "store":
                    if v in opvals_list(u.ops[0]):
                        esc.add(x.id)
                elif u.op in ("load", "icmp"):
                    pass
                elif u.op == "call" and (u.callee or "").startswith("llvm.mem"):
                    pass
                else:
                    esc.add(x.id)
    return esc


def opvals_list(o):
    return list(opvals(o))


class Client:
    sim = None

    def init(self, f):
        return [("start", {})]

    def step(self, ts, env, x):
        return None

    def phis(self, ts, env, phis, vals):
        return ts

    def edge(self, ts, env, B, succ):
        return ts

    def exit(self, ts, env, t):
        pass

    def noreturn(self, ts, env, x):
        pass
