"""Effects of a region of code, path by path: which fields of a structure are set to what, and which
functions are called with what.  Values are described by trees; branch conditions are recorded, and
branches whose condition folds to a constant are not followed."""
import re
from .ir import _op

COMM = ("add", "and", "or", "xor", "mul")


class Effects:
    def __init__(self, mod, f, struct, name=None, maxpaths=4000, maxvisit=2, exact=False):
        self.loadval = None                        # (address, load) -> known value
        self.memory = False                        # stores are seen by later loads of the same address
        self.eager = False                         # loads are described where they happen
        self.callval = None                        # (name, arguments, environment) -> value of the call
        self.onstore = None                        # (address, value, environment) -> environment changes, or None
        self.strings = True                        # addresses of string constants are shown as their text
        self.silent = False                        # events other than the final environment are not kept
        self.frame = None                          # distinguishes the locals of nested calls
        self.keepenv = False                       # the last event of a path is its environment
        self.oncall = None                         # (name, environment) -> environment changes
        self.tracked = set()                       # global variables whose value is followed
        self.params = {}                           # parameters with a known value
        self.exact = exact                         # narrowing conversions are kept
        self.mod, self.f, self.struct = mod, f, struct
        self.name = name or (lambda x: None)       # instruction -> symbolic name of its value
        self.maxpaths, self.maxvisit = maxpaths, maxvisit
        fs = mod.structs.get(struct, {}).get("fields", [])
        self.first = fs[0][0] if fs else None      # a pointer to the structure is also one to its first field
        self.whole = {k for k, t in enumerate(f.ditypes) if struct in str(t)}
        if len(f.ditypes) == len(f.params) + 1:
            self.whole = {k - 1 for k in self.whole}
        self.sticky = set()                        # slots a callee may advance but not redirect

    # ------------------------------------------------------------------ values
    def desc(self, o, env, n=0):
        if not o or n > 25:
            return ("?",)
        if o[0] == "i":
            w = o[2] if len(o) > 2 else 64
            v = o[1]
            if w == 1:
                return ("i", v & 1)
            v &= (1 << w) - 1
            return ("i", v - (1 << w) if v >> (w - 1) & 1 else v)
        if o[0] in ("null", "n"):
            return ("i", 0)
        if o[0] == "g":
            s = self.mod.gstr(o) if self.strings else None
            return ("str", s) if s is not None else ("g", o[1])
        if o[0] == "gep":
            s = self.mod.gstr(o) if self.strings else None
            if s is not None:
                return ("str", s)
            return self.addr(self.desc(o[1], env, n + 1), o[2], o[4])
        if o[0] == "f" and len(o) > 1:
            return ("bits", o[1])
        if o[0] != "v":
            return ("?", o[0])
        if ("u", o[1]) in env:
            return env[("u", o[1])]
        x = self.f.defs.get(o[1])
        if x is None:
            k = self.f.pidx.get(o[1], -1)
            return self.params.get(k, ("param", k))
        t = self.name(x)
        if t is not None:
            return t
        if x.op == "phi":
            return env.get(x.id, ("phi", x.id))
        if x.op in ("sext", "zext", "trunc", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            a = self.desc(x.ops[0], env, n + 1)
            if a[0] == "i" and x.ty and x.ty[0] == "i":
                w = int(x.ty[1:])
                v = a[1]
                if x.op == "zext" and v < 0:
                    src = self.f.defs.get(x.ops[0][1]) if x.ops[0][0] == "v" else None
                    if src is not None and src.ty and src.ty[0] == "i":
                        v &= (1 << int(src.ty[1:])) - 1
                if x.op == "trunc" and w > 1:
                    v &= (1 << w) - 1
                    v = v - (1 << w) if v >> (w - 1) & 1 else v
                return ("i", v & 1 if w == 1 else v)
            if a[0] == "bits" and x.op == "bitcast" and x.ty[0] == "i":
                return ("i", a[1])
            if self.exact and x.ty and x.ty[0] == "i":
                if x.op == "trunc":
                    return ("tr", int(x.ty[1:]), a)
                if self.exact == 2:
                    src = self.f.defs.get(x.ops[0][1]) if x.ops[0][0] == "v" else None
                    if x.op == "zext" and src is not None and src.ty and src.ty != "i1":
                        return narrow("tru", int(src.ty[1:]), a)
                    return a
                if x.op == "zext" and a[0] == "tr":
                    return ("tru",) + a[1:]
                if x.op == "zext" and a[0] in ("load", "ld", "fld", "param", "call"):
                    src = self.f.defs.get(x.ops[0][1]) if x.ops[0][0] == "v" else None
                    if src is not None and src.ty and src.ty[0] == "i":
                        return ("tru", int(src.ty[1:]), a)
            return a
        if x.op == "alloca":
            return ("slot", x.id) if self.frame is None else ("slot", x.id, self.frame)
        if x.op == "load":
            p = self.atfirst(self.desc(x.ops[0], env, n + 1))
            if p[0] == "field":
                return ("fld", p[1])
            if self.memory and ("m", p) in env:
                ty, v = env[("m", p)]
                return v if ty == x.ty else ("?",)
            if self.loadval:
                r = self.loadval(p, x, env) if self.eager else self.loadval(p, x)
                if r is not None:
                    return r
            if p[0] == "g" and p in env:
                return env[p]
            if p[0] == "slot" and p in env:
                return env[p]
            if p[0] == "mem":
                return ("ld", p[1] + "." + p[2], p[3])
            return ("load", p)
        if x.op == "getelementptr":
            b = self.desc(x.ops[0], env, n + 1)
            if x.d.get("bad"):
                return ("?",)
            if x.d.get("var"):
                c = x.d["coff"]
                t = ("i", c)
                for sc, v in x.d["var"]:
                    d = self.desc(_op(v), env, n + 1)
                    if d[0] == "i":
                        c += sc * d[1]
                        t = ("i", c)
                    else:
                        return ("ptr", b, ("op", "idx", d, ("i", sc)), ("i", c))
                return self.addr(b, c, x.d.get("path", []))
            return self.addr(b, x.d["coff"], x.d.get("path", []))
        if x.op == "call":
            return ("call", libname(x.callee), tuple(self.desc(a, env, n + 1) for a in x.ops[:6]))
        if x.op == "icmp":
            a, b = self.desc(x.ops[0], env, n + 1), self.desc(x.ops[1], env, n + 1)
            p = x.d.get("pred")
            if self.exact == 2 and p[0] == "u":
                w = next((int(d.ty[1:]) for d in (self.f.defs.get(o[1]) for o in x.ops if o[0] == "v")
                          if d is not None and d.ty and d.ty[0] == "i"), 64)
                if w < 64:
                    a, b = known(("tru", w, a)), known(("tru", w, b))
            return fold(p, a, b)
        if x.op == "select":
            c = self.desc(x.ops[0], env, n + 1)
            a, b = self.desc(x.ops[1], env, n + 1), self.desc(x.ops[2], env, n + 1)
            if c[0] == "i":
                return a if c[1] else b
            return a if a == b else ("sel", c, a, b)
        if x.op in ("add", "sub", "and", "or", "xor", "mul", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a, b = self.desc(x.ops[0], env, n + 1), self.desc(x.ops[1], env, n + 1)
            if self.exact == 2:
                w = int(x.ty[1:])
                if w < 64 and x.op in ("lshr", "udiv", "urem"):
                    a, b = ("tru", w, a), ("tru", w, b)
                a, b = known(a), known(b)
                if a[0] == "i" and b[0] == "i":
                    v = evaluate(("op", x.op, a, b), {})
                    return ("?",) if v is None else ("i", v & 1) if w == 1 else narrow("tr", w, ("i", s64(v)))
                d = arith(x.op, a, b)
                return d if w == 1 else narrow("tr", w, d)
            return arith(x.op, a, b)
        if x.op in ("fadd", "fsub", "fmul", "fdiv", "frem", "fneg", "fpext", "fptrunc", "sitofp", "uitofp", "fptosi", "fptoui"):
            if x.op in ("fpext", "fptrunc"):
                return self.desc(x.ops[0], env, n + 1)
            a = tuple(self.desc(o, env, n + 1) for o in x.ops)
            if self.exact == 2 and x.op == "uitofp":
                a = (known(("tru", int((self.type(x.ops[0]) or "i64")[1:]), a[0])),)
            return ("op", x.op) + a
        if x.op == "fcmp":
            return ("op", "f" + x.d.get("pred", "?"), self.desc(x.ops[0], env, n + 1), self.desc(x.ops[1], env, n + 1))
        return (x.op, x.id)

    def type(self, o):
        d = self.f.defs.get(o[1]) if o[0] == "v" else None
        return d.ty if d is not None else "i%d" % o[2] if o[0] == "i" and len(o) > 2 else None

    def atfirst(self, p):
        return ("field", self.first) if p[0] == "param" and p[1] in self.whole and self.first else p

    def addr(self, base, coff, path):
        path = [p for p in (path or []) if p and p[0] == "s"]
        for p in path:
            if p[1].split(".")[-1].split("::")[-1] == self.struct:
                fs = self.mod.structs.get(self.struct, {}).get("fields", [])
                if p[2] < len(fs):
                    nm = fs[p[2]][0]
                    o = self.mod.field_at(self.struct, p[3])
                    return ("field", o or nm)
        if self.exact is True and path:
            p = path[-1]
            sn = p[1].split(".", 1)[-1]
            fl = self.mod.field_at(sn, p[3])
            if fl and p[3] == coff:
                return ("mem", sn, fl, base)
        if coff == 0:
            return base
        if base[0] == "i" and self.exact == 2:
            return ("i", base[1] + coff)
        if base[0] == "ptr" and base[2][0] == "i":
            return ("ptr", base[1], ("i", base[2][1] + coff))
        return ("ptr", base, ("i", coff))

    # ------------------------------------------------------------------ paths
    def paths(self, start, pred, stop, skipcall=lambda x: False, env=None, idx=0):
        """yield (conditions, events, how it ended) for every path; stop(block) ends a path"""
        f = self.f
        out = []
        stack = [(start, pred, dict(env or {}), (), (), {}, idx)]
        while stack:
            b, pr, env, conds, ev, seen, idx = stack.pop()
            if len(out) > self.maxpaths:
                out.append((conds, ev, "cut"))
                return out
            while True:
                if pr is not None and stop(b):
                    ph = []
                    for x in f.blocks[b].insts:
                        if x.op != "phi":
                            break
                        ph += [self.desc(_op(v), env) for v, p in x.d["inc"] if p == pr]
                    out.append((conds, ev, ("end", b, tuple(ph))))
                    break
                if seen.get(b, 0) >= self.maxvisit:
                    out.append((conds, ev, "cut"))
                    break
                seen = dict(seen)
                seen[b] = seen.get(b, 0) + 1
                B = f.blocks[b]
                if pr is not None:
                    new = {}
                    for x in B.insts:
                        if x.op != "phi":
                            break
                        for v, p in x.d["inc"]:
                            if p == pr:
                                new[x.id] = self.desc(_op(v), env)
                                break
                    # values computed from an older phi keep their old meaning only within an iteration
                    env = dict(env)
                    env.update(new)
                done = False
                for x in B.insts[idx:]:
                    if x.op == "store":
                        p = self.atfirst(self.desc(x.ops[1], env))
                        v = self.desc(x.ops[0], env)
                        hk = self.onstore(p, v, env) if self.onstore else None
                        if hk is not None:
                            env = {**env, **hk}
                        elif p[0] == "field":
                            ev = ev + (("set", p[1], v, x),)
                        elif p[0] == "slot" or p[0] == "g" and p[1] in self.tracked:
                            env = dict(env)
                            env[p] = v
                            if p[0] == "g":
                                ev = ev + (("store", p, v, x),)
                        else:
                            ev = ev if self.silent else ev + (("store", p, v, x),)
                            if self.memory:
                                env = {**env, ("m", p): (self.type(x.ops[0]), v)}
                    elif x.op == "load":
                        p = self.desc(x.ops[0], env)
                        if p[0] == "slot" or p[0] == "g" and p[1] in self.tracked:
                            env = dict(env)
                            v = env.get(p)
                            if v is None and self.eager and self.loadval:
                                v = self.loadval(p, x, env)
                            env[("u", x.id)] = v or ("load", p)
                        elif self.eager:
                            env = dict(env)
                            env.pop(("u", x.id), None)
                            v = self.desc(("v", x.id), env)
                            env[("u", x.id)] = v
                    elif x.op == "call":
                        args = tuple(self.desc(a, env) for a in x.ops)
                        if not self.silent and not skipcall(x):
                            ev = ev + (("call", libname(x.callee), args, x),)
                        cp = (x.callee or "").startswith("llvm.memcpy")
                        if cp and args[1] in env and args[1][0] == "slot":
                            ev = ev + (("store", args[0], env[args[1]], x),)
                        env0 = env
                        for a in args[:1] if cp else args:
                            if a[0] == "slot" and a in env and a not in self.sticky:
                                env = dict(env)
                                del env[a]
                        if self.callval:
                            r = self.callval(libname(x.callee), args, env0)
                            if r is not None:
                                env = {**env, ("u", x.id): r}
                        if self.oncall:
                            env = {**env, **(self.oncall(libname(x.callee), env0, args) if self.callval else self.oncall(libname(x.callee), env0))}
                    elif x.op == "ret":
                        if self.keepenv:
                            ev = ev + (("env", env),)
                        out.append((conds, ev, ("ret", self.desc(x.ops[0], env) if x.ops else None)))
                        done = True
                    elif x.op == "unreachable":
                        out.append((conds, ev, "dead"))
                        done = True
                idx = 0
                if done:
                    break
                t = B.insts[-1]
                nxt = []
                if t.op == "br" and t.ops and len(t.d["succ"]) == 2:
                    c = self.desc(t.ops[0], env)
                    if c[0] == "i":
                        nxt = [(t.d["succ"][0 if c[1] else 1], None)]
                    else:
                        for k, s in enumerate(t.d["succ"]):
                            lit = norm((c, k == 0))
                            if norm((c, k != 0)) not in conds:
                                nxt.append((s, lit))
                elif t.op == "switch":
                    c = self.desc(t.ops[0], env)
                    vals = cases(t)
                    if c[0] == "i":
                        nxt = [(next((s for v, s in vals if v == c[1]), t.d["succ"][0]), None)]
                    else:
                        nxt = [(s, norm((fold("eq", c, ("i", v)), True))) for v, s in vals]
                        nxt.append((t.d["succ"][0], (("default", c), True)))
                else:
                    nxt = [(s, None) for s in B.succ]
                if not nxt:
                    out.append((conds, ev, "dead"))
                    break
                for s, c in nxt[1:]:
                    stack.append((s, b, env, conds + ((c,) if c and c not in conds else ()), ev, seen, 0))
                s, c = nxt[0]
                if c and c not in conds:
                    conds = conds + (c,)
                pr, b = b, s
        return out


def libname(n):
    n = n or "?"
    n = n[9:] if n.startswith("__isoc23_") else n
    return re.sub(r"\.\d+$", "", n)


def cases(t):
    """[(value, successor block)] of a switch"""
    return [(v, s) for v, s in zip(t.d["cases"], t.d["succ"][1:])]


def norm(lit):
    c, t = lit
    while True:
        if c[0] == "op" and c[1] == "ne":
            c, t = ("op", "eq") + c[2:], not t
        elif c[0] == "op" and c[1] == "xor" and c[3] == ("i", 1):
            c, t = c[2], not t
        elif c[0] == "op" and c[1] == "eq" and c[3] == ("i", 0) and isbool(c[2]):
            c, t = c[2], not t
        else:
            return (c, t)


def isbool(c):
    return c[0] == "op" and c[1] in ("eq", "ne", "slt", "sgt", "sle", "sge", "ult", "ugt", "ule", "uge")


NONNULL = ("sy", "out", "ct", "heap", "va")


def fold(p, a, b):
    if a[0] == "i" and b[0] == "i":
        x, y = a[1], b[1]
        if p[0] == "u":
            x, y = x & (2 ** 64 - 1), y & (2 ** 64 - 1)
        return ("i", int({"eq": x == y, "ne": x != y, "slt": x < y, "sle": x <= y, "sgt": x > y, "sge": x >= y,
                          "ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[p]))
    if a[0] in NONNULL and b == ("i", 0) and p in ("eq", "ne"):
        return ("i", int(p == "ne"))
    if a[0] == "i":
        a, b = b, a
        p = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult",
             "ule": "uge", "uge": "ule"}.get(p, p)
    return ("op", p, a, b)


def arith(op, a, b):
    if a[0] == "i" and b[0] == "i":
        x, y = a[1], b[1]
        try:
            return ("i", {"add": lambda: x + y, "sub": lambda: x - y, "and": lambda: x & y, "or": lambda: x | y,
                          "xor": lambda: x ^ y, "mul": lambda: x * y, "shl": lambda: x << y,
                          "lshr": lambda: x >> y, "ashr": lambda: x >> y}[op]())
        except (KeyError, ValueError):
            return ("?",)
    if a[0] == "i" and op in COMM:
        a, b = b, a
    if b == ("i", 0) and op in ("add", "sub", "or", "xor", "shl", "lshr", "ashr"):
        return a
    if op == "sub" and b[0] == "i":
        op, b = "add", ("i", -b[1])
    if op == "add" and a[0] == "op" and a[1] == "add" and b[0] == "i" and a[3][0] == "i":
        s = a[3][1] + b[1]
        return ("op", "add", a[2], ("i", s)) if s else a[2]
    return ("op", op, a, b)


def narrow(k, w, d):
    return d if w >= 64 and k == "tr" else known((k, w, d))


def known(d):
    if d[0] in ("tr", "tru") and d[2][0] == "i":
        return ("i", evaluate(d, {}))
    return d


def s64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


def contains(d, pat):
    if d == pat:
        return True
    return isinstance(d, tuple) and any(contains(x, pat) for x in d if isinstance(x, tuple))


def evaluate(d, asg):
    """integer value of a tree under an assignment of its atoms, or None"""
    if d in asg:
        return asg[d]
    if d[0] == "i":
        return d[1]
    if d[0] in ("tr", "tru"):
        a = evaluate(d[2], asg)
        if a is None:
            return None
        a &= (1 << d[1]) - 1
        return a - (1 << d[1]) if d[0] == "tr" and a >> (d[1] - 1) & 1 else a
    if d[0] == "sel":
        c = evaluate(d[1], asg)
        return None if c is None else evaluate(d[2] if c else d[3], asg)
    if d[0] == "op":
        a, b = evaluate(d[2], asg), evaluate(d[3], asg)
        if a is None or b is None:
            return None
        u = lambda v: v & ((1 << 64) - 1)
        if d[1] == "lshr":
            return s64(u(a) >> (b & 63))
        if d[1] == "shl":
            return s64(a << (b & 63))
        if d[1] in ("udiv", "urem"):
            return None if b == 0 else s64(u(a) // u(b) if d[1] == "udiv" else u(a) % u(b))
        if d[1] in ("sdiv", "srem"):
            if b == 0:
                return None
            q = abs(a) // abs(b)
            q = -q if (a < 0) != (b < 0) else q
            return s64(q if d[1] == "sdiv" else a - q * b)
        if d[1] == "ashr":
            return a >> (b & 63)
        if d[1] in ("add", "sub", "mul"):
            return s64({"add": a + b, "sub": a - b, "mul": a * b}[d[1]])
        r = fold(d[1], ("i", a), ("i", b)) if d[1] in CMP else arith(d[1], ("i", a), ("i", b))
        return r[1] if r[0] == "i" else None
    return None


CMP = ("eq", "ne", "slt", "sgt", "sle", "sge", "ult", "ugt", "ule", "uge")


def same(d, ref, atoms, dom):
    """is tree d equal to the function ref(values of atoms) on the domain"""
    import itertools
    for vs in itertools.product(*[dom] * len(atoms)):
        if evaluate(d, dict(zip(atoms, vs))) != ref(*vs):
            return False
    return True


def dominated(f, b):
    """blocks dominated by block b"""
    seen, work = set(), [0] if b != 0 else []
    while work:
        k = work.pop()
        if k in seen or k == b:
            continue
        seen.add(k)
        work += f.blocks[k].succ
    full, work = set(), [0]
    while work:
        k = work.pop()
        if k not in full:
            full.add(k)
            work += f.blocks[k].succ
    return full - seen


def reach(f, b):
    seen, work = set(), [b]
    while work:
        k = work.pop()
        for s in f.blocks[k].succ:
            if s not in seen:
                seen.add(s)
                work.append(s)
    return seen


def linear(d):
    """tree -> {atom: coefficient}, the constant under 1; conversions are transparent"""
    if d[0] == "i":
        return {1: d[1]} if d[1] else {}
    if d[0] in ("tr", "tru"):
        return linear(d[2])
    if d[0] == "ptr":
        return ladd(linear(d[1]), linear(d[2]), 1)
    if d[0] == "op":
        if d[1] in ("add", "sub"):
            return ladd(linear(d[2]), linear(d[3]), 1 if d[1] == "add" else -1)
        if d[1] in ("mul", "idx") and d[3][0] == "i":
            return {k: v * d[3][1] for k, v in linear(d[2]).items()}
        if d[1] == "shl" and d[3][0] == "i":
            return {k: v << d[3][1] for k, v in linear(d[2]).items()}
        if d[1] in ("or", "xor") and d[3][0] == "i":
            # or-ing into bits the other side leaves clear is an addition
            a = linear(d[2])
            if all(v % (1 << 32) == 0 for v in a.values()) and 0 <= d[3][1] < 1 << 32 and 1 not in a:
                return ladd(a, {1: d[3][1]}, 1)
    return {d: 1}


def ladd(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}
