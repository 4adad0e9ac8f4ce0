"""C44: the machine code emitted for an operation computes that operation."""
from sa.build import Tree
from sa.focus import focus, PLAIN
from sa.ir import Module
from sa.effects import Effects, linear, s64
from sa import x86

CONST, LLOCAL, LOCAL, CMP, JMP, JMPI, LVAL, SYM = 0x30, 0x31, 0x32, 0x33, 0x34, 0x35, 0x100, 0x200
BYTE, SHORT, INT, LLONG, PTR, FUNC, STRUCT, FLOAT, DOUBLE, LDOUBLE, BOOL = 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11
UNS, DEFSIGN, CONSTANT, VOLATILE, STATIC = 0x10, 0x20, 0x100, 0x200, 0x2000
ST0 = 24
SZ = 64
START = 0x1000
TYN = {BYTE: "char", SHORT: "short", INT: "int", LLONG: "long long", PTR: "pointer", FLOAT: "float", DOUBLE: "double",
       LDOUBLE: "long double", BOOL: "_Bool", FUNC: "function", STRUCT: "struct"}
STOP = ("g", "gv", "gv2", "get_reg", "save_reg", "save_regs", "vswap", "vpop", "vpushi", "vpush_const", "greloca", "gsym",
        "vset_VT_CMP", "_tcc_error", "type_size", "gfunc_call", "vpush_helper_func", "external_global_sym", "vpushsym", "vrott",
        "read32le", "write32le", "section_realloc", "vpushv", "vrotb")
ROOTS = ["gen_opi", "gen_opl", "gen_opf", "gen_cvt_itof", "gen_cvt_ftof", "gen_cvt_ftoi", "gen_cvt_sxtw", "gen_cvt_csti", "gjmp_cond",
         "gjmp", "load", "store", "gen_struct_copy", "gen_vla_sp_save", "gen_vla_sp_restore", "gen_vla_alloc", "ggoto",
         "gen_increment_tcov"]
COND = ["o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"]
R_64, R_PC32, R_PLT32, R_GOTPCREL = 1, 2, 4, 9


def tyn(t):
    return ("unsigned " if t & UNS else "") + TYN.get(t & 15, "?")


class Lost(Exception):
    pass


class Gen:
    """code emission with known operands: registers, stack entries and the position are followed by value"""

    def __init__(self, R, m):
        self.R, self.m = R, m
        self.vt = next((n for n in m.globals if n == "vtop"), None) or next(n for n in m.globals if n.endswith("vtop"))
        g = R.need(m.globals.get("reg_classes"), "reg_classes")
        self.cls = {off // 4: v[1] for off, n, v in g["init"]}
        o = {n: off for n, off, z, t in m.structs["SValue"]["fields"]}
        fs = sorted(off for n, off, z, t in m.structs["SValue"]["fields"])
        self.size = m.structs["SValue"].get("size", SZ)
        self.T, self.RR, self.C = o["type"], o["r"], min(x for x in fs if x > o["r2"])
        self.S = fs[-1]
        self.symt = m.field_off("Sym", "type") if "Sym" in m.structs else 24

    # ---------------------------------------------------------- emission
    def run(self, fn, params, slots, plan=(0, 1, 2), syms=None, struct=None, root=True):
        """[(log, environment, how)] of the feasible paths; slots: list of entries from the bottom up"""
        f = self.R.need(self.m.defined.get(fn), fn)
        E = Effects(self.m, f, "-", exact=2, maxvisit=200)
        E.eager = E.memory = E.keepenv = True
        E.tracked = {self.vt}
        E.params = dict(params)
        top = (len(slots) - 1) * self.size
        env = {("g", self.vt): self.at(top), ("log",): (), ("n",): 0, ("lo",): 0}
        for k, s in enumerate(slots):
            self.fill(env, k * self.size, s)
        self.plan, self.syms, self.struct = plan, syms or {}, struct
        E.loadval, E.onstore = self.loadval, self.onstore
        E.callval = lambda name, args, env: self.act(name, args, env)[0]
        E.oncall = lambda name, env, args: self.act(name, args, env)[1]
        out = []
        for conds, ev, how in E.paths(0, None, lambda k: False, env=env):
            if how == "dead":
                out.append((conds, None, None, "dead"))
                continue
            if how == "cut":
                raise Lost("cut")
            e = ev[-1][1]
            out.append((conds, e[("log",)], e, how))
        live = [p for p in out if p[3] != "dead"]
        return live

    def at(self, off):
        return ("ptr", ("vt",), ("i", off)) if off else ("vt",)

    def fill(self, env, off, s):
        env[("sv", off + self.T)] = s.get("t", INT)
        env[("sv", off + self.RR)] = s["r"]
        env[("sv", off + self.C)] = s.get("c", 0)
        if "sym" in s:
            env[("sv", off + self.S)] = ("symp", s["sym"])
        if "cmp_op" in s:
            env[("sv", off + self.S)] = s["cmp_op"]
            env[("sv", off + self.S + 2)] = s.get("cmp_r", 0)
        env[("val", off)] = s.get("val", off)

    def where(self, p):
        l = linear(p)
        if l.pop(("vt",), 0) != 1 or set(l) - {1}:
            return None
        return l.get(1, 0)

    def loadval(self, p, x, env):
        if p[0] == "g" and p[1] == "nocode_wanted":
            return ("i", 0)
        if p[0] == "g" and p[1] == "ind":
            return ("i", START + env[("n",)])
        w = self.where(p)
        if w is not None:
            v = env.get(("sv", w))
            if isinstance(v, int) and x.ty and x.ty[0] == "i":
                n = int(x.ty[1:])
                v &= (1 << n) - 1
                return ("i", v - (1 << n) if v >> (n - 1) else v)
            if isinstance(v, tuple):
                return v
            return ("?",)
        l = linear(p)
        k = l.pop(1, 0)
        if len(l) == 1:
            (a, c), = l.items()
            if c == 1 and a[0] == "symp" and k == self.symt:
                return ("i", self.syms.get(a[1], 0))
            if c == 1 and a == ("g", "reg_classes"):
                return ("i", self.cls.get(k // 4, 0))
        return None

    def onstore(self, p, v, env):
        if p[0] == "g" and p[1] == "ind":
            return {}
        w = self.where(p)
        if w is None:
            return None
        return {("sv", w): v[1] if v[0] == "i" else v}

    # ---------------------------------------------------------- the register allocator's contract
    def top(self, env):
        w = self.where(env[("g", self.vt)])
        if w is None:
            raise Lost("vtop")
        return w

    def regof(self, env, off):
        r = env.get(("sv", off + self.RR))
        return r if isinstance(r, int) else None

    def users(self, env, reg):
        return [o for o in range(env[("lo",)], self.top(env) + 1, self.size)
                if self.regof(env, o) is not None and self.regof(env, o) & 0x3f == reg]

    def spill(self, env, reg, log, skip=()):
        us = [o for o in self.users(env, reg) if o not in skip]
        for o in us:
            r = self.regof(env, o)
            env[("sv", o + self.RR)] = (LVAL | LLOCAL) if r & LVAL else (LVAL | LOCAL)
            env[("sv", o + self.C)] = -512 - o
        log.append(("save", reg, tuple(us)))

    def choose(self, env, rc, log):
        order = [r for r in self.plan if self.cls.get(r, 0) & rc] + [r for r in sorted(self.cls) if self.cls[r] & rc and r not in self.plan]
        if not order:
            raise Lost("no register in class %#x" % rc)
        for r in order:
            if not self.users(env, r):
                return r
        for o in range(env[("lo",)], self.top(env) + 1, self.size):
            r = self.regof(env, o)
            if r is not None and r & 0x3f in order:
                self.spill(env, r & 0x3f, log)
                return r & 0x3f

    def gv(self, env, off, rc, log):
        r = self.regof(env, off)
        if r is None:
            raise Lost("entry")
        if not (r & LVAL) and r & 0x3f < CONST and self.cls.get(r & 0x3f, 0) & rc:
            return r & 0x3f
        n = self.choose(env, rc, log)
        log.append(("gv", off, n, env.get(("val", off)), env[("sv", off + self.T)]))
        env[("sv", off + self.RR)] = n
        return n

    def act(self, name, args, env0):
        env, log, val = dict(env0), [], None
        arg = [a[1] if a[0] == "i" else a for a in args]
        t = self.top(env)
        if name == "g":
            log.append(("b", arg[0] & 255 if isinstance(arg[0], int) else None))
            env[("n",)] += 1
        elif name == "gv":
            val = ("i", self.gv(env, t, arg[0], log))
        elif name == "gv2":
            if self.regof(env, t) != CMP and arg[0] <= arg[1]:
                self.gv(env, t - self.size, arg[0], log)
                self.gv(env, t, arg[1], log)
                if self.regof(env, t - self.size) & 0x3f >= CONST:
                    self.gv(env, t - self.size, arg[0], log)
            else:
                self.gv(env, t, arg[1], log)
                self.gv(env, t - self.size, arg[0], log)
                if self.regof(env, t) & 0x3f >= CONST:
                    self.gv(env, t, arg[1], log)
        elif name == "get_reg":
            r = self.choose(env, arg[0], log)
            log.append(("get", r))
            val = ("i", r)
        elif name == "save_reg":
            self.spill(env, arg[0], log)
        elif name == "save_regs":
            for r in self.cls:
                if any(True for o in self.users(env, r) if o <= t - arg[0] * self.size):
                    self.spill(env, r, log)
        elif name == "vswap":
            for k in [k for k in env if isinstance(k, tuple) and k[0] in ("sv", "val")]:
                if t <= k[1] < t + self.size:
                    env.pop(k)
                elif t - self.size <= k[1] < t:
                    env.pop(k)
            for k, v in env0.items():
                if isinstance(k, tuple) and k[0] in ("sv", "val"):
                    if t <= k[1] < t + self.size:
                        env[(k[0], k[1] - self.size)] = v
                    elif t - self.size <= k[1] < t:
                        env[(k[0], k[1] + self.size)] = v
        elif name == "vpop":
            if self.regof(env, t) == ST0:
                log.append(("fpop",))
            env[("g", self.vt)] = self.at(t - self.size)
        elif name in ("vpushi", "vpush_const", "vpush_helper_func", "vpushsym"):
            n = t + self.size
            v = {"vpushi": ("int", arg[0]), "vpush_const": ("global", arg[-1])}.get(name, (name,) + tuple(arg[:2]))
            self.fill(env, n, {"t": arg[0] if name == "vpush_const" else INT, "r": CONST | (LVAL | SYM if name == "vpush_const" else 0),
                               "c": arg[0] if name == "vpushi" else 0, "val": v})
            env[("g", self.vt)] = self.at(n)
            log.append(("push", n, v))
        elif name == "greloca":
            off = arg[2] if len(arg) > 2 else None
            log.append(("rel", off - START if isinstance(off, int) else None, arg[3], arg[4], args[1]))
        elif name == "gsym":
            log.append(("patch", arg[0] - START if isinstance(arg[0], int) else arg[0], env[("n",)]))
        elif name == "vset_VT_CMP":
            env[("sv", t + self.RR)] = CMP
            env[("sv", t + self.S)] = arg[0] & 0xffff
            env[("sv", t + self.S + 2)] = 0
            env[("sv", t + self.C)] = 0
            log.append(("cmp", arg[0]))
        elif name == "type_size":
            val = ("i", self.struct if self.struct is not None else 8)
        elif name == "load":
            w = self.where(args[1])
            if w is not None:
                src = {"t": env[("sv", w + self.T)], "r": env[("sv", w + self.RR)], "c": env[("sv", w + self.C)], "val": env.get(("val", w)),
                       "off": w}
            else:
                b = args[1]
                src = {k: env.get(("m", ("ptr", b, ("i", o))) if o else b) for k, o in (("t", self.T), ("r", self.RR), ("c", self.C))}
                src = {k: (v[1][1] if v and v[0][0] == "i" and isinstance(v[1], tuple) and v[1][0] == "i" else v[1] if v and v[0] == "i" else None)
                       for k, v in src.items()}
            log.append(("load", arg[0], src))
        elif name in ("gen_opi", "gen_cvt_ftof", "gfunc_call"):
            log.append(("do", name, tuple(arg[:1])))
        if name == "_tcc_error":
            log.append(("error",))
        ch = {k: v for k, v in env.items() if env0.get(k) != v}
        for k in env0:
            if k not in env:
                ch[k] = None
        if log:
            ch[("log",)] = env0[("log",)] + tuple(log)
        return val, ch


def runs(log):
    """byte runs and events in order: ("code", bytes, start, {offset: relocation}) or the event"""
    out, cur, start, pos = [], [], 0, 0
    rel = {e[1]: e[2:] for e in log if e[0] == "rel"}

    def flush():
        nonlocal cur
        if cur:
            out.append(("code", tuple(cur), start, {k - start: rel[k] for k in rel if k is not None and start <= k < start + len(cur)}))
        cur = []
    for e in log:
        if e[0] == "b":
            if not cur:
                start = pos
            cur.append(e[1])
            pos += 1
        elif e[0] in ("rel", "patch", "get"):
            if e[0] == "get":
                flush()
                out.append(e)
            elif e[0] == "patch":
                out.append(e)
        else:
            flush()
            out.append(e)
    flush()
    return out


class Run:
    """the machine state after an emitted sequence, entry values being integers or terms"""

    def __init__(self, G, log, env, vals, order=None, regs=None, mem=None, xmm=None, st=None, slots=()):
        self.G, self.env = G, env
        c = self.cpu = x86.Cpu(dict(regs or {}), mem, xmm, st)
        for r in range(16):
            c.r.setdefault(r, ("addr", ("reg", r), 0) if r in (4, 5) else 0x5a00 + r << 40 | 0x77000000 + r)
        self.before = dict(c.r)
        self.xbefore = dict(c.x)
        c.order = order
        self.free, self.cmp, self.data, self.plt, self.errors, self.done, self.patched = set(), None, set(), [], 0, [], []
        self.jump = None
        self.vals = vals
        at = {}
        for e in runs(log):
            if e[0] == "code":
                if None in e[1]:
                    raise Lost("byte")
                d = x86.decode(e[1])
                if d is None:
                    raise x86.Unknown("not an instruction: " + " ".join("%02x" % b for b in e[1]))
                fx = {}
                for k, (kind, add, sym) in e[3].items():
                    if any(e[1][k:k + 4]):
                        raise x86.Unknown("a relocated field that is not zero")
                    n = sym[1] if sym[0] == "symp" else str(sym)
                    fx[k] = (n, {R_PC32: "sym", R_GOTPCREL: "got", R_PLT32: "plt"}.get(kind, kind), add)
                    if kind == R_PC32:
                        self.data.add(n)
                c.run(d, fx)
                if c.taken is not None:
                    self.jump = (c.taken, e[2])
                    return
            elif e[0] in ("gv", "load"):
                if e[0] == "gv":
                    reg, val, t = e[2], e[3], e[4]
                else:
                    reg, src = e[1], e[2]
                    t, val = src["t"], src.get("val")
                    if val is None:
                        val = ("at", src["r"], src["c"], src["t"])
                self.place(reg, self.value(val, t), t)
                self.free.add(reg)
            elif e[0] == "save":
                self.free.add(e[1])
                for o in e[2]:
                    k = ((("reg", 5),), -512 - o)
                    c.m[k] = c.st[0] if e[1] == ST0 else c.x.get(e[1] - 16) if e[1] >= 16 else c.r[e[1]]
                if e[1] == ST0 and e[2]:
                    c.st.pop(0)
            elif e[0] == "get":
                self.free.add(e[1])
                if e[1] < 16:
                    c.r[e[1]] = 0x6b6b6b6b6b6b6b00 + e[1]
            elif e[0] == "cmp":
                self.cmp = e[1]
            elif e[0] == "fpop":
                c.st.pop(0)
            elif e[0] == "patch":
                self.patched.append(e[1:])
            elif e[0] == "error":
                self.errors += 1
            elif e[0] == "do":
                self.done.append(e[1:])

    def value(self, val, t):
        if val in self.vals:
            v = self.vals[val]
            return v(t) if callable(v) else v
        if isinstance(val, tuple) and val[0] == "int":
            return ("exact", val[1] & 0xffffffff)
        if isinstance(val, tuple) and val[0] == "global":
            return ("global", val[1])
        if isinstance(val, tuple) and val[0] == "at":
            if val[1] & 0x33f == CONST and isinstance(val[2], int):
                return val[2] & (1 << 64) - 1
            if val[1] == (LOCAL | LVAL):
                return ("addr", ("at", val[2]), 0) if val[3] == PTR else ("mem", ((("reg", 5),), val[2]), 64)
        raise Lost("value %s" % (val,))

    def place(self, reg, v, t):
        c = self.cpu
        if isinstance(v, tuple) and v[0] == "exact":
            v, t = v[1], LLONG
        if reg == ST0:
            c.st.insert(0, v)
        elif reg >= 16:
            c.x[reg - 16] = v
        else:
            if isinstance(v, int) and t & 15 not in (LLONG, PTR, FUNC):
                v = v & 0xffffffff | (0 if t & UNS and t & 15 == INT or t & 15 == BOOL else 0xdeadbeef << 32)
            elif isinstance(v, int):
                v &= (1 << 64) - 1
            c.r[reg] = v

    def loc(self, r):
        """what register number r of the stack entry denotes now"""
        if r == ST0:
            return self.cpu.st[0] if self.cpu.st else None
        return self.cpu.x.get(r - 16) if r >= 16 else self.cpu.r.get(r)

    def clobbered(self, allowed=()):
        """registers changed that the code did not ask for"""
        ok = set(self.free) | set(allowed)
        bad = [r for r in range(16) if self.cpu.r[r] != self.before[r] and r not in ok]
        bad += [16 + k for k in self.cpu.x if self.cpu.x[k] != self.xbefore.get(k) and 16 + k not in ok]
        return bad

    def stray(self, ok=()):
        """memory written outside the area below the stack pointer"""
        out = []
        for w in self.cpu.wrote:
            if w[0] == "m" and w[1] not in ok and not (w[1][0] == (("reg", 4),) and w[1][1] < 0):
                out.append(w[1])
        return out


def holds(op, f):
    return bool(x86.CC[COND[op & 15]](f))


def meaning(op, v, f):
    """truth of a comparison kept in the flags: op as stored, v the operator of a floating-point comparison"""
    if not op & 0x100:
        return holds(op, f)
    k = op & 0xff
    t = (holds(v, f) or f["p"]) if v == 0x95 else holds(v, f) and not f["p"]
    if k == v:
        return bool(t)
    if k == v ^ 1:
        return not t
    raise Lost("comparison state")


# ------------------------------------------------------------------ the operations
from checks.fold import OPS, DIVS, SHIFTS, fits, norm   # noqa: E402

UINT, LL, ULL = INT | UNS, LLONG, LLONG | UNS
GRID = [0, 1, 2, 3, 7, 31, 33, 0x7fffffff, -0x80000000, -1, -2, -7, 0x55aa1234]
WIDE = GRID + [0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, -0x8000000000000000, 0x123456789abcdef]
CONSTS = [0, 1, 5, 31, 32, 47, 63, 127, 128, -1, -128, -129, 0x12345678, -0x12345678, 0x7fffffff, -0x80000000, 0x80000000, 0xffffffff, 0x123456789a]
KEEP = (3, 4, 5, 12, 13, 14, 15)
FILE = "lib/tinycc/x86_64-gen.c"


class Check:
    def __init__(self, R, G):
        self.R, self.G, self.seen = R, G, set()
        self.dry, self.memo, self.missing, self.dead = True, {}, {}, []

    def bad(self, key, fn, what):
        if self.dry:
            return
        if key not in self.seen:
            self.seen.add(key)
            f = self.G.m.defined.get(fn)
            self.R.violation(key, "%s:%s" % (f.file if f else FILE, getattr(f, "line", "") or fn), "code of " + fn, what)

    def emit(self, fn, *a, **k):
        """the feasible emissions, or none when the code is beyond the analysis"""
        key = repr((fn, a, k))
        if key not in self.memo:
            try:
                self.memo[key] = self.G.run(fn, *a, **k)
                self.R.count("emissions", len(self.memo[key]))
                if not self.memo[key]:
                    self.dead.append((fn, a))
            except Lost as e:
                self.memo[key] = []
                self.lost(fn, e)
        if not self.memo[key] and (fn, a) in self.dead:
            ty = [tyn(s["t"]) for s in a[1] if "t" in s]
            self.bad("none:%s:%s" % (fn, ":".join(ty)), fn, "no path emits code for operands of type %s: every path ends in a failed assertion" % ", ".join(ty))
        return self.memo[key]

    def lost(self, fn, e):
        self.R.count("not_followed")
        self.missing.setdefault((fn, str(e)), 0)
        self.missing[(fn, str(e))] += 1

    def sim(self, key, fn, what, *a, **k):
        if self.dry:
            for e in runs(a[0]):
                if e[0] == "code" and None not in e[1]:
                    x86.decode(e[1])
            return None
        try:
            r = Run(self.G, *a, **k)
        except x86.Fault as e:
            return e
        except x86.Unknown as e:
            if "not an instruction" in str(e) or "not zero" in str(e):
                self.bad(key, fn, "%s: %s" % (what, e))
            else:
                self.lost(fn, e)
            return None
        except Lost as e:
            self.lost(fn, e)
            return None
        self.R.obligation()
        return r

    def common(self, key, fn, what, r, allowed=(), ok=(), depth=0):
        """nothing else is disturbed"""
        b = r.clobbered(allowed)
        b = [x for x in b if x in KEEP or x < 16 and x not in (6, 7, 8, 9, 10, 11) or x >= 16]
        if b:
            self.bad(key + ":clobber", fn, "%s changes %s, which nothing freed" % (what, ", ".join(regname(x) for x in b)))
            return False
        s = r.stray(ok)
        if s:
            self.bad(key + ":memory", fn, "%s writes memory at %s" % (what, show(s[0])))
            return False
        if len(r.cpu.st) != depth:
            self.bad(key + ":x87", fn, "%s leaves %d values on the x87 stack instead of %d" % (what, len(r.cpu.st), depth))
            return False
        return True

    def survivors(self, key, fn, what, r, slots, n):
        """lower stack entries are still where the stack says they are"""
        for k, (reg, v) in enumerate(slots[:n]):
            off = k * self.G.size
            now = r.env.get(("sv", off + self.G.RR))
            if isinstance(now, int) and not now & LVAL and now & 0x3f < CONST:
                got = r.loc(now & 0x3f)
                if got != v:
                    self.bad(key + ":lost", fn, "%s destroys a value the compiler still holds in %s" % (what, regname(now & 0x3f)))
                    return False
        return True


def regname(r):
    return "st(0)" if r == ST0 else "xmm%d" % (r - 16) if r >= 16 else ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi",
                                                                          "r8", "r9", "r10", "r11", "r12", "r13", "r14", "r15"][r]


def show(k):
    return "[" + " + ".join(str(b) for b in k[0]) + (" %+d]" % k[1] if k[1] else "]")


PLANS = [(0, 1, 2, 16, 17, 18), (2, 1, 0, 21, 16, 19), (1, 2, 0, 19, 21, 16)]


def integers(K):
    G, R = K.G, K.R
    for op, (name, ref) in OPS.items():
        if op in (0x90, 0x91):
            continue
        for t in (INT, UINT, LL, ULL, PTR):
            if not fits(op, t):
                continue
            t2 = INT if op in SHIFTS else t
            n = 63 if t in (LL, ULL, PTR) else 31
            grid = GRID if t in (INT, UINT) else WIDE
            key, what = "opi:%s:%s" % (name, tyn(t)), "%s of type %s" % (name, tyn(t))
            jobs = [({"r": CONST, "c": s64(norm(t2, c)), "t": t2}, [c], pl, None) for c in CONSTS for pl in PLANS[:1 + (c in (5, 0x12345678))]]
            jobs += [({"r": LOCAL | LVAL, "c": -16, "t": t2}, grid if op not in SHIFTS else range(0, n + 1, 3), pl, x)
                     for pl in PLANS for x in (None, 0, 1, 2)]
            for right, bs, plan, x in jobs:
                if op in SHIFTS and right["r"] == CONST and not 0 <= norm(t2, bs[0]) <= n:
                    continue
                slots = ([{"r": x, "t": LL, "val": "X"}] if x is not None else []) + [
                    {"r": LOCAL | LVAL, "c": -8, "t": t, "val": "L"}, dict(right, val="R")]
                lo = len(slots) - 2
                for conds, log, env, how in K.emit("gen_opi", {0: ("i", op)}, slots, plan):
                    e = next((e for e in log if e[0] == "b"), None)
                    if G.top(env) != lo * G.size:
                        K.bad(key + ":stack", "gen_opi", "%s leaves the wrong number of values" % what)
                        continue
                    for a in grid:
                        for b in bs:
                            p, q = norm(t, a), norm(t2, b)
                            if op in DIVS and (q == 0 or q == -1 and p in (-0x80000000, -(1 << 63))):
                                continue
                            want = norm(t, ref(p, q, n))
                            r = K.sim(key, "gen_opi", what, log, env, {"L": p, "R": q, "X": 0x1122334455667788},
                                      regs={x: 0x1122334455667788} if x is not None else None)
                            if r is None:
                                break
                            if isinstance(r, x86.Fault):
                                K.bad(key, "gen_opi", "%s of %d and %d: %s" % (what, p, q, r))
                                break
                            res = env.get(("sv", lo * G.size + G.RR))
                            if 0x92 <= op <= 0x9f:
                                cmp = env.get(("sv", lo * G.size + G.S))
                                if res != CMP or r.cpu.f is None or not isinstance(cmp, int):
                                    got = None
                                else:
                                    got = int(meaning(cmp, 0, r.cpu.f))
                                if got != want:
                                    K.bad(key, "gen_opi", "%s: the flags after comparing %d and %d mean %s instead of %s" % (what, p, q, got, want))
                                    break
                            else:
                                got = r.loc(res & 0x3f) if isinstance(res, int) and not res & LVAL and res < CONST else None
                                wide = t in (LL, ULL, PTR, UINT)
                                if not isinstance(got, int) or (s64(got) != s64(want if t != UINT else want & 0xffffffff) if wide else norm(t, got) != want):
                                    K.bad(key, "gen_opi", "%s: %d and %d give %s instead of %d" % (what, p, q, got if not isinstance(got, int) else norm(t, got), want))
                                    break
                            if not K.common(key, "gen_opi", what, r) or not K.survivors(key, "gen_opi", what, r, [(x, 0x1122334455667788)] if x is not None else [], lo):
                                break
                        else:
                            continue
                        break


FORMS = [("reg", None), ("const", CONST), ("local", LOCAL | LVAL), ("saved address", LLOCAL | LVAL), ("address in a register", None),
         ("static", CONST | SYM | LVAL), ("global", CONST | SYM | LVAL)]


def operand(name, r, which, t, pos):
    """stack entry and where its value is: (entry, machine parts)"""
    v = ("F", which)
    c = {"L": -24, "R": 4096}[which]
    if name == "reg":
        reg = ST0 if t == LDOUBLE else {"L": 18, "R": 20}[which]
        return {"r": reg, "t": t, "val": which}, {"st": [v]} if reg == ST0 else {"xmm": {reg - 16: v}}
    if name == "const":
        return {"r": r, "t": t, "val": which}, {}
    if name == "local":
        return {"r": r, "c": c, "t": t, "val": which}, {"mem": {((("reg", 5),), c): v}}
    if name == "saved address":
        return {"r": r, "c": c, "t": t, "val": which}, {"mem": {((("at", c),), 0): v, ((("reg", 5),), c): ("addr", ("at", c), 0)}}
    if name == "address in a register":
        reg = {"L": 1, "R": 2}[which]
        return {"r": reg | LVAL, "c": 0, "t": t, "val": which}, {"regs": {reg: ("addr", ("P", which), 0)}, "mem": {((("P", which),), 0): v}}
    return {"r": r, "c": c, "t": t, "val": which, "sym": name + which}, {"mem": {((("sym", name + which),), c): v}}


def merge(*ps):
    out = {"mem": {}, "xmm": {}, "regs": {}, "st": []}
    for p in ps:
        for k, v in p.items():
            if k == "st":
                out[k] = v + out[k]
            else:
                out[k].update(v)
    return out


REL = {0x94: {"="}, 0x95: {"<", ">", "?"}, 0x9c: {"<"}, 0x9d: {">", "="}, 0x9e: {"<", "="}, 0x9f: {">"}}
FLIP = {"<": ">", ">": "<", "=": "=", "?": "?"}


def floating(K):
    G, R = K.G, K.R
    syms = {"staticL": STATIC, "staticR": STATIC, "globalL": 0, "globalR": 0}
    kinds = {}
    for t in (FLOAT, DOUBLE, LDOUBLE):
        w = {FLOAT: 32, DOUBLE: 64, LDOUBLE: 80}[t]
        for op, name in ((ord("+"), "add"), (ord("-"), "sub"), (ord("*"), "mul"), (ord("/"), "div"), (0x94, "=="), (0x95, "!="), (0x9c, "<"),
                         (0x9d, ">="), (0x9e, "<="), (0x9f, ">")):
            key, what = "opf:%s:%s" % (name, tyn(t)), "%s of type %s" % (name, tyn(t))
            for fl, rl in FORMS:
                for fr, rr in FORMS:
                    if t == LDOUBLE and fl == fr == "reg":
                        continue
                    for plan in PLANS[:2] if (fl, fr) == ("local", "local") else PLANS[:1]:
                        a, pa = operand(fl, rl, "L", t, 0)
                        b, pb = operand(fr, rr, "R", t, 1)
                        vals = {"L": ("F", "L"), "R": ("F", "R"), "X": 0x1122334455667788}
                        x = {"r": 0, "t": LL, "val": "X"}
                        for conds, log, env, how in K.emit("gen_opf", {0: ("i", op)}, [x, a, b], plan, syms):
                            for rel in "<=>?" if op > 0x90 else "=":
                                def order(p, q):
                                    return rel if (p, q) == (("F", "L"), ("F", "R")) else FLIP[rel] if (q, p) == (("F", "L"), ("F", "R")) else None
                                mc = merge(pa, pb)
                                mc["regs"] = dict(mc["regs"], **{0: 0x1122334455667788}) if False else {**mc["regs"], 0: 0x1122334455667788}
                                r = K.sim(key, "gen_opf", what, log, env, vals, order, **mc)
                                if r is None or isinstance(r, Exception):
                                    break
                                if G.top(env) != G.size:
                                    K.bad(key + ":stack", "gen_opf", "%s leaves the wrong number of values" % what)
                                    break
                                res = env.get(("sv", G.size + G.RR))
                                if op > 0x90:
                                    cmp, v = env.get(("sv", G.size + G.S)), env.get(("sv", G.size + G.S + 2))
                                    if res != CMP or r.cpu.f is None:
                                        K.bad(key, "gen_opf", "%s does not compare its operands" % what)
                                        break
                                    kinds[(cmp, v)] = op
                                    if meaning(cmp, v, r.cpu.f) != (rel in REL[op]):
                                        K.bad(key, "gen_opf", "%s (%s and %s): the flags mean %s when the operands are %s" % (
                                            what, fl, fr, not (rel in REL[op]), {"<": "less", "=": "equal", ">": "greater", "?": "unordered"}[rel]))
                                        break
                                else:
                                    got = r.loc(res & 0x3f) if isinstance(res, int) and not res & LVAL else None
                                    want = {(name, w, ("F", "L"), ("F", "R"))} | ({(name, w, ("F", "R"), ("F", "L"))} if name in ("add", "mul") else set())
                                    if got not in want:
                                        K.bad(key, "gen_opf", "%s (%s and %s) computes %s" % (what, fl, fr, term(got)))
                                        break
                                if any(s.startswith("global") for s in r.data):
                                    K.bad(key + ":got", "gen_opf", "%s reads a symbol that may live in a shared library relative to the program counter" % what)
                                    break
                                if not K.common(key, "gen_opf", what, r, allowed=(18, 20), depth=int(t == LDOUBLE and op < 0x90)) or \
                                        not K.survivors(key, "gen_opf", what, r, [(0, 0x1122334455667788)], 1):
                                    break
        key, what = "neg:" + tyn(t), "negation of type " + tyn(t)
        for fl, rl in FORMS:
            for plan in PLANS:
                a, pa = operand(fl, rl, "L", t, 0)
                for conds, log, env, how in K.emit("gen_opf", {0: ("i", 0x81)}, [a], plan, syms):
                    r = K.sim(key, "gen_opf", what, log, env, {"L": ("F", "L")}, **merge(pa))
                    if r is None or isinstance(r, Exception):
                        continue
                    res = env.get(("sv", G.RR))
                    got = r.loc(res & 0x3f)
                    ok = got == ("neg", ("F", "L")) if t == LDOUBLE else False
                    if t != LDOUBLE and isinstance(got, tuple) and got[0] == "xor":
                        o = [y for y in got[1:] if y != ("F", "L")]
                        ok = len(o) == 1 and o[0][0] == "global" and token(G, o[0][1]) == ("__mzerosf" if t == FLOAT else "__mzerodf")
                    if G.top(env) != 0 or not ok:
                        K.bad(key, "gen_opf", "%s computes %s" % (what, term(got)))
                    K.common(key, "gen_opf", what, r, allowed=(18,), depth=int(t == LDOUBLE))
    return kinds


def token(G, n):
    g = G.tokens
    if not g or not g.get("str"):
        return None
    k = bytes.fromhex(g["str"]).split(b"\0")
    return k[n - 256].decode() if isinstance(n, int) and 0 <= n - 256 < len(k) else None


def term(v):
    if isinstance(v, tuple) and v and v[0] == "F":
        return v[1]
    if isinstance(v, tuple):
        return "%s(%s)" % (v[0], ", ".join(term(x) for x in v[1:]))
    return str(v)


def conditions(K, kinds):
    """branching on a comparison and turning it into 0 or 1"""
    G = K.G
    cases = [(op, 0) for op in list(range(0x92, 0x98)) + list(range(0x9c, 0xa0)) + [0x98, 0x99]]
    for (cmp, v) in kinds:
        if isinstance(cmp, int) and isinstance(v, int) and cmp & 0x100:
            cases += [(cmp, v), (cmp ^ 1, v)]
    ints = [dict(o=o, c=c, z=z, s=s, p=p) for o in (0, 1) for c in (0, 1) for z in (0, 1) for s in (0, 1) for p in (0, 1)]
    fps = [dict(o=0, s=0, c=c, z=z, p=p) for c, z, p in ((1, 0, 0), (0, 1, 0), (0, 0, 0), (1, 1, 1))]
    for cmp, v in cases:
        nm = "flags %s%s" % (COND[(cmp & 15)], " after a floating-point comparison" if cmp & 0x100 else "")
        key = "cond:%x:%x" % (cmp, v)
        for conds, log, env, how in K.emit("gjmp_cond", {0: ("i", cmp), 1: ("i", 0x70000)}, [{"r": CMP, "cmp_op": cmp, "cmp_r": v, "val": "L"}]):
            seq = runs(log)
            if how[1][0] != "i" or any(e[0] != "code" for e in seq) or len(seq) != 1:
                continue
            code, chain, t = seq[0][1], set(), how[1][1]
            while START <= t <= START + len(code) - 4 and t - START not in chain:
                chain.add(t - START)
                t = int.from_bytes(bytes(code[t - START:t - START + 4]), "little")
            if t != 0x70000:
                K.bad(key + ":chain", "gjmp_cond", "a conditional jump loses the jumps already waiting for the same label")
                continue
            for f in fps if cmp & 0x100 else ints:
                K.R.obligation()
                if K.dry:
                    x86.decode(code)
                    break
                want = meaning(cmp, v, f)
                c = x86.Cpu({})
                c.f = dict(f)
                try:
                    c.run(x86.decode(code) or [], {})
                except x86.Unknown as e:
                    K.bad(key, "gjmp_cond", "%s: %s" % (nm, e))
                    break
                got = c.taken is not None
                if got and (c.taken[2] - 4) not in chain:
                    K.bad(key, "gjmp_cond", "a jump on %s is not linked to its label" % nm)
                    break
                if got != bool(want):
                    K.bad(key, "gjmp_cond", "the jump on %s is %staken when the condition is %s (%s)" % (
                        nm, "" if got else "not ", bool(want), " ".join(k for k in f if f[k]) or "no flag set"))
                    break
        for reg in (0, 1, 2):
            for conds, log, env, how in K.emit("load", {0: ("i", reg), 1: ("vt",)}, [{"r": CMP, "t": INT, "c": cmp, "cmp_op": cmp, "cmp_r": v, "val": "L"}]):
                for f in fps if cmp & 0x100 else ints:
                    r = None
                    try:
                        K.R.obligation()
                        seq = runs(log)
                        c = x86.Cpu({k: 0x77aa0000 + k for k in range(16)})
                        c.f = dict(f)
                        c.run(x86.decode(seq[0][1]) or [], {})
                    except (x86.Unknown, IndexError) as e:
                        K.bad(key + ":value", "load", "%s: %s" % (nm, e))
                        break
                    if c.r[reg] != int(bool(meaning(cmp, v, f))):
                        K.bad(key + ":value", "load", "the value of %s is %s instead of %d (%s)" % (nm, c.r[reg], int(bool(meaning(cmp, v, f))), " ".join(k for k in f if f[k])))
                        break
                    if any(c.r[k] != 0x77aa0000 + k for k in range(16) if k != reg):
                        K.bad(key + ":clobber", "load", "taking the value of %s changes another register" % nm)
                        break


def conversions(K):
    G = K.G
    X = (0, 0x1122334455667788)
    for t in (FLOAT, DOUBLE, LDOUBLE):
        w = {FLOAT: 32, DOUBLE: 64, LDOUBLE: 80}[t]
        for it in (BYTE, BYTE | UNS, SHORT, SHORT | UNS, BOOL, INT, UINT, LL):
            key, what = "itof:%s:%s" % (tyn(it), tyn(t)), "the conversion from %s to %s" % (tyn(it), tyn(t))
            for plan in PLANS:
                for res0 in (LOCAL | LVAL, plan[0]):
                    slots = [{"r": ST0, "t": LDOUBLE, "val": "X"}, {"r": res0, "c": -8, "t": it, "val": "L"}]
                    for conds, log, env, how in K.emit("gen_cvt_itof", {0: ("i", t)}, slots, plan):
                        for a in (0, 1, 2, 100, 127, -1, -128, -5, 200, 65535, 0x7fffffff, -0x80000000, 0x80000000, 0xffffffff, 0x123456789abc, -1 << 63):
                            v = value(it, a)
                            r = K.sim(key, "gen_cvt_itof", what, log, env, {"L": v, "X": ("F", "X")}, st=[("F", "X")],
                                      regs={res0: inreg(it, v)} if res0 < CONST else {})
                            if r is None or isinstance(r, Exception):
                                break
                            res = env.get(("sv", G.size + G.RR))
                            got = r.loc(res & 0x3f) if isinstance(res, int) and not res & LVAL else None
                            if got != ("fromint", w, v):
                                K.bad(key, "gen_cvt_itof", "%s of %d gives %s" % (what, v, term(got)))
                                break
                            if not K.survivors(key, "gen_cvt_itof", what, r, [(ST0, ("F", "X"))], 1) or \
                                    not K.common(key, "gen_cvt_itof", what, r, depth=1):
                                break
        for t2 in (FLOAT, DOUBLE, LDOUBLE):
            if t2 == t:
                continue
            key, what = "ftof:%s:%s" % (tyn(t), tyn(t2)), "the conversion from %s to %s" % (tyn(t), tyn(t2))
            for plan in PLANS:
                for fl, rl in FORMS:
                    for x in (ST0, plan[3]):
                        if t == LDOUBLE and fl == "reg" and x == ST0:
                            continue
                        a, pa = operand(fl, rl, "L", t, 0)
                        px = {"st": [("F", "X")]} if x == ST0 else {"xmm": {x - 16: ("F", "X")}}
                        slots = [{"r": x, "t": LDOUBLE if x == ST0 else DOUBLE, "val": "X"}, a]
                        for conds, log, env, how in K.emit("gen_cvt_ftof", {0: ("i", t2)}, slots, plan, {"staticL": STATIC}):
                            r = K.sim(key, "gen_cvt_ftof", what, log, env, {"L": ("F", "L"), "X": ("F", "X")}, **merge(px, pa))
                            if r is None or isinstance(r, Exception):
                                break
                            res = env.get(("sv", G.size + G.RR))
                            got = unext(r.loc(res & 0x3f)) if isinstance(res, int) and not res & LVAL else None
                            w2 = {FLOAT: 32, DOUBLE: 64, LDOUBLE: 80}[t2]
                            want = ("F", "L") if w2 > w else ("round", w2, ("F", "L"))
                            inst = (res == ST0) == (t2 == LDOUBLE) if isinstance(res, int) else False
                            if got != want or not inst:
                                K.bad(key, "gen_cvt_ftof", "%s gives %s in %s" % (what, term(got), regname(res & 0x3f)))
                                break
                            xs = env.get(("sv", G.RR))
                            if not K.survivors(key, "gen_cvt_ftof", what, r, [(x, ("F", "X"))], 1) or \
                                    not K.common(key, "gen_cvt_ftof", what, r, allowed=(18,), depth=int(t2 == LDOUBLE) + int(xs == ST0)):
                                break
        for it in (INT, UINT, LL):
            key, what = "ftoi:%s:%s" % (tyn(t), tyn(it)), "the conversion from %s to %s" % (tyn(t), tyn(it))
            for plan in PLANS:
                for fl, rl in FORMS:
                    a, pa = operand(fl, rl, "L", t, 0)
                    slots = [{"r": plan[0], "t": LL, "val": "X"}, a]
                    if fl == "address in a register" and plan[0] == a["r"] & 0x3f:
                        continue
                    px = {"regs": {plan[0]: 0x1122334455667788}}
                    for conds, log, env, how in K.emit("gen_cvt_ftoi", {0: ("i", it)}, slots, plan, {"staticL": STATIC}):
                        r = K.sim(key, "gen_cvt_ftoi", what, log, env, {"L": ("F", "L"), "X": X[1]}, **merge(px, pa))
                        if r is None or isinstance(r, Exception):
                            break
                        res = env.get(("sv", G.size + G.RR))
                        got = r.loc(res & 0x3f) if isinstance(res, int) and not res & LVAL else None
                        if isinstance(got, tuple) and got[0] == "low" and got[1] == 32 and it == INT:
                            got = got[2]
                        ok = isinstance(got, tuple) and got[0] == "toint" and got[1] in ((32, 64) if it == INT else (64,)) and \
                            unext(got[3]) == ("F", "L") and got[2] >= w
                        if not ok:
                            K.bad(key, "gen_cvt_ftoi", "%s gives %s" % (what, term(got)))
                            break
                        if not K.survivors(key, "gen_cvt_ftoi", what, r, [(plan[0], X[1])], 1) or not K.common(key, "gen_cvt_ftoi", what, r):
                            break
    for fn, ts in (("gen_cvt_sxtw", (None,)), ("gen_cvt_csti", (BYTE, BYTE | UNS, SHORT, SHORT | UNS))):
        if fn not in G.m.defined:
            continue
        for t in ts:
            for st in (INT,) if t is None else (INT, UINT, LL, ULL, BYTE, SHORT):
                key, what = "%s:%s" % (fn, tyn(t) if t else ""), "sign extension to 64 bits" if t is None else "narrowing to %s" % tyn(t)
                for plan in PLANS:
                    for form in (LOCAL | LVAL, plan[0]):
                        for conds, log, env, how in K.emit(fn, {0: ("i", t)} if t else {}, [{"r": form, "c": -8, "t": st, "val": "L"}], plan):
                            for a in (0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 0x12345678, -1, -128, -129, 0x7fffffff, -0x80000000):
                                v = a & 0xffffffff | 0x5a5a5a5a << 32
                                r = K.sim(key, fn, what, log, env, {"L": lambda q: v}, regs={form: v} if form < CONST else {})
                                if r is None or isinstance(r, Exception):
                                    break
                                res = env.get(("sv", G.RR))
                                got = r.loc(res & 0x3f) if isinstance(res, int) and not res & LVAL else None
                                want = s64(x86.sx(a, 32)) if t is None else value(t, a)
                                wide = t is None or st & 15 == LLONG
                                if not isinstance(got, int) or (s64(got) != want if wide else norm(INT, got) != want):
                                    K.bad(key, fn, "%s of %#x gives %s" % (what, a & 0xffffffff, got if not isinstance(got, int) else hex(got)))
                                    break
                                if not K.common(key, fn, what, r, allowed=(res,)):
                                    break


def value(t, a):
    b = {BYTE: 8, SHORT: 16, INT: 32, LLONG: 64, BOOL: 1}[t & 15]
    a &= (1 << b) - 1
    return a if t & UNS or t & 15 == BOOL else x86.sx(a, b)


def inreg(t, v):
    if t & 15 == LLONG:
        return v & (1 << 64) - 1
    return v & 0xffffffff | (0 if t == UINT else 0xdeadbeef << 32)


def unext(v):
    """exact widenings do not change the value"""
    while isinstance(v, tuple) and v and v[0] in ("widen",):
        v = v[1]
    if isinstance(v, tuple) and v and v[0] == "narrow":
        return ("round", 32, unext(v[1]))
    if isinstance(v, tuple) and v and v[0] == "round":
        return ("round", v[1], unext(v[2]))
    return v


QUAL = (0, CONSTANT, VOLATILE, DEFSIGN, CONSTANT | VOLATILE)


def places(which="L"):
    """memory operands: (name, entry fields, address, registers, memory, static)"""
    P = ("addr", ("P",), 0)
    rb = ("reg", 5)
    out = []
    for c in (-8, 127, 128, -128, -129, 100000):
        out.append(("a local variable", {"r": LOCAL | LVAL, "c": c}, ((rb,), c), {}, {}))
    out.append(("an address in rax", {"r": 0 | LVAL, "c": 0}, ((("P",),), 0), {0: P}, {}))
    out.append(("an address in rdx", {"r": 2 | LVAL, "c": 0}, ((("P",),), 0), {2: P}, {}))
    out.append(("a constant address", {"r": CONST | LVAL, "c": 0x12345678}, ((), 0x12345678), {}, {}))
    for c in (0, 40, -4, 70000):
        for s in ("static", "global"):
            out.append(("a %s variable" % s, {"r": CONST | LVAL | SYM, "c": c, "sym": s}, ((("sym", s),), c), {}, {}))
    return out


def loads(K):
    G = K.G
    syms = {"static": STATIC, "global": 0}
    for t in (BYTE, BYTE | UNS, SHORT, SHORT | UNS, BOOL, INT, UINT, LL, ULL, PTR, FUNC, FLOAT, DOUBLE, LDOUBLE, (STRUCT, 1), (STRUCT, 2), (STRUCT, 4), (STRUCT, 8)):
        size = None
        if isinstance(t, tuple):
            t, size = t
        fl = t in (FLOAT, DOUBLE)
        key, what = "load:" + tyn(t), "loading a %s" % tyn(t) + (" of %d bytes" % size if size else "")
        regs = (ST0,) if t == LDOUBLE else (16, 17, 21, 23) if fl else (0, 1, 2, 8, 11)
        w = size * 8 if size else {BYTE: 8, SHORT: 16, BOOL: 8, INT: 32, FLOAT: 32, DOUBLE: 64, LDOUBLE: 80}.get(t & 15, 64)
        ps = places()
        ps.append(("the address saved in a local variable", {"r": LLOCAL | LVAL, "c": -40}, ((("at", -40),), 0), {}, {}))
        if not t == LDOUBLE:
            ps.append(("a 64-bit constant address", {"r": CONST | LVAL, "c": 0x123456789abc}, ((), 0x123456789abc), {}, {}))
        for q in QUAL:
            for pn, ent, addr, rg, mem in ps if q == 0 else ps[:1]:
                for reg in regs:
                    lane = [k for k in (0, 1, 2) if k != reg and k not in rg]
                    slots = [{"r": k, "t": LL, "val": ("keep", k)} for k in lane[:1]] + [dict(ent, t=t | q, val="L")]
                    for conds, log, env, how in K.emit("load", {0: ("i", reg), 1: G.at((len(slots) - 1) * G.size)}, slots, (0, 1, 2), syms, size):
                        before = {k: 0x7100 + k for k in lane}
                        r = K.sim(key, "load", what, log, env, {"L": ("F", "L"), **{("keep", k): v for k, v in before.items()}},
                                  regs={**before, **rg}, mem={((("reg", 5),), -40): ("addr", ("at", -40), 0)} if "saved" in pn else None)
                        if r is None or isinstance(r, Exception):
                            break
                        got = r.loc(reg)
                        M = ("mem", addr, w)
                        if w < 32:
                            sg = not t & UNS or size
                            want = {("movsx", w, 32, M), ("movsx", w, 64, M)} if sg else {("movzx", w, 32, M), ("movzx", w, 64, M)}
                            if t == BOOL or size:
                                want |= {("movzx", w, 32, M), ("movzx", w, 64, M)}
                        else:
                            want = {M}
                        if got not in want:
                            K.bad(key, "load", "%s from %s into %s gives %s" % (what, pn, regname(reg), term(got)))
                            break
                        if "global" in r.data:
                            K.bad(key + ":got", "load", "%s reads a symbol that may live in a shared library relative to the program counter" % what)
                            break
                        if not K.common(key, "load", what, r, allowed=(reg,), depth=int(t == LDOUBLE)) or \
                                not K.survivors(key, "load", what, r, [(k, before[k]) for k in lane[:1]], 1):
                            break
    for t in (INT, UINT, LL, ULL, PTR, BYTE, SHORT, BOOL):
        for c in (0, 1, -1, 0x12345678, -0x80000000, 0x80000000, 0xffffffff, 0x123456789abcdef):
            for reg in (0, 2, 8, 11):
                v = c if t & 15 in (LLONG, PTR) else value(t, c)
                key, what = "const:" + tyn(t), "loading the constant %d of type %s" % (v, tyn(t))
                for conds, log, env, how in K.emit("load", {0: ("i", reg), 1: ("vt",)}, [{"r": CONST, "c": s64(v), "t": t, "val": "L"}]):
                    r = K.sim(key, "load", what, log, env, {})
                    if r is None or isinstance(r, Exception):
                        continue
                    got = r.loc(reg)
                    ok = isinstance(got, int) and (s64(got) == s64(v) if t & 15 in (LLONG, PTR) else got & 0xffffffff == v & 0xffffffff and (t != UINT or got >> 32 == 0))
                    if not ok:
                        K.bad(key, "load", "%s into %s gives %s" % (what, regname(reg), got))
                    K.common(key, "load", what, r, allowed=(reg,))
    for t in (PTR, FUNC, LL):
        for reg in (0, 1, 8, 11):
            for c in (0, 16, -70000):
                for s in ("static", "global"):
                    key, what = "address:" + s, "taking the address of a %s symbol" % s
                    for conds, log, env, how in K.emit("load", {0: ("i", reg), 1: ("vt",)}, [{"r": CONST | SYM, "c": c, "t": t, "sym": s, "val": "L"}], syms=syms):
                        r = K.sim(key, "load", what, log, env, {})
                        if r is None or isinstance(r, Exception):
                            continue
                        got = r.loc(reg)
                        if got != ("addr", ("sym", s), c):
                            K.bad(key, "load", "%s%+d into %s gives %s" % (what, c, regname(reg), term(got)))
                        if "global" in r.data:
                            K.bad(key + ":got", "load", "%s computes the address of a symbol that may live in a shared library relative to the program counter" % what)
                        K.common(key, "load", what, r, allowed=(reg,))
                key, what = "address:local", "taking the address of a local variable"
                for conds, log, env, how in K.emit("load", {0: ("i", reg), 1: ("vt",)}, [{"r": LOCAL, "c": c, "t": t, "val": "L"}]):
                    r = K.sim(key, "load", what, log, env, {})
                    if r is None or isinstance(r, Exception):
                        continue
                    if r.loc(reg) != ("addr", ("reg", 5), c):
                        K.bad(key, "load", "%s at offset %d into %s gives %s" % (what, c, regname(reg), term(r.loc(reg))))
                    K.common(key, "load", what, r, allowed=(reg,))
    # between registers
    for t in (INT, UINT, LL, PTR, FLOAT, DOUBLE):
        fl = t in (FLOAT, DOUBLE)
        for a in (16, 17, 23) if fl else (0, 1, 2, 7, 8, 9):
            for b in (16, 18, 22) if fl else (0, 1, 2, 6, 8, 11):
                key, what = "move:" + tyn(t), "moving a %s" % tyn(t)
                for conds, log, env, how in K.emit("load", {0: ("i", b), 1: ("vt",)}, [{"r": a, "t": t, "val": "L"}]):
                    v = ("F", "L") if fl else 0x123456789abcdef0
                    r = K.sim(key, "load", what, log, env, {}, **({"xmm": {a - 16: v}} if fl else {"regs": {a: v}}))
                    if r is None or isinstance(r, Exception):
                        continue
                    got = r.loc(b)
                    ok = got == v or t in (INT, UINT) and isinstance(got, int) and got == v & 0xffffffff
                    if not ok:
                        K.bad(key, "load", "%s from %s to %s gives %s" % (what, regname(a), regname(b), term(got)))
                    K.common(key, "load", what, r, allowed=(b,))
    # pending jumps become 0 or 1
    for v, first in ((JMP, 0), (JMPI, 1)):
        for reg in (0, 1, 2):
            key, what = "jumps:%d" % first, "turning pending jumps into a value"
            for conds, log, env, how in K.emit("load", {0: ("i", reg), 1: ("vt",)}, [{"r": v, "t": INT, "c": START + 0x5000, "val": "L"}]):
                seq = runs(log)
                pt = [e for e in seq if e[0] == "patch"]
                code = [b for e in seq if e[0] == "code" for b in e[1]]
                if len(pt) != 1 or pt[0][1] != 0x5000:
                    K.bad(key, "load", what + " does not resolve the jumps")
                    continue
                d = x86.decode(tuple(code))
                pos, cut = 0, None
                for k, (tx, by) in enumerate(d or []):
                    if pos == pt[0][2]:
                        cut = k
                    pos += len(by)
                for k, part, want in (("through", d or [], first), ("jump", (d or [])[cut:] if cut is not None else [], first ^ 1)):
                    K.R.obligation()
                    c = x86.Cpu({x: 0x7700 + x for x in range(16)})
                    try:
                        c.run(part)
                    except x86.Unknown as e:
                        K.bad(key, "load", "%s: %s" % (what, e))
                        break
                    if c.r[reg] != want or any(c.r[x] != 0x7700 + x for x in range(16) if x != reg):
                        K.bad(key, "load", "%s gives %s instead of %d when %s" % (what, c.r[reg], want, "no jump was taken" if k == "through" else "a jump was taken"))
                        break


def stores(K):
    G = K.G
    syms = {"static": STATIC, "global": 0}
    for t in (BYTE, BYTE | UNS, SHORT, SHORT | UNS, BOOL, INT, UINT, LL, ULL, PTR, FUNC, FLOAT, DOUBLE, LDOUBLE):
        fl = t in (FLOAT, DOUBLE)
        key, what = "store:" + tyn(t), "storing a %s" % tyn(t)
        w = {BYTE: 8, SHORT: 16, BOOL: 8, INT: 32, FLOAT: 32, DOUBLE: 64, LDOUBLE: 80}.get(t & 15, 64)
        for q in (0, CONSTANT, VOLATILE):
            for pn, ent, addr, rg, mem in places() if q == 0 else places()[:1]:
                for reg in (ST0,) if t == LDOUBLE else (16, 17, 21, 23) if fl else (0, 1, 2, 3, 6, 7):
                    if reg in rg:
                        continue
                    slots = [dict(ent, t=t | q, val="L")]
                    for conds, log, env, how in K.emit("store", {0: ("i", reg), 1: ("vt",)}, slots, (0, 1, 2), syms):
                        v = ("F", "V") if fl or t == LDOUBLE else 0x123456789abcdef0
                        r = K.sim(key, "store", what, log, env, {}, regs={**rg, **({reg: v} if reg < 16 else {})},
                                  xmm={reg - 16: v} if fl else None, st=[v] if t == LDOUBLE else None)
                        if r is None or isinstance(r, Exception):
                            break
                        ws = [x for x in r.cpu.wrote if x[0] == "m"]
                        got = r.cpu.m.get(addr)
                        if isinstance(v, int):
                            ok = got == v & ((1 << w) - 1)
                        else:
                            ok = got == v
                        if ws != [("m", addr, w)] or not ok:
                            K.bad(key, "store", "%s from %s to %s writes %s" % (what, regname(reg), pn, "%s bits at %s" % (ws[0][2], show(ws[0][1])) if ws else "nothing"))
                            break
                        if "global" in r.data:
                            K.bad(key + ":got", "store", "%s writes a symbol that may live in a shared library relative to the program counter" % what)
                            break
                        if not K.common(key, "store", what, r, allowed=(11,), ok=(addr,), depth=int(t == LDOUBLE)):
                            break
                        if t == LDOUBLE and r.cpu.st != [v]:
                            K.bad(key, "store", what + " changes the value kept on the x87 stack")


def copies(K):
    G = K.G
    for size in list(range(0, 72)) + [100, 1000, 1001, 4095]:
        key, what = "copy", "copying a structure of %d bytes" % size
        slots = [{"r": 0, "t": PTR, "val": "X"}, {"r": LOCAL, "c": -8, "t": PTR, "val": "D"}, {"r": LOCAL, "c": -16, "t": PTR, "val": "S"}]
        for conds, log, env, how in K.emit("gen_struct_copy", {0: ("i", size)}, slots):
            vals = {"D": ("addr", ("D",), 0), "S": ("addr", ("S",), 0), "X": 0x1122334455667788}
            r = K.sim(key, "gen_struct_copy", what, log, env, vals, regs={0: vals["X"]})
            if r is None or isinstance(r, Exception):
                continue
            pos, bad = 0, None
            for k in range(0, len(r.cpu.copied), 2):
                (a, b1, o1, n1), (b, b2, o2, n2) = r.cpu.copied[k:k + 2]
                if (b1, b2) != (("D",), ("S",)) or o1 != pos or o2 != pos:
                    bad = "copies from the wrong place"
                pos += n1
            if bad or pos != size:
                K.bad(key, "gen_struct_copy", "%s %s" % (what, bad or "copies %d bytes" % pos))
            if G.top(env) != 0:
                K.bad(key + ":stack", "gen_struct_copy", "%s leaves the wrong number of values" % what)
            K.common(key, "gen_struct_copy", what, r)
            K.survivors(key, "gen_struct_copy", what, r, [(0, vals["X"])], 1)


def vlas(K):
    G = K.G
    RSP = ("addr", ("reg", 4), 0)
    for c in (-8, -200, -70000):
        for conds, log, env, how in K.emit("gen_vla_sp_save", {0: ("i", c)}, [{"r": LOCAL, "val": "L"}]):
            r = K.sim("vla:save", "gen_vla_sp_save", "saving the stack pointer", log, env, {})
            if r is not None and (r.cpu.m.get(((("reg", 5),), c)) != RSP or not K.common("vla:save", "gen_vla_sp_save", "saving the stack pointer", r, ok=(((("reg", 5),), c),))):
                K.bad("vla:save", "gen_vla_sp_save", "the stack pointer is not saved at the given place")
        for conds, log, env, how in K.emit("gen_vla_sp_restore", {0: ("i", c)}, [{"r": LOCAL, "val": "L"}]):
            r = K.sim("vla:restore", "gen_vla_sp_restore", "restoring the stack pointer", log, env, {})
            if r is not None and r.cpu.r[4] != ("mem", ((("reg", 5),), c), 64):
                K.bad("vla:restore", "gen_vla_sp_restore", "the stack pointer is not restored from the given place")
    if "gen_vla_alloc" in G.m.defined:
        for plan in PLANS:
            for conds, log, env, how in K.emit("gen_vla_alloc", {0: ("param", 0), 1: ("i", 8)}, [{"r": LOCAL | LVAL, "t": LL, "c": -8, "val": "L"}], plan):
                if any(e[0] == "do" for e in runs(log)):
                    continue
                for n in (0, 1, 15, 16, 17, 4000, 100001):
                    r = K.sim("vla:alloc", "gen_vla_alloc", "allocating a variable-length array", log, env, {"L": n}, regs={4: 0x7ffffff0})
                    if r is None or isinstance(r, Exception):
                        break
                    sp = r.cpu.r[4]
                    if not isinstance(sp, int) or sp % 16 or not 0 <= 0x7ffffff0 - n - sp < 16:
                        K.bad("vla:alloc", "gen_vla_alloc", "allocating %d bytes moves the stack pointer by %s" % (n, 0x7ffffff0 - sp if isinstance(sp, int) else sp))
                        break
                    b = [x for x in r.clobbered() if x != 4]
                    if b:
                        K.bad("vla:clobber", "gen_vla_alloc", "allocating changes %s" % regname(b[0]))
                        break


def jumps(K):
    G = K.G
    for conds, log, env, how in K.emit("gjmp", {0: ("i", 0x4444)}, [{"r": LOCAL, "val": "L"}]):
        seq = runs(log)
        code = seq[0][1] if len(seq) == 1 and seq[0][0] == "code" else ()
        K.R.obligation()
        d = x86.decode(code) or []
        t = how[1][1] - START if how[1][0] == "i" else None
        ok = len(d) == 1 and d[0][0].startswith("jmp") and t is not None and t == len(code) - 4 and bytes(code[t:]) == (0x4444).to_bytes(4, "little")
        if not ok:
            K.bad("gjmp", "gjmp", "an unconditional jump is %s and not linked to its label" % (d and d[0][0]))
    syms = {"static": STATIC, "global": 0}
    for s in ("static", "global"):
        for c in (0, 8):
            for conds, log, env, how in K.emit("ggoto", {}, [{"r": LOCAL, "val": "B"}, {"r": CONST | SYM, "c": c, "t": PTR, "sym": s, "val": "L"}], syms=syms):
                K.R.obligation()
                seq = runs(log)
                e = seq[0]
                d = x86.decode(e[1]) if e[0] == "code" else None
                ok = d and len(d) == 1 and d[0][0].startswith("jmp") and len(e[1]) == 5 and list(e[3].items()) == [(1, (R_PLT32, c - 4, ("symp", s)))]
                if not ok or G.top(env) != 0:
                    K.bad("ggoto:symbol", "ggoto", "a jump to a symbol is not a jump relocated to it")
    for conds, log, env, how in K.emit("ggoto", {}, [{"r": LOCAL, "val": "B"}, {"r": LOCAL | LVAL, "c": -8, "t": PTR, "val": "L"}]):
        K.R.obligation()
        seq = runs(log)
        ok = len(seq) == 2 and seq[0][0] == "load" and seq[0][2].get("val") == "L" and seq[1][0] == "code" and \
            [t for t, b in x86.decode(seq[1][1]) or []] == ["jmp " + regname(seq[0][1])]
        if not ok:
            K.bad("ggoto:value", "ggoto", "a computed jump does not go to its operand")
    for conds, log, env, how in K.emit("gen_opl", {0: ("i", ord("+"))}, [{"r": 0, "val": "L"}, {"r": 1, "val": "R"}]):
        if not any(e[0] == "do" and e[1] == "gen_opi" and e[2] == (ord("+"),) for e in runs(log)) and not any(e[0] == "b" for e in log):
            K.bad("opl", "gen_opl", "64-bit operators are not emitted")


def near(f):
    """the generator itself and small functions without calls"""
    return f.file.endswith("x86_64-gen.c") or not any(not (x.callee or "").startswith("llvm.") for x in f.calls()) and sum(1 for _ in f.insts()) <= 80


def c44(R, tier):
    R.rules.append("The code generator's functions are followed with known operand kinds, types and registers; the byte sequence each "
                   "path emits is decoded as x86-64 instructions and their combined meaning is compared with the operation: results, "
                   "flags, memory accesses with their address and width, registers and x87 entries left undisturbed.")
    T = Tree()
    m = focus(T, "tcc", ROOTS, set(), stop=STOP, force=near)
    G = Gen(R, m)
    full = Module(T.dump("tcc", passes=PLAIN))
    G.tokens = full.globals.get("tcc_keywords") or next((g for n, g in full.globals.items() if n.startswith("tcc_keywords")), None)
    K = Check(R, G)
    x86.collect = set()
    sweep(K)
    todo, x86.collect = x86.collect, None
    x86.decode_all(sorted(todo))
    R.count("sequences", len(todo))
    K.dry = False
    sweep(K)
    R.need(R.counts.get("emissions", 0) > 1500, "emitted sequences")
    return K


def sweep(K):
    integers(K)
    kinds = floating(K)
    conditions(K, kinds)
    conversions(K)
    loads(K)
    stores(K)
    copies(K)
    vlas(K)
    jumps(K)
