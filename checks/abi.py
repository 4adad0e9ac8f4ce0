"""C45: calls, parameters and return values follow the x86-64 System V calling convention."""
import re
from sa.build import Tree
from sa.focus import focus
from sa.ir import Module
from sa.effects import Effects, linear, s64
from sa import x86
from checks import emit
from checks.emit import (Gen, Run, Lost, CONST, LLOCAL, LOCAL, CMP, LVAL, SYM, BYTE, SHORT, INT, LLONG, PTR, STRUCT, FLOAT, DOUBLE, LDOUBLE,
                         BOOL, UNS, STATIC, ST0, START, PLANS, regname)

QLONG, QFLOAT, VOID, ARRAY, BITFIELD, FUNCT, ENUM = 13, 14, 0, 0x40, 0x80, 6, 0x100
STOP = emit.STOP + ("vrotb", "vset", "vstore", "sym_push", "gen_bounds_prolog", "gen_bounds_epilog", "gbound_args", "load", "tcc_malloc", "tcc_free")
ROOTS = ["gfunc_call", "gfunc_prolog", "gfunc_epilog", "classify_x86_64_va_arg", "gfunc_sret", "R_RET", "R2_RET"]
FILE = "lib/tinycc/x86_64-gen.c"
GPR = (7, 6, 2, 1, 8, 9)
ABI, SBP = ("reg", 4), ("reg", 5)


# ------------------------------------------------------------------ types
class Ty:
    """a C type with its System V layout"""

    def __init__(self, name, t, size, align, fields=(), elem=None, count=0):
        self.name, self.t, self.size, self.align, self.fields, self.elem, self.count = name, t, size, align, list(fields), elem, count

    def leaves(self, off=0):
        """(offset, scalar) of everything inside"""
        if self.elem:
            for k in range(self.count):
                yield from self.elem.leaves(off + k * self.elem.size)
        elif self.t & 15 == STRUCT:
            for o, f in self.fields:
                yield from f.leaves(off + o)
        else:
            yield off, self

    def classes(self):
        """eightbyte classes: "memory", or a tuple of "int", "sse" ("x87" for a lone long double)"""
        if self.size > 16:
            return "memory"
        cl = [None] * ((self.size + 7) // 8)
        for o, s in self.leaves():
            if o % s.align:
                return "memory"
            c = "sse" if s.t & 15 in (FLOAT, DOUBLE) else "x87" if s.t & 15 == LDOUBLE else "int"
            if c == "x87":
                if cl[0] not in (None, "x87") or cl[1] not in (None, "x87up"):
                    return "memory"
                cl[0], cl[1] = "x87", "x87up"
                continue
            old = cl[o // 8]
            if old in ("x87", "x87up"):
                return "memory"
            cl[o // 8] = "int" if "int" in (old, c) else c
        if "x87" in cl:
            return ("x87",)
        return tuple(c or "none" for c in cl)


def scal():
    return {n: Ty(n, t, z, z) for n, t, z in (("char", BYTE, 1), ("unsigned char", BYTE | UNS, 1), ("_Bool", BOOL, 1), ("short", SHORT, 2), ("unsigned short", SHORT | UNS, 2),
                                             ("int", INT, 4), ("unsigned", INT | UNS, 4), ("long long", LLONG, 8), ("unsigned long long", LLONG | UNS, 8), ("pointer", PTR, 8),
                                             ("float", FLOAT, 4), ("double", DOUBLE, 8), ("long double", LDOUBLE, 16))}


S = scal()


def struct(name, *fields, packed=False, union=False, align=1):
    off, al, out, size = 0, align, [], 0
    for f in fields:
        a = 1 if packed else f.align
        o = 0 if union else (off + a - 1) // a * a
        out.append((o, f))
        off = o + f.size
        size = max(size, off)
        al = max(al, a)
    return Ty(name, STRUCT, (size + al - 1) // al * al, al, out)


def array(e, n):
    return Ty("%s[%d]" % (e.name, n), PTR | ARRAY, e.size * n, e.align, elem=e, count=n)


def structs():
    c, s, i, l, f, d, ld, p = (S[n] for n in ("char", "short", "int", "long long", "float", "double", "long double", "pointer"))
    A = array
    pt = struct("struct {float; float;}", f, f)
    out = [struct("struct {%s}" % " ".join(x.name + ";" for x in fs), *fs) for fs in (
        (c,), (s,), (i,), (l,), (p,), (c, c), (c, c, c), (c, s), (c, i), (i, i), (i, c), (c, c, c, c, c), (l, i), (l, l), (i, l), (p, l), (p, p), (i, i, i), (c, l),
        (i, i, i, i), (f,), (d,), (f, f), (f, f, f), (f, f, f, f), (d, d), (d, f), (f, d), (i, f), (f, i), (c, f), (f, s),
        (l, l, l), (d, d, d), (f, f, f, f, f), (l, i, f, c), (ld,), (ld, ld), (ld, i), (), (A(c, 3),), (A(c, 7),), (A(c, 8),), (A(c, 12),), (A(c, 16),), (A(c, 17),), (A(d, 2),),
        (A(f, 3),), (A(f, 4),), (A(f, 2),), (A(i, 3),), (A(i, 4),), (A(d, 3),), (A(s, 5),), (A(l, 2),), (A(ld, 1),), (pt,), (pt, pt), (pt, f), (A(pt, 2),),
        (struct("struct {int;}", i), c), (struct("struct {double;}", d), d), (struct("struct {struct {double;};}", struct("struct {double;}", d)),), (c, A(c, 0)), (l, A(c, 0)),
        (A(p, 2),), (d, A(d, 0)), (d, l), (l, d), (i, d), (f, f, i), (i, i, f), (d, i), (p, f))]
    out += [struct("union {%s}" % " ".join(x.name + ";" for x in fs), *fs, union=True) for fs in (
        (i, f), (l, d), (f, d), (d, f), (c, d), (ld, i), (i, ld), (ld, d), (A(d, 2), l), (A(d, 2), f), (A(l, 2), d), (A(c, 9), i), (A(i, 4), l), (A(f, 4), d), (A(i, 5), l), (pt, d), (pt, i))]
    out += [struct("packed struct {%s}" % " ".join(x.name + ";" for x in fs), *fs, packed=True) for fs in (
        (c, i), (c, s), (c, l), (c, c), (i, l), (l, i), (l, c), (c, d), (d, f), (c, f), (d, c, f), (i, A(c, 3)), (c, A(i, 2)))]
    out += [struct("struct {int; int;} aligned 16", i, i, align=16), struct("struct {double; double;} aligned 16", d, d, align=16), struct("struct {long long; long long;} aligned 16", l, l, align=16),
            struct("struct {long long; long long; long long;} aligned 16", l, l, l, align=16), struct("struct {long long; ...} of 24 bytes aligned 32", l, l, l, align=32)]
    return out


def mixed(t):
    cl = t.classes()
    return t.t & 15 == STRUCT and isinstance(cl, tuple) and len(set(cl) - {"none"}) > 1


# ------------------------------------------------------------------ following the generator
class AGen(Gen):
    """the generator with types, called functions followed through, and the remaining primitives of calls"""
    depth = 0

    def types(self, *ts):
        self.ty = {}
        for t in ts:
            self.note(t)

    def note(self, t):
        self.ty[t.name] = t
        for _, f in t.fields:
            self.note(f)
        if t.elem:
            self.note(t.elem)

    def field(self, sname, n, default):
        o = self.m.field_off(sname, n) if sname in self.m.structs else None
        return default if o is None else o

    # Symbols: ("sy", kind, ...) ; a type's members are ("sy", "m", type name, index), its head ("sy", "s", type name)
    def sym(self, a, off, x):
        oc, ot, on, ov = 8, self.field("Sym", "type", 16), 32, 0
        kind = a[1]
        if kind == "s":                         # head of a struct: c = size, r = align, next = first member
            t = self.ty[a[2]]
            if off == on:
                return ("sy", "m", a[2], 0) if t.fields else ("i", 0)
            if off == oc:
                return ("i", t.size)
            if off == 4:
                return ("i", t.align)
            if off == 6:
                return ("i", 0)
        elif kind == "m":
            t = self.ty[a[2]]
            o, f = t.fields[a[3]]
            if off == on:
                return ("sy", "m", a[2], a[3] + 1) if a[3] + 1 < len(t.fields) else ("i", 0)
            if off == oc:
                return ("i", o)
            if off == ov:
                return ("i", 0x20000000 | 300 + a[3])
            if off == ot:
                return ("i", f.t)
            if off == ot + 8:
                return self.ref(f)
        elif kind == "a":                       # an array type: c = count, type = element
            t = self.ty[a[2]]
            if off == oc:
                return ("i", t.count)
            if off == ot:
                return ("i", t.elem.t)
            if off == ot + 8:
                return self.ref(t.elem)
        elif kind == "p":                       # pointer target
            if off == ot:
                return ("i", BYTE)
            if off == ot + 8:
                return ("i", 0)
        elif kind == "fn":                      # a function type: f.func_type, parameters
            if off == 12:
                return ("i", self.functype << 3)
            if off == 13:
                return ("i", 0)
            if off == on:
                return ("sy", "par", 0) if self.pars else ("i", 0)
            if off == ot:
                return ("i", self.ret.t)
            if off == ot + 8:
                return self.ref(self.ret)
        elif kind == "par":
            if off == on:
                return ("sy", "par", a[2] + 1) if a[2] + 1 < len(self.pars) else ("i", 0)
            if off == ov:
                return ("i", 0x20000000 | 300 + a[2])
            if off == ot:
                return ("i", self.pars[a[2]].t)
            if off == ot + 8:
                return self.ref(self.pars[a[2]])
        elif kind == "func":
            if off == ot:
                return ("i", FUNCT)
            if off == ot + 8:
                return ("sy", "fn")
        return None

    def ref(self, t):
        if t.elem:
            return ("sy", "a", t.name)
        if t.t & 15 == STRUCT:
            return ("sy", "s", t.name)
        if t.t & 15 == PTR:
            return ("sy", "p", "")
        return ("i", 0)

    def loadval(self, p, x, env):
        if p[0] == "g" and p[1] == "tcc_state":
            return ("ts",)
        if p[0] == "g" and p[1] == "ind":
            return ("i", env.get(("pos",), START))
        if p[0] == "g" and p[1] in self.glob:
            return ("i", self.glob[p[1]])
        l = linear(p)
        k = l.pop(1, 0)
        if len(l) == 1:
            (a, c), = l.items()
            if c == 1:
                if a == ("ts",):
                    return ("i", 0)
                if a[0] == "sy":
                    v = self.sym(a, k, x)
                    if v is None:
                        raise Lost("symbol %s+%d" % (a, k))
                    if v[0] == "i" and x.ty[0] == "i" and int(x.ty[1:]) < 32:
                        v = ("i", v[1] & (1 << int(x.ty[1:])) - 1)
                    return v
                if a == ("g", "func_vt"):
                    return ("i", self.ret.t) if k == 0 else self.ref(self.ret)
                if a[0] == "ct":
                    t = self.ty[a[1]]
                    return ("i", t.t) if k == 0 else self.ref(t)
                if a[0] == "g" and a[1] in self.m.globals and self.m.globals[a[1]].get("const"):
                    for off, n, v in self.m.globals[a[1]].get("init") or []:
                        if off == k:
                            return ("i", v[1])
                    s = self.m.globals[a[1]].get("str")
                    if s is not None:
                        b = bytes.fromhex(s)
                        n = int(x.ty[1:]) // 8
                        return ("i", int.from_bytes(b[k:k + n], "little"))
        return Gen.loadval(self, p, x, env)

    def onstore(self, p, v, env):
        if p[0] == "g" and p[1] == "ind":
            if v[0] != "i":
                raise Lost("position")
            return {("pos",): v[1]}
        return Gen.onstore(self, p, v, env)

    def go(self, fn, params, env, root=True):
        """feasible paths of a function from a state: [(environment, how)]"""
        f = self.R.need(self.m.defined.get(fn), fn)
        E = Effects(self.m, f, "-", exact=2, maxvisit=400)
        E.eager = E.memory = E.keepenv = E.silent = True
        E.strings, E.maxpaths = False, 60
        E.tracked = {self.vt} | {g for g in self.tracked if g in self.m.globals}
        E.params = dict(params)
        self.depth += 1
        E.frame = self.depth
        if self.depth > 12:
            raise Lost("recursion")
        E.loadval, E.onstore = self.loadval, self.onstore
        cache = {}

        def both(name, args, env):
            key = (name, args, id(env))
            if cache.get("k") != key:
                cache["k"], cache["v"], cache["e"] = key, self.act(name, args, env), env
            return cache["v"]
        E.callval = lambda name, args, env: both(name, args, env)[0]
        E.oncall = lambda name, env, args: both(name, args, env)[1]
        out = []
        try:
            for conds, ev, how in E.paths(0, None, lambda k: False, env=env):
                if how == "dead":
                    continue
                if how == "cut":
                    raise Lost("cut")
                out.append((ev[-1][1], how))
        finally:
            self.depth -= 1
        return out

    tracked = ("loc", "func_vc", "func_ret_sub", "func_sub_sp_offset", "func_scratch", "func_alloca", "func_bound_add_epilog", "func_bound_offset", "func_bound_ind")

    def start(self, slots, plan, glob=None, loc=-64):
        top = (len(slots) - 1) * self.size
        env = {("g", self.vt): self.at(top), ("log",): (), ("n",): 0, ("lo",): 0, ("pos",): START, ("g", "loc"): ("i", loc)}
        for k, s in enumerate(slots):
            self.fill(env, k * self.size, s)
        self.plan, self.syms, self.struct, self.glob = plan, {}, None, dict({"nocode_wanted": 0}, **(glob or {}))
        return env

    def fill(self, env, off, s):
        Gen.fill(self, env, off, s)
        ty = s.get("ty")
        if ty is not None:
            env[("sv", off + self.T)] = ty.t
            env[("sv", off + self.T + 8)] = self.ref(ty)
        if "ref" in s:
            env[("sv", off + self.T + 8)] = s["ref"]
        env[("sv", off + 18)] = s.get("r2", CONST)

    def users(self, env, reg):
        return [o for o in range(env[("lo",)], self.top(env) + 1, self.size)
                if self.regof(env, o) is not None and (self.regof(env, o) & 0x3f == reg or env.get(("sv", o + 18)) == reg)]

    def spill(self, env, reg, log, skip=()):
        for o in self.users(env, reg):
            if o not in skip:
                r, r2 = self.regof(env, o), env.get(("sv", o + 18))
                log.append(("spill", o, r & 0x3f, r2 if isinstance(r2, int) and r2 < CONST else None))
                env[("sv", o + self.RR)] = (LVAL | LLOCAL) if r & LVAL else (LVAL | LOCAL)
                env[("sv", o + self.C)] = -4096 - 2 * o
                env[("sv", o + 18)] = CONST
        log.append(("free", reg))

    def gv(self, env, off, rc, log):
        r = self.regof(env, off)
        if r is None:
            raise Lost("entry")
        t = env[("sv", off + self.T)] & 15
        if t == STRUCT:
            raise Lost("a structure in a register")
        two = t in (QLONG, QFLOAT)
        if not two and not r & LVAL and r & 0x3f < CONST and self.cls.get(r & 0x3f, 0) & rc:
            return r & 0x3f
        n = self.choose(env, rc, log)
        log.append(("gv", off, n, env.get(("val", off)), env[("sv", off + self.T)], 0))
        env[("sv", off + self.RR)] = n
        if two:
            rc2 = self.cls[17] & ~self.fl if t == QFLOAT and rc == self.cls[16] & ~self.fl else self.fl if t == QFLOAT else self.it
            if rc == self.cls[0] & ~self.it:
                rc2 = self.cls[2] & ~self.it
            r2 = self.choose(env, rc2, log)
            log.append(("gv", off, r2, env.get(("val", off)), env[("sv", off + self.T)], 1))
            env[("sv", off + 18)] = r2
        return n

    fl, it = 2, 1

    def copy(self, env, dst, src, n):
        get = lambda p: env.get(p) or (env[("m", p)][1] if ("m", p) in env else None)
        put = {}
        for o in (0, 8):
            sp = src if not o else ("ptr", src, ("i", o)) if src[0] != "ptr" else ("ptr", src[1], ("i", src[2][1] + o))
            w = self.where(sp)
            v = env.get(("sv", w)) if w is not None else get(sp)
            d = dst if not o else ("ptr", dst, ("i", o)) if dst[0] != "ptr" else ("ptr", dst[1], ("i", dst[2][1] + o))
            w = self.where(d)
            if v is None:
                l = linear(sp)
                k = l.pop(1, 0)
                (a, c), = l.items()
                v = self.sym(a, k, None) if a[0] == "sy" else None
            if v is None:
                continue
            if w is not None:
                put[("sv", w)] = v[1] if isinstance(v, tuple) and v[0] == "i" else v
            else:
                put[("m", d)] = ("i32" if not o else "ptr", v if isinstance(v, tuple) else ("i", v))
                if d[0] == "slot":
                    put[d] = v if isinstance(v, tuple) else ("i", v)
        return put

    def typeof(self, p, env):
        """the type at an address"""
        l = linear(p)
        k = l.pop(1, 0)
        if len(l) == 1:
            (a, c), = l.items()
            if a[0] == "ct":
                return self.ty[a[1]]
            if a == ("g", "func_vt"):
                return self.ret
            if a[0] == "sy":
                t, ref = self.sym(a, k, None), self.sym(a, k + 8, None)
                return self.find(t[1], ref)
        w = self.where(p)
        if w is not None:
            return self.find(env.get(("sv", w)), env.get(("sv", w + 8)))
        raise Lost("type at %s" % (p,))

    def find(self, t, ref):
        if isinstance(ref, tuple) and ref[0] == "sy" and ref[1] in ("s", "a"):
            return self.ty[ref[2]]
        for x in S.values():
            if x.t == t:
                return x
        raise Lost("type %s" % t)

    def act(self, name, args, env0):
        arg = [a[1] if a[0] == "i" else a for a in args]
        log, ch, val = [], {}, None
        if name == "type_size":
            t = self.typeof(args[0], env0)
            val, ch = ("i", t.size), {args[1]: ("i", t.align), ("m", args[1]): ("i32", ("i", t.align))}
            if args[1][0] != "slot":
                ch.pop(args[1])
            return val, ch
        if name.startswith("llvm.memcpy"):
            return None, self.copy(env0, args[0], args[1], arg[2])
        if name.startswith("llvm."):
            return None, {}
        if name == "g":
            b = arg[0] & 255 if isinstance(arg[0], int) else None
            return None, {("log",): env0[("log",)] + (("b", b, env0[("pos",)]),), ("pos",): env0[("pos",)] + 1, ("n",): env0[("n",)] + 1}
        if name == "greloca":
            return None, {("log",): env0[("log",)] + (("rel", arg[2], arg[3], arg[4], args[1]),)}
        if name == "tcc_malloc":
            return ("heap", len(env0[("log",)])), {}
        if name == "tcc_free":
            return None, {}
        if name == "sym_push":
            t = self.where(args[1])
            return ("sy", "pushed"), {("log",): env0[("log",)] + (("param", arg[0], args[1], arg[2], arg[3]),)}
        if name == "vrotb":
            env, n, t = dict(env0), arg[0], self.top(env0)
            lo = t - (n - 1) * self.size
            for k in [k for k in env if isinstance(k, tuple) and k[0] in ("sv", "val") and lo <= k[1] <= t + self.size - 1]:
                env.pop(k)
            for k, v in env0.items():
                if isinstance(k, tuple) and k[0] in ("sv", "val") and lo <= k[1] < t + self.size:
                    env[(k[0], k[1] - self.size if k[1] >= lo + self.size else k[1] + (n - 1) * self.size)] = v
            return None, self.delta(env0, env)
        if name == "vset":
            env, t = dict(env0), self.top(env0) + self.size
            w = self.copy(env0, self.at(t), args[0], 16)
            self.fill(env, t, {"r": arg[1], "c": arg[2], "val": ("dest",)})
            env.update(w)
            env[("g", self.vt)] = self.at(t)
            return None, self.delta(env0, env)
        if name == "vstore":
            env, t = dict(env0), self.top(env0)
            d, r = t - self.size, self.regof(env0, t)
            dr = self.regof(env0, d)
            ty = self.find(env0.get(("sv", t)), env0.get(("sv", t + 8)))
            log.append(("vstore", dr, env0.get(("val", t)), ty.name))
            for q in self.cls:
                if any(o < d for o in self.users(env, q)):
                    self.spill(env, q, log)
            log.sort(key=lambda e: e[0] == "vstore")
            for k in [k for k in env if isinstance(k, tuple) and k[0] in ("sv", "val") and k[1] >= d]:
                env.pop(k)
            for k, v in env0.items():
                if isinstance(k, tuple) and k[0] in ("sv", "val") and k[1] >= t:
                    env[(k[0], k[1] - self.size)] = v
            env[("g", self.vt)] = self.at(d)
            env[("log",)] = env0[("log",)] + tuple(log)
            return None, self.delta(env0, env)
        if name in self.m.defined and name not in STOP:
            sub = {k: v for k, v in env0.items() if not (isinstance(k, tuple) and k[0] == "u") and not isinstance(k, int)}
            outs = self.go(name, {k: a for k, a in enumerate(args)}, sub)
            if len(outs) != 1:
                raise Lost("%d ways through %s" % (len(outs), name))
            e, how = outs[0]
            e = {k: v for k, v in e.items() if not (isinstance(k, tuple) and k[0] == "u") and not isinstance(k, int)}
            return how[1], {k: v for k, v in e.items() if env0.get(k) != v}
        if name == "save_regs":
            env, t = dict(env0), self.top(env0)
            for q in sorted(self.cls):
                if any(o <= t - arg[0] * self.size for o in self.users(env, q)):
                    self.spill(env, q, log)
            env[("log",)] = env0[("log",)] + tuple(log)
            return None, self.delta(env0, env)
        return Gen.act(self, name, args, env0)

    def delta(self, env0, env):
        ch = {k: v for k, v in env.items() if env0.get(k) != v}
        for k in env0:
            if k not in env:
                ch[k] = None
        return ch


class Frame(x86.Cpu):
    """a processor whose stack pointer keeps its offset from the aligned frame"""

    def at4(self):
        v = self.r[4]
        if not (isinstance(v, tuple) and v[0] == "addr" and v[1] == ABI):
            raise x86.Unknown("stack pointer")
        return v[2]

    def step(self, t):
        if t.startswith("and rsp,"):
            k = int(t.split(",")[1], 0)
            if k >= 0 or -k & (-k - 1) or -k > 16:
                raise x86.Unknown(t)
            self.r[4] = ("addr", ABI, self.at4() & k)
            return None
        if t == "pop rsp":
            self.r[4] = self.m.get(((ABI,), self.at4()), ("?",))
            return None
        if t.startswith("call"):
            self.calls.append((t, self.fix, dict(self.r), dict(self.x), dict(self.m)))
            return None
        if t == "leave":
            self.r[4] = self.r[5]
            self.r[5] = self.m.get(self.ea("rsp"))
            self.rsp(8)
            return None
        r = x86.Cpu.step(self, t)
        return r


def play(log, vals, types, regs, xmm, mem, st=()):
    """run the emitted code of a call"""
    c = Frame(dict(regs), dict(mem), dict(xmm), list(st))
    c.calls = []
    for r in range(16):
        c.r.setdefault(r, ("addr", ("reg", r), 0) if r in (4, 5) else ("junk", r))
    seq, pend, rel = [], [], {}
    for e in log:
        if e[0] == "rel":
            rel[e[1]] = e[2:]
    bad = None

    def flush():
        nonlocal pend
        if pend:
            start = pend[0][2]
            if any(b[1] is None for b in pend):
                raise Lost("byte")
            code = tuple(b[1] for b in pend)
            d = x86.decode(code)
            if d is None:
                raise x86.Unknown("not an instruction: " + " ".join("%02x" % b for b in code))
            fx = {}
            for k in rel:
                if isinstance(k, int) and start <= k < start + len(code):
                    kind, add, sym = rel[k]
                    fx[k - start] = (sym, kind, add)
            c.run(d, fx)
            pend = []
    for e in log:
        if e[0] == "b":
            pend.append(e)
            continue
        if e[0] == "rel":
            continue
        flush()
        if e[0] == "gv":
            put(c, e[2], part(vals, types, e[3], e[4], e[5], c), e[4])
        elif e[0] == "load":
            src = e[2]
            v = src.get("val")
            put(c, e[1], part(vals, types, v, src["t"] if isinstance(src["t"], int) else LLONG, 0, c), LLONG)
        elif e[0] == "spill":
            o, r, r2 = e[1:]
            c.m[(("home", o), 0)] = c.st.pop(0) if r == ST0 else c.x.get(r - 16) if r >= 16 else c.r[r]
            if r2 is not None:
                c.m[(("home", o), 8)] = c.x.get(r2 - 16) if r2 >= 16 else c.r[r2]
        elif e[0] == "free":
            if e[1] < 16:
                c.r[e[1]] = ("junk", e[1])
        elif e[0] == "get":
            if e[1] < 16:
                c.r[e[1]] = ("junk", e[1])
        elif e[0] == "vstore":
            d = c.r.get(e[1] & 0x3f) if e[1] & LVAL else None
            sp = c.at4()
            if not (isinstance(d, tuple) and d[0] == "addr" and d[1] == ABI):
                bad = "the place a structure argument is copied to is not on the stack"
                continue
            if sp % 16:
                bad = "the stack is not aligned when a structure argument is copied by a function"
            t = types[e[3]]
            if t.size and d[2] < sp:
                bad = "a structure argument is copied below the stack pointer"
            for k in [k for k in c.m if k[0] == (ABI,) and k[1] < sp]:
                c.m.pop(k)
            for k in range(0, t.size, 8):
                c.m[((ABI,), d[2] + k)] = (e[2], k // 8)
            for r in range(16):
                if r not in (3, 4, 5, 12, 13, 14, 15):
                    c.r[r] = ("junk", r)
            c.x = {}
        elif e[0] == "cmp":
            pass
    flush()
    return c, bad


def part(vals, types, v, t, k, c):
    return (v, k)


def put(c, reg, v, t):
    if reg == ST0:
        c.st.insert(0, v)
    elif reg >= 16:
        c.x[reg - 16] = v
    else:
        c.r[reg] = v


# ------------------------------------------------------------------ what the convention prescribes
def assign(tys, ret_mem=False, variadic=False):
    """where each argument goes: ("int", [registers]), ("sse", [registers]), ("stack", offset) or ("none",)"""
    g, x, off, out = int(ret_mem), 0, 0, []
    for t in tys:
        cl = t.classes() if t.size else ()
        if not t.size:
            out.append(("none",))
            continue
        n = len(cl)
        k = set(cl) - {"none"} if isinstance(cl, tuple) else None
        if k == {"int"} and g + n <= 6:
            out.append(("int", list(range(g, g + n))))
            g += n
        elif k == {"sse"} and x + n <= 8:
            out.append(("sse", list(range(x, x + n))))
            x += n
        else:
            a = max(8, t.align)
            off = (off + a - 1) // a * a
            out.append(("stack", off))
            off += (t.size + 7) // 8 * 8
    return out, g, x, off


class Check:
    def __init__(self, R, G):
        self.R, self.G, self.seen, self.missing, self.dry = R, G, set(), {}, False
        self.va_at = -24
        for n, g in G.m.globals.items():
            h = bytes.fromhex(g.get("str") or "") if len(g.get("str") or "") > 200 else b""
            i = h.find(b"define __builtin_va_start")
            r = re.match(rb"[^\n]*__builtin_frame_address\(0\) ?([-+]) ?(\d+)\)", h[i:]) if i >= 0 else None
            if r:
                self.va_at = int(r.group(1) + r.group(2))

    def bad(self, key, fn, what, m=None):
        if self.dry or key in self.seen:
            return
        self.seen.add(key)
        f = (m or self.G.m).defined.get(fn)
        self.R.violation(key, "%s:%s" % (f.file if f else FILE, getattr(f, "line", "") or fn), "code of " + fn, what)

    def lost(self, fn, e):
        self.R.count("not_followed")
        self.missing[(fn, str(e))] = self.missing.get((fn, str(e)), 0) + 1


def classification(K):
    """gfunc_sret, R_RET and va_arg classes of every type"""
    G = K.G
    alone = list(S.values()) + structs()
    for t in alone:
        G.types(t)
        G.ret, G.pars, G.functype = S["int"], [], 1
        cl = t.classes()
        name = t.name
        key = "mixed:" + kind_of(t) if mixed(t) else "class:" + name
        try:
            env = G.start([{"r": LOCAL, "val": "X"}], PLANS[0])
            outs = G.go("gfunc_sret", {0: ("ct", t.name), 1: ("i", 0), 2: ("out", "ret"), 3: ("out", "align"), 4: ("out", "regsize")}, env)
            vouts = G.go("classify_x86_64_va_arg", {0: ("ct", t.name)}, G.start([{"r": LOCAL, "val": "X"}], PLANS[0])) if "classify_x86_64_va_arg" in G.m.defined else []
        except Lost as e:
            K.lost("gfunc_sret", e)
            continue
        K.R.count("types")
        want = kind_of(t)
        for env, how in outs:
            K.R.obligation()
            get = lambda n: (env.get(("m", ("out", n)), (None, ("?",)))[1])
            n = how[1][1] if how[1][0] == "i" else None
            if t.t & 15 == STRUCT and t.size:
                if want == "memory":
                    if n != 0:
                        K.bad("ret:" + key, "gfunc_sret", "a value of type %s is not returned in memory" % name)
                    continue
                rt, rs = get("ret"), get("regsize")
                if n != 1 or rt[0] != "i":
                    K.bad("ret:" + key, "gfunc_sret", "a value of type %s is returned in memory" % name)
                    continue
                b = rt[1] & 15
                two = len(cl) == 2
                ok = {"int": b in ((QLONG,) if two else (LLONG,) if t.size > 4 else (INT,) if t.size > 2 else (SHORT,) if t.size > 1 else (BYTE,)),
                      "sse": b in ((QFLOAT,) if two else (DOUBLE,) if t.size > 4 else (FLOAT,)), "x87": b == LDOUBLE}.get(want, False)
                if not ok:
                    K.bad("ret:" + key, "gfunc_sret", "a value of type %s is returned as %s" % (name, tname(b)))
                elif want in ("int", "sse") and rs != ("i", 8 * len(cl)):
                    K.bad("ret:" + key, "gfunc_sret", "a value of type %s is returned in %s bytes" % (name, rs[1]))
        for env, how in vouts:
            K.R.obligation()
            if t.size and how[1] != ("i", {"int": 0, "sse": 1}.get(want, 2)):
                K.bad("va:" + key, "classify_x86_64_va_arg", "an argument of type %s is fetched from %s" % (
                    name, {0: "the general registers", 1: "the floating-point registers", 2: "the stack"}.get(how[1][1], how[1])))
    for t, r, r2 in ((INT, 0, CONST), (BYTE, 0, CONST), (SHORT | UNS, 0, CONST), (LLONG, 0, CONST), (PTR, 0, CONST), (BOOL, 0, CONST), (FLOAT, 16, CONST), (DOUBLE, 16, CONST),
                     (LDOUBLE, ST0, CONST), (QLONG, 0, 2), (QFLOAT, 16, 17)):
        for fn, want in (("R_RET", r), ("R2_RET", r2)):
            if fn not in G.m.defined:
                continue
            try:
                for env, how in G.go(fn, {0: ("i", t)}, G.start([{"r": LOCAL, "val": "X"}], PLANS[0])):
                    K.R.obligation()
                    if how[1] != ("i", want):
                        K.bad("%s:%s" % (fn, tname(t)), fn, "a value of type %s is returned in %s" % (tname(t), regname(how[1][1]) if how[1][0] == "i" and how[1][1] < 32 else how[1]))
            except Lost as e:
                K.lost(fn, e)


def kind_of(t):
    cl = t.classes()
    if isinstance(cl, str):
        return cl
    k = set(cl) - {"none"}
    return k.pop() if len(k) == 1 else "none" if not k else "+".join(cl)


def tname(t):
    return {QLONG: "two integers", QFLOAT: "two doubles", 0: "void"}.get(t & 15) or emit.tyn(t)


def sequences():
    """argument lists: every class in every position around the point where the registers run out"""
    i, l, f, d, ld, p = (S[n] for n in ("int", "long long", "float", "double", "long double", "pointer"))
    c3, si, s2l = struct("struct {char; char; char;}", S["char"], S["char"], S["char"]), struct("struct {int; int;}", i, i), struct("struct {long long; long long;}", l, l)
    s5, sf, s2d = struct("struct {char[12];}", array(S["char"], 12)), struct("struct {float; float;}", f, f), struct("struct {double; double;}", d, d)
    s3 = struct("struct {long long; long long; long long;}", l, l, l)
    s17 = struct("struct {char[17];}", array(S["char"], 17))
    sa = struct("struct {long long; ...} aligned 16", l, l, l, align=16)
    s0 = struct("struct {}")
    sld = struct("struct {long double;}", ld)
    f1 = struct("struct {float;}", f)
    base = [i, l, d, f, ld, s2l, s2d, s3, sa, s0, c3, sf, s5, s17, sld, f1, si, p]
    out = [[]] + [[x] for x in base] + [[x, y] for x in base for y in base[:11]]
    out += [[i] * n for n in range(3, 10)] + [[d] * n for n in (3, 7, 8, 9, 10)] + [[i, d] * n for n in (3, 6, 9)]
    out += [[i] * n + [x] + [l] * k for n in (4, 5, 6) for x in (s2l, s3, ld, sa, s5) for k in (0, 1, 2)]
    out += [[d] * n + [x] + [d] * k for n in (6, 7, 8) for x in (s2d, s3, ld, sf) for k in (0, 1, 2)]
    out += [[ld, i, ld], [i] * 7 + [ld], [i] * 7 + [sa], [i] * 8 + [ld, i], [i] * 7 + [ld, i, ld], [s3, ld, s3], [s17, sa, s17, sa], [s3, sa], [sa, s3, i], [s0, i, s0, d, s0],
            [i] * 6 + [s0, i], [s3, s0, s3], [c3, i, d, s2d, s2l, p, f], [s2d, s2d, s2d, s2d, d], [s2l, s2l, s2l, i], [i, s2l, s2l, s2l], [d, s2d, s2d, s2d, s2d, f],
            [i, ld, s2d, sa, s2l, i, i, i, i, d], [s17, i, s17], [ld, s3, ld], [i] * 7 + [s3, sa], [i] * 6 + [si, c3, sf, d]]
    return out


def args_at(t, k, how, regs, xmm):
    """a stack entry for an argument"""
    v = ("V", k)
    e = {"ty": t, "val": v, "r": LOCAL | LVAL, "c": -64 - 64 * k}
    if how == "reg" and t.t & 15 not in (STRUCT, LDOUBLE):
        if t.t & 15 in (FLOAT, DOUBLE):
            r = 16 + (k * 3 + 1) % 8
            if r - 16 not in xmm:
                e["r"] = r
                xmm[r - 16] = (v, 0)
        else:
            r = (2, 0, 1)[k % 3]
            if r not in regs:
                e["r"] = r
                regs[r] = (v, 0)
    elif how == "const" and t.t & 15 in (BYTE, SHORT, INT, LLONG, PTR):
        e["r"] = CONST
    elif how == "addr" and t.t & 15 == STRUCT and 0 not in regs:
        e["r"] = 0 | LVAL
        regs[0] = ("addr", ("P", k), 0)
    return e


WIDTH = {BYTE: 1, SHORT: 2, INT: 4, LLONG: 8, PTR: 8, BOOL: 1, FLOAT: 4, DOUBLE: 8, LDOUBLE: 16, QLONG: 16, QFLOAT: 16}


def calls(K):
    G = K.G
    seqs = sequences()
    for n, tys in enumerate(seqs):
        for how in ("local", "reg", "const", "addr"):
            if how in ("const", "addr") and n % 3 or how == "addr" and not any(t.t & 15 == STRUCT for t in tys):
                continue
            for ft, target in (((1, "sym"), (3, "pointer")) if n % 2 else ((2, "sym"), (1, "register"))):
                one_call(K, tys, how, ft, target, PLANS[n % 3])
    for tys in ([S["int"]], [S["int"], S["double"]], [S["int"]] * 8, [S["double"]] * 9 + [S["int"]]):
        one_call(K, tys, "cmp", 1, "sym", PLANS[0])


def one_call(K, tys, how, ft, target, plan):
    G = K.G
    G.types(*tys)
    G.ret, G.pars, G.functype = S["int"], [], ft
    regs, xmm, mem = {}, {}, {}
    slots = []
    below = how == "reg"
    X = (("V", "X"), 0)
    if below:
        slots.append({"ty": S["long long"], "r": 0, "val": X[0]})
        regs[0] = X
    fn = {"ty": S["pointer"], "ref": ("sy", "fn"), "val": ("FN",), "t": FUNCT}
    if target == "sym":
        fn.update(r=CONST | SYM, sym="callee")
    elif target == "pointer":
        fn.update(r=LOCAL | LVAL, c=-8)
    else:
        fn.update(r=1)
        regs[1] = (("FN",), 0)
    slots.append(fn)
    for k, t in enumerate(tys):
        slots.append(args_at(t, k, how, regs, xmm))
    if how == "cmp":
        slots[-1]["r"] = CMP
        slots[-1]["cmp_op"] = 0x94
    what = "a call with arguments (%s)%s" % (", ".join(t.name for t in tys), {1: "", 2: " of a function without a prototype", 3: " of a variadic function"}[ft])
    try:
        env = G.start(slots, plan)
        fo = [o for o in range(0, len(slots) * G.size, G.size) if env.get(("val", o)) == ("FN",)][0]
        env[("sv", fo + G.T)] = FUNCT
        outs = G.go("gfunc_call", {0: ("i", len(tys))}, env)
    except Lost as e:
        K.lost("gfunc_call", e)
        return
    if not outs:
        K.bad("call:none", "gfunc_call", "no path emits code for " + what)
    for env, end in outs:
        log = env[("log",)]
        K.R.count("calls")
        if K.dry:
            collect(log)
            continue
        K.R.obligation()
        if any(e[0] == "error" for e in log):
            K.bad("call:error", "gfunc_call", what + " is rejected")
            continue
        if how == "cmp":
            first = next((k for k, e in enumerate(log) if e[0] == "b"), None)
            got = next((k for k, e in enumerate(log) if e[0] == "gv" and e[3] == ("V", len(tys) - 1)), None)
            if got is None or first is not None and first < got:
                K.bad("call:flags", "gfunc_call", "code is emitted before the result of a comparison is taken from the processor flags")
        for e in log:
            if e[0] == "gv" and isinstance(e[3], tuple) and e[3][0] == "V" and isinstance(e[3][1], int):
                t, w = tys[e[3][1]], WIDTH.get(e[4] & 15, 0)
                if t.t & 15 == STRUCT and w < t.size or t.t & 15 != STRUCT and (w != t.size or (e[4] & 15 in (FLOAT, DOUBLE, LDOUBLE)) != (t.t & 15 in (FLOAT, DOUBLE, LDOUBLE))):
                    K.bad("call:width:" + t.name, "gfunc_call", "an argument of type %s is loaded as %s" % (t.name, tname(e[4])))
        try:
            c, bad = play(log, None, G.ty, regs, xmm, mem)
        except x86.Unknown as e:
            if "not an instruction" in str(e):
                K.bad("call:bytes", "gfunc_call", "%s: %s" % (what, e))
            else:
                K.lost("gfunc_call", e)
            continue
        except Lost as e:
            K.lost("gfunc_call", e)
            continue
        if bad:
            K.bad("call:struct", "gfunc_call", "%s: %s" % (what, bad))
            continue
        if len(c.calls) != 1:
            K.bad("call:count", "gfunc_call", "%s emits %d call instructions" % (what, len(c.calls)))
            continue
        t, fix, r, x, m = c.calls[0]
        if target == "sym":
            if not fix or fix[1] not in (4, 2) or fix[2] != -4 or fix[0] != ("symp", "callee"):
                K.bad("call:target", "gfunc_call", what + " does not go to the function")
        else:
            q = t.split()[-1]
            if q not in x86.REG or r.get(x86.REG[q][0]) != (("FN",), 0):
                K.bad("call:target", "gfunc_call", what + " through a pointer does not go to the function")
        sp = r[4][2] if isinstance(r[4], tuple) and r[4][0] == "addr" and r[4][1] == ABI else None
        if sp is None or sp % 16:
            K.bad("call:align", "gfunc_call", "the stack pointer is not aligned to 16 bytes in " + what)
            continue
        where, ng, nx, size = assign(tys)
        for k, (t, w) in enumerate(zip(tys, where)):
            v = ("V", k)
            n = (t.size + 7) // 8
            if w[0] == "int":
                got, exp = [r.get(GPR[j]) for j in w[1]], [(v, j) for j in range(n)]
                place = ", ".join(regname(GPR[j]) for j in w[1])
            elif w[0] == "sse":
                got, exp = [x.get(j) for j in w[1]], [(v, j) for j in range(n)]
                place = ", ".join("xmm%d" % j for j in w[1])
            elif w[0] == "stack":
                if t.t & 15 == LDOUBLE:
                    n = 1
                got, exp = [m.get(((ABI,), sp + w[1] + 8 * j)) for j in range(n)], [(v, j) for j in range(n)]
                place = "the stack at offset %d" % w[1]
            else:
                continue
            if got != exp:
                K.bad("call:arg:%s:%s" % (w[0], t.name), "gfunc_call", "%s: argument %d is not passed in %s" % (what, k + 1, place))
                break
        if ft != 1:
            al = r.get(0)
            if not isinstance(al, int) or not nx <= al & 255 <= 8:
                K.bad("call:al", "gfunc_call", "%s: al is %s with %d floating-point registers in use" % (what, al, nx))
        if c.r[4] != ("addr", ABI, 0):
            K.bad("call:pop", "gfunc_call", what + " leaves the stack pointer changed")
        if c.r[5] != ("addr", SBP, 0) or any(c.r[q] != ("junk", q) for q in (3, 12, 13, 14, 15)):
            K.bad("call:saved", "gfunc_call", what + " changes a register the caller must preserve")
        if c.st:
            K.bad("call:x87", "gfunc_call", what + " leaves values on the x87 stack")
        top = G.top(env)
        if top != (0 if below else -G.size):
            K.bad("call:stack", "gfunc_call", what + " leaves the wrong number of values on the compiler's stack")
        elif below:
            q = G.regof(env, 0)
            if q is None or not q & LVAL or q & 0x3f != LOCAL or c.m.get((("home", 0), 0)) != X:
                K.bad("call:lost", "gfunc_call", "a value held in a register is not saved across a call")


def collect(log):
    cur = []
    for e in log:
        if e[0] == "b":
            cur.append(e[1])
        elif e[0] != "rel":
            if cur and None not in cur:
                x86.decode(tuple(cur))
            cur = []
    if cur and None not in cur:
        x86.decode(tuple(cur))


# ------------------------------------------------------------------ the called side
def bytes_at(log):
    """emitted bytes by position: {position: byte}"""
    out = {}
    for e in log:
        if e[0] == "b":
            out[e[2]] = e[1]
    return out


def prologs(K):
    G = K.G
    rets = [S["int"], Ty("void", VOID, 1, 1), S["double"], struct("struct {long long; long long; long long;}", *[S["long long"]] * 3),
            struct("struct {int; int;}", S["int"], S["int"])]
    locs = {n for n in G.m.globals if n in G.tracked}
    for n, tys in enumerate(sequences()):
        for k, (ret, var) in enumerate((r, v) for r in rets for v in (0, 1)):
            if len(tys) > 1 and (n + k) % 3 or var and any(not t.size for t in tys):
                continue
            G.types(*tys, ret)
            G.ret, G.pars, G.functype = ret, tys, 3 if var else 1
            what = "a %sfunction with parameters (%s)%s" % ("variadic " if var else "", ", ".join(t.name for t in tys), " returning a structure in memory" if ret.size > 16 else "")
            env = G.start([{"r": LOCAL, "val": "X"}], PLANS[0], glob={"func_var": var})
            try:
                outs = G.go("gfunc_prolog", {0: ("sy", "func")}, env)
            except Lost as e:
                K.lost("gfunc_prolog", e)
                continue
            if not outs:
                K.bad("prolog:none", "gfunc_prolog", "no path emits code for " + what)
            for env, how in outs:
                K.R.count("prologs")
                log = env[("log",)]
                if K.dry:
                    collect(log)
                    continue
                K.R.obligation()
                try:
                    one_prolog(K, env, log, tys, ret, var, what)
                except x86.Unknown as e:
                    if "not an instruction" in str(e):
                        K.bad("prolog:bytes", "gfunc_prolog", "%s: %s" % (what, e))
                    else:
                        K.lost("gfunc_prolog", e)
                except Lost as e:
                    K.lost("gfunc_prolog", e)


def one_prolog(K, env, log, tys, ret, var, what):
    G = K.G
    regs = {GPR[k]: ("A", k) for k in range(6)}
    xmm = {k: ("X", k) for k in range(8)}
    first = next((e for e in log if e[0] == "b"), None)
    off = env.get(("g", "func_sub_sp_offset"))
    if first is not None and (off is None or first[2] != off[1]):
        raise Lost("start of the body")
    c, bad = play([e for e in log if e[0] in ("b", "rel")], None, G.ty, regs, xmm, {})
    rm = kind_of(ret) == "memory" and ret.size > 0
    where, ng, nx, size = assign(tys, rm)
    for r in range(16):
        if r not in (0, 10, 11) and r < 16 and c.r[r] != (regs.get(r) or (("addr", ("reg", r), 0) if r in (4, 5) else ("junk", r))):
            K.bad("prolog:clobber", "gfunc_prolog", "entering %s changes %s" % (what, regname(r)))
            return
    loc = env.get(("g", "loc"))
    if not loc or loc[0] != "i":
        raise Lost("loc")
    low = min([k[1] for k in c.m if k[0] == (SBP,)] + [0])
    if low < loc[1] or any(k[0] != (SBP,) for k in c.m):
        K.bad("prolog:below", "gfunc_prolog", "entering %s writes below the space reserved for its variables" % what)
    if any(k[0] == (SBP,) and k[1] >= 0 for k in c.m):
        K.bad("prolog:frame", "gfunc_prolog", "entering %s overwrites the caller's frame" % what)
    ps = [e for e in log if e[0] == "param"]
    if len(ps) != len(tys):
        K.bad("prolog:count", "gfunc_prolog", "%s declares %d parameters" % (what, len(ps)))
        return
    for k, (e, t, w) in enumerate(zip(ps, tys, where)):
        if e[1] != 300 + k or e[3] != LOCAL | LVAL or e[2] not in (("ptr", ("sy", "par", k), ("i", 16)),):
            K.bad("prolog:symbol", "gfunc_prolog", "parameter %d of %s is declared with the wrong name, type or kind" % (k + 1, what))
            continue
        if w[0] == "none":
            continue
        a = e[4]
        if not isinstance(a, int):
            raise Lost("address")
        if w[0] == "stack":
            if a != 16 + w[1]:
                K.bad("prolog:param:stack:" + t.name, "gfunc_prolog", "parameter %d of %s is read %d bytes after the place the caller put it" % (k + 1, what, a - 16 - w[1]))
                return
            continue
        nm = "A" if w[0] == "int" else "X"
        got = [c.m.get(((SBP,), a + 8 * j)) for j in range(len(w[1]))]
        if got != [(nm, j) for j in w[1]]:
            K.bad("prolog:param:%s:%s" % (w[0], t.name), "gfunc_prolog", "parameter %d of %s is not read from the register the caller put it in" % (k + 1, what))
            return
    if rm:
        vc = env.get(("g", "func_vc"))
        if not vc or vc[0] != "i" or c.m.get(((SBP,), vc[1])) != ("A", 0):
            K.bad("prolog:sret", "gfunc_prolog", "%s does not keep the address its result goes to" % what)
    if var:
        at = K.va_at
        sav = c.m.get(((SBP,), at + 16))
        ok = c.m.get(((SBP,), at)) == 8 * ng and c.m.get(((SBP,), at + 4)) == 48 + 16 * nx and c.m.get(((SBP,), at + 8)) == ("addr", SBP, 16 + size)
        if not ok:
            K.bad("prolog:va", "gfunc_prolog", "the variable argument list of %s does not start after its named parameters" % what)
        elif not (isinstance(sav, tuple) and sav[0] == "addr" and sav[1] == SBP):
            K.bad("prolog:va:area", "gfunc_prolog", "the variable argument list of %s has no register save area" % what)
        elif [c.m.get(((SBP,), sav[2] + 8 * j)) for j in range(6)] != [("A", j) for j in range(6)] or \
                [c.m.get(((SBP,), sav[2] + 48 + 16 * j)) for j in range(8)] != [("X", j) for j in range(8)]:
            K.bad("prolog:va:saved", "gfunc_prolog", "%s does not save every argument register where va_arg looks for it" % what)
    if env.get(("g", "func_ret_sub"), ("i", 0)) != ("i", 0):
        K.bad("prolog:pop", "gfunc_prolog", "%s removes its arguments from the stack" % what)


def epilogs(K):
    G = K.G
    G.types()
    G.ret, G.pars, G.functype = S["int"], [], 1
    at = START - 0x200
    for loc in (0, -1, -8, -15, -16, -17, -200, -208, -70000):
        env = G.start([{"r": LOCAL, "val": "X"}], PLANS[0], loc=loc)
        env[("g", "func_ret_sub")] = ("i", 0)
        env[("g", "func_sub_sp_offset")] = ("i", at)
        try:
            outs = G.go("gfunc_epilog", {}, env)
        except Lost as e:
            K.lost("gfunc_epilog", e)
            continue
        for env, how in outs:
            K.R.count("epilogs")
            b = bytes_at(env[("log",)])
            if None in b.values():
                K.lost("gfunc_epilog", "byte")
                continue
            tail = tuple(b[k] for k in sorted(b) if k >= START)
            start = min(b)
            head = tuple(b[k] for k in sorted(b) if k < START)
            if K.dry:
                x86.decode(tail)
                x86.decode(head)
                continue
            K.R.obligation()
            if env[("pos",)] != START + len(tail):
                K.bad("epilog:pos", "gfunc_epilog", "code after a function would overwrite its end")
            if start + len(head) != at or not head or [k for k in sorted(b) if k < START] != list(range(start, at)):
                K.bad("epilog:room", "gfunc_epilog", "the entry code of a function does not end where its body begins")
                continue
            if [t for t, _ in x86.decode(tail) or []] != ["leave", "ret"]:
                K.bad("epilog:ret", "gfunc_epilog", "a function does not end by restoring its caller's frame")
            c = Frame({r: ("junk", r) for r in range(16)})
            c.calls = []
            c.r[4], c.r[5] = ("addr", ("reg", 4), -8), ("caller's rbp",)
            try:
                d = x86.decode(head)
                if d is None:
                    raise x86.Unknown("not an instruction")
                c.run(d)
            except x86.Unknown as e:
                K.bad("epilog:entry", "gfunc_epilog", "the entry code of a function: %s" % e)
                continue
            sp = c.r[4]
            if c.r[5] != ("addr", ABI, -16) or c.m.get(((ABI,), -16)) != ("caller's rbp",):
                K.bad("epilog:frame", "gfunc_epilog", "a function does not save its caller's frame pointer and set up its own")
            elif not (isinstance(sp, tuple) and sp[:2] == ("addr", ABI)) or sp[2] % 16 or -sp[2] - 16 < -loc:
                K.bad("epilog:size", "gfunc_epilog", "a function with %d bytes of variables reserves %s" % (-loc, -sp[2] - 16 if isinstance(sp, tuple) and len(sp) > 2 else "?"))
    # the room left by the entry for the code written at the end
    try:
        G.types()
        for env, how in G.go("gfunc_prolog", {0: ("sy", "func")}, G.start([{"r": LOCAL, "val": "X"}], PLANS[0])):
            K.R.obligation()
            off = env.get(("g", "func_sub_sp_offset"))
            if not K.dry and (off is None or off[1] - START != 11 and off[1] - START != len(head)):
                K.bad("prolog:room", "gfunc_prolog", "the room left for the entry code of a function is not its size")
    except Lost as e:
        K.lost("gfunc_prolog", e)


def varargs(K, m):
    """the addresses va_arg hands out for every list of arguments"""
    G = K.G
    f = m.defined.get("__va_arg")
    if f is None or K.dry:
        return
    AREA = 0x20000
    for n, tys in enumerate(sequences()):
        if any(not t.size or t.t == FLOAT for t in tys):
            continue
        where, ng, nx, size = assign(tys)
        for base in (0x30000, 0x30008):
            if base & 8 and any(t.align > 8 for t in tys):
                continue
            mem = {0: ("i32", 0), 4: ("i32", 48), 8: ("ptr", base), 16: ("ptr", AREA)}
            what = "the arguments (%s)" % ", ".join(t.name for t in tys)
            for k, (t, w) in enumerate(zip(tys, where)):
                E = Effects(m, f, "-", exact=2, maxvisit=50)
                E.eager = E.memory = E.keepenv = True
                kind = {"int": 0, "sse": 1}.get(kind_of(t), 2)
                E.params = {0: ("va",), 1: ("i", kind), 2: ("i", t.size), 3: ("i", t.align)}
                env = {("m", ("ptr", ("va",), ("i", o)) if o else ("va",)): (ty, ("i", v)) for o, (ty, v) in mem.items()}
                live = [(ev, how) for c, ev, how in E.paths(0, None, lambda b: False, env=env) if how not in ("dead", "cut")]
                if len(live) != 1 or live[0][1][1][0] != "i":
                    K.lost("__va_arg", "%d ways" % len(live))
                    break
                ev, how = live[0]
                K.R.obligation()
                K.R.count("variable_arguments")
                got = how[1][1]
                if w[0] == "int":
                    want, nm = AREA + 8 * w[1][0], "the save area of the general registers"
                elif w[0] == "sse":
                    want, nm = AREA + 48 + 16 * w[1][0], "the save area of the floating-point registers"
                else:
                    want, nm = base + w[1], "the stack"
                if got != want:
                    K.bad("va_arg:%s:%s" % (w[0], t.name), "__va_arg", "argument %d of %s is not taken from its place in %s" % (k + 1, what, nm), m)
                    break
                if w[0] == "sse" and len(w[1]) == 2:
                    cp = [e for e in ev if e[0] == "call" and "memcpy" in e[1] and e[2][:3] == (("i", got + 8), ("i", got + 16), ("i", 8))]
                    st = [e for e in ev if e[0] == "store" and e[1] == ("i", got + 8)]
                    if not cp and not st:
                        K.bad("va_arg:pair", "__va_arg", "the second half of a structure in two floating-point registers is not put after the first", m)
                fin = ev[-1][1]
                for o, (ty, v) in list(mem.items()):
                    q = fin.get(("m", ("ptr", ("va",), ("i", o)) if o else ("va",)))
                    if q is None or q[1][0] != "i":
                        K.lost("__va_arg", "state")
                        break
                    mem[o] = (ty, q[1][1])


def c45(R, tier):
    R.rules.append("The functions that emit calls, function entries and exits are followed with known argument lists; the bytes they emit "
                   "are decoded and their effect on registers and the stack is compared with the System V assignment of each argument.")
    T = Tree()
    m = focus(T, "tcc", ROOTS, set(), stop=STOP, force=emit.near)
    G = AGen(R, m)
    K = Check(R, G)
    x86.collect = set()
    K.dry = True
    n = (R.counts.copy(), )
    for ph in (classification, calls, prologs, epilogs):
        ph(K)
    todo, x86.collect = x86.collect, None
    x86.decode_all(sorted(todo))
    R.counts.clear()
    R.counts.update(n[0])
    K.dry, K.missing = False, {}
    for ph in (classification, calls, prologs, epilogs):
        ph(K)
    varargs(K, Module(T.dump("rt", passes=emit.PLAIN)))
    R.need(R.counts.get("calls", 0) > 500, "calls followed")
    return K
