"""Evaluation of a function over a finite case: chosen inputs are known, everything else is a symbol.  Calls to
defined functions are followed, branches on unknown conditions are taken both ways, and each way ends in a state
whose memory and log of effects are compared with a reference by the client."""
from .ir import _op
from .effects import known, narrow, evaluate, arith, fold, norm, linear, s64, libname, CMP


class Lost(Exception):
    pass


MASK = (1 << 64) - 1


def bits(t):
    return int(t[1:]) if t and t[0] == "i" and t[1:].isdigit() else 64


def signed(v, n):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> (n - 1) & 1 else v


class Frame:
    __slots__ = ("f", "b", "pr", "i", "regs", "call", "id")

    def copy(self):
        g = Frame()
        g.f, g.b, g.pr, g.i, g.call, g.id = self.f, self.b, self.pr, self.i, self.call, self.id
        g.regs = dict(self.regs)
        return g


class State:
    def __init__(self):
        self.frames, self.mem, self.conds, self.log, self.n, self.serial, self.x = [], {}, (), [], 0, 0, {}

    def copy(self):
        s = State()
        s.frames = [f.copy() for f in self.frames]
        s.mem = {a: dict(o) for a, o in self.mem.items()}
        s.conds, s.log, s.n, s.serial, s.x = self.conds, list(self.log), self.n, self.serial, dict(self.x)
        return s

    # objects: atom -> {offset: (size, value)}
    def put(self, atom, off, size, v):
        o = self.mem.setdefault(atom, {})
        for k in [k for k in range(off - 31, off + size) if k in o and k + o[k][0] > off]:
            n, w = o.pop(k)
            if w[0] == "i" and n <= 8:
                for j in range(n):
                    if not off <= k + j < off + size:
                        o[k + j] = (1, ("i", signed(w[1] >> 8 * j, 8)))
        o[off] = (size, v)

    def get(self, atom, off, size):
        o = self.mem.get(atom)
        if o is None:
            return None
        r = o.get(off)
        if r is not None and r[0] == size:
            return r[1]
        got, need = 0, set(range(off, off + size))
        for k in range(off - 31, off + size):
            if k in o and o[k][1][0] == "i" and o[k][0] <= 8:
                n, w = o[k]
                for j in range(n):
                    if off <= k + j < off + size:
                        got |= (w[1] >> 8 * j & 255) << 8 * (k + j - off)
                        need.discard(k + j)
        if need:
            return None
        return ("i", signed(got, 8 * size)) if size <= 8 else None


class Interp:
    def __init__(self, mod, hooks=None, stop=(), default=None, decide=None, maxsteps=60000, maxstates=400, need=None):
        self.m = mod
        self.hooks = hooks or {}
        self.stop = set(stop)
        self.default = default or (lambda st, atom, off, ty: None)
        self.decide = decide or (lambda c, st: None)
        self.maxsteps, self.maxstates = maxsteps, maxstates
        self.need = need
        self.followed = set()

    # ------------------------------------------------------------------ values
    def place(self, p):
        l = linear(p)
        k = l.pop(1, 0)
        if not l:
            return ("abs",), k
        if len(l) == 1:
            (a, c), = l.items()
            if c == 1:
                return a, k
        return None, 0

    def load(self, st, p, ty):
        a, k = self.place(p)
        if a is None:
            d = self.default(st, p, None, ty)
            return d if d is not None else ("load", p)
        n = size(ty)
        v = st.get(a, k, n)
        if v is None:
            v = self.default(st, a, k, ty)
        if v is None and a[0] == "g":
            v = self.static(a[1], k, ty)
        if v is None:
            v = ("load", ptr(a, k), n)
            if a[0] == "sl":
                v = ("undef",)
        if v[0] == "i" and ty[0] == "i" and ty != "i1":
            v = ("i", signed(v[1], bits(ty)))
        return v

    def static(self, g, k, ty):
        G = self.m.globals.get(g)
        if not G or not G.get("const"):
            return None
        n = size(ty)
        s = G.get("str")
        if s is not None:
            b = bytes.fromhex(s)
            if 0 <= k and k + n <= len(b):
                return ("i", signed(int.from_bytes(b[k:k + n], "little"), 8 * n))
            return None
        at = G.get("at")
        if at is None:
            at = G["at"] = {(off, w): v for off, w, v in G.get("init") or []}
        if (k, n) in at:
            return self.val({}, _op(at[k, n]), None)
        return ("i", 0)

    def val(self, regs, o, fr):
        if not o:
            return ("?",)
        t = o[0]
        if t == "v":
            v = regs.get(o[1])
            return v if v is not None else ("?", o[1])
        if t == "i":
            w = o[2] if len(o) > 2 else 64
            return ("i", o[1] & 1) if w == 1 else ("i", signed(o[1], w))
        if t in ("null", "n"):
            return ("i", 0)
        if t == "g":
            return ("g", o[1])
        if t == "gep":
            return ptr(self.val(regs, o[1], fr), o[2])
        if t == "f" and len(o) > 1:
            return ("bits", o[1])
        if t == "f80":
            return ("bits", (o[1] & (1 << 64) - 1) | o[2] << 64)
        if t == "ce" and len(o) > 2:
            return self.val(regs, o[2], fr)
        return ("?", t)

    def text(self, st, p, limit=4096):
        """the string at an address, if known"""
        a, k = self.place(p)
        if a is None:
            return None
        r = bytearray()
        while len(r) < limit:
            v = st.get(a, k + len(r), 1)
            if v is None:
                v = self.default(st, a, k + len(r), "i8")
            if v is None and a[0] == "g":
                v = self.static(a[1], k + len(r), "i8")
            if v is None or v[0] != "i":
                return None
            if not v[1]:
                return bytes(r)
            r.append(v[1] & 255)
        return None

    def alloc(self, st, tag="heap"):
        st.serial += 1
        return ("ob", tag, st.serial)

    def copy(self, st, dst, src, n):
        a, k = self.place(dst)
        b, j = self.place(src)
        if a is None or b is None:
            raise Lost("copy")
        new, o = [], st.mem.get(b, {})
        off = 0
        while off < n:
            r = o.get(j + off)
            if r is not None and off + r[0] <= n:
                new.append((k + off, r[0], r[1]))
                off += r[0]
                continue
            for w in (8, 4, 2, 1):
                if (j + off) % w or off + w > n or any(j + off + i in o for i in range(1, w)):
                    continue
                v = st.get(b, j + off, w)
                if v is None:
                    v = self.default(st, b, j + off, "i%d" % (8 * w))
                if v is None and b[0] == "g":
                    v = self.static(b[1], j + off, "i%d" % (8 * w))
                if v is not None or w == 1 or r is not None:
                    break
            if v is not None:
                new.append((k + off, w, v))
                off += w
            else:
                new.append((k + off, 1, ("undef",)))
                off += 1
        for x in new:
            st.put(a, *x)

    # ------------------------------------------------------------------ instructions
    def step(self, st, fr, x):
        """the value of a plain instruction"""
        R = fr.regs
        v = lambda k: self.val(R, x.ops[k], fr)
        op = x.op
        if op in ("sext", "zext", "trunc", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            a = v(0)
            src = x.d.get("sty")
            if a[0] == "bits" and op == "bitcast" and x.ty[0] == "i":
                return ("i", a[1])
            if op == "zext" and src and src[0] == "i":
                if src == "i1":
                    return ("i", a[1] & 1) if a[0] == "i" else a
                return narrow("tru", bits(src), a)
            if op == "trunc" and x.ty[0] == "i":
                if x.ty == "i1":
                    return ("i", a[1] & 1) if a[0] == "i" else known(("tru", 1, a))
                return narrow("tr", bits(x.ty), a)
            if op == "sext" and src == "i1" and a[0] == "i":
                return ("i", -(a[1] & 1))
            return a
        if op == "alloca":
            return ("sl", fr.id, x.id)
        if op == "getelementptr":
            b = v(0)
            if x.d.get("bad"):
                return ("?", "gep")
            r = ptr(b, x.d["coff"])
            for sc, o in x.d.get("var") or ():
                d = self.val(R, _op(o), fr)
                if d[0] == "i":
                    r = ptr(r, sc * d[1])
                else:
                    a, k = self.place(r)
                    if a is None:
                        return ("op", "add", r, arith("mul", d, ("i", sc)))
                    r = ("op", "add", arith("mul", d, ("i", sc)), r)
            return r
        if op == "icmp":
            a, b, p = v(0), v(1), x.d.get("pred")
            if p[0] == "u":
                w = bits(x.d.get("oty"))
                if w < 64:
                    a, b = known(("tru", w, a)), known(("tru", w, b))
            return compare(p, a, b)
        if op == "select":
            c = v(0)
            if c[0] == "i":
                return v(1) if c[1] & 1 else v(2)
            a, b = v(1), v(2)
            return a if a == b else ("sel", c, a, b)
        if op in ("add", "sub", "and", "or", "xor", "mul", "shl", "lshr", "ashr", "sdiv", "udiv", "srem", "urem"):
            a, b, w = v(0), v(1), bits(x.ty)
            if w < 64 and op in ("lshr", "udiv", "urem"):
                a, b = known(("tru", w, a)), known(("tru", w, b))
            if a[0] == "i" and b[0] == "i":
                r = evaluate(("op", op, a, b), {})
                if r is None:
                    return ("?", op)
                return ("i", r & 1) if w == 1 else ("i", signed(r, w))
            if w == 64 and op in ("add", "sub"):
                pa, ka = self.place(a)
                pb, kb = self.place(b)
                if op == "sub" and pa is not None and pa == pb:
                    return ("i", ka - kb)
                if b[0] == "i" and pa is not None:
                    return ptr(a, b[1] if op == "add" else -b[1])
                if a[0] == "i" and pb is not None and op == "add":
                    return ptr(b, a[1])
            d = arith(op, a, b)
            return d if w == 1 else narrow("tr", w, d) if op in ("add", "sub", "mul", "shl") and w < 64 else d
        if op == "extractvalue" and x.d.get("idx"):
            a = v(0)
            if a[0] == "agg":
                for k in x.d["idx"]:
                    a = a[1 + k]
                return a
            return ("op", op, a) + tuple(("i", k) for k in x.d["idx"])
        if op in ("fpext", "fptrunc"):
            return ("op", op + x.ty, v(0))
        if op == "fcmp":
            return ("op", "f" + x.d.get("pred", "?"), v(0), v(1))
        return ("op", op) + tuple(v(k) for k in range(len(x.ops)))

    def opty(self, fr, o):
        if o[0] == "v":
            d = fr.f.defs.get(o[1])
            if d is not None:
                return d.ty
            k = fr.f.pidx.get(o[1])
            return fr.f.params[k][1] if k is not None and len(fr.f.params[k]) > 1 else None
        if o[0] == "i":
            return "i%d" % (o[2] if len(o) > 2 else 64)
        return None

    # ------------------------------------------------------------------ running
    def enter(self, st, f, args, call=None):
        if len(st.frames) > 40:
            raise Lost("recursion in %s" % f.name)
        fr = Frame()
        fr.f, fr.b, fr.pr, fr.i, fr.call = f, 0, None, 0, call
        st.serial += 1
        fr.id = st.serial
        fr.regs = {}
        for k, a in enumerate(args):
            if k < len(f.params):
                fr.regs[f.params[k][0]] = a
        st.frames.append(fr)
        self.followed.add(f.name)

    def run(self, fn, args, st=None):
        """[(state, "ret" | "dead" | how, value)] for every way through the function"""
        st = st or State()
        f = self.m.defined.get(fn)
        if f is None:
            raise Lost(fn)
        base = len(st.frames)
        self.enter(st, f, args)
        out, work, total = [], [st], 0
        while work:
            st = work.pop()
            total += 1
            if total > self.maxstates:
                raise Lost("too many ways through %s" % fn)
            while True:
                r = self.advance(st, base)
                if r is None:
                    continue
                if r[0] == "end":
                    out.append((st, r[1], r[2]))
                    break
                work += r[1][1:]
                total += 0
                st = r[1][0]
        return out

    def advance(self, st, base):
        fr = st.frames[-1]
        B = fr.f.blocks[fr.b]
        st.n += 1
        if st.n > self.maxsteps:
            raise Lost("steps in %s" % fr.f.name)
        if fr.i == 0 and fr.pr is not None:
            new = {}
            for x in B.insts:
                if x.op != "phi":
                    break
                for o, p in x.d["inc"]:
                    if p == fr.pr:
                        new[x.id] = self.val(fr.regs, _op(o), fr)
                        break
            fr.regs.update(new)
        insts = B.insts
        while fr.i < len(insts):
            x = insts[fr.i]
            fr.i += 1
            op = x.op
            if op == "phi":
                continue
            if op == "store":
                p = self.val(fr.regs, x.ops[1], fr)
                v = self.val(fr.regs, x.ops[0], fr)
                ty = x.d.get("vty") or "ptr"
                h = self.hooks.get("(store)")
                if h and h(st, p, v, ty, x):
                    continue
                a, k = self.place(p)
                if a is None:
                    st.log.append(("store", p, v))
                else:
                    st.put(a, k, size(ty), v)
            elif op == "load":
                fr.regs[x.id] = self.load(st, self.val(fr.regs, x.ops[0], fr), x.ty)
            elif op == "call" or op in ("cmpxchg", "atomicrmw", "fence") and "(%s)" % op in self.hooks:
                r = self.call(st, fr, x)
                if r is not None:
                    return r
                if st.frames[-1] is not fr:
                    return None
            elif op == "ret":
                v = self.val(fr.regs, x.ops[0], fr) if x.ops else None
                st.frames.pop()
                if len(st.frames) == base:
                    return ("end", "ret", v)
                up = st.frames[-1]
                if fr.call is not None and v is not None:
                    up.regs[fr.call.id] = v
                return None
            elif op == "unreachable":
                return ("end", "dead", None)
            elif op == "br" and len(x.d["succ"]) == 2 and x.ops:
                c = self.val(fr.regs, x.ops[0], fr)
                return self.branch(st, fr, c, x.d["succ"])
            elif op == "switch":
                c = self.val(fr.regs, x.ops[0], fr)
                vals = list(zip(x.d["cases"], x.d["succ"][1:]))
                if c[0] != "i":
                    d = self.decide(c, st)
                    if d is not None:
                        c = ("i", d)
                if c[0] == "i":
                    w = bits(self.opty(fr, x.ops[0]))
                    self.goto(fr, next((s for v, s in vals if (v - c[1]) & (1 << w) - 1 == 0), x.d["succ"][0]))
                    return None
                outs = []
                for v, s in vals + [(None, x.d["succ"][0])]:
                    n = st.copy()
                    n.conds += (norm((fold("eq", c, ("i", v)), True)) if v is not None else (("default", c), True),)
                    self.goto(n.frames[-1], s)
                    outs.append(n)
                return ("fork", outs)
            elif op == "br":
                self.goto(fr, x.d["succ"][0])
                return None
            else:
                fr.regs[x.id] = self.step(st, fr, x)
        raise Lost("fell off a block of %s" % fr.f.name)

    def goto(self, fr, s):
        fr.pr, fr.b, fr.i = fr.b, s, 0

    def branch(self, st, fr, c, succ):
        if c[0] == "i":
            self.goto(fr, succ[0 if c[1] & 1 else 1])
            return None
        lit = norm((c, True))
        if lit[0][0] == "i":
            t = bool(lit[0][1]) == lit[1]
        elif lit in st.conds:
            t = True
        elif (lit[0], not lit[1]) in st.conds:
            t = False
        else:
            d = self.decide(lit[0], st)
            t = None if d is None else bool(d) == lit[1]
        if t is not None:
            self.goto(fr, succ[0 if t else 1])
            return None
        k = ("forks", fr.id, fr.b)
        st.x[k] = st.x.get(k, 0) + 1
        if st.x[k] > 12:
            raise Lost("a loop of unknown length in %s" % fr.f.name)
        n = st.copy()
        n.conds += ((lit[0], not lit[1]),)
        self.goto(n.frames[-1], succ[1])
        st.conds += (lit,)
        self.goto(fr, succ[0])
        return ("fork", [st, n])

    def call(self, st, fr, x):
        args = [self.val(fr.regs, o, fr) for o in x.ops]
        name = libname(x.callee) if x.callee else None
        if x.op != "call":
            name = "(%s)" % x.op
        elif x.d.get("fptr") and x.d["fptr"][0][0] == "asm":
            name = "(asm)"
        elif name is None or name == "?":
            t = self.val(fr.regs, _op(x.d["fptr"][0]), fr) if x.d.get("fptr") else ("?",)
            name = t[1] if t[0] == "g" else "?"
            if name == "?":
                args = [t] + args
        h = self.hooks.get(name)
        if h is None and name.startswith("llvm."):
            h = getattr(self, "x_" + name.split(".")[1], None)
            if h is None:
                fr.regs[x.id] = ("?", name)
                return None
        if h is None and name not in self.m.defined:
            h = getattr(self, "x_" + name, None)
        if h is not None:
            if name.startswith("llvm.fsh"):
                args.append(("i", bits(x.ty)))
            r = h(st, args, x) if not getattr(h, "__self__", None) is self else h(st, args)
            if isinstance(r, tuple) and r and r[0] == "end":
                return r
            if isinstance(r, list):                     # alternatives: (value, literal)
                outs = []
                for v, lit, *then in r:                 # and what else happens in that case
                    n = st.copy() if len(r) > 1 else st
                    if lit:
                        n.conds += (lit,)
                    n.frames[-1].regs[x.id] = v
                    for t in then:
                        t(n)
                    outs.append(n)
                return ("fork", outs)
            if r is not None:
                fr.regs[x.id] = r
            return None
        f = self.m.defined.get(x.callee) or self.m.defined.get(name)
        if f is not None and name not in self.stop:
            self.enter(st, f, args, x)
            return None
        st.serial += 1
        st.log.append((name,) + tuple(args))
        fr.regs[x.id] = ("call", name, st.serial)
        return None

    # ------------------------------------------------------------------ library functions
    def num(self, v, what):
        if v[0] != "i":
            raise Lost(what)
        return v[1]

    def x_memcpy(self, st, a):
        self.copy(st, a[0], a[1], self.num(a[2], "memcpy length"))
        return a[0]
    x_memmove = x_memcpy

    def x_memset(self, st, a):
        o, k = self.place(a[0])
        n = self.num(a[2], "memset length")
        if o is None:
            raise Lost("memset")
        if n > 1 << 16:
            raise Lost("memset size")
        c = self.num(a[1], "memset") & 255
        off = 0
        while off < n:
            w = 8 if off + 8 <= n and (k + off) % 8 == 0 else 1
            st.put(o, k + off, w, ("i", signed(int.from_bytes(bytes([c]) * w, "little"), 8 * w)))
            off += w
        return a[0]

    def x_malloc(self, st, a):
        return self.alloc(st)

    def x_strlen(self, st, a):
        t = self.text(st, a[0])
        return ("i", len(t)) if t is not None else ("call", "strlen", a[0])

    def x_strcmp(self, st, a):
        s, t = self.text(st, a[0]), self.text(st, a[1])
        if s is None or t is None:
            return ("call", "strcmp", a[0], a[1])
        return ("i", (s > t) - (s < t))

    def x_strncmp(self, st, a):
        s, t = self.text(st, a[0]), self.text(st, a[1])
        if s is None or t is None or a[2][0] != "i":
            return ("call", "strncmp", a[0], a[1], a[2])
        s, t = s[:a[2][1]], t[:a[2][1]]
        return ("i", (s > t) - (s < t))

    def x_memcmp(self, st, a):
        r = []
        for p in a[:2]:
            o, k = self.place(p)
            b = []
            for j in range(self.num(a[2], "memcmp length")):
                v = self.load(st, ptr(o, k + j), "i8") if o is not None else ("?",)
                if v[0] != "i":
                    return ("call", "memcmp", a[0], a[1], a[2])
                b.append(v[1] & 255)
            r.append(b)
        return ("i", (r[0] > r[1]) - (r[0] < r[1]))
    x_bcmp = x_memcmp

    def x_strchr(self, st, a):
        s = self.text(st, a[0])
        if s is None or a[1][0] != "i":
            return ("call", "strchr", a[0], a[1])
        k = (s + b"\0").find(bytes([a[1][1] & 255]))
        return ("i", 0) if k < 0 else ptr(a[0], k)

    def x_strcpy(self, st, a):
        s = self.text(st, a[1])
        if s is None:
            raise Lost("strcpy")
        o, k = self.place(a[0])
        for i, c in enumerate(s + b"\0"):
            st.put(o, k + i, 1, ("i", signed(c, 8)))
        return a[0]

    def x_fshl(self, st, a, left=True):
        if any(t[0] != "i" for t in a[:3]):
            return ("?", "funnel shift")
        w = a[3][1]
        k = a[2][1] % w
        v = (a[0][1] & (1 << w) - 1) << w | a[1][1] & (1 << w) - 1
        return ("i", signed(v >> (w - k if left else k), w))

    def x_fshr(self, st, a):
        return self.x_fshl(st, a, False)

    def x_lifetime(self, st, a):
        return None
    x_dbg = x_lifetime


def size(ty):
    if ty[0] == "i":
        return (bits(ty) + 7) // 8
    return {"ptr": 8, "float": 4, "double": 8, "x86_fp80": 16}.get(ty, 8)


def ptr(b, k):
    if not k:
        return b
    if b[0] == "i":
        return ("i", b[1] + k)
    if b[0] == "ptr" and b[2][0] == "i":
        k += b[2][1]
        return ("ptr", b[1], ("i", k)) if k else b[1]
    return ("ptr", b, ("i", k))


OBJ = ("ob", "g", "sl", "sy")


def compare(p, a, b):
    """compare addresses within and between objects; the rest as numbers"""
    def obj(t):
        if t[0] == "ptr":
            return t[1], t[2][1]
        return t, 0
    if a[0] in OBJ + ("ptr",) or b[0] in OBJ + ("ptr",):
        (x, i), (y, j) = obj(a), obj(b)
        if x[0] in OBJ and x == y:
            return fold(p, ("i", i), ("i", j))
        if p in ("eq", "ne") and (x[0] in OBJ and y[0] in OBJ or x[0] in OBJ and b == ("i", 0) or y[0] in OBJ and a == ("i", 0)):
            return ("i", int(p == "ne"))
    return fold(p, a, b)


class Cases:
    """runs a family of cases and reports what they show"""
    def __init__(self, R, m):
        self.R, self.m, self.seen, self.missing, self.n = R, m, set(), {}, 0

    def bad(self, key, fn, what):
        if key in self.seen:
            return
        self.seen.add(key)
        f = self.m.defined.get(fn)
        self.R.violation(key, "%s:%s" % (f.file if f else "?", getattr(f, "line", "") or fn), "meaning of " + fn, what)

    def run(self, fn, args, st=None, **kw):
        self.n += 1
        self.R.count("cases")
        try:
            if fn not in self.m.defined:
                raise Lost("no " + fn)
            kw["hooks"] = dict({"_tcc_error_noabort": lambda st, a, x: st.log.append(("_tcc_error_noabort",) + tuple(a)) or ("i", -1)},
                               **kw.get("hooks", {}))
            I = Interp(self.m, **kw)
            r = I.run(fn, args, st)
            self.R.count("ways", len(r))
            return r
        except Lost as e:
            self.R.count("not_followed")
            k = (fn, str(e))
            self.missing[k] = self.missing.get(k, 0) + 1
            return None

    def done(self, part=0.5):
        if self.missing:
            self.R.notes += ["not followed: %s: %s (%d cases)" % (f, e, n) for (f, e), n in sorted(self.missing.items())]
        self.R.need(self.R.counts.get("not_followed", 0) <= part * self.n, "cases followed (%s)" % list(self.missing)[:3])
