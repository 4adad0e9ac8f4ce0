"""C52: atomic operations take effect in one step and do what their names say."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from sa.build import Tree, REPO, CLANG, tool
from sa.ir import Module
from sa.effects import evaluate
from sa.interp import Interp, State, Lost, ptr, signed, size, bits

OPS = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "and": lambda a, b: a & b, "or": lambda a, b: a | b,
       "xor": lambda a, b: a ^ b, "nand": lambda a, b: ~(a & b)}
RMW = ["%s_fetch" % o for o in OPS] + ["fetch_%s" % o for o in OPS]
SIZES = (1, 2, 4, 8)
ATOM, REF, VAL = ("sy", "atom"), ("sy", "ref"), ("sy", "value")
ORDER = ("sy", "order")
POINTS = [0, 1, 2, 3, 5, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000,
          0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0x123456789abcdef0, 0xfedcba9876543210, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa]


# ---------------------------------------------------------------------- inline assembly
def asm_statements(text):
    return [re.sub(r"\s+", " ", t).strip() for t in re.split(r"[\n;]", text) if t.strip()]


def asm_meaning(x, args):
    """what an inline assembly statement does to the shared object: ("cas", place, width, expected, new) with the old
    value as its result, ("xchg", ...), ("fence",) or None"""
    _, text, cons = x.d["fptr"][0]
    st = asm_statements(text)
    lock = False
    if st and st[0] == "lock":
        st, lock = st[1:], True
    if st and st[0].startswith("lock "):
        st[0], lock = st[0][5:].strip(), True
    if len(st) != 1:
        return None
    m = re.match(r"(\w+)(?: (.*))?$", st[0])
    op, rest = m.group(1), m.group(2) or ""
    if op == "mfence":
        return ("fence",)
    m = re.match(r"(or|add|and|xor|sub)([bwlq])? \$\$?(-?\w+), ?(-?\d*)\(%[er]sp\)$", st[0])
    if m:
        if not lock:
            return ("unlocked " + m.group(1),)
        if int(m.group(3), 0) == 0 and m.group(1) in ("or", "add", "xor", "sub") or m.group(1) == "and" and int(m.group(3), 0) == -1:
            return ("fence",)
        return ("writes the stack",)
    # operands: outputs first; indirect outputs also have an argument
    ops, k = [], 0
    for c in cons.split(","):
        if c.startswith("~"):
            continue
        d = {"c": c, "out": c.startswith("="), "ind": "*" in c, "v": None}
        if not d["out"] or d["ind"]:
            d["v"] = args[k] if k < len(args) else None
            k += 1
        ops.append(d)
    refs = [r.strip() for r in rest.split(",")]

    def operand(r):
        m = re.match(r"\$(?:\{)?(\d+)(?::\w)?\}?$", r)
        return ops[int(m.group(1))] if m and int(m.group(1)) < len(ops) else None
    mem = "memory" in cons
    if op.rstrip("bwlq") in ("cmpxchg", "xchg") and len(refs) == 2:
        a, b = operand(refs[0]), operand(refs[1])
        if a is None or b is None:
            return None
        if op.rstrip("bwlq") == "xchg" and a["ind"]:
            a, b = b, a
        if not b["ind"] or a["ind"]:
            return None
        sfx = op[len(op.rstrip("bwlq")):]
        ety = None
        for q, t in zip(args, x.d.get("atys", [])):
            if q is a["v"] and t[0] == "i":
                ety = bits(t) // 8
        w = {"b": 1, "w": 2, "l": 4, "q": 8}[sfx] if sfx else ety
        if op.rstrip("bwlq") == "xchg":
            return ("xchg", b["v"], w, None, a["v"], True, mem)
        outs = [i for i, o in enumerate(ops) if o["out"] and not o["ind"]]
        if len(outs) != 1 or "ax" not in ops[outs[0]]["c"]:
            return None
        exp = [o["v"] for o in ops if not o["out"] and (o["c"].strip("=&") == str(outs[0]) or o["c"] == "{ax}")]
        if len(exp) != 1:
            return None
        return ("cas", b["v"], w, exp[0], a["v"], lock, mem)
    return None


# ---------------------------------------------------------------------- following the accesses to one shared object
def plain(t):
    while isinstance(t, tuple) and t and (t[0] in ("tr", "tru") or t[0] == "op" and t[1] in ("zext", "sext", "trunc")):
        t = t[2]
    return t


class Shared:
    """follows a function and notes every access to the object ATOM; other threads may change the object between any two
    of them, so every access that reads gives a fresh value"""
    def __init__(self, m, tries=2, extra=None):
        self.m, self.tries, self.extra = m, tries, extra or {}

    def fresh(self, st):
        k = st.x["reads"] = st.x.get("reads", 0) + 1
        return ("sy", "read%d" % k)

    def paths(self, fn, args):
        def default(st, a, k, ty):
            if a == ATOM:
                v = self.fresh(st)
                st.log.append(("load", size(ty), k, v))
                return v
            if a == REF and k == 0:
                st.log.append(("ref", size(ty)))
                return ("sy", "expected")
            return None

        def store(st, p, v, ty, x):
            a, k = I.place(p)
            if a == ATOM:
                st.log.append(("store", size(ty), k, v))
            elif a is None:
                raise Lost("a store to an unknown place")
            return a == ATOM

        def cas(st, p, w, exp, new, lock, shape):
            if I.place(p) != (ATOM, 0):
                raise Lost("compare and exchange of something else")
            n = st.x["cas"] = st.x.get("cas", 0) + 1
            if n > self.tries:
                return ("end", "cut", None)
            old = self.fresh(st)
            if exp[0] != "sy" and plain(exp)[0] != "sy":
                raise Lost("expected value %r" % (exp,))

            def yes(s):
                s.log.append(("cas", w, exp, new, lock))

            def no(s):
                s.log.append(("failed", w, exp, old, lock))
                s.x["differs"] = s.x.get("differs", ()) + ((plain(old), plain(exp)),)
            return [(shape(exp, 1), None, yes), (shape(old, 0), None, no)]

        def cmpxchg(st, a, x):
            return cas(st, a[0], size(x.d["vty"]), a[1], a[2], True, lambda old, ok: ("agg", old, ("i", ok)))

        def rmw(st, a, x):
            if I.place(a[0]) != (ATOM, 0):
                raise Lost("read-modify-write of something else")
            v = self.fresh(st)
            st.log.append(("rmw", x.d.get("rmw"), size(x.d["vty"]), a[1], v))
            return v

        def asm(st, a, x):
            r = asm_meaning(x, a)
            if r is None:
                raise Lost("inline assembly %r" % x.d["fptr"][0][1])
            if r[0] == "cas":
                return cas(st, r[1], r[2], r[3], r[4], r[5], lambda old, ok: old)
            if r[0] == "xchg":
                if I.place(r[1]) != (ATOM, 0):
                    raise Lost("exchange of something else")
                v = self.fresh(st)
                st.log.append(("rmw", "xchg", r[2], r[4], v))
                return v
            st.log.append(r)
            return ("i", 0)

        def fence(st, a, x):
            st.log.append(("fence",))
            return ("i", 0)

        def decide(c, st):
            if c[0] == "op" and c[1] in ("eq", "ne"):
                a, b = plain(c[2]), plain(c[3])
                if a == b:
                    return int(c[1] == "eq")
                if (a, b) in st.x.get("differs", ()) or (b, a) in st.x.get("differs", ()):
                    return int(c[1] == "ne")
            return None
        hooks = {"(store)": store, "(cmpxchg)": cmpxchg, "(atomicrmw)": rmw, "(fence)": fence, "(asm)": asm}
        for n in ("__atomic_thread_fence", "__tcc_atomic_thread_fence"):
            if n != fn and "__tcc_atomic_thread_fence" in self.m.defined:
                hooks[n] = fence
        hooks.update(self.extra)
        I = Interp(self.m, hooks=hooks, default=default, decide=decide)
        if fn not in self.m.defined:
            raise Lost("no definition")
        out = []
        for st, how, v in I.run(fn, args, State()):
            if how == "ret":
                c = v
                if c is not None and c[0] == "op" and c[1] in ("eq", "ne"):
                    d = decide(c, st)
                    v = ("i", d) if d is not None else v
                out.append((st, v))
            elif how != "cut":
                raise Lost("ends otherwise")
        return out


def same(d, ref, w):
    """do two expressions over the value read and the operand agree in their low w bytes?"""
    n = 8 * w
    for a in POINTS:
        for b in POINTS[::3]:
            g = {}
            for k in range(9):
                g[("sy", "read%d" % k)] = signed(a + 977 * k, n)
            g[VAL], g[("sy", "expected")] = signed(b, n), signed(a ^ b, n)
            x, y = evaluate(d, g), evaluate(ref, g) if isinstance(ref, tuple) else ref(g)
            if x is None or y is None:
                return None
            if (x ^ y) & ((1 << n) - 1):
                return False
    return True


class Runtime:
    def __init__(self, R, m):
        self.R, self.m, self.S, self.lost, self.seen = R, m, Shared(m), [], set()

    def bad(self, fn, kind, what):
        if (fn, kind) not in self.seen:
            self.seen.add((fn, kind))
            f = self.m.defined.get(fn)
            self.R.violation("%s/%s" % (fn, kind), "%s:%s" % (f.file if f else "lib/tinycc/lib/stdatomic.c", fn), kind, what)

    def every(self, fn, args, judge):
        try:
            ps = self.S.paths(fn, args)
            self.R.count("paths", len(ps))
            for st, v in ps:
                r = judge(st.log, v, st)
                self.R.obligation(ok=not r)
                if r:
                    self.bad(fn, r[0], r[1])
            if not ps:
                raise Lost("no way through")
            self.R.count("functions")
        except Lost as e:
            self.lost.append("%s: %s" % (fn, e))

    def run(self):
        for w in SIZES:
            self.every("__atomic_store_%d" % w, [ATOM, VAL, ORDER], lambda log, v, st: self.store(log, w))
            self.every("__atomic_load_%d" % w, [ATOM, ORDER], lambda log, v, st: self.load(log, v, w))
            self.every("__atomic_exchange_%d" % w, [ATOM, VAL, ORDER], lambda log, v, st: self.rmw(log, v, w, None, True))
            for n in RMW:
                o = n.replace("_fetch", "").replace("fetch_", "")
                self.every("__atomic_%s_%d" % (n, w), [ATOM, VAL, ORDER], lambda log, v, st: self.rmw(log, v, w, OPS[o], n.startswith("fetch")))
            self.every("__atomic_compare_exchange_%d" % w, [ATOM, REF, VAL, ("sy", "weak"), ORDER, ORDER],
                       lambda log, v, st: self.cas(log, v, w, st))
        for n in ("__tcc_atomic_thread_fence", "__atomic_thread_fence"):
            if n in self.m.defined:
                self.every(n, [ORDER], lambda log, v, st: None if ("fence",) in log and not [e for e in log if e[0] != "fence"] else
                           ("fence", "the thread fence does not order earlier stores before later loads: %s" % log))
        for n in ("__tcc_atomic_is_lock_free", "__atomic_is_lock_free"):
            if n in self.m.defined:
                for k in list(range(0, 33)) + [64]:
                    self.every(n, [("i", k), ATOM], lambda log, v, st: None if v == ("i", int(k in SIZES)) else
                               ("lock-free", "__atomic_is_lock_free(%d) is %r" % (k, v)))

    def store(self, log, w):
        acc = [e for e in log if e[0] != "fence"]
        if len(acc) != 1 or acc[0][0] not in ("store", "rmw"):
            return "access", "the store is not one access: %s" % acc
        e = acc[0]
        if e[0] == "store":
            if e[1] != w or e[2]:
                return "width", "%d bytes are stored at %d, not %d" % (e[1], e[2], w)
            if same(e[3], VAL, w) is not True:
                return "value", "what is stored is %r" % (e[3],)
            if ("fence",) not in log[log.index(e):]:
                return "order", "nothing keeps later accesses behind the store"
        elif e[1] != "xchg" or e[2] != w or same(e[3], VAL, w) is not True:
            return "value", "the store is %r" % (e,)

    def load(self, log, v, w):
        acc = [e for e in log if e[0] != "fence"]
        if len(acc) != 1 or acc[0][0] != "load" or acc[0][1] != w or acc[0][2]:
            return "access", "the load is not one access of %d bytes: %s" % (w, acc)
        if same(v, acc[0][3], w) is not True:
            return "value", "what is returned is %r, not the value read" % (v,)

    def rmw(self, log, v, w, op, old):
        acc = [e for e in log if e[0] != "fence"]
        if not acc:
            return "access", "the object is not accessed"
        last = acc[-1]
        if any(e[0] not in ("load", "failed") for e in acc[:-1]) or last[0] not in ("cas", "rmw"):
            return "access", "the change is not made by one indivisible access: %s" % ", ".join(e[0] for e in acc)
        if any(e[1] != w for e in acc if e[0] != "rmw") or any(e[2] for e in acc if e[0] == "load"):
            return "width", "an access is not of %d bytes: %s" % (w, acc)
        if last[0] == "rmw":
            k, new, was = last[1], last[3], last[4]
            if last[2] != w or k != ("xchg" if op is None else next(n for n in OPS if OPS[n] is op)):
                return "meaning", "the access is %s of %d bytes" % (k, last[2])
            if same(new, VAL, w) is not True:
                return "meaning", "the operand is %r" % (new,)
        else:
            if not all(e[4] for e in acc if e[0] in ("cas", "failed")):
                return "lock", "the compare and exchange is not locked"
            was, new = last[2], last[3]
            ref = VAL if op is None else lambda g: op(evaluate(was, g), g[VAL])
            if same(new, ref, w) is not True:
                return "meaning", "the object becomes %r" % (new,)
        want = was if old else (lambda g: op(evaluate(was, g), g[VAL])) if op else VAL
        if same(v, want, w) is not True:
            return "result", "the result is %r" % (v,)

    def cas(self, log, v, w, st):
        acc = [e for e in log if e[0] not in ("fence", "ref")]
        if [e for e in acc if e[0] not in ("cas", "failed")] or not acc or any(e[0] == "cas" for e in acc[:-1]):
            return "access", "the exchange is not one indivisible access: %s" % ", ".join(e[0] for e in acc)
        if any(e[1] != w for e in acc):
            return "width", "%d bytes are compared and exchanged, not %d" % (acc[-1][1], w)
        if not all(e[4] for e in acc):
            return "lock", "the compare and exchange is not locked"
        if any(plain(e[2]) != ("sy", "expected") for e in acc) or any(e[1] != w for e in log if e[0] == "ref"):
            return "expected", "what is compared is %r" % (acc[-1][2],)
        ok = acc[-1][0] == "cas"
        if ok and same(acc[-1][3], VAL, w) is not True:
            return "meaning", "the object becomes %r" % (acc[-1][3],)
        if v != ("i", int(ok)):
            return "result", "the result is %r when the exchange %s" % (v, "is made" if ok else "fails")
        left = dict(st.mem.get(REF, {}))
        if ok and left and left != {0: (w, ("sy", "expected"))}:
            return "expected-written", "after success the expected value is changed: %r" % left
        if not ok and (set(left) != {0} or left[0][0] != w or plain(left[0][1]) != acc[-1][3]):
            return "expected-written", "after failure the expected value is not the one found: %r" % left


# ---------------------------------------------------------------------- what the compiler makes of the built-in functions
BUILTINS = ["store", "load", "exchange", "compare_exchange"] + RMW
PARAMS = {"store": "alm", "load": "asm", "exchange": "alsm", "compare_exchange": "aplbmm"}


class Parsed:
    """follows the parser of the __atomic_* functions with the value stack in memory"""
    def __init__(self, R, T, m):
        self.R, self.m, mac = R, m, T.macros()
        self.seen, self.lost, self.n = set(), [], 0
        f = m.field_off
        self.k = {n: mac.get(n) for n in ("VT_VOID", "VT_BYTE", "VT_SHORT", "VT_INT", "VT_LLONG", "VT_PTR", "VT_FUNC", "VT_STRUCT", "VT_FLOAT", "VT_DOUBLE",
                                          "VT_LDOUBLE", "VT_BOOL", "VT_BTYPE", "VT_UNSIGNED", "VT_LONG", "VT_LVAL", "VT_LOCAL", "VT_CONST", "VT_VALMASK",
                                          "VT_LLOCAL", "VT_MUSTCAST")}
        self.sv = {n: f("SValue", n) for n in ("type", "r", "r2", "sym", "c")}
        self.sv["c"] = 24 if self.sv["c"] is None else self.sv["c"]
        self.size = m.structs["SValue"]["size"]
        self.sy = {n: f("Sym", n) for n in ("type", "c", "r")}
        self.vst = next((n for n in ("_vstack", "vstack") if n in m.globals), None)
        if None in self.k.values() or None in self.sy.values() or self.vst is None:
            raise Lost("constants or fields")
        k = self.k
        U = k["VT_UNSIGNED"]
        # name, type word, size, integer?
        self.types = [("signed char", k["VT_BYTE"], 1, 1), ("unsigned char", k["VT_BYTE"] | U, 1, 1), ("short", k["VT_SHORT"], 2, 1),
                      ("unsigned short", k["VT_SHORT"] | U, 2, 1), ("int", k["VT_INT"], 4, 1), ("unsigned", k["VT_INT"] | U, 4, 1),
                      ("long", k["VT_LLONG"] | k["VT_LONG"], 8, 1), ("unsigned long long", k["VT_LLONG"] | U, 8, 1), ("_Bool", k["VT_BOOL"], 1, 2),
                      ("pointer", k["VT_PTR"], 8, 2), ("float", k["VT_FLOAT"], 4, 0), ("double", k["VT_DOUBLE"], 8, 0),
                      ("struct of 1", k["VT_STRUCT"], 1, 0), ("struct of 2", k["VT_STRUCT"], 2, 0), ("struct of 4", k["VT_STRUCT"], 4, 0),
                      ("struct of 8", k["VT_STRUCT"], 8, 0)]
        self.refused = [("struct of 3", k["VT_STRUCT"], 3, 0), ("struct of 16", k["VT_STRUCT"], 16, 0), ("long double", k["VT_LDOUBLE"], 16, 0)]

    def bad(self, what, kind, text):
        if (what, kind) not in self.seen:
            self.seen.add((what, kind))
            self.R.violation("parse_atomic/%s/%s" % (what, kind), "lib/tinycc/tccgen.c:parse_atomic", kind, text)

    def intsize(self, t):
        k = self.k
        return {k["VT_BYTE"]: 1, k["VT_BOOL"]: 1, k["VT_SHORT"]: 2, k["VT_INT"]: 4, k["VT_LLONG"]: 8, k["VT_PTR"]: 8}.get(t & k["VT_BTYPE"])

    def base(self, t):
        return t & (self.k["VT_BTYPE"] | self.k["VT_UNSIGNED"])

    def put_type(self, st, o, off, ty):
        """a type; for structures and pointers with what it refers to"""
        st.put(o, off, 4, ("i", ty[1]))
        ref = ("i", 0)
        if ty[1] & self.k["VT_BTYPE"] == self.k["VT_STRUCT"]:
            ref = ("ob", "struct", ty[2])
            st.put(ref, self.sy["c"], 4, ("i", ty[2]))
            st.put(ref, self.sy["r"], 4, ("i", 1))
        elif ty[0].startswith("to "):
            ref = ("ob", ty[0])
            self.put_type(st, ref, self.sy["type"], ty[4])
        elif ty[1] & self.k["VT_BTYPE"] == self.k["VT_PTR"]:
            ref = ("ob", "pointee")
            st.put(ref, self.sy["type"], 4, ("i", self.k["VT_VOID"]))
        st.put(o, off + 8, 8, ref)

    def to(self, ty):
        return ("to " + ty[0], self.k["VT_PTR"], 8, 0, ty)

    def run(self, name, args, form):
        """args: types of the arguments; form 0: the pointers are addresses of variables, 1: held in variables, 2: already in registers"""
        k, sv, S = self.k, self.sv, self.size
        V = ("g", self.vst)

        def top(st):
            v = st.get(("g", "vtop"), 0, 8)
            o, off = I.place(v)
            if o != V:
                raise Lost("the value stack")
            return off

        def rd(st, off, f, n):
            v = st.get(V, off + sv[f], n)
            return v

        def num(st, off, f, n):
            v = rd(st, off, f, n)
            if v is None or v[0] != "i":
                raise Lost("field %s of a value" % f)
            return v[1] & ((1 << 8 * n) - 1)

        def push(st, ty, r, tag):
            off = top(st) + S
            st.put(("g", "vtop"), 0, 8, ptr(V, off))
            for b in range(0, S, 8):
                st.put(V, off + b, 8, ("i", 0))
            self.put_type(st, V, off + sv["type"], ty)
            st.put(V, off + sv["r"], 2, ("i", r))
            st.put(V, off + sv["r2"], 2, ("i", k["VT_CONST"]))
            st.put(V, off + sv["c"], 8, tag)

        def expr(st, a, x):
            n = st.x["n"]
            if n >= len(args):
                return ("end", "error", "more arguments")
            st.x["n"] = n + 1
            ty = args[n]
            r = k["VT_LOCAL"] | k["VT_LVAL"]
            if ty[0].startswith("to "):
                r = (k["VT_LOCAL"], k["VT_LOCAL"] | k["VT_LVAL"], 1 + n % 2)[form]
            push(st, ty, r, ("sy", "e%d" % n))

        def indir(st, a, x):
            t = top(st)
            if num(st, t, "type", 4) & k["VT_BTYPE"] != k["VT_PTR"]:
                return ("end", "error", "pointer")
            r = num(st, t, "r", 2)
            if r & k["VT_LVAL"]:
                r = 1
            ref = st.get(V, t + sv["type"] + 8, 8)
            I.copy(st, ptr(V, t + sv["type"]), ptr(ref, self.sy["type"]), 16)
            st.put(V, t + sv["r"], 2, ("i", r | k["VT_LVAL"]))
            st.put(V, t + sv["c"], 8, ("deref", rd(st, t, "c", 8)))

        def cast(st, a, x):
            t = top(st)
            o, off = I.place(a[0])
            new = st.get(o, off, 4) if o is not None else None
            if new is None and o == ("g", "int_type"):
                new = ("i", k["VT_INT"])
            if new is None or new[0] != "i":
                raise Lost("target type of a cast")
            old, r = num(st, t, "type", 4), num(st, t, "r", 2)
            tag = rd(st, t, "c", 8)
            must = bool(r & k["VT_MUSTCAST"])
            if (o, off) != (V, t + sv["type"]):
                I.copy(st, ptr(V, t + sv["type"]), a[0], 16)
            st.put(V, t + sv["type"], 4, new)
            if r & k["VT_VALMASK"] < k["VT_CONST"]:
                st.put(V, t + sv["r"], 2, ("i", r & ~k["VT_MUSTCAST"] & 0xffff))
            if self.base(old) != self.base(new[1]) or must:
                st.put(V, t + sv["c"], 8, ("cast", old, new[1], must, tag))

        def helper(st, a, x):
            t = st.x.get("text", {}).get(a[0])
            push(st, ("func", k["VT_FUNC"], 0, 0), k["VT_CONST"], ("func", t))

        def sprintf(st, a, x):
            fmt = I.text(st, a[1])
            if fmt is None:
                raise Lost("format of the name")
            rest, it = "", iter(a[2:])
            for p in re.split(r"(%[ds])", fmt.decode()):
                if p == "%d":
                    v = next(it)
                    rest += str(I.num(v, "number in the name"))
                elif p == "%s":
                    v = next(it)
                    t = st.x.get("text", {}).get(v) or (I.text(st, v) or b"?").decode()
                    rest += t
                else:
                    rest += p
            st.x["text"] = dict(st.x.get("text", {}))
            st.x["text"][a[0]] = rest
            return ("i", len(rest))

        def snprintf(st, a, x):
            return sprintf(st, [a[0]] + list(a[2:]), x)

        def tokalloc(st, a, x):
            t = st.x.get("text", {}).get(a[0])
            if t is None:
                raise Lost("name of the helper")
            v = ("sy", "tok " + t)
            st.x["text"] = dict(st.x["text"])
            st.x["text"][v] = t
            return v

        def tokstr(st, a, x):
            return ("sy", "name") if a[0] == ("i", self.tok(name)) else ("sy", "othername")

        def call(st, a, x):
            n = I.num(a[0], "number of arguments")
            t = top(st)
            offs = [t - S * (n - j) for j in range(n + 1)]
            if offs[0] < st.x["base"] + S:
                return ("end", "error", "stack underflow")
            st.log.append(("call", rd(st, offs[0], "c", 8), [(rd(st, o, "c", 8), num(st, o, "type", 4), num(st, o, "r", 2)) for o in offs[1:]]))
            off = offs[0] - S
            st.put(("g", "vtop"), 0, 8, ptr(V, off))
            while off > st.x["base"]:                   # what stays on the stack is saved from the registers
                r = num(st, off, "r", 2)
                if r & k["VT_VALMASK"] < k["VT_CONST"]:
                    st.put(V, off + sv["r"], 2, ("i", k["VT_LLOCAL"] | k["VT_LVAL"] if r & k["VT_LVAL"] else k["VT_LOCAL"] | k["VT_LVAL"]))
                off -= S

        def vstore(st, a, x):
            t = top(st)
            d = t - S
            st.log.append(("store", rd(st, d, "c", 8), num(st, d, "type", 4), num(st, d, "r", 2), rd(st, t, "c", 8), num(st, t, "type", 4), num(st, t, "r", 2)))
            I.copy(st, ptr(V, d), ptr(V, t), S)
            st.put(("g", "vtop"), 0, 8, ptr(V, d))

        def err(st, a, x):
            return ("end", "error", None)
        none = lambda st, a, x: ("i", 0)

        def default(st, a, off, ty):
            if a[0] == "g" and not self.m.globals.get(a[1], {}).get("const"):
                return ("i", 0)
            if a[0] == "ob":
                return ("i", 0)
            return None
        I = Interp(self.m, default=default, maxsteps=20000, maxstates=20,
                   hooks={"next": none, "skip": none, "expr_eq": expr, "indir": indir, "gen_assign_cast": cast, "gen_cast": cast, "vpush_helper_func": helper,
                          "sprintf": sprintf, "snprintf": snprintf, "tok_alloc_const": tokalloc, "get_tok_str": tokstr, "gfunc_call": call, "vstore": vstore,
                          "_tcc_error": err, "expect": err, "_tcc_warning": none, "save_regs": none, "vcheck_cmp": none})
        st = State()
        st.put(("g", "vtop"), 0, 8, ptr(V, 4 * S))
        st.put(("g", "int_type"), 0, 4, ("i", k["VT_INT"]))
        st.x.update(n=0, base=4 * S, text={("sy", "name"): "__atomic_" + name, ("sy", "othername"): "?"})
        self.n += 1
        r = I.run("parse_atomic", [("i", self.tok(name))], st)
        if len(r) != 1:
            raise Lost("the way through depends on %s" % [s.conds[-1:] for s, _, _ in r][:2])
        st, how, v = r[0]
        if how != "ret":
            return None
        t = top(st)
        return st.log, (t - 4 * S) // S, (rd(st, t, "c", 8), num(st, t, "type", 4), num(st, t, "r", 2))

    def tok(self, name):
        return self.m.enums["TOK___atomic_" + name]

    # what a value on the stack is: (argument or "result", clean?)
    def strip(self, tag, t, w):
        """follows conversions between integers of the same size; ("e1" | ("deref", "e1") | "result", ok)"""
        ok = self.intsize(t) == w
        while tag[0] == "cast":
            _, old, new, must, tag = tag
            ok = ok and self.intsize(new) == w and self.intsize(old) == w
        return tag, ok

    def judge(self, name, ty, args, form):
        k = self.k
        r = self.run(name, args, form)
        w = ty[2]
        what = "%s of %s" % (name, ty[0])
        if r is None:
            return "refused", "%s is refused" % what
        log, depth, last = r
        if depth != 1:
            return "stack", "%s leaves %d values" % (what, depth)
        calls = [e for e in log if e[0] == "call"]
        if len(calls) != 1:
            return "call", "%s makes %d calls" % (what, len(calls))
        _, fn, av = calls[0]
        if fn != ("func", "__atomic_%s_%d" % (name, w)):
            return "helper", "%s of %d bytes calls %s" % (what, w, fn[1] if fn and fn[0] == "func" else "something else")
        par = PARAMS.get(name, "avm")
        want = [(j, p) for j, p in enumerate(par) if p != "s"]
        if len(av) != len(want):
            return "arguments", "%s passes %d arguments" % (what, len(av))
        for (tag, t, reg), (j, p) in zip(av, want):
            e = ("sy", "e%d" % j)
            if p in "ap":
                tag, ok = self.strip(tag, t, 8)
                if tag != e or not ok:
                    return "arguments", "%s: argument %d is not the pointer given" % (what, j + 1)
            elif p == "l":
                tag, ok = self.strip(tag, t, w)
                if tag != ("deref", e):
                    return "arguments", "%s: argument %d is not the object pointed to" % (what, j + 1)
                if not ok:
                    return "representation", "%s: the value is passed as type %#x, but the function takes an integer of %d bytes" % (what, t, w)
            elif p == "v":
                given = args[j]
                if self.base(t) != self.base(ty[1]) and not (tag[0] == "cast" and self.base(tag[2]) == self.base(ty[1])):
                    return "operand", "%s: the operand is passed as type %#x" % (what, t)
                src = tag
                while src[0] == "cast":
                    src = src[4]
                if src != e:
                    return "arguments", "%s: argument %d is not the operand given" % (what, j + 1)
                c, cur = [], tag
                while cur[0] == "cast":
                    c.append(cur[2])
                    cur = cur[4]
                if given[3] == 0 and (not c or self.base(c[-1]) != self.base(ty[1])):
                    return "operand", "%s: a floating operand is not converted to the object's type" % what
            else:
                src = tag
                while src[0] == "cast":
                    src = src[4]
                if src != e or self.intsize(t) is None:
                    return "arguments", "%s: argument %d is not passed" % (what, j + 1)
        stores = [e for e in log if e[0] == "store"]
        if "s" in par:
            j = par.index("s")
            if len(stores) != 1:
                return "result", "%s stores its result %d times" % (what, len(stores))
            _, dt, dty, dr, vt, vty, vr = stores[0]
            if log.index(stores[0]) < log.index(calls[0]):
                return "result", "%s stores before the call" % what
            if dt != ("deref", ("sy", "e%d" % j)) or not dr & k["VT_LVAL"]:
                return "result", "%s does not store its result through argument %d" % (what, j + 1)
            if dr & k["VT_VALMASK"] < k["VT_CONST"]:
                return "clobbered", "%s keeps the pointer of argument %d in a register across the call" % (what, j + 1)
            last = (vt, vty, vr)
            if self.intsize(dty) != w:
                return "representation", "%s: the result is stored as type %#x" % (what, dty)
        elif stores:
            return "result", "%s stores something" % what
        if name == "store":
            return None
        tag, t, reg = last
        clean = False
        while tag[0] == "cast":
            _, old, new, must, tag = tag
            rank = lambda q: (self.intsize(q) or 0)
            clean = clean or must or rank(old) > rank(new)
        if tag != ("i", 0):
            return "result", "%s: the result is not what the call returns" % what
        rt = ty[1] if name != "compare_exchange" else k["VT_BOOL"]
        rw = w if name != "compare_exchange" else 1
        if self.intsize(t) != rw or reg & k["VT_VALMASK"] != 0:
            return "representation", "%s: the result is read as type %#x in register %d, but the function returns an integer of %d bytes" % (
                what, t, reg & k["VT_VALMASK"], rw)
        if "s" not in par:
            if ty[3] and self.base(t) != self.base(rt):
                return "result", "%s: the result has type %#x" % (what, t)
            if rw < 4 and not clean:
                return "extension", "%s: the upper bits of the result are not set" % what
        return None

    def all(self):
        k = self.k
        I = ("int", k["VT_INT"], 4, 1)
        for name in BUILTINS:
            for ty in self.types:
                par = PARAMS.get(name, "avm")
                refused = name in RMW and ty[3] != 1
                if refused and ty[0] == "_Bool":
                    continue
                for form in range(3):
                    for operand in [I] if "v" not in par else [I, ("signed char", k["VT_BYTE"], 1, 1), ("double", k["VT_DOUBLE"], 8, 0),
                                                               ("long", k["VT_LLONG"], 8, 1)]:
                        args = [{"a": self.to(ty), "l": self.to(ty), "s": self.to(ty), "p": self.to(ty), "v": operand, "m": I, "b": I}[p] for p in par]
                        self.case(name, ty, args, form, refused)
            for ty in self.refused:
                par = PARAMS.get(name, "avm")
                args = [self.to(ty) if p in "alsp" else I for p in par]
                self.case(name, ty, args, 0, True)
            args = [I if p in "av" else self.to(I) if p in "lsp" else I for p in PARAMS.get(name, "avm")]
            self.case(name, ("no pointer", 0, 0, 0), args, 0, True)
        small = [self.to(self.types[4]), self.to(self.types[0]), self.to(self.types[4]), I, I, I]
        self.case("compare_exchange", ("int, expected char", k["VT_INT"], 4, 1), small, 0, True)

    def case(self, name, ty, args, form, refused):
        try:
            if refused:
                r = self.run(name, args, form)
                r = None if r is None else ("accepted", "%s of %s is accepted" % (name, ty[0]))
            else:
                r = self.judge(name, ty, args, form)
            self.R.count("calls_compiled")
            self.R.obligation(ok=not r)
            if r:
                self.bad("%s/%s" % (name if name not in RMW else "fetch", "raw" if not ty[3] else "integer"), r[0], r[1])
        except Lost as e:
            self.lost.append("%s of %s: %s" % (name, ty[0], e))


# ---------------------------------------------------------------------- the header
TYPES = {"bool": "_Bool", "char": "char", "schar": "signed char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short", "int": "int",
         "uint": "unsigned int", "long": "long", "ulong": "unsigned long", "llong": "long long", "ullong": "unsigned long long",
         "char16_t": "uint_least16_t", "char32_t": "uint_least32_t", "wchar_t": "wchar_t", "intptr_t": "intptr_t", "uintptr_t": "uintptr_t",
         "size_t": "size_t", "ptrdiff_t": "ptrdiff_t", "intmax_t": "intmax_t", "uintmax_t": "uintmax_t"}
for _p in ("int_least", "uint_least", "int_fast", "uint_fast"):
    for _n in (8, 16, 32, 64):
        TYPES["%s%d_t" % (_p, _n)] = "%s%d_t" % (_p, _n)
WORDS = {1: "signed char", 2: "short", 4: "int", 8: "long"}
OWN = ("thread_fence", "signal_fence", "is_lock_free", "test_and_set", "clear")
SC, RX = "memory_order_seq_cst", "memory_order_relaxed"


class Header:
    """expands the macros of <stdatomic.h> over operands that are calls, and follows what they do to the object"""
    def __init__(self, R, T):
        self.R, self.T, self.lost, self.n = R, T, [], 0
        self.fns = []
        g = self.fns.append
        for w, t in WORDS.items():
            def fn(name, expr, kind, ret=True, order=None):
                self.fns.append(("probe_%s_%d" % (name, w), "%s probe_%s_%d(void) { %s%s; }" % (t if ret is True else ret or "void", name, w, "return " if ret else "", expr),
                                 name, w, kind))
            p, e, v = "P%d()" % w, "E%d()" % w, "V%d()" % w
            fn("atomic_init", "atomic_init(%s, %s)" % (p, v), "store", None)
            fn("atomic_store", "atomic_store(%s, %s)" % (p, v), "store", None)
            fn("atomic_store_explicit", "atomic_store_explicit(%s, %s, %s)" % (p, v, RX), "store", None)
            fn("atomic_load", "atomic_load(%s)" % p, "load")
            fn("atomic_load_explicit", "atomic_load_explicit(%s, %s)" % (p, SC), "load")
            fn("atomic_exchange", "atomic_exchange(%s, %s)" % (p, v), "exchange")
            fn("atomic_exchange_explicit", "atomic_exchange_explicit(%s, %s, %s)" % (p, v, SC), "exchange")
            for s in ("strong", "weak"):
                fn("atomic_compare_exchange_" + s, "atomic_compare_exchange_%s(%s, %s, %s)" % (s, p, e, v), "cas", "bool")
                fn("atomic_compare_exchange_%s_explicit" % s, "atomic_compare_exchange_%s_explicit(%s, %s, %s, %s, %s)" % (s, p, e, v, SC, RX), "cas", "bool")
            for o in ("add", "sub", "or", "xor", "and"):
                fn("atomic_fetch_" + o, "atomic_fetch_%s(%s, %s)" % (o, p, v), o)
                fn("atomic_fetch_%s_explicit" % o, "atomic_fetch_%s_explicit(%s, %s, %s)" % (o, p, v, SC), o)
            fn("atomic_is_lock_free", "atomic_is_lock_free(%s)" % p, "free", "bool")
        for s in ("", "_explicit"):
            x = ", " + SC if s else ""
            g(("probe_tas" + s, "bool probe_tas%s(void) { return atomic_flag_test_and_set%s(F()%s); }" % (s, s, x), "atomic_flag_test_and_set" + s, 1, "tas"))
            g(("probe_clear" + s, "void probe_clear%s(void) { atomic_flag_clear%s(F()%s); }" % (s, s, x), "atomic_flag_clear" + s, 1, "clear"))
        g(("probe_tf", "void probe_tf(void) { atomic_thread_fence(%s); }" % SC, "atomic_thread_fence", 0, "fence"))

    def bad(self, name, kind, what):
        self.R.violation("stdatomic.h/%s/%s" % (name, kind), "lib/tinycc/include/stdatomic.h:%s" % name, kind, what)

    def clang(self, d, src, *opts):
        f = os.path.join(d, "p.c")
        with open(f, "w") as h:
            h.write(src)
        return subprocess.run([CLANG, "-std=gnu17", "-w", "-Wno-error", "-nostdlibinc", "-isystem", os.path.join(REPO, "lib/tinycc/include"), "-isystem",
                               "/usr/include", "-isystem", "/usr/include/x86_64-linux-gnu"] + ["-D__atomic_%s=rt_%s" % (n, n) for n in OWN] + list(opts) + [f], stdout=subprocess.PIPE, stderr=subprocess.PIPE)

    def run(self):
        d = tempfile.mkdtemp(prefix="cjit-at-")
        try:
            self.follow(d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def follow(self, d):
        pre = "#include <stdatomic.h>\n#include <stdint.h>\n#include <stddef.h>\n#include <stdbool.h>\n"
        src = pre + "".join("%s *P%d(void), *E%d(void), V%d(void);\n" % (t, w, w, w) for w, t in WORDS.items()) + "atomic_flag *F(void);\n" + \
            "\n".join(f[1] for f in self.fns) + "\n"
        bc, js = os.path.join(d, "p.bc"), os.path.join(d, "p.json")
        r = self.clang(d, src, "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-discard-value-names", "-emit-llvm", "-c", "-o", bc)
        if r.returncode:
            # a macro that is not there or does not compile
            bad = sorted(set(re.findall(r"p\.c:(\d+):", r.stderr.decode())), key=int)
            self.R.notes.append(r.stderr.decode()[:300])
            first = src.split("\n")[int(bad[0]) - 1] if bad else "?"
            m = re.search(r"\b(atomic_\w+)\(", first)
            self.bad(m.group(1) if m else "header", "expansion", "does not compile: " + first[:120])
            return
        subprocess.run([tool(), "-p", self.T.BASE, "-o", js, bc], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        with open(js) as f:
            m = Module(json.load(f))
        J = Runtime(self.R, m)
        for fn, text, name, w, kind in self.fns:
            self.n += 1
            try:
                self.probe(m, J, fn, name, w, kind)
            except Lost as e:
                self.lost.append("%s: %s" % (name, e))
        # the variables the expansions declare must not be ones a program may use in the operands
        r = self.clang(d, src, "-fsyntax-only", "-Xclang", "-ast-dump=json")
        mine = {f[0]: f[2] for f in self.fns}
        if r.returncode == 0:
            names = {}

            def walk(n, fn):
                if n.get("kind") == "FunctionDecl":
                    fn = mine.get(n.get("name"))
                if n.get("kind") in ("VarDecl", "LabelDecl", "TypedefDecl", "EnumConstantDecl", "RecordDecl") and fn and n.get("name"):
                    names.setdefault(n["name"], set()).add(fn)
                for c in n.get("inner", []) or []:
                    walk(c, fn)
            walk(json.loads(r.stdout), None)
            for v, fns in sorted(names.items()):
                ok = bool(re.match(r"_[_A-Z]", v))
                self.R.obligation(ok=ok)
                if not ok:
                    self.bad(sorted(fns)[0], "capture", "the expansion declares %s, which hides a variable of that name in the operands (also %s)" % (v, ", ".join(sorted(fns)[1:6])))
            self.R.count("names_declared", len(names))
        else:
            self.lost.append("names declared by the expansions")
        # the types
        asserts = ['_Static_assert(__builtin_types_compatible_p(atomic_%s, _Atomic(%s)), "%s");' % (n, t, n) for n, t in TYPES.items()]
        asserts += ['_Static_assert(memory_order_%s == %d, "order %s");' % (n, k, n) for k, n in enumerate(("relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"))]
        r = self.clang(d, pre + "\n".join(asserts) + "\n", "-fsyntax-only")
        err = re.findall(r'error: (.*)', r.stderr.decode())
        self.R.obligation(ok=True, n=len(asserts) - len(err))
        for e in err[:20]:
            t = re.search(r": (\w[\w ]*)$", e) or re.search(r"'(\w+)'", e)
            self.bad(t.group(1) if t else "types", "type", "the type or constant is not the one C11 names: " + e[:150])

    def probe(self, m, J, fn, name, w, kind):
        obj = {"P%d" % w: ATOM, "E%d" % w: REF, "V%d" % w: VAL, "F": ATOM}
        S = Shared(m, extra={n: (lambda st, a, x, n=n, v=v: st.log.append(("operand", n)) or v) for n, v in obj.items()})
        for n in OWN:
            S.extra["rt_" + n] = lambda st, a, x, n=n: st.log.append((n,) + tuple(a)) or ("sy", "result")
        need = {"store": "PV", "load": "P", "exchange": "PV", "cas": "PEV", "tas": "F", "clear": "F", "free": "P", "fence": ""}.get(kind, "PV")
        for st, v in S.paths(fn, []):
            ops = sorted(e[1][0] for e in st.log if e[0] == "operand")
            log = [e for e in st.log if e[0] != "operand"]
            r = None
            if ops != sorted(need):
                r = ("operands", "the operands are evaluated as %s, not once each" % "".join(ops))
            elif kind == "store":
                r = J.store(log, w)
                r = None if r and r[0] == "order" else r
            elif kind == "load":
                r = J.load(log, v, w)
            elif kind == "exchange":
                r = J.rmw(log, v, w, None, True)
            elif kind == "cas":
                r = J.cas(log, v, w, st)
            else:
                want = {"free": [("is_lock_free", ("i", w), ATOM)], "tas": [("test_and_set", ATOM)], "clear": [("clear", ATOM)], "fence": [("thread_fence",)]}.get(kind)
                if want:
                    r = None if [e[:len(want[0])] for e in log] == want else ("meaning", "the accesses are %s" % (log,))
                    if not r and kind == "tas" and plain(v) != ("sy", "result"):
                        r = ("result", "the result is %r" % (v,))
                else:
                    r = J.rmw(log, v, w, OPS[kind], True)
            self.R.obligation(ok=not r)
            if r:
                self.bad(name, r[0], "%s of %d bytes: %s" % (name, w, r[1]))
        self.R.count("macros_expanded")


# ---------------------------------------------------------------------- the assembly
def flags(R):
    """__atomic_test_and_set and __atomic_clear of atomic.S"""
    lost = []
    d = tempfile.mkdtemp(prefix="cjit-at-")
    try:
        o = os.path.join(d, "a.o")
        subprocess.run([CLANG, "-c", "-w", os.path.join(REPO, "lib/tinycc/lib/atomic.S"), "-o", o], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        text = subprocess.run([os.path.join(os.path.dirname(CLANG), "llvm-objdump"), "-d", "--no-show-raw-insn", "-M", "intel", o], check=True,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE).stdout.decode()
    except (OSError, subprocess.CalledProcessError) as e:
        return ["atomic.S: %s" % e]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    code = {}
    for line in text.splitlines():
        m = re.match(r"\w+ <(\w+)>:$", line)
        if m:
            cur = code.setdefault(m.group(1), [])
        m = re.match(r"\s*[0-9a-f]+:\s+(.*?)\s*(?:#.*)?$", line)
        if m:
            cur.append(re.sub(r"\s+", " ", m.group(1)))
    sub = {"al": ("a", 1), "ax": ("a", 2), "eax": ("a", 4), "rax": ("a", 8), "cl": ("c", 1), "ecx": ("c", 4), "dl": ("d", 1), "edx": ("d", 4), "rcx": ("c", 8),
           "rdx": ("d", 8), "sil": ("si", 1), "esi": ("si", 4)}
    for fn, want in (("__atomic_test_and_set", 1), ("__atomic_clear", 0)):
        try:
            if fn not in code:
                raise Lost("no " + fn)
            reg, acc, ret = {}, [], False
            for ins in code[fn]:
                ins = re.sub(r"^lock ", "", ins)
                m = re.match(r"(\w+)(?: (.*))?$", ins)
                op, ar = m.group(1), [a.strip() for a in (m.group(2) or "").split(",")] if m.group(2) else []
                place = r"(?:(byte|word|dword|qword) ptr )?\[rdi\]$"
                if op in ("nop", "endbr64", "mfence"):
                    continue
                if op in ("ret", "retq"):
                    ret = True
                    break
                if op == "mov" and ar[0] in sub and re.match(r"-?(0x)?[0-9a-f]+$", ar[1]):
                    n, w = sub[ar[0]]
                    reg[n] = (int(ar[1], 0) & ((1 << 8 * w) - 1), w)
                elif op == "xor" and ar[0] in sub and ar[0] == ar[1]:
                    reg[sub[ar[0]][0]] = (0, sub[ar[0]][1])
                elif op == "xchg" and any(re.match(place, a) for a in ar):
                    r = next(a for a in ar if a in sub)
                    n, w = sub[r]
                    v, vw = reg.get(n, (None, 0))
                    acc.append(("xchg", w, v))
                    reg[n] = ("old", w)
                elif op == "mov" and re.match(place, ar[0]):
                    p = re.match(place, ar[0]).group(1)
                    if ar[1] in sub:
                        n, w = sub[ar[1]]
                        acc.append(("mov", w, reg.get(n, (None, 0))[0]))
                    else:
                        acc.append(("mov", {"byte": 1, "word": 2, "dword": 4, "qword": 8}[p], int(ar[1], 0)))
                elif op == "mov" and len(ar) > 1 and re.match(place, ar[1]) and ar[0] in sub:
                    n, w = sub[ar[0]]
                    acc.append(("read", w, None))
                    reg[n] = ("old", w)
                elif op == "movzx" and ar[1] in sub and ar[0] in sub:
                    reg[sub[ar[0]][0]] = reg.get(sub[ar[1]][0], (None, 0))
                else:
                    raise Lost("%s: %s" % (fn, ins))
            if not ret:
                raise Lost(fn + " does not return")
            R.count("functions")
            if want:
                ok = acc == [("xchg", 1, 1)] and reg.get("a", (0,))[0] == "old"
            else:
                ok = len(acc) == 1 and acc[0][0] in ("xchg", "mov") and acc[0][1:] == (1, 0)
            R.obligation(ok=ok)
            if not ok:
                R.violation("%s/meaning" % fn, "lib/tinycc/lib/atomic.S:" + fn, "meaning", "%s makes the accesses %s" % (fn, acc))
        except Lost as e:
            lost.append("atomic.S: %s" % e)
    return lost


def c52(R, tier):
    T = Tree()
    R.rules = ["every run-time function changes the object in one locked compare-and-exchange from the value it read, to the value its name says, and returns the "
               "value its name says, whatever other threads write in between; loads and stores are one access of the object's size",
               "every call of an __atomic_* function is compiled into the run-time function of that name and size with the operands in its order and "
               "representation, and its result is stored or extended as C says; objects it cannot handle are refused",
               "every macro of <stdatomic.h> evaluates its operands once, declares only reserved names, and performs the operation it names",
               "no helper the compiler may call is missing"]
    R.assume = ["compare-and-exchange fails only when the values differ, as on x86-64", "a sample of operand values tells expressions over two operands apart"]
    rt = Module(T.dump("rt"))
    A = Runtime(R, rt)
    A.run()
    P = Parsed(R, T, Module(T.dump("tcc")))
    P.all()
    H = Header(R, T)
    H.run()
    extra = flags(R)
    for n in BUILTINS:
        for w in SIZES:
            ok = "__atomic_%s_%d" % (n, w) in rt.defined
            R.obligation(ok=ok)
            if not ok:
                R.violation("__atomic_%s_%d/missing" % (n, w), "lib/tinycc/lib/stdatomic.c", "missing", "the compiler calls __atomic_%s_%d, which nothing defines" % (n, w))
    R.notes += ["not followed: " + e for e in A.lost + P.lost + H.lost + extra]
    R.floor("functions", 20, "run-time functions followed")
    R.need(len(A.lost) <= 8, "the run-time functions (%s)" % A.lost[:3])
    R.need(2 * len(P.lost) <= P.n, "the compiler's calls (%s)" % P.lost[:3])
    R.need(2 * len(H.lost) <= H.n, "the macros (%s)" % H.lost[:3])
