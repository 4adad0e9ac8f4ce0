"""C47: statements and expressions run in the order, and as often, as C prescribes."""
import itertools
import re
from concurrent.futures import ProcessPoolExecutor
from sa.build import Tree
from sa.ir import Module
from sa.interp import Lost
from sa.lower import Lower, words

M32 = 1 << 32


def i32(v):
    v &= M32 - 1
    return v - M32 if v >> 31 else v


class Need(Exception):
    pass


class Spin(Exception):
    pass


class Bad(Exception):
    pass


def arith(op, a, b):
    a, b = i32(a), i32(b)
    if op == "+":
        return i32(a + b)
    if op == "-":
        return i32(a - b)
    if op == "*":
        return i32(a * b)
    if op in "/%":
        if b == 0 or (b == -1 and a == -1 << 31):
            return 0x5e5e5e
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return i32(q) if op == "/" else i32(a - q * b)
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op == "<<":
        return i32(a << (b & 31))
    if op == ">>":
        return a >> (b & 31)
    if op in ("==", "!=", "<", "<=", ">", ">="):
        return int({"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op])
    raise Bad(op)


# ---------------------------------------------------------------------- the language: parser and meaning
LEVELS = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", "<=", ">", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]
ASSIGN = ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>=")


class Parse:
    def __init__(self, text):
        self.t, self.i = words(text), 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def take(self, w=None):
        x = self.peek()
        if w is not None and x != w:
            raise Bad("expected %s at %s" % (w, self.t[self.i:]))
        self.i += 1
        return x

    def comma(self):
        e = self.assign()
        while self.peek() == ",":
            self.take()
            e = ("comma", e, self.assign())
        return e

    def assign(self):
        e = self.cond()
        if self.peek() in ASSIGN:
            op = self.take()
            return ("assign", op[:-1], e, self.assign())
        return e

    def cond(self):
        e = self.binary(0)
        if self.peek() == "?":
            self.take()
            a = None if self.peek() == ":" else self.comma()
            self.take(":")
            return ("cond", e, a, self.cond())
        return e

    def binary(self, l):
        if l == len(LEVELS):
            return self.unary()
        e = self.binary(l + 1)
        while self.peek() in LEVELS[l]:
            op = self.take()
            e = ("bin", op, e, self.binary(l + 1))
        return e

    def unary(self):
        w = self.peek()
        if w in ("!", "-", "~", "+"):
            self.take()
            return ("un", w, self.unary())
        if w in ("++", "--"):
            self.take()
            return ("assign", w[0], self.unary(), ("num", 1))
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while self.peek() in ("++", "--"):
            e = ("post", self.take()[0], e)
        return e

    def primary(self):
        w = self.take()
        if w == "(":
            if self.peek() == "{":
                s = self.statement()
                self.take(")")
                return ("stmt", s)
            e = self.comma()
            self.take(")")
            return e
        if re.fullmatch(r"E\d+", w):
            return ("call", int(w[1:]))
        if re.fullmatch(r"V\d+", w):
            return ("var", int(w[1:]))
        if w.isdigit():
            return ("num", int(w))
        raise Bad("primary " + w)

    def constant(self):
        return const(self.cond())

    def statement(self):
        w = self.peek()
        if w == "{":
            self.take()
            out = []
            while self.peek() != "}":
                out.append(self.statement())
            self.take()
            return ("block", out)
        if w == ";":
            self.take()
            return ("block", [])
        if w in ("if", "while", "switch"):
            self.take()
            self.take("(")
            e = self.comma()
            self.take(")")
            s = self.statement()
            if w == "if":
                t = None
                if self.peek() == "else":
                    self.take()
                    t = self.statement()
                return ("if", e, s, t)
            return (w, e, s)
        if w == "do":
            self.take()
            s = self.statement()
            self.take("while")
            self.take("(")
            e = self.comma()
            self.take(")")
            self.take(";")
            return ("do", s, e)
        if w == "for":
            self.take()
            self.take("(")
            d = None
            if re.fullmatch(r"[CA]\d+", self.peek()):
                d = self.statement()
                a = None
            else:
                a = None if self.peek() == ";" else self.comma()
                self.take(";")
            b = None if self.peek() == ";" else self.comma()
            self.take(";")
            c = None if self.peek() == ")" else self.comma()
            self.take(")")
            return ("for", d, a, b, c, self.statement())
        if w in ("break", "continue"):
            self.take()
            self.take(";")
            return (w,)
        if w == "return":
            self.take()
            e = None if self.peek() == ";" else self.comma()
            self.take(";")
            return ("return", e)
        if w == "goto":
            self.take()
            l = self.take()
            self.take(";")
            return ("goto", l)
        if w == "case":
            self.take()
            a = self.constant()
            b = a
            if self.peek() == "...":
                self.take()
                b = self.constant()
            self.take(":")
            return ("case", a, b, self.after_label())
        if w == "default":
            self.take()
            self.take(":")
            return ("case", None, None, self.after_label())
        if re.fullmatch(r"L\d+", w) and self.peek(1) == ":":
            self.take()
            self.take()
            return ("label", w, self.after_label())
        if re.fullmatch(r"[CA]\d+", w):
            self.take()
            self.take(";")
            return ("decl", w[0], int(w[1:]))
        e = self.comma()
        self.take(";")
        return ("expr", e)

    def after_label(self):
        return ("block", []) if self.peek() == "}" else self.statement()


def const(e):
    if e[0] == "num":
        return i32(e[1])
    if e[0] == "un":
        v = const(e[2])
        return {"-": i32(-v), "!": int(not v), "~": ~v, "+": v}[e[1]]
    if e[0] == "bin":
        return arith(e[1], const(e[2]), const(e[3]))
    raise Bad("constant")


class Meaning:
    """the program as a graph of steps; scopes carry cleanups and arrays"""
    def __init__(self, text):
        self.code, self.labels, self.fix, self.n = [], {}, [], 0
        self.tree = Parse(text).statement()
        self.stmt(self.tree, (), None, None, None)
        self.code.append(("end",))
        for at, lab, frm in self.fix:
            if lab not in self.labels:
                raise Bad("label")
            to, scope = self.labels[lab]
            self.code[at] = ("jump", to, leaving(frm, scope), arrays(scope))

    def put(self, *x):
        self.code.append(x)
        return len(self.code) - 1

    def stmt(self, s, sc, brk, cont, sw):
        """sc: the declarations in force, as a tuple of (scope id, kind, name)"""
        k = s[0]
        C = self.code
        if k == "block":
            self.n += 1
            me, here = self.n, sc
            for x in s[1]:
                if x[0] == "decl":
                    here = here + ((me, x[1], x[2]),)
                    self.put("decl", x[1], x[2])
                else:
                    y = x
                    self.stmt(y, here, brk, cont, sw)
            if here != sc:
                self.put("jump", len(C) + 1, leaving(here, sc), arrays(sc))
        elif k == "expr":
            self.put("eval", s[1])
        elif k == "if":
            b = self.put("?")
            self.stmt(s[2], sc, brk, cont, sw)
            if s[3] is None:
                C[b] = ("test", s[1], b + 1, len(C))
            else:
                j = self.put("?")
                C[b] = ("test", s[1], b + 1, len(C))
                self.stmt(s[3], sc, brk, cont, sw)
                C[j] = ("jump", len(C), (), arrays(sc))
        elif k in ("while", "do", "for"):
            d, a, t, c, body = {"while": lambda: (None, None, s[1], None, s[2]), "do": lambda: (None, None, s[2], None, s[1]),
                                "for": lambda: s[1:]}[k]()
            inner = sc
            if d is not None:
                self.n += 1
                inner = sc + ((self.n, d[1], d[2]),)
                self.put("decl", d[1], d[2])
            if a is not None:
                self.put("eval", a)
            B, N = [], []
            top = len(C)
            if k != "do":
                b = self.put("?") if t is not None else None
            self.stmt(body, inner, (B, inner), (N, inner), sw)
            here = len(C)
            if k == "do":
                self.put("test", t, top, len(C) + 1)
            else:
                if c is not None:
                    self.put("eval", c)
                self.put("jump", top, (), arrays(inner))
            end = len(C)
            if k != "do" and b is not None:
                C[b] = ("test", t, b + 1, end)
            for lst, to in ((B, end), (N, here)):
                for at, frm in lst:
                    C[at] = ("jump", to, leaving(frm, inner), arrays(inner))
            if inner != sc:
                self.put("jump", len(C) + 1, leaving(inner, sc), arrays(sc))
        elif k == "switch":
            B, cases = [], []
            b = self.put("?")
            self.stmt(s[2], sc, (B, sc), cont, cases)
            end = len(C)
            dflt = [at for lo, hi, at in cases if lo is None]
            C[b] = ("switch", s[1], [c for c in cases if c[0] is not None], dflt[0] if dflt else end)
            for at, frm in B:
                C[at] = ("jump", end, leaving(frm, sc), arrays(sc))
        elif k == "case":
            sw.append((s[1], s[2], len(C)))
            self.put("here", arrays(sc))
            self.stmt(s[3], sc, brk, cont, sw)
        elif k in ("break", "continue"):
            (brk if k == "break" else cont)[0].append((self.put("?"), sc))
        elif k == "return":
            self.put("return", s[1], leaving(sc, ()))
        elif k == "goto":
            self.fix.append((self.put("?"), s[1], sc))
        elif k == "label":
            self.labels[s[1]] = (len(C), sc)
            self.put("here", arrays(sc))
            self.stmt(s[2], sc, brk, cont, sw)
        else:
            raise Bad(k)


def leaving(frm, to):
    """the cleanups run when control goes from declarations frm to declarations to"""
    n = 0
    while n < len(frm) and n < len(to) and frm[n] == to[n]:
        n += 1
    return tuple(d[2] for d in reversed(frm[n:]) if d[1] == "C")


def arrays(sc):
    return tuple(d[2] for d in sc if d[1] == "A")


class RefRun:
    def __init__(self, prog, oracle):
        self.p, self.o, self.k = prog, oracle, 0
        self.trace, self.var, self.sp = [], {}, ()

    def call(self, k):
        if self.k >= len(self.o):
            self.trace.append(("next", k, self.sp, self.vars()))
            raise Need(k)
        v = self.o[self.k]
        self.k += 1
        self.trace.append(("call", k, self.sp, self.vars()))
        return v

    def vars(self):
        return tuple(sorted((a, b) for a, b in self.var.items() if b != init(a)))

    def get(self, v):
        return self.var.get(v, init(v))

    def ev(self, e):
        k = e[0]
        if k == "num":
            return i32(e[1])
        if k == "call":
            return self.call(e[1])
        if k == "var":
            return self.get(e[1])
        if k == "comma":
            self.ev(e[1])
            return self.ev(e[2])
        if k == "bin":
            if e[1] == "&&":
                return int(bool(self.ev(e[2]) and self.ev(e[3])))
            if e[1] == "||":
                return int(bool(self.ev(e[2]) or self.ev(e[3])))
            a = self.ev(e[2])
            return arith(e[1], a, self.ev(e[3]))
        if k == "un":
            v = self.ev(e[2])
            return {"-": i32(-v), "!": int(not v), "~": i32(~v), "+": v}[e[1]]
        if k == "cond":
            c = self.ev(e[1])
            return self.ev(e[3]) if not c else c if e[2] is None else self.ev(e[2])
        if k == "assign":
            if e[2][0] != "var":
                raise Bad("assignment")
            r = self.ev(e[3])
            if e[1]:
                r = arith(e[1], self.get(e[2][1]), r)
            self.var[e[2][1]] = i32(r)
            return i32(r)
        if k == "post":
            v = self.get(e[2][1])
            self.var[e[2][1]] = arith(e[1], v, 1)
            return v
        if k == "stmt":
            v = 0
            for s in e[1][1]:
                if s[0] != "expr":
                    raise Bad("statement expression")
                v = self.ev(s[1])
            return v
        raise Bad(k)

    def clean(self, names):
        for n in names:
            self.trace.append(("cleanup", n))

    def run(self):
        pc, steps = 0, 0
        try:
            while True:
                steps += 1
                if steps > 400:
                    self.trace.append(("spin",))
                    return self.trace
                x = self.p.code[pc]
                k = x[0]
                pc += 1
                if k == "end":
                    self.trace.append(("end", self.vars()))
                    return self.trace
                if k == "eval":
                    self.ev(x[1])
                elif k == "test":
                    pc = x[2] if self.ev(x[1]) else x[3]
                elif k == "jump":
                    self.clean(x[2])
                    pc, self.sp = x[1], x[3]
                elif k == "here":
                    self.sp = x[1]
                elif k == "decl":
                    if x[1] == "C":
                        self.trace.append(("init", x[2]))
                    else:
                        self.sp = self.sp + (x[2],)
                elif k == "return":
                    v = self.ev(x[1]) if x[1] is not None else None
                    self.clean(x[2])
                    self.trace.append(("return", v, self.vars()))
                    return self.trace
                elif k == "switch":
                    v = self.ev(x[1])
                    pc = next((at for lo, hi, at in x[2] if lo <= v <= hi), x[3])
                else:
                    raise Bad(k)
        except Need as e:
            return self.trace


def init(v):
    return 100 + 7 * v


class MachRun:
    """the emitted instructions"""
    def __init__(self, L, ev, to, oracle, tail=None):
        self.L, self.ev, self.to, self.o, self.k, self.tail = L, ev, to, oracle, 0, tail
        self.trace, self.mem, self.reg, self.flags, self.sp = [], {}, {}, None, ()
        self.ret = None
        c = L.c
        self.ops = {ord("+"): "+", ord("-"): "-", ord("*"): "*", ord("/"): "/", ord("%"): "%", ord("&"): "&", ord("|"): "|", ord("^"): "^",
                    c["TOK_SHL"]: "<<", c["TOK_SAR"]: ">>", c["TOK_PDIV"]: "/"}
        self.sp0 = None

    def vars(self):
        return tuple(sorted((-k // 8, v) for k, v in self.mem.items() if -800 < k < 0 and v != init(-k // 8)))

    def get(self, r):
        if r not in self.reg:
            raise Bad("a register is used that holds no value at this point")
        return self.reg[r]

    def test(self, op):
        if self.flags is None:
            raise Bad("a condition is tested after the flags were overwritten")
        a, b = self.flags
        n = self.L.cmps.get(op)
        if n is None:
            raise Lost("condition %s" % op)
        n = n[4:]
        if n[0] == "U":
            a, b, n = a % M32, b % M32, n[1:]
        return {"EQ": a == b, "NE": a != b, "LT": a < b, "LE": a <= b, "GT": a > b, "GE": a >= b}[n]

    def run(self):
        pc, steps, n = 0, 0, len(self.ev)
        ev = self.ev
        while True:
            steps += 1
            if steps > 6000:
                self.trace.append(("spin",))
                return self.trace
            if pc == n:
                self.trace.append(("return", self.get(self.L.iret), self.vars()) if self.ret else ("end", self.vars()))
                return self.trace
            x = ev[pc]
            k = x[0]
            if k in ("jmp", "jcc"):
                if k == "jmp" or self.test(x[1]):
                    t = self.to.get(pc)
                    if t is None:
                        raise Bad("a jump is never given a target")
                    pc = t
                    continue
            elif k == "call":
                if self.k >= len(self.o):
                    self.trace.append(("next", x[1], self.sp, self.vars()))
                    return self.trace
                self.trace.append(("call", x[1], self.sp, self.vars()))
                self.reg = {self.L.iret: self.o[self.k]}
                self.flags = None
                self.k += 1
            elif k == "li":
                self.reg[x[1]] = i32(x[2])
            elif k == "ld":
                v = self.mem.get(x[2])
                if v is None:
                    if not -800 < x[2] < 0:
                        raise Bad("a saved value is used on a way on which it was not saved")
                    v = init(-x[2] // 8)
                self.reg[x[1]] = v
            elif k == "st":
                self.mem[x[1]] = self.get(x[2])
            elif k == "mov":
                self.reg[x[1]] = self.get(x[2])
            elif k == "cmp":
                self.flags = (self.get(x[1]), self.get(x[2]))
            elif k == "setcc":
                self.reg[x[1]] = int(self.test(x[2]))
            elif k == "op":
                a, b = self.get(x[3]), self.get(x[4])
                if x[1] in self.ops:
                    v = arith(self.ops[x[1]], a, b)
                elif x[1] == self.L.c["TOK_SHR"]:
                    v = i32((a % M32) >> (b & 31))
                elif x[1] in (self.L.c["TOK_UDIV"], self.L.c["TOK_UMOD"]):
                    v = 0x5e5e5e if b == 0 else i32((a % M32) // (b % M32) if x[1] == self.L.c["TOK_UDIV"] else (a % M32) % (b % M32))
                else:
                    raise Lost("operator %s" % x[1])
                self.reg[x[2]] = v
                self.flags = None
            elif k == "skip1":
                pc += 1
            elif k == "retval":
                self.reg[self.L.iret] = self.get(x[1])
                self.ret = True
            elif k == "init":
                self.trace.append(("init", x[1]))
            elif k == "cleanup":
                self.trace.append(("cleanup", x[1]) if x[2] == -2000 - 8 * x[1] else ("cleanup of another variable", x[1]))
                self.reg, self.flags = {}, None
            elif k == "sp_save":
                self.mem[x[1]] = ("sp", self.sp)
            elif k == "sp_new":
                self.sp = self.sp + (x[1],)
            elif k == "sp_restore":
                v = self.mem.get(x[1])
                if not isinstance(v, tuple):
                    raise Bad("the stack pointer is restored from a place where it was not saved")
                self.sp = v[1]
            elif k == "raw":
                pass
            else:
                raise Lost(k)
            pc += 1


def domain(text):
    """the values each call may return"""
    d = {}
    nums = sorted({int(w) for w in words(text) if w.isdigit()})
    for k in {int(w[1:]) for w in words(text) if re.fullmatch(r"E\d+", w)}:
        d[k] = [0, 10 * k + 1]
    m = re.search(r"switch\s*\((E\d+)\)", text)
    if m:
        v = set()
        for n in nums:
            v |= {n - 1, n, n + 1, -n - 1, -n, -n + 1}
        d[int(m.group(1)[1:])] = sorted(x for x in v if -1 << 31 <= x < 1 << 31) + [-1 << 31, (1 << 31) - 1]
    return d


def compare(L, text, doms=None, depth=6, budget=260):
    """None, or what differs between the emitted program and its meaning"""
    prog = Meaning(text)
    ev, to, how, st, v = L.lower(text)
    if how != "ret":
        return "the compiler rejects it (%s)" % (v.decode(errors="replace") if isinstance(v, bytes) else v), 0
    if st.x["pos"] < len(st.x["script"]):
        return "the compiler does not read it to its end", 0
    dom = {**domain(text), **(doms or {})}
    work, n = [()], 0
    while work and n < budget:
        o = work.pop(0)
        n += 1
        a = RefRun(prog, o).run()
        try:
            b = MachRun(L, ev, to, o).run()
        except Bad as e:
            return str(e), n
        if a != b:
            return difference(a, b), n
        if a and a[-1][0] == "next" and len(o) < depth:
            work += [o + (x,) for x in dom[a[-1][1]]]
    return None, n


def difference(a, b):
    k = 0
    while k < len(a) and k < len(b) and a[k] == b[k]:
        k += 1
    x, y = (a[k] if k < len(a) else None), (b[k] if k < len(b) else None)
    past = "".join(" E%d" % e[1] for e in a[:k] if e[0] == "call") or " the start"

    def tell(e):
        if e is None:
            return "nothing"
        if e[0] in ("call", "next"):
            return "E%d is evaluated" % e[1]
        return {"end": "the end is reached", "spin": "it runs for ever", "return": "it returns", "init": "a variable is declared",
                "cleanup": "a cleanup runs"}.get(e[0], e[0])
    s, t = tell(x), tell(y)
    if s == t:
        if x[0] in ("call", "next") and x[2] != y[2]:
            s, t = "the stack holds the arrays %s" % (x[2],), "it holds %s" % (y[2],)
        elif x[0] == "return" and x[1] != y[1]:
            s, t = s + " one value", "another is returned"
        else:
            s, t = s + " with certain values of the variables", "the values are different ones"
    return "after%s, %s, but in the emitted code %s" % (past, s, t)


# ---------------------------------------------------------------------- schematic programs
def number(t):
    n = itertools.count(1)
    return re.sub(r"\bE\b", lambda m: "E%d" % next(n), t)


def statements():
    conds = ["E", "0", "1", "!E", "E && E", "E || E", "E, E"]
    atoms = ["E;", ";", "{}"]
    loops = ["while (%s) %s", "do %s while (%s);", "for (E; %s; E) %s", "for (; %s; ) %s", "for (; %s; E) %s", "for (E; %s; ) %s"]
    out = []

    def loop(l, c, b):
        return l % ((b, c) if l.startswith("do") else (c, b))
    for c in conds:
        for a in atoms:
            out.append("{ if (%s) %s E; }" % (c, a))
            for b in atoms:
                out.append("{ if (%s) %s else %s E; }" % (c, a, b))
    inner = ["E;", ";", "{ if (E) break; E; }", "{ E; if (E) continue; E; }", "{ if (E) { E; break; } else { E; continue; } E; }",
             "{ if (E) return E; E; }", "{ if (E) goto L1; E; }", "{ E; break; E; }", "{ E; continue; E; }", "{ return E; }", "{ L1: E; }",
             "switch (E) { case 1: E; break; case 2: continue; case 3: E; default: E; }"]
    for l in loops:
        for c in conds + [""] if l.startswith("for") else conds:
            for b in inner:
                t = loop(l, c, b)
                out.append("{ %s E; %s }" % (t, "L1: E;" if "goto L1" in b else "goto L1;" if "L1:" in b else ""))
    for l in loops:
        for l2 in loops:
            for b in ("E;", "{ if (E) break; if (E) continue; E; }"):
                out.append("{ %s E; }" % loop(l, "E", "{ %s if (E) break; E; }" % loop(l2, "E", b)))
    out += ["if (E) if (E) E; else E;", "if (E) { if (E) E; } else E;", "if (E) while (E) if (E) E; else E;",
            "{ if (E) ; else if (E) E; else if (E) E; else E; E; }",
            "{ E; return E; E; }", "{ E; { return E; } E; }", "{ if (E) { return E; } return E; }", "{ if (E) return E; else return E; E; }",
            "{ goto L1; E; L1: E; }", "{ L1: E; if (E) goto L1; if (E) goto L2; E; L2: E; }", "{ L1: L2: E; if (E) goto L1; if (E) goto L2; }",
            "{ if (E) { L1: E; } else { E; goto L1; } E; }", "{ while (E) { L1: E; if (E) break; } if (E) goto L1; E; }",
            "{ if (0) { L1: E; } E; if (E) goto L1; E; }", "{ if (1) { E; } else { L1: E; } E; if (E) goto L1; }",
            "{ while (0) { L1: E; if (E) continue; E; } E; if (E) goto L1; }", "{ for (E; 0; E) { L1: E; } if (E) goto L1; E; }",
            "{ return E; L1: E; goto L1; }", "{ if (E) goto L1; return E; L1: return E; }", "{ goto L1; { C1; E; L1: E; } E; }",
            "{ for (;;) { if (E) break; } E; }", "{ for (;;) { for (;;) { if (E) break; E; } if (E) break; } E; }",
            "{ do { if (E) continue; E; } while (0); E; }", "{ do { E; if (E) break; } while (1); E; }", "{ do E; while (E && E || E); E; }",
            "while (E ? E : E) E;", "if (E ? E && E : E || E) E; else E;", "if (!(E && E)) E; else E;", "if (!(E || !E)) E; else E;",
            "{ E && E; E; }", "{ E || E; E; }", "{ E ? E && E : E || E; E; }", "{ !(E && E || E); E; }", "{ V1 && (E, E); E; }",
            "{ if (E && 0) E; else E; E; }", "{ if (0 && E) E; else E; E; }", "{ if (1 || E) E; else E; E; }", "{ if (E || 1) E; else E; E; }",
            "{ if (0 ? E : 1) E; E; }", "{ while (1) { if (E) goto L1; E; } L1: E; }", "{ if (E) { } else { } E; }"]
    return out


def switches():
    out = []
    for b in ("case 1: E; break; case 2: E; break;", "case 1: E; case 2: E;", "case 1: case 2: E; break; default: E;", "default: E; case 5: E;",
              "case 1: E; break; default: E; break; case 0: E;", "case 3 ... 6: E; break; case 8: E;", "case 3 ... 6: E; case 7 ... 9: E; default: E;",
              "case -3: E; break; case 0: E; break; case 3: E; break;", "case -5 ... -2: E; break; case 1 ... 4: E; break; default: E;",
              "E; case 1: E; break;", "case 1: { E; break; } E; case 2: E;", "case 1: if (E) break; E; case 2: E; break; default: E;",
              "case 1: if (E) { case 2: E; } E; break; case 3: E;", "case 1: while (E) { if (E) break; E; } break; case 2: E;",
              "case 1: while (E) { case 2: E; } break; default: E;", "case 4: switch (E) { case 1: E; break; default: E; } E; break; case 5: E;",
              "case 1: return E; case 2: return E; default: ;", "case 1: goto L1; case 2: E; L1: E;", "", "default: ;", "case 1: ;", "default: E;",
              "case 4294967295: E; break; case 1: E;" , "case 2147483647: E; break; case -2147483647: E;", "case 1: { C1; E; if (E) break; E; } case 2: E;",
              "case 5: E; break; case 3: E; break; case 9: E; break; case 1: E; break; case 7: E; break; default: E;"):
        out.append("{ switch (E) { %s } E; }" % b)
    for n in (8, 9, 10, 12, 17, 18, 20):
        for d in ("", "default: E;"):
            ks = [(7 * i) % n for i in range(n)]
            ks = ks if len(set(ks)) == n else list(range(n))
            out.append("{ switch (E) { %s %s } E; }" % (" ".join("case %d: E; break;" % (2 * k) for k in ks), d))
            out.append("{ switch (E) { %s %s } E; }" % (" ".join("case %d ... %d: E; break;" % (4 * k - 20, 4 * k - 18) for k in ks), d))
            out.append("{ switch (E) { %s %s } E; }" % (" ".join("case %d: E; break;" % (3 * k) if k % 2 else "case %d ... %d: E; break;" % (3 * k, 3 * k + 1)
                                                                  for k in ks), d))
    out += ["{ while (E) switch (E) { case 1: continue; case 2: break; default: E; } E; }", "{ switch (1) { case 1: E; break; default: E; } E; }",
            "{ switch (2) { case 1: E; break; } E; }", "{ if (0) switch (E) { case 1: E; } E; }", "{ return E; switch (E) { case 1: E; default: E; } }",
            "{ switch (E && E) { case 0: E; break; case 1: E; } E; }", "{ switch (E < 5) { case 0: E; break; default: E; } E; }",
            "{ switch (E + 3) { case 3: E; break; case 4: E; } E; }", "switch (E) case 1: E;", "{ switch (E) case 1: case 2: E; E; }",
            "{ switch (E) { while (E) { case 1: E; if (E) continue; E; } } E; }", "{ switch (E) { do { case 1: E; case 2: E; } while (E); } E; }",
            "{ switch (E) { for (E; E; E) { case 1: E; } default: E; } E; }", "{ switch (E) { case 1: for (;;) { if (E) break; } E; break; case 2: E; } E; }"]
    return out


def scopes():
    out = []
    for d, e in (("C1;", "C2;"), ("A1;", "A2;"), ("C1; A2;", "A3; C4;")):
        for x in ("E;", "if (E) break;", "if (E) continue;", "if (E) return E;", "if (E) goto L1;", "if (E) goto L2;", "break;", "continue;", "return E;"):
            out.append("{ %s E; while (E) { L2: E; %s E; { %s %s E; } E; } E; L1: E; }" % (d, e.replace("2", "5").replace("3", "6").replace("4", "7"), e, x))
            out.append("{ for (E; E; E) { %s E; %s E; } E; %s }" % (d, x, "L1: E;" if "L1" in x else "L2: E;" if "L2" in x else ""))
            out.append("{ do { %s E; { E; %s %s E; } E; } while (E); L1: L2: E; }" % (d, e, x))
            if "continue" not in x:
                out.append("{ switch (E) { case 1: { %s E; %s E; } E; default: { %s E; } } L1: L2: E; }" % (d, x, e))
        out += ["{ %s %s E; }" % (d, e), "{ { %s E; } { %s E; } E; }" % (d, e), "{ %s if (E) { %s E; } E; }" % (d, e), "{ %s return E; }" % d,
                "{ %s { %s return E; } }" % (d, e), "{ %s { %s E; goto L1; } L1: E; }" % (d, e), "{ E; L1: { %s E; if (E) goto L1; E; } E; }" % d,
                "{ %s L1: E; { %s if (E) goto L1; E; } E; }" % (d, e), "{ %s L1: E; if (E) goto L1; %s E; }" % (d, e)]
    for a in ("C1; E;", "E;"):
        for b in ("{ C2; E; %s }", "{ C2; { C3; E; %s } E; }", "{ C2; E; C3; %s E; }"):
            for c in ("{ C4; E; %s }", "{ C4; { C5; E; %s } E; }", "{ E; %s }", "{ C4; E; C5; %s E; }"):
                out.append("{ %s %s E; %s E; }" % (a, b % "L1: E;", c % "if (E) goto L1;"))
                out.append("{ %s %s E; %s E; }" % (a, b % "if (E) goto L1;", c % "L1: E;"))
    for l in ("while (E) %s", "for (E; E; E) %s", "do %s while (E);", "for (C6; E; E) %s", "switch (E) { case 1: %s E; }"):
        for x in ("if (E) break;", "if (E) continue;", "break;"):
            if "switch" in l and "continue" in x:
                x = "if (E) break; E;"
            out.append("{ while (E) { C1; E; %s C2; E; %s E; } E; }" % (l % "{ C3; E; }", x))
            out.append("{ for (C7; E; E) { C1; %s %s C2; %s E; } E; }" % (l % "{ C3; if (E) break; E; }", x, x))
            out.append("{ switch (E) { case 1: { C1; E; %s C2; %s E; } case 2: E; } E; }" % (l % "{ C3; E; }", x.replace("continue", "break")))
    out += ["{ for (C1; E; E) { C2; if (E) break; if (E) continue; E; } E; }", "{ for (C1; E; E) E; E; }", "{ C1; for (C2; E; E) { if (E) return E; } E; }",
            "{ for (A1; E; E) { A2; if (E) break; E; } E; }", "{ C1; { C2; { C3; if (E) goto L1; E; } E; } L1: E; }",
            "{ C1; { C2; { C3; if (E) goto L1; E; } E; L1: E; } E; }", "{ A1; { A2; { A3; if (E) goto L1; E; } E; L1: E; } E; }",
            "{ { A1; E; A2; E; } E; { A3; E; } E; }", "{ A1; { E; } E; { A2; E; { A3; E; } E; } E; }", "{ while (E) { A1; A2; if (E) continue; E; } E; }"]
    return [t for t in out if not ("L1:" in t and "goto L1" in t and re.search(r"goto L1.*A\d.*L1:", t))]


def expressions():
    """(program, values of the calls)"""
    ops = ["||", "&&", "|", "^", "&", "==", "!=", "<", "<=", ">", ">=", "<<", ">>", "+", "-", "*", "/", "%"]
    out = []
    V = [[0, 1, 5], [0, 2, 3], [0, 1, 7]]
    for a in ops:
        out.append("return E %s E;" % a)
        for b in ops:
            out.append(("return E %s E %s E;" % (a, b), {k + 1: v for k, v in enumerate(V)}))
        for u in "!-~+":
            out.append("return %sE %s %sE;" % (u, a, u))
        out.append("return E %s (E %s E);" % (a, a))
        out.append("V1 = E %s V2;" % a)
        out.append("return (E %s E) ? E : E;" % a)
        out.append("return E ? E %s E : E;" % a)
        out.append("if (E %s E) E; else E;" % a)
    for o in ASSIGN:
        out += ["V1 %s E;" % o, "return V1 %s V2 %s E;" % (o, o), "V1 %s E ? E : E;" % o, "V1 %s E || E;" % o, "V1 %s 3, V2 %s E;" % (o, o),
                "return V1 %s E + 2;" % o]
    out += ["V1++;", "V1--;", "++V1;", "--V1;", "return V1++;", "return ++V1;", "return V1-- - 3;", "V2 = V1++ * 2;", "V2 = -V1++;", "V2 = - --V1;",
            "return !V1++;", "{ while (V1-- > 105) E; E; }", "return E, E;", "return (E, E) + E;", "V1 = (E, E);", "V1 = E, E;", "{ E, E; E; }",
            "return E ? E : E ? E : E;", "return E ? E ? E : E : E;", "return (E ? E : E) ? E : E;", "return E ? E, E : E;", "V1 = E ? V2 = E : E;",
            "return E && E && E;", "return E || E || E;", "return E && (E || E) && E;", "return E || E && E || E;", "return (E || E) && (E || E);",
            "return !(E && E);", "return !!E;", "return !(E || E) + 1;", "return (E && E) + (E || E);", "return (E && E) == (E || E);",
            "return E + (E && E) * 3;", "V1 = (E && E) && E;", "V1 = E && E;", "V1 = E || E;", "V1 = !E;", "V1 = !(E && !E);", "return E < E == E < E;",
            "return E ? 1 : 0;", "return E ? 0 : 1;", "return !E ? E : E;", "return (E < E) ? (E > E) : (E == E);", "return (E && E) ? (E || E) : !E;",
            "if ((E && E) ? (E || E) : !E) E; else E;", "if (E ? E < E : E && E) E; else E;", "if (!(E ? E : E)) E; else E;", "if (E ? 1 : E) E; else E;",
            "if (E ? 0 : E) E; else E;", "if (E ? E : 0) E; else E;", "return (E ? E : 0) || E;", "return (E ? 1 : 0) && E;", "return E ?: E;",
            "return 0 && E;", "return 1 && E;", "return 0 || E;", "return 1 || E;", "return E && 0;", "return E && 1;", "return E || 0;", "return E || 1;",
            "return 0 ? E : E;", "return 1 ? E : E;", "return 0 && E || E;", "return 1 || E && E;", "return E && 0 && E;", "return E || 1 || E;",
            "return E && 1 && E;", "return E || 0 || E;", "return (0 && E) + E;", "return 1 ? 0 && E : E;", "return 0 ? E : 1 || E;", "return (0, 1) && E;",
            "return (E, 1) && E;", "return (E, 0) || E;", "return (1 ? E : E) + (0 ? E : E);", "{ V1 = 0 && E; E; }", "return !(0 && E) && E;",
            "return - - E;", "return ~-E;", "return !-E;", "return -(E + E) * ~E;", "return E - E - E;", "return E / E / E;", "return E % E % E;",
            "return E << E << E;", "return E - (E - E);", "return E * (E + E) * E;", "return (E + E) * (E - E);", "return E + E * E - E / E;",
            "return ((E + (E * (E + (E - E)))));", "return (E+E)*(E+E)-(E+E)*(E-E);", "return E + (E + (E + (E + (E + E))));",
            "return (V1 = E) + V1 * 0;", "{ V1 = E; V2 = V1 + E; V1 = V2 * V1; }", "{ V1 = V2 = V3 = E; E; }", "{ V1 += V2 -= E; E; }",
            "return ({ E; E; }) + 1;", "V1 = ({ E; V2 = E; E; });", "return ({ E; }) && E;", "return E + ({ E; E; });", "return E ? ({ E; E; }) : E;",
            "return E == E != E;", "return E < E + E;", "return E & E == E;", "return E | E ^ E & E;", "return E + E << E + E;", "return !E + !E;",
            "return V1 + V2 * (E && E);", "return (V1 + V2) + (E ? E : E);", "return (V1 + 1) + (V2 && V3);", "return V1 * V2 + (V2 || V3);",
            "return (V1 + 1) + (V2 ? V3 : V1);", "return (V1 + V2) * (V3 ? (V1 + V2) * (V3 - V1) : V2);", "return (V1 + V2) - (V3 && V1 - V2 && V2);",
            "return (V1 + V2) * ((V1 - V2) * (V3 ? (V1 + V2) * (V3 - V1) : V2 * (V1 + V3)));", "return (V1 + V2) * (V3 && (V1 + V2) * (V3 - V1));",
            "return (V1 + 1) * ((V2 + 2) * (V3 && ((V1 + 3) * (V2 - 4) + (V3 + 5) * (V1 - 6))));",
            "return (V1 + 1) * ((V2 + 2) * (E ? ((V1 + 3) * (V2 - 4) + (V3 + 5) * (V1 - 6)) : V2));",
            "return (V1 + 1) * ((V2 + 2) * (V1 < V2 ? ((V1 + 3) * (V2 - 4) + (V3 + 5) * (V1 - 6)) : V2 + 7)) + V1;",
            "return (V1 + 1) * ((V2 + 2) * (V1 > V2 ? ((V1 + 3) * (V2 - 4) + (V3 + 5) * (V1 - 6)) : V2 + 7)) + V1;",
            "return (V1 + 1) * ((V2 + 2) * (V1 > V2 || ((V1 + 3) * (V2 - 4) + (V3 + 5) * (V1 - 6)) == 3)) + V1;",
            "return (V1 + 1) * ((V2 + 2) * (V1 < V2 && ((V1 + 3) * (V2 - 4) + (V3 + 5) * (V1 - 6)) == 3)) + V1;",
            "return (V1 + 1) * ((V2 + 2) * (V1 < V2 || ((V1 + 3) * (V2 - 4) + (V3 + 5) * (V1 - 6)) == 3)) + V1;",
            "return (V1 + 1) * ((V2 + 2) * (V1 > V2 && ((V1 + 3) * (V2 - 4) + (V3 + 5) * (V1 - 6)) == 3)) + V1;",
            "return (V1 == V2) + (E && V1);", "return (V1 < V2) + (V1 && V2);", "return (V1 < V2) == (V1 ? V2 : V3);", "return (V1 && V2) + (V2 && V3);",
            "return ((E && E) || 1) + V1;", "return (E || E) && 0 || E;", "return (E && E || 0) && 1;", "V1 = ((E || E) && 1) || 0;",
            "return (E && E) && 1;", "return 1 && (E || E);", "return 0 || (E && E);", "if ((E && E) && 1) E; else E;", "if (1 && (E || E)) E; else E;",
            "return !(E && 1);", "return !(0 || E && E);", "return (E && E) ? 1 : 0;", "return (E || E) ? 0 : 1;", "return (E && E) != 0;", "return (E || E) == 0;",
            "return E > E ? E : E;", "return E = = 1;" if False else "return E == 1;", "V1 = E == E ? E : E;", "return (E ? V1 : V2) + E;"]
    return out


_L = None


def worker(job):
    text, doms, depth, budget = job
    try:
        return text, compare(_L, text, doms, depth, budget), None
    except Lost as e:
        return text, None, str(e)
    except RecursionError:
        return text, None, "recursion"


FAMILY = (("stmt", statements), ("switch", switches), ("scope", scopes), ("expr", expressions))


def c47(R, tier):
    global _L
    R.rules.append("The parser and the value stack are followed, with the code generator replaced by its contract, over schematic programs whose "
                   "expressions, statements and labels stand for any; the abstract instructions obtained, with their patched jumps, must have the "
                   "same sequences of evaluations, cleanups, values and results as the program has in C.")
    T = Tree()
    m = Module(T.dump("tcc"))
    try:
        _L = Lower(m, T.macros())
        _L.prepare()
    except Lost as e:
        R.need(False, "the compiler's statement parser (%s)" % e)
        return
    jobs, fam = [], {}
    for name, f in FAMILY:
        for x in f():
            t, d = x if isinstance(x, tuple) else (x, None)
            t = number(t)
            if (t in fam):
                continue
            fam[t] = name
            big = tier == "thorough"
            jobs.append((t, d, (8 if big else 6), (1500 if big else 200)))
    lost = {}
    seen = set()
    with ProcessPoolExecutor(8) as ex:
        for text, res, err in ex.map(worker, jobs, chunksize=8):
            R.count("programs")
            if err is not None:
                R.count("not_followed")
                lost.setdefault(err[:120], []).append(text)
                continue
            what, n = res
            R.count("ways", n)
            R.obligation()
            if what:
                key = "%s:%s" % (fam[text], re.sub(r"(?<=[ECLAV])\d+|\s+", "", text))
                if key in seen:
                    continue
                seen.add(key)
                if len(seen) <= 25:
                    f = m.defined.get("block" if fam[text] != "expr" else "expr_eq") or m.defined.get("block")
                    R.violation(key, "%s:%s" % (f.file, f.name), "order of evaluation", "%s: %s" % (text, what))
    R.notes += ["not followed: %s (%d programs, such as %s)" % (e, len(ts), ts[0]) for e, ts in sorted(lost.items())]
    R.need(R.counts.get("not_followed", 0) <= 0.3 * len(jobs), "statements of the compiler followed (%s)" % (sorted(lost)[:2],))
