"""C43: constant folding and algebraic simplification agree with the operators they replace."""
from sa.build import Tree
from sa.focus import focus
from sa.effects import Effects, evaluate, linear, s64

STOP = ("vswap", "vpop", "gen_opl", "gen_opi", "gen_opf", "gen_negf", "vpushi", "vpush64", "vpushv", "tcc_enter_state", "vcheck_cmp")
INT, UINT, LL, ULL, PTR = 3, 0x13, 4, 0x14, 5
CONST, SYM, LOCAL = 0x30, 0x200, 0x32
TYN = {INT: "int", UINT: "unsigned", LL: "long long", ULL: "unsigned long long", PTR: "pointer"}
M = (1 << 64) - 1


def u(v):
    return v & M


def div(a, b):
    q = abs(a) // abs(b)
    return -q if (a < 0) != (b < 0) else q


OPS = {
    ord("+"): ("+", lambda a, b, n: a + b), ord("-"): ("-", lambda a, b, n: a - b), ord("*"): ("*", lambda a, b, n: a * b),
    ord("&"): ("&", lambda a, b, n: a & b), ord("|"): ("|", lambda a, b, n: a | b), ord("^"): ("^", lambda a, b, n: a ^ b),
    ord("/"): ("/", lambda a, b, n: div(a, b)), ord("%"): ("%", lambda a, b, n: a - b * div(a, b)),
    0x83: ("unsigned /", lambda a, b, n: u(a) // u(b)), 0x84: ("unsigned %", lambda a, b, n: u(a) % u(b)),
    0x85: ("pointer /", lambda a, b, n: div(a, b)),
    ord("<"): ("<<", lambda a, b, n: a << (b & n)), 0x8b: ("unsigned >>", lambda a, b, n: u(a) >> (b & n)),
    ord(">"): (">>", lambda a, b, n: a >> (b & n)),
    0x92: ("unsigned <", lambda a, b, n: int(u(a) < u(b))), 0x93: ("unsigned >=", lambda a, b, n: int(u(a) >= u(b))),
    0x94: ("==", lambda a, b, n: int(a == b)), 0x95: ("!=", lambda a, b, n: int(a != b)),
    0x96: ("unsigned <=", lambda a, b, n: int(u(a) <= u(b))), 0x97: ("unsigned >", lambda a, b, n: int(u(a) > u(b))),
    0x9c: ("<", lambda a, b, n: int(a < b)), 0x9d: (">=", lambda a, b, n: int(a >= b)),
    0x9e: ("<=", lambda a, b, n: int(a <= b)), 0x9f: (">", lambda a, b, n: int(a > b)),
    0x90: ("&&", lambda a, b, n: int(bool(a) and bool(b))), 0x91: ("||", lambda a, b, n: int(bool(a) or bool(b))),
}
DIVS = {ord("/"), ord("%"), 0x83, 0x84, 0x85}
SHIFTS = {ord("<"), 0x8b, ord(">")}
SIGNED = {ord("/"), ord("%"), 0x85, ord(">"), 0x9c, 0x9d, 0x9e, 0x9f}
UNSIGNED = {0x83, 0x84, 0x8b, 0x92, 0x93, 0x96, 0x97}
GRID = [0, 1, 2, 3, 7, 31, 32, 33, 63, 64, 0x7fffffff, -0x80000000, -1, -2, -7, 0x55aa1234]
WIDE = GRID + [0x80000000, 0xffffffff, 0x100000000, 0x7fffffffffffffff, -0x8000000000000000, 0x123456789abcdef, -0x123456789]


def norm(t, v):
    """the value of type t held in v"""
    if t in (INT, UINT):
        v &= 0xffffffff
        return v - (1 << 32) if t == INT and v >> 31 else v
    return s64(v)


def fits(op, t):
    """operators are chosen by signedness before this point; pointers are only added to, subtracted and compared"""
    if t == PTR and op in (ord("*"), ord("/"), ord("%"), 0x83, 0x84, ord("&"), ord("|"), ord("^"), ord("<"), ord(">"), 0x8b):
        return False
    if op == 0x85:
        return t == LL
    if op in SIGNED:
        return t in (INT, LL)
    if op in UNSIGNED:
        return t in (UINT, ULL, PTR)
    return True


class Stack:
    """names of the two topmost entries of the value stack"""

    def __init__(self, m, f, vt, known):
        S = m.structs["SValue"]
        o = {n: off for n, off, z, t in S["fields"]}
        self.size = S.get("size") or max(off + z for n, off, z, t in S["fields"])
        self.T, self.R = o["type"], o["r"]
        # the constant shares its place with the anonymous union behind r2
        self.C = min(off for n, off, z, t in S["fields"] if off > o["r2"])
        self.base = ("load", ("g", vt))
        self.known = known

    def where(self, p):
        l = linear(p)
        if l.pop(self.base, 0) != 1 or set(l) - {1}:
            return None
        off = l.get(1, 0)
        e, k = divmod(off, self.size)
        return e, k

    def load(self, p, x, env):
        w = self.where(p)
        if w is None:
            return None
        e, k = w
        if env.get(("swapped",)) and e in (0, -1):
            e = -1 - e
        if k == self.T and (e, "t") in self.known:
            return ("i", self.known[(e, "t")])
        if k == self.R and (e, "r") in self.known:
            return ("i", self.known[(e, "r")])
        if k == self.C:
            if (e, "c") in self.known:
                return ("i", self.known[(e, "c")])
            return ("c", e, x.ty)
        return None


def conforms(conds, asg):
    for c, t in conds:
        v = evaluate(c, asg)
        if v is None or bool(v) != t:
            return False
    return True


def fold(R, tier):
    R.rules.append("The result the compiler's constant folder stores is extracted as a term for every operator and operand "
                   "type and compared with the C operator; each algebraic shortcut must be an identity wherever its guard "
                   "allows it, and each strength reduction must be an equivalent operator.")
    T = Tree()
    m = focus(T, "tcc", ["gen_opic", "gen_opif"], set(), stop=STOP)
    f = R.need(m.defined.get("gen_opic"), "gen_opic")
    g = next((n for n in m.globals if n == "vtop"), None) or next(n for n in m.globals if n.endswith("vtop"))
    R.need("SValue" in m.structs, "SValue")
    const_const(R, m, f, g)
    const_one(R, m, f, g)
    symbols(R, m, f, g)
    floats(R, m, g)
    typing(R, T, g)


def engine(m, f, g, known, op, maxvisit=2, evaluated=True):
    st = Stack(m, f, g, known)
    E = Effects(m, f, "-", exact=2, maxvisit=maxvisit)
    E.params = {0: ("i", op)}
    E.tracked = {g}

    def loadval(p, x, env):
        if evaluated and p[0] == "g" and p[1].endswith("nocode_wanted"):
            return ("i", 0)
        return st.load(p, x, env)
    E.eager = True
    E.oncall = lambda n, env: {("swapped",): not env.get(("swapped",))} if n == "vswap" else {}
    E.loadval = loadval
    return st, E


def const_const(R, m, f, g):
    for op, (name, ref) in OPS.items():
        for t in (INT, UINT, LL, ULL, PTR):
            if not fits(op, t):
                continue
            t2 = INT if op in SHIFTS else t
            st, E = engine(m, f, g, {(0, "t"): t2, (-1, "t"): t, (0, "r"): CONST, (-1, "r"): CONST}, op)
            ps = E.paths(0, None, lambda k: False)
            R.count("fold_paths", len(ps))
            A, B = ("c", -1, "i64"), ("c", 0, "i64")
            grid = GRID if t in (INT, UINT) else WIDE
            live = []
            for conds, ev, how in ps:
                if how in ("cut",):
                    continue
                val = None
                where = f.file
                for e in ev:
                    if e[0] == "store" and st.where(e[1]) == (-1, st.C):
                        val, where = e[2], e[3].where()
                gen = any(e[0] == "call" and e[1] in ("gen_opi", "gen_opl") for e in ev)
                live.append((conds, val, gen, where, ev))
            bad = False
            for a in grid:
                for b in (GRID if op in SHIFTS else grid):
                    for dirt in ((0, 0x5a5a5a5a00000000) if t in (INT, UINT) else (0,)):
                        asg = {A: s64(norm(t, a) ^ dirt), B: s64(norm(t2, b) ^ (dirt if t2 == INT else 0))}
                        R.obligation()
                        hit = [p for p in live if conforms(p[0], asg)]
                        if len(hit) != 1:
                            continue
                        conds, val, gen, where, ev = hit[0]
                        x, y = norm(t, a), norm(t2, b)
                        if op in DIVS and y == 0:
                            if val is not None and not gen:
                                R.violation("div0:" + name, where, "constant folding", "%s by zero is folded" % name)
                            continue
                        n = 63 if t in (LL, ULL) else 31
                        if op in SHIFTS and (t == PTR or not 0 <= y <= n):
                            continue
                        want = norm(t, ref(x, y, n))
                        if val is None:
                            if not bad:
                                R.violation("nofold:%s:%s" % (name, TYN[t]), where, "constant folding",
                                            "constant %s of type %s is not folded" % (name, TYN[t]))
                            bad = True
                            continue
                        got = evaluate(val, asg)
                        if got is None:
                            continue
                        R.count("fold_values")
                        if norm(t, got) != want or got != want and s64(want) != got:
                            if not bad:
                                R.violation("fold:%s:%s" % (name, TYN[t]), where, "constant folding", "%s of %s constants %d and %d gives %d instead of %d" % (
                                    name, TYN[t], x, y, got, want))
                            bad = True
    R.need(R.counts.get("fold_values", 0) > 1000, "folded results")


def follow(st, g, ev, ci, f):
    """the value stack after a path: (entries bottom to top as [name, value stored over it], operator call or None, place)"""
    stack = [["X" if ci == 0 else "C", None], ["C" if ci == 0 else "X", None]]
    gen, where, top = None, f.file, 0
    for e in ev:
        if e[0] == "call":
            where = e[3].where()
            if e[1] == "vswap" and len(stack) > 1:
                stack[-1], stack[-2] = stack[-2], stack[-1]
            elif e[1] == "vpop":
                stack.pop()
            elif e[1] in ("gen_opi", "gen_opl"):
                gen = e
        elif e[0] == "store":
            where = e[3].where()
            if e[1] == ("g", g):
                k = linear(e[2]).get(1, 0) // st.size if st.base in linear(e[2]) else top + 1
                while len(stack) > 1 and k < top:
                    stack.pop()
                    top -= 1
                top = k
            else:
                w = st.where(e[1])
                if w and w[1] == st.C and -len(stack) <= w[0] - top - 1 < 0:
                    stack[w[0] - top - 1][1] = e[2]
    return stack, gen, where


def const_one(R, m, f, g):
    """one operand constant: shortcuts taken without emitting the operator"""
    for op, (name, ref) in OPS.items():
        for t in (INT, UINT, LL, ULL, PTR):
            if not fits(op, t) or op in (0x90, 0x91):
                continue
            t2 = INT if op in SHIFTS else t
            n = 63 if t in (LL, ULL) else 31
            grid = GRID if t in (INT, UINT) else WIDE
            for ci in (0, -1):
                for c in grid:
                    cv = norm(t2 if ci == 0 else t, c)
                    if op in SHIFTS and ci == 0 and not 0 <= cv <= n:
                        continue
                    kn = {(0, "t"): t2, (-1, "t"): t, (0, "r"): 0, (-1, "r"): 0, (ci, "c"): s64(cv)}
                    kn[(ci, "r")] = CONST
                    st, E = engine(m, f, g, kn, op, 70)
                    for conds, ev, how in E.paths(0, None, lambda k: False):
                        if how == "cut":
                            continue
                        stack, gen, where = follow(st, g, ev, ci, f)
                        if not stack:
                            continue
                        R.obligation()
                        R.count("shortcut_values")
                        if gen is not None:
                            reduced(R, op, name, t, ci, gen, stack, cv, ref)
                            continue
                        kind, val = stack[-1]
                        for x in grid:
                            xv = norm(t if ci == 0 else t2, x)
                            a, b = (xv, cv) if ci == 0 else (cv, xv)
                            if op in DIVS and b == 0 or op in SHIFTS and not 0 <= b <= n:
                                continue
                            want = norm(t, ref(a, b, n))
                            if val is None:
                                got = xv if kind == "X" else cv
                            else:
                                got = evaluate(val, {}) if kind == "C" else None
                            if got is None or norm(t, got) != want:
                                R.violation("short:%s:%s:%s" % (name, TYN[t], "left" if ci else "right"), where, "algebraic simplification",
                                            "%s with the constant %d on the %s is replaced by %s for type %s" % (
                                                name, cv, "left" if ci else "right", "its other operand" if kind == "X" else "the constant %s" % got, TYN[t]))
                                break
    R.need(R.counts.get("shortcut_values", 0) > 500, "shortcuts")


def symbols(R, m, f, g):
    """address plus or minus a constant: the constant goes to the address's offset"""
    for r in (CONST | SYM, LOCAL):
        for op in (ord("+"), ord("-")):
            for ci in (0, -1):
                if op == ord("-") and ci == -1:
                    continue
                kn = {(0, "t"): LL if ci == 0 else PTR, (-1, "t"): PTR if ci == 0 else LL, (0, "r"): r, (-1, "r"): r}
                kn[(ci, "r")] = CONST
                st, E = engine(m, f, g, kn, op)
                C, X = ("c", ci, "i64"), ("c", -1 - ci, "i64")
                for conds, ev, how in E.paths(0, None, lambda k: False):
                    if how == "cut":
                        continue
                    stack, gen, where = follow(st, g, ev, ci, f)
                    if gen is not None or len(stack) != 1:
                        continue
                    kind, val = stack[-1]
                    R.obligation()
                    R.count("address_offsets")
                    for c in (0, 1, -1, 100, 0x7fffffff, -0x80000000, 0x80000000, 0x7fffffffffffffff):
                        for x in (0, 1, -5, 0x7fffffff, -0x80000000):
                            asg = {C: c, X: x}
                            if not may(conds, asg):
                                continue
                            want = x + c if op == ord("+") else x - c
                            got = (x if kind == "X" else None) if val is None else evaluate(val, asg)
                            if got is None and val is not None:
                                continue
                            if kind != "X" or got != s64(want) or not -0x80000000 <= want <= 0x7fffffff:
                                R.violation("addr:%s" % chr(op), where, "algebraic simplification",
                                            "an address with offset %d %s the constant %d becomes offset %s" % (x, chr(op), c, got))
                                return


def may(conds, asg):
    for c, t in conds:
        v = evaluate(c, asg)
        if v is not None and bool(v) != t:
            return False
    return True


COMMUTES = (ord("+"), ord("*"), ord("&"), ord("|"), ord("^"), 0x94, 0x95)


def reduced(R, op, name, t, ci, gen, stack, cv, ref):
    """the operator finally emitted computes the same"""
    o2 = evaluate(gen[2][0], {})
    if o2 is None or len(stack) < 2:
        return
    (k1, v1), (k2, v2) = stack[-2:]
    if k1 == k2 or (v1 if k1 == "X" else v2) is not None:
        return
    c2 = v1 if k1 == "C" else v2
    c2 = cv if c2 is None else evaluate(c2, {})
    if c2 is None or o2 not in OPS:
        return
    left2 = k1 == "C"
    if (o2, c2, left2) == (op, cv, ci == -1):
        return
    n = 63 if t in (LL, ULL) else 31
    for x in GRID if t in (INT, UINT) else WIDE:
        xv = norm(t if op not in SHIFTS or ci == 0 else INT, x)
        a, b = (cv, xv) if ci == -1 else (xv, cv)
        a2, b2 = (c2, xv) if left2 else (xv, c2)
        if op == 0x85 and (b <= 0 or a % b) or op in DIVS and b == 0 or op in SHIFTS and not 0 <= b <= n:
            continue                               # undefined, or a difference of pointers that is not exact
        want = norm(t, ref(a, b, n))
        if o2 in SHIFTS and not 0 <= b2 <= n or o2 in DIVS and b2 == 0:
            got = None
        else:
            # unsigned operators see the operand without its sign
            w = (1 << n + 1) - 1
            got = norm(t, OPS[o2][1](a2 & w if o2 in UNSIGNED else a2, b2, n))
        if got != want:
            R.violation("reduce:%s:%s" % (name, TYN[t]), gen[3].where(), "strength reduction",
                        "%s with the constant %d on the %s is emitted as %s with %d on the %s for type %s" % (
                            name, cv, "left" if ci else "right", OPS[o2][0], c2, "left" if left2 else "right", TYN[t]))
            return


BOOL, LONG = 11, 0x800
ARITH = {"_Bool": BOOL, "char": 1, "signed char": 0x21, "unsigned char": 0x31, "short": 2, "unsigned short": 0x12, "int": INT,
         "unsigned": UINT, "long": LL | LONG, "unsigned long": ULL | LONG, "long long": LL, "unsigned long long": ULL,
         "float": 8, "double": 9, "long double": 10}
RANK = {"int": 3, "unsigned": 3, "long": 4, "unsigned long": 4, "long long": 5, "unsigned long long": 5}
TMASK = 0xf | 0x10
NAME = {v: k for k, v in ARITH.items()}


def promote(a):
    return a if a in RANK else "int"


def usual(a, b):
    for f in ("long double", "double", "float"):
        if f in (a, b):
            return f
    a, b = promote(a), promote(b)
    if RANK[a] < RANK[b]:
        a, b = b, a
    # rank of a is at least that of b
    ua, ub = a.startswith("unsigned"), b.startswith("unsigned")
    if ua or not ub:
        return a
    if RANK[a] == RANK[b] or RANK[b] > 3:
        # the signed type cannot hold the unsigned one's values
        return {"int": "unsigned", "long": "unsigned long", "long long": "unsigned long long"}[a]
    return a


def tname(t):
    if t is None:
        return "?"
    t &= 0xf | 0x10 | LONG
    if t & 0xf in (8, 9, 10):
        t &= 0xf
    return NAME.get(t) or "type %#x" % t


STOP2 = ("vcheck_cmp", "combine_types", "gen_opic", "gen_opif", "gen_cast", "gen_cast_s", "vswap", "gv", "tcc_enter_state", "gen_op")
OPTOK = {ord("+"): "+", ord("*"): "*", ord("/"): "/", ord("%"): "%", ord("&"): "&", ord("<"): "<<", ord(">"): ">>", 0x94: "==", 0x95: "!=",
         0x9c: "<", 0x9d: ">=", 0x9e: "<=", 0x9f: ">"}
TOUNS = {ord("/"): 0x83, ord("%"): 0x84, ord(">"): 0x8b, 0x9c: 0x92, 0x9d: 0x93, 0x9e: 0x96, 0x9f: 0x97}


def typing(R, T, g):
    leaf = lambda f: not any(True for _ in f.calls()) and sum(1 for _ in f.insts()) <= 60
    m = focus(T, "tcc", ["gen_op", "combine_types", "gen_cast"], set(), stop=STOP2, force=leaf)
    combine(R, m)
    select(R, m, g)
    casts(R, m, g)


def combine(R, m):
    f = m.defined.get("combine_types")
    if not R.need(f, "combine_types"):
        return
    n = 0
    for a, ta in ARITH.items():
        for b, tb in ARITH.items():
            for op, cls in ((ord("+"), "+"), (ord("?"), "?:"), (None, "shift")):
                if op is None:
                    # the class of shifts is whatever constant makes the function look at its first operand alone
                    continue
                E = Effects(m, f, "-", exact=2)
                E.eager = E.memory = True
                E.params = {3: ("i", op)}

                def loadval(p, x, env):
                    l = linear(p)
                    return ("i", ta) if l == {("param", 1): 1} else ("i", tb) if l == {("param", 2): 1} else None
                E.loadval = loadval
                for conds, ev, how in E.paths(0, None, lambda k: False):
                    if how[0] != "ret" or any(c == ("op", "eq", ("param", 0), ("i", 0)) and t for c, t in conds):
                        continue
                    st = [e for e in ev if e[0] == "store" and linear(e[1]) == {("param", 0): 1}]
                    R.obligation()
                    if evaluate(how[1], {}) == 0:
                        R.violation("combine:reject", f.file, "usual arithmetic conversions", "%s %s %s is rejected" % (a, cls, b))
                    v = evaluate(st[-1][2], {}) if st else None
                    if v is None:
                        continue
                    n += 1
                    R.count("type_pairs")
                    if tname(v) != usual(a, b):
                        R.violation("combine:%s:%s" % (a, b), st[-1][3].where(), "usual arithmetic conversions", "%s %s %s has type %s instead of %s" % (
                            a, cls, b, tname(v), usual(a, b)))
    R.need(n > 100, "combined types")


def select(R, m, g):
    f = m.defined.get("gen_op")
    if not R.need(f, "gen_op"):
        return
    n = 0
    for op, name in OPTOK.items():
        for t in ("int", "unsigned", "long", "unsigned long", "unsigned long long", "double", "float"):
            isf = t in ("double", "float")
            if isf and op in (ord("%"), ord("&")) or isf and op in SHIFTS:
                continue
            ty = ARITH[t]
            other = "unsigned" if t in ("long", "double", "float") else "int"
            lt, rt = (t, "int" if "unsigned" in t else "unsigned long") if op in SHIFTS else (other, t) if n % 2 else (t, other)
            st, E = engine(m, f, g, {(0, "t"): ARITH[rt], (-1, "t"): ARITH[lt], (0, "r"): 0}, op)
            l0 = E.loadval
            E.loadval = lambda p, x, env: ("i", ty) if p[0] == "slot" else l0(p, x, env)
            for conds, ev, how in E.paths(0, None, lambda k: False):
                gen = [e for e in ev if e[0] == "call" and e[1] in ("gen_opic", "gen_opif")]
                if how[0] != "ret" or len(gen) != 1:
                    continue
                g0 = gen[0]
                n += 1
                R.obligation()
                R.count("operator_selections")
                o = evaluate(g0[2][0], {})
                want = TOUNS.get(op, op) if "unsigned" in t else op
                if o is not None and o != want:
                    R.violation("select:%s:%s" % (name, t), g0[3].where(), "operator selection", "%s on %s operands is compiled as %s" % (
                        name, t, OPS[o][0] if o in OPS else "operator %d" % o))
                if (g0[1] == "gen_opif") != isf:
                    R.violation("select:kind:%s:%s" % (name, t), g0[3].where(), "operator selection", "%s on %s operands goes to %s" % (name, t, g0[1]))
                left = False
                need = {k for k, ot in (("left", lt), ("right", rt)) if ot != ("int" if op in SHIFTS and k == "right" else t)}
                for e in ev:
                    if e is g0:
                        break
                    if e[0] != "call":
                        continue
                    if e[1] == "vswap":
                        left = not left
                    elif e[1] == "gen_cast":
                        need.discard("left" if left else "right")
                    elif e[1] == "gen_cast_s" and e[2]:
                        need.discard("left" if left else "right")
                        c = evaluate(e[2][0], {})
                        w = "int" if op in SHIFTS and not left else t
                        if c is not None and tname(c) != w:
                            R.violation("opcast:%s:%s" % (name, "left" if left else "right"), e[3].where(), "operator selection",
                                        "the %s operand of %s on type %s is converted to %s" % ("left" if left else "right", name, t, tname(c)))
                for k in sorted(need):
                    R.violation("noconv:%s:%s" % (name, k), g0[3].where(), "operator selection",
                                "the %s operand of %s, of type %s, is not converted to %s" % (k, name, lt if k == "left" else rt, t))
                if left:
                    R.violation("opswap:%s" % name, g0[3].where(), "operator selection", "the operands of %s are exchanged" % name)
                after = ev[ev.index(g0):]
                stt = [e for e in after if e[0] == "store" and st.where(e[1]) == (0, st.T)]
                v = evaluate(stt[-1][2], {}) if stt else None
                w = "int" if op >= 0x92 else t
                if v is not None and tname(v) != w:
                    R.violation("optype:%s:%s" % (name, t), stt[-1][3].where(), "operator selection", "%s on %s operands has type %s" % (name, t, tname(v)))
    R.need(n > 30, "operator selections")


def conv(t, v):
    """the integer v converted to integer type t"""
    if t == "_Bool":
        return int(v != 0)
    w = {"char": 8, "signed char": 8, "unsigned char": 8, "short": 16, "unsigned short": 16, "int": 32, "unsigned": 32}.get(t, 64)
    v &= (1 << w) - 1
    if w == 64:
        return s64(v)
    return v - (1 << w) if v >> (w - 1) and not t.startswith("unsigned") else v


SRC = [0, 1, 2, 127, 128, 129, 255, 256, -1, -128, -129, 32767, 32768, 65535, 65536, -32768, -32769, 0x7fffffff, 0x80000000, 0xffffffff,
       0x100000000, -0x80000000, -0x80000001, 0x7fffffffffffffff, -0x8000000000000000, 0x123456789a]


def real(d, asg):
    """exact value of a term that converts integers to floating point, with its sign changes"""
    if d[0] == "op" and d[1] == "fneg":
        v = real(d[2], asg)
        return None if v is None else -v
    if d[0] == "op" and d[1] in ("sitofp", "uitofp"):
        v = evaluate(d[2], asg)
        return None if v is None else v & ((1 << 64) - 1) if d[1] == "uitofp" else v
    if d[0] == "sel":
        c = evaluate(d[1], asg)
        return None if c is None else real(d[2] if c else d[3], asg)
    return None


def ctrunc(d, asg, src):
    """integer term over a floating source with value src"""
    if d[0] == "op" and d[1] in ("fptosi", "fptoui") and d[2][0] == "c":
        return s64(int(src))
    if d[0] == "op" and d[1] in ("fune", "fone", "foeq", "fueq") and ("c" in (d[2][0], d[3][0])):
        return int((src != 0) == (d[1] in ("fune", "fone")))
    if d[0] in ("tr", "tru"):
        v = ctrunc(d[2], asg, src)
        return None if v is None else evaluate((d[0], d[1], ("i", v)), {})
    if d[0] == "op" and len(d) == 4:
        a, b = ctrunc(d[2], asg, src), ctrunc(d[3], asg, src)
        return None if a is None or b is None else evaluate(("op", d[1], ("i", a), ("i", b)), {})
    return evaluate(d, asg)


def casts(R, m, g):
    f = m.defined.get("gen_cast")
    if not R.need(f, "gen_cast"):
        return
    n = 0
    fl = ("float", "double", "long double")
    fty = dict(zip(fl, ("float", "double", "x86_fp80")))
    for a, ta in ARITH.items():
        for b, tb in ARITH.items():
            if a == b:
                continue
            st, E = engine(m, f, g, {(0, "t"): ta, (0, "r"): CONST}, 0, evaluated=False)
            E.params = {}
            E.memory = True
            l0 = E.loadval
            E.loadval = lambda p, x, env: ("i", tb) if linear(p) == {("param", 0): 1} else l0(p, x, env)
            ps = [p for p in E.paths(0, None, lambda k: False) if p[2][0] == "ret"]
            C = ("c", 0, "i64")
            bad = False
            for v in SRC + ([0.5, -0.25, 2.75] if a in fl else []):
                src = float(v) if a in fl else conv(a, v)
                for dirt in (0, 0x5a5a5a5a00000000) if a in ("int", "unsigned") and b not in fl and not same64(ta, tb) else (0,):
                    asg = {C: s64(int(src) ^ dirt)} if a not in fl else {}
                    for conds, ev, how in ps:
                        if bad or not may(conds, asg):
                            continue
                        sts = [e for e in ev if e[0] == "store" and st.where(e[1]) == (0, st.C)]
                        R.obligation()
                        R.count("cast_values")
                        n += 1
                        where = sts[-1][3].where() if sts else f.file
                        got = None
                        if b in fl:
                            if a in fl:
                                # widened and stored in the new format
                                ok = sts and storety(sts[-1][3]) == fty[b] and sts[-1][2] == ("c", 0, fty[a]) or not sts and a == b
                                if b == "long double" and sts and storety(sts[-1][3]) == "x86_fp80" and sts[-1][2] == ("c", 0, fty[a]):
                                    ok = True
                                got, want = (0, 0) if ok else ("another value", "it")
                            else:
                                if not sts or storety(sts[-1][3]) != fty[b]:
                                    got, want = "nothing", src
                                else:
                                    got, want = real(sts[-1][2], asg), src & ((1 << 64) - 1) if ta & 0x1f == ULL else src
                        elif a in fl:
                            if not sts or not -0x8000000000000000 <= src < 1 << 63 or b != "_Bool" and conv(b, int(src)) != int(src):
                                continue
                            got, want = ctrunc(sts[-1][2], asg, src), conv(b, int(src)) if b != "_Bool" else int(src != 0)
                        else:
                            want = conv(b, src)
                            got = evaluate(sts[-1][2], asg) if sts else asg[C]
                            if not sts and conv(b, got) == want and (a, b) and same64(ta, tb):
                                got = want
                        if got is None:
                            continue
                        R.count("cast_values_compared")
                        if got != want:
                            R.violation("cast:%s:%s" % (a, b), where, "constant conversion", "the %s constant %s converted to %s becomes %s" % (a, src, b, got))
                            bad = True
    R.need(R.counts.get("cast_values_compared", 0) > 500, "converted constants")


def same64(a, b):
    """types gen_cast does not distinguish"""
    return a & TMASK == b & TMASK


FOPS = {ord("+"): ("op", "fadd"), ord("-"): ("op", "fsub"), ord("*"): ("op", "fmul"), ord("/"): ("op", "fdiv")}
FCMP = {0x94: {"foeq"}, 0x95: {"fune"}, 0x9c: {"folt"}, 0x9d: {"foge"}, 0x9e: {"fole"}, 0x9f: {"fogt"}}
FT = {8: "float", 9: "double", 10: "x86_fp80"}


def floats(R, m, g):
    f = m.defined.get("gen_opif")
    if not R.need(f, "gen_opif"):
        return
    for bt, ty in FT.items():
        for op in list(FOPS) + list(FCMP) + [0x81]:
            name = OPS[op][0] if op in OPS else "negation"
            st, E = engine(m, f, g, {(0, "t"): bt, (-1, "t"): bt, (0, "r"): CONST, (-1, "r"): CONST}, op, evaluated=False)
            n = 0
            for conds, ev, how in E.paths(0, None, lambda k: False):
                if any(e[0] == "call" and e[1] in ("gen_opf", "gen_negf") for e in ev) or how == "cut":
                    continue
                n += 1
                R.obligation()
                R.count("float_paths")
                where = f.file
                if op in FCMP:
                    for e in ev:
                        if e[0] == "call" and e[1] == "vpushi":
                            d = e[2][0]
                            ok = d[0] == "op" and (d[1] in FCMP[op] and side(d, -1, 0, ty)
                                                   or d[1] in {swap(q) for q in FCMP[op]} and side(d, 0, -1, ty))
                            if not ok:
                                R.violation("fcmp:%s:%s" % (name, FT[bt]), e[3].where(), "constant folding", "%s of %s constants is folded as %s" % (name, FT[bt], str(d)[:60]))
                            break
                    else:
                        R.violation("fcmp:%s:none" % name, where, "constant folding", "%s of constants pushes no result" % name)
                    continue
                st_ = [e for e in ev if e[0] == "store" and (st.where(e[1]) or (None,) * 2)[1] == st.C]
                if not st_:
                    R.violation("fold:f:%s" % name, where, "constant folding", "the result of %s on %s constants is not stored" % (name, FT[bt]))
                    continue
                e = st_[-1]
                d = e[2]
                tgt = 0 if op == 0x81 else -1
                if st.where(e[1])[0] != tgt or storety(e[3]) != ty:
                    R.violation("fold:f:%s:place" % name, e[3].where(), "constant folding", "the result of %s on %s constants is stored as %s" % (name, FT[bt], storety(e[3])))
                    continue
                if op == 0x81:
                    ok = d[0] == "op" and d[1] == "fneg" and d[2] == ("c", 0, ty)
                else:
                    ok = d[0] == "op" and d[:2] == FOPS[op] and (side(d, -1, 0, ty) or op in (ord("+"), ord("*")) and side(d, 0, -1, ty))
                    if op == ord("/") and (d[0] == "tr" and d[1] == 32 or d[0] == "i"):
                        # division by zero: infinity or not-a-number, negative if just one operand is
                        ok = True
                        for a in (0, 1):
                            for b in (0, 1):
                                v = evaluate(d, {("c", -1, ty): a << 31, ("c", 0, ty): b << 31})
                                ok = ok and v is not None and v & 0xffffffff in (0x7f800000 | (a ^ b) << 31, 0x7fc00000 | (a ^ b) << 31)
                if not ok:
                    R.violation("fold:f:%s:%s" % (name, FT[bt]), e[3].where(), "constant folding", "%s of %s constants is folded as %s" % (name, FT[bt], str(d)[:80]))
            if not n:
                R.violation("nofold:f:%s" % name, f.file, "constant folding", "%s of %s constants is never folded" % (name, FT[bt]))


def swap(p):
    return {"foeq": "foeq", "fune": "fune", "folt": "fogt", "fogt": "folt", "fole": "foge", "foge": "fole"}[p]


def side(d, a, b, ty):
    return d[2] == ("c", a, ty) and d[3] == ("c", b, ty)


def storety(x):
    o = x.ops[0]
    d = x.fn.defs.get(o[1]) if o[0] == "v" else None
    return d.ty if d is not None else None
