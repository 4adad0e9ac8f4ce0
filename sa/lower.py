"""The compiler's lowering of schematic programs, followed abstractly.

A schematic program is a sequence of tokens in which E1, E2, ... stand for arbitrary calls, V1, V2, ... for int
variables and L1, L2, ... for labels.  The parser and the value stack are followed in the source's IR; the code
generator is replaced by its contract, so that the result is a list of abstract instructions (Ev) with patched jumps,
which the client compares with the meaning of the program."""
import re
from .interp import Interp, State, Lost, ptr, signed

TWO = {"&&": "TOK_LAND", "||": "TOK_LOR", "++": "TOK_INC", "--": "TOK_DEC", "==": "TOK_EQ", "!=": "TOK_NE", "<=": "TOK_LE", ">=": "TOK_GE",
       "<<": "TOK_SHL", ">>": "TOK_SAR", "->": "TOK_ARROW", "...": "TOK_DOTS", "+=": "TOK_A_ADD", "-=": "TOK_A_SUB", "*=": "TOK_A_MUL",
       "/=": "TOK_A_DIV", "%=": "TOK_A_MOD", "&=": "TOK_A_AND", "|=": "TOK_A_OR", "^=": "TOK_A_XOR", "<<=": "TOK_A_SHL", ">>=": "TOK_A_SAR"}
WORDS = {"if": "TOK_IF", "else": "TOK_ELSE", "while": "TOK_WHILE", "for": "TOK_FOR", "do": "TOK_DO", "switch": "TOK_SWITCH", "case": "TOK_CASE",
         "default": "TOK_DEFAULT", "break": "TOK_BREAK", "continue": "TOK_CONTINUE", "return": "TOK_RETURN", "goto": "TOK_GOTO"}
LEX = re.compile(r"\s*([A-Za-z_]\w*|\d+|<<=|>>=|\.\.\.|[-+*/%&|^<>=!]=|&&|\|\||\+\+|--|<<|>>|->|.)")


def words(text):
    return [w for w in LEX.findall(text) if w.strip()]


class Lower:
    def __init__(self, m, mac):
        self.m = m
        g = mac.get
        self.tok = {}
        for w, n in list(TWO.items()):
            self.tok[w] = g(n)
        self.tok["<"], self.tok[">"] = g("TOK_LT"), g("TOK_GT")
        self.tok["<<"], self.tok[">>"] = g("TOK_SHL"), g("TOK_SAR")
        for w, n in WORDS.items():
            self.tok[w] = m.enums.get(n)
        self.tok["__builtin_constant"] = None
        self.c = {n: g(n) for n in ("VT_INT", "VT_LVAL", "VT_LOCAL", "VT_CONST", "VT_CMP", "VT_JMP", "VT_JMPI", "VT_VALMASK", "VT_LLOCAL", "VT_BTYPE",
                                    "VT_UNSIGNED", "VT_LLONG", "VT_SYM", "RC_INT", "TOK_CINT", "TOK_LT", "TOK_GT", "VT_VOID", "SYM_FIELD", "VT_PTR")}
        self.c.update({n: g(n) for n in ("TOK_ULT", "TOK_UGE", "TOK_EQ", "TOK_NE", "TOK_ULE", "TOK_UGT", "TOK_LE", "TOK_GE", "TOK_SHR", "TOK_SHL",
                                         "TOK_SAR", "TOK_UDIV", "TOK_UMOD", "TOK_PDIV")})
        missing = [k for k, v in list(self.c.items()) + list(self.tok.items()) if v is None and not k.startswith("__")]
        if missing:
            raise Lost("constants " + " ".join(missing))
        self.uident = max(v for k, v in m.enums.items() if k.startswith("TOK_")) + 1000
        self.names = {}
        f = m.field_off
        self.sv = {n: f("SValue", n) for n in ("type", "r", "r2", "sym", "c", "cmp_op", "jtrue", "jfalse") if f("SValue", n) is not None}
        self.svsize = m.structs["SValue"]["size"]
        for n, o in (("c", 24), ):
            if n not in self.sv:
                raise Lost("SValue." + n)
        self.sy = {n: f("Sym", n) for n in ("v", "r", "c", "type", "prev", "next", "jnext", "prev_tok", "cleanup_label", "ncl") if f("Sym", n) is not None}
        self.iret = 0
        self.isetup = True
        self.vmap = {}
        self.locals = [0] * 0
        self.cmps = {self.c[k]: k for k in ("TOK_ULT", "TOK_UGE", "TOK_EQ", "TOK_NE", "TOK_ULE", "TOK_UGT", "TOK_LT", "TOK_GE", "TOK_LE", "TOK_GT")}

    # ------------------------------------------------------------------ tokens
    def number(self, w):
        """(token, value) of a word"""
        if w.isdigit():
            return self.c["TOK_CINT"], int(w)
        if w in self.tok:
            return self.tok[w], None
        if len(w) == 1 and not w.isalpha():
            return ord(w), None
        if w not in self.names:
            self.names[w] = self.uident + len(self.names)
        return self.names[w], None

    def word(self, t):
        for w, n in self.names.items():
            if n == t:
                return w
        return None

    # ------------------------------------------------------------------ memory helpers
    def g(self, st, name, ty=4):
        v = st.get(("g", name), 0, ty)
        return v if v is not None else ("i", 0)

    def gset(self, st, name, v, ty=4):
        st.put(("g", name), 0, ty, ("i", v) if isinstance(v, int) else v)

    def vtop(self, I, st):
        p = self.g(st, "vtop", 8)
        a, k = I.place(p)
        return a, k

    def field(self, st, p, off, n=4):
        a, k = p
        v = st.get(a, k + off, n)
        if v is None or v[0] != "i":
            if v is not None and v[0] == "undef":
                return None
            return v
        return v[1]

    def emit(self, st, *ev):
        """an abstract instruction at the current place; nothing while code is suppressed"""
        if self.g(st, "nocode_wanted")[1]:
            return None
        i = len(st.x["ev"])
        st.x["ev"] = st.x["ev"] + (ev,)
        self.gset(st, "ind", i + 1)
        return i

    def chain(self, st, jumps):
        if not jumps:
            return ("i", 0)
        h = 100000 + len(st.x["ch"])
        st.x["ch"] = dict(st.x["ch"])
        st.x["ch"][h] = tuple(jumps)
        return ("i", h)

    def jumps(self, st, v):
        if v[0] != "i":
            raise Lost("jump chain %s" % (v,))
        if v[1] == 0:
            return ()
        if v[1] not in st.x["ch"]:
            raise Lost("jump chain")
        return st.x["ch"][v[1]]

    def patch(self, st, v, a):
        t = dict(st.x["to"])
        for j in self.jumps(st, v):
            t[j] = a
        st.x["to"] = t

    # ------------------------------------------------------------------ hooks
    def hooks(self, I):
        m = self

        def first(st, fn, args):
            """run fn, then this call again"""
            fr = st.frames[-1]
            fr.i -= 1
            I.enter(st, m.m.defined[fn], args, None)

        def tail(st, fn, args, x):
            I.enter(st, m.m.defined[fn], args, x)

        def stage(st, k, to=None):
            s = dict(st.x.get("stage", {}))
            key = (len(st.frames), k)
            v = s.get(key, 0)
            if to is not None:
                s[key] = to
                st.x["stage"] = s
            return v

        def nxt(st, a, x):
            s, i = st.x["script"], st.x["pos"] + 1
            st.x["pos"] = i
            t, v = s[i] if i < len(s) else (-1, None)
            m.gset(st, "tok", t)
            if v is not None:
                m.gset(st, "tokc", v, 8)

        def unget(st, a, x):
            st.x["pos"] -= 1
            m.gset(st, "tok", a[0])

        def err(st, a, x):
            return ("end", "error", I.text(st, a[0]) if a else None)

        def pushed(st, r, val, typ=None):
            a, k = m.vtop(I, st)
            k += m.svsize
            m.gset(st, "vtop", ptr(a, k), 8)
            for off in range(0, m.svsize, 8):
                st.put(a, k + off, 8, ("i", 0))
            st.put(a, k + m.sv["type"], 4, ("i", typ if typ is not None else m.c["VT_INT"]))
            st.put(a, k + m.sv["r"], 2, ("i", r))
            st.put(a, k + m.sv["r2"], 2, ("i", m.c["VT_CONST"]))
            st.put(a, k + m.sv["c"], 8, ("i", val))

        def unary(st, a, x):
            t = m.g(st, "tok")[1]
            w = m.word(t)
            if not w or not re.fullmatch(r"E\d+", w):
                tail(st, "unary", a, x)
                return None
            s = stage(st, "u")
            if s == 0:                                  # the call's operands come first on the value stack
                stage(st, "u", 1)
                first(st, "vpushi", [("i", 0)])
                return None
            if s == 1:
                stage(st, "u", 2)
                A, k = m.vtop(I, st)
                m.gset(st, "vtop", ptr(A, k - m.svsize), 8)
                first(st, "save_regs", [("i", 0)])
                return None
            stage(st, "u", 0)
            nxt(st, a, x)
            m.emit(st, "call", int(w[1:]))
            pushed(st, m.iret, 0)
            st.x["seen"] = st.x["seen"] + (int(w[1:]),)

        def sym_find(st, a, x):
            w = m.word(a[0][1]) if a[0][0] == "i" else None
            if not w or w[0] != "V":
                return ("i", 0)
            o = ("ob", "var", int(w[1:]))
            st.put(o, m.sy["type"], 4, ("i", m.c["VT_INT"]))
            st.put(o, m.sy["r"], 2, ("i", m.c["VT_LOCAL"] | m.c["VT_LVAL"]))
            st.put(o, m.sy["c"], 4, ("i", -8 * int(w[1:])))
            return o

        def regs(st, n):
            A, k = m.vtop(I, st)
            out = []
            for j in range(n):
                p = (A, k - (n - 1 - j) * m.svsize)
                r = m.field(st, p, m.sv["r"], 2)
                if r is None or not isinstance(r, int):
                    raise Lost("operand")
                out.append((p, r))
            return out

        def gen_opi(st, a, x):
            op = a[0][1]
            rs = regs(st, 2)
            if any(r & ~m.c["VT_VALMASK"] & 0xffff or r & m.c["VT_VALMASK"] >= m.c["VT_CONST"] for _, r in rs) or (rs[0][1] == rs[1][1] and not m.g(st, "nocode_wanted")[1]):
                if stage(st, "g") > 2:
                    raise Lost("operands in registers")
                stage(st, "g", stage(st, "g") + 1)
                first(st, "gv2", [("i", m.c["RC_INT"]), ("i", m.c["RC_INT"])])
                return None
            stage(st, "g", 0)
            (p, ra), (q, rb) = rs
            m.gset(st, "vtop", ptr(*p), 8)
            if op in m.cmps:
                m.emit(st, "cmp", ra, rb)
                tail(st, "vset_VT_CMP", [("i", op)], x)
            else:
                m.emit(st, "op", op, ra, ra, rb)

        def svread(st, v):
            A, k = I.place(v)
            p = (A, k)
            return m.field(st, p, m.sv["r"], 2), st.get(A, k + m.sv["c"], 8), m.field(st, p, m.sv["type"], 4), st.get(A, k + m.sv["c"], 4)

        def load(st, a, x):
            r = a[0][1]
            vr, c, t, c4 = svread(st, a[1])
            if c is None and c4 is not None:
                c = c4
            if vr is None or c is None or c[0] != "i":
                raise Lost("loaded value")
            base, lv = vr & m.c["VT_VALMASK"], vr & m.c["VT_LVAL"]
            if vr & m.c["VT_SYM"]:
                raise Lost("symbol operand")
            if base == m.c["VT_CONST"] and not lv:
                m.emit(st, "li", r, signed(c[1], 32))
            elif base == m.c["VT_LOCAL"] and lv:
                m.emit(st, "ld", r, signed(c[1], 32))
            elif base == m.c["VT_CMP"]:
                m.emit(st, "setcc", r, c[1] & 0xffff)
            elif base in (m.c["VT_JMP"], m.c["VT_JMPI"]):
                t = base & 1
                m.emit(st, "li", r, t)
                m.emit(st, "skip1")
                v = c4 if c4 is not None else c
                if v[0] == "i" and v[1]:
                    m.patch(st, ("i", signed(v[1], 32)), m.g(st, "ind")[1])
                    nw = m.g(st, "nocode_wanted")[1]
                    m.gset(st, "nocode_wanted", nw & ~m.off)
                    m.emit(st, "li", r, t ^ 1)
                else:
                    m.emit(st, "li", r, t ^ 1)
            elif base < m.c["VT_CONST"] and not lv:
                m.emit(st, "mov", r, base)
            else:
                raise Lost("load of %#x" % vr)

        def store(st, a, x):
            vr, c, t, c4 = svread(st, a[1])
            if vr is None or vr & m.c["VT_VALMASK"] != m.c["VT_LOCAL"] or c is None or c[0] != "i":
                raise Lost("store to %s" % vr)
            m.emit(st, "st", signed(c[1], 32), a[0][1])

        def gjmp(st, a, x):
            i = m.emit(st, "jmp")
            return a[0] if i is None else m.chain(st, m.jumps(st, a[0]) + (i,))

        def gjmp_cond(st, a, x):
            i = m.emit(st, "jcc", a[0][1])
            return a[1] if i is None else m.chain(st, m.jumps(st, a[1]) + (i,))

        def gjmp_append(st, a, x):
            if a[0] == ("i", 0):
                return a[1]
            if a[1] == ("i", 0):
                return a[0]
            h = a[0][1]
            st.x["ch"] = dict(st.x["ch"])
            st.x["ch"][h] = m.jumps(st, a[0]) + m.jumps(st, a[1])
            return a[0]

        def gsym_addr(st, a, x):
            if a[1][0] != "i":
                raise Lost("jump target")
            m.patch(st, a[0], a[1][1])

        def gjmp_addr(st, a, x):
            i = m.emit(st, "jmp")
            if i is not None:
                if a[0][0] != "i":
                    raise Lost("jump target")
                m.patch(st, m.chain(st, (i,)), a[0][1])

        def gfunc_return(st, a, x):
            (p, r), = regs(st, 1)
            if r & ~m.c["VT_VALMASK"] & 0xffff or r & m.c["VT_VALMASK"] >= m.c["VT_CONST"]:
                if stage(st, "r") > 2:
                    raise Lost("returned value")
                stage(st, "r", stage(st, "r") + 1)
                first(st, "gv", [("i", m.c["RC_INT"])])
                return None
            stage(st, "r", 0)
            m.emit(st, "retval", r)
            m.gset(st, "vtop", ptr(p[0], p[1] - m.svsize), 8)

        def qsort(st, a, x):
            n = a[1][1]
            A, k = I.place(a[0])
            items = [st.get(A, k + 8 * j, 8) for j in range(n)]
            cmp = a[3][1] if a[3][0] == "g" else None

            def less(p, q):
                s = State()
                s.mem = {b: dict(o) for b, o in st.mem.items()}
                s.put(("ob", "qa"), 0, 8, p)
                s.put(("ob", "qb"), 0, 8, q)
                r = Interp(m.m, hooks=I.hooks, default=I.default).run(cmp, [("ob", "qa"), ("ob", "qb")], s)
                if len(r) != 1 or r[0][2][0] != "i":
                    raise Lost("order of cases")
                return r[0][2][1]
            out = []
            for v in items:
                i = len(out)
                while i > 0 and less(v, out[i - 1]) < 0:
                    i -= 1
                out.insert(i, v)
            for j, v in enumerate(out):
                st.put(A, k + 8 * j, 8, v)

        def dynarray_add(st, a, x):
            A, k = I.place(a[0])
            B, j = I.place(a[1])
            n = st.get(B, j, 4)
            n = n[1] if n else 0
            p = st.get(A, k, 8)
            if p is None or p == ("i", 0):
                p = I.alloc(st, "arr")
                st.put(A, k, 8, p)
            st.put(I.place(p)[0], 8 * n, 8, a[2])
            st.put(B, j, 4, ("i", n + 1))

        def label_find(st, a, x):
            return st.x["labels"].get(a[0][1], ("i", 0))

        def label_push(st, a, x):
            o = I.alloc(st, "label")
            st.put(o, m.sy["v"], 4, a[1])
            st.put(o, m.sy["r"], 2, a[2])
            st.x["labels"] = dict(st.x["labels"])
            st.x["labels"][a[1][1]] = o
            return o

        def decl1(st, a, x):
            t = m.word(m.g(st, "tok")[1]) or ""
            if re.fullmatch(r"C\d+", t):                # a declaration of a variable with a cleanup
                cs = m.g(st, "cur_scope", 8)
                A, k = I.place(cs)
                o = I.alloc(st, "cleanup")
                off = m.scope
                n = st.get(A, k + off["cl"] + 8, 4)
                n = (n[1] if n else 0) + 1
                st.put(A, k + off["cl"] + 8, 4, ("i", n))
                st.put(o, m.sy["v"], 4, ("i", m.c["SYM_FIELD"] | n))
                var, fun = ("ob", "cvar", int(t[1:])), ("ob", "cfun", int(t[1:]))
                st.put(var, m.sy["r"], 2, ("i", m.c["VT_LOCAL"] | m.c["VT_LVAL"]))
                st.put(var, m.sy["type"], 4, ("i", m.c["VT_INT"]))
                st.put(var, m.sy["c"], 4, ("i", -2000 - 8 * int(t[1:])))
                st.put(o, m.sy["next"], 8, fun)
                st.put(o, m.sy["prev_tok"], 8, var)
                st.put(o, m.sy["ncl"], 8, st.get(A, k + off["cl"], 8) or ("i", 0))
                st.put(A, k + off["cl"], 8, o)
                m.emit(st, "init", int(t[1:]))
                nxt(st, a, x)
                if m.g(st, "tok")[1] == ord(";") and a[0] == ("i", m.c["VT_LOCAL"]):
                    nxt(st, a, x)
                return True
            if re.fullmatch(r"A\d+", t):                # a declaration of a variable-length array
                cs = m.g(st, "cur_scope", 8)
                A, k = I.place(cs)
                off = m.scope["vla"]
                loc = -3000 - 8 * int(t[1:])
                num = st.get(A, k + off + 8, 4)
                num = num[1] if num else 0
                if num == 0:
                    cur = st.get(A, k + off, 4)
                    if cur is None or cur == ("i", 0):
                        st.put(A, k + off + 4, 4, ("i", loc - 4))
                        m.emit(st, "sp_save", loc - 4)
                    else:
                        st.put(A, k + off + 4, 4, cur)
                m.emit(st, "sp_new", int(t[1:]))
                m.emit(st, "sp_save", loc)
                st.put(A, k + off, 4, ("i", loc))
                st.put(A, k + off + 8, 4, ("i", num + 1))
                nxt(st, a, x)
                if m.g(st, "tok")[1] == ord(";") and a[0] == ("i", m.c["VT_LOCAL"]):
                    nxt(st, a, x)
                return True
            return False

        def decl(st, a, x):
            n = 0
            while decl1(st, a, x):
                n = 1
                if a[0] != ("i", m.c["VT_LOCAL"]):
                    break
            return ("i", n)

        def gfunc_call(st, a, x):
            n = a[0][1]
            if stage(st, "f") == 0:
                stage(st, "f", 1)
                first(st, "save_regs", [("i", n + 1)])
                return None
            stage(st, "f", 0)
            A, k = m.vtop(I, st)
            f = (A, k - n * m.svsize)
            s = st.get(A, f[1] + m.sv["sym"], 8)
            if s is None or s[0] != "ob" or s[1] != "cfun":
                raise Lost("call")
            arg = st.get(A, k + m.sv["c"], 8)
            m.emit(st, "cleanup", s[2], arg[1] if arg and arg[0] == "i" else None)
            m.gset(st, "vtop", ptr(A, k - (n + 1) * m.svsize), 8)

        none = lambda st, a, x: None
        zero = lambda st, a, x: ("i", 0)
        return {"next": nxt, "unget_tok": unget, "_tcc_error": err, "expect": err, "_tcc_warning": none, "unary": unary, "sym_find": sym_find,
                "gen_opi": gen_opi, "load": load, "store": store, "gjmp": gjmp, "gjmp_cond": gjmp_cond, "gjmp_append": gjmp_append,
                "gsym_addr": gsym_addr, "gjmp_addr": gjmp_addr, "gfunc_return": gfunc_return, "qsort": qsort, "dynarray_add": dynarray_add,
                "dynarray_reset": none, "label_find": label_find, "label_push": label_push, "label_pop": none, "decl": decl, "gfunc_call": gfunc_call,
                "gen_vla_sp_restore": lambda st, a, x: m.emit(st, "sp_restore", a[0][1]) and None,
                "gen_vla_sp_save": lambda st, a, x: m.emit(st, "sp_save", a[0][1]) and None,
                "sym_malloc": lambda st, a, x: I.alloc(st, "sym"), "sym_free": none, "sym_pop": none, "pop_local_syms": none,
                "tcc_mallocz": lambda st, a, x: I.alloc(st, "zero"), "tcc_malloc": lambda st, a, x: I.alloc(st, "heap"), "tcc_free": none,
                "parse_btype": zero, "parse_attribute": none, "skip_or_save_block": none, "tcc_debug_line": none, "gbound": none,
                "o": lambda st, a, x: m.emit(st, "raw") and None, "check_func_return": none, "get_tok_str": lambda st, a, x: ("sy", "name"),
                "tcc_debug_stabn": none, "pstrcpy": none}

    def start(self, text):
        st = State()
        toks = [self.number(w) for w in words(text)]
        st.x.update(script=toks, pos=0, ev=(), ch={}, to={}, labels={}, seen=())
        self.gset(st, "tok", toks[0][0] if toks else -1)
        if toks and toks[0][1] is not None:
            self.gset(st, "tokc", toks[0][1], 8)
        self.gset(st, "vtop", ("g", self.vst), 8)
        for a, o in self.tables.items():
            st.mem[a] = dict(o)
        st.put(("g", "int_type"), 0, 4, ("i", self.c["VT_INT"]))
        st.put(("g", "func_vt"), 0, 4, ("i", self.c["VT_INT"]))
        self.gset(st, "ind", 0)
        self.gset(st, "loc", -1000)
        self.gset(st, "nocode_wanted", 0)
        self.gset(st, "local_scope", 1)
        off = self.m.field_off("TCCState", "gnu_ext")
        if off is not None:
            st.put(("ob", "state"), off, 1, ("i", 1))
        self.gset(st, "gnu_ext", 1)
        self.gset(st, "cur_scope", ("ob", "rootscope"), 8)
        self.gset(st, "root_scope", ("ob", "rootscope"), 8)
        self.gset(st, "funcname", ("i", 0), 8)
        self.gset(st, "tcc_state", ("ob", "state"), 8)
        return st

    def prepare(self):
        m = self.m
        f = m.field_off
        self.scope = {"vla": f("scope", "vla"), "cl": f("scope", "cl")}
        if None in self.scope.values():
            raise Lost("struct scope")
        self.vst = next((n for n in ("_vstack", "vstack") if n in m.globals), None)
        for n in ("vtop", "ind", "nocode_wanted", "tok", "tokc", "loc", "cur_scope", "local_scope", "rsym"):
            if n not in m.globals:
                raise Lost("global " + n)
        if self.vst is None:
            raise Lost("the value stack")
        self.off = 0x20000000
        self.tables = {}
        if "init_prec" in m.defined:
            r = Interp(m, default=lambda st, a, k, ty: None, maxsteps=200000).run("init_prec", [])
            if len(r) == 1:
                self.tables = {a: o for a, o in r[0][0].mem.items() if a[0] == "g"}

    def lower(self, text, fn="block", args=(("i", 0),), init=None):
        """[(events, targets, how, state)]"""
        def default(st, a, k, ty):
            if a[0] == "g" and not self.m.globals.get(a[1], {}).get("const"):
                if a[1] == "reg_classes" or a[1] == "prec":
                    return None
                return ("i", 0)
            if a[0] in ("ob",):
                return ("i", 0)
            return None
        def decide(c, st):
            raise Lost("branch on %s in %s" % (c, [f.f.name for f in st.frames]))
        I = Interp(self.m, default=default, decide=decide, maxsteps=200000, maxstates=2)
        I.hooks = self.hooks(I)
        st = self.start(text)
        if init:
            init(st)
        r = I.run(fn, list(args), st)
        if len(r) != 1:
            raise Lost("the way through %s depends on something unknown: %s" % (fn, [s.conds[-1:] for s, _, _ in r][:2]))
        s, how, v = r[0]
        if how == "ret":
            if self.g(s, "rsym")[1]:
                self.patch(s, self.g(s, "rsym"), len(s.x["ev"]))
        self.I = I
        return s.x["ev"], s.x["to"], how, s, v
