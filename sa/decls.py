"""Declarations followed through the compiler's parser: the types it builds, as trees."""
import re
from .interp import Interp, State, Lost, ptr, signed, size
from .lower import Lower, words, WORDS

SPEC = {"char": "TOK_CHAR", "void": "TOK_VOID", "short": "TOK_SHORT", "int": "TOK_INT", "long": "TOK_LONG", "float": "TOK_FLOAT", "double": "TOK_DOUBLE",
        "_Bool": "TOK_BOOL", "signed": "TOK_SIGNED1", "unsigned": "TOK_UNSIGNED", "struct": "TOK_STRUCT", "union": "TOK_UNION", "enum": "TOK_ENUM",
        "const": "TOK_CONST1", "volatile": "TOK_VOLATILE1", "restrict": "TOK_RESTRICT1", "typedef": "TOK_TYPEDEF", "extern": "TOK_EXTERN",
        "static": "TOK_STATIC", "inline": "TOK_INLINE1", "register": "TOK_REGISTER", "auto": "TOK_AUTO", "__attribute__": "TOK_ATTRIBUTE2",
        "aligned": "TOK_ALIGNED1", "packed": "TOK_PACKED1", "sizeof": "TOK_SIZEOF", "_Alignof": "TOK_ALIGNOF3", "_Alignas": "TOK_ALIGNAS",
        "__const": "TOK_CONST2", "__signed": "TOK_SIGNED2", "__volatile": "TOK_VOLATILE2", "__inline": "TOK_INLINE2", "__extension__": "TOK_EXTENSION",
        "typeof": "TOK_TYPEOF1", "__typeof__": "TOK_TYPEOF3", "_Atomic": "TOK__Atomic", "_Noreturn": "TOK_NORETURN3",
        "__const__": "TOK_CONST3", "__signed__": "TOK_SIGNED3", "__volatile__": "TOK_VOLATILE3", "__restrict": "TOK_RESTRICT2",
        "__restrict__": "TOK_RESTRICT3", "__attribute": "TOK_ATTRIBUTE1", "__aligned__": "TOK_ALIGNED2", "__packed__": "TOK_PACKED2"}
VT = ("VT_BTYPE", "VT_VOID", "VT_BYTE", "VT_SHORT", "VT_INT", "VT_LLONG", "VT_PTR", "VT_FUNC", "VT_STRUCT", "VT_FLOAT", "VT_DOUBLE", "VT_LDOUBLE",
      "VT_BOOL", "VT_UNSIGNED", "VT_ARRAY", "VT_BITFIELD", "VT_CONSTANT", "VT_VOLATILE", "VT_VLA", "VT_LONG", "VT_EXTERN", "VT_STATIC", "VT_TYPEDEF",
      "VT_INLINE", "VT_UNION", "VT_ENUM", "SYM_STRUCT", "SYM_FIELD", "SYM_FIRST_ANOM", "VT_CONST", "VT_STRUCT_MASK", "VT_LVAL")


class Decls(Lower):
    def __init__(self, m, mac):
        super().__init__(m, mac)
        for w, n in SPEC.items():
            v = m.enums.get(n)
            if v is None and w[0] != "_":
                raise Lost("constant " + n)
            if v is not None:
                self.tok[w] = v
        for n in VT:
            v = mac.get(n)
            if v is None:
                raise Lost("constant " + n)
            self.c[n] = v
        self.clong = mac.get("TOK_CLONG")
        if self.clong is None:
            raise Lost("constant TOK_CLONG")
        f = m.field_off
        for n in ("auxtype", "enum_val", "f", "a"):
            self.sy[n] = f("Sym", n)
        self.ct = {n: f("CType", n) for n in ("t", "ref")}
        self.packoff = f("TCCState", "pack_stack_ptr")
        if None in self.ct.values() or self.packoff is None or not f("Sym", "next"):
            raise Lost("structures of the compiler")
        if "probe_bitpos" not in m.defined:
            raise Lost("the compiler's structures")

    # ------------------------------------------------------------------
    def hooks(self, I):
        m = self
        H = super().hooks(I)

        def sym_push(st, a, x):
            o = I.alloc(st, "sym")
            A, k = I.place(a[1])
            st.put(o, m.sy["v"], 4, a[0])
            st.put(o, m.sy["r"], 2, a[2])
            st.put(o, m.sy["c"], 4, ("i", a[3][1]))
            st.put(o, m.sy["c"] + 4, 4, ("i", 0))
            st.put(o, m.sy["type"] + m.ct["t"], 4, st.get(A, k + m.ct["t"], 4) or ("i", 0))
            st.put(o, m.sy["type"] + m.ct["ref"], 8, st.get(A, k + m.ct["ref"], 8) or ("i", 0))
            st.put(o, m.sy["next"], 8, ("i", 0))
            st.put(o, m.sy["prev"], 8, st.x["top"])
            st.x["top"] = o
            if a[0][0] == "i" and not a[0][1] & m.c["SYM_FIELD"]:
                st.x["syms"] = st.x["syms"] + ((a[0][1], o),)
            return o

        def sym_pop(st, a, x):
            b, syms = a[1], []
            live, o = set(), b
            while o and o[0] == "ob":
                live.add(o)
                o = st.get(o, m.sy["prev"], 8)
            st.x["syms"] = tuple((v, s) for v, s in st.x["syms"] if s in live)
            if a[2] == ("i", 0):
                st.x["top"] = b

        def find(tag):
            def h(st, a, x):
                if a[0][0] != "i":
                    raise Lost("name")
                for v, o in reversed(st.x["syms"]):
                    if v == (a[0][1] | tag):
                        return o
                return ("i", 0)
            return h

        def record(kind, ti, vi, ai):
            def h(st, a, x):
                A, k = I.place(a[ti])
                o = sym_push(st, [a[vi], a[ti], ("i", 0), ("i", 0)], x)
                st.x["decls"] = st.x["decls"] + ((m.word(a[vi][1]), kind, st.get(A, k + m.ct["t"], 4), st.get(A, k + m.ct["ref"], 8),
                                                  m.probe(st, "probe_adaligned", [a[ai]])),)
                return o
            return h

        def no(st, a, x):
            return None

        def save_block(st, a, x):                       # the tokens of an expression, to be read again later
            s, i, d = st.x["script"], st.x["pos"], 0
            k = i
            while k < len(s):
                t = s[k][0]
                if t in (ord("("), ord("["), ord("{")):
                    d += 1
                elif t in (ord(")"), ord("]"), ord("}")):
                    if d == 0:
                        break
                    d -= 1
                elif d == 0 and t in (ord(","), ord(";")):
                    break
                k += 1
            o = I.alloc(st, "block")
            st.x["blocks"] = {**st.x.get("blocks", {}), o: i}
            A, off = I.place(a[0])
            if A is not None and A != ("abs",):
                st.put(A, off, 8, o)
            st.x["pos"] = k
            m.gset(st, "tok", s[k][0])

        def begin(st, a, x):
            i = st.x.get("blocks", {}).get(a[0])
            if i is None:
                raise Lost("token list")
            st.x["macro"] = st.x.get("macro", ()) + (st.x["pos"],)
            st.x["pos"] = i - 1

        def end(st, a, x):
            st.x["pos"] = st.x["macro"][-1]
            st.x["macro"] = st.x["macro"][:-1]
        H.update({"sym_push": sym_push, "sym_pop": sym_pop, "sym_find": find(0), "struct_find": find(m.c["SYM_STRUCT"]), "check_fields": no,
                  "external_sym": record("ext", 1, 0, 3), "decl_initializer_alloc": record("obj", 0, 4, 1), "tcc_debug_typedef": no,
                  "tcc_debug_fix_anon": no, "skip_or_save_block": save_block, "begin_macro": begin, "end_macro": end, "tok_str_free_str": no,
                   "get_tok_str": lambda st, a, x: ("sy", "name")})
        for n in ("decl", "parse_btype", "parse_attribute", "unary"):
            H.pop(n, None)
        return H

    def probe(self, st, fn, args):
        known = (fn, args[0][1]) if args[0][0] == "i" else None
        if known in self.cache:
            return self.cache[known]
        s = State()
        s.mem = st.mem                                  # these only read
        r = Interp(self.m, default=lambda st, a, k, ty: ("i", 0)).run(fn, list(args), s)
        if len(r) != 1 or r[0][2] is None or r[0][2][0] != "i":
            raise Lost(fn)
        if known:
            self.cache[known] = r[0][2][1]
        return r[0][2][1]

    def start(self, text):
        st = super().start(text)
        st.x.update(syms=(), decls=(), top=("i", 0))
        for n in ("tok", "tokc"):
            pass
        self.gset(st, "local_scope", 0)
        self.gset(st, "anon_sym", self.c["SYM_FIRST_ANOM"] + 100)
        st.put(("ob", "state"), self.packoff, 8, ("ob", "pack"))
        st.put(("ob", "pack"), 0, 4, ("i", self.packing))
        st.put(("g", "func_old_type"), 0, 4, ("i", self.c["VT_FUNC"]))
        return st

    packing = 0
    cache = {}

    def declare(self, text, packing=0):
        """[(name, tree, storage, aligned)] in order, with the state they live in; or the compiler's message"""
        self.packing = packing
        ev, to, how, st, v = self.lower(text + " EOF", "decl", [("i", self.c["VT_CONST"])])
        if how != "ret":
            return (v.decode(errors="replace") if isinstance(v, bytes) else "rejected"), None
        if st.x["pos"] < len(st.x["script"]) - 1:
            return "not read to its end", None
        return None, st

    def number(self, w):
        if w == "EOF":
            return -1, None
        if w.isdigit() and int(w) >= 1 << 31:
            return self.clong, int(w)
        return super().number(w)

    # ------------------------------------------------------------------ the types as trees
    def tree(self, st, t, ref, depth=0):
        c = self.c
        if depth > 12 or t is None or t[0] != "i":
            raise Lost("type")
        t = t[1]
        b = t & c["VT_BTYPE"]
        q = ("c" if t & c["VT_CONSTANT"] else "") + ("v" if t & c["VT_VOLATILE"] else "")
        sub = lambda o: self.tree(st, st.get(o, self.sy["type"] + self.ct["t"], 4), st.get(o, self.sy["type"] + self.ct["ref"], 8), depth + 1)
        if b == c["VT_PTR"]:
            if t & c["VT_VLA"]:
                return ("vla", sub(ref))
            if t & c["VT_ARRAY"]:
                n = st.get(ref, self.sy["c"], 4)
                return ("array", n[1] if n and n[0] == "i" else None, sub(ref))
            return ("pointer", q, sub(ref))
        if b == c["VT_FUNC"]:
            k = self.probe(st, "probe_functype", [ref])
            ps, o = [], st.get(ref, self.sy["next"], 8)
            while o and o[0] == "ob":
                ps.append(sub(o))
                o = st.get(o, self.sy["next"], 8)
            return ("function", sub(ref), tuple(ps), k)
        if b == c["VT_STRUCT"]:
            v = st.get(ref, self.sy["v"], 4)
            return ("struct", q, ref)
        if self.probe(st, "probe_isenum", [("i", t)]):
            return ("enum", q, ref, self.basic(t & ~(c["VT_STRUCT_MASK"] & ~c["VT_BITFIELD"]) | (t & c["VT_UNSIGNED"]), b))
        return ("basic", q, self.basic(t, b))

    def basic(self, t, b):
        c = self.c
        u = bool(t & c["VT_UNSIGNED"])
        if b == c["VT_BYTE"]:
            return "unsigned char" if u else "signed char" if t & self.defsign else "char"
        if b == c["VT_SHORT"]:
            return "unsigned short" if u else "short"
        if b == c["VT_INT"]:
            return "unsigned int" if u else "int"
        if b == c["VT_LLONG"]:
            return ("unsigned " if u else "") + ("long" if t & c["VT_LONG"] else "long long")
        for n, w in (("VT_VOID", "void"), ("VT_FLOAT", "float"), ("VT_DOUBLE", "double"), ("VT_LDOUBLE", "long double"), ("VT_BOOL", "_Bool")):
            if b == c[n]:
                return w
        raise Lost("type %#x" % t)

    defsign = 0

    def sizes(self, st, t, ref):
        """(size, alignment) as type_size gives them"""
        s = State()
        s.mem = dict(st.mem)
        T, A = ("ob", "qtype"), ("ob", "qalign")
        s.put(T, self.ct["t"], 4, t)
        s.put(T, self.ct["ref"], 8, ref if ref is not None else ("i", 0))
        r = Interp(self.m, default=lambda st, a, k, ty: ("i", 0) if a[0] == "ob" else None).run("type_size", [T, A], s)
        if len(r) != 1 or r[0][2][0] != "i":
            raise Lost("type_size")
        a = r[0][0].get(A, 0, 4)
        return r[0][2][1], a[1] if a else 0

    def members(self, st, ref):
        """[(name or None, type word, ref, offset in bits, width or None, access type, object)]"""
        out, o = [], st.get(ref, self.sy["next"], 8)
        while o and o[0] == "ob":
            t = st.get(o, self.sy["type"] + self.ct["t"], 4)
            r = st.get(o, self.sy["type"] + self.ct["ref"], 8)
            off = st.get(o, self.sy["c"], 4)[1]
            v = st.get(o, self.sy["v"], 4)[1] & ~self.c["SYM_FIELD"]
            name = self.word(v) if v < self.c["SYM_FIRST_ANOM"] else None
            if self.probe(st, "probe_isbf", [t]):
                aux = st.get(o, self.sy["auxtype"], 4)
                out.append((name, t, r, 8 * off + self.probe(st, "probe_bitpos", [t]), self.probe(st, "probe_bitsize", [t]), aux[1] if aux else None, o))
            else:
                out.append((name, t, r, 8 * off, None, None, o))
            o = st.get(o, self.sy["next"], 8)
        return out
