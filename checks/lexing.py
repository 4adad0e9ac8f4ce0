"""C53: the source text is split into the tokens C defines, and constants have the value and type C gives them."""
import re
from concurrent.futures import ProcessPoolExecutor
from fractions import Fraction
from sa.build import Tree
from sa.ir import Module
from sa.interp import Interp, State, Lost, ptr, size

FILE, S1 = ("ob", "file"), ("ob", "s1")
PUNCT = ["[", "]", "(", ")", "{", "}", ".", "->", "++", "--", "&", "*", "+", "-", "~", "!", "/", "%", "<<", ">>", "<", ">", "<=", ">=", "==", "!=",
         "^", "|", "&&", "||", "?", ":", ";", "...", "=", "*=", "/=", "%=", "+=", "-=", "<<=", ">>=", "&=", "^=", "|=", ",", "#", "##"]
NAMED = {"<": "LT", ">": "GT", "<=": "LE", ">=": "GE", "==": "EQ", "!=": "NE", "&&": "LAND", "||": "LOR", "++": "INC", "--": "DEC", "->": "ARROW",
         "...": "DOTS", "<<": "SHL", ">>": "SAR", "##": "TWOSHARPS", "+=": "A_ADD", "-=": "A_SUB", "*=": "A_MUL", "/=": "A_DIV", "%=": "A_MOD",
         "&=": "A_AND", "|=": "A_OR", "^=": "A_XOR", "<<=": "A_SHL", ">>=": "A_SAR"}
SPACE = " \t\f\v\r"
MEMO = {}


# ---------------------------------------------------------------------- what C says
class Bad(Exception):
    pass


def splice(text):
    """translation phase 2: the characters and the line each one is on"""
    out, line, i = [], 1, 0
    while i < len(text):
        m = re.match(r"\\\r?\n", text[i:i + 3])
        if m:
            line, i = line + 1, i + m.end()
            continue
        out.append((text[i], line))
        line += text[i] == "\n"
        i += 1
    return out, line


def tokens(text):
    """translation phase 3: [(kind, spelling, line, blank before, first on its line)] and the number of the last line"""
    ch, last = splice(text)
    s = "".join(c for c, _ in ch)
    out, i, blank, first = [], 0, False, True
    puncts = sorted(PUNCT, key=len, reverse=True) + ["@", "`", "\\"][:1]
    while i < len(s):
        c = s[i]
        if c == "\n":
            out.append(("nl", "\n", ch[i][1], blank, first))
            i, blank, first = i + 1, False, True
            continue
        if c in SPACE:
            i, blank = i + 1, True
            continue
        if s.startswith("/*", i):
            j = s.find("*/", i + 2)
            if j < 0:
                raise Bad("comment")
            i, blank = j + 2, True
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            i, blank = (len(s) if j < 0 else j), True
            continue
        m = re.compile(r"\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_$.\x80-\xff])*").match(s, i)
        kind = "num"
        if not m:
            m, kind = re.compile(r"""L?(?:"(?:\\[^\n]|[^"\\\n])*"|'(?:\\[^\n]|[^'\\\n])*')""").match(s, i), "str"
        if not m and c in "\"'":
            raise Bad("quote")
        if not m:
            m, kind = re.compile(r"[A-Za-z_$\x80-\xff][0-9A-Za-z_$\x80-\xff]*").match(s, i), "id"
        if m:
            w = m.group()
        else:
            kind = "op"
            w = next((p for p in puncts if s.startswith(p, i)), None)
            if w is None:
                raise Bad(c)
        out.append((kind, w, ch[i + len(w) - 1][1], blank, first))
        i, blank, first = i + len(w), False, False
    return out, last


def escapes(body, wide):
    """the elements of a string, as numbers; body is the text between the quotes"""
    out, i = [], 0
    while i < len(body):
        c = body[i]
        if c == "\\":
            m = re.compile(r"\\(?:([0-7]{1,3})|x([0-9a-fA-F]+)|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8})|(.))", re.S).match(body, i)
            i = m.end()
            if m.group(1):
                out.append(int(m.group(1), 8))
            elif m.group(2):
                out.append(int(m.group(2), 16))
            elif m.group(3) or m.group(4):
                n = int(m.group(3) or m.group(4), 16)
                out += [n] if wide else list(chr(n).encode("utf-8"))
            else:
                out.append({"a": 7, "b": 8, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11, "e": 27}.get(m.group(5), ord(m.group(5))))
            continue
        if wide and ord(c) >= 0x80:
            j = i
            while j < len(body) and ord(body[j]) >= 0x80:
                j += 1
            out += [ord(x) for x in body[i:j].encode("latin-1").decode("utf-8")]
            i = j
            continue
        out.append(ord(c))
        i += 1
    return out


def integer(text):
    """(token, value) of an integer constant, None if it is not one"""
    m = re.match(r"(?:(0[xX])([0-9a-fA-F]+)|(0[bB])([01]+)|([0-9]+))(?:([uU])?(ll|LL|l|L)?|(ll|LL|l|L)([uU]))$", text)
    if not m or m.group(5) and m.group(5)[0] == "0" and re.search("[89]", m.group(5)):
        return None
    b = 16 if m.group(1) else 2 if m.group(3) else 8 if m.group(5)[0] == "0" else 10
    v = int(m.group(2) or m.group(4) or m.group(5), b)
    u, l = bool(m.group(6) or m.group(9)), len(m.group(7) or m.group(8) or "")
    if v >> 64 or b == 10 and not u and v >> 63:
        return "big"
    types = [(r, s) for r in range(l, 3) for s in ((1,) if u else (0,) if b == 10 else (0, 1))]
    for r, s in types:
        if v < 1 << ((31 if r == 0 else 63) + s):
            return ("TOK_C" + ("U" if s else "") + ("INT", "LONG", "LLONG")[r], v)


FLOATS = {"f": ("TOK_CFLOAT", 24, -149, 128), "": ("TOK_CDOUBLE", 53, -1074, 1024), "l": ("TOK_CLDOUBLE", 64, -16445, 16384)}


def rounded(x, digits, least, top=None):
    """to the nearest number with so many binary digits, ties to even"""
    if x == 0:
        return x
    neg, x = x < 0, abs(x)
    e = x.numerator.bit_length() - x.denominator.bit_length()
    e = e if x >= Fraction(2) ** e else e - 1
    u = Fraction(2) ** max(e - digits + 1, least)
    q, r = divmod(x, u)
    q += r * 2 > u or r * 2 == u and q & 1
    v = q * u
    if top is not None and v >= Fraction(2) ** top:
        return "inf"
    return -v if neg else v


def floating(text):
    """(token, value or the decimal text) of a floating constant, None if it is not one"""
    m = re.match(r"0[xXbB]([0-9a-fA-F]*)(?:\.([0-9a-fA-F]*))?[pP]([+-]?[0-9]+)([fFlL]?)$", text)
    if m:
        b = 16 if text[1] in "xX" else 2
        a, f = m.group(1), m.group(2) or ""
        if not a + f or b == 2 and set(a + f) - set("01"):
            return None
        tok, digits, least, top = FLOATS[m.group(4).lower()]
        v = Fraction(int(a + f, b)) / b ** len(f) * Fraction(2) ** int(m.group(3))
        return tok, rounded(v, digits, least, top)
    m = re.match(r"((?:[0-9]+\.[0-9]*|\.[0-9]+)(?:[eE][+-]?[0-9]+)?|[0-9]+[eE][+-]?[0-9]+)([fFlL]?)$", text)
    if m:
        return FLOATS[m.group(2).lower()][0], m.group(1)
    return None


# ---------------------------------------------------------------------- the functions, followed
class Fp(Interp):
    """with floating-point arithmetic on known values"""
    sizes = None
    FMT = {"float": (24, -149, 128), "double": (53, -1074, 1024), "x86_fp80": (64, -16445, 16384)}

    def number(self, v, ty):
        if v[0] == "fp":
            return v[1]
        if v[0] == "bits" and ty == "double":
            import struct
            return Fraction(struct.unpack("<d", struct.pack("<Q", v[1] & (1 << 64) - 1))[0])
        if v[0] == "bits" and ty == "float":
            import struct
            return Fraction(struct.unpack("<f", struct.pack("<I", v[1] & 0xffffffff))[0])
        if v[0] == "bits" and ty == "x86_fp80":
            w = v[1] & (1 << 80) - 1
            e, f = w >> 64 & 0x7fff, w & (1 << 64) - 1
            return (-1 if w >> 79 else 1) * Fraction(f) * Fraction(2) ** (e - 16383 - 63)
        return None

    def step(self, st, fr, x):
        op = x.op
        if op == "alloca" and x.d.get("size") and self.sizes is not None:
            self.sizes["sl", fr.id, x.id] = x.d["size"]
        if op in ("uitofp", "sitofp") and x.ty in self.FMT:
            v = self.val(fr.regs, x.ops[0], fr)
            if v[0] == "i":
                w = int((x.d.get("sty") or "i64")[1:])
                n = v[1] & (1 << w) - 1
                if op == "sitofp" and n >> w - 1:
                    n -= 1 << w
                return ("fp", rounded(Fraction(n), *self.FMT[x.ty]))
        elif op in ("fadd", "fsub", "fmul", "fdiv") and x.ty in self.FMT:
            a, b = (self.number(self.val(fr.regs, x.ops[k], fr), x.ty) for k in (0, 1))
            if isinstance(a, Fraction) and isinstance(b, Fraction) and not (op == "fdiv" and b == 0):
                r = a + b if op == "fadd" else a - b if op == "fsub" else a * b if op == "fmul" else a / b
                return ("fp", rounded(r, *self.FMT[x.ty]))
        elif op in ("fpext", "fptrunc") and x.ty in self.FMT:
            v = self.val(fr.regs, x.ops[0], fr)
            n = self.number(v, x.d.get("sty") or "double")
            if isinstance(n, Fraction):
                return ("fp", rounded(n, *self.FMT[x.ty]))
            if n is not None:
                return ("fp", n)
        elif op == "select":
            c = self.val(fr.regs, x.ops[0], fr)
            if c[0] != "i" and x.ty in self.FMT:
                raise Lost("floating select")
        return Interp.step(self, st, fr, x)


class Boot(Interp):
    """where cleared memory is of no interest"""
    def x_memset(self, st, a):
        return a[0]


class Lexer:
    def __init__(self, t=None):
        t = t or Tree()
        self.m = m = Module(t.dump("tcc"))
        mac = t.macros()
        self.value = lambda n: mac.get(n) if mac.get(n) is not None else m.enums.get(n)
        self.names = {}
        f = m.field_off
        self.f = {n: f("BufferedFile", n) for n in ("buf_ptr", "buf_end", "fd", "line_num", "buffer")}
        self.data, self.ids, self.table = f("CString", "data"), {}, None
        self.kinds = {w: self.value("TOK_" + NAMED[w]) if w in NAMED else ord(w) for w in PUNCT}
        self.sizes = {}
        self.back = {v: w for w, v in self.kinds.items()}
        self.chain = None

    # objects whose memory is not written hold nothing
    def default(self, st, a, k, ty):
        if a == S1 and ty != "ptr":
            return ("i", int(k in [self.m.field_off("TCCState", n) for n in ("tcc_ext", "gnu_ext")]))
        if a[0] == "g" and a[1] == "hash_ident":
            return self.chain or ("i", 0)
        if a[0] == "g" and a[1] == "isidnum_table" and self.table is not None:
            return self.table.get(k, ("i", 0))
        if a == ("g", "tcc_state"):
            return S1
        if a[0] == "g" and a[1] in ("tokcstr", "cstr_buf", "total_bytes"):
            return ("i", 0)
        if a == FILE:
            return ("i", 0)
        return None

    def grow(self, st, a, x):
        o = Interp(self.m).alloc(st, "text") if a[0] == ("i", 0) else a[0]
        self.sizes[o] = a[1][1] if a[1][0] == "i" else 1 << 40
        return o

    def room(self, st, a, x):
        return self.grow(st, (("i", 0), a[0]), x)

    def ident(self, name):
        self.ids.setdefault(name, len(self.ids))
        return ("ob", "ident", self.ids[name])

    def hooks(self):
        m = self.m
        tok, o = m.field_off("TokenSym", "tok"), {}

        def name(st, p, n):
            I = Interp(m, default=self.default)
            out = b""
            for k in range(n[1]):
                v = I.load(st, ptr(p, k), "i8")
                if v[0] != "i":
                    raise Lost("name")
                out += bytes([v[1] & 255])
            i = self.ident(out)
            st.put(i, tok, 4, ("i", 0x10000 + i[2]))
            return i
        o["tok_alloc_new"] = lambda st, a, x: name(st, a[1], a[2])
        o["tok_alloc"] = lambda st, a, x: name(st, a[0], a[1])
        o["tcc_realloc"] = self.grow
        o["tcc_malloc"] = self.room
        o["tcc_free"] = lambda st, a, x: None
        err = lambda st, a, x: ("end", "error", None)
        for n in ("_tcc_error", "_tcc_error_noabort", "expect"):
            o[n] = err
        o["_tcc_warning"] = lambda st, a, x: st.log.append(("warning",))

        def read(st, a, x):
            if not st.x.get("chunks"):
                return ("i", 0)
            c, st.x["chunks"] = st.x["chunks"][0], st.x["chunks"][1:]
            b, k = Interp(m).place(a[1])
            if b is None:
                raise Lost("read")
            for j, y in enumerate(c):
                st.put(b, k + j, 1, ("i", y - 256 if y > 127 else y))
            return ("i", len(c))
        o["read"] = read

        def directive(st, a, x):
            """a directive's text is skipped up to and with its newline"""
            I = Interp(m, default=self.default)
            p = I.load(st, ptr(FILE, self.f["buf_ptr"]), "ptr")
            for k in range(4000):
                v = I.load(st, ptr(p, k), "i8")
                if v[0] != "i":
                    raise Lost("directive")
                if v[1] == 10:
                    st.put(FILE, self.f["buf_ptr"], 8, ptr(p, k + 1))
                    n = st.get(FILE, self.f["line_num"], 4)
                    st.put(FILE, self.f["line_num"], 4, ("i", n[1] + 1))
                    st.log.append(("directive",))
                    return ("i", 0)
            raise Lost("directive")
        o["preprocess"] = directive
        o["tcc_debug_eincl"] = o["tcc_close"] = lambda st, a, x: None
        for n, k in (("strtof", "f"), ("strtod", "d"), ("strtold", "l")):
            o[n] = o["__isoc23_" + n] = lambda st, a, x, k=k: ("dec", k, Interp(m, default=self.default).text(st, a[0]))

        def scale(k):
            def h(st, a, x):
                if a[0][0] == "fp" and isinstance(a[0][1], Fraction) and a[1][0] == "i":
                    return ("fp", rounded(a[0][1] * Fraction(2) ** a[1][1], *Fp.FMT[k]) if abs(a[1][1]) < 1 << 18 else Fraction(0) if a[1][1] < 0 else "inf")
                raise Lost("ldexp")
            return h
        o["ldexp"], o["ldexpl"], o["ldexpf"] = scale("double"), scale("x86_fp80"), scale("float")
        o["scalbn"], o["scalbnl"], o["scalbnf"] = o["ldexp"], o["ldexpl"], o["ldexpf"]
        def muladd(st, a, x):
            n = [Fp(m).number(v, x.ty) for v in a]
            if not all(isinstance(v, Fraction) for v in n):
                raise Lost("fmuladd")
            return ("fp", rounded(rounded(n[0] * n[1], *Fp.FMT[x.ty]) + n[2], *Fp.FMT[x.ty]))
        for n in ("f32", "f64", "f80"):
            o["llvm.fmuladd." + n] = o["llvm.fma." + n] = muladd
        o["__errno_location"] = lambda st, a, x: ("sy", "errno")
        return o

    def interp(self, **kw):
        I = Fp(self.m, hooks=self.hooks(), default=self.default, **dict(dict(maxsteps=60000, maxstates=20), **kw))
        self.sizes = I.sizes = {}
        return I

    def overrun(self, st):
        """the object written beyond its end, if there is one"""
        for a, o in st.mem.items():
            n = self.sizes.get(a)
            if n is None and a[0] == "g":
                n = (self.m.globals.get(a[1]) or {}).get("size")
            if n and any(k + w[0] > n or k < 0 for k, w in o.items()):
                return "the %d bytes of %s" % (n, a[1] if a[0] == "g" else "a local buffer" if a[0] == "sl" else "an allocated buffer")

    def run(self, fn, args, st, **kw):
        r = self.interp(**kw).run(fn, args, st)
        if len(r) != 1:
            raise Lost("%d ways through %s" % (len(r), fn))
        return r[0]

    def classes(self):
        """the table of character classes as it is when the compiler starts"""
        h = self.hooks()
        for n in ("tal_new", "cstr_new", "cstr_realloc", "tok_str_new", "tok_str_realloc", "define_push"):
            h[n] = lambda st, a, x: ("i", 0)
        h["tok_alloc"] = lambda st, a, x: ("i", 0)
        st = State()
        I = Boot(self.m, hooks=h, default=self.default, maxsteps=600000, maxstates=4)
        r = I.run("tccpp_new", [S1], st)
        if len(r) != 1:
            raise Lost("tccpp_new")
        t = {}
        for k, (n, v) in r[0][0].mem.get(("g", "isidnum_table"), {}).items():
            for j in range(n):
                t[k + j] = ("i", v[1] >> 8 * j & 255) if v[0] == "i" else v
        if len(t) < 200:
            raise Lost("character classes")
        e = -self.value("CH_EOF") if isinstance(self.value("CH_EOF"), int) else 1
        t[e + ord("$")] = t[e + ord("a")]
        self.table = t

    def start(self, chunks, flags):
        st = State()
        buf = ptr(FILE, self.f["buffer"])
        st.put(("g", "file"), 0, 8, FILE)
        for n, v in (("buf_ptr", buf), ("buf_end", buf)):
            st.put(FILE, self.f[n], 8, v)
        st.put(FILE, self.f["fd"], 4, ("i", 5))
        st.put(FILE, self.f["line_num"], 4, ("i", 1))
        st.put(FILE, self.f["buffer"], 1, ("i", ord("\\")))
        o = self.m.field_off
        for b, n in ((S1, "ifdef_stack_ptr"), (FILE, "ifdef_stack_ptr")):
            st.put(b, o("TCCState" if b == S1 else "BufferedFile", n), 8, ptr(S1, o("TCCState", "ifdef_stack")))
        st.put(S1, o("TCCState", "include_stack_ptr"), 8, ptr(S1, o("TCCState", "include_stack")))
        st.put(("g", "tok_flags"), 0, 4, ("i", self.value("TOK_FLAG_BOL") | self.value("TOK_FLAG_BOF")))
        st.put(("g", "parse_flags"), 0, 4, ("i", flags))
        st.x["chunks"] = chunks
        return st

    def split(self, text, flags=0, width=None, cut=None):
        """the tokens next_nomacro finds: [(kind, spelling, line)], the last line's number, or "error" """
        b = text.encode("latin-1")
        if width:
            chunks = tuple(b[k:k + width] for k in range(0, len(b), width))
        elif cut:
            chunks = (b[:cut], b[cut:])
        else:
            chunks = (b,)
        st = self.start(chunks, flags)
        out = []
        I = self.interp(maxsteps=20000)
        eof, num, s_, nl = (self.value("TOK_" + n) for n in ("EOF", "PPNUM", "PPSTR", "LINEFEED"))
        for _ in range(2 * len(text) + 10):
            try:
                r = I.run("next_nomacro", [], st)
            except Lost as e:
                if str(e).startswith("steps in"):
                    break
                raise
            if len(r) != 1:
                raise Lost("ways of next_nomacro")
            st, how, _v = r[0]
            if how == "error":
                return out, "error", st
            if how != "ret":
                raise Lost(how)
            st.conds, st.n = (), 0
            t = st.get(("g", "tok"), 0, 4)
            line = st.get(FILE, self.f["line_num"], 4)
            if t is None or t[0] != "i" or line is None or line[0] != "i":
                raise Lost("token")
            t, line = t[1], line[1]
            if t == eof:
                return out, line, st
            if t == nl:
                out.append(("nl", "\n", line))
            elif t in (num, s_):
                p = st.get(("g", "tokc"), 0, 8)
                if p is None:
                    raise Lost("text")
                w = I.text(st, p)
                if w is None:
                    raise Lost("text")
                n = st.get(("g", "tokc"), 8, 4)
                if n is None or n[0] != "i" or n[1] != len(w) + 1:
                    out.append(("num" if t == num else "str", w.decode("latin-1") + "<wrong length>", line))
                else:
                    out.append(("num" if t == num else "str", w.decode("latin-1"), line))
            elif t >= 0x10000:
                w = [k for k, v in self.ids.items() if v == t - 0x10000]
                out.append(("id", w[0].decode("latin-1"), line))
            elif t in self.back:
                out.append(("op", self.back[t], line))
            elif t in (32, 9):
                out.append(("sp", " ", line))
            else:
                out.append(("?", str(t), line))
        return out, "endless", st


# ---------------------------------------------------------------------- the cases
WORDS = ["x", "_a1", "Lx", "L", "u8", "$d", "eE1", "0", "12", "0x1f", "1e5", "1e+5", "0x1p-3", "1.5", ".5", "1.e-3f", "0xe+1", "1..2", "08", "1_000", "0x1E-2",
         "'a'", "\"s\"", "L'b'", "L\"w\"", "\"a\\\"b\"", "'\\''", "\"\\\\\"", "\"\"", "\"//\"", "\"/*\"", "'\"'", "\"'\"", "\"a\\n\"", "caf\xc3\xa9"]
TEXTS = ["int main(void)\n{\n\treturn a->b+++c;\n}\n", "a/**/b\n", "a/*x*y**z/ ***/b//c\nd", "/* one\n two\n*/ x\n", "// c\\\nstill\nx\n", "x//", "a\f\v\r\nb\r\n",
         "s=\"a\\\nb\";\n", "ab\\\ncd+\\\n+e\n", "a=b/ *p;/* */\n", "x=\"/*\";y=\"*/\";\n", "a.b...c..d....e\n", "1.2.3e+4-5\n", "L'x'L\"y\"L z\n",
         "a<<=b>>=c<b>c<=d>=e\n", "x+=+1-=-2->y--\n", "i=j/k//l*/\nm\n", "\"\\x41\\\\\" '\\\\'\n", "a # b ## c ### d\n", "0x1.8p+3f+1\n", "/**//***//*/*/a\n", "a//b\\\r\nc\nd\n",
         "\n\n\n x \n\n", "a\\\n", "a /*\\\n*\\\n/ b\n", "/\\\n/ c\nd\n", "/\\\n* c *\\\n/d\n", "\"a\\\\\\\nn\"\n", "<\\\n<\\\n= .\\\n.\\\n. 1\\\n2e\\\n+3\n", "L\\\n\"x\" L\\\ny\n",
         "'\\\n\\\n\\\n''\n", ".\\\n5 .\\\n.x\n", "&\\\n&= |\\\n|= ^\\\n=!\\\n=\n", "a\\\n\\\n\\\nb\n", "/* \\ \\\\ */x\n", "// \\ x\ny\n", "\"\\\\\"x\"\\\"\"\n",
         "a\rb\n", "\"a\rb\"\n", "x/**\n*\n**/y\n"]
BADTEXT = ["/* open", "x /* \\\n *", "\"open\n", "'open\nx\n", "\"open", "'\\", "\"abc\\\n", "\x01\n", "a \\ b\n", "\\x\n", "+\\ \n"]
DIRECTIVE = ["#x y\na\n", "  # x\na\n", "/* c */ #x\nb\n", "a #b\nc\n", "a\n#x\n#y\nb\n", "a/*\n*/#b\n", "\\\n#x\nb\n", "a\\\n#b\nc\n", "\n\n\t#x\n"]
SAMPLES = ["int x = 10 + y->z;\n", "a/*b*/ \"c\\\"\\\\d\" 'e' 1.5e+3f <<= ...\n", "L\"w\" .5 >>= && || ## != // end\nq\n"]


def sample(s):
    return repr(s.encode("latin-1"))[1:]


def judge(L, text, flags, how, mode=""):
    """(obligations, complaint or None); complaint = (key, text)"""
    try:
        want, last = tokens(text)
    except Bad:
        want = None
    got, end, st = L.split(text, flags, **how)
    at = " read in pieces" if how else ""
    if want is None:
        return 1, None if end == "error" else ("accept", "the malformed text %s%s is accepted" % (sample(text), at))
    o = L.overrun(st)
    if o:
        return 1, ("overrun", "reading the text %s%s writes beyond %s" % (sample(text), at, o))
    n = len(want) + 1
    if end == "error":
        return n, ("refuse", "the text %s%s is refused" % (sample(text), at))
    if end == "endless":
        return n, ("endless", "the text %s%s is never read to its end" % (sample(text), at))
    lines = "nl" in mode
    w = [x for x in want if x[0] != "nl" or lines]
    if lines and (not want or want[-1][0] != "nl"):
        w.append(("nl", "\n", last, False, False))
    if "dir" in mode:
        raw, w, k = w, [], 0
        while k < len(raw):
            if raw[k][1] == "#" and raw[k][0] == "op" and raw[k][4]:
                while k < len(raw) and raw[k][0] != "nl":
                    k += 1
                if k < len(raw):
                    w.append(raw[k])
            else:
                w.append(raw[k])
            k += 1
    if "sp" in mode:
        raw, w = w, []
        for x in raw:
            if x[3]:
                w.append(("sp", " ", x[2], 0, 0))
            w.append(x)
        # runs of blanks count once; blanks at the end of a line are of no interest
        g = []
        for x in got:
            if x[0] == "sp" and g and g[-1][0] == "sp":
                continue
            g.append(x)
        tidy = lambda l: [x for k, x in enumerate(l) if not (x[0] == "sp" and l[k + 1:k + 2] and l[k + 1][0] == "nl")]
        got, w = tidy(g), tidy(w)
    a, b = [x[:2] for x in got], [x[:2] for x in w]
    if a != b:
        k = next((k for k in range(max(len(a), len(b))) if a[k:k + 1] != b[k:k + 1]), 0)
        exp = b[k][1] if k < len(b) else "the end"
        is_ = a[k][1] if k < len(a) else "the end"
        return n, ("token:%s" % exp if k < len(b) and b[k][0] == "op" else "token:" + (b[k][0] if k < len(b) else "end"),
                   "in the text %s%s, token %d is %r, not %r" % (sample(text), at, k + 1, is_, exp))
    if end != last:
        return n, ("lines", "after the text %s%s the line is said to be %d, not %d" % (sample(text), at, end, last))
    if "\\" not in text and not lines and "dir" not in mode:
        for x, y in zip(got, w):
            if x[2] != y[2]:
                return n, ("line", "in the text %s%s the token %r is said to be on line %d, not %d" % (sample(text), at, y[1], x[2], y[2]))
    return n, None


def cases(tier, F):
    LF, SP, PP = F
    out = []
    for i, a in enumerate(PUNCT):
        for b in PUNCT:
            t = "p%s%sq" % (a, b)
            out.append((t, 0, {}, ""))
        out.append(("x%s\\\ny" % a, 0, {}, ""))
        for k in range(1, len(a)):
            out.append(("x%s\\\n%sy\n" % (a[:k], a[k:]), 0, {"width": 1}, ""))
            out.append(("x%s\\\r\n%sy\n" % (a[:k], a[k:]), 0, {"cut": k + 2}, ""))
            out.append(("x%sy\n" % a, 0, {"cut": k + 1}, ""))
    for a in WORDS:
        out.append((a + "\n", 0, {}, ""))
        for b in WORDS[:3] + WORDS[7:14] + ["'a'", "\"s\""]:
            out.append((a + " " + b, 0, {}, ""))
        for p in PUNCT:
            out.append((a + p + "1" if a[0] not in "\"'L" else a + p, 0, {}, ""))
        for k in range(1, len(a)):
            for nl in ("\\\n", "\\\r\n", "\\\n\\\n"):
                out.append((a[:k] + nl + a[k:] + "\n", 0, {} if nl != "\\\n" else {"width": 1}, ""))
    for t in TEXTS + BADTEXT:
        for how in ({}, {"width": 1}, {"width": 2}, {"width": 3}):
            out.append((t, 0, how, ""))
        out.append((t, LF, {}, "nl"))
        if "\r" not in t and "\f" not in t:
            out.append((t, LF | SP, {}, "nl sp"))
    for t in TEXTS[:12] + SAMPLES:
        for k in range(1, len(t)):
            out.append((t, 0, {"cut": k}, ""))
    for t in SAMPLES:
        for k in range(len(t)):
            out.append((t[:k] + "\\\n" + t[k:], 0, {}, ""))
    for t in DIRECTIVE:
        out.append((t, PP | LF, {}, "nl dir"))
    return out


def ints():
    out = []
    for d in ("0", "1", "7", "9", "10", "2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808",
              "18446744073709551615", "0x0", "0x7fffffff", "0X80000000", "0xFFFFFFFF", "0x100000000", "0x7fffffffffffffff", "0x8000000000000000",
              "0xffffffffffffffff", "0xaBcDeF", "017777777777", "020000000000", "037777777777", "040000000000", "0777777777777777777777",
              "01000000000000000000000", "01777777777777777777777", "00", "0b1", "0B1011", "0b11111111111111111111111111111111", "1234567890123", "0b0"):
        for s in ("", "u", "U", "l", "L", "ul", "UL", "lu", "LU", "uL", "ll", "LL", "ull", "ULL", "llu", "LLU", "Ull", "uLL", "LLu"):
            out.append(d + s)
    return out


BADNUM = ["08", "09", "0779", "1uu", "1lll", "1lL", "1Ll", "1lul", "1LUL", "1ulu", "0x", "0X", "0b", "0xg", "0b2", "0b12", "1u8", "12ab", "1e", "1e+", "1.e", "1.5.3", "0x1.8", "0x1p",
          "0x1p+", "0x.p1", "1.0ff", "1.0fl", "1.0lf", "1e5u", "1.5u", "0x1p1u", "1_0", "0x1p1fl", "078.", "..1"][:-2] + ["1..2", "0x1.g", "1i", "0xp1"]
FLT = ["0.", "1.", ".5", "1.5", "0.0", "1e5", "1E5", "1e+5", "1e-5", "1.5e10", ".5E-3", "123.456e+78", "08.5", "09e1", "3.", "3.e2", "00.25"]
HEX = ["0x1p0", "0X1P0", "0x1p+4", "0x1p-4", "0x1.8p1", "0x.8p0", "0x1.p3", "0xA.Bp2", "0x1.fffffffffffffp1023", "0x1p-1074", "0x1.921fb54442d18p+1", "0xc.90fdaa22168c235p-2",
       "0x1.921fb54442d1846ap+1", "0x0p0", "0x0.0p5", "0x1.00000000000000001p0", "0x123456789abcdef01p0", "0x123456789abcdef0123p-4", "0x1.00000100000000000000000001p0",
       "0x1.000001p0", "0x1.0000008p0", "0x1.00000000000008p0", "0x1.000000000000080000000001p0", "0x1.00000000000018p0", "0x8000000000000000.8p0", "0x8000000000000001.8p0",
       "0x8000000000000000.8000000001p0", "0xffffffffffffffff.8p0", "0x1.8p-1074", "0x3p-1075", "0x1p-149", "0x1.8p-149", "0b1p3", "0b101.1p0", "0x00000000000000000000001p0",
       "0x1.ffffffp0", "0x0.00000000000000000000001p88", "0xabcdefp-10", "0xABCDEF.abcdefP10"]
STR = ["", "abc", "a b", "\\n\\t\\r\\a\\b\\f\\v\\e", "\\\\", "\\'\\\"\\?", "\\0", "\\01", "\\012", "\\0123", "\\7", "\\18", "\\377", "\\x41", "\\x4", "\\x4g", "\\x0a\\x0D",
       "\\xff", "\\u00e9", "\\u20AC", "\\U0001F600", "\\u00e9x", "\\u1234567", "\\x41\\102C", "caf\xc3\xa9", "\xe2\x82\xac", "\\x7f\\x80", "\\u007f\\u0080\\u07ff\\u0800\\uffff\\U00010000\\U0010ffff"]
WIDE = ["abc", "\\u20ac", "\\U0001F600", "caf\xc3\xa9", "\xe2\x82\xacx", "\xf0\x9f\x98\x80", "\\x1234", "\\x12345678", "\\777", "\\n", "a\\0b", "\xc2\x80\xdf\xbf\xe0\xa0\x80\xef\xbf\xbf\xf4\x8f\xbf\xbf",
        "\xed\x9f\xbf\xee\x80\x80"]
CHARS = ["a", "0", " ", "\\n", "\\0", "\\'", "\"", "\\\\", "\\x41", "\\101", "\\377", "\\x80", "\\7", "ab", "abc", "abcd", "\\e", "\xe9"]


def s8(v, n=8):
    v &= (1 << n) - 1
    return v - (1 << n) if v >> n - 1 else v


def number(L, text):
    st = State()
    p = ("ob", "literal")
    for k, c in enumerate(text.encode() + b"\0"):
        st.put(p, k, 1, ("i", c))
    st, how, v = L.run("parse_number", [p], st)
    b = L.overrun(st)
    if b:
        return "overrun", b, 0
    if how == "error":
        return None, None, 0
    if how != "ret":
        raise Lost(how)
    t = st.get(("g", "tok"), 0, 4)
    warn = sum(e == ("warning",) for e in st.log)
    if t is None or t[0] != "i":
        raise Lost("token")
    for n in ("TOK_CINT", "TOK_CUINT", "TOK_CLONG", "TOK_CULONG", "TOK_CLLONG", "TOK_CULLONG", "TOK_CFLOAT", "TOK_CDOUBLE", "TOK_CLDOUBLE"):
        if t[1] == L.value(n):
            sz = {"TOK_CFLOAT": 4, "TOK_CLDOUBLE": 16}.get(n, 8)
            v = st.get(("g", "tokc"), 0, sz) or next((w for k, (z, w) in st.mem.get(("g", "tokc"), {}).items() if k == 0), None)
            if v is None:
                raise Lost("value")
            if v[0] == "bits" or v[0] == "i" and sz != 8 or v[0] == "i" and n == "TOK_CDOUBLE":
                x = Fp(L.m).number(("bits", v[1]), {"TOK_CFLOAT": "float", "TOK_CLDOUBLE": "x86_fp80"}.get(n, "double"))
                v = ("fp", x)
            return n, v, warn
    return "?%d" % t[1], None, warn


def judge_number(L, text):
    i, f = integer(text), floating(text)
    t, v, warn = number(L, text)
    if t == "overrun":
        return 1, ("overrun", "a constant of %d characters is written beyond %s" % (len(text), v))
    if len(text) > 1000 and t is None:
        return 1, None
    if i is None and f is None:
        return 1, None if t is None else ("accepts:" + text, "%s is accepted as a constant" % text)
    if t is None:
        return 1, None if i == "big" else ("refuses", "the constant %s is refused" % text)
    if i == "big":
        return 1, None if warn else ("big", "the constant %s, which no type can hold, is taken without a warning" % text)
    if i:
        if t != i[0]:
            return 2, ("type:" + i[0], "the constant %s gets the type of %s, not of %s" % (text, t, i[0]))
        if v[0] != "i" or s8(v[1] - i[1], 64):
            return 2, ("value", "the constant %s gets the value %s" % (text, v[1] if v[0] == "i" else "?"))
        return 2, None
    if t != f[0]:
        return 2, ("ftype:" + f[0], "the constant %s gets the type of %s, not of %s" % (text, t, f[0]))
    if isinstance(f[1], str) and f[1] != "inf":
        w = {"TOK_CFLOAT": "f", "TOK_CDOUBLE": "d", "TOK_CLDOUBLE": "l"}[t]
        while v[0] == "op" and v[1].startswith(("fptrunc", "fpext")):
            v = v[2]
        if v[0] != "dec":
            raise Lost("decimal value")
        if v[2].decode() != f[1] and not (isinstance(v[2], bytes) and same(v[2].decode(), f[1])):
            return 2, ("decimal", "the constant %s is read as %s" % (text, v[2].decode()))
        if v[1] != w:
            return 2, ("precision", "the constant %s is converted with %s" % (text, {"f": "strtof", "d": "strtod", "l": "strtold"}[v[1]]))
        return 2, None
    if v[0] != "fp":
        raise Lost("value of " + text)
    if v[1] != f[1]:
        near = lambda x: x if isinstance(x, str) else float(x).hex() if abs(x) < 1 << 900 else "?"
        return 2, ("hexvalue", "the constant %s gets a value other than the nearest one (%s instead of %s)" % (text, near(v[1]), near(f[1])))
    return 2, None


def same(a, b):
    try:
        return Fraction(a) == Fraction(b)
    except (ValueError, ZeroDivisionError):
        return False


def judge_string(L, body, wide, q):
    text = ("L" if wide else "") + q + body + q
    b = text.encode("latin-1")
    st = State()
    p = ("ob", "literal")
    for k, c in enumerate(b + b"\0"):
        st.put(p, k, 1, ("i", s8(c)))
    st, how, v = L.run("parse_string", [p, ("i", len(b))], st)
    want = escapes(body, wide)
    o = L.overrun(st)
    if o:
        return 1, ("overrun", "a string of %d characters is written beyond %s" % (len(b), o))
    if how == "error":
        return 1, None if q == "'" and not want else ("refused", "%s is refused" % sample(text))
    if how != "ret":
        raise Lost(how)
    if q == "'" and not want:
        return 1, ("empty", "an empty character constant is accepted")
    t = st.get(("g", "tok"), 0, 4)
    name = {("'", 0): "TOK_CCHAR", ("'", 1): "TOK_LCHAR", ('"', 0): "TOK_STR", ('"', 1): "TOK_LSTR"}[q, wide]
    if t != ("i", L.value(name)):
        return 2, ("kind:" + name, "%s does not become %s" % (sample(text), name))
    if q == "'":
        c = st.get(("g", "tokc"), 0, 8)
        w = 0
        for x in want:
            w = s8(x, 32) if wide else s8(w << 8 | s8(x) if len(want) == 1 else w << 8 | x & 255, 32)
        if c is None or c[0] != "i" or s8(c[1], 32) != w:
            return 2, ("char", "%s has the value %s, not %d" % (sample(text), c and c[1], w))
        return 2, None
    d, n = st.get(("g", "tokc"), 0, 8), st.get(("g", "tokc"), 8, 4)
    z = 4 if wide else 1
    if n != ("i", z * (len(want) + 1)):
        return 2, ("size", "%s takes %s bytes, not %d" % (sample(text), n and n[1], z * (len(want) + 1)))
    I = Interp(L.m, default=L.default)
    for k, x in enumerate(want + [0]):
        g = I.load(st, ptr(d, z * k), "i%d" % (8 * z))
        if g[0] != "i" or s8(g[1] - x, 8 * z):
            return 2, ("element", "element %d of %s is %s, not %d" % (k, sample(text), g[1] if g[0] == "i" else "?", x))
    return 2, None


def judge_names(L):
    """identifiers are the same token exactly when they are spelled the same"""
    m, out = L.m, []
    f = m.field_off
    for name in ("x", "ab", "count", "_a1", "longer_identifier_name"):
        for fn in ("next_nomacro", "tok_alloc"):
            for known in (True, False):
                st = L.start((name.encode() + b";",), 0)
                others = [name[:-1] + "z" if name[-1] != "z" else name[:-1] + "y", name + "1", name[:-1], "y" + name[1:]] + [name] * known
                others = [o for o in others if o]
                prev = ("i", 0)
                for k, o in reversed(list(enumerate(others))):
                    ob = ("ob", "symbol", k)
                    st.put(ob, f("TokenSym", "hash_next"), 8, prev)
                    st.put(ob, f("TokenSym", "tok"), 4, ("i", 5000 + k))
                    st.put(ob, f("TokenSym", "len"), 4, ("i", len(o)))
                    for j, c in enumerate(o.encode() + b"\0"):
                        st.put(ob, f("TokenSym", "str") + j, 1, ("i", c))
                    prev = ob
                L.chain = prev
                try:
                    if fn == "tok_alloc":
                        for j, c in enumerate(name.encode() + b"-"):
                            st.put(("ob", "name"), j, 1, ("i", c))
                        h = L.hooks()
                        h.pop("tok_alloc")
                        r = Fp(m, hooks=h, default=L.default).run(fn, [("ob", "name"), ("i", len(name))], st)
                        if len(r) != 1 or r[0][1] != "ret":
                            raise Lost("tok_alloc")
                        v = Interp(m, default=L.default).load(r[0][0], ptr(r[0][2], f("TokenSym", "tok")), "i32")
                    else:
                        s, how, _ = L.run(fn, [], st)
                        v = s.get(("g", "tok"), 0, 4)
                finally:
                    L.chain = None
                if v is None or v[0] != "i":
                    raise Lost("identifier")
                if known and v[1] != 5000 + len(others) - 1 or not known and v[1] < 0x10000:
                    out.append(("name:" + fn, "%s takes the identifier %s for %s" % (fn, name, others[v[1] - 5000] if 5000 <= v[1] < 5000 + len(others) else "a new one")))
    return 20, (out[0] if out else None)


def work(job):
    L = MEMO.get("L")
    out, endless = [], 0
    for kind, args in job:
        if endless > 2:
            break
        try:
            if kind == "text":
                r = judge(L, *args)
            elif kind == "number":
                r = judge_number(L, *args)
            elif kind == "names":
                r = judge_names(L)
            else:
                r = judge_string(L, *args)
            out.append((kind, r[0], r[1], None))
            endless += bool(r[1]) and r[1][0] == "endless"
        except Lost as e:
            if str(e).startswith("steps in"):
                endless += 1
                out.append((kind, 1, ("endless", "%s is never read to its end" % (sample(args[0]) if args else "a name")), None))
                continue
            out.append((kind, 0, None, "%s: %s" % (e, args[0] if args else "")))
        except RecursionError:
            out.append((kind, 0, None, "too deep"))
    return out


FN = {"text": "next_nomacro", "number": "parse_number", "string": "parse_string", "names": "tok_alloc"}


def run(R, tier):
    R.rules = ["following next_nomacro and the functions below it over a source text, however the text arrives from read(), yields the tokens, line "
               "numbers and errors of C's translation phases 2 and 3", "following parse_number and parse_string over a constant's spelling yields the type and value "
               "C11 6.4.4 and 6.4.5 give it, or an error if it is not a constant"]
    R.assume = ["strtof, strtod, strtold, ldexp and read do what their specifications say", "trigraphs, digraphs and the prefixes u8, u and U are not supported by the compiler",
                "the extensions 0b, $ in names, \\e, and UTF-8 in names are part of the language"]
    L = Lexer()
    m = L.m
    for n in ("next_nomacro", "parse_number", "parse_string"):
        R.need(n in m.defined, n)
    try:
        L.classes()
    except Lost as e:
        R.need(False, "the table of character classes (%s)" % e)
    MEMO["L"] = L
    F = [L.value("PARSE_FLAG_" + n) for n in ("LINEFEED", "SPACES", "PREPROCESS")]
    jobs = [("text", c) for c in cases(tier, F)]
    jobs += [("number", (t,)) for t in ints() + BADNUM + FLT + [x + s for x in FLT + HEX for s in ("", "f", "F", "l", "L") if x + s not in FLT]]
    jobs += [("number", (p + "1" * n + q,)) for p, q in (("", ""), ("0x", "p1"), ("", ".5"), ("", "e5"), ("1.", ""), ("1.5e", ""), ("", "e+5f")) for n in range(1017, 1026)]
    jobs += [("string", (b, 0, '"')) for b in STR] + [("string", (b, 1, '"')) for b in WIDE + [""]]
    jobs += [("string", (b, 0, "'")) for b in CHARS + [""]] + [("string", (b, 1, "'")) for b in WIDE[1:2] + WIDE[3:4][:0] + ["a", "\\u20ac", "\xe2\x82\xac", "\\377", ""]]
    jobs += [("string", ("x" * n, 0, '"')) for n in (996, 997, 998, 999, 1000, 1001, 1002, 1200)]
    jobs.append(("names", ()))
    parts = [jobs[k::48] for k in range(48)]
    seen, lost, n = set(), {}, 0
    import os
    with ProcessPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        for res in ex.map(work, parts):
            for kind, k, bad, miss in res:
                n += 1
                R.count("cases_" + kind)
                if miss:
                    lost[miss.split(":")[0]] = lost.get(miss.split(":")[0], 0) + 1
                    R.count("not_followed")
                    continue
                R.obligation(n=k)
                if bad and (kind, bad[0]) not in seen:
                    seen.add((kind, bad[0]))
                    fn = FN[kind]
                    f = m.defined.get(fn)
                    R.violation("%s:%s" % (kind, bad[0]), "%s:%s" % (f.file if f else "tccpp.c", fn), "tokens and constants", bad[1])
    if lost:
        R.notes += ["not followed: %s (%d cases)" % x for x in sorted(lost.items())[:20]]
    R.need(R.counts.get("not_followed", 0) * 3 <= n, "cases followed (%s)" % sorted(lost.items(), key=lambda x: -x[1])[:3])
