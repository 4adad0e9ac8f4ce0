"""C54: directives and macros do to the text what C prescribes."""
import os
import random
import re
import subprocess
from concurrent.futures import ProcessPoolExecutor
from sa.build import CLANG
from sa.interp import Interp, State, Lost, ptr, libname
from checks.lexing import Lexer, Boot, Fp, FILE, S1, tokens, Bad, sample

MEMO = {}


class Pre(Lexer):
    """the preprocessor as it stands after tccpp_new"""
    def __init__(self, t=None):
        Lexer.__init__(self, t)
        self.table = None

    def default(self, st, a, k, ty):
        if a[0] == "ob" and a[1] == "zero":
            return ("i", 0)
        if a == S1 and k is not None:
            return ("i", int(k in [self.m.field_off("TCCState", n) for n in ("tcc_ext", "gnu_ext")]))
        if a == ("g", "tcc_state"):
            return S1
        if a[0] == "g" and k is not None:
            g = self.m.globals.get(a[1])
            if g and not g.get("const") and not g.get("decl"):
                at = g.setdefault("at0", {off: v for off, w, v in g.get("init") or []})
                v = at.get(k, ["n"])
                return ("i", 0) if v[0] in ("n", "z", "u") else ("i", v[1]) if v[0] == "i" else ("g", v[1]) if v[0] == "g" else None
        if a == FILE:
            return ("i", 0)
        return None

    def hooks(self):
        m = self.m
        o = Lexer.hooks(self)
        for n in ("tok_alloc", "tok_alloc_new", "preprocess", "tcc_close"):
            o.pop(n)
        fresh = lambda st: Interp(m).alloc(st, "text")

        def tal(st, a, x):
            return fresh(st) if a[1] == ("i", 0) else a[1]

        def drop(k):
            def h(st, a, x):
                if len(a) > k and a[k][0] == "ob" and a[k][1] in ("text", "zero"):
                    st.mem.pop(a[k], None)
                    st.x["freed"] = st.x.get("freed", ()) + (a[k],)
                return ("i", 0)
            return h
        o["tal_realloc"] = o["tal_realloc_impl"] = tal
        o["tal_free"] = o["tal_free_impl"] = lambda st, a, x: ("i", 0)
        o["tal_new"] = lambda st, a, x: ("i", 0)
        o["tcc_mallocz"] = lambda st, a, x: Interp(m).alloc(st, "zero")
        o["sym_malloc"] = lambda st, a, x: Interp(m).alloc(st, "zero")
        o["sym_free"] = lambda st, a, x: None
        o["tcc_debug_bincl"] = o["tcc_debug_eincl"] = o["tcc_debug_newfile"] = lambda st, a, x: None
        o["_tcc_error_noabort"] = o["_tcc_error"]

        def snprintf(st, a, x):
            I = Interp(m, default=self.default)
            f = I.text(st, a[2]).decode("latin-1")
            if re.search("%[^du]", f) or len(a) < 4 or a[3][0] != "i":
                raise Lost("snprintf")
            w = re.sub("%[du]", str(a[3][1]), f).encode()
            b, k = I.place(a[0])
            for j, c in enumerate(w[:a[1][1] - 1] + b"\0"):
                st.put(b, k + j, 1, ("i", c))
            return ("i", len(w))
        o["snprintf"] = o["__snprintf_chk"] = snprintf
        return o

    def boot(self):
        st = State()
        r = Boot(self.m, hooks=self.hooks(), default=self.default, maxsteps=2000000, maxstates=4).run("tccpp_new", [S1], st)
        if len(r) != 1 or r[0][1] != "ret":
            raise Lost("tccpp_new")
        self.base = r[0][0]
        self.base.conds, self.base.n, self.base.log = (), 0, []
        e = self.value("CH_EOF")
        t = self.base.get(("g", "isidnum_table"), ord("a") - e, 1)
        self.base.put(("g", "isidnum_table"), ord("$") - e, 1, t)
        if "tccgen_init" in self.m.defined:
            r = Boot(self.m, hooks=self.hooks(), default=self.default, maxsteps=20000, maxstates=4).run("tccgen_init", [S1], self.base)
            if len(r) != 1 or r[0][1] != "ret":
                raise Lost("tccgen_init")
            self.base = r[0][0]
            self.base.conds, self.base.n, self.base.log = (), 0, []
        if "nocode_wanted" in self.m.globals:               # as it stands outside functions
            self.base.put(("g", "nocode_wanted"), 0, 4, ("i", self.value("DATA_ONLY_WANTED")))

    def name(self, st, t):
        I = Interp(self.m, default=self.default)
        p = I.load(st, ("g", "table_ident"), "ptr")
        s = I.load(st, ptr(p, 8 * (t - self.value("TOK_IDENT"))), "ptr")
        w = I.text(st, ptr(s, self.m.field_off("TokenSym", "str")))
        if w is None:
            raise Lost("name")
        return w.decode("latin-1")

    def expand(self, text, width=None):
        b = text.encode("latin-1")
        st = self.base.copy()
        s2 = self.start((b,) if not width else tuple(b[k:k + width] for k in range(0, len(b), width)), self.value("PARSE_FLAG_PREPROCESS"))
        for a, ob in s2.mem.items():
            st.mem.setdefault(a, {}).update(ob)
        st.x = s2.x
        o = self.m.field_off
        name = ptr(FILE, o("BufferedFile", "filename"))
        for k, c in enumerate(b"<stdin>\0"):
            st.put(FILE, o("BufferedFile", "filename") + k, 1, ("i", c))
        st.put(FILE, o("BufferedFile", "true_filename"), 8, name)
        out = []
        I = Fp(self.m, hooks=self.hooks(), default=self.default, maxsteps=60000, maxstates=20)
        eof, num, s_ = (self.value("TOK_" + n) for n in ("EOF", "PPNUM", "PPSTR"))
        ident = self.value("TOK_IDENT")
        for _ in range(400):
            r = I.run("next", [], st)
            if len(r) != 1:
                raise Lost("ways of next")
            st, how, _v = r[0]
            if how == "error":
                return out, "error"
            if how != "ret":
                raise Lost(how)
            st.conds, st.n = (), 0
            t = st.get(("g", "tok"), 0, 4)
            if t is None or t[0] != "i":
                raise Lost("token")
            t = t[1]
            if t == eof:
                return out, "end"
            if t in (num, s_):
                p = st.get(("g", "tokc"), 0, 8)
                w = I.text(st, p) if p is not None else None
                if w is None:
                    raise Lost("text")
                out.append(w.decode("latin-1"))
            elif t == self.value("TOK_STR"):                # __FILE__
                p = st.get(("g", "tokc"), 0, 8)
                w = I.text(st, p) if p is not None else None
                if w is None:
                    raise Lost("text")
                out.append('"%s"' % w.decode("latin-1"))
            elif t >= ident:
                out.append(self.name(st, t))
            elif t in self.back:
                out.append(self.back[t])
            else:
                out.append("?%d" % t)
        return out, "endless"


def reference(text):
    p = subprocess.run([CLANG, "-E", "-P", "-undef", "-nostdinc", "-w", "-std=gnu11", "-fdollars-in-identifiers", "-x", "c", "-"], input=text.encode("latin-1"),
                       capture_output=True)
    if p.returncode:
        return None
    return [t[1] for t in tokens(p.stdout.decode("latin-1"))[0] if t[0] != "nl"]


def judge(L, text, width):
    want = reference(text)
    got, end = L.expand(text, width)
    if want is None:
        if "##" in text and text not in BADP:               # an invalid token was formed: undefined
            return 0, None
        return 1, None if end == "error" else ("accept", "%s is accepted" % sample(text))
    if end != "end":
        return 1, ("refuse" if end == "error" else end, "%s is %s" % (sample(text), "refused" if end == "error" else "never read to its end"))
    if got != want:
        return len(want) + 1, ("expansion", "%s becomes %s, not %s" % (sample(text), " ".join(got), " ".join(want)))
    return len(want) + 1, None


OBJ = ["#define A 1\nA B A\n", "#define A B\n#define B C\nA B C\n", "#define A B\n#define B A\nA B\n", "#define A A + 1\nA\n", "#define E\nx E y E\n",
       "#define A 1\n#undef A\nA\n", "#define A 1\n#undef A\n#define A 2\nA\n", "#undef A\n#define A (x)\nA A\n", "#define A -\n-A x -A-\n", "#define A \\\n 1 \\\n + 2\nA\n",
       "  #  define A 3 /* c */ // d\nA/**/A\n", "#define A 1\n#define A 1\nA\n", "#define x y\n#define y x z\nx y\n", "#define f(x) [x]\n#define g f\ng(1) g (2) f\n"]
FUN = ["#define f(x) [x]\nf(1) f (2) f( 3 ) f f(f) f((1,2)) f()\n", "#define f(x,y) x y\nf(1,2) f((a,b),c) f(,) f(a,) f(,b)\n", "#define f() z\nf() f ( ) f\n",
       "#define f(x) x x\nf(f(1)) f(f)(2)\n", "#define f(a) a*g\n#define g(a) f(a)\nf(2)(9)\n", "#define f(x) x+1\n#define a f(a)\na f(a)\n",
       "#define f(x) [x]\nf(\n1\n)\n", "#define f(x) x\nf (\n 1 + /* c */ 2\n )\n", "#define f(x,y) y x\n#define c ,\nf(1 c 2, 3)\n", "#define p (\n#define f(x) [x]\nf p 1 )\n",
       "#define f(x) [x]\n#define h f(\nh 1)\n", "#define f(x) x f\nf(1)(2)(3)\n", "#define f(x) g(x)\n#define g(x) x\nf(g)(1)\n", "#define f (x)\nf(1)\n",
       "#define f(x) #x\nf(a b) f( a  b ) f(\"s\\n\") f('\\0') f(a\n b) f() f(\"\\\\\") f(@) f(1.5e+3) f(a/**/b) f(-1) f(a;)\n", "#define s(x) #x\n#define t(x) s(x)\n#define n 4\ns(n) t(n) t(s(n))\n",
       "#define c(a,b) a##b\nc(x,1) c(1,2) c(,x) c(x,) c(,) c(<,<=) c(+,+) c(c,d) c(1,e3) c(.,5) c(L,'a') c(L,\"s\")\n", "#define c(a,b) a##b\n#define x1 ok\n#define x bad\nc(x,1)\n",
       "#define c(a,b) a ## b\n#define d(a,b) c(a,b)\n#define x y\nc(x,x) d(x,x)\n", "#define hash_hash # ## #\n#define mkstr(a) # a\n#define in_between(a) mkstr(a)\n#define join(c, d) in_between(c hash_hash d)\nchar p[] = join(x, y);\n",
       "#define t(x,y,z) x ## y ## z\nint j[] = { t(1,2,3), t(,4,5), t(6,,7), t(8,9,), t(10,,), t(,11,), t(,,12), t(,,) };\n",
       "#define v(...) [__VA_ARGS__]\nv() v(1) v(1,2) v( a , b )\n", "#define v(f,...) f(__VA_ARGS__)\nv(p,1) v(p,1,2) v(p,)\n", "#define v(f,...) f(x, ## __VA_ARGS__)\nv(p) v(p,1) v(p,1,2)\n",
       "#define v(f,a...) f(x, ## a) #a\nv(p) v(p,1) v(p,1 , 2)\n", "#define s(...) #__VA_ARGS__\ns(a,b) s( a , b ) s() s(\"x\", 'y')\n", "#define f(x) x\n#define g(x) f(x) f\ng(f)(1) g(g)(2)\n",
       "#define x 3\n#define f(a) f(x * (a))\n#undef x\n#define x 2\n#define g f\n#define z z[0]\n#define h g(~\n#define m(a) a(w)\n#define w 0,1\n#define t(a) a\n#define p() int\n#define q(x) x\n#define r(x,y) x ## y\n#define str(x) # x\n"
       "f(y+1) + f(f(z)) % t(t(g)(0) + t)(1);\ng(x+(3,4)-w) | h 5) & m\n(f)^m(m);\np() i[q()] = { q(1), r(2,3), r(4,), r(,5), r(,) };\nchar c[2][6] = { str(hello), str() };\n",
       "#define str(s) # s\n#define xstr(s) str(s)\n#define debug(s, t) printf(\"x\" # s \"= %d, x\" # t \"= %s\", x ## s, x ## t)\n#define INCFILE(n) vers ## n\n#define glue(a, b) a ## b\n#define xglue(a, b) glue(a, b)\n"
       "#define HIGHLOW \"hello\"\n#define LOW LOW \", world\"\ndebug(1, 2);\nfputs(str(strncmp(\"abc\\0d\", \"abc\", '\\4') == 0) str(: @\\n), s);\nxstr(INCFILE(2).h)\nglue(HIGH, LOW);\nxglue(HIGH, LOW)\n",
       "#define f(x) (x)\n#define EMPTY\n#define D EMPTY ()\n#define E(x) x\nf EMPTY (1) E(f EMPTY (2))\n", "#define f(x,y) x-y\nf(f(1,2),f(3,4))\n", "#define f(x) -x\n-f(-1)\n",
       "#define a(x) b(x\n#define b(x) <x>\na(1)) a(b(2)))\n", "#define f(x) x\nf(f)(f)(1)\n", "#define X(o) o(a) o(b)\n#define D(n) n ## _d,\nX(D)\n", "#define f(a,b) #a #b a##b\nf(x y,z w) f(,q)\n",
       "#define f(x) x\nint f, (f)(int); f\n", "#define cat(a,b) a ## b\n#define ab cat(a,b)\nab cat(a,b)\n", "#define f(x) [x]\nf(\n\n\n1)\n",
       "__LINE__\n__LINE__ /*\n*/ __LINE__\n", "#define l __LINE__\nl\n\nl\n", "#line 50\n__LINE__\n__LINE__\n", "__COUNTER__ __COUNTER__ __COUNTER__\n", "#define f(x) x __LINE__\nf(\n\n1) __LINE__\n"]
BADP = ["#if 1\n#else\n#elif 1\n#endif\n", "#if 0\n#elif 1\n#else\n#elif 1\n#endif\n", "#if 0\n#elif 1\n#else\n#else\n#endif\n", "#define\n", "#define 1\n", "#define f(1) x\n", "#define f(x\n", "#define f(x,) x\n", "#define f(x) x\nf(1,2)\n", "#define f(x,y) x\nf(1)\n", "#define f(x) x\nf(1\n", "#define a ## b\na\n",
        "#define a b ##\na\n", "#else\n", "#endif\n", "#elif 1\n", "#if 1\n", "#if 0\n", "#ifdef A\nx\n", "#if 1\n#else\n#else\n#endif\n", "#if 0\n#else\n#elif 1\n#endif\n", "#error x\n", "#if 0\n#else\n#error y\n#endif\n",
        "#if\n#endif\n", "#if 1 +\n#endif\n", "#if (1\n#endif\n", "#if 1 1\n#endif\n", "#if 1/0\n#endif\n", "#if 1.0\n#endif\n", "#if \"a\"\n#endif\n", "#ifdef\n#endif\n", "#ifndef 1\n#endif\n", "#if defined\n#endif\n",
        "#if defined(A\n#endif\n", "#line x\n", "#define f() x\nf(1)\n", "#if 1 ? 2\n#endif\n", "#if 08\n#endif\n", "#define f(x) x\nf(1,)\n", "#define f(x) x\nf(\n1\n,\n)\n", "#define f(x,y) x\nf((1,2))\n",
        "#define f(x,) x\n", "#if 1 )\n#endif\n", "#if 0\n#elif\n#endif\n", "#if 1\n#endif\n#endif\n", "#if 1\n#if 1\n#endif\n", "#if 0\n#if 0\n#endif\n", "#define f(x,...,y) x\n"]
COND = ["#if 1\na\n#else\nb\n#endif\nc\n", "#if 0\na\n#else\nb\n#endif\nc\n", "#ifdef A\na\n#else\nb\n#endif\n", "#define A\n#ifdef A\na\n#else\nb\n#endif\n", "#define A\n#ifndef A\na\n#endif\n#ifndef B\nb\n#endif\n",
        "#if 0\n#if 1\na\n#else\nb\n#endif\n#elif 1\nc\n#else\nd\n#endif\ne\n", "#if 1\n#if 0\na\n#elif 0\nb\n#else\nc\n#endif\n#else\nd\n#if 1\ne\n#endif\n#endif\n", "#if 0\n#elif 0\na\n#elif 1\nb\n#elif 1\nc\n#else\nd\n#endif\n",
        "#if 0\n'unterminated\n/* #endif */ \"#endif\n#endif\nz\n", "#if 0\n/*\n#endif\n*/\nx\n#endif\ny\n", "#if 0\n// #endif \\\n#endif\nx\n#endif\ny\n", "#if 0\nx \\\n#endif\ny\n#endif\nz\n", "#if 0\n\"\\\"\\\n#endif\"\nw\n#endif\nz\n",
        "#if 0\n # /* c */ if 1\n#endif\n#else\nq\n #  endif\nr\n", "#if 0\n#define A 1\n#undef B\n#error no\n#unknown\n# 12\n#\n#endif\nA\n", "#define B 1\n#if 0\n#undef B\n#endif\nB\n",
        "#if 1\n#elif 1/0\n#endif\nx\n", "#if 0\n#ifdef\n#endif\n#elifx\n#endif_\n#else\nk\n#endif\n", "#\n# \nx\n#/* c */\ny\n", "#if 1 /* c */ // d\nx\n#endif /* e */\n", "#ifdef A\n#elif defined B\n#elif !defined(C)\nx\n#endif\n",
        "#define A 0\n#if A\na\n#endif\n#if defined A && !A\nb\n#endif\n", "#define f(x) x\n#if f(1) + f(2) == 3\nok\n#endif\n#if f\nbad\n#endif\n", "#define D defined(A)\n#define A\n#if D\nok\n#endif\n", "#if 0\n#else\n#if 1\na\n#endif\n#endif\nb\n",
        "#if 0\nL'\\\n#endif\n'\n#endif\nc\n", "#if 1\nx\n#else\n'\n#if\n\"\n#endif\n#endif\ny\n", "#ifndef X\n#define X\nx\n#endif\n#ifndef X\ny\n#endif\n", "#if 0\n a #endif\n#endif\nt\n"]
EXPR = ["(1 == 1) << 32", "(1 && 2) << 40 > 0", "(0 || 3) << 33", "!0 << 32", "~!1 << 32 < 0", "(defined A == 0) << 33", "-(2 > 1) << 40 < 0", "(1 ? 1 == 1 : 0) << 32", "1", "0", "-1", "!0", "!5", "~0", "~0 == -1", "1 + 1 == 2", "2 * 3 - 4 / 2 == 4", "7 % 4 == 3", "-7 / 2 == -3", "-7 % 2 == -1", "1 << 3 == 8", "-8 >> 1 == -4", "1 < 2", "2 <= 2", "3 > 3", "3 >= 3", "1 == 2", "1 != 2",
        "6 & 3", "6 ^ 6", "6 | 0", "1 && 0", "1 || 0", "0 || 0", "1 ? 0 : 1", "0 ? 0 : 1", "0 ? 1 : 0 ? 2 : 3", "1 + 2 * 3 == 7", "(1 + 2) * 3 == 9", "1 | 2 ^ 3 & 4", "1 == 1 != 0", "1 < 2 < 3", "8 >> 1 << 1 == 8", "- - 1 == 1", "+1", "'a' == 97", "'\\n' == 10",
        "'\\377' < 0", "L'a' == 97", "undefined", "undefined == 0", "int == 0", "0x10 == 16", "010 == 8", "1u", "1ull == 1", "2147483647 + 1 < 0", "0xffffffff + 1 == 0", "(1 << 31) < 0", "(1 << 40) > 0", "~0u == 0xffffffff", "-1 > 0u", "(0 ? 1u : -1) > 0", "1 - 2u > 0",
        "0x8000000000000000 > 0", "18446744073709551615u == -1", "3000000000 > 0", "0x100000000", "0x7fffffffffffffff > 0", "0 && (1/0)", "1 || (1/0)", "1 ? 2 : (1/0)", "0 ? (1/0) : 2", "-1 / 2u > 0", "-1 >> 1 < 0", "(-1 >> 63) == -1", "1 << 62 > 0", "-9223372036854775807 - 1 < 0",
        "0xffffffffffffffff / 2 == 0x7fffffffffffffff", "5 - 3 - 1 == 1", "100 / 10 / 5 == 2", "1 ? 1 ? 0 : 1 : 1", "!1 + 1", "~1 & 1", "1 && 2 == 2", "4 & 4 == 4", "1 | 0 && 0", "2 > 1 == 1", "0x7fffffff * 2 > 0", "65536 * 65536 > 0", "- 2147483648 < 0", "4294967295 + 1 > 0",
        "'ab' == 24930", "1L << 33", "-1 < 0u", "0x80000000 > -1", "- 0x80000000 < 0", "~0 < 0x80000000", "0x80000000 / -1 < 0", "4294967295 == 0xffffffff", "0u - 1 > 0", "1 ? -1 : 0u"]
MORE = ["#define A B\n#define B A x\n#define f(x) x\nf(A) f(f(B))\n", "#define A B\n#define B C\n#define C A B C\n#define f(x) x x\nf(A) A f(C)\n", "#define A 1\n#define D defined(A) && defined A && defined ( A )\n#if D\nok\n#endif\n",
        "#define A 1\n#pragma push_macro(\"A\")\n#pragma push_macro(\"A\")\n#undef A\n#define A 2\n#pragma pop_macro(\"A\")\nA\n#undef A\n#define A 3\n#pragma pop_macro(\"A\")\nA\n",
        "#define A 1\n#pragma push_macro(\"A\")\n#undef A\n#pragma push_macro(\"A\")\n#define A 2\n#pragma pop_macro(\"A\")\nA\n#pragma pop_macro(\"A\")\nA\n", "#define f(x) x\nf\n#define two 2\ntwo f\n",
        "#define two(x) { int j = x; int k = x; if (j != k) }\ntwo(__COUNTER__)\n", "#define f(x) x x\nf(__COUNTER__) f(f(__COUNTER__))\n", "#define f(x) x\nf\n\n__LINE__ f\n(1)\n__LINE__\n", "#if 0\n#error don't\n#endif\nx\n", "#if 0\n#warning \"\n#else\ny\n#endif\n", "#if 0\nx /* ' */ // \"\n#else\ny\n#endif\n",
        "#if 0\n/* c */ # /* d */ else // e\ny\n/* f\n */ #endif\nz\n", "#define f() 1\n#define g( ) 2\n#define h(x )x\nf()g()h(3)\n", "#define f(x) x\nf\n#define g\n(1)\n",
        "#define f(x) x\nf // c\n(1) f /* d\n */ (2) f / 3\n", "#define s(x) #x\ns(  L'\\0'  \"\\t\" 'x' ) s(a\tb) s( ) s(,)\n"[:-6] + "\n", "#line 50\n__LINE__\n\n__LINE__\n", "#define n 7\n#line n\n__LINE__\n", "# 33\n__LINE__\n", "#line 5 \"x.c\"\n__LINE__ __FILE__\n", "# 60 \"w.c\" 1 3\n__LINE__ __FILE__\n\n__LINE__\n", "__FILE__\n#define n 9 \"y/z.c\"\n#line n\n__LINE__ __FILE__\n#line 3\n__LINE__ __FILE__\n",
        "#line 2147483000\n__LINE__ __LINE__\n", "#define n 7\n#define m n\n#line m\n__LINE__ n\n__LINE__\n", "#define f(x) x\n#line f(9)\n__LINE__\n", "#define n 3\n# 5\n__LINE__ n\n",
        "#define A 1\n#pragma push_macro(\"A\")\n#undef A\n#define A 2\nA\n#pragma pop_macro(\"A\")\nA\n", "#pragma push_macro(\"A\")\n#define A 2\nA\n#pragma pop_macro(\"A\")\nA\n",
        "#define A 1\n#pragma push_macro(\"A\")\n#define A 2\n#pragma push_macro(\"A\")\n#undef A\nA\n#pragma pop_macro(\"A\")\nA\n#pragma pop_macro(\"A\")\nA\n",
        "#define f(x) x\n#if f\nbad\n#else\n(1)\n#endif\n", "#define f(x) x\n#define g f\n#if g\n(1)\n#else\nk\n#endif\nf\n(2)\n", "#define f(x) x\nf\n\n(1) f\n/* ( */ 2\n",
        "#define f(x) [x]\n#define a f\na(1) a\n(2) a (a(3))\n", "#define f(x) x f\n#define g f(1)\ng (2) (3)\n", "#define f(a,b,c,d,e) e d c b a\nf(1,2,3,4,5) f(f(1,2,3,4,5),,,,)\n",
        "#define A " + "x " * 300 + "\nA y\n", "#define f(x) x x\nf(" + "y " * 150 + ")\n", "#define f(x) (x)\n" + "f(" * 8 + "1" + ")" * 8 + "\n", "#if 1\n" * 63 + "x\n" + "#endif\n" * 63 + "y\n",
        "#if 0\n" + "#if 1\n" * 70 + "x\n" + "#endif\n" * 70 + "#else\nz\n#endif\ny\n", "#define " + "n" * 300 + " 1\n" + "n" * 300 + " " + "n" * 299 + "\n", "#define s(x) #x\ns(" + "abc " * 90 + ")\n",
        "".join("#define m%d m%d\n" % (k, k + 1) for k in range(9)) + "m0 m8 m9\n", "#define c(a,b) a##b\n#define A c(\nA x,y) c(A,1)\n", "#define A a\\\nb\nA\n", "#def\\\nine A 1\nA\n", "#define s(x) #x\ns(\"a\\\nb\") s('\"') s(\"'\")\n",
        "#define c(a,b) a/**/b\nc(x,y)\n", "#define f(x) x\nf(/* , ) */ 1) f(\"),\") f(')')\n", "#define f(x) /* x */ x // x\nf(1)\n", "#define EMPTY\n#define f(x) x\nf(EMPTY) f(EMPTY 1) EMPTY#EMPTY\n", "#define f(x) x\n#define f(x) x\nf(1)\n",
        "#define if while\n#define int long\nif int for\n#if int\n#else\nz\n#endif\n#undef if\nif\n", "#ifdef int\nbad\n#endif\n#define int\n#ifdef int\ngood\n#endif\n#if defined int && !defined(if)\nok\n#endif\n",
        "#define f(x,y...) x y\nf(1) f(1,2,3)\n", "#define e(f,...) p(f, ##__VA_ARGS__)\n#define w(...) e(__VA_ARGS__)\nw(1) w(1,2) w(1,2,3)\n", "#define f(...) g(__VA_ARGS__)\n#define g(x,y) y x\nf(1,2) f((1),2)\n",
        "#define cnt __COUNTER__\ncnt cnt\n#if __COUNTER__ == 2\nok\n#endif\n__COUNTER__\n", "#define A B(\n#define B(x) x A\nA 1) 2)\n", "#define x (4 + x)\n#define y x y\nx y\n", "#define f(f) f\nf(1) f(f)\n", "#define f(__LINE) __LINE __LINE__\nf(2)\n"]


def body(r, params):
    out = []
    for _ in range(r.randint(0, 5)):
        c = r.random()
        if params and c < .4:
            out.append(r.choice(params))
        elif c < .6:
            out.append(r.choice("abfgh"))
        elif c < .7:
            out.append(r.choice(["f(1)", "g(2,3)", "f(", "( ", ")", ","]))
        elif c < .8 and params:
            out.append("#" + r.choice(params))
        elif c < .88 and out and out[-1] != "##":
            out.append("##")
        else:
            out.append(r.choice(["1", "+", "-", "x", "\"s\"", "'c'", ".5", "e"]))
    while out and out[0] == "##":
        out.pop(0)
    while out and out[-1] == "##":
        out.pop()
    return " ".join(out)


def arg(r, d=0):
    if d < 2 and r.random() < .3:
        return r.choice("fgh") + "(" + ",".join(arg(r, d + 1) for _ in range(r.randint(0, 2))) + ")"
    return r.choice(["1", "x", "a", "b", "f", "g", "", "(1,2)", "x y", "\"q\"", "-", "2 ", " 3", "__LINE__"])


def program(seed):
    """up to four macros that may name each other, and uses of them"""
    r = random.Random(seed)
    out = []
    for n in r.sample("abfgh", r.randint(1, 4)):
        ps = None if n in "ab" else r.choice([[], ["x"], ["x", "y"], ["x", "..."], ["..."]])
        out.append("#define %s%s %s\n" % (n, "" if ps is None else "(%s)" % ",".join(ps), body(r, [p if p != "..." else "__VA_ARGS__" for p in ps or []])))
    for _ in range(r.randint(1, 3)):
        out.append(r.choice([lambda: arg(r) + " " + arg(r), lambda: r.choice("fgh") + "(" + arg(r) + "," + arg(r) + ")", lambda: r.choice("fgh") + "(" + arg(r) + ")",
                             lambda: r.choice("ab") + " " + r.choice("fgh") + " (" + arg(r) + ") " + r.choice("ab")])() + "\n")
    return "".join(out)


def expr(r, d=0):
    c = r.random()
    if d > 3 or c < .25:
        return r.choice(["0", "1", "2", "3", "7", "0u", "1u", "-1", "63", "0x7fffffff", "0x80000000", "0xffffffffu", "4294967296", "0x7fffffffffffffff", "0xffffffffffffffff", "'a'", "'\\xff'", "zz", "defined A",
                         "defined(A)", "A", "F(2)", "1L", "5ul", "1ull", "L'b'"])
    if c < .35:
        return r.choice("-~!+") + " " + expr(r, d + 1)
    if c < .5:
        return "(" + expr(r, d + 1) + ")"
    if c < .58:
        return expr(r, d + 1) + " ? " + expr(r, d + 1) + " : " + expr(r, d + 1)
    o = r.choice("* / % + - << >> < > <= >= == != & ^ | && ||".split())
    if o in ("<<", ">>"):
        return "(" + expr(r, d + 1) + " " + o + " " + r.choice(["0", "1", "31", "32", "33", "62", "63"]) + ")"
    return expr(r, d + 1) + " " + o + " " + expr(r, d + 1)


UNSPECIFIED = {1382}                                        # the end of a call lies outside the macro that began it


def texts(deep=False):
    out = [(t, None) for t in OBJ + FUN + BADP + COND + MORE]
    out += [(t, 1) for t in OBJ + FUN + COND + MORE if len(t) < 300]
    for e in EXPR:
        out.append(("#if %s\ny\n#else\nn\n#endif\n" % e, None))
        out.append(("#if 0\na\n#elif %s\ny\n#endif\nz\n" % e, None))
    # nested conditions, every combination of the outcomes
    for k in range(64):
        b = [k >> i & 1 for i in range(6)]
        out.append(("#if %d\na\n#if %d\nb\n#elif %d\nc\n#else\nd\n#endif\n#elif %d\ne\n#else\n#if %d\nf\n#else\ng\n#endif\n#endif\n#if %d\nh\n#endif\ni\n" % tuple(b), None))
    for k in range(4000 if deep else 500):
        if k not in UNSPECIFIED:
            out.append((program(k), None))
    for k in range(3000 if deep else 300):
        r = random.Random(k)
        out.append(("#define A 4\n#define F(x) (x+1)\n" + "".join("#if %s\ny%d\n#else\nn%d\n#endif\n" % (expr(r), i, i) for i in range(3)), None))
    return out


def work(job):
    L = MEMO["L"]
    out, endless = [], 0
    for text, width in job:
        if endless > 2:
            break
        try:
            n, bad = judge(L, text, width)
            endless += bool(bad) and bad[0] == "endless"
            out.append((n, bad, None))
        except Lost as e:
            if str(e).startswith("steps in"):
                endless += 1
                out.append((1, ("endless", "%s is never read to its end" % sample(text)), None))
            else:
                out.append((0, None, "%s: %s" % (e, sample(text))))
        except (Bad, RecursionError) as e:
            out.append((0, None, "%s: %s" % (e, sample(text))))
    return out


def run(R, tier):
    R.rules = ["following next() with the directives and macros of a text over the IR, from the state tccpp_new leaves, yields the tokens C's translation phase 4 gives "
               "(clang's preprocessor is the reference), or an error where C requires one"]
    R.assume = ["clang 18's preprocessor implements C11 6.10 and the GNU extensions named in the statement", "read() returns the file's bytes"]
    L = Pre()
    for n in ("next", "tccpp_new"):
        R.need(n in L.m.defined, n)
    try:
        L.boot()
    except Lost as e:
        R.need(False, "the preprocessor's initial state (%s)" % e)
    MEMO["L"] = L
    jobs = texts(tier == "thorough")
    parts = [jobs[k::40] for k in range(40)]
    seen, lost, n = set(), [], 0
    with ProcessPoolExecutor(min(8, os.cpu_count() or 4)) as ex:
        for res in ex.map(work, parts):
            for k, bad, miss in res:
                n += 1
                R.count("texts")
                if miss:
                    R.count("not_followed")
                    lost.append(miss)
                    continue
                R.obligation(n=k)
                if bad and bad[1] not in seen and len(seen) < 12:
                    seen.add(bad[1])
                    f = L.m.defined.get("preprocess")
                    R.violation(bad[0] + ":" + bad[1].split(" is ")[0].split(" becomes ")[0], "%s" % (f.file if f else "tccpp.c"), "directives and macros", bad[1])
    if lost:
        R.notes += ["not followed: " + x for x in sorted(lost)[:60]]
    R.need(len(lost) * 3 <= n, "texts followed (%s)" % sorted(lost)[:3])
