"""C48: a declaration declares the type C and the System V ABI say: specifiers in any order, declarators, typedefs,
parameters, enumerations, and the sizes, alignments and member positions of structures and unions."""
import itertools
import re
from concurrent.futures import ProcessPoolExecutor
from sa.build import Tree
from sa.ir import Module
from sa.interp import Lost
from sa.lower import words
from sa.decls import Decls

# ---------------------------------------------------------------------- the meaning of a declaration
BASE = {}
for names, n in (("char", "char"), ("signed char", "signed char"), ("unsigned char", "unsigned char"), ("short;short int;signed short;signed short int", "short"),
                 ("unsigned short;unsigned short int", "unsigned short"), ("int;signed;signed int", "int"), ("unsigned;unsigned int", "unsigned int"),
                 ("long;long int;signed long;signed long int", "long"), ("unsigned long;unsigned long int", "unsigned long"),
                 ("long long;long long int;signed long long;signed long long int", "long long"),
                 ("unsigned long long;unsigned long long int", "unsigned long long"), ("float", "float"), ("double", "double"),
                 ("long double", "long double"), ("_Bool", "_Bool"), ("void", "void")):
    for x in names.split(";"):
        BASE[tuple(sorted(x.split()))] = n
SPECS = sorted({w for k in BASE for w in k})
SIZES = {"char": 1, "signed char": 1, "unsigned char": 1, "_Bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "float": 4, "long": 8,
         "unsigned long": 8, "long long": 8, "unsigned long long": 8, "double": 8, "long double": 16, "void": 1}
QUAL = {"const": "c", "volatile": "v", "__const": "c", "__const__": "c", "__volatile": "v", "__volatile__": "v", "restrict": "", "__restrict": "",
        "__restrict__": ""}
STORE = {"typedef", "extern", "static", "inline", "register", "auto", "__inline", "_Noreturn"}
ALIAS = {"__signed": "signed", "__signed__": "signed"}


class Syntax(Exception):
    pass


class Struct:
    def __init__(self, kind):
        self.kind, self.fields, self.size, self.align = kind, None, None, None
        self.values, self.under = [], None


def qualify(t, q):
    if not q:
        return t
    if t[0] == "array":
        return ("array", t[1], qualify(t[2], q))
    if t[0] in ("basic", "pointer", "struct", "enum"):
        return (t[0], "".join(sorted(set(t[1]) | set(q)))) + t[2:]
    return t


def bare(t):
    return (t[0], "") + t[2:] if t[0] in ("basic", "pointer", "struct", "enum") else t


def up(x, a):
    return -(-x // a) * a


def measure(t):
    """(size, alignment), or None while the type is incomplete"""
    k = t[0]
    if k == "pointer":
        return 8, 8
    if k == "basic":
        return SIZES[t[2]], SIZES[t[2]]
    if k == "enum":
        return SIZES[t[2].under], SIZES[t[2].under]
    if k == "struct":
        return (t[2].size, t[2].align) if t[2].size is not None else None
    if k == "array":
        e = measure(t[2])
        return (e[0] * t[1], e[1]) if e and t[1] is not None else None
    return 1, 1


def place(s, fields, packed, aligned, pack):
    """System V with the bit-fields of gcc: a bit-field follows the previous member's last bit unless it would straddle
    a unit of its type"""
    pos, end, big, out = 0, 0, 1, []
    for name, t, width, al, pk in fields:
        if t[0] == "array" and t[1] is None:
            sz, nat = 0, measure(t[2])[1]
        else:
            sz, nat = measure(t)
        if s.kind == "union":
            pos = 0
        pk = pk or packed
        a = 1 if pk else nat
        if pack:
            a = min(a, pack)
        want = 0 if pack and pack < al else al
        if width == 0:
            if s.kind != "union":
                pos = up(pos, 8 * nat)
            out.append((name, t, pos, 0))
            end = max(end, pos)
            continue
        a = max(a, want)
        if width is None or al:
            pos = up(pos, 8 * a)
        elif not pk and not pack and pos % (8 * nat) + width > 8 * sz:
            pos = up(pos, 8 * nat)
        out.append((name, t, pos, width))
        pos += 8 * sz if width is None else width
        if width is None or name:
            big = max(big, a)
        end = max(end, pos)
    s.align = max(big, aligned or 1)
    s.size = up(-(-end // 8), s.align)
    s.fields = out


class Meaning:
    def __init__(self, text, pack=0):
        self.t, self.i, self.pack = words(text), 0, pack
        self.tags, self.types, self.consts, self.decls = {}, {}, {}, []
        while self.i < len(self.t):
            self.declaration()

    def at(self, *w):
        return self.i < len(self.t) and self.t[self.i] in w

    def take(self, w=None):
        if self.i >= len(self.t) or (w and self.t[self.i] != w):
            raise Syntax("%s at %s" % (w, self.t[self.i:self.i + 3]))
        self.i += 1
        return self.t[self.i - 1]

    def number(self):
        n = self.take()
        sign = 1
        if n == "-":
            sign, n = -1, self.take()
        v = sign * (int(n) if n.isdigit() else self.consts[n])
        while self.at("+", "*"):
            o, w = self.take(), self.take()
            w = int(w) if w.isdigit() else self.consts[w]
            v = v + w if o == "+" else v * w
        return v

    def attributes(self, ad):
        while self.at("__attribute__", "__attribute"):
            self.take()
            self.take("(")
            self.take("(")
            while not self.at(")"):
                n = self.take().strip("_")
                if n == "aligned":
                    if self.at("("):
                        self.take("(")
                        ad["aligned"] = self.number()
                        self.take(")")
                    else:
                        ad["aligned"] = 16
                elif n == "packed":
                    ad["packed"] = True
                else:
                    raise Syntax(n)
                if self.at(","):
                    self.take()
            self.take(")")
            self.take(")")

    def specifiers(self):
        spec, q, base, ad, store = [], "", None, {}, set()
        start = self.i
        while self.i < len(self.t):
            w = self.t[self.i]
            w = ALIAS.get(w, w)
            if w in SPECS:
                spec.append(w)
            elif w in QUAL:
                q += QUAL[w]
            elif w in STORE:
                store.add(w)
            elif w == "__extension__":
                pass
            elif w in ("__attribute__", "__attribute"):
                self.attributes(ad)
                continue
            elif w == "_Alignas":
                self.take()
                self.take("(")
                k = self.i
                s = self.specifiers()
                if s is None:
                    ad["aligned"] = self.number()
                else:
                    ad["aligned"] = measure(self.declarator(s[0], {})[1])[1]
                self.take(")")
                continue
            elif w in ("struct", "union"):
                base = self.struct(self.take())
                continue
            elif w == "enum":
                base = self.enum()
                continue
            elif w in self.types and base is None and not spec:
                t, a = self.types[w]
                base = t
                ad = {**a, **ad}
            else:
                break
            self.i += 1
        if self.i == start:
            return None
        if base is None:
            n = BASE.get(tuple(sorted(spec))) if spec else "int"
            if n is None:
                raise Syntax(" ".join(spec))
            base = ("basic", "", n)
        return qualify(base, q), ad, store

    def struct(self, kind):
        ad, tag = {}, None
        self.attributes(ad)
        if not self.at("{"):
            tag = self.take()
        s = self.tags.get(tag) if tag else None
        if s is None:
            s = Struct(kind)
            if tag:
                self.tags[tag] = s
        if self.at("{"):
            self.take()
            fields = []
            while not self.at("}"):
                base, fad, _ = self.specifiers()
                if self.at(";"):
                    fields.append((None, base, None, fad.get("aligned", 0), fad.get("packed", False)))
                while not self.at(";"):
                    a = dict(fad)
                    if self.at(":"):
                        name, t = None, base
                    else:
                        name, t = self.declarator(base, a)
                    width = None
                    if self.at(":"):
                        self.take()
                        width = self.number()
                        self.attributes(a)
                    fields.append((name, t, width, a.get("aligned", 0), a.get("packed", False)))
                    if self.at(","):
                        self.take()
                self.take(";")
            self.take("}")
            self.attributes(ad)
            place(s, fields, ad.get("packed", False), ad.get("aligned", 0), self.pack)
        return ("struct", "", s)

    def enum(self):
        self.take()
        tag = None if self.at("{") else self.take()
        s = self.tags.get(tag) if tag else None
        if s is None:
            s = Struct("enum")
            if tag:
                self.tags[tag] = s
        if self.at("{"):
            self.take()
            v = -1
            while not self.at("}"):
                n = self.take()
                v += 1
                if self.at("="):
                    self.take()
                    v = self.number()
                self.consts[n] = v
                s.values.append((n, v))
                if self.at(","):
                    self.take()
            self.take("}")
            lo, hi = min(v for _, v in s.values), max(v for _, v in s.values)
            s.under = ("unsigned int" if hi < 1 << 32 else "unsigned long") if lo >= 0 else "int" if hi < 1 << 31 and lo >= -1 << 31 else "long"
        return ("enum", "", s)

    def declarator(self, t, ad, param=False):
        """(name or None, type)"""
        while self.at("*"):
            self.take()
            q = ""
            while self.at(*QUAL):
                q += QUAL[self.take()]
            t = ("pointer", "".join(sorted(set(q))), t)
        inner = None
        if self.at("(") and (self.t[self.i + 1] in ("*", "(", "[") or self.t[self.i + 1] not in self.types and not param_start(self, self.i + 1)):
            self.take()
            k = self.i
            depth = 1
            while depth:
                w = self.take()
                depth += (w == "(") - (w == ")")
            t = self.suffix(t)
            after, self.i = self.i, k
            name, t = self.declarator(t, ad)
            self.take(")")
            self.i = after
            self.attributes(ad)
            return name, t
        name = None
        if self.i < len(self.t) and re.match(r"[A-Za-z_]", self.t[self.i]) and not self.at("__attribute__", "__attribute"):
            name = self.take()
        t = self.suffix(t)
        self.attributes(ad)
        return name, t

    def suffix(self, t):
        if self.at("["):
            self.take()
            while self.at("static", "*", *QUAL):
                self.take()
            n = None if self.at("]") else self.number()
            self.take("]")
            return ("array", n, self.suffix(t))
        if self.at("("):
            self.take()
            ps, kind = [], "new"
            if self.at(")"):
                kind = "old"
            elif not self.param_here():
                kind = "old"
                while True:
                    ps.append(self.take())
                    if not self.at(","):
                        break
                    self.take()
            else:
                while True:
                    if self.at("..."):
                        self.take()
                        kind = "..."
                        break
                    b, _, _ = self.specifiers()
                    _, p = self.declarator(b, {}, True)
                    if p == ("basic", "", "void") and self.at(")") and not ps:
                        break
                    ps.append(adjust(p))
                    if not self.at(","):
                        break
                    self.take()
            self.take(")")
            if kind == "old":
                self.kr = ps
            return ("function", bare(self.suffix(t)), tuple(p if isinstance(p, tuple) else ("basic", "", "int") for p in ps), kind)
        return t

    def param_here(self):
        return param_start(self, self.i)

    def declaration(self):
        s = self.specifiers()
        if s is None:
            raise Syntax(str(self.t[self.i:self.i + 3]))
        base, ad, store = s
        while not self.at(";"):
            a = dict(ad)
            n, t = self.declarator(base, a)
            if "typedef" in store:
                self.types[n] = (t, a)
            else:
                self.decls.append((n, t, a.get("aligned", 0)))
            if self.at(","):
                self.take()
        self.take(";")


def param_start(p, i):
    w = p.t[i]
    return w in SPECS or w in QUAL or w in STORE or w in ALIAS or w in p.types or w in ("struct", "union", "enum", "...", "__attribute__", ")")


def adjust(t):
    if t[0] == "array":
        return ("pointer", "", t[2])
    if t[0] == "function":
        return ("pointer", "", t)
    return bare(t)


# ---------------------------------------------------------------------- comparison
class Differ(Exception):
    pass


def show(t):
    if t is None:
        return "nothing"
    k = t[0]
    q = {"": "", "c": "const ", "v": "volatile "}.get(t[1], "const volatile ") if isinstance(t[1], str) else ""
    if k == "basic":
        return q + t[2]
    if k == "pointer":
        return q + "pointer to " + show(t[2])
    if k == "array":
        return "array of %s %s" % ("?" if t[1] in (None, -1) else t[1], show(t[2]))
    if k == "function":
        return "function (%s%s) returning %s" % (", ".join(show(p) for p in t[2]), {"old": " unprototyped", "...": " ..."}.get(t[3], ""), show(t[1]))
    return q + k


class Compare:
    def __init__(self, L, st):
        self.L, self.st, self.pairs, self.done = L, st, {}, set()

    def same(self, a, b, deep=True):
        """a: the meaning, b: the compiler's"""
        if a[0] != b[0]:
            raise Differ("should be %s, is %s" % (show(a), show(b)))
        k = a[0]
        if k in ("basic", "pointer", "struct", "enum") and "".join(sorted(a[1])) != "".join(sorted(b[1])):
            raise Differ("should be %s, is %s" % (show(a), show(b)))
        if k == "basic":
            if a[2] != b[2]:
                raise Differ("should be %s, is %s" % (show(a), show(b)))
        elif k == "pointer":
            self.same(a[2], b[2])
        elif k == "array":
            if (a[1] if a[1] is not None else -1) != b[1]:
                raise Differ("should be an array of %s elements, is one of %s" % (a[1], b[1]))
            self.same(a[2], b[2])
        elif k == "function":
            kind = {1: "new", 2: "old", 3: "..."}.get(b[3])
            if kind != a[3]:
                raise Differ("should be %s, is another kind of function" % show(a))
            if len(a[2]) != len(b[2]):
                raise Differ("should take %d parameters, takes %d" % (len(a[2]), len(b[2])))
            r = b[1]
            self.same(a[1], bare(r))
            if a[3] != "old":
                for x, y in zip(a[2], b[2]):
                    self.same(x, bare(y))
        elif k in ("struct", "enum"):
            o = self.pairs.setdefault(id(a[2]), b[2])
            if o != b[2]:
                raise Differ("should be the same %s as before, is another" % a[2].kind)
            if b[2] not in self.done:
                self.done.add(b[2])
                self.record(a[2], b)

    def record(self, s, b):
        L, st = self.L, self.st
        if s.kind == "enum":
            if b[3] != s.under:
                raise Differ("the enumeration should have the type %s, has %s" % (s.under, b[3]))
            return
        if s.size is None:
            return
        got = L.members(st, b[2])
        if len(got) != len(s.fields):
            raise Differ("the %s should have %d members, has %d" % (s.kind, len(s.fields), len(got)))
        size, align = L.sizes(st, ("i", L.c["VT_STRUCT"]), b[2])
        for (name, t, pos, width), (n2, t2, r2, p2, w2, aux, o) in zip(s.fields, got):
            if name != n2 and name is not None:
                raise Differ("member %s should be %s" % (n2, name))
            nm = name or "unnamed"
            if width == 0 or (width is not None and name is None):
                continue
            if p2 != pos:
                raise Differ("member %s should be at bit %d, is at bit %d" % (nm, pos, p2))
            if width is None or w2 is None:
                full = width is not None and w2 is None
                if full and width != 8 * measure(t)[0]:
                    raise Differ("member %s should have %d bits" % (nm, width))
                if width is None and w2 is not None:
                    raise Differ("member %s should not be a bit-field" % nm)
                if not (t[0] == "array" and t[1] is None):
                    self.same(t, L.tree(st, t2, r2))
                continue
            if w2 != width:
                raise Differ("member %s should have %d bits, has %d" % (nm, width, w2))
            if aux == L.c["VT_STRUCT"]:
                continue
            acc, _ = L.sizes(st, ("i", (t2[1] & L.c["VT_BTYPE"]) if aux in (None, -1) else aux), ("i", 0))
            c = st.get(o, L.sy["c"], 4)[1]
            if p2 - 8 * c < 0 or p2 - 8 * c + width > 8 * acc:
                raise Differ("the access of %d bytes at %d does not reach all of member %s" % (acc, c, nm))
            if c + acc > s.size:
                raise Differ("the access to member %s reaches behind the end of the structure" % nm)
        if (size, align) != (s.size, s.align):
            raise Differ("the %s should have size %d and alignment %d, has %d and %d" % (s.kind, s.size, s.align, size, align))


def check(L, text, pack=0):
    """None, or what the compiler makes of the declarations instead"""
    want = Meaning(text, pack)
    err, st = L.declare(text, pack)
    if err:
        return "it is rejected (%s)" % err
    got = st.x["decls"]
    if len(got) != len(want.decls):
        return "%d objects are declared instead of %d" % (len(got), len(want.decls))
    C = Compare(L, st)
    for (n, t, al), (n2, k, ty, ref, al2) in zip(want.decls, got):
        if n != n2:
            return "%s is declared instead of %s" % (n2, n)
        try:
            C.same(t, L.tree(st, ty, ref))
            sz = measure(t)
            if sz and t[0] not in ("function",) and not (t[0] == "basic" and t[2] == "void"):
                g = L.sizes(st, ty, ref)
                if g != sz:
                    raise Differ("should have size %d and alignment %d, has %d and %d" % (sz + g))
        except Differ as e:
            return "%s %s" % (n, e)
        if (1 << al2 - 1 if al2 else 0) != al:
            return "%s should have alignment attribute %d, has %d" % (n, al, 1 << al2 - 1 if al2 else 0)
    syms = {L.word(v): o for v, o in st.x["syms"] if L.word(v)}
    for n, v in want.consts.items():
        if n not in syms:
            return "the enumerator %s is not declared" % n
        g = L.probe(st, "probe_value", [syms[n]])
        if g != v:
            return "the enumerator %s should be %d, is %d" % (n, v, g)
        t = st.get(syms[n], L.sy["type"], 4)[1]
        b = t & L.c["VT_BTYPE"]
        w = b == L.c["VT_LLONG"]
        if w != (not -1 << 31 <= v < 1 << 32) and w != (not -1 << 31 <= v < 1 << 31):
            return "the enumerator %s has a type that does not hold its value" % n
    return None


# ---------------------------------------------------------------------- declarations
def specs():
    out = []
    for k in BASE:
        if k == ("void",):
            continue
        for p in sorted(set(itertools.permutations(k))):
            out.append("%s V1;" % " ".join(p))
            out.append("%s const *V1;" % " ".join(p))
            for j in range(len(p) + 1):
                q = list(p)
                q.insert(j, "const" if j % 2 else "volatile")
                out.append("%s V1;" % " ".join(q))
    for s in ("static", "extern", "register" if False else "extern", "inline" if False else "static"):
        out += ["%s unsigned long V1;" % s, "unsigned %s long V1;" % s, "unsigned long %s V1;" % s, "%s const char *V1[2];" % s]
    out += ["__signed char V1;", "__signed__ long V1;", "__const char *V1;", "char __const__ *__restrict V1;", "__volatile int V1;", "int __volatile__ V1;",
            "__extension__ long long V1;", "const const int V1;", "const volatile int *volatile const V1;", "int const *const *volatile *V1;"]
    return sorted(set(out))


def shapes(depth):
    """declarators built from pointers, arrays and functions around a name"""
    if depth == 0:
        return [("N", "V1")]
    out = []
    for k, d in shapes(depth - 1):
        out.append(("P", "*" + d))
        out.append(("Q", "*const " + d))
        e = "(%s)" % d if k in "PQ" else d
        if k != "F":
            out.append(("A", e + "[3]"))
        if k not in "AF":
            out.append(("F", e + "(int)"))
            out.append(("F", e + "()"))
            out.append(("F", e + "(char *, ...)"))
        out.append((k, "(%s)" % d))
    return out


def declarators():
    out = []
    for d in (0, 1, 2, 3):
        for k, x in shapes(d):
            for b in ("int", "const char", "unsigned long"):
                out.append("%s %s;" % (b, x))
    ok = []
    for t in dict.fromkeys(out):
        # a function may not return an array or a function, and an array has no functions: the shapes above exclude
        # most; the rest is filtered by the meaning
        try:
            m = Meaning(t).decls
        except (Syntax, KeyError, IndexError):
            continue
        if m and valid(m[0][1]):
            ok.append(t)
    ds = ["V1", "*V2", "V3[2]", "(*V4)(void)", "V5(int)", "*V6[3]", "**V7", "(*V8)[5]"]
    for a in ds:
        for b in ds:
            if a != b:
                ok.append("long %s, %s, V9;" % (a, b))
                ok.append("const struct S1 { int f1; } %s, %s;" % (a, b))
    ok += ["int V1[2][3];", "int V1[2][3][4], V2[4][3][2];", "int (*V1[2])[3];", "char (*(*V1[3])(void))[5];", "int *(*(*V1)(int *))(char);",
           "int V1[3 * 4 + 1];", "int V1[];", "char V1[][3];", "int ((V1));", "int (*(V1))[2];", "int (V1)(int), (*V2)(int);", "int V1[1 + 1][3 * 2];",
           "void (*V1(int, void (*)(int)))(int);", "int (*(*V1)[2])[3];", "struct S1 *V1; struct S1 { struct S1 *f1; int f2; } V2; struct S1 V3;",
           "struct S1 { int f1; } *V1; struct S1 *V2, V3[4];", "union S1 { int f1; char f2[7]; } V1[3];"]
    return ok


def valid(t):
    k = t[0]
    if k == "array":
        return t[2][0] != "function" and valid(t[2]) and t[1] is not None
    if k == "function":
        return t[1][0] not in ("array", "function") and valid(t[1]) and all(valid(p) for p in t[2])
    if k == "pointer":
        return valid(t[2])
    return True


def params():
    out = []
    ps = ["int", "char p1", "int *", "int p1[3]", "int p1[]", "int [2][3]", "int p1(int)", "int (*)(void)", "const char *p1", "const int p1", "struct S1 *p1",
          "char *p1[]", "int *const p1", "long double p1", "double (*p1[2])(float)", "unsigned", "volatile int *const p1", "int p1[static 3]", "int (int)"]
    for p in ps:
        out += ["struct S1; int V1(%s);" % p, "struct S1; void (*V1)(%s, int p9);" % p, "struct S1; char *V1(int p9, %s, ...);" % p]
    out += ["int V1(void);", "int V1();", "void V1(int, ...);", "int V1(int (*p1)(int p2, char), int p3);", "int V1(int p1), V2(char p1);",
            "typedef int T1; int V1(T1), V2(T1 p1, T1 *p2), V3(const T1 *);", "typedef int T1(char); T1 V1, *V2; int V3(T1), V4(T1 *);",
            "typedef int T1[3]; int V1(T1), V2(const T1 p1), V3(T1 *p1);", "int V1(int p1, int p2[p1]);" if False else "int V1(int p1, int p2[2]);",
            "typedef char *T1; const T1 V1; T1 const *V2; T1 V3(const T1, T1 *);"]
    return out


def typedefs():
    ts = ["int T1", "unsigned char T1", "char *T1", "int T1[3]", "int T1[2][2]", "int (*T1)(int)", "int T1(int)", "struct S1 { int f1; char f2; } T1", "struct { char f1; } *T1",
          "enum { K1, K2 } T1", "const int T1", "volatile char *const T1"]
    uses = ["T1 V1", "T1 *V1", "const T1 V1", "T1 const V1, V2", "T1 *V1[2]", "T1 V1, *V2, **V3", "const T1 *const V1", "struct S2 { T1 f1; T1 *f2; } V1",
            "volatile T1 V1, *V2", "T1 *V1(int)", "extern T1 V1", "static const T1 *V1"]
    out = []
    for t in ts:
        for u in uses:
            fn = "T1(int)" == t[4:]
            if fn and re.search(r"T1 (V1|f1|const V1)|const T1 V1|volatile T1 V1", u) and "*" not in u.split("V1")[0]:
                continue
            if fn and ("const" in u or "volatile" in u or "f1" in u or "T1 V1" in u):
                continue
            out.append("typedef %s; %s;" % (t, u))
        if "(int)" not in t:
            out += ["typedef %s; T1 V1[2], V2[3][2];" % t, "typedef %s; typedef T1 T2[2]; T2 V1; T2 *V2; const T2 V3;" % t, "typedef %s; int V1(T1, T1 *);" % t]
    out += ["typedef int T1, *T2, T3[4]; T1 V1; T2 V2; T3 V3; T2 V4[2];", "typedef struct S1 S1; struct S1 { S1 *f1; long f2; }; S1 V1, *V2;" if False else
            "typedef struct S1 T1; struct S1 { T1 *f1; long f2; }; T1 V1, *V2; struct S1 V3;",
            "typedef const char *T1; T1 V1; T1 *V2; const T1 V3;", "typedef int T1 __attribute__((aligned(16))); T1 V1; T1 V2, V3;",
            "typedef int T1[2]; typedef T1 T2[3]; T2 V1; const T2 V2; T2 V3[4];", "typedef int T1[2]; const T1 V1; T1 V2;",
            "typedef int T1[2][3]; volatile T1 V1; T1 V2; T1 *V3;"]
    return out


def enums():
    out = ["enum { K1, K2, K3 } V1;", "enum { K1 = 5, K2, K3 = 1, K4 } V1;", "enum { K1 = -1, K2 } V1;", "enum S1 { K1 = 4294967295, K2 = 1 } V1; enum S1 *V2;",
           "enum { K1 = -5, K2 = 2147483647 } V1;", "enum { K1 = 4294967296, K2 } V1;", "enum { K1 = -1, K2 = 2147483648 } V1;",
           "enum { K1 = 2147483647, K2 } V1;", "enum { K1 = -2147483648, K2 } V1;", "enum { K1 = -2147483649, K2 } V1;" , "enum { K1 = 7, K2 = K1 + 1, K3 = K2 * 2, } V1[K3];",
           "enum S1 { K1, K2 }; enum S1 V1, *V2; struct S3 { enum S1 f1; char f2; } V3;", "enum { K1 = 9223372036854775807 } V1;",
           "enum { K1 = 3 }; int V1[K1], V2[K1 + 2];", "enum { K1 = 0 } V1;", "enum { K1 = 100, K2, K3, K4 = -100, K5 } V1;", "typedef enum { K1, K2 = 8 } T1; T1 V1; const T1 *V2;"]
    return out


PLAIN = ["char f", "short f", "int f", "long f", "char *f", "double f", "long double f", "float f[3]", "char f[3]", "short f[5]", "struct { char g1; int g2; } f",
         "struct { short g1[3]; } f", "union { int g1; char g2[5]; } f", "_Bool f", "unsigned long long f[2]", "int (*f)(int)"]
BITS = ["%s f : %d" % (t, w) for t, ws in (("unsigned char", (1, 3, 7)), ("unsigned short", (1, 5, 9, 15)), ("int", (1, 3, 9, 17, 25, 31)), ("unsigned long", (1, 7, 20, 31, 32, 33, 41, 57, 63)),
                                             ("_Bool", (1,))) for w in ws]
VOID = ["int : 0", "char : 0", "long : 0", "short : 0", "int : 5", "long : 33", "short : 7"]
FULL = ["int f : 32", "char f : 8", "unsigned short f : 16", "long f : 64"]


def body(ms):
    n = itertools.count(1)
    return " ".join(re.sub(r"\bf\b", lambda x: "f%d" % next(n), m) + ";" for m in ms)


def records(tier):
    """(text, pack)"""
    out = []
    base = [PLAIN, BITS, VOID, FULL]
    everything = PLAIN + BITS + VOID + FULL
    few = ["char f", "int f", "double f", "char f[3]", "unsigned char f : 3", "int f : 17", "unsigned long f : 33", "unsigned short f : 9", "int : 0"]
    seqs = [[a] for a in everything] + [[a, b] for a in everything for b in everything]
    k = 0
    for a in everything:
        for b in everything:
            for c in few:
                k += 1
                if tier == "thorough" or k % 3 == 0:
                    seqs.append([a, b, c])
    for a in BITS:
        for b in BITS:
            if (int(a.split()[-1]) + int(b.split()[-1])) % 8 == 0:      # a unit filled exactly
                for c in ("unsigned long f : 33", "int f : 9", "unsigned char f : 3", "long f"):
                    seqs.append([a, b, c])
    for n in range(1, 16):
        for a in BITS + VOID + PLAIN[:8]:
            seqs.append(["char f[%d]" % n, a, "char f"])
            for b in ("unsigned char f : 3", "int f : 9", "unsigned long f : 41"):
                seqs.append(["char f[%d]" % n, b, a])
    for s in seqs:
        if any(x not in VOID for x in s):
            out.append(("struct { %s } V1;" % body(s), 0))
    few2 = few + ["short f", "long f", "float f[3]", "int f : 31", "unsigned long f : 63", "struct { char g1; int g2; } f", "_Bool f : 1", "long double f",
                  "unsigned long f : 20"]
    for a in few2:
        for b in few2:
            for c in few2[:10]:
                k += 1
                if all(x in VOID for x in (a, b, c)):
                    continue
                s = body([a, b, c])
                if tier == "thorough" or k % 2:
                    out.append(("struct __attribute__((packed)) { %s } V1;" % s, 0))
                if tier == "thorough" or k % 4 < 2:
                    out.append(("struct { %s } __attribute__((packed)) V1;" % s, 0))
                if tier == "thorough" or k % 4 == 2:
                    out.append(("union { %s } V1;" % s, 0))
                out.append(("struct { %s } V1;" % s, (1, 2, 4, 8, 16)[k % 5]))
    for a in few2:
        for b in few2:
            for t in ("union { %s } V1;", "union { %s } V1, *V2; struct { char f9; union { %s } f8; } V3;"):
                if not all(x in VOID for x in (a, b)):
                    s = body([a, b])
                    out.append((t.replace("%s", s), 0))
            for n in (1, 2, 4, 8):
                out.append(("union { %s } V1;" % body([a, b]), n))
    al = ["char f __attribute__((aligned(%d)))", "int f __attribute__((aligned(%d)))", "double f __attribute__((aligned(%d)))", "int f : 5 __attribute__((aligned(%d)))",
          "unsigned char f[3] __attribute__((aligned(%d)))", "_Alignas(%d) char f"]
    for x in al:
        for n in (8, 16, 32):
            for a in few:
                for b in few[:6]:
                    out.append(("struct { %s } V1;" % body([a, x % n, b]), 0))
            out.append(("union { %s } V1;" % body(["char f", x % n]), 0))
            for a in few:
                out.append(("struct __attribute__((packed)) { %s } V1;" % body([a, x % n, "char f"]), 0))
                out.append(("struct { %s } __attribute__((packed)) V1;" % body([a, x % n, "char f"]), 0))
    for n in (1, 2, 8, 32):
        for a in few:
            out.append(("struct __attribute__((aligned(%d))) { %s } V1, V2[3];" % (n, body([a, "char f"])), 0))
            out.append(("struct { %s } __attribute__((aligned(%d))) V1;" % (body([a, "short f"]), n), 0))
            out.append(("struct { %s } __attribute__((packed, aligned(%d))) V1;" % (body(["char f", a, "short f"]), n), 0))
    for a in few:
        out += [("struct { char f1; %s __attribute__((packed)); int f9; } V1;" % re.sub(r"\bf\b", "f2", a), 0)] if ": 0" not in a else []
        out += [("struct { char f1; struct { %s } f2; char f3; } V1;" % body([a, "int f"]).replace("f1", "g1").replace("f2", "g2"), 0),
                ("struct { char f1; struct { %s }; char f3; } V1;" % body([a, "int f"]).replace("f1", "g1").replace("f2", "g2"), 0),
                ("struct { char f1; union { %s }; short f3; } V1;" % body([a, "int f"]).replace("f1", "g1").replace("f2", "g2"), 0)]
    out += [("struct { int f1; char f2[]; } V1;", 0), ("struct { char f1; long f2[]; } V1;", 0), ("struct { long f1; char f2; short f3[]; } V1, *V2;", 0),
            ("struct { } V1; struct { char f1; struct { } f2; int f3; } V2;", 0), ("struct { int f1, f2 : 3, f3 : 4, *f4, f5[2]; } V1;", 0),
            ("struct S1 { char f1; }; struct { struct S1 f1[3]; short f2; struct S1 *f3; } V1;", 0), ("struct { int (*f1)(void), (*f2[2])(int); char f3; } V1;", 0),
            ("int V1 __attribute__((aligned(16))), V2;", 0), ("__attribute__((aligned(16))) int V1, V2;", 0), ("_Alignas(32) char V1; char V2;", 0),
            ("_Alignas(double) char V1; int V2;", 0), ("_Alignas(short [3]) char V1; int V2;", 0),
            ("struct S1 { int f1[3]; }; _Alignas(struct S1) char V1;", 0), ("_Alignas(char *) char V1, V2;", 0), ("int V1, V2 __attribute__((aligned(8))), V3;", 0), ("int __attribute__((aligned(8))) V1, V2;", 0),
            ("char V1[3] __attribute__((aligned)), V2;", 0), ("struct { char f1; } __attribute__((aligned(8))) V1; char V2;", 0)]
    return out


_L = None


def worker(job):
    text, pack = job
    try:
        return job, check(_L, text, pack), None
    except Lost as e:
        return job, None, str(e)
    except (Syntax, KeyError) as e:
        return job, None, "meaning: %r" % (e,)


FAMILY = (("specifiers", specs), ("declarators", declarators), ("parameters", params), ("typedefs", typedefs), ("enumerations", enums))
WHERE = {"specifiers": "parse_btype", "declarators": "type_decl", "parameters": "post_type", "typedefs": "decl", "enumerations": "struct_decl",
         "records": "struct_layout"}


def c48(R, tier):
    global _L
    R.rules.append("The declaration parser is followed in the IR over every specifier order, every declarator shape up to three derivations, and every "
                   "sequence of member kinds: the type it builds must be the one C gives the declaration, with the size, alignment and member "
                   "positions of the System V ABI.")
    T = Tree()
    m = Module(T.dump(("tcc", "probe")))
    try:
        mac = T.macros()
        _L = Decls(m, mac)
        _L.prepare()
        _L.defsign = mac.get("VT_DEFSIGN") or 0
    except Lost as e:
        R.need(False, "the compiler's declaration parser (%s)" % e)
        return
    jobs, fam = [], {}
    for name, f in FAMILY:
        for t in f():
            if (t, 0) not in fam:
                fam[(t, 0)] = name
                jobs.append((t, 0))
    for t, p in records(tier):
        if (t, p) not in fam:
            fam[(t, p)] = "records"
            jobs.append((t, p))
    lost, seen = {}, set()
    with ProcessPoolExecutor(8) as ex:
        for job, what, err in ex.map(worker, jobs, chunksize=32):
            R.count(fam[job])
            if err is not None:
                R.count("not_followed")
                lost.setdefault(err[:120], []).append(job[0])
                continue
            R.obligation()
            if what:
                key = "%s:%s:%d" % (fam[job], re.sub(r"\s+", "", job[0]), job[1])
                seen.add(key)
                if len(seen) <= 25:
                    f = m.defined.get(WHERE[fam[job]]) or m.defined.get("decl")
                    R.violation(key, "%s:%s" % (f.file, f.name), fam[job], "%s%s: %s" % ("#pragma pack(%d) " % job[1] if job[1] else "", job[0], what))
    R.notes += ["not followed: %s (%d declarations, such as %s)" % (e, len(ts), ts[0]) for e, ts in sorted(lost.items())]
    R.need(R.counts.get("not_followed", 0) <= 0.3 * len(jobs), "declarations followed (%s)" % (sorted(lost)[:2],))
