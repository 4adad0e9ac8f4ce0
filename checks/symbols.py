"""C46: symbols are resolved by the rules of the ELF linker."""
from sa.build import Tree
from sa.ir import Module
from sa.interp import Interp, State, Cases, Lost, ptr

LOCAL, GLOBAL, WEAK = 0, 1, 2
UNDEF, COMMON, ABS = 0, 0xfff2, 0xfff1
TEXT, DATA, BSS, OTHER = 1, 2, 3, 7
BIND = {0: "local", 1: "global", 2: "weak"}
VIS = {0: "default", 1: "internal", 2: "hidden", 3: "protected"}
STRICT = {0: 0, 3: 1, 2: 2, 1: 3}
ASM_SET = 4
SYMS, STR, SEC, S1, NAME = ("ob", "syms"), ("ob", "strs"), ("ob", "sec"), ("ob", "s1"), ("sy", "name")
BSSSEC = ("ob", "bss")
STOP = {"tcc_enter_state", "put_elf_sym", "_tcc_warning"}


def where(x):
    return {UNDEF: "undefined", TEXT: "code", DATA: "data", BSS: "bss", OTHER: "another section", COMMON: "common", ABS: "absolute"}[x]


class Sym:
    def __init__(self, m):
        self.m = m
        o = lambda s, f: m.field_off(s, f)
        self.size = 24
        self.s1 = o("Section", "s1")
        self.dynflag = 0x40000000
        for f in m.defined.values():            # the flags the library symbol table is made with
            for b in f.blocks:
                for x in b.insts:
                    if x.op == "call" and x.callee == "new_symtab" and any(m.gstr(a) == ".dynsymtab" for a in x.ops):
                        self.dynflag = next((a[1] for a in x.ops if a[0] == "i" and a[1] > 1 << 16), self.dynflag)
        self.f = {n: o("Section", n) for n in ("data", "data_offset", "sh_num", "sh_flags", "sh_addr", "link", "hash", "s1")}
        self.t = {n: o("TCCState", n) for n in ("bss_section", "new_undef_sym", "symtab", "dynsym", "sections", "leading_underscore",
                                                "symtab_section", "nb_errors", "dynsymtab_section", "static_link")}

    def default(self, dynsym=False, extra=None, flags=None):
        def d(st, a, k, ty):
            if extra:
                v = extra(st, a, k, ty)
                if v is not None:
                    return v
            if a == SEC:
                return {self.f["s1"]: S1, self.f["data"]: SYMS, self.f["sh_flags"]: ("i", self.dynflag if dynsym else 0),
                        self.f["data_offset"]: ("i", 2 * self.size), self.f["link"]: ("ob", "strsec")}.get(k)
            if a == ("ob", "strsec") and k == self.f["data"]:
                return STR
            if a == ("ob", "dynsec"):
                return {self.f["data"]: ("ob", "dsyms"), self.f["data_offset"]: ("i", 2 * self.size), self.f["link"]: ("ob", "dstr"), self.f["s1"]: S1}.get(k)
            if a == BSSSEC:
                return {self.f["sh_num"]: ("i", BSS), self.f["s1"]: S1}.get(k)
            if a == S1:
                return {self.t["bss_section"]: BSSSEC, self.t["symtab"]: SEC, self.t["symtab_section"]: SEC}.get(k)
            if a == ("g", "tcc_state") and k == 0:
                return S1
            return None
        return d

    def put(self, st, bind=0, typ=0, vis=0, shndx=0, other=None, tab=SYMS, value=True):
        b = self.size
        st.put(tab, b + 4, 1, ("i", bind << 4 | typ))
        st.put(tab, b + 5, 1, ("i", vis if other is None else other))
        st.put(tab, b + 6, 2, ("i", shndx - 65536 if shndx > 32767 else shndx))
        if value:
            st.put(tab, b + 8, 8, ("sy", "V0"))
            st.put(tab, b + 16, 8, ("sy", "S0"))


def errors(st):
    return [e for e in st.log if e[0] == "_tcc_error_noabort"]


def definitions(K, S):
    """set_elf_sym: every combination of an existing and a new symbol"""
    m, fn = K.m, "set_elf_sym"
    olds = [None] + [(b, v, UNDEF, 0) for b in (GLOBAL, WEAK) for v in VIS] + \
           [(b, v, x, a) for b in (GLOBAL, WEAK) for v in VIS for x in (TEXT, BSS, COMMON, ABS) for a in (0, ASM_SET)]
    news = [(b, v, x) for b in (LOCAL, GLOBAL, WEAK) for v in VIS for x in (UNDEF, OTHER, BSS, COMMON, ABS)]
    for dyn in (False, True):
        for old in olds:
            for bind, vis, shndx in news:
                if bind == LOCAL and (vis or shndx == COMMON or dyn):
                    continue
                st = State()
                if old:
                    S.put(st, old[0], 1, old[1], old[2], other=old[1] | old[3])
                find = (lambda st, a, x: ("i", 1)) if old else (lambda st, a, x: ("i", 0))
                outs = K.run(fn, [SEC, ("sy", "V"), ("sy", "SZ"), ("i", bind << 4 | 2), ("i", vis), ("i", shndx), NAME], st,
                             hooks={"find_elf_sym": find}, stop=STOP, default=S.default(dyn))
                if outs is None:
                    continue
                for s, how, ret in outs:
                    judge(K, S, fn, dyn, old, (bind, vis, shndx), s, how, ret)


def outcome(dyn, old, new):
    bind, vis, shndx = new
    if bind == LOCAL or old is None:
        return "append"
    ob, ov, ox, asm = old
    if ox == UNDEF:
        return "replace"
    if shndx == UNDEF:
        return "keep"
    if ob == WEAK:
        return "replace" if bind == GLOBAL else "keep"
    if bind == WEAK:
        return "keep"
    if vis in (1, 2):
        return None                         # a second hidden definition: either answer is accepted
    soft = lambda x: x in (BSS, COMMON)
    if soft(ox) and shndx < 0xff00 and not soft(shndx):
        return "replace"
    if soft(shndx):
        return "keep"
    if dyn:
        return "keep"
    if asm:
        return "replace"
    return "error"


def judge(K, S, fn, dyn, old, new, s, how, ret):
    bind, vis, shndx = new
    want = outcome(dyn, old, new)
    tag = "%s %s %s on %s%s" % (BIND[bind], VIS[vis], where(shndx), "nothing" if old is None else "%s %s %s" % (BIND[old[0]], VIS[old[1]], where(old[2])), " (library)" if dyn else "")
    key = "set:%s" % tag
    same = ((("op", "eq", ("sy", "V0"), ("sy", "V")), True) in s.conds) and ((("op", "eq", ("sy", "S0"), ("sy", "SZ")), True) in s.conds)
    puts = [e for e in s.log if e[0] == "put_elf_sym"]
    err = errors(s)
    K.R.obligation()
    if how != "ret":
        return K.bad(key, fn, "adding a symbol (%s) does not return" % tag)
    if want is None or same and want == "error":
        want = "error" if err else "keep"
    info = bind << 4 | 2
    if want == "append":
        exp = ("put_elf_sym", SEC, ("sy", "V"), ("sy", "SZ"), ("i", info), ("i", vis), ("i", shndx), NAME)
        moved = old and ([s.get(SYMS, S.size + o, n) for o, n in ((4, 1), (6, 2), (8, 8), (16, 8))] !=
                         [("i", old[0] << 4 | 1), ("i", old[2] - 65536 if old[2] > 32767 else old[2]), ("sy", "V0"), ("sy", "S0")])
        if puts != [exp] or err or moved:
            K.bad(key, fn, "adding a symbol (%s) does not enter it into the table exactly as given" % tag)
        elif ret[:2] != ("call", "put_elf_sym"):
            K.bad(key, fn, "adding a symbol (%s) does not return the new entry" % tag)
        return
    if puts:
        return K.bad(key, fn, "adding a symbol (%s) makes a second entry for the name" % tag)
    if ret != ("i", 1):
        return K.bad(key, fn, "adding a symbol (%s) does not return the entry of the name" % tag)
    if bool(err) != (want == "error"):
        return K.bad(key, fn, "adding a symbol (%s) %s an error" % (tag, "reports" if err else "does not report"))
    b = S.size
    got = {k: s.get(SYMS, b + o, n) for k, o, n in (("info", 4, 1), ("other", 5, 1), ("shndx", 6, 2), ("value", 8, 8), ("size", 16, 8))}
    if got["shndx"][0] == "i":
        got["shndx"] = ("i", got["shndx"][1] & 0xffff)
    ob, ov, ox, asm = old
    if want == "replace":
        strong = WEAK if bind == WEAK and (ox != UNDEF or ob == WEAK or shndx != UNDEF) else GLOBAL
        exp = {"info": ("i", strong << 4 | 2), "shndx": ("i", shndx), "value": ("sy", "V"), "size": ("sy", "SZ")}
        if ox == UNDEF and shndx == UNDEF:
            exp.pop("value"), exp.pop("size")
            exp["info"] = got["info"] if got["info"] in (("i", strong << 4 | 1), ("i", strong << 4 | 2)) else exp["info"]
    else:
        exp = {"info": ("i", ob << 4 | 1), "shndx": ("i", ox), "value": ("sy", "V0"), "size": ("sy", "S0")}
    if same:
        for k in ("value", "size"):
            if got.get(k) in (("sy", "V"), ("sy", "SZ"), ("sy", "V0"), ("sy", "S0")):
                exp.pop(k, None)
    for k in exp:
        if got[k] != exp[k]:
            return K.bad(key, fn, "adding a symbol (%s): the entry's %s must %s" % (tag, k, "be that of the new symbol" if want == "replace" else "stay"))
    if ox != UNDEF and not same:
        v = max((ov, vis), key=lambda q: STRICT[q])
        if got["other"][0] != "i" or got["other"][1] & 3 != v:
            K.bad("vis:%s" % tag, fn, "adding a symbol (%s) leaves visibility %s, not %s" % (tag, VIS.get(got["other"][1] & 3) if got["other"][0] == "i" else "?", VIS[v]))
    elif ox == UNDEF and shndx != UNDEF and (got["other"][0] != "i" or STRICT[got["other"][1] & 3] < STRICT[vis]):
        K.bad("vis:%s" % tag, fn, "adding a symbol (%s) loses its visibility" % tag)


def finals(K, S):
    """relocate_syms: the value of every symbol before the program is run or written"""
    fn = "relocate_syms"
    for resolve in (0, 1, 2):
        for shndx in (UNDEF, TEXT, COMMON, ABS):
            for bind in (GLOBAL, WEAK):
                for dynsym in (False, True):
                    st = State()
                    S.put(st, bind, 2, 0, shndx)

                    def extra(st, a, k, ty):
                        if a == S1 and k == S.t["dynsym"]:
                            return ("ob", "dynsec") if dynsym else ("i", 0)
                        if a == S1 and k == S.t["leading_underscore"]:
                            return ("i", 0)
                        if a == S1 and k == S.t["sections"]:
                            return ("ob", "table")
                        if a == ("ob", "table") and k == 8 * TEXT:
                            return ("ob", "textsec")
                        if a == ("ob", "textsec") and k == S.f["sh_addr"]:
                            return ("sy", "BASE")
                        return None
                    dl = lambda st, a, x: [(("sy", "ADDR"), (("dl", a[1]), True)), (("i", 0), (("dl", a[1]), False))]
                    find = lambda st, a, x: [(("i", 1), (("dyn",) + tuple(a), True)), (("i", 0), (("dyn",) + tuple(a), False))]
                    cmp = lambda st, a, x: [(("i", 0), (("fp",), True)), (("i", 1), (("fp",), False))]
                    outs = K.run(fn, [S1, SEC, ("i", resolve)], st, hooks={"dlsym": dl, "find_elf_sym": find, "strcmp": cmp},
                                 stop=STOP, default=S.default(extra=extra))
                    for s, how, ret in outs or ():
                        K.R.obligation()
                        c = dict((k[0] if isinstance(k, tuple) else k, (k, v)) for k, v in s.conds)
                        found = c.get("dl", (None, False))[1]
                        indyn = c.get("dyn", (None, False))[1]
                        fp = c.get("fp", (None, False))[1]
                        v = s.get(SYMS, S.size + 8, 8)
                        tag = "%s %s symbol, %s" % (BIND[bind], where(shndx), ("when linking a file", "when running", "in the dynamic table")[resolve])
                        if how != "ret":
                            K.bad("final:%s" % tag, fn, "%s: does not return" % tag)
                            continue
                        err = bool(errors(s))
                        if shndx != UNDEF:
                            exp = {}
                            if shndx == TEXT:
                                if v not in (("op", "add", ("sy", "V0"), ("sy", "BASE")), ("op", "add", ("sy", "BASE"), ("sy", "V0"))):
                                    K.bad("final:%s" % tag, fn, "%s: its value is not its offset plus the address of its section" % tag)
                            elif v != ("sy", "V0"):
                                K.bad("final:%s" % tag, fn, "%s: its value is changed" % tag)
                            if err:
                                K.bad("final:%s:error" % tag, fn, "%s: reported as an error" % tag)
                            continue
                        if resolve == 2:
                            if v != ("sy", "V0") or err:
                                K.bad("final:%s" % tag, fn, "%s: must be left to the dynamic loader" % tag)
                            continue
                        name = c.get("dl", c.get("dyn", ((None, None), 0)))[0]
                        ok = found and resolve == 1 or indyn and resolve == 0 and dynsym
                        if found and resolve == 1:
                            if v != ("sy", "ADDR"):
                                K.bad("final:%s:found" % tag, fn, "%s: does not get the address found for its name" % tag)
                        elif not ok and bind == WEAK and not fp and v != ("i", 0):
                            K.bad("final:%s:weak" % tag, fn, "%s: an undefined weak symbol is not zero" % tag)
                        if (ok or fp or bind == WEAK) and err:
                            K.bad("final:%s:error" % tag, fn, "%s: reported although it %s" % (tag, "is resolved" if ok else "may stay undefined"))
                        if not (ok or fp or bind == WEAK) and not err:
                            K.bad("final:%s:silent" % tag, fn, "%s: an undefined symbol is not reported" % tag)


def lookup(K, S):
    """tcc_get_symbol gives the value of a defined symbol and nothing else"""
    for fn, args, none in (("get_sym_addr", [S1, NAME, ("i", 0), ("i", 1)], ("i", -1)), ("tcc_get_symbol", [S1, NAME], ("i", 0))):
        for idx in (0, 1):
            for shndx in (UNDEF, TEXT, ABS):
                st = State()
                S.put(st, GLOBAL, 2, 0, shndx)
                S0 = State()
                asked = []
                extra = lambda st, a, k, ty: ("i", 0) if a == S1 and k == S.t["leading_underscore"] else None
                find = lambda st, a, x: asked.append(tuple(a)) or ("i", idx)
                outs = K.run(fn, args, st, hooks={"find_elf_sym": find}, stop=STOP, default=S.default(extra=extra))
                for s, how, ret in outs or ():
                    K.R.obligation()
                    want = ("sy", "V0") if idx and shndx != UNDEF else none
                    if ret[0] == "sel" and ret[1] == ("op", "eq", ("sy", "V0"), ("i", -1)) and ret[2] == ("i", 0):
                        ret = ret[3]
                    if ret != want and not (want == ("sy", "V0") and any("V0" in str(c) for c in s.conds) and ret == ("i", 0)):
                        K.bad("get:%s:%s:%s" % (fn, idx, where(shndx)), fn, "%s of %s symbol gives %s" % (fn, "an absent" if not idx else where(shndx), ret))
                if outs and (SEC, NAME) not in asked:
                    K.bad("get:%s:name" % fn, fn, "%s does not look the given name up in the symbol table" % fn)


def commons(K, S):
    fn = "resolve_common_syms"
    for shndx in (UNDEF, TEXT, BSS, COMMON, ABS):
        st = State()
        S.put(st, GLOBAL, 1, 0, shndx)
        outs = K.run(fn, [S1], st, hooks={"section_add": lambda st, a, x: st.log.append(("section_add",) + tuple(a)) or ("sy", "OFF")},
                     stop=STOP | {"tcc_add_linker_symbols"}, default=S.default())
        for s, how, ret in outs or ():
            K.R.obligation()
            adds = [e for e in s.log if e[0] == "section_add"]
            v, x = s.get(SYMS, S.size + 8, 8), s.get(SYMS, S.size + 6, 2)
            if shndx != COMMON:
                if adds or v != ("sy", "V0") or x[1] & 0xffff != shndx:
                    K.bad("common:%s" % where(shndx), fn, "a symbol that is not common (%s) is moved" % where(shndx))
                continue
            plain = lambda t: plain(t[2]) if t[0] in ("tr", "tru") and t[1] >= 32 else t
            if [tuple(map(plain, e[1:])) for e in adds] != [(BSSSEC, ("sy", "S0"), ("sy", "V0"))]:
                K.bad("common:room", fn, "a common symbol does not get room of its size and alignment in .bss")
            if v != ("sy", "OFF") or x != ("i", BSS):
                K.bad("common:place", fn, "a common symbol is not placed at its room in .bss")


def archive(K, S):
    """tcc_load_alacarte: a member is loaded exactly when it defines a symbol that is still undefined"""
    fn = "tcc_load_alacarte"
    DATA_, IDX = ("ob", "index"), 4
    for entry in (4, 8):
        for known in (False, True):
            for shndx in (UNDEF, TEXT, COMMON, ABS):
                st = State()
                S.put(st, GLOBAL, 2, 0, shndx)
                loaded = []

                def load(st, a, x):
                    st.log.append(("load", a[2]))
                    if len([e for e in st.log if e[0] == "load"]) > 2:
                        return ("end", "again", None)
                    return [(("i", 0), (("loaded", len(st.log)), True)), (("i", -1), (("loaded", len(st.log)), False))]

                def find(st, a, x):
                    st.log.append(("find", a[1]))
                    if any(e[0] == "load" for e in st.log):
                        st.put(SYMS, S.size + 6, 2, ("i", TEXT))
                    return ("i", 1 if known else 0)

                def header(st, a, x):
                    st.log.append(("header", a[1]))
                    return ("sy", "LEN")

                def be(st, a, x):
                    p = a[0]
                    o, k = Interp(K.m).place(p)
                    if k == 0:
                        return ("i", 1)
                    return ("sy", "OFF", k, a[1])
                outs = K.run(fn, [S1, ("sy", "fd"), ("i", 64), ("i", entry)], st,
                             hooks={"find_elf_sym": find, "tcc_load_object_file": load, "read_ar_header": header, "get_be": be,
                                    "tcc_malloc": lambda st, a, x: DATA_, "full_read": lambda st, a, x: a[2],
                                    "memcmp": lambda st, a, x: [(("i", 0), (("magic",), True)), (("i", 1), (("magic",), False))],
                                    "strlen": lambda st, a, x: ("i", 3), "tcc_free": lambda st, a, x: None, "printf": lambda st, a, x: None},
                             stop=STOP, default=S.default(extra=lambda st, a, k, ty: ("i", 0) if a == S1 and ty == "i32" else ("i", 0) if a[0] == "sl" else None))
                for s, how, ret in outs or ():
                    K.R.obligation()
                    loads = [e for e in s.log if e[0] == "load"]
                    want = known and shndx == UNDEF
                    err = errors(s)
                    tag = "%s, %d-byte index" % ("an unknown name" if not known else where(shndx), entry)
                    if how == "again":
                        K.bad("member:again:%s" % tag, fn, "a member is loaded again and again (%s)" % tag)
                        continue
                    if loads and ret == ("i", 0) and s.log.index(loads[-1]) > max(j for j, e in enumerate(s.log) if e[0] == "find"):
                        K.bad("member:once", fn, "the index is not searched again after a member was loaded, which may need others")
                    if loads and not want:
                        K.bad("member:%s" % tag, fn, "a member is loaded for a symbol that needs no definition (%s)" % tag)
                    if want and not loads and not err:
                        K.bad("member:%s" % tag, fn, "the member that defines an undefined symbol is not loaded")
                    if loads:
                        off = ("sy", "OFF", entry, ("i", entry))
                        if not all(str(off) in str(e[1]) and "LEN" in str(e[1]) for e in loads):
                            K.bad("member:at:%d" % entry, fn, "the member is not loaded from the place its index entry gives")
                    if (loads and any(c[0][0] == "loaded" and not c[1] for c in s.conds) or err) and ret == ("i", 0):
                        K.bad("member:failed", fn, "a member that cannot be loaded counts as loaded")


def hashing(K, S):
    """entering a symbol, rebuilding the table and looking up agree about where a name is"""
    H = ("ob", "hash")
    f = K.m.field_off
    for bind in (LOCAL, GLOBAL, WEAK):
        st = State()
        T, HD = ("ob", "tab"), ("ob", "hdata")
        for k, v in ((0, 4), (1, 2), (2, 0), (3, 0), (4, 0), (5, 1), (6, 0), (7, 0)):
            st.put(HD, 4 * k, 4, ("i", v))
        pos = {SEC: 48, H: 32}

        def add(st, a, x):
            o = {SEC: SYMS, H: HD}.get(a[0])
            if o is None:
                raise Lost("room")
            return ptr(o, 48 if o == SYMS else 32)
        extra = lambda st, a, k, ty: H if a == SEC and k == S.f["hash"] else HD if a == H and k == S.f["data"] else \
            ("i", 1) if a == H and k == f("Section", "nb_hashed_syms") else ("i", ord("n")) if a == NAME else \
            ("ob", "strsec") if a == SEC and k == S.f["link"] else None
        outs = K.run("put_elf_sym", [SEC, ("sy", "V"), ("sy", "SZ"), ("i", bind << 4 | 2), ("i", 3), ("i", 5), NAME], st,
                     hooks={"section_ptr_add": add, "put_elf_str": lambda st, a, x: ("i", 77) if a[0] == ("ob", "strsec") and a[1] == NAME else ("?",),
                            "elf_hash": lambda st, a, x: st.log.append(("hash",) + tuple(a)) or ("i", 7)}, stop=STOP - {"put_elf_sym"}, default=S.default(extra=extra))
        for s, how, ret in outs or ():
            K.R.obligation()
            got = [s.get(SYMS, 48 + o, n) for o, n in ((0, 4), (4, 1), (5, 1), (6, 2), (8, 8), (16, 8))]
            if got != [("i", 77), ("i", bind << 4 | 2), ("i", 3), ("i", 5), ("sy", "V"), ("sy", "SZ")] or ret != ("i", 2):
                K.bad("put:%s" % BIND[bind], "put_elf_sym", "a new symbol is not entered as given")
            h = [s.get(HD, 4 * k, 4) for k in range(9)]
            h = [x[1] if x and x[0] == "i" else None for x in h]
            if bind == LOCAL:
                if h != [4, 3, 0, 0, 0, 1, 0, 0, 0]:
                    K.bad("put:chain:local", "put_elf_sym", "a local symbol changes the hash chains")
            elif h != [4, 3, 0, 0, 0, 2, 0, 0, 1]:
                K.bad("put:chain:%s" % BIND[bind], "put_elf_sym", "a new symbol is not put at the head of its hash chain")
    # look-up along the chain
    for hit in (2, 1, 0):
        st = State()
        HD = ("ob", "hdata")
        for k, v in ((0, 4), (1, 3), (2, 0), (3, 0), (4, 0), (5, 2), (6, 0), (7, 0), (8, 1)):
            st.put(HD, 4 * k, 4, ("i", v))
        for j in (1, 2):
            st.put(SYMS, 24 * j, 4, ("i", 100 * j))
        extra = lambda st, a, k, ty: H if a == SEC and k == S.f["hash"] else HD if a == H and k == S.f["data"] else None

        def cmp(st, a, x):
            for p, q in ((a[0], a[1]), (a[1], a[0])):
                if p == NAME and q[0] == "ptr" and q[1] == STR:
                    return ("i", 0 if q[2][1] == 100 * hit else 1)
            raise Lost("names compared")
        outs = K.run("find_elf_sym", [SEC, NAME], st, hooks={"strcmp": cmp, "elf_hash": lambda st, a, x: ("i", 7) if a[0] == NAME else ("?",)},
                     stop=STOP, default=S.default(extra=extra))
        for s, how, ret in outs or ():
            K.R.obligation()
            if ret != ("i", hit):
                K.bad("find:%d" % hit, "find_elf_sym", "looking a name up does not give %s" % ("the entry with that name" if hit else "nothing when no entry has the name"))
    # rebuilding
    for binds in ((GLOBAL, WEAK, LOCAL), (LOCAL, GLOBAL, GLOBAL), (GLOBAL, LOCAL, GLOBAL)):
        st = State()
        for j, b in enumerate(binds):
            st.put(SYMS, 24 * (j + 1), 4, ("i", 100 * (j + 1)))
            st.put(SYMS, 24 * (j + 1) + 4, 1, ("i", b << 4))
        HD = ("ob", "new")
        extra = lambda st, a, k, ty: H if a == SEC and k == S.f["hash"] else ("ob", "old") if a == H and k == S.f["data"] else \
            ("i", 4 * 24) if a == SEC and k == S.f["data_offset"] else None
        sizes = []
        outs = K.run("rebuild_hash", [SEC, ("i", 4)], st,
                     hooks={"section_ptr_add": lambda st, a, x: sizes.append(a[1]) or HD, "elf_hash": lambda st, a, x: ("i", 7) if a[0][0] == "ptr" and a[0][1] == STR else ("?",)},
                     stop=STOP, default=S.default(extra=extra))
        for s, how, ret in outs or ():
            K.R.obligation()
            h = [s.get(HD, 4 * k, 4) for k in range(10)]
            h = [x[1] if x and x[0] == "i" else None for x in h]
            chain, k = [], h[5]
            while k and len(chain) < 5:
                chain.append(k)
                k = h[6 + k] if 6 + k < len(h) else None
            if sorted(chain) != [j + 1 for j, b in enumerate(binds) if b != LOCAL] or h[0] != 4 or h[1] != 4:
                K.bad("rebuild", "rebuild_hash", "a rebuilt hash table does not chain exactly the non-local symbols")
            if sizes and sizes[0] != ("i", 4 * (2 + 4 + 4)):
                K.bad("rebuild:room", "rebuild_hash", "a rebuilt hash table has room for another number of entries")


def dynamic(K, S):
    """bind_exe_dynsyms: undefined symbols of an executable"""
    fn = "bind_exe_dynsyms"
    DS = ("ob", "dsyms")
    for pie in (0, 1):
        for shndx in (UNDEF, TEXT, BSS):
            for bind in (GLOBAL, WEAK):
                for there in (0, 1):
                    for typ in (2, 10, 1, 0):
                        st = State()
                        S.put(st, bind, 0, 0, shndx)
                        S.put(st, GLOBAL, typ, 0, TEXT, tab=DS, value=False)
                        st.put(DS, S.size + 16, 8, ("i", 40))
                        st.put(DS, S.size + 8, 8, ("i", 0x1000))

                        def extra(st, a, k, ty):
                            if a == S1:
                                return {S.t["dynsym"]: ("ob", "dyn"), S.t["dynsymtab_section"]: ("ob", "dynsec")}.get(k)
                            if a == BSSSEC and k == S.f["data_offset"]:
                                return ("i", 0x28)
                            return None
                        log = lambda n: lambda st, a, x: st.log.append((n,) + tuple(a)) or ("sy", n)
                        outs = K.run(fn, [S1, ("i", pie)], st, hooks={"find_elf_sym": lambda st, a, x: ("i", there if a[0] == ("ob", "dynsec") else 0),
                                     "strcmp": lambda st, a, x: [(("i", 0), (("fp",), True)), (("i", 1), (("fp",), False))],
                                     "put_elf_sym": log("put"), "set_elf_sym": log("set"), "put_elf_reloc": log("reloc"), "put_elf_reloca": log("reloc"),
                                     "get_sym_attr": lambda st, a, x: ("ob", "attr")}, stop=STOP, default=S.default(extra=extra))
                        for s, how, ret in outs or ():
                            K.R.obligation()
                            err, acts = bool(errors(s)), [e for e in s.log if e[0] in ("put", "set", "reloc")]
                            fp = (("fp",), True) in s.conds
                            tag = "%s %s symbol%s" % (BIND[bind], where(shndx), " found in a library" if there else "")
                            if shndx != UNDEF:
                                if err or acts:
                                    K.bad("bind:%s" % tag, fn, "%s: a defined symbol is bound to a library" % tag)
                                continue
                            if not there:
                                if err == (bind == WEAK or fp):
                                    K.bad("bind:%s" % tag, fn, "%s: %s" % (tag, "reported" if err else "an undefined symbol is not reported"))
                                if acts:
                                    K.bad("bind:%s:acts" % tag, fn, "%s: bound to a library that lacks it" % tag)
                                continue
                            if err:
                                K.bad("bind:%s:error" % tag, fn, "%s: reported as undefined" % tag)
                            if pie:
                                continue
                            if typ in (2, 10):
                                ok = [e for e in acts if e[0] == "put" and e[1] == ("ob", "dyn") and e[4] == ("i", 0x12) and e[6] == ("i", 0)]
                                if len(ok) != 1 or len(acts) != 1:
                                    K.bad("bind:func", fn, "a function of a library does not become an undefined dynamic function symbol")
                            elif typ == 1:
                                off = ("i", 0x30)
                                ok = [e for e in acts if e[0] == "set" and e[1] == SEC and e[2] == off and e[3] == ("i", 40) and e[6] == ("i", BSS)]
                                okd = [e for e in acts if e[0] == "put" and e[1] == ("ob", "dyn") and e[2] == off and e[3] == ("i", 40) and e[6] == ("i", BSS)]
                                okr = [e for e in acts if e[0] == "reloc" and e[1] == ("ob", "dyn") and e[2] == BSSSEC and e[3] == off and e[4] == ("i", 5) and e[5] == ("sy", "put")]
                                if not (len(ok) == len(okd) == len(okr) == 1):
                                    K.bad("bind:object", fn, "an object of a library does not get a copy in .bss with a copy relocation")
                                if s.get(BSSSEC, S.f["data_offset"], 8) != ("i", 0x30 + 40):
                                    K.bad("bind:object:room", fn, "the copy of a library's object does not get room of its size")


def objects(K, S):
    """tcc_load_object_file: sections are appended at their alignment, symbols and relocations follow them"""
    m, fn = K.m, "tcc_load_object_file"
    f = m.field_off
    E = lambda n: f("Elf64_Ehdr", n)
    H = lambda n: f("Elf64_Shdr", n)
    hs, es = m.structs["Elf64_Shdr"]["size"], m.structs["Elf64_Ehdr"]["size"]
    FO = ("sy", "FO")
    PROG, SYMTAB, STRTAB, RELA, NOBITS, GROUP = 1, 2, 3, 4, 8, 17
    names = b"\0.text\0.bss\0.rela.text\0.symtab\0.strtab\0.group\0.data2\0"
    at = lambda n: names.index(b"\0" + n + b"\0") + 1
    # name, type, offset, size, link, info, align
    shdrs = [None, (b".text", PROG, 0x100, 0x30, 0, 0, 16), (b".bss", NOBITS, 0x130, 0x18, 0, 0, 32), (b".rela.text", RELA, 0x200, 48, 4, 1, 8),
             (b".symtab", SYMTAB, 0x300, 24 * 7, 5, 1, 8), (b".strtab", STRTAB, 0x400, 0x40, 0, 0, 1), (b".group", GROUP, 0x500, 8, 0, 0, 4),
             (b".data2", PROG, 0x600, 0x28, 0, 0, 64)]
    syms = [None, (LOCAL, 3, 1), (GLOBAL, 2, 1), (GLOBAL, 0, UNDEF), (WEAK, 1, 2), (GLOBAL, 1, COMMON), (LOCAL, 2, 6)]
    TXT, BS, REL = ("ob", "text"), BSSSEC, ("ob", "rela")
    have = [None, (TXT, b".text", PROG, 0x13, 8), (BS, b".bss", NOBITS, 0x28, 4), (REL, b".rela.text", RELA, 24, 8)]

    def state(bad=None, mach=62):
        st = State()
        sh, sy, rel = ("ob", "shdr"), ("ob", "osyms"), ("ob", "reldata")
        for i, h in enumerate(shdrs):
            if not h:
                for n in ("sh_type", "sh_name"):
                    st.put(sh, H(n), 4, ("i", 0))
                st.put(sh, H("sh_flags"), 8, ("i", 0))
                continue
            b = i * hs
            st.put(sh, b + H("sh_name"), 4, ("i", at(h[0])))
            st.put(sh, b + H("sh_type"), 4, ("i", NOBITS if bad == "type" and h[0] == b".text" else h[1]))
            st.put(sh, b + H("sh_flags"), 8, ("i", 6))
            st.put(sh, b + H("sh_offset"), 8, ("i", h[2]))
            st.put(sh, b + H("sh_size"), 8, ("i", h[3]))
            st.put(sh, b + H("sh_link"), 4, ("i", h[4]))
            st.put(sh, b + H("sh_info"), 4, ("i", h[5]))
            st.put(sh, b + H("sh_addralign"), 8, ("i", h[6]))
            st.put(sh, b + H("sh_entsize"), 8, ("i", 0))
        for i, c in enumerate(names):
            st.put(("ob", "names"), i, 1, ("i", c))
        for i, x in enumerate(syms):
            if x:
                b = 24 * i
                st.put(sy, b, 4, ("i", i))
                st.put(sy, b + 4, 1, ("i", x[0] << 4 | x[1]))
                st.put(sy, b + 5, 1, ("i", 0))
                st.put(sy, b + 6, 2, ("i", x[2] - 65536 if x[2] > 32767 else x[2]))
                st.put(sy, b + 8, 8, ("sy", "V%d" % i))
                st.put(sy, b + 16, 8, ("sy", "S%d" % i))
        for j, i in enumerate((2, 7 if bad == "index" else 6 if bad == "dropped" else 3)):
            b = 24 * (j + 1)
            st.put(rel, b, 8, ("sy", "R%d" % j))
            st.put(rel, b + 8, 8, ("i", i << 32 | 4 + j))
            st.put(rel, b + 16, 8, ("sy", "A%d" % j))
        tab = ("ob", "table")
        for i, h in enumerate(have):
            if not h:
                continue
            st.put(tab, 8 * i, 8, h[0])
            st.put(h[0], f("Section", "data_offset"), 8, ("i", h[3]))
            st.put(h[0], f("Section", "sh_type"), 4, ("i", h[2]))
            st.put(h[0], f("Section", "sh_addralign"), 4, ("i", h[4]))
            st.put(h[0], f("Section", "sh_num"), 4, ("i", 20 + i))
            for k, c in enumerate(h[1] + b"\0"):
                st.put(h[0], f("Section", "name") + k, 1, ("i", c))
        return st

    def extra(st, a, k, ty):
        if a == SEC and k == f("Section", "sh_type"):
            return ("i", SYMTAB)
        if a == S1:
            if k == f("TCCState", "sections"):
                return ("ob", "table")
            if k == f("TCCState", "nb_sections"):
                return ("i", len(have))
            if k in (f("TCCState", "stab_section"), f("TCCState", "verbose"), f("TCCState", "nb_errors")):
                return ("i", 0)
        if a[0] == "ob" and k == f("Section", "data") and a in (TXT, BS, REL, ("ob", "made")):
            return ("ob", "reldata") if a == REL else ("ob", a[1] + "data")
        if a == ("ob", "made"):
            if k == f("Section", "sh_num"):
                return ("i", 30)
            if k == f("Section", "sh_type"):
                return ("i", PROG)
            if k == f("Section", "data_offset"):
                return ("i", 0)
        return None

    def otype(st, a, x):
        b, k = Interp(m).place(a[1])
        st.put(b, k + 5, 1, ("i", 1))
        st.put(b, k + E("e_machine"), 2, ("i", st.x.get("mach", 62)))
        st.put(b, k + E("e_shnum"), 2, ("i", len(shdrs)))
        st.put(b, k + E("e_shstrndx"), 2, ("i", 5))
        st.put(b, k + E("e_shoff"), 8, ("i", 0x1000))
        return ("i", st.x.get("kind", 1))

    def data(st, a, x):
        o, k = Interp(m).place(a[1])
        if o != FO:
            raise Lost("data read")
        st.log.append(("data", k, a[2]))
        r = {0x1000: ("ob", "shdr"), 0x300: ("ob", "osyms"), 0x400: ("ob", "names")}.get(k)
        return r or ("sy", "other")

    def room(st, a, x):
        o, n = a[0], a[1][1]
        k = f("Section", "data_offset")
        d = st.get(o, k, 8) or ("i", 0)
        st.put(o, k, 8, ("i", d[1] + n))
        return ptr(extra(st, o, f("Section", "data"), "ptr"), d[1])

    def zero(st, a, x):
        o = Interp(m).alloc(st)
        for k in range(0, a[0][1], 4):
            st.put(o, k, 4, ("i", 0))
        return o
    put = lambda n: lambda st, a, x: st.log.append((n,) + tuple(a))

    def setsym(st, a, x):
        st.log.append(("set",) + tuple(a))
        return ("i", 100 + len([e for e in st.log if e[0] == "set"]))
    hooks = {"tcc_object_type": otype, "load_data": data, "section_ptr_add": room, "tcc_mallocz": zero, "set_elf_sym": setsym,
             "lseek": put("seek"), "full_read": lambda st, a, x: st.log.append(("read",) + tuple(a)) or a[2], "tcc_free": lambda st, a, x: None,
             "find_elf_sym": lambda st, a, x: ("i", 0),
             "new_section": lambda st, a, x: st.log.append(("new",) + tuple(a)) or ("ob", "made")}

    def go(bad=None, mach=62, kind=1):
        st = state(bad)
        st.x["mach"], st.x["kind"] = mach, kind
        return K.run(fn, [S1, ("sy", "fd"), FO], st, hooks=hooks, stop=STOP, default=S.default(extra=extra)) or ()
    for bad, mach, kind in ((None, 3, 1), (None, 62, 0), (None, 62, 2), ("index", 62, 1), ("dropped", 62, 1), ("type", 62, 1)):
        for s, how, ret in go(bad, mach, kind):
            K.R.obligation()
            if ret != ("i", -1) or not errors(s):
                K.bad("object:bad:%s:%d:%d" % (bad, mach, kind), fn, "an object file %s is not refused" %
                      {"index": "with a relocation against a symbol it does not have", "dropped": "with a relocation against a symbol of a section left out",
                       "type": "whose section has another type than the existing one"}.get(bad, "for another machine" if mach != 62 else "that is not relocatable"))
            if bad is None and any(e[0] in ("set", "new", "read") for e in s.log):
                K.bad("object:early:%d:%d" % (mach, kind), fn, "a refused object file is partly loaded")
    for s, how, ret in go():
        K.R.obligation(n=5)
        if ret != ("i", 0) or errors(s):
            K.bad("object:ret", fn, "a well-formed object file is refused")
            continue
        off = {TXT: 0x20, BS: 0x40, ("ob", "made"): 0}
        sec = lambda o, n, w: s.get(o, f("Section", n), w)
        if sec(TXT, "data_offset", 8) != ("i", 0x50) or sec(BS, "data_offset", 8) != ("i", 0x58):
            K.bad("object:room", fn, "an object's section is not appended at its alignment with its size")
        if sec(TXT, "sh_addralign", 4) != ("i", 16) or sec(BS, "sh_addralign", 4) != ("i", 32):
            K.bad("object:align", fn, "a section does not get the largest alignment of its parts")
        reads, pos = [], None
        for e in s.log:
            if e[0] == "seek":
                pos = e[2]
            elif e[0] == "read":
                reads.append((pos, e[2], e[3]))
                pos = None
        for o, fo, d, n in ((TXT, 0x100, 0x20, 0x30), (("ob", "made"), 0x600, 0, 0x28), (REL, 0x200, 24, 48)):
            if (ptr(FO, fo), ptr(extra(s, o, f("Section", "data"), "ptr"), d), ("i", n)) not in reads:
                K.bad("object:data:" + o[1], fn, "the bytes of a section are not read from its place in the file into its place in memory")
        if any(r[0] == ptr(FO, 0x130) for r in reads):
            K.bad("object:bss", fn, "bytes of the file are read for a section without data")
        if any(r[0] == ptr(FO, 0x500) for r in reads):
            K.bad("object:group", fn, "a section of a kind that is not linked is loaded")
        new = [e for e in s.log if e[0] == "new"]
        if len(new) != 1 or S_text(s, K, new[0][2]) != b".data2" or new[0][3] != ("i", PROG) or new[0][4] != ("i", 6):
            K.bad("object:new", fn, "a section not seen before is not created with its name, type and flags")
        want = {1: (ptr(("sy", "V1"), 0x20), 21), 2: (ptr(("sy", "V2"), 0x20), 21), 3: (("sy", "V3"), UNDEF), 4: (ptr(("sy", "V4"), 0x40), 22), 5: (("sy", "V5"), COMMON)}
        got = {}
        plain = lambda t: plain(t[2]) if t[0] in ("tr", "tru") else t
        for n, e in enumerate([e for e in s.log if e[0] == "set"]):
            k = plain(e[3])
            if k[0] == "sy" and k[1][0] == "S":
                got[int(k[1][1:])] = (e, 101 + n)
        for i, (v, x) in want.items():
            if i not in got:
                K.bad("object:symbol:%d" % i, fn, "a %s %s symbol of an object is not entered" % (BIND[syms[i][0]], where(syms[i][2] if syms[i][2] != 2 else BSS)))
                continue
            e = got[i][0]
            lin = lambda t: t[2:] if t[0] == "op" and t[1] == "add" else t
            val = e[2]
            if val[0] == "op" and val[1] == "add" and val[3][0] == "i":
                val = ptr(val[2], val[3][1])
            name = Interp(m).place(e[7])
            if e[1] != SEC or val != v or e[4] != ("i", syms[i][0] << 4 | syms[i][1]) or e[5] != ("i", 0) or e[6][0] != "i" or e[6][1] & 0xffff != x or name != (("ob", "names"), i):
                K.bad("object:symbol:%d" % i, fn, "a %s symbol (%s) of an object is not entered with its name, attributes and the place its section got" % (BIND[syms[i][0]], where(syms[i][2] if syms[i][2] != 2 else BSS)))
        if 6 in got:
            K.bad("object:symbol:6", fn, "a symbol of a section left out is entered")
        for j, i in enumerate((2, 3)):
            b = 24 * (j + 1)
            r = [s.get(("ob", "reldata"), b + 8 * q, 8) for q in range(3)]
            o = r[0]
            if o[0] == "op" and o[1] == "add" and o[3][0] == "i":
                o = ptr(o[2], o[3][1])
            if i in got and r[1] != ("i", got[i][1] << 32 | 4 + j):
                K.bad("object:reloc:symbol", fn, "a relocation of an object does not name the symbol it named in the object, with its type")
            if o != ptr(("sy", "R%d" % j), 0x20):
                K.bad("object:reloc:place", fn, "a relocation of an object is not moved with its section")
            if r[2] != ("sy", "A%d" % j):
                K.bad("object:reloc:addend", fn, "a relocation of an object loses its addend")


def S_text(s, K, p):
    return Interp(K.m).text(s, p)


def c46(R, tier):
    R.rules.append("The functions that enter, resolve and look up symbols are followed for every combination of binding, visibility and "
                   "kind of section of an existing and a new symbol (values, sizes and names stay symbolic); the resulting table entry, "
                   "diagnostics and calls are compared with the linker's rules.")
    m = Module(Tree().dump("tcc"))
    K, S = Cases(R, m), Sym(m)
    for ph in (definitions, finals, lookup, commons, archive, hashing, dynamic, objects):
        ph(K, S)
    K.done()
    R.need(R.counts.get("cases", 0) > 1000, "symbol cases")
