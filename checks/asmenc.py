"""C51: an instruction the assembler accepts is emitted as that instruction with those operands."""
import os, re, subprocess, tempfile, itertools
from multiprocessing import Pool
from sa.build import Tree
from sa.ir import Module
from sa.interp import Interp, State, Lost, ptr, signed
from sa import x86

IND = 4096


class World:
    """the assembler's entry for one instruction, over a stream of tokens"""

    def __init__(self, m, ppnum):
        self.m, self.ppnum = m, ppnum
        self.toks = m.enums
        self.name = {v: k[8:] for k, v in self.toks.items() if k.startswith("TOK_ASM_")}
        self.ident = self.toks["TOK_LAST"] + 1
        self.extra, self.extran = {}, {}
        self.fo = m.field_off

    def tokid(self, w):
        t = self.toks.get("TOK_ASM_" + w)
        if t is None:
            t = self.extra.setdefault(w, 4000 + len(self.extra))
            self.extran[t] = w
        return t

    def stream(self, text):
        out = []
        for w in re.findall(r"-?0x[0-9a-fA-F]+|-?\d+|[A-Za-z_.][\w.]*|.", text):
            if w.isspace():
                continue
            if re.match(r"-?\d", w):
                out.append(("num", int(w, 0), w))
            elif re.match(r"[A-Za-z_.]", w):
                out.append(("id", self.tokid(w), w))
            else:
                out.append(("ch", ord(w), w))
        return out + [("ch", ord(";"), ";")]

    def code(self, t):
        return self.ppnum if t[0] == "num" else t[1]

    def default(self, st, a, k, ty):
        if a == ("g", "table_ident") and k == 0:
            return ("ob", "idents")
        if a == ("g", "tok_ident"):
            return ("i", 9000)
        if a == ("ob", "idents"):
            return ("ob", "ident", k // 8 + self.ident)
        if a and a[:2] == ("ob", "ident"):
            w = (self.name.get(a[2]) or self.extran.get(a[2]) or "?").encode() + b"\0"
            o = k - self.fo("TokenSym", "str")
            if k == self.fo("TokenSym", "tok"):
                return ("i", a[2])
            if k == self.fo("TokenSym", "len"):
                return ("i", len(w) - 1)
            if 0 <= o < len(w):
                return ("i", w[o])
        if a == ("g", "tokc") and ty == "ptr":
            return ("ob", "numtext")
        if a == ("ob", "numtext"):
            w = (st.x["s"][st.x["k"]][2] + "\0").encode()
            return ("i", w[k]) if k < len(w) else None
        if a == ("g", "ind"):
            return ("i", IND)
        if a == ("g", "tcc_state"):
            return ("ob", "s1")
        if a == ("ob", "s1") and k == self.fo("TCCState", "cur_text_section"):
            return ("ob", "text")
        if a == ("g", "cur_text_section"):
            return ("ob", "text")
        if a == ("ob", "text") and k == self.fo("Section", "sh_num"):
            return ("i", 1)
        if a == ("ob", "text") and k == self.fo("Section", "data"):
            return ("ob", "code")
        if a == ("ob", "sym"):
            return ("i", 3)
        if a == ("ob", "esym"):
            if ty == "i16":
                return ("i", 1)
            return ("i", IND + st.x["near"])
        return None

    def run(self, text, near=None):
        """bytes emitted for an instruction, None when it is refused"""
        mn, _, rest = text.partition(" ")
        st = State()
        st.x["s"], st.x["k"], st.x["near"], st.x["out"], st.x["rel"] = self.stream(rest), 0, near, (), ()
        st.put(("g", "tok"), 0, 4, ("i", self.code(st.x["s"][0])))
        at = lambda st: st.x["s"][st.x["k"]]

        def settok(st):
            st.put(("g", "tok"), 0, 4, ("i", self.code(at(st))))

        def nxt(st, a, x):
            st.x["k"] += 1
            settok(st)
            return ("i", 0)

        def unget(st, a, x):
            s = list(st.x["s"])
            c = a[0][1]
            s.insert(st.x["k"], ("ch", c, chr(c)))
            st.x["s"] = s
            settok(st)
            return ("i", 0)

        def number(st):
            sign = 1
            while at(st)[2] == "-":
                sign = -sign
                st.x["k"] += 1
            t = at(st)
            if t[0] == "num":
                v, sym = sign * t[1], ("i", 0)
            elif t[0] == "id":
                v, sym = 0, ("ob", "sym")
            else:
                return None, None
            st.x["k"] += 1
            if sym != ("i", 0) and at(st)[2] == "+":
                v = st.x["s"][st.x["k"] + 1][1]
                st.x["k"] += 2
            settok(st)
            return v, sym

        def expr(st, a, x):
            v, sym = number(st)
            if v is None:
                return ("end", "refused", None)
            b, k = Interp(self.m).place(a[1])
            f = lambda n: k + self.fo("ExprValue", n)
            st.put(b, f("v"), 8, ("i", signed(v, 64)))
            st.put(b, f("sym"), 8, sym)
            st.put(b, f("pcrel"), 4, ("i", 0))
            return ("i", 0)

        def emit(n):
            def h(st, a, x):
                if a[0][0] != "i":
                    raise Lost("byte")
                st.x["out"] += tuple(a[0][1] >> 8 * j & 255 for j in range(n))
                st.put(("g", "ind"), 0, 4, ("i", IND + len(st.x["out"])))
                return ("i", 0)
            return h

        def reloc(st, a, x):
            st.x["rel"] += ((a[2][1] - IND, a[3][1], a[4][1]),)
            return ("i", 0)

        def patch(st, a, x):
            b, k = Interp(self.m).place(a[0])
            k -= IND
            o = list(st.x["out"])
            if b != ("ob", "code") or a[1][0] != "i" or not 0 <= k <= len(o) - 4:
                raise Lost("patch %s %s %d" % (a, b, k))
            v = int.from_bytes(bytes(o[k:k + 4]), "little") + a[1][1]
            o[k:k + 4] = [v >> 8 * j & 255 for j in range(4)]
            st.x["out"] = tuple(o)
            return ("i", 0)
        end = lambda st, a, x: ("end", "refused", None)

        def inte(st, a, x):
            v = number(st)[0]
            return end(st, a, x) if v is None else ("i", v)
        hooks = {"next": nxt, "unget_tok": unget, "asm_expr": expr, "asm_int_expr": inte,
                 "g": emit(1), "gen_le16": emit(2), "gen_le32": emit(4), "gen_le64": emit(8), "greloca": reloc, "greloc": reloc, "add32le": patch,
                 "_tcc_error": end, "expect": end, "get_tok_str": lambda st, a, x: ("ob", "?"),
                 "tok_alloc": lambda st, a, x: ("ob", "ident", self.tokid(Interp(self.m, default=self.default).text(st, a[0])[:a[1][1]].decode())),
                 "elfsym": lambda st, a, x: ("ob", "esym") if a[0] == ("ob", "sym") and near is not None else ("i", 0)}
        I = Interp(self.m, hooks=hooks, default=self.default, maxsteps=200000)
        r = I.run("asm_opcode", [("ob", "s1"), ("i", self.tokid(mn))], st)
        if len(r) != 1:
            raise Lost("ways: %s" % text)
        s, how, v = r[0]
        if how != "ret" or any(t[2] != ";" for t in s.x["s"][s.x["k"]:]):
            return None                         # refused, or what is left is a statement of its own
        return s.x["out"], s.x["rel"]


# ------------------------------------------------------------------ the instructions compared

LL = "/usr/lib/llvm-18/bin/"
MEM = ["(%rax)", "8(%rbx,%rcx,4)", "-200(%r12)", "foo(%rip)"]
MEMALL = MEM + ["(%rcx)", "(%rsp)", "(%rbp)", "(%r13)", "(%r12)", "(%r8)", "127(%rax)", "128(%rax)", "-128(%rsi)", "-129(%rdi)",
                "0x1234(%rbp)", "(%rax,%rbx)", "(%rax,%rbx,2)", "(%rbp,%rax,8)", "(%r13,%r14,8)", "(%rsp,%r12,2)", "(,%rdx,8)", "64(,%r9,4)",
                "0x12345678(%r10,%r11,1)", "1234", "%fs:16", "%gs:(%rax)", "%es:8(%rbx,%rcx,4)", "4(%eax)", "4(%r9d,%r10d,2)", "16(%rip)",
                "foo", "foo+8(%rip)", "foo(%rax)", "foo(,%rcx,4)", "foo+4(%rbx,%rcx,4)"]
IMM = ["$5", "$-3", "$200", "$0x1234", "$0x12345678", "$0x123456789abcdef0"]
R8, R16 = ["%al", "%cl", "%bh", "%sil", "%r9b"], ["%ax", "%dx", "%si", "%r10w"]
R32, R64 = ["%eax", "%ecx", "%edi", "%r8d"], ["%rax", "%rbx", "%rbp", "%r13"]
CLS = {"OPT_REG8": R8, "OPT_REG16": R16, "OPT_REG32": R32, "OPT_REG64": R64, "OPT_MMX": ["%mm0", "%mm5"], "OPT_SSE": ["%xmm1", "%xmm6"],
       "OPT_CR": ["%cr0", "%cr4", "%cr8"], "OPT_TR": ["%tr3"], "OPT_DB": ["%dr2", "%db7"], "OPT_SEG": ["%ds", "%es", "%fs", "%gs"],
       "OPT_ST": ["%st", "%st(1)", "%st(5)"], "OPT_ST0": ["%st", "%st(0)"], "OPT_REG8_LOW": ["%spl", "%dil"], "OPT_IM8": IMM, "OPT_IM8S": IMM,
       "OPT_IM16": IMM, "OPT_IM32": IMM, "OPT_IM64": IMM, "OPT_EAX": ["%al", "%ax", "%eax", "%rax"], "OPT_CL": ["%cl"], "OPT_DX": ["%dx"],
       "OPT_ADDR": ["foo", "1234"], "OPT_INDIR": [], "OPT_IM": IMM, "OPT_IMW": IMM, "OPT_REG": R8[:3] + R8[4:] + R16[:1] + R16[3:] + R32[:2] + R32[3:] + R64[1:2] + R64[3:],
       "OPT_REGW": R16[:1] + R16[3:] + R32[:2] + R32[3:] + R64[1:2] + R64[3:], "OPT_MMXSSE": ["%mm0", "%mm5", "%xmm1", "%xmm6"], "OPT_DISP": ["foo", "foo+8"], "OPT_DISP8": ["foo", "foo+8"]}


def table(m):
    """rows (symbol, opcode, type, operand types) of asm_instrs"""
    S, g = m.structs, m.globals["asm_instrs"]
    size = m.sizeof("ASMInstr") if hasattr(m, "sizeof") else 10
    b = {}
    for off, w, op in g["init"]:
        v = op[1] & (1 << 8 * w) - 1
        for j in range(w):
            b[off + j] = v >> 8 * j & 255
    rd = lambda o, n: sum(b.get(o + j, 0) << 8 * j for j in range(n))
    fo = lambda n: m.field_off("ASMInstr", n)
    rows, o = [], 0
    while rd(o + fo("sym"), 2):
        n = rd(o + fo("nb_ops"), 1)
        rows.append((rd(o + fo("sym"), 2), rd(o + fo("opcode"), 2), rd(o + fo("instr_type"), 2), tuple(rd(o + fo("op_type") + i, 1) for i in range(n))))
        o += size
    return rows


def candidates(m, tier="quick"):
    en = m.enums
    opt = {v: k for k, v in en.items() if k.startswith("OPT_") and k not in ("OPT_EA", "OPT_COMPOSITE_FIRST")}
    name = {v: k[8:] for k, v in en.items() if k.startswith("TOK_ASM_")}
    out = []
    seen = set()

    def add(t):
        if t not in seen:
            seen.add(t)
            out.append(t)
    rows = table(m)
    for T in sorted(name):
        mn = name[T]
        add(mn)
        for sym, opc, ty, ops in rows:
            k, d = ty & 0x70, T - sym
            reach = {0x40: 48, 0x30: 40, 0x20: 35, 0x50: 31}.get(k, 5 if ty & 0x1003 else 1)
            if not 0 <= d < reach or k == 0x40 and d % 6:
                continue
            cols = []
            for o in ops:
                c = list(CLS.get(opt.get(o & 31, ""), []))
                if len(ops) == 3:
                    c = c[::2]
                if o & 0x80:
                    c += MEM[:3] if len(ops) > 1 else MEM
                star = ["*" + x for x in c] if opt.get(o & 31) == "OPT_INDIR" or "OPT_INDIR" in str(opt.get(o & 31)) else []
                if opt.get(o & 31) == "OPT_INDIR":
                    c = ["*" + x for x in R64 + MEM]
                cols.append(c)
            for c in itertools.product(*cols):
                add((mn + " " + ", ".join(c)).strip())
    for mn in ("movl %s, %%ecx", "movq %%r9, %s", "addl $5, %s", "movw $0x1234, %s", "leaq %s, %%r15", "incb %s", "cmpq $0x12345678, %s", "movss %s, %%xmm3", "pushq %s", "call *%s", "paddb %s, %%mm2"):
        for a in MEMALL:
            add(mn % a)
    return out


def assemble(lines, d):
    """{line: (bytes, relocations)} for the lines the reference assembler accepts"""
    lines, unenc = list(lines), set()
    for i in range(6):
        with open(d + "/a.s", "w") as f:
            f.write(".text\n" + "".join("L%d:%s\n" % (n, t) for n, t in enumerate(lines)) + "L%d:\n" % len(lines))
        r = subprocess.run([LL + "clang", "-c", "-x", "assembler", "-ferror-limit=0", "-Wno-everything", d + "/a.s", "-o", d + "/a.o"], capture_output=True, text=True)
        if r.returncode == 0:
            break
        msg = [(int(x) - 2, y) for x, y in re.findall(r"a\.s:(\d+):\d+: error: (.*)", r.stderr)]
        bad = {x for x, y in msg}
        unenc |= {lines[x] for x, y in msg if "requiring REX prefix" in y}
        if not bad:
            return None
        lines = [t for n, t in enumerate(lines) if n not in bad]
    else:
        return None
    return lines, obj(d + "/a.o", len(lines)), sorted(unenc)


def obj(path, n):
    """bytes and relocations between the labels of an object"""
    import struct
    e = open(path, "rb").read()
    shoff, = struct.unpack_from("<Q", e, 40)
    shn, = struct.unpack_from("<H", e, 60)
    sh = [struct.unpack_from("<IIQQQQIIQQ", e, shoff + 64 * i) for i in range(shn)]
    stri = struct.unpack_from("<H", e, 62)[0]
    nm = lambda s, o: e[sh[s][4] + o:e.index(b"\0", sh[s][4] + o)].decode()
    sec = {nm(stri, x[0]): x for x in sh}
    t = sec[".text"]
    code = e[t[4]:t[4] + t[5]]
    st = sec[".symtab"]
    lab = {}
    for o in range(st[4], st[4] + st[5], 24):
        a, info, oth, shx, val, sz = struct.unpack_from("<IBBHQQ", e, o)
        s = nm(st[6], a)
        if re.fullmatch(r"L\d+", s):
            lab[int(s[1:])] = val
    rel = []
    if ".rela.text" in sec:
        x = sec[".rela.text"]
        for o in range(x[4], x[4] + x[5], 24):
            a, info, add = struct.unpack_from("<QQq", e, o)
            rel.append((a, info & 0xffffffff, add))
    rel.sort()
    out, j = [], 0
    for i in range(n):
        a, b = lab[i], lab[i + 1]
        rr = []
        while j < len(rel) and rel[j][0] < b:
            rr.append((rel[j][0] - a, rel[j][1], rel[j][2]))
            j += 1
        out.append((tuple(code[a:b]), tuple(rr)))
    return out


def disassemble(codes, d):
    """the instructions of each byte sequence, as (address in it, text)"""
    with open(d + "/b.s", "w") as f:
        f.write(".text\n" + "".join("L%d: .byte %s\n .fill 15, 1, 0x90\n" % (i, ",".join("%d" % x for x in c)) for i, c in enumerate(codes)))
    subprocess.run([LL + "clang", "-c", "-x", "assembler", d + "/b.s", "-o", d + "/b.o"], check=True)
    t = subprocess.run([LL + "llvm-objdump", "-d", "--no-show-raw-insn", d + "/b.o"], capture_output=True, text=True).stdout
    out, base, k = [None] * len(codes), 0, None
    for l in t.splitlines():
        x = re.match(r"([0-9a-f]+) <L(\d+)>:", l)
        if x:
            base, k = int(x.group(1), 16), int(x.group(2))
            out[k] = []
            continue
        x = re.match(r"\s*([0-9a-f]+):\s*(.*)", l)
        if x and k is not None:
            a = int(x.group(1), 16) - base
            if a < len(codes[k]):
                out[k].append((a, re.sub(r"\s+", " ", re.sub(r"\s*(<.*>|#.*)", "", x.group(2))).strip()))
    # the end of the last instruction has to be the end of the bytes
    return out


SREG = re.compile(r"mov[wlq] (%\w+), (%[cdefgs]s)$")


def norm(ins):
    """an instruction's text without the differences that have no effect"""
    out = []
    for a, t in ins:
        x = SREG.match(t)                       # only the low 16 bits of the source matter
        if x:
            r = re.sub(r"^(r\d+)[dw]$|^[er]?([a-ds][xipl])$", lambda y: y.group(1) or y.group(2), x.group(1)[1:])
            t = "mov %s, %s" % (r, x.group(2))
        x = re.match(r"(xchg|test)([bwlq]) (%\w+), (%\w+)$", t)
        if x:
            t = "%s%s %s, %s" % (x.group(1), x.group(2), *sorted(x.groups()[2:]))
        x = re.match(r"(\w+?)([bwl]) \$(-?0x[0-9a-f]+|-?\d+)(.*)", t)
        if x:
            t = "%s%s $%d%s" % (x.group(1), x.group(2), int(x.group(3), 0) & (1 << {"b": 8, "w": 16, "l": 32}[x.group(2)]) - 1, x.group(4))
        out.append((a, t))
    return out


def fields(code, rel):
    """the instruction with the relocated fields cleared, and what they are relocated to"""
    c, out = list(code), []
    for o, ty, add in rel:
        n = 8 if ty == 1 else 4
        v = int.from_bytes(bytes(c[o:o + n]), "little", signed=True)
        out.append((o, {11: 10, 4: 2}.get(ty, ty), add + v))
        c[o:o + n] = [0] * n
    return tuple(c), tuple(out)


W = None


def _one(t):
    try:
        return W.run(t)
    except Lost as e:
        return "lost %s" % e


def _near(a):
    try:
        return W.run(a[0] + " lab", near=a[1])
    except Lost as e:
        return "lost %s" % e


def run(R, tier):
    global W
    R.rules = ["the table of instructions (asm_instrs, op0_codes) and the encoder (asm_opcode and what it calls) are evaluated over the IR "
               "for every mnemonic the assembler has, with every operand form its table rows accept for it, a representative of each class of "
               "register (with and without REX, high byte, needing a SIB byte) and of each range of immediate, and every addressing mode",
               "the bytes and relocations they give have to be those of that instruction: they are compared with the reference assembler's, "
               "and where the encodings differ the decoded instructions have to be the same",
               "a branch to a label of the same section has to reach that label, in its short and in its long form",
               "an operand of an instruction that takes none is refused, and so are %ah to %bh in an instruction that needs a REX prefix"]
    R.assume = ["the expression parser and the tokenizer give the values written", "LLVM's assembler and disassembler are the reference for what an instruction means"]
    t = Tree()
    m = Module(t.dump("tcc"))
    W = World(m, t.macros().get("TOK_PPNUM"))
    d = tempfile.mkdtemp(prefix="asmenc")
    try:
        lines = candidates(m)
        acc = assemble(lines, d)
        R.need(acc is not None, "the reference assembler")
        texts, ref, unenc = acc
        nops = {x for x in texts if " " not in x}
        known = set(texts)
        drop = [x + o for x in sorted(nops) for o in (" %eax", " $5", " foo") if x + o not in known and x in set(opzero(m))]
        dist = [-1000, -129, -128, -60, 100, 127, 129, 131, 1000]
        br = [(x.split(" ")[0], n) for x in texts if re.fullmatch(r"(j\w+|call\w*|loop\w*) foo", x) for n in dist]
        with Pool(os.cpu_count() or 4) as p:
            got = p.map(_one, texts, chunksize=40)
            gun = p.map(_one, unenc, chunksize=40)
            gdrop = p.map(_one, drop, chunksize=40)
            gbr = p.map(_near, br, chunksize=20)
    finally:
        W = None
    diff, n, refused = [], 0, 0
    for x, g, r in zip(texts, got, ref):
        if isinstance(g, str):
            R.need(False, "the encoding of %s: %s" % (x, g))
        if g is None:
            refused += 1
            continue
        n += 1
        if fields(*g) != fields(*r):
            diff.append((x, g, r))
    R.count("instruction texts", len(texts))
    R.count("refused by the assembler", refused)
    R.obligation(n=n - len(diff))
    A = disassemble([fields(*r)[0] for x, g, r in diff], d)
    B = disassemble([fields(*g)[0] for x, g, r in diff], d)
    bad = {}
    for (x, g, r), a, b in zip(diff, A, B):
        fa, fb = fields(*r), fields(*g)
        ta, tb = [y for q, y in norm(a)], [y for q, y in norm(b)]
        # the same instruction, and the relocations at the same distance from its end
        ra = [(len(fa[0]) - o, ty, v) for o, ty, v in fa[1]]
        rb = [(len(fb[0]) - o, ty, v) for o, ty, v in fb[1]]
        if ta == tb and ra == rb:
            R.obligation()
            continue
        bad.setdefault("%s:%s->%s" % (x.split(" ")[0], "; ".join(ta).split(" ")[0], "; ".join(tb).split(" ")[0]), []).append((x, "; ".join(ta), "; ".join(tb) if ta != tb else "%s with relocation %s instead of %s" % (tb, rb, ra), fb[0]))
    for x, g in zip(drop, gdrop):
        if isinstance(g, tuple):
            bad.setdefault("operand dropped", []).append((x, "refused", "the instruction without the operand", g[0]))
        else:
            R.obligation()
    for x, g in zip(unenc, gun):
        if isinstance(g, tuple):
            bad.setdefault("high byte", []).append((x, "refused", "another register", g[0]))
        else:
            R.obligation()
    # branches
    ok = [(b, g) for b, g in zip(br, gbr) if isinstance(g, tuple)]
    D = disassemble([g[0] for b, g in ok], d)
    base = 0
    for (b, g), ins in zip(ok, D):
        disp = branch(g[0])
        if not g[1] and len(ins) == 1 and disp is not None and disp + len(g[0]) == b[1]:
            R.obligation()
        else:
            bad.setdefault(b[0], []).append(("%s to a label %d bytes away" % b, "that label", "%s reaching %s" % ([y for q, y in ins], None if disp is None else disp + len(g[0])), g[0]))
    R.count("branches to labels", len(ok))
    R.count("texts with no encoding", len(unenc))
    for mn, l in sorted(bad.items()):
        x, a, b, c = l[0]
        R.obligation(ok=False, n=len(l))
        R.violation("encoding:%s" % mn, "asm_opcode, `%s`" % x, "another instruction emitted",
                    "`%s` is assembled to %s, which is `%s`, not `%s` (%d forms of %s)" % (x, bytes(c).hex(), b, a, len(l), mn))
    R.floor("instruction texts", 1000, "instruction texts the reference assembler knows")
    R.sample({"texts": len(texts), "encoded": n, "refused": refused, "branches": len(ok)})
    import shutil
    shutil.rmtree(d, ignore_errors=True)


def branch(c):
    """the displacement of a relative branch"""
    c = bytes(c)
    while c and c[0] in (0x66, 0x67, 0x2e, 0x3e, 0xf2):
        c = c[1:]
    if len(c) == 2 and (c[0] == 0xeb or 0x70 <= c[0] < 0x80 or 0xe0 <= c[0] <= 0xe3):
        return signed(c[1], 8)
    if len(c) == 5 and c[0] in (0xe8, 0xe9) or len(c) == 6 and c[0] == 0x0f and 0x80 <= c[1] < 0x90:
        return signed(int.from_bytes(c[-4:], "little"), 32)
    return None


def opzero(m):
    """mnemonics with a fixed code and no row in the table"""
    rows = {r[0] for r in table(m) if r[3]}
    a, b = m.enums["TOK_ASM_clc"], m.enums["TOK_ASM_emms"]
    return [k[8:] for k, v in m.enums.items() if k.startswith("TOK_ASM_") and a <= v <= b and v not in rows]

