"""Decoding of x86-64 byte sequences (with the installed disassembler) and the meaning of the decoded
instructions over values that are integers or terms."""
import os, re, shutil, subprocess, tempfile

BIN = "/usr/lib/llvm-18/bin/"
CLANG = next((p for p in (BIN + "clang", shutil.which("clang"), shutil.which("gcc")) if p and os.path.exists(p)), None)
DUMP = next((p for p in (BIN + "llvm-objdump", shutil.which("llvm-objdump"), shutil.which("llvm-objdump-18")) if p and os.path.exists(p)), None)
_cache = {}


def decode_all(seqs):
    """decode many byte sequences at once: [(text, bytes)] each, or None when the bytes are not instructions"""
    todo = [s for s in dict.fromkeys(tuple(s) for s in seqs) if s not in _cache and s]
    if not todo:
        return
    with tempfile.TemporaryDirectory() as d:
        with open(d + "/a.s", "w") as f:
            for k, s in enumerate(todo):
                f.write("s%d:\n.byte %s\n.fill 16,1,0x90\n" % (k, ",".join(map(str, s))))
        subprocess.run([CLANG, "-c", d + "/a.s", "-o", d + "/a.o"], check=True)
        out = subprocess.run([DUMP, "-d", "-z", "--x86-asm-syntax=intel", d + "/a.o"], capture_output=True, text=True, check=True).stdout
    cur, got = None, {}
    for l in out.splitlines():
        m = re.match(r"[0-9a-f]+ <s(\d+)>:", l)
        if m:
            cur = got.setdefault(int(m.group(1)), [])
            continue
        m = re.match(r"\s*([0-9a-f]+):\s+((?:[0-9a-f]{2} )*[0-9a-f]{2})\s+(\S.*)$", l)
        if m and cur is not None:
            at, by, t = int(m.group(1), 16), tuple(int(x, 16) for x in m.group(2).split()), m.group(3)
            t = re.sub(r"\s+", " ", re.sub(r"\s*[<#].*", "", t) if "<unknown>" not in t else t).strip()
            j = re.match(r"(j\w+|call|loop\w*|xbegin) (0x[0-9a-f]+)$", t)
            if j:
                t = "%s %d" % (j.group(1), sx(int(j.group(2), 16) - at - len(by), 64))
            cur.append((t, by))
    for k, s in enumerate(todo):
        n, o, ok = 0, [], False
        for t, by in got.get(k, []):
            if "<unknown>" in t or 0x40 <= by[0] <= 0x4f and len(by) > 1 and by[1] in LEGACY:
                break                      # a REX prefix before another prefix is ignored by the processor
            o.append((t, by))
            n += len(by)
            if n >= len(s):
                ok = n == len(s)
                break
        _cache[s] = o if ok else None


LEGACY = (0x66, 0x67, 0xf2, 0xf3, 0xf0, 0x2e, 0x36, 0x3e, 0x26, 0x64, 0x65)
collect = None                             # when a set: sequences to decode later, nothing is decoded


def decode(s):
    s = tuple(s)
    if not s:
        return []
    if s not in _cache and collect is not None:
        collect.add(s)
        return []
    if s not in _cache:
        decode_all([s])
    return _cache[s]


REG = {}
for _i, _n in enumerate(("ax", "cx", "dx", "bx", "sp", "bp", "si", "di")):
    REG["r" + _n], REG["e" + _n], REG[_n] = (_i, 64), (_i, 32), (_i, 16)
    REG[_n + "l" if _i >= 4 else _n[0] + "l"] = (_i, 8)
for _i in range(8, 16):
    REG["r%d" % _i], REG["r%dd" % _i], REG["r%dw" % _i], REG["r%db" % _i] = (_i, 64), (_i, 32), (_i, 16), (_i, 8)
for _i, _n in enumerate(("ah", "ch", "dh", "bh")):
    REG[_n] = (_i, 88)                     # bits 8 to 15
SIZE = {"byte": 8, "word": 16, "dword": 32, "qword": 64, "tbyte": 80, "xword": 80, "xmmword": 128}
CC = {"o": lambda f: f["o"], "no": lambda f: not f["o"], "b": lambda f: f["c"], "ae": lambda f: not f["c"], "e": lambda f: f["z"],
      "ne": lambda f: not f["z"], "be": lambda f: f["c"] or f["z"], "a": lambda f: not (f["c"] or f["z"]), "s": lambda f: f["s"],
      "ns": lambda f: not f["s"], "p": lambda f: f["p"], "np": lambda f: not f["p"], "l": lambda f: f["s"] != f["o"],
      "ge": lambda f: f["s"] == f["o"], "le": lambda f: f["z"] or f["s"] != f["o"], "g": lambda f: not f["z"] and f["s"] == f["o"]}


class Unknown(Exception):
    pass


class Fault(Exception):
    pass


def sx(v, w):
    v &= (1 << w) - 1
    return v - (1 << w) if v >> (w - 1) else v


class Cpu:
    """registers hold integers (64 bits) or terms; memory maps (base, offset) to values"""

    def __init__(self, regs=None, mem=None, xmm=None, st=None):
        self.r = dict(regs or {})
        self.m = dict(mem or {})
        self.x = dict(xmm or {})
        self.st = list(st or [])
        self.f = None
        self.order = None                  # (term, term) -> "<", "=", ">" or "?"
        self.wrote = []
        self.fixups = {}
        self.taken = None
        self.rc = 0                        # rounding control of the x87
        self.copied = []

    # ---------------------------------------------------------------- operands
    def parse(self, s):
        s = s.strip()
        if s in REG:
            return ("r",) + REG[s]
        m = re.match(r"xmm(\d+)$", s)
        if m:
            return ("x", int(m.group(1)))
        if s == "st" or re.match(r"st\(\d\)$", s):
            return ("st", int(s[3]) if len(s) > 2 else 0)
        m = re.match(r"(?:(\w+) ptr )?(?:\w\w:)?\[(.*)\]$", s)
        if m:
            return ("m", SIZE.get(m.group(1)), m.group(2))
        m = re.match(r"(?:(\w+) ptr )?(?:\w\w:)(-?\w+)$", s)
        if m:
            return ("m", SIZE.get(m.group(1)), m.group(2))
        try:
            return ("i", int(s, 0))
        except ValueError:
            raise Unknown(s)

    def ea(self, t):
        """effective address: (symbolic part, offset)"""
        base, off = [], 0
        for sg, p in re.findall(r"([+-]?)\s*([^+\-\s]+)", t):
            k = -1 if sg == "-" else 1
            if "*" in p:
                a, b = p.split("*")
                q, w = (a, b) if a.strip() in REG else (b, a)
                v = self.r.get(REG[q.strip()][0])
                if not isinstance(v, int):
                    raise Unknown(t)
                off += k * v * int(w, 0)
            elif p in REG:
                v = self.r.get(REG[p][0], ("reg", REG[p][0]))
                if isinstance(v, int):
                    off += k * v
                elif isinstance(v, tuple) and v and v[0] == "addr":
                    base.append(v[1])
                    off += v[2]
                else:
                    base.append(v)
            elif p == "rip":
                if self.fix is not None:
                    sym, kind, add = self.fix
                    base.append((kind, sym))
                    off += add + self.len - self.fixat
                else:
                    base.append("rip")
            else:
                try:
                    off += k * int(p, 0)
                except ValueError:
                    raise Unknown(t)
        return (tuple(base), sx(off, 64))

    def get(self, o, w=None):
        if o[0] == "i":
            return o[1]
        if o[0] == "r":
            v = self.r.get(o[1], ("reg", o[1]))
            if o[2] == 88:
                return v >> 8 & 255 if isinstance(v, int) else ("high", v)
            return v & ((1 << o[2]) - 1) if isinstance(v, int) else low(v, o[2])
        if o[0] == "x":
            return self.x.get(o[1], ("xmm", o[1]))
        if o[0] == "m":
            k = self.ea(o[2])
            if len(k[0]) == 1 and k[0][0][0] == "got":
                if k[1] or (o[1] or w) != 64:
                    raise Unknown("offset into the got")
                return ("addr", ("sym", k[0][0][1]), 0)
            if k in self.m:
                v = self.m[k]
                return v & ((1 << (o[1] or w)) - 1) if isinstance(v, int) else low(v, o[1] or w)
            return ("mem", k, o[1] or w)
        raise Unknown(o)

    def put(self, o, v):
        if o[0] == "r":
            if o[2] == 88:
                old = self.r.get(o[1], 0)
                v = (old & ~0xff00 | (v & 255) << 8) if isinstance(v, int) and isinstance(old, int) else ("mixed", old, v)
            elif isinstance(v, int):
                v &= (1 << o[2]) - 1
                if o[2] < 32:
                    old = self.r.get(o[1], 0)
                    v |= (old & ~((1 << o[2]) - 1)) if isinstance(old, int) else 0xdead0000
            self.r[o[1]] = v
            self.wrote.append(("r", o[1]))
        elif o[0] == "x":
            self.x[o[1]] = v
            self.wrote.append(("x", o[1]))
        elif o[0] == "m":
            k = self.ea(o[2])
            self.m[k] = v & ((1 << o[1]) - 1) if isinstance(v, int) and o[1] else v
            self.wrote.append(("m", k, o[1]))
        else:
            raise Unknown(o)

    def width(self, *os):
        for o in os:
            if o[0] == "r":
                return 8 if o[2] == 88 else o[2]
            if o[0] == "m" and o[1]:
                return o[1]
        raise Unknown("width")

    def flags(self, a, b, w, op):
        M = (1 << w) - 1
        a, b = a & M, b & M
        r = (a - b if op == "sub" else a + b if op == "add" else a & b if op == "and" else a | b if op == "or" else a ^ b)
        z = r & M
        self.f = dict(z=z == 0, s=bool(z >> (w - 1)), p=bin(z & 255).count("1") % 2 == 0,
                      c=(a < b if op == "sub" else r > M if op == "add" else False),
                      o=(bool(((a ^ b) & (a ^ z)) >> (w - 1) & 1) if op == "sub" else
                         bool((~(a ^ b) & (a ^ z)) >> (w - 1) & 1) if op == "add" else False))
        return z

    # ---------------------------------------------------------------- running
    def run(self, code, fixups=None):
        """code: decoded instructions; fixups: {byte offset: (symbol, addend)}. Follows forward jumps inside."""
        at, pos = {}, 0
        for t, e in code:
            at[pos] = (t, e)
            pos += len(e)
        end, pc, n = pos, 0, 0
        fixups = fixups or {}
        while pc < end:
            n += 1
            if pc not in at or n > 200:
                raise Unknown("jump into an instruction")
            t, e = at[pc]
            self.fix = next((fixups[k] for k in fixups if pc <= k < pc + len(e)), None)
            self.len = len(e)
            self.fixat = next((k - pc for k in fixups if pc <= k < pc + len(e)), None)
            nxt = pc + len(e)
            j = self.step(t)
            if j is not None:
                k = nxt + j
                if self.fix is not None or not 0 <= k <= end:
                    self.taken = (self.fix, j, nxt)
                    return
                nxt = k
            pc = nxt

    def step(self, t):
        p = t.split(" ", 1)
        mn = p[0]
        if mn in ("rep", "lock"):
            mn = p[0] + " " + p[1].split(" ", 1)[0]
            p = [mn, (p[1].split(" ", 1) + [""])[1]]
        if mn.split()[-1] in ("movsb", "movsw", "movsd", "movsq") and "[rsi]" in t:
            return self.fp("string " + mn, [], t)
        ops = [self.parse(x) for x in p[1].split(",")] if len(p) > 1 and p[1].strip() else []
        if mn in ("mov", "movabs"):
            w = self.width(ops[0], ops[1])
            v = self.get(ops[1], w)
            if ops[1][0] == "m" and ops[0][0] == "r":
                w = ops[0][2]
            self.put(("m", w, ops[0][2]) if ops[0][0] == "m" else ops[0], v if isinstance(v, int) or w == 64 else v)
        elif mn in ("movsx", "movsxd", "movzx"):
            v = self.get(ops[1])
            w = self.width(ops[1])
            if isinstance(v, int):
                v = sx(v, w) if mn != "movzx" else v & ((1 << w) - 1)
                self.put(ops[0], v & ((1 << 64) - 1))
            else:
                self.put(ops[0], (mn, w, ops[0][2], v))
        elif mn == "lea":
            b, o = self.ea(ops[1][2])
            self.put(ops[0], o & ((1 << 64) - 1) if not b else ("addr", b[0] if len(b) == 1 else b, o))
        elif mn in ("add", "sub", "and", "or", "xor", "cmp", "test"):
            w = self.width(*ops)
            if mn == "xor" and ops[0] == ops[1]:
                self.flags(0, 0, w, "xor")
                self.put(ops[0], 0)
                return
            a, b = self.get(ops[0], w), self.get(ops[1], w)
            if not isinstance(a, int) or not isinstance(b, int):
                if mn in ("cmp", "test"):
                    self.f = None
                    return
                if mn in ("add", "sub") and isinstance(a, tuple) and a[:1] == ("addr",) and isinstance(b, int):
                    self.put(ops[0], (a[0], a[1], a[2] + (sx(b, w) if mn == "add" else -sx(b, w))))
                else:
                    self.put(ops[0], (mn, w, a, b))
                return
            k = {"cmp": "sub", "test": "and"}.get(mn, mn)
            r = self.flags(a, b, w, k)
            if mn not in ("cmp", "test"):
                self.put(ops[0], r)
        elif mn in ("inc", "dec", "neg", "not"):
            w = self.width(*ops)
            a = self.get(ops[0])
            if not isinstance(a, int):
                raise Unknown(t)
            self.put(ops[0], {"inc": a + 1, "dec": a - 1, "neg": -a, "not": ~a}[mn])
        elif mn == "imul" and len(ops) >= 2:
            w = self.width(*ops)
            a, b = (self.get(ops[0]), self.get(ops[1], w)) if len(ops) == 2 else (self.get(ops[1], w), self.get(ops[2]))
            self.put(ops[0], sx(a, w) * sx(b, w) if isinstance(a, int) and isinstance(b, int) else ("imul", w, a, b))
        elif mn in ("shl", "sal", "shr", "sar"):
            w = self.width(ops[0])
            a, b = self.get(ops[0]), self.get(ops[1]) if len(ops) > 1 else 1
            if not isinstance(a, int) or not isinstance(b, int):
                raise Unknown(t)
            b &= 63 if w == 64 else 31
            self.put(ops[0], a << b if mn in ("shl", "sal") else a >> b if mn == "shr" else sx(a, w) >> b)
        elif mn in ("cdq", "cqo"):
            w = 32 if mn == "cdq" else 64
            a = self.r.get(0)
            if not isinstance(a, int):
                raise Unknown(t)
            self.put(("r", 2, w), -1 if sx(a, w) < 0 else 0)
        elif mn in ("div", "idiv"):
            w = self.width(ops[0])
            d, lo, hi = self.get(ops[0]), self.r.get(0), self.r.get(2)
            if not all(isinstance(v, int) for v in (d, lo, hi)):
                raise Unknown(t)
            M = (1 << w) - 1
            n = (hi & M) << w | lo & M
            if mn == "idiv":
                n, d = sx(n, 2 * w), sx(d, w)
            if d == 0:
                raise Fault("division by zero")
            q = abs(n) // abs(d)
            q = -q if (n < 0) != (d < 0) else q
            if not (-(1 << w - 1) <= q < 1 << w - 1 if mn == "idiv" else 0 <= q <= M):
                raise Fault("quotient overflow")
            self.put(("r", 0, w), q)
            self.put(("r", 2, w), n - q * d)
        elif mn in ("mul", "imul"):
            w = self.width(ops[0])
            a, b = self.get(ops[0]), self.get(("r", 0, w))
            if not isinstance(a, int) or not isinstance(b, int) or w < 32:
                raise Unknown(t)
            v = a * b if mn == "mul" else sx(a, w) * sx(b, w)
            self.put(("r", 0, w), v)
            self.put(("r", 2, w), v >> w)
        elif mn == "xchg":
            w = self.width(*ops)
            a, b = self.get(ops[0], w), self.get(ops[1], w)
            self.put(ops[0], b)
            self.put(ops[1], a)
        elif mn in ("rol", "ror") and isinstance(self.get(ops[0]), int):
            w = self.width(ops[0])
            a, b = self.get(ops[0]), self.get(ops[1]) if len(ops) > 1 else 1
            if not isinstance(b, int):
                raise Unknown(t)
            b = (b if mn == "rol" else -b) % w
            self.put(ops[0], a << b | a >> w - b)
        elif mn in ("adc", "sbb") and self.f is not None and all(isinstance(self.get(o), int) for o in ops):
            w = self.width(*ops)
            a, b, c = self.get(ops[0], w), self.get(ops[1], w), int(bool(self.f["c"]))
            v = a + b + c if mn == "adc" else a - b - c
            self.flags(a, b, w, "add" if mn == "adc" else "sub")
            self.put(ops[0], v)
        elif mn in ("cwde", "cdqe"):
            w = 32 if mn == "cwde" else 64
            a = self.r.get(0)
            if not isinstance(a, int):
                raise Unknown(t)
            self.put(("r", 0, w), sx(a, w // 2))
        elif mn.startswith("cmov") and mn[4:] in CC:
            if self.f is None:
                raise Unknown(t)
            w = self.width(ops[0])
            self.put(ops[0], self.get(ops[1] if CC[mn[4:]](self.f) else ops[0], w))
        elif mn.startswith("set") and mn[3:] in CC:
            if self.f is None:
                raise Unknown(t)
            self.put(ops[0], int(bool(CC[mn[3:]](self.f))))
        elif mn[0] == "j" and (mn == "jmp" or mn[1:] in CC):
            if ops[0][0] != "i":
                self.taken = ("indirect", ops[0])
                raise Unknown(t)
            if mn != "jmp" and self.f is None:
                raise Unknown(t)
            if mn == "jmp" or CC[mn[1:]](self.f):
                return ops[0][1]
        elif mn == "nop":
            pass
        elif mn == "push":
            v = self.get(ops[0])
            self.rsp(-8)
            self.m[self.ea("rsp")] = v if isinstance(v, int) or ops[0][0] != "i" else v
        elif mn == "pop":
            v = self.m.get(self.ea("rsp"))
            self.rsp(8)
            self.put(ops[0], v)
        else:
            self.fp(mn, ops, t)

    def rsp(self, d):
        v = self.r.get(4, ("addr", ("reg", 4), 0))
        self.r[4] = (v[0], v[1], v[2] + d)

    def compare(self, a, b):
        o = self.order(a, b) if self.order else None
        if o is None:
            raise Unknown("comparison of %s and %s" % (a, b))
        self.f = {"<": dict(c=1, z=0, p=0), "=": dict(c=0, z=1, p=0), ">": dict(c=0, z=0, p=0), "?": dict(c=1, z=1, p=1)}[o]
        self.f = dict(self.f, s=0, o=0)
        return o

    def fp(self, mn, ops, t):
        m = re.match(r"(add|sub|mul|div)(ss|sd)$", mn)
        if m:
            w = 32 if m.group(2) == "ss" else 64
            self.put(ops[0], (m.group(1), w, self.fget(ops[0], w), self.fget(ops[1], w)))
        elif mn in ("movss", "movsd", "movd", "movq", "movaps", "movapd", "movups", "movupd"):
            w = 32 if mn in ("movss", "movd") else 64
            v = self.fget(ops[1], w)
            if ops[0][0] == "m":
                self.put(("m", w, ops[0][2]), v)
            else:
                self.put(ops[0], v)
        elif mn in ("comiss", "ucomiss", "comisd", "ucomisd"):
            w = 32 if mn.endswith("ss") else 64
            self.compare(self.fget(ops[0], w), self.fget(ops[1], w))
        elif mn in ("xorps", "xorpd"):
            self.put(ops[0], ("xor", self.fget(ops[0], 0), self.fget(ops[1], 0)))
        elif mn in ("cvtsi2ss", "cvtsi2sd"):
            w = self.width(ops[1])
            v = self.get(ops[1])
            self.put(ops[0], ("fromint", 32 if mn.endswith("ss") else 64, sx(v, w) if isinstance(v, int) else (w, v)))
        elif mn in ("cvttss2si", "cvttsd2si"):
            self.put(ops[0], ("toint", ops[0][2], 32 if "ss2" in mn else 64, self.fget(ops[1], 32 if "ss2" in mn else 64)))
        elif mn in ("cvtss2si", "cvtsd2si"):
            self.put(ops[0], ("toint rounded", ops[0][2], 32 if "ss2" in mn else 64, self.fget(ops[1], 32 if "ss2" in mn else 64)))
        elif mn in ("sqrtss", "sqrtsd", "rcpss", "maxss", "maxsd", "minss", "minsd"):
            self.put(ops[0], (mn, self.fget(ops[0], 64), self.fget(ops[1], 64)))
        elif mn in ("andps", "andpd", "orps", "orpd", "andnps", "andnpd", "pxor", "por", "pand"):
            a, b = self.fget(ops[0], 0), self.fget(ops[1], 0)
            self.put(ops[0], ("xor" if mn == "pxor" else mn, a, b))
        elif mn in ("cvtps2pd", "cvtss2sd"):
            self.put(ops[0], ("widen", self.fget(ops[1], 32)))
        elif mn in ("cvtpd2ps", "cvtsd2ss"):
            self.put(ops[0], ("narrow", self.fget(ops[1], 64)))
        elif mn in ("unpcklps", "unpcklpd"):
            if ops[0] != ops[1]:
                raise Unknown(t)
        elif mn in ("fld", "fild"):
            if ops[0][0] == "st":
                self.st.insert(0, self.st[ops[0][1]])
            else:
                v = self.get(ops[0])
                w = ops[0][1]
                self.st.insert(0, ("fromint", 80, sx(v, w) if isinstance(v, int) else (w, v)) if mn == "fild" else ext(v, w))
        elif mn in ("fstp", "fst"):
            if not self.st:
                raise Unknown(t)
            v = self.st[0]
            if ops[0][0] == "st":
                self.st[ops[0][1]] = v
            else:
                self.m[self.ea(ops[0][2])] = v if ops[0][1] == 80 else ("round", ops[0][1], v)
                self.wrote.append(("m", self.ea(ops[0][2]), ops[0][1]))
            if mn == "fstp":
                self.st.pop(0)
        elif mn == "fchs":
            self.st[0] = ("neg", self.st[0])
        elif mn == "fxch":
            k = ops[-1][1] if ops else 1
            self.st[0], self.st[k] = self.st[k], self.st[0]
        elif mn in ("faddp", "fsubp", "fsubrp", "fmulp", "fdivp", "fdivrp"):
            k = ops[0][1] if ops else 1
            if len(self.st) <= k:
                raise Unknown(t)
            a, b = self.st[k], self.st[0]
            if mn in ("fsubrp", "fdivrp"):
                a, b = b, a
            self.st[k] = (mn[1:4], 80, a, b)
            self.st.pop(0)
        elif mn == "fnstcw":
            self.m[self.ea(ops[0][2])] = ("cw",)
        elif mn == "fldcw":
            v = self.m.get(self.ea(ops[0][2]))
            if v != ("cw",) and (not isinstance(v, int) or v & 0x37f != 0x37f):
                raise Unknown(t)
            self.rc = 0 if v == ("cw",) else v >> 10 & 3
        elif mn in ("fistp", "fisttp"):
            k = 3 if mn == "fisttp" else self.rc
            self.m[self.ea(ops[0][2])] = ("toint", ops[0][1], 80, self.st[0]) if k == 3 else ("toint rounded", k, ops[0][1], self.st[0])
            self.wrote.append(("m", self.ea(ops[0][2]), ops[0][1]))
            self.st.pop(0)
        elif mn.startswith("string "):
            mn = mn[7:]
            w = {"b": 1, "w": 2, "d": 4, "q": 8}[mn[-1]]
            n = 1
            if mn.startswith("rep"):
                n = self.r.get(1)
                if not isinstance(n, int):
                    raise Unknown(t)
                self.put(("r", 1, 64), 0)
            for k in (7, 6):
                v = self.r[k]
                self.copied.append((k, v[1], v[2], n * w))
                self.put(("r", k, 64), (v[0], v[1], v[2] + n * w))
        elif mn in ("fucompp", "fcompp"):
            o = self.compare(self.st[0], self.st[1])
            self.sw = {"<": 0x0100, "=": 0x4000, ">": 0, "?": 0x4500}[o]
            self.st = self.st[2:]
        elif mn == "fnstsw":
            self.put(("r", 0, 16), self.sw)
        else:
            raise Unknown(t)

    def fget(self, o, w):
        v = self.get(o, w)
        return v


def bitsof(v):
    """width of a term"""
    if v[0] in ("toint", "mem", "round"):
        return v[2] if v[0] == "mem" else v[1]
    if v[0] == "low":
        return v[1]
    return 64


def low(v, w):
    return v if w >= bitsof(v) or v[0] in ("F",) else ("low", w, v)


def ext(v, w):
    if isinstance(v, tuple) and v[:1] == ("round",) and v[1] == w:
        return v
    return v
