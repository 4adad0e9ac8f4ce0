"""C05: a gzip stream is only accepted after all of its checks.  C06: decoder tables."""
from sa.build import Tree
from sa.ir import Module, _op, opvals
from sa.esp import Sim, Client, INF, meet, const
from sa.flow import ZERO
from sa.focus import focus

ROOT, INFLATE = "tinf_gzip_uncompress", "tinf_uncompress"


# ------------------------------------------------------------------------------- linear forms / bytes
def lin(f, o, memo, depth=0):
    """integer or address as linear form over atoms (casts transparent)"""
    if o[0] == "i":
        return {1: o[1]} if o[1] else {}
    if o[0] == "gep":
        r = dict(lin(f, o[1], memo, depth + 1))
        r[1] = r.get(1, 0) + o[2]
        return {k: v for k, v in r.items() if v}
    if o[0] != "v" or depth > 60:
        return {o: 1}
    if o[1] in memo:
        return memo[o[1]]
    x = f.defs.get(o[1])
    r = {o: 1}
    if x is not None:
        if x.op in ("sext", "zext", "trunc", "freeze", "ptrtoint", "bitcast", "inttoptr"):
            r = lin(f, x.ops[0], memo, depth + 1)
        elif x.op in ("add", "sub"):
            a, b = lin(f, x.ops[0], memo, depth + 1), lin(f, x.ops[1], memo, depth + 1)
            r = comb(a, b, 1 if x.op == "add" else -1)
        elif x.op == "getelementptr" and not x.d.get("bad"):
            r = comb(lin(f, x.ops[0], memo, depth + 1), {1: x.d["coff"]}, 1)
            for s, v in x.d.get("var", []):
                r = comb(r, lin(f, _op(v), memo, depth + 1), s)
    r = {k: v for k, v in r.items() if v}
    memo[o[1]] = r
    return r


def comb(a, b, s):
    r = dict(a)
    for k, v in b.items():
        r[k] = r.get(k, 0) + s * v
    return {k: v for k, v in r.items() if v}


def key(l):
    return tuple(sorted(l.items(), key=str))


def provenance(f, o, source, memo, w=None):
    """bits of a value, lsb first: 0, 1, (tag, k) or None; source(x) gives a tag for values taken whole"""
    if o[0] == "i":
        return [(o[1] >> k) & 1 for k in range(o[2])]
    if o[0] != "v":
        return None
    if o[1] in memo:
        return memo[o[1]]
    memo[o[1]] = None
    x = f.defs.get(o[1])
    if x is None or not x.ty or x.ty[0] != "i":
        return None
    n = int(x.ty[1:])
    t = source(x)
    r = None
    if t is not None:
        r = [(t, k) for k in range(n)]
    elif x.op in ("zext", "sext", "trunc", "freeze"):
        a = provenance(f, x.ops[0], source, memo)
        if a is not None:
            r = a[:n] + [(a[-1] if x.op == "sext" else 0)] * (n - len(a))
    elif x.op in ("and", "or", "xor", "add"):
        a, b = provenance(f, x.ops[0], source, memo), provenance(f, x.ops[1], source, memo)
        if a is not None or b is not None:
            a, b = a or [None] * n, b or [None] * n
            r = []
            carry = False
            for p, q in zip(a, b):
                if x.op == "and":
                    r.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None)
                elif x.op == "or":
                    r.append(1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else None)
                elif x.op == "xor":
                    r.append(p if q == 0 else q if p == 0 else (p ^ q if p in (0, 1) and q in (0, 1) else None))
                else:
                    carry = carry or not (p == 0 or q == 0)
                    r.append(None if carry else p if q == 0 else q)
    elif x.op == "shl" and x.ops[1][0] == "i":
        a = provenance(f, x.ops[0], source, memo)
        if a is not None:
            r = ([0] * x.ops[1][1] + a)[:n]
    elif x.op in ("lshr", "ashr") and x.ops[1][0] == "i":
        a, c = provenance(f, x.ops[0], source, memo), x.ops[1][1]
        if a is not None:
            r = a[c:] + [a[-1] if x.op == "ashr" else 0] * min(c, n)
    elif x.op == "mul" and x.ops[1][0] == "i" and x.ops[1][1] > 0 and x.ops[1][1] & (x.ops[1][1] - 1) == 0:
        a = provenance(f, x.ops[0], source, memo)
        if a is not None:
            r = ([0] * (x.ops[1][1].bit_length() - 1) + a)[:n]
    memo[o[1]] = r
    return r


def loops(f):
    order = {b: i for i, b in enumerate(f.rpo())}
    return any(order.get(s, 0) <= order.get(B.i, -1) for B in f.blocks if B.i in order for s in B.succ)


class Gz(Client):
    """ts = (facts, result choices)"""

    def __init__(self, R, f, crc):
        self.R, self.f, self.crc = R, f, crc
        self.dest, self.dlen, self.src, self.slen = [("v", p[0]) for p in f.params[:4]]
        self.lm, self.pm = {}, {}
        self.sl = lin(f, self.src, {})
        self.end = comb(self.sl, {self.slen: 1}, 1)
        self.ret = set()
        for x in f.insts():
            if x.op == "ret" and x.ops:
                work = [x.ops[0]]
                while work:
                    o = work.pop()
                    d = f.defs.get(o[1]) if o[0] == "v" else None
                    if d is None or d.id in self.ret:
                        continue
                    if d.op in ("phi", "select"):
                        self.ret.add(d.id)
                        work += [_op(v) for v, _ in d.d["inc"]] if d.op == "phi" else d.ops[1:]
        self.ok = 0
        self.inflate = [x for x in f.calls() if x.callee == INFLATE]

    def init(self, f):
        return [((frozenset(), ()), {})]

    def tag(self, x):
        """source byte at a position relative to the start (number) or the end (('e', number))"""
        if x.op == "load" and x.ty == "i8":
            l = lin(self.f, x.ops[0], self.lm)
            d = comb(l, self.sl, -1)
            if set(d) <= {1}:
                return ("b", d.get(1, 0))
            d = comb(l, self.end, -1)
            if set(d) <= {1}:
                return ("e", d.get(1, 0))
            if self.dest not in l:
                return ("x", key(l))
        if x.op == "call" and x.callee in self.crc:
            return ("crc", x.id)
        if x.op == "load" and lin(self.f, x.ops[0], self.lm) == {self.dlen: 1}:
            return ("destlen", self.after(x))
        return None

    def after(self, x):
        """is the load behind the decompression call (same block order or dominated)"""
        for c in self.inflate:
            if c.blk.i == x.blk.i:
                return c.idx < x.idx
            if not reaches(self.f, x.blk.i, c.blk.i) and reaches(self.f, c.blk.i, x.blk.i):
                return True
        return False

    def bits(self, o):
        return provenance(self.f, o, self.tag, self.pm)

    def le(self, o, first):
        """is o the little-endian 32-bit word at `first` from the end"""
        b = self.bits(o)
        return b is not None and b[:32] == [(("e", first + k // 8), k % 8) for k in range(32)] and not any(b[32:])

    def whole(self, o, kind):
        b = self.bits(o)
        if b and isinstance(b[0], tuple) and b[0][0][0] == kind and b[:32] == [(b[0][0], k) for k in range(32)]:
            return b[0][0]

    def data(self, o):
        x = self.f.defs.get(o[1]) if o[0] == "v" else None
        return x is not None and self.le(o, -4)

    def edge(self, ts, env, B, succ):
        facts, ch = ts
        t = B.insts[-1]
        if t.op != "br" or not t.ops or t.d["succ"][0] == t.d["succ"][1]:
            return ts
        add = set()
        self.learn(t.ops[0], succ == t.d["succ"][0], add)
        return (facts | add, ch) if add else ts

    def learn(self, o, truth, add, n=0):
        c = self.f.defs.get(o[1]) if o[0] == "v" else None
        if c is None or n > 20:
            return
        if c.op == "xor" and c.ops[1][0] == "i":
            return self.learn(c.ops[0], not truth, add, n + 1)
        if c.op == "select" and c.ty == "i1":
            if truth and c.ops[2][0] == "i":
                self.learn(c.ops[0], True, add, n + 1)
                self.learn(c.ops[1], True, add, n + 1)
            if not truth and c.ops[1][0] == "i":
                self.learn(c.ops[0], False, add, n + 1)
                self.learn(c.ops[2], False, add, n + 1)
            return
        if c.op in ("and", "or") and c.ty == "i1":
            if truth == (c.op == "and"):
                self.learn(c.ops[0], truth, add, n + 1)
                self.learn(c.ops[1], truth, add, n + 1)
            return
        if c.op == "icmp" and c.d["pred"][0] in "us" and c.d["pred"] != "sub":
            p, a, b = c.d["pred"], c.ops[0], c.ops[1]
            if a[0] == "i":
                p, a, b = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule"}.get(p, p), b, a
            if b[0] == "i" and lin(self.f, a, self.lm) == {self.slen: 1}:
                lo = {("ult", False): b[1], ("uge", True): b[1], ("ugt", True): b[1] + 1, ("ule", False): b[1] + 1}.get((p, truth))
                if lo is not None and lo >= 18:
                    add.add("min")
            return
        if c.op != "icmp" or c.d["pred"] not in ("eq", "ne") or (c.d["pred"] == "eq") != truth:
            return
        a, b = c.ops
        if b == ("i", 0, b[2] if len(b) > 2 else 0):        # (p ^ q) == 0, p - q == 0
            x = self.f.defs.get(a[1]) if a[0] == "v" else None
            if x is not None and x.op in ("xor", "sub"):
                a, b = x.ops
        for p, q in ((a, b), (b, a)):
            if self.le(p, -8):
                w = self.whole(q, "crc")
                if w:
                    x = self.f.defs[w[1]]
                    d = comb(lin(self.f, x.ops[0], self.lm), {self.dest: 1}, -1)
                    n = x.ops[1]
                    if not d and (self.le(n, -4) or (self.whole(n, "destlen") or (0, False))[1]):
                        add.add("data")
            if self.le(p, -4):
                w = self.whole(q, "destlen")
                if w and w[1]:
                    add.add("length")
            bp, bq = self.bits(p), self.bits(q)
            if bp and bq and isinstance(bq[0], tuple) and bq[0][0][0] == "crc" and bq[:16] == [(bq[0][0], k) for k in range(16)] and not any(bq[16:]):
                x = self.f.defs[bq[0][0][1]]
                hl = comb(lin(self.f, x.ops[0], self.lm), self.sl, -1)
                pos = comb(lin(self.f, x.ops[1], self.lm), self.sl, 1)      # address where the header ends
                if not hl and isinstance(bp[0], tuple):
                    want = []
                    for k in range(16):
                        l = comb(pos, {1: k // 8}, 1)
                        want.append((l, k % 8))
                    if all(isinstance(z, tuple) and z[0][0] in ("x", "b", "e") and z[1] == w[1] and self.pos(z[0]) == key(w[0]) for z, w in zip(bp, want)) and not any(bp[16:]):
                        add.add("header")

    def pos(self, t):
        return t[1] if t[0] == "x" else key(comb(self.sl if t[0] == "b" else self.end, {1: t[1]}, 1))

    def phis(self, ts, env, phis, vals):
        facts, ch = ts
        d = dict(ch)
        for p in phis:
            if p.id in self.ret and p.id in vals:
                o = vals[p.id]
                if o[0] == "v" and o[1] in d:
                    o = d[o[1]]
                d[p.id] = o
        return (facts, tuple(sorted(d.items())))

    def exit(self, ts, env, t):
        facts, ch = ts
        o = dict(ch).get(t.ops[0][1], t.ops[0]) if t.ops[0][0] == "v" else t.ops[0]
        if meet(self.sim.val(env, o), ZERO) is None:
            return
        self.ok += 1
        f, sim = self.f, self.sim
        got = {}
        masks = {}
        for x in f.insts():
            if x.id not in env:
                continue
            v = env[x.id]
            if x.ty and x.ty[0] == "i" and x.ty != "i1":
                b = self.bits(("v", x.id))
                if b and any(isinstance(z, tuple) for z in b):
                    src = set(z[0] for z in b if isinstance(z, tuple))
                    if len(src) == 1:
                        s = src.pop()
                        if s[0] == "b" and v[0] >= 0:
                            m = 0
                            for k, z in enumerate(b):
                                if isinstance(z, tuple) and (v[1] >> k) == 0:
                                    m |= 1 << z[1]
                            if v[0] == v[1]:
                                for k, z in enumerate(b):
                                    if isinstance(z, tuple):
                                        got[(s[1], z[1])] = (v[0] >> k) & 1
                            for k in range(8):
                                if m >> k & 1:
                                    got.setdefault((s[1], k), 0)
        def byte(off, val):
            return all(got.get((off, k)) == (val >> k) & 1 for k in range(8))
        path = ["path: " + " > ".join(sim.path())]
        self.rule(byte(0, 0x1F) and byte(1, 0x8B), "magic", "the two id bytes", t, path)
        self.rule(byte(2, 8), "method", "the compression method", t, path)
        self.rule(all(got.get((3, k)) == 0 for k in (5, 6, 7)), "reserved", "the reserved flag bits", t, path)
        self.rule("min" in facts, "minimum", "the minimum length of 18 bytes", t, path)
        self.rule("header" in facts or got.get((3, 1)) == 0, "header-crc", "the header checksum (when present)", t, path)
        self.rule("data" in facts, "data-crc", "the checksum of the decompressed data", t, path)
        self.rule("length" in facts, "length", "the decompressed length", t, path)
        ok = False
        for x in self.inflate:
            if sim.val(env, ("v", x.id)) == ZERO:
                a = [lin(f, o, self.lm) for o in x.ops[:4]]
                ok = a[0] == {self.dest: 1} and a[1] == {self.dlen: 1} and comb(comb(a[2], a[3], 1), comb(self.end, {1: -8}, 1), -1) == {}
        self.rule(ok, "decoded", "the decoder's own result, over exactly the bytes between header and trailer", t, path)

    def rule(self, ok, k, what, t, path):
        self.R.obligation(ok)
        if not ok:
            self.R.violation("gunzip|" + k, t.where(), "gzip-checks", "success is reported without having checked %s" % what, path)


def reaches(f, a, b):
    seen, work = set(), list(f.blocks[a].succ)
    while work:
        n = work.pop()
        if n == b:
            return True
        if n in seen:
            continue
        seen.add(n)
        work += f.blocks[n].succ
    return False


class Over(Client):
    """success only with the bit reader's overflow mark clear after the last read"""

    def __init__(self, R, f, off):
        self.R, self.f, self.off, self.n = R, f, off, 0

    def init(self, f):
        return [("-", {})]

    def step(self, ts, env, x):
        if x.op == "call" and not (x.callee or "").startswith("llvm."):
            return [("-", None)]
        if x.op == "load":
            c = self.sim.cell(x.ops[0])
            if c and c[0] == "a" and c[2] == self.off:
                return [(x.id, None)]
        return None

    def exit(self, ts, env, t):
        if meet(self.sim.val(env, t.ops[0]), ZERO) is None:
            return
        self.n += 1
        ok = ts != "-" and self.sim.val(env, ("v", ts)) == ZERO
        self.R.obligation(ok)
        if not ok:
            self.R.violation("inflate|overflow", t.where(), "gzip-checks", "success is reported although the stream may have ended early", ["path: " + " > ".join(self.sim.path())])


def c05(R, tier):
    R.rules.append("On every path of the gunzip function (helpers inlined) that can return success: the source has at least 18 bytes, "
                   "id bytes are 1f 8b, the method is 8, reserved flag bits are 0, the header checksum was compared when its flag is set, "
                   "the decoder succeeded over exactly the bytes between header and trailer, its output length equals the trailer's length word "
                   "and the checksum of the output equals the trailer's checksum word (bit provenance of the compared values). The decoder "
                   "reports success only with its overflow mark clear.")
    T = Tree()
    m0 = Module(T.dump("src"))
    f0 = R.need(m0.defined.get(ROOT), ROOT)
    keep = [g.name for g in m0.defined.values() if g.file == f0.file and g.name != ROOT and loops(g)]
    m = focus(T, "src", [ROOT], (INFLATE,), stop=tuple(keep) + (INFLATE,))
    f = m.defined[ROOT]
    crc = set(g for g in keep if g in m.defined and len(m.defined[g].params) >= 2 and m.defined[g].ret == "i32")
    cl = Gz(R, f, crc)
    R.need(cl.inflate, "the call of the decoder")
    Sim(f, cl).run()
    R.count("success_exits", cl.ok)
    R.need(cl.ok, "a success exit of " + ROOT)
    # the decoder's end
    m = Module(T.dump("src"))
    f = R.need(m.defined.get(INFLATE), INFLATE)
    st = [s for s in m.structs if "tinf_data" in s]
    off = m.field_off(st[0], "overflow") if st else None
    if off is not None:
        oc = Over(R, f, off)
        Sim(f, oc).run()
        R.count("decoder_success_exits", oc.n)
    else:
        R.notes.append("the overflow mark was not found")
    R.floor("success_exits", 1, "success exits")


# ------------------------------------------------------------------------------------------ C06
def rfc_tables():
    lb, lx, db, dx = [], [], [], []
    v = 3
    for i in range(28):
        e = 0 if i < 8 else (i - 4) // 4
        lx.append(e)
        lb.append(v)
        v += 1 << e
    lb.append(258)
    lx.append(0)
    v = 1
    for i in range(30):
        e = 0 if i < 4 else (i - 2) // 2
        dx.append(e)
        db.append(v)
        v += 1 << e
    def crc(n):
        c = n
        for _ in range(4 if n < 16 and False else 8):
            c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
        return c
    def nib(n):
        c = n
        for _ in range(4):
            c = (c >> 1) ^ (0xEDB88320 if c & 1 else 0)
        return c
    return {
        "length bases": lb, "length extra bits": lx, "distance bases": db, "distance extra bits": dx,
        "order of the code length codes": [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15],
        "CRC-32 table (4 bits)": [nib(i) for i in range(16)], "CRC-32 table (8 bits)": [crc(i) for i in range(256)],
    }


def int_arrays(m, files):
    """constant integer arrays used by the functions of the given files"""
    used = set()
    from sa.ir import operands, opglobals
    for f in m.defined.values():
        if f.file.split("/")[-1] in files:
            for x in f.insts():
                for o in operands(x):
                    used |= set(opglobals(o))
    out = {}
    for g in used:
        d = m.globals.get(g)
        if not d or not d.get("const") or "str" in d and False:
            continue
        if "init" in d:
            e = [(o, s, v) for o, s, v in d["init"]]
            sz = set(s for _, s, _ in e)
            if len(sz) == 1 and len(e) >= 8 and all(v[0] == "i" for _, _, v in e):
                w = sz.pop()
                out[g] = ([v[1] & ((1 << 8 * w) - 1) for _, _, v in sorted(e)], w)
        if g not in out and "str" in d:
            b = bytes.fromhex(d["str"])
            if len(b) >= 8:
                out[g] = (list(b), 1)
    return out


class ConstEval:
    """constant propagation with complete unrolling of a function whose branches do not depend on its inputs"""

    def __init__(self, f, limit=200000):
        self.f, self.limit = f, limit
        self.mem = {}

    def v(self, env, o):
        if o[0] == "i":
            return o[1]
        if o[0] == "gep":
            b = self.v(env, o[1])
            return (b[0], b[1] + o[2]) if isinstance(b, tuple) else None
        if o[0] == "g":
            return (o, 0)
        if o[0] == "v":
            if o[1] in self.f.pidx:
                return (o, 0)
            return env.get(o[1])
        return None

    def run(self):
        f = self.f
        env, bi, prev, n = {}, 0, None, 0
        while True:
            B = f.blocks[bi]
            new = {}
            for x in B.insts:
                if x.op != "phi":
                    break
                for w, pb in x.d["inc"]:
                    if pb == prev:
                        new[x.id] = self.v(env, _op(w))
            env.update(new)
            for x in B.insts:
                n += 1
                if n > self.limit:
                    return None
                op = x.op
                if op == "phi":
                    continue
                if op == "br":
                    if not x.ops:
                        nb = x.d["succ"][0]
                    else:
                        c = self.v(env, x.ops[0])
                        if c is None or isinstance(c, tuple):
                            return None
                        nb = x.d["succ"][0 if c & 1 else 1]
                    prev, bi = bi, nb
                    break
                if op == "ret":
                    return self.mem
                if op in ("switch", "unreachable", "indirectbr"):
                    return None
                a = [self.v(env, o) for o in x.ops]
                r = None
                if op == "store":
                    if not isinstance(a[1], tuple):
                        return None
                    self.mem[a[1]] = (a[0], x.d.get("size"))
                    continue
                if op == "alloca":
                    r = (("v", x.id), 0)
                elif op == "load":
                    w = self.mem.get(a[0])
                    r = w[0] if w else None
                elif op == "getelementptr":
                    if isinstance(a[0], tuple) and not x.d.get("bad"):
                        off = a[0][1] + x.d["coff"]
                        for s, w in x.d.get("var", []):
                            z = self.v(env, _op(w))
                            off = None if z is None or isinstance(z, tuple) or off is None else off + s * z
                        r = None if off is None else (a[0][0], off)
                elif op in ("bitcast", "freeze"):
                    r = a[0]
                elif op == "call":
                    if (x.callee or "").startswith("llvm.dbg") or (x.callee or "").startswith("llvm.lifetime"):
                        continue
                    if (x.callee or "").startswith("llvm.memset") and isinstance(a[0], tuple) and isinstance(a[2], int) and a[1] == 0:
                        for k in range(a[2]):
                            self.mem[(a[0][0], a[0][1] + k)] = (0, 1)
                        continue
                    return None
                elif all(isinstance(w, int) for w in a) and x.ty and x.ty[0] == "i":
                    r = arith(x, a)
                env[x.id] = r
            else:
                return None


def arith(x, a):
    w = int(x.ty[1:])
    sw = x.d.get("sty") or "i64"
    sw = int(sw[1:]) if sw[0] == "i" else 64
    u = [v & ((1 << 64) - 1) for v in a]
    op = x.op
    if op == "icmp":
        p = x.d["pred"]
        b = u if p[0] == "u" and p != "ult_" else a
        r = {"eq": b[0] == b[1], "ne": b[0] != b[1]}.get(p)
        if r is None:
            r = {"lt": b[0] < b[1], "le": b[0] <= b[1], "gt": b[0] > b[1], "ge": b[0] >= b[1]}[p[1:]]
        return int(r)
    if op == "select":
        return a[1] if a[0] & 1 else a[2]
    r = {"add": lambda: a[0] + a[1], "sub": lambda: a[0] - a[1], "mul": lambda: a[0] * a[1], "and": lambda: a[0] & a[1],
         "or": lambda: a[0] | a[1], "xor": lambda: a[0] ^ a[1], "shl": lambda: a[0] << (a[1] & 63),
         "lshr": lambda: (a[0] & ((1 << w) - 1)) >> (a[1] & 63), "ashr": lambda: a[0] >> (a[1] & 63),
         "zext": lambda: a[0] & ((1 << sw) - 1), "sext": lambda: a[0], "trunc": lambda: a[0]}.get(op)
    if r is None:
        return None
    r = r() & ((1 << w) - 1)
    if w == 1:
        return r
    return r - (1 << w) if r >> (w - 1) and op != "zext" else r


def c06(R, tier):
    R.rules.append("The constant tables of the decoder, taken from the compiled initialisers, are compared with tables computed from the definitions "
                   "in RFC 1951 (length and distance bases and extra bits, code length order) and RFC 1952 (CRC-32); the tables of the fixed Huffman "
                   "codes, computed by constant propagation through the function that fills them, are compared with RFC 1951 section 3.2.6.")
    T = Tree()
    m = Module(T.dump("src"))
    arr = int_arrays(m, ("tinflate.c", "tinfgzip.c"))
    want = rfc_tables()
    used = set()
    for name, w in want.items():
        best = None
        for g, (v, size) in arr.items():
            n = min(len(v), len(w))
            if n < len(w) - 2 or len(v) > len(w) + 4 or (max(w) >= 1 << 8 * size):
                continue
            same = sum(1 for i in range(n) if v[i] == w[i])
            if best is None or same > best[0]:
                best = (same, g, v, n)
        if best is None or best[0] * 10 < len(w) * 6:
            R.notes.append("no table looks like the " + name)
            continue
        used.add(best[1])
        R.count("tables")
        d = m.globals[best[1]]
        for i in range(len(w)):
            ok = i < len(best[2]) and best[2][i] == w[i]
            R.obligation(ok)
            if not ok:
                R.violation("table|%s|%d" % (name, i), d.get("name") or best[1], "rfc-table", "%s: entry %d is %s, the standard says %d" %
                            (name, i, best[2][i] if i < len(best[2]) else "missing", w[i]))
    R.floor("tables", 4, "tables of the standard")
    # fixed codes
    lens = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8
    lsym = sorted(range(288), key=lambda s: (lens[s], s))
    lcnt = [lens.count(k) if k else 0 for k in range(16)]
    dcnt = [32 if k == 5 else 0 for k in range(16)]
    fm = focus(T, "src", ["tinf_build_fixed_trees"], (), force=lambda f: f.file.endswith("tinflate.c"))
    f = fm.defined.get("tinf_build_fixed_trees")
    mem = ConstEval(f).run() if f is not None else None
    st = fm.structs.get("struct.tinf_tree") or fm.structs.get("tinf_tree")
    if mem is None or st is None:
        R.notes.append("the fixed codes are not filled by constant assignments in tinf_build_fixed_trees")
        return
    fo = {n: (o, z) for n, o, z, t in st["fields"]}
    if not all(k in fo for k in ("counts", "symbols", "max_sym")):
        R.notes.append("the tree structure has other fields")
        return
    def get(base, off):
        v = mem.get((base, off))
        return None if v is None else v[0]
    for base, cnt, sym, top, what in ((("v", f.params[0][0]), lcnt, lsym, (285, 287), "literal/length"), (("v", f.params[1][0]), dcnt, list(range(32)), (29, 31), "distance")):
        for k, w in enumerate(cnt):
            v = get(base, fo["counts"][0] + 2 * k)
            R.obligation(v == w or (k == 0 and v is not None))
            if v != w and k:
                R.violation("fixed|%s|counts|%d" % (what, k), f.name, "rfc-table", "fixed %s codes: %s codes of length %d, the standard says %d" % (what, v, k, w))
        for k, w in enumerate(sym):
            v = get(base, fo["symbols"][0] + 2 * k)
            R.obligation(v == w)
            if v != w:
                R.violation("fixed|%s|symbol|%d" % (what, k), f.name, "rfc-table", "fixed %s codes: the code in position %d stands for %s, the standard says %d" % (what, k, v, w))
        v = get(base, fo["max_sym"][0])
        ok = v is not None and top[0] <= v <= top[1]
        R.obligation(ok)
        if not ok:
            R.violation("fixed|%s|max" % what, f.name, "rfc-table", "fixed %s codes: the largest symbol is %s" % (what, v))
        R.count("fixed_codes", len(sym))
