"""C04: tar extraction stays below its destination.  C22: library extraction and the library's index."""
from sa.build import Tree
from sa.ir import Module, _op, opvals, opglobals
from sa.esp import Sim, Client, INF, TOP, NONNULL, NULL, const, meet, join, pure_call
from sa.focus import focus, bits
from checks.gz import lin, comb, key

FS = {"mkdir": 0, "mkdirat": 1, "fopen": 0, "fopen64": 0, "open": 0, "open64": 0, "creat": 0, "symlink": 1, "link": 1, "rename": 1,
      "remove": 0, "unlink": 0, "rmdir": 0, "mknod": 0, "mkfifo": 0, "chmod": 0, "chown": 0, "truncate": 0, "freopen": 0}
DOT, SLASH = 46, 47


def bare(l):
    """linear form without the constant"""
    return {k: v for k, v in l.items() if k != 1}


# ------------------------------------------------------------------------------- validators
class Scan(Client):
    """one iteration of a scanner over the components of a string, under the assumption that a '..' component
    starts at the current position; ts = True once the position's block was entered"""

    def __init__(self, f, pos, nxt, lm):
        self.f, self.pos, self.nxt, self.lm = f, pos, nxt, lm
        self.pl = lin(f, pos, lm)
        self.rets, self.again = [], []

    def at(self, o):
        d = comb(lin(self.f, o, self.lm), self.pl, -1)
        return d.get(1, 0) if not bare(d) else None

    def step(self, ts, env, x):
        if not ts[0]:
            return None
        if x.op == "load" and x.ty == "i8":
            k = self.at(x.ops[0])
            v = {-1: SLASH, 0: DOT, 1: DOT, 2: self.nxt}.get(k)
            if v is not None:
                return [(ts, {x.id: const(v)})]
            a = lin(self.f, x.ops[0], self.lm)
            if any(isinstance(q, tuple) and q[0] == "v" and self.length(q[1]) for q in comb(a, self.pl, -1)):
                return [(ts, {x.id: const(self.nxt)})]      # the byte behind the component
        if x.op == "call":
            if self.length(x.id):
                return [(ts, {x.id: const(2)})]
            if x.callee in ("strncmp", "memcmp") and self.at(x.ops[0]) == 0 and x.ops[2][0] == "i":
                s = self.f.mod.gstr(x.ops[1])
                if s is not None:
                    n = x.ops[2][1]
                    me = (".." + ("/" if self.nxt == SLASH else "\0"))[:n]
                    if n <= 3:
                        return [(ts, {x.id: const(0 if (s + "\0" * 4)[:n] == me else 1)})]
            if x.callee == "strcmp" and self.at(x.ops[0]) == 0:
                s = self.f.mod.gstr(x.ops[1])
                if s is not None and self.nxt == 0:
                    return [(ts, {x.id: const(0 if s == ".." else 1)})]
        return None

    def length(self, vid):
        x = self.f.defs.get(vid)
        if x is None or x.op != "call" or x.callee not in ("strcspn",) or self.at(x.ops[0]) != 0:
            return False
        return SLASH in [ord(c) for c in self.f.mod.gstr(x.ops[1]) or ""]

    def edge(self, ts, env, B, succ):
        x = self.f.defs.get(self.pos[1])
        if x is not None and succ == x.blk.i:
            if ts[0]:
                self.again.append(B.i)
                return None
            return (True,)
        return ts

    def init(self, f):
        return [((self.f.defs.get(self.pos[1]) is None,), {})]

    def exit(self, ts, env, t):
        if ts[0]:
            self.rets.append(self.sim.val(env, t.ops[0]))


class Ends(Client):
    """values returned, with whether the end of the string was seen at the current position"""

    def __init__(self, f, pos, lm):
        self.f, self.pos, self.lm = f, pos, lm
        self.out = []

    def exit(self, ts, env, t):
        end = False
        for x in self.f.insts():
            if x.op == "load" and x.ty == "i8" and env.get(x.id) == const(0):
                l = lin(self.f, x.ops[0], self.lm)
                for p in self.pos:
                    d = comb(l, lin(self.f, p, self.lm), -1)
                    b = bare(d)
                    if (not b and d.get(1, 0) == 0) or (d.get(1, 0) == 0 and len(b) == 1 and list(b.values()) == [1] and
                                                      (self.f.defs.get(list(b)[0][1]) or x).callee == "strcspn"):
                        end = True
        self.out.append((end, self.sim.val(env, t.ops[0])))


def validator(f):
    """the results f(string) gives when the string has a component '..', or None when f is not a scanner for it.
    Returns (hull of rejecting results, problems)"""
    if f.decl or not f.params or f.ret is None or f.ret[0] != "i":
        return None
    dots = any(o == ("i", DOT, w) for x in f.insts() if x.op in ("icmp", "switch") for o in x.ops for w in (8, 32))
    dots = dots or any(DOT in x.d.get("cases", []) for x in f.insts() if x.op == "switch")
    dots = dots or any(".." in (f.mod.gstr(o) or "") for x in f.calls() for o in x.ops)
    if not dots:
        return None
    par = [("v", p[0]) for p in f.params if p[1] == "ptr"]
    if not par or any(x.op == "store" for x in f.insts()):
        return None
    p = par[0]
    # strstr(name, ".."): more is rejected than has to be
    for x in f.calls("strstr"):
        if x.ops[0] == p and f.mod.gstr(x.ops[1]) in ("..", "."):
            class Found(Client):
                def init(s, f):
                    s.out = []
                    return [(0, {})]

                def step(s, ts, env, y):
                    return [(1, {y.id: NONNULL})] if y is x else None

                def exit(s, ts, env, t):
                    s.out.append(s.sim.val(env, t.ops[0]))
            c = Found()
            Sim(f, c).run()
            h = None
            for v in c.out:
                h = v if h is None else join(h, v)
            return h, []
    lm = {}
    pos = [("v", x.id) for x in f.insts() if x.op == "phi" and x.ty == "ptr" and p in roots(f, ("v", x.id))]
    ints = [("v", x.id) for x in f.insts() if x.op == "phi" and x.ty in ("i32", "i64")]
    heads = []
    order = {b: i for i, b in enumerate(f.rpo())}
    for q in pos:
        x = f.defs[q[1]]
        back = [(_op(v), b) for v, b in x.d["inc"] if order.get(b, 0) >= order.get(x.blk.i, 0)]
        if back:
            heads.append((q, back))
    if not heads:
        return None
    best = None
    for q, back in heads:
        bad, h = [], None
        for nxt in (0, SLASH):
            c = Scan(f, q, nxt, lm)
            Sim(f, c).run()
            if c.again:
                bad.append("a component '..' is passed over")
            for v in c.rets:
                h = v if h is None else join(h, v)
        e = Ends(f, [w for w in roots(f, q)] + [q], lm)
        Sim(f, e).run()
        if h is not None:
            for end, v in e.out:
                if not end and meet(v, h) is None:
                    bad.append("a name is accepted before its end was reached")
        # progress: one character, or past the component and at most one separator
        for v, b in back:
            for w in leaves(f, v):
                d = comb(lin(f, w, lm), lin(f, q, lm), -1)
                c0, r = d.get(1, 0), bare(d)
                okc = not r and c0 == 1
                okl = len(r) == 1 and list(r.values()) == [1] and c0 in (0, 1) and cspn(f, list(r)[0], q, lm)
                if not okc and not okl:
                    bad.append("characters are skipped between two components")
        if best is None or len(bad) < len(best[1]):
            best = (h, sorted(set(bad)))
    return best if best[0] is not None or best[1] else None


def cspn(f, o, q, lm):
    x = f.defs.get(o[1]) if o[0] == "v" else None
    return x is not None and x.op == "call" and x.callee == "strcspn" and not comb(lin(f, x.ops[0], lm), lin(f, q, lm), -1)


def roots(f, o, seen=None):
    seen = set() if seen is None else seen
    out = set()
    work = [o]
    while work:
        o = work.pop()
        if o[0] != "v" or o in seen:
            continue
        seen.add(o)
        x = f.defs.get(o[1])
        if x is None:
            out.add(o)
        elif x.op == "phi":
            work += [_op(v) for v, _ in x.d["inc"]]
        elif x.op == "select":
            work += list(x.ops[1:])
        elif x.op in ("getelementptr", "bitcast", "freeze"):
            work.append(x.ops[0])
    return out


def leaves(f, o):
    """the values a phi / select can take"""
    out, seen, work = [], set(), [o]
    while work:
        o = work.pop()
        x = f.defs.get(o[1]) if o[0] == "v" else None
        if x is not None and x.op in ("phi", "select"):
            if o in seen:
                continue
            seen.add(o)
            work += [_op(v) for v, _ in x.d["inc"]] if x.op == "phi" else list(x.ops[1:])
        else:
            out.append(o)
    return out


# ------------------------------------------------------------------------------- C04
class Paths(Client):
    """ts = (content of the path buffer, position behind the last separator, end of the last copy, validated strings)

    content: None unknown, "dest" the destination itself, "under" below it, or the reason why not"""

    def __init__(self, R, f, vals):
        self.R, self.f, self.vals = R, f, vals
        self.lm = {}
        self.dest = ("v", f.params[0][0])
        self.buf = self.buffers()
        self.calls = 0
        self.copies = 0

    def buffers(self):
        out = set()
        for x in self.f.calls():
            if x.callee in FS and len(x.ops) > FS[x.callee]:
                out |= self.objects(x.ops[FS[x.callee]])
        return out

    def objects(self, o):
        out, seen, work = set(), set(), [o]
        while work:
            o = work.pop()
            if o[0] == "gep":
                work.append(o[1])
                continue
            if o[0] != "v" or o in seen:
                continue
            seen.add(o)
            x = self.f.defs.get(o[1])
            if x is None:
                continue
            if x.op == "alloca" or (x.op == "call" and x.callee in ("malloc", "calloc", "realloc", "alloca")):
                out.add(x.id)
            elif x.op == "phi":
                work += [_op(v) for v, _ in x.d["inc"]]
            elif x.op in ("getelementptr", "bitcast", "select"):
                work += list(x.ops)
        return out

    def init(self, f):
        return [((None, None, None, frozenset()), {})]

    def strkey(self, o):
        """identity of a string: the object it lives in and its offset"""
        off = 0
        while True:
            if o[0] == "gep":
                off += o[2]
                o = o[1]
                continue
            if o[0] == "v":
                x = self.f.defs.get(o[1])
                if x is not None and x.op == "getelementptr" and not x.d.get("var"):
                    off += x.d["coff"]
                    o = x.ops[0]
                    continue
                if x is not None and x.op == "bitcast":
                    o = x.ops[0]
                    continue
                if x is not None and x.op == "load":
                    c = self.sim.cell(x.ops[0])
                    if c is not None:
                        return ("*", c, off)
            return (o, off)

    def position(self, o):
        """(kind, form): where in the path buffer an address points"""
        l = lin(self.f, o, self.lm)
        for b in self.buf:
            if l.get(("v", b)) == 1:
                return comb(l, {("v", b): 1}, -1)
        return None

    def lenof(self, l):
        """l is strlen of what string?"""
        if len(l) == 1 and list(l.values()) == [1]:
            (k,) = l
            x = self.f.defs.get(k[1]) if isinstance(k, tuple) and k[0] == "v" else None
            if x is not None and x.op == "call" and x.callee in ("strlen", "strnlen"):
                return x.ops[0]
        return None

    def trusted(self, ts, o):
        s = self.f.mod.gstr(o)
        if s is not None:
            return ".." not in s
        return self.strkey(o) in ts[3]

    def bad(self, ts, why):
        return [((why, None, None, ts[3]), None)]

    def step(self, ts, env, x):
        st, sl, end, val = ts
        if x.op == "store":
            p = self.position(x.ops[1])
            if p is not None:
                v = x.ops[0]
                if v == ("i", 0, 8):
                    s = self.lenof(p)
                    if s == self.dest:
                        return [(("dest", None, None, val), None)]
                    if end is not None and st == "under":
                        return None
                    return None
                if v[0] == "i" and v[1] == SLASH:
                    s = self.lenof(p)
                    if (s is not None and s == self.dest) and st in ("dest", "under", None):
                        return [(("under", key(comb(p, {1: 1}, 1)), None, val), None)] if st else self.bad(ts, "the destination was not written first")
                    if end is not None and st == "under":
                        d = comb(p, dict(end[0]), -1)
                        q = self.lenof(d)
                        if q is not None and self.strkey(q) == end[1]:
                            return [(("under", key(comb(p, {1: 1}, 1)), None, val), None)]
                return self.bad(ts, "the path buffer is overwritten at %s" % x.where())
            # other objects: forget what was validated there
            c = self.sim.cell(x.ops[1])
            keep = frozenset(k for k in val if not self.hit(k, c))
            return [((st, sl, end, keep), None)] if keep != val else None
        if x.op == "call":
            c = x.callee
            if c in self.vals:
                h = self.vals[c]
                k = self.strkey(x.ops[0])
                return [((st, sl, end, val), {x.id: h}), ((st, sl, end, val | {k}), None)]
            if c in FS and len(x.ops) > FS[c]:
                self.fs(ts, x)
                return None
            w = self.write(ts, env, x)
            if w is not None:
                return w
            if not pure_call(x) and c not in ("strcspn", "strcpy", "strncpy", "snprintf", "fwrite", "stat", "strcat") and not (c or "").startswith("llvm."):
                if val:
                    return [((st, sl, end, frozenset()), None)]
        return None

    def hit(self, k, c):
        if c is None:
            return True
        if k[0] == "*":
            return k[1][:2] == c[:2] or c[0] == "p"
        return k[0] == ("v", c[1])

    def write(self, ts, env, x):
        st, sl, end, val = ts
        c = x.callee
        if c in ("snprintf", "sprintf", "__snprintf_chk", "__sprintf_chk"):
            p = self.position(x.ops[0])
            if p is None:
                return None
            i = 2 if c == "snprintf" else 1
            fmt, args = self.f.mod.gstr(x.ops[i]), list(x.ops[i + 1:])
            if fmt is None or fmt.replace("%s", "").count("%"):
                return self.bad(ts, "the path is built with a format that is not understood")
            self.copies += 1
            if not p:
                if not fmt.startswith("%s") or args[0] != self.dest:
                    return self.bad(ts, "the path does not begin with the destination")
                fmt, args = fmt[2:], args[1:]
                if not fmt:
                    return [(("dest", None, None, val), None)]
                if fmt[0] != "/":
                    return self.bad(ts, "a name is joined to the destination without a separator")
            elif self.lenof(p) == self.dest and st in ("dest", "under") and fmt[:1] == "/":
                pass
            elif sl is not None and key(p) == sl and st == "under":
                fmt = "/" + fmt
            else:
                return self.bad(ts, "the path buffer is overwritten at %s" % x.where())
            if ".." in fmt or "%s%s" in fmt:
                return self.bad(ts, "two names are joined without a separator")
            for a in args:
                if not self.trusted(ts, a):
                    return self.bad(ts, "a name from the archive was not checked")
            return [(("under", None, None, val), None)]
        if c in ("strcpy", "strncpy", "memcpy", "stpcpy", "strlcpy", "__strcpy_chk", "memmove") or (c or "").startswith(("llvm.memcpy", "llvm.memmove")):
            p = self.position(x.ops[0])
            if p is None:
                if val:
                    cc = self.sim.cell(x.ops[0])
                    keep = frozenset(k for k in val if not self.hit(k, cc))
                    if keep != val:
                        return [((st, sl, end, keep), None)]
                return None
            self.copies += 1
            if not p:
                if x.ops[1] == self.dest:
                    return [(("dest", None, None, val), None)]
                return self.bad(ts, "the path does not begin with the destination")
            if sl is not None and key(p) == sl and st == "under":
                if not self.trusted(ts, x.ops[1]):
                    return self.bad(ts, "a name from the archive was not checked")
                return [(("under", None, (key(p), self.strkey(x.ops[1])), val), None)]
            if self.lenof(p) == self.dest and st in ("dest", "under"):
                s = self.f.mod.gstr(x.ops[1])
                if s is not None and s[:1] == "/" and ".." not in s:
                    return [(("under", key(comb(p, {1: len(s)}, 1)) if s.endswith("/") else None, None, val), None)]
            return self.bad(ts, "a name is not placed behind a separator")
        if c in ("strcat", "strncat"):
            p = self.position(x.ops[0])
            if p is None:
                return None
            self.copies += 1
            s = self.f.mod.gstr(x.ops[1])
            if s is not None and ".." not in s:
                if st == "dest" and s[:1] == "/" or st == "under":
                    return [(("under", "cat" if s.endswith("/") else None, None, val), None)]
            if st == "under" and sl == "cat" and self.trusted(ts, x.ops[1]):
                return [(("under", None, None, val), None)]
            return self.bad(ts, "a name from the archive was not checked" if sl == "cat" else "a name is not placed behind a separator")
        if not pure_call(x) and c not in FS and any(self.position(o) is not None for o in x.ops if o[0] == "v" and self.isptr(o)):
            if c in ("strlen", "fprintf", "printf", "perror", "stat", "lstat", "access", "strcmp", "snprintf", "strcspn", "strchr"):
                return None
            return self.bad(ts, "the path buffer is changed by %s" % c)
        return None

    def isptr(self, o):
        x = self.f.defs.get(o[1])
        return x is not None and x.ty == "ptr"

    def phis(self, ts, env, phis, vals):
        st, sl, end, val = ts
        for p in phis:
            o = vals.get(p.id)
            if o is None or p.ty not in ("ptr", "i64", "i32"):
                continue
            if sl is not None and sl != "cat":
                l = self.position(o) if p.ty == "ptr" else None
                if l is not None and key(l) == sl:
                    q = self.position(("v", p.id))
                    if q is None:
                        q = lin(self.f, ("v", p.id), self.lm)
                    sl = key(q)
        return (st, sl, end, val)

    def position_phi(self, o):
        return None

    def fs(self, ts, x):
        if x.callee in ("fopen", "fopen64"):
            m = self.f.mod.gstr(x.ops[1])
            if m is not None and m[:1] == "r" and "+" not in m:
                return
        if x.callee in ("open", "open64") and x.ops[1][0] == "i" and x.ops[1][1] & 0o3 == 0 and not x.ops[1][1] & 0o100:
            return
        self.calls += 1
        o = x.ops[FS[x.callee]]
        ok, why = False, ts[0] or "it is not the path built from the destination"
        if o == self.dest:
            ok = True
        elif self.position(o) == {}:
            ok = ts[0] in ("dest", "under")
        else:
            why = "it is not the path built from the destination"
        self.R.obligation(ok)
        if not ok:
            self.R.violation("%s|%s|%s" % (self.f.sname, x.callee, why.split(" at ")[0]), x.where(), "containment",
                             "%s can be called on a path outside of the destination: %s" % (x.callee, why), ["path: " + " > ".join(self.sim.path())])


class PathsP(Paths):
    """phi of two positions in the same buffer"""

    def position(self, o):
        p = Paths.position(self, o)
        if p is None and o[0] == "v":
            x = self.f.defs.get(o[1])
            l = lin(self.f, o, self.lm)
            for k, v in l.items():
                y = self.f.defs.get(k[1]) if isinstance(k, tuple) and k[0] == "v" else None
                if v == 1 and y is not None and y.op == "phi" and y.ty == "ptr" and self.objects(k) & self.buf:
                    return l
        return p


def c04(R, tier):
    R.rules.append("In the extraction function (helpers inlined) every call that creates, opens for writing or removes a file system "
                   "object gets the destination itself or the buffer whose content is destination + '/' + names. Property simulation "
                   "over the content of that buffer: each name copied into it is placed behind a separator and passed a check of the "
                   "same string, unchanged since, that rejects '..' components. The check itself is decided by local induction: from "
                   "every position where such a component starts all paths reject, positions advance by one character or to the next "
                   "component, and a name is accepted only at its end.")
    T = Tree()
    root = "muntar_to_path"
    m0 = Module(T.dump("src", passes="function(sroa,early-cse,jump-threading,dce)"))
    vals = {}
    for n, f in m0.defined.items():
        if f.file.endswith("muntar.c") and n != root and len(f.params) == 1:
            v = validator(f)
            if v is not None:
                vals[n] = v
    m = focus(T, "src", [root], set(FS), stop=tuple(vals))
    f = R.need(m.defined.get(root), root)
    good = {}
    for n, (h, probs) in vals.items():
        used = [x for x in f.calls(n)]
        if not used:
            continue
        R.count("name_checks", len(used))
        R.obligation(not probs)
        if probs or h is None:
            for p in probs:
                R.violation("%s|%s" % (n, p), "%s:%d" % (m0.defined[n].file.split("/")[-1], m0.defined[n].line), "name-check", "the check of archive names is not complete: " + p)
        else:
            good[n] = h
            R.sample("%s: rejecting results %s" % (n, h[:2]))
    c = PathsP(R, f, good)
    Sim(f, c).run()
    R.count("file_system_calls", c.calls)
    R.count("path_copies", c.copies)
    R.need(c.calls >= 1, "the file system calls of the extraction")
    # other callers of FS-changing operations reached from the extraction: none besides root
    R.assume.append("no symbolic links below the destination lead outside of it (the extraction creates none)")


# ------------------------------------------------------------------------------- C22
ARROOT = "tcc_tool_ar"
WRITERS = ("fwrite", "fputs", "fputc", "fprintf", "putc")


def fmode(f, x):
    return f.mod.gstr(x.ops[1]) or ""


class Extract(Client):
    """ts = (archive magic, member magic, content read completely, plain names, name objects written since)"""

    def __init__(self, R, f):
        self.R, self.f, self.lm = R, f, {}
        self.argv = ("v", f.params[2][0]) if len(f.params) > 2 else None
        self.created = 0

    def init(self, f):
        return [((False, False, None, frozenset()), {})]

    def obj(self, o):
        """(object, offset) of an address; offset None when unknown"""
        off = 0
        while True:
            if o[0] == "gep":
                off = None if off is None or not o[3] else off + o[2]
                o = o[1]
                continue
            if o[0] == "v":
                x = self.f.defs.get(o[1])
                if x is not None and x.op == "getelementptr":
                    off = None if off is None or x.d.get("var") else off + x.d["coff"]
                    o = x.ops[0]
                    continue
                if x is not None and x.op == "bitcast":
                    o = x.ops[0]
                    continue
                if x is not None and x.op == "phi":
                    bases = set(b for b in roots(self.f, o) if b[0] == "v")
                    al = set(self.allocas(o))
                    if len(al) == 1:
                        return ("v", al.pop()), None
            return o, off

    def allocas(self, o):
        out, seen, work = set(), set(), [o]
        while work:
            o = work.pop()
            if o[0] != "v" or o in seen:
                continue
            seen.add(o)
            x = self.f.defs.get(o[1])
            if x is None:
                out.add(o[1])
            elif x.op == "alloca":
                out.add(x.id)
            elif x.op == "phi":
                work += [_op(v) for v, _ in x.d["inc"]]
            elif x.op in ("getelementptr", "bitcast"):
                work.append(x.ops[0])
            elif x.op == "select":
                work += list(x.ops[1:])
            else:
                out.add(x.id)
        return out

    def fromargs(self, o):
        x = self.f.defs.get(o[1]) if o[0] == "v" else None
        while x is not None and x.op in ("getelementptr", "bitcast"):
            o = x.ops[0]
            x = self.f.defs.get(o[1]) if o[0] == "v" else None
        if x is not None and x.op == "load":
            b, _ = self.obj(x.ops[0])
            return b == self.argv
        if x is not None and x.op in ("phi", "select"):
            return all(p == ("n",) or self.fromargs(p) for p in leaves(self.f, o))
        return False

    def step(self, ts, env, x):
        magic, fmag, full, plain = ts
        c = x.callee if x.op == "call" else None
        if c in ("memcmp", "strncmp") and len(x.ops) == 3 and x.ops[2][0] == "i":
            for a, b in ((0, 1), (1, 0)):
                s = self.f.mod.gstr(x.ops[b])
                if s == "!<arch>\n" and x.ops[2][1] >= 7:
                    return [((True, fmag, full, plain), {x.id: const(0)}), (ts, {x.id: (-INF, INF, True)})]
                if s == "`\n" and x.ops[2][1] == 2 and self.obj(x.ops[a])[1] == 58:
                    return [((magic, True, full, plain), {x.id: const(0)}), (ts, {x.id: (-INF, INF, True)})]
        if c in ("strchr", "strrchr", "memchr", "strpbrk", "contains_any", "strstr"):
            p = self.obj(x.ops[0])
            k = x.ops[1]
            s = chr(k[1]) if k[0] == "i" and 0 < k[1] < 256 else self.f.mod.gstr(k)
            if s is not None and ("/" in s if c in ("strpbrk", "contains_any") else s == "/") and p[1] is not None:
                return [((magic, fmag, full, plain | {p}), {x.id: const(0)}), (ts, {x.id: (-INF, INF, True)})]
        if c == "fread" and len(x.ops) == 4:
            p = self.obj(x.ops[0])
            keep = frozenset(q for q in plain if q[0] != p[0])
            n = comb(lin(self.f, x.ops[1], self.lm), {}, 1)
            if x.ops[1] == ("i", 60, 64) or x.ops[2] == ("i", 60, 64):
                return [((magic, False, None, keep), None)]
            cnt = x.ops[2] if x.ops[1] == ("i", 1, 64) else x.ops[1]
            self.want = cnt
            return [((magic, fmag, (x.id, key(lin(self.f, cnt, self.lm)), p[0], False), keep), None)]
        if x.op == "icmp" and full and not full[3] and x.d["pred"] in ("eq", "ne", "ult", "uge", "slt", "sge"):
            a, b = lin(self.f, x.ops[0], self.lm), lin(self.f, x.ops[1], self.lm)
            one = key({1: 1})
            me = {("v", full[0]): 1}
            other = b if a == me else a if b == me else None
            rd = self.f.defs[full[0]]
            good = one if rd.ops[2] == ("i", 1, 64) else full[1]
            if other is not None and key(other) == good:
                t = const(1 if x.d["pred"] in ("eq", "uge", "sge") else 0)
                e = const(1 - t[0])
                if a == me or x.d["pred"] in ("eq", "ne"):
                    return [((magic, fmag, full[:3] + (True,), plain), {x.id: t}), (ts, {x.id: e})]
        if x.op == "store":
            p = self.obj(x.ops[1])
            if x.ops[0] != ("i", 0, 8):
                keep = frozenset(q for q in plain if q[0] != p[0])
                if keep != plain:
                    return [((magic, fmag, full, keep), None)]
            return None
        if c in ("strcpy", "strncpy", "memcpy", "snprintf", "sprintf", "strcat") or (c or "").startswith("llvm.mem"):
            p = self.obj(x.ops[0])
            src = self.obj(x.ops[1]) if len(x.ops) > 1 else None
            keep = frozenset(q for q in plain if q[0] != p[0])
            if c in ("strcpy", "strncpy") and src in plain:
                keep = keep | {p}
            return [((magic, fmag, full, keep), None)] if keep != plain else None
        if c in ("fopen", "fopen64") and fmode(self.f, x)[:1] in ("w", "a") or c in ("creat", "mkdir", "symlink", "rename"):
            self.open(ts, x)
        if c in ("fwrite",) and len(x.ops) == 4:
            self.data(ts, x)
        return None

    def archive_member(self, o):
        """the stream a value denotes was opened on something else than a command line name"""
        for p in leaves(self.f, o):
            x = self.f.defs.get(p[1]) if p[0] == "v" else None
            if x is not None and x.op == "call" and x.callee in ("fopen", "fopen64") and fmode(self.f, x)[:1] in ("w", "a") and self.member(x):
                return True
        return False

    def member(self, x):
        if self.fromargs(x.ops[0]):
            return False
        p = self.obj(x.ops[0])
        # a local buffer formatted from the library's own name: the temporary file
        if p[1] == 0:
            for y in self.f.insts():
                if y.op == "call" and y.callee in ("snprintf", "sprintf") and self.obj(y.ops[0]) == p:
                    a = [o for o in y.ops[1:] if o[0] == "v" and self.fromargs(o)]
                    if a:
                        return False
        return True

    def open(self, ts, x):
        if not self.member(x):
            return
        self.created += 1
        magic, fmag, full, plain = ts
        p = self.obj(x.ops[0])
        for ok, k, msg in ((p in plain, "plain", "a member's name is used as a file name without having been checked for separators"),
                           (magic, "magic", "a file is created from something that was not checked to be an archive"),
                           (fmag, "fmag", "a file is created from a member header whose end mark was not checked"),
                           (bool(full and full[3]), "full", "a file is created before the member's content was read completely")):
            self.R.obligation(ok)
            if not ok:
                self.R.violation("%s|extract|%s" % (self.f.sname, k), x.where(), "extract-" + k, msg, ["path: " + " > ".join(self.sim.path())])

    def data(self, ts, x):
        if not self.archive_member(x.ops[3]):
            return
        full = ts[2]
        cnt = x.ops[2] if x.ops[1] == ("i", 1, 64) else x.ops[1]
        ok = bool(full and full[3] and key(lin(self.f, cnt, self.lm)) == full[1] and self.obj(x.ops[0])[0] == full[2])
        self.R.obligation(ok)
        if not ok:
            self.R.violation("%s|extract|content" % self.f.sname, x.where(), "extract-content", "the data written to an extracted file is not the content read for this member")


def c22(R, tier):
    R.rules.append("In the library tool (helpers inlined), property simulation: a file named by the archive is created only after the "
                   "archive's magic and the member header's end mark were compared, the content was read completely, and the unchanged "
                   "name was found to contain no separator; what is written to it is exactly the data read for this member. The "
                   "member's size never becomes negative.")
    T = Tree()
    m = focus(T, "src", [ARROOT], set(["fopen", "fwrite", "fread"]), stop=("contains_any",))
    f = R.need(m.defined.get(ARROOT), ARROOT)
    c = Extract(R, f)
    Sim(f, c, flags=False).run()
    R.count("creation_states", c.created)
    R.need(c.created, "the creation of extracted files")
    # size: the allocation and the read use a non-negative number
    class Size(Client):
        def step(s, ts, env, x):
            if x.op == "call" and x.callee in ("tcc_malloc", "malloc") and x.ops:
                l = lin(f, x.ops[0], {})
                for k in bare(l):
                    y = f.defs.get(k[1]) if isinstance(k, tuple) and k[0] == "v" else None
                    if y is not None and y.op == "call" and y.callee in ("atoi", "strtol", "strtoul", "atol"):
                        v = s.sim.val(env, k)
                        s.seen = True
                        ok = v[0] >= 0
                        R.obligation(ok)
                        if not ok:
                            R.violation("%s|extract|size" % f.sname, x.where(), "extract-size", "a member's size taken from the archive can be negative when memory is allocated for it")
            return None
    z = Size()
    Sim(f, z).run()


# ------------------------------------------------------------------------------- C25
class Index(Client):
    """ts = (bytes written per stream as alternative linear forms, choices of integer phis, pending size field)

    The streams are the library and its temporary file."""

    def __init__(self, R, f):
        self.R, self.f, self.lm = R, f, {}
        self.order = {b: i for i, b in enumerate(f.rpo())}
        self.headers = set(s for B in f.blocks if B.i in self.order for s in B.succ if self.order.get(s, 0) <= self.order[B.i])
        self.body = {h: natural(f, h, self.order) for h in self.headers}
        self.streams = {}
        for x in f.calls():
            if x.callee in ("fopen", "fopen64") and fmode(f, x)[:1] == "w":
                self.streams[x.id] = x
        self.want = set()
        for x in f.insts():
            ops = []
            if x.op == "call" and x.callee in ("fwrite", "sprintf", "snprintf"):
                ops = x.ops
            elif x.op == "store" and x.ops[0][0] == "v":
                ops = [x.ops[0]]
            for o in ops:
                self.closure(o)
        self.index = None       # (object roots) of the index array
        self.countword = None
        self.seen = dict(entry=0, offset=0, hsize=0, msize=0, count=0)

    def closure(self, o):
        work = [o]
        seen = set()
        while work:
            o = work.pop()
            if o[0] != "v" or o in seen:
                continue
            seen.add(o)
            x = self.f.defs.get(o[1])
            if x is None or x.ty is None or x.ty == "ptr":
                continue
            if x.op == "phi" and x.blk.i not in self.headers:
                self.want.add(x.id)
                work += [_op(v) for v, _ in x.d["inc"]]
            elif x.op in ("add", "sub", "mul", "sext", "zext", "trunc", "shl", "and", "or", "lshr", "select"):
                work += list(x.ops)

    def init(self, f):
        return [(((), (), None, frozenset()), {})]

    def stream(self, o):
        ids = set()
        for p in leaves(self.f, o):
            if p[0] == "v" and p[1] in self.streams:
                ids.add(p[1])
        return ids.pop() if len(ids) == 1 else None

    def form(self, o, ch, depth=0):
        """linear form with the phi choices of this path substituted"""
        l = dict(lin(self.f, o, self.lm))
        d = dict(ch)
        for _ in range(12):
            hit = [k for k in l if isinstance(k, tuple) and k[0] == "v" and k[1] in d]
            if not hit:
                break
            for k in hit:
                c = l.pop(k)
                for a, b in d[k[1]]:
                    l[a] = l.get(a, 0) + b * c
            l = {k: v for k, v in l.items() if v}
        return self.norm(l)

    def norm(self, l):
        """multiplications by a constant"""
        for _ in range(6):
            for k in list(l):
                x = self.f.defs.get(k[1]) if isinstance(k, tuple) and k[0] == "v" else None
                if x is not None and x.op in ("mul", "shl") and x.ops[1][0] == "i":
                    m = x.ops[1][1] if x.op == "mul" else 1 << x.ops[1][1]
                    c = l.pop(k)
                    for a, b in lin(self.f, x.ops[0], self.lm).items():
                        l[a] = l.get(a, 0) + b * m * c
                    l = {p: v for p, v in l.items() if v}
                    break
            else:
                break
        return l

    def phis(self, ts, env, phis, vals):
        wr, ch, pend, ent = ts
        d = dict(ch)
        upd = {}
        for p in phis:
            if p.id in self.want and p.id in vals:
                upd[p.id] = key(self.form(vals[p.id], ch))
        blk = phis[0].blk.i if phis else None
        if blk in self.headers:
            body = self.body[blk]
            nw = []
            for s, alts in wr:
                out = set()
                for a in alts:
                    for p in phis:
                        if p.ty == "ptr" or p.id not in vals:
                            continue
                        v = self.form(vals[p.id], ch)
                        if key(v) == a:
                            out.add(key({("v", p.id): 1}))
                    if all(not (isinstance(k, tuple) and k[0] == "v" and k[1] in self.f.defs and self.f.defs[k[1]].blk.i in body) for k, _ in a):
                        if bare(dict(a)) or not self.writes(body, s):
                            out.add(a)
                # a constant survives only while nothing is written in the loop
                nw.append((s, frozenset(out)))
            wr = tuple(sorted(nw))
            if pend is not None and (pend[0] != 'content' or self.stale(pend[2], body)):
                pend = None
            d = {k: v for k, v in d.items() if all(not (isinstance(q, tuple) and q[0] == "v" and q[1] in self.f.defs and self.f.defs[q[1]].blk.i in body) for q, _ in v) and self.f.defs[k].blk.i not in body}
        d.update(upd)
        return (wr, tuple(sorted(d.items())), pend, ent)

    def writes(self, body, s):
        return any(x.op == "call" and x.callee == "fwrite" and self.stream(x.ops[3]) == s for b in body for x in self.f.blocks[b].insts)

    def stale(self, k, body):
        return any(isinstance(q, tuple) and q[0] == "v" and q[1] in self.f.defs and self.f.defs[q[1]].blk.i in body for q, _ in k)

    def step(self, ts, env, x):
        wr, ch, pend, ent = ts
        if x.op == "call":
            c = x.callee
            if x.id in self.streams:
                w = dict(wr)
                w[x.id] = frozenset([()])
                return [((tuple(sorted(w.items())), ch, pend, ent), None)]
            if c == "fwrite":
                s = self.stream(x.ops[3])
                if s is None:
                    return None
                a, b = self.form(x.ops[1], ch), self.form(x.ops[2], ch)
                if not bare(a) and a.get(1) is not None:
                    n = {k: v * a[1] for k, v in b.items()}
                elif not bare(b) and b.get(1) is not None:
                    n = {k: v * b[1] for k, v in a.items()}
                else:
                    n = None
                n = None if n is None else {k: v for k, v in self.norm(n).items() if v}
                self.written(ts, x, s, n)
                w = dict(wr)
                w[s] = frozenset() if n is None else frozenset(key(comb(dict(q), n, 1)) for q in w.get(s, ()))
                np = pend
                if n is not None and pend is not None and pend[0] == "field" and self.obj(x.ops[0]) == pend[1]:
                    np = ("content", s, pend[2], None)
                elif pend is not None and pend[0] == "content" and pend[1] == s:
                    np = None if s == self.members_stream() else pend
                return [((tuple(sorted(w.items())), ch, np, ent), None)]
            if c in ("sprintf", "snprintf"):
                i = 1 if c == "sprintf" else 2
                if (self.f.mod.gstr(x.ops[i]) or "") in ("%-10d", "%-10u", "%-10ld", "%-10lu", "%-10zu") and len(x.ops) == i + 2:
                    return [((wr, ch, ("text", self.obj(x.ops[0]), key(self.form(x.ops[i + 1], ch))), ent), None)]
            if (c == "memcpy" or (c or "").startswith("llvm.memcpy")) and pend and pend[0] == "text" and self.obj(x.ops[1]) == pend[1]:
                off = self.offset(x.ops[0])
                if off == 48 and x.ops[2][0] == "i" and x.ops[2][1] == 10:
                    return [((wr, ch, ("field", self.obj(x.ops[0]), pend[2]), ent), None)]
        if x.op == "store" and x.ty is None and self.isindex(x.ops[1]):
            e = self.entry(ts, env, x)
            if e is not None and e not in ent:
                return [((wr, ch, pend, ent | {e}), None)]
        return None

    def obj(self, o):
        while True:
            if o[0] == "gep":
                o = o[1]
                continue
            if o[0] == "v":
                x = self.f.defs.get(o[1])
                if x is not None and x.op in ("getelementptr", "bitcast"):
                    o = x.ops[0]
                    continue
            return o

    def offset(self, o):
        l = lin(self.f, o, self.lm)
        return l.get(1, 0)

    def members_stream(self):
        for s, x in self.streams.items():
            if "+" in fmode(self.f, x):
                return s
        return None

    def lib_stream(self):
        """the stream that gets the archive magic"""
        for x in self.f.calls("fwrite"):
            if self.f.mod.gstr(x.ops[0]) == "!<arch>\n":
                return self.stream(x.ops[3])
        return None

    def isindex(self, o):
        if self.index is None:
            self.index = set()
            # the array written to the library right behind the index header: i32 elements
            for x in self.f.insts():
                if x.op == "call" and x.callee == "fwrite" and self.stream(x.ops[3]) == self.lib_stream():
                    for r in heaproots(self.f, x.ops[0]):
                        for y in self.f.insts():
                            if y.op == "store" and r in heaproots(self.f, y.ops[1]) and width32(self.f, y.ops[0]):
                                self.index |= set(heaproots(self.f, x.ops[0]))
        return bool(set(heaproots(self.f, o)) & self.index)

    def entry(self, ts, env, x):
        wr, ch, pend, ent = ts
        v = x.ops[0]
        sw = swapped(self.f, v)
        if sw is None:
            # while members are collected: the position in the member block
            w = dict(wr).get(self.members_stream())
            if w is None:
                return
            self.seen["entry"] += 1
            ok = key(self.form(v, ch)) in w
            self.R.obligation(ok)
            if not ok:
                self.R.violation("%s|index|entry" % self.f.sname, x.where(), "index-entry", "the position recorded for a symbol is not the number of bytes written before its member", ["path: " + " > ".join(self.sim.path())])
            return
        l = self.form(sw, ch)
        # load of an entry of the same array
        ld = [k for k in l if isinstance(k, tuple) and k[0] == "v" and (self.f.defs.get(k[1]) or x).op == "load" and self.isindex(self.f.defs[k[1]].ops[0])]
        if ld:
            d = dict(l)
            if d.pop(ld[0]) == 1:
                self.at = x
                return key(d)
        else:
            self.countword = key(l)
            self.seen["count"] += 1

    def written(self, ts, x, s, n):
        wr, ch, pend, ent = ts
        w = dict(wr)
        if pend is not None and pend[0] == "content" and pend[1] == s and s == self.members_stream():
            self.seen["msize"] += 1
            ok = n is not None and key(n) == pend[2]
            self.R.obligation(ok)
            if not ok:
                self.R.violation("%s|member|size" % self.f.sname, x.where(), "member-size", "the size recorded in a member's header is not the size of the content written behind it")
        if s != self.lib_stream():
            return
        # the member block: its data was read back from the temporary file
        src = self.obj(x.ops[0])
        if self.countword is not None and self.index and set(heaproots(self.f, x.ops[0])) & self.index:
            ok = n is not None and key(n) == key(comb({k: 4 * v for k, v in self.resub(dict(self.countword), ch).items()}, {1: 4}, 1))
            self.R.obligation(ok)
            if not ok:
                self.R.violation("%s|index|count" % self.f.sname, x.where(), "index-count", "the number of entries written is not the number recorded in front of them")
        if any(y.op == "call" and y.callee == "fread" and self.obj(y.ops[0]) == src and self.stream(y.ops[3]) == self.members_stream() for y in self.f.insts()):
            before = w.get(s, frozenset())
            for off in sorted(ent):
                o2 = key(self.resub(dict(off), ch))
                self.seen["offset"] += 1
                ok = o2 in before
                self.R.obligation(ok)
                if not ok:
                    self.R.violation("%s|index|offset" % self.f.sname, self.at.where(), "index-offset", "the offset added to the index entries is not the number of bytes written before the members", ["path: " + " > ".join(self.sim.path())])
            if pend is not None and pend[0] == "content" and pend[1] == s:
                self.seen["hsize"] += 1
                want = comb(dict(pend[2]), {1: 68}, 1)
                ok = key(want) in before
                self.R.obligation(ok)
                if not ok:
                    self.R.violation("%s|index|size" % self.f.sname, x.where(), "index-size", "the size recorded in the index header is not the size of the index that was written", ["path: " + " > ".join(self.sim.path())])

    def resub(self, l, ch):
        d = dict(ch)
        for _ in range(12):
            hit = [k for k in l if isinstance(k, tuple) and k[0] == "v" and k[1] in d]
            if not hit:
                break
            for k in hit:
                c = l.pop(k)
                for a, b in d[k[1]]:
                    l[a] = l.get(a, 0) + b * c
            l = {k: v for k, v in l.items() if v}
        return self.norm(l)


def width32(f, o):
    if o[0] == "i":
        return o[2] == 32
    x = f.defs.get(o[1]) if o[0] == "v" else None
    return x is not None and x.ty == "i32"


def heaproots(f, o):
    """allocation calls an address can come from"""
    out, seen, work = set(), set(), [o]
    while work:
        o = work.pop()
        if o[0] == "gep":
            work.append(o[1])
            continue
        if o[0] != "v" or o in seen:
            continue
        seen.add(o)
        x = f.defs.get(o[1])
        if x is None:
            continue
        if x.op in ("getelementptr", "bitcast"):
            work.append(x.ops[0])
        elif x.op == "phi":
            work += [_op(v) for v, _ in x.d["inc"]]
        elif x.op == "select":
            work += list(x.ops[1:])
        elif x.op == "call" and x.callee and x.callee.endswith(("alloc", "realloc")):
            out.add(x.id)
    return out


def swapped(f, o):
    """the value whose bytes are reversed in o (32 bit), or None"""
    from checks.gz import provenance
    while o[0] == "v":
        x = f.defs.get(o[1])
        if x is not None and x.op in ("trunc", "zext", "sext", "freeze"):
            o = x.ops[0]
            continue
        break
    if o[0] != "v":
        return None
    x = f.defs.get(o[1])
    if x is not None and x.op == "call" and x.callee in ("llvm.bswap.i32", "htonl"):
        return x.ops[0]
    if x is None or x.op not in ("add", "or"):
        return None
    # the value all masks / shifts start from
    cand, work, seen = [], [o], set()
    while work:
        p = work.pop()
        if p[0] != "v" or p in seen:
            continue
        seen.add(p)
        y = f.defs.get(p[1])
        if y is not None and y.op in ("add", "or", "shl", "lshr", "and", "mul", "ashr", "trunc", "zext", "sext"):
            if y.op == "add" and y.ops[1][0] != "i" and not any(q[0] == "v" and (f.defs.get(q[1]) or y).op in ("shl", "lshr", "and", "add", "or", "ashr") for q in y.ops):
                cand.append(p)
                continue
            work += [q for q in y.ops if q[0] == "v"]
        else:
            cand.append(p)
    for c in set(cand):
        memo = {}
        b = provenance(f, o, lambda z: "s" if ("v", z.id) == c else None, memo)
        if b and b[:32] == [("s", k + 8 * s) for s in (3, 2, 1, 0) for k in range(8)]:
            return c
    return None


def natural(f, h, order):
    """blocks of the loop with header h"""
    body = {h}
    work = [B.i for B in f.blocks if B.i in order and h in B.succ and order[B.i] >= order[h]]
    while work:
        b = work.pop()
        if b in body:
            continue
        body.add(b)
        work += f.blocks[b].pred
    return body


def symbols(R, f):
    """which symbols are entered: defined ones, global or weak, of type none, object or function"""
    stores = [x for x in f.calls("strcpy") if heaproots(f, x.ops[0])]
    info = [x for x in f.insts() if x.op == "load" and x.ty == "i8" and lin(f, x.ops[0], {}).get(1) == 4 and cmpset(f, x)]
    order = {q: i for i, q in enumerate(f.rpo())}
    if stores:
        first = min(order.get(s.blk.i, 0) for s in stores)
        info = sorted([x for x in info if order.get(x.blk.i, 1 << 30) <= first], key=lambda x: order[x.blk.i])[-1:]
    if len(info) != 1 or not stores:
        R.notes.append("the symbol filter was not recognised; its set of symbol kinds is not decided")
        return
    x = info[0]
    got = set()
    for v in range(256):
        work, seen = [x.blk.i], set()
        hit = False
        while work and not hit:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            B = f.blocks[b]
            if any(s.blk.i == b for s in stores):
                hit = True
                break
            t = B.insts[-1]
            nxt = list(B.succ)
            if t.op == "br" and t.ops:
                r = evalcmp(f, t.ops[0], x, v)
                if r is not None:
                    nxt = [t.d["succ"][0 if r else 1]]
            elif t.op == "switch":
                w = evalv(f, t.ops[0], x, v)
                if w is not None:
                    nxt = [t.d["succ"][1 + t.d["cases"].index(w)] if w in t.d["cases"] else t.d["succ"][0]]
            work += [s for s in nxt if order.get(s, 0) > order.get(b, 0)]
        if hit:
            got.add(v)
    want = {0x10, 0x11, 0x12, 0x20, 0x21, 0x22}
    R.count("symbol_kinds_entered", len(got & want))
    for k in sorted(want):
        R.obligation(k in got)
        if k not in got:
            R.violation("%s|symbols|%x" % (f.sname, k), x.where(), "symbol-kinds", "defined symbols of binding %d and type %d are not entered in the index" % (k >> 4, k & 15))
    local = [k for k in got if k >> 4 == 0]
    R.obligation(not local)
    if local:
        R.violation("%s|symbols|local" % f.sname, x.where(), "symbol-kinds", "local symbols are entered in the index")


def cmpset(f, x):
    return [u for u in f.uses.get(x.id, []) for w in ([u] if u.op in ("icmp", "switch") else f.uses.get(u.id, []) if u.op in ("zext", "sext", "and", "lshr") else []) if w.op in ("icmp", "switch", "and", "lshr", "or")]


def evalv(f, o, x, v, n=0):
    if o[0] == "i":
        return o[1]
    if o[0] != "v" or n > 20:
        return None
    if o[1] == x.id:
        return v
    y = f.defs.get(o[1])
    if y is None:
        return None
    if y.op == "zext":
        a = evalv(f, y.ops[0], x, v, n + 1)
        return a
    if y.op in ("and", "or", "lshr", "ashr", "add", "sub", "shl"):
        a, b = (evalv(f, q, x, v, n + 1) for q in y.ops)
        if a is None or b is None:
            return None
        return {"and": a & b, "or": a | b, "lshr": a >> b, "ashr": a >> b, "add": a + b, "sub": a - b, "shl": a << b}[y.op] & 0xffffffff
    if y.op == "trunc":
        return evalv(f, y.ops[0], x, v, n + 1)
    if y.op in ("icmp", "xor"):
        return evalcmp(f, o, x, v, n + 1)
    return None


def evalcmp(f, o, x, v, n=0):
    y = f.defs.get(o[1]) if o[0] == "v" else None
    if y is None:
        return None
    if y.op == "xor":
        r = evalcmp(f, y.ops[0], x, v, n + 1)
        return None if r is None else not r
    if y.op in ("and", "or") and y.ty == "i1":
        a, b = (evalcmp(f, q, x, v, n + 1) for q in y.ops)
        if y.op == "and":
            return False if a is False or b is False else (True if a and b else None)
        return True if a or b else (False if a is False and b is False else None)
    if y.op != "icmp":
        return None
    a, b = (evalv(f, q, x, v, n + 1) for q in y.ops)
    if a is None or b is None:
        return None
    if a > 0x7fffffff:
        a -= 1 << 32
    p = y.d["pred"]
    return {"eq": a == b, "ne": a != b, "gt": a > b, "ge": a >= b, "lt": a < b, "le": a <= b}[p if p in ("eq", "ne") else p[1:]]


def c25(R, tier):
    R.rules.append("In the library tool (helpers inlined), linear accounting of the bytes written to the library and to its temporary "
                   "file, path by path and inductively over the member loop: the position recorded for a symbol is the number of "
                   "bytes of the member block before its member; the offset added to every entry is the number of bytes of the "
                   "library before the member block; the sizes recorded in the index header and in the member headers are the "
                   "numbers of bytes written behind them; entries are stored with reversed bytes; every defined global or weak "
                   "symbol that is untyped, an object or a function is entered, no local one.")
    T = Tree()
    m = focus(T, "src", [ARROOT], set(["fopen", "fwrite", "fread"]), stop=("contains_any",))
    f = R.need(m.defined.get(ARROOT), ARROOT)
    c = Index(R, f)
    R.need(c.lib_stream() is not None and c.members_stream() is not None, "the library and its temporary file")
    Sim(f, c, flags=False).run()
    for k, v in c.seen.items():
        R.count(k + "_states", v)
    for k, msg in (("entry", "positions recorded for symbols"), ("offset", "index entries written"), ("hsize", "the size of the index"), ("msize", "the size of a member")):
        if not c.seen[k]:
            R.notes.append("not decided: " + msg)
    symbols(R, f)
