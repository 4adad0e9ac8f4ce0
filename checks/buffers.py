"""C10: size-limited text/data operations stay inside the destination object."""
from sa.build import Tree
from sa.ir import Module, _op, opvals
from sa.esp import Sim, Client, INF, TOP, meet, tyrange, const
from sa.focus import PLAIN

# callee -> (destination operand, size operand, result) ; result "count": -1..size, "need": -1..any
WRITERS = {
    "snprintf": (0, 1, "need"), "vsnprintf": (0, 1, "need"), "strncpy": (0, 2, None), "fgets": (0, 1, None),
    "getcwd": (0, 1, None), "readlink": (1, 2, "count"), "read": (1, 2, "count"), "pread": (1, 2, "count"),
    "strncat": (0, 2, None), "memcpy": (0, 2, None), "memmove": (0, 2, None), "memset": (0, 2, None),
    "pstrcpy": (0, 1, None), "pstrcat": (0, 1, None), "tcc_basename": None,
    "cwk_path_join": (2, 3, "need"), "cwk_path_normalize": (1, 2, "need"), "cwk_path_get_absolute": (2, 3, "need"),
    "cwk_path_get_relative": (2, 3, "need"), "cwk_path_get_intersection": None,
    "llvm.memcpy.p0.p0.i64": (0, 2, None), "llvm.memset.p0.i64": (0, 2, None), "llvm.memmove.p0.p0.i64": (0, 2, None),
}
# size operand counts elements: fread(buf, size, n)
READERS = {"write": (1, 2), "memcmp": None}
DERIVE = {"snprintf", "vsnprintf", "readlink", "read", "pread", "fread", "getline", "sprintf", "vsprintf",
          "cwk_path_join", "cwk_path_normalize", "cwk_path_get_absolute"}


def cap(sim, f, env, o, depth=0):
    """bytes from the address to the end of the object (interval-safe lower bound), or None when unknown;
    returns (bytes, description)"""
    lo = hi = 0
    fieldcap = None
    var = False
    while depth < 40:
        depth += 1
        if o[0] == "gep":
            if not o[3]:
                return None
            r = field_end(o[4], o[2])
            if r is not None and fieldcap is None:
                fieldcap = r - hi
            hi += o[2]
            o = o[1]
            continue
        if o[0] == "g":
            g = f.mod.globals.get(o[1])
            if g is None or g.get("decl"):
                return None
            n = g["size"] - hi
            return (n if fieldcap is None else min(n, fieldcap), "global " + (g.get("name") or o[1]))
        if o[0] != "v":
            return None
        x = f.defs.get(o[1])
        if x is None:
            return None if fieldcap is None else (fieldcap, "field")
        if x.op in ("bitcast", "freeze"):
            o = x.ops[0]
            continue
        if x.op == "getelementptr":
            if x.d.get("bad"):
                return None
            vhi = 0
            for s, v in x.d.get("var", []):
                iv = sim.val(env, _op(v))
                if iv[1] >= 1 << 30 or s < 0:
                    return None
                vhi += s * iv[1]
            r = field_end([tuple(p) for p in x.d.get("path", [])], x.d["coff"])
            if r is not None and fieldcap is None:
                fieldcap = r - hi - vhi
            hi += x.d["coff"] + vhi
            o = x.ops[0]
            continue
        if x.op == "alloca":
            if "size" not in x.d:
                return None
            n = x.d["size"] - hi
            return (n if fieldcap is None else min(n, fieldcap), "local " + x.nm)
        if x.op == "call" and x.callee in ("malloc", "tcc_malloc", "tcc_mallocz") and x.ops[0][0] == "i":
            n = x.ops[0][1] - hi
            return (n if fieldcap is None else min(n, fieldcap), "heap block")
        return None if fieldcap is None else (fieldcap, "field")
    return None


def field_end(path, coff):
    """offset (relative to the gep's base) where the innermost addressed array field ends; None for
    flexible / non-array access"""
    off = 0
    end = None
    for p in path:
        if p[0] == "s":
            off += p[3]
            end = off + p[4] if p[4] > 8 else None
        else:
            ix = _op(p[3]) if isinstance(p[3], (list, tuple)) else None
            if p[2] > 8 and p[2] * p[1] > 8:
                end = off + p[1] * p[2]
            if ix and ix[0] == "i":
                off += p[1] * ix[1]
    # only whole objects addressed: a scalar/struct field is left to the enclosing object
    if path and path[-1][0] == "s" and path[-1][4] <= 8:
        return None
    return end


def derived(f):
    """values computed from the result of a formatting / reading call"""
    out = set()
    work = [x.id for x in f.calls() if x.callee in DERIVE and x.ty]
    while work:
        v = work.pop()
        if v in out:
            continue
        out.add(v)
        for u in f.uses.get(v, []):
            if u.op in ("add", "sub", "zext", "sext", "trunc", "phi", "select", "freeze"):
                work.append(u.id)
    return out


def strip(f, o):
    while o[0] == "v":
        x = f.defs.get(o[1])
        if x is None or x.op not in ("zext", "sext", "trunc", "freeze", "bitcast"):
            break
        o = x.ops[0]
    return o


def span(f, o, seen=None):
    """the size is computed from a distance between two positions (or one inside a buffer that was read): not bounded by this domain"""
    seen = set() if seen is None else seen
    work = [o]
    while work:
        o = work.pop()
        if o[0] == "ce":
            return True
        if o[0] != "v" or o[1] in seen:
            continue
        seen.add(o[1])
        x = f.defs.get(o[1])
        if x is None:
            continue
        if x.op == "ptrtoint":
            return True
        if x.op in ("add", "sub", "mul", "zext", "sext", "trunc", "phi", "select", "freeze", "shl"):
            work += [p for p in (list(x.ops) if x.op != "phi" else [_op(v) for v, _ in x.d["inc"]])]
    return False


def wrappers(m):
    """functions that hand a (pointer, size) pair of their parameters to a bounded writer"""
    W = dict((k, v) for k, v in WRITERS.items() if v)
    ch = True
    while ch:
        ch = False
        for f in m.defined.values():
            if f.name in W:
                continue
            for x in f.calls():
                w = W.get(x.callee)
                if not w or w[1] >= len(x.ops):
                    continue
                d, s = strip(f, x.ops[w[0]]), strip(f, x.ops[w[1]])
                if d[0] == s[0] == "v" and d[1] in f.pidx and s[1] in f.pidx:
                    W[f.name] = (f.pidx[d[1]], f.pidx[s[1]], None)
                    ch = True
                    break
    return W


class Buf(Client):
    def __init__(self, R, f, deriv, W, bound):
        self.R, self.f, self.der, self.W, self.bound = R, f, deriv, W, bound
        self.seen = {}

        self.calls = {}     # size arguments handed to wrappers

    def init(self, f):
        env = {}
        w = self.W.get(f.name)
        b = self.bound.get(f.name)
        if w and b is not None:
            p = f.params[w[1]]
            env[p[0]] = meet(tyrange(p[1]), (0, max(b, 0), False))
        return [("s", env)]

    def rep(self, x, ok, what):
        k = (x.id, what.split(":")[0])
        old = self.seen.get(k)
        if old is None or (old[0] and not ok):
            self.seen[k] = (ok, x, what, None if ok else self.sim.path())

    def step(self, ts, env, x):
        sim, f = self.sim, self.f
        if x.op == "call":
            w = self.W.get(x.callee)
            if w and w[1] < len(x.ops):
                c = cap(sim, f, env, x.ops[w[0]])
                n = sim.val(env, x.ops[w[1]])
                if x.callee in f.mod.defined:
                    self.calls[x.callee] = max(self.calls.get(x.callee, -INF), n[1])
                if c is not None and (n[1] < 1 << 30 or not span(f, x.ops[w[1]])):
                    self.rep(x, n[1] <= c[0], "size: %s may write %s bytes into %s with room for %d" % (x.callee, n[1] if n[1] < 1 << 30 else "any number of", c[1], c[0]))
                if w[2] == "count" and n[1] < INF and x.ty:
                    return [(ts, {x.id: (-1, max(n[1], -1), False)})]
            if x.callee == "strlen":
                c = cap(sim, f, env, x.ops[0])
                # strings of 2 GB and more are outside of the model
                return [(ts, {x.id: (0, c[0] - 1 if c is not None and c[0] > 0 else (1 << 31) - 1, False)})]
            if x.callee == "write" and len(x.ops) >= 3:
                c = cap(sim, f, env, x.ops[1])
                n = sim.val(env, x.ops[2])
                if c is not None and x.ops[2][0] == "v" and x.ops[2][1] in self.der:
                    self.rep(x, n[0] >= 0 and n[1] <= c[0], "length: write reads up to %s bytes of %s, which has %d" % (n[1], c[1], c[0]))
            if x.callee == "fread":
                c = cap(sim, f, env, x.ops[0])
                a, b = sim.val(env, x.ops[1]), sim.val(env, x.ops[2])
                if c is not None and a[1] < 1 << 31 and b[1] < 1 << 31:
                    self.rep(x, a[1] * b[1] <= c[0], "size: fread may write %d bytes into %s with room for %d" % (a[1] * b[1], c[1], c[0]))
        elif x.op in ("store", "load"):
            a = x.ops[1] if x.op == "store" else x.ops[0]
            if a[0] == "v":
                g = f.defs.get(a[1])
                if g is not None and g.op == "getelementptr" and g.d.get("var"):
                    vs = [(s, _op(v)) for s, v in g.d["var"]]
                    if any(v[0] == "v" and v[1] in self.der for s, v in vs):
                        base = f.defs.get(g.ops[0][1]) if g.ops[0][0] == "v" else None
                        if base is not None and base.op == "alloca" and "size" in base.d:
                            lo = hi = g.d["coff"]
                            for s, v in vs:
                                iv = sim.val(env, v)
                                lo += s * iv[0]
                                hi += s * iv[1]
                            ok = lo >= 0 and hi + x.d.get("size", 1) <= base.d["size"]
                            self.rep(x, ok, "index: offset %s..%s of %s, which has %d bytes" % (lo, hi, base.nm, base.d["size"]))
        return None


def c10(R, tier):
    R.rules.append("Interval analysis with branch refinement: at every call that writes at most n bytes into a destination of known "
                   "size (local array, global, array field, constant-size heap block) n is at most the room left behind the "
                   "destination address; every array position computed from the result of a formatting or reading call "
                   "(whose result may be -1 or exceed the buffer) lies inside the array, and no more than the array is written out.")
    T = Tree()
    for sel in ("src", "tcc"):
        m = Module(T.dump(sel, passes=PLAIN))
        W = wrappers(m)
        R.count("bounded_writers", len(W))
        fs = [f for f in m.defined.values() if not (sel == "tcc" and "/src/" in "/" + f.file)
              and any(x.callee in W or x.callee in ("fread", "write") for x in f.calls())]
        # wrappers last, with the largest size any caller passes (they must keep it when they recurse)
        fs.sort(key=lambda f: f.name in W)
        bound = {}
        for f in fs:
            cl = Buf(R, f, derived(f), W, bound)
            Sim(f, cl, flags=False).run()
            for k, v in cl.calls.items():
                if k == f.name and k in bound:
                    if v > bound[k]:
                        R.notes.append("%s calls itself with a larger size" % f.sname)
                elif not (f.name in W and k in bound and v <= bound[k]):
                    bound[k] = max(bound.get(k, -INF), v)
            for (i, k), (ok, x, what, path) in sorted(cl.seen.items()):
                R.obligation(ok)
                R.count(k + "_checks")
                R.sample("%s %s in %s at %s" % (k, x.callee or x.op, f.sname, x.where()), 40)
                if not ok:
                    R.violation("%s|%s|%s" % (f.sname, x.callee or x.op, k), x.where(), "buffer-" + k, "in %s: %s" % (f.sname, what.split(": ", 1)[1]),
                                ["path: " + " > ".join(path or [])])
    R.floor("size_checks", 40, "bounded writes into known objects")
    R.floor("index_checks", 2, "positions derived from formatting results")
