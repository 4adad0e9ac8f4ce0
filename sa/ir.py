"""In-memory form of the resolved program dumped by tool/irx."""
import re

TERMS = ("br", "switch", "ret", "unreachable", "indirectbr")


class Inst:
    __slots__ = ("id", "op", "ty", "nm", "loc", "ops", "d", "blk", "fn", "idx")

    def __init__(self, d, blk, fn, idx):
        self.d = d
        self.id = d["id"]
        self.op = d["op"]
        self.ty = d.get("ty")
        self.nm = d.get("nm", "")
        self.loc = d.get("loc")
        self.ops = [tuple(o) if not (o and o[0] in ("gep", "ce")) else _cx(o) for o in d.get("ops", [])]
        self.blk = blk
        self.fn = fn
        self.idx = idx

    @property
    def callee(self):
        return self.d.get("callee")

    def where(self):
        if self.loc:
            return "%s:%d" % (short(self.loc[0][1]), self.loc[0][0])
        return "%s:?" % (short(self.fn.file))

    def trail(self):
        """file:line (in f) <- inlined call chain"""
        if not self.loc:
            return self.where()
        return " <- ".join("%s:%d (%s)" % (short(l[1]), l[0], l[2]) for l in self.loc)

    def srcfn(self):
        return self.loc[0][2] if self.loc else self.fn.name

    def __repr__(self):
        return "%%%d=%s %s" % (self.id, self.op, self.where())


def _cx(o):
    if o[0] == "gep":
        return ("gep", _op(o[1]), o[2].get("coff", 0), len(o[2].get("var", [])) == 0 and not o[2].get("bad"), _freeze(o[2].get("path", [])))
    return ("ce", o[1]) + tuple(_op(x) for x in o[2:])


def _freeze(x):
    if isinstance(x, list):
        return tuple(_freeze(i) for i in x)
    return x


def _op(o):
    if o and o[0] in ("gep", "ce"):
        return _cx(o)
    return tuple(o)


def short(p):
    return (p or "?").split("/")[-1]


class Block:
    __slots__ = ("i", "name", "insts", "succ", "pred", "fn")


class Func:
    def __init__(self, name, d, mod):
        self.name = name
        self.mod = mod
        self.decl = d["decl"]
        self.internal = d.get("internal")
        self.vararg = d.get("vararg")
        self.noreturn = d.get("noreturn")
        self.ret = d.get("ret")
        self.addrtaken = d.get("addrtaken")
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.sname = d.get("sname", name)
        self.ditypes = d.get("ditypes", [])
        self.params = [tuple(p) for p in d.get("params", [])]
        self.blocks = []
        self.defs = {}
        for i, b in enumerate(d.get("blocks", [])):
            B = Block()
            B.i, B.name, B.fn = i, b.get("name", ""), self
            B.insts = [Inst(x, B, self, k) for k, x in enumerate(b["insts"])]
            B.pred = []
            self.blocks.append(B)
            for x in B.insts:
                self.defs[x.id] = x
        for B in self.blocks:
            t = B.insts[-1] if B.insts else None
            B.succ = list(t.d.get("succ", [])) if t is not None else []
            for s in B.succ:
                if B.i not in self.blocks[s].pred:
                    self.blocks[s].pred.append(B.i)
        self._uses = None
        self.pidx = {p[0]: k for k, p in enumerate(self.params)}

    def insts(self):
        for B in self.blocks:
            for x in B.insts:
                yield x

    @property
    def uses(self):
        if self._uses is None:
            u = {}
            for x in self.insts():
                for o in operands(x):
                    for v in opvals(o):
                        u.setdefault(v, []).append(x)
            self._uses = u
        return self._uses

    def calls(self, name=None):
        for x in self.insts():
            if x.op == "call" and (name is None or x.callee == name):
                yield x

    def rpo(self):
        seen, out = set(), []
        stack = [(0, iter(self.blocks[0].succ))] if self.blocks else []
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.blocks[s].succ)))
                    break
            else:
                out.append(b)
                stack.pop()
        return out[::-1]


def operands(x):
    r = list(x.ops)
    if x.op == "phi":
        r += [_op(v) for v, _ in x.d["inc"]]
    if x.op == "getelementptr":
        r += [_op(v) for _, v in x.d.get("var", [])]
    if x.op == "call" and "fptr" in x.d:
        r.append(_op(x.d["fptr"]))
    return r


def opvals(o):
    if not o:
        return
    if o[0] == "v":
        yield o[1]
    elif o[0] == "gep":
        yield from opvals(o[1])
    elif o[0] == "ce":
        for y in o[2:]:
            yield from opvals(y)


def opglobals(o):
    if not o:
        return
    if o[0] == "g":
        yield o[1]
    elif o[0] == "gep":
        yield from opglobals(o[1])
    elif o[0] == "ce":
        for y in o[2:]:
            yield from opglobals(y)


class Module:
    def __init__(self, d):
        self.structs = d["structs"]
        self.globals = d["globals"]
        self.enums = d.get("enums", {})
        self.funcs = {n: Func(n, f, self) for n, f in d["functions"].items()}
        self.defined = {n: f for n, f in self.funcs.items() if not f.decl}

    def field_at(self, sname, off):
        """name of the field of struct `sname` at byte offset off (None if unknown)"""
        s = self.structs.get(sname)
        if not s:
            return None
        for n, o, z, t in s["fields"]:
            if o <= off < o + max(z, 1):
                return n
        return None

    def field_off(self, sname, field):
        for n, o, z, t in self.structs.get(sname, {"fields": []})["fields"]:
            if n == field:
                return o
        for e in self.structs.get(sname, {}).get("anon", ()):
            if e[0] == field:
                return e[1]
        return None

    def bitfield(self, sname, field):
        """(first bit, number of bits) of a bit-field"""
        for e in self.structs.get(sname, {}).get("anon", ()):
            if e[0] == field:
                return e[3], e[4]
        return None

    def gstr(self, o):
        """constant C string an operand points to, or None"""
        off = 0
        if o and o[0] == "gep":
            off = o[2]
            o = o[1]
        if o and o[0] == "g":
            g = self.globals.get(o[1])
            if g is None:
                return None
            if "str" in g:
                b = bytes.fromhex(g["str"])
                e = b.find(b"\0", off)
                return b[off:e if e >= 0 else None].decode("latin1")
            if g.get("const") and g.get("size", 0) == 1 and not g.get("init"):
                return ""
        return None


def irname(n):
    """clang struct type name -> source name"""
    return re.sub(r"^(struct|union)\.", "", n)
