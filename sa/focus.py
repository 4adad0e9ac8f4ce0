"""A function with its helpers inlined: the functions that (transitively) perform one of the
relevant operations, and small file-local helpers, so that extracting a helper changes nothing."""
from .ir import Module
from .build import Tree

PASSES = "always-inline,globaldce,function(sroa,early-cse,jump-threading,dce)"
PLAIN = "function(sroa,early-cse,jump-threading,dce)"


def focus(T, sel, roots, relevant, small=120, stop=(), passes=PASSES, force=None):
    """module where every function reaching a relevant callee is inlined into `roots`"""
    m = Module(T.dump(sel, passes=PLAIN))
    files = set(m.defined[r].file for r in roots if r in m.defined)
    reach = set()
    ch = True
    isrel = relevant if callable(relevant) else (lambda x: x.callee in relevant)
    while ch:
        ch = False
        for f in m.defined.values():
            if f.name in reach:
                continue
            for x in f.calls():
                if isrel(x) or x.callee in reach:
                    reach.add(f.name)
                    ch = True
                    break
    noinl = []
    for f in m.defined.values():
        if f.name in roots:
            continue
        if f.name in stop:
            noinl.append(f.name)
            continue
        if f.name in reach or (force and force(f)):
            continue
        if f.internal and f.file in files and sum(1 for _ in f.insts()) <= small:
            continue
        noinl.append(f.name)
    return Module(T.dump(sel, passes=passes, inline=True, keep=tuple(roots), noinline=tuple(noinl)))


def bits(f, o, base, memo=None, w=None):
    """bit provenance of a value: list (lsb first) of 0, 1, ("s", k) = bit k of the source, or None.
    base(x) tells whether instruction x reads the source value"""
    memo = {} if memo is None else memo
    if o[0] == "i":
        return [(o[1] >> k) & 1 for k in range(o[2])]
    if o[0] != "v":
        return None
    if o[1] in memo:
        return memo[o[1]]
    memo[o[1]] = None
    x = f.defs.get(o[1])
    if x is None or not x.ty or x.ty[0] != "i":
        return None
    n = int(x.ty[1:])
    r = None
    if base(x):
        r = [("s", k) for k in range(n)]
    elif x.op in ("zext", "sext", "trunc", "freeze"):
        a = bits(f, x.ops[0], base, memo)
        if a is not None:
            r = a[:n] + [(a[-1] if x.op == "sext" else 0)] * (n - len(a))
    elif x.op in ("and", "or", "xor"):
        a, b = bits(f, x.ops[0], base, memo), bits(f, x.ops[1], base, memo)
        if a is not None or b is not None:
            a = a or [None] * n
            b = b or [None] * n
            r = []
            for p, q in zip(a, b):
                if x.op == "and":
                    r.append(0 if p == 0 or q == 0 else q if p == 1 else p if q == 1 else p if p == q else None)
                elif x.op == "or":
                    r.append(1 if p == 1 or q == 1 else q if p == 0 else p if q == 0 else p if p == q else None)
                else:
                    r.append(p if q == 0 else q if p == 0 else (p ^ q if p in (0, 1) and q in (0, 1) else None))
    elif x.op in ("shl", "lshr", "ashr") and x.ops[1][0] == "i":
        a, c = bits(f, x.ops[0], base, memo), x.ops[1][1]
        if a is not None:
            if x.op == "shl":
                r = ([0] * c + a)[:n]
            else:
                r = a[c:] + [(a[-1] if x.op == "ashr" else 0)] * min(c, n)
    elif x.op in ("sdiv", "udiv", "urem") and x.ops[1][0] == "i" and x.ops[1][1] > 0 and x.ops[1][1] & (x.ops[1][1] - 1) == 0:
        a, c = bits(f, x.ops[0], base, memo), x.ops[1][1].bit_length() - 1
        if a is not None and (x.op != "sdiv" or a[-1] == 0):
            r = (a[c:] + [0] * c) if x.op != "urem" else a[:c] + [0] * (n - c)
    memo[o[1]] = r
    return r
