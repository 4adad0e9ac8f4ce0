"""C11: every format string is program text and matches its arguments."""
import re
from sa.build import Tree
from sa.ir import Module, _op, opvals

# libc formatters: name -> (format argument, first variadic argument or None for va_list)
LIBC = {"printf": (0, 1), "fprintf": (1, 2), "sprintf": (1, 2), "snprintf": (2, 3), "dprintf": (1, 2), "asprintf": (1, 2),
        "vprintf": (0, None), "vfprintf": (1, None), "vsprintf": (1, None), "vsnprintf": (2, None), "vasprintf": (1, None),
        "vdprintf": (1, None), "syslog": (1, 2), "sscanf": (1, 2), "fscanf": (1, 2), "scanf": (0, 1)}

CONV = re.compile(r"%(?:%|(?P<flags>[-+ #0']*)(?P<w>\*|\d+)?(?:\.(?P<p>\*|-?\d+)?)?(?P<len>hh|h|ll|l|q|j|z|t|L)?(?P<c>[a-zA-Z]))")


def need_args(fmt):
    """list of classes: 'i' integer, 'p' pointer, 'f' floating; None if the format is malformed"""
    out = []
    pos = 0
    for m in re.finditer("%", fmt):
        if m.start() < pos:
            continue
        g = CONV.match(fmt, m.start())
        if not g:
            return None
        pos = g.end()
        if g.group(0) == "%%":
            continue
        if g.group("w") == "*":
            out.append("i")
        if g.group("p") == "*":
            out.append("i")
        c = g.group("c")
        if c in "diouxXc":
            out.append("i")
        elif c in "sp":
            out.append("p" if c == "p" else "s")
        elif c == "n":
            out.append("n")
        elif c in "eEfFgGaA":
            out.append("f")
        elif c == "m":
            pass
        else:
            return None
    return out


def argclass(f, o):
    k = o[0]
    if k in ("g", "gep", "n"):
        return "p" if k != "n" else "null"
    if k == "i":
        return "i"
    if k == "f":
        return "f"
    if k == "v":
        x = f.defs.get(o[1])
        ty = x.ty if x is not None else f.params[f.pidx[o[1]]][1] if o[1] in f.pidx else None
        if ty == "ptr":
            return "p"
        if ty and ty[0] == "i":
            return "i"
        if ty in ("double", "float", "x86_fp80"):
            return "f"
    return "?"


def sources(f, o, seen=None, deep=False):
    """the set of operands a value may come from (through phi / select / casts)"""
    seen = seen if seen is not None else set()
    if o[0] != "v":
        return [o]
    if o[1] in seen:
        return []
    seen.add(o[1])
    x = f.defs.get(o[1])
    if x is None:
        return [o]
    if x.op == "phi":
        return [y for v, _ in x.d["inc"] for y in sources(f, _op(v), seen, deep)]
    if x.op == "select":
        return sources(f, x.ops[1], seen, deep) + sources(f, x.ops[2], seen, deep)
    if x.op in ("bitcast", "freeze"):
        return sources(f, x.ops[0], seen)
    if x.op == "getelementptr" and deep:
        b = sources(f, x.ops[0], seen, True)
        return [y if y[0] == "v" else ("inside", y) for y in b]
    if x.op == "call" and deep and x.callee in ("strchr", "strrchr", "strstr"):
        return sources(f, x.ops[0], seen, True)
    return [o]


def composed(f, o):
    """operands a local buffer's text is composed of, when only bounded text writers fill it"""
    x = f.defs.get(o[1]) if o[0] == "v" else None
    if x is None or x.op != "alloca":
        return None
    parts, work, seen = [], [x.id], set()
    while work:
        v = work.pop()
        if v in seen:
            continue
        seen.add(v)
        for u in f.uses.get(v, []):
            if u.op in ("getelementptr", "bitcast", "phi", "select"):
                work.append(u.id)
            elif u.op == "call":
                if (u.callee or "").startswith("llvm."):
                    if u.callee.startswith("llvm.lifetime") or u.callee.startswith("llvm.dbg"):
                        continue
                    return None
                if v in list(opvals(u.ops[0])) and u.callee in ("snprintf", "sprintf", "strcpy", "strcat", "pstrcpy", "pstrcat"):
                    fi = {"snprintf": 2, "pstrcpy": 2, "pstrcat": 2}.get(u.callee, 1)
                    parts += [p for p in u.ops[fi:] if argclass(f, p) in ("p", "?")]
            elif u.op in ("load", "icmp"):
                pass
            else:
                return None
    return parts or None


def table_strings(m, f, o):
    """strings of a constant table the value is loaded from, or None"""
    if o[0] != "v":
        return None
    x = f.defs.get(o[1])
    if x is None or x.op != "load":
        return None
    bases = set()
    for a in sources(f, x.ops[0], None, True):
        while a[0] in ("gep", "inside"):
            a = a[1]
        if a[0] != "g":
            return None
        bases.add(a[1])
    if len(bases) != 1:
        return None
    g = m.globals.get(bases.pop())
    if not g or not g.get("const"):
        return None
    out = []

    def walk(i):
        if isinstance(i, list):
            if i and i[0] == "g" and len(i) >= 2 and isinstance(i[1], str):
                s = m.gstr(tuple(i))
                if s is not None:
                    out.append(s)
                return
            for y in i:
                walk(y)
        elif isinstance(i, dict):
            for y in i.values():
                walk(y)
    walk(g.get("init"))
    return out or None


def c11(R, tier):
    R.rules.append("Formatting functions are found by inference: a function is a formatter when one of its parameters reaches "
                   "the format argument of a libc formatter or of another formatter. At every call of a formatter in the whole "
                   "program the format must be a string constant of the program (possibly one of several, or of a constant "
                   "table); the conversions must have as many variadic arguments as they consume, of the right class "
                   "(integer / pointer / floating), %s never gets NULL or a non-pointer, and %n is not used.")
    T = Tree()
    m = Module(T.dump(("src", "tcc"), passes="function(sroa,early-cse,dce)"))
    fm = dict(LIBC)
    origin = {}
    ch = True
    while ch:
        ch = False
        for f in m.defined.values():
            if f.name in fm:
                continue
            for x in f.calls():
                if x.callee in fm and fm[x.callee][0] < len(x.ops):
                    for s in sources(f, x.ops[fm[x.callee][0]], None, True):
                        parts = composed(f, s)
                        if parts:
                            for s2 in parts:
                                for s3 in sources(f, s2, None, True):
                                    if s3[0] == "v" and s3[1] in f.pidx:
                                        s = s3
                        if s[0] == "v" and s[1] in f.pidx and f.name not in fm:
                            fm[f.name] = (f.pidx[s[1]], len(f.params) if f.vararg else None)
                            ch = True
    wr = sorted(set(fm) - set(LIBC))
    R.count("inferred_formatters", len(wr))
    R.notes.append("inferred formatters: " + ", ".join(wr))
    sites = 0
    for f in m.defined.values():
        for x in f.calls():
            if x.callee not in fm:
                continue
            fi, va = fm[x.callee]
            if fi >= len(x.ops):
                continue
            sites += 1
            bad = None
            fmts = []
            for s in sources(f, x.ops[fi], None, True):
                if s[0] == "inside":
                    b = s[1][1] if s[1][0] == "gep" else s[1]
                    if b[0] == "g" and m.globals.get(b[1], {}).get("const") and m.gstr(b) is not None:
                        continue   # a suffix of a string constant
                    bad = "the format is computed"
                    break
                parts = composed(f, s)
                if parts:
                    for s2 in parts:
                        for s3 in sources(f, s2, None, True):
                            if s3[0] == "v" and s3[1] in f.pidx and f.name in fm and fm[f.name][0] == f.pidx[s3[1]]:
                                continue
                            if m.gstr(s3 if s3[0] != "inside" else s3[1]) is None:
                                bad = "the format is composed of text that is not a string constant"
                    continue
                if s[0] == "v" and s[1] in f.pidx and f.name in fm and fm[f.name][0] == f.pidx[s[1]]:
                    continue   # the wrapper's own format parameter: checked at its callers
                st = m.gstr(s)
                g = s[1] if s[0] == "g" else (s[1][1] if s[0] == "gep" and s[1][0] == "g" else None)
                if st is not None and g is not None and m.globals.get(g, {}).get("const"):
                    fmts.append(st)
                    continue
                tb = table_strings(m, f, s)
                if tb is not None:
                    fmts += tb
                    continue
                bad = "the format is not a string constant of the program"
            if bad is None and va is not None:
                args = x.ops[va:]
                for st in fmts:
                    na = need_args(st)
                    if na is None:
                        bad = "malformed conversion in %r" % st
                        break
                    if "scanf" in x.callee:
                        na = ["p"] * len(na)
                    if len(na) > len(args):
                        bad = "%r consumes %d arguments, %d given" % (st, len(na), len(args))
                        break
                    for k, (want, o) in enumerate(zip(na, args)):
                        srcs = sources(f, o)
                        for so in srcs or [o]:
                            cl = argclass(f, so)
                            if want == "n" and "scanf" not in x.callee:
                                bad = "%%n in %r" % st
                            elif cl == "null" and want == "s":
                                bad = "argument %d of %r is NULL" % (k + 1, st)
                            elif want == "s" and cl in ("i", "f"):
                                bad = "argument %d of %r is not a string" % (k + 1, st)
                            elif want == "p" and cl in ("f",):
                                bad = "argument %d of %r is not a pointer" % (k + 1, st)
                            elif want == "i" and cl in ("f", "p"):
                                bad = "argument %d of %r is not an integer" % (k + 1, st)
                            elif want == "f" and cl in ("i", "p", "null"):
                                bad = "argument %d of %r is not floating" % (k + 1, st)
                            elif want == "s" and not is_charptr(m, f, so):
                                bad = "argument %d of %r is not a character string" % (k + 1, st)
            R.obligation(bad is None)
            if bad:
                R.violation("%s|%s|%s" % (f.sname, x.callee, bad), x.where(), "format-discipline",
                            "%s called by %s: %s" % (x.callee, f.sname, bad))
            elif fmts:
                R.sample("%s %s(%r)" % (x.where(), x.callee, fmts[0][:50]))
    R.count("formatter_calls", sites)
    R.floor("formatter_calls", 150, "formatter calls")
    R.floor("inferred_formatters", 5, "formatter wrappers")
    for w in ("_out", "_err"):
        R.need(w in fm, w + " is a formatter")


NOTSTR = ("fopen", "fopen64", "fdopen", "opendir", "tmpfile")


def is_charptr(m, f, o):
    """False when the value is certainly not a character string (a stream or directory handle)"""
    if o[0] == "v":
        x = f.defs.get(o[1])
        if x is not None and x.op == "call" and x.callee in NOTSTR:
            return False
    return True
